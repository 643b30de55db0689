"""C08: slicing. All keys, that spec/IndexingMC enumerates, are applied to every axis of all types of data sets; random
keys and chains of slices follow. The results are validated with spec/StoreTrace."""
import numpy
from .common import Check
from .data import grains, random_data
from .store import Store, random_key, defined_offset

FULL = {"t": "slice", "v": [[], [], []]}


class SlicingCheck(Check):
    id = "C08"

    def enumerated(self):
        r = self.model("IndexingMC", env={"MAXLEN": self.n(3, 5)}, workers=4)
        elems = {}
        for e in r.printed("ELEM"):
            elems.setdefault(e["len"], []).append(e["elem"])
        self.notes["enumerated_key_elements"] = {k: len(v) for k, v in elems.items()}
        traces = []
        number = 0
        for n, es in elems.items():
            for k, axes in (("signal", 2), ("spectrum", 2), ("spectrogram", 3), ("filter", 1)):
                for axis in range(axes):
                    size = [2, 3, 2][:axes] if k == "spectrogram" else [2, 3][:axes]
                    size[axis] = n
                    number += 1
                    d = distinct(k, size[0], size[1] if k == "spectrogram" else 1, size[-1] if axes > 1 else 1, (0, 3, -2, 5)[number % 4])
                    for chunk in range(0, len(es), 60):
                        s = Store([d])
                        for e in es[chunk:chunk + 60]:
                            forms = [[FULL] * axis + [e]]
                            for key in forms:
                                single = len(key) == 1 and (k == "filter" or number % 2 == 0 and e["t"] != "int" or e["t"] == "slice")
                                s.perform({"op": "slice", "a": 1, "args": {"key": key, "tuple": not single}})
                            if e["t"] != "slice" and axis == 0 and k != "filter":
                                s.perform({"op": "slice", "a": 1, "args": {"key": [e], "tuple": False}})
                        traces.append(s.trace())
        return traces

    def random_trace(self):
        rng = self.rng
        d = random_data(rng, rng.choice(("signal", "spectrum", "spectrogram")), max_nc=5, max_len=9, max_nf=5)
        s = Store([d], {0: rng.choice((numpy.complex128, numpy.complex64)) if d["k"] != "signal" else
                        rng.choice((numpy.float64, numpy.float32, numpy.int64))}, grains(rng))
        for _ in range(6):
            a = rng.choice([i for i, x in enumerate(s.abstract, 1)])
            x = s.abstract[a - 1]
            key, tup = random_key(rng, x)
            axes = [x["nc"], x["nf"], x["len"]] if x["k"] == "spectrogram" else [x["nc"], x["len"]]
            if 0 in axes:
                continue
            keep = defined_offset(x, key)
            e = s.perform({"op": "slice", "a": a, "args": {"key": key, "tuple": tup}})
            if keep and not e["exc"] and e["out"]["nc"] and e["out"]["len"] and e["out"]["nf"]:
                # only non-empty results with a specified offset are sliced again
                s.events.pop()
                s.perform({"op": "slice", "a": a, "args": {"key": key, "tuple": tup}, "keep": True})
        return s.trace()

    def run(self):
        traces = self.enumerated()
        for _ in range(self.n(400, 8000)):
            traces.append(self.random_trace())
        self.validate("StoreTrace", traces)


def distinct(k, nc, nf, length, off):
    """a data set, whose samples are all different"""
    timed = k in ("signal", "spectrogram")
    cplx = k in ("spectrum", "spectrogram")
    return {"k": k, "nc": nc, "nf": nf, "len": length, "off": off if timed else 0, "sr": [48, 1] if timed else [0, 1],
            "res": [7, 1] if cplx else [0, 1], "lab": [f"label{c}" for c in range(nc)],
            "ch": [[[[100 * c + 10 * f + i, c + f + i if cplx else 0] for i in range(length)] for f in range(nf)] for c in range(nc)]}


CHECK = SlicingCheck
