"""C09: padding, shifting and reversing. All cases of spec/MovingMC and random sequences are executed with the real code
and validated with spec/StoreTrace."""
import numpy
from .common import Check
from .data import grains, random_data
from .store import Store, random_values


class MovingCheck(Check):
    id = "C09"

    def enumerated(self):
        r = self.model("MovingMC", env={"MAXLEN": self.n(4, 7)}, workers=4)
        groups = {}
        for c in r.printed("CASE"):
            groups.setdefault(repr(c["d"]), (c["d"], []))[1].append(c["op"])
        traces = []
        for d, ops in groups.values():
            s = Store([d])
            for o in ops:
                s.perform({"op": o["op"], "a": 1, "args": {"length": o["length"], "value": o["value"], "shift": o["shift"], "mode": o["mode"]}})
                if o["op"] == "shift" and o["mode"] == "OFFSET":
                    s.perform({"op": "shift", "a": 1, "args": {"shift": o["shift"], "mode": o["mode"], "default": True}})
                if o["op"] == "pad" and o["value"] == [0, 0]:
                    s.perform({"op": "pad", "a": 1, "args": {"length": o["length"], "value": o["value"], "default": True}})
            traces.append(s.trace())
        return traces

    def random_trace(self):
        rng = self.rng
        d = random_data(rng, rng.choice(("signal", "signal", "spectrum", "spectrogram")), max_nc=4, max_len=12, max_nf=4, off_range=20)
        precise = rng.random() < 0.2        # single precision is not sufficient for the samples
        if precise:
            d = random_values(rng, d, lambda: [rng.randint(-2 ** 27, 2 ** 27), 0 if d["k"] == "signal" else rng.randint(-2 ** 27, 2 ** 27)])
        s = Store([d], None if precise else {0: rng.choice((numpy.complex128, numpy.complex64)) if d["k"] != "signal" else
                        rng.choice((numpy.float64, numpy.float32, numpy.int64))}, grains(rng))
        for _ in range(6):
            a = rng.randint(1, len(s.abstract))
            x = s.abstract[a - 1]
            op = rng.choice({"signal": ("pad", "shift", "shift", "reversed"), "spectrum": ("pad",), "spectrogram": ("pad", "shift", "shift")}[x["k"]])
            mode = rng.choice(("OFFSET", "CROP", "PAD", "CYCLE"))
            limit = x["len"] + 3 if mode != "CYCLE" else x["len"]
            shift = [rng.randint(-limit, limit)]
            if mode == "OFFSET" and rng.random() < 0.2:
                shift = []
            e = {"op": op, "a": a, "keep": x["len"] < 40, "args": {
                "length": rng.randint(1, x["len"] + 5), "shift": shift, "mode": mode,
                "value": [rng.choice((0, 3, -2)), rng.choice((0, 1)) if x["k"] != "signal" else 0]}}
            s.perform(e)
        return s.trace()

    def classify(self, clause, trace, info):
        """cyclic shifts by more than the length of the data set"""
        i = info.get("step")
        if not i or i > len(trace["events"]):
            return None
        e = trace["events"][i - 1]
        if clause == "shift: samples" and e["op"] == "shift" and e["args"]["mode"] == "CYCLE":
            store = list(trace["init"])
            for x in trace["events"][:i - 1]:
                if x["keep"]:
                    store.append(x["out"])
            d = store[e["a"] - 1]
            if abs(e["args"]["shift"][0]) > d["len"] and e["out"]["ch"] == d["ch"]:
                return "cyclic-shift-beyond-length"
        return None

    def run(self):
        traces = self.enumerated()
        for _ in range(self.n(400, 8000)):
            traces.append(self.random_trace())
        # the known finding ends a trace with its first occurrence, so these events get their own traces
        separate = []
        for t in traces:
            for e in list(t["events"]):
                if e["op"] == "shift" and e["args"]["mode"] == "CYCLE" and not e["keep"] and e["a"] <= len(t["init"]) \
                        and abs(e["args"]["shift"][0]) > t["init"][e["a"] - 1]["len"]:
                    t["events"].remove(e)
                    separate.append({"init": t["init"], "events": [e], "final": t["init"]})
        self.validate("StoreTrace", traces + separate)


CHECK = MovingCheck
