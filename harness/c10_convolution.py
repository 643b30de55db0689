"""C10: convolution and correlation. All cases of spec/ConvolutionMC and random ones are executed with the real code in all
modes and validated with spec/StoreTrace."""
import numpy
from .common import Check
from .data import random_data
from .store import Store, array_record

MODES = ("FULL", "SAME", "VALID", "SPECTRUM", "SPECTRUM_PADDED")


class ConvolutionCheck(Check):
    id = "C10"

    def perform_all(self, s, a=1, b=2, arrays=True):
        rng = self.rng
        for op in ("convolve", "correlate"):
            for mode in MODES:
                s.perform({"op": op, "a": a, "b": b, "args": {"mode": mode}})
        if arrays:
            for op in ("convolve", "correlate"):
                y = s.abstract[b - 1]
                arr = array_record(y["ch"])
                forms = ("array", "array_f") if y["nc"] > 1 else ("array", "flat_array", "flat_list", "flat_tuple_f")
                s.perform({"op": op, "a": a, "arr": arr, "form": rng.choice(forms), "args": {"mode": rng.choice(MODES)}})

    def random_trace(self):
        rng = self.rng
        a = random_data(rng, "signal", max_nc=4, max_len=17, off_range=9)
        b = random_data(rng, "signal", max_nc=4, max_len=17, off_range=9, nc=a["nc"] if rng.random() < 0.3 else None,
                        length=a["len"] if rng.random() < 0.2 else None)
        types = (numpy.float64, numpy.float64, numpy.int64, numpy.float32)
        s = Store([a, b], {0: rng.choice(types), 1: rng.choice(types)}, gap=rng.choice((1,) * 8 + (2, 64, 300, 1500)))
        self.perform_all(s)
        s.perform({"op": "convolve_number", "a": 1, "args": {"number": rng.randint(-5, 5), "method": rng.choice(("convolve", "correlate")),
                                                             "mode": rng.choice(MODES)}})
        # associativity, reversed operands etc.: operate on results
        s.perform({"op": rng.choice(("convolve", "correlate")), "a": rng.choice((1, 2)), "b": rng.choice((1, 2)), "args": {"mode": "FULL"}, "keep": True})
        if len(s.abstract) > 2:
            s.perform({"op": rng.choice(("convolve", "correlate")), "a": 3, "b": rng.choice((1, 2)), "args": {"mode": rng.choice(MODES)}})
        return s.trace()

    def run(self):
        r = self.model("ConvolutionMC", env={"MAXLEN": self.n(4, 6)}, workers=4)
        traces = []
        for c in r.printed("CASE"):
            s = Store(c["init"])
            self.perform_all(s, arrays=self.rng.random() < 0.3)
            traces.append(s.trace())
        self.notes["enumerated_cases"] = len(traces)
        for _ in range(self.n(250, 5000)):
            traces.append(self.random_trace())
        self.validate("StoreTrace", traces)


CHECK = ConvolutionCheck
