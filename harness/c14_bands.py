"""C14: band filters. All cases of spec/BandsMC (sets of support points in all orders, all modes) and random programs are executed
with the real code; the recorded values are validated with spec/BandsTrace."""
import math
from fractions import Fraction
import numpy
import sumpf
try:
    from sumpf._data._filters._base import S
except ImportError:     # an internal class
    S = None
from .common import Check, guarded
from .data import label

MODES = ("ZERO", "ONE", "LINEAR", "LOGARITHMIC", "LOG_X", "LOG_Y", "STAIRS_LIN", "STAIRS_LOG")
LOG_XS = ("LOGARITHMIC", "LOG_X", "STAIRS_LOG")
LOG_YS = ("LOGARITHMIC", "LOG_Y")
FREQUENCIES = [[1, 2], [1, 1], [3, 2], [2, 1], [3, 1], [4, 1], [8, 1], [10, 1], [16, 1], [32, 1]]


def rational(x, limit=1e6):
    if not math.isfinite(x) or abs(x) > limit:
        return [0, 0]
    f = Fraction(x).limit_denominator(20000)
    if abs(float(f) - x) > 2e-11 * max(1.0, abs(x)) or abs(f.numerator) > 1e9:
        return [0, 0]
    return [f.numerator, f.denominator]


def value_record(v):
    v = complex(v)
    record = {"re": rational(v.real), "im": rational(v.imag), "s": 0, "lg": [0, 0]}
    if math.isfinite(v.real) and v.real != 0.0 and abs(v.imag) < 1e-12 * abs(v.real):
        record["s"] = 1 if v.real > 0 else -1
        record["lg"] = rational(math.log2(abs(v.real)))
    return record


def number(q, rng):
    x = q[0] / q[1]
    return int(x) if q[1] == 1 and rng.random() < 0.3 else x


class BandsCheck(Check):
    id = "C14"

    # -------------------------------------------------------------- operations
    def create(self, store, events, channels, given):
        """channels: a list of [pts, inter, extra]"""
        self.channels = channels
        rng = self.rng
        integer = rng.random() < 0.15
        bands = []
        for pts, _, _ in channels:
            d = {}
            for x, y in pts:
                im = y[1][0] / y[1][1]
                re = number(y[0], rng) if not integer or y[0][1] != 1 else y[0][0]
                d[number(x, rng)] = complex(re, im) if im or rng.random() < 0.05 else re
            bands.append(d)
        inter = [c[1] for c in channels]
        extra = [c[2] for c in channels]
        flags = []
        for names in (inter, extra):
            n = names[:]
            while len(n) > 1 and n[-1] == n[-2] and rng.random() < 0.7:
                n.pop()
            f = [sumpf.Bands.interpolations[m] for m in n]
            flags.append(f[0] if len(f) == 1 and rng.random() < 0.6 else (tuple(f) if rng.random() < 0.5 else f))
        x, exc = guarded(sumpf.Bands, bands=bands[0] if len(bands) == 1 and rng.random() < 0.5 else bands,
                         interpolations=flags[0], extrapolations=flags[1], labels=tuple(given))
        events.append({"op": "create", "pts": [c[0] for c in channels], "inter": inter, "extra": extra, "given": given[:len(channels)],
                       "lab": [label(s) for s in x.labels()] if exc is None else [], "exc": exc or ""})
        store.append(x)
        return x

    def derive(self, store, events, a, op, name, q=(1, 1), factor=1):
        x = store[a - 1]
        v = q[0] / q[1]
        f = {"neg": lambda: -x, "add": lambda: x + v, "sub": lambda: x - v, "rsub": lambda: v - x, "mul": lambda: x * v, "div": lambda: x / v,
             "rdiv": lambda: v / x, "abs": lambda: abs(x), "invert": lambda: ~x,
             "to_db": lambda: x.to_db(reference=v, factor=float(factor)), "from_db": lambda: x.from_db(reference=v, factor=float(factor))}[name]
        y, exc = guarded(f)
        before = [label(s) for s in x.labels()]
        after = [label(s) for s in y.labels()] if hasattr(y, "labels") else ["no filter"]
        # only the number of the labels is specified for arithmetic
        if op == "apply":
            before, after = ["" for _ in before], ["" for _ in after]
        events.append({"op": op, "a": a, "name": name, "q": list(q), "factor": factor, "exc": exc or "", "before": before, "lab": after})
        if exc is None:
            store.append(y)
        return y

    def evaluate(self, store, events, a, fs, form=None):
        rng = self.rng
        x = store[a - 1]
        if not fs:
            form = "array"
        empty = any(not c[0] for c in self.channels)
        form = form or rng.choice(("array", "array", "list", "scalar", "tuple", "matrix", "reversed", "term"))
        values = [f[0] / f[1] for f in fs]
        if form == "scalar":
            values = [number(f, rng) for f in fs]

            def call():
                return list(zip(*[x(v) for v in values])) if values else []
        elif form == "list":
            def call():
                return x(list(values))
        elif form == "term" and (empty or S is None):
            return self.evaluate(store, events, a, fs, "array")
        elif form == "term":    # the terms evaluate single frequencies, too (e.g. for the normalization of weighting filters)
            def call():
                return [[t(S(float(v))) for v in values] for t in x.transfer_functions()]
        elif form == "tuple":
            def call():
                return x(tuple(values))
        elif form == "matrix":
            def call():
                return [c[:, 0] for c in x(numpy.array([[v, v] for v in values]))]
        elif form == "spectrum":
            def call():
                return x.spectrum(resolution=values[1] - values[0] if len(values) > 1 else 1.0, length=len(values)).channels()
        elif form == "reversed":
            def call():
                return [c[::-1] for c in x(numpy.array(values[::-1]))]
        else:
            def call():
                return x(numpy.array(values))
        y, exc = guarded(call)
        out = [[value_record(v) for v in c] for c in y] if exc is None else []
        events.append({"op": "eval", "a": a, "f": fs, "out": out, "exc": exc or "", "form": form})

    # ------------------------------------------------------------------ traces
    def case_trace(self, c):
        store, events = [], []
        self.create(store, events, [[c["pts"], c["inter"], c["extra"]]], ["a"])
        if events[-1]["exc"] == "":
            fs = FREQUENCIES[:]
            if self.rng.random() < 0.3:
                self.rng.shuffle(fs)
            self.evaluate(store, events, 1, fs)
            if self.rng.random() < 0.3:
                self.derive(store, events, 1, *self.rng.choice((("apply", "mul", (2, 1)), ("apply", "neg", (1, 1)), ("map", "abs", (1, 1)),
                                                                ("map", "invert", (1, 1)), ("apply", "add", (3, 1)))))
                if len(store) > 1:
                    self.evaluate(store, events, 2, fs)
        return {"events": events}

    def random_points(self, inter, extra, decibels):
        rng = self.rng
        n = rng.choice((0, 1, 2, 2, 3, 3, 4, 5, 7))
        logx = inter in LOG_XS or extra in LOG_XS
        logy = inter in LOG_YS or extra in LOG_YS
        if logx and rng.random() < 0.9:
            xs = [[2 ** e, 1] if e >= 0 else [1, 2 ** -e] for e in rng.sample(range(-3, 7), n)]
        else:
            xs = [[x, 1] if rng.random() < 0.7 else [2 * x + 1, 2] for x in rng.sample(range(0, 60), n)]
        pts = []
        for x in xs:
            if decibels:
                e = rng.randint(-2, 2)
                y = [[10 ** e, 1] if e >= 0 else [1, 10 ** -e], [0, 1]]
            elif logy and rng.random() < 0.97:
                e = rng.randint(-5, 5)
                y = [[2 ** e, 1] if e >= 0 else [1, 2 ** -e], [0, 1]]
            elif logy:
                y = [[rng.randint(0, 9), 1], [0, 1]]
            else:
                y = [[rng.randint(-9, 9), rng.choice((1, 1, 2))], [rng.choice((0, 0, rng.randint(-5, 5))), 1]]
            pts.append([x, y])
        return pts

    def random_trace(self):
        rng = self.rng
        store, events = [], []
        decibels = rng.random() < 0.15
        nc = 1 if decibels else rng.choice((1, 1, 2, 3))
        flags = [(rng.choice(MODES), rng.choice(MODES)) for _ in range(nc)]
        if rng.random() < 0.3:
            flags = flags[:1] * nc
        channels = [[self.random_points(i, e, decibels), i, e] for i, e in flags]
        given = [rng.choice(("x", "Bands", "")) for _ in range(rng.choice((nc, nc, nc, 0, max(nc - 1, 0))))]
        self.create(store, events, channels, given)
        if events[-1]["exc"]:
            return {"events": events}
        support = [p[0] for c in channels for p in c[0]]

        def frequencies():
            fs = rng.sample(support, min(len(support), 5))
            for _ in range(0 if decibels else rng.randint(0, 8)):
                r = rng.random()
                if r < 0.4:
                    e = rng.randint(-4, 8)
                    fs.append([2 ** e, 1] if e >= 0 else [1, 2 ** -e])
                elif r < 0.6 and len(support) > 1:
                    a, b = rng.sample(support, 2)
                    m = Fraction(*a) + (Fraction(*b) - Fraction(*a)) / rng.choice((2, 2, 4))
                    fs.append([m.numerator, m.denominator])
                else:
                    fs.append([rng.randint(0, 140), 2])
            rng.shuffle(fs)
            return fs
        if rng.random() < 0.1:
            self.evaluate(store, events, 1, [[k, 1] for k in range(rng.randint(1, 20))], form="spectrum")
        self.evaluate(store, events, 1, frequencies())
        safe = all(c[0] and all(p[1][0][0] != 0 or p[1][1][0] != 0 for p in c[0]) for c in channels)
        real = all(p[1][1][0] == 0 for c in channels for p in c[0])
        for _ in range(rng.randint(0, 3)):
            if decibels:
                if len(store) > 1:
                    break
                factor = rng.choice((20, 10, 5))
                self.derive(store, events, 1, "map", "to_db", rng.choice(((1, 1), (10, 1), (1, 10))), factor)
                if len(store) > 1:
                    self.evaluate(store, events, 2, frequencies())
                    self.derive(store, events, 2, "map", "from_db", rng.choice(((1, 1), (10, 1), (1, 10))), factor)
            else:
                a = rng.randint(1, len(store))
                q = rng.choice(((2, 1), (1, 2), (-4, 1), (-1, 1), (3, 1), (8, 1)))
                ops = [("apply", n) for n in ("neg", "add", "sub", "rsub", "mul", "div", "mul")]
                if a == 1:
                    ops += [("map", "abs")] * (2 if real else 0) + ([("map", "invert"), ("map", "invert"), ("apply", "rdiv")] if safe and real else [])
                op, name = rng.choice(ops)
                self.derive(store, events, a, op, name, q)
            if events[-1]["exc"]:
                break
            self.evaluate(store, events, len(store), frequencies())
            if rng.random() < 0.2:
                self.evaluate(store, events, 1, frequencies())
        return {"events": events}

    def run(self):
        r = self.model("BandsMC", env={"MAXPOINTS": self.n(3, 4)}, workers=8)
        cases = r.printed("CASE")
        traces = [self.case_trace(c) for c in cases]
        self.notes["enumerated_cases"] = len(cases)
        for _ in range(self.n(800, 20000)):
            traces.append(self.random_trace())
        self.validate("BandsTrace", traces)


CHECK = BandsCheck
