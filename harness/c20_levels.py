"""C20: levels, statistics and energy decay. The cases of spec/LevelsMC (all integration intervals for identity matrices, which reveal every
weight, small signals, spectrums and decays) and random ones are computed with the real code. The results are validated with
spec/LevelsTrace."""
import math
import numpy
import sumpf
from .common import Check, enc, encf, guarded, rate
from .data import kind, label

SCALE = 10 ** 6
STATISTICS = {"level": 2, "mean": 1, "standard_deviation": 2, "variance": 1, "skewness": -2, "kurtosis": 1}   # the power, whose value is recorded
UNITS = {"level": 1, "mean": 1, "standard_deviation": 1, "variance": 2, "skewness": 0, "kurtosis": 0}          # the power of the samples' unit
LABELS = ("", "a", "left", "Ä b")


def fixed(x, power=1):
    x = float(x)
    if power == -2:
        x = x * abs(x)
    elif power == 2:
        x = x * x if x >= 0.0 else math.nan     # levels are not negative
    return encf(x, SCALE)


class LevelsCheck(Check):
    id = "C20"

    # ---------------------------------------------------------------- data sets
    def record(self, ch, plain=False):
        rng = self.rng
        sr = [1, 1] if plain else list(rng.choice(([48000, 1], [44100, 1], [1, 1], [7, 2], [8, 1], [1, 10])))
        return {"nc": len(ch), "len": len(ch[0]), "ch": ch, "sr": sr, "off": 0 if plain else rng.choice((0, 3, -5)),
                "lab": [rng.choice(LABELS) for _ in ch]}

    def signal(self, s):
        """the signal and the unit of its samples. The unit is a power of two, so that it does not influence the rounding"""
        rng = self.rng
        unit = 1.0
        a = numpy.array(s["ch"], dtype=numpy.float64).reshape(s["nc"], s["len"])
        r = rng.random()
        if r < 0.4:
            unit = 2.0 ** rng.randint(-60, 60)
            a = a * unit
        elif r < 0.55:
            # integers, also such, whose squares can not be represented by their data type
            dtype = rng.choice((numpy.int64, numpy.int32, numpy.int16, numpy.int8))
            most = max(1.0, float(numpy.max(numpy.abs(a), initial=0.0)))
            room = int(math.floor(math.log2(numpy.iinfo(dtype).max / most))) - 1
            if room >= 0 and numpy.array_equal(a, numpy.rint(a)):
                unit = 2.0 ** rng.choice((0, rng.randint(0, room), room))
                a = (a * unit).astype(dtype)
        elif r < 0.65:
            a = numpy.asfortranarray(a)
        elif r < 0.75:
            b = numpy.full((s["nc"], 2 * s["len"]), 7.0)
            b[:, ::2] = a
            a = b[:, ::2]
        return sumpf.Signal(channels=a, sampling_rate=s["sr"][0] / s["sr"][1], offset=s["off"], labels=tuple(s["lab"])), unit

    @staticmethod
    def observe(x, function):
        out = {"k": kind(x), "meta": {}, "values": []}
        if out["k"] == "signal":
            c = numpy.asarray(x.channels())
            out["meta"] = {"nc": len(x), "len": int(x.length()), "sr": rate(x.sampling_rate()), "off": int(x.offset()), "lab": [label(y) for y in x.labels()]}
            out["values"] = [[function(v) for v in row] for row in c]
        return out

    @staticmethod
    def event(op, s, exc, out, what="", q=0, pad=False, y=(), start=0, stop=0):
        return {"op": op, "what": what, "s": s, "q": q, "pad": pad, "y": y, "start": start, "stop": stop, "exc": exc or "",
                "out": out or {"k": "none", "meta": {}, "values": []}}

    @staticmethod
    def numbers(x, function):
        """a result, that is a number or a sequence of numbers"""
        if isinstance(x, tuple):
            return {"k": "tuple", "meta": {}, "values": [function(v) for v in x]}
        if isinstance(x, numpy.ndarray) and x.ndim == 1:
            return {"k": "array", "meta": {}, "values": [function(v) for v in x]}
        if isinstance(x, (float, numpy.floating)) or (isinstance(x, numpy.ndarray) and x.ndim == 0):
            return {"k": "float", "meta": {}, "values": [function(x)]}
        return {"k": type(x).__name__, "meta": {}, "values": []}

    # --------------------------------------------------------------- operations
    def statistics(self, s, names):
        events = []
        x, unit = self.signal(s)
        for what in names:
            def function(v):
                return fixed(float(v) / unit ** UNITS[what], STATISTICS[what])
            for single in (False, True):
                y, exc = guarded(getattr(x, what), **({"single_value": single} if single or self.rng.random() < 0.5 else {}))
                events.append(self.event("single" if single else "statistic", s, exc, None if exc else self.numbers(y, function), what=what))
        return events

    def level_vs_time(self, s, q, pad):
        x, unit = self.signal(s)
        time = q / 4 * s["sr"][1] / s["sr"][0]
        kwargs = {} if not pad and self.rng.random() < 0.5 else {"pad": pad}
        y, exc = guarded(lambda: x.level_vs_time(time, **kwargs))
        return self.event("level_vs_time", s, exc, None if exc else self.observe(y, lambda v: fixed(v / unit, 2)), q=q, pad=pad)

    def decay(self, s):
        x, unit = self.signal(s)
        y, exc = guarded(sumpf.EnergyDecayCurve, x)
        return self.event("decay", s, exc, None if exc else self.observe(y, lambda v: enc(float(v) / unit / unit)))

    def fit(self, y, start, stop):
        """y: the base two logarithms of the energies"""
        rng = self.rng
        n = len(y[0])
        s = self.record([[0] * n for _ in y])
        energies = [[2.0 ** e for e in c] + [0.0] for c in y]
        ch = numpy.array([[rng.choice((-1, 1)) * math.sqrt(a - b) for a, b in zip(c[:-1], c[1:])] for c in energies])
        x = sumpf.Signal(channels=ch, sampling_rate=s["sr"][0] / s["sr"][1], offset=s["off"], labels=tuple(s["lab"]))
        edc, exc = guarded(sumpf.EnergyDecayCurve, x)
        if exc:
            return [self.event("decay", s, exc, None)]
        db = 10.0 * math.log10(2.0)

        def index(i):
            r = rng.random()
            if r < 0.6:
                return i
            if r < 0.8 and 0 < i < n:
                return i - n
            return i / n if i < n else i

        def slope(t):
            t = float(t)
            return encf(-60.0 / (t * db) * s["sr"][1] / s["sr"][0], SCALE) if t and math.isfinite(t) else (0 if math.isinf(t) else enc(math.nan))

        def log2(v):
            v = float(v)
            return encf(math.log2(v), SCALE) if v > 0.0 else enc(math.nan)
        a, b = index(start), index(stop)
        t, exc = guarded(edc.reverberation_time, a, b)
        events = [self.event("reverberation_time", s, exc, None if exc else self.numbers(t, slope), y=y, start=start, stop=stop)]
        m, exc = guarded(edc.decay_model, start=b if False else a, stop=b)
        events.append(self.event("decay_model", s, exc, None if exc else self.observe(m, log2), y=y, start=start, stop=stop))
        return events

    def spectrum_levels(self, ch):
        rng = self.rng
        s = self.record(ch)
        unit = 2.0 ** rng.randint(-40, 40)
        a = numpy.array([[complex(*z) for z in c] for c in ch]) * unit
        if rng.random() < 0.3 and not a.imag.any():
            a = a.real
        x = sumpf.Spectrum(channels=a, resolution=s["sr"][0] / s["sr"][1], labels=tuple(s["lab"]))
        y, exc = guarded(x.level)
        z, exc2 = guarded(x.level, single_value=True)

        def function(v):
            return fixed(float(v) / unit, 2)
        return [self.event("spectrum", s, exc, None if exc else self.numbers(y, function), what="level"),
                self.event("spectrums", s, exc2, None if exc2 else self.numbers(z, function), what="level")]

    # ------------------------------------------------------------------- traces
    def channels(self, nc, n, limit):
        rng = self.rng
        r = rng.random()
        if r < 0.1:
            return [[rng.randint(-limit, limit)] * n for _ in range(nc)]
        if r < 0.25:
            return [[rng.randint(-limit, limit) if rng.random() < 0.2 else 0 for _ in range(n)] for _ in range(nc)]
        return [[rng.randint(-limit, limit) for _ in range(n)] for _ in range(nc)]

    def random_trace(self):
        rng = self.rng
        events = []
        nc = rng.randint(1, 4)
        # all statistics of small signals
        n = rng.randint(1, 8)
        small = rng.randint(1, max(1, 8 // n))
        events += self.statistics(self.record(self.channels(small, n, 3)), STATISTICS)
        # statistics of longer signals
        n = rng.choice((rng.randint(2, 40), rng.randint(2, 300)))
        s = self.record(self.channels(nc, n, 3))
        events += self.statistics(s, ("level", "mean", "variance", "standard_deviation"))
        events.append(self.decay(s))
        n = rng.choice((0, 1, 2, rng.randint(1, 12), rng.randint(1, 12), rng.randint(10, 60)))
        s = self.record(self.channels(nc, n, 3))
        for _ in range(2):
            q = rng.choice((0, 2, 4, 5, 4 * n, 8 * n, rng.randint(0, 8 * n + 20), rng.randint(0, 4 * n + 4), 4 * rng.randint(0, n + 2), rng.randint(0, 30)))
            events.append(self.level_vs_time(s, q, rng.random() < 0.5))
        n = rng.randint(2, 12)
        y = []
        for _ in range(rng.randint(1, 3)):
            e = rng.randint(-10, 10)
            y.append([e])
            for _ in range(n - 1):
                e -= rng.choice((1, 1, rng.randint(0, 3)))
                y[-1].append(e)
        start = rng.randint(0, n - 2)
        events += self.fit(y, start, rng.randint(start + 2, n))
        n = rng.randint(1, 20)
        events += self.spectrum_levels([[[rng.randint(-3, 3), rng.choice((0, rng.randint(-3, 3)))] for _ in range(n)] for _ in range(nc)])
        return {"events": events}

    def run(self):
        r = self.model("LevelsMC", env={"MAXLENGTH": self.n(4, 5), "MAXWINDOW": self.n(6, 9)}, workers=8)
        traces = []
        cases = r.printed("WINDOW")
        for c in cases:
            n = c["n"]
            s = self.record([[int(i == j) * self.rng.choice((1, 1, -1)) for j in range(n)] for i in range(n)])
            traces.append({"events": [self.level_vs_time(s, c["q"], c["pad"])]})
        self.notes["enumerated_intervals"] = len(cases)
        cases = r.printed("STATISTIC")
        if not self.thorough:
            cases = self.rng.sample(cases, min(len(cases), 250))
        for c in cases:
            s = self.record(c)
            traces.append({"events": self.statistics(s, STATISTICS) + [self.decay(s)]})
        cases = r.printed("DECAY")
        if not self.thorough:
            cases = self.rng.sample(cases, min(len(cases), 200))
        for c in cases:
            traces.append({"events": self.fit([c["y"]], c["start"], c["stop"])})
        for c in r.printed("SPECTRUM"):
            traces.append({"events": self.spectrum_levels([c])})
        for _ in range(self.n(250, 5000)):
            traces.append(self.random_trace())
        self.validate("LevelsTrace", traces)


CHECK = LevelsCheck
