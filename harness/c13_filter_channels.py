"""C13: filters evaluate their channels independently. The channel sequences of spec/FilterEvalMC and random ones are evaluated in
all ways, that SuMPF offers, and validated with spec/FilterEval."""
import math
import numpy
import sumpf
from .common import Check, encf, guarded
from .c12_filter_algebra import random_term
from .filters import build, frequency, rational

HOW = ("array", "list", "scalar", "spectrum", "reversed array", "slices", "twice", "matrix", "grid", "cube", "merge", "int")


def raw(z):
    z = complex(z)
    return [encf(z.real, 1000), encf(z.imag, 1000)]


def encode(rows):
    return {"val": [[rational(v) for v in row] for row in rows], "raw": [[raw(v) for v in row] for row in rows]}


class FilterChannelsCheck(Check):
    id = "C13"

    def evaluate(self, f, how, points, u0):
        fs = [frequency(p) for p in points]
        n = len(fs)
        if how == "array":
            r = f(numpy.array(fs))
        elif how == "list":
            r = f(fs)
        elif how == "scalar":
            r = list(zip(*[f(x) for x in fs])) if len(f) else []
        elif how == "spectrum":
            r = f.spectrum(resolution=frequency(u0), length=n).channels()
        elif how == "reversed array":
            r = [c[::-1] for c in f(numpy.array(fs[::-1]))]
        elif how == "slices":
            r = [f[c](numpy.array(fs))[0] for c in range(len(f))]
        elif how == "twice":
            f(0.0)
            f.spectrum(resolution=1.0, length=3)
            r = f(numpy.array(fs))
        elif how == "matrix":
            r = [numpy.reshape(c, (n,)) for c in f(numpy.reshape(numpy.array(fs), (n, 1)))]
        elif how == "grid":     # the frequency 0 shares its row and column with other ones
            shift = self.rng.randrange(n)
            grid = numpy.array([fs, fs[shift:] + fs[:shift], fs[::-1]])
            row, order = self.rng.choice(((0, slice(None)), (1, [(i - shift) % n for i in range(n)]), (2, slice(None, None, -1))))
            if self.rng.random() < 0.3:
                r = [c.transpose()[row, order] for c in f(grid.transpose())]
            else:
                r = [c[row, order] for c in f(grid)]
        elif how == "cube":
            r = [c[1, :, 0] for c in f(numpy.array([[[a, b] for a, b in zip(fs[::-1], fs)], [[a, b] for a, b in zip(fs, fs[::-1])]]))]
        elif how == "merge":
            m = sumpf.Merge([f[c] for c in range(len(f))])
            r = m.output()(numpy.array(fs))
        elif how == "int":      # only the frequency zero is an integer
            r = [[a] + list(b[1:]) if points[0][0] == 0 else list(b) for a, b in zip(f(0), f(numpy.array(fs)))]
        return encode([numpy.broadcast_to(c, (n,)).tolist() if numpy.ndim(c) < 2 else c for c in r])

    def record(self, events, e, function):
        with numpy.errstate(all="ignore"):
            out, exc = guarded(function)
        e["exc"] = exc or ""
        e["out"] = out or {"val": [], "raw": []}
        events.append(e)

    def behaviour(self, terms, points, u0, channel_lists, apply=False, hows=None):
        rng = self.rng
        form = rng.choice(("", "array", "tuple"))
        built, exc = guarded(lambda: [build(t, form, points) for t in terms])
        if exc:
            return None
        events = []
        for c in sorted({c for cs in channel_lists for c in cs}):
            self.record(events, {"op": "single", "channels": [c], "how": "array"},
                        lambda: self.evaluate(sumpf.Filter((built[c - 1],)), "array", points, u0))
        for cs in channel_lists:
            f = sumpf.Filter(transfer_functions=tuple(built[c - 1] for c in cs), labels=tuple(f"label {c}" for c in cs))
            for how in hows or rng.sample(HOW, 3):
                self.record(events, {"op": "multi", "channels": cs, "how": how}, lambda: self.evaluate(f, how, points, u0))
            if apply:
                self.apply(events, f, cs, points, u0)
        return {"points": points, "terms": terms, "events": events}

    def apply(self, events, f, cs, points, u0):
        rng = self.rng
        nc = rng.choice((1, len(cs))) if len(cs) > 1 else rng.randint(1, 3)
        n = len(points)
        left = rng.random() < 0.5

        def mul(x):
            return f * x if left else x * f
        val = [[[rng.randint(-4, 4), rng.randint(-4, 4)] for _ in range(n)] for _ in range(nc)]

        def spectrum():
            x = sumpf.Spectrum(channels=numpy.array([[complex(*v) for v in row] for row in val]), resolution=frequency(u0))
            y = mul(x)
            assert y.resolution() == x.resolution()
            return encode(y.channels().tolist())
        self.record(events, {"op": "spectrum", "channels": cs, "x": {"val": val}}, spectrum)
        nt = rng.randint(1, 3)
        val2 = [[[[rng.randint(-4, 4), rng.randint(-4, 4)] for _ in range(nt)] for _ in range(n)] for _ in range(nc)]

        def spectrogram():
            x = sumpf.Spectrogram(channels=numpy.array([[[complex(*v) for v in t] for t in row] for row in val2]),
                                  resolution=frequency(u0), sampling_rate=3.0, offset=rng.randint(-2, 2))
            y = mul(x)
            assert (y.resolution(), y.sampling_rate(), y.offset()) == (x.resolution(), x.sampling_rate(), x.offset())
            return {"val": [[[rational(v) for v in t] for t in row] for row in y.channels().tolist()], "raw": []}
        self.record(events, {"op": "spectrogram", "channels": cs, "x": {"val": val2}}, spectrogram)
        length = rng.choice((2, 4))
        if length // 2 + 1 <= n:
            val3 = [[[rng.randint(-4, 4), 0] for _ in range(length)] for _ in range(nc)]
            off = rng.randint(-3, 3)

            def signal():
                x = sumpf.Signal(channels=numpy.array([[float(v[0]) for v in row] for row in val3]), sampling_rate=length * frequency(u0), offset=off)
                y = mul(x)
                assert abs(y.sampling_rate() / x.sampling_rate() - 1) < 1e-12 and y.offset() == 0
                return encode(y.channels().tolist())
            self.record(events, {"op": "signal", "channels": cs, "x": {"val": val3, "off": off}}, signal)

    def run(self):
        r = self.model("FilterEvalMC", env={"MAXLEN": self.n(3, 4)}, workers=4)
        lists = [c["channels"] for c in r.printed("CHANNELS") if c["channels"]]
        base = r.printed("TERMS")[0]
        self.notes["enumerated_channel_sequences"] = len(lists)
        traces = []
        for i in range(0, len(lists), 8):
            traces.append(self.behaviour(base["terms"], base["points"], [1, 2], lists[i:i + 8], apply=i % 3 == 0,
                                         hows=("array", "scalar", "spectrum") if i % 2 else ("array", "spectrum")))
        for _ in range(self.n(500, 12000)):
            u0 = self.rng.choice(([1, 2], [1, 1], [2, 1]))
            n = self.rng.randint(2, 5)
            points = []
            for k in range(n):
                g = math.gcd(k * u0[0], u0[1])
                points.append([k * u0[0] // g, u0[1] // g])
            terms = [fit(random_term(self.rng, self.rng.randint(0, 3)), n) for _ in range(self.rng.randint(2, 4))]
            cs = [[self.rng.randint(1, len(terms)) for _ in range(self.rng.randint(1, 5))] for _ in range(2)]
            t = self.behaviour(terms, points, u0, cs, apply=True)
            if t is not None:
                traces.append(t)
        self.validate("FilterEval", traces)


def fit(term, n):
    """adapts the number of support points of bands"""
    if term["t"] == "bands":
        return dict(term, v=(term["v"] * n)[:n])
    if "x" in term:
        return dict(term, x=[fit(t, n) for t in term["x"]])
    return term


CHECK = FilterChannelsCheck
