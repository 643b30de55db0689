"""C11: Fourier transforms. All cases of spec/FourierMC (shapes, offsets, windows, overlaps and paddings) and random ones are
transformed with the real code. The recorded spectrums are brought into the circular form with a plain inverse discrete Fourier
transform and validated with spec/FourierTrace."""
import cmath
import math
from fractions import Fraction
import numpy
import sumpf
from .common import Check, encf, guarded, rate
from .data import from_sumpf, kind, label, random_data, to_sumpf

DENOMINATOR = 3000


def rational(x, single=False):
    """the fraction with a small denominator, that the number x is an approximation of (single precision requires a wider tolerance)"""
    if not math.isfinite(x) or abs(x) > 1e5:
        return [0, 0]
    f = Fraction(x).limit_denominator(200 if single else DENOMINATOR)
    if abs(float(f) - x) > (1e-5 if single else 2e-8) * max(1.0, abs(x)):
        return [0, 0]
    return [f.numerator, f.denominator]


def dft(y):
    """the bins of the real sequence y"""
    n = len(y)
    return [sum(v * cmath.exp(-2j * math.pi * ((k * m) % n) / n) for m, v in enumerate(y)) for k in range(n // 2 + 1)]


def circular(bins, n):
    """the real sequence with the length n, whose discrete Fourier transform has the given bins"""
    full = list(bins) + [bins[n - k].conjugate() for k in range(n // 2 + 1, n)]
    return [sum(b * cmath.exp(2j * math.pi * ((k * m) % n) / n) for k, b in enumerate(full)).real / n for m in range(n)]


def edge_is_real(bins, n):
    scale = 1e-5 * max(1.0, max((abs(b) for b in bins), default=0.0))
    return bool(abs(bins[0].imag) < scale and (n % 2 == 1 or abs(bins[-1].imag) < scale))


def window_record(channels, scale):
    return {"nc": len(channels), "len": len(channels[0]), "ch": [[int(round(v * scale)) for v in c] for c in channels]}


HANN = {2: [0, 4], 3: [0, 3, 3], 4: [0, 2, 4, 2], 6: [0, 1, 3, 4, 3, 1]}
NO_WINDOW = {"nc": 1, "len": 1, "ch": [[1]]}


class FourierCheck(Check):
    id = "C11"
    single = False

    # ------------------------------------------------------------ observations
    def observe_spectrum(self, x, n):
        k = kind(x)
        out = {"k": k, "nc": 0, "len": 0, "res": [0, 1], "lab": [], "edge": False, "y": []}
        if k != "spectrum":
            return out
        channels = x.channels()
        out.update(nc=len(channels), len=int(numpy.shape(channels)[-1]), res=rate(x.resolution()), lab=[label(s) for s in x.labels()])
        if out["len"] == n // 2 + 1:
            out["y"] = [[rational(v, self.single) for v in circular([complex(b) for b in c], n)] for c in channels]
            out["edge"] = all(edge_is_real(c, n) for c in channels)
        return out

    def observe_spectrogram(self, x, n):
        k = kind(x)
        out = {"k": k, "nc": 0, "nf": 0, "len": 0, "res": [0, 1], "sr": [0, 1], "off": 0, "lab": [], "edge": False, "y": []}
        if k != "spectrogram":
            return out
        channels = x.channels()
        nc, nf, length = numpy.shape(channels)
        out.update(nc=nc, nf=nf, len=length, res=rate(x.resolution()), sr=rate(x.sampling_rate()), off=int(x.offset()),
                   lab=[label(s) for s in x.labels()])
        if nf == n // 2 + 1:
            single = self.single
            columns = [[[complex(b) for b in channels[c, :, t]] for t in range(length)] for c in range(nc)]
            out["y"] = [[[rational(v, single) for v in circular(b, n)] for b in c] for c in columns]
            out["edge"] = all(edge_is_real(b, n) for c in columns for b in c)
        return out

    # -------------------------------------------------------------- operations
    def perform_full(self, s, x):
        n = max(1, s["len"])
        y, exc = guarded(x.fourier_transform)
        e = [self.event("full", s, out=self.observe_spectrum(y, n), exc=exc)]
        if exc is None and s["len"] % 2 == 0 and s["len"] > 0 and s["nc"] > 0:
            z, exc = guarded(y.inverse_fourier_transform)
            e.append(self.event("roundtrip", s, out=from_sumpf(z, tol=1e-6), exc=exc))
        return e

    def perform_inverse(self, s):
        """transforms a spectrum, that has been computed from the signal s without the library"""
        n = s["len"]
        res = s["sr"][0] / s["sr"][1] / n
        x = sumpf.Spectrum(channels=numpy.array([dft([v[0] for v in c[0]]) for c in s["ch"]]), resolution=res, labels=tuple(s["lab"]))
        y, exc = guarded(x.inverse_fourier_transform)
        return [self.event("inverse", s, out=from_sumpf(y), exc=exc)]

    def perform_invert(self, s, x):
        scale = 1000000
        y, exc = guarded(lambda: ~x)
        out = {"k": kind(y), "nc": 0, "len": 0, "off": 0, "sr": [0, 1], "lab": [], "fixed": []}
        if kind(y) == "signal":
            out.update(nc=len(y), len=y.length(), off=int(y.offset()), sr=rate(y.sampling_rate()), lab=[label(t) for t in y.labels()],
                       fixed=[[encf(v, scale) for v in c] for c in y.channels()])
            # values, that are too large for the integers of TLC, only occur, when the signal is nearly not invertible
            if any(abs(v) > 2 ** 31 // 100 for c in out["fixed"] for v in c) and not numpy.isnan(y.channels()).any():
                return []
        e = self.event("invert", s, out=out, exc=exc)
        e["scale"] = scale
        return [e]

    def window(self, w, overlap, form):
        """the window in the given form"""
        a = numpy.array(w["ch"], dtype=numpy.float64) * self.rng.choice((1.0, 1.0, 0.5, 4.0))
        if form == "signal":
            return sumpf.Signal(channels=a, sampling_rate=self.rng.choice((12.0, 48000.0)), offset=self.rng.choice((0, 0, 5)),
                                labels=("w",) * w["nc"])
        if form == "matrix":
            return a
        if form == "array":
            return a[0]
        if form == "list":
            return [float(v) for v in a[0]]
        if form == "tuple":
            return tuple(float(v) for v in a[0])
        return w["len"]

    def forms(self, w):
        forms = ["signal", "matrix"] + (["array", "list", "tuple"] if w["nc"] == 1 else [])
        return forms

    def overlap(self, overlap, length):
        """one of the ways to specify the overlap"""
        r = self.rng.random()
        if r < 0.5:
            return overlap
        if r < 0.65 and overlap:
            return overlap - length
        if r < 0.85:
            return overlap / length
        return -(length - overlap) / length

    def perform_windowed(self, s, x, w, overlap, pad, form=None):
        events = []
        step = w["len"] - overlap
        form = form or self.rng.choice(self.forms(w))
        given = self.overlap(overlap, w["len"])
        if form == "int":
            if given == 0:
                w = {"nc": 1, "len": w["len"], "ch": [[1] * w["len"]]}
            else:
                w = {"nc": 1, "len": w["len"], "ch": [HANN[w["len"]]]}
        window = self.window(w, overlap, form)
        kwargs = {"window": window, "overlap": given, "pad": pad}
        if pad and self.rng.random() < 0.3:
            del kwargs["pad"]
        if given == 0.5 and self.rng.random() < 0.5:
            del kwargs["overlap"]
        if s["nc"] and (s["nc"] == w["nc"] or 1 in (s["nc"], w["nc"])) and all(self.added(c, step) for c in w["ch"]):
            y, exc = guarded(x.fourier_transform, **kwargs)
            events.append(self.event("block", s, w, step, pad, self.observe_spectrum(y, w["len"]), exc, form))
        if s["nc"] and s["len"] >= w["len"] and w["nc"] in (1, s["nc"]) and all(sum(c) for c in w["ch"]):
            y, exc = guarded(x.short_time_fourier_transform, **kwargs)
            events.append(self.event("short", s, w, step, pad, self.observe_spectrogram(y, w["len"]), exc, form))
            if exc is None and pad and self.covered(s["len"], w, step) and s["off"] % step == 0:
                z, exc = guarded(y.inverse_short_time_fourier_transform, window=window, overlap=given)
                events.append(self.event("short_roundtrip", s, w, step, pad, from_sumpf(z), exc, form))
        return events

    @staticmethod
    def covered(length, w, step):
        """True, if the inverse is defined: each sample is covered by a window with a weight"""
        half = w["len"] // 2
        columns = -(-(length + 2 * half - w["len"]) // step) + 1
        total = w["len"] + (columns - 1) * step - 2 * half
        return all(any(0 <= t + half - j * step < w["len"] and c[t + half - j * step] for j in range(columns))
                   for c in w["ch"] for t in range(total))

    @staticmethod
    def added(c, step):
        length = len(c)
        total = sum(c)
        for shift in range(step, length, step):
            total += sum(c[:length - shift]) + sum(c[shift:])
        return total

    @staticmethod
    def event(op, s, w=None, step=1, pad=True, out=None, exc=None, form=""):
        return {"op": op, "s": s, "w": w or NO_WINDOW, "step": step, "pad": pad, "exc": exc or "", "out": out, "form": form}

    # ------------------------------------------------------------------ traces
    def random_trace(self):
        rng = self.rng
        s = random_data(rng, "signal", max_nc=3, max_len=20, off_range=rng.choice((0, 3, 40)))
        if rng.random() < 0.05:
            s["len"] = 0
            s["ch"] = [[[]] for _ in s["ch"]]
        s["sr"] = rng.choice(([48000, 1], [44100, 1], [1, 1], [7, 2], s["sr"]))
        dtype = rng.choice((numpy.float64, numpy.float64, numpy.float32, numpy.int64))
        x = to_sumpf(s, dtype)
        self.single = dtype == numpy.float32
        events = self.perform_full(s, x)
        r = rng.random()
        if r < 0.2 and s["len"] and (s["len"] % 2 == 0 or s["len"] == 1):
            events += self.perform_inverse(s)
        for _ in range(2):
            length = rng.choice((1, 2, 3, 4, 4, 6, 6, rng.randint(1, 11)))
            nc = rng.choice((1, 1, s["nc"]))
            w = {"nc": nc, "len": length, "ch": [[rng.choice((rng.randint(0, 4), 1)) for _ in range(length)] for _ in range(nc)]}
            overlap = rng.choice((0, length // 2, rng.randint(0, length - 1)))
            if (length in HANN) and rng.random() < 0.3:
                w["nc"] = 1
                events += self.perform_windowed(s, x, w, overlap, rng.random() < 0.6, form="int")
            else:
                events += self.perform_windowed(s, x, w, overlap, rng.random() < 0.6)
        if rng.random() < 0.5:
            n = rng.choice((1, 2, 3, 4, 5, 6, 7, 11))
            t = random_data(rng, "signal", max_nc=2, length=n, lo=-3, hi=3)
            events += self.perform_invert(t, to_sumpf(t))
        self.single = False
        return {"events": events}

    def run(self):
        r = self.model("FourierMC", env={"MAXLEN": self.n(5, 7), "MAXWINDOW": self.n(4, 6)}, workers=8)
        cases = r.printed("CASE")
        traces = []
        seen = set()
        for c in cases:
            x = to_sumpf(c["s"])
            events = self.perform_windowed(c["s"], x, c["w"], c["overlap"], c["pad"])
            key = (c["s"]["nc"], c["s"]["len"], c["s"]["off"])
            if key not in seen:
                seen.add(key)
                events += self.perform_full(c["s"], x)
            if events:
                traces.append({"events": events})
        self.notes["enumerated_cases"] = len(cases)
        for n in range(1, 8):
            if n in (1, 2, 3, 4, 5, 6, 7):
                for _ in range(self.n(20, 200)):
                    t = random_data(self.rng, "signal", nc=1, length=n, lo=-2, hi=2)
                    traces.append({"events": self.perform_invert(t, to_sumpf(t))})
        for _ in range(self.n(300, 6000)):
            traces.append(self.random_trace())
        traces = [t for t in traces if t["events"]]
        self.validate("FourierTrace", traces)


CHECK = FourierCheck
