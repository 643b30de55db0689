"""C21: window functions. All lengths, plateaus and symmetries of spec/WindowsMC are created with all window functions of the real code and validated
with spec/WindowsTrace; the prototypes, that are not rational, are computed from their definitions (without scipy)."""
import math
import numpy
import sumpf
from .common import Check, enc, encf, guarded, rate
from .data import label

RATES = ([48000, 1], [44100, 1], [1, 1], [7, 2], [8, 1])
HEINZEL = {"SFT3F": (0.26526, 0.5, 0.23474), "SFT4F": (0.21706, 0.42103, 0.28294, 0.07897), "SFT5F": (0.1881, 0.36923, 0.28702, 0.13077, 0.02488),
           "SFT3M": (0.28235, 0.52105, 0.19659), "SFT4M": (0.241906, 0.460841, 0.255381, 0.041872), "SFT5M": (0.209671, 0.407331, 0.281225, 0.092669, 0.0091036),
           "FTNI": (0.2810639, 0.5208972, 0.1980399), "FTHP": (1.0, 1.912510941, 1.079173272, 0.1832630879), "FTSRS": (1.0, 1.93, 1.29, 0.388, 0.028),
           "HFT70": (1, 1.90796, 1.07349, 0.18199), "HFT95": (1, 1.9383379, 1.3045202, 0.4028270, 0.0350665),
           "HFT90D": (1, 1.942604, 1.340318, 0.440811, 0.043097), "HFT116D": (1, 1.9575375, 1.4780705, 0.6367431, 0.1228389, 0.0066288),
           "HFT144D": (1, 1.96760033, 1.57983607, 0.81123644, 0.22583558, 0.02773848, 0.00090360),
           "HFT169D": (1, 1.97441842, 1.65409888, 0.95788186, 0.33673420, 0.06364621, 0.00521942, 0.00010599),
           "HFT196D": (1, 1.979280420, 1.710288951, 1.081629853, 0.448734314, 0.112376628, 0.015122992, 0.000871252, 0.000011896),
           "HFT223D": (1, 1.98298997309, 1.75556083063, 1.19037717712, 0.56155440797, 0.17296769663, 0.03233247087, 0.00324954578, 0.00013801040, 0.00000132725),
           "HFT248D": (1, 1.985844164102, 1.791176438506, 1.282075284005, 0.667777530266, 0.240160796576, 0.056656381764, 0.008134974479, 0.000624544650,
                       0.000019808998, 0.000000132974),
           "DEFAULT": (0.21557895, 0.41663158, 0.277263158, 0.083578947, 0.006947368)}
NUTTALL = {"NUTTALL3": (0.375, 0.5, 0.125), "NUTTALL3A": (0.40897, 0.5, 0.09103), "NUTTALL3B": (0.4243801, 0.4973406, 0.0782793),
           "NUTTALL4": (0.3125, 0.46875, 0.1875, 0.03125), "NUTTALL4A": (0.338946, 0.481973, 0.161054, 0.018027),
           "NUTTALL4B": (0.355768, 0.487396, 0.144232, 0.012604), "NUTTALL4C": (0.3635819, 0.4891775, 0.1365995, 0.0106411)}
COSINES = {"Hann": (0.5, 0.5), "Hamming": (0.54, 0.46), "Blackman": (0.42, 0.5, 0.08), "BlackmanHarris": (0.35875, 0.48829, 0.14128, 0.01168)}
LABELS = {"BartlettHann": "Bartlett-Hann", "BlackmanHarris": "Blackman-Harris", "DolphChebyshev": "Dolph-Chebyshev", "FlatTop": "Flat top"}
SHAPES = ("Rectangular", "Bartlett", "Hann", "Hamming", "Blackman", "Kaiser", "BartlettHann", "BlackmanHarris", "Bohman", "DolphChebyshev", "Exponential",
          "FlatTop", "Gaussian", "Nuttall", "Parzen", "Slepian")


def bessel(x):
    """the modified Bessel function of the first kind and order zero"""
    result, term, k = 1.0, 1.0, 1
    while term > 1e-17 * result:
        term *= (x / (2.0 * k)) ** 2
        result += term
        k += 1
    return result


def prototype(shape, n, p):
    """the samples of the window with the length n from its definition"""
    if n == 0:
        return []
    if n == 1:
        return [1.0]
    m = n - 1
    x = [2.0 * i / m - 1.0 for i in range(n)]   # from -1 to 1
    if shape in COSINES or shape in ("FlatTop", "Nuttall"):
        a = COSINES[shape] if shape in COSINES else {"FlatTop": HEINZEL, "Nuttall": NUTTALL}[shape][p]
        maximum = 1.0 if a[0] != 1 else sum(a)
        return [sum((-1) ** k * c * math.cos(2.0 * math.pi * k * i / m) for k, c in enumerate(a)) / maximum for i in range(n)]
    if shape == "Rectangular":
        return [1.0] * n
    if shape == "Bartlett":
        return [1.0 - abs(v) for v in x]
    if shape == "Kaiser":
        return [bessel(p * math.sqrt(max(0.0, 1.0 - v * v))) / bessel(p) for v in x]
    if shape == "BartlettHann":
        return [0.62 - 0.48 * abs(v / 2.0) + 0.38 * math.cos(math.pi * v) for v in x]
    if shape == "Bohman":
        return [max(0.0, (1.0 - abs(v)) * math.cos(math.pi * abs(v)) + math.sin(math.pi * abs(v)) / math.pi) for v in x]
    if shape == "Parzen":
        t = [abs(i - m / 2.0) / (n / 2.0) for i in range(n)]
        return [1.0 - 6.0 * v * v + 6.0 * v ** 3 if v * n / 2.0 <= m / 4.0 else 2.0 * (1.0 - v) ** 3 for v in t]
    if shape == "Gaussian":
        return [math.exp(-0.5 * (v / p) ** 2) for v in x]
    if shape == "Exponential":
        # falls by the given decay (in dB) from the center to the ends
        return [10.0 ** (-p / 20.0 * abs(v)) for v in x]
    if shape == "DolphChebyshev":
        if n == 2:
            return [1.0, 1.0]
        x0 = math.cosh(math.acosh(10.0 ** (p / 20.0)) / m)
        spectrum = []
        for k in range(n):
            v = x0 * math.cos(math.pi * k / n)
            spectrum.append(math.cos(m * math.acos(v)) if abs(v) <= 1.0 else (1 if v > 0 or m % 2 == 0 else -1) * math.cosh(m * math.acosh(abs(v))))
        w = [sum(s * math.cos(2.0 * math.pi * k * (i - m / 2.0) / n) for k, s in enumerate(spectrum)) for i in range(n)]
        return [v / w[n // 2] for v in w]
    if shape == "Slepian":
        if n == 2:
            return [1.0, 1.0]
        w = p / math.pi / n
        i, j = numpy.meshgrid(numpy.arange(n), numpy.arange(n))
        _, v = numpy.linalg.eigh(2.0 * w * numpy.sinc(2.0 * w * (i - j)))
        v = numpy.abs(v[:, -1])
        if n % 2 == 0:
            # the maximum lies between two samples
            spectrum = [sum(v[t] * math.cos(2.0 * math.pi * k * (t - m / 2.0) / n) for t in range(n)) for k in range(n // 2 + 1)]
            maximum = (spectrum[0] + 2.0 * sum(spectrum[1:])) / n
        else:
            maximum = max(v)
        return [y / maximum for y in v]
    raise KeyError(shape)


class WindowsCheck(Check):
    id = "C21"

    # ------------------------------------------------------------------ windows
    def parameter(self, shape, n):
        """a parameter for the window function: (its value, the name of the parameter, the value for the constructor)"""
        rng = self.rng
        if shape == "Kaiser":
            p = rng.choice((9.4248, 1.0, 5.0, 14.5))
            return p, "beta", p
        if shape == "Slepian":
            p = rng.choice((9.4248, 1.0, 2.0, 4.0))
            while p / math.pi >= n / 2.0 and p > 0.1:    # (not defined)
                p /= 2.0
            return p, "beta", p
        if shape == "DolphChebyshev":
            p = rng.choice((150.0, 60.0, 90.0))
            return p, "attenuation", p
        if shape == "Exponential":
            p = rng.choice((100.0, 6.0, 20.0, 0.0))
            return p, "decay", p
        if shape == "Gaussian":
            p = rng.choice((1.0, 0.5, 0.25))
            return p, "standard_deviation", p
        if shape == "FlatTop":
            p = rng.choice(sorted(HEINZEL))
            return p, "function", getattr(sumpf.FlatTopWindow.functions, p)
        if shape == "Nuttall":
            p = rng.choice(sorted(NUTTALL))
            return p, "function", getattr(sumpf.NuttallWindow.functions, p)
        return None, None, None

    def create(self, shape, length, plateau, symmetric):
        """returns the event, the window (or None) and its denominator, if the samples are known to be exact"""
        rng = self.rng
        f = plateau and (length - plateau) // 2
        n = (2 * f if plateau else length) + (0 if symmetric else 1)
        halving = shape == "Exponential" and n % 2 == 1 and n <= 23 and rng.random() < 0.5
        p, name, value = self.parameter(shape, n)
        if halving:
            p = value = 20.0 * math.log10(2.0) * (n // 2)
        r = list(rng.choice(RATES))
        kwargs = {"plateau": plateau, "sampling_rate": r[0] / r[1], "length": length, "symmetric": symmetric}
        if plateau and rng.random() < 0.4:
            kwargs["plateau"] = rng.choice((plateau / length, plateau - length if plateau < length else 1.0,
                                            plateau / length - 1.0 if plateau < length else 1.0))
        if rng.random() < 0.3:
            if not plateau:
                kwargs.pop("plateau")
            if symmetric:
                kwargs.pop("symmetric")
            if r == [48000, 1]:
                kwargs.pop("sampling_rate")
        args = []
        if name:
            if rng.random() < 0.5:
                args.append(value)
            else:
                kwargs[name] = value
        elif "plateau" in kwargs and rng.random() < 0.3:
            args.append(kwargs.pop("plateau"))
        w, exc = guarded(lambda: getattr(sumpf, shape + "Window")(*args, **kwargs))
        e = {"op": "window", "exc": exc or "", "proto": [], "out": {},
             "p": {"shape": "Halving" if halving else shape, "length": length, "plateau": plateau, "symmetric": symmetric, "rate": r,
                   "label": LABELS.get(shape, shape) + " window"}}
        # the integer, with which the samples have to be multiplied to get integers
        den = {"Rectangular": 1, "Bartlett": max(n - 1, 1)}.get(shape, 2 ** (n // 2) if halving and n <= 11 else None)
        if shape == "Hann" and n - 1 in (1, 2, 3, 4, 6):
            den = 4
        if not exc:
            e["out"] = {"nc": len(w), "len": w.length(), "rate": rate(w.sampling_rate()), "off": int(w.offset()), "lab": [label(s) for s in w.labels()],
                        "plateau": int(w.plateau()), "symmetric": bool(w.symmetric()), "x": [encf(v, 1000000) for v in w.channels()[0]]}
            if shape not in ("Rectangular", "Bartlett") and not (shape == "Hann" and (n <= 1 or den)) and not halving:
                e["proto"] = [encf(v, 1000000) for v in prototype(shape, n, p)]
        return e, w, den

    # --------------------------------------------------------------- statistics
    def statistics(self, w, den, overlaps):
        rng = self.rng
        length = w.length()
        x = w.channels()[0]
        if den is None:
            den = 3000
            samples = [encf(v, den) for v in x]
            tol = 4000
        else:
            samples = [enc(v, den) for v in x]
            tol = 2
        events = []
        for name in ("scaling_factor", "amplitude_flatness", "power_flatness", "overlap_correlation"):
            f = getattr(w, name)
            if rng.random() < 0.3:      # multiple overlaps at once
                values, exc = guarded(lambda: [float(v) for v in f(rng.choice((list, tuple, numpy.array))(overlaps))])
            else:
                values, exc = [], None
                for o in overlaps:
                    k = rng.random()
                    key = o if k < 0.6 else (o / length if k < 0.8 or o == length else (o - length if k < 0.9 and o else (o / length - 1.0 if o else 0.0)))
                    if o == length and isinstance(key, float):
                        key = 1.0
                    v, exc = guarded(f, key)
                    if exc:
                        break
                    values.append(float(v))
            for o, v in zip(overlaps, values or [0.0] * len(overlaps)):
                t = tol
                if den == 3000 and name == "scaling_factor":
                    t = int(min(1e6, 4000 * max(1.0, abs(v)) ** 2))
                elif den == 3000 and name != "overlap_correlation" and o < length:
                    t = self.tolerance(x, length - o, 1 if name == "amplitude_flatness" else 2)
                events.append({"op": "statistic", "exc": exc or "", "w": samples, "den": den, "name": name, "overlap": o, "value": encf(v, 1000000), "tol": t})
        return events

    @staticmethod
    def tolerance(x, step, power):
        """the effect of the rounding of the samples on the ratio of the minimum and the maximum"""
        n = len(x) // step + 1
        scale = max(abs(sum(x[t + k * step] ** power for k in range(-n, n + 1) if 0 <= t + k * step < len(x))) for t in range(len(x)))
        return int(min(1e9, 2000 * (2 * n + 1) / max(scale, 1e-9)))

    def spectral(self, w, oversampling):
        events = []
        x = w.channels()[0]
        scale = 29000.0 / max(1e-3, numpy.abs(x).sum())
        samples = [encf(v, scale) for v in x]

        def table(n):
            return {"c": [encf(math.cos(2.0 * math.pi * k / n), 10000) for k in range(n)], "s": [encf(math.sin(2.0 * math.pi * k / n), 10000) for k in range(n)]}
        v, exc = guarded(w.scalloping_loss)
        events.append({"op": "scalloping", "exc": exc or "", "w": samples, "value": encf(v or 0.0, 10000), **table(2 * len(x))})
        v, exc = guarded(w.bandwidth, *([oversampling] if oversampling != 8 or self.rng.random() < 0.5 else []))
        resolution = w.sampling_rate() / len(x) / oversampling
        events.append({"op": "bandwidth", "exc": exc or "", "w": samples, "value": encf((v or 0.0) / resolution, 1000), **table(oversampling * len(x))})
        return events

    def recommended(self, w):
        overlaps = list(range(w.length()))
        v, exc = guarded(w.recommended_overlap)
        return {"op": "recommended", "exc": exc or "", "value": int(v) if v is not None else -1,
                "af": [encf(w.amplitude_flatness(o), 1000000) for o in overlaps], "oc": [encf(w.overlap_correlation(o), 1000000) for o in overlaps]}

    def everything(self, shape, length, plateau, symmetric, overlaps=None, spectral=False):
        e, w, den = self.create(shape, length, plateau, symmetric)
        events = [e]
        if w is None or length == 0 or w.channels().shape != (1, length):
            return events
        x = w.channels()[0]
        if overlaps and numpy.abs(x.sum()) > 1e-3 * numpy.abs(x).sum() and numpy.abs(x).sum() > 1e-2:
            events.extend(self.statistics(w, den, overlaps))
            if length >= 2:
                e = self.recommended(w)
                # (the flatness of windows, whose samples sum up to values around zero, is not specified)
                if all(abs(v) < 10000000 for v in e["af"]):
                    events.append(e)
            if spectral and length >= 2:
                events.extend(self.spectral(w, self.rng.choice((1, 2, 4, 8)) if length <= 8 else self.rng.choice((1, 2, 3))))
        return events

    def run(self):
        rng = self.rng
        r = self.model("WindowsMC", env={"MAXLENGTH": self.n(8, 12)}, workers=8)
        cases = r.printed("WINDOW")
        self.notes["enumerated_compositions"] = len(cases)
        events = []
        for c in cases:
            for shape in SHAPES:
                exact = shape in ("Rectangular", "Bartlett")
                overlaps = list(range(0, c["length"] + 1)) if exact or self.thorough or rng.random() < 0.15 else None
                events.extend(self.everything(shape, c["length"], c["plateau"], c["symmetric"], overlaps, spectral=rng.random() < 0.3))
        for shape in SHAPES:
            events.extend(self.everything(shape, 0, 0, True))
            for name in {"FlatTop": sorted(HEINZEL), "Nuttall": sorted(NUTTALL)}.get(shape, [None]):
                for symmetric in (True, False):
                    for plateau in (0, 5):
                        old = self.parameter
                        if name:
                            cls = getattr(sumpf, shape + "Window")
                            self.parameter = lambda *_, cls=cls, name=name: (name, "function", getattr(cls.functions, name))
                        events.extend(self.everything(shape, 16, plateau, symmetric, [rng.randint(0, 16)], spectral=True))
                        self.parameter = old
        for _ in range(self.n(300, 5000)):
            length = rng.choice((rng.randint(1, 24), rng.randint(8, 60)))
            overlaps = sorted(rng.sample(range(0, length + 1), min(3, length + 1))) if length <= 24 else None
            events.extend(self.everything(rng.choice(SHAPES), length, rng.choice((0, 0, rng.randint(0, length))), rng.random() < 0.5, overlaps,
                                          spectral=length <= 16 and rng.random() < 0.5))
        self.validate("WindowsTrace", [{"events": [e]} for e in events])


CHECK = WindowsCheck
