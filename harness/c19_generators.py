"""C19: generated data sets: maximum length sequences, Rudin-Shapiro noise, fades, constants and random noise. All fades and noise spectrums of
spec/GeneratorsMC and random ones are created with the real code and validated with spec/GeneratorsTrace."""
import math
import numpy
import sumpf
from .common import Check, enc, encc, guarded, rate
from .data import kind, label

RATES = ([48000, 1], [44100, 1], [1, 1], [7, 2], [1, 10], [8, 1])
NOISES = {"UniformNoise": ("Uniform noise", ("lower_boundary", "upper_boundary")), "GaussianNoise": ("Gaussian noise", ("mean", "standard_deviation")),
          "PoissonNoise": ("Poisson noise", ("lambda_",)), "LaplaceNoise": ("Laplace noise", ("mean", "decay")),
          "VonMisesNoise": ("von Mises noise", ("mode", "dispersion")), "TriangularNoise": ("Triangular noise", ("lower_boundary", "upper_boundary", "mode")),
          "GeometricNoise": ("Geometric noise", ("p",)), "HypergeometricNoise": ("Hypergeometric noise", ("acceptable", "non_acceptable", "draws")),
          "BinomialNoise": ("Binomial noise", ("p", "draws")), "BetaNoise": ("Beta noise", ("alpha", "beta")), "GammaNoise": ("Gamma noise", ("shape", "scale")),
          "LogarithmicNoise": ("Logarithmic noise", ("p",)), "LogisticNoise": ("Logistic noise", ("mean", "scale")), "LomaxNoise": ("Lomax noise", ("shape",)),
          "WaldNoise": ("Wald noise", ("mean", "scale")), "ChiSquareNoise": ("Chi-square noise", ("degrees_of_freedom",))}


def slope(length):
    """a function for fades, that reveals with which length it has been called. See Slope in spec/Generators.tla"""
    return 100.0 * length + numpy.arange(length) + 2.0


class GeneratorsCheck(Check):
    id = "C19"

    # ------------------------------------------------------------- observations
    @staticmethod
    def observe(x, function):
        k = kind(x)
        out = {"k": k, "nc": 0, "nf": 1, "len": 0, "rates": [], "off": 0, "lab": [], "x": []}
        if k in ("signal", "spectrum", "spectrogram"):
            c = numpy.asarray(x.channels())
            out.update(nc=len(x), len=int(x.length()), lab=[label(s) for s in x.labels()],
                       rates=[rate(getattr(x, n)()) for n in ("sampling_rate", "resolution") if hasattr(x, n)],
                       off=int(x.offset()) if hasattr(x, "offset") else 0)
            if k == "spectrogram":
                out["nf"] = int(c.shape[1])
            out["x"] = [function(v) for v in c[0].flatten()] if len(c) else []
        return out

    def perform(self, op, p, create, function, **extra):
        x, exc = guarded(create)
        e = {"op": op, "p": p, "exc": exc or "", "out": {} if exc else self.observe(x, function)}
        for name, f in extra.items():
            v, exc = ("", None) if e["exc"] else guarded(f, x)
            e[name] = v if exc is None else ""
            e["exc"] = e["exc"] or exc or ""
        return e

    @staticmethod
    def arguments(rng, names, values, defaults):
        """positional and keyword arguments. Arguments, that have their default value, may be left out"""
        args, kwargs = [], {}
        positional = rng.randint(0, len(names)) if rng.random() < 0.3 else 0
        for k, n in enumerate(names):
            if k < positional:
                args.append(values[n])
            elif values[n] is defaults.get(n, ()) or (not isinstance(values[n], (tuple, list)) and values[n] == defaults.get(n, ()) and rng.random() < 0.5):
                continue
            else:
                kwargs[n] = values[n]
        return args, kwargs

    # --------------------------------------------------------------- operations
    def mls(self, bits, length):
        rng = self.rng
        r = list(rng.choice(RATES))
        seed = rng.choice((0, 1, 42, rng.randint(0, 2 ** 31), rng.randint(0, 2 ** 31)))
        sr = r[0] / r[1]
        args, kwargs = self.arguments(rng, ("bits", "seed", "sampling_rate", "length"), {"bits": bits, "seed": seed, "sampling_rate": sr, "length": length},
                                      {"bits": None, "length": None, "sampling_rate": 48000.0})

        def others(x):
            b = x.bits()
            return [[enc(v) for v in sumpf.MaximumLengthSequence(bits=b, seed=seed, length=n).channels()[0]] for n in rng.sample(range(0, 3 * 2 ** b), 2)]
        return self.perform("mls", {"bits": bits or 0, "length": -1 if length is None else length, "rate": r},
                            lambda: sumpf.MaximumLengthSequence(*args, **kwargs), enc,
                            bits=lambda x: int(x.bits()), period=lambda x: int(x.period_length()),
                            periods=lambda x: enc(x.periods() * (2 ** x.bits() - 1)), others=others)

    def noise(self, start, stop, length):
        """start and stop in quarters of the resolution"""
        rng = self.rng
        r = list(rng.choice(RATES))
        res = r[0] / r[1]
        values = {"start_frequency": start / 4 * res, "stop_frequency": None if stop is None else stop / 4 * res, "resolution": res, "length": length}
        if rng.random() < 0.3 and all(values[n] is None or values[n] == int(values[n]) for n in ("start_frequency", "stop_frequency")):
            values["start_frequency"] = int(values["start_frequency"])
        args, kwargs = self.arguments(rng, ("start_frequency", "stop_frequency", "resolution", "length"), values,
                                      {"start_frequency": 0.0, "stop_frequency": None, "resolution": 1.0, "length": 1})
        return self.perform("noise", {"start": start, "stop": -1 if stop is None else stop, "length": length, "rate": r},
                            lambda: sumpf.RudinShapiroNoiseSpectrum(*args, **kwargs), lambda v: encc(v)[0] if not v.imag else enc(math.nan),
                            sequence=lambda x: int(x.sequence_length()))

    def index(self, k, length):
        r = self.rng.random()
        if r < 0.5 or length == 0:
            return k
        if k == length:
            return self.rng.choice((k, 1.0))
        if r < 0.65 and k:
            return k - length
        if r < 0.85:
            return k / length
        return k / length - 1.0 if k else 0.0

    def interval(self, x, length, falls):
        if not x:
            return None
        # a single number
        if falls and x[1] == length and self.rng.random() < 0.3:
            return self.index(x[0], length)
        if not falls and x[0] == 0 and self.rng.random() < 0.3:
            return self.index(x[1], length)
        return self.rng.choice((tuple, list))(self.index(k, length) for k in x)

    def fade(self, length, rise, fall):
        rng = self.rng
        r = list(rng.choice(RATES))
        values = {"function": slope, "rise_interval": self.interval(rise, length, False), "fall_interval": self.interval(fall, length, True),
                  "sampling_rate": r[0] / r[1], "length": length}
        args, kwargs = self.arguments(rng, ("function", "rise_interval", "fall_interval", "sampling_rate", "length"), values,
                                      {"rise_interval": None, "fall_interval": None, "sampling_rate": 48000.0})
        return self.perform("fade", {"length": length, "rise": list(rise), "fall": list(fall), "rate": r}, lambda: sumpf.Fade(*args, **kwargs), enc)

    def constant(self):
        rng = self.rng
        k = rng.choice(("signal", "spectrum", "spectrogram"))
        def number():
            # (single precision is not sufficient for some of the integers)
            return rng.choice((rng.randint(-9, 9), rng.choice((1, -1)) * (2 ** 24 + 1 + 2 * rng.randint(0, 9))))
        value = complex(number(), number()) if k != "signal" else float(number())
        length = rng.choice((0, 1, 2, rng.randint(0, 30)))
        r = [list(rng.choice(RATES)) for _ in range(2)]
        nf = 1
        if k == "signal":
            values = {"value": value, "sampling_rate": r[0][0] / r[0][1], "length": length}
            defaults = {"value": 0.0, "sampling_rate": 48000.0}
            f, r = sumpf.ConstantSignal, r[:1]
        elif k == "spectrum":
            values = {"value": value, "resolution": r[0][0] / r[0][1], "length": length}
            defaults = {"value": 0.0, "resolution": 1.0, "length": 1}
            f, r = sumpf.ConstantSpectrum, r[:1]
        else:
            nf = rng.randint(0, 5)
            values = {"value": value, "resolution": r[1][0] / r[1][1], "sampling_rate": r[0][0] / r[0][1], "number_of_frequencies": nf, "length": length}
            defaults = {"value": 0.0}
            f = sumpf.ConstantSpectrogram
        args, kwargs = self.arguments(rng, list(values), values, defaults)
        return self.perform("constant", {"kind": k, "length": length, "rates": r, "nf": nf, "value": encc(value)}, lambda: f(*args, **kwargs), encc)

    def random_noise(self):
        rng = self.rng
        name = rng.choice(sorted(NOISES))
        text, names = NOISES[name]
        if name in ("UniformNoise", "TriangularNoise"):
            a = rng.randint(-20, 20) / 4
            p = [a, a + rng.randint(1, 20) / 4]
            if name == "TriangularNoise":
                p.append(rng.choice((None, rng.choice(p[:2]), sum(p) / 2)))
        elif name == "HypergeometricNoise":
            p = [rng.randint(0, 6), rng.randint(0, 6)]
            p.append(rng.randint(0, sum(p)))
        elif name == "BinomialNoise":
            p = [rng.randint(1, 7) / 8, rng.randint(1, 9)]
        elif name in ("GeometricNoise", "LogarithmicNoise"):
            p = [rng.randint(1, 7) / 8]
        else:
            p = [rng.randint(1, 12) / 4 for _ in names]
        length = rng.choice((0, 1, rng.randint(2, 40)))
        seed = rng.randint(0, 2 ** 31 - 1)
        r = list(rng.choice(RATES))
        values = dict(zip(names, p))
        values.update(seed=seed, sampling_rate=r[0] / r[1], length=length)
        f = getattr(sumpf, name)
        args, kwargs = self.arguments(rng, list(values), values, {"mode": None, "sampling_rate": 48000.0})

        def function(v):
            return math.floor(min(v, 1e6) * 1000.0) if math.isfinite(v) and v > -1e6 else enc(math.nan)
        # (the integers in the trace are the parameters of the discrete distributions)
        parameters = [0 if x is None else int(x) if name in ("HypergeometricNoise", "BinomialNoise") else int(math.floor(x * 1000)) for x in p]
        return self.perform("random", {"distribution": name, "parameters": parameters, "length": length, "rate": r, "seed": seed, "label": text},
                            lambda: f(*args, **kwargs), function, again=lambda x: [function(v) for v in f(**values).channels()[0]], seed=lambda x: x.seed())

    def moments(self, name):
        """the mean value and the variance of noise with the default length. Parameters are in eighths, except for numbers of items"""
        rng = self.rng
        text, names = NOISES[name]
        default = rng.random() < 0.3
        if name == "UniformNoise":
            p = [-8, 8] if default else [rng.randint(-40, 40)]
            p = p if default else p + [p[0] + rng.randint(1, 40)]
        elif name == "TriangularNoise":
            p = [-8, 8] if default else [rng.randint(-40, 40)]
            p = p if default else p + [p[0] + rng.randint(1, 40)]
            p.append(None if default or rng.random() < 0.5 else rng.randint(p[0], p[1]))
        elif name == "HypergeometricNoise":
            p = [1, 1, 1] if default else [rng.randint(0, 9), rng.randint(1, 9)]
            p = p if default else p + [rng.randint(0, sum(p))]
        elif name == "BinomialNoise":
            p = [4, 1] if default else [rng.randint(1, 7), rng.randint(1, 9)]
        elif name in ("GeometricNoise", "LogarithmicNoise"):
            p = [4 if default else rng.randint(1, 7)]
        elif name in ("GaussianNoise", "LaplaceNoise", "LogisticNoise"):
            p = [0, 8] if default else [rng.randint(-24, 24), rng.randint(1, 24)]
        elif name == "VonMisesNoise":
            p = [rng.randint(-4, 4), rng.randint(64, 96)]
        elif name == "WaldNoise":
            p = [8, 8] if default else [rng.randint(1, 16)]
            p = p if default else p + [rng.randint(p[0], 24)]
        elif name == "LomaxNoise":
            p = [rng.randint(40, 80)]
        elif name == "PoissonNoise":
            p = [0 if default else rng.randint(1, 40)]
        else:
            p = [8 if default else rng.randint(1, 24) for _ in names]
        plain = {"acceptable", "non_acceptable", "draws"}
        values = {n: v if v is None or n in plain else v / 8 for n, v in zip(names, p)}
        r = [48000, 1] if rng.random() < 0.3 else list(rng.choice(RATES))
        seed = rng.randint(0, 2 ** 31 - 1)
        kwargs = {n: v for n, v in values.items() if v is not None and not (default and rng.random() < 0.7)}
        if r != [48000, 1] or rng.random() < 0.5:
            kwargs["sampling_rate"] = r[0] / r[1]
        if name == "VonMisesNoise":
            kwargs.update(values)
        elif name == "LomaxNoise":
            kwargs.update(values)
        if name == "TriangularNoise":
            p = [p[0], p[1], p[0] + p[1] if p[2] is None else 2 * p[2]]
        x, exc = guarded(lambda: getattr(sumpf, name)(seed=seed, **kwargs))
        e = {"op": "moments", "p": {"distribution": name, "parameters": p, "rate": r, "label": text, "seed": seed, "arguments": sorted(kwargs)},
             "exc": exc or "", "out": {}, "mean": 0, "variance": 0}
        if exc is None:
            samples = x.channels()[0]
            e["out"] = self.observe(x, lambda v: 0)
            e["out"]["x"] = []
            m, v = float(numpy.mean(samples)), float(numpy.var(samples))
            e["mean"], e["variance"] = (int(round(min(max(a, -1e4), 1e4) * 1e4)) if math.isfinite(a) else enc(math.nan) for a in (m, v))
        return e

    # ------------------------------------------------------------------- traces
    def random_trace(self):
        rng = self.rng
        events = []
        r = rng.random()
        bits = rng.choice((2, 2, 3, 3, 4, 5, 6, rng.randint(2, 9)))
        if r < 0.3:
            events.append(self.mls(bits, None))
        elif r < 0.65:
            events.append(self.mls(None, rng.choice((0, 1, 2, 2 ** bits - 2, 2 ** bits - 1, 2 ** bits, rng.randint(0, 600)))))
        else:
            bits = min(bits, 7)
            events.append(self.mls(bits, rng.randint(0, 3 * 2 ** bits)))
        n = rng.choice((rng.randint(0, 20), rng.randint(0, 140)))
        start = rng.choice((0, rng.randint(0, 4 * n + 6)))
        events.append(self.noise(start, rng.choice((None, 4 * n, rng.randint(0, 4 * n + 6), rng.randint(start, 4 * n + 8))), n))
        n = rng.choice((rng.randint(0, 12), rng.randint(4, 60)))
        a = sorted(rng.randint(0, n) for _ in range(2))
        b = sorted(rng.randint(0, n) for _ in range(2))
        k = rng.random()
        if k < 0.2:
            b = [a[0], a[1]]
        elif k < 0.3:
            b = [a[1], a[1]]
        elif k < 0.4:
            b = [a[1], n]
        elif k < 0.5:
            b = [0, a[0]]
        elif k < 0.6:
            a = []
        elif k < 0.7:
            b = []
        events.append(self.fade(n, a, b))
        events.append(self.constant())
        for _ in range(3):
            events.append(self.random_noise())
        return {"events": events}

    def run(self):
        r = self.model("GeneratorsMC", env={"MAXBITS": self.n(5, 6), "MAXLENGTH": self.n(5, 7), "MAXBINS": self.n(9, 12)}, workers=8)
        traces = []
        cases = r.printed("FADE")
        self.notes["enumerated_fades"] = len(cases)
        for k in range(0, len(cases), 10):
            traces.append({"events": [self.fade(c["length"], c["rise"], c["fall"]) for c in cases[k:k + 10]]})
        cases = r.printed("NOISE")
        self.notes["enumerated_noise_spectrums"] = len(cases)
        for k in range(0, len(cases), 10):
            traces.append({"events": [self.noise(c["start"], c["stop"], c["length"]) for c in cases[k:k + 10]]})
        for bits in range(2, self.n(9, 12)):
            for _ in range(self.n(3, 20)):
                traces.append({"events": [self.mls(bits, None), self.mls(None, 2 ** bits - 1), self.mls(None, 2 ** bits), self.mls(bits, 2 ** bits + bits)]})
        traces.append({"events": [self.mls(None, n) for n in range(0, 20)]})
        for name in sorted(NOISES):
            traces.append({"events": [self.moments(name) for _ in range(self.n(8, 60))]})
        for _ in range(self.n(400, 6000)):
            traces.append(self.random_trace())
        # one event per trace: a rejected event does not hide the following ones
        self.validate("GeneratorsTrace", [{"events": [e]} for t in traces for e in t["events"]])


CHECK = GeneratorsCheck
