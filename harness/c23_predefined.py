"""C23: predefined filters. All small orders of spec/PredefinedMC and random ones are created with the real code, evaluated and validated with
spec/PredefinedTrace."""
import cmath
import math
import numpy
import sumpf
from .common import Check, enc, encc, encf, guarded
from .data import label

TYPES = {"Butterworth": ("ButterworthFilter", "Butterworth"), "Chebyshev1": ("Chebyshev1Filter", "Chebyshev 1"),
         "Chebyshev2": ("Chebyshev2Filter", "Chebyshev 2"), "Bessel": ("BesselFilter", "Bessel")}
RATIOS = ((0, 1), (1, 4), (1, 2), (2, 3), (1, 1), (3, 2), (2, 1), (4, 1), (1, 3), (3, 1), (5, 4))
LIMIT = 200000000


def product(x):
    result = 1.0
    for v in x:
        result *= v
    return result


def lowpass(kind, n, e):
    """returns the normalized transfer function, that is defined by its poles and zeros, as a function of s relative to the cutoff frequency"""
    theta = [math.pi * (2 * k - 1) / (2 * n) for k in range(1, n + 1)]
    if kind == "Bessel":
        c = [math.factorial(2 * n - k) // (2 ** (n - k) * math.factorial(k) * math.factorial(n - k)) for k in range(n + 1)]
        return lambda s: c[0] / sum(a * s ** k for k, a in enumerate(c))
    zeros = []
    if kind == "Butterworth":
        poles = [complex(-math.sin(t), math.cos(t)) for t in theta]
    else:
        v = math.asinh(1.0 / math.sqrt(e) if kind == "Chebyshev1" else math.sqrt(e)) / n
        poles = [complex(-math.sinh(v) * math.sin(t), math.cosh(v) * math.cos(t)) for t in theta]
        if kind == "Chebyshev2":
            poles = [1.0 / p for p in poles]
            zeros = [1j / math.cos(t) for k, t in enumerate(theta) if 2 * k + 1 != n]
    return lambda s: product(1.0 - s / z for z in zeros) / product(1.0 - s / p for p in poles)


def fits(kind, n, e, p, q):
    """is the squared magnitude computable with 32 bit integers?"""
    if kind == "Chebyshev2":
        p, q = q, p
    t = [1, p]
    for _ in range(n):
        t.append(2 * p * t[-1] - q * q * t[-2])
    big = {"Butterworth": p ** (2 * n) + q ** (2 * n), "Bessel": (math.factorial(2 * n) // 2 ** n // math.factorial(n) * 2 * max(p, q) ** n) ** 2,
           }.get(kind, (e[0] + e[1]) * max(t[n] ** 2, q ** (2 * n), max(abs(x) for x in t[:n + 1]) * q * q, 2 * p * max(abs(x) for x in t[:n + 1])))
    return big < LIMIT


class PredefinedCheck(Check):
    id = "C23"

    def evaluate(self, f, frequencies):
        """evaluates the filter at the given frequencies in one of the possible ways"""
        rng = self.rng
        r = rng.random()
        if r < 0.5:
            return [complex(v) for v in f(numpy.array(frequencies))[0]]
        if r < 0.75 and frequencies:
            return [complex(f(x)[0]) for x in frequencies]
        result = []
        for x in frequencies:       # spectrums
            n = rng.randint(1, 3)
            s = f.spectrum(resolution=x / n if x else 1.0, length=n + 1)
            result.append(complex(s.channels()[0, n if x else 0]))
        return result

    def rolloff(self, kind, n, e, highpass, ratios):
        """e: the ripple parameter as a fraction or a float"""
        rng = self.rng
        cutoff = rng.choice((1000.0, 1.0, 0.25, rng.uniform(10.0, 20000.0)))
        if rng.random() < 0.2:
            cutoff = int(math.ceil(cutoff))
        exact = isinstance(e, (list, tuple))
        x = e[0] / e[1] if exact else e
        ripple = 10.0 * math.log10(1.0 + x) if x else 0.0
        if x == 0.0:
            ripple = rng.choice((0, 0.0))
        given = rng.choice((ripple, -ripple)) if kind.startswith("Chebyshev") else 0.0
        values = {"cutoff_frequency": cutoff, "ripple": given, "order": n, "highpass": highpass}
        if not kind.startswith("Chebyshev"):
            del values["ripple"]
        if rng.random() < 0.3:
            args, kwargs = list(values.values()), {}
        else:
            args, kwargs = [], {k: v for k, v in values.items() if not (k == "highpass" and not highpass and rng.random() < 0.5 or k == "order" and n == 1 and rng.random() < 0.5)}
        name, text = TYPES[kind]
        f, exc = guarded(lambda: getattr(sumpf, name)(*args, **kwargs))
        event = {"op": "rolloff", "exc": exc or "", "out": {}, "values": [],
                 "p": {"type": kind if x or kind != "Chebyshev1" else "Butterworth", "n": n, "e": list(e) if exact else [1, 1], "highpass": highpass, "label": text,
                       "cutoff": encf(cutoff, 1000), "ripple": encf(given, 100000)}}
        if exc:
            return event
        event["out"] = {"nc": len(f), "lab": [label(s) for s in f.labels()], "cutoff": encf(f.cutoff_frequency(), 1000), "order": int(f.order()),
                        "highpass": bool(f.is_highpass()), "ripple": encf(f.ripple(), 100000) if hasattr(f, "ripple") else 0}
        y, exc = guarded(self.evaluate, f, [p / q * cutoff for p, q in ratios])
        event["exc"] = exc or ""
        reference = lowpass(event["p"]["type"], n, x)
        for (p, q), v in zip(ratios, y or []):
            if highpass:
                expected = reference(-1j * q / p) if p else 0.0
            else:
                expected = reference(1j * p / q)
            a, b = (q, p) if highpass and p else (p, q)
            event["values"].append({"p": p, "q": q, "exact": (exact or kind == "Bessel" or event["p"]["type"] == "Butterworth")
                                    and fits(event["p"]["type"], n, e if exact else (1, 1), a, b),
                                    "square": encf(abs(v) ** 2, 1000000), "re": encf(v.real, 10000), "im": encf(v.imag, 10000),
                                    "xre": encf(complex(expected).real, 10000), "xim": encf(complex(expected).imag, 10000)})
        return event

    def linear(self):
        rng = self.rng
        frequencies = [0.0] + [rng.uniform(0.0, 1000.0) for _ in range(4)]
        delay = rng.choice((0.0, rng.uniform(-0.1, 0.1), rng.uniform(-0.001, 0.001), 1))
        if rng.random() < 0.5:
            text = "Delay"
            f, exc = guarded(rng.choice((lambda: sumpf.DelayFilter(delay), lambda: sumpf.DelayFilter(delay=delay))))
            scale = 10000
            expected = [cmath.exp(-2j * math.pi * x * delay) for x in frequencies]
        else:
            text = "Derivative"
            f, exc = guarded(sumpf.DerivativeFilter)
            scale = 1000
            expected = [2j * math.pi * x for x in frequencies]
        values, exc2 = (None, None) if exc else guarded(self.evaluate, f, frequencies)
        exc = exc or exc2
        return {"op": "linear", "exc": exc or "", "p": {"label": text}, "out": {} if exc else {"nc": len(f), "lab": [label(s) for s in f.labels()]},
                "values": [encc(v, scale, 2.0) for v in values or []], "expected": [encc(v, scale, 2.0) for v in expected]}

    def weighting(self, name):
        """the quotients of the values and the products of the defining poles and zeros"""
        rng = self.rng
        f, exc = guarded(getattr(sumpf, name + "Weighting"))
        w = 2.0 * math.pi
        zeros, poles = {"A": (4, [20.598997, 20.598997, 107.65265, 737.86223, 12194.217, 12194.217]),
                        "B": (3, [20.598997, 20.598997, 158.5, 12194.217, 12194.217]),
                        "C": (2, [20.598997, 20.598997, 12194.217, 12194.217]),
                        "D": (1, [math.sqrt(79919.29), math.sqrt(1345600.0)]),
                        "U": (0, [12200.0, 12200.0, 7850 - 8800j, 7850 + 8800j, 2900 - 12150j, 2900 + 12150j])}[name]
        frequencies = [1000.0] + [10.0 ** rng.uniform(0.5, 4.6) for _ in range(8)]

        def reference(x):
            s = 2j * math.pi * x
            result = product((s / w / 1000.0) for _ in range(zeros)) / product(s / w / 1000.0 + p / 1000.0 for p in poles)
            if name == "D":
                result *= (s * s + w * math.sqrt(1080768.16) * s + w * w * 1037918.48) / (s * s + w * math.sqrt(11723776.0) * s + w * w * 9837328.0)
            return result
        y, exc2 = (None, None) if exc else guarded(self.evaluate, f, [0.0] + frequencies)
        exc = exc or exc2
        e = {"op": "weighting", "exc": exc or "", "p": {"label": name + "-weighting"}, "out": {} if exc else {"nc": len(f), "lab": [label(s) for s in f.labels()]},
             "zero": [], "values": [], "reference": 0}
        if not exc:
            e["zero"] = encc(y[0], 10000, 2.0)
            e["reference"] = encf(abs(y[1]), 10000)
            gain = abs(reference(1000.0))
            e["values"] = [encc(v / reference(x) * gain, 10000, 2.0) for x, v in zip(frequencies, y[1:])]
        return e

    def run(self):
        rng = self.rng
        r = self.model("PredefinedMC", env={"MAXORDER": self.n(6, 7)}, workers=4)
        events = []
        cases = r.printed("FILTER")
        self.notes["enumerated_filters"] = len(cases)
        for c in cases:
            events.append(self.rolloff(c["type"], c["n"], c["e"], c["highpass"], RATIOS))
        for _ in range(self.n(600, 6000)):
            kind = rng.choice(sorted(TYPES))
            e = rng.choice(([1, 1], [3, 1], [1, 3], [0, 1] if kind == "Chebyshev1" else [1, 2], 10.0 ** rng.uniform(-3, 4)))
            if e == [0, 1]:
                e = 0.0
            n = rng.randint(1, 12)
            ratios = [(0, 1)] + [(rng.randint(1, 12), rng.randint(1, 12)) for _ in range(5)]
            # (the polynomials of Bessel filters are not decomposed)
            events.append(self.rolloff(kind, n if kind != "Bessel" else min(n, 8), e, rng.random() < 0.5, ratios))
        for _ in range(self.n(100, 1000)):
            events.append(self.linear())
        for _ in range(self.n(10, 100)):
            events.extend(self.weighting(x) for x in "ABCDU")
        for e in events:
            e["p"].setdefault("e", [1, 1])
        self.validate("PredefinedTrace", [{"events": [e]} for e in events])


CHECK = PredefinedCheck
