"""C22: waves, sweeps and harmonic impulse responses. All small sweeps and segments of spec/SweepsMC and random ones are created with the real code and
validated with spec/SweepsTrace."""
import math
import numpy
import sumpf
from .common import Check, enc, encf, guarded, rate
from .data import kind, label

RATES = ([48000, 1], [44100, 1], [1, 1], [7, 2], [8, 1], [96000, 1])
SCALE = 100000


class SweepsCheck(Check):
    id = "C22"

    # ------------------------------------------------------------- observations
    @staticmethod
    def sine(q):
        return [encf(math.sin(2.0 * math.pi * k / q), SCALE) for k in range(q)]

    @staticmethod
    def observe(x, at, factor=1.0):
        k = kind(x)
        out = {"k": k, "nc": 0, "len": 0, "rate": [], "off": 0, "lab": [], "at": at, "x": []}
        if k == "signal":
            out.update(nc=len(x), len=int(x.length()), rate=rate(x.sampling_rate()), off=int(x.offset()), lab=[label(s) for s in x.labels()])
            if len(x) and (not at or max(at) < x.length()):
                out["x"] = [encf(x.channels()[0, n] * factor, SCALE) for n in at]
        return out

    def positions(self, length, extra=()):
        """indices of the samples, that are recorded"""
        if length <= 60:
            return list(range(length))
        at = set(self.rng.randrange(length) for _ in range(30)) | {0, 1, length - 1, length - 2}
        return sorted(at | {n for n in extra if 0 <= n < length})

    def arguments(self, values, defaults):
        """positional and keyword arguments. Default values may be left out"""
        rng = self.rng
        args, kwargs = [], {}
        positional = rng.randint(0, len(values)) if rng.random() < 0.3 else 0
        for k, (n, v) in enumerate(values.items()):
            if k < positional:
                args.append(v)
            elif n in defaults and not isinstance(v, (tuple, list)) and v == defaults[n] and rng.random() < 0.7:
                continue
            else:
                kwargs[n] = v
        return args, kwargs

    def index(self, k, length):
        r = self.rng.random()
        if r < 0.6:
            return int(k)
        if k == length:
            return 1.0
        if r < 0.75 and k:
            return k - length
        if r < 0.9:
            return k / length
        return k / length - 1.0 if k else 0.0

    # -------------------------------------------------------------------- waves
    def wave(self):
        rng = self.rng
        q = rng.choice((4, 8, 12, 24, 48, 100))
        a = rng.choice((0, 1, rng.randint(0, q), rng.randint(0, 2 * q)))
        p = rng.randint(0, q - 1)
        length = rng.choice((0, 1, 2, rng.randint(3, 60), rng.randint(61, 1000), 2 ** 16))
        r = list(rng.choice(RATES))
        square = rng.random() < 0.5
        values = {"frequency": a * r[0] / r[1] / q, "phase": 2.0 * math.pi * p / q, "sampling_rate": r[0] / r[1], "length": length}
        args, kwargs = self.arguments(values, {"frequency": 1000.0, "phase": 0.0, "sampling_rate": 48000.0, "length": 2 ** 16})
        x, exc = guarded(lambda: (sumpf.SquareWave if square else sumpf.SineWave)(*args, **kwargs))
        return {"op": "wave", "exc": exc or "", "p": {"square": square, "a": a, "p": p, "Q": q, "length": length, "rate": r}, "sine": self.sine(q),
                "periods": enc(x.periods() * q) if x is not None else 0, "out": {} if exc else self.observe(x, self.positions(length))}

    # ------------------------------------------------------------------- sweeps
    def sweep(self, cls, values, p, op, factor, unit, extra=(), **more):
        """factor: for the samples, unit: of the frequencies"""
        rng = self.rng
        defaults = {"start_frequency": 20.0, "stop_frequency": 20000.0, "phase": 0.0, "sampling_rate": 48000.0, "length": 2 ** 16}
        if p["start"] == 0 and p["stop"] == p["length"] and rng.random() < 0.6:
            del values["interval"]
            args, kwargs = [], dict(values)
        else:
            args, kwargs = self.arguments(values, defaults)
        x, exc = guarded(lambda: cls(*args, **kwargs))
        e = {"op": op, "exc": exc or "", "p": p, "out": {}, "frequencies": [], "minimum": 0, "maximum": 0}
        e.update(more)
        if not exc:
            length = p["length"]
            e["out"] = self.observe(x, self.positions(length, extra), factor)
            n = sorted(set([0, p["start"], p["stop"], length] + [rng.randint(0, length) for _ in range(3)] + list(extra)[:4]))
            sr = p["rate"][0] / p["rate"][1]
            if rng.random() < 0.5:
                f, exc = guarded(lambda: [x.instantaneous_frequency(k / sr) for k in n])
            else:
                f, exc = guarded(x.instantaneous_frequency, rng.choice((list, tuple, numpy.array))([k / sr for k in n]))
            e["exc"] = exc or ""
            if not exc:
                e["frequencies"] = [[k, encf(v / unit, 1000)] for k, v in zip(n, f)]
            e["minimum"] = encf(x.minimum_frequency() / unit, 1000)
            e["maximum"] = encf(x.maximum_frequency() / unit, 1000)
        return e

    def linear(self, s, inverse):
        r = list(self.rng.choice(RATES))
        sr = r[0] / r[1]
        span = s["stop"] - s["start"]
        p = {"a": s["a"], "b": s["b"], "p": s["p"], "Q": s["Q"], "start": s["start"], "stop": s["stop"], "length": s["length"], "rate": r, "inverse": inverse}
        values = {"start_frequency": s["a"] * sr / s["Q"], "stop_frequency": (s["a"] + 2 * s["b"] * span) * sr / s["Q"], "phase": 2.0 * math.pi * s["p"] / s["Q"],
                  "interval": self.rng.choice((tuple, list))((self.index(s["start"], s["length"]), self.index(s["stop"], s["length"]))),
                  "sampling_rate": sr, "length": s["length"]}
        return self.sweep(sumpf.InverseLinearSweep if inverse else sumpf.LinearSweep, values, p, "linear", span / 2.0 if inverse else 1.0, sr / s["Q"],
                          sine=self.sine(s["Q"]))

    def exponential(self, s, inverse):
        r = list(self.rng.choice(RATES))
        sr = r[0] / r[1]
        octaves = (s["stop"] - s["start"]) // s["q"]
        f0 = s["A"] / s["Q"] * math.log(2.0) / s["q"] * sr
        p = {"A": s["A"], "p": s["p"], "Q": s["Q"], "q": s["q"], "start": s["start"], "stop": s["stop"], "length": s["length"], "rate": r, "inverse": inverse}
        values = {"start_frequency": f0, "stop_frequency": f0 * 2 ** octaves, "phase": 2.0 * math.pi * s["p"] / s["Q"],
                  "interval": self.rng.choice((tuple, list))((self.index(s["start"], s["length"]), self.index(s["stop"], s["length"]))),
                  "sampling_rate": sr, "length": s["length"]}
        factor = s["q"] * (2 ** octaves - 1) / 2.0 / math.log(2.0) if inverse else 1.0
        exact = [n for n in range(0, s["length"] + 1) if (s["start"] + s["stop"] - n if inverse else n) % s["q"] == s["start"] % s["q"]]
        return self.sweep(sumpf.InverseExponentialSweep if inverse else sumpf.ExponentialSweep, values, p, "exponential", factor, f0, extra=exact[:60],
                          sine=self.sine(s["Q"]))

    def oracle(self):
        """sweeps with arbitrary parameters"""
        rng = self.rng
        name = rng.choice(("LinearSweep", "InverseLinearSweep", "ExponentialSweep", "InverseExponentialSweep"))
        inverse = name.startswith("Inverse")
        r = list(rng.choice(RATES))
        sr = r[0] / r[1]
        length = rng.choice((rng.randint(2, 60), rng.randint(61, 3000), 8192, 8193, rng.randint(8193, 20000)))
        if rng.random() < 0.5:
            start, stop = 0, length
        else:
            start = rng.randint(0, length - 1)
            stop = rng.randint(start + 1, length)
        span = stop - start
        f0 = rng.choice((0.001, 0.01, 0.1)) * rng.uniform(0.5, 1.0) * sr
        f1 = rng.uniform(0.1, 0.5) * sr
        # the frequencies outside of the interval must not become too large (for the accuracy of the phase)
        if name.endswith("ExponentialSweep"):
            f1 = min(max(f1, 1.01 * f0), f0 * 2 ** (10.0 * span / length + 0.01))
        phase = rng.choice((0.0, math.pi / 2.0, rng.uniform(-7.0, 7.0)))
        values = {"start_frequency": f0, "stop_frequency": f1, "phase": phase,
                  "interval": rng.choice((tuple, list))((self.index(start, length), self.index(stop, length))), "sampling_rate": sr, "length": length}
        seconds = span / sr

        def tau(n):
            return (start + stop - n if inverse else n) / sr - start / sr
        if name.endswith("LinearSweep"):
            def frequency(n):
                return f0 + (f1 - f0) * tau(n) / seconds

            def sample(n):
                return math.sin(phase + 2.0 * math.pi * (f0 * tau(n) + (f1 - f0) / seconds * tau(n) ** 2 / 2.0))
            factor = span / 2.0 if inverse else 1.0
            expected = sample
        else:
            rate_ = seconds / math.log(f1 / f0)

            def frequency(n):
                return f0 * math.exp(tau(n) / rate_)

            def sample(n):
                return math.sin(phase + 2.0 * math.pi * f0 * rate_ * math.expm1(tau(n) / rate_))

            def expected(n):
                return sample(n) * (frequency(n) / f1 if inverse else 1.0)
            # the scaling factor of the inverse sweep is 2 * start / (rate * (stop - start) * sampling rate)
            factor = rate_ * (f1 - f0) * sr / 2.0 / f1 if inverse else 1.0
        p = {"start": start, "stop": stop, "length": length, "rate": r, "inverse": inverse,
             "label": "Sweep" if frequency(0) <= frequency(length) else "Inverse sweep"}
        e = self.sweep(getattr(sumpf, name), values, p, "oracle", factor, f1)
        if not e["exc"]:
            limits = sorted((frequency(0), frequency(length)))
            e["expected"] = [encf(expected(n), SCALE) for n in e["out"]["at"]]
            e["frequencies"] = [[v, encf(frequency(n) / f1, 1000)] for n, v in e["frequencies"]] + [
                [e["minimum"], encf(limits[0] / f1, 1000)], [e["maximum"], encf(limits[1] / f1, 1000)]]
        return e

    def peak(self):
        rng = self.rng
        length = rng.randint(150, 400)
        start, stop = (0, length) if rng.random() < 0.5 else (rng.randint(0, length // 8), length - rng.randint(0, length // 8))
        sr = rng.choice((48000.0, 44100.0, 8.0))
        values = {"start_frequency": 0.01 * sr, "stop_frequency": 0.4 * sr, "interval": (start, stop), "sampling_rate": sr, "length": length,
                  "phase": rng.choice((0.0, 1.0))}
        kind_ = rng.choice(("Linear", "Exponential"))

        def f():
            sweep = getattr(sumpf, kind_ + "Sweep")(**values)
            inverse = getattr(sumpf, f"Inverse{kind_}Sweep")(**values)
            return sweep.convolve(inverse)
        x, exc = guarded(f)
        e = {"op": "peak", "exc": exc or "", "p": {"kind": kind_, "start": start, "stop": stop, "length": length}, "tol": 500 if kind_ == "Linear" else 900}
        e["out"] = {} if exc else {"off": int(x.offset()), "x": [encf(v, 1000) for v in x.channels()[0]]}
        return e

    # ---------------------------------------------------------------- harmonics
    def harmonic(self, length, origin, harmonic=None, delay=None):
        """delay: the distance of the second harmonic to the linear impulse response in samples"""
        rng = self.rng
        harmonic = harmonic or rng.choice((1, 2, 2, 3, 4, 5, 8, 11, 12, 13, 21, 22, 101, 111))
        # the octaves of the sweep and its length
        octaves = rng.uniform(1.0, 11.0)
        r = list(rng.choice(RATES))
        sr = r[0] / r[1]
        span = rng.choice((None, rng.randint(4, 60)))
        limit = length if origin == 0 else origin
        if delay is None:
            delay = rng.uniform(0.1, 1.0) * limit / max(1.0, math.log2(harmonic))
        if span is None:
            span = max(1, round(delay * octaves))
        octaves = span / delay          # (log2(k) / octaves * span is the distance of the k-th harmonic)
        if not 0.05 < octaves < 40:
            return None
        distance = math.log2(harmonic) * delay
        previous = math.log2(harmonic - 1) * delay if harmonic > 1 else 0.0
        ceiling, floor = math.ceil(distance), math.floor(previous)
        if harmonic > 1 and (abs(distance - round(distance)) < 1e-6 or (harmonic > 2 and abs(previous - round(previous)) < 1e-6)):
            return None
        if harmonic > 1 and ceiling > limit:
            return None
        before = rng.choice((0, 0, 3))
        # the sweep may have another sampling rate than the impulse response
        ratio = rng.choice((1, 1, 2))
        kwargs = {"start_frequency": 0.001 * sr, "stop_frequency": 0.001 * sr * 2.0 ** octaves, "interval": (before, before + span * ratio),
                  "sampling_rate": sr * ratio, "length": before + span * ratio + rng.choice((0, 2))}
        nc = rng.choice((1, 1, 2, 3))
        x = [[rng.randint(-20, 20) for _ in range(length)] for _ in range(nc)]
        labels = [rng.choice(("IR", "x", "Signal")) for _ in range(nc)]
        array = numpy.array(x, dtype=rng.choice((numpy.float64, numpy.float64, numpy.int64))).reshape(nc, length)
        wanted = rng.choice((None, None, 0, rng.randint(1, 12), rng.randint(0, 2 * length)))
        n = (length - origin if harmonic == 1 else (ceiling - (0 if harmonic == 2 else floor)))
        size = n if wanted is None else max(n, wanted)
        d = ceiling - distance
        kernel = [encf((1.0 + 2.0 * sum(math.cos(2.0 * math.pi * k * (j + d) / size) for k in range(1, (size + 1) // 2))
                        + (math.cos(math.pi * d) * (-1) ** j if size % 2 == 0 else 0.0)) / size, 10000) for j in range(size)] if harmonic > 1 else []

        def f():
            sweep = rng.choice((sumpf.ExponentialSweep, sumpf.InverseExponentialSweep))(**kwargs)
            response = sumpf.Signal(channels=array, sampling_rate=sr, offset=-origin, labels=labels)
            args = [harmonic] if wanted is None and rng.random() < 0.5 else [harmonic, wanted]
            if rng.random() < 0.5:
                return response, sweep.harmonic_impulse_response(response, *args)
            return response, sweep.harmonic_impulse_response(**dict(zip(("impulse_response", "harmonic", "length"), [response] + args)))
        y, exc = guarded(f)
        e = {"op": "harmonic", "exc": exc or "", "kernel": kernel, "out": {}, "after": [],
             "p": {"x": x, "origin": origin, "harmonic": harmonic, "ceiling": ceiling, "floor": floor, "length": wanted or 0, "specified": wanted is not None,
                   "labels": labels, "rate": r}}
        if not exc:
            response, y = y
            e["out"] = self.observe(y, [])
            e["out"]["xs"] = [[encf(v, 10000) for v in c] for c in y.channels()]
            e["after"] = [[enc(v) for v in c] for c in response.channels()]
        return e

    # ------------------------------------------------------------------- traces
    def run(self):
        rng = self.rng
        r = self.model("SweepsMC", env={"MAXLENGTH": self.n(5, 8)}, workers=8)
        events = []
        linear, exponential, harmonic = (r.printed(x) for x in ("LINEAR", "EXPONENTIAL", "HARMONIC"))
        self.notes["enumerated_sweeps"] = len(linear) + len(exponential)
        self.notes["enumerated_segments"] = len(harmonic)
        for s in linear:
            events.append(self.linear(s, rng.random() < 0.5))
        for s in exponential:
            for inverse in (False, True):
                events.append(self.exponential(s, inverse))
        for s in harmonic:
            for k in (1, 2, 3, 4, 8):
                if s["length"] >= 1:
                    events.append(self.harmonic(s["length"], s["origin"], k, s["q"] + rng.choice((0.25, -0.25, 0.5, 0.4))))
        for _ in range(self.n(300, 5000)):
            events.append(self.wave())
        for _ in range(self.n(200, 3000)):
            length = rng.choice((rng.randint(2, 60), rng.randint(61, 400), rng.randint(8193, 10000)))
            start = rng.randint(0, length - 1)
            stop = rng.randint(start + 1, length)
            if rng.random() < 0.3:
                start, stop = 0, length
            q = rng.choice((24, 100, 360))
            # (32 bit integers in the model)
            b = rng.choice((-1, 0, 1, 2)) if length < 400 else rng.choice((0, 1))
            events.append(self.linear({"a": rng.randint(0, 3 * q), "b": b, "p": rng.randint(0, q - 1), "Q": q, "start": start, "stop": stop, "length": length},
                                      rng.random() < 0.5))
        for _ in range(self.n(200, 3000)):
            q = rng.choice((1, 2, 5, 20, rng.randint(1, 40), 1000))
            octaves = rng.randint(1, 9)
            start = rng.choice((0, rng.randint(0, 3 * q)))
            tail = rng.choice((0, rng.randint(0, q)))
            events.append(self.exponential({"A": 8 * rng.randint(1, 9), "p": rng.randint(0, 47), "Q": 48, "q": q, "start": start, "stop": start + octaves * q,
                                            "length": start + octaves * q + tail}, rng.random() < 0.5))
        for _ in range(self.n(300, 5000)):
            events.append(self.oracle())
        for _ in range(self.n(30, 300)):
            events.append(self.peak())
        for _ in range(self.n(400, 6000)):
            length = rng.choice((rng.randint(1, 12), rng.randint(8, 40)))
            events.append(self.harmonic(length, rng.choice((0, rng.randint(0, length - 1)))))
        self.validate("SweepsTrace", [{"events": [e]} for e in events if e is not None])


CHECK = SweepsCheck
