"""C05: the algebra of signals. All small combinations of shapes and offsets, that spec/AlgebraMC enumerates, and random
programs are executed with the real code and validated with spec/StoreTrace."""
import numpy
from .common import Check
from .data import grains, random_data
from .store import Store, random_array, random_values, divisor_values, replay, size


class AlgebraCheck(Check):
    kinds = ("signal",)
    models_kinds = ("signal-signal",)
    unary = ("neg", "abs", "time_samples", "shape")
    operators = ("+", "-", "*", "/", "%", "**")
    dtypes = (numpy.float64, numpy.float32, numpy.int64)

    def cases(self):
        cases = []
        for kinds in self.models_kinds:
            r = self.model("AlgebraMC", env={"KINDS": kinds, "TIER": self.tier}, workers=4)
            cases.extend(r.printed("CASE"))
        self.notes["enumerated_cases"] = len(cases)
        return cases

    def random_dtypes(self, init):
        if self.rng.random() < 0.6:
            return None
        result = {}
        for i, d in enumerate(init):
            real = all(s[1] == 0 for c in d["ch"] for f in c for s in f)
            zero = any(s[0] == 0 for c in d["ch"] for f in c for s in f)
            if d["k"] == "signal":
                # integers do not have infinities for a division by zero
                result[i] = self.rng.choice([t for t in self.dtypes if not (zero and t is numpy.int64)])
            elif real:
                result[i] = self.rng.choice((numpy.float64, numpy.complex64, numpy.complex128))
            else:
                result[i] = self.rng.choice((numpy.complex64, numpy.complex128))
        return result

    def pick_kind(self):
        return self.rng.choice(self.kinds)

    def partner(self, d):
        """another data set for an operation with d"""
        rng = self.rng
        k = self.pick_kind()
        kw = {}
        if rng.random() < 0.4:
            kw["length"] = d["len"]
        if rng.random() < 0.4:
            kw["nc"] = d["nc"]
        if rng.random() < 0.4:
            kw["off"] = d["off"]
        if k == "spectrum" and d["k"] == "spectrogram":
            kw["length"] = d["nf"]
        if k == "spectrogram":
            if d["k"] == "spectrum":
                kw = {"nf": d["len"]}
            elif rng.random() < 0.5:
                kw["nf"] = d["nf"]
        return random_data(rng, k, **kw)

    def random_trace(self):
        rng = self.rng
        d = random_data(rng, self.pick_kind(), max_len=6, max_nc=4)
        init = [d, self.partner(d), self.partner(d)]
        mixed = any(x["k"] != "signal" for x in init)
        # 4: divisors, 5: exponents
        p = self.partner(d)
        init.append(random_values(rng, p, lambda: divisor_values(rng, p["k"], zero=not mixed) if not mixed or p["k"] != "signal"
                                  else [rng.choice((1, 2, 4, 5, -1, -2, -4)), 0]))
        init.append(random_values(rng, self.partner(d), lambda: [rng.randint(0, 3), 0]))
        # (the samples of a spectrum are combined with the frequencies of a spectrogram)
        grain = 1 if {"spectrum", "spectrogram"} <= {x["k"] for x in init} else grains(rng)
        s = Store(init, self.random_dtypes(init), grain)
        scale = 20 if mixed else 60
        for _ in range(rng.randint(4, 8)):
            t = rng.random()
            a = rng.choice([i for i, x in enumerate(s.abstract, 1) if size(x) < 1000 and i not in (4, 5)])
            x = s.abstract[a - 1]
            op = rng.choice(self.operators)
            if t < 0.25:
                self.unary_event(s, a)
            elif t < 0.6:
                b = 4 if op in ("/", "%") else 5 if op == "**" else rng.choice([i for i, y in enumerate(s.abstract, 1) if size(y) < 1000])
                if op == "**" and size(x) > 9:
                    op = "+"
                if rng.random() < 0.5 and op in ("+", "-", "*"):
                    a, b = b, a
                e = s.perform({"op": op, "a": a, "b": b, "s": scale if op == "/" else 1, "keep": op in ("+", "-", "*")})
            else:
                self.array_event(s, a, op, scale)
        return s.trace()

    def array_event(self, s, a, op, scale):
        rng = self.rng
        left = rng.random() < 0.5
        if left and op in ("/", "%"):
            a = 4
        if left and op == "**":
            a = 5
        x = s.abstract[a - 1]
        if op in ("/", "%") and not left:
            arr, form = random_array(rng, x, x["k"] != "signal", lambda: divisor_values(rng, x["k"], False))
        elif op == "**" and not left:
            if size(x) > 9:
                op = "+"
            arr, form = random_array(rng, x, False, lambda: [rng.randint(0, 3), 0])
        elif rng.random() < 0.03:
            arr, form = random_array(rng, x, True)
        else:
            arr, form = random_array(rng, x)
        if op == "%" and left and form.startswith("number") and arr["cplx"]:
            return
        # multiplying sequences with integers, comparing sequences etc. is none of SuMPF's business
        s.perform({"op": op, "a": a, "b": 0, "arr": arr, "form": form, "left": left, "s": scale if op == "/" else 1,
                   "keep": op in ("+", "-", "*")})

    def unary_event(self, s, a):
        op = self.rng.choice(self.unary)
        x = s.abstract[a - 1]
        if x["k"] == "signal" and op not in ("neg", "abs", "time_samples", "shape"):
            op = "neg"
        if x["k"] == "spectrum" and op == "time_samples" or x["k"] == "signal" and op == "frequency_samples":
            op = "neg"
        s.perform({"op": op, "a": a, "keep": op == "neg"})

    def precision_trace(self):
        """integers, for which single precision is not sufficient"""
        rng = self.rng

        def big(cplx):
            return [rng.choice((rng.randint(-9, 9), rng.choice((1, -1)) * (2 ** 25 + 2 * rng.randint(0, 99) + 1))) if c else 0 for c in (True, cplx)]
        d = random_data(rng, self.pick_kind(), max_len=4)
        init = []
        for x in (d, self.partner(d)):
            init.append(random_values(rng, x, lambda cplx=x["k"] != "signal": big(cplx)))
        init.append(self.partner(d))
        # (the quotients and the scale are chosen such that the specification can compute with 32 bits)
        init.append(random_values(rng, self.partner(d), lambda: [rng.choice((1, 3, -3)), 0]))
        s = Store(init, tol=1e-12)
        s.perform({"op": "/", "a": 3, "b": 4, "s": 3 * 10 ** 7})
        if init[3]["k"] == "spectrum":
            s.perform({"op": "invert", "a": 4, "s": 3 * 10 ** 7})
        for _ in range(6):
            a = rng.choice([i for i, x in enumerate(s.abstract, 1) if size(x) < 2 ** 28 and i != 4])
            b = rng.choice([i for i, x in enumerate(s.abstract, 1) if size(x) < 2 ** 28 and i != 4])
            op = rng.choice("+-+-*")
            r = rng.random()
            if r < 0.25:
                self.unary_event(s, a)
            elif op == "*":
                a, b = rng.sample((rng.choice((1, 2)), 3), 2)
                s.perform({"op": op, "a": a, "b": b})
            elif r < 0.75:
                s.perform({"op": op, "a": a, "b": b, "keep": True})
            else:
                x = s.abstract[a - 1]
                cplx = x["k"] != "signal" and rng.random() < 0.5
                arr, form = random_array(rng, x, cplx, lambda cplx=cplx: big(cplx))
                s.perform({"op": op, "a": a, "b": 0, "arr": arr, "form": form, "left": rng.random() < 0.5, "keep": True})
        return s.trace()

    def more_traces(self):
        return []

    def run(self):
        cases = self.cases()
        traces = replay(cases)
        for _ in range(self.n(500, 6000)):
            traces.append(self.random_trace())
        for _ in range(self.n(80, 800)):
            traces.append(self.precision_trace())
        traces.extend(self.more_traces())
        self.validate("StoreTrace", traces)


class SignalAlgebraCheck(AlgebraCheck):
    id = "C05"


CHECK = SignalAlgebraCheck
