"""C12: the algebra of filters and terms. The terms of spec/TermsMC are built and evaluated with the real code; random
programs of filter operations follow. Everything is validated with spec/FilterTrace."""
from .common import Check
from .filters import FilterStore, POINTS

LABELS = ("", "a", "lowpass", "b", "Sum")


def random_value(rng, real=False):
    r = rng.random()
    if r < 0.15:
        return [0, 0, 1]
    if r < 0.3:
        return [rng.choice((1, -1)), 0, 1]
    if r < 0.8 or real:
        return [rng.randint(-4, 4), 0, 1]
    return rng.choice(([3, 4, 1], [0, 1, 1], [1, -1, 1], [1, 0, 2], [-3, 0, 2], [0, -2, 1], [1, 2, 2]))


def random_term(rng, depth=3):
    r = rng.random()
    tr = rng.random() < 0.4
    if depth == 0 or r < 0.3:
        r = rng.random()
        if r < 0.2:
            return {"t": "const", "v": random_value(rng)}
        if r < 0.75:
            cplx = rng.random() < 0.2
            c = [[rng.randint(-3, 3), rng.randint(-2, 2) if cplx else 0] for _ in range(rng.choice((0, 1, 1, 2, 2, 3, 3, 4, 4)))]
            if rng.random() < 0.2:      # a polynomial with a rational magnitude
                c = rng.choice(([[4, 0], [3, 0]], [[1, 0], [0, 0], [2, 0]], [[3, 0], [0, 0]], [[3, 0], [4, 0]]))
            return {"t": "poly", "c": c, "tr": tr}
        if r < 0.88:
            return {"t": "exp", "m": rng.randint(-3, 3), "tr": tr}
        return {"t": "bands", "v": [random_value(rng) for _ in POINTS],
                "i": rng.choice(("ZERO", "ONE", "LINEAR", "LOGARITHMIC", "LOG_X", "LOG_Y", "STAIRS_LIN", "STAIRS_LOG")),
                "e": rng.choice(("ZERO", "ONE", "LINEAR", "STAIRS_LIN", "STAIRS_LOG"))}
    t = rng.choice(("sum", "sum", "prod", "prod", "diff", "quot", "abs", "neg", "+", "-", "*", "/", "-x", "~", "||"))
    n = {"sum": rng.choice((0, 1, 2, 2, 3, 3, 3, 4)), "prod": rng.choice((1, 2, 3, 3, 4)), "abs": 1, "neg": 1, "-x": 1, "~": 1, "||": 1}.get(t, 2)
    x = [random_term(rng, depth - 1) for _ in range(n)]
    if n > 1 and rng.random() < 0.15:   # equal operands are simplified
        x[-1] = x[0]
    return {"t": t, "x": x, "tr": tr and t in ("sum", "prod", "diff", "quot", "abs", "neg")}


class FilterAlgebraCheck(Check):
    id = "C12"

    def random_trace(self, depth):
        rng = self.rng
        s = FilterStore()
        forms = ("", "tuple", "array", "int", "list")
        for _ in range(rng.randint(2, 4)):
            nc = rng.choice((1, 1, 2, 2, 3))
            f = {"terms": [random_term(rng, rng.randint(0, depth)) for _ in range(nc)], "lab": [rng.choice(LABELS) for _ in range(nc)]}
            s.perform({"op": "new", "f": f, "form": rng.choice(forms), "keep": True, "how": rng.choice(("array", "scalar"))})
            if rng.random() < 0.3:
                s.perform({"op": "new", "f": f, "form": rng.choice(forms), "keep": True})
        if not s.objects:
            return None
        for _ in range(rng.randint(3, 9)):
            n = len(s.objects)
            a, b = rng.randint(1, n), rng.randint(1, n)
            r = rng.random()
            keep = rng.random() < 0.6
            how = rng.choice(("array", "scalar"))
            if r < 0.4:
                e = {"op": rng.choice("+-*/"), "a": a, "b": b}
            elif r < 0.65:
                e = {"op": rng.choice("+-*/"), "a": a, "num": random_value(rng), "left": rng.random() < 0.5, "form": rng.choice(("", "int"))}
                if e["op"] == "/" and not e["left"] and e["num"] == [0, 0, 1]:
                    continue
            elif r < 0.82:
                e = {"op": rng.choice(("neg", "abs", "invert")), "a": a}
            elif r < 0.9:
                m = len(s.objects[a - 1])
                c = rng.randint(0, m - 1)
                d = rng.randint(c, m - 1)
                key, channels = rng.choice(((c, [c]), (c - m, [c]), (slice(c, d + 1), list(range(c, d + 1))), (slice(None, None, -1), list(range(m))[::-1])))
                e = {"op": "select", "a": a, "key": [key], "channels": [x + 1 for x in channels], "form": rng.choice(("", "tuple"))}
            else:
                s.perform({"op": "eq", "a": a, "b": b})
                continue
            s.perform(dict(e, keep=keep, how=how))
            if keep and rng.random() < 0.15 and not s.events[-1]["exc"]:
                s.perform(dict(e, keep=True, how=how))
                if len(s.objects) >= 2 and not s.events[-1]["exc"]:
                    s.perform({"op": "eq", "a": len(s.objects), "b": len(s.objects) - 1})
        return s.trace()

    def run(self):
        atoms = self.n(4, 6)
        r = self.model("TermsMC", env={"ATOMS": atoms, "WRAP": "yes"}, workers=8)
        trees = []
        for c in r.printed("TERM"):
            trees.append(c["inner"])
            trees.extend(c["outer"])
        self.notes["enumerated_terms"] = len(trees)
        if not self.thorough and len(trees) > 20000:
            self.rng.shuffle(trees)
            trees = trees[:20000]
        traces = []
        for i in range(0, len(trees), 40):
            s = FilterStore()
            for t in trees[i:i + 40]:
                s.perform({"op": "new", "f": {"terms": [t], "lab": ["x"]}, "form": ("", "array", "tuple")[i % 3]})
            traces.append(s.trace())
        for i in range(self.n(1500, 30000)):
            t = self.random_trace(2 + i % 2)
            if t is not None:
                traces.append(t)
        self.validate("FilterTrace", traces)


CHECK = FilterAlgebraCheck
