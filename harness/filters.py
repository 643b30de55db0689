"""Builds filters from the trees of spec/Terms, performs operations on them and records the executions."""
import math
import operator
from fractions import Fraction
import numpy
import sumpf
from .common import guarded
from .data import label

POINTS = [[0, 1], [1, 2], [1, 1], [2, 1]]
OPS = {"+": operator.add, "-": operator.sub, "*": operator.mul, "/": operator.truediv}
F = sumpf.Filter


def frequency(p):
    return p[0] / p[1] / (2.0 * math.pi)


def number(v, form=""):
    x = complex(v[0], v[1]) / v[2]
    if v[1] == 0:
        x = v[0] if v[2] == 1 and form == "int" else v[0] / v[2]
    return x


def build(t, form="", points=POINTS):
    """builds a term. The form selects one of several equivalent ways of passing the parameters."""
    k = t["t"]
    if k == "const":
        return F.Constant(number(t["v"], form))
    if k == "poly":
        c = [number(list(x) + [1], form) for x in t["c"]]
        c = {"tuple": tuple(c), "array": numpy.array(c), "int": c}.get(form, c)
        return F.Polynomial(c, t["tr"])
    if k == "exp":
        return F.Exp(t["m"] * math.pi, t["tr"])
    if k == "bands":
        xs = [frequency(p) for p in points]
        ys = [number(v) for v in t["v"]]
        i = sumpf.Bands.interpolations[t.get("i", "LINEAR")]
        e = sumpf.Bands.interpolations[t.get("e", "STAIRS_LIN")]
        if form == "array":
            return F.Bands(numpy.array(xs), numpy.array(ys), i, e)
        return F.Bands(xs, ys, i, e)
    x = [build(y, form, points) for y in t["x"]]
    tr = t["tr"]
    if k == "sum":
        return F.Sum(x if form == "list" else tuple(x), tr)
    if k == "prod":
        return F.Product(x if form == "list" else tuple(x), tr)
    if k == "diff":
        return F.Difference(x[0], x[1], tr)
    if k == "quot":
        return F.Quotient(x[0], x[1], tr)
    if k == "abs":
        return F.Absolute(x[0], tr)
    if k == "neg":
        return F.Negative(x[0], tr)
    if k == "-x":
        return -x[0]
    if k == "~":
        return ~x[0]
    if k == "||":
        return abs(x[0])
    return OPS[k](*x)


def build_filter(f, form="", points=POINTS):
    tfs = [build(t, form, points) for t in f["terms"]]
    return F(transfer_functions=tuple(tfs), labels=tuple(f["lab"]))


def rational(z, bound=1000):
    """<<re, im, den>> in lowest terms or <<0, 0, 0>>, if the value is not a small fraction"""
    z = complex(z)
    if not (math.isfinite(z.real) and math.isfinite(z.imag)) or abs(z) > 1e6:
        return [0, 0, 0]
    a, b = (Fraction(x).limit_denominator(bound) for x in (z.real, z.imag))
    if abs(float(a) - z.real) > 1e-8 * max(1.0, abs(z)) or abs(float(b) - z.imag) > 1e-8 * max(1.0, abs(z)):
        return [0, 0, 0]
    d = a.denominator * b.denominator // math.gcd(a.denominator, b.denominator)
    return [int(a * d), int(b * d), d]


def values(f, points=POINTS, how="array"):
    """the values of all channels at all points"""
    fs = [frequency(p) for p in points]
    with numpy.errstate(all="ignore"):
        if how == "array":
            r = f(numpy.array(fs))
            return [[rational(numpy.broadcast_to(c, (len(fs),))[i]) for i in range(len(fs))] for c in r]
        r = [f(x) for x in fs]
        return [[rational(r[i][c]) for i in range(len(fs))] for c in range(len(f))]


NOTHING = {"lab": [], "val": []}
NEW = {"terms": [], "lab": []}


class FilterStore:
    def __init__(self, points=POINTS):
        self.points = points
        self.objects = []
        self.events = []

    def call(self, e):
        op = e["op"]
        if op == "new":
            return build_filter(e["f"], e["form"], self.points)
        x = self.objects[e["a"] - 1]
        if op in OPS:
            y = self.objects[e["b"] - 1] if e["b"] else number(e["num"], e["form"])
            return OPS[op](y, x) if e["left"] else OPS[op](x, y)
        if op == "select":
            return x[tuple(e["key"])] if e["form"] == "tuple" else x[e["key"][0]]
        return {"neg": operator.neg, "abs": operator.abs, "invert": operator.invert}[op](x)

    def perform(self, event):
        e = {"op": "", "a": 1, "b": 0, "num": [0, 0, 1], "left": False, "channels": [], "f": NEW, "form": "", "keep": False}
        e.update(event)
        if e["op"] == "eq":
            self.compare(e)
            self.events.append(e)
            return e
        with numpy.errstate(all="ignore"):
            r, exc = guarded(self.call, e)
        e["exc"] = exc or ""
        e["out"] = NOTHING
        if exc is None:
            out, exc = guarded(lambda: {"lab": [label(s) for s in r.labels()], "val": values(r, self.points, e.get("how", "array"))})
            if exc is not None:
                e["exc"] = "unreadable result: " + exc
            else:
                e["out"] = out
        if e["exc"]:
            e["keep"] = False
        if e["keep"]:
            self.objects.append(r)
        e.pop("key", None)
        self.events.append(e)
        return e

    def compare(self, e):
        x, y = self.objects[e["a"] - 1], self.objects[e["b"] - 1]

        def hashes():
            try:
                return hash(x) == hash(y)
            except TypeError:
                return True
        r, exc = guarded(lambda: (bool(x == y), bool(y == x), bool(x != y), hashes()))
        e["exc"] = exc or ""
        e["eq"], e["qe"], e["ne"], e["hash"] = r or (False, False, True, True)

    def trace(self):
        return {"points": self.points, "events": self.events}
