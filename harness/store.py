"""Performs operations on real data sets, records the executions for spec/StoreTrace and generates random ones."""
import math
import operator
import numpy
import sumpf
from .common import enc, encc, guarded, rate
from .data import coarse, from_sumpf, nothing, random_data, spread, to_sumpf

BINARY = {"+": operator.add, "-": operator.sub, "*": operator.mul, "/": operator.truediv, "%": operator.mod, "**": operator.pow}
ARRAY_OPS = ("magnitude", "real", "imaginary", "phase", "time_samples", "frequency_samples", "shape")


def array_record(nested, cplx=False):
    """a number or array operand for spec/Algebra!WithArray: nested lists [channel][bin][sample] of pairs"""
    return {"k": "array", "nc": len(nested), "nf": len(nested[0]) if nested else 0, "len": len(nested[0][0]) if nested and nested[0] else 0,
            "off": 0, "sr": [0, 1], "res": [0, 1], "lab": [], "cplx": cplx, "ch": nested}


NO_ARRAY = array_record([[[[0, 0]]]])


def from_array(a, scale=1, grain=1):
    a = numpy.asarray(a)
    if grain > 1:
        a = coarse(a, grain)
    if a.ndim == 1:
        a = a[None, None, :]
    elif a.ndim == 2:
        a = a[:, None, :]
    elif a.ndim != 3:
        return dict(nothing(), k=f"array with {a.ndim} dimensions")
    nc, nf, n = a.shape
    return {"k": "array", "nc": nc, "nf": nf, "len": n, "off": 0, "sr": [0, 1], "res": [0, 1], "lab": [],
            "ch": [[[encc(v, scale) for v in row] for row in m] for m in a.tolist()]}


def to_array(r, d, form):
    """builds the operand (a number, list, tuple or array) for an array record and a data set"""
    def num(p):
        if r["cplx"]:
            return complex(*p)
        return float(p[0]) if form.endswith("f") else p[0]
    if form.startswith("number"):
        x = num(r["ch"][0][0][0])
        if form == "number_numpy_f":
            return numpy.complex128(x) if r["cplx"] else numpy.float64(x)
        if form == "number_numpy":
            return numpy.complex128(x) if r["cplx"] else numpy.int64(x)
        return x
    nested = [[[num(p) for p in row] for row in m] for m in r["ch"]]
    if d["k"] != "spectrogram":
        nested = [m[0] for m in nested]
    if form.startswith("flat"):         # drop the leading axes of size one
        while len(nested) == 1 and isinstance(nested[0], list):
            nested = nested[0]
    if "list" in form:
        return nested
    if "tuple" in form:
        return _tuple(nested)
    return numpy.array(nested)


def _tuple(x):
    return tuple(_tuple(y) for y in x) if isinstance(x, list) else x


def key_element(e):
    if e["t"] == "int":
        return e["v"]
    if e["t"] == "float":
        return e["v"][0] / e["v"][1]

    def num(x):
        return None if not x else x[0] if len(x) == 1 else x[0] / x[1]
    return slice(*(num(x) for x in e["v"]))


def repeated(x, n):
    """each element of the innermost sequences n times"""
    if isinstance(x, numpy.ndarray):
        return numpy.repeat(x, n, axis=-1)
    if isinstance(x[0], (list, tuple)):
        return type(x)(repeated(y, n) for y in x)
    return type(x)(y for y in x for _ in range(n))


def independent(e):
    """whether the operation can also be specified for data sets, in which each sample is repeated"""
    if e["op"] == "slice":
        # only whole groups of samples are selected. The key must select all axes, if one of its elements is for the samples
        k = e["args"]["key"][-1]
        return k["t"] == "slice" and all(len(v) < 2 for v in k["v"]) and k["v"][2] in ([], [1])
    return e["op"] in BINARY or e["op"] in ("neg", "abs", "invert", "pad", "shift", "magnitude", "real", "imaginary", "phase", "conjugate")


class Store:
    """executes the events of a trace on the real code"""

    def __init__(self, init, dtypes=None, grain=1, gap=1, tol=1e-6):
        self.init = init
        self.grain = grain      # each sample is repeated this many times
        self.tol = tol          # the accepted relative rounding error
        self.gap = gap          # the distance between the samples; there are zeros between them
        self.objects = [to_sumpf(d, (dtypes or {}).get(i), grain, gap) for i, d in enumerate(init)]
        self.abstract = list(init)
        self.events = []

    def call(self, e):
        op = e["op"]
        x = self.objects[e["a"] - 1]
        args = e["args"]
        if op in BINARY:
            if e["b"]:
                return BINARY[op](x, self.objects[e["b"] - 1])
            y = to_array(e["arr"], self.abstract[e["a"] - 1], e["form"])
            if self.grain > 1 and e["arr"]["len"] > 1:
                y = repeated(y, self.grain)
            return BINARY[op](y, x) if e["left"] else BINARY[op](x, y)
        if op == "neg":
            return -x
        if op == "abs":
            return abs(x)
        if op == "invert":
            return ~x
        if op == "reversed":
            return reversed(x)
        if op == "slice":
            key = [key_element(k) for k in args["key"]]
            if self.grain > 1 and len(key) == x.channels().ndim:
                key[-1] = slice(*(None if v is None else v * self.grain for v in (key[-1].start, key[-1].stop)), key[-1].step)
            return x[tuple(key)] if args["tuple"] else x[key[0]]
        if op == "pad":
            v = args["value"]
            v = complex(*v) if v[1] else float(v[0])
            n = args["length"] * self.grain
            return x.pad(n) if args.get("default") else x.pad(n, v)
        if op == "shift":
            s = args["shift"][0] * self.grain if args["shift"] else None
            if args.get("default"):
                return x.shift(s)
            return x.shift(s, type(x).shift_modes[args["mode"]])
        if op in ("convolve", "correlate"):
            mode = sumpf.Signal.convolution_modes[args["mode"]]
            if e["b"]:
                return getattr(x, op)(self.objects[e["b"] - 1], mode)
            y = to_array(e["arr"], {"k": "signal"}, e["form"])
            return getattr(x, op)(spread(numpy.asarray(y), self.gap) if self.gap > 1 else y, mode)
        if op == "convolve_number":
            return getattr(x, args["method"])(args["number"], sumpf.Signal.convolution_modes[args["mode"]])
        if op == "shape":
            return numpy.array(x.shape() + (len(x), x.length()))
        return getattr(x, op)()

    def perform(self, event):
        """performs an event and records its outcome"""
        e = {"op": "", "a": 1, "b": 0, "arr": NO_ARRAY, "left": False, "args": {}, "s": 1, "keep": False, "form": ""}
        e.update(event)
        if self.grain > 1 and not independent(e) or self.gap > 1 and e["args"].get("mode") not in ("FULL", "VALID", "SPECTRUM_PADDED"):
            return dict(e, exc="", out=nothing())
        with numpy.errstate(all="ignore"):
            result, exc = guarded(self.call, e)
        e["exc"] = {"UFuncTypeError": "TypeError", "_UFuncBinaryResolutionError": "TypeError", "_UFuncOutputCastingError": "TypeError",
                    "_UFuncInputCastingError": "TypeError", "_UFuncNoLoopError": "TypeError"}.get(exc, exc) or ""
        e["out"] = nothing()
        if exc is None:
            scale = e["s"]
            if e["op"] in ARRAY_OPS:
                x = self.objects[e["a"] - 1]
                if e["op"] == "phase":
                    scale *= 4.0 / math.pi
                elif e["op"] == "time_samples":
                    scale = x.sampling_rate()
                elif e["op"] == "frequency_samples":
                    scale = 1.0 / x.resolution()
                e["out"], exc = guarded(from_array, result, scale, self.grain)
            else:
                e["out"], exc = guarded(from_sumpf, result, scale, self.tol, grain=self.grain, gap=self.gap)
            if exc is not None:
                e["exc"], e["out"] = "unreadable result: " + exc, nothing()
        if e["exc"]:
            e["keep"] = False
        if e["keep"]:
            self.objects.append(result)
            self.abstract.append(e["out"])
        self.events.append(e)
        return e

    def trace(self):
        final = []
        for o in self.objects:
            d, exc = guarded(from_sumpf, o, grain=self.grain, gap=self.gap)
            final.append(d if exc is None else nothing())
        return {"init": self.init, "events": self.events, "final": final}


def size(d):
    return max([abs(x) for c in d["ch"] for f in c for s in f for x in s] or [0])


def replay(cases, dtypes=None):
    """replays the cases, that have been printed by a model"""
    traces = []
    for i, c in enumerate(cases):
        s = Store(c["init"], dtypes(i) if dtypes else None)
        for e in c["events"]:
            s.perform(e)
        traces.append(s.trace())
    return traces


# ---------------------------------------------------------------------- random operations
def random_elem(rng, n):
    t = rng.random()
    if t < 0.3:
        return {"t": "int", "v": rng.randint(-n - 1, n)}
    if t < 0.4:
        q = rng.choice((2, 4, 8))
        return {"t": "float", "v": [rng.randint(-q, q), q]}

    def bound():
        u = rng.random()
        if u < 0.25:
            return []
        if u < 0.8:
            return [rng.randint(-n - 2, n + 2)]
        q = rng.choice((2, 4, 8))
        return [rng.randint(-q, q), q]
    u = rng.random()
    step = [] if u < 0.6 else [1] if u < 0.75 else [rng.choice((2, 3, -1, -2))]
    return {"t": "slice", "v": [bound(), bound(), step]}


def random_key(rng, d):
    axes = [d["nc"], d["nf"], d["len"]] if d["k"] == "spectrogram" else [d["nc"], d["len"]]
    if rng.random() < 0.2:
        return [random_elem(rng, axes[0])], False
    m = rng.randint(1, len(axes))
    if rng.random() < 0.6:
        m = len(axes)
    full = {"t": "slice", "v": [[], [], []]}
    return [full if rng.random() < 0.25 else random_elem(rng, n) for n in axes[:m]], True


def defined_offset(d, key):
    """whether the offset of a slice is specified (if the step is positive and the result not empty)"""
    n = 3 if d["k"] == "spectrogram" else 2
    e = key[n - 1] if len(key) >= n else None
    return e is None or e["t"] != "slice" or not e["v"][2] or e["v"][2][0] > 0


def random_array(rng, d, cplx=None, values=None):
    """a random number or array with a shape, that can be broadcast to the data set (mostly)"""
    cplx = (d["k"] != "signal" and rng.random() < 0.5) if cplx is None else cplx
    nc, nf, n = (rng.choice((1, x)) for x in (d["nc"], d["nf"], d["len"]))
    if rng.random() < 0.03:
        n += 1
    if rng.random() < 0.3:
        nc = nf = n = 1
    values = values or (lambda: [rng.randint(-9, 9), rng.randint(-9, 9) if cplx else 0])
    r = array_record([[[values() for _ in range(n)] for _ in range(nf)] for _ in range(nc)], cplx)
    if nc == nf == n == 1 and rng.random() < 0.8:
        form = rng.choice(("number", "number_f", "number_numpy", "number_numpy_f"))
    else:
        flat = rng.choice(("flat_", "")) if nc == 1 else ""
        form = flat + rng.choice(("list", "tuple", "array", "array_f"))
    return r, form


REAL_DIVISORS = (1, 2, 3, 4, 5, 6, -1, -2, -3, -4, -5, -6)
COMPLEX_DIVISORS = ([1, 0], [0, 1], [1, 1], [-2, 0], [1, -2], [-1, 1], [0, -2], [2, 1], [-1, -1], [0, -1])


def divisor_values(rng, k, zero=True):
    if k == "signal":
        return [rng.choice(REAL_DIVISORS + ((0,) if zero else ())), 0]
    return list(rng.choice(COMPLEX_DIVISORS))


def random_values(rng, d, values):
    return dict(d, ch=[[[values() for _ in f] for f in c] for c in d["ch"]])
