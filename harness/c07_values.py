"""C07: data sets are values. Programs, that spec/ValuesMC enumerates, are executed with random operations of their classes. After
each operation, the contents of all objects, that are alive, are recorded. The recordings are validated with spec/ValuesTrace."""
import hashlib
import operator
import os
import shutil
import tempfile
import numpy
import sumpf
from .common import Check, guarded
from .data import kind as data_kind
from .files import CLASSES, bands as random_bands, endings, filter_, formats, kind, term

F = sumpf.Filter
WINDOWS = (sumpf.HannWindow, sumpf.HammingWindow, sumpf.RectangularWindow, sumpf.BlackmanWindow)
MODES = sumpf.Signal.convolution_modes
SHIFTS = sumpf.Signal.shift_modes
OPERATORS = {"+": operator.add, "-": operator.sub, "*": operator.mul, "/": operator.truediv, "**": operator.pow, "%": operator.mod}


def content(x):
    """a hash value for everything, that can be observed"""
    h = hashlib.sha256()

    def add(*parts):
        for p in parts:
            h.update(p if isinstance(p, bytes) else repr(p).encode())
            h.update(b"|")
    if isinstance(x, numpy.ndarray):
        add("array", str(x.dtype), x.shape, x.tobytes())
    elif isinstance(x, F):
        add(type(x).__name__, len(x), [term(t) for t in x.transfer_functions()], list(x.labels()), repr(x))
    elif data_kind(x) in ("signal", "spectrum", "spectrogram"):
        c = x.channels()
        add(type(x).__name__, str(c.dtype), c.shape, c.tobytes(), x.labels(), x.shape(), x.length(), len(x))
        add(*[getattr(x, n)() for n in ("sampling_rate", "resolution", "offset") if hasattr(x, n)])
    elif isinstance(x, (tuple, list)):
        add(type(x).__name__, *[content(y) for y in x])
    elif isinstance(x, numpy.generic):
        add(str(x.dtype), x.item())
    else:
        add(type(x).__name__, x)
    return h.hexdigest()[:12]


def close(a, b):
    """are the results equal except for rounding errors (vectorised code may depend on the alignment of the memory)?"""
    if type(a) is not type(b):
        return False
    if isinstance(a, (tuple, list)):
        return len(a) == len(b) and all(close(x, y) for x, y in zip(a, b))
    if data_kind(a) in ("signal", "spectrum", "spectrogram"):
        meta = [(x.labels(), x.shape(), [getattr(x, n)() for n in ("sampling_rate", "resolution", "offset") if hasattr(x, n)]) for x in (a, b)]
        return meta[0] == meta[1] and close(a.channels(), b.channels())
    if isinstance(a, F):
        return content(a) == content(b)
    if isinstance(a, (numpy.ndarray, numpy.number, float, complex)):
        a, b = numpy.asarray(a), numpy.asarray(b)
        if a.shape != b.shape or a.dtype != b.dtype:
            return False
        if a.dtype.kind not in "fc" or not a.size:
            return bool((a == b).all())
        finite = numpy.abs(a[numpy.isfinite(a)])
        return bool(numpy.allclose(a, b, rtol=1e-9 if a.dtype.itemsize >= 8 else 1e-4, atol=1e-11 * (finite.max() if finite.size else 1.0), equal_nan=True))
    return a == b


class Program:
    def __init__(self, rng, objects, path):
        self.rng = rng
        self.path = path
        self.heap = list(objects)
        self.initial = [content(x) for x in self.heap]
        self.named = [0, 1]             # the handles, that the program of the specification refers to
        self.events = []
        self.history = []               # the executed operations for repeating them
        self.memo = {}
        self.blocks = []
        self.files = 0

    # -------------------------------------------------------------- execution
    def execute(self, op, args, operands, function, keep=True):
        before = [content(x) for x in self.heap]
        with numpy.errstate(all="ignore"):
            r, exc = guarded(function, *[self.heap[h] for h in operands])
        data = keep and exc is None and (isinstance(r, (F, numpy.ndarray)) or data_kind(r) in ("signal", "spectrum", "spectrogram"))
        results = [] if exc is not None else [content(r)]
        key = (op, args, tuple(before[h] for h in operands))
        if key in self.memo and exc is None:
            old, digests = self.memo[key]
            if digests != results and digests and close(old, r):
                results = digests
        elif key not in self.memo:
            self.memo[key] = (r, results)
        if data:
            self.heap.append(r)
        self.events.append({"op": op, "args": args, "operands": [h + 1 for h in operands], "exc": exc or "", "results": results, "keep": data,
                            "heap": [content(x) for x in self.heap]})
        return len(self.heap) - 1 if data else None

    def do(self, op, args, operands, function):
        h = self.execute(op, str(args), operands, function)
        self.history.append((op, str(args), operands, function))
        return h

    def repeat(self):
        op, args, operands, function = self.rng.choice(self.history)
        self.execute(op, args, operands, function, keep=False)

    def register(self, a):
        """adds an array or a data set, that is passed to the library and must not be changed by it"""
        if isinstance(a, int):
            return a
        self.heap.append(a)
        self.events.append({"op": "new object", "args": str(len(self.heap)), "operands": [], "exc": "", "results": [content(a)], "keep": True,
                            "heap": [content(x) for x in self.heap]})
        return len(self.heap) - 1

    def step(self, cls, x, y):
        h, g = (self.named[min(i, len(self.named)) - 1] for i in (x, y))
        options = list(getattr(self, cls)(h, g))
        name = self.rng.choice(sorted({o[0] for o in options}))
        op, args, operands, function = self.rng.choice([o for o in options if o[0] == name])
        r = self.do(op, args, [self.register(o) for o in operands], function)
        if cls != "look":
            self.named.append(h if r is None or isinstance(self.heap[r], numpy.ndarray) else r)
        if self.rng.random() < 0.35:
            self.repeat()

    def other(self, h, g, kinds=None):
        """the handle g or another one, if it has the wrong kind"""
        k = kinds or (data_kind(self.heap[h]),)
        if data_kind(self.heap[g]) in k:
            return g
        c = [i for i, x in enumerate(self.heap) if data_kind(x) in k]
        return self.rng.choice(c) if c else h

    # ------------------------------------------------------------- operations
    def same(self, h, g):
        x = self.heap[h]
        k = data_kind(x)
        if k in ("signal", "spectrogram"):
            yield "shift", 0, [h], lambda a: a.shift(0)
            yield "shift", "CROP 0", [h], lambda a: a.shift(0, SHIFTS.CROP)
        if k != "filter":
            yield "pad", "same", [h], lambda a: a.pad(a.length())
        yield "slice", "all", [h], lambda a: a[:]
        yield "Merge", "single", [h], lambda a: sumpf.Merge([a]).output()
        if k != "filter":
            yield "Concatenate", "single", [h], lambda a: sumpf.Concatenate([a]).output()

    def view(self, h, g):
        rng = self.rng
        x = self.heap[h]
        k = data_kind(x)
        if k == "filter":
            i = rng.randrange(max(len(x), 1))
            yield "slice", i, [h], lambda a: a[i]
            yield "slice", "reversed", [h], lambda a: a[::-1]
            yield "new", "", [h], lambda a: F(transfer_functions=a.transfer_functions(), labels=a.labels())
            return
        axes = len(x.shape())
        step = rng.choice((1, 1, 2, -1))
        start = rng.choice((None, 0, 1, 0.25, -2))
        key = (slice(None),) * (axes - 1) + (slice(start, None, step),)
        yield "slice", key, [h], lambda a: a[key]
        i = rng.randrange(max(len(x), 1))
        yield "slice", i, [h], lambda a: a[i]
        yield "slice", "channels", [h], lambda a: a[::-1]
        if k in ("signal", "spectrogram"):
            n = rng.choice((None, 1, -3))
            yield "shift", n, [h], lambda a: a.shift(n)
        if k == "signal":
            yield "new", "view", [h], lambda a: sumpf.Signal(channels=a.channels(), sampling_rate=a.sampling_rate(), offset=a.offset() + 1, labels=a.labels())
        if k == "spectrum":
            yield "new", "view", [h], lambda a: sumpf.Spectrum(channels=a.channels()[:, 1:], resolution=a.resolution(), labels=list(a.labels()))

    def scalar(self):
        return self.rng.choice((2.0, -1, 0.5, 0, 1, numpy.float64(3.0), numpy.int64(2), 1.5 - 0.5j))

    def fresh(self, h, g):     # pylint: disable=too-many-branches,too-many-statements
        rng = self.rng
        x = self.heap[h]
        k = data_kind(x)
        yield "-", "", [h], operator.neg
        yield "abs", "", [h], abs
        yield "~", "", [h], operator.invert
        o = self.other(h, g)
        for n, f in OPERATORS.items():
            if k != "filter" or n in "+-*/":
                yield n, "", [h, o], f
                yield n, "", [o, h], f
                yield n, "", [h, h], f
        s = self.scalar()
        n = rng.choice("+-*/")
        f = OPERATORS[n]
        yield n, ("number", type(s).__name__, s), [h], lambda a: f(a, s)
        yield n, ("number on the left", type(s).__name__, s), [h], lambda a: f(s, a)
        modes = list(sumpf.Merge.modes)
        mode = rng.choice(modes)
        yield "Merge", mode, [h, o], lambda a, b: sumpf.Merge([a, b], mode=mode).output()
        yield "Merge", mode, [o, h, h], lambda a, b, c: sumpf.Merge([a, b, c], mode=mode).output()
        if k == "filter":
            yield from self.fresh_filter(h, g)
            return
        for _ in range(2):
            # an array, that has the shape of the data set or of a part of it
            shape = rng.choice((x.shape(), x.shape()[1:], (1,) + tuple(x.shape()[1:])))
            v = numpy.array([rng.uniform(0.5, 2.0) for _ in range(int(numpy.prod(shape)))]).reshape(shape)
            a = rng.choice((lambda: v, lambda: v.astype(numpy.float32), lambda: v * 1j, lambda: numpy.asfortranarray(v)))()
            yield n, "array", [h, a], f
            yield n, "array on the left", [a, h], f
        yield "Concatenate", "", [h, o], lambda a, b: sumpf.Concatenate([a, b]).output()
        yield "Concatenate", "", [o, h, o], lambda a, b, c: sumpf.Concatenate([a, b, c]).output()
        if k in ("signal", "spectrogram"):
            # data sets, that overlap partly or completely with their predecessors
            d = rng.choice((-x.length(), -x.length(), 1 - x.length(), -1, -x.length() - 2, 2))
            yield "Concatenate", ("overlap", d), [h, o], lambda a, b: sumpf.Concatenate([a, b.shift(None).shift(d)]).output()
            yield "Concatenate", ("overlap", d), [h, h, o], lambda a, b, c: sumpf.Concatenate([a, b.shift(None).shift(d), c.shift(None).shift(d)]).output()
            yield "Merge", ("offset", d), [h, o], lambda a, b: sumpf.Merge([a, b.shift(d)]).output()
        length = rng.choice((0, 1, x.length() + 3, max(0, x.length() - 2)))
        value = rng.choice((0.0, 1.5))
        yield "pad", (length, value), [h], lambda a: a.pad(length, value)
        if k in ("signal", "spectrogram"):
            m = rng.choice((SHIFTS.CROP, SHIFTS.PAD, SHIFTS.CYCLE))
            d = rng.choice([i for i in (1, -1, 2, -2) if abs(i) < max(2, x.length())])
            yield "shift", (m, d), [h], lambda a: a.shift(d, m)
        fi = self.other(h, g, ("filter",))
        if data_kind(self.heap[fi]) == "filter":
            yield "*", "filter", [fi, h], operator.mul
            yield "*", "filter", [h, fi], operator.mul
            yield "/", "filter", [h, fi], operator.truediv
        for m in ("real", "imaginary", "magnitude", "phase"):
            if hasattr(x, m):
                yield m, "", [h], lambda a, m=m: getattr(a, m)()
        if hasattr(x, "conjugate"):
            yield "conjugate", "", [h], lambda a: a.conjugate()
        fmt = rng.choice(formats(kind(x)))
        yield "file", fmt, [h], self.through_a_file(x, fmt)
        yield from {"signal": self.fresh_signal, "spectrum": self.fresh_spectrum, "spectrogram": self.fresh_spectrogram}[k](h, g)

    def window(self, h, g):
        """parameters for block-wise transforms: the operands, the window's form and a function, that selects the window"""
        rng = self.rng
        w = rng.choice((2, 4, 5, 8))
        overlap = rng.choice((0.5, 0.5, 1, 0, 0.75 if w > 4 else 0.5))
        pad = rng.random() < 0.6
        r = rng.randrange(4)
        if r == 0:
            return [h], ("integer", w, overlap, pad), lambda a, *_: (w, overlap, pad)
        if r == 1:
            a = numpy.array([rng.uniform(0.5, 1.0) for _ in range(w)])
            return [h, a], ("array", overlap, pad), lambda _, b: (b, overlap, pad)
        if r == 2:
            cls = rng.choice(WINDOWS)
            return [h, cls(length=w, symmetric=rng.random() < 0.5)], ("window", overlap, pad), lambda _, b: (b, overlap, pad)
        o = self.other(h, g, ("signal",))
        return [h, o], ("signal", overlap, pad), lambda _, b: (b, overlap, pad)

    def fresh_signal(self, h, g):
        rng = self.rng
        o = self.other(h, g)
        m = rng.choice(list(MODES))
        yield "convolve", m, [h, o], lambda a, b: a.convolve(b, m)
        yield "correlate", m, [h, o], lambda a, b: a.correlate(b, m)
        yield "convolve", m, [o, h], lambda a, b: a.convolve(b, m)
        a = numpy.array([1.0, -0.5, 0.25])
        yield "convolve", ("array", m), [h, a], lambda a, b: a.convolve(b, m)
        yield "fourier_transform", "", [h], lambda a: a.fourier_transform()
        operands, args, choose = self.window(h, g)
        yield "fourier_transform", args, operands, lambda *a: a[0].fourier_transform(*choose(*a))
        yield "short_time_fourier_transform", args, operands, lambda *a: a[0].short_time_fourier_transform(*choose(*a))
        t = rng.choice((0.0, 1.0, 3.0, 4.5, 100.0)) / (self.heap[h].sampling_rate() or 1.0)
        p = rng.random() < 0.5
        yield "level_vs_time", (t, p), [h], lambda a: a.level_vs_time(t, p)
        yield "EnergyDecayCurve", "", [h], sumpf.EnergyDecayCurve
        yield "decay_model", "", [h], lambda a: sumpf.EnergyDecayCurve(a).decay_model(0, a.length())
        k, n = rng.choice((1, 2, 2, 3)), rng.choice((None, None, 1, 5, 30))
        sweep = rng.choice((sumpf.ExponentialSweep, sumpf.InverseExponentialSweep))(1.0, 300.0, sampling_rate=self.heap[h].sampling_rate() or 1.0,
                                                                                  length=max(2, self.heap[h].length()))
        yield "harmonic_impulse_response", (k, n, sweep.sampling_rate(), sweep.length()), [h], lambda a: sweep.harmonic_impulse_response(a, k, n)
        yield "Signal", "", [h], lambda a: sumpf.Signal(channels=a.channels(), sampling_rate=a.sampling_rate(), labels=a.labels())

    def fresh_spectrum(self, h, g):
        yield "inverse_fourier_transform", "", [h], lambda a: a.inverse_fourier_transform()
        o = self.other(h, g, ("signal",))
        if data_kind(self.heap[o]) == "signal":
            yield "filtering", "", [o, h], lambda a, b: (a.fourier_transform() * b).inverse_fourier_transform()

    def fresh_spectrogram(self, h, g):
        operands, args, choose = self.window(h, g)
        yield "inverse_short_time_fourier_transform", args, operands, lambda *a: a[0].inverse_short_time_fourier_transform(*choose(*a))

    def fresh_filter(self, h, g):
        rng = self.rng
        x = self.heap[h]
        n = rng.choice((1, 4, 9))
        r = rng.choice((1.0, 12.5))
        yield "spectrum", (r, n), [h], lambda a: a.spectrum(resolution=r, length=n)
        o = self.other(h, g, ("signal", "spectrum", "spectrogram"))
        if data_kind(self.heap[o]) != "filter":
            yield "*", "data", [h, o], operator.mul
            yield "*", "data", [o, h], operator.mul
            yield "/", "data", [o, h], operator.truediv
        a = numpy.array([0.0, 1.0, 3.5, 100.0])
        yield "call", "", [h, a], lambda f, b: f(b)
        if isinstance(x, sumpf.Bands):
            yield "to_db", "", [h], lambda a: a.to_db()
            yield "from_db", "", [h], lambda a: a.from_db()

    def through_a_file(self, x, fmt):
        k = kind(x)
        path = os.path.join(self.path, "file" + self.rng.choice(endings(fmt)))

        def function(a):
            a.save(path, getattr(CLASSES[k].file_formats, fmt))
            r = CLASSES[k].load(path)
            os.remove(path)
            return r
        return function

    def look(self, h, g):
        rng = self.rng
        x = self.heap[h]
        k = data_kind(x)
        o = self.other(h, g)
        yield "==", "", [h, o], lambda a, b: (a == b, a != b)
        yield "repr", "", [h], repr
        yield "len", "", [h], len
        yield "labels", "", [h], lambda a: a.labels()
        fmt = rng.choice(formats(kind(x)))
        path = os.path.join(self.path, "saved" + rng.choice(endings(fmt)))

        def save(a):
            a.save(path, getattr(CLASSES[kind(a)].file_formats, fmt))
        yield "save", fmt, [h], save
        if k == "filter":
            f = rng.choice((1.0, 0.0, [1.0, 2.0], (0.0, 10.0)))
            yield "call", f, [h], lambda a: a(f)
            return
        if not numpy.isnan(x.channels()).any():     # (Python's hash of a NaN depends on its address in the memory)
            yield "hash", "", [h], hash
        yield "shape", "", [h], lambda a: (a.shape(), a.length())
        for n in ("time_samples", "frequency_samples", "duration", "maximum_frequency", "number_of_frequencies"):
            if hasattr(x, n):
                yield n, "", [h], lambda a, n=n: getattr(a, n)()
        if k == "signal":
            w = rng.choice(WINDOWS)(length=rng.choice((2, 8, 9)), plateau=rng.choice((0, 2)), symmetric=rng.random() < 0.5)
            overlaps = numpy.array(rng.choice(([0, 1, 2], [0.0, 0.5], [1])))
            n = rng.choice(("scaling_factor", "amplitude_flatness", "power_flatness", "overlap_correlation"))
            yield "window statistics", n, [w, overlaps], lambda a, b: getattr(a, n)(b)
            sweep = rng.choice((sumpf.LinearSweep, sumpf.ExponentialSweep, sumpf.InverseExponentialSweep))(length=16)
            yield "instantaneous_frequency", "", [sweep, numpy.array([0.0, 0.1, 0.5])], lambda a, b: a.instantaneous_frequency(b)
            yield "reverberation_time", "", [h], lambda a: sumpf.EnergyDecayCurve(a).reverberation_time(0, a.length())
        single = rng.random() < 0.5
        for n in ("level", "mean", "standard_deviation", "variance", "skewness", "kurtosis"):
            if hasattr(x, n):
                yield n, single, [h], lambda a, n=n: getattr(a, n)(single)

    # ----------------------------------------------------------------- blocks
    def block(self):
        """an operation with a Merge or Concatenate instance, whose earlier outputs are still alive"""
        rng = self.rng
        if not self.blocks or rng.random() < 0.3:
            h = rng.choice([i for i, x in enumerate(self.heap) if not isinstance(x, numpy.ndarray)])
            merge = data_kind(self.heap[h]) == "filter" or rng.random() < 0.5
            mode = rng.choice(list(sumpf.Merge.modes))
            b = sumpf.Merge(mode=mode) if merge else sumpf.Concatenate()
            self.blocks.append((b, "Merge " + str(mode) if merge else "Concatenate", data_kind(self.heap[h]), {b.add(self.heap[h]): h}))
        b, name, k, data = rng.choice(self.blocks)
        r = rng.random()
        candidates = [i for i, x in enumerate(self.heap) if data_kind(x) == k]
        if r < 0.5 or not data:
            h = rng.choice(candidates)
            data[b.add(self.heap[h])] = h
        elif r < 0.7:
            i = rng.choice(list(data))
            h = rng.choice(candidates)
            b.replace(i, self.heap[h])
            data[i] = h
        elif len(data) > 1:
            i = rng.choice(list(data))
            b.remove(i)
            del data[i]
        self.execute(name, "output", list(data.values()), lambda *_: b.output(), keep=rng.random() < 0.7)
        if rng.random() < 0.3:
            self.execute(name, "output", list(data.values()), lambda *_: b.output(), keep=False)

    def trace(self):
        return {"heap": self.initial, "events": self.events}


def sampled(rng, k, nc=None, n=None, r=None):
    """a random data set, whose memory has been allocated by the caller, by the library or is a part of another data set. r selects the form of its samples"""
    nc = nc or rng.choice((1, 1, 2, 3))
    n = n or rng.choice((1, 3, 6, 9, 16))
    lab = [rng.choice(("", "a", "b", "left")) for _ in range(nc)]
    shape = (nc, n) if k != "spectrogram" else (nc, rng.choice((1, 3, 5)), n)
    count = int(numpy.prod(shape))
    a = numpy.array([rng.choice((rng.uniform(-2, 2), float(rng.randint(-3, 3)))) for _ in range(count)]).reshape(shape)
    if k != "signal":
        a = a + 1j * numpy.array([rng.uniform(-1, 1) for _ in range(count)]).reshape(shape)
    r = rng.random() if r is None else r
    if r < 0.1:
        a = a.astype(numpy.float32 if k == "signal" else numpy.complex64)
    elif r < 0.2:
        a = numpy.asfortranarray(a)
    elif r < 0.3 and k == "signal":
        a = numpy.round(a).astype(rng.choice((numpy.int64, numpy.int32, numpy.int16)))
    elif r < 0.3:
        a = a.real.copy()
    off = rng.choice((0, 0, 1, -2, 5))
    if k == "signal":
        x = sumpf.Signal(channels=a, sampling_rate=rng.choice((8.0, 44100.0)), offset=off, labels=lab)
    elif k == "spectrum":
        x = sumpf.Spectrum(channels=a, resolution=rng.choice((1.0, 12.5)), labels=lab)
    else:
        x = sumpf.Spectrogram(channels=a, resolution=2.0, sampling_rate=4.0, offset=off, labels=lab)
    return rng.choice((x, x, x * 1.0, x[:, :]))


def filters(rng):
    if rng.random() < 0.3:
        return random_bands(rng)
    return filter_(rng)


HEAPS = [("signal", "signal"), ("signal", "signal"), ("spectrum", "spectrum"), ("spectrogram", "spectrogram"), ("signal", "filter"), ("filter", "filter"),
         ("spectrum", "signal"), ("spectrum", "filter"), ("spectrogram", "filter"), ("spectrogram", "signal")]


class ValuesCheck(Check):
    id = "C07"

    def program(self, steps, path):
        rng = self.rng
        kinds = rng.choice(HEAPS)
        objects = [filters(rng) if k == "filter" else sampled(rng, k) for k in kinds]
        if rng.random() < 0.4 and "filter" not in kinds:      # the same number of channels and samples
            objects[1] = sampled(rng, kinds[1], len(objects[0]), objects[0].length())
        p = Program(rng, objects, path)
        for cls, x, y in steps:
            p.step(cls, x, y)
            if rng.random() < 0.25:
                p.block()
        for _ in range(len(p.history)):
            p.repeat()
        return p.trace()

    def catalogue(self, path):
        """every operation is applied to data sets with every form of samples"""
        rng = self.rng
        traces = []
        for k in ("signal", "spectrum", "spectrogram", "filter"):
            for form in (0.05, 0.15, 0.25, 0.9) if k != "filter" else (0.9, 0.9):
                second = k if rng.random() < 0.7 or k == "filter" else rng.choice(("filter", "signal"))
                n = rng.choice((3, 6, 9))
                objects = [filters(rng) if k == "filter" else sampled(rng, k, n=n, r=form)]
                objects.append(filters(rng) if second == "filter" else sampled(rng, second, n=n))
                for cls in ("fresh", "look", "same", "view"):
                    names = sorted({o[0] for o in getattr(Program(rng, objects, path), cls)(0, 1)})
                    while names:
                        p = Program(rng, objects, path)
                        for name in names[:8]:
                            options = [o for o in getattr(p, cls)(0, 1) if o[0] == name]
                            for op, args, operands, function in options[:3]:
                                p.do(op, args, [p.register(o) for o in operands], function)
                        for _ in range(3):
                            p.repeat()
                        traces.append(p.trace())
                        names = names[8:]
        return traces

    def run(self):
        rng = self.rng
        programs = self.model("ValuesMC", env={"MAXOPS": self.n(3, 3)}, workers=4).printed("PROGRAM")
        self.notes["enumerated_programs"] = len(programs)
        if self.n(1, 0):
            programs = rng.sample(programs, 1200)
        path = tempfile.mkdtemp(prefix="sumpf_values_")
        traces = []
        try:
            for p in programs:
                traces.append(self.program(p, path))
            for _ in range(self.n(2, 20)):
                traces.extend(self.catalogue(path))
            classes = ("fresh", "fresh", "fresh", "view", "view", "same", "look")
            for _ in range(self.n(250, 3000)):
                n = rng.randint(4, 9)
                traces.append(self.program([(rng.choice(classes), rng.randint(1, 2 + i), rng.randint(1, 2 + i)) for i in range(n)], path))
        finally:
            shutil.rmtree(path, ignore_errors=True)
        ops = {}
        for t in traces:
            for e in t["events"]:
                ops[e["op"]] = ops.get(e["op"], 0) + (not e["exc"])
        self.notes["successful_operations"] = dict(sorted(ops.items()))
        self.validate("ValuesTrace", traces)


CHECK = ValuesCheck
