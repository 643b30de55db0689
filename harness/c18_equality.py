"""C18: equality and hash. All pairs of data sets and terms, that spec/EqualityMC enumerates, and families of random data sets and
filters with their copies and altered versions are compared with each other. The results are validated with spec/EqualityTrace."""
import copy
import hashlib
import math
import pickle
import numpy
import sumpf
from .common import Check, guarded
from .data import kind as data_kind, label
from .files import exact, filter_, number, random_term, signal, spectrogram, spectrum, term

F = sumpf.Filter
TERM = type(F.Constant(1.0)).__mro__[1]
MODES = list(sumpf.Bands.interpolations)
FOREIGN = [None, 0, 1.0, 0.0, "x", "", (), [1.0], {}, object(), numpy.float64(0.0), float("nan"), Ellipsis, int]


# ----------------------------------------------------------------- describing
def describe(x):
    d = {"k": "other", "shape": [], "ch": [], "rates": [], "off": "", "lab": [], "nan": False}
    if isinstance(x, TERM):
        d.update(k="term", ch=[[term(x)]])
    elif isinstance(x, F):
        tfs = x.transfer_functions()
        d.update(k="filter", shape=[len(tfs)], ch=[[term(t)] for t in tfs], lab=[label(s) for s in x.labels()])
    elif data_kind(x) in ("signal", "spectrum", "spectrogram"):
        c = numpy.asarray(x.channels())
        if c[:1].size > 24:    # long channels are represented by a hash value of their content (adding 0 makes zeros positive)
            ch = [[str(a.size), hashlib.sha256((a.astype(numpy.complex128) + (0.0 + 0.0j)).tobytes()).hexdigest()] for a in c]
        else:
            ch = [[exact(s) for s in numpy.asarray(a).flatten()] for a in c]
        d.update(k=data_kind(x), shape=[int(n) for n in c.shape], ch=ch, lab=[label(s) for s in x.labels()],
                 rates=[exact(r) for r in [getattr(x, n)() for n in ("sampling_rate", "resolution") if hasattr(x, n)]],
                 off=exact(x.offset()) if hasattr(x, "offset") else "", nan=bool(c.dtype.kind in "fc" and numpy.isnan(c).any()))
    else:
        return d
    if d["k"] in ("term", "filter"):
        d["nan"] = "nan" in str(d["ch"])
    return d


def truth(function):
    r, exc = guarded(function)
    if exc is not None:
        return exc
    return {True: "true", False: "false"}.get(bool(r), "?") if isinstance(r, (bool, numpy.bool_)) else "returned a " + type(r).__name__


def compare(objects):
    objects = list(objects)
    before = [describe(x) for x in objects]
    hashes = [None] * len(objects)

    def compute_hashes():
        result = []
        for x in objects:
            h, exc = guarded(hash, x)
            result.append("unhashable" if exc == "TypeError" else exc if exc is not None else str(h))
        return result
    hashes = compute_hashes()
    eq = [[truth(lambda: a == b) for b in objects] for a in objects]
    ne = [[truth(lambda: a != b) for b in objects] for a in objects]
    return {"what": "compare", "objects": before, "eq": eq, "ne": ne, "hash": hashes,
            # (Python's hash of a NaN is not that of another NaN)
            "stable": all(h == i or d["nan"] for h, i, d in zip(compute_hashes(), hashes, before)) and [describe(x) for x in objects] == before}


# ------------------------------------------------- objects of the specification
def palette(rng, cplx):
    """a function from the sample values of the specification to real or complex values. Different values stay different."""
    tiny = math.ulp(1.0)
    p = [float, lambda v: 1.0 + v * tiny, lambda v: -float(v), lambda v: 5e-324 * v, lambda v: 1e300 * (1 + v), lambda v: v / 7.0]
    if cplx:
        p += [lambda v: complex(1.5, v), lambda v: complex(v, -2.0), lambda v: complex(1.0 + v * tiny, 3.0), lambda v: complex(0.0, 5e-324 * v),
              lambda v: complex(v, v)]
    return rng.choice(p)


def build(d, values, rng, alternative):
    """creates the data set. Alternative data sets have the same content, but are created in another way."""
    k = d["k"]
    cplx = k != "signal"
    flat = [[values(v) for v in c] for c in d["ch"]]
    a = numpy.array([x for c in flat for x in c], dtype=numpy.complex128 if cplx else numpy.float64).reshape(d["shape"])
    lab = tuple(d["lab"])
    rates = [48000.0 + r / 8 for r in d["rates"]]
    off = d["off"]
    if alternative:
        if rng.random() < 0.3:      # negative zeros are equal to zeros
            a = numpy.where(a == 0.0, -a, a)
        r = rng.randrange(7)
        if r == 0:
            b = numpy.zeros(tuple(2 * n for n in a.shape), dtype=a.dtype)   # a view with gaps
            b[tuple(slice(None, None, 2) for _ in a.shape)] = a
            a = b[tuple(slice(None, None, 2) for _ in a.shape)]
        elif r == 1:
            a = numpy.asfortranarray(a)
        elif r == 2:
            t = a.astype(numpy.complex64 if cplx else numpy.float32)
            with numpy.errstate(all="ignore"):
                a = t if (t.astype(a.dtype) == a).all() else a
        elif r == 3:
            a = a[..., ::-1].copy()[..., ::-1]
        elif r == 4 and k != "signal" and not a.imag.any():
            a = a.real
        elif r == 5 and not numpy.iscomplexobj(a) and (a == numpy.round(a)).all() and (numpy.abs(a) < 2 ** 31).all():
            a = a.astype(rng.choice((numpy.int64, numpy.int32)))
        elif r == 6:
            a.setflags(write=False)
        lab = rng.choice((tuple, list, numpy.array))(lab) if lab else lab
        if not any(d["lab"]) and rng.random() < 0.5:
            lab = rng.choice((None, (), [""]))
        rates = [rng.choice((numpy.float64, lambda x: int(x) if x == int(x) else x))(x) for x in rates]
        off = rng.choice((int, numpy.int64, numpy.int32))(off)
    if k == "signal":
        return sumpf.Signal(channels=a, sampling_rate=rates[0], offset=off, labels=lab)
    if k == "spectrum":
        return sumpf.Spectrum(channels=a, resolution=rates[0], labels=lab)
    return sumpf.Spectrogram(channels=a, sampling_rate=rates[0], resolution=rates[1], offset=off, labels=lab)


def build_term(t, values, rng, alternative):
    p = [values(v) for v in t["p"]]
    x = [build_term(y, values, rng, alternative) for y in t["x"]]
    k = t["t"]
    seq = rng.choice((tuple, list, numpy.array)) if alternative else tuple
    num = (lambda v: rng.choice((complex, numpy.float64, numpy.complex128))(v) if isinstance(v, float) else v) if alternative else (lambda v: v)
    if k == "const":
        return F.Constant(num(p[0]))
    if k == "poly":
        return F.Polynomial(seq([num(v) for v in p]), t["tr"])
    if k == "exp":
        return F.Exp(num(p[0]), t["tr"])
    if k == "bands":
        return F.Bands(seq([1.0 + v for v in t["p"][0:2]]), seq(p[2:4]), MODES[t["p"][4] % len(MODES)], MODES[t["p"][5] % len(MODES)])
    seq = rng.choice((tuple, list)) if alternative else tuple
    return {"abs": lambda: F.Absolute(x[0], t["tr"]), "neg": lambda: F.Negative(x[0], t["tr"]), "sum": lambda: F.Sum(seq(x), t["tr"]),
            "prod": lambda: F.Product(seq(x), t["tr"]), "diff": lambda: F.Difference(x[0], x[1], t["tr"]),
            "quot": lambda: F.Quotient(x[0], x[1], t["tr"])}[k]()


# --------------------------------------------------------------------- random
def altered(x, rng):
    """data sets with the same samples and meta data except for a single part"""
    k = data_kind(x)
    lab = list(x.labels())
    if k == "filter":
        tfs = list(x.transfer_functions())
        yield F(transfer_functions=tuple(tfs), labels=tuple(lab))
        c = rng.randrange(len(tfs))
        for new in (random_term(rng, 1), tfs[-1]):
            yield F(transfer_functions=tuple(tfs[:c]) + (new,) + tuple(tfs[c + 1:]), labels=tuple(lab))
        yield F(transfer_functions=tuple(tfs) + (tfs[-1],), labels=tuple(lab))
        yield F(transfer_functions=tuple(reversed(tfs)), labels=tuple(lab))
        yield F(transfer_functions=tuple(tfs), labels=tuple(lab[:c] + [lab[c] + "'"] + lab[c + 1:]))
        yield F(transfer_functions=tuple(tfs), labels=tuple(reversed(lab)))
        return
    a = numpy.array(x.channels())
    args = {"labels": lab}
    for n in ("sampling_rate", "resolution", "offset"):
        if hasattr(x, n):
            args[n] = getattr(x, n)()
    cls = {"signal": sumpf.Signal, "spectrum": sumpf.Spectrum, "spectrogram": sumpf.Spectrogram}[k]

    def make(**kwargs):
        return cls(**{**args, "channels": a, **kwargs})
    yield make()
    yield make(channels=numpy.asfortranarray(a))
    yield make(labels=tuple(reversed(lab)))
    c = rng.randrange(len(lab)) if lab else 0
    if lab:
        yield make(labels=lab[:c] + [lab[c] + rng.choice((" ", "2"))] + lab[c + 1:])
        yield make(labels=lab[:-1])
    for n in ("sampling_rate", "resolution"):
        if n in args:
            yield make(**{n: numpy.nextafter(args[n], math.inf)})
    if "offset" in args:
        yield make(offset=args["offset"] + 1)
        yield make(offset=-args["offset"])
    if a.size:
        # a single different sample
        b = a.copy()
        i = tuple(rng.randrange(n) for n in a.shape)
        if b.dtype.kind in "iu":
            b[i] = b[i] ^ 1
        else:
            b[i] = numpy.nextafter(b[i].real, math.inf) + (1j * b[i].imag if b.dtype.kind == "c" else 0)
        yield make(channels=b)
        if a.dtype.kind == "c":
            b = a.copy()
            b[i] = complex(b[i].real, numpy.nextafter(b[i].imag, type(b[i].imag)(math.inf)))
            yield make(channels=b)
            yield make(channels=numpy.conjugate(a))
        yield make(channels=-a if a.dtype.kind != "u" else a)
        yield make(channels=a[..., ::-1])
        yield make(channels=a[..., :-1])
        yield make(channels=a[:, :1])
        yield make(channels=numpy.concatenate((a, a[:1])), labels=lab)
    if a.ndim == 2:
        yield make(channels=a.reshape(a.shape[::-1]))
    # other kinds of data sets
    if k == "signal":
        yield sumpf.Spectrum(channels=a, resolution=args["sampling_rate"], labels=lab)
        yield sumpf.MergeSignals([x]).output() if hasattr(sumpf, "MergeSignals") else sumpf.Merge([x]).output()
    if k == "spectrum":
        yield sumpf.Signal(channels=a.real, sampling_rate=args["resolution"], labels=lab)
        yield sumpf.Merge([x]).output()


def generated(rng):
    """instances of sub-classes of the data classes and instances of the base classes with the same content"""
    for x in (sumpf.SineWave(length=16), sumpf.UniformNoise(length=9, seed=rng.randrange(99)), sumpf.HannWindow(length=7), sumpf.Fade(length=12),
              sumpf.MaximumLengthSequence(bits=3, length=15), sumpf.ExponentialSweep(length=32)):
        yield [x, sumpf.Signal(channels=x.channels(), sampling_rate=x.sampling_rate(), offset=x.offset(), labels=x.labels()), x[:, :], x + 0.0]
    x = sumpf.RudinShapiroNoiseSpectrum(length=33)
    yield [x, sumpf.Spectrum(channels=x.channels(), resolution=x.resolution(), labels=x.labels()), x[:, :], x * 1.0]
    for x in (sumpf.ButterworthFilter(order=3), sumpf.BesselFilter(order=2), sumpf.AWeighting(), sumpf.CWeighting(), sumpf.Chebyshev1Filter(), sumpf.DelayFilter(0.25),
              sumpf.DerivativeFilter(), sumpf.ConstantFilter(2.0) if hasattr(sumpf, "ConstantFilter") else sumpf.AWeighting(),
              sumpf.Bands({100.0: 1.0, 200.0: 2.0}, labels=("x",))):
        yield [x, F(transfer_functions=x.transfer_functions(), labels=x.labels()), F(transfer_functions=list(x.transfer_functions()), labels=list(x.labels())),
               x[:], F(transfer_functions=x.transfer_functions(), labels=("different",)), -x]


def hostile(rng):
    """values, for which a comparison might fail"""
    inf, nan = math.inf, math.nan
    yield [sumpf.Signal(channels=numpy.array([[a, b]])) for a in (0.0, inf, -inf, nan) for b in (1.0, nan)] + [sumpf.Signal(), sumpf.Signal(channels=numpy.empty((0, 0)))]
    yield [sumpf.Spectrum(channels=numpy.array([[a]])) for a in (0j, complex(nan, 1.0), complex(inf, nan), complex(inf, 0), complex(0, inf), complex(0, -inf))] + [sumpf.Spectrum()]
    yield [sumpf.Signal(channels=numpy.empty(s)) for s in ((1, 0), (2, 0), (0, 0), (0, 1), (0, 2))] + [sumpf.Signal(channels=numpy.zeros(s)) for s in ((1, 1), (1, 2), (2, 1))]
    yield [sumpf.Spectrogram(channels=numpy.zeros(s, dtype=numpy.complex128)) for s in ((1, 0, 0), (1, 1, 0), (1, 0, 1), (1, 1, 1), (1, 2, 1), (1, 1, 2), (2, 1, 1), (2, 2, 2))]
    # terms, that are always zero or one
    yield [F.Constant(0.0), F.Constant(-0.0), F.Constant(0), F.Polynomial([0.0]), F.Polynomial([]), F.Polynomial(()), F.Sum(()), F.Product(()), F.Constant(1.0), F.Polynomial([1.0]),
           F.Polynomial([0.0, 0.0]), F.Exp(0.0), F.Polynomial([0.0], True), F.Negative(F.Polynomial([0.0])), F.Absolute(F.Polynomial([0.0])),
           F.Difference(F.Polynomial([0.0, 1.0]), F.Polynomial([0.0, 1.0]))]
    yield [F.Constant(nan), F.Polynomial([nan, 1.0]), F.Exp(nan), F.Constant(inf), F.Constant(complex(nan, 0.0)), F.Bands([1.0], [nan], MODES[1], MODES[0]), F.Constant(1j)]
    yield [F.Bands(xs, ys, rng.choice(MODES[:2]), MODES[0]) for xs, ys in (((1.0,), (2.0,)), ((1.0, 2.0), (2.0, 2.0)), ((1.0, 2.0, 3.0), (2.0,) * 3), ((), ()), ((1.0, 3.0), (2.0, 2.0)))]
    yield [sumpf.Filter(transfer_functions=(F.Constant(v),) * n, labels=("",) * m) for v in (1.0, 0.0) for n in (0, 1, 2) for m in (0, 2)]


class EqualityCheck(Check):
    id = "C18"

    def enumerated(self):
        rng = self.rng
        r = self.model("EqualityMC", env={"MAXSIZE": self.n(2, 3), "DEPTH": self.n(1, 2)}, workers=4, timeout=800)
        traces = []
        for tag, construct in (("DATA", build), ("TERM", build_term)):
            families = {}
            for c in r.printed(tag):
                families.setdefault(repr(c["a"]), (c["a"], []))[1].append(c["b"])
            self.notes["families_" + tag.lower()] = len(families)
            for a, bs in families.values():
                for start in range(0, len(bs), 14):
                    if tag == "DATA":
                        v = palette(rng, a["k"] != "signal" and all(b["k"] != "signal" for b in bs))
                    else:
                        v = rng.choice((float, lambda v: v + v * 2 ** -50, lambda v: complex(0.5, v), lambda v: v / 3.0))
                    objects = [construct(a, v, rng, False), construct(a, v, rng, True)]
                    for b in bs[start:start + 14]:
                        objects.append(construct(b, v, rng, rng.random() < 0.5))
                    if tag == "TERM" and rng.random() < 0.5:
                        objects = [F(transfer_functions=(t, F.Constant(1.0)), labels=("x",)) for t in objects]
                    elif rng.random() < 0.3:
                        objects += rng.sample(FOREIGN, 3)
                    traces.append(compare(objects))
        for c in r.printed("LABELS"):
            traces.append(self.labelled(c["given"], c["number"]))
        return traces

    def labelled(self, given, n, k=None):
        rng = self.rng
        k = k or rng.choice(("signal", "spectrum", "spectrogram", "filter", "bands"))
        lab = rng.choice((list, tuple) if k == "bands" else (list, tuple, numpy.array))(given) if given else rng.choice(((), [], None) if k != "bands" else ((), []))
        a = numpy.zeros((n, 2, 3) if k == "spectrogram" else (n, 3))
        x, exc = guarded({"signal": lambda: sumpf.Signal(channels=a, labels=lab), "spectrum": lambda: sumpf.Spectrum(channels=a + 0j, labels=lab),
                          "spectrogram": lambda: sumpf.Spectrogram(channels=a + 0j, labels=lab),
                          "filter": lambda: F(transfer_functions=[F.Constant(1.0)] * n, labels=lab),
                          "bands": lambda: sumpf.Bands([{1.0: 2.0}] * n, labels=lab)}[k])
        return {"what": "labels", "kind": k, "given": given, "number": n, "exc": exc or "",
                "got": [label(s) for s in x.labels()] if exc is None else []}

    def random_family(self):
        rng = self.rng
        k = rng.choice(("signal", "signal", "spectrum", "spectrogram", "filter", "term", "long"))
        if k == "term":
            ts, exc = guarded(lambda: [random_term(rng, 2) for _ in range(6)])
            ts = ts if exc is None else [F.Constant(1.0)]
            return ts + [copy.deepcopy(t) for t in ts] + [pickle.loads(pickle.dumps(ts[0])), -ts[0], ts[0] + ts[-1]]
        if k == "long":
            n = rng.choice((500, 4096, 20000))
            a = numpy.array([rng.random() for _ in range(n)])
            x = rng.choice((lambda: sumpf.Signal(channels=a.reshape(rng.choice(((1, n), (2, n // 2), (n, 1))))), lambda: sumpf.Spectrum(channels=a.reshape(2, -1) * 1j),
                            lambda: sumpf.Spectrogram(channels=a.reshape(2, n // 4, 2) + 0j)))()
            return [x] + list(altered(x, rng))
        x = {"signal": signal, "spectrum": spectrum, "spectrogram": spectrogram, "filter": filter_}[k](rng)
        return [x, copy.deepcopy(x), pickle.loads(pickle.dumps(x))] + list(altered(x, rng)) + rng.sample(FOREIGN, 2)

    def run(self):
        with numpy.errstate(all="ignore"):
            traces = self.enumerated()
            for _ in range(self.n(200, 4000)):
                traces.append(compare(self.random_family()))
            for _ in range(self.n(3, 20)):
                traces += [compare(f) for f in generated(self.rng)] + [compare(f) for f in hostile(self.rng)]
            mixed = [x for f in generated(self.rng) for x in f[:1]] + [sumpf.Signal(), sumpf.Spectrum(), sumpf.Spectrogram(), F(), F.Constant(1.0), F.Polynomial([1.0])]
            traces.append(compare(mixed))
            traces += [compare([x] + FOREIGN) for x in (sumpf.Signal(), sumpf.Spectrum(), sumpf.Spectrogram(), F(), F.Constant(0.0), F.Constant(1.0),
                                                        F.Polynomial([1.0, 2.0]), F.Exp(1.0), F.Bands([1.0], [2.0], MODES[1], MODES[0]), F.Sum((F.Exp(1.0), F.Exp(2.0))),
                                                        F.Absolute(F.Exp(1.0)), F.Negative(F.Exp(1.0)), F.Quotient(F.Exp(1.0), F.Exp(2.0)), sumpf.Bands({1.0: 1.0}))]
            for k in ("signal", "spectrum", "spectrogram", "filter", "bands"):
                for n in range(1, 5):
                    for m in range(6):
                        traces.append(self.labelled([f"label {i}" for i in range(m)], n, k))
        self.validate("EqualityTrace", traces)


CHECK = EqualityCheck
