"""Conversion between SuMPF's data sets and the abstract data sets of spec/DataSets.tla"""
import functools
import itertools
import numpy
import sumpf
from .common import enc, encc, rate


CALLS = itertools.count()


def vary(a, d):
    """the same samples in one of the forms, in which a user can have them: other strides, an array with read only
    memory or, if all of its samples are real, an array with real samples for a spectrum or a spectrogram"""
    n = next(CALLS)
    if a.dtype == numpy.complex128 and n % 3 == 0 and all(x[1] == 0 for c in d["ch"] for f in c for x in f):
        a = a.real.copy()
    if n % 5 == 1:
        a = numpy.asfortranarray(a)
    elif n % 5 == 2:
        b = numpy.full(tuple(2 * s + 1 for s in a.shape), 77, dtype=a.dtype)
        view = b[tuple(slice(1, None, 2) for _ in a.shape)]
        view[...] = a
        a = view
    elif n % 5 == 3:
        a = numpy.ascontiguousarray(a[..., ::-1])[..., ::-1]
    elif n % 5 == 4:
        a.setflags(write=False)
    return a


def grains(rng):
    """how many samples represent one abstract sample. Most operations do not depend on it, so that it is possible to check
    large data sets with the specification of small ones."""
    return rng.choice((1,) * 17 + (3, 128, 1000, 5003, 40000))


def spread(a, gap):
    """the samples with zeros between them"""
    n = a.shape[-1]
    b = numpy.zeros(a.shape[:-1] + ((n - 1) * gap + 1 if n else 0,), dtype=a.dtype)
    b[..., ::gap] = a
    return b


def gathered(a, gap):
    """every ``gap``-th sample, if there are only zeros between them"""
    n = a.shape[-1]
    if n and (n - 1) % gap:
        raise ValueError(f"the length {n} does not fit to samples with a distance of {gap}")
    b = a[..., ::gap]
    if n and numpy.abs(spread(b, gap) - a).max() > 1e-6:
        raise ValueError("there are samples between those, that should be other than zero")
    return b


def prepare(d, dtype=None, grain=1, gap=1):
    """returns a function, that creates the data set, when its arguments have already been created"""
    k = d["k"]
    if grain > 1 or gap > 1:
        small = prepare(d, dtype)
        large = dict(small.keywords)
        if k != "filter":
            large["channels"] = spread(numpy.repeat(large["channels"], grain, axis=-1), gap)
            if "offset" in large:
                large["offset"] *= grain * gap
        return functools.partial(small.func, **large)
    lab = tuple(d["lab"])
    if k == "signal":
        a = numpy.empty((d["nc"], d["len"]), dtype=dtype or numpy.float64)
        for c in range(d["nc"]):
            for i in range(d["len"]):
                a[c, i] = d["ch"][c][0][i][0]
        return functools.partial(sumpf.Signal, channels=a if dtype else vary(a, d), sampling_rate=unrate(d["sr"]), offset=d["off"], labels=lab)
    if k == "spectrum":
        a = numpy.empty((d["nc"], d["len"]), dtype=dtype or numpy.complex128)
        for c in range(d["nc"]):
            for i in range(d["len"]):
                a[c, i] = complex(*d["ch"][c][0][i]) if a.dtype.kind == "c" else d["ch"][c][0][i][0]
        return functools.partial(sumpf.Spectrum, channels=a if dtype else vary(a, d), resolution=unrate(d["res"]), labels=lab)
    if k == "spectrogram":
        a = numpy.empty((d["nc"], d["nf"], d["len"]), dtype=dtype or numpy.complex128)
        for c in range(d["nc"]):
            for f in range(d["nf"]):
                for i in range(d["len"]):
                    a[c, f, i] = complex(*d["ch"][c][f][i]) if a.dtype.kind == "c" else d["ch"][c][f][i][0]
        return functools.partial(sumpf.Spectrogram, channels=a if dtype else vary(a, d), resolution=unrate(d["res"]), sampling_rate=unrate(d["sr"]), offset=d["off"], labels=lab)
    if k == "filter":
        return functools.partial(sumpf.Filter, transfer_functions=tuple(sumpf.Filter.Constant(float(d["ch"][c][0][0][0])) for c in range(d["nc"])),
                                 labels=lab)
    raise ValueError(k)


def to_sumpf(d, dtype=None, grain=1, gap=1):
    return prepare(d, dtype, grain, gap)()


def unrate(r):
    return r[0] / r[1]


def kind(x):
    for k, c in (("signal", sumpf.Signal), ("spectrum", sumpf.Spectrum), ("spectrogram", sumpf.Spectrogram), ("filter", sumpf.Filter)):
        if isinstance(x, c):
            return k
    return type(x).__name__


def label(x):
    return x if isinstance(x, str) else "not a string: " + repr(x)


def coarse(a, grain):
    """every ``grain``-th sample along the last axis, if the samples between them are the same"""
    if a.shape[-1] % grain:
        raise ValueError(f"the length {a.shape[-1]} is not a multiple of {grain}")
    b = a[..., ::grain]
    with numpy.errstate(all="ignore"):
        if b.size and not numpy.allclose(a, numpy.repeat(b, grain, axis=-1), rtol=1e-9, atol=0.0, equal_nan=True):
            raise ValueError("equal samples have become different")
    return b


def from_sumpf(x, scale=1, tol=1e-6, grain=1, gap=1):
    """the abstract data set of a SuMPF object; everything is read through the public interface"""
    k = kind(x)
    lab = [label(s) for s in x.labels()] if hasattr(x, "labels") else []
    if k == "filter":
        values = [tf(1.0) if callable(tf) else numpy.nan for tf in x.transfer_functions()] if False else \
            [complex(numpy.ravel(x(37.0)[c])[0]) for c in range(len(x))]
        return {"k": k, "nc": len(x), "nf": 1, "len": 1, "off": 0, "sr": [0, 1], "res": [0, 1], "lab": lab,
                "ch": [[[encc(v, scale, tol)]] for v in values]}
    if k not in ("signal", "spectrum", "spectrogram"):
        return {"k": k, "nc": 0, "nf": 1, "len": 0, "off": 0, "sr": [0, 1], "res": [0, 1], "lab": [], "ch": []}
    a = numpy.asarray(x.channels())
    if grain > 1:
        a = coarse(a, grain)
    if gap > 1:
        a = gathered(a, gap)
    if a.ndim == 2:
        a = a[:, None, :]
    nc, nf, n = a.shape
    if nc and nf and n and numpy.iscomplexobj(a):
        ch = [[[encc(v, scale, tol) for v in row] for row in m] for m in a.tolist()]
    else:
        ch = [[[[enc(v, scale, tol), 0] for v in row] for row in m] for m in a.tolist()]
    off = x.offset() if hasattr(x, "offset") else 0
    if grain * gap > 1:
        if off % (grain * gap):
            raise ValueError(f"the offset {off} is not a multiple of {grain * gap}")
        off = off // (grain * gap)
    return {"k": k, "nc": nc, "nf": nf, "len": n,
            "off": enc(off), "sr": rate(x.sampling_rate()) if hasattr(x, "sampling_rate") else [0, 1],
            "res": rate(x.resolution()) if hasattr(x, "resolution") else [0, 1],
            "lab": lab, "ch": ch}


def nothing():
    return {"k": "none", "nc": 0, "nf": 0, "len": 0, "off": 0, "sr": [0, 1], "res": [0, 1], "lab": [], "ch": []}


LABELS = ("", "a", "b", "left", "right", "x y", "ä", "Sum", "1")


def random_data(rng, k, nc=None, length=None, nf=None, off=None, sr=None, res=None, lo=-9, hi=9, labels=LABELS, max_nc=3, max_len=5,
                max_nf=3, off_range=4):
    """a random abstract data set"""
    nc = rng.choice([1] + list(range(1, max_nc + 1))) if nc is None else nc
    length = rng.randint(1, max_len) if length is None else length
    nf = (rng.randint(1, max_nf) if nf is None else nf) if k == "spectrogram" else 1
    if k == "filter":
        length = 1
    off = (rng.randint(-off_range, off_range) if off is None else off) if k in ("signal", "spectrogram") else 0
    sr = (rng.randint(1, 50) if sr is None else sr) if k in ("signal", "spectrogram") else 0
    res = (rng.randint(1, 50) if res is None else res) if k in ("spectrum", "spectrogram") else 0
    cplx = k in ("spectrum", "spectrogram")
    return {"k": k, "nc": nc, "nf": nf, "len": length, "off": off, "sr": [sr, 1], "res": [res, 1],
            "lab": [rng.choice(labels) for _ in range(nc)],
            "ch": [[[[rng.randint(lo, hi), rng.randint(lo, hi) if cplx else 0] for _ in range(length)] for _ in range(nf)] for _ in range(nc)]}
