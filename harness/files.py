"""Saving and loading of data sets: describing them for spec/Persistence, recognising formats, recording histories."""
import csv
import hashlib
import io
import json
import math
import multiprocessing
import os
import pathlib
import re
import shutil
import sys
import tempfile
import traceback
import wave
import numpy
import sumpf
from .common import guarded, rate
from .data import label, kind as data_kind

try:
    import soundfile
except ImportError:
    soundfile = None

F = sumpf.Filter
CLASSES = {"signal": sumpf.Signal, "spectrum": sumpf.Spectrum, "spectrogram": sumpf.Spectrogram, "filter": sumpf.Filter, "bands": sumpf.Bands}


# ------------------------------------------------------------------ describing
def exact(x):
    """an exact representation of a number as a string (zeros are equal, whatever their sign is)"""
    z = complex(x)
    return ",".join("nan" if math.isnan(v) else float(v + 0.0 if v else 0.0).hex() for v in (z.real, z.imag))


def fixed(x):
    x = float(x)
    if not math.isfinite(x) or abs(x) > 100000.0:
        return [2000000000, 0]
    h = math.floor(x * 4096)
    r = round((x * 4096 - h) * 2 ** 21)
    return [h + 1, 0] if r == 2 ** 21 else [h, r]


PARAMETERS = ("value", "coefficients", "coefficient", "xs", "ys", "interpolation", "extrapolation", "summands", "minuend", "subtrahend", "factors",
              "numerator", "denominator")


def term(t):
    """a string, that describes a transfer function"""
    if isinstance(t, (bool, numpy.bool_)):
        return str(bool(t))
    if isinstance(t, (int, float, complex, numpy.number)):
        return exact(t)
    if isinstance(t, numpy.ndarray) and t.ndim == 0:
        return exact(t[()])
    if isinstance(t, (list, tuple, numpy.ndarray)):
        return "[" + " ".join(term(x) for x in t) + "]"
    x = [type(t).__name__] + [f"{p}={term(getattr(t, p))}" for p in PARAMETERS if hasattr(t, p)]
    if type(t).__name__ not in ("Constant", "Bands"):
        x.append(str(bool(getattr(t, "transform", False))))
    return "(" + " ".join(x) + ")"


def kind(x):
    return "bands" if isinstance(x, sumpf.Bands) else data_kind(x)


def describe(x, original=None, precision=None):
    """the record for a data set. If an original is given, the data set is compared with it. If a data type with single precision is
    given, the samples are rounded to it (text files contain as many digits as are necessary for the data type of the samples)."""
    k = kind(x)
    d = {"kind": k, "shape": [], "ch": [], "fix": [], "mode": [], "rates": [], "rat": [0, 1], "off": 0, "nan": False, "eq": False, "same": False}
    if k not in CLASSES:
        return d
    d["lab"] = [label(s) for s in x.labels()]
    if k in ("filter", "bands"):
        tfs = x.transfer_functions()
        d["shape"] = [len(tfs)]
        bands = k == "bands" or (len(tfs) > 0 and all(hasattr(t, "xs") for t in tfs) and original is not None and kind(original) == "bands")
        if bands:
            # the support points and the modes of a Bands filter
            d["ch"] = [[exact(f) + ":" + exact(y) for f, y in sorted(zip(t.xs, t.ys), key=lambda p: p[0])] for t in tfs]
            d["mode"] = [[str(int(t.interpolation)), str(int(t.extrapolation))] for t in tfs]
        else:
            d["ch"] = [[term(t)] for t in tfs]
        d["nan"] = "nan" in str(d["ch"])
    else:
        c = x.channels()
        d["shape"] = [int(n) for n in numpy.shape(c)]
        flat = [numpy.asarray(a).flatten() for a in c]
        if precision in (numpy.float32, numpy.complex64):
            flat = [a.astype(precision) for a in flat]
        d["ch"] = [[exact(s) for s in a] for a in flat]
        d["nan"] = bool(any(numpy.isnan(a).any() for a in flat))
        if k == "signal":
            d["fix"] = [[fixed(s) for s in a] for a in flat]
        rates = ([x.sampling_rate()] if hasattr(x, "sampling_rate") else []) + ([x.resolution()] if hasattr(x, "resolution") else [])
        d["rates"] = [exact(r) for r in rates]
        d["rat"] = rate(rates[0])
        if k != "spectrum":
            d["off"] = int(x.offset()) if abs(x.offset()) < 2 ** 30 else 2 ** 30
    if original is not None:
        eq, exc = guarded(lambda: bool(original == x) and bool(x == original) and not original != x)
        d["eq"] = eq is True and exc is None
        if k in ("filter", "bands") and re.search(r"-0(\.0)?j", repr(original)):
            # (the sign of a zero is not preserved by text formats, but it can select the branch of the logarithm)
            d["same"] = True
        elif k in ("filter", "bands") and len(x) == len(original):
            d["same"] = True
            with numpy.errstate(all="ignore"):
                fs = numpy.array([0.25, 1.0, 3.0, 170.0, 1e4])
                for a, b in zip(x(fs), original(fs)):
                    # (NaN: the logarithm of a negative value, for example, which is not NaN, if the value is stored as a complex number)
                    d["same"] = d["same"] and bool(numpy.allclose(a[numpy.isfinite(b)], b[numpy.isfinite(b)], rtol=1e-9, atol=1e-300))
        if not d["eq"] and d["nan"] and k in ("filter", "bands"):
            d["eq"] = True
    return d


# ------------------------------------------------------------------- sniffing
def sniff(path, k):
    """the names of the formats, with which the content of the file is compatible (independent of the file's name and of the library)"""
    try:
        with open(path, "rb") as f:
            head = f.read()
    except OSError:
        return []
    if head[:2] == b"PK":
        return ["NUMPY_NPZ"]
    if head[:6] == b"\x93NUMPY":
        return ["NUMPY_NPY"]
    if head[:1] == b"\x80":
        return ["PYTHON_PICKLE"]
    if head[:4] in (b"RIFF", b"FORM", b"fLaC", b"OggS"):
        return [audio_format(path, head)]
    try:
        text = head.decode("utf-8")
    except UnicodeDecodeError:
        return []
    try:
        data = json.loads(text)
        if isinstance(data, dict):
            return ["TEXT_JSON"]
    except ValueError:
        pass
    if re.match(r"[A-Z][A-Za-z0-9]*\(", text) and text.rstrip().endswith(")"):
        return ["TEXT_REPR"]
    if text.startswith("# "):
        rows = [r for r in text.split("\n") if r and r[0] in "0123456789-n{"]
        if not rows:
            return ["TEXT_TAB_I", "TEXT_TAB_J", "TEXT_PIPE_I", "TEXT_PIPE_J", "TEXT_GNUPLOT"]
        numbers = "\n".join(rows)
        pipe = " | " in numbers
        if "{" in numbers:
            return ["TEXT_GNUPLOT"]
        rest = numbers.replace("nan", "").replace("inf", "")
        if "i" in rest:
            return ["TEXT_PIPE_I" if pipe else "TEXT_TAB_I"]
        if "j" in rest:
            return ["TEXT_PIPE_J" if pipe else "TEXT_TAB_J"]
        return ["TEXT_PIPE_I", "TEXT_PIPE_J"] if pipe else ["TEXT_TAB_I", "TEXT_TAB_J", "TEXT_GNUPLOT"]
    try:
        rows = list(csv.reader(io.StringIO(text, newline="")))
        if rows and rows[0][:1] in (["time"], ["frequency"]):
            return ["TEXT_CSV"]
    except (ValueError, csv.Error):
        pass
    return []


SUBTYPES = {"PCM_U8": "UINT8", "PCM_S8": "INT8", "PCM_16": "INT16", "PCM_24": "INT24", "PCM_32": "INT32", "FLOAT": "FLOAT32", "DOUBLE": "FLOAT64",
            "ULAW": "ULAW", "ALAW": "ALAW", "VORBIS": "VORBIS"}


def audio_format(path, head):
    if soundfile is not None:
        try:
            info = soundfile.info(path)
            return {"WAV": "WAV", "WAVEX": "WAV", "AIFF": "AIFF", "FLAC": "FLAC", "OGG": "OGG"}.get(info.format, info.format) + "_" \
                + SUBTYPES.get(info.subtype, info.subtype)
        except Exception:  # pylint: disable=broad-except
            return "unreadable"
    if head[:4] == b"RIFF":
        with wave.open(path, "rb") as f:
            return "WAV_" + {1: "UINT8", 2: "INT16", 3: "INT24", 4: "INT32"}[f.getsampwidth()]
    i = head.find(b"COMM")
    bits = int.from_bytes(head[i + 14:i + 16], "big")
    return f"AIFF_INT{bits}"


# ------------------------------------------------------------------ processes
def outcome(r, exc):
    """a string, that identifies the outcome of loading a file"""
    return exc if exc is not None else hashlib.sha1(json.dumps(describe(r), sort_keys=True).encode("utf-8")).hexdigest()


def silence():
    """redirects the messages, that libsndfile prints about damaged files and the wave module about unfinished ones"""
    sys.unraisablehook = lambda *_: None
    sys.stderr.flush()
    copy = os.dup(2)
    null = os.open(os.devnull, os.O_WRONLY)
    os.dup2(null, 2)
    os.close(null)
    sys.stderr = os.fdopen(copy, "w", buffering=1)


class Fresh:
    """Loads files in processes, that have neither loaded nor saved any other file. This must be created before files are loaded or saved."""

    def __init__(self):
        self.connection, other = multiprocessing.Pipe()
        self.pid = os.fork()
        if self.pid == 0:
            code = 1
            try:
                self.connection.close()
                self.serve(other)
                code = 0
            finally:
                os._exit(code)  # pylint: disable=protected-access
        other.close()

    def __enter__(self):
        return self

    def __exit__(self, *_):
        self.connection.close()
        os.waitpid(self.pid, 0)

    @staticmethod
    def serve(connection):
        while True:
            try:
                path, k = connection.recv()
            except EOFError:
                return
            pid = os.fork()
            if pid == 0:
                try:
                    connection.send(outcome(*guarded(CLASSES[k].load, path)))
                finally:
                    os._exit(0)     # pylint: disable=protected-access
            os.waitpid(pid, 0)

    def load(self, path, k):
        self.connection.send((path, k))
        if not self.connection.poll(60):
            raise RuntimeError("the process for loading files does not respond")
        return self.connection.recv()


def without_soundfile(function):
    """calls the function in a process, in which the soundfile library is not installed, and returns the result. (This must be called
    before files are loaded or saved.)"""
    global soundfile    # pylint: disable=global-statement
    receiver, sender = multiprocessing.Pipe(duplex=False)
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            receiver.close()
            sys.modules["soundfile"] = None
            soundfile = None
            sender.send(function())
            sender.close()
            code = 0
        except BaseException:   # pylint: disable=broad-except
            traceback.print_exc()
        finally:
            os._exit(code)      # pylint: disable=protected-access
    sender.close()
    try:
        result = receiver.recv()
    except EOFError:
        raise RuntimeError("the process without the soundfile library has failed") from None
    finally:
        os.waitpid(pid, 0)
    return result


# -------------------------------------------------------------------- history
class Folder:
    """A folder with files and the history of what has happened to them"""

    def __init__(self, rng, fresh=None):
        self.rng = rng
        self.fresh = fresh      # an instance of Fresh or None
        self.path = tempfile.mkdtemp(prefix="sumpf_files_")
        self.events = []
        self.originals = {}
        self.formats = {}
        self.counter = 0

    def __enter__(self):
        return self

    def __exit__(self, *_):
        shutil.rmtree(self.path, ignore_errors=True)

    def clear(self):
        for name in os.listdir(self.path):
            os.remove(os.path.join(self.path, name))
        self.events = []
        self.originals = {}
        self.formats = {}

    def file(self, name):
        return os.path.join(self.path, name)

    def argument(self, path):
        return pathlib.Path(path) if self.rng.random() < 0.3 else path

    @staticmethod
    def content(path):
        try:
            with open(path, "rb") as f:
                return f.read()
        except OSError:
            return None

    def save(self, x, name, fmt, missing=False):
        k = kind(x)
        path = self.file(name) if not missing else os.path.join(self.path, "missing", name)
        before = self.content(path)
        d = describe(x)
        formats = type(x).file_formats if k != "filter" else F.file_formats
        args = [self.argument(path)]
        if fmt != "AUTO" or self.rng.random() < 0.5:
            args.append(getattr(formats, fmt))
        result, exc = guarded(x.save, *args)
        after = self.content(path)
        self.events.append({"op": "save", "path": name, "ending": os.path.splitext(name)[-1], "kind": k, "fmt": fmt, "d": d, "exc": exc or "",
                            "found": sniff(path, k) if exc is None else [], "self": result is x, "changed": before != after, "dir": not missing})
        if exc is None:
            self.originals[name] = x
            self.formats[name] = fmt if fmt != "AUTO" else "TEXT_CSV" if name.endswith(".csv") else fmt
        return exc

    def load(self, name, k):
        path = self.argument(self.file(name))
        digest, fresh = "", ""
        if self.fresh is not None:
            fresh = self.fresh.load(path, k)
        r, exc = guarded(CLASSES[k].load, path)
        if self.fresh is not None:
            digest = outcome(r, exc)
        o = self.originals.get(name)
        if exc is None and kind(o) != kind(r) and {kind(o), kind(r)} != {"filter", "bands"}:
            o = None
        precision = o.channels().dtype if self.formats.get(name) == "TEXT_CSV" and hasattr(o, "channels") else None
        self.events.append({"op": "load", "path": name, "kind": k, "exc": exc or "", "r": describe(r, o, precision) if exc is None else {},
                            "digest": digest, "fresh": fresh})
        return r

    def damage(self, name, how=None):
        path = self.file(name)
        content = self.content(path) or b""
        binary = content[:2] == b"PK" or content[:1] in (b"\x80", b"\x93", b"{")
        how = how or self.rng.choice(("bytes", "text", "truncate", "zeros"))
        if how == "truncate" and binary and len(content) > 8:
            content = content[:len(content) // 2]
        elif how == "zeros":
            content = bytes(64)
        elif how == "text":
            content = b"hello, this is not a data set"
        else:
            content = b"\xff\xfe\x00\x01garbage\xff"
        with open(path, "wb") as f:
            f.write(content)
        self.originals.pop(name, None)
        self.events.append({"op": "damage", "path": name})

    def remove(self, name):
        if os.path.exists(self.file(name)):
            os.remove(self.file(name))
        self.originals.pop(name, None)
        self.events.append({"op": "remove", "path": name})

    def representation(self, x):
        names = {"Filter": sumpf.Filter, "Bands": sumpf.Bands, "Interpolations": sumpf.Bands.interpolations, "array": numpy.array,
                 "float64": numpy.float64, "complex128": numpy.complex128, "nan": math.nan, "inf": math.inf, "nanj": complex(0, math.nan), "infj": complex(0, math.inf), "sumpf": sumpf, "numpy": numpy}
        r, exc = guarded(lambda: eval(repr(x), dict(names)))  # pylint: disable=eval-used
        self.events.append({"op": "repr", "d": describe(x), "exc": exc or "", "r": describe(r, x) if exc is None else {}})

    def trace(self):
        return {"soundfile": soundfile is not None, "events": self.events}


# ------------------------------------------------------------------ generators
LABELS = ("", "a", "b", "label one", 'with "quotes"', "comma, semicolon; hash # pipe |", "line\nbreak", "tab\t", "ümläut √", "1.5", "nan", "{1, 2}", "'", "\\")
RATES = (44100.0, 48000.0, 8000.0, 96000.0, 11025.0, 1.0, 2.5, 0.25, 22050.5, 1000.0, 192000.0, 50048.0, 700000.0, 44100)


def labels(rng, n):
    return tuple(rng.choice(LABELS) for _ in range(n))


def number(rng):
    r = rng.random()
    if r < 0.3:
        return float(rng.randint(-5, 5))
    if r < 0.6:
        return rng.uniform(-2.0, 2.0)
    if r < 0.8:
        return rng.uniform(-1, 1) * 10.0 ** rng.randint(-20, 20)
    return rng.choice((0.0, -0.0, 1.0, -1.0, 1 / 3, 0.1, 1e-300, 1e300, 5e-324, 2.0 ** 53 + 2, -1e16))


def cnumber(rng):
    """a complex number (text formats do not preserve the signs of zeros)"""
    return complex(number(rng) + 0.0, number(rng) + 0.0)


def audio_sample(rng):
    r = rng.random()
    if r < 0.2:
        return rng.choice((1.0, -1.0, 0.0, 127 / 128, -127 / 128, 1.0 - 2.0 ** -20, 0.5, 2.0 ** -20))
    return rng.randint(-2 ** 20, 2 ** 20) / 2.0 ** 20


def signal(rng, audio=False, shape=None):
    nc = rng.choice((1, 1, 2, 3, 5)) if shape is None else shape[0]
    n = rng.choice((0, 1, 2, 3, 4, 5, 8)) if shape is None else shape[1]
    if audio:
        a = numpy.array([[audio_sample(rng) for _ in range(n)] for _ in range(nc)]).reshape((nc, n))
    else:
        a = numpy.array([[number(rng) for _ in range(n)] for _ in range(nc)]).reshape((nc, n))
        if rng.random() < 0.1 and n:
            a[0, 0] = rng.choice((math.nan, math.inf, -math.inf))
    r = rng.random()
    if r < 0.1:
        a = a.astype(numpy.float32)
    elif r < 0.15:
        a = numpy.round(numpy.nan_to_num(numpy.clip(a, -1, 1))).astype(rng.choice((numpy.int64, numpy.int32, numpy.int16)))
    x = sumpf.Signal(channels=a, sampling_rate=rng.choice(RATES), offset=rng.choice((0, 0, 1, -1, 7, -300, 12345)), labels=labels(rng, nc))
    return derived(rng, x)


def spectrum(rng, shape=None):
    nc = rng.choice((1, 1, 2, 3)) if shape is None else shape[0]
    n = rng.choice((0, 1, 2, 3, 4, 5, 8)) if shape is None else shape[1]
    a = numpy.array([[cnumber(rng) for _ in range(n)] for _ in range(nc)], dtype=numpy.complex128).reshape((nc, n))
    if rng.random() < 0.1 and n:
        a[0, 0] = rng.choice((math.nan, complex(1, math.inf), complex(math.inf, 2), complex(0, math.nan)))
    r = rng.random()
    if r < 0.1:
        a = a.astype(numpy.complex64)
    elif r < 0.2:
        a = a.real
    x = sumpf.Spectrum(channels=a, resolution=rng.choice(RATES), labels=labels(rng, nc))
    return derived(rng, x)


def spectrogram(rng, shape=None):
    nc, nf, n = (rng.choice((1, 1, 2, 3)), rng.choice((0, 1, 2, 3, 4)), rng.choice((0, 1, 2, 3, 4))) if shape is None else shape
    a = numpy.array([cnumber(rng) for _ in range(n * nf * nc)], dtype=numpy.complex128).reshape((nc, nf, n))
    if rng.random() < 0.1 and n * nf:
        a[0, 0, 0] = rng.choice((math.nan, complex(1, math.inf), complex(math.inf, 2), complex(0, math.nan)))
    if rng.random() < 0.1:
        a = a.astype(numpy.complex64)
    x = sumpf.Spectrogram(channels=a, resolution=rng.choice(RATES), sampling_rate=rng.choice(RATES),
                          offset=rng.choice((0, 0, 1, -1, 7, -300)), labels=labels(rng, nc))
    return derived(rng, x)


def derived(rng, x):
    """sometimes the result of an operation (it has the types, that the library itself produces)"""
    if rng.random() < 0.3 and 0 not in x.shape():
        k = kind(x)
        if k == "signal":
            x = rng.choice((lambda: x[:, 0:], lambda: x.shift(3), lambda: sumpf.Merge([x, x[0]]).output(), lambda: -x, lambda: x[0],
                            lambda: sumpf.Concatenate([x, x]).output(), lambda: x.pad(x.length())))()
        else:
            x = rng.choice((lambda: x[0], lambda: -x, lambda: sumpf.Merge([x, x]).output()))()
    return x


def random_term(rng, depth=3):
    r = rng.random()
    if depth == 0 or r < 0.45:
        k = rng.choice(("const", "const", "poly", "poly", "exp", "bands"))
        if k == "const":
            return F.Constant(rng.choice((lambda: number(rng), lambda: cnumber(rng), lambda: rng.randint(-3, 3),
                                          lambda: numpy.float64(number(rng)), lambda: numpy.complex128(complex(1.5, number(rng) + 0.0)),
                                          lambda: numpy.float32(rng.randint(-64, 64) / 16), lambda: numpy.int64(rng.randint(-4, 4))))())
        if k == "poly":
            c = [rng.choice((float(rng.randint(-3, 3)), number(rng), rng.randint(1, 4))) for _ in range(rng.randint(1, 4))]
            if rng.random() < 0.25:
                c[-1] = complex(c[-1], number(rng) + 0.0)
            c = rng.choice((list, tuple, numpy.array))(c)
            return F.Polynomial(c, rng.random() < 0.4)
        if k == "exp":
            return F.Exp(rng.choice((number(rng), -rng.uniform(0, 1), rng.randint(-2, 2), complex(0.1, rng.uniform(-1, 1)))), rng.random() < 0.4)
        n = rng.randint(1, 4)
        xs = sorted(rng.sample(range(1, 50), n))
        ys = [number(rng) if rng.random() < 0.7 else cnumber(rng) for _ in range(n)]
        if rng.random() < 0.7:
            xs = [float(x) for x in xs]
        m = list(sumpf.Bands.interpolations)
        if rng.random() < 0.5:
            xs, ys = numpy.array(xs), numpy.array(ys)
        return F.Bands(xs, ys, rng.choice(m), rng.choice(m))
    a, b = random_term(rng, depth - 1), random_term(rng, depth - 1)
    tr = rng.random() < 0.35
    return rng.choice((lambda: F.Sum((a, b), tr), lambda: F.Difference(a, b, tr), lambda: F.Product([a, b], tr), lambda: F.Quotient(a, b, tr),
                       lambda: F.Absolute(a, tr), lambda: F.Negative(a, tr), lambda: a + b, lambda: a - b, lambda: a * b, lambda: a / b,
                       lambda: -a, lambda: abs(a), lambda: ~a, lambda: F.Sum((a, b, a), tr)))()


def term_catalogue(rng):
    """all classes of terms with and without the transform, the binary and unary ones with all combinations of operands"""
    leaves = [F.Constant(2.5), F.Constant(0.5 + 1.5j)]
    for t in (False, True):
        leaves += [F.Polynomial([1.0, number(rng)], t), F.Exp(-0.125, t), F.Polynomial((1.5, 2.0 - 1.0j), t)]
    m = list(sumpf.Bands.interpolations)
    leaves.append(F.Bands([1.0, 2.0], [3.0, complex(0.25, number(rng) + 0.0)], rng.choice(m), rng.choice(m)))
    yield from leaves
    for i in m:
        for e in m:
            yield F.Bands([1.0, 1 / 3, 100.0], [number(rng), 2.0, 3.0], i, e)
    for t in (False, True):
        for a in leaves:
            yield F.Absolute(a, t)
            yield F.Negative(a, t)
            for b in leaves:
                yield F.Sum((a, b), t)
                yield F.Difference(a, b, t)
                yield F.Product((b, a), t)
                yield F.Quotient(a, b, t)
                yield F.Quotient(F.Sum((a, b), t), F.Product((a, b), not t), t)


def filter_(rng):
    r = rng.random()
    if r < 0.2:
        fs = [sumpf.ButterworthFilter(cutoff_frequency=rng.choice((100.0, 1000.0)), order=rng.randint(1, 4), highpass=rng.random() < 0.5),
              sumpf.BesselFilter(order=rng.randint(1, 4), highpass=rng.random() < 0.5), sumpf.Chebyshev1Filter(order=rng.randint(1, 4)),
              sumpf.Chebyshev2Filter(order=rng.randint(1, 4), highpass=rng.random() < 0.5), sumpf.AWeighting(), sumpf.CWeighting(),
              sumpf.DelayFilter(rng.uniform(0, 1)), sumpf.DerivativeFilter()]
        x = rng.choice(fs)
        return x if rng.random() < 0.7 else rng.choice((lambda: x * 2.0, lambda: -x, lambda: abs(x), lambda: sumpf.Merge([x, x]).output()))()
    n = rng.choice((1, 1, 2, 3))
    with numpy.errstate(all="ignore"):
        for _ in range(20):
            tfs, exc = guarded(lambda: tuple(random_term(rng, rng.randint(0, 3)) for _ in range(n)))
            if exc is None:
                break
        else:
            tfs = tuple(F.Constant(1.0) for _ in range(n))
    return F(transfer_functions=tfs if rng.random() < 0.5 else list(tfs), labels=labels(rng, n))


def bands(rng, points=None):
    n = rng.choice((1, 1, 2, 3))
    real = rng.random() < 0.5
    cs = []
    for _ in range(n):
        d = {}
        for _ in range(points or rng.choice((0, 1, 2, 3, 5))):
            f = rng.choice((lambda: float(rng.randint(0, 20)), lambda: rng.uniform(0, 20000), lambda: 10.0 ** rng.randint(-9, 20), lambda: 1 / 3))()
            d[f] = number(rng) if real or rng.random() < 0.4 else cnumber(rng)
        while points and len(d) < points:       # (the frequencies above can be equal)
            d[rng.uniform(0, 20000)] = number(rng) if real or rng.random() < 0.4 else cnumber(rng)
        if rng.random() < 0.1:
            d = {int(f) if f < 1e9 else f: rng.randint(-3, 3) for f in d}
        cs.append(d)
    m = list(sumpf.Bands.interpolations)
    return sumpf.Bands(bands=cs, interpolations=[rng.choice(m) for _ in range(n)] if rng.random() < 0.7 else rng.choice(m),
                       extrapolations=[rng.choice(m) for _ in range(n)] if rng.random() < 0.7 else rng.choice(m), labels=labels(rng, n))


GENERATORS = {"signal": signal, "spectrum": spectrum, "spectrogram": spectrogram, "filter": filter_, "bands": bands}
ENDING = {"TEXT_CSV": (".csv",), "TEXT_JSON": (".json", ".js"), "NUMPY_NPZ": (".npz",), "NUMPY_NPY": (".npy",), "PYTHON_PICKLE": (".pickle",),
          "TEXT_REPR": (".txt",)}


def endings(fmt):
    """the endings of files with the given format"""
    if fmt in ENDING:
        return ENDING[fmt]
    if fmt.startswith("TEXT_"):
        return (".txt", ".dat", ".asc", ".tab")
    return {"WAV": (".wav",), "AIFF": (".aiff", ".aif", ".aifc"), "FLAC": (".flac",), "OGG": (".ogg", ".oga")}[fmt.split("_")[0]]


def formats(k):
    """the names of the formats for the given kind of data sets"""
    return sorted(f for f in dir(CLASSES[k].file_formats) if f.isupper() and f != "AUTO")


def is_audio(fmt):
    return fmt.split("_")[0] in ("WAV", "AIFF", "FLAC", "OGG")
