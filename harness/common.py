"""Shared machinery of the checks: running TLC, writing traces, verdicts, evidence.

Every check is a sub-class of :class:`Check`.  A check produces *traces* (recorded executions of the real
code), lets TLC validate them against the specification and turns rejections into VIOLATION lines.
"""
import argparse
import concurrent.futures
import hashlib
import json
import math
import os
import random
import re
import shutil
import signal as _signal
import subprocess
import sys
import tempfile
import time
import traceback
import warnings

import numpy

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, "spec")
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.dont_write_bytecode = True
if REPO not in sys.path:
    sys.path.insert(0, REPO)
warnings.simplefilter("ignore")


def _poison(allocate):
    """Wraps a function, that allocates uninitialized memory, so that it is filled with values, that cannot be mistaken
    for results, when it is called by the code under test. The content of such memory is arbitrary anyway."""
    def wrapper(*args, **kwargs):
        array = allocate(*args, **kwargs)
        if sys._getframe(1).f_code.co_filename.startswith(REPO) and array.size < 10 ** 7:      # pylint: disable=protected-access
            if array.dtype.kind in "fc":
                array.fill(numpy.nan)
            elif array.dtype.kind in "iu":
                array.fill(numpy.iinfo(array.dtype).max)
        return array
    wrapper.__name__ = allocate.__name__
    return wrapper


numpy.empty = _poison(numpy.empty)
numpy.empty_like = _poison(numpy.empty_like)

JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"

# reserved integers for values, that cannot be represented in the trace
NAN, INF, NINF, INEXACT, HUGE = 2000000001, 2000000002, 2000000003, 2000000004, 2000000005


class CaseTimeout(Exception):
    pass


def enc(x, scale=1, tol=1e-6):
    """encodes a real number as a fixed point integer with the given scale"""
    x = float(x)
    if math.isnan(x):
        return NAN
    if math.isinf(x):
        return INF if x > 0 else NINF
    y = x * scale
    if abs(y) > 1.9e9:
        return HUGE
    r = round(y)
    if abs(y - r) > tol * max(1.0, abs(y)):
        return INEXACT
    return int(r)


def encf(x, scale):
    """encodes a real number as a rounded fixed point integer (for comparisons with a tolerance)"""
    return enc(x, scale, tol=2.0)


def encc(x, scale=1, tol=1e-6):
    """encodes a complex number as a pair of fixed point integers"""
    x = complex(x)
    return [enc(x.real, scale, tol), enc(x.imag, scale, tol)]


def rate(x):
    """encodes a sampling rate or resolution: positive rationals as [numerator, denominator]"""
    x = float(x)
    if not math.isfinite(x):
        return [NAN, 1]
    from fractions import Fraction
    f = Fraction(x).limit_denominator(100000)
    if abs(float(f) - x) > 1e-9 * max(1.0, abs(x)) or abs(f.numerator) > 1.9e9:
        return [INEXACT, 1]
    return [f.numerator, f.denominator]


def digest(*arrays):
    h = hashlib.sha256()
    for a in arrays:
        h.update(repr(a).encode() if not hasattr(a, "tobytes") else (str(a.dtype) + str(a.shape)).encode() + a.tobytes())
    return h.hexdigest()[:16]


def guarded(function, *args, seconds=20, **kwargs):
    """calls the function and returns (result, None) or (None, name of the exception)"""
    def handler(*_):
        raise CaseTimeout()
    old = _signal.signal(_signal.SIGALRM, handler)
    _signal.setitimer(_signal.ITIMER_REAL, seconds)
    try:
        return function(*args, **kwargs), None
    except CaseTimeout:
        return None, "Timeout"
    except Exception as e:  # pylint: disable=broad-except
        return None, type(e).__name__
    finally:
        _signal.setitimer(_signal.ITIMER_REAL, 0)
        _signal.signal(_signal.SIGALRM, old)


class TLCError(Exception):
    pass


class TLCResult:
    def __init__(self, out, rc):
        self.out = "\n".join(x for x in out.splitlines() if not re.match(r"Parsing file|Semantic processing|Warning: |\(Use the|Linting", x))
        self.rc = rc
        m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
        self.generated, self.distinct = (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)
        self.prints = []
        for line in out.splitlines():
            if line.startswith('"@'):
                # a string, that has been printed with PrintT
                self.prints.append(json.loads(line)[1:] if _is_json(line) else _untla(line)[1:])

    def printed(self, tag):
        return [json.loads(p[len(tag) + 1:]) for p in sorted(self.prints) if p.startswith(tag + " ")]


def _is_json(line):
    try:
        json.loads(line)
        return True
    except ValueError:
        return False


def _untla(line):
    return line[1:-1].replace('\\"', '"').replace("\\\\", "\\")


def run_tlc(module, config=None, env=None, workers=1, timeout=800, heap="3g", extra=(), cwd=SPEC):
    meta = tempfile.mkdtemp(prefix="tlc_")
    try:
        cmd = ["java", "-Djava.io.tmpdir=" + meta, "-Xmx" + heap, "-Xss64m", "-XX:+UseSerialGC" if workers == 1 else "-XX:+UseParallelGC",
               "-cp", JARS, "tlc2.TLC", "-workers", str(workers), "-deadlock", "-noGenerateSpecTE", "-metadir", meta,
               "-config", config or module + ".cfg", *extra, module + ".tla"]
        e = dict(os.environ)
        e.update({k: str(v) for k, v in (env or {}).items()})
        e.pop("JAVA_TOOL_OPTIONS", None)
        p = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, check=False)
        return TLCResult(p.stdout.decode("utf-8", "replace"), p.returncode)
    finally:
        shutil.rmtree(meta, ignore_errors=True)


class Check:
    """Base class: sub-classes set ``id``, ``level`` and ``trace_module`` and implement :meth:`run`."""
    id = None
    level = "model_checking"
    assumptions = ()

    def __init__(self, tier, seed):
        self.tier = tier
        self.thorough = tier == "thorough"
        self.seed = seed
        self.rng = random.Random(f"{self.id}-{seed}")
        self.states = 0
        self.transitions = 0
        self.validated = 0
        self.models = []
        self.samples = []
        self.rejections = []     # (clause, trace, info)
        self.known = []
        self.notes = {}
        self.start = time.time()

    def n(self, quick, thorough):
        return thorough if self.thorough else quick

    # ------------------------------------------------------------------ models
    def model(self, module, config=None, workers=4, timeout=800, heap="6g", env=None, expect_ok=True):
        """exhaustively checks a bounded model, returns the TLC result"""
        r = run_tlc(module, config, env=env, workers=workers, timeout=timeout, heap=heap)
        if expect_ok and (r.rc != 0 or "No error has been found" not in r.out):
            raise TLCError(f"model {module}/{config} failed:\n{r.out[-3000:]}")
        self.states += r.distinct
        self.transitions += r.generated
        self.models.append({"module": module, "config": config or module + ".cfg", "states": r.distinct, "generated": r.generated})
        return r

    # ------------------------------------------------------------------ traces
    def validate(self, module, traces, config=None, chunks=None, timeout=800, env=None, heap="3g"):
        """validates the recorded traces (a list of JSON objects) with the given trace specification.
        Each rejected trace is appended to self.rejections.
        """
        if not traces:
            raise TLCError("no traces have been recorded for " + module)
        chunks = chunks or min(8, max(1, len(traces) // 40))
        parts = [list(range(i, len(traces), chunks)) for i in range(chunks)]
        tmp = tempfile.mkdtemp(prefix="traces_")
        try:
            def work(k):
                todo = parts[k]
                rejected = []
                stats = [0, 0]
                while todo:
                    path = os.path.join(tmp, f"{k}.ndjson")
                    with open(path, "w") as f:
                        for i in todo:
                            f.write(json.dumps(traces[i], separators=(",", ":")) + "\n")
                    e = {"TRACE_FILE": path}
                    e.update(env or {})
                    r = run_tlc(module, config, env=e, timeout=timeout, heap=heap)
                    stats[0] += r.distinct
                    stats[1] += r.generated
                    for p in r.printed("REJECT"):
                        rejected.append((p["clause"], todo[p["line"] - 1], p))
                    if r.rc == 0 and "No error has been found" in r.out:
                        break
                    # an evaluation error: the recorded values do not even have the shape, that the specification
                    # expects. The state in the error trace tells, which trace it was.
                    m = re.findall(r"^(?:/\\ )?l = (\d+)", r.out, re.M)
                    if m and re.search(r"Attempted to|evaluat|not in the domain|out of bounds|Java|overridden|outside|Overflow", r.out) \
                            and not re.search(r"OutOfMemory|StackOverflow|parse|Parsing|semantic", r.out, re.I):
                        line = int(m[-1])
                        text = [x for x in r.out.splitlines() if x.startswith("Error:") or "Attempted" in x]
                        rejected.append(("unexplainable:" + " ".join(text)[:300], todo[line - 1], {"line": line}))
                        if len([x for x in rejected if x[0].startswith("unexp")]) > 3:
                            break
                        todo = todo[line:]
                    else:
                        raise TLCError(f"trace validation {module} failed (rc {r.rc}):\n{r.out[-3000:]}")
                return rejected, stats
            with concurrent.futures.ThreadPoolExecutor(max_workers=8) as pool:
                results = list(pool.map(work, range(chunks)))
        finally:
            shutil.rmtree(tmp, ignore_errors=True)
        bad = set()
        for rejected, stats in results:
            self.states += stats[0]
            self.transitions += stats[1]
            for clause, i, info in rejected:
                bad.add(i)
                self.rejections.append((clause, traces[i], info))
        self.validated += len(traces) - len(bad)
        if len(self.samples) < 5:
            self.samples.extend(_shorten(traces[i]) for i in sorted({0, len(traces) // 2})[:2])
        key = f"traces[{module}]"
        self.notes[key] = self.notes.get(key, 0) + len(traces)

    def reject(self, clause, trace, info=None):
        """a violation, that has been found by replaying a behaviour of the model on the code"""
        self.rejections.append((clause, trace, info or {}))

    # ------------------------------------------------------------------ results
    def classify(self, clause, trace, info):
        """returns the name of the known finding, that explains the rejection, or None"""
        return None

    def run(self):
        raise NotImplementedError

    def finish(self):
        known = load_known(self.id)
        violations = []
        seen_known = {}
        for clause, trace, info in self.rejections:
            name = self.classify(clause, trace, info)
            if name is not None and name in known:
                seen_known.setdefault(name, []).append(clause)
            else:
                violations.append((clause, trace, info))
        # report the known findings, that are listed
        for name, text in known.items():
            if name in seen_known:
                print(f"KNOWN-FINDING: property={self.id} {name}: {text}")
        out = os.path.join(VERIF, "evidence")
        os.makedirs(out, exist_ok=True)
        path = None
        if violations:
            path = os.path.join(out, f"replay-{self.id}.json")
            with open(path, "w") as f:
                json.dump([{"clause": c, "info": i, "trace": t} for c, t, i in violations[:20]], f, indent=1, default=str)
        coverage = {"states": self.states, "transitions": self.transitions,
                    "traces_validated_against_impl": self.validated,
                    "samples": self.samples or ["none"],
                    "models": self.models,
                    "rejections_matching_known_findings": len(self.rejections) - len(violations)}
        coverage.update(self.notes)
        with open(os.path.join(out, f"{self.id}.json"), "w") as f:
            json.dump({"property": self.id, "tier": self.tier, "seed": self.seed, "level": self.level,
                       "coverage": coverage, "assumptions": list(self.assumptions),
                       "wall_s": round(time.time() - self.start, 2), "violations": len(violations)}, f, indent=1, default=str)
        if violations:
            if os.environ.get("VERIF_VERBOSE"):
                for c in sorted({c for c, _, _ in violations})[:10]:
                    _, t, info = min((v for v in violations if v[0] == c), key=lambda v: len(json.dumps(v[1], default=str)))
                    print(c, info, json.dumps(t["events"][info.get("step", 1) - 1] if isinstance(t, dict) and os.environ.get("VERIF_STEP") else t,
                                              default=str)[:int(os.environ["VERIF_VERBOSE"])])
            for clause in sorted({c for c, _, _ in violations})[:10]:
                print(f"  violated clause: {clause} ({sum(1 for c, _, _ in violations if c == clause)} traces)")
            print(f"VIOLATION property={self.id} replay={path}")
            return 1
        print(f"{self.id}: held on {self.validated} traces, {self.states} states ({time.time() - self.start:.1f}s)")
        return 0


def _shorten(x, depth=0):
    s = json.dumps(x, default=str)
    return x if len(s) < 1500 else s[:1500] + "..."


def load_known(prop):
    path = os.path.join(VERIF, "KNOWN_FINDINGS.json")
    if not os.path.exists(path):
        return {}
    with open(path) as f:
        data = json.load(f)
    return {k["name"]: k["what"] for k in data["findings"] if k["property"] == prop}


def main(cls):
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    check = cls(tier, seed)
    try:
        check.run()
        return check.finish()
    except Exception as e:  # pylint: disable=broad-except
        traceback.print_exc()
        # an exception, that has been raised by the library for an input, for which it must not fail
        frames = traceback.extract_tb(e.__traceback__)
        own = [f for f in frames if f.filename.startswith(os.path.join(REPO, "sumpf") + os.sep)]
        if own and not isinstance(e, (MemoryError, ImportError)):
            check.reject(f"the library raised {type(e).__name__} for a valid input",
                         {"events": [f"{os.path.relpath(f.filename, REPO)}:{f.lineno} {f.line}" for f in own], "message": str(e)[:500]})
        # a result, that the harness can not interpret (e.g. another type or shape than the operation's result always has)
        elif isinstance(e, (ArithmeticError, AttributeError, LookupError, TypeError, ValueError, AssertionError)) and not isinstance(e, UnicodeError):
            frames = [f for f in frames if f.filename.startswith(os.path.join(VERIF, "harness") + os.sep)]
            check.reject(f"a result can not be interpreted ({type(e).__name__})",
                         {"events": [f"{os.path.relpath(f.filename, VERIF)}:{f.lineno} {f.line}" for f in frames], "message": str(e)[:500]})
        # a violation, that has been found before the machinery failed, is still a violation
        if check.rejections:
            try:
                rc = check.finish()
                if rc == 1:
                    return 1
            except Exception:  # pylint: disable=broad-except
                traceback.print_exc()
        return 2
