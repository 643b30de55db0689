"""C01: Merge. Replays all bounded histories of spec/MergeMC and random histories on sumpf.Merge and validates
the outputs with spec/MergeTrace."""
import itertools
import connectors
import numpy
import sumpf
from .common import Check, guarded
from .data import from_sumpf, grains, nothing, prepare, random_data
from .store import size

BLOCK = sumpf.Merge


def pool_of(kind, sizes):
    """a pool, in which all data sets and samples can be told apart; sizes: (channels, length, offset, frequencies)"""
    pool = []
    for n, (nc, length, off, nf) in enumerate(sizes, 1):
        if kind != "spectrogram":
            nf = 1
        if kind in ("spectrum", "filter"):
            off = 0
        if kind == "filter":
            length = 1
        cplx = kind in ("spectrum", "spectrogram")
        pool.append({"k": kind, "nc": nc, "nf": nf, "len": length, "off": off,
                     "sr": [100 + n if kind in ("signal", "spectrogram") else 0, 1],
                     "res": [200 + n if kind in ("spectrum", "spectrogram") else 0, 1],
                     "lab": [f"d{n}c{c}" for c in range(nc)],
                     "ch": [[[[1000 * n + 100 * c + 10 * f + i + 1, (n + c + f + i) if cplx else 0]
                              for i in range(length)] for f in range(nf)] for c in range(nc)]})
    return pool


class Runner:
    """performs the events of a history on the real block and records the observations"""

    def __init__(self, block, pool, create, init=(), mode=None, fresh=False, grain=1):
        self.grain = grain
        self.pool = pool
        self.create = create        # returns a function, that creates the data set with the given index
        self.prepared = None
        # objects, that are created for being used once, can get the same addresses as others, that have been deleted
        self.objects = None if fresh else [create(i)() for i in range(len(pool))]
        data = [self.object(i) for i in init]
        self.modes = getattr(block, "modes", None)
        if mode is not None:
            self.block = block(data, self.modes[mode])
        else:
            self.block = block(data)
        self.ids = {}       # model id -> id of the block (the ids of data, that was given to the constructor, are unknown)
        self.sources = {}
        self.next = len(init) + 1

    def object(self, d):
        if self.objects is not None:
            return self.objects[d - 1]
        prepared, self.prepared = self.prepared, None
        return (prepared or self.create(d - 1))()

    def perform(self, e, via=None, upcoming=None):
        if self.objects is None and e["op"] == "remove" and upcoming and upcoming["op"] == "add":
            # there are no other objects created between removing this one and adding the next
            self.prepared = self.create(upcoming["d"] - 1)
        op = e["op"]
        rec = dict(e)
        rec.setdefault("id", 0)
        rec.setdefault("d", 0)
        rec.setdefault("mode", "")
        rec["out"] = nothing()
        if op == "add":
            rec["id"] = self.next
            self.next += 1
            if via == "connection":
                source = connectors.blocks.PassThrough(self.object(e["d"]))
                self.sources[rec["id"]] = source
                _, exc = guarded(self.block.add.connect, source.output)
                guarded(self.block.output)      # lazily connected data is added, when it is requested
            else:
                self.ids[rec["id"]], exc = guarded(self.block.add, self.object(e["d"]))
        elif op == "remove":
            if e["id"] in self.sources:
                source = self.sources.pop(e["id"])
                _, exc = guarded(self.block.add.disconnect, source.output)
            else:
                r, exc = guarded(self.block.remove, self.ids[e["id"]])
                if exc is None and r is not self.block:
                    exc = "remove must return the block"
        elif op == "replace":
            if e["id"] in self.sources:
                _, exc = guarded(self.sources[e["id"]].input, self.object(e["d"]))
            else:
                r, exc = guarded(self.block.replace, self.ids[e["id"]], self.object(e["d"]))
                if exc is None and r != self.ids[e["id"]]:
                    exc = "replace must return the id"
        elif op == "mode":
            _, exc = guarded(self.block.set_mode, self.modes[e["mode"]])
        else:
            result, exc = guarded(self.block.output)
            if exc is None:
                rec["out"], exc = guarded(from_sumpf, result, grain=self.grain)
                if exc is not None:
                    rec["out"] = nothing()
        rec["exc"] = exc or ""
        return rec


OUTPUT = {"op": "output"}


class MergeCheck(Check):
    id = "C01"
    module = "Merge"
    block = BLOCK
    kinds = ("signal", "spectrum", "spectrogram", "filter")
    with_mode = True
    sizes = ((1, 2, 0, 1), (2, 1, 3, 2), (3, 2, -2, 3))     # as in MergeMC
    assumptions = ("the connectors package (caching, laziness and connections) is the installed third-party package",)

    def first_mode(self):
        return "FIRST_DATASET_FIRST" if self.with_mode else None

    def replay_histories(self):
        """replays the histories, that TLC has enumerated, on the real block"""
        histories = self.model(self.module + "MC", env={"DEPTH": self.n(4, 5)}).printed("HIST")
        if not histories:
            raise RuntimeError("no histories")
        self.notes["histories_enumerated"] = len(histories)
        traces = []
        for n, history in enumerate(histories):
            kinds = self.kinds if self.thorough or n % 7 == 0 else (self.kinds[n % len(self.kinds)],)
            for kind in kinds:
                pool = pool_of(kind, self.sizes)
                traces.append(self.record(pool, history, every_step=(0.0, 0.5, 1.0)[n % 3]))
        return traces

    def record(self, pool, history, init=(), mode=None, every_step=1.0, via=None, dtypes=None):
        for i, t in (dtypes or {}).items():
            if numpy.dtype(t).kind != "c":
                for s in (s for c in pool[i]["ch"] for f in c for s in f):
                    s[1] = 0
        mode = mode or self.first_mode()
        grain = grains(self.rng)
        runner = Runner(self.block, pool, lambda i: prepare(pool[i], (dtypes or {}).get(i), grain), init, mode, fresh=self.rng.random() < 0.6, grain=grain)
        events = []
        if self.rng.random() < every_step:
            events.append(runner.perform(OUTPUT))
        for e, upcoming in itertools.zip_longest(history, history[1:]):
            events.append(runner.perform(e, via=via(e) if via else None, upcoming=upcoming))
            if self.rng.random() < every_step:
                events.append(runner.perform(OUTPUT))
        events.append(runner.perform(OUTPUT))
        return {"pool": pool, "init": list(init), "mode": mode or "", "events": events}

    def random_pool(self, kind):
        big = self.rng.random() < 0.2
        limit = self.rng.choice((99, 2 ** 27))      # (single precision is not sufficient for the larger ones)
        return [random_data(self.rng, kind, max_nc=4, max_len=12 if big else 5, off_range=15 if big else 5, lo=-limit, hi=limit,
                            length=0 if self.rng.random() < 0.05 and kind == "signal" else None)
                for _ in range(5)]

    def random_traces(self):
        traces = []
        for n in range(self.n(250, 2500)):
            kind = self.kinds[n % len(self.kinds)]
            pool = self.random_pool(kind)
            init = [self.rng.randint(1, len(pool)) for _ in range(self.rng.choice((0, 0, 0, 1, 2, 3)))]
            mode = self.rng.choice(("FIRST_DATASET_FIRST", "FIRST_CHANNELS_FIRST")) if self.with_mode else None
            ids, nxt, history = [], len(init) + 1, []
            connected = self.rng.random() < 0.3
            for _ in range(self.rng.randint(1, 10)):
                op = self.rng.choice(("add", "add", "add", "replace", "replace", "remove", "mode", "output"))
                if op == "add":
                    if len(ids) < 5:
                        history.append({"op": "add", "d": self.rng.randint(1, len(pool))})
                        ids.append(nxt)
                        nxt += 1
                elif op == "mode":
                    if self.with_mode:
                        history.append({"op": "mode", "mode": self.rng.choice(("FIRST_DATASET_FIRST", "FIRST_CHANNELS_FIRST"))})
                elif op == "output":
                    history.append({"op": "output"})
                elif ids:
                    i = self.rng.choice(ids)
                    history.append({"op": op, "id": i, "d": self.rng.randint(1, len(pool))})
                    if op == "remove":
                        ids.remove(i)
                        if self.rng.random() < 0.5:
                            history.append({"op": "add", "d": self.rng.randint(1, len(pool))})
                            ids.append(nxt)
                            nxt += 1
            via = None
            if connected:
                choices = {}

                def via(e, choices=choices):    # pylint: disable=function-redefined
                    return self.rng.choice(("connection", None))
            traces.append(self.record(pool, history, init, mode, every_step=1.0 if connected else self.rng.choice((0.0, 0.5, 1.0)), via=via,
                                      dtypes=self.random_dtypes(kind, pool)))
        return traces

    def random_dtypes(self, kind, pool):
        """the types, in which the samples of some of the data sets are stored"""
        if kind == "filter" or self.rng.random() < 0.4:
            return None
        types = (numpy.float64, numpy.float32, numpy.int64) if kind == "signal" else (numpy.complex128, numpy.float64, numpy.complex64)
        if any(size(d) > 2 ** 24 for d in pool):
            types = (numpy.float64, numpy.int64) if kind == "signal" else (numpy.complex128, numpy.float64)
        return {i: self.rng.choice(types) for i in range(len(pool))}

    def run(self):
        self.validate(self.module + "Trace", self.replay_histories() + self.random_traces(), chunks=8)


CHECK = MergeCheck
