"""C25: networks of connected blocks. Replays the histories of spec/NetworkMC and random histories on networks of
sumpf's blocks (in some of them, a sumpf.Jack is a source) and validates the outputs of all blocks with spec/NetworkTrace."""
import copy
import sys
import connectors
from .jackdriver import fakejack
import jack
import numpy
import sumpf
from .common import Check, enc, guarded
from .data import from_sumpf, nothing, random_data, to_sumpf

sys.setswitchinterval(0.005)     # the process callbacks are called by the thread of the check
KINDS = ("signal", "spectrum", "spectrogram", "filter")


class Runner:
    """a network of real blocks"""

    def __init__(self, pool, net, recorder=0):
        self.objects = [to_sumpf(d) for d in pool]
        self.trace = {"pool": list(pool), "net": copy.deepcopy(net), "events": []}
        self.nodes = []
        self.ids = [{} for _ in net]
        self.modes = {}
        self.model = Model(net)
        self.recorded = 0
        self.recorder = recorder        # the number of a source, that is a sumpf.Jack
        for n, node in enumerate(net):
            if n + 1 == recorder:
                self.server = fakejack.reset(48000, blocksize=16)
                other = jack.Client("ext")
                other.outports.register("out")
                other.activate()
                self.nodes.append(sumpf.Jack("N", input_ports=("a", "b")))
                self.nodes[-1].connect("ext:out", "b")
                self.record(n + 1, node["d"])
                self.trace["net"][n]["d"] = len(self.objects)
            elif node["kind"] == "src":
                self.nodes.append(connectors.blocks.PassThrough(self.objects[node["d"] - 1]))
            else:
                self.nodes.append(sumpf.Merge(mode=sumpf.Merge.modes[node["mode"]]) if node["kind"] == "merge" else sumpf.Concatenate())
                for e in node["entries"]:
                    self.attach(n, e["id"], e["from"], e["ref"])

    def record(self, n, d):
        """records a signal, that becomes a new data set of the pool"""
        self.recorded += 1
        length = max(1, self.objects[d - 1].length())
        block = self.nodes[n - 1]
        block.input(sumpf.Signal(channels=numpy.zeros((1, length)), sampling_rate=48000.0, offset=self.objects[d - 1].offset()))
        block.start()
        self.server.cycle(length + 3, {"ext:out": 10.0 * self.recorded + numpy.arange(length + 3)})
        self.server.cycle(length + 3, {"ext:out": numpy.zeros(length + 3)})    # in this cycle, the recording is finished
        result = block.output()
        self.objects.append(result)
        self.trace["pool"].append(from_sumpf(result))

    def attach(self, n, id, kind, ref):
        if kind == "data":
            self.ids[n][id], exc = guarded(self.nodes[n].add, self.objects[ref - 1])
        else:
            self.ids[n][id] = self.nodes[ref - 1]
            r, exc = guarded(self.nodes[n].add.connect, self.ids[n][id].output)
            if exc is None and r is not self.nodes[n]:
                exc = "connect must return the block"
        return exc

    def do(self, op, n=0, d=0, id=0, mode=""):
        if op == "disconnect":
            self.do("output", n=n)      # the connectors package looses the changes, that are announced by the other connections
        e = {"op": op, "n": n, "d": d, "id": id, "mode": mode, "exc": "", "out": nothing()}
        exc = None
        node = self.nodes[n - 1] if n else None
        if op == "source":
            if n == self.recorder:
                _, exc = guarded(self.record, n, d)
                e["d"] = len(self.objects)
            else:
                _, exc = guarded(node.input, self.objects[d - 1])
        elif op == "mode":
            if n in self.modes:
                _, exc = guarded(self.modes[n].input, sumpf.Merge.modes[mode])
            else:
                _, exc = guarded(node.set_mode, sumpf.Merge.modes[mode])
        elif op == "add":
            exc = self.attach(n - 1, id, "data", d)
        elif op == "connect":
            exc = self.attach(n - 1, id, "node", d)
        elif op == "remove":
            _, exc = guarded(node.remove, self.ids[n - 1].pop(id))
        elif op == "disconnect":
            _, exc = guarded(node.add.disconnect, self.ids[n - 1].pop(id).output)
        elif op == "replace":
            _, exc = guarded(node.replace, self.ids[n - 1][id], self.objects[d - 1])
        elif op == "output":
            out, exc = guarded(node.output)
            if exc is None:
                e["out"], exc = guarded(from_sumpf, out)
                if exc is not None:
                    e["out"] = nothing()
        e["exc"] = exc or ""
        self.trace["events"].append(e)
        self.model.apply(e)
        return exc

    def request(self, nodes):
        for n in nodes:
            self.do("output", n=n)

    def connect_mode(self, n, mode):
        """lets a PassThrough control the mode of a block"""
        source = connectors.blocks.PassThrough(sumpf.Merge.modes[mode])
        _, exc = guarded(self.nodes[n - 1].set_mode.connect, source.output)
        self.modes[n] = source
        return exc


class Model:
    """the structure of the network, for generating histories"""

    def __init__(self, net):
        self.net = copy.deepcopy(net)
        self.next = 100

    def apply(self, e):
        """performs the structural changes of an event"""
        entries = self.net[e["n"] - 1]["entries"] if e["n"] else []
        if e["op"] in ("add", "connect"):
            entries.append({"id": e["id"], "from": "data" if e["op"] == "add" else "node", "ref": e["d"]})
            self.next = max(self.next, e["id"] + 1)
        elif e["op"] in ("remove", "disconnect"):
            entries[:] = [x for x in entries if x["id"] != e["id"]]

    def after(self, e):
        result = Model(self.net)
        result.apply(dict({"n": 0}, **e))
        return result

    def inputs(self, n):
        return [e["ref"] for e in self.net[n - 1]["entries"] if e["from"] == "node"]

    def upstream(self, n):
        result = {n}
        for m in self.inputs(n):
            result |= self.upstream(m)
        return result

    def complete(self, n):
        return all(self.net[m - 1]["kind"] == "src" or self.net[m - 1]["entries"] for m in self.upstream(n))

    def fed(self):
        """as in spec/Network"""
        return all(self.complete(m) for n in range(1, len(self.net) + 1) for m in self.inputs(n))

    def channels(self, n, pool):
        """the number of channels and the maximum length of the output, for limiting the size of the networks"""
        node = self.net[n - 1]
        if node["kind"] == "src":
            return max(d["nc"] for d in pool), 5
        parts = [self.channels(e["ref"], pool) if e["from"] == "node" else (max(d["nc"] for d in pool), 5) for e in node["entries"]] or [(0, 0)]
        return sum(p[0] for p in parts), sum(p[1] for p in parts)


class NetworkCheck(Check):
    id = "C25"
    assumptions = ("the connectors package (caching, laziness and connections) is the installed third-party package",
                   "the jack module is replaced by a controllable server")

    def pool(self, kind):
        limit = self.rng.choice((99, 2 ** 24 + 2 ** 20))     # (single precision is not sufficient for the larger ones)
        return [random_data(self.rng, kind, max_nc=2, max_len=4, off_range=3, lo=-limit, hi=limit) for _ in range(4)]

    def requests(self, r, history=None):
        """requests the outputs of some of the nodes"""
        rng = self.rng
        nodes = [n for n in range(1, len(r.nodes) + 1)]
        style = rng.random()
        if style < 0.3:
            chosen = nodes[:]
            rng.shuffle(chosen)
        elif style < 0.7:
            chosen = rng.sample(nodes, rng.randint(0, 2))
        else:
            chosen = []
        r.request(chosen)

    def all_outputs(self, r):
        nodes = list(range(1, len(r.nodes) + 1))
        self.rng.shuffle(nodes)
        r.request(nodes)

    def replay_histories(self):
        self.model("NetworkMC", env={"DEPTH": self.n(1, 3)})
        result = self.model("NetworkMC", "NetworkHistories.cfg", env={"DEPTH": 3})
        nets = result.printed("NETS")[0]
        histories = result.printed("HIST")
        self.notes["histories_enumerated"] = len(histories)
        if not self.thorough:
            histories = self.rng.sample(histories, 2200)
        self.notes["histories_replayed"] = len(histories)
        traces = []
        for h in histories:
            kind = self.rng.choice(("signal", "signal", "spectrogram"))
            pool = self.pool(kind)[:3]
            r = Runner(pool, nets[h["first"] - 1])
            self.requests(r)
            for e in h["hist"]:
                r.do(**e)
                self.requests(r)
            self.all_outputs(r)
            traces.append(r.trace)
        return traces

    def random_net(self, kind):
        rng = self.rng
        net = [{"kind": "src", "d": rng.randint(1, 4), "mode": "", "entries": []} for _ in range(rng.randint(1, 3))]
        for _ in range(rng.randint(1, 4)):
            merge = kind in ("spectrum", "filter") or rng.random() < 0.5
            net.append({"kind": "merge" if merge else "concat", "d": 0,
                        "mode": rng.choice(("FIRST_DATASET_FIRST", "FIRST_CHANNELS_FIRST")) if merge else "", "entries": []})
            node = net[-1]
            nodes = list(range(1, len(net)))
            for k in range(rng.randint(0, 2)):
                if rng.random() < 0.7:
                    n = rng.choice(nodes)
                    nodes.remove(n)
                    node["entries"].append({"id": k + 1, "from": "node", "ref": n})
                    if not nodes:
                        break
                else:
                    node["entries"].append({"id": k + 1, "from": "data", "ref": rng.randint(1, 4)})
        return net

    def random_trace(self):
        rng = self.rng
        kind = rng.choice(("signal",) * 4 + KINDS)
        pool = self.pool(kind)
        net = self.random_net(kind)
        while not Model(net).fed():
            net = self.random_net(kind)
        r = Runner(pool, net, rng.choice((0, 1)) if kind == "signal" else 0)
        m = r.model
        for n, node in enumerate(net, 1):
            if node["kind"] == "merge" and rng.random() < 0.2:
                exc = r.connect_mode(n, node["mode"])
                if exc:
                    r.trace["events"].append({"op": "connect mode", "exc": exc})
                    return r.trace
        sources = [n for n, x in enumerate(net, 1) if x["kind"] == "src"]
        blocks = [n for n, x in enumerate(net, 1) if x["kind"] != "src"]
        for _ in range(rng.randint(3, self.n(10, 20))):
            op = rng.choice(["source"] * 3 + ["mode", "add", "connect", "connect", "drop", "replace"])
            e = None
            if op == "source":
                e = dict(op=op, n=rng.choice(sources), d=rng.randint(1, 4))
            elif op == "mode":
                merges = [n for n in blocks if m.net[n - 1]["kind"] == "merge"]
                if merges:
                    e = dict(op=op, n=rng.choice(merges), mode=rng.choice(("FIRST_DATASET_FIRST", "FIRST_CHANNELS_FIRST")))
            elif op == "add":
                n = rng.choice(blocks)
                e = dict(op=op, n=n, id=m.next, d=rng.randint(1, 4))
            elif op == "connect":
                n = rng.choice(blocks)
                candidates = [k for k in range(1, len(net) + 1) if n not in m.upstream(k) and k not in m.inputs(n)]
                if candidates:
                    e = dict(op=op, n=n, id=m.next, d=rng.choice(candidates))
            elif op in ("drop", "replace"):
                n = rng.choice(blocks)
                entries = m.net[n - 1]["entries"]
                entry = rng.choice(entries) if entries else None
                if entry and op == "drop":
                    e = dict(op="remove" if entry["from"] == "data" else "disconnect", n=n, id=entry["id"])
                elif entry and entry["from"] == "data":
                    e = dict(op=op, n=n, id=entry["id"], d=rng.randint(1, 4))
            if e is None:
                continue
            after = m.after(e)
            if any(c > 24 or x > 60 for c, x in (after.channels(n, pool) for n in blocks)) or not after.fed():
                continue        # the network becomes too large or a block looses its input
            r.do(**e)
            self.requests(r)
        self.all_outputs(r)
        return r.trace

    def run(self):
        traces = self.replay_histories()
        for _ in range(self.n(500, 5000)):
            traces.append(self.random_trace())
        self.validate("NetworkTrace", traces, chunks=8)


CHECK = NetworkCheck
