"""Drives sumpf.Jack on the controllable JACK server of fakejack and records traces for spec/JackTrace."""
import sys
import threading
import numpy
from . import fakejack
fakejack.install()
import sumpf                                    # noqa: E402
import jack                                     # noqa: E402
from .common import enc, guarded, rate          # noqa: E402
from .data import from_sumpf, nothing, to_sumpf  # noqa: E402

CLIENT = "J"
# threads are only switched, when they wait, so that the process callback is atomic
sys.setswitchinterval(5.0)


def mk(nc, length, off, lab):
    """as in spec/JackMC"""
    return {"k": "signal", "nc": nc, "nf": 1, "len": length, "off": off, "sr": [48000, 1], "res": [0, 1], "lab": list(lab),
            "ch": [[[[10 * (c + 1) + i + 1, 0] for i in range(length)]] for c in range(nc)]}


MC_POOL = [mk(2, 3, 0, ["x", "in"]), mk(1, 5, -4, ["in"]), mk(3, 4, 2, ["", "x", "x"]), mk(1, 0, 0, ["out"]), mk(2, 1, 7, ["output_2", ""])]


class Driver:
    def __init__(self, pool, sig, auto, ins, rng, samplerate=44100):
        self.pool = pool
        self.objects = [to_sumpf(d) for d in pool]
        self.rng = rng
        self.server = fakejack.reset(samplerate, blocksize=4)
        # another client, whose ports have the same short names as some of ours and are registered before
        self.ext = jack.Client("ext")
        for n in ("in", "a", "b"):
            self.ext.inports.register(n)
        for n in ("out", "x", "in2"):
            self.ext.outports.register(n)
        self.ext.activate()
        self.pending = None
        self.hung = False
        self.idle = True         # there is no recording in progress
        self.counter = 0
        self.jack, exc = guarded(sumpf.Jack, CLIENT, self.objects[sig - 1], list(ins), auto_deactivate=auto)
        self.failed = exc is not None
        if self.failed:
            self.trace = {"pool": pool, "client": CLIENT, "init": {"sig": sig, "auto": auto, "ins": list(ins), "outs": []},
                          "events": [{"op": "init", "exc": exc}]}
            return
        self.client = next(c for c in self.server.clients if c.name == CLIENT)
        obs = self.observe()
        self.trace = {"pool": pool, "client": CLIENT,
                      "init": {"sig": sig, "auto": auto, "ins": list(ins), "outs": obs["outs"]},
                      "events": [dict(op="init", exc="", **obs)]}

    # ------------------------------------------------------------ observations
    def observe(self):
        if self.failed:
            return {"outs": [], "ins": [], "listed": [], "conn": [], "active": False}
        slots = [s for s in self.server.slots if s.used and s.client is self.client]
        slots.sort(key=lambda s: s.serial)
        short = len(self.client.name) + 1
        return {"outs": [s.name[short:] for s in slots if not s.is_input], "ins": [s.name[short:] for s in slots if s.is_input],
                "conn": [list(p) for p in self.server.pairs() if p[0].startswith(CLIENT + ":") or p[1].startswith(CLIENT + ":")],
                "listed": self.listed(), "active": self.client._active}

    def listed(self):
        """the names of the input ports, as they are returned by the library"""
        names, exc = guarded(self.jack.input_ports)
        return list(names) if exc is None else [exc]

    def log(self, op, exc=None, observe=True, **fields):
        e = {"op": op, "exc": exc or ""}
        e.update(fields)
        if observe:
            e.update(self.observe())
        self.trace["events"].append(e)

    # ------------------------------------------------------------ specifiers
    def specifier(self, p, inputs):
        if p[0] == "ext":
            return self.rng.choice([p[1], self.ext.get_port_by_name(p[1])]) if self.rng else p[1]
        i = p[1] - 1
        port = (self.client.inports if inputs else self.client.outports)[i]
        kind = self.rng.choice(["index", "short", "full", "object"])
        return {"index": i, "short": port.shortname, "full": port.name, "object": port}[kind]

    # ------------------------------------------------------------ operations
    def do(self, op, **k):
        if self.failed:
            return
        if self.pending is not None and op not in ("cycle", "shutdown", "xrun", "samplerate"):
            return
        try:
            getattr(self, "do_" + op)(**k)
        except (IndexError, StopIteration, ValueError, AttributeError) as e:
            # there are other ports than the ones, that the operation refers to
            self.log(op, type(e).__name__, **k)
            self.failed = True
            return
        self.poll(0.0 if self.pending is None else 0.004)

    def do_connect(self, a, b):
        r, exc = guarded(lambda: self.jack.connect(self.specifier(a, False), self.specifier(b, True)))
        if exc is None and r is not self.jack:
            exc = "connect must return the instance"
        self.log("connect", exc, a=list(a), b=list(b))

    def do_badconnect(self, a, b):
        _, exc = guarded(lambda: self.jack.connect(a, b))
        self.log("badconnect", exc)

    def do_disconnect(self, a, b):
        names = [self.specifier_name(a, False), self.specifier_name(b, True)]
        _, exc = guarded(self.ext.disconnect, *names)
        self.log("disconnect", exc, a=list(a), b=list(b))

    def do_extconnect(self, a, b):
        """another client connects the ports"""
        names = [self.specifier_name(a, False), self.specifier_name(b, True)]
        _, exc = guarded(self.ext.connect, *names)
        self.log("connect", exc, a=list(a), b=list(b))

    def specifier_name(self, p, inputs):
        return p[1] if p[0] == "ext" else (self.client.inports if inputs else self.client.outports)[p[1] - 1].name

    def do_add(self, name):
        r, exc = guarded(self.jack.add_input_port, name)
        self.log("add", exc, name=name)

    def do_remove(self, i):
        port = self.client.inports[i - 1]
        spec = self.rng.choice([i - 1, port.shortname, port.name, port])
        _, exc = guarded(self.jack.remove_input_port, spec)
        self.log("remove", exc, i=i)

    def do_activate(self):
        _, exc = guarded(self.jack.activate)
        self.log("activate", exc)

    def do_deactivate(self):
        _, exc = guarded(self.jack.deactivate)
        self.log("deactivate", exc)

    def do_start(self):
        """starts a recording. If there is none in progress, the server might run cycles, while the method is executed"""
        if self.idle and self.rng.random() < 0.5:
            points = {self.rng.randrange(1, 3)} | ({self.rng.randrange(2, 6)} if self.rng.random() < 0.3 else set())
            count = [0]

            def hook(_):
                count[0] += 1
                if count[0] in points:
                    self.server.hook = None
                    self.do_cycle(self.rng.choice((self.server.blocksize, 1, 2, 3)), op="midcycle")
                    self.server.hook = hook
            self.server.hook = hook
        _, exc = guarded(self.jack.start)
        self.server.hook = None
        self.idle = False
        self.log("start", exc)

    def do_input(self, sig):
        self.call("input", lambda: self.jack.input(self.objects[sig - 1]), sig=sig)

    def do_output(self):
        self.call("output", self.jack.output)

    def do_auto(self, auto):
        self.call("auto", lambda: self.jack.auto_deactivate(auto), auto=auto)

    def do_run(self):
        """a whole recording"""
        self.do_start()
        for _ in range(6):
            self.do_cycle(2)

    def do_cycle(self, frames, op="cycle"):
        samples = {}
        for n in ("ext:out", "ext:x", "ext:in2"):
            self.counter += 1
            samples[n] = numpy.array([1000 * (self.counter % 500) + j + 1 for j in range(frames)], dtype=numpy.float32)
        n = len(self.server.exceptions)
        result = self.server.cycle(frames, samples).get(self.client.name)
        exc = self.server.exceptions[n] if len(self.server.exceptions) > n else None
        called = result is not None
        result = sorted(result or [], key=lambda r: r[2])
        self.log(op, exc, observe=self.pending is None and op == "cycle", frames=frames, called=called,
                 out=[[enc(v) for v in r[3]] for r in result if not r[1]],
                 inp=[[enc(v) for v in r[3]] for r in result if r[1]])

    def do_shutdown(self):
        self.idle = False
        guarded(self.client._shutdown, jack.Status(1), "shutdown")
        self.log("shutdown", observe=False)

    def do_xrun(self, usecs=1500.0):
        _, exc = guarded(self.client._xrun, usecs)
        (count, x), exc2 = guarded(self.jack.xruns)
        self.log("xrun", exc or exc2, usecs=int(usecs), count=count, start=int(x.start), stop=int(x.stop), delay=enc(x.delay, 1e6),
                 frames=self.server.blocksize, observe=False)

    def do_samplerate(self, value):
        self.server.samplerate = value
        _, exc = guarded(self.client._samplerate, value)
        got, exc2 = guarded(self.jack.sampling_rate)
        self.log("samplerate", exc or exc2, rate=[value, 1], got=rate(got) if exc2 is None else [0, 1], observe=False)

    # ------------------------------------------------------------ waiting methods
    def call(self, name, function, **fields):
        box = {}

        def target():
            try:
                box["r"] = function()
            except BaseException as e:     # pylint: disable=broad-except
                box["exc"] = type(e).__name__
        thread = threading.Thread(target=target, daemon=True)
        self.pending = (name, thread, box, fields)
        thread.start()
        thread.join(0.01)
        if thread.is_alive():
            self.trace["events"].append({"op": "call", "name": name, "exc": ""})
        else:
            self.returned()

    def poll(self, seconds):
        if self.pending is not None:
            self.pending[1].join(seconds)
            if not self.pending[1].is_alive():
                self.returned()

    def returned(self):
        name, _, box, fields = self.pending
        self.pending = None
        self.idle = name in ("output", "input") or self.idle
        fields = dict(fields)
        exc = box.get("exc")
        if name == "output":
            fields["out"] = nothing()
            fields["samplerate"] = rate(self.server.samplerate)
            if exc is None:
                out, exc = guarded(from_sumpf, box["r"])
                fields["out"] = out or nothing()
        elif exc is None and box["r"] is not self.jack:
            exc = name + " must return the instance"
        self.log("return", exc, name=name, **fields)

    def finish(self):
        """lets the server run, until no method is waiting anymore"""
        for _ in range(4):
            if self.pending is None:
                break
            if not self.client._active:
                guarded(self.client.activate)
                # the harness re-activates the client through the library, which is possible from another thread
                _, exc = guarded(self.jack.activate)
                self.log("activate", exc, observe=False)
            for _ in range(12):
                if self.pending is None:
                    break
                if not self.client._active:
                    break
                self.do_cycle(4)
                self.poll(0.005)
            self.poll(0.05)
        if self.pending is not None:
            self.poll(10.0)
        if self.pending is not None:
            self.log("hang", name=self.pending[0], observe=False)
            self.hung = True
        return self.trace


def replay(history, pool, rng):
    first = history[0]
    d = Driver(pool, first["sig"], first["auto"], first["ins"], rng)
    return d, history[1:]
