"""C03: playback and recording of sumpf.Jack. Replays the histories of spec/JackMC (menu "audio") and random
schedules of process callbacks on sumpf.Jack and validates the observations with spec/JackTrace."""
from .jackdriver import Driver, MC_POOL, mk
from .common import Check


class JackAudioCheck(Check):
    id = "C03"
    assumptions = ("the JACK server and its Python wrapper behave like harness/fakejack.py (JACK2 semantics)",
                   "process callbacks are atomic with respect to the other methods")

    def replay(self, history):
        first = history[0]
        d = Driver(MC_POOL, first["sig"], first["auto"], first["ins"], self.rng)
        d.do("connect", a=["own", 1], b=["own", 1])
        d.do("connect", a=["ext", "ext:out"], b=["own", 2])
        for e in history[1:]:
            if e["op"] == "input" and MC_POOL[e["sig"] - 1]["nc"] < 1:
                continue
            d.do(e["op"], **{k: v for k, v in e.items() if k != "op"})
        if not d.pending:
            d.do("output")
        return d.finish()

    def random_trace(self):
        rng = self.rng
        big = rng.random() < 0.1
        pool = [mk(rng.randint(1, 3), rng.randint(0, 60 if big else 12), rng.randint(-5, 5), [f"s{k}" for k in range(3)]) for _ in range(3)]
        for d in pool:
            d["lab"] = d["lab"][:d["nc"]]
        ins = [f"r{k}" for k in range(rng.randint(0, 3))]
        d = Driver(pool, rng.randint(1, 3), rng.random() < 0.5, ins, rng, samplerate=rng.choice((44100, 48000)))
        for k in range(len(ins)):
            for _ in range(rng.randint(1, 2)):
                d.do("connect", a=rng.choice([["own", rng.randint(1, max(1, len(d.observe()["outs"])))], ["ext", "ext:out"], ["ext", "ext:x"]]), b=["own", k + 1])
        frames = rng.randint(1, 16 if big else 5)
        shutdown = rng.random() < 0.06
        running = False
        for _ in range(rng.randint(4, self.n(16, 40))):
            op = rng.choice(["cycle"] * 8 + ["start", "start", "output", "input", "auto", "xrun", "deactivate", "blocksize", "ports", "rate"])
            if d.pending and op != "blocksize":
                op = "cycle"
            if op == "cycle":
                d.do("cycle", frames=frames)
            elif op == "blocksize":
                frames = rng.randint(1, 16 if big else 5)
            elif op == "start":
                d.do("start")
                running = True
            elif op == "input":
                d.do("input", sig=rng.randint(1, 3))
            elif op == "output":
                d.do("output")
                running = running and d.pending is not None
            elif op == "auto":
                d.do("auto", auto=rng.random() < 0.5)
            elif op == "xrun":
                d.do("xrun", usecs=float(rng.randint(1, 5000)))
            elif op == "deactivate":
                d.do("deactivate")
                if running:
                    d.do("activate")
            elif op == "ports" and not running:
                # the configuration is changed after the recording
                names = d.observe()["ins"]
                if names and rng.random() < 0.5:
                    d.do("remove", i=rng.randint(1, len(names)))
                else:
                    free = [n for n in ("q1", "q2", "q3") if n not in names]
                    if free:
                        d.do("add", name=rng.choice(free))
            elif op == "rate" and not running:
                d.do("samplerate", value=rng.choice((32000, 44100, 96000)))
            if shutdown and d.pending:
                d.do("shutdown")
                d.poll(5.0)
                if d.pending:
                    d.log("hang", name=d.pending[0], observe=False)
                    d.hung = True
                return d.trace
        if not d.pending:
            d.do("output")
        return d.finish()

    def run(self):
        histories = self.model("JackMC", env={"MENU": "audio", "DEPTH": self.n(4, 6)}).printed("HIST")
        self.notes["histories_enumerated"] = len(histories)
        limit = self.n(1200, 20000)
        if len(histories) > limit:
            histories = self.rng.sample(histories, limit)
        traces, hangs = [], 0
        for make in [lambda h=h: self.replay(h) for h in histories] + [self.random_trace] * self.n(700, 8000):
            t = make()
            traces.append(t)
            hangs += t["events"][-1]["op"] == "hang"
            if hangs > 2:
                break
        self.validate("JackTrace", traces)


CHECK = JackAudioCheck
