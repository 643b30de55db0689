"""C04: the ports and connections of sumpf.Jack. Replays the histories of spec/JackMC (menu "ports") and random
histories on sumpf.Jack and validates the observations with spec/JackTrace."""
from .jackdriver import Driver, MC_POOL, mk
from .common import Check


class JackPortsCheck(Check):
    id = "C04"
    assumptions = ("the JACK server and its Python wrapper behave like harness/fakejack.py (JACK2 semantics)",
                   "process callbacks are atomic with respect to the calls of the methods, that change ports and connections")

    def replay(self, history):
        first = history[0]
        d = Driver(MC_POOL, first["sig"], first["auto"], first["ins"], self.rng)
        for e in history[1:]:
            d.do(e["op"], **{k: v for k, v in e.items() if k != "op"})
        return d.finish()

    LABELS = ("", "x", "in", "a", "b", "out", "output_1", "output_2", "left", "k:x", "c d", "ä")

    def random_trace(self):
        rng = self.rng
        pool = [mk(rng.randint(1, 4), rng.randint(0, 6), rng.randint(-5, 5), []) for _ in range(4)]
        for d in pool:
            d["lab"] = [rng.choice(self.LABELS) for _ in range(d["nc"])]
        names = ["in", "a", "b", "left", "in2", "rec 1", "p:q"]
        if rng.random() < 0.4:    # names, that collide with those, that are generated for the output ports
            names = ["in", "output_1", "output_1_", "output_2", "output_2_", "output_1__"]
        ins = rng.sample(names, rng.randint(0, 3))
        d = Driver(pool, rng.randint(1, 4), rng.random() < 0.5, ins, rng)
        for _ in range(rng.randint(4, self.n(14, 30))):
            obs = d.observe()
            if d.pending:
                d.do("cycle", frames=rng.randint(1, 5))
                continue
            out, inn = len(obs["outs"]), len(obs["ins"])
            srcs = [["own", k + 1] for k in range(out)] + [["ext", "ext:out"], ["ext", "ext:x"]]
            dsts = [["own", k + 1] for k in range(inn)] + [["ext", "ext:in"], ["ext", "ext:a"]]
            op = rng.choice(["connect"] * 5 + ["add", "remove", "input", "input", "activate", "deactivate", "auto", "run", "ext", "ext", "bad"])
            if op in ("connect", "ext"):
                a, b = rng.choice(srcs), rng.choice(dsts)
                if a[0] == "ext" and b[0] == "ext":
                    continue
                if op == "connect":
                    d.do("connect", a=a, b=b)
                elif obs["active"]:
                    pair = [d.specifier_name(a, False), d.specifier_name(b, True)]
                    if obs["conn"] and rng.random() < 0.6:
                        pair = rng.choice(obs["conn"])
                        a = ["ext", pair[0]] if pair[0].startswith("ext:") else ["own", obs["outs"].index(pair[0][2:]) + 1]
                        b = ["ext", pair[1]] if pair[1].startswith("ext:") else ["own", obs["ins"].index(pair[1][2:]) + 1]
                    d.do("disconnect" if pair in obs["conn"] else "extconnect", a=a, b=b)
            elif op == "add":
                free = [n for n in names if n not in obs["ins"] and n not in obs["outs"]]
                if free:
                    d.do("add", name=rng.choice(free))
            elif op == "remove":
                if inn:
                    d.do("remove", i=rng.randint(1, inn))
            elif op == "input":
                d.do("input", sig=rng.randint(1, 4))
            elif op == "auto":
                d.do("auto", auto=rng.random() < 0.5)
            elif op == "bad":
                d.do("badconnect", a=rng.choice(["nonexistent", "ext:nonexistent", 99]), b=rng.choice(["ext:in", "nothing"]))
            else:
                d.do(op)
        return d.finish()

    def run(self):
        histories = self.model("JackMC", env={"MENU": "ports", "DEPTH": self.n(3, 4)}).printed("HIST")
        self.notes["histories_enumerated"] = len(histories)
        if len(histories) > self.n(6000, 40000):
            histories = self.rng.sample(histories, self.n(6000, 40000))
        traces = [self.replay(h) for h in histories]
        traces += [self.random_trace() for _ in range(self.n(800, 8000))]
        self.validate("JackTrace", traces)


CHECK = JackPortsCheck
