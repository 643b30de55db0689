"""C16: histories of saving, loading, damaging and removing files with arbitrary endings; the recorded histories are validated with
spec/PersistenceTrace. All histories run in the same process, so that they share everything, that the library remembers; each load is also
repeated in a fresh process. A part of the histories runs without the soundfile library."""
from .common import Check
from . import files

UNKNOWN = (".xyz", "", ".WAV", ".Json", ".doc", ".txt.bak", ".")


class FormatCheck(Check):
    id = "C16"
    ENDINGS = (".json", ".js", ".pickle", ".npz", ".npy", ".csv", ".wav", ".aiff", ".aifc", ".aif", ".flac", ".ogg", ".oga", ".txt", ".dat", ".asc", ".tab")

    def data(self, kind):
        if kind == "signal":
            # (saving signals without samples or with a single channel with 8 bits per sample is covered by the check of C15)
            x = files.signal(self.rng, audio=True, shape=(self.rng.choice((1, 1, 2, 3)), self.rng.choice((2, 4, 6))))
            return x if x.length() % 2 == 0 and len(x) <= 8 else files.signal(self.rng, audio=True, shape=(1, 2))
        return files.GENERATORS[kind](self.rng)

    def replay(self, folder, case):
        names = ["file" + e for e in case["e"]]
        kind = case["kind"]
        for op in case["hist"]:
            name = names[op["p"] - 1]
            if op["op"] == "save":
                folder.save(self.data(kind), "1" + name if op["p"] == 1 else name, op["fmt"])
            elif op["op"] == "load":
                folder.load("1" + name if op["p"] == 1 else name, kind)
            else:
                folder.damage("1" + name if op["p"] == 1 else name)

    def random(self, folder):
        rng = self.rng
        names = [f"{i}{rng.choice(self.ENDINGS if rng.random() < 0.85 else UNKNOWN)}" for i in range(rng.randint(2, 5))]
        kinds = rng.sample(sorted(files.CLASSES), rng.choice((1, 1, 2, 5)))
        content = {}
        for _ in range(rng.randint(4, 20)):
            name = rng.choice(names)
            r = rng.random()
            if r < 0.42:
                kind = rng.choice(kinds)
                x = self.data(kind)
                fmt = "AUTO" if rng.random() < 0.5 else rng.choice(files.formats(kind))
                exc = folder.save(x, name, fmt, missing=rng.random() < 0.04)
                if exc is None:
                    content[name] = kind
            elif r < 0.87:
                kind = content.get(name, rng.choice(kinds)) if rng.random() < 0.75 else rng.choice(kinds)
                folder.load(name, kind)
            elif r < 0.96:
                folder.damage(name)
            else:
                folder.remove(name)

    def long(self, folder):
        """a history of saving and loading signals of different sizes with the same writer and reader (audio files are written and read in chunks)"""
        rng = self.rng
        formats = rng.choice((["WAV_INT16"], ["WAV_UINT8"], ["WAV_INT32"], ["AIFF_INT16"], ["AIFF_INT32"], ["WAV_FLOAT32"], ["AUTO"],
                              rng.sample(["WAV_INT16", "WAV_INT24", "WAV_INT32", "WAV_UINT8", "AUTO"], 2)))
        ending = ".aiff" if formats[0].startswith("AIFF") else ".wav"
        shapes = [(rng.choice((2, 3)), 4), (1, rng.choice((2048, 2050, 2500))), (rng.choice((1, 2)), 2)]
        rng.shuffle(shapes)
        for i, shape in enumerate(shapes):
            name = f"long{rng.choice((0, i))}{ending}"
            folder.save(files.signal(rng, audio=True, shape=shape), name, rng.choice(formats))
            folder.load(name, "signal")

    def histories(self, cases, n):
        traces = []
        with files.Fresh() as fresh, files.Folder(self.rng, fresh) as folder:
            for c in cases:
                self.replay(folder, c)
                traces.append(folder.trace())
                folder.clear()
            for _ in range(n):
                self.random(folder)
                traces.append(folder.trace())
                folder.clear()
            for _ in range(self.n(5, 40)):
                self.long(folder)
                traces.append(folder.trace())
                folder.clear()
        return traces

    def run(self):
        r = self.model("PersistenceMC", env={"MAXOPS": self.n(3, 4)})
        cases = r.printed("HISTORY")
        self.rng.shuffle(cases)
        cases = cases[:self.n(900, 8000)]
        n = self.n(150, 3000)
        files.silence()
        traces = files.without_soundfile(lambda: self.histories(cases[:len(cases) // 4], n // 3))
        traces += self.histories(cases, n)
        self.validate("PersistenceTrace", traces)


CHECK = FormatCheck
