"""C15: every format, ending, shape and content: a data set is saved and loaded again; the recorded round trips are validated with
spec/PersistenceTrace."""
from .common import Check
from . import files


class SavingCheck(Check):
    id = "C15"
    kinds = ("signal", "spectrum", "spectrogram")

    def content(self, kind, fmt, ending):
        audio = files.is_audio(fmt) or (fmt == "AUTO" and ending not in (".csv", ".json", ".js", ".npz", ".npy", ".pickle"))
        if kind == "signal":
            return files.signal(self.rng, audio=audio)
        return files.GENERATORS[kind](self.rng)

    def round_trip(self, folder, x, name, fmt):
        """saves (twice in some cases: the last one wins) and loads"""
        k = files.kind(x)
        rng = self.rng
        if rng.random() < 0.2:
            folder.save(self.content(k, fmt, ""), name, fmt)
        folder.save(x, name, fmt)
        y = folder.load(name, k)
        if type(y) is not type(None) and folder.events[-1]["exc"] == "" and rng.random() < 0.2 and not files.is_audio(fmt):
            # what has been loaded can be saved in any other format again
            kind = files.kind(y)
            other = rng.choice([f for f in files.formats(kind) if not files.is_audio(f)])
            name2 = "again" + rng.choice(files.endings(other))
            folder.save(y, name2, other)
            folder.load(name2, kind)

    def run(self):
        traces = []
        r = self.model("PersistenceMC", env={"MAXOPS": 1})
        pairs = [p for p in r.printed("PAIR") if p["kind"] in self.kinds]
        with files.Folder(self.rng) as folder:
            def record():
                traces.append(folder.trace())
                folder.clear()
            # all pairs of formats and endings
            for p in pairs:
                self.round_trip(folder, self.content(p["kind"], p["fmt"], p["ending"]), "file" + p["ending"], p["fmt"])
                record()
            # all formats with random contents
            for _ in range(self.n(8, 150)):
                for k in self.kinds:
                    for fmt in files.formats(k):
                        self.round_trip(folder, self.content(k, fmt, ""), "some file" + self.rng.choice(files.endings(fmt)), fmt)
                        record()
            # the known limitations of libsndfile
            folder.save(files.signal(self.rng, True, (1, 0)), "empty.flac", "AUTO")
            record()
            folder.save(files.signal(self.rng, True, (1, 3)), "odd.aiff", "AIFF_UINT8")
            folder.load("odd.aiff", "signal")
            record()
            # large data sets
            for k, shapes in (("signal", ((1, 1001), (2, 3000), (300, 4))), ("spectrum", ((1, 1025), (3, 600), (200, 3))),
                              ("spectrogram", ((1, 40, 33), (2, 3, 400), (1, 600, 2)))):
                for fmt in [f for f in files.formats(k) if not files.is_audio(f)]:
                    for shape in self.rng.sample(shapes, self.n(1, 3)):
                        folder.save(files.GENERATORS[k](self.rng, shape=shape), "large" + self.rng.choice(files.endings(fmt)), fmt)
                        folder.load(folder.events[-1]["path"], k)
                        record()
            # long signals (the files are written and read in chunks)
            for fmt in [f for f in files.formats("signal") if files.is_audio(f)]:
                for shape in self.rng.sample([(1, 2048), (2, 2047), (1, 2049), (3, 4096), (2, 5000), (1, 4097)], self.n(1, 6)):
                    folder.save(files.signal(self.rng, True, shape), "long" + self.rng.choice(files.endings(fmt)), fmt)
                    folder.load(folder.events[-1]["path"], "signal")
                    record()
        self.validate("PersistenceTrace", traces)

    def classify(self, clause, trace, info):
        e = trace["events"][info.get("step", 1) - 1]
        if e["op"] == "save" and clause.startswith("save: the file does not have the format FLAC") and e["exc"] == "" and e["d"]["shape"][1] == 0:
            return "empty-flac"
        if clause.endswith(": shape") and e["op"] == "load" and e["r"]["shape"][0] == 1:
            saved = [x for x in trace["events"][:info["step"]] if x["op"] == "save" and x["path"] == e["path"]][-1]
            n = saved["d"]["shape"][1]
            if any(clause == f"load of {f}: shape" for f in ("AIFF_UINT8", "AIFF_INT8", "AIFF_ULAW", "AIFF_ALAW")) and n % 2 == 1 and e["r"]["shape"][1] == n + 1:
                return "odd-8-bit-aiff"
        return None


CHECK = SavingCheck
