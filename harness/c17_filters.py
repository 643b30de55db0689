"""C17: every format, ending, term tree and table of support points: a filter is saved and loaded again or its representation is evaluated; the
recorded round trips are validated with spec/PersistenceTrace."""
import numpy
import sumpf
from .common import Check
from . import files, c15_saving


class FilterSavingCheck(c15_saving.SavingCheck):
    id = "C17"
    kinds = ("filter", "bands")

    def content(self, kind, fmt, ending):
        return files.GENERATORS[kind](self.rng)

    def run(self):
        traces = []
        r = self.model("PersistenceMC", env={"MAXOPS": 1})
        pairs = [p for p in r.printed("PAIR") if p["kind"] in self.kinds]
        files.silence()
        with files.Folder(self.rng) as folder:
            def record():
                traces.append(folder.trace())
                folder.clear()
            for p in pairs:
                self.round_trip(folder, self.content(p["kind"], p["fmt"], p["ending"]), "file" + p["ending"], p["fmt"])
                record()
            # all kinds of terms: every class, transformed and not, nested in every other one
            for x in files.term_catalogue(self.rng):
                f = sumpf.Filter(transfer_functions=(x,), labels=files.labels(self.rng, 1))
                folder.representation(f)
                folder.save(f, "f.json", "TEXT_JSON")
                folder.load("f.json", "filter")
                record()
            # large tables
            for size in (300, self.rng.choice((1001, 1200))):
                for fmt in files.formats("bands"):
                    x = files.bands(self.rng, size)
                    folder.save(x, "large" + self.rng.choice(files.endings(fmt)), fmt)
                    folder.load(folder.events[-1]["path"], "bands")
                    record()
                x = files.bands(self.rng, size)
                folder.representation(x)
                record()
                # the same as terms of a general filter and arrays with many coefficients
                t = x.transfer_functions()[0]
                y = sumpf.Filter.Polynomial(numpy.array([self.rng.randint(-99, 99) / 8 for _ in range(size)]), transform=self.rng.random() < 0.5)
                for terms in ((t,), (y,), (t / (sumpf.Filter.Constant(2.0) + t), -y, y * t)):
                    f = sumpf.Filter(transfer_functions=terms, labels=files.labels(self.rng, len(terms)))
                    folder.representation(f)
                    record()
                    fmt = self.rng.choice(files.formats("filter"))
                    folder.save(f, "large" + self.rng.choice(files.endings(fmt)), fmt)
                    folder.load(folder.events[-1]["path"], "filter")
                    record()
            for _ in range(self.n(60, 2000)):
                for k in self.kinds:
                    x = self.content(k, "", "")
                    if self.rng.random() < 0.5:
                        folder.representation(x)
                        record()
                    fmt = self.rng.choice(files.formats(k))
                    self.round_trip(folder, x, "some file" + self.rng.choice(files.endings(fmt)), fmt)
                    record()
        self.validate("PersistenceTrace", traces)

    def classify(self, clause, trace, info):
        return None


CHECK = FilterSavingCheck
