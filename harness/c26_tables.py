"""C26: tables and dictionaries of other programs. Writes all documents of spec/TablesMC and random ones in many notations, loads
them with sumpf and validates the results with spec/TablesTrace."""
import csv
import decimal
import json
import os
import shutil
import tempfile
import numpy
import sumpf
from .common import Check, guarded, rate

MISSING = ["nan", "0.0"]
SIGNIFICANT = 12


def canonical(x):
    return repr(float(x) + 0.0)


def value(x):
    """a number as in spec/Tables"""
    return [canonical(numpy.real(x)), canonical(numpy.imag(x))]


def number(v):
    return complex(float(v[0]), float(v[1]))


class TablesCheck(Check):
    id = "C26"
    assumptions = ("the notations of the numbers are rendered by the harness", "a text without commas cannot be read as CSV", "CSV tables for bands have a header or at least one value")

    # ------------------------------------------------------------ rendering
    def real(self, text, leading_dot=True):
        """one of the notations of a real number"""
        x = float(text)
        if not numpy.isfinite(x):
            return self.rng.choice((text, text.upper(), text.capitalize() if text[0] != "-" else text))
        candidates = [repr(x), f"{x:.{SIGNIFICANT}e}", f"{x:.{SIGNIFICANT}E}", f"{x:.17g}"]
        d = decimal.Decimal(repr(x))
        shift = self.rng.randint(-4, 4)
        mantissa = format(d.scaleb(-shift), "f")
        if "." in mantissa:
            mantissa = mantissa.rstrip("0")     # leaves a point behind an integer
        candidates += [f"{mantissa}{e}{sign}{abs(shift)}" for e in "eE" for sign in (("-",) if shift < 0 else ("", "+"))]
        candidates.append(mantissa if shift == 0 else repr(x))
        if x == int(x) and abs(x) < 1e9:
            candidates += [str(int(x)), str(int(x)) + "."]
        s = self.rng.choice([c for c in candidates if float(c) == x])
        if leading_dot and "0." in s and s.lstrip("-").startswith("0.") and not s.endswith("0.") and s.lstrip("-")[2].isdigit() and self.rng.random() < 0.5:
            s = s.replace("0.", ".", 1)
        if float(s) != x:
            raise RuntimeError("the notation %r does not represent %r" % (s, x))
        return s

    def signed(self, text):
        """the sign and the notation of the absolute value"""
        return ("-", self.real(text[1:])) if text.startswith("-") else ("+", self.real(text))

    def table_value(self, v):
        """a value in a text table"""
        rng = self.rng
        if v == MISSING:
            return rng.choice(("nan", "NaN", "nan", "{NaN,NaN}", "{nan, nan}"))
        if v[1] == "0.0" and rng.random() < 0.8:
            return self.real(v[0])
        sign, imag = self.signed(v[1])
        unit = rng.choice("jJiI")
        style = rng.randrange(3)
        if style == 0:
            return f"{self.real(v[0])}{sign}{imag}{unit}"
        if style == 1:
            space = rng.choice(("", " "))
            return f"({self.real(v[0])}{space}{sign}{space}{imag}{unit})"
        minus = "-" if sign == "-" else ""
        return f"{{{self.real(v[0])}{rng.choice(('', ' '))},{rng.choice(('', ' '))}{minus}{imag}}}"

    def csv_value(self, v, cplx):
        if not cplx:
            return self.real(v[0])
        if v == MISSING:
            return ""
        if v[1] == "0.0" and self.rng.random() < 0.5:
            return self.real(v[0])
        sign, imag = self.signed(v[1])
        s = f"{self.real(v[0])}{sign}{imag}{self.rng.choice('jJ')}"
        return self.rng.choice((s, f"({s})"))

    def text_table(self, doc, path):
        rng = self.rng
        separator = rng.choice(("\t", " ", "|", " | ", "  ", "\t\t") + ((",", ", ") if doc["text"] else ()))
        lines = []
        for r in doc["rows"]:
            while rng.random() < 0.2:
                lines.append(rng.choice(("# 1 2 3", "; a comment", "", "   ", "  # 12 5", "\t")))
            t = rng.choice(("nan", "NaN")) if r["t"] == "nan" else self.real(r["t"], leading_dot=False)
            line = separator.join([t] + [self.table_value(v) for v in r["v"]])
            line = rng.choice(("", "", " ", "\t")) + line + rng.choice(("", "", " ", " # 7 8", "; 3.0", "#1"))
            lines.append(line)
        if not doc["text"]:
            lines.insert(rng.randint(0, len(lines)), rng.choice(("f", "x 1 2", "-100 1", "f\t1.0", "- 1", "(1+2j) 3")))
        with open(path, "w", newline="") as f:
            f.write(rng.choice(("\n", "\n", "\r\n")).join(lines) + rng.choice(("", "\n")))

    def csv_table(self, doc, path):
        rng = self.rng
        kind = doc["kind"]
        rows = []
        if doc["header"]:
            rows.append([{"signal": "time", "spectrum": "frequency", "csvbands": "frequency"}[kind]] + doc["header"][0])
        for r in doc["rows"]:
            t = r["t"] if kind == "csvbands" else canonical(r["t"] * doc["unit"][0] / doc["unit"][1])
            rows.append([self.real(t)] + [self.csv_value(v, kind != "signal") for v in r["v"]])
        with open(path, "w", newline="") as f:
            csv.writer(f, lineterminator=rng.choice(("\n", "\r\n")), quoting=rng.choice((csv.QUOTE_MINIMAL, csv.QUOTE_ALL, csv.QUOTE_MINIMAL))).writerows(rows)

    def npy_table(self, doc, path):
        t = [r["t"] * doc["unit"][0] / doc["unit"][1] for r in doc["rows"]]
        values = numpy.array([[number(v) for v in r["v"]] for r in doc["rows"]]).transpose()
        if doc["kind"] == "signal" or self.rng.random() < 0.3 and not values.imag.any():
            values = values.real
        array = numpy.array([t] + list(values))
        if self.rng.random() < 0.3:
            array = numpy.asfortranarray(array)
        numpy.save(path, array)

    def dictionary(self, doc, path):
        rng = self.rng
        m = doc["meta"]
        nc = len(m["lab"])
        shape = {"signal": (nc, 3), "spectrum": (nc, 3), "spectrogram": (nc, 2, 3)}[doc["type"]]
        channels = numpy.array([rng.randint(-99, 99) for _ in range(int(numpy.prod(shape)))]).reshape(shape)
        if doc["type"] != "signal":
            channels = channels + 1j * numpy.array([rng.randint(-99, 99) for _ in range(int(numpy.prod(shape)))]).reshape(shape)
        every = {"sampling_rate": m["sr"][0] / m["sr"][1], "resolution": m["res"][0] / m["res"][1], "offset": m["off"], "labels": m["lab"]}
        data = {k: every[k] for k in doc["keys"]}
        data["channels"] = channels
        if rng.random() < 0.3:
            data["comment"] = "other"
        keys = list(data)
        rng.shuffle(keys)
        data = {k: data[k] for k in keys}
        if doc["format"] == "npz":
            rng.choice((numpy.savez, numpy.savez_compressed))(path, **data)
        else:
            data["channels"] = channels.tolist() if doc["type"] == "signal" else [{"imaginary": c.imag.tolist(), "real": c.real.tolist()} for c in channels]
            with open(path, "w") as f:
                json.dump(data, f, indent=rng.choice((None, 2)))
        return channels

    # ------------------------------------------------------------- recording
    def event(self, doc):
        path = os.path.join(self.tmp, doc["file"])
        channels = None
        if doc["kind"] == "dict":
            channels = self.dictionary(doc, path)
        elif doc["kind"] == "bands":
            self.text_table(doc, path)
        elif doc["format"] == "npy":
            self.npy_table(doc, path)
        else:
            self.csv_table(doc, path)
        cls = {"signal": sumpf.Signal, "spectrum": sumpf.Spectrum, "spectrogram": sumpf.Spectrogram, "bands": self.rng.choice((sumpf.Bands, sumpf.Filter)),
               "csvbands": sumpf.Bands}[doc["type"] or doc["kind"]]
        out = {}
        x, exc = guarded(cls.load, path)
        if exc is None:
            out, exc = guarded(self.observe, doc, x, channels)
        os.unlink(path)
        return {"doc": doc, "exc": exc or "", "out": out or {}}

    def observe(self, doc, x, channels):
        kind = doc["kind"]
        if kind in ("bands", "csvbands"):
            tfs = x.transfer_functions()
            return {"lab": list(x.labels()), "ch": [[[canonical(f), value(y)] for f, y in zip(tf.xs, tf.ys)] for tf in tfs]}
        if kind == "dict":
            return {"same": x.channels().shape == channels.shape and bool((x.channels() == channels).all()), "lab": list(x.labels()),
                    "sr": rate(x.sampling_rate()) if doc["type"] != "spectrum" else [0, 1], "res": rate(x.resolution()) if doc["type"] != "signal" else [0, 1],
                    "off": int(x.offset()) if doc["type"] != "spectrum" else 0}
        return {"rate": rate(x.sampling_rate() if kind == "signal" else x.resolution()), "off": int(x.offset()) if kind == "signal" else 0,
                "lab": list(x.labels()), "ch": [[value(s) for s in c] for c in x.channels()]}

    # ----------------------------------------------------- random documents
    def random_real(self):
        rng = self.rng
        return canonical(rng.choice((rng.randint(-20, 20), rng.randint(-9999, 9999) / 1000.0, rng.randint(-99, 99) * 10.0 ** rng.randint(-12, 12))))

    def random_value(self, cplx=True, missing=False, infinite=False):
        rng = self.rng
        if missing and rng.random() < 0.2:
            return list(MISSING)
        v = [self.random_real(), self.random_real() if cplx and rng.random() < 0.6 else "0.0"]
        if infinite and rng.random() < 0.05:
            v[rng.randrange(2 if cplx else 1)] = rng.choice(("inf", "-inf"))
        return v

    def some(self, items, most):
        """between one and ``most`` of the given items"""
        return self.rng.sample(items, self.rng.randint(1, min(most, len(items))))

    def random_labels(self, n):
        return [self.rng.choice(("a", "", "left, right", "\"x\"", "1.5", "é")) + str(i) for i in range(n)]

    def random_document(self):
        rng = self.rng
        kind = rng.choice(("signal", "spectrum", "bands", "bands", "csvbands", "dict"))
        doc = {"kind": kind, "format": "csv", "unit": [1, 1], "rows": [], "header": [], "keys": [], "type": "",
               "meta": {"sr": [1, 1], "res": [1, 1], "off": 0, "lab": []}, "text": True}
        nc = rng.randint(1, 4)
        if kind in ("signal", "spectrum"):
            doc["format"] = rng.choice(("csv", "csv", "npy"))
            doc["unit"] = rng.choice(([1, 2 ** rng.randint(0, 9)], [2 ** rng.randint(0, 9), 1], [5, 8], [3, 1], [1, 10], [100, 1], [1, 100]))
            n = rng.randint(2, 12)
            first = rng.randint(-6, 6) if kind == "spectrum" else rng.randint(-30, 30)
            doc["rows"] = [{"t": first + i, "v": [self.random_value(kind == "spectrum") for _ in range(nc)]} for i in range(n)]
            style = rng.random()
            if style < 0.4:
                rng.shuffle(doc["rows"])
            elif style < 0.6:
                doc["rows"].reverse()
            if doc["format"] == "csv" and rng.random() < 0.6:
                doc["header"] = [self.random_labels(rng.choice((nc, nc, nc + 1, max(1, nc - 1))))]
        elif kind == "dict":
            doc["format"] = rng.choice(("json", "npz"))
            doc["type"] = rng.choice(("signal", "spectrum", "spectrogram"))
            doc["keys"] = [k for k in ("sampling_rate", "resolution", "offset", "labels") if rng.random() < 0.6]
            doc["meta"] = {"sr": [rng.randint(1, 9000), rng.choice((1, 4))], "res": [rng.randint(1, 99), rng.choice((1, 8))], "off": rng.randint(-9, 9), "lab": self.random_labels(nc)}
        else:
            frequencies = self.some(sorted({canonical(rng.choice((rng.randint(0, 20000), rng.randint(1, 99999) / 10.0, 10.0 ** rng.randint(-2, 6)))) for _ in range(12)}), 8)
            if kind == "bands":
                doc["format"] = rng.choice(("dat", "txt", "asc", "tab"))
                doc["rows"] = [{"t": "nan" if rng.random() < 0.05 else f,
                                "v": [self.random_value(rng.random() < 0.6, missing=True, infinite=True) for _ in range(rng.choice((nc, nc, rng.randint(0, nc))))]} for f in frequencies]
                doc["text"] = rng.random() < 0.95
            else:
                doc["rows"] = [{"t": f, "v": [self.random_value(missing=True) for _ in range(nc if i == 0 else rng.choice((nc, nc, rng.randint(1, nc))))]} for i, f in enumerate(frequencies)]
                if rng.random() < 0.6:
                    doc["header"] = [self.random_labels(nc)]
        doc["file"] = rng.choice(("t", "a b", "x.y", "1")) + "." + doc["format"]
        return doc

    def run(self):
        documents = self.model("TablesMC", env={"LINES": self.n(2, 3)}).printed("DOC")
        self.notes["documents_enumerated"] = len(documents)
        documents += [self.random_document() for _ in range(self.n(3000, 30000))]
        # a CSV file with neither a header nor a value cannot be told from other files
        documents = [d for d in documents if d["kind"] != "csvbands" or d["header"] or any(v != MISSING for r in d["rows"] for v in r["v"])]
        self.rng.shuffle(documents)
        self.tmp = tempfile.mkdtemp(prefix="c26_")
        try:
            events = [self.event(d) for d in documents]
        finally:
            shutil.rmtree(self.tmp)
        # short histories (the readers are remembered between the files)
        self.validate("TablesTrace", [{"events": events[i:i + 1]} for i in range(len(events))], chunks=self.n(8, 24))


CHECK = TablesCheck
