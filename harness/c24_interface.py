"""C24: the parameters of all callables, their order and their defaults. All ways of passing arguments, that spec/InterfaceMC enumerates, are
performed with the real code and the recorded results are validated with spec/InterfaceTrace."""
import os
import shutil
import tempfile
import numpy
import sumpf
from .common import Check, guarded
from .data import kind, label

FLAGS = {"convolution_modes": lambda: sumpf.Signal.convolution_modes, "shift_modes": lambda: sumpf.Signal.shift_modes,
         "spectrogram_shift_modes": lambda: sumpf.Spectrogram.shift_modes, "merge_modes": lambda: sumpf.Merge.modes,
         "interpolations": lambda: sumpf.Bands.interpolations, "flat_top": lambda: sumpf.FlatTopWindow.functions, "nuttall": lambda: sumpf.NuttallWindow.functions,
         "signal_formats": lambda: sumpf.Signal.file_formats, "spectrum_formats": lambda: sumpf.Spectrum.file_formats,
         "spectrogram_formats": lambda: sumpf.Spectrogram.file_formats, "filter_formats": lambda: sumpf.Filter.file_formats,
         "bands_formats": lambda: sumpf.Bands.file_formats}
TERMS = ("Absolute", "Negative", "Sum", "Product", "Difference", "Quotient", "Polynomial", "Exp", "Constant")
FREQUENCIES = numpy.array([0.0, 0.125, 3.0, 17.0, 160.0, 410.0, 1000.0, 5000.0, 20000.0])


class InterfaceCheck(Check):
    id = "C24"

    def __init__(self, *args, **kwargs):
        super().__init__(*args, **kwargs)
        self.results = {}       # callable -> list of different results
        self.known = {}         # cached results of explicit calls

    # ---------------------------------------------------------- the fixtures
    def prepare(self, tmp):
        rng = numpy.random.default_rng(self.rng.randint(0, 2 ** 31))
        signal = sumpf.Signal(channels=rng.uniform(0.5, 2.0, (2, 130)), sampling_rate=8.0, offset=3, labels=("one", "two"))
        long = sumpf.Signal(channels=rng.uniform(-2.0, 2.0, (1, 9000)), sampling_rate=8000.0)
        spectrum = sumpf.Spectrum(channels=rng.uniform(0.5, 2.0, (2, 65)) * 1j, resolution=0.5, labels=("one", "two"))
        spectrogram = sumpf.Spectrogram(channels=rng.uniform(0.5, 2.0, (2, 5, 65)), resolution=0.5, sampling_rate=2.0, offset=3, labels=("one", "two"))
        stft = long.short_time_fourier_transform(window=4096)
        bands = sumpf.Bands(bands={10.0: 1.0, 100.0: 2.0, 1000.0: 0.5}, labels=("one",))
        filter_ = sumpf.ButterworthFilter(cutoff_frequency=320.0, order=3)
        self.namespace = {"numpy": numpy, "sumpf": sumpf, "SIGNAL": signal, "SHORT": sumpf.Signal(channels=rng.uniform(0.5, 2.0, (2, 20)), sampling_rate=8.0),
                          "PATH": lambda name: os.path.join(tmp, name)}

        def saver(x):
            def save(*args, **kwargs):
                x.save(*args, **kwargs)
                data = []
                for name in sorted(os.listdir(tmp)):
                    with open(os.path.join(tmp, name), "rb") as f:
                        data.append(name.encode() + b":" + f.read())
                    os.unlink(os.path.join(tmp, name))
                return b"\n".join(data)
            return save
        window = sumpf.KaiserWindow(beta=4.0, length=64, sampling_rate=8.0)
        decay = sumpf.EnergyDecayCurve(sumpf.Signal(channels=numpy.exp(-numpy.arange(130) / 20.0) * signal.channels(), sampling_rate=8.0))
        sweep = sumpf.ExponentialSweep(start_frequency=20.0, stop_frequency=3000.0, sampling_rate=8000.0, length=1000)
        self.namespace["RESPONSE"] = sumpf.Signal(channels=rng.uniform(0.5, 2.0, (1, 1000)), sampling_rate=8000.0)
        # (the callables are looked up late)
        self.callables = {"to_db": lambda: bands.to_db, "from_db": lambda: bands.from_db, "spectrum": lambda: filter_.spectrum,
                          "fourier_transform": lambda: signal.fourier_transform, "short_time_fourier_transform": lambda: long.short_time_fourier_transform,
                          "inverse_short_time_fourier_transform": lambda: stft.inverse_short_time_fourier_transform,
                          "level_vs_time": lambda: signal.level_vs_time, "signal_level": lambda: signal.level, "spectrum_level": lambda: spectrum.level,
                          "convolve": lambda: signal.convolve, "correlate": lambda: signal.correlate,
                          "pad_signal": lambda: signal[:, 0:50].pad, "pad_spectrum": lambda: spectrum[:, 0:50].pad, "pad_spectrogram": lambda: spectrogram[:, :, 0:50].pad,
                          "shift_signal": lambda: signal.shift, "shift_spectrogram": lambda: spectrogram.shift,
                          "save_signal": lambda: saver(signal), "save_spectrum": lambda: saver(spectrum), "save_spectrogram": lambda: saver(spectrogram),
                          "save_filter": lambda: saver(filter_), "save_bands": lambda: saver(bands)}
        for name in ("mean", "standard_deviation", "variance", "skewness", "kurtosis"):
            self.callables[name] = lambda name=name: getattr(signal, name)
        for name in ("bandwidth", "scaling_factor", "overlap_correlation", "amplitude_flatness", "power_flatness"):
            self.callables[name] = lambda name=name: getattr(window, name)
        for name in ("decay_model", "reverberation_time"):
            self.callables[name] = lambda name=name: getattr(decay, name)
        for name in ("harmonic_impulse_response", "instantaneous_frequency"):
            self.callables[name] = lambda name=name: getattr(sweep, name)
        for name in TERMS:
            self.callables[name] = lambda name=name: getattr(sumpf.Filter, name)

    # ------------------------------------------------------------ observations
    def content(self, name, x):
        """returns a tuple of a comparable part and an array"""
        k = kind(x)
        if name in ("Concatenate", "Merge"):
            x, exc = guarded(x.output)
            if exc:
                return ["nothing to collect", exc], numpy.zeros(0)
            k = kind(x)
        if k in ("signal", "spectrum", "spectrogram"):
            c = numpy.asarray(x.channels())
            meta = [c.shape, str(c.dtype.kind), x.labels()]
            meta += [float(getattr(x, n)()) for n in ("sampling_rate", "resolution") if hasattr(x, n)]
            meta += [int(x.offset())] if hasattr(x, "offset") else []
            if name == "MaximumLengthSequence":
                meta.append(x.bits())
            return meta, c
        if isinstance(x, bytes):
            return ["file", x], numpy.zeros(0)
        if name in TERMS:
            x = sumpf.Filter(transfer_functions=(x,))
        if isinstance(x, sumpf.Filter):
            meta = ["filter", tuple(label(s) for s in x.labels()), isinstance(x, sumpf.Bands)]
            return meta, numpy.array(x(FREQUENCIES))
        c = numpy.asarray(x)
        return [type(x).__name__ if not isinstance(x, (int, float)) else "number", c.shape], c

    @staticmethod
    def same(a, b):
        return a[0] == b[0] and a[1].shape == b[1].shape and numpy.allclose(a[1], b[1], rtol=1e-9, atol=1e-12, equal_nan=True)

    def perform(self, call):
        name = call["callable"]

        def f():
            args = [eval(a, self.namespace) for a in call["args"]]                  # pylint: disable=eval-used; the expressions come from the specification
            kwargs = {n: eval(a, self.namespace) for n, a in call["kwargs"]}        # pylint: disable=eval-used
            function = self.callables[name]() if name in self.callables else getattr(sumpf, name)
            with numpy.errstate(all="ignore"):
                return self.content(name, function(*args, **kwargs))
        x, exc = guarded(f)
        if exc:
            return {"op": "call", "call": call, "result": 0, "exc": exc}
        known = self.results.setdefault(name, [])
        for n, y in enumerate(known):
            if self.same(x, y):
                break
        else:
            n = len(known)
            known.append(x)
        return {"op": "call", "call": call, "result": n, "exc": ""}

    def explicit(self, call):
        key = str(call)
        if key not in self.known:
            self.known[key] = self.perform(call)
        return self.known[key]

    def flags(self, name):
        flags, exc = guarded(lambda: FLAGS[name]())
        members = [m for m in dir(flags) if isinstance(getattr(flags, m), flags)] if exc is None else []
        return {"op": "flags", "name": name, "flags": members, "distinct": len({getattr(flags, m).value for m in members}) if members else 0, "exc": exc or ""}

    def run(self):
        r = self.model("InterfaceMC", workers=8)
        calls = r.printed("CALL")
        self.notes["calls"] = len(calls)
        tmp = tempfile.mkdtemp(prefix="c24_")
        try:
            traces = []
            for _ in range(self.n(1, 3)):
                self.results, self.known = {}, {}
                self.prepare(tmp)
                traces.extend({"events": [self.explicit(c["explicit"]), self.perform(c["call"])]} for c in calls)
        finally:
            shutil.rmtree(tmp, ignore_errors=True)
        traces.extend({"events": [self.flags(n)]} for n in sorted(FLAGS))
        self.notes["callables"] = len({c["call"]["callable"] for c in calls})
        self.notes["different_results"] = sum(len(x) for x in self.results.values())
        self.validate("InterfaceTrace", traces)


CHECK = InterfaceCheck
