"""C06: the algebra of spectrums and spectrograms, also with signals. See c05_signal_algebra."""
from .c05_signal_algebra import AlgebraCheck
from .data import grains, random_data
from .store import Store, random_values

PYTHAGOREAN = ([3, 4], [-4, 3], [5, -12], [0, 7], [-6, 0], [8, 15], [0, 0], [-5, -12], [0, -2], [9, 0], [-20, 21])
DIAGONAL = ([1, 1], [-2, 2], [3, -3], [-4, -4], [5, 0], [-6, 0], [0, 7], [0, -8], [0, 0])


class SpectrumAlgebraCheck(AlgebraCheck):
    id = "C06"
    kinds = ("spectrum", "spectrogram", "spectrogram", "signal")
    models_kinds = ("spectrum-spectrum", "spectrogram-spectrogram", "spectrogram-signal", "spectrogram-spectrum")
    unary = ("neg", "conjugate", "real", "imaginary", "frequency_samples", "time_samples", "shape")

    def more_traces(self):
        """the unary operators, whose results are integers only for selected values"""
        traces = []
        for _ in range(self.n(60, 600)):
            rng = self.rng
            k = rng.choice(("spectrum", "spectrogram"))
            d = random_data(rng, k, max_len=5, max_nc=4)
            init = [random_values(rng, d, lambda: list(rng.choice(PYTHAGOREAN))),
                    random_values(rng, d, lambda: list(rng.choice(DIAGONAL))),
                    random_values(rng, d, lambda: [rng.choice((1, -2, 4, 5)), 0] if rng.random() < 0.3 else list(rng.choice(
                        ([1, 1], [1, -2], [0, 2], [-2, 1], [-1, -1]))))]
            s = Store(init, self.random_dtypes(init), grains(rng))
            for op, a, scale in (("abs", 1, 1), ("magnitude", 1, 1), ("phase", 2, 1), ("invert", 3, 20), ("conjugate", 2, 1), ("real", 2, 1),
                                 ("imaginary", 1, 1), ("neg", 1, 1)):
                if op == "invert" and k == "spectrogram":
                    continue
                s.perform({"op": op, "a": a, "s": scale})
            traces.append(s.trace())
        return traces


CHECK = SpectrumAlgebraCheck
