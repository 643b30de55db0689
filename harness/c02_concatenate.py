"""C02: Concatenate. Replays all bounded histories of spec/ConcatenateMC and random histories on sumpf.Concatenate
and validates the outputs with spec/ConcatenateTrace."""
import sumpf
from .c01_merge import MergeCheck


class ConcatenateCheck(MergeCheck):
    id = "C02"
    module = "Concatenate"
    block = sumpf.Concatenate
    kinds = ("signal", "spectrogram")
    with_mode = False
    sizes = ((1, 3, 0, 1), (2, 1, -2, 2), (3, 2, 1, 1), (1, 4, -5, 3))


CHECK = ConcatenateCheck
