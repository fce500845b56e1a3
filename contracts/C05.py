"""C05: the bit encoding of a range represents exactly what it must."""
from contracts.powers import *
from cv.runner import Unit, Harness

UNITS = [Unit("bits", BITS, BITS + POWERS + INTEGER, includes=["gcs/innards/power.hh", "gcs/innards/proofs/bits_encoding.hh"],
              sources=["gcs/innards/integer_overflow.cc", "gcs/innards/power.cc", "gcs/innards/proofs/bits_encoding.cc"])]
LEMMAS = []
HARNESS = Harness("C05.cc", ["gcs/innards/power.cc", "gcs/innards/proofs/bits_encoding.cc"], bound="all ranges with ends in [-300, 300], and ranges between values near powers of two and random 64-bit values")
