"""C12: difference systems: incremental bounds."""
from contracts.diff import *
from cv.runner import Unit, Harness

SRC = ["gcs/constraints/difference/difference_incremental.cc", "gcs/innards/integer_overflow.cc"]
UNITS = [Unit("bounds", [active, bounds], [active, bounds] + INTEGER, sources=SRC)]
LEMMAS = [cnt_mono, cnt_store]
HARNESS = Harness("C12.cc", sources=SRC[:1], bound="random satisfiable systems of up to 8 nodes and 24 arcs, some up to 60 nodes and 200 arcs, weights up to 2^40, histories of up to 6 bound changes and activations in both orientations, against an exact fixpoint")
