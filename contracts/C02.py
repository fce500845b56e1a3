"""C02: rounding division and integer square roots."""
from contracts.arith import *
from cv.runner import Unit, Harness

UNITS = [Unit("round", ROUND, ROUND + INTEGER, includes=["gcs/constraints/innards/product_bounds.hh"], sources=["gcs/innards/integer_overflow.cc"])]
LEMMAS = LEM_ROUND
HARNESS = Harness("C02.cc", bound="all pairs from a pool of boundary, small and random 64-bit values; roots of perfect squares and their neighbours")
