"""C03: bounds of products, squares and quotients over boxes."""
from contracts.arith import *
from cv.runner import Unit, Harness

UNITS = [Unit("boxes", BOXES, BOXES + ROUND + INTEGER, includes=["gcs/constraints/innards/product_bounds.hh"], sources=["gcs/innards/integer_overflow.cc"])]
LEMMAS = LEM_ROUND + [l for l in LEM_BOX if l not in LEM_ROUND]
HARNESS = Harness("C03.cc", bound="all boxes with ends in [-7, 7] compared with enumeration; boxes with ends from a pool of boundary and random 64-bit values probed at sampled points")
