"""C04: integer powers are exact or absent."""
from contracts.powers import *
from cv.runner import Unit, Harness

UNITS = [Unit("power", POWERS, POWERS + INTEGER, includes=["gcs/innards/power.hh"], sources=["gcs/innards/integer_overflow.cc", "gcs/innards/power.cc"])]
LEMMAS = LEM_POW
HARNESS = Harness("C04.cc", ["gcs/innards/power.cc"], bound="all pairs with small bases and exponents, roots of the representable range, and a pool of boundary and random values")
