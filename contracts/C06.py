"""C06: views denote exactly the affine function they were built from."""
from contracts.ids import *
from cv.runner import Unit, Harness

UNITS = [Unit("views", VIEWS, VIEWS + INTEGER, includes=["gcs/variable_id.hh", "gcs/constraints/innards/arithmetic_utils.hh"], sources=["gcs/innards/integer_overflow.cc", "gcs/variable_id.cc"])]
HARNESS = Harness("C06.cc", ["gcs/variable_id.cc"], bound="chains of up to six operations on every kind of variable, with offsets from a pool of boundary and random values")
