"""C08: building and rewriting linear (in)equalities preserves their meaning."""
from contracts.exprs import *
from cv.runner import Unit, Harness

UNITS = [Unit("exprs", EXPRS + [getv, getc], EXPRS + INTEGER, includes=["gcs/expression.hh", "gcs/constraints/linear/utils.hh"], sources=["gcs/innards/integer_overflow.cc"], extra=EXPR_INST)]
LEMMAS = LEM_EXPR
HARNESS = Harness("C08.cc", bound="sums of up to six terms of every kind of variable, coefficients and bounds from a pool of boundary and small values, probed at random assignments")
