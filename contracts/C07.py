"""C07: conditions hold for exactly the values they describe; negation is complement."""
from contracts.ids import *
from cv.runner import Unit, Harness

UNITS = [Unit("conditions", CONDS + [widen], CONDS + INTEGER, includes=["gcs/variable_condition.hh"], sources=["gcs/innards/integer_overflow.cc"], extra=INST)]
HARNESS = Harness("C07.cc", [], bound="every operator and its negation with bounds and values from a pool of boundary, small and random values")
