"""C22: branching partitions what remains."""
from contracts.branching import *
from contracts.branching import _weights
from cv.runner import Unit, Harness

_s = ["gcs/search_heuristics.cc", "gcs/innards/integer_overflow.cc"]
UNITS = [Unit("values", VALUES, INTEGER, sources=_s, hooks=BRANCHING, opaque=OPAQUE_TYPES, abstract=ABSTRACT, extra=CLIENT),
         Unit("variables", SELECTED, INTEGER, sources=_s, hooks=SELECTING, opaque=SEL_OPAQUE, abstract=ABSTRACT, extra=SELECTORS),
         Unit("combining", COMBINED, INTEGER, sources=_s, hooks=COMBINING, opaque=OPAQUE_TYPES, abstract=ABSTRACT, extra=COMBINE),
         Unit("current", TOLD, INTEGER, sources=["gcs/current_state.cc", _s[1]], hooks=CURRENT, opaque=CUR_OPAQUE, abstract=ABSTRACT)]
LEMMAS = []
_h = ["gcs/innards/state.cc", "gcs/innards/propagators.cc", "gcs/innards/literal.cc", "gcs/innards/reason.cc", "gcs/innards/variable_id_utils.cc", "gcs/variable_id.cc", "gcs/variable_condition.cc", "gcs/current_state.cc", "gcs/constraint.cc", "gcs/stats.cc",
      "gcs/problem.cc", "gcs/search_heuristics.cc", "gcs/variable_weighting.cc", "gcs/exception.cc", "gcs/innards/integer_overflow.cc"]
HARNESS = Harness("C22.cc", sources=_h, flags=["-Wl,--unresolved-symbols=ignore-all"], quick_s=60,
                  bound="random states of up to 4 variables of up to 9 values, seen directly, through views and as constants; every value order, variable order, and their combinations, each branch taken and left before the next is asked for, compared with sets of integers")
ASSUMPTIONS = [
    "what State tells of a variable is what is proved under C18, and the contracts of IntervalSet's each, each_reversed, lower, upper, contains and empty are those proved under C17; the orders ask CurrentState, whose members are proved here to pass on what State tells",
    "a generator is observed through everything it yields when run to the end, with the domain the same whenever it is resumed (the search backtracks before asking for the next branch: C21)",
    "a random engine may give any number within the range asked for, and shuffle any permutation",
    "a selector is called with the same degrees, bounds and sizes told throughout the call; degrees are less than 2^62 in magnitude; floating point is unknown (which variable dom_wdeg selects is proved to be one with something left to decide, not to be the best)",
    "a condition is true of a value as its operator says (VariableConditionOperator)",
    "a comparison handed to in_order_of, a selector handed to branch_with and a callback handed to branch_sequence may answer anything",
    "an integer overflow exception may end any of them",
]
UNITS.append(Unit("weights", NOTED, INTEGER, sources=["gcs/variable_weighting.cc", _s[1]], hooks=_weights(0), opaque=WEIGHT_OPAQUE, abstract=ABSTRACT))
