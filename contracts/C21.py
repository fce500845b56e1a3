"""C21: search reports every solution exactly once, and the last reported is optimal."""
import re
from contracts.search import *
from cv.runner import Unit, Harness

UNITS = [Unit("search", [solve_rec], INTEGER, sources=["gcs/solve.cc", "gcs/innards/integer_overflow.cc"], hooks=SEARCH, opaque=OPAQUE_TYPES, abstract=ABSTRACT)]
OPAQUE_TOP = re.compile(OPAQUE_TYPES.pattern + r"|^(gcs::)?Stats$|^(gcs::)?(innards::)?(Nogoods|Proof)$")
UNITS.append(Unit("passes", [solve_top], [solve_few] + INTEGER, sources=["gcs/solve.cc", "gcs/innards/integer_overflow.cc"], hooks=TOP, opaque=OPAQUE_TOP, abstract=ABSTRACT))
LEMMAS = []
_h = ["gcs/innards/state.cc", "gcs/innards/propagators.cc", "gcs/innards/literal.cc", "gcs/innards/reason.cc", "gcs/innards/variable_id_utils.cc", "gcs/variable_id.cc", "gcs/variable_condition.cc", "gcs/current_state.cc", "gcs/constraint.cc", "gcs/stats.cc",
      "gcs/solve.cc", "gcs/problem.cc", "gcs/restarts.cc", "gcs/search_heuristics.cc", "gcs/variable_weighting.cc", "gcs/presolver.cc", "gcs/exception.cc", "gcs/innards/integer_overflow.cc"]
_k = ["comparison/comparison.cc", "equals/equals.cc", "innards/reified_state.cc", "innards/triggers.cc", "nogoods/nogoods.cc", "in/in.cc"]
HARNESS = Harness("C21.cc", sources=_h + ["gcs/constraints/" + s for s in _k], flags=["-Wl,--unresolved-symbols=ignore-all"], quick_s=60,
                  bound="random problems of up to 5 variables with at most 7 values each, every branching heuristic, on plain variables and through views, enumeration and optimisation, restarts, callbacks that stop the search and the abort flag, compared with brute force; proofs off")
ASSUMPTIONS = [
    "propagation loses no assignment that satisfies every constraint (and what has been learned), and with every variable fixed succeeds only for such an assignment unless it has been told to stop early, provided that everything changed since it last ran is handed to it (for the propagators of some constraints this is proved under C20; the queue that runs them is not under contract here)",
    "guessing, inferring, querying, opening an epoch and backtracking do what is proved of them under C18 and C19; the state is back where it was when the next branch is asked for",
    "the branching callback offers no branch only when every variable is fixed, and otherwise branches of which exactly one is true of each remaining assignment (what the orders the library offers yield is proved under C22)",
    "what the nogood store holds is excluded by propagation from the next time everything is propagated",
    "initialisers and presolvers lose no solution, and callbacks change nothing",
    "a search has fewer than 2^64-1 conflicts; an integer overflow exception may end the search; proof logging is off",
]
