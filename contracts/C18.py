"""C18"""
from contracts.state import *
from contracts.common import INTEGER, UNEXP
from cv.runner import Unit, Harness
SRC = ["gcs/innards/state.cc", "gcs/innards/integer_overflow.cc"]
UNITS = [Unit("state", STATE, STATE + QUERIES + MODIFIERS + ITER + INTEGER, sources=SRC, extra="template class gcs::IntervalSet<gcs::Integer>;")]
LEMMAS = [sum_mono, step_l, rest_l, ystep_l, push_l, yield_l]
HARNESS = Harness("C18.cc", sources=[SRC[0], "gcs/innards/variable_id_utils.cc", "gcs/current_state.cc"], bound="random states of up to 3 variables of up to 10 values, seen directly, through views and as constants, up to 14 inferences or guesses each, every query compared with sets of integers")
ASSUMPTIONS = ["the contracts of IntervalSet are those proved under C17 (and proved again here); the container holding the intervals (gch::small_vector, absent from this sandbox) behaves like std::vector, and std::list like a sequence",
               "a generator is observed through everything it yields when run to the end; each_value_immutable with the state unchanged meanwhile, as documented (each_value_mutable is proved to refer to nothing that may change)",
               "std::any, std::function and the proof logger pointer held by a state are opaque values",
               "the member templates are those instantiated in state.cc; for_each_value_immutable and for_each_value_mutable are not under contract"]
