"""C17: interval sets represent the set of integers they are documented to represent."""
from contracts.iset import *
from contracts.common import INTEGER
from cv.runner import Unit, Harness

INST = """
template class gcs::IntervalSet<gcs::Integer>;
""" + ITER_INST
ALL = QUERIES + MODIFIERS + ITER + FOR
UNITS = [Unit("set", ALL, ALL + INTEGER, includes=["gcs/integer.hh", "gcs/interval_set.hh"], sources=["gcs/innards/integer_overflow.cc"], extra=INST)]
LEMMAS = [sum_mono, step_l, rest_l, ystep_l, push_l, yield_l]
HARNESS = Harness("C17.cc", flags=["-I/verif/shim", "-D_GLIBCXX_DEBUG"], bound="random sets over 14 consecutive values (around zero, from the least representable value, up to the greatest), chains of up to four modifications, every query after each step, compared with a bit set; two long intervals")
ASSUMPTIONS = ["the container holding the intervals (gch::small_vector, absent from this sandbox) behaves like std::vector; invalidation of iterators by insert and erase is not tracked by the proof (the bounded search runs with the library's iterator checks on)",
               "a generator is observed through everything it yields when run to the end, the set unchanged meanwhile; at most 2^59 values are yielded",
               "in the operations on two sets they are distinct objects",
               "the member templates are those instantiated for gcs::Integer; for_each is proved for two visitors: one that keeps every value it is given, and one that also stops at an arbitrary value"]
