"""C13: root simplification of a difference graph."""
from contracts.simplify import *
from cv.runner import Unit, Harness

SRC = ["gcs/constraints/difference/difference_simplify.cc", "gcs/innards/integer_overflow.cc"]
UNITS = [Unit("simplify", [simplify], [count_cycles, simplify] + INTEGER, sources=SRC)]
LEMMAS = [cnt_mono, cnt_store] + LEM_SIMPLIFY
HARNESS = Harness("C13.cc", sources=SRC[:1], bound="random graphs of up to 7 nodes and 20 arcs, some of 24 nodes and 80 arcs, weights up to 2^40, every mix of roles, against all-pairs shortest distances in 128-bit arithmetic")
ASSUMPTIONS = ["a base graph without a negative cycle whose shortest distances are representable has a shortest-path forest (the certificate the clause 'is not refuted' quantifies over); elementary graph theory, not proved here",
               "the number of zero-weight cycles and of the nodes on them (count_zero_weight_cycles, Tarjan's algorithm) is not proved: its contract is trusted, and only the bounded comparison looks at it"]
BOUNDED = ["zero_weight_cycles and nodes_on_zero_weight_cycles"]
