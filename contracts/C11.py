"""C11: difference systems: potentials."""
from contracts.diff import *
from cv.runner import Unit, Harness

SRC = ["gcs/constraints/difference/difference_incremental.cc", "gcs/innards/integer_overflow.cc"]
DIFF = [build_adj, active, initial, invalid_arc, repair]
UNITS = [Unit("incremental", DIFF, DIFF + INTEGER, sources=SRC)]
LEMMAS = LEM_ADJ + [cnt_store]
HARNESS = Harness("C11.cc", sources=SRC[:1], bound="random systems of up to 8 nodes and 24 arcs, some up to 60 nodes and 200 arcs, weights up to 2^40 (and 64-bit extremes for the initial potential), activation histories of up to 72 steps sharing one workspace, against exact Bellman-Ford in 128-bit arithmetic")
ASSUMPTIONS = ["a satisfiable system whose shortest distances are representable has a shortest-path forest (the certificate the completeness clause of difference_initial_potential quantifies over); elementary graph theory, not proved here"]
