"""C10: interval tree queries visit exactly the right intervals, in order."""
from contracts.itree import *
from cv.runner import Unit, Harness

UNITS = [Unit("tree", [t for t in TREE if t is not record], TREE + INTEGER, includes=["vector", "gcs/innards/interval_tree.hh"], extra=TREE_INST)]
HARNESS = Harness("C10.cc", bound="insertion histories of up to 400 intervals with ends in small ranges, in increasing, decreasing and random order, with duplicates, compared with a sorted set after every few insertions")
ASSUMPTIONS = ["termination of the recursive functions on the finite tree is not proved", "the priorities drawn from the random engine are arbitrary"]
