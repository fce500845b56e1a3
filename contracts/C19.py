"""C19: backtracking restores the state of the search."""
from contracts.epochs import *
from contracts.common import INTEGER
from cv.runner import Unit, Harness
SRC = ["gcs/innards/state.cc", "gcs/innards/integer_overflow.cc"]
TARGETS = EPOCHS + RESPECT + [history]
UNITS = [Unit("epochs", TARGETS, [modify] + EPOCHS[:2] + RESPECT + EPOCHS[2:] + SETS + INTEGER, sources=SRC, extra=CLIENT)]
LEMMAS = []
HARNESS = Harness("C19.cc", sources=[SRC[0], "gcs/innards/variable_id_utils.cc", "gcs/current_state.cc"], bound="random histories of up to 30 inferences, guesses, variables, constraint states, callbacks, extra conditions, epochs, backtracks over any number of epochs, and clones, compared with snapshots")
ASSUMPTIONS = ["std::any and std::function are opaque values that copy faithfully; a callback registered with on_backtrack does not touch the State while it is being called",
               "the member functions of an interval set change nothing but that set (proved under C17)",
               "cv_modify, in the client whose history is arbitrary, stands for any of the modifications, each proved to respect the same contract; get_constraint_state hands out a reference into the newest epoch, so what is written through it is a modification of the newest epoch",
               "after an exception nothing is said about the state: the search is over then"]
