"""C16: automata compiled from regular expressions."""
from contracts.regex_nfa import *
from cv.runner import Unit, Harness

SRC = ["gcs/constraints/regular/regex.cc", "gcs/innards/integer_overflow.cc"]
UNITS = [Unit("regex", THOMPSON, THOMPSON + TREES + PARSER + INTEGER, sources=SRC)]
LEMMAS = REGEX_LEMMAS
HARNESS = Harness("C16.cc", sources=SRC + ["gcs/exception.cc"], bound="all texts of up to 4 characters over a 17-character alphabet, 5000 random and damaged expressions of nesting at most 3, up to 200 words of up to 12 symbols each, against an independent parser and matcher")
ASSUMPTIONS = [
    "expression trees are finite: a tree built by these functions never contains itself, so the construction's recursion and the lemmas use induction over trees",
    "recursion depth and memory: an expression nested, or a repetition count so large, that the stack or heap is exhausted is outside the contracts; at most 2^59 states",
    "std::set, std::map, std::unordered_map, std::queue and std::vector behave as specified by the C++ standard",
    "ghost names for what the execution determines (which state got which number, the closure computed for it) are introduced as facts when the code computes them",
    "the grammar of the syntax and the language of a tree are recursive ghost functions stated in contracts/regex.py and contracts/regex_parse.py",
]
