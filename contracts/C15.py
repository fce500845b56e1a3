"""C15: regular expressions."""
from contracts.regex_parse import *
from cv.runner import Unit, Harness

SRC = ["gcs/constraints/regular/regex.cc", "gcs/innards/integer_overflow.cc"]
ALL = TREES + PARSER + MATCH
UNITS = [Unit("regex", ALL, ALL + INTEGER, sources=SRC)]
LEMMAS = REGEX_LEMMAS
ASSUMPTIONS = [
    "expression trees are finite: a tree built by these functions never contains itself, so the lemmas use induction over trees",
    "recursion depth and memory: an expression nested, or a repetition count so large, that the stack or heap is exhausted is outside the contracts",
    "std::set, std::vector, std::unique_ptr and std::string behave as specified by the C++ standard",
    "the grammar of the syntax and the language of a tree are recursive ghost functions stated in contracts/regex.py and contracts/regex_parse.py; the bounded stand-in compares them with an independently written reader and matcher",
]
HARNESS = Harness("C15.cc", sources=SRC + ["gcs/exception.cc"], bound="all texts of up to 4 characters over a 17-character alphabet, 5000 random and damaged expressions of nesting at most 3, up to 200 words of up to 9 symbols each, against an independent parser and matcher; automata simulated directly")
