"""C14: reading and writing s-expressions."""
from contracts.sexpr import *
from contracts.sexpr_lemmas import SEXPR_LEMMAS
from cv.runner import Unit, Harness

SRC = ["gcs/innards/s_expr.cc"]
ALL = READER + TERMS + [parse, parse_seq] + FORMAT
UNITS = [Unit("sexpr", ALL, ALL, sources=SRC)]
LEMMAS = SEXPR_LEMMAS
ASSUMPTIONS = [
    "terms are finite trees: a vector of terms built by these functions never contains itself, so the lemmas use induction over terms",
    "recursion depth: a text nested more deeply than the call stack allows is outside the contracts",
    "std::variant, std::vector, std::string and the std::format machinery behave as specified by the C++ standard; the output iterator of a format context is modelled as appending to one text",
    "the defaulted operator== of SExpr is the memberwise comparison the language defines; it is exercised by the stand-in only",
]
HARNESS = Harness("C14.cc", sources=SRC + ["gcs/exception.cc"], bound="all texts of up to 5 characters over an 8-character alphabet, and random terms of depth at most 6 with random spacing and damage")
