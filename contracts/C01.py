"""C01: Integer arithmetic is exact or throws; comparison is the order of the
mathematical values."""
from contracts.common import *
from cv.runner import Unit, Harness

# clients: exercise the comparison operators whatever their declared form
CLIENTS = """
#include <gcs/integer.hh>
namespace gcs_client {
inline bool eq(gcs::Integer a, gcs::Integer b) { return a == b; }
inline bool ne(gcs::Integer a, gcs::Integer b) { return a != b; }
inline bool lt(gcs::Integer a, gcs::Integer b) { return a < b; }
inline bool le(gcs::Integer a, gcs::Integer b) { return a <= b; }
inline bool gt(gcs::Integer a, gcs::Integer b) { return a > b; }
inline bool ge(gcs::Integer a, gcs::Integer b) { return a >= b; }
inline gcs::Integer minv() { return gcs::Integer::min_value(); }
inline gcs::Integer maxv() { return gcs::Integer::max_value(); }
inline gcs::Integer wrap(long long v) { return gcs::Integer{v}; }
}
"""


def cmp(name, f):
    return Contract("gcs_client::" + name, name="comparison " + name, ensures=lambda c: [("order of the values", c.r.t == f(c.a(0).t, c.a(1).t))])


COMPARE = [cmp("eq", lambda a, b: a == b), cmp("ne", lambda a, b: a != b), cmp("lt", lambda a, b: a < b), cmp("le", lambda a, b: a <= b),
           cmp("gt", lambda a, b: a > b), cmp("ge", lambda a, b: a >= b),
           Contract("gcs_client::minv", name="Integer::min_value", ensures=lambda c: [("least representable", c.r.t == MIN)]),
           Contract("gcs_client::maxv", name="Integer::max_value", ensures=lambda c: [("greatest representable", c.r.t == MAX)]),
           Contract("gcs_client::wrap", name="Integer(long long)", ensures=lambda c: [("value kept", c.r.t == c.a(0).t)])]
IDX = Contract("gcs::Integer::as_index", name="Integer::as_index", requires=lambda c: [("not negative", c.this.t >= 0)],
               ensures=lambda c: [("same number", c.r.t == c.this.t)])

UNITS = [Unit("integer", INTEGER + COMPARE + [IDX], INTEGER, includes=["gcs/integer.hh"], sources=["gcs/innards/integer_overflow.cc"], extra=CLIENTS)]
HARNESS = Harness("C01.cc", bound="all pairs from a pool of boundary, small and random 64-bit values")
