#include "common.hh"
#include <gcs/integer.hh>
#include <gcs/exception.hh>
#include <gcs/innards/integer_overflow.hh>
#include <compare>
using namespace gcs;
using gcs::innards::IntegerOverflow;

static Integer X{0};
template <typename F> void expect(const char * op, ll a, ll b, bool defined, i128 want, F f)
{
    curf("%lld %s %lld", a, op, b);
    bool threw = false;
    Integer r{0};
    X = Integer{a};
    try { r = f(); }
    catch (const IntegerOverflow &) { threw = true; if (X.raw_value != a) fail("threw but changed its operand"); }
    bool ok = defined && fits(want);
    if (ok && threw) fail("threw although the exact result %s is representable", s128(want).c_str());
    if (! ok && ! threw) fail("returned %lld instead of throwing", r.raw_value);
    if (ok && r.raw_value != (ll)want) fail("returned %lld, exact result is %s", r.raw_value, s128(want).c_str());
}

int main(int argc, char ** argv)
{
    start(argc, argv);
    auto p = pool(g_thorough ? 400 : 60);
    for (ll a : p) {
        Integer A{a};
        expect("neg", a, 0, true, -(i128)a, [&] { return -A; });
        expect("abs", a, 0, true, a < 0 ? -(i128)a : a, [&] { return abs(A); });
        expect("preinc", a, 0, true, (i128)a + 1, [&] { Integer & x = (X = A); Integer r = ++x; if (r.raw_value != x.raw_value) fail("value and object differ"); return x; });
        expect("postinc", a, 0, true, (i128)a + 1, [&] { Integer & x = (X = A); Integer r = x++; if (r.raw_value != a) fail("old value not returned"); return x; });
        expect("predec", a, 0, true, (i128)a - 1, [&] { Integer & x = (X = A); Integer r = --x; if (r.raw_value != x.raw_value) fail("value and object differ"); return x; });
        expect("postdec", a, 0, true, (i128)a - 1, [&] { Integer & x = (X = A); Integer r = x--; if (r.raw_value != a) fail("old value not returned"); return x; });
        for (ll b : p) {
            Integer B{b};
            expect("+", a, b, true, (i128)a + b, [&] { return A + B; });
            expect("-", a, b, true, (i128)a - b, [&] { return A - B; });
            expect("*", a, b, true, (i128)a * b, [&] { return A * B; });
            expect("+=", a, b, true, (i128)a + b, [&] { Integer & x = (X = A); Integer & r = (x += B); if (&r != &x) fail("does not return the left operand"); return x; });
            expect("-=", a, b, true, (i128)a - b, [&] { Integer & x = (X = A); Integer & r = (x -= B); if (&r != &x) fail("does not return the left operand"); return x; });
            bool d = b != 0 && ! (a == INT64_MIN && b == -1);
            expect("/", a, b, d, d ? (i128)a / b : 0, [&] { return A / B; });
            expect("%", a, b, d, d ? (i128)a % b : 0, [&] { return A % B; });
            curf("compare %lld %lld", a, b);
            if ((A == B) != (a == b) || (A != B) != (a != b) || (A < B) != (a < b) || (A <= B) != (a <= b) || (A > B) != (a > b) || (A >= B) != (a >= b))
                fail("comparison disagrees with the order of the values");
        }
    }
    finish();
}
