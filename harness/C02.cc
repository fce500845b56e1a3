#include "common.hh"
#include <gcs/constraints/innards/product_bounds.hh>
#include <gcs/innards/integer_overflow.hh>
using namespace gcs;
using namespace gcs::innards;

static void dv(ll a, ll b)
{
    for (int k = 0; k < 2; ++k) {
        curf("%s division %lld / %lld", k ? "ceiling" : "floor", a, b);
        bool threw = false;
        ll r = 0;
        try { r = (k ? div_ceil(Integer{a}, Integer{b}) : div_floor(Integer{a}, Integer{b})).raw_value; }
        catch (const IntegerOverflow &) { threw = true; }
        if (b == 0) { if (! threw) fail("no exception for division by zero"); continue; }
        i128 w = k ? ceil_div(a, b) : floor_div(a, b);
        if (threw) {
            if (fits(w)) fail("threw although the exact result %s is representable", s128(w).c_str());
        }
        else if (r != w) fail("returned %lld, exact result is %s", r, s128(w).c_str());
    }
}
static void root(ll n)
{
    curf("isqrt(%lld)", n);
    bool threw = false;
    i128 r = 0;
    try { r = isqrt(Integer{n}).raw_value; }
    catch (const UnexpectedException & e) { threw = true; }
    if (threw != (n < 0)) fail(threw ? "threw for a value that has a root" : "did not throw for a negative value");
    if (! threw && (r < 0 || r * r > n || (r + 1) * (r + 1) <= n)) fail("returned %s", s128(r).c_str());
    curf("ceil_isqrt(%lld)", n);
    threw = false;
    try { r = ceil_isqrt(Integer{n}).raw_value; }
    catch (const UnexpectedException & e) { threw = true; }
    if (threw != (n < 0)) fail(threw ? "threw for a value that has a root" : "did not throw for a negative value");
    if (! threw && (r < 0 || r * r < n || (r > 0 && (r - 1) * (r - 1) >= n))) fail("returned %s", s128(r).c_str());
}
int main(int argc, char ** argv)
{
    start(argc, argv);
    auto p = pool(g_thorough ? 500 : 100);
    for (ll a : p)
        for (ll b : p) dv(a, b);
    for (ll a = -300; a <= 300; ++a)
        for (ll b = -60; b <= 60; ++b) dv(a, b);
    for (ll n : p) root(n);
    for (ll n = -20; n < 70000; ++n) root(n);
    auto sq = [&](ll r) { for (i128 d = -2; d <= 2; ++d) if (fits((i128)r * r + d)) root((ll)((i128)r * r + d)); };
    for (int i = 0; i < (g_thorough ? 2000000 : 100000); ++i) sq(rnd(0, 3037000499ll) >> rnd(0, 20));
    for (ll r = 3037000499ll; r > 3037000499ll - 2000; --r) sq(r);
    for (int k = 0; k < 63; ++k) for (ll d = -3; d <= 3; ++d) if (fits((((i128)1) << k) + d)) root((ll)((((i128)1) << k) + d));
    finish();
}
