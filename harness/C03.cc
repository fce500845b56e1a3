#include "common.hh"
#include <gcs/constraints/innards/product_bounds.hh>
#include <gcs/innards/integer_overflow.hh>
#include <optional>
using namespace gcs;
using namespace gcs::innards;
using K = QuotientFilter::Kind;

template <typename F> static bool guarded(F f)
{
    try { f(); return true; }
    catch (const IntegerOverflow &) { return false; }
}
static void prod(ll a, ll b, ll c, ll d)
{
    curf("product bounds of [%lld,%lld]*[%lld,%lld]", a, b, c, d);
    i128 k[4] = {(i128)a * c, (i128)a * d, (i128)b * c, (i128)b * d};
    i128 lo = *std::min_element(k, k + 4), hi = *std::max_element(k, k + 4);
    i128 r0 = 0, r1 = 0;
    bool ok = guarded([&] { auto r = product_bounds(Integer{a}, Integer{b}, Integer{c}, Integer{d}); r0 = r.first.raw_value; r1 = r.second.raw_value; });
    bool rep = fits(lo) && fits(hi);
    if (ok != rep) fail(ok ? "returned although a corner is not representable" : "threw although all corners are representable");
    if (ok && (r0 != lo || r1 != hi)) fail("returned [%s,%s], exact [%s,%s]", s128(r0).c_str(), s128(r1).c_str(), s128(lo).c_str(), s128(hi).c_str());
}
static void sqr(ll a, ll b)
{
    curf("square bounds of [%lld,%lld]", a, b);
    i128 A = (i128)a * a, B = (i128)b * b, lo = a <= 0 && 0 <= b ? 0 : std::min(A, B), hi = std::max(A, B);
    i128 r0 = 0, r1 = 0;
    bool ok = guarded([&] { auto r = square_bounds(Integer{a}, Integer{b}); r0 = r.first.raw_value; r1 = r.second.raw_value; });
    if (ok != fits(hi)) fail(ok ? "returned although a square is not representable" : "threw although the squares are representable");
    if (ok && (r0 != lo || r1 != hi)) fail("returned [%s,%s], exact [%s,%s]", s128(r0).c_str(), s128(r1).c_str(), s128(lo).c_str(), s128(hi).c_str());
}
static i128 root_up(i128 n) { i128 r = (i128)std::max<long double>(0, __builtin_sqrtl((long double)n) - 2); while (r * r < n) ++r; return r; }
static i128 root_down(i128 n) { i128 r = root_up(n); while (r * r > n) --r; return r; }
static void sqf(ll a, ll b, ll c, ll d)
{
    curf("hull of x in [%lld,%lld] with x*x in [%lld,%lld]", a, b, c, d);
    // exact hull
    bool empty = d < 0;
    i128 lo = 0, hi = 0;
    if (! empty) {
        i128 u = root_down(d), m = c > 0 ? root_up(c) : 0;
        i128 L = std::max<i128>(a, -u), H = std::min<i128>(b, u);
        auto sup = [&](i128 x) { return x >= L && x <= H && (x >= m || x <= -m); };
        lo = L; if (! sup(lo)) lo = std::max<i128>(L, m);
        hi = H; if (! sup(hi)) hi = std::min<i128>(H, -m);
        empty = ! sup(lo) || ! sup(hi) || lo > hi;
    }
    i128 r0 = 0, r1 = 0;
    bool ok = guarded([&] { auto r = square_filter(Integer{a}, Integer{b}, Integer{c}, Integer{d}); r0 = r.first.raw_value; r1 = r.second.raw_value; });
    if (! ok) fail("threw");
    if (empty ? r0 <= r1 : (r0 != lo || r1 != hi)) fail("returned [%s,%s], exact %s [%s,%s]", s128(r0).c_str(), s128(r1).c_str(), empty ? "(empty)" : "", s128(lo).c_str(), s128(hi).c_str());
}
static void quo(ll a, ll b, ll c, ll d, bool small)
{
    QuotientFilter r{K::NoFilter};
    curf("x*y=z with y in [%lld,%lld], z in [%lld,%lld]", a, b, c, d);
    bool ok = guarded([&] { r = quotient_filter(Integer{a}, Integer{b}, Integer{c}, Integer{d}); });
    if (! ok) { if (c != INT64_MIN || a >= 0 || b < -1) fail("threw"); return; }
    bool zero = a <= 0 && 0 <= b && c <= 0 && 0 <= d;
    if (r.kind == K::NoFilter && ! zero) fail("claims every x is supported");
    if (a == 0 && b == 0 && ! (c <= 0 && 0 <= d) && r.kind != K::EmptyBecauseYZero) fail("does not report that no x is supported");
    auto supported = [&](i128 x, i128 y) {
        if (y < a || y > b) return;
        i128 z = x * y;
        if (z < c || z > d) return;
        if (r.kind == K::EmptyBecauseYZero) fail("claims no x is supported, but x=%s y=%s is", s128(x).c_str(), s128(y).c_str());
        if (r.kind == K::Bounds && (x < r.lo.raw_value || x > r.hi.raw_value)) fail("returned [%lld,%lld], excluding supported x=%s (y=%s)", r.lo.raw_value, r.hi.raw_value, s128(x).c_str(), s128(y).c_str());
    };
    if (small) {
        for (ll x = -110; x <= 110; ++x)
            for (ll y = a; y <= b; ++y) supported(x, y);
    }
    else {
        for (i128 y : {(i128)a, (i128)b, (i128)1, (i128)-1, (i128)a + 1, (i128)b - 1, ((i128)a + b) / 2, (i128)0}) {
            if (y == 0) { for (i128 x : {0, 1, -1, 1000}) supported(x, y); continue; }
            for (i128 z : {(i128)c, (i128)d, (i128)0, ((i128)c + d) / 2})
                for (i128 dd = -1; dd <= 1; ++dd) supported(floor_div(z, y) + dd, y);
        }
    }
}
int main(int argc, char ** argv)
{
    start(argc, argv);
    const int B = g_thorough ? 9 : 6;
    for (ll a = -B; a <= B; ++a)
        for (ll b = a; b <= B; ++b) {
            sqr(a, b);
            for (ll c = -B - 2; c <= B + 2; ++c)
                for (ll d = c; d <= B + 2; ++d) { prod(a, b, c, d); quo(a, b, c, d, true); }
            for (ll c = -3; c <= 50; ++c)
                for (ll d = c; d <= 50; ++d) sqf(a, b, c, d);
        }
    auto p = pool(60);
    const long N = g_thorough ? 6000000 : 400000;
    auto pick = [&] { return p[rnd(0, (ll)p.size() - 1)]; };
    for (long i = 0; i < N && time_left(); ++i) {
        ll a = pick(), b = pick(), c = pick(), d = pick();
        if (rnd(0, 2) == 0) { a >>= 33; b >>= 33; c >>= 33; d >>= 33; }
        if (a > b) std::swap(a, b);
        if (c > d) std::swap(c, d);
        prod(a, b, c, d); sqr(a, b); sqf(a, b, c, d); quo(a, b, c, d, false);
        // products near the extremes of the representable range
        ll e = rnd(1, 60);
        ll f = (ll)(((i128)INT64_MAX + rnd(-4, 4)) / (1ll << e) < INT64_MAX ? ((i128)INT64_MAX) / (1ll << e) + rnd(-2, 2) : 1);
        prod(-(1ll << e), (1ll << e), std::min<ll>(f, 1ll << (e / 2)), std::max<ll>(f, 1ll << (e / 2)));
    }
    // perfect squares and neighbours as product bounds
    for (long i = 0; i < N / 4 && time_left(); ++i) {
        ll r = rnd(0, 3037000499ll) >> rnd(0, 28), s = rnd(0, 3037000499ll) >> rnd(0, 28);
        i128 c = (i128)r * r + rnd(-1, 1), d = (i128)s * s + rnd(-1, 1);
        if (c > d) std::swap(c, d);
        if (! fits(c) || ! fits(d)) continue;
        ll a = rnd(-3, 3) + (rnd(0, 1) ? -s : rnd(0, 1) ? r : -r), b = rnd(-3, 3) + (rnd(0, 1) ? s : rnd(0, 1) ? -r : r);
        if (a > b) std::swap(a, b);
        sqf(a, b, (ll)c, (ll)d);
    }
    finish();
}
