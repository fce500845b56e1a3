#include "common.hh"
#include <gcs/innards/proofs/bits_encoding.hh>
#include <gcs/innards/integer_overflow.hh>
#include <gcs/exception.hh>
using namespace gcs;
using namespace gcs::innards;

static void rng(ll lo, ll hi)
{
    curf("encoding of [%lld,%lld]", lo, hi);
    bool threw = false;
    i128 s = 0, hc = 0, neg = 0;
    try {
        auto [a, b, c] = get_bits_encoding_coeffs(Integer{lo}, Integer{hi});
        s = a.raw_value; hc = b.raw_value; neg = c.raw_value;
    }
    catch (const UnimplementedException &) { threw = true; }
    catch (const IntegerOverflow &) { threw = true; }
    bool f = bits_encoding_fits(Integer{lo}, Integer{hi});
    i128 h = lo < 0 ? std::max<i128>(-(i128)lo - 1, hi) : hi;
    int w = 0;
    while (((i128)1 << w) <= h) ++w;
    bool ok = lo != INT64_MIN && (lo < 0 ? w <= 62 : w <= 63);
    if (f != ok) fail(f ? "claimed to fit" : "claimed not to fit");
    if (threw == ok) fail(threw ? "threw" : "returned although a coefficient is not representable");
    if (! threw) {
        if (s != w - 1) fail("highest shift %s, needs %d", s128(s).c_str(), w - 1);
        if (hc != (w ? (i128)1 << (w - 1) : 0)) fail("highest coefficient %s", s128(hc).c_str());
        if (neg != (lo < 0 ? -((i128)1 << w) : 0)) fail("negative coefficient %s", s128(neg).c_str());
    }
}
int main(int argc, char ** argv)
{
    start(argc, argv);
    const ll B = g_thorough ? 1100 : 300;
    for (ll a = -B; a <= B; ++a)
        for (ll b = a; b <= B; ++b) rng(a, b);
    auto p = pool(g_thorough ? 600 : 150);
    for (int k = 0; k < 63; ++k)
        for (ll d = -2; d <= 2; ++d) { p.push_back((ll)(((i128)1 << k) + d)); p.push_back(-(ll)(((i128)1 << k) + d)); }
    for (ll a : p)
        for (ll b : p)
            if (a <= b) rng(a, b);
    finish();
}
