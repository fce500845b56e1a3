#include "common.hh"
#include <gcs/innards/power.hh>
#include <gcs/exception.hh>
using namespace gcs;
using namespace gcs::innards;

static void pw(ll b, ll e)
{
    curf("power %lld ^ %lld", b, e);
    bool def = true;
    i128 w = 1;
    if (e < 0) {
        if (b == 0) def = false;
        else w = b == 1 ? 1 : b == -1 ? (e % 2 ? -1 : 1) : 0;
    }
    else if (b == 0) w = e == 0;
    else if (b == 1) w = 1;
    else if (b == -1) w = e % 2 ? -1 : 1;
    else
        for (ll i = 0; i < e && def; ++i) {
            w *= b;
            def = fits(w);
        }
    auto r = checked_integer_power(Integer{b}, Integer{e});
    if (r.has_value() != def) fail(def ? "nothing returned although the power is representable" : "returned %lld although there is no representable power", r ? r->raw_value : 0);
    if (def && r->raw_value != w) fail("returned %lld, exact %s", r->raw_value, s128(w).c_str());
}
int main(int argc, char ** argv)
{
    start(argc, argv);
    for (ll e = -70; e <= 140; ++e) {
        curf("two to the power %lld", e);
        bool threw = false;
        Integer r{0};
        try { r = power2(Integer{e}); }
        catch (const UnimplementedException &) { threw = true; }
        if (threw != (e < 0 || e > 62)) fail(threw ? "threw" : "did not throw");
        if (! threw && r.raw_value != (1ll << e)) fail("returned %lld", r.raw_value);
    }
    const ll B = g_thorough ? 3000 : 400;
    for (ll b = -B; b <= B; ++b)
        for (ll e = -4; e <= 70; ++e) pw(b, e);
    for (ll k = 2; k <= 64; ++k) {
        ll r = (ll)__builtin_powl(9223372036854775808.0L, 1.0L / k);
        for (ll b = r - 40; b <= r + 40; ++b)
            for (ll e = k - 2; e <= k + 2; ++e) { pw(b, e); pw(-b, e); }
    }
    auto p = pool(g_thorough ? 400 : 100);
    for (ll b : p)
        for (ll e : p) pw(b, e);
    for (ll b : p)
        for (ll e = 0; e <= 66; ++e) pw(b, e);
    finish();
}
