#include "common.hh"
#include <gcs/expression.hh>
#include <gcs/constraints/linear/utils.hh>
#include <gcs/exception.hh>
#include <gcs/innards/integer_overflow.hh>
using namespace gcs;
using gcs::innards::IntegerOverflow;

static ll sigma[4];
static i128 val(const IntegerVariableID & v)
{
    if (auto * s = std::get_if<SimpleIntegerVariableID>(&v)) return sigma[s->index];
    if (auto * c = std::get_if<ConstantIntegerVariableID>(&v)) return c->const_value.raw_value;
    auto & w = std::get<ViewOfIntegerVariableID>(v);
    return (w.negate_first ? -(i128)sigma[w.actual_variable.index] : (i128)sigma[w.actual_variable.index]) + w.then_add.raw_value;
}
// values stay small enough, or coefficients do, for 128-bit evaluation
static i128 val(const WeightedSum & s)
{
    i128 r = 0;
    for (auto & [c, v] : s.terms) r += (i128)c.raw_value * val(v);
    return r;
}
static std::string show(const WeightedSum & s)
{
    std::string r;
    for (auto & [c, v] : s.terms) r += (r.empty() ? "" : " + ") + std::to_string(c.raw_value) + "*" + (is_constant_variable(v) ? std::to_string(constant_value_of(v).raw_value) : std::string("v"));
    return r.empty() ? "0" : r;
}
static std::vector<ll> p;
static ll pick() { return rnd(0, 2) ? rnd(-4, 4) : p[rnd(0, p.size() - 1)]; }
static IntegerVariableID var()
{
    SimpleIntegerVariableID s{(unsigned long long)rnd(0, 3)};
    switch (rnd(0, 2)) {
    case 0: return s;
    case 1: return ViewOfIntegerVariableID{s, rnd(0, 1) == 1, Integer{rnd(-9, 9)}};
    default: return ConstantIntegerVariableID{Integer{rnd(-9, 9)}};
    }
}
template <typename F> void assignments(F f)
{
    for (int i = 0; i < 12; ++i) {
        for (auto & s : sigma) s = i < 8 ? rnd(-3, 3) : rnd(-(1ll << 40), 1ll << 40);
        f();
    }
}
template <typename F, typename T> void expect(const char * what, const WeightedSum & s, bool throws, F f, T want)
{
    curf("(%s) %s", show(s).c_str(), what);
    try {
        auto r = f();
        if (throws) fail("returned instead of throwing");
        assignments([&] { want(r); });
    }
    catch (const IntegerOverflow &) { if (! throws) fail("threw"); }
}
template <typename V> void with(const WeightedSum & s, V v, ll k, ll b)
{
    bool anymin = false;
    for (auto & t : s.terms) anymin |= t.coefficient.raw_value == INT64_MIN;
    IntegerVariableID iv = v;
    auto w = Integer{k} * v;
    char buf[200];
    auto rv = [&] { return (i128)k * val(iv); };
    auto N = [&](const char * f) { std::snprintf(buf, sizeof buf, f, k, b); return buf; };
    if (w.coefficient.raw_value != k || ! (IntegerVariableID{w.variable} == iv)) { cur("k * v"); fail("wrong weighted variable"); }
    expect(N("+ %lld * v"), s, false, [&] { return s + w; }, [&](auto & r) { if (val(r) != val(s) + rv()) fail("wrong value"); });
    expect(N("+= %lld * v"), s, false, [&] { auto t = s; auto & r = (t += w); if (&r != &t) fail("returns something else"); return t; }, [&](auto & r) { if (val(r) != val(s) + rv()) fail("wrong value"); });
    expect(N("<= %lld * v"), s, k == INT64_MIN, [&] { return s <= w; }, [&](auto & r) { if ((val(r.lhs) <= r.rhs.raw_value) != (val(s) <= rv())) fail("wrong meaning"); });
    expect(N("== %lld * v"), s, k == INT64_MIN, [&] { return s == w; }, [&](auto & r) { if ((val(r.lhs) == r.rhs.raw_value) != (val(s) == rv())) fail("wrong meaning"); });
    expect(N(">= %lld * v"), s, anymin, [&] { return s >= w; }, [&](auto & r) { if ((val(r.lhs) <= r.rhs.raw_value) != (val(s) >= rv())) fail("wrong meaning"); });
    // bounds close to the value, so that strictness matters
    assignments([&] {
        for (int d = -2; d <= 2; ++d) {
            i128 x = val(s) + d;
            ll c = ! fits(x) || rnd(0, 9) == 0 ? b : (ll)x;
            Integer C{c};
            ll keep[4];
            std::memcpy(keep, sigma, sizeof keep);
            curf("(%s) compared with %lld", show(s).c_str(), c);
            auto le = s <= C;
            auto eq = s == C;
            if ((val(le.lhs) <= le.rhs.raw_value) != (val(s) <= c)) fail("<= has the wrong meaning");
            if ((val(eq.lhs) == eq.rhs.raw_value) != (val(s) == c)) fail("== has the wrong meaning");
            bool t = false;
            try { auto ge = s >= C; if ((val(ge.lhs) <= ge.rhs.raw_value) != (val(s) >= c)) fail(">= has the wrong meaning"); }
            catch (const IntegerOverflow &) { t = true; }
            if (t != (anymin || c == INT64_MIN)) fail(">= throws wrongly");
            t = false;
            try { auto n = negate_inequality(le); if ((val(n.lhs) <= n.rhs.raw_value) == (val(s) <= c)) fail("negation is not the complement"); }
            catch (const IntegerOverflow &) { t = true; }
            if (t != (anymin || c == INT64_MIN)) fail("negation throws wrongly");
        }
    });
}
int main(int argc, char ** argv)
{
    start(argc, argv);
    p = pool(g_thorough ? 60 : 20);
    for (int it = 0; it < (g_thorough ? 60000 : 6000) && time_left(); ++it) {
        WeightedSum s;
        for (int n = rnd(0, 6); n--;) {
            auto w = Integer{pick()} * var();
            s.terms.push_back(w);
        }
        SimpleIntegerVariableID x{(unsigned long long)rnd(0, 3)};
        ll k = pick(), b = pick();
        with<IntegerVariableID>(s, var(), k, b);
        with(s, x, k, b);
        with(s, ViewOfIntegerVariableID{x, rnd(0, 1) == 1, Integer{rnd(-9, 9)}}, k, b);
        with(s, ConstantIntegerVariableID{Integer{rnd(-9, 9)}}, k, b);
        curf("term accessors, coefficient %lld", k);
        using innards::get_coeff, innards::get_var, innards::PositiveOrNegative;
        if (get_coeff(x).raw_value != 1 || ! (get_var(x) == x)) fail("plain variable");
        Weighted<SimpleIntegerVariableID> w{Integer{k}, x};
        if (get_coeff(w).raw_value != k || ! (get_var(w) == x)) fail("weighted variable");
        for (bool pos : {false, true}) {
            PositiveOrNegative<SimpleIntegerVariableID> q{pos, x};
            if (get_coeff(q).raw_value != (pos ? 1 : -1) || ! (get_var(q) == x)) fail("signed variable");
        }
    }
    finish();
}
