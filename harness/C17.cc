#include "common.hh"
#include <gcs/integer.hh>
#include <gcs/interval_set.hh>
using namespace gcs;
using IS = IntervalSet<Integer>;
constexpr int U = 14;
using Bits = unsigned; // bit k stands for base + k
static ll base = 0;

static Integer at(int k) { return Integer{base + k}; }
static std::string show(Bits b)
{
    std::string s = "{";
    for (int k = 0; k < U; ++k)
        if (b >> k & 1) s += (s.size() > 1 ? "," : "") + std::to_string(base + k);
    return s + "}";
}
static std::vector<std::pair<int, int>> runs(Bits b)
{
    std::vector<std::pair<int, int>> r;
    for (int k = 0; k < U; ++k)
        if (b >> k & 1) {
            if (k && (b >> (k - 1) & 1)) r.back().second = k;
            else r.push_back({k, k});
        }
    return r;
}
static IS build(Bits b)
{
    IS s;
    for (auto [l, u] : runs(b)) {
        if (rnd(0, 1)) s.insert_at_end(at(l), at(u));
        else for (int k = l; k <= u; ++k) s.insert_at_end(at(k));
    }
    return s;
}
// the set must represent exactly b, in canonical form
static void is(const IS & s, Bits b)
{
    auto want = runs(b);
    size_t n = 0;
    for (auto [l, u] : s.each_interval()) {
        if (n >= want.size() || l != at(want[n].first) || u != at(want[n].second))
            fail("interval %zu is [%lld,%lld]; the set should be %s", n, l.raw_value, u.raw_value, show(b).c_str());
        ++n;
    }
    if (n != want.size()) fail("%zu intervals; the set should be %s", n, show(b).c_str());
}
static void queries(const IS & s, Bits b)
{
    is(s, b);
    auto r = runs(b);
    if (s.empty() != (b == 0)) fail("empty() is wrong");
    if (s.size() != Integer{__builtin_popcount(b)}) fail("size() is %lld", s.size().raw_value);
    if (b && (s.lower() != at(r.front().first) || s.upper() != at(r.back().second))) fail("lower() or upper() is wrong");
    if (s.has_holes() != (r.size() > 1)) fail("has_holes() is wrong");
    for (int k = 0; k < U; ++k)
        if (s.contains(at(k)) != bool(b >> k & 1)) fail("contains(%lld) is wrong", base + k);
    std::vector<ll> all, rev, gaps, got;
    for (int k = 0; k < U; ++k)
        if (b >> k & 1) all.push_back(base + k);
        else if (b && k > r.front().first && k < r.back().second) gaps.push_back(base + k);
    rev.assign(all.rbegin(), all.rend());
    auto same = [&](const char * what, const std::vector<ll> & want) {
        if (got != want) {
            std::string t;
            for (ll v : got) t += std::to_string(v) + " ";
            fail("%s gives %s", what, t.c_str());
        }
        got.clear();
    };
    for (auto v : s.each()) { got.push_back(v.raw_value); if (got.size() > U) break; }
    same("each()", all);
    for (auto v : s.each_reversed()) { got.push_back(v.raw_value); if (got.size() > U) break; }
    same("each_reversed()", rev);
    for (auto v : s.each_gap()) { got.push_back(v.raw_value); if (got.size() > U) break; }
    same("each_gap()", gaps);
    for (auto [l, n] : s.each_gap_interval())
        for (auto v = l; v != n && got.size() <= U; ++v) got.push_back(v.raw_value);
    same("each_gap_interval()", gaps);
    s.for_each([&](Integer v) { got.push_back(v.raw_value); if (got.size() > U) fail("for_each() goes on too long"); });
    same("for_each()", all);
    for (int k = 0; k < U; k += 3) {
        s.for_each([&](Integer v) -> bool { got.push_back(v.raw_value); return v != at(k); });
        auto w = all;
        if (b >> k & 1) while (w.back() > base + k) w.pop_back();
        same("for_each() with a visitor that stops", w);
    }
}
static void pair_queries(const IS & s, Bits b, const IS & t, Bits d)
{
    if (s.contains_any_of(t) != bool(b & d)) fail("contains_any_of() is wrong");
    std::vector<std::pair<int, int>> got;
    Bits m = 0;
    ll last = -2;
    for (auto [l, u] : s.each_interval_minus(t)) {
        i128 x = (i128)l.raw_value - base, y = (i128)u.raw_value - base;
        if (x < 0 || y >= U || x > y || x <= last + 1) fail("each_interval_minus() gives [%lld,%lld]", l.raw_value, u.raw_value);
        for (int k = x; k <= y; ++k) m |= 1u << k;
        last = y;
    }
    if (m != (b & ~d)) fail("each_interval_minus() gives %s", show(m).c_str());
}
int main(int argc, char ** argv)
{
    start(argc, argv);
    for (long it = 0; it < (g_thorough ? 400000 : 30000) && time_left(); ++it) {
        base = it % 3 == 0 ? -5 : it % 3 == 1 ? INT64_MIN : INT64_MAX - (U - 1);
        auto pick = [&] { Bits b = rnd(0, (1 << U) - 1); int m = rnd(0, 3); return m == 0 ? b : m == 1 ? b & (Bits)rnd(0, (1 << U) - 1) : m == 2 ? b | (Bits)rnd(0, (1 << U) - 1) : (b | b << 1) & ((1u << U) - 1); };
        Bits b = it < 3 ? 0 : pick(), d = pick();
        std::string what = "set " + show(b);
        cur(what);
        IS s = build(b);
        queries(s, b);
        // a chain of modifications
        for (int step = 0; step < 4; ++step) {
            int k = rnd(0, U - 1), l = rnd(0, U - 1);
            switch (rnd(0, 7)) {
            case 0: case 1: what += ", erase(" + std::to_string(base + k) + ")"; cur(what); s.erase(at(k)); b &= ~(1u << k); break;
            case 2: {
                what += ", erase_range(" + std::to_string(base + k) + "," + std::to_string(base + l) + ")"; cur(what);
                s.erase_range(at(k), at(l));
                for (int x = k; x <= l; ++x) b &= ~(1u << x);
                break;
            }
            case 3: what += ", erase_less_than(" + std::to_string(base + k) + ")"; cur(what); s.erase_less_than(at(k)); b &= ~((1u << k) - 1); break;
            case 4: what += ", erase_greater_than(" + std::to_string(base + k) + ")"; cur(what); s.erase_greater_than(at(k)); b &= (2u << k) - 1; break;
            case 5: {
                what += ", intersect_with(" + show(d) + ")"; cur(what);
                IS t = build(d);
                s.intersect_with(t);
                is(t, d);
                b &= d;
                d = pick();
                break;
            }
            case 6: {
                auto r = runs(b);
                int up = r.empty() ? 0 : r.back().second;
                k = rnd(up, U - 1), l = rnd(k, U - 1);
                if (rnd(0, 1)) {
                    what += ", insert_at_end(" + std::to_string(base + k) + ")"; cur(what);
                    s.insert_at_end(at(k)); b |= 1u << k;
                }
                else {
                    what += ", insert_at_end(" + std::to_string(base + k) + "," + std::to_string(base + l) + ")"; cur(what);
                    s.insert_at_end(at(k), at(l));
                    for (int x = k; x <= l; ++x) b |= 1u << x;
                }
                break;
            }
            default: {
                what += ", a copy compared with " + show(d); cur(what);
                IS t = build(d), c = s;
                pair_queries(s, b, t, d);
                c.clear();
                if (! c.empty()) fail("clear() leaves something");
                is(s, b);
                if (k <= l) is(IS{at(k), at(l)}, ((2u << l) - 1) & ~((1u << k) - 1));
            }
            }
            queries(s, b);
        }
    }
    // long intervals
    for (ll l : {(ll)INT64_MIN, -7ll}) {
        curf("set [%lld,%lld]", l, INT64_MAX / 2);
        IS s{Integer{l}, Integer{INT64_MAX / 2}};
        bool threw = false;
        i128 want = (i128)(INT64_MAX / 2) - l + 1;
        try { if ((i128)s.size().raw_value != want) fail("size() is %lld", s.size().raw_value); }
        catch (const innards::IntegerOverflow &) { threw = true; }
        if (threw != (want > INT64_MAX)) fail("size() %s", threw ? "throws" : "does not throw");
        s.erase_range(-3_i, 3_i);
        int n = 0;
        for (auto [a, e] : s.each_gap_interval()) { if (a != -3_i || e != 4_i) fail("wrong gap"); ++n; }
        if (n != 1) fail("wrong gaps");
    }
    finish();
}
