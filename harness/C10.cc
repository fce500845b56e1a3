#include "common.hh"
#include <gcs/innards/interval_tree.hh>
using namespace gcs;
using P = std::pair<ll, ll>;

static void query(const innards::IntervalTree & t, const std::set<P> & model, ll lo, ll hi)
{
    for (int k = 0; k < 2; ++k) {
        curf("%zu intervals stored, query %s [%lld, %lld]", model.size(), k ? "contained in" : "containing", lo, hi);
        std::vector<P> got, want;
        auto v = [&](Integer c, Integer d) { got.push_back({c.raw_value, d.raw_value}); };
        if (k) t.for_each_contained_in(Integer{lo}, Integer{hi}, v);
        else t.for_each_containing(Integer{lo}, Integer{hi}, v);
        for (auto & [c, d] : model)
            if (k ? (c >= lo && d <= hi) : (c <= lo && d >= hi)) want.push_back({c, d});
        if (got != want) {
            std::string s;
            int n = 0;
            for (auto & [c, d] : model) if (n++ < 40) s += " [" + std::to_string(c) + "," + std::to_string(d) + "]";
            fail("visited %zu intervals, should visit %zu in order; stored:%s", got.size(), want.size(), s.c_str());
        }
    }
}
int main(int argc, char ** argv)
{
    start(argc, argv);
    auto p = pool(20);
    for (int it = 0; it < (g_thorough ? 20000 : 2500) && time_left(); ++it) {
        innards::IntervalTree t;
        std::set<P> model;
        int n = it < 1500 ? rnd(0, 12) : rnd(0, 400), range = rnd(0, 3) == 0 ? 3 : rnd(4, 60), mode = rnd(0, 4);
        query(t, model, 0, 0);
        for (int i = 0; i < n; ++i) {
            ll a, b;
            switch (mode) {
            case 0: a = i / 3; b = a + rnd(0, range); break;
            case 1: a = -i / 3; b = a + rnd(0, range); break;
            case 2: a = p[rnd(0, p.size() - 1)]; b = p[rnd(0, p.size() - 1)]; break;
            case 3: a = rnd(-range, range); b = rnd(-range, range); break; // inverted ones too
            default: a = rnd(-range, range); b = a + rnd(0, range); break;
            }
            curf("insert [%lld, %lld] into a tree of %zu", a, b, model.size());
            t.insert(Integer{a}, Integer{b});
            if (rnd(0, 20) == 0) t.insert(Integer{a}, Integer{b});
            model.insert({a, b});
            if (n <= 12 || i % 37 == 0) {
                query(t, model, a, b);
                ll x = rnd(-range, range);
                query(t, model, x, x + rnd(0, range));
            }
        }
        for (int q = 0; q < 12; ++q) {
            ll x = mode == 2 ? p[rnd(0, p.size() - 1)] : rnd(-range - 1, range + 1), y = mode == 2 ? p[rnd(0, p.size() - 1)] : x + rnd(-1, range);
            query(t, model, x, y);
        }
        query(t, model, INT64_MIN, INT64_MAX);
    }
    finish();
}
