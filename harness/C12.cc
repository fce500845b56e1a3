#include "difference.hh"
// least bounds implied, or empty when they grow without end
static std::vector<i128> closure(const Graph & g, bool by_tail, const std::vector<Integer> & b)
{
    std::vector<i128> c(g.n);
    for (size_t v = 0; v < g.n; ++v) c[v] = b[v].raw_value;
    for (size_t r = 0; r <= g.n + 1; ++r) {
        bool ch = false;
        for (size_t e = 0; e < g.arcs.size(); ++e) {
            if (! g.on(e)) continue;
            auto s = by_tail ? g.arcs[e].from : g.arcs[e].to, t = by_tail ? g.arcs[e].to : g.arcs[e].from;
            if (c[s] - g.arcs[e].d.raw_value > c[t]) c[t] = c[s] - g.arcs[e].d.raw_value, ch = true;
        }
        if (! ch) return c;
    }
    return {};
}
int main(int argc, char ** argv)
{
    start(argc, argv);
    DifferenceBoundsWorkspace keep;
    for (int it = 0; it < (g_thorough ? 400000 : 40000) && time_left(); ++it) {
        ll scale = std::vector<ll>{1, 3, 10, 1000, 1ll << 33, 1ll << 40}[rnd(0, 5)];
        bool big = rnd(0, 40) == 0, by_tail = rnd(0, 1);
        auto g = random_graph(big ? 60 : rnd(1, 8), big ? 200 : rnd(0, 24), scale);
        auto pot = g.potential();
        if (g.n && pot.empty()) continue;
        auto adj = build_difference_adjacency(g.n, g.arcs, by_tail);
        std::vector<Integer> p(g.n, 0_i), bound(g.n, 0_i), gate(g.n, 0_i);
        std::vector<char> forced(g.n, 0);
        ll shift = rnd(-scale, scale);
        for (size_t v = 0; v < g.n; ++v) p[v] = Integer{(by_tail ? 1 : -1) * ((ll)pot[v] + shift)};
        DifferenceBoundsWorkspace fresh, & w = rnd(0, 1) ? keep : fresh;
        // an earlier fixpoint, from which a history of changes starts
        for (size_t v = 0; v < g.n; ++v) bound[v] = Integer{rnd(-scale, scale)};
        int mode = rnd(0, 2);
        if (mode == 0) {
            for (size_t v = 0; v < g.n; ++v) { gate[v] = bound[v]; forced[v] = 1; }
        } else {
            auto c = closure(g, by_tail, bound);
            for (size_t v = 0; v < g.n; ++v) gate[v] = bound[v] = Integer{(ll)c[v]};
        }
        for (int k = rnd(1, 6); k > 0; --k) {
            if (mode != 0 || rnd(0, 1))
                for (size_t v = 0; v < g.n; ++v) if (rnd(0, 2) == 0) bound[v] += Integer{rnd(0, scale)};
            // arcs switched on force their tails
            std::string acts;
            if (! g.active.empty() && rnd(0, 1))
                for (size_t e = 0; e < g.arcs.size(); ++e)
                    if (rnd(0, 3) == 0) {
                        if (g.active[e]) g.active[e] = 0;
                        else {
                            g.active[e] = 1;
                            if ((i128)p[by_tail ? g.arcs[e].from : g.arcs[e].to].raw_value + g.arcs[e].d.raw_value - p[by_tail ? g.arcs[e].to : g.arcs[e].from].raw_value < 0) g.active[e] = 0;
                            else forced[by_tail ? g.arcs[e].from : g.arcs[e].to] = 1;
                        }
                    }
            std::string what = std::string(by_tail ? "lower" : "upper") + " bounds of " + g.text() + " from";
            for (size_t v = 0; v < g.n && v < 20; ++v) what += " " + std::to_string(bound[v].raw_value) + "(gate " + std::to_string(gate[v].raw_value) + (forced[v] ? ", forced)" : ")");
            cur(what);
            auto want = closure(g, by_tail, bound);
            if (g.n && want.empty()) break;
            bool audit_gates = true;
            (void)audit_gates;
            difference_incremental_bounds(g.n, g.arcs, adj, by_tail, g.active, p, bound, gate, forced, w);
            std::vector<int> place(g.n, -1);
            for (size_t i = 0; i < w.settle_order.size(); ++i) {
                auto v = w.settle_order[i];
                if (v >= g.n || place[v] >= 0) fail("the settle order is wrong at %zu", i);
                if (w.has_predecessor[v]) {
                    auto e = w.predecessor[v];
                    if (e >= g.arcs.size() || ! g.on(e) || (by_tail ? g.arcs[e].to : g.arcs[e].from) != v) fail("node %zu has predecessor arc %zu", v, e);
                    auto u = by_tail ? g.arcs[e].from : g.arcs[e].to;
                    if (place[u] < 0) fail("the predecessor of node %zu is not settled earlier", v);
                    if (w.settled_bound[u] - g.arcs[e].d != w.settled_bound[v]) fail("the bound of node %zu does not come from its predecessor", v);
                }
                else if (w.settled_bound[v] != bound[v]) fail("node %zu has no predecessor but another bound", v);
                place[v] = i;
            }
            for (size_t v = 0; v < g.n; ++v) {
                i128 got = bound[v].raw_value;
                if (place[v] >= 0 && w.settled_bound[v].raw_value > got) got = w.settled_bound[v].raw_value;
                if (got != want[v]) fail("node %zu: bound %s, should be %s", v, s128(got).c_str(), s128(want[v]).c_str());
            }
            bool again = true;
            for (size_t v = 0; v < g.n; ++v) {
                if (place[v] >= 0) gate[v] = w.settled_bound[v];
                bound[v] = Integer{(ll)want[v]};
                forced[v] = 0;
            }
            // gates recorded by a run stay usable while no arc is switched on silently
            for (auto & f : forced) f = 0;
            if (! again) break;
        }
    }
    finish();
}
