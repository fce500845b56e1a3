#include "difference.hh"
static bool valid(const Graph & g, const std::vector<Integer> & p)
{
    if (p.size() != g.n) return false;
    for (size_t e = 0; e < g.arcs.size(); ++e)
        if (g.on(e) && (i128)p[g.arcs[e].from].raw_value + g.arcs[e].d.raw_value - p[g.arcs[e].to].raw_value < 0) return false;
    return true;
}
int main(int argc, char ** argv)
{
    start(argc, argv);
    std::vector<DifferencePotentialWorkspace> ws(1);
    for (int it = 0; it < (g_thorough ? 400000 : 30000) && time_left(); ++it) {
        ll scale = std::vector<ll>{1, 3, 10, 1000, 1ll << 33, 1ll << 40}[rnd(0, 5)];
        bool big = rnd(0, 40) == 0;
        auto g = random_graph(big ? 60 : rnd(1, 8), big ? 200 : rnd(0, 24), scale);
        cur("initial potential of " + g.text());
        auto by_tail = build_difference_adjacency(g.n, g.arcs, true), by_head = build_difference_adjacency(g.n, g.arcs, false);
        check_adjacency(g, by_tail, true);
        check_adjacency(g, by_head, false);
        auto pot = difference_initial_potential(g.n, g.arcs, g.active);
        if (pot.has_value() != g.satisfiable()) fail(pot ? "one is reported, but there is a negative cycle" : "none is reported, but the system is satisfiable");
        if (pot && ! valid(g, *pot)) fail("it is not valid");
        // validity audit of arbitrary potentials
        {
            std::vector<Integer> p(g.n, 0_i);
            for (auto & x : p) x = Integer{rnd(-scale, scale)};
            if (pot && rnd(0, 1)) { p = *pot; if (rnd(0, 1)) p[rnd(0, g.n - 1)] -= Integer{rnd(0, 1)}; }
            cur("audit of a potential of " + g.text());
            auto bad = difference_invalid_potential_arc(g.arcs, g.active, p);
            if (bad.has_value() == valid(g, p)) fail("verdict is wrong");
            if (bad && (*bad >= g.arcs.size() || ! g.on(*bad) || p[g.arcs[*bad].from] + g.arcs[*bad].d - p[g.arcs[*bad].to] >= 0_i)) fail("reports arc %zu", *bad);
        }
        // activation and deactivation history with one repaired potential
        auto h = g;
        h.active.assign(g.arcs.size(), 0);
        if (g.arcs.empty()) continue;
        std::vector<Integer> p(g.n, 0_i);
        if (rnd(0, 3) == 0) for (auto & x : p) x = Integer{rnd(-scale, scale)};
        if (rnd(0, 2) == 0) ws.assign(1, {});
        auto & w = ws[0];
        std::string hist = "repairs from";
        for (auto & x : p) hist += " " + std::to_string(x.raw_value);
        for (int k = rnd(1, 3 * g.arcs.size()); k > 0; --k) {
            size_t e = rnd(0, g.arcs.size() - 1);
            if (h.active[e]) { if (rnd(0, 1)) { h.active[e] = 0; hist += " off" + std::to_string(e); } continue; }
            h.active[e] = 1;
            if (hist.size() < 600) hist += " on" + std::to_string(e);
            cur(hist + " of " + g.text());
            auto old = p;
            auto ok = difference_repair_potential(h.n, h.arcs, by_tail, h.active, p, e, w);
            if (ok != h.satisfiable()) fail(ok ? "a negative cycle is not noticed" : "a satisfiable system is refuted");
            if (ok && ! valid(h, p)) fail("the repaired potential is not valid");
            if (! ok) {
                if (p != old) fail("the potential changed although the arc closes a negative cycle");
                h.active[e] = 0;
            }
        }
    }
    // far ends of the range: exact or an overflow exception
    for (int it = 0; it < 3000 && time_left(); ++it) {
        auto g = random_graph(5, 10, 4);
        auto vs = pool(3);
        for (auto & a : g.arcs) if (rnd(0, 2) == 0) a.d = Integer{vs[rnd(0, vs.size() - 1)]};
        cur("initial potential of " + g.text());
        try {
            auto pot = difference_initial_potential(g.n, g.arcs, g.active);
            if (pot.has_value() != g.satisfiable()) fail("verdict is wrong");
            if (pot && ! valid(g, *pot)) fail("it is not valid");
        }
        catch (const IntegerOverflow &) {
            auto ps = g.potential();
            bool rep = g.satisfiable();
            for (auto x : ps) if (! fits(x)) rep = false;
            if (rep) fail("overflow although the shortest distances are representable");
        }
    }
    finish();
}
