#include "difference.hh"
#include <gcs/constraints/difference/difference_simplify.hh>
using Role = DifferenceSimplifyRole;
gcs::ComponentStats::~ComponentStats() = default; // a base class of the statistics record declared beside the function
static const i128 INF = (i128)1 << 100;
static std::vector<std::vector<i128>> closure(size_t n, const std::vector<DifferenceSimplifyEdge> & es, const std::vector<bool> & use)
{
    std::vector<std::vector<i128>> D(n, std::vector<i128>(n, INF));
    for (size_t v = 0; v < n; ++v) D[v][v] = 0;
    for (size_t e = 0; e < es.size(); ++e)
        if (use[e]) D[es[e].from][es[e].to] = std::min<i128>(D[es[e].from][es[e].to], es[e].d.raw_value);
    for (size_t k = 0; k < n; ++k)
        for (size_t i = 0; i < n; ++i)
            for (size_t j = 0; j < n; ++j)
                if (D[i][k] < INF && D[k][j] < INF) D[i][j] = std::min(D[i][j], std::max(D[i][k] + D[k][j], -INF / 4));
    return D;
}
int main(int argc, char ** argv)
{
    start(argc, argv);
    for (int it = 0; it < (g_thorough ? 400000 : 40000) && time_left(); ++it) {
        ll scale = std::vector<ll>{1, 2, 3, 10, 1000, 1ll << 33, 1ll << 40}[rnd(0, 6)];
        auto g = random_graph(rnd(0, 60) == 0 ? 24 : 7, rnd(0, 60) == 0 ? 80 : 20, scale);
        size_t n = g.n, m = g.arcs.size();
        std::vector<DifferenceSimplifyEdge> es;
        std::vector<Role> roles;
        int mix = rnd(0, 3);
        for (auto & a : g.arcs) {
            es.push_back(DifferenceSimplifyEdge{a.from, a.to, a.d});
            roles.push_back(mix == 0 ? Role::Base : rnd(0, 2 + mix) ? (rnd(0, 1) ? Role::Base : Role::Candidate) : Role::Ignored);
        }
        if (mix == 2 && m > 1 && rnd(0, 1)) { auto a = rnd(0, m - 1), b = rnd(0, m - 1); es[a] = es[b]; }
        if (rnd(0, 400) == 0) n = es.empty() ? 0 : n;
        std::string s = std::to_string(n) + " nodes;";
        for (size_t e = 0; e < m; ++e)
            s += " " + std::to_string(es[e].from) + "-(" + std::to_string(es[e].d.raw_value) + (roles[e] == Role::Base ? "" : roles[e] == Role::Candidate ? ",candidate" : ",ignored") + ")->" + std::to_string(es[e].to);
        cur("simplification of " + s);
        auto o = simplify_difference_graph(n, es, roles);
        std::vector<bool> base(m), kept(m);
        for (size_t e = 0; e < m; ++e) base[e] = roles[e] == Role::Base;
        auto D = closure(n, es, base);
        bool neg = false;
        for (size_t v = 0; v < n; ++v) neg = neg || D[v][v] < 0;
        if (o.remove.size() != m) fail("there are %zu decisions for %zu arcs", o.remove.size(), m);
        if (o.base_negative_cycle != neg) fail(neg ? "the negative cycle of the base graph is not reported" : "a negative cycle is reported, but there is none");
        if (neg) {
            if (! o.fix.empty()) fail("something is fixed although the base graph is refuted");
            for (size_t e = 0; e < m; ++e) if (o.remove[e]) fail("arc %zu is removed although the base graph is refuted", e);
            continue;
        }
        std::vector<int> fixed(m);
        for (auto & f : o.fix) {
            if (f.first >= m || roles[f.first] != Role::Candidate) fail("arc %zu is fixed but is no candidate", f.first);
            if (fixed[f.first]++) fail("arc %zu is fixed twice", f.first);
            i128 sum = es[f.first].d.raw_value;
            auto at = es[f.first].to;
            for (auto p : f.second) {
                if (p >= m || ! base[p] || es[p].from != at) fail("the path of fixed arc %zu does not lead on at arc %zu", f.first, p);
                sum += es[p].d.raw_value;
                at = es[p].to;
            }
            if (at != es[f.first].from) fail("the path of fixed arc %zu does not lead back", f.first);
            if (sum >= 0) fail("the cycle of fixed arc %zu does not have negative weight", f.first);
        }
        for (size_t e = 0; e < m; ++e) {
            auto f = es[e].from, t = es[e].to;
            auto d = es[e].d.raw_value;
            kept[e] = base[e] && ! o.remove[e];
            if (roles[e] == Role::Ignored && o.remove[e]) fail("ignored arc %zu is removed", e);
            if (roles[e] != Role::Candidate) continue;
            bool closes = D[t][f] < INF && d + D[t][f] < 0;
            if (closes != bool(fixed[e])) fail(closes ? "candidate arc %zu closes a negative cycle but is not fixed" : "candidate arc %zu is fixed but closes no negative cycle", e);
            bool implied = D[f][t] < INF && d >= D[f][t];
            if (implied != o.remove[e]) fail(implied ? "candidate arc %zu is implied but not removed" : "candidate arc %zu is removed but not implied", e);
        }
        if (closure(n, es, kept) != D) fail("the kept base arcs do not have the distances of all base arcs");
        for (size_t e = 0; e < m; ++e)
            if (kept[e]) {
                if (D[es[e].from][es[e].to] != es[e].d.raw_value) fail("base arc %zu is kept although a shorter path implies it", e);
                for (size_t k = 0; k < e; ++k) if (kept[k] && es[k].from == es[e].from && es[k].to == es[e].to) fail("arcs %zu and %zu are kept, but are the same", k, e);
            }
        // nodes on zero-weight cycles, by component
        std::vector<int> comp(n, -1);
        size_t cycles = 0, nodes = 0;
        for (size_t v = 0; v < n; ++v) {
            if (comp[v] >= 0) continue;
            size_t size = 0;
            for (size_t w = 0; w < n; ++w) if (D[v][w] < INF && D[w][v] < INF && D[v][w] + D[w][v] == 0) comp[w] = v, ++size;
            if (size > 1) ++cycles, nodes += size;
        }
        if (o.zero_weight_cycles != cycles || o.nodes_on_zero_weight_cycles != nodes)
            fail("%zu zero-weight cycles with %zu nodes are counted, but there are %zu with %zu", o.zero_weight_cycles, o.nodes_on_zero_weight_cycles, cycles, nodes);
    }
    finish();
}
