#pragma once
#include "common.hh"
#include <gcs/constraints/difference/difference_incremental.hh>
#include <gcs/integer.hh>
using namespace gcs;
using namespace gcs::innards;
struct Graph
{
    size_t n;
    std::vector<DifferenceArc> arcs;
    std::vector<char> active;
    bool on(size_t e) const { return active.empty() || active[e]; }
    std::string text() const
    {
        std::string s = std::to_string(n) + " nodes;";
        for (size_t e = 0; e < arcs.size() && e < 60; ++e)
            s += " " + std::to_string(arcs[e].from) + "-(" + std::to_string(arcs[e].d.raw_value) + (on(e) ? "" : ",off") + ")->" + std::to_string(arcs[e].to);
        return s;
    }
    // exact shortest distances from an imaginary source, empty when there is a negative cycle
    std::vector<i128> potential() const
    {
        std::vector<i128> p(n, 0);
        for (size_t r = 0; r <= n; ++r) {
            bool ch = false;
            for (size_t e = 0; e < arcs.size(); ++e)
                if (on(e) && p[arcs[e].from] + arcs[e].d.raw_value < p[arcs[e].to]) p[arcs[e].to] = p[arcs[e].from] + arcs[e].d.raw_value, ch = true;
            if (! ch) return p;
        }
        return {};
    }
    // n == 0 is always satisfiable
    bool satisfiable() const { return n == 0 || ! potential().empty(); }
};
static Graph random_graph(int maxn, int maxm, ll scale)
{
    Graph g;
    g.n = rnd(1, maxn);
    int m = rnd(0, maxm), shape = rnd(0, 4);
    std::vector<ll> hidden(g.n);
    for (auto & h : hidden) h = rnd(-scale, scale);
    for (int e = 0; e < m; ++e) {
        size_t a = rnd(0, g.n - 1), b = rnd(0, g.n - 1);
        ll d;
        switch (shape) {
        case 0: d = rnd(-scale, scale); break;
        case 1: d = hidden[b] - hidden[a] + rnd(0, 2); break;              // satisfiable, many tight
        case 2: d = hidden[b] - hidden[a] + (rnd(0, 15) ? rnd(0, 3) : -1); break; // nearly
        case 3: d = rnd(-1, scale / 2); break;
        default: a = e % g.n; b = (e + 1) % g.n; d = rnd(-2, 2); break;    // long paths and cycles
        }
        g.arcs.push_back({a, b, Integer{d}, size_t(e)});
    }
    if (rnd(0, 2))
        for (int e = 0; e < m; ++e) g.active.push_back(rnd(0, 3) ? (rnd(0, 1) ? 1 : 2) : 0);
    return g;
}
static void check_adjacency(const Graph & g, const DifferenceAdjacency & adj, bool by_tail)
{
    if (adj.start.size() != g.n + 1 || adj.arcs.size() != g.arcs.size()) fail("adjacency sizes");
    if (adj.start[0] != 0 || adj.start[g.n] != g.arcs.size()) fail("adjacency does not cover the arcs");
    std::vector<int> seen(g.arcs.size());
    for (size_t v = 0; v < g.n; ++v) {
        if (adj.start[v] > adj.start[v + 1] || adj.start[v + 1] > adj.arcs.size()) fail("adjacency block of node %zu", v);
        for (auto i = adj.start[v]; i != adj.start[v + 1]; ++i) {
            auto e = adj.arcs[i];
            if (e >= g.arcs.size() || (by_tail ? g.arcs[e].from : g.arcs[e].to) != v) fail("adjacency of node %zu lists arc %zu", v, e);
            if (seen[e]++) fail("arc %zu is listed twice", e);
        }
    }
}
