import sys; sys.path.insert(0, __file__.rsplit("/", 1)[0])
from seeds import make
B = ["gcs/innards/integer_overflow.cc", "gcs/exception.cc", "gcs/constraints/difference/difference_simplify.cc"]
DS = "gcs/constraints/difference/difference_simplify.cc"
H = """#include <gcs/constraints/difference/difference_simplify.hh>
#include <cstdio>
using namespace gcs;
using namespace gcs::innards;
gcs::ComponentStats::~ComponentStats() = default;
using enum DifferenceSimplifyRole;
static int bad(const char * s) { std::puts(s); return 1; }
"""

make("d01", "C13", [(DS, """        dist[s] = 0_i;
        touched.push_back(s);
""", """        dist[s] = 0_i;
"""), (DS, """                    if (! dist[w])
                        touched.push_back(w);
                    dist[w] = candidate;""", """                    if (! parent[w])
                        touched.push_back(w);
                    dist[w] = candidate;""")], H + """int main() {
    // 0 -> 1, and a candidate 1 -> 0 -> ... : 1 cannot reach 0
    auto o = simplify_difference_graph(3, {{0, 1, 1_i}, {1, 2, 1_i}, {1, 0, 5_i}}, {Base, Base, Candidate});
    if (o.remove[2]) return bad("a candidate nothing implies is removed");
    return o.remove[0] || o.remove[1] || ! o.fix.empty() ? bad("a needed arc is removed or a condition fixed") : 0;
}""", B, "a source that a later source cannot reach", "the earlier source keeps its distance zero for later sources, and needed conditional arcs are dropped or possible conditions fixed")

make("d02", "C13", [(DS, """                    dist[w] = candidate;
                    parent[w] = e;""", """                    dist[w] = candidate;
                    if (! parent[w])
                        parent[w] = e;""")], H + """int main() {
    // 0 -> 2 directly at 5, and through 1 at 2; the condition's arc 2 -> 0 at -3 closes a negative cycle only through 1
    auto o = simplify_difference_graph(3, {{0, 2, 5_i}, {0, 1, 1_i}, {1, 2, 1_i}, {2, 0, -3_i}}, {Base, Base, Base, Candidate});
    if (o.fix.size() != 1) return bad("the condition is not fixed");
    Integer sum = -3_i;
    Integer w[] = {5_i, 1_i, 1_i, -3_i};
    for (auto e : o.fix[0].second) sum += w[e];
    return sum < 0_i ? 0 : bad("the witness cycle is not negative");
}""", B, "a node first reached over a longer path than its shortest", "the path given for a fixed condition is the first one found, and its cycle may have non-negative weight")

make("d03", "C13", [(DS, """        if (round == n) {
""", """        if (round == n || round + 1 == base.size()) { // no path is longer than that
""")], H + """int main() {
    // a chain listed from its end needs one round per arc
    auto o = simplify_difference_graph(4, {{2, 3, -1_i}, {1, 2, -1_i}, {0, 1, -1_i}}, {Base, Base, Base});
    return o.base_negative_cycle ? bad("a chain is reported as a negative cycle") : 0;
}""", B, "base arcs that form one chain of negative weights listed against their direction", "a satisfiable base graph is reported as having a negative cycle")

make("d04", "C13", [(DS, """            if (outcome.remove[e])
                continue;
            auto u = edges[e].from;
            if (! dist[u])
                continue;
            if (edges[e].d + real_distance(u) >= 0_i)""", """            auto u = edges[e].from;
            if (outcome.remove[e] || ! dist[u] || (! parent[u] && u != s))
                continue;
            if (edges[e].d + *dist[u] > h[u] - h[s] && edges[e].d + real_distance(u) >= 0_i)""")], H + """int main() {
    auto o = simplify_difference_graph(2, {{0, 1, 3_i}, {1, 0, -3_i}, {1, 0, -4_i}}, {Base, Candidate, Candidate});
    if (o.fix.size() != 1 || o.fix[0].first != 2) return bad("the wrong conditions are fixed");
    auto p = simplify_difference_graph(2, {{0, 1, -3_i}, {1, 0, 3_i}}, {Base, Candidate});
    return p.fix.empty() ? 0 : bad("a condition closing a zero-weight cycle is fixed");
}""", B, "a candidate closing a cycle of weight exactly zero", "a condition that could hold is fixed false")
