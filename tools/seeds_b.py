import sys; sys.path.insert(0, __file__.rsplit("/", 1)[0])
from seeds import make
B = ["gcs/innards/integer_overflow.cc", "gcs/exception.cc"]
D = ["gcs/constraints/difference/difference_incremental.cc"]
DF = D[0]
HD = """#include <gcs/constraints/difference/difference_incremental.hh>
#include <cstdio>
#include <vector>
#include <random>
using namespace gcs;
using namespace gcs::innards;
"""

make("b01", "C11", [(DF, """    for (auto v : work.touched) {
        work.gamma[v] = 0_i;
        work.is_updated[v] = 0;
    }
""", """    // leave the scratch clean for the next call
    for (auto v : work.touched) {
        work.gamma[v] = 0_i;
        if (result)
            work.is_updated[v] = 0;
    }
""")], HD + """int main() {
    // 0 -> 1 -> 2 -> 0 is a negative cycle once arc 2 joins; afterwards, without it, arc 3 needs a chain of repairs
    std::vector<DifferenceArc> arcs(5, DifferenceArc{0, 0, 0_i, 0});
    auto set = [&](int e, size_t f, size_t t, long long d) { arcs[e].from = f; arcs[e].to = t; arcs[e].d = Integer{d}; };
    set(0, 0, 1, 0); set(1, 1, 2, 0); set(2, 2, 0, -1); set(3, 3, 0, -5); set(4, 2, 4, 0);
    auto adj = build_difference_adjacency(5, arcs, true);
    DifferencePotentialWorkspace work;
    std::vector<Integer> pi(5, 0_i);
    std::vector<char> active{1, 1, 1, 0, 1};
    if (difference_repair_potential(5, arcs, adj, active, pi, 2, work)) { printf("accepted a negative cycle\\n"); return 1; }
    active[2] = 0; active[3] = 1;
    if (! difference_repair_potential(5, arcs, adj, active, pi, 3, work)) { printf("refused a satisfiable system\\n"); return 1; }
    if (auto bad = difference_invalid_potential_arc(arcs, active, pi)) { printf("arc %zu is violated\\n", *bad); return 1; }
    return 0;
}""", D + B, "an activation that is refused, then another activation sharing the workspace that must repair the same nodes", "nodes marked as updated by the refused call are skipped, and the repaired potential is invalid")

make("b02", "C11", [(DF, """                if (candidate < work.gamma[next]) {
                    if (0_i == work.gamma[next])
                        work.touched.push_back(next);
                    work.gamma[next] = candidate;
                    work.heap.emplace_back(candidate, next);
                    push_heap(work.heap, greater{});
                }""", """                if (candidate < work.gamma[next]) {
                    if (0_i == work.gamma[next]) {
                        work.touched.push_back(next);
                        work.heap.emplace_back(candidate, next);
                        push_heap(work.heap, greater{});
                    }
                    else
                        for (auto & [g, v] : work.heap)
                            if (v == next)
                                g = candidate; // already queued: decrease its key
                    work.gamma[next] = candidate;
                }""")], HD + """int main() {
    std::mt19937 rng(7);
    auto rnd = [&](int lo, int hi) { return lo + (int)(rng() % (unsigned)(hi - lo + 1)); };
    for (int it = 0; it < 20000; ++it) {
        size_t n = 8;
        std::vector<int> p(n);
        for (auto & x : p) x = rnd(-20, 20);
        std::vector<DifferenceArc> arcs(20, DifferenceArc{0, 0, 0_i, 0});
        for (auto & a : arcs) {
            a.from = rnd(0, 7); a.to = rnd(0, 7);
            a.d = Integer{p[a.to] - p[a.from] + rnd(0, 3)}; // always satisfied by p
        }
        auto adj = build_difference_adjacency(n, arcs, true);
        DifferencePotentialWorkspace work;
        std::vector<Integer> pi(n, 0_i);
        std::vector<char> active(arcs.size(), 0);
        for (size_t e = 0; e < arcs.size(); ++e) {
            active[e] = 1;
            bool ok = difference_repair_potential(n, arcs, adj, active, pi, e, work);
            if (! ok || difference_invalid_potential_arc(arcs, active, pi)) { printf("it %d arc %zu\\n", it, e); return 1; }
        }
    }
    return 0;
}""", D + B, "a node reached twice during one repair, the second time with a lower key, so that the heap order is broken", "a node is processed before its final value is known and the repaired potential is invalid")

make("b03", "C12", [(DF, """            work.queued[v] = 1;
            work.has_predecessor[v] = 0;
            work.heap""", """            work.queued[v] = 1;
            work.heap"""), (DF, """    for (auto v : work.settle_order) {
        work.queued[v] = 0;
        work.settled[v] = 0;
    }""", """    for (auto v : work.settle_order) {
        work.queued[v] = 0;
        work.settled[v] = 0;
        if (gate[v] >= work.settled_bound[v])
            work.has_predecessor[v] = 0;
    }""")], HD + """int main() {
    std::vector<DifferenceArc> arcs(1, DifferenceArc{0, 0, 0_i, 0});
    arcs[0].from = 0; arcs[0].to = 1; arcs[0].d = Integer{-2};
    auto adj = build_difference_adjacency(2, arcs, true);
    DifferenceBoundsWorkspace w;
    std::vector<Integer> pi{0_i, -2_i}, bound{1_i, 0_i}, gate{0_i, 0_i};
    std::vector<char> forced(2, 0);
    difference_incremental_bounds(2, arcs, adj, true, {}, pi, bound, gate, forced, w);
    if (w.settled_bound[1] != 3_i || ! w.has_predecessor[1]) { printf("first pass\\n"); return 1; }
    bound = {1_i, 9_i}; gate = {1_i, 3_i};
    difference_incremental_bounds(2, arcs, adj, true, {}, pi, bound, gate, forced, w);
    if (w.settle_order.size() != 1 || w.settle_order[0] != 1 || w.settled_bound[1] != 9_i) { printf("second pass\\n"); return 1; }
    if (w.has_predecessor[1]) { printf("node 1 claims a predecessor that never settled\\n"); return 1; }
    return 0;
}""", D + B, "two passes sharing a workspace, the second seeding a node the first reached across an arc", "a node settled from its own bound still names the old predecessor, which did not settle in this pass")

make("b04", "C12", [(DF, """    for (auto v : work.settle_order) {
        work.queued[v] = 0;
        work.settled[v] = 0;
    }""", """    for (auto v : work.settle_order) {
        // a node that brought nothing new was never expanded
        if (! in_start_set(v) && work.settled_bound[v] <= bound[v])
            continue;
        work.queued[v] = 0;
        work.settled[v] = 0;
    }""")], HD + """int main() {
    std::vector<DifferenceArc> arcs(1, DifferenceArc{0, 0, 0_i, 0});
    arcs[0].from = 0; arcs[0].to = 1;
    auto adj = build_difference_adjacency(2, arcs, true);
    DifferenceBoundsWorkspace w;
    std::vector<Integer> pi{0_i, 0_i}, bound{1_i, 5_i}, gate{0_i, 5_i};
    std::vector<char> forced(2, 0);
    difference_incremental_bounds(2, arcs, adj, true, {}, pi, bound, gate, forced, w);
    bound = {1_i, 7_i}; gate = {1_i, 5_i};
    difference_incremental_bounds(2, arcs, adj, true, {}, pi, bound, gate, forced, w);
    for (auto v : w.settle_order) if (v == 1 && w.settled_bound[1] == 7_i) return 0;
    printf("node 1 was not settled\\n");
    return 1;
}""", D + B, "two passes sharing a workspace, the first reaching a node without improving its bound and the second starting from it", "the node still counts as settled and its new bound is never propagated")

S = ["gcs/innards/s_expr.cc"]
HS = """#include <gcs/innards/s_expr.hh>
#include <cstdio>
#include <format>
#include <string>
using namespace gcs::innards;
"""
make("b05", "C14", [("gcs/innards/s_expr.hh", """            first = false;
            out = std::format_to(out, "{}", child);
        }
        if (! bare)
            *out++ = ')';
        return out;
    }
};
#else""", """            first = false;
            out = bare && expr.as_list().size() == 1 ? std::format_to(out, "{:#}", child) : std::format_to(out, "{}", child);
        }
        if (! bare)
            *out++ = ')';
        return out;
    }
};
#else""")], HS + """int main() {
    auto e = SExpr::list({SExpr::list({SExpr::atom("a"), SExpr::atom("b")})});
    auto s = std::format("{:#}", e);
    printf("%s\\n", s.c_str());
    return s == "(a b)" ? 0 : 1;
}""", S + B, "the bare form of a list whose only child is a list", "the child loses its own parentheses")
make("b06", "C14", [("gcs/innards/s_expr.cc", r"return c == ' ' || c == '\t' || c == '\n' || c == '\r' || c == '\f' || c == '\v';", "return c <= ' ';")], HS + r"""int main() {
    auto e = SExpr::atom("caf\xc3\xa9");
    auto s = std::format("{}", e);
    try { return parse_s_expr(s) == e ? 0 : 1; }
    catch (const SExprParseError & x) { printf("%s\n", x.what()); return 1; }
}""", S + B, "an atom with a byte above 127", "a name outside ASCII is split into several terms")
make("b07", "C14", [("gcs/innards/s_expr.cc", """    Reader reader{text};
    vector<SExpr> result;
    while (! reader.at_end())
        result.push_back(reader.read_one());
    return result;""", """    Reader reader{text};
    vector<SExpr> result;
    while (! reader.at_end()) {
        try {
            result.push_back(reader.read_one());
        }
        catch (const SExprParseError &) {
            if (result.empty())
                throw;
            break; // keep what was read
        }
    }
    return result;""")], HS + """int main() {
    try { auto r = parse_s_expr_seq("(a) b (c"); printf("%zu terms\\n", r.size()); return 1; }
    catch (const SExprParseError &) { return 0; }
}""", S + B, "a well-formed term followed by a malformed one", "a truncated sequence is accepted")
