import sys, os, shutil; sys.path.insert(0, __file__.rsplit("/", 1)[0])
import seeds
from seeds import VERIF
K = "gcs/constraints/"
BASE = ["gcs/exception.cc"] + ["gcs/innards/" + s for s in "integer_overflow.cc state.cc propagators.cc literal.cc reason.cc variable_id_utils.cc".split()] + ["gcs/" + s for s in "variable_id.cc variable_condition.cc current_state.cc constraint.cc stats.cc".split()] + [K + s for s in "innards/reified_state.cc innards/triggers.cc innards/tabulation.cc extensional_utils.cc".split()]
only = sys.argv[1:]
DEMO = """#include <gcs/innards/propagators.hh>
#include <gcs/stats.hh>
%s
#include <cstdio>
#include <memory>
#include <set>
#include <vector>
using namespace gcs;
using namespace gcs::innards;
using Vars = std::vector<SimpleIntegerVariableID>;
using Asg = std::vector<long long>;
static void search(State & st, const Propagators & ps, const Vars & vs, const Literals & guesses, std::multiset<Asg> & out)
{
    if (! ps.propagate(guesses, st, nullptr)) return;
    Asg a;
    for (auto v : vs) {
        auto [lo, hi] = st.bounds(IntegerVariableID{v});
        if (lo != hi) {
            IntegerVariableCondition c = v == %s;
            for (int side = 0; side < 2; ++side) {
                Literal g = side ? ! c : c;
                auto t = st.new_epoch();
                st.guess(g);
                search(st, ps, vs, {g}, out);
                st.backtrack(t);
            }
            return;
        }
        a.push_back(lo.raw_value);
    }
    out.insert(a);
}
template <typename F, typename... C>
static int compare(State & st, const Vars & vs, F holds, C... cs)
{
    std::multiset<Asg> want, got;
    Asg a(vs.size());
    auto all = [&](auto & self, size_t i) -> void {
        if (i == vs.size()) {
            if (holds(a)) want.insert(a);
            return;
        }
        auto dom = st.copy_of_values(IntegerVariableID{vs[i]});
        for (auto v : dom.each()) {
            a[i] = v.raw_value;
            self(self, i + 1);
        }
    };
    all(all, 0);
    Stats stats;
    stats.set_report_handler([](const auto &) {});
    Propagators ps{stats};
    unsigned long long id = 0;
    (([&] { cs->set_constraint_id(NumberedConstraint{++id}); std::move(*cs).install(ps, st, nullptr); }()), ...);
    if (ps.initialise(st, nullptr)) search(st, ps, vs, {}, got);
    if (want == got) return 0;
    std::printf("%%zu solutions, %%zu found\\n", want.size(), got.size());
    return 1;
}
"""
SH = """#!/bin/bash
# run in /repo after the build
here=$(cd "$(dirname "$0")" && pwd)
work=$(mktemp -d)
trap 'rm -rf "$work"' EXIT
fl="-std=c++23 -O0 -w -I. -I$here"
for s in "$here"/demo.cc %s; do
    g++-14 $fl -c "$s" -o "$work"/$(echo "$s" | tr / _).o &
done
wait
g++-14 -Wl,--unresolved-symbols=ignore-all "$work"/*.o -lstdc++exp -o "$work"/demo || exit 2
"$work"/demo
"""


def m(sid, edits, incs, body, needs, breaks, more=(), prop="C20", pick="lo", use=None):
    if only and sid not in only:
        return
    d = os.path.join(VERIF, "seeded", sid)
    os.makedirs(os.path.join(d, "gch"), exist_ok=True)
    shutil.copy(os.path.join(VERIF, "shim/gch/small_vector.hpp"), os.path.join(d, "gch"))
    srcs = BASE + [s for s in (use or [e[0] for e in edits]) if s.endswith(".cc") and s not in BASE] + list(more)
    seeds.make_with(sid, prop, edits, DEMO % ("\n".join("#include <%s>" % i for i in incs), pick) + body, SH % " ".join(dict.fromkeys(srcs)), needs, breaks)


if __name__ == "__main__":
    C, I, L, Q, P = K + "comparison/comparison.cc", K + "increasing/increasing.cc", K + "logical/logical.cc", K + "equals/equals.cc", K + "plus_minus/plus.cc"
    m("h01", [(C, "return v1_bounds.second < (v2_bounds.first + (or_equal ? 1_i : 0_i)) ?", "return v1_bounds.second <= v2_bounds.first ?")], [K + "comparison.hh"], """int main()
{
    State st;
    Vars vs{st.allocate_integer_variable_with_state(1_i, 3_i), st.allocate_integer_variable_with_state(3_i, 5_i)};
    return compare(st, vs, [](const Asg & a) { return a[0] < a[1]; }, std::make_unique<LessThan>(vs[0], vs[1]));
}
""", "a strict comparison whose domains touch in one value", "a strict comparison declares itself entailed when the operands can still be equal, and accepts equal values", pick="hi")
    m("h02", [(I, "            for (size_t i = 0; i + 1 < n; ++i) {\n                if (state", "            for (size_t i = 0; i + 2 < n; ++i) {\n                if (state")], [K + "increasing.hh"], """int main()
{
    State st;
    Vars vs{st.allocate_integer_variable_with_state(0_i, 1_i), st.allocate_integer_variable_with_state(2_i, 5_i), st.allocate_integer_variable_with_state(3_i, 5_i)};
    return compare(st, vs, [](const Asg & a) { return a[0] <= a[1] && a[1] <= a[2]; }, std::make_unique<Increasing>(std::vector<IntegerVariableID>{vs.begin(), vs.end()}));
}
""", "a chain in which every pair but the last is already in order", "the last pair of a chain is not looked at before the constraint declares itself entailed")
    m("h03", [(K + "innards/reified_state.cc", "evaluated_reif::Undecided{cond.cond, false, false, true}", "evaluated_reif::Undecided{cond.cond, false, true, false}")], [K + "equals.hh"], """int main()
{
    State st;
    Vars vs{st.allocate_integer_variable_with_state(0_i, 2_i), st.allocate_integer_variable_with_state(4_i, 5_i), st.allocate_integer_variable_with_state(0_i, 1_i)};
    return compare(st, vs, [](const Asg & a) { return ! (a[2] == 1) || a[0] != a[1]; }, std::make_unique<NotEqualsIf>(vs[0], vs[1], vs[2] == 1_i));
}
""", "a half-reified disequality whose operands have disjoint domains while the condition is undecided", "the condition of a half-reified disequality is refuted when the disequality is certain to hold, so solutions are lost", more=[Q])
    m("h04", [(Q, "                return PropagatorState::Enable; // contradiction: loop sees tracker.contradicted()\n            return PropagatorState::DisableUntilBacktrack;\n        }\n        return PropagatorState::Enable;\n", "                return PropagatorState::Enable; // contradiction: loop sees tracker.contradicted()\n            return PropagatorState::DisableUntilBacktrack;\n        }\n        auto [l1, u1] = state.bounds(v1);\n        auto [l2, u2] = state.bounds(v2);\n        return u1 < l2 || u2 <= l1 ? PropagatorState::DisableUntilBacktrack : PropagatorState::Enable;\n")], [K + "equals.hh"], """int main()
{
    State st;
    Vars vs{st.allocate_integer_variable_with_state(3_i, 5_i), st.allocate_integer_variable_with_state(1_i, 3_i)};
    return compare(st, vs, [](const Asg & a) { return a[0] != a[1]; }, std::make_unique<NotEquals>(vs[0], vs[1]));
}
""", "a disequality whose first operand starts where the second ends, neither fixed", "a disequality declares itself entailed when one value is still common")
    m("h05", [(P, "        while (true) {\n            auto before", "        {\n            auto before"), (P, "            if (inference.count_inferences() == before)\n                break;\n", "            (void)before;\n")], [K + "plus.hh"], """int main()
{
    State st;
    Vars vs{st.allocate_integer_variable_with_state(0_i, 5_i), st.allocate_integer_variable_with_state(0_i, 0_i), st.allocate_integer_variable_with_state(1_i, 6_i)};
    for (long long v = 1; v < 5; ++v) (void)st.infer_not_equal(vs[0], Integer{v});
    for (long long v = 2; v < 6; ++v) (void)st.infer_not_equal(vs[2], Integer{v});
    return compare(st, vs, [](const Asg & a) { return a[0] + a[1] == a[2]; }, [&] {
        auto c = std::make_unique<Plus>(vs[0], vs[1], vs[2]);
        c->with_consistency(consistency::BC{});
        return c;
    }());
}
""", "bounds consistency asked for (no table), and domains with holes over which an inferred bound jumps, so that a pass fixes every variable to values that do not add up", "one pass is taken to be a fixed point, so the propagator is not run again on what it did itself, and a wrong sum is accepted")
