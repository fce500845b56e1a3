import sys, os, shutil; sys.path.insert(0, __file__.rsplit("/", 1)[0])
import seeds, seeds_h
from seeds import VERIF
K = "gcs/constraints/"
SRC = [s for s in seeds_h.BASE if "tabulation" not in s and "extensional" not in s] + ["gcs/" + s for s in "solve.cc problem.cc restarts.cc search_heuristics.cc presolver.cc".split()] + [K + s for s in "nogoods/nogoods.cc in/in.cc equals/equals.cc comparison/comparison.cc".split()]
only = [a for a in sys.argv[1:]] or ([] if __name__ == "__main__" else ["none"])
DEMO = """#include <gcs/constraint.hh>
#include <gcs/presolver.hh>
#include <gcs/problem.hh>
#include <gcs/search_heuristics.hh>
#include <gcs/solve.hh>
#include <gcs/innards/inference_tracker.hh>
#include <gcs/innards/propagators.hh>
#include <gcs/innards/s_expr.hh>
#include <gcs/innards/state.hh>
#include <gcs/stats.hh>
#include <atomic>
#include <cstdio>
#include <functional>
#include <memory>
#include <set>
#include <vector>
using namespace gcs;
using namespace gcs::innards;
using Asg = std::vector<long long>;
using Pred = std::function<bool(const Asg &)>;
// does nothing until every variable is fixed
class Check : public Constraint
{
    std::vector<IntegerVariableID> _vars;
    Pred _ok;
    std::function<void()> _then;
    auto install_propagators(Propagators & ps) -> void override
    {
        Triggers t;
        t.on_instantiated = _vars;
        ps.install(constraint_id(), [vars = _vars, ok = _ok, then = _then](const State & state, auto & inference, ProofLogger * const logger) -> PropagatorState {
            Asg a;
            for (auto v : vars) {
                auto x = state.optional_single_value(v);
                if (! x) return PropagatorState::Enable;
                a.push_back(x->raw_value);
            }
            if (then) then();
            if (! ok(a)) inference.contradiction(logger, JustifyUsingRUP{}, NoReason{});
            return PropagatorState::Enable;
        }, t);
    }

public:
    Check(std::vector<IntegerVariableID> vars, Pred ok, std::function<void()> then = {}) : _vars(std::move(vars)), _ok(std::move(ok)), _then(std::move(then)) {}
    auto clone() const -> std::unique_ptr<Constraint> override { return std::make_unique<Check>(_vars, _ok, _then); }
    auto s_expr(const ProofModel * const) const -> SExpr override { std::abort(); }
    auto constraint_type() const -> std::string override { return "check"; }
};
static int bad(const char * what)
{
    std::printf("%s\\n", what);
    return 1;
}
struct Result
{
    std::multiset<Asg> got;
    Asg last;
    int completed = 0;
};
static Result run(Problem & p, const std::vector<IntegerVariableID> & vs, BranchHeuristic branch, unsigned long long scale = 0, std::atomic<bool> * flag = nullptr)
{
    Result r;
    SolveCallbacks cb;
    cb.solution = [&](const CurrentState & s) {
        r.last.clear();
        for (auto v : vs) r.last.push_back(s(v).raw_value);
        r.got.insert(r.last);
        return r.got.size() < 100000;
    };
    cb.completed = [&] { ++r.completed; };
    cb.stats_report = [](const auto &) {};
    cb.branch = branch;
    if (scale) cb.restarts = RestartSchedule::luby(scale);
    solve_with(p, cb, std::nullopt, flag);
    return r;
}
"""


def m(sid, edits, body, needs, breaks, prop="C21"):
    if only and sid not in only:
        return
    d = os.path.join(VERIF, "seeded", sid)
    os.makedirs(os.path.join(d, "gch"), exist_ok=True)
    shutil.copy(os.path.join(VERIF, "shim/gch/small_vector.hpp"), os.path.join(d, "gch"))
    seeds.make_with(sid, prop, edits, DEMO + body, seeds_h.SH % " ".join(dict.fromkeys(SRC)), needs, breaks)


S, H = "gcs/solve.cc", "gcs/search_heuristics.cc"
COUNT = """int main()
{
    for (int k = 0; k < 2; ++k)
        for (int scale = 1; scale <= 3; ++scale)
            for (int m = 2; m <= 5; ++m) {
                Problem p;
                std::vector<IntegerVariableID> vs;
                for (int i = 0; i < 4; ++i) vs.push_back(p.create_integer_variable(0_i, 3_i));
                p.post(Check{vs, [m](const Asg & a) { return (a[0] + 2 * a[1] + 3 * a[2] + 5 * a[3]) % m == 1; }});
                std::multiset<Asg> want;
                for (int a = 0; a < 256; ++a) {
                    Asg x{a & 3, a >> 2 & 3, a >> 4 & 3, a >> 6};
                    if ((x[0] + 2 * x[1] + 3 * x[2] + 5 * x[3]) % m == 1) want.insert(x);
                }
                auto r = run(p, vs, branch_with(variable_order::in_order(vs), k ? value_order::smallest_first() : value_order::largest_in()), scale);
                if (r.got != want) return bad("not each solution is reported exactly once");
                if (r.completed != 1) return bad("completion is not reported once");
            }
    return 0;
}
"""
if __name__ == "__main__":
    m("i01", [(S, "sibling_index == 1 && first_sibling && guess == ! *first_sibling", "sibling_index == 1 && first_sibling && guess.var == first_sibling->var")], COUNT,
      "restarts with nogood learning, and branching that takes the values one by one", "the second of more than two branches is taken for the negation of the first, so the nogoods learned below it leave out a decision and exclude solutions not yet found")
    m("i02", [(S, "                case Inference::NoChange: break;\n", "                case Inference::NoChange:\n                case Inference::Instantiated: break;\n"), (S, "                case Inference::InteriorValuesChanged:\n                case Inference::Instantiated: guesses", "                case Inference::InteriorValuesChanged: guesses")], """int main()
{
    Problem p;
    std::vector<IntegerVariableID> vs;
    for (int i = 0; i < 3; ++i) vs.push_back(p.create_integer_variable(0_i, 1_i));
    auto ok = [](const Asg & a) { return a[0] == 1 || a[1] == 1; };
    p.post(Check{{vs[0], vs[2]}, ok});
    p.minimise(vs[2]);
    // x, then an unrelated variable, then the objective
    auto r = run(p, vs, branch_with(variable_order::in_order(vs), value_order::largest_first()));
    auto q = run(p, vs, branch_with(variable_order::in_order(vs), value_order::smallest_first()));
    Problem p2;
    std::vector<IntegerVariableID> ws;
    for (int i = 0; i < 3; ++i) ws.push_back(p2.create_integer_variable(0_i, 1_i));
    p2.post(Check{{ws[0], ws[2]}, [](const Asg & a) { return a[1] == 1; }});
    p2.minimise(ws[2]);
    auto s = run(p2, ws, branch_with(variable_order::in_order(ws), value_order::smallest_first()));
    for (auto & a : s.got)
        if (a[2] != 1) return bad("what is reported does not satisfy the constraint");
    for (auto & x : {r, q})
        for (auto & a : x.got)
            if (! ok({a[0], a[2]})) return bad("what is reported does not satisfy the constraint");
    return 0;
}
""", "an objective that the bound found so far leaves a single value for, while the branch taken concerns none of the objective's constraints", "the constraints on the objective are not woken when the bound fixes it, so a non-solution is reported as a better solution")
    m("i03", [(S, "                        refuted_siblings.push_back(guess);\n", ""), (S, "                        auto child_result = recurse(guess, child_prefix);\n", "                        auto child_result = recurse(guess, child_prefix);\n                        refuted_siblings.push_back(guess);\n")], COUNT,
      "restarts, enumerating solutions, a restart inside a branch with solutions not yet found", "the branch in which the restart happens is recorded as refuted, and what it still holds is excluded")
    m("i04", [(S, "                if (optional_abort_flag && optional_abort_flag->load())\n                    return SearchResult::Stop;\n\n                // The branchers", "                // The branchers")], """int main()
{
    Problem p;
    std::vector<IntegerVariableID> vs;
    for (int i = 0; i < 3; ++i) vs.push_back(p.create_integer_variable(0_i, 0_i));
    std::atomic<bool> flag{false};
    p.post(Check{{vs[0], vs[1]}, [](const Asg &) { return true; }, [&] { flag = true; }});
    p.post(Check{{vs[1], vs[2]}, [](const Asg &) { return false; }});
    p.post(Check{{vs[0], vs[2]}, [](const Asg &) { return false; }});
    auto r = run(p, vs, branch_with(variable_order::in_order(vs), value_order::smallest_first()), 0, &flag);
    return r.got.empty() ? 0 : bad("what is reported does not satisfy the constraints");
}
""", "an abort flag set while propagators are running, at a node where every variable is fixed", "propagation that was cut short is taken for complete, and an unchecked assignment is reported as a solution")
    m("i05", [(S, "        if (callbacks.completed)\n            callbacks.completed();\n    }\n\n    if (optional_proof)", "        if (callbacks.completed && ! initialisation_success)\n            callbacks.completed();\n    }\n\n    if (optional_proof)")], """class Refute : public Presolver
{
public:
    auto run(Problem &, Propagators &, State &, ProofLogger * const) -> bool override { return false; }
    auto clone() const -> std::unique_ptr<Presolver> override { return std::make_unique<Refute>(); }
};
int main()
{
    Problem p;
    std::vector<IntegerVariableID> vs{p.create_integer_variable(0_i, 1_i)};
    p.post(Check{vs, [](const Asg &) { return false; }});
    p.add_presolver(Refute{});
    auto r = run(p, vs, branch_with(variable_order::in_order(vs), value_order::smallest_first()));
    return r.completed == 1 ? 0 : bad("completion is not reported");
}
""", "a presolver that shows there is no solution", "completion is not reported when a presolver rather than an initialiser finds the contradiction")
