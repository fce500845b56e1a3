import sys, os, shutil; sys.path.insert(0, __file__.rsplit("/", 1)[0])
import seeds, seeds_h, seeds_i
from seeds import VERIF
only = sys.argv[1:]
SRC = seeds_i.SRC + ["gcs/variable_weighting.cc"]
DEMO = """#include <gcs/current_state.hh>
#include <gcs/innards/propagators.hh>
#include <gcs/innards/state.hh>
#include <gcs/problem.hh>
#include <gcs/search_heuristics.hh>
#include <gcs/stats.hh>
#include <cstdio>
#include <optional>
#include <set>
#include <vector>
using namespace gcs;
using namespace gcs::innards;
using ll = long long;
static bool sat(const IntegerVariableCondition & c, ll x)
{
    ll v = c.value.raw_value;
    switch (c.op) {
    case VariableConditionOperator::Equal: return x == v;
    case VariableConditionOperator::NotEqual: return x != v;
    case VariableConditionOperator::Less: return x < v;
    case VariableConditionOperator::GreaterEqual: return x >= v;
    case VariableConditionOperator::InRange: return v <= x && x <= c.upper_value.raw_value;
    case VariableConditionOperator::NotInRange: return x < v || c.upper_value.raw_value < x;
    }
    return false;
}
struct World
{
    State st;
    Stats stats;
    Propagators ps{stats};
    Problem problem;
    ll installed = 0;
    SimpleIntegerVariableID var(const std::set<ll> & d)
    {
        auto v = st.allocate_integer_variable_with_state(Integer{*d.begin()}, Integer{*d.rbegin()});
        for (ll x = *d.begin(); x <= *d.rbegin(); ++x)
            if (! d.contains(x)) (void)st.infer_not_equal(v, Integer{x});
        return v;
    }
    void constrain(std::vector<SimpleIntegerVariableID> vs)
    {
        Triggers t;
        for (auto v : vs) t.on_change.push_back(v);
        ps.install(ConstraintID{NumberedConstraint{++installed}}, [](const State &, auto &, ProofLogger * const) -> PropagatorState { return PropagatorState::Enable; }, t);
    }
};
static int bad(const char * what)
{
    std::printf("%s\\n", what);
    return 1;
}
// does each value satisfy exactly one branch, and no branch all of them or none?
static bool partition(std::generator<IntegerVariableCondition> g, const std::set<ll> & d)
{
    std::vector<IntegerVariableCondition> b;
    for (auto c : g) b.push_back(c);
    for (ll x : d) {
        int n = 0;
        for (auto & c : b) n += sat(c, x);
        if (n != 1) return false;
    }
    for (auto & c : b) {
        size_t n = 0;
        for (ll x : d) n += sat(c, x);
        if (n == 0 || n == d.size()) return false;
    }
    return true;
}
static const std::vector<std::set<ll>> DOMS = {{0, 1}, {0, 1, 2, 3}, {-3, -2}, {1, 9}, {-4, -1, 5}, {0, 1, 2, 8}, {-7, -5, 0, 1, 2}};
"""


def m(sid, edits, body, needs, breaks, prop="C22"):
    if only and sid not in only:
        return
    d = os.path.join(VERIF, "seeded", sid)
    os.makedirs(os.path.join(d, "gch"), exist_ok=True)
    shutil.copy(os.path.join(VERIF, "shim/gch/small_vector.hpp"), os.path.join(d, "gch"))
    seeds.make_with(sid, prop, edits, DEMO + body, seeds_h.SH % " ".join(dict.fromkeys(SRC)), needs, breaks)


H = "gcs/search_heuristics.cc"
ORDER = """int main()
{
    for (auto & d : DOMS)
        for (unsigned seed = 0; seed < 20; ++seed) {
            World w;
            auto v = w.var(d);
            CurrentState s{w.st};
            if (! partition(value_order::%s(s, w.ps, v), d)) return bad("the branches are not a partition of what remains");
        }
    return 0;
}
"""
m("j01", [(H, """                auto mid = s.domain_size(var) / 2_i;
                auto v = *(s.each_value(var) | std::ranges::views::drop((mid - 1_i).as_index())).begin();
                if (uniform""", """                // halfway between the bounds is as good, and needs no walk over the domain
                auto v = Integer{(s.lower_bound(var).raw_value + s.upper_bound(var).raw_value) / 2};
                if (uniform""")], ORDER % "split_random(seed)",
  "split_random on two adjacent negative values, such as -3 and -2", "halving rounds towards zero, so for negative bounds the lower branch holds everything and excludes nothing: the search asks again for ever")
m("j02", [(H, "                    uniform_int_distribution<size_t> dist(1, values.size() - 2);", "                    uniform_int_distribution<size_t> dist(0, values.size() - 1);")], ORDER % "reject_random_interval(seed)",
  "reject_random_interval where the interval drawn happens to run from the least value to the greatest", "rejecting the interval then leaves nothing and accepting it excludes nothing")
m("j03", [(H, "            return tuple{state.domain_size(a), -p.degree_of(a)} < tuple{state.domain_size(b), -p.degree_of(b)};", "            return tuple{state.domain_size(a), p.degree_of(a)} < tuple{state.domain_size(b), p.degree_of(b)};")], """int main()
{
    World w;
    std::vector<IntegerVariableID> vs;
    auto a = w.var({0, 1, 2}), b = w.var({0, 1, 2}), c = w.var({0, 1, 2, 3});
    w.constrain({a, b});
    w.constrain({b, c});
    w.constrain({c});
    CurrentState s{w.st};
    for (auto vars : {std::vector<IntegerVariableID>{a, b, c}, {b, a, c}, {c, b, a}}) {
        auto r = variable_order::dom_then_deg(vars)(w.problem, w.st, w.ps)(s, w.ps);
        if (! r || *r != IntegerVariableID{b}) return bad("ties are not broken on the highest degree");
    }
    return 0;
}
""", "dom_then_deg with two variables of equally small domains and different degrees", "ties go to the variable in the fewest constraints instead of the most")
m("j04", [(H, """                if ((! result) || comp(state, propagators, v, *result))
                    result = v;
            }""", """                if ((! result) || comp(state, propagators, v, *result))
                    result = v;
                // nothing has less to decide than this
                if (size == 2_i)
                    break;
            }""")], """int main()
{
    World w;
    auto a = w.var({5, 6}), b = w.var({0, 1, 2}), c = w.var({3, 9});
    CurrentState s{w.st};
    std::vector<IntegerVariableID> vs{a, b, c};
    auto low = variable_order::with_smallest_value(vs)(w.problem, w.st, w.ps)(s, w.ps);
    if (! low || *low != IntegerVariableID{b}) return bad("the variable with the smallest value is not selected");
    auto high = variable_order::with_largest_value(vs)(w.problem, w.st, w.ps)(s, w.ps);
    if (! high || *high != IntegerVariableID{c}) return bad("the variable with the largest value is not selected");
    return 0;
}
""", "an order other than by domain size, and a variable of two values ahead of a better choice", "the scan stops at the first variable with two values left, although a later one is better by the order asked for")
m("j05", [(H, """            auto v = values.at(values.size() / 2);
            co_yield var == v;""", """            auto v = Integer{values.front().raw_value + (values.back().raw_value - values.front().raw_value) / 2};
            co_yield var == v;""")], ORDER % "median()",
  "median on a domain with a hole in the middle, such as 1 and 9", "the value halfway between the bounds need not be one that remains: the first branch is then empty and the second excludes nothing")
