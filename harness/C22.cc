// Every value order and variable order against sets of integers, on real states.
#include "state.hh"
#include <algorithm>
#include <functional>
#include <memory>
#include <optional>
#include <gcs/current_state.hh>
#include <gcs/innards/propagators.hh>
#include <gcs/problem.hh>
#include <gcs/search_heuristics.hh>
#include <gcs/stats.hh>
#include <gcs/variable_weighting.hh>

static const char * wnames[] = {"smallest_in", "smallest_out", "smallest_first", "largest_in", "largest_out", "largest_first", "split_smallest_first", "split_largest_first", "split_random", "random", "random_out", "reject_random_interval", "median"};
static const char * vnames[] = {"in_order", "dom", "dom_then_deg", "with_smallest_value", "with_largest_value", "random", "in_order_of", "dom_wdeg"};
static BranchValueGenerator val_order(int k)
{
    unsigned s = (unsigned)rnd(0, 1000);
    bool seeded = rnd(0, 1);
    switch (k) {
    case 0: return value_order::smallest_in();
    case 1: return value_order::smallest_out();
    case 2: return value_order::smallest_first();
    case 3: return value_order::largest_in();
    case 4: return value_order::largest_out();
    case 5: return value_order::largest_first();
    case 6: return value_order::split_smallest_first();
    case 7: return value_order::split_largest_first();
    case 8: return seeded ? value_order::split_random(s) : value_order::split_random();
    case 9: return seeded ? value_order::random(s) : value_order::random();
    case 10: return seeded ? value_order::random_out(s) : value_order::random_out();
    case 11: return seeded ? value_order::reject_random_interval(s) : value_order::reject_random_interval();
    default: return value_order::median();
    }
}
static BranchVariableHeuristic var_order(int k, const std::vector<IntegerVariableID> & vs)
{
    switch (k) {
    case 0: return variable_order::in_order(vs);
    case 1: return variable_order::dom(vs);
    case 2: return variable_order::dom_then_deg(vs);
    case 3: return variable_order::with_smallest_value(vs);
    case 4: return variable_order::with_largest_value(vs);
    case 5: return rnd(0, 1) ? variable_order::random(vs, (unsigned)rnd(0, 1000)) : variable_order::random(vs);
    case 6: return variable_order::in_order_of(vs, [](const CurrentState &, const Propagators &, const IntegerVariableID &, const IntegerVariableID &) { return rnd(0, 1) == 1; });
    default: {
        static const WeightingScheme s[] = {WeightingScheme::Classic, WeightingScheme::InitialArity, WeightingScheme::CurrentArity, WeightingScheme::InitialDomain, WeightingScheme::CurrentDomain, WeightingScheme::CurrentArityCurrentDomain, WeightingScheme::ConflictHistorySearch};
        return variable_order::dom_wdeg(vs, s[rnd(0, 6)]);
    }
    }
}
static bool sat(const IntegerVariableCondition & c, ll x)
{
    return holds(c.op, x, c.value.raw_value, c.op == Op::InRange || c.op == Op::NotInRange ? c.upper_value.raw_value : 0);
}
// the branches, while each has been taken and left again
static std::vector<IntegerVariableCondition> all(State & st, std::generator<IntegerVariableCondition> g, size_t most)
{
    std::vector<IntegerVariableCondition> r;
    for (auto it = g.begin(); it != g.end(); ++it) {
        r.push_back(*it);
        if (r.size() > most) fail("there is no end to the branches");
        auto t = st.new_epoch();
        (void)st.infer(*it);
        st.backtrack(t);
    }
    return r;
}
static void check(const std::vector<IntegerVariableCondition> & b, const Name & n, const Set & d, int k)
{
    std::string w;
    for (auto & c : b) w += std::string(w.empty() ? "" : ", ") + "v " + opname(c.op) + " " + std::to_string(c.value.raw_value) + (c.op == Op::InRange || c.op == Op::NotInRange ? ".." + std::to_string(c.upper_value.raw_value) : "");
    for (auto & c : b)
        if (c.var != n.id) fail("a branch is about another variable (of: %s)", w.c_str());
    std::vector<Set> in(b.size());
    for (ll x : d) {
        int t = 0;
        for (size_t i = 0; i < b.size(); ++i)
            if (sat(b[i], x)) {
                ++t;
                in[i].insert(x);
            }
        if (t != 1) fail("the value %lld is in %d branches (of: %s)", x, t, w.c_str());
    }
    for (size_t i = 0; i < b.size(); ++i)
        if (in[i].empty() || in[i].size() == d.size()) fail("branch %zu %s (of: %s)", i, in[i].empty() ? "is empty" : "excludes nothing", w.c_str());
    bool each = k == 2 || k == 5 || k == 9;
    if (b.size() != (each ? d.size() : 2)) fail("%zu branches for %zu values (%s)", b.size(), d.size(), w.c_str());
    if (k == 0 || k == 1 || k == 3 || k == 4) {
        ll x = k < 2 ? *d.begin() : *d.rbegin();
        if (in[k == 0 || k == 3 ? 0 : 1] != Set{x}) fail("the value taken or left out is not %lld (of: %s)", x, w.c_str());
    }
    if (k == 2 || k == 6)
        for (size_t i = 0; i + 1 < b.size(); ++i)
            if (*in[i].rbegin() > *in[i + 1].begin()) fail("smaller values do not come first (of: %s)", w.c_str());
    if (k == 5 || k == 7)
        for (size_t i = 0; i + 1 < b.size(); ++i)
            if (*in[i].begin() < *in[i + 1].rbegin()) fail("larger values do not come first (of: %s)", w.c_str());
}
int main(int argc, char ** argv)
{
    start(argc, argv);
    for (long it = 0; it < (g_thorough ? 400000 : 20000) && time_left(); ++it) {
        State st;
        Stats stats;
        Propagators ps{stats};
        Problem problem;
        Model m;
        std::vector<SimpleIntegerVariableID> vs;
        std::string what;
        for (ll i = 0, n = rnd(1, 4); i < n; ++i) {
            ll l = rnd(-6, 6), u = l + rnd(0, 8);
            m.dom.emplace_back();
            vs.push_back(st.allocate_integer_variable_with_state(Integer{l}, Integer{u}));
            for (ll y = l; y <= u; ++y)
                if (y == l || y == u || rnd(0, 3)) m.dom.back().insert(y);
                else (void)st.infer_not_equal(vs.back(), Integer{y});
            what += "x" + std::to_string(i) + " in {";
            for (ll y : m.dom.back()) what += " " + std::to_string(y);
            what += " }; ";
        }
        for (ll n = rnd(0, 5); n > 0; --n) {
            Triggers t;
            auto a = vs[rnd(0, (ll)vs.size() - 1)];
            t.on_change = {a};
            ps.install(ConstraintID{NumberedConstraint{n}}, [](const State &, auto &, ProofLogger * const) -> PropagatorState { return PropagatorState::Enable; }, t);
            what += "x" + std::to_string(a.index) + " constrained; ";
        }
        // weights, told of a conflict that has emptied a domain
        if (ps.number_of_constraints() > 0) {
            using Variant = RefinedWeighting::Variant;
            static const Variant variants[] = {Variant::InitialArity, Variant::CurrentArity, Variant::InitialDomain, Variant::CurrentDomain, Variant::CurrentArityCurrentDomain};
            int k = (int)rnd(0, 4), at = (int)rnd(0, (ll)ps.number_of_constraints() - 1);
            auto v = ps.scope_of_constraint(at)[0];
            cur(what + "weighting " + std::to_string(k) + " told of x" + std::to_string(v.index) + " being emptied by a constraint of it");
            RefinedWeighting weights{ps, st, variants[k]};
            auto t = st.new_epoch();
            (void)(rnd(0, 1) ? st.infer_less_than(v, st.lower_bound(v)) : st.infer_greater_than_or_equal(v, st.upper_bound(v) + 1_i));
            weights.note_conflict(at, ps.scope_of_constraint(at), std::nullopt, st);
            st.backtrack(t);
        }
        CurrentState s{st};
        std::vector<Name> ns;
        std::vector<IntegerVariableID> ids;
        for (ll n = rnd(0, 4); n > 0; --n) {
            ns.push_back(name(vs));
            ids.push_back(ns.back().id);
        }
        // what is told of each
        for (auto & n : ns) {
            auto d = seen(n, m);
            cur(what + n.str() + " asked about");
            if (s.lower_bound(n.id).raw_value != *d.begin() || s.upper_bound(n.id).raw_value != *d.rbegin() || s.domain_size(n.id).raw_value != (ll)d.size() || s.has_single_value(n.id) != (d.size() == 1)) fail("bounds, size or single value misreported");
            for (ll x = *d.begin() - 1; x <= *d.rbegin() + 1; ++x)
                if (s.in_domain(n.id, Integer{x}) != d.contains(x)) fail("membership of %lld misreported", x);
            std::vector<ll> want(d.begin(), d.end()), a, b, c;
            for (auto v : s.each_value(n.id)) a.push_back(v.raw_value);
            for (auto v : s.each_value_reversed(n.id)) b.push_back(v.raw_value);
            auto copy = s.copy_of_values(n.id);
            for (auto v : copy.each()) c.push_back(v.raw_value);
            if (a != want) fail("each_value does not list the values in ascending order");
            if (c != want) fail("copy_of_values differs");
            std::reverse(b.begin(), b.end());
            if (b != want) fail("each_value_reversed does not list the values in descending order");
            try {
                auto v = s(n.id);
                if (d.size() != 1 || v.raw_value != *d.begin()) fail("a value is told that is not the only one left");
            }
            catch (const VariableDoesNotHaveUniqueValue &) {
                if (d.size() == 1) fail("the only value left is not told");
            }
        }
        // value orders
        for (auto & n : ns) {
            auto d = seen(n, m);
            if (d.size() < 2) continue;
            int k = (int)rnd(0, 12);
            cur(what + n.str() + " branched on by " + wnames[k]);
            check(all(st, val_order(k)(s, ps, n.id), d.size() + 2), n, d, k);
        }
        // variable orders, and both combined
        int k = (int)rnd(0, 7), w = (int)rnd(0, 12);
        what += "of [";
        for (auto & n : ns) what += " " + n.str();
        cur(what + " ] selected by " + vnames[k]);
        auto size = [&](size_t i) { return seen(ns[i], m).size(); };
        auto r = var_order(k, ids)(problem, st, ps)(s, ps);
        size_t at = ids.size();
        bool some = false;
        for (size_t i = 0; i < ids.size(); ++i) {
            if (r && at == ids.size() && ids[i] == *r) at = i;
            some = some || size(i) >= 2;
        }
        if (r.has_value() != some) fail(some ? "none is selected although something is left to decide" : "one is selected although nothing is left to decide");
        if (r) {
            if (at == ids.size()) fail("what is selected is not one of those given");
            if (size(at) < 2) fail("%s is selected although nothing is left to decide of it", ns[at].str().c_str());
            for (size_t i = 0; i < ids.size(); ++i) {
                if (size(i) < 2) continue;
                auto a = seen(ns[at], m), b = seen(ns[i], m);
                bool ok = true;
                if (k == 0) ok = at <= i;
                if (k == 1) ok = a.size() <= b.size();
                if (k == 2) ok = a.size() < b.size() || (a.size() == b.size() && ps.degree_of(ids[at]) >= ps.degree_of(ids[i]));
                if (k == 3) ok = *a.begin() <= *b.begin();
                if (k == 4) ok = *a.rbegin() >= *b.rbegin();
                if (! ok) fail("%s is selected, but %s is the better choice", ns[at].str().c_str(), ns[i].str().c_str());
            }
        }
        cur(what + " ] branched on by " + vnames[k] + " with " + wnames[w]);
        auto first = branch_with(var_order(k, ids), val_order(w));
        auto b = all(st, first(problem, st, ps)(s, ps), 20);
        auto as_first = [&](const std::vector<IntegerVariableCondition> & b) {
            Name n{b[0].var, -2, false, 0, 0};
            for (auto & x : ns)
                if (x.id == n.id) n = x;
            if (n.var == -2) fail("the branches are about a variable that was not given");
            check(b, n, seen(n, m), w);
        };
        if (b.empty() == some) fail(some ? "there are no branches" : "there are branches although nothing is left to decide");
        if (some) as_first(b);
        cur(what + " ], then the variables, branched on by " + vnames[k] + " with " + wnames[w]);
        std::vector<IntegerVariableID> rest(vs.begin(), vs.end());
        auto c = all(st, branch_sequence(first, branch_with(variable_order::in_order(rest), value_order::smallest_first()))(problem, st, ps)(s, ps), 20);
        bool any = false;
        for (auto & d : m.dom) any = any || d.size() >= 2;
        if (c.empty() == any) fail(any ? "there are no branches, although something is left to decide of the second" : "there are branches although nothing is left to decide");
        if (some) as_first(c);
        else if (any) {
            size_t i = 0;
            while (m.dom[i].size() < 2) ++i;
            check(c, Name{vs[i], (int)i, false, 0, 0}, m.dom[i], 2);
        }
    }
    finish();
}
