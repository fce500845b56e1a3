// Small problems solved through the whole search, compared with brute force.
#include "state.hh"
#include <algorithm>
#include <atomic>
#include <functional>
#include <memory>
#include <gcs/constraint.hh>
#include <gcs/constraints/comparison.hh>
#include <gcs/constraints/equals.hh>
#include <gcs/constraints/increasing.hh>
#include <gcs/constraints/parity.hh>
#include <gcs/innards/inference_tracker.hh>
#include <gcs/innards/propagators.hh>
#include <gcs/innards/s_expr.hh>
#include <gcs/problem.hh>
#include <gcs/search_heuristics.hh>
#include <gcs/solve.hh>
#include <gcs/stats.hh>

using Asg = std::vector<ll>;
using Pred = std::function<bool(const std::vector<ll> &)>;
// does nothing until every variable is fixed; optionally looks ahead when one is left
class Check : public Constraint
{
    std::vector<IntegerVariableID> _vars;
    Pred _ok;
    bool _ahead;
    auto install_propagators(Propagators & ps) -> void override
    {
        Triggers t;
        t.on_instantiated = _vars;
        ps.install(
            constraint_id(),
            [vars = _vars, ok = _ok, ahead = _ahead](const State & state, auto & inference, ProofLogger * const logger) -> PropagatorState {
                std::vector<ll> a(vars.size());
                int left = -1;
                for (size_t i = 0; i < vars.size(); ++i) {
                    auto v = state.optional_single_value(vars[i]);
                    if (v) a[i] = v->raw_value;
                    else if (left >= 0) return PropagatorState::Enable;
                    else left = (int)i;
                }
                if (left >= 0 && ! ahead) return PropagatorState::Enable;
                if (left < 0) {
                    if (! ok(a)) inference.contradiction(logger, JustifyUsingRUP{}, NoReason{});
                }
                else {
                    auto values = state.copy_of_values(vars[left]);
                    for (auto v : values.each()) {
                        a[left] = v.raw_value;
                        if (! ok(a)) inference.infer(logger, vars[left] != v, JustifyUsingRUP{}, NoReason{});
                    }
                }
                return PropagatorState::Enable;
            },
            t);
    }

public:
    Check(std::vector<IntegerVariableID> vars, Pred ok, bool ahead) : _vars(std::move(vars)), _ok(std::move(ok)), _ahead(ahead) {}
    auto clone() const -> std::unique_ptr<Constraint> override { return std::make_unique<Check>(_vars, _ok, _ahead); }
    auto s_expr(const ProofModel * const) const -> SExpr override { std::abort(); }
    auto constraint_type() const -> std::string override { return "check"; }
};
static std::string show(const Asg & a)
{
    std::string r;
    for (ll v : a) r += std::to_string(v) + " ";
    return r;
}
static BranchVariableHeuristic var_order(int k, const std::vector<IntegerVariableID> & vs)
{
    switch (k) {
    case 0: return variable_order::in_order(vs);
    case 1: return variable_order::dom(vs);
    case 2: return variable_order::dom_then_deg(vs);
    case 3: return variable_order::with_smallest_value(vs);
    case 4: return variable_order::with_largest_value(vs);
    case 5: return variable_order::random(vs, (unsigned)rnd(0, 1000));
    default: {
        static const WeightingScheme s[] = {WeightingScheme::Classic, WeightingScheme::InitialArity, WeightingScheme::CurrentArity, WeightingScheme::InitialDomain, WeightingScheme::CurrentDomain, WeightingScheme::CurrentArityCurrentDomain, WeightingScheme::ConflictHistorySearch};
        return variable_order::dom_wdeg(vs, s[rnd(0, 6)]);
    }
    }
}
static BranchValueGenerator val_order(int k)
{
    unsigned s = (unsigned)rnd(0, 1000);
    switch (k) {
    case 0: return value_order::smallest_in();
    case 1: return value_order::smallest_out();
    case 2: return value_order::smallest_first();
    case 3: return value_order::largest_in();
    case 4: return value_order::largest_out();
    case 5: return value_order::largest_first();
    case 6: return value_order::split_smallest_first();
    case 7: return value_order::split_largest_first();
    case 8: return value_order::split_random(s);
    case 9: return value_order::random(s);
    case 10: return value_order::random_out(s);
    case 11: return value_order::reject_random_interval(s);
    default: return value_order::median();
    }
}
static const char * vnames[] = {"in_order", "dom", "dom_then_deg", "with_smallest_value", "with_largest_value", "random", "dom_wdeg"};
static const char * wnames[] = {"smallest_in", "smallest_out", "smallest_first", "largest_in", "largest_out", "largest_first", "split_smallest_first", "split_largest_first", "split_random", "random", "random_out", "reject_random_interval", "median"};
int main(int argc, char ** argv)
{
    start(argc, argv);
    for (long it = 0; it < (g_thorough ? 1000000 : 30000) && time_left(); ++it) {
        Problem p;
        std::vector<SimpleIntegerVariableID> vs;
        std::vector<IntegerVariableID> all;
        std::vector<Set> dom;
        std::string what;
        for (ll i = 0, n = rnd(1, 5); i < n; ++i) {
            ll l = rnd(-4, 4), u = l + rnd(0, n > 3 ? 3 : 6);
            dom.emplace_back();
            for (ll y = l; y <= u; ++y)
                if (y == l || y == u || rnd(0, 3)) dom.back().insert(y);
            vs.push_back(p.create_integer_variable(Integer{l}, Integer{u}));
            all.push_back(vs.back());
            what += "x" + std::to_string(i) + " in {";
            for (ll y : dom.back()) what += " " + std::to_string(y);
            what += " }; ";
        }
        std::vector<std::function<bool(const Asg &)>> cs;
        auto see = [](const Name & n, const Asg & a) { return n.var < 0 ? n.k : n.see(a[n.var]); };
        for (size_t i = 0; i < vs.size(); ++i) {
            Set d = dom[i];
            if ((ll)d.size() != *d.rbegin() - *d.begin() + 1) {
                p.post(Check{{all[i]}, [d](const std::vector<ll> & a) { return d.contains(a[0]); }, true});
                cs.push_back([i, d](const Asg & a) { return d.contains(a[i]); });
            }
        }
        for (ll n = rnd(0, 3); n > 0; --n) {
            auto a = name(vs), b = name(vs);
            try {
            switch (rnd(0, 4)) {
            case 0: p.post(LessThan{a.id, b.id}); cs.push_back([=](const Asg & s) { return see(a, s) < see(b, s); }); what += a.str() + "<" + b.str() + "; "; break;
            case 1: p.post(NotEquals{a.id, b.id}); cs.push_back([=](const Asg & s) { return see(a, s) != see(b, s); }); what += a.str() + "!=" + b.str() + "; "; break;
            default: {
                std::vector<IntegerVariableID> ids;
                std::vector<Name> ns;
                for (ll k = rnd(2, 3); k > 0; --k) {
                    ns.push_back(name(vs, 1));
                    ids.push_back(ns.back().id);
                }
                ll m = rnd(2, 4), r = rnd(0, m - 1);
                bool ahead = rnd(0, 1), only = rnd(0, 1);
                auto ok = [=](const std::vector<ll> & v) {
                    ll t = 0, i = 1;
                    for (ll x : v) t += x * i++;
                    return ((t % m + m) % m == r) == only;
                };
                p.post(Check{ids, ok, ahead});
                cs.push_back([=](const Asg & s) {
                    std::vector<ll> v;
                    for (auto & x : ns) v.push_back(see(x, s));
                    return ok(v);
                });
                what += std::string(ahead ? "check " : "lazy check ") + (only ? "" : "not ") + std::to_string(r) + " mod " + std::to_string(m) + " of";
                for (auto & x : ns) what += " " + x.str();
                what += "; ";
            }
            }
            }
            catch (const InvalidProblemDefinitionException &) {
            }
        }
        int opt = (int)rnd(0, 2);
        Name objective = name(vs, 1);
        if (opt) {
            if (opt == 1) p.minimise(objective.id);
            else p.maximise(objective.id);
            what += (opt == 1 ? "minimise " : "maximise ") + objective.str() + "; ";
        }
        int vo = (int)rnd(0, 6), wo = (int)rnd(0, 12), wo2 = (int)rnd(0, 12);
        bool seq = rnd(0, 4) == 0;
        what += std::string("branch ") + vnames[vo] + ", " + wnames[wo] + (seq ? std::string(" then ") + wnames[wo2] : "");
        std::vector<IntegerVariableID> order;
        for (size_t i = 0; i < vs.size(); ++i) {
            bool plain = rnd(0, 2) > 0, neg = rnd(0, 1);
            ll add = rnd(-3, 3);
            order.push_back(plain ? all[i] : IntegerVariableID{ViewOfIntegerVariableID{vs[i], neg, Integer{add}}});
            what += (i ? ", " : " on ") + Name{order[i], (int)i, ! plain && neg, plain ? 0 : add, 0}.str();
        }
        ll scale = rnd(0, 1) ? rnd(1, 5) : 0, stop = rnd(0, 5) == 0 ? rnd(1, 4) : 0, trace_stop = rnd(0, 9) == 0 ? rnd(1, 20) : 0, abort_at = rnd(0, 9) == 0 ? rnd(1, 20) : 0;
        if (scale) what += "; restarts scaled by " + std::to_string(scale);
        if (stop) what += "; stop at solution " + std::to_string(stop);
        if (trace_stop) what += "; stop at node " + std::to_string(trace_stop);
        if (abort_at) what += "; abort at node " + std::to_string(abort_at);
        cur(what);
        std::set<Asg> want, got;
        std::vector<Asg> asgs{{}};
        for (auto & d : dom) {
            std::vector<Asg> next;
            for (auto & a : asgs)
                for (ll y : d) {
                    next.push_back(a);
                    next.back().push_back(y);
                }
            asgs = next;
        }
        for (auto & a : asgs)
            if (std::all_of(cs.begin(), cs.end(), [&](auto & c) { return c(a); })) want.insert(a);
        auto cost = [&](const Asg & a) { return (opt == 1 ? 1 : -1) * objective.see(a[objective.var]); };
        SolveCallbacks cb;
        std::vector<Asg> seen;
        bool completed = false, stopped = false;
        std::atomic<bool> flag{false};
        ll nodes = 0;
        cb.solution = [&](const CurrentState & s) {
            Asg a;
            for (auto v : all) a.push_back(s(v).raw_value);
            if (stopped) fail("%s is reported after the search was told to stop", show(a).c_str());
            if (! want.contains(a)) fail("%s is reported and is no solution", show(a).c_str());
            if (! got.insert(a).second) fail("%s is reported twice", show(a).c_str());
            if (opt && ! seen.empty() && cost(a) >= cost(seen.back())) fail("%s is reported and is no better than the one before", show(a).c_str());
            seen.push_back(a);
            if (stop && (ll)seen.size() >= stop) { stopped = true; return false; }
            return true;
        };
        cb.trace = [&](const CurrentState &) {
            if (++nodes > 200000) fail("the search goes on too long");
            if (abort_at && nodes >= abort_at) flag = true;
            if (trace_stop && nodes >= trace_stop) { stopped = true; return false; }
            return true;
        };
        cb.completed = [&] {
            if (completed) fail("completion is reported twice");
            completed = true;
        };
        cb.stats_report = [](const auto &) {};
        auto half = std::vector<IntegerVariableID>(order.begin(), order.begin() + (ll)(order.size() + 1) / 2);
        cb.branch = seq ? branch_sequence(branch_with(var_order(vo, half), val_order(wo)), branch_with(var_order((int)rnd(0, 6), order), val_order(wo2))) : branch_with(var_order(vo, order), val_order(wo));
        if (scale) cb.restarts = RestartSchedule::luby((unsigned long long)scale);
        Stats st;
        try {
            st = solve_with(p, cb, std::nullopt, abort_at ? &flag : nullptr);
        }
        catch (const InvalidProblemDefinitionException &) {
            continue;
        }
        if (st.solutions != seen.size()) fail("%llu solutions are counted, %zu were reported", (unsigned long long)st.solutions, seen.size());
        if (completed && stopped) fail("completion is reported although the search was told to stop");
        if (! completed && ! stopped && ! flag.load()) fail("completion is not reported");
        if (! completed) continue;
        if (opt) {
            if (want.empty() != seen.empty()) fail("no solution is reported");
            for (auto & a : want)
                if (cost(a) < cost(seen.back())) fail("%s is better than the last reported, %s", show(a).c_str(), show(seen.back()).c_str());
        }
        else
            for (auto & a : want)
                if (! got.contains(a)) fail("the solution %s is not reported", show(a).c_str());
    }
    finish();
}
