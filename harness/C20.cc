// Small problems solved through the real propagators and propagation loop, compared with brute force.
#include "state.hh"
#include <functional>
#include <memory>
#include <gcs/constraints/comparison.hh>
#include <gcs/constraints/equals.hh>
#include <gcs/constraints/increasing.hh>
#include <gcs/constraints/logical.hh>
#include <gcs/constraints/minus.hh>
#include <gcs/constraints/parity.hh>
#include <gcs/constraints/plus.hh>
#include <gcs/innards/propagators.hh>
#include <gcs/stats.hh>

using Asg = std::vector<ll>;
struct Con
{
    std::unique_ptr<Constraint> c;
    std::function<bool(const Asg &)> holds;
    std::string what;
};
static ll val(const Name & n, const Asg & a) { return n.var < 0 ? n.k : n.see(a[n.var]); }
struct Cnd
{
    IntegerVariableCondition c;
    std::function<bool(const Asg &)> holds;
    std::string what;
};
static Cnd cond(const std::vector<SimpleIntegerVariableID> & vs)
{
    auto n = name(vs, rnd(0, 1));
    ll v = rnd(-4, 4);
    static const Op ops[] = {Op::Equal, Op::NotEqual, Op::Less, Op::GreaterEqual};
    Op op = ops[rnd(0, 3)];
    Integer k{v};
    auto c = op == Op::Equal ? n.id == k : op == Op::NotEqual ? n.id != k : op == Op::Less ? n.id < k : n.id >= k;
    return {c, [=](const Asg & a) { return ::holds(op, val(n, a), v, v); }, n.str() + opname(op) + std::to_string(v)};
}
struct Lt
{
    Literal l;
    std::function<bool(const Asg &)> holds;
    std::string what;
};
static Lt lit(const std::vector<SimpleIntegerVariableID> & vs)
{
    ll k = rnd(0, 11);
    if (k == 0) return {TrueLiteral{}, [](const Asg &) { return true; }, "true"};
    if (k == 1) return {FalseLiteral{}, [](const Asg &) { return false; }, "false"};
    auto c = cond(vs);
    return {c.c, c.holds, c.what};
}
template <typename C>
static std::unique_ptr<C> bc(std::unique_ptr<C> c)
{
    if (rnd(0, 3)) c->with_consistency(consistency::BC{});
    return c;
}
static Con make(const std::vector<SimpleIntegerVariableID> & vs)
{
    auto a = name(vs), b = name(vs), r = name(vs);
    auto p = cond(vs);
    auto two = [&](const char * s) { return a.str() + s + b.str(); };
    switch (rnd(0, 24)) {
    case 0:
    case 1: return {bc(std::make_unique<Plus>(a.id, b.id, r.id)), [=](const Asg & s) { return val(a, s) + val(b, s) == val(r, s); }, two("+") + "=" + r.str()};
    case 2:
    case 3: return {bc(std::make_unique<Minus>(a.id, b.id, r.id)), [=](const Asg & s) { return val(a, s) - val(b, s) == val(r, s); }, two("-") + "=" + r.str()};
#define CMP(N, OP, TXT)                                                                                                                                                              \
    switch (rnd(0, 2)) {                                                                                                                                                             \
    case 0: return {std::make_unique<N>(a.id, b.id), [=](const Asg & s) { return val(a, s) OP val(b, s); }, two(TXT)};                                                               \
    case 1: return {std::make_unique<N##If>(a.id, b.id, p.c), [=](const Asg & s) { return ! p.holds(s) || (val(a, s) OP val(b, s)); }, "if " + p.what + " then " + two(TXT)};            \
    default: return {std::make_unique<N##Iff>(a.id, b.id, p.c), [=](const Asg & s) { return p.holds(s) == (val(a, s) OP val(b, s)); }, p.what + " iff " + two(TXT)};                   \
    }
    case 4: case 5: CMP(LessThan, <, "<")
    case 6: case 7: CMP(LessThanEqual, <=, "<=")
    case 8: CMP(GreaterThan, >, ">")
    case 9: CMP(GreaterThanEqual, >=, ">=")
    case 10: case 11: CMP(Equals, ==, "=")
    case 12: case 13: CMP(NotEquals, !=, "!=")
    case 14:
    case 15:
    case 16: {
        std::vector<Name> ns;
        std::vector<IntegerVariableID> is;
        std::string w;
        for (ll n = rnd(0, 5); n > 0; --n) {
            ns.push_back(name(vs));
            is.push_back(ns.back().id);
            w += ns.back().str() + " ";
        }
        bool strict = rnd(0, 1), down = rnd(0, 1);
        return {std::make_unique<IncreasingChain>(is, strict, down),
            [=](const Asg & s) {
                for (size_t i = 1; i < ns.size(); ++i) {
                    ll x = val(ns[i - 1], s), y = val(ns[i], s);
                    if (down) std::swap(x, y);
                    if (x > y || (strict && x == y)) return false;
                }
                return true;
            },
            std::string(strict ? "strictly " : "") + (down ? "decreasing " : "increasing ") + w};
    }
    default: {
        std::vector<Lt> ls;
        Literals l;
        std::string w;
        for (ll n = rnd(0, 4); n > 0; --n) {
            ls.push_back(lit(vs));
            l.push_back(ls.back().l);
            w += ls.back().what + " ";
        }
        auto re = lit(vs);
        int k = (int)rnd(0, 2);
        auto f = [=](const Asg & s) {
            int t = 0;
            for (auto & x : ls) t += x.holds(s);
            return k == 0 ? t % 2 == 1 : re.holds(s) == (k == 1 ? t == (int)ls.size() : t > 0);
        };
        if (k == 0) return {std::make_unique<ParityOdd>(l), f, "odd " + w};
        if (k == 1) return {std::make_unique<And>(l, re.l), f, re.what + " iff and " + w};
        return {std::make_unique<Or>(l, re.l), f, re.what + " iff or " + w};
    }
    }
}
static void search(State & st, const Propagators & ps, const std::vector<SimpleIntegerVariableID> & vs, Literals guesses, std::set<Asg> & out)
{
    if (! ps.propagate(guesses, st, nullptr)) return;
    Asg a;
    for (auto v : vs) {
        auto [lo, hi] = st.bounds(IntegerVariableID{v});
        if (lo != hi) {
            Integer k = rnd(0, 1) ? lo : hi;
            auto c = rnd(0, 1) ? v == k : v < lo + 1_i;
            for (int side = 0; side < 2; ++side) {
                Literal g = side ? ! c : c;
                auto t = st.new_epoch();
                st.guess(g);
                search(st, ps, vs, {g}, out);
                st.backtrack(t);
            }
            return;
        }
        a.push_back(lo.raw_value);
    }
    if (! out.insert(a).second) fail("a solution is reported twice");
}
static std::string show(const Asg & a)
{
    std::string r;
    for (ll v : a) r += std::to_string(v) + " ";
    return r;
}
int main(int argc, char ** argv)
{
    start(argc, argv);
    for (long it = 0; it < (g_thorough ? 2000000 : 60000) && time_left(); ++it) {
        State st;
        std::vector<SimpleIntegerVariableID> vs;
        std::vector<Set> dom;
        std::string what;
        for (ll i = 0, n = rnd(1, 4); i < n; ++i) {
            ll l = rnd(-4, 4), u = l + rnd(0, 4);
            vs.push_back(st.allocate_integer_variable_with_state(Integer{l}, Integer{u}));
            dom.emplace_back();
            for (ll y = l; y <= u; ++y)
                if (y == l || y == u || rnd(0, 3)) dom.back().insert(y);
                else (void) st.infer_not_equal(vs.back(), Integer{y});
            what += "x" + std::to_string(i) + " in {";
            for (ll y : dom.back()) what += " " + std::to_string(y);
            what += " }; ";
        }
        std::vector<Con> cs;
        try {
        for (ll n = rnd(1, 3); n > 0; --n) {
            cs.push_back(make(vs));
            what += cs.back().what + "; ";
        }
        }
        catch (const InvalidProblemDefinitionException &) {
            continue;
        }
        cur(what);
        std::set<Asg> want, got;
        std::vector<Asg> all{{}};
        for (auto & d : dom) {
            std::vector<Asg> next;
            for (auto & a : all)
                for (ll y : d) {
                    next.push_back(a);
                    next.back().push_back(y);
                }
            all = next;
        }
        for (auto & a : all) {
            bool ok = true;
            for (auto & c : cs) ok = ok && c.holds(a);
            if (ok) want.insert(a);
        }
        try {
            Stats stats;
            stats.set_report_handler([](const auto &) {});
            Propagators ps{stats};
            unsigned long long id = 0;
            for (auto & c : cs) {
                auto k = c.c->clone();
                k->set_constraint_id(NumberedConstraint{++id});
                std::move(*k).install(ps, st, nullptr);
            }
            if (ps.initialise(st, nullptr)) search(st, ps, vs, {}, got);
        }
        catch (const InvalidProblemDefinitionException &) {
            continue;
        }
        catch (const IntegerOverflow &) {
            continue;
        }
        for (auto & a : want)
            if (! got.contains(a)) fail("the solution %s is lost", show(a).c_str());
        for (auto & a : got)
            if (! want.contains(a)) fail("%s is accepted and is no solution", show(a).c_str());
    }
    finish();
}
