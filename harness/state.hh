// A State compared with sets of integers.
#pragma once
#include "common.hh"
#include <gcs/innards/state.hh>
using namespace gcs;
using namespace gcs::innards;
using Set = std::set<ll>;
using Cond = IntegerVariableCondition;
using Op = VariableConditionOperator;

struct Model
{
    std::vector<Set> dom;
};
// one way of naming a variable: itself, a view of it, or a constant
struct Name
{
    IntegerVariableID id;
    int var; // -1 for a constant
    bool neg;
    ll add, k;
    ll see(ll v) const { return (neg ? -v : v) + add; }
    std::string str() const { return var < 0 ? std::to_string(k) : (neg ? "-x" : "x") + std::to_string(var) + (add ? (add > 0 ? "+" : "") + std::to_string(add) : ""); }
};
static Set seen(const Name & n, const Model & m)
{
    if (n.var < 0) return {n.k};
    Set r;
    for (ll v : m.dom[n.var]) r.insert(n.see(v));
    return r;
}
static Name name(const std::vector<SimpleIntegerVariableID> & vs, int kind = -1)
{
    if (kind < 0) kind = rnd(0, 7) == 0 ? 2 : rnd(0, 1);
    int i = rnd(0, (ll)vs.size() - 1);
    ll add = rnd(0, 2) ? rnd(-6, 6) : 0;
    bool neg = rnd(0, 1);
    if (kind == 2) { ll k = rnd(-8, 8); return Name{ConstantIntegerVariableID{Integer{k}}, -1, false, 0, k}; }
    if (kind == 1) return Name{ViewOfIntegerVariableID{vs[i], neg, Integer{add}}, i, neg, add, 0};
    return Name{vs[i], i, false, 0, 0};
}
static bool holds(Op op, ll z, ll v, ll u)
{
    switch (op) {
    case Op::Equal: return z == v;
    case Op::NotEqual: return z != v;
    case Op::Less: return z < v;
    case Op::GreaterEqual: return z >= v;
    case Op::InRange: return v <= z && z <= u;
    case Op::NotInRange: return ! (v <= z && z <= u);
    }
    return false;
}
static const char * opname(Op op)
{
    switch (op) {
    case Op::Equal: return "==";
    case Op::NotEqual: return "!=";
    case Op::Less: return "<";
    case Op::GreaterEqual: return ">=";
    case Op::InRange: return "in";
    case Op::NotInRange: return "not in";
    }
    return "?";
}
static const Op OPS[] = {Op::Equal, Op::NotEqual, Op::Less, Op::GreaterEqual, Op::InRange, Op::NotInRange};
struct C
{
    Name n;
    Op op;
    ll v, u;
    std::string str() const { return n.str() + " " + opname(op) + " " + std::to_string(v) + (op == Op::InRange || op == Op::NotInRange ? ".." + std::to_string(u) : ""); }
    Cond cond() const { return op == Op::InRange || op == Op::NotInRange ? Cond{n.id, op, Integer{v}, Integer{u}} : Cond{n.id, op, Integer{v}}; }
    bool ok(ll z) const { return holds(op, z, v, u); }
};
static C pick(const std::vector<SimpleIntegerVariableID> & vs, const Model & m, bool nonempty)
{
    C c{name(vs), OPS[rnd(0, 5)], 0, 0};
    Set s = seen(c.n, m);
    c.v = s.empty() ? 0 : rnd(*s.begin() - 1, *s.rbegin() + 1);
    c.u = c.v + rnd(nonempty ? 0 : -1, 4);
    return c;
}
static const char * infname(Inference i)
{
    switch (i) {
    case Inference::NoChange: return "NoChange";
    case Inference::BoundsChanged: return "BoundsChanged";
    case Inference::InteriorValuesChanged: return "InteriorValuesChanged";
    case Inference::Instantiated: return "Instantiated";
    case Inference::Contradiction: return "Contradiction";
    }
    return "nothing sensible";
}
// what the inference of c must report; restricts the model
static Inference apply(const C & c, Model & m)
{
    Set a = seen(c.n, m), b;
    for (ll z : a)
        if (c.ok(z)) b.insert(z);
    if (b.empty()) return Inference::Contradiction;
    if (a == b) return Inference::NoChange;
    Set d;
    for (ll y : m.dom[c.n.var])
        if (c.ok(c.n.see(y))) d.insert(y);
    m.dom[c.n.var] = d;
    if (b.size() == 1) return Inference::Instantiated;
    return *a.begin() != *b.begin() || *a.rbegin() != *b.rbegin() ? Inference::BoundsChanged : Inference::InteriorValuesChanged;
}
template <typename G_> static std::vector<ll> list(G_ && g)
{
    std::vector<ll> r;
    for (auto i : g) {
        r.push_back(i.raw_value);
        if (r.size() > 1000) fail("iteration goes on too long");
    }
    return r;
}
static bool set_is(const IntervalSet<Integer> & s, const Set & want) { return list(s.each()) == std::vector<ll>(want.begin(), want.end()); }
// every query on one name
static void query(const State & st, const Name & n, const Model & m)
{
    Set s = seen(n, m);
    auto who = n.str();
    const char * w = who.c_str();
    ll lo = *s.begin(), hi = *s.rbegin();
    if (st.lower_bound(n.id).raw_value != lo) fail("lower_bound(%s) is wrong", w);
    if (st.upper_bound(n.id).raw_value != hi) fail("upper_bound(%s) is wrong", w);
    if (st.bounds(n.id) != std::pair{Integer{lo}, Integer{hi}}) fail("bounds(%s) is wrong", w);
    if (st.domain_size(n.id).raw_value != (ll)s.size()) fail("domain_size(%s) is wrong", w);
    if (st.has_single_value(n.id) != (s.size() == 1)) fail("has_single_value(%s) is wrong", w);
    auto o = st.optional_single_value(n.id);
    if (o.has_value() != (s.size() == 1) || (o && o->raw_value != lo)) fail("optional_single_value(%s) is wrong", w);
    try {
        Integer v = st(n.id);
        if (s.size() != 1 || v.raw_value != lo) fail("value of %s is wrong", w);
    }
    catch (const VariableDoesNotHaveUniqueValue &) {
        if (s.size() == 1) fail("value of %s is refused", w);
    }
    if (st.domain_has_holes(n.id) != ((ll)s.size() != hi - lo + 1)) fail("domain_has_holes(%s) is wrong", w);
    for (ll z = lo - 2; z <= hi + 2; ++z)
        if (st.in_domain(n.id, Integer{z}) != (s.count(z) > 0)) fail("in_domain(%s, %lld) is wrong", w, z);
    std::vector<ll> want(s.begin(), s.end()), rev(s.rbegin(), s.rend());
    if (n.neg) std::swap(want, rev);
    if (list(st.each_value_immutable(n.id)) != want) fail("each_value_immutable(%s) is wrong", w);
    if (list(st.each_value_mutable(n.id)) != want) fail("each_value_mutable(%s) is wrong", w);
    if (! set_is(st.copy_of_values(n.id), s)) fail("copy_of_values(%s) is wrong", w);
    for (int mut = 0; mut < 2; ++mut) {
        std::vector<ll> got;
        auto visit = [&](Integer v) { got.push_back(v.raw_value); };
        if (mut) st.for_each_value_mutable(n.id, visit);
        else st.for_each_value_immutable(n.id, visit);
        std::sort(got.begin(), got.end());
        if (! std::equal(got.begin(), got.end(), s.begin(), s.end())) fail("for_each_value over %s is wrong", w);
    }
}
static IntervalSet<Integer> random_set(Set & out)
{
    IntervalSet<Integer> r;
    for (ll v = -16; v <= 16; ++v)
        if (rnd(0, 3) == 0) {
            r.insert_at_end(Integer{v});
            out.insert(v);
        }
    return r;
}
static bool meet(const Set & a, const Set & b)
{
    for (ll v : a)
        if (b.count(v)) return true;
    return false;
}
