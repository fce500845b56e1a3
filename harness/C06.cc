#include "common.hh"
#include <gcs/variable_id.hh>
#include <gcs/exception.hh>
#include <gcs/innards/integer_overflow.hh>
#include <gcs/constraints/innards/arithmetic_utils.hh>
using namespace gcs;
using gcs::innards::IntegerOverflow;

static i128 value_of(const IntegerVariableID & v, ll sigma)
{
    if (auto * s = std::get_if<SimpleIntegerVariableID>(&v)) { if (s->index != 7) fail("refers to another variable"); return sigma; }
    if (auto * c = std::get_if<ConstantIntegerVariableID>(&v)) return c->const_value.raw_value;
    auto & w = std::get<ViewOfIntegerVariableID>(v);
    if (w.actual_variable.index != 7) fail("refers to another variable");
    return (w.negate_first ? -(i128)sigma : (i128)sigma) + w.then_add.raw_value;
}
static ll offset_of(const IntegerVariableID & v)
{
    if (auto * c = std::get_if<ConstantIntegerVariableID>(&v)) return c->const_value.raw_value;
    if (auto * w = std::get_if<ViewOfIntegerVariableID>(&v)) return w->then_add.raw_value;
    return 0;
}
static std::string show(const IntegerVariableID & v)
{
    if (std::holds_alternative<SimpleIntegerVariableID>(v)) return "x";
    if (auto * c = std::get_if<ConstantIntegerVariableID>(&v)) return std::to_string(c->const_value.raw_value);
    auto & w = std::get<ViewOfIntegerVariableID>(v);
    return std::string(w.negate_first ? "-x" : "x") + " + " + std::to_string(w.then_add.raw_value);
}
static std::vector<ll> sig;

static void check_form(const IntegerVariableID & v)
{
    curf("affine_of(%s)", show(v).c_str());
    auto f = innards::affine_of(v);
    if (f.var.has_value() == is_constant_variable(v)) fail("a variable is present exactly for non-constants");
    if (is_constant_variable(v) != std::holds_alternative<ConstantIntegerVariableID>(v)) fail("is_constant_variable is wrong");
    for (ll s : sig)
        if ((f.var ? (i128)f.coeff.raw_value * s : 0) + f.offset.raw_value != value_of(v, s)) fail("denotes another value for x = %lld", s);
}
// op 0: +k, 1: -k, 2: negate
static bool step(IntegerVariableID & v, int op, ll k)
{
    curf("(%s) %s %lld", show(v).c_str(), op == 0 ? "+" : op == 1 ? "-" : "negated", k);
    i128 off = op == 0 ? (i128)offset_of(v) + k : op == 1 ? (i128)offset_of(v) - k : -(i128)offset_of(v);
    IntegerVariableID r = v;
    try { r = op == 0 ? v + Integer{k} : op == 1 ? v - Integer{k} : -v; }
    catch (const IntegerOverflow &) { if (fits(off)) fail("threw although the result is representable"); return false; }
    for (ll s : sig) {
        i128 a = value_of(v, s), want = op == 0 ? a + k : op == 1 ? a - k : -a;
        if (value_of(r, s) != want) fail("denotes %s for x = %lld, should be %s", s128(value_of(r, s)).c_str(), s, s128(want).c_str());
    }
    v = r;
    check_form(v);
    return true;
}

int main(int argc, char ** argv)
{
    start(argc, argv);
    auto p = pool(g_thorough ? 60 : 20);
    sig = {0, 1, -1, 17, -23, INT64_MAX, INT64_MIN, 1ll << 40};
    std::vector<IntegerVariableID> base{SimpleIntegerVariableID{7}};
    for (ll o : p) {
        base.push_back(ViewOfIntegerVariableID{SimpleIntegerVariableID{7}, false, Integer{o}});
        base.push_back(ViewOfIntegerVariableID{SimpleIntegerVariableID{7}, true, Integer{o}});
        base.push_back(ConstantIntegerVariableID{Integer{o}});
    }
    for (auto & b : base) {
        check_form(b);
        for (int op = 0; op < 3; ++op)
            for (ll k : p) { auto v = b; step(v, op, k); }
        curf("constant_value_of(%s)", show(b).c_str());
        try { if (constant_value_of(b).raw_value != offset_of(b) || ! is_constant_variable(b)) fail("wrong constant"); }
        catch (const std::bad_variant_access &) { if (is_constant_variable(b)) fail("threw on a constant"); }
    }
    for (int it = 0; it < (g_thorough ? 400000 : 60000) && time_left(); ++it) {
        auto v = base[rnd(0, base.size() - 1)];
        for (int n = rnd(1, 6); n--;)
            if (! step(v, rnd(0, 2), rnd(0, 1) ? rnd(-3, 3) : p[rnd(0, p.size() - 1)])) break;
    }
    for (ll a : p) {
        curf("constant %lld", a);
        auto c = constant_variable(Integer{a});
        if (! is_constant_variable(c) || value_of(c, 0) != a) fail("constant_variable is wrong");
        bool threw = false;
        try { if (-(i128)a != (-ConstantIntegerVariableID{Integer{a}}).const_value.raw_value) fail("negated constant is wrong"); }
        catch (const IntegerOverflow &) { threw = true; }
        if (threw != (a == INT64_MIN)) fail("negation of a constant throws at the wrong values");
        if (a >= 0 && operator""_c(a).const_value.raw_value != a) fail("literal is wrong");
        for (ll b : p) {
            curf("product_if_representable(%lld, %lld)", a, b);
            auto r = innards::product_if_representable(Integer{a}, Integer{b});
            i128 w = (i128)a * b;
            if (r.has_value() != fits(w) || (r && r->raw_value != (ll)w)) fail("wrong product");
        }
    }
    for (int n = 0; n < 20; ++n) {
        std::vector<Integer> vs;
        for (int i = 0; i < n; ++i) vs.push_back(Integer{p[rnd(0, p.size() - 1)]});
        curf("as_constant_variables of %d values", n);
        auto r = as_constant_variables(vs);
        if (r.size() != vs.size()) fail("wrong length");
        for (int i = 0; i < n; ++i)
            if (! is_constant_variable(r[i]) || constant_value_of(r[i]) != vs[i]) fail("value %d is wrong", i);
    }
    finish();
}
