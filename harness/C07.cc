#include "common.hh"
#include <gcs/variable_condition.hh>
#include <gcs/exception.hh>
#include <gcs/innards/integer_overflow.hh>
using namespace gcs;
using gcs::innards::IntegerOverflow;

template <typename V> bool holds(const VariableConditionFrom<V> & c, ll x)
{
    ll v = c.value.raw_value, u = c.upper_value.raw_value;
    switch (c.op) {
    case VariableConditionOperator::Equal: return x == v;
    case VariableConditionOperator::NotEqual: return x != v;
    case VariableConditionOperator::GreaterEqual: return x >= v;
    case VariableConditionOperator::Less: return x < v;
    case VariableConditionOperator::InRange: return v <= x && x <= u;
    case VariableConditionOperator::NotInRange: return ! (v <= x && x <= u);
    }
    fail("condition has no operator");
}
static std::vector<ll> p;
template <typename V, typename F> void check(const char * op, const V & var, ll a, ll b, bool may_throw, F f, bool (*want)(ll, ll, ll))
{
    curf("x %s %lld, %lld", op, a, b);
    VariableConditionFrom<V> c{var, VariableConditionOperator::Equal, Integer{0}};
    bool threw = false;
    try { c = f(); }
    catch (const IntegerOverflow &) { threw = true; }
    catch (const InvalidProblemDefinitionException &) { threw = true; }
    if (threw != may_throw) fail(threw ? "threw" : "did not throw");
    if (threw) return;
    if (! (c.var == var)) fail("about another variable");
    auto n = ! c;
    auto nn = ! n;
    if (! (n.var == var)) fail("negation is about another variable");
    if (! (nn == c)) fail("double negation is a different condition");
    std::vector<ll> xs = p;
    for (ll v : {a, b})
        for (ll d = -1; d <= 1; ++d) { ll r; if (! __builtin_add_overflow(v, d, &r)) xs.push_back(r); }
    for (ll x : xs) {
        if (holds(c, x) != want(x, a, b)) fail("wrong for x = %lld", x);
        if (holds(n, x) == want(x, a, b)) fail("negation is not the complement for x = %lld", x);
    }
    IntegerVariableID wide = var;
    if constexpr (! std::is_same_v<V, IntegerVariableID>) {
        IntegerVariableCondition w = c;
        if (! (w.var == wide) || w.op != c.op || ! (w.value == c.value) || ! (w.upper_value == c.upper_value)) fail("widening changes the condition");
    }
}
template <typename V> void all(V v)
{
    for (ll a : p) {
        Integer A{a};
        check("==", v, a, 0, false, [&] { return v == A; }, [](ll x, ll a, ll) { return x == a; });
        check("!=", v, a, 0, false, [&] { return v != A; }, [](ll x, ll a, ll) { return x != a; });
        check("<", v, a, 0, false, [&] { return v < A; }, [](ll x, ll a, ll) { return x < a; });
        check(">=", v, a, 0, false, [&] { return v >= A; }, [](ll x, ll a, ll) { return x >= a; });
        check("<=", v, a, 0, a == INT64_MAX, [&] { return v <= A; }, [](ll x, ll a, ll) { return x <= a; });
        check(">", v, a, 0, a == INT64_MAX, [&] { return v > A; }, [](ll x, ll a, ll) { return x > a; });
        for (ll b : p) {
            Integer B{b};
            check("in_range", v, a, b, a > b, [&] { return in_range(v, A, B); }, [](ll x, ll a, ll b) { return a <= x && x <= b; });
            check("not_in_range", v, a, b, a > b, [&] { return not_in_range(v, A, B); }, [](ll x, ll a, ll b) { return ! (a <= x && x <= b); });
        }
    }
}
int main(int argc, char ** argv)
{
    start(argc, argv);
    p = pool(g_thorough ? 60 : 10);
    all(IntegerVariableID{SimpleIntegerVariableID{3}});
    all(SimpleIntegerVariableID{3});
    all(ViewOfIntegerVariableID{SimpleIntegerVariableID{3}, true, Integer{5}});
    all(ConstantIntegerVariableID{Integer{5}});
    finish();
}
