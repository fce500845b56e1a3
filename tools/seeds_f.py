import sys, os, shutil; sys.path.insert(0, __file__.rsplit("/", 1)[0])
from seeds import make, VERIF
B = ["gcs/innards/state.cc", "gcs/innards/variable_id_utils.cc", "gcs/current_state.cc", "gcs/innards/integer_overflow.cc", "gcs/exception.cc"]
S = "gcs/innards/state.cc"
PRE = '-I"$here" '
H = """#include <gcs/innards/state.hh>
#include <cstdio>
#include <vector>
using namespace gcs;
using namespace gcs::innards;
using Cond = IntegerVariableCondition;
using Op = VariableConditionOperator;
static int bad(const char * s) { std::puts(s); return 1; }
"""


def m(sid, prop, *a, **k):
    d = os.path.join(VERIF, "seeded", sid, "gch")
    os.makedirs(d, exist_ok=True)
    shutil.copy(os.path.join(VERIF, "shim/gch/small_vector.hpp"), d)
    make(sid, prop, *a[:2], B, *a[2:], pre=PRE, **k)


if __name__ == "__main__":
    m("f01", "C18", [(S, "return (set.lower() != old_lower || set.upper() != old_upper) ? Inference::BoundsChanged", "return (set.lower() != old_lower) ? Inference::BoundsChanged")], H + """int main() {
    State s;
    auto v = s.allocate_integer_variable_with_state(1_i, 9_i);
    auto r = s.infer_not_in_range(v, 7_i, 12_i);
    return r == Inference::BoundsChanged ? 0 : bad("a moved upper bound is not reported");
}""", "removing a range that covers the upper end of a domain but not the lower", "a change of the upper bound is reported as a change of interior values, so propagators watching bounds are not woken")
    m("f02", "C18", [(S, """        auto adjusted = -value + then_add + 1_i;
        return visit_actual(
            actual_var, [&](const SimpleIntegerVariableID & v) { return change_state_for_less_than(v, adjusted); },""", """        auto adjusted = -value + then_add;
        return visit_actual(
            actual_var, [&](const SimpleIntegerVariableID & v) { return change_state_for_less_than(v, adjusted); },""")], H + """int main() {
    State s;
    auto v = s.allocate_integer_variable_with_state(1_i, 9_i);
    (void)s.infer(Cond{ViewOfIntegerVariableID{v, true, 10_i}, Op::GreaterEqual, 4_i});
    return s.in_domain(v, 6_i) && ! s.in_domain(v, 7_i) ? 0 : bad("a supported value is gone");
}""", "a lower bound inferred on a negated view", "a lower bound on a negated view removes one value too many")
    m("f03", "C18", [(S, "if (! set.contains_any_of(IntervalSet<Integer>{lo, hi}))\n        return Inference::NoChange;", "if (! set.contains(lo) && ! set.contains(hi))\n        return Inference::NoChange;")], H + """int main() {
    State s;
    auto v = s.allocate_integer_variable_with_state(0_i, 9_i);
    (void)s.infer_not_equal(v, 3_i); (void)s.infer_not_equal(v, 6_i);
    auto r = s.infer_not_in_range(v, 3_i, 6_i);
    return r == Inference::InteriorValuesChanged && ! s.in_domain(v, 4_i) ? 0 : bad("values in the range are kept");
}""", "a range to be removed both of whose ends are missing from the domain but not all between", "the values inside the range stay in the domain")
    m("f04", "C18", [(S, "auto each_value_generator(IntervalSet<Integer> set, ", "auto each_value_generator(const IntervalSet<Integer> & set, ")], H + """int main() {
    State s;
    auto v = s.allocate_integer_variable_with_state(1_i, 5_i);
    std::vector<Integer> got;
    for (auto i : s.each_value_mutable(v)) {
        got.push_back(i);
        if (i == 2_i) (void)s.infer_less_than(v, 4_i);
    }
    return got.size() == 5 ? 0 : bad("the values from before the change are not all visited");
}""", "changing a domain while iterating over it with each_value_mutable", "the iteration meant to be safe under changes follows the changed domain")
    m("f05", "C18", [(S, "if (add1 == 0_i && add2 == 0_i)", "if (add1 == 0_i || add2 == 0_i)")], H + """int main() {
    State s;
    auto v = s.allocate_integer_variable_with_state(1_i, 3_i), w = s.allocate_integer_variable_with_state(5_i, 6_i);
    return s.domains_intersect(v, ViewOfIntegerVariableID{w, false, -3_i}) ? 0 : bad("a shared value is missed");
}""", "two variables of which exactly one is seen through an offset view", "the test for a shared value ignores the offset")
    m("f06", "C18", [(S, """        if (lower_bound(cond.var) >= cond.value && upper_bound(cond.var) <= cond.upper_value)
            return LiteralIs::DefinitelyTrue;
        else if (! domain_intersects_with(cond.var, IntervalSet<Integer>{cond.value, cond.upper_value}))
            return LiteralIs::DefinitelyFalse;""", """        if (lower_bound(cond.var) >= cond.value && upper_bound(cond.var) <= cond.upper_value)
            return LiteralIs::DefinitelyTrue;
        else if (upper_bound(cond.var) < cond.value || lower_bound(cond.var) > cond.upper_value)
            return LiteralIs::DefinitelyFalse;""")], H + """int main() {
    State s;
    auto v = s.allocate_integer_variable_with_state(0_i, 9_i);
    (void)s.infer_not_in_range(v, 3_i, 6_i);
    return s.test_literal(Cond{v, Op::InRange, 4_i, 5_i}) == LiteralIs::DefinitelyFalse ? 0 : bad("a literal that is false is called undecided");
}""", "a range literal that falls entirely in a hole of the domain", "a literal no value satisfies is reported as undecided")
