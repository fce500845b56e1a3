"""Contracts of variable ids, views and conditions."""
from contracts.common import *

# an arbitrary assignment of values to the solver's variables
SIGMA = z3.Function("assignment", Int, Int)
INVALID = "gcs::InvalidProblemDefinitionException"
NONEX = "gcs::innards::NonExhaustiveSwitch"


def simple_val(w):
    return SIGMA(w.fld(0).t)


def view_val(w):
    s = simple_val(w.fld(0))
    return If(w.fld(1).t, -s, s) + w.fld(2).t


def var_val(w):
    """value denoted by an IntegerVariableID under the assignment"""
    out = V0
    for n, f in (("ConstantIntegerVariableID", lambda a: a.fld(0).t), ("ViewOfIntegerVariableID", view_val), ("SimpleIntegerVariableID", simple_val)):
        i = w.alt_of(n)
        out = If(w.tag == i, f(w.alt(i)), out)
    return out


V0 = z3.IntVal(0)


def _const_or_offset(w):
    """the constant stored in the id (added to, subtracted from or negated by the operations)"""
    i, j = w.alt_of("ConstantIntegerVariableID"), w.alt_of("ViewOfIntegerVariableID")
    return If(w.tag == i, w.alt(i).fld(0).t, If(w.tag == j, w.alt(j).fld(2).t, V0))


plus = Contract("gcs::operator+", ["variant", "Integer"], name="operator+(IntegerVariableID,Integer)",
                ensures=lambda c: [("denotes the sum under every assignment", var_val(c.r) == var_val(c.a(0)) + c.a(1).t)],
                throws=lambda c: {OVF: ("may", Not(fits(_const_or_offset(c.a(0)) + c.a(1).t)))})
minus = Contract("gcs::operator-", ["variant", "Integer"], name="operator-(IntegerVariableID,Integer)",
                 ensures=lambda c: [("denotes the difference under every assignment", var_val(c.r) == var_val(c.a(0)) - c.a(1).t)],
                 throws=lambda c: {OVF: ("may", Not(fits(_const_or_offset(c.a(0)) - c.a(1).t)))})
negv = Contract("gcs::operator-", ["variant"], name="operator-(IntegerVariableID)",
                ensures=lambda c: [("denotes the negation under every assignment", var_val(c.r) == -var_val(c.a(0)))],
                throws=lambda c: {OVF: ("may", Not(fits(-_const_or_offset(c.a(0)))))})
negc = Contract("gcs::operator-", ["ConstantIntegerVariableID"], name="operator-(ConstantIntegerVariableID)",
                ensures=lambda c: [("negated constant", c.r.fld(0).t == -c.a(0).fld(0).t)], throws=lambda c: {OVF: c.a(0).fld(0).t == MIN})
is_const = Contract("gcs::is_constant_variable", ["variant"], ensures=lambda c: [("exactly the constants", c.r.t == (c.a(0).tag == c.a(0).alt_of("ConstantIntegerVariableID")))])
const_of = Contract("gcs::constant_value_of", ["variant"], ensures=lambda c: [("the value denoted", c.r.t == var_val(c.a(0)))],
                    throws=lambda c: {"std::bad_variant_access": c.a(0).tag != c.a(0).alt_of("ConstantIntegerVariableID")})
const_var = Contract("gcs::constant_variable", ["Integer"], ensures=lambda c: [("denotes the constant", var_val(c.r) == c.a(0).t), ("is a constant", c.r.tag == c.r.alt_of("ConstantIntegerVariableID"))])
lit_c = Contract("gcs::operator\"\"_c", name="operator\"\"_c", requires=lambda c: [("literal fits", c.a(0).t <= MAX)], ensures=lambda c: [("value", c.r.fld(0).t == c.a(0).t)])
affine_of = Contract("gcs::innards::affine_of", ["variant"],
                     ensures=lambda c: [("coefficient times variable plus offset is the value denoted, under every assignment",
                                         If(c.r.fld(0).has, c.r.fld(1).t * simple_val(c.r.fld(0).val), V0) + c.r.fld(2).t == var_val(c.a(0))),
                                        ("no variable only for constants", c.r.fld(0).has == (c.a(0).tag != c.a(0).alt_of("ConstantIntegerVariableID"))),
                                        ("coefficient is a sign", If(c.r.fld(0).has, Or(c.r.fld(1).t == 1, c.r.fld(1).t == -1), c.r.fld(1).t == 0))])
as_consts = Contract("gcs::as_constant_variables",
                     ensures=lambda c: [("one per value", c.r.n == c.a(0).n), ("in order", forall(c, 1, lambda i: Implies(And(i >= 0, i < c.a(0).n), And(c.r[i].tag == c.r[i].alt_of("ConstantIntegerVariableID"), var_val(c.r[i]) == c.a(0)[i].t))))],
                     loops=[LoopContract("values", lambda c: [("prefix converted", And(c.v("result").n == c.index)), ("index", c.index <= c.p(0).n),
                                                              ("values", ForAll([QI], Implies(And(QI >= 0, QI < c.index), And(c.v("result")[QI].tag == c.v("result")[QI].alt_of("ConstantIntegerVariableID"), var_val(c.v("result")[QI]) == c.p(0)[QI].t))))],
                                         decreases=lambda c: c.p(0).n - c.index)])
QI = z3.Int("qi!spec")
prod_rep = Contract("gcs::innards::product_if_representable", ["Integer", "Integer"],
                    ensures=lambda c: [("present exactly when the product is representable", c.r.has == fits(c.a(0).t * c.a(1).t)), ("the product", Implies(c.r.has, c.r.val.t == c.a(0).t * c.a(1).t))])
VIEWS = [plus, minus, negv, negc, is_const, const_of, const_var, lit_c, affine_of, as_consts, prod_rep]

# ------------------------------------------------------------------ conditions
OPS = "gcs::VariableConditionOperator"
POINT = z3.Int("value of the variable")


def holds(c, w, x):
    """does value x satisfy the condition?"""
    K = lambda n: w.fld(1).t == c.enum(OPS, n)
    v, u = w.fld(2).t, w.fld(3).t
    return Or(And(K("Equal"), x == v), And(K("NotEqual"), x != v), And(K("GreaterEqual"), x >= v), And(K("Less"), x < v),
              And(K("InRange"), v <= x, x <= u), And(K("NotInRange"), Not(And(v <= x, x <= u))))


def _cond(f, thr=None):
    """a condition-building operator: satisfied by exactly the values f says, and about the given variable"""
    def ens(c):
        return [("satisfied by exactly the right values", forall(c, 1, lambda x: holds(c, c.r, x) == f(c, x))), ("about the given variable", c.r.fld(0).eq(c.a(0)))]
    return ens, thr


def _mk(q, f, thr=None, n=2):
    ens, th = _cond(f, thr)
    return Contract("gcs::" + q, name=q + " on variables", ensures=ens, throws=th, select=lambda en, d: len(d["_params"]) == n and "VariableConditionFrom" in d["type"]["qualType"].rpartition("->")[2])


A = lambda c, i: c.a(i).t
c_eq = _mk("operator==", lambda c, x: x == A(c, 1))
c_ne = _mk("operator!=", lambda c, x: x != A(c, 1))
c_lt = _mk("operator<", lambda c, x: x < A(c, 1))
c_ge = _mk("operator>=", lambda c, x: x >= A(c, 1))
c_le = _mk("operator<=", lambda c, x: x <= A(c, 1), lambda c: {OVF: A(c, 1) == MAX})
c_gt = _mk("operator>", lambda c, x: x > A(c, 1), lambda c: {OVF: A(c, 1) == MAX})
c_in = _mk("in_range", lambda c, x: And(A(c, 1) <= x, x <= A(c, 2)), lambda c: {INVALID: A(c, 1) > A(c, 2)}, 3)
c_nin = _mk("not_in_range", lambda c, x: Not(And(A(c, 1) <= x, x <= A(c, 2))), lambda c: {INVALID: A(c, 1) > A(c, 2)}, 3)
c_not = Contract("gcs::operator!", name="operator! on conditions", select=lambda en, d: "VariableConditionFrom" in d["type"]["qualType"],
                 ensures=lambda c: [("satisfied by exactly the values that do not satisfy the operand", forall(c, 1, lambda x: holds(c, c.r, x) == Not(holds(c, c.a(0), x)))),
                                    ("about the same variable", c.r.fld(0).eq(c.a(0).fld(0))),
                                    ("negating twice gives the operand back", And(c.r.fld(2).eq(c.a(0).fld(2)), Or(c.r.fld(3).t == c.a(0).fld(3).t, c.r.fld(1).t < c.enum(OPS, "InRange"))))])
CONDS = [c_eq, c_ne, c_lt, c_ge, c_le, c_gt, c_in, c_nin, c_not]
INST = """
namespace gcs_client {
using namespace gcs;
template <typename T_> void inst(T_ v, Integer a, Integer b)
{
    auto c1 = (v == a); auto c2 = (v != a); auto c3 = (v < a); auto c4 = (v >= a); auto c5 = (v <= a); auto c6 = (v > a);
    auto c7 = in_range(v, a, b); auto c8 = not_in_range(v, a, b); auto c9 = ! c1;
}
inline void all(IntegerVariableID v, SimpleIntegerVariableID s, ViewOfIntegerVariableID w, ConstantIntegerVariableID c, Integer a, Integer b)
{
    inst(v, a, b); inst(s, a, b); inst(w, a, b); inst(c, a, b);
}
inline IntegerVariableCondition widen(VariableConditionFrom<SimpleIntegerVariableID> c) { return c; }
}
"""
widen = Contract("gcs_client::widen", name="conversion of a condition to a wider variable type",
                 ensures=lambda c: [("satisfied by the same values", forall(c, 1, lambda x: holds(c, c.r, x) == holds(c, c.a(0), x))), ("same variable", var_val(c.r.fld(0)) == simple_val(c.a(0).fld(0)))])
