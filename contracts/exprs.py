"""Contracts of linear expressions and the (in)equalities built from them."""
from contracts.ids import *
from cv.types import fresh_name

QI = z3.Int("qi!spec")
QJ = z3.Int("qj!spec")


def terms(w):
    return w.fld(0)


def coef(ts, i):
    return ts[i].fld(0).t


def vval(ts, i):
    v = ts[i].fld(1)
    return id_val(v)


def id_val(v):
    """value denoted by any kind of variable"""
    if v.ty.k == "variant":
        return var_val(v)
    q = v.ty.a[0].partition("<")[0]
    if q.endswith("ConstantIntegerVariableID"):
        return v.fld(0).t
    if q.endswith("ViewOfIntegerVariableID"):
        return view_val(v)
    return simple_val(v)


def all_terms(n, f):
    return ForAll([QI], Implies(And(0 <= QI, QI < n), f(QI)))


def any_min(ts):
    """some coefficient is the least representable value"""
    return Exists([QJ], And(0 <= QJ, QJ < ts.n, coef(ts, QJ) == MIN))


def same(ts, us, n):
    return all_terms(n, lambda i: And(coef(ts, i) == coef(us, i), ts[i].fld(1).eq(us[i].fld(1))))


def negated(ts, us, n):
    return all_terms(n, lambda i: And(coef(ts, i) == -coef(us, i), ts[i].fld(1).eq(us[i].fld(1))))


# the value of a sum of terms under the assignment, and its meaning:
# SUM(c, x, n) = c[0]*x[0] + ... + c[n-1]*x[n-1]
AI = z3.ArraySort(Int, Int)
SUM = z3.Function("sum_of_terms", AI, AI, Int, Int)


def sum_def(c, x, n):
    return And(SUM(c, x, z3.IntVal(0)) == 0, Implies(n >= 0, SUM(c, x, n + 1) == SUM(c, x, n) + z3.Select(c, n) * z3.Select(x, n)))


def _agree(c, d, x, y, n, sgn):
    return ForAll([QI], Implies(And(0 <= QI, QI < n), And(z3.Select(c, QI) == sgn * z3.Select(d, QI), z3.Select(x, QI) == z3.Select(y, QI))))


sum_same = Lemma("termwise equal sums have equal values", [AI, AI, AI, AI, Int],
                 lambda c, d, x, y, n: Implies(And(n >= 0, _agree(c, d, x, y, n, 1)), SUM(c, x, n) == SUM(d, y, n)),
                 hints=lambda c, d, x, y, n: [sum_def(c, x, n - 1), sum_def(d, y, n - 1), sum_def(c, x, n), sum_def(d, y, n), SUM(c, x, n - 1 + 1) == SUM(c, x, n), SUM(d, y, n - 1 + 1) == SUM(d, y, n)], induction=(lambda c, d, x, y, n: n, lambda c, d, x, y, n: [(c, d, x, y, n - 1)]))
sum_neg = Lemma("a sum with every coefficient negated has the negated value", [AI, AI, AI, AI, Int],
                lambda c, d, x, y, n: Implies(And(n >= 0, _agree(c, d, x, y, n, -1)), SUM(c, x, n) == -SUM(d, y, n)),
                hints=lambda c, d, x, y, n: [sum_def(c, x, n - 1), sum_def(d, y, n - 1), sum_def(c, x, n), sum_def(d, y, n), SUM(c, x, n - 1 + 1) == SUM(c, x, n), SUM(d, y, n - 1 + 1) == SUM(d, y, n)], induction=(lambda c, d, x, y, n: n, lambda c, d, x, y, n: [(c, d, x, y, n - 1)]))


def arrays(c, ts, tag):
    """coefficient and value arrays of a term list, with their definitions"""
    a, x = z3.Const(fresh_name("coefs_" + tag), AI), z3.Const(fresh_name("values_" + tag), AI)
    i = z3.Int(fresh_name("i"))
    d = ForAll([i], And(z3.Select(a, i) == coef(ts, i), z3.Select(x, i) == vval(ts, i)))
    return a, x, d


def meaning(c, new, old, sgn, rel):
    """the clause rel(value of the new sum, value of the old sum), shown from
    the termwise relation through the lemmas; only stated when the function
    itself is verified"""
    ts, us = terms(new), terms(old)
    a, x, d1 = arrays(c, ts, "new")
    b, y, d2 = arrays(c, us, "old")
    L = sum_same if sgn == 1 else sum_neg
    n = us.n
    return Implies(And(d1, d2, L(a, b, x, y, n), sum_def(a, x, n)), rel(SUM(a, x, ts.n), SUM(b, y, n)))


def _pushed(c, r, a, b, csign=1):
    ts, us = terms(r), terms(a)
    return [("one term longer", ts.n == us.n + 1), ("earlier terms unchanged", same(ts, us, us.n)),
            ("new term has the coefficient given", coef(ts, us.n) == csign * b.fld(0).t),
            ("new term denotes the variable given", vval(ts, us.n) == id_val(b.fld(1)))]


def _arity(n, pat):
    def sel(en, d):
        ps = d["_params"]
        if len(ps) != n:
            return False
        for p, s in zip(ps, pat):
            t = en.types.node(p)
            if s == "Integer":
                if not (t.k == "rec" and t.a[0] == "gcs::Integer"):
                    return False
            elif not (t.k == "rec" and t.a[0].partition("<")[0] == "gcs::" + s):
                return False
        return True
    return sel


plus_term = Contract("gcs::operator+", name="sum + term", select=_arity(2, ["SumOf", "Weighted"]), requires=lambda c: [],
                     ensures=lambda c: _pushed(c, c.r, c.a(0), c.a(1)) + ([] if c.call else [("value is the sum of the values, under every assignment", meaning(c, c.r, c.a(0), 1, lambda s, t: s == t + c.a(1).fld(0).t * id_val(c.a(1).fld(1))))]))
pluseq_term = Contract("gcs::operator+=", name="sum += term", select=_arity(2, ["SumOf", "Weighted"]), modifies=[0], returns_arg=0,
                       ensures=lambda c: _pushed(c, c.x(0), c.a(0), c.a(1)))
times = Contract("gcs::operator*", name="coefficient * variable", select=lambda en, d: len(d["_params"]) == 2 and "Weighted" in d["type"]["qualType"].partition("->")[2],
                 ensures=lambda c: [("coefficient", c.r.fld(0).t == c.a(0).t), ("variable", c.r.fld(1).eq(c.a(1)))])

le_const = Contract("gcs::operator<=", name="sum <= constant", select=_arity(2, ["SumOf", "Integer"]),
                    ensures=lambda c: [("same number of terms", terms(c.r.fld(0)).n == terms(c.a(0)).n), ("same terms", same(terms(c.r.fld(0)), terms(c.a(0)), terms(c.a(0)).n)), ("same bound", c.r.fld(1).t == c.a(1).t)])
eq_const = Contract("gcs::operator==", name="sum == constant", select=_arity(2, ["SumOf", "Integer"]),
                    ensures=lambda c: [("same number of terms", terms(c.r.fld(0)).n == terms(c.a(0)).n), ("same terms", same(terms(c.r.fld(0)), terms(c.a(0)), terms(c.a(0)).n)), ("same bound", c.r.fld(1).t == c.a(1).t)])


def _rhs_term(op):
    def rel(s, t, r):
        return {"<=": (s <= 0) == (t <= r), "==": (s == 0) == (t == r)}[op]
    return Contract("gcs::operator" + op, name="sum %s term" % op, select=_arity(2, ["SumOf", "Weighted"]),
                    ensures=lambda c: _pushed(c, c.r.fld(0), c.a(0), c.a(1), -1) + [("bound is zero", c.r.fld(1).t == 0)] +
                    ([] if c.call else [("holds for exactly the same assignments", meaning(c, c.r.fld(0), c.a(0), 1, lambda s, t: rel(s, t, c.a(1).fld(0).t * id_val(c.a(1).fld(1)))))]),
                    throws=lambda c: {OVF: c.a(1).fld(0).t == MIN})


le_term, eq_term = _rhs_term("<="), _rhs_term("==")


def _neg_loop(var, src):
    def inv(c):
        ts, us = terms(c.v(var).fld(0)), src(c)
        return [("index", And(0 <= c.index, c.index <= us.n)), ("same number of terms", ts.n == us.n),
                ("processed terms are negated", all_terms(c.index, lambda i: And(coef(ts, i) == -coef(us, i), coef(us, i) != MIN))),
                ("other terms are untouched", ForAll([QI], Implies(And(c.index <= QI, QI < us.n), coef(ts, QI) == coef(us, QI)))),
                ("variables are untouched", all_terms(us.n, lambda i: ts[i].fld(1).eq(us[i].fld(1)))),
                ("bound is untouched", c.v(var).fld(1).t == c.e(var).fld(1).t)]
    return LoopContract("negate the coefficients", inv, decreases=lambda c: src(c).n - c.index)


def _neg_clauses(c, r, a):
    ts, us = terms(r), terms(a)
    return [("every coefficient negated, variables unchanged", negated(ts, us, us.n))]


ge_const = Contract("gcs::operator>=", name="sum >= constant", select=_arity(2, ["SumOf", "Integer"]),
                    ensures=lambda c: [("same number of terms", terms(c.r.fld(0)).n == terms(c.a(0)).n)] + _neg_clauses(c, c.r.fld(0), c.a(0)) + [("bound negated", c.r.fld(1).t == -c.a(1).t)] +
                    ([] if c.call else [("holds for exactly the same assignments", meaning(c, c.r.fld(0), c.a(0), -1, lambda s, t: (s <= c.r.fld(1).t) == (t >= c.a(1).t)))]),
                    throws=lambda c: {OVF: Or(c.a(1).t == MIN, any_min(terms(c.a(0))))},
                    loops=[_neg_loop("result", lambda c: terms(c.p(0)))])
ge_term = Contract("gcs::operator>=", name="sum >= term", select=_arity(2, ["SumOf", "Weighted"]),
                   ensures=lambda c: [("one term longer", terms(c.r.fld(0)).n == terms(c.a(0)).n + 1)] + _neg_clauses(c, c.r.fld(0), c.a(0)) +
                   [("new term", And(coef(terms(c.r.fld(0)), terms(c.a(0)).n) == c.a(1).fld(0).t, vval(terms(c.r.fld(0)), terms(c.a(0)).n) == id_val(c.a(1).fld(1)))), ("bound is zero", c.r.fld(1).t == 0)] +
                   ([] if c.call else [("holds for exactly the same assignments", meaning(c, c.r.fld(0), c.a(0), -1, lambda s, t: (s <= c.r.fld(1).t) == (t >= c.a(1).fld(0).t * id_val(c.a(1).fld(1)))))]),
                   throws=lambda c: {OVF: any_min(terms(c.a(0)))},
                   loops=[_neg_loop("result", lambda c: terms(c.p(0)))])
negate = Contract("gcs::negate_inequality", name="negate_inequality",
                  ensures=lambda c: [("same number of terms", terms(c.r.fld(0)).n == terms(c.a(0).fld(0)).n)] + _neg_clauses(c, c.r.fld(0), c.a(0).fld(0)) + [("bound", c.r.fld(1).t == -c.a(0).fld(1).t - 1)] +
                  ([] if c.call else [("holds for exactly the assignments for which the operand does not", meaning(c, c.r.fld(0), c.a(0).fld(0), -1, lambda s, t: (s <= c.r.fld(1).t) == Not(t <= c.a(0).fld(1).t)))]),
                  throws=lambda c: {OVF: Or(c.a(0).fld(1).t == MIN, any_min(terms(c.a(0).fld(0))))},
                  loops=[_neg_loop("ineq", lambda c: terms(c.p(0).fld(0)))])
EXPRS = [plus_term, pluseq_term, times, le_const, eq_const, le_term, eq_term, ge_const, ge_term, negate]
LEM_EXPR = [sum_same, sum_neg]

getv = Contract("gcs::innards::get_var", name="get_var", ensures=lambda c: [("the term's variable", simple_val(c.r) == simple_val(_tv(c.a(0)))), ("same variable", c.r.eq(_tv(c.a(0))))])
getc = Contract("gcs::innards::get_coeff", name="get_coeff", ensures=lambda c: [("the term's coefficient", c.r.t == _tc(c.a(0)))])


def _tv(w):
    q = w.ty.a[0].partition("<")[0]
    return w if q.endswith("SimpleIntegerVariableID") else w.fld(1)


def _tc(w):
    q = w.ty.a[0].partition("<")[0]
    if q.endswith("SimpleIntegerVariableID"):
        return z3.IntVal(1)
    if q.endswith("PositiveOrNegative"):
        return If(w.fld(0).t, z3.IntVal(1), z3.IntVal(-1))
    return w.fld(0).t


EXPR_INST = """
namespace gcs_client {
using namespace gcs;
template <typename T_> void inst(WeightedSum s, T_ v, Integer a)
{
    auto w = a * v;
    auto t = s + w; t += w;
    auto c1 = (s <= a); auto c2 = (s <= w); auto c3 = (s >= a); auto c4 = (s >= w); auto c5 = (s == a); auto c6 = (s == w);
    auto c7 = negate_inequality(c1);
}
inline void all(WeightedSum s, IntegerVariableID v, SimpleIntegerVariableID x, ViewOfIntegerVariableID w, ConstantIntegerVariableID c, Integer a)
{
    inst(s, v, a); inst(s, x, a); inst(s, w, a); inst(s, c, a);
}
}
"""
