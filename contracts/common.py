"""Contracts and helpers shared by several properties."""
import z3
from cv.contracts import Contract, LoopContract, Lemma, W
from cv.types import Ty
from cv.engine import TQ, TR, tdef

MIN, MAX = -(1 << 63), (1 << 63) - 1
OVF = "gcs::innards::IntegerOverflow"
Int, Bool = z3.IntSort(), z3.BoolSort()
And, Or, Not, Implies, If, ForAll, Exists = z3.And, z3.Or, z3.Not, z3.Implies, z3.If, z3.ForAll, z3.Exists


def fits(x):
    return And(x >= MIN, x <= MAX)


def absz(x):
    return If(x >= 0, x, -x)


# ---- trusted: throwing helpers live in another translation unit; they are
# verified in the TU of property C01 and used by contract everywhere else
throw2 = Contract("gcs::innards::throw_integer_overflow", params=["*", "*", "*"], name="throw_integer_overflow/3",
                  throws=lambda c: {OVF: z3.BoolVal(True)})
throw1 = Contract("gcs::innards::throw_integer_overflow", params=["*", "*"], name="throw_integer_overflow/2",
                  throws=lambda c: {OVF: z3.BoolVal(True)})


def binop(op, name=None):
    def ens(c):
        x, y = c.a(0).t, c.a(1).t
        return [("result is the exact value", c.r.t == op(x, y))]

    def thr(c):
        return {OVF: Not(fits(op(c.a(0).t, c.a(1).t)))}
    return ens, thr


_ens, _thr = binop(lambda x, y: x + y)
add = Contract("gcs::operator+", ["Integer", "Integer"], name="operator+(Integer,Integer)", ensures=_ens, throws=_thr)
_ens, _thr = binop(lambda x, y: x - y)
sub_ = Contract("gcs::operator-", ["Integer", "Integer"], name="operator-(Integer,Integer)", ensures=_ens, throws=_thr)
_ens, _thr = binop(lambda x, y: x * y)
mul = Contract("gcs::operator*", ["Integer", "Integer"], name="operator*(Integer,Integer)", ensures=_ens, throws=_thr)


def _div_thr(c):
    a, b = c.a(0).t, c.a(1).t
    return {OVF: Or(b == 0, And(a == MIN, b == -1))}


def _quot_rem(a, b, q, r):
    return [("a = b*q + r", a == b * q + r), ("|r| < |b|", absz(r) < absz(b)), ("remainder has the sign of a", Or(r == 0, (r > 0) == (a > 0)))]


def _div_ens(c):
    a, b, q = c.a(0).t, c.a(1).t, c.r.t
    return [("truncated quotient", q == TQ(a, b))] + _quot_rem(a, b, q, TR(a, b))


def _mod_ens(c):
    a, b, r = c.a(0).t, c.a(1).t, c.r.t
    return [("remainder of the truncated division", r == TR(a, b))] + _quot_rem(a, b, TQ(a, b), r)


div = Contract("gcs::operator/", ["Integer", "Integer"], name="operator/(Integer,Integer)", ensures=_div_ens, facts=lambda c: [tdef(c.a(0).t, c.a(1).t)], throws=_div_thr)
mod = Contract("gcs::operator%", ["Integer", "Integer"], name="operator%(Integer,Integer)", ensures=_mod_ens, facts=lambda c: [tdef(c.a(0).t, c.a(1).t)], throws=_div_thr)
neg = Contract("gcs::operator-", ["Integer"], name="operator-(Integer)", ensures=lambda c: [("negation", c.r.t == -c.a(0).t)],
               throws=lambda c: {OVF: c.a(0).t == MIN})
abs_ = Contract("gcs::abs", ["Integer"], name="abs(Integer)", ensures=lambda c: [("absolute value", c.r.t == absz(c.a(0).t))],
                throws=lambda c: {OVF: c.a(0).t == MIN})
addeq = Contract("gcs::operator+=", ["Integer", "Integer"], name="operator+=(Integer,Integer)", modifies=[0], returns_arg=0, strong=True,
                 ensures=lambda c: [("left operand holds the exact sum", c.x(0).t == c.a(0).t + c.a(1).t), ("returns it", c.r.t == c.x(0).t)],
                 throws=lambda c: {OVF: Not(fits(c.a(0).t + c.a(1).t))})
subeq = Contract("gcs::operator-=", ["Integer", "Integer"], name="operator-=(Integer,Integer)", modifies=[0], returns_arg=0, strong=True,
                 ensures=lambda c: [("left operand holds the exact difference", c.x(0).t == c.a(0).t - c.a(1).t), ("returns it", c.r.t == c.x(0).t)],
                 throws=lambda c: {OVF: Not(fits(c.a(0).t - c.a(1).t))})
preinc = Contract("gcs::Integer::operator++", [], name="Integer::operator++()", modifies=["this"], returns_arg="this", strong=True,
                  ensures=lambda c: [("incremented", c.this_x.t == c.this.t + 1), ("returns it", c.r.t == c.this_x.t)],
                  throws=lambda c: {OVF: c.this.t == MAX})
postinc = Contract("gcs::Integer::operator++", ["int"], name="Integer::operator++(int)", modifies=["this"], strong=True,
                   ensures=lambda c: [("incremented", c.this_x.t == c.this.t + 1), ("returns the old value", c.r.t == c.this.t)],
                   throws=lambda c: {OVF: c.this.t == MAX})
predec = Contract("gcs::Integer::operator--", [], name="Integer::operator--()", modifies=["this"], returns_arg="this", strong=True,
                  ensures=lambda c: [("decremented", c.this_x.t == c.this.t - 1), ("returns it", c.r.t == c.this_x.t)],
                  throws=lambda c: {OVF: c.this.t == MIN})
postdec = Contract("gcs::Integer::operator--", ["int"], name="Integer::operator--(int)", modifies=["this"], strong=True,
                   ensures=lambda c: [("decremented", c.this_x.t == c.this.t - 1), ("returns the old value", c.r.t == c.this.t)],
                   throws=lambda c: {OVF: c.this.t == MIN})
lit = Contract("gcs::operator\"\"_i", name="operator\"\"_i", requires=lambda c: [("literal fits", c.a(0).t <= MAX)],
               ensures=lambda c: [("value", c.r.t == c.a(0).t)])

INTEGER = [throw2, throw1, add, sub_, mul, div, mod, neg, abs_, addeq, subeq, preinc, postinc, predec, postdec, lit]


def forall(c, n, body, lemmas=None):
    """a clause for all integers: at a call site a quantifier, in the proof of
    the function itself arbitrary fresh constants (plus lemma instances)"""
    from cv.types import fresh_name
    xs = [z3.Int(fresh_name("any")) for _ in range(n)]
    b = body(*xs)
    if c.call:
        return ForAll(xs, b)
    if lemmas is not None:
        b = Implies(And(*lemmas(*xs)), b)
    return b


def mn(*xs):
    m = xs[0]
    for x in xs[1:]:
        m = If(x < m, x, m)
    return m


def mx(*xs):
    m = xs[0]
    for x in xs[1:]:
        m = If(x > m, x, m)
    return m


UNEXP = "gcs::UnexpectedException"
