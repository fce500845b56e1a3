"""Contracts of power.cc and bits_encoding.cc."""
from contracts.common import *
from contracts.arith import sqabs

UNIMPL = "gcs::UnimplementedException"
I_ = "gcs::innards::"

# the mathematical power b^e for e >= 0: PW(b,0) = 1, PW(b,e+1) = b*PW(b,e)
PW = z3.Function("power", Int, Int, Int)


def pwdef(b, e):
    return And(PW(b, 0) == 1, Implies(e >= 0, PW(b, e + 1) == b * PW(b, e)))


V = z3.IntVal
pw_sq = Lemma("power-of-square", [Int, Int], lambda b, k: Implies(k >= 0, PW(b * b, k) == PW(b, 2 * k)),
              hints=lambda b, k: [pwdef(b * b, k - 1), pwdef(b, 2 * k - 2), pwdef(b, 2 * k - 1),
                                  Implies(k >= 1, PW(b, 2 * k - 2 + 1) == PW(b, 2 * k - 1)), Implies(k >= 1, PW(b, 2 * k - 1 + 1) == PW(b, 2 * k)), PW(b * b, k - 1 + 1) == PW(b * b, k)],
              induction=(lambda b, k: k, lambda b, k: [(b, k - 1)]))
pw_pos = Lemma("power-of-positive", [Int, Int], lambda b, k: Implies(And(b >= 1, k >= 0), And(PW(b, k) >= 1, Implies(k >= 1, PW(b, k) >= b))),
               hints=lambda b, k: [pwdef(b, k - 1), PW(b, k - 1 + 1) == PW(b, k), Implies(And(b >= 1, PW(b, k - 1) >= 1), b * PW(b, k - 1) >= b)],
               induction=(lambda b, k: k, lambda b, k: [(b, k - 1)]))
pw_1 = Lemma("power-of-one", [Int], lambda k: Implies(k >= 0, PW(1, k) == 1), hints=lambda k: [pwdef(V(1), k - 1), PW(1, k - 1 + 1) == PW(1, k)],
             induction=(lambda k: k, lambda k: [(k - 1,)]))
pw_0 = Lemma("power-of-zero", [Int], lambda k: Implies(k >= 1, PW(0, k) == 0), hints=lambda k: [pwdef(V(0), k - 1), PW(0, k - 1 + 1) == PW(0, k)])
pw_m1 = Lemma("power-of-minus-one", [Int], lambda k: Implies(k >= 0, PW(-1, k) == If(k % 2 == 0, V(1), V(-1))),
              hints=lambda k: [pwdef(V(-1), k - 1), PW(-1, k - 1 + 1) == PW(-1, k)], induction=(lambda k: k, lambda k: [(k - 1,)]))
mulmag = Lemma("product-grows-away-from-zero", [Int, Int], lambda x, m: Implies(m >= 1, And(Implies(x >= 0, x * m >= x), Implies(x <= 0, x * m <= x))),
               hints=lambda x, m: [("assert", Implies(And(m >= 1, x >= 0), x * (m - 1) >= 0)), ("assert", Implies(And(m >= 1, x <= 0), x * (m - 1) <= 0))])
mulmag2 = Lemma("nonzero-multiple-at-least-as-large", [Int, Int, Int], lambda r, m, t: Implies(And(r != 0, m >= t, t >= 0), Or(r * m >= t, r * m <= -t)),
                hints=lambda r, m, t: [("assert", Implies(And(r >= 1, m >= 0), r * m >= m)), ("assert", Implies(And(r <= -1, m >= 0), r * m <= -m))])
nosq = Lemma("two-to-63-is-not-a-square", [Int], lambda b: b * b != (1 << 63),
             hints=lambda b: [sqabs(b, V(3037000499)), sqabs(V(3037000500), b), sqabs(b, V(3037000500)), sqabs(V(3037000499), b)])


def _cip_ens(c):
    b, e = c.a(0).t, c.a(1).t
    P = PW(b, e)
    has, v = c.r.has, c.r.val.t
    return [("nothing is returned exactly when the power is not representable", Implies(e >= 0, has == fits(P))),
            ("the value is the power", Implies(And(e >= 0, has), v == P)),
            ("zero to a negative power is undefined", Implies(And(e < 0, b == 0), Not(has))),
            ("a negative power is the truncated reciprocal", Implies(And(e < 0, b != 0), And(has, v == If(b == 1, V(1), If(b == -1, If(e % 2 == 0, V(1), V(-1)), V(0))))))]


def _cip_facts(c):
    b, e = c.a(0).t, c.a(1).t
    return [pwdef(b, V(0)), pw_1(e), pw_0(e), pw_m1(e)]


def _pl(c):
    return c.v("result").t, c.v("b").t, c.v("e").t, PW(c.p(0).t, c.p(1).t)


def _p_inv(c):
    r, b, e, P = _pl(c)
    return [("result * b^e is the power", r * PW(b, e) == P), ("exponent in range", e >= 0), ("magnitudes", And(r != 0, Or(b >= 2, b <= -2), fits(r), fits(b)))]


pfacts = Lemma("power-loop-identities", [Int] * 4,
               lambda r, b, e, k: Implies(And(e >= 0, k == e / 2, Or(b >= 2, b <= -2)),
                                          And(PW(b, e) == If(e == 2 * k, PW(b, 2 * k), PW(b, 2 * k + 1)), e >= 2 * k, e <= 2 * k + 1, b * b >= 4,
                                              Implies(e == 2 * k, r * PW(b, e) == r * PW(b * b, k)), Implies(e == 2 * k + 1, r * PW(b, e) == (r * b) * PW(b * b, k)),
                                              Implies(And(r != 0, b != 0), r * b != 0))),
               hints=lambda r, b, e, k: [pw_sq(b, k), pwdef(b, 2 * k), ("assert", Implies(Or(b >= 2, b <= -2), b * b >= 4)),
                                         ("assert", Implies(And(e >= 0, k == e / 2), Or(e == 2 * k, e == 2 * k + 1))),
                                         ("assert", Implies(And(e >= 0, k == e / 2, e == 2 * k), PW(b, e) == PW(b * b, k))),
                                         ("assert", Implies(And(e >= 0, k == e / 2, e == 2 * k + 1), PW(b, e) == b * PW(b * b, k)))])


def _p_facts2(c):
    r, b, e, P = _pl(c)
    k = e / 2
    S = PW(b * b, k)
    return [pfacts(r, b, e, k), pwdef(b, V(0)), pw_pos(b * b, k), nosq(b), mulmag(r * b, S), mulmag2(r * b, S, b * b), mulmag2(r, S, b * b), pw_pos(b * b, k)]


checked_integer_power = Contract(I_ + "checked_integer_power", ["Integer", "Integer"], ensures=_cip_ens, facts=_cip_facts,
                                 loops=[LoopContract("square-and-multiply", _p_inv, decreases=lambda c: c.v("e").t, facts=_p_facts2)])

power2 = Contract(I_ + "power2", ["Integer"], ensures=lambda c: [("two to that power", c.r.t == PW(2, c.a(0).t))],
                  facts=lambda c: [pwdef(V(2), V(i)) for i in range(63)] + [], throws=lambda c: {UNIMPL: Or(c.a(0).t < 0, c.a(0).t >= 63)})

# ------------------------------------------------------------------ bits


def p2(i):
    """2^i for 0 <= i <= 63 (an explicit table, equal to PW(2, i) by the definition of PW)"""
    return PW(2, i)


POW2_FACTS = [pwdef(V(2), V(i)) for i in range(64)]


def _enc(c):
    lo, hi = c.a(0).t, c.a(1).t
    return lo, hi, mx(hi, If(lo < 0, -lo - 1, V(0)))


def _too_wide(c):
    lo, hi, h = _enc(c)
    return Or(lo == MIN, And(lo < 0, h >= (1 << 62)))


def _coef_ens(c):
    lo, hi, h = _enc(c)
    s, hc, neg = c.r.at(0).t, c.r.at(1).t, c.r.at(2).t
    return [("shift is -1 (no magnitude bits) or a bit position", And(s >= -1, s <= 62)),
            ("highest coefficient is the power of two of the highest shift", hc == If(s >= 0, p2(s), V(0))),
            ("negative coefficient is minus the next power of two, present exactly when the lower bound is negative", neg == If(lo < 0, -p2(s + 1), V(0))),
            ("the lower bound is representable", And(Implies(lo < 0, neg <= lo), Implies(lo >= 0, neg == 0))),
            ("the upper bound is representable", hi <= p2(s + 1) - 1),
            ("no magnitude bit is unnecessary", Or(s == -1, hi >= p2(s), lo < -p2(s)))]


def _pow2_facts(c):
    return POW2_FACTS


coeffs = Contract(I_ + "get_bits_encoding_coeffs", ["Integer", "Integer"], requires=lambda c: [("not an empty range", c.a(0).t <= c.a(1).t)], ensures=_coef_ens, facts=_pow2_facts,
                  throws=lambda c: {OVF: c.a(0).t == MIN, UNIMPL: And(c.a(0).t != MIN, _too_wide(c))}, fork_cond=True)
fits_ = Contract(I_ + "bits_encoding_fits", ["Integer", "Integer"], requires=lambda c: [("not an empty range", c.a(0).t <= c.a(1).t)], facts=_pow2_facts,
                 ensures=lambda c: [("fits exactly when the coefficients are computed without an exception", c.r.t == Not(_too_wide(c)))])

LEM_POW = [sqabs, pw_sq, pw_pos, pw_1, pw_0, pw_m1, mulmag, mulmag2, nosq, pfacts]
POWERS = [power2, checked_integer_power]
BITS = [coeffs, fits_]
