"""Contracts of product_bounds.hh: rounding division, roots, box bounds."""
from contracts.common import *

I_ = "gcs::innards::"


def floor_def(a, b, q):
    """q = floor(a / b), by the defining inequalities"""
    return And(Implies(b > 0, And(q * b <= a, a < q * b + b)), Implies(b < 0, And(q * b >= a, a > q * b + b)))


def ceil_def(a, b, q):
    return And(Implies(b > 0, And(q * b >= a, a > q * b - b)), Implies(b < 0, And(q * b <= a, a < q * b - b)))


def least(c, *ks):
    """overflow may be reported only where an operand is the least representable value, or by the division itself"""
    return Or(*[c.a(k).t == MIN for k in ks])


div_floor = Contract(I_ + "div_floor", ["Integer", "Integer"],
                     ensures=lambda c: [("largest q with q*b <= a", floor_def(c.a(0).t, c.a(1).t, c.r.t))],
                     throws=lambda c: {OVF: Or(c.a(1).t == 0, And(c.a(0).t == MIN, c.a(1).t == -1))})
div_ceil = Contract(I_ + "div_ceil", ["Integer", "Integer"],
                    ensures=lambda c: [("smallest q with q*b >= a", ceil_def(c.a(0).t, c.a(1).t, c.r.t))],
                    throws=lambda c: {OVF: Or(c.a(1).t == 0, And(c.a(0).t == MIN, c.a(1).t == -1))})

# (x + q + 1)^2 >= 4 x (q + 1), and the consequence Newton's step needs
amgm = Lemma("newton-step-stays-above-root", [Int, Int, Int, Int],
             lambda n, x, q, t: Implies(And(n >= 0, x > 0, q >= 0, n < x * (q + 1), 2 * t + 1 >= x + q, t >= 0), n < (t + 1) * (t + 1)),
             hints=lambda n, x, q, t: [("assert", (x + q + 1) * (x + q + 1) == (x - (q + 1)) * (x - (q + 1)) + 4 * (x * (q + 1))),
                                       ("assert", (x - (q + 1)) * (x - (q + 1)) >= 0),
                                       ("assert", Implies(And(x > 0, q >= 0, 2 * t + 1 >= x + q), (2 * t + 2) * (2 * t + 2) >= (x + q + 1) * (x + q + 1))),
                                       ("assert", (2 * t + 2) * (2 * t + 2) == 4 * ((t + 1) * (t + 1)))])
sumq = Lemma("x-plus-quotient-bounded", [Int, Int, Int],
             lambda n, x, q: Implies(And(x >= 1, q >= 1, x * q <= n), x + q <= n + 1),
             hints=lambda n, x, q: [("assert", Implies(And(x >= 1, q >= 1), (x - 1) * (q - 1) >= 0)), ("assert", (x - 1) * (q - 1) == x * q - x - q + 1)])
qpos = Lemma("quotient-at-least-one", [Int, Int, Int], lambda n, x, q: Implies(And(x >= 1, n >= x, n < x * (q + 1)), q >= 1),
             hints=lambda n, x, q: [("assert", Implies(And(x >= 1, q <= 0), x * (q + 1) <= x))])
xle = Lemma("below-quotient-is-below-root", [Int, Int, Int], lambda n, x, q: Implies(And(x >= 1, x <= q, x * q <= n), x * x <= n),
            hints=lambda n, x, q: [("assert", Implies(And(x >= 1, x <= q), x * x <= x * q))])
sqmono = Lemma("square-monotone", [Int, Int], lambda a, b: Implies(And(a >= 0, a <= b), a * a <= b * b),
               hints=lambda a, b: [("assert", b * b - a * a == (b - a) * (b + a))])


def _nq(c):
    n, x = c.p(0).t, c.v("x").t
    return n, x, TQ(n, x), TQ(x + TQ(n, x), 2)


def _newton_facts(c):
    n, x, q, t = _nq(c)
    y = c.v("y").t
    return [amgm(n, x, q, t), sumq(n, x, q), qpos(n, x, q), xle(n, x, q), tdef(n, x), tdef(x + q, 2)] + \
        [amgm(n, y, TQ(n, y), TQ(y + TQ(n, y), 2)), sumq(n, y, TQ(n, y)), qpos(n, y, TQ(n, y)), tdef(n, y), tdef(y + TQ(n, y), 2)]


def _newton_inv(c):
    n, x, y = c.p(0).t, c.v("x").t, c.v("y").t
    return [("guesses in range", And(1 <= x, x <= n, 1 <= y, y <= n)), ("x is at or above the root", n < (x + 1) * (x + 1)),
            ("y is at or above the root", n < (y + 1) * (y + 1)), ("if the step does not decrease, x is at or below the root", Implies(y >= x, x * x <= n))]


isqrt = Contract(I_ + "isqrt", ["Integer"],
                 ensures=lambda c: [("not negative", c.r.t >= 0), ("r*r <= n", c.r.t * c.r.t <= c.a(0).t), ("n < (r+1)*(r+1)", c.a(0).t < (c.r.t + 1) * (c.r.t + 1))],
                 throws=lambda c: {UNEXP: c.a(0).t < 0},
                 facts=lambda c: [tdef(c.a(0).t, c.a(0).t), amgm(c.a(0).t, c.a(0).t, I1, TQ(c.a(0).t + 1, 2)), tdef(c.a(0).t + 1, 2), tdef(c.a(0).t, 2)],
                 loops=[LoopContract("newton", _newton_inv, decreases=lambda c: c.v("x").t, facts=_newton_facts, step_facts=_newton_facts)])
I1 = z3.IntVal(1)
ceil_isqrt = Contract(I_ + "ceil_isqrt", ["Integer"],
                      ensures=lambda c: [("not negative", c.r.t >= 0), ("r*r >= n", c.r.t * c.r.t >= c.a(0).t), ("smaller candidates are too small", Or(c.r.t == 0, (c.r.t - 1) * (c.r.t - 1) < c.a(0).t))],
                      throws=lambda c: {UNEXP: c.a(0).t < 0})

# ------------------------------------------------------------------ boxes
between = Lemma("product-between-ends", [Int, Int, Int, Int],
                lambda a, b, x, k: Implies(And(a <= x, x <= b), And(mn(a * k, b * k) <= x * k, x * k <= mx(a * k, b * k))),
                hints=lambda a, b, x, k: [("assert", Implies(And(a <= x, k >= 0), (x - a) * k >= 0)), ("assert", Implies(And(x <= b, k >= 0), (b - x) * k >= 0)),
                                          ("assert", Implies(And(a <= x, k <= 0), (x - a) * k <= 0)), ("assert", Implies(And(x <= b, k <= 0), (b - x) * k <= 0))])
bilin = Lemma("product-between-corners", [Int] * 6,
              lambda x1, x2, y1, y2, x, y: Implies(And(x1 <= x, x <= x2, y1 <= y, y <= y2),
                                                   And(mn(x1 * y1, x1 * y2, x2 * y1, x2 * y2) <= x * y, x * y <= mx(x1 * y1, x1 * y2, x2 * y1, x2 * y2))),
              hints=lambda x1, x2, y1, y2, x, y: [between(x1, x2, x, y), between(y1, y2, y, x1), between(y1, y2, y, x2)])


def _pb_ens(c):
    x1, x2, y1, y2 = [c.a(i).t for i in range(4)]
    lo, hi = c.r.at(0).t, c.r.at(1).t
    corners = [x1 * y1, x1 * y2, x2 * y1, x2 * y2]
    return [("every product in the box is within the bounds", forall(c, 2, lambda x, y: Implies(And(x1 <= x, x <= x2, y1 <= y, y <= y2), And(lo <= x * y, x * y <= hi)),
                                                                  lambda x, y: [bilin(x1, x2, y1, y2, x, y)])),
            ("lower bound attained at a corner", Or(*[lo == k for k in corners])), ("upper bound attained at a corner", Or(*[hi == k for k in corners]))]


def _box(c, i, j):
    return ("box is not empty", c.a(i).t <= c.a(j).t)


product_bounds = Contract(I_ + "product_bounds", ["Integer"] * 4, requires=lambda c: [_box(c, 0, 1), _box(c, 2, 3)], ensures=_pb_ens,
                          throws=lambda c: {OVF: Or(*[Not(fits(c.a(i).t * c.a(j).t)) for i in (0, 1) for j in (2, 3)])})


def _sb_ens(c):
    l, h = c.a(0).t, c.a(1).t
    lo, hi = c.r.at(0).t, c.r.at(1).t
    return [("every square is within the bounds", forall(c, 1, lambda x: Implies(And(l <= x, x <= h), And(lo <= x * x, x * x <= hi)),
                                                        lambda x: [sqmono(x, h), sqmono(-x, -l), sqmono(l, x), sqmono(-h, -x), sqmono(-l, x), sqmono(x, -l), sqmono(-x, h)])),
            ("lower bound attained", Or(And(lo == 0, l <= 0, 0 <= h), And(lo == l * l), And(lo == h * h))), ("upper bound attained", Or(hi == l * l, hi == h * h)),
            ("bounds are not negative", And(lo >= 0, hi >= 0))]


square_bounds = Contract(I_ + "square_bounds", ["Integer"] * 2, requires=lambda c: [_box(c, 0, 1)], ensures=_sb_ens,
                         throws=lambda c: {OVF: Or(Not(fits(c.a(0).t * c.a(0).t)), Not(fits(c.a(1).t * c.a(1).t)))})


def _supp(c, x):
    return And(c.a(0).t <= x, x <= c.a(1).t, c.a(2).t <= x * x, x * x <= c.a(3).t)


def _sf_ens(c):
    lo, hi = c.r.at(0).t, c.r.at(1).t
    return [("every supported value is kept", forall(c, 1, lambda x: Implies(_supp(c, x), And(lo <= x, x <= hi)), lambda x: _sf_hints(c, x))),
            ("the bounds lie in the box, or nothing is left", Or(lo > hi, And(c.a(0).t <= lo, hi <= c.a(1).t))),
            ("the lower end is supported, or nothing is left", Or(lo > hi, And(c.a(2).t <= lo * lo, lo * lo <= c.a(3).t)), ),
            ("the upper end is supported, or nothing is left", Or(lo > hi, And(c.a(2).t <= hi * hi, hi * hi <= c.a(3).t)))]


# |a| <= |b| iff a*a <= b*b, in the instances used
sqabs = Lemma("squares-order-magnitudes", [Int, Int], lambda a, b: And(Implies(a * a <= b * b, absz(a) <= absz(b)), Implies(absz(a) <= absz(b), a * a <= b * b),
                                                                      Implies(a * a < b * b, absz(a) < absz(b)), Implies(absz(a) < absz(b), a * a < b * b)),
              hints=lambda a, b: [("assert", b * b - a * a == (absz(b) - absz(a)) * (absz(b) + absz(a))),
                                  ("assert", Implies(absz(a) <= absz(b), (absz(b) - absz(a)) * (absz(b) + absz(a)) >= 0)),
                                  ("assert", Implies(absz(a) < absz(b), (absz(b) - absz(a)) * (absz(b) + absz(a)) > 0)),
                                  ("assert", a * a - b * b == (absz(a) - absz(b)) * (absz(a) + absz(b))),
                                  ("assert", Implies(absz(b) <= absz(a), (absz(a) - absz(b)) * (absz(a) + absz(b)) >= 0)),
                                  ("assert", Implies(absz(b) < absz(a), (absz(a) - absz(b)) * (absz(a) + absz(b)) > 0))])


def _roots(c):
    """the results of the root computations made on this path"""
    return [x for k, x in c.st.ghost.items() if k[0] == "callres" and k[1] in (I_ + "isqrt", I_ + "ceil_isqrt")]


def _sf_hints(c, x):
    out = []
    for w in _roots(c):
        r = w.t
        for p in (x, c.a(0).t, c.a(1).t):
            out += [sqabs(p, r), sqabs(p, r + 1), sqabs(r, p), sqabs(r + 1, p), sqabs(p, r - 1), sqabs(r - 1, p)]
    return out


def _sf_exit(c):
    out = []
    rs = [w.t for w in _roots(c)]
    for p in (c.a(0).t, c.a(1).t, c.r.at(0).t, c.r.at(1).t):
        for r in rs:
            out += [sqabs(p, r), sqabs(p, r + 1), sqabs(r, p), sqabs(r + 1, p), sqabs(p, r - 1), sqabs(r - 1, p)]
    for a in rs:
        for b in rs:
            if a is not b:
                out += [sqabs(a, b), sqabs(a, b + 1), sqabs(a - 1, b)]
    return out


square_filter = Contract(I_ + "square_filter", ["Integer"] * 4, requires=lambda c: [_box(c, 0, 1), _box(c, 2, 3)], ensures=_sf_ens, exit_facts=_sf_exit)


def _qf_ens(c):
    y1, y2, z1, z2 = [c.a(i).t for i in range(4)]
    k = c.r.fld(0).t
    lo, hi = c.r.fld(1).t, c.r.fld(2).t
    K = lambda n: c.enum("gcs::innards::QuotientFilter::Kind", n)
    box = lambda y, z: And(y1 <= y, y <= y2, z1 <= z, z <= z2)
    dv = [w for kk, w in c.st.ghost.items() if kk[0] == "callres" and kk[1] in (I_ + "div_floor", I_ + "div_ceil")]

    def hints(x, y):
        out = [between(a, b, y, x) for a, b in ((y1, y2), (z3.IntVal(1), y2), (y1, z3.IntVal(-1)))]
        for w in dv:
            for j in (y1, y2, z3.IntVal(1), z3.IntVal(-1)):
                out += [lecancel(x, w.t - 1, j), lecancel(w.t + 1, x, j)]
        out += [magn(x, y)]
        return out
    return [("no supported value is excluded by the bounds", forall(c, 2, lambda x, y: Implies(And(k == K("Bounds"), box(y, x * y)), And(lo <= x, x <= hi)), hints)),
            ("'no value' only when nothing is supported", forall(c, 2, lambda x, y: Implies(And(k == K("EmptyBecauseYZero")), Not(box(y, x * y))))),
            ("'no filtering' only when every value is supported", Implies(k == K("NoFilter"), box(z3.IntVal(0), z3.IntVal(0)))),
            ("'no value' is reported whenever the divisor is zero and the product is not", Implies(And(y1 == 0, y2 == 0, Or(z1 > 0, z2 < 0)), k == K("EmptyBecauseYZero")))]


lecancel = Lemma("multiply-inequality", [Int, Int, Int], lambda x, y, k: Implies(x <= y, And(Implies(k >= 0, x * k <= y * k), Implies(k <= 0, x * k >= y * k))),
                 hints=lambda x, y, k: [("assert", Implies(And(x <= y, k >= 0), (y - x) * k >= 0)), ("assert", Implies(And(x <= y, k <= 0), (y - x) * k <= 0))])
magn = Lemma("factor-magnitude", [Int, Int], lambda x, y: Implies(y != 0, absz(x) <= absz(x * y)),
             hints=lambda x, y: [("assert", Implies(y >= 1, absz(x) * y >= absz(x))), ("assert", Implies(y <= -1, absz(x) * (-y) >= absz(x))),
                                 ("assert", absz(x * y) == absz(x) * absz(y))])
quotient_filter = Contract(I_ + "quotient_filter", ["Integer"] * 4, requires=lambda c: [_box(c, 0, 1), _box(c, 2, 3)], ensures=_qf_ens,
                           throws=lambda c: {OVF: ("may", And(least(c, 2, 3), c.a(0).t < 0, c.a(1).t >= -1))})

ROUND = [div_floor, div_ceil, isqrt, ceil_isqrt]
BOXES = [product_bounds, square_bounds, square_filter, quotient_filter]
LEM_ROUND = [amgm, sumq, qpos, xle, sqmono]
LEM_BOX = [between, bilin, sqmono, sqabs, lecancel, magn]
