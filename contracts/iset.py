"""Contracts of IntervalSet: a set of integers as sorted, disjoint, non-touching intervals."""
from contracts.common import *
from cv.types import Val, sub, fresh_name, Unsupported
from cv.engine import VIter

SET = "gcs::IntervalSet::"
Arr = z3.ArraySort(Int, Int)

# IN(los, his, n, x): x lies in one of the first n intervals; AT is which one
IN = z3.Function("lies_in_first", Arr, Arr, Int, Int, Bool)
AT = z3.Function("lies_in_which", Arr, Arr, Int, Int, Int)
# YD(ys, n, x): x is one of the first n values yielded; YAT is at which position
YD = z3.Function("is_among_first", Arr, Int, Int, Bool)
YAT = z3.Function("is_at", Arr, Int, Int, Int)
# SUM(los, his, n): sum of the lengths of the first n intervals
SUM = z3.Function("total_length", Arr, Arr, Int, Int)


def defs():
    """IN and YD are existential statements: IN(l,h,n,x) = (exists i < n. l[i] <= x <= h[i])"""
    l, h, y = z3.Const("l!d", Arr), z3.Const("h!d", Arr), z3.Const("y!d", Arr)
    n, x, i = z3.Ints("n!d x!d i!d")
    w, v = AT(l, h, n, x), YAT(y, n, x)
    S = z3.Select
    return [ForAll([l, h, n, x], Implies(IN(l, h, n, x), And(0 <= w, w < n, S(l, w) <= x, x <= S(h, w))), patterns=[IN(l, h, n, x)]),
            ForAll([l, h, n, x, i], Implies(And(0 <= i, i < n, S(l, i) <= x, x <= S(h, i)), IN(l, h, n, x)), patterns=[z3.MultiPattern(IN(l, h, n, x), S(l, i))]),
            ForAll([y, n, x], Implies(YD(y, n, x), And(0 <= v, v < n, S(y, v) == x)), patterns=[YD(y, n, x)]),
            ForAll([y, n, x, i], Implies(And(0 <= i, i < n, S(y, i) == x), YD(y, n, x)), patterns=[z3.MultiPattern(YD(y, n, x), S(y, i))])]


DEFS = defs()


class Seq:
    """intervals (or values) held in a sequence"""

    def __init__(self, w, st=None):
        lv = w.v.lv
        self.n = lv[("#",)]
        rest = {p: t for p, t in lv.items() if p != ("#",)}
        lo = [t for p, t in rest.items() if p[:2] == ("[]", "0")]
        if lo:
            self.lo, self.hi = lo[0], [t for p, t in rest.items() if p[:2] == ("[]", "1")][0]
        else:
            self.y, = rest.values()

    def has(self, x, n=None):
        return IN(self.lo, self.hi, self.n if n is None else n, x)

    def yd(self, x, n=None):
        return YD(self.y, self.n if n is None else n, x)

    def wf(self):
        i, j = z3.Ints("i!w j!w")
        l, h, n = self.lo, self.hi, self.n
        S = z3.Select
        return [("each interval holds something", ForAll([i], Implies(And(0 <= i, i < n), S(l, i) <= S(h, i)), patterns=[S(l, i), S(h, i)])),
                ("intervals are in order, no two touch or overlap", ForAll([i, j], Implies(And(0 <= i, i < j, j < n), S(h, i) + 1 < S(l, j)), patterns=[z3.MultiPattern(S(l, i), S(l, j))]))]

    def all(self, f, a=0, b=None, over="lo"):
        """f(index) for every index in [a, b)"""
        i = z3.Int("i!a")
        return ForAll([i], Implies(And(a <= i, i < (self.n if b is None else b)), f(i)), patterns=[z3.Select(getattr(self, over), i)])

    def L(self, i):
        return z3.Select(self.lo, i)

    def H(self, i):
        return z3.Select(self.hi, i)

    def Y(self, i):
        return z3.Select(self.y, i)

    def increasing(self, sign=1):
        i, j = z3.Ints("i!y j!y")
        a, b = self.Y(i), self.Y(j)
        return ForAll([i, j], Implies(And(0 <= i, i < j, j < self.n), a < b if sign > 0 else a > b), patterns=[z3.MultiPattern(a, b)])


def S(w):
    """the set a value represents"""
    return Seq(w.intervals) if w.ty.k == "rec" else Seq(w)


def each(f, pat):
    x = z3.Int("x!s")
    return ForAll([x], f(x), patterns=[pat(x)])


def same(a, b, extra=None, an=None, bn=None):
    """a holds x exactly if extra(x, b holds x)"""
    x = z3.Int("x!s")
    return ForAll([x], a.has(x, an) == (extra(x, b.has(x, bn)) if extra else b.has(x, bn)), patterns=[a.has(x, an), b.has(x, bn)])


def ranges(*seqs):
    """every element is representable, being an Integer"""
    out = []
    for s in seqs:
        i = z3.Int("i!r")
        out.append(ForAll([i], And(fits(s.L(i)), fits(s.H(i))), patterns=[s.L(i)]))
    return out


req = lambda c: S(c.this).wf()


def req2(c):
    return [(n, f) for n, f in S(c.this).wf()] + [("the other: " + n, f) for n, f in S(c.a(0)).wf()]


def facts(c):
    return DEFS + ranges(S(c.this))


def facts2(c):
    return facts(c) + ranges(S(c.a(0)))


def mod(cond):
    """ensures clause of a modifier: exactly the old members for which cond holds, plus none"""
    def ens(c):
        a, b = S(c.this), S(c.this_x)
        return [("the members are exactly the specified ones", same(b, a, lambda x, m: And(m, cond(c, x))))] + b.wf()
    return ens


# ---- queries
ctor = Contract(SET + "IntervalSet", ["Integer", "Integer"], name="IntervalSet(lower,upper)", modifies=["this"], facts=lambda c: DEFS,
                requires=lambda c: [("lower <= upper", c.a(0).t <= c.a(1).t)],
                ensures=lambda c: [("holds exactly the values between", each(lambda x: S(c.this_x).has(x) == And(c.a(0).t <= x, x <= c.a(1).t), lambda x: S(c.this_x).has(x)))] + S(c.this_x).wf())


I0 = z3.IntVal(0)


def sum_step(l, h, k):
    return Implies(k >= 0, SUM(l, h, k + 1) == SUM(l, h, k) + z3.Select(h, k) - z3.Select(l, k) + 1)


def sum_defs(l, h):
    return SUM(l, h, 0) == 0


def _mono(l, h, m, n):
    i = z3.Int("i!w")
    ok = ForAll([i], Implies(And(0 <= i, i < n), z3.Select(l, i) <= z3.Select(h, i)), patterns=[z3.Select(l, i)])
    return Implies(And(0 <= m, m <= n, ok), SUM(l, h, m) <= SUM(l, h, n))


sum_mono = Lemma("total-length-monotone", [Arr, Arr, Int, Int], _mono, induction=(lambda l, h, m, n: n, lambda l, h, m, n: [(l, h, m, n - 1)]),
                 hints=lambda l, h, m, n: [sum_step(l, h, n - 1)])


def stores(*seqs):
    """array theory, spelled out: elements of the array updated name elements of the result"""
    out, seen = [], set()
    for s in seqs:
        for t in (s.lo, s.hi):
            while z3.is_app_of(t, z3.Z3_OP_STORE) and t.get_id() not in seen:
                seen.add(t.get_id())
                b, k, v = t.children()
                i = z3.Int(fresh_name("i"))
                out.append(ForAll([i], z3.Select(t, i) == If(i == k, v, z3.Select(b, i)), patterns=[z3.Select(b, i)]))
                t = b
    return out


def wit(s, i, x, n=None):
    """instance of the definition of membership"""
    m = s.n if n is None else n
    return Implies(And(0 <= i, i < m, s.L(i) <= x, x <= s.H(i)), s.has(x, m))


def step(s, k):
    """what the (k+1)st interval adds to the members of the first k (an instance of the definition)"""
    x = z3.Int("x!t")
    return Implies(k >= 0, And(ForAll([x], s.has(x, k + 1) == Or(s.has(x, k), And(s.L(k) <= x, x <= s.H(k))), patterns=[s.has(x, k + 1)]),
                               ForAll([x], s.has(x, k + 1) == Or(s.has(x, k), And(s.L(k) <= x, x <= s.H(k))), patterns=[s.has(x, k)])))


step_l = Lemma("members-of-one-more-interval", [Arr, Arr, Int, Int], lambda l, h, k, x: Implies(k >= 0, IN(l, h, k + 1, x) == Or(IN(l, h, k, x), And(z3.Select(l, k) <= x, x <= z3.Select(h, k)))), hints=lambda l, h, k, x: DEFS)
push_l = Lemma("members-after-appending", [Arr, Arr, Int, Int, Int, Int],
               lambda l, h, n, a, b, x: Implies(n >= 0, IN(z3.Store(l, n, a), z3.Store(h, n, b), n + 1, x) == Or(IN(l, h, n, x), And(a <= x, x <= b))), hints=lambda l, h, n, a, b, x: DEFS)
yield_l = Lemma("values-after-one-more-yield", [Arr, Int, Int, Int], lambda y, n, v, x: Implies(n >= 0, YD(z3.Store(y, n, v), n + 1, x) == Or(YD(y, n, x), x == v)), hints=lambda y, n, v, x: DEFS)


def pushes():
    """the two append lemmas, wherever such a term occurs"""
    push_l.used = yield_l.used = True
    l, h, y = z3.Const("l!p", Arr), z3.Const("h!p", Arr), z3.Const("y!p", Arr)
    n, m, a, b, x = z3.Ints("n!p m!p a!p b!p x!p")
    return [ForAll([l, h, n, m, a, b, x], Implies(And(n >= 0, m == n + 1), IN(z3.Store(l, n, a), z3.Store(h, n, b), m, x) == Or(IN(l, h, n, x), And(a <= x, x <= b))), patterns=[IN(z3.Store(l, n, a), z3.Store(h, n, b), m, x)]),
            ForAll([y, n, m, a, x], Implies(And(n >= 0, m == n + 1), YD(z3.Store(y, n, a), m, x) == Or(YD(y, n, x), x == a)), patterns=[YD(z3.Store(y, n, a), m, x)])]


ystep_l = Lemma("values-of-one-more-position", [Arr, Int, Int], lambda y, k, x: Implies(k >= 0, YD(y, k + 1, x) == Or(YD(y, k, x), x == z3.Select(y, k))), hints=lambda y, k, x: DEFS)


def ystep(s, k):
    ystep_l.used = True
    x = z3.Int("x!t")
    f = s.yd(x, k + 1) == Or(s.yd(x, k), x == s.Y(k))
    return Implies(k >= 0, ForAll([x], f, patterns=[s.yd(x, k + 1), s.yd(x, k)]))


class Raw(Seq):
    def __init__(self, l, h, n):
        self.lo, self.hi, self.n = l, h, n


def _rest(l, h, n, k, x):
    s = Raw(l, h, n)
    return Implies(And(*[f for _, f in s.wf()]), Implies(And(0 <= k, k < n, IN(l, h, n, x), Not(IN(l, h, k, x))), z3.Select(l, k) <= x))


rest_l = Lemma("members-not-in-the-first-intervals-lie-above", [Arr, Arr, Int, Int, Int], _rest, hints=lambda l, h, n, k, x: DEFS)


def rest(s, k):
    """what is not in the first k intervals lies in or above the next one"""
    rest_l.used = True
    x = z3.Int("x!u")
    return Implies(And(*[f for _, f in s.wf()]), ForAll([x], Implies(And(0 <= k, k < s.n, s.has(x), Not(s.has(x, k))), s.L(k) <= x), patterns=[s.has(x)]))


def steps(s, *ks):
    step_l.used = True
    return [step(s, k) for k in ks]


PUSH = pushes()
none = lambda s: each(lambda x: Not(s.has(x)), lambda x: s.has(x))
empty = Contract(SET + "empty", requires=req, facts=lambda c: facts(c) + [wit(S(c.this), I0, S(c.this).L(I0))],
                 ensures=lambda c: [("empty exactly if nothing is a member", c.r.t == none(S(c.this)))])
size = Contract(SET + "size", requires=req, facts=lambda c: facts(c) + [sum_defs(S(c.this).lo, S(c.this).hi)],
                throws=lambda c: {OVF: SUM(S(c.this).lo, S(c.this).hi, S(c.this).n) > MAX},
                ensures=lambda c: [("the lengths of the intervals added up", c.r.t == SUM(S(c.this).lo, S(c.this).hi, S(c.this).n))],
                loops=[LoopContract("intervals", lambda c: [("index in range", And(0 <= c.index, c.index <= S(c.this).n)), ("sum so far", c.v("result").t == SUM(S(c.this).lo, S(c.this).hi, c.index)), ("not negative", c.v("result").t >= 0)],
                                    facts=lambda c: [sum_step(S(c.this).lo, S(c.this).hi, c.index), sum_mono(S(c.this).lo, S(c.this).hi, c.index + 1, S(c.this).n)],
                                    decreases=lambda c: S(c.this).n - c.index)])
nonempty = lambda c: S(c.this).wf() + [("not empty", S(c.this).n > 0)]
lower = Contract(SET + "lower", requires=nonempty, facts=lambda c: facts(c) + [wit(S(c.this), I0, S(c.this).L(I0))],
                 ensures=lambda c: [("a member", S(c.this).has(c.r.t)), ("the lower end of the first interval", c.r.t == S(c.this).L(I0)), ("the least", each(lambda x: Implies(S(c.this).has(x), c.r.t <= x), lambda x: S(c.this).has(x)))])
upper = Contract(SET + "upper", requires=nonempty, facts=lambda c: facts(c) + [wit(S(c.this), S(c.this).n - 1, S(c.this).H(S(c.this).n - 1))],
                 ensures=lambda c: [("a member", S(c.this).has(c.r.t)), ("the upper end of the last interval", c.r.t == S(c.this).H(S(c.this).n - 1)), ("the greatest", each(lambda x: Implies(S(c.this).has(x), c.r.t >= x), lambda x: S(c.this).has(x)))])
contains = Contract(SET + "contains", requires=req, facts=facts, ensures=lambda c: [("true exactly for members", c.r.t == S(c.this).has(c.a(0).t))],
                    loops=[LoopContract("intervals", lambda c: [("index in range", And(0 <= c.index, c.index <= S(c.this).n)), ("not in an earlier interval", Not(S(c.this).has(c.p(0).t, c.index)))],
                                        facts=lambda c: steps(S(c.this), c.index), decreases=lambda c: S(c.this).n - c.index)])


def overlap(a, b):
    """two intervals that meet have a common member (instances of the definition)"""
    i, j = z3.Ints("i!o j!o")
    w = If(a.L(i) >= b.L(j), a.L(i), b.L(j))
    return ForAll([i, j], Implies(And(0 <= i, i < a.n, 0 <= j, j < b.n, a.L(i) <= b.H(j), b.L(j) <= a.H(i), a.L(i) <= a.H(i), b.L(j) <= b.H(j)), And(a.has(w), b.has(w))), patterns=[z3.MultiPattern(a.L(i), b.L(j))])


def disjoint(a, b, an=None, bn=None):
    return each(lambda x: Not(And(a.has(x, an), b.has(x, bn))), lambda x: a.has(x, an) if bn is None else b.has(x, bn))


def _any_inv(c):
    a, b, i, j = S(c.this), S(c.p(0)), c.v("i").idx, c.v("j").idx
    return [("positions in range", And(0 <= i, i <= a.n, 0 <= j, j <= b.n)),
            ("nothing in the intervals passed here is in the other", disjoint(a, b, an=i)), ("nothing in the intervals passed there is in this", disjoint(a, b, bn=j))]


contains_any_of = Contract(SET + "contains_any_of", requires=req2, facts=lambda c: facts2(c) + [overlap(S(c.this), S(c.a(0)))],
                           ensures=lambda c: [("true exactly if some value is in both", c.r.t == Not(disjoint(S(c.this), S(c.a(0)))))],
                           loops=[LoopContract("merge", _any_inv, facts=lambda c: [rest(S(c.this), c.v("i").idx), rest(S(c.p(0)), c.v("j").idx)] + steps(S(c.this), c.v("i").idx) + steps(S(c.p(0)), c.v("j").idx),
                                               decreases=lambda c: S(c.this).n + S(c.p(0)).n - c.v("i").idx - c.v("j").idx)])


def holes(s):
    p, q, g = z3.Ints("p!h q!h g!h")
    return Not(ForAll([p, q, g], Not(And(s.has(p), s.has(q), p < g, g < q, Not(s.has(g)))), patterns=[z3.MultiPattern(s.has(p), s.has(q), s.has(g))]))


I1 = z3.IntVal(1)
has_holes = Contract(SET + "has_holes", requires=req, facts=lambda c: facts(c) + [wit(S(c.this), I0, S(c.this).H(I0)), wit(S(c.this), I1, S(c.this).L(I1)), wit(S(c.this), I1, S(c.this).H(I0) + 1)],
                     ensures=lambda c: [("true exactly if a value between two members is missing", c.r.t == holes(S(c.this)))])


# ---- modifiers
def _erase_inv(c):
    a, b, v, k = S(c.this_e), S(c.this), c.p(0).t, c.v("iter").idx
    return [("position in range", And(0 <= k, k <= b.n)), ("no interval was added or removed", b.n == a.n), ("other values stay as they are", same(b, a, lambda x, m: If(x == v, b.has(x), m))),
            ("the value is in none of the intervals passed", b.all(lambda i: Or(v < b.L(i), b.H(i) < v), 0, k))] + b.wf()


mfacts = lambda c: facts(c) + [same(S(c.this), S(c.this))]
erase = Contract(SET + "erase", ["Integer"], modifies=["this"], requires=req, facts=facts, exit_facts=lambda c: stores(S(c.this_x)), ensures=mod(lambda c, x: x != c.a(0).t),
                 loops=[LoopContract("intervals", _erase_inv, facts=lambda c: ranges(S(c.this)), step_facts=lambda c: stores(S(c.this)), decreases=lambda c: S(c.this).n - c.v("iter").idx)])


def _range_inv(c):
    a, b, lo, hi, k = S(c.this_e), S(c.this), c.p(0).t, c.p(1).t, c.v("iter").idx
    return [("position in range", And(0 <= k, k <= b.n)), ("values outside the range stay as they are, no value is added", same(b, a, lambda x, m: If(And(lo <= x, x <= hi), And(m, b.has(x)), m))),
            ("the intervals passed end before the range", b.all(lambda i: b.H(i) < lo, 0, k))] + b.wf()


erase_range = Contract(SET + "erase_range", ["Integer", "Integer"], modifies=["this"], requires=req, facts=facts, exit_facts=lambda c: stores(S(c.this_x)), ensures=mod(lambda c, x: Not(And(c.a(0).t <= x, x <= c.a(1).t))),
                       loops=[LoopContract("intervals", _range_inv, facts=lambda c: ranges(S(c.this)), step_facts=lambda c: stores(S(c.this)), decreases=lambda c: S(c.this).n - c.v("iter").idx)])


def _lt_inv(c):
    a, v, k = S(c.this), c.p(0).t, c.v("iter").idx
    return [("position in range", And(0 <= k, k <= a.n)), ("the intervals passed end below the value", a.all(lambda i: a.H(i) < v, 0, k))]


erase_lt = Contract(SET + "erase_less_than", ["Integer"], modifies=["this"], requires=req, facts=facts, exit_facts=lambda c: stores(S(c.this_x)), ensures=mod(lambda c, x: x >= c.a(0).t),
                    loops=[LoopContract("intervals", _lt_inv, step_facts=lambda c: stores(S(c.this)), decreases=lambda c: S(c.this).n - c.v("iter").idx)])
erase_gt = Contract(SET + "erase_greater_than", ["Integer"], modifies=["this"], requires=req, facts=facts, exit_facts=lambda c: stores(S(c.this_x)), ensures=mod(lambda c, x: x <= c.a(0).t),
                    loops=[LoopContract("intervals", _lt_inv, step_facts=lambda c: stores(S(c.this)), decreases=lambda c: S(c.this).n - c.v("iter").idx)])
clear = Contract(SET + "clear", modifies=["this"], requires=req, facts=facts, ensures=lambda c: [("nothing is left", none(S(c.this_x))), ("no interval is left", S(c.this_x).n == 0)] + S(c.this_x).wf())


def _ins(upto):
    def ens(c):
        a, b, v, w = S(c.this), S(c.this_x), c.a(0).t, c.a(upto).t
        return [("the values given are members, and otherwise the same values as before", same(b, a, lambda x, m: Or(m, And(v <= x, x <= w))))] + b.wf()

    def rq(c):
        a = S(c.this)
        return a.wf() + [("nothing greater is in the set", Or(a.n == 0, a.H(a.n - 1) <= c.a(0).t)), ("lower <= upper", c.a(0).t <= c.a(upto).t)]
    return Contract(SET + "insert_at_end", ["Integer"] * (upto + 1), name="IntervalSet::insert_at_end/%d" % (upto + 1), modifies=["this"], requires=rq, facts=lambda c: facts(c) + PUSH, exit_facts=lambda c: stores(S(c.this_x)), ensures=ens)


ins1, ins2 = _ins(0), _ins(1)


def below(a_end, b_start, a, b, A, B):
    """every a_end(t) for t in range A is less than every b_start(j) for j in range B (each given with a term to trigger on)"""
    t, j = z3.Ints("t!b j!b")
    return ForAll([t, j], Implies(And(A[0] <= t, t < A[1], B[0] <= j, j < B[1]), a_end(t) < b_start(j)), patterns=[z3.MultiPattern(a(t), b(j))])


def _meet_outer(c, k=None):
    a, b, r = S(c.this), S(c.p(0)), S(c.v("result"))
    i = c.v("i").idx if k is None else k
    j = c.v("j").idx
    return [("positions in range", And(0 <= i, i <= a.n, 0 <= j, j <= b.n)),
            ("the result so far is what the intervals passed share with the other set", each(lambda x: r.has(x) == And(a.has(x, i), b.has(x)), lambda x: r.has(x))),
            ("the result lies below what is to come", below(lambda t: r.H(t) + 1, a.L, r.H, a.L, (0, r.n), (i, a.n))),
            ("the other's intervals passed lie below what is to come", below(b.H, a.L, b.H, a.L, (0, j), (i, a.n)))] + r.wf()


def _meet_skip(c):
    a, b, i, j = S(c.this), S(c.p(0)), c.v("i").idx, c.v("j").idx
    return [("position in range", And(0 <= j, j <= b.n)), ("the other's intervals passed lie below", b.all(lambda t: b.H(t) < a.L(i), 0, j, "hi"))]


def _meet_inner(c):
    a, b, r = S(c.this), S(c.p(0)), S(c.v("result"))
    i, j, k = c.v("i").idx, c.v("j").idx, c.v("k").idx
    t, q = z3.Ints("t!b j!b")
    return [("positions in range", And(j <= k, k <= b.n)),
            ("the result so far is what is shared so far", each(lambda x: r.has(x) == Or(And(a.has(x, i), b.has(x)), And(a.L(i) <= x, x <= a.H(i), b.has(x, k))), lambda x: r.has(x))),
            ("the result lies below what is to come", ForAll([t, q], Implies(And(0 <= t, t < r.n, k <= q, q < b.n), Or(r.H(t) + 1 < a.L(i), r.H(t) + 1 < b.L(q))), patterns=[z3.MultiPattern(r.H(t), b.L(q))])),
            ("the result ends with this interval", r.all(lambda t: r.H(t) <= a.H(i), over="hi")),
            ("the other's intervals passed end with this interval", b.all(lambda t: b.H(t) <= a.H(i), 0, k, "hi"))] + r.wf()


mfacts2 = lambda c: ranges(S(c.this), S(c.p(0)), S(c.v("result"))) + stores(S(c.v("result")))
intersect = Contract(SET + "intersect_with", modifies=["this"], requires=req2, facts=lambda c: facts2(c) + PUSH,
                     ensures=lambda c: [("the members are those of both sets", each(lambda x: S(c.this_x).has(x) == And(S(c.this).has(x), S(c.a(0)).has(x)), lambda x: S(c.this_x).has(x)))] + S(c.this_x).wf(),
                     loops=[LoopContract("intervals", _meet_outer, facts=lambda c: mfacts2(c) + steps(S(c.this), c.v("i").idx), decreases=lambda c: S(c.this).n - c.v("i").idx),
                            LoopContract("skip", _meet_skip, decreases=lambda c: S(c.p(0)).n - c.v("j").idx),
                            LoopContract("meet", _meet_inner, facts=lambda c: mfacts2(c) + steps(S(c.p(0)), c.v("k").idx), step_facts=lambda c: stores(S(c.v("result"))), decreases=lambda c: S(c.p(0)).n - c.v("k").idx)])


# ---- iteration: a generator's value is the sequence of all it yields
out = lambda c: S(c.v("co_yield"))
visited = lambda c: S(c.v("f").seen)


def ys_order(y):
    return [("in increasing order", y.increasing())]


def iff(f, g):
    return each(lambda x: f(x) == g(x), f)


def iff2(f, g):
    x = z3.Int("x!s")
    return ForAll([x], f(x) == g(x), patterns=[f(x), g(x)])


def _each(name, ys, **kw):
    """the loops of each() and for_each(); ys: what has been produced"""
    def outer(c):
        a, y, k = kw["self"](c), ys(c), c.index
        return [("position in range", And(0 <= k, k <= a.n)), ("exactly the members in the intervals passed", iff(y.yd, lambda x: a.has(x, k))),
                ("all below what is to come", below(y.Y, a.L, y.Y, a.L, (0, y.n), (k, a.n))), ("in increasing order", y.increasing())]

    def inner(c):
        a, y, k, i = kw["self"](c), ys(c), c.idx(0), c.v("i").t
        return [("within the interval", And(a.L(k) <= i, i <= a.H(k))), ("exactly the members so far", iff(y.yd, lambda x: Or(a.has(x, k), And(a.L(k) <= x, x < i)))),
                ("all below what is to come", y.all(lambda t: y.Y(t) < i, over="y")), ("in increasing order", y.increasing())]
    return [LoopContract("intervals", outer, facts=lambda c: ranges(kw["self"](c)) + steps(kw["self"](c), c.index), decreases=lambda c: kw["self"](c).n - c.index),
            LoopContract("values", inner, decreases=lambda c: kw["self"](c).H(c.idx(0)) - c.v("i").t)]


def elem(a, k):
    """the lower end of an element is a member (an instance of the definition)"""
    return [wit(a, k, a.L(k)), wit(a, k, a.H(k))]


itself = lambda c: S(c.this)
fp = lambda c: facts(c) + PUSH
ens_all = lambda c: [("yields exactly the members", iff2(S(c.r).yd, S(c.this).has)), ("in increasing order", S(c.r).increasing())]
each_ = Contract(SET + "each", requires=req, facts=fp, ensures=ens_all, loops=_each("each", out, self=itself))


# each_interval: the intervals themselves
def _same_seq(y, a, k):
    return [("as many as intervals passed", y.n == k), ("the intervals passed, in order", a.all(lambda i: And(y.L(i) == a.L(i), y.H(i) == a.H(i)), 0, k))]


each_interval = Contract(SET + "each_interval", requires=req, facts=facts, ensures=lambda c: _same_seq(S(c.r), S(c.this), S(c.this).n),
                         loops=[LoopContract("intervals", lambda c: [("position in range", And(0 <= c.index, c.index <= S(c.this).n))] + _same_seq(out(c), S(c.this), c.index), decreases=lambda c: S(c.this).n - c.index)])


# each_gap
def missing(a, x, hi):
    return And(Not(a.has(x)), a.L(I0) <= x, x < hi)


def _gap_outer(c):
    a, y, p = S(c.this), out(c), c.v("p").t
    return [("position in range", And(0 <= p, p < a.n)), ("exactly the values missing so far", iff(y.yd, lambda x: missing(a, x, a.L(p)))), ("all below what is to come", y.all(lambda t: y.Y(t) < a.L(p), over="y")), ("in increasing order", y.increasing())]


def _gap_inner(c):
    a, y, p, i = S(c.this), out(c), c.v("p").t, c.v("i").t
    return [("within the gap", And(a.H(p) + 1 <= i, i <= a.L(p + 1))), ("exactly the values missing so far", iff(y.yd, lambda x: missing(a, x, i))), ("all below what is to come", y.all(lambda t: y.Y(t) < i, over="y")), ("in increasing order", y.increasing())]


each_gap = Contract(SET + "each_gap", requires=req, facts=fp,
                    ensures=lambda c: [("yields exactly the values missing between the least member and the greatest", iff(S(c.r).yd, lambda x: And(S(c.this).n > 0, missing(S(c.this), x, S(c.this).H(S(c.this).n - 1))))), ("in increasing order", S(c.r).increasing())],
                    loops=[LoopContract("gaps", _gap_outer, facts=lambda c: ranges(S(c.this)), decreases=lambda c: S(c.this).n - c.v("p").t),
                           LoopContract("values", _gap_inner, decreases=lambda c: S(c.this).L(c.v("p").t + 1) - c.v("i").t)])


def _gaps(y, a, k):
    t = z3.Int("t!g")
    return [("as many as gaps passed", y.n == k), ("from the end of an interval to the next", ForAll([t], Implies(And(0 <= t, t < k), And(y.L(t) == a.H(t) + 1, y.H(t) == a.L(t + 1))), patterns=[y.L(t), y.H(t)]))]


each_gap_interval = Contract(SET + "each_gap_interval", requires=req, facts=facts, ensures=lambda c: _gaps(S(c.r), S(c.this), If(S(c.this).n == 0, 0, S(c.this).n - 1)),
                             loops=[LoopContract("gaps", lambda c: [("position in range", And(0 <= c.v("p").t, c.v("p").t < S(c.this).n))] + _gaps(out(c), S(c.this), c.v("p").t), facts=lambda c: ranges(S(c.this)), decreases=lambda c: S(c.this).n - c.v("p").t)])


# each_interval_minus
def _minus_outer(c):
    a, b, y, i, j = S(c.this), S(c.p(0)), out(c), c.v("i").idx, c.v("j").idx
    return [("positions in range", And(0 <= i, i <= a.n, 0 <= j, j <= b.n)),
            ("exactly the values of the intervals passed that the other lacks", iff(y.has, lambda x: And(a.has(x, i), Not(b.has(x))))),
            ("all below what is to come", below(lambda t: y.H(t) + 1, a.L, y.H, a.L, (0, y.n), (i, a.n))),
            ("the other's intervals passed lie below what is to come", below(b.H, a.L, b.H, a.L, (0, j), (i, a.n)))] + y.wf()


def _minus_skip(c):
    b, j = S(c.p(0)), c.v("j").idx
    return [("position in range", And(0 <= j, j <= b.n)), ("the other's intervals passed lie below", b.all(lambda t: b.H(t) < c.v("cur").t, 0, j, "hi"))]


def _minus_inner(c):
    a, b, y, i, j, cur = S(c.this), S(c.p(0)), out(c), c.v("i").idx, c.v("j").idx, c.v("cur").t
    return [("position in range", And(0 <= j, j <= b.n)), ("within the interval", And(a.L(i) <= cur, cur <= a.H(i), Not(c.v("all_covered").t))),
            ("exactly the values so far that the other lacks", iff(y.has, lambda x: And(Or(a.has(x, i), And(a.L(i) <= x, x < cur)), Not(b.has(x))))),
            ("the other's intervals passed lie below", b.all(lambda t: b.H(t) < cur, 0, j, "hi")),
            ("the other's intervals to come end later", b.all(lambda t: b.H(t) >= cur, j, b.n, "hi")),
            ("all below what is to come", y.all(lambda t: y.H(t) + 1 < cur, over="hi"))] + y.wf()


yfacts = lambda c: ranges(S(c.this), S(c.p(0)), out(c)) + stores(out(c))
minus = Contract(SET + "each_interval_minus", requires=req2, facts=lambda c: facts2(c) + PUSH,
                 ensures=lambda c: [("the yielded intervals hold exactly the members the other lacks", iff(S(c.r).has, lambda x: And(S(c.this).has(x), Not(S(c.a(0)).has(x)))))] + S(c.r).wf(),
                 loops=[LoopContract("intervals", _minus_outer, facts=lambda c: yfacts(c) + steps(S(c.this), c.v("i").idx), decreases=lambda c: S(c.this).n - c.v("i").idx),
                        LoopContract("skip", _minus_skip, decreases=lambda c: S(c.p(0)).n - c.v("j").idx),
                        LoopContract("cover", _minus_inner, facts=yfacts, step_facts=lambda c: stores(out(c)), decreases=lambda c: S(c.p(0)).n - c.v("j").idx)])


# each_reversed
def _rev_outer(c):
    a, y, b = S(c.this), out(c), c.v("lu").idx
    return [("position in range", And(0 <= b, b <= a.n)), ("exactly the members in the intervals passed", iff(y.yd, lambda x: And(a.has(x), Not(a.has(x, b))))),
            ("all above what is to come", below(a.H, y.Y, a.H, y.Y, (0, b), (0, y.n))), ("in decreasing order", y.increasing(-1))]


def _rev_inner(c):
    a, y, b, i = S(c.this), out(c), c.v("lu").idx, c.v("i").t
    return [("within the interval", And(a.L(b - 1) <= i, i <= a.H(b - 1))), ("exactly the members so far", iff(y.yd, lambda x: Or(And(a.has(x), Not(a.has(x, b))), And(i < x, x <= a.H(b - 1))))),
            ("all above what is to come", y.all(lambda t: y.Y(t) > i, over="y")), ("in decreasing order", y.increasing(-1))]


each_reversed = Contract(SET + "each_reversed", requires=req, facts=lambda c: fp(c) + [each(lambda x: Not(S(c.this).has(x, I0)), lambda x: S(c.this).has(x, I0))],
                         ensures=lambda c: [("yields exactly the members", iff(S(c.r).yd, S(c.this).has)), ("in decreasing order", S(c.r).increasing(-1))],
                         loops=[LoopContract("intervals", _rev_outer, facts=lambda c: ranges(S(c.this)) + steps(S(c.this), c.v("lu").idx - 1), decreases=lambda c: c.v("lu").idx),
                                LoopContract("values", _rev_inner, decreases=lambda c: c.v("i").t - S(c.this).L(c.v("lu").idx - 1))])

# for_each: the visitor is a program of its own, which keeps what it is given
ITER_INST = """
namespace gcs_client {
using namespace gcs;
struct Visitor {
    std::vector<Integer> seen;
    void operator()(Integer v) { seen.push_back(v); }
};
// a visitor which stops the iteration at any value it likes
struct Stopper {
    std::vector<Integer> seen;
    Integer stop;
    bool operator()(Integer v) { seen.push_back(v); return v != stop; }
};
inline std::vector<Integer> visit_all(const IntervalSet<Integer> & s) { Visitor f; s.for_each(f); return f.seen; }
inline std::vector<Integer> visit_until(const IntervalSet<Integer> & s, Integer stop) { Stopper f{{}, stop}; s.for_each(f); return f.seen; }
}
"""
visited = lambda c: S(c.v("f").seen)
FE = SET + "for_each"
_kind = lambda k: (lambda en, d: k in str(en.types.node([p for p in d["inner"] if p.get("kind") == "ParmVarDecl"][0])))


def _fe_req(c):
    return req(c) + [("nothing seen yet", S(c.a(0).seen).n == 0)]


visit_all = Contract("gcs_client::visit_all", requires=lambda c: S(c.a(0)).wf(), facts=lambda c: DEFS + ranges(S(c.a(0))) + PUSH,
                     ensures=lambda c: [("the visitor is given exactly the members", iff(S(c.r).yd, S(c.a(0)).has)), ("in increasing order", S(c.r).increasing())])
visit_until = Contract("gcs_client::visit_until", requires=lambda c: S(c.a(0)).wf(), facts=lambda c: DEFS + ranges(S(c.a(0))) + PUSH,
                       ensures=lambda c: [("the visitor is given exactly the members up to the one where it stops", iff(S(c.r).yd, lambda x: And(S(c.a(0)).has(x), Or(Not(S(c.a(0)).has(c.a(1).t)), x <= c.a(1).t)))), ("in increasing order", S(c.r).increasing())])
for_each = Contract(FE, modifies=[0], requires=_fe_req, select=_kind("Visitor"), name="for_each(void)", facts=fp,
                    ensures=lambda c: [("the visitor is given exactly the members", iff(S(c.x(0).seen).yd, S(c.this).has)), ("in increasing order", S(c.x(0).seen).increasing())],
                    loops=_each("for_each", visited, self=itself))
_until = lambda c, has: (lambda x: And(has(x), Or(Not(has(c.a(0).stop.t)), x <= c.a(0).stop.t)))


def _stop_loops():
    base = _each("for_each", visited, self=itself)
    o, i = base
    nostop = lambda c: ("the visitor has not stopped", Not(visited(c).yd(c.v("f").stop.t)))
    same_stop = lambda c: ("its stopping value stays", c.v("f").stop.t == c.p(0).stop.t)
    return [LoopContract("intervals", lambda c: o.inv(c) + [nostop(c), same_stop(c)], facts=o._facts, decreases=o.decreases),
            LoopContract("values", lambda c: i.inv(c) + [nostop(c), same_stop(c)], facts=i._facts, decreases=i.decreases)]


for_each_until = Contract(FE, modifies=[0], requires=_fe_req, select=_kind("Stopper"), name="for_each(bool)", facts=fp,
                          ensures=lambda c: [("the visitor is given exactly the members up to the one where it stops", iff(S(c.x(0).seen).yd, _until(c, S(c.this).has))), ("in increasing order", S(c.x(0).seen).increasing())],
                          loops=_stop_loops())
FOR = [visit_all, visit_until, for_each, for_each_until]
ITER = [each_, each_interval, each_gap, each_gap_interval, minus, each_reversed]
QUERIES = [ctor, empty, size, lower, upper, contains, contains_any_of, has_holes]
MODIFIERS = [erase, erase_range, erase_lt, erase_gt, clear, ins1, ins2, intersect]
