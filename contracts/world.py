"""What a propagator sees and does: the search state through its queries, and the inferences it makes.

The state is not represented: each version of it (a ghost) fixes, for every variable, which values are in its domain.
An arbitrary assignment of values to variables is followed through the propagator."""
import re
from contracts.common import *
from contracts.ids import SIGMA, var_val, simple_val, view_val
from contracts.state import Id, ids, OPS as CONDOPS
from cv.contracts import Contract, LoopContract, W, CallCtx
from cv.types import Val, Ty, Unsupported, fresh_name
from cv.engine import LV, VFn, VPtr, VNull, VOpaque, Raise, GHOST, scalar, VIter

I, B = z3.IntSort(), z3.BoolSort()
ALIVE = z3.Function("alive", I, B)               # version: the assignment is in the domains of it
FX = z3.Function("all_fixed", I, B)              # every variable has a single value
CNT = z3.Function("inferences", I, I)            # how many inferences have changed it
LO, HI = z3.Function("least", I, I, I), z3.Function("greatest", I, I, I)
MEM = z3.Function("member", I, I, I, B)
FAILED = "gcs::innards::TrackedPropagationFailed"
GV = ("ghost", "ver")


class PropContract(Contract):
    """install_propagators of a constraint: each propagator it installs is verified, where it is installed, for every state and assignment.

    rel: does the assignment satisfy the constraint?  watched: ids of the variables it is about"""

    def __init__(self, qname, rel, watched=None, sound_only=False, **kw):
        kw.setdefault("modifies", ["this"])
        kw.setdefault("ensures", lambda c: [])
        super().__init__(qname, **kw)
        self.rel, self.watched, self.sound_only = rel, watched, sound_only
        self.ctx = None
        ens = self.ensures
        self.ensures = lambda c: list(ens(c)) + self.enforced(c)

    def enforced(self, c):
        """an assignment that survives everything installed satisfies the constraint"""
        return [("what is installed lets only satisfying assignments through", Implies(And(ALIVE(V_INIT), surv(c.st)), self.rel(self.ctx)))]

    def facts(self, ctx):
        self.ctx = ctx
        return super().facts(ctx)


V_INIT = z3.Int("initial version")


def _opaque_param(en, st):
    st.cells[GV] = Val(GHOST, {(): V_INIT})
    return VOpaque("parameter")


class Prepare(PropContract):
    """prepare of a constraint: what it establishes, given the initial state, is what install_propagators relies on.
    If it says that nothing needs to be installed, every assignment satisfies the constraint that survives what it installed"""

    def __init__(self, qname, ensures, rel=None, **kw):
        super().__init__(qname, rel or (lambda c: FF), ensures=ensures, param_values={0: _opaque_param, 1: _opaque_param, 2: lambda en, st: VPtr(None)}, **kw)

    def enforced(self, c):
        return [("nothing is left to install only if what is installed suffices", Implies(And(ALIVE(V_INIT), surv(c.st), Not(c.r.t)), self.rel(self.ctx)))]


TT, FF = z3.BoolVal(True), z3.BoolVal(False)


def reified(w, base):
    """the relation under a reification condition"""
    out = FF
    for n, f in (("MustHold", lambda a: base), ("MustNotHold", lambda a: Not(base)), ("If", lambda a: Implies(lit_true(a.cond), base)), ("NotIf", lambda a: Implies(lit_true(a.cond), Not(base))), ("Iff", lambda a: lit_true(a.cond) == base)):
        i = w.alt_of(n)
        out = If(w.tag == i, f(w.alt(i)), out)
    return out


def evaluated(ev, w, v=V_INIT):
    """an evaluated reification condition says of it what is true of every assignment in the domains"""
    yes, no = reified(w, TT), reified(w, FF)
    is_ = lambda n: ev.tag == ev.alt_of(n)
    u = ev.alt(ev.alt_of("Undecided"))
    t = lit_true(u.cond)
    mh, mn = ev.alt(ev.alt_of("MustHold")).cond, ev.alt(ev.alt_of("MustNotHold")).cond
    return [("must hold: the relation is required", Implies(And(ALIVE(v), is_("MustHold")), And(yes, Not(no), lit_true(mh)))),
            ("must not hold: its negation is required", Implies(And(ALIVE(v), is_("MustNotHold")), And(no, Not(yes), lit_true(mn)))),
            ("deactivated: nothing is required", Implies(And(ALIVE(v), is_("Deactivated")), And(yes, no))),
            ("undecided: what follows if the relation holds", Implies(is_("Undecided"), yes == If(u.set_cond_if_must_hold.t, t, If(u.set_not_cond_if_must_hold.t, Not(t), TT)))),
            ("undecided: what follows if it does not", Implies(is_("Undecided"), no == If(u.set_not_cond_if_must_not_hold.t, Not(t), TT)))]


def constant_of(o, w):
    """the single value the variable has in the initial state, if recorded"""
    return [("a recorded value is the variable's only one", Implies(And(o.has, ALIVE(V_INIT)), idval(w) == o.val.t))]


GS = ("ghost", "surv")


def surv(st):
    """does the assignment survive what has been installed?"""
    return st.cells[GS].lv[()] if GS in st.cells else z3.BoolVal(True)


def survives(st, cond):
    st.cells[GS] = Val(GHOST, {(): And(surv(st), cond)})


def ver(st):
    return st.cells[GV].lv[()]


def mono(a, b):
    return [Implies(ALIVE(b), ALIVE(a)), Implies(FX(a), FX(b)), CNT(a) <= CNT(b), Implies(CNT(a) == CNT(b), a == b)]


def auto_inv(en, entry, st):
    if GV not in st.cells or GV not in entry.cells:
        return []
    a, b = ver(entry), ver(st)
    return [("the state only shrinks", And(*mono(a, b)))]


# ---------------------------------------------------------------- the values of ids and literals
def wv(en, st, v):
    if isinstance(v, LV):
        v = en.read(st, v)
    return W(v, en)


def idval(w):
    """the value an id has in the assignment"""
    k = w.ty
    if k.k == "variant":
        return var_val(w)
    n = k.a[0].rpartition("::")[2]
    return {"ConstantIntegerVariableID": lambda a: a.fld(0).t, "ViewOfIntegerVariableID": view_val, "SimpleIntegerVariableID": simple_val}[n](w)


def opholds(en, w, x):
    """does the value x satisfy the operator of the condition?"""
    c = CallCtx(en, [], None, None)
    out = z3.BoolVal(False)
    for n, _, g in CONDOPS:
        out = If(w.op.t == c.enum("gcs::VariableConditionOperator", n), g(x, w.value.t, w.upper_value.t), out)
    return out


def lit_true(w):
    """does the assignment satisfy the literal (or condition)?"""
    en = w.en
    if w.ty.k == "variant":
        i = next(k for k, t in enumerate(w.ty.a) if t.a[0].startswith("gcs::VariableConditionFrom"))
        cond = w.alt(i)
        return Or(w.tag == w.alt_of("TrueLiteral"), And(w.tag == i, opholds(en, cond, idval(cond.var))))
    if w.ty.a[0].startswith("gcs::VariableConditionFrom"):
        return opholds(en, w, idval(w.var))
    if w.ty.a[0].endswith("::TrueLiteral"):
        return z3.BoolVal(True)
    if w.ty.a[0].endswith("::FalseLiteral"):
        return z3.BoolVal(False)
    raise Unsupported("literal of type %s" % w.ty)


# ---------------------------------------------------------------- queries
def about(v, x):
    """facts about the domain of variable x.i in version v"""
    if x.const:
        return []
    i = x.i
    return [LO(v, i) <= HI(v, i), Implies(ALIVE(v), And(LO(v, i) <= SIGMA(i), SIGMA(i) <= HI(v, i))), Implies(FX(v), LO(v, i) == HI(v, i)), MEM(v, i, LO(v, i)), MEM(v, i, HI(v, i)), Implies(ALIVE(v), MEM(v, i, SIGMA(i)))]


def lo_of(v, x):
    return x.k if x.const else If(x.neg, x.val(HI(v, x.i)), x.val(LO(v, x.i)))


def hi_of(v, x):
    return x.k if x.const else If(x.neg, x.val(LO(v, x.i)), x.val(HI(v, x.i)))


def sel(w, f):
    """the term f gives for the kind of id it is"""
    xs = ids(w)
    out = f(xs[-1])
    for x in xs[:-1]:
        out = If(x.guard, f(x), out)
    return out


def tell(en, st, w):
    """assume what is known about the domain of the id; -> the version"""
    v = ver(st)
    for x in ids(w):
        for f in about(v, x):
            st.assume(x.when(f))
    # what follows for the value of the id itself
    val, lo, hi = idval(w), sel(w, lambda x: lo_of(v, x)), sel(w, lambda x: hi_of(v, x))
    st.assume(lo <= hi)
    st.assume(Implies(ALIVE(v), And(lo <= val, val <= hi)))
    st.assume(Implies(FX(v), lo == hi))
    return v, val, lo, hi


def query(f, n=1):
    def hook(en, base, args, st, e):
        def go(s, vs):
            s = s.copy()
            return [(s, f(en, s, e, *[wv(en, s, v) for v in vs]))]
        return en.bind(en.rvs(args[:n], st), go)
    return hook


def _result(en, st, e, name):
    return en.fresh(en.ty(e), name, st)


def _bounds(en, st, e, w):
    v, val, lo, hi = tell(en, st, w)
    r = _result(en, st, e, "bounds")
    q = W(r, en)
    st.assume(q.at(0).fld(0).t == lo if q.at(0).ty.k == "rec" else q.at(0).t == lo)
    st.assume(q.at(1).fld(0).t == hi if q.at(1).ty.k == "rec" else q.at(1).t == hi)
    return r


def _one(which):
    def f(en, st, e, w):
        v, val, lo, hi = tell(en, st, w)
        r = _result(en, st, e, which)
        st.assume(W(r, en).t == (lo if which == "lower_bound" else hi))
        return r
    return f


def _has_single(en, st, e, w):
    v, val, lo, hi = tell(en, st, w)
    r = _result(en, st, e, "single")
    st.assume(W(r, en).t == (lo == hi))
    return r


def _opt_single(en, st, e, w):
    v, val, lo, hi = tell(en, st, w)
    r = _result(en, st, e, "opt_single")
    q = W(r, en)
    st.assume(q.has == (lo == hi))
    st.assume(Implies(q.has, q.val.t == lo))
    return r


def _value(en, st, e, w):
    v, val, lo, hi = tell(en, st, w)
    return lo, hi


def mem(v, x, z):
    return z == x.k if x.const else MEM(v, x.i, x.raw(z))


def _in_domain(en, st, e, w, z):
    v, val, lo, hi = tell(en, st, w)
    r = _result(en, st, e, "in_domain")
    m = sel(w, lambda x: mem(v, x, z.t))
    q = W(r, en).t
    st.assume(q == m)
    st.assume(Implies(q, And(lo <= z.t, z.t <= hi)))
    st.assume(Implies(And(ALIVE(v), val == z.t), q))
    return r


def _holes(en, st, e, w):
    v, val, lo, hi = tell(en, st, w)
    r = _result(en, st, e, "holes")
    st.assume(Implies(lo == hi, Not(W(r, en).t)))
    return r


def _size(en, st, e, w):
    v, val, lo, hi = tell(en, st, w)
    r = _result(en, st, e, "size")
    q = W(r, en).t
    st.assume(And(q >= 1, q <= hi - lo + 1, (q == 1) == (lo == hi)))
    return r


def _test_literal(en, st, e, w):
    v = ver(st)
    r = _result(en, st, e, "test")
    q = W(r, en).t
    K = lambda n: q == CallCtx(en, [], None, None).enum("gcs::innards::LiteralIs", n)
    t = lit_true(w)
    st.assume(Implies(And(ALIVE(v), K("DefinitelyTrue")), t))
    st.assume(Implies(And(ALIVE(v), K("DefinitelyFalse")), Not(t)))
    st.assume(Implies(And(ALIVE(v), FX(v)), Not(K("Undecided"))))
    # a literal is true of every value in the domain, or of none, or undecided
    if w.ty.k == "variant":
        st.assume(Implies(w.tag == w.alt_of("TrueLiteral"), K("DefinitelyTrue")))
        st.assume(Implies(w.tag == w.alt_of("FalseLiteral"), K("DefinitelyFalse")))
    return r


# ---------------------------------------------------------------- sets of numbers
def noted(st, t=None):
    """terms whose membership matters (the values of variables asked about)"""
    xs = st.ghost.get("noted", [])
    if t is not None and not any(x.eq(t) for x in xs):
        st.ghost["noted"] = xs = xs + [t]
    return xs


def _copy_of(en, st, e, w):
    v, val, lo, hi = tell(en, st, w)
    noted(st, val)
    z = z3.Int(fresh_name("z"))
    r = _result(en, st, e, "values")
    s = W(r, en).t
    st.assume(ForAll([z], s[z] == sel(w, lambda x: mem(v, x, z)), patterns=[s[z]]))
    st.assume(ForAll([z], Implies(s[z], And(lo <= z, z <= hi)), patterns=[s[z]]))
    st.assume(And(s[lo], s[hi], Implies(ALIVE(v), s[val])))
    return r


def _each_value(en, st, e, w):
    v, val, lo, hi = tell(en, st, w)
    r = _result(en, st, e, "each")
    q = W(r, en)
    i, j = z3.Int(fresh_name("i")), z3.Int(fresh_name("j"))
    k = z3.Int(fresh_name("where"))
    at = lambda x: q[x].fld(0).t
    st.assume(q.n >= 1)
    st.assume(ForAll([i], Implies(And(0 <= i, i < q.n), And(sel(w, lambda x: mem(v, x, at(i))), lo <= at(i), at(i) <= hi)), patterns=[at(i)]))
    st.assume(ForAll([i, j], Implies(And(0 <= i, i < j, j < q.n), at(i) < at(j)), patterns=[z3.MultiPattern(at(i), at(j))]))
    st.assume(Implies(ALIVE(v), And(0 <= k, k < q.n, at(k) == val)))
    st.assume(And(at(z3.IntVal(0)) == lo, at(q.n - 1) == hi))
    return r


def _intersect(en, st, e, a, b):
    v, val, lo, hi = tell(en, st, a)
    v, val2, lo2, hi2 = tell(en, st, b)
    r = _result(en, st, e, "intersect")
    q = W(r, en).t
    z = z3.Int(fresh_name("common"))
    ma, mb = (lambda w: lambda z: sel(w, lambda x: mem(v, x, z)))(a), (lambda w: lambda z: sel(w, lambda x: mem(v, x, z)))(b)
    st.assume(Implies(And(ALIVE(v), val == val2), q))
    st.assume(Implies(q, And(ma(z), mb(z), lo <= z, z <= hi, lo2 <= z, z <= hi2)))
    for t in (lo, hi, lo2, hi2):
        st.assume(Implies(And(ma(t), mb(t)), q))
    return r


def _intersects_set(en, st, e, a, b):
    v, val, lo, hi = tell(en, st, a)
    r = _result(en, st, e, "intersect")
    q = W(r, en).t
    z = z3.Int(fresh_name("common"))
    st.assume(Implies(And(ALIVE(v), b.t[val]), q))
    st.assume(Implies(And(lo == hi, b.t[lo]), q))
    st.assume(Implies(q, And(sel(a, lambda x: mem(v, x, z)), b.t[z], lo <= z, z <= hi)))
    return r


def on_set(f, n=0, changes=False):
    """a member function of a set of numbers"""
    def hook(en, base, args, st, e):
        def go(s, vs):
            s = s.copy()
            b = vs[0]
            w = wv(en, s, b)
            r = f(en, s, e, w, *[wv(en, s, v) for v in vs[1:]])
            if changes:
                if not isinstance(b, LV):
                    raise Unsupported("change of a temporary set")
                en.write(s, b, Val(w.ty, {(): r}))
                return [(s, VOpaque("void"))]
            return [(s, r)]
        return en.bind(en.evs([base] + list(args[:n]), st), go)
    return hook


def _set_minus(en, st, e, a, b):
    r = _result(en, st, e, "minus")
    q = W(r, en)
    i = z3.Int(fresh_name("i"))
    lo, hi = (lambda i: q[i].at(0).fld(0).t), (lambda i: q[i].at(1).fld(0).t)
    inside = lambda i, t: Implies(And(lo(i) <= t, t <= hi(i)), And(a.t[t], Not(b.t[t])))
    st.assume(ForAll([i], Implies(And(0 <= i, i < q.n), And(lo(i) <= hi(i), a.t[lo(i)], a.t[hi(i)], *[inside(i, t) for t in noted(st)])), patterns=[lo(i)]))
    return r


def _set_each(en, st, e, a):
    r = _result(en, st, e, "each")
    q = W(r, en)
    i, j, z = (z3.Int(fresh_name(n)) for n in "ijz")
    at = lambda x: q[x].fld(0).t
    f = z3.Function(fresh_name("position"), I, I)
    st.assume(ForAll([i], Implies(And(0 <= i, i < q.n), a.t[at(i)]), patterns=[at(i)]))
    st.assume(ForAll([i, j], Implies(And(0 <= i, i < j, j < q.n), at(i) < at(j)), patterns=[z3.MultiPattern(at(i), at(j))]))
    st.assume(ForAll([z], Implies(a.t[z], And(0 <= f(z), f(z) < q.n, at(f(z)) == z)), patterns=[a.t[z]]))
    return r


def _set_is(f):
    def g(en, st, e, *ws):
        r = _result(en, st, e, "set")
        st.assume(f(W(r, en), *ws))
        return r
    return g


def _set_bound(which):
    def g(en, st, e, a):
        r = _result(en, st, e, which)
        x = W(r, en).t
        z = z3.Int(fresh_name("z"))
        en.oblige(st, z3.Exists([z], a.t[z]), "%s of a set that is not empty" % which, "pre", e)
        st.assume(a.t[x])
        st.assume(ForAll([z], Implies(a.t[z], x <= z if which == "lower" else z <= x), patterns=[a.t[z]]))
        return r
    return g


def _lam(f):
    z = z3.Int(fresh_name("z"))
    return z3.Lambda([z], f(z))


ZQ = z3.Int("z!q")
SETS = {"contains": on_set(_set_is(lambda r, a, z: r.t == a.t[z.t]), 1), "empty": on_set(_set_is(lambda r, a: r.t == ForAll([ZQ], Not(a.t[ZQ])))),
        "each_interval_minus": on_set(_set_minus, 1), "each": on_set(_set_each), "lower": on_set(_set_bound("lower")), "upper": on_set(_set_bound("upper")),
        "contains_any_of": on_set(_set_is(lambda r, a, b: r.t == z3.Exists([ZQ], And(a.t[ZQ], b.t[ZQ]))), 1),
        "intersect_with": on_set(lambda en, st, e, a, b: _lam(lambda z: And(a.t[z], b.t[z])), 1, True), "erase": on_set(lambda en, st, e, a, k: z3.Store(a.t, k.t, z3.BoolVal(False)), 1, True),
        "clear": on_set(lambda en, st, e, a: z3.K(I, z3.BoolVal(False)), 0, True)}


# ---------------------------------------------------------------- inferences
def step(en, st, lit, changes=True):
    """the state after the inference; -> the version before"""
    v = ver(st)
    v2 = z3.Int(fresh_name("ver"))
    for f in mono(v, v2):
        st.assume(f)
    st.assume(ALIVE(v2) == And(ALIVE(v), lit))
    st.cells[GV] = Val(GHOST, {(): v2})
    return v


def sound(en, st, lit, e, what):
    rel = en.cur.rel(en.cur.ctx)
    en.oblige(st, Implies(And(ALIVE(ver(st)), rel), lit), "%s: no satisfying assignment is lost" % what, "inference", e)
    st.assume(Implies(And(ALIVE(ver(st)), rel), lit))


def _inferred(en, st, e, lit, what, or_stop=False, bound=False):
    """outcomes of inferring a literal of the given truth under the assignment"""
    sound(en, st, lit, e, what)
    bad = st.copy()
    step(en, bad, lit)
    bad.assume(Not(ALIVE(ver(bad))))
    good = st.copy()
    step(en, good, lit)
    out = []
    if not or_stop:
        out.append((bad, Raise(FAILED, what)))
        out.append((good, VOpaque("void")))
    else:
        out.append((bad, "stop"))
        out.append((good, "go"))
    return out


def _typed(what, lit, n=1, or_stop=False):
    """infer_...(logger, id, value(s), justification, reason)"""
    def hook(en, base, args, st, e):
        def go(s, vs):
            ws = [wv(en, s, v) for v in vs]
            val, ks = idval(ws[0]), [w.t for w in ws[1:]]
            s = s.copy()
            f = lit(val, *ks)
            if what == "infer_not_in_range":
                f = Or(ks[0] > ks[1], f)
            out = []
            for s2, r in _inferred(en, s, e, f, what, or_stop):
                if or_stop:
                    if or_stop == "bound":
                        rv = en.fresh(en.ty(e), "updated", s2)
                        q = W(rv, en)
                        if r == "stop":
                            s2.assume(Not(q.has))
                        else:
                            v, val2, lo, hi = tell(en, s2, ws[0])
                            s2.assume(q.has)
                            s2.assume(q.val.t == (hi if "less" in what else lo))
                        out.append((s2, rv))
                    else:
                        out.append((s2, scalar(Ty("bool"), r == "go")))
                else:
                    out.append((s2, r))
            return out
        return en.bind(en.rvs(args[1:2 + n], st), go)
    return hook


def _infer(en, base, args, st, e):
    """infer(logger, literal, justification, reason)"""
    return en.bind(en.rv(args[1], st), lambda s, v: _inferred(en, s.copy(), e, lit_true(wv(en, s, v)), "infer"))


def _infer_all(en, base, args, st, e):
    def go(s, v):
        if not isinstance(v, Val):
            v = en.as_val(s, v, en.ty(args[1]))
        w = W(v, en)
        i = z3.Int(fresh_name("i"))
        return _inferred(en, s.copy(), e, ForAll([i], Implies(And(0 <= i, i < w.n), lit_true(w[i]))), "infer_all")
    return en.bind(en.rv(args[1], st), go)


def _contradiction(en, base, args, st, e):
    st = st.copy()
    sound(en, st, z3.BoolVal(False), e, "contradiction")
    return [(st, Raise(FAILED, "contradiction"))]


def _count(en, base, args, st, e):
    st = st.copy()
    r = _result(en, st, e, "count")
    st.assume(W(r, en).t == CNT(ver(st)))
    return [(st, r)]


def _false(en, base, args, st, e):
    return [(st, scalar(Ty("bool"), False))]


def _any(en, base, args, st, e):
    """some value of the type"""
    st = st.copy()
    return [(st, en.fresh(en.ty(e), "any", st))]


# ---------------------------------------------------------------- installation
def find_lambda(en, a):
    while a["kind"] != "LambdaExpr":
        if a["kind"] == "DeclRefExpr":
            return a
        ks = en.kids(a)
        if len(ks) < 1:
            raise Unsupported("propagator that is not a function object written in place")
        a = ks[0]
    return a


def _run(en, st, fn, e, what, ends):
    """verify the body of a propagator"""
    if not isinstance(fn, VFn):
        raise Unsupported("propagator that is not a function object")
    d = fn.node
    if isinstance(d, list):
        ds = [x for x in d if any("SimpleInferenceTracker" in p["type"]["qualType"] for p in x["_params"])]
        if len(ds) != 1:
            raise Unsupported("propagator without a specialisation for the tracker used without proofs")
        d = ds[0]
    if "_root" not in d:
        d = en.tu.decls.get(d["id"], d)
    s = st.copy()
    v0 = z3.Int(fresh_name("ver"))
    s.cells[GV] = Val(GHOST, {(): v0})
    for f in mono(V_INIT, v0):
        s.assume(f)
    args = []
    for p in d["_params"]:
        t = p["type"]["qualType"]
        if "ProofLogger" in t:
            args.append(VPtr(None))
        else:
            args.append(LV(en.new_cell(s, VOpaque(t)), (), None))
    outs = en.inline(d, args, fn.this, s, None, caps=fn.caps, names=dict(fn.names))
    n = 0
    for s2, r in outs:
        if isinstance(r, Raise):
            if r.ty in (FAILED, OVF):
                continue
            en.oblige(s2, z3.BoolVal(False), "%s: throws only on failure or overflow (%s)" % (what, r.ty), "exceptional-post", e)
            continue
        n += 1
        ends(s2, v0, r)
    if not outs:
        raise Unsupported("propagator without outcomes")


PSTATE = "gcs::innards::PropagatorState"


def _install(en, base, args, st, e):
    """propagators.install(id, function, triggers)"""
    rel = en.cur.rel(en.cur.ctx)

    def go(s, fn):
        def ends(s2, v0, r):
            q = W(r, en).t if isinstance(r, Val) else None
            if q is None:
                raise Unsupported("propagator returning %r" % (r,))
            K = lambda n: q == CallCtx(en, [], None, None).enum(PSTATE, n)
            v = ver(s2)
            if not en.cur.sound_only:
                en.oblige(s2, Implies(And(ALIVE(v), K("DisableUntilBacktrack")), rel), "propagator: disabled only where every assignment left satisfies the constraint", "inference", e)
                en.oblige(s2, Implies(And(ALIVE(v), Or(And(K("Enable"), FX(v0)), And(K("EnableButIdempotent"), FX(v)))), rel), "propagator: once every variable is fixed, accepts only satisfying assignments", "inference", e)
        _run(en, s, fn, e, "propagator", ends)
        s = s.copy()
        if not en.cur.sound_only:
            survives(s, rel)
        out = [(s, VOpaque("void"))]
        if en.cur.watched is not None and len(args) > 2:
            def trig(s3, t):
                tw = wv(en, s3, t)
                for nm, f in en.cur.watched(en.cur.ctx, tw):
                    en.oblige(s3, f, "triggers: %s" % nm, "inference", e)
                return [(s3, VOpaque("void"))]
            out = en.bind(en.rv(args[2], s), trig)
        return out
    return en.bind(en.rv(find_lambda(en, args[1]), st), go)


def _initialiser(en, base, args, st, e):
    def go(s, fn):
        left = []
        n = len(s.pc)

        def ends(s2, v0, r):
            same = len(s2.pc) >= n and all(x.eq(y) for x, y in zip(s.pc, s2.pc))
            left.append(And(ALIVE(ver(s2)), *(s2.pc[n:] if same else s2.pc)))
        _run(en, s, fn, e, "initialiser", ends)
        s = s.copy()
        w = z3.Bool(fresh_name("survives"))
        s.assume(Implies(w, Or(*left) if left else FF))
        survives(s, w)
        return [(s, VOpaque("void"))]
    return en.bind(en.rv(find_lambda(en, args[0]), st), go)


def _init_contradiction(en, base, args, st, e):
    rel = en.cur.rel(en.cur.ctx)
    en.oblige(st, Implies(ALIVE(V_INIT), Not(rel)), "initial contradiction: no assignment satisfies the constraint", "inference", e)
    st = st.copy()
    survives(st, FF)
    return [(st, VOpaque("void"))]


def _ignored(en, base, args, st, e):
    return [(st, VOpaque("void"))]


# why an inference is made is not looked at: justifications, reasons and hints
OPAQUE_TYPES = re.compile(r"^(gch::|std::)?(small_vector|vector|variant|optional)<.*Proof(Literal|Variable|Flag|Bit|Only).*$|^(std::)?(variant<(gcs::innards::)?Justify|variant<(gcs::innards::)?NoReason).*$|^(gcs::)?(innards::)?(Reason|NoReason|ExplicitReason|GenericReasonOver|BothBoundsReasonOver|ExactSingleValue|LazyReasonOver|Narrowable\w+|ConcatReason|ReasonLiterals|JustifyUsingRUP|JustifyExplicitly|NoJustificationNeeded|AssertRatherThanJustifying|Justification|AssertionAnnotation|hints::\w+|ReasonFunction)(<.*>)?$|^(std::)?optional<(gcs::innards::)?AssertionAnnotation>$")

ABSTRACT = re.compile(r"^(gcs::)?IntervalSet<.*>$")

S_, T_, P_ = "gcs::innards::State::", "gcs::innards::InferenceTrackerBase::", "gcs::innards::Propagators::"
HOOKS = {S_ + "bounds": query(_bounds), S_ + "lower_bound": query(_one("lower_bound")), S_ + "upper_bound": query(_one("upper_bound")),
         S_ + "has_single_value": query(_has_single), S_ + "optional_single_value": query(_opt_single), S_ + "in_domain": query(_in_domain, 2),
         S_ + "domain_has_holes": query(_holes), S_ + "domain_size": query(_size), S_ + "test_literal": query(_test_literal),
         T_ + "infer": _infer, T_ + "infer_all": _infer_all, T_ + "contradiction": _contradiction,
         T_ + "count_inferences": _count, T_ + "want_reasons": _false,
         P_ + "install": _install, P_ + "install_initialiser": _initialiser, P_ + "install_initial_contradiction": _init_contradiction,
         S_ + "copy_of_values": query(_copy_of), S_ + "each_value_immutable": query(_each_value), S_ + "each_value_mutable": query(_each_value),
         S_ + "domains_intersect": query(_intersect, 2), S_ + "domain_intersects_with": query(_intersects_set, 2),
         "gcs::innards::install_tabulation": _ignored, "gcs::Constraint::constraint_id": _any}
for _n, _h in SETS.items():
    HOOKS["gcs::IntervalSet::" + _n] = _h
for _n, _l, _k in (("equal", lambda z, v: z == v, 1), ("not_equal", lambda z, v: z != v, 1), ("less_than", lambda z, v: z < v, 1), ("greater_than_or_equal", lambda z, v: z >= v, 1), ("not_in_range", lambda z, l, u: Not(And(l <= z, z <= u)), 2)):
    HOOKS[T_ + "infer_" + _n] = _typed("infer_" + _n, _l, _k)
    HOOKS[T_ + "infer_" + _n + "_or_stop"] = _typed("infer_" + _n + "_or_stop", _l, _k, True)
    HOOKS[T_ + "infer_" + _n + "_or_stop_with_updated_bound"] = _typed("infer_" + _n + "_or_stop_with_updated_bound", _l, _k, "bound")


def same_var(a, b):
    """are the ids about the same variable (and not constants)?"""
    g = lambda x: TT if x.guard is None else x.guard
    return Or(*[And(g(x), g(y), x.i == y.i) for x in ids(a) if not x.const for y in ids(b) if not y.const])


def no_var(w):
    """is the id a constant?"""
    return Not(Or(*[TT if x.guard is None else x.guard for x in ids(w) if not x.const]))


def watches(tw, w, at=()):
    """some trigger is on the variable of the id (nothing is needed for a constant); at: where it may be found"""
    i = z3.Int("i!w")
    ls = (tw.on_change, tw.on_bounds, tw.on_instantiated)
    f = lambda l, i: And(0 <= i, i < l.n, same_var(l[i], w))
    return Or(no_var(w), *([f(l, k) for l in ls for k in at] + [z3.Exists([i], f(l, i)) for l in ls]))


def cond_of(w):
    """(is the literal a condition, the condition)"""
    if w.ty.k != "variant":
        return TT, w
    i = next(k for k, t in enumerate(w.ty.a) if t.a[0].startswith("gcs::VariableConditionFrom"))
    return w.tag == i, w.alt(i)


def watches_lit(tw, w):
    """... of the literal, if it is about a variable"""
    c, cond = cond_of(w)
    return Implies(c, watches(tw, cond.var))


def watch_all(tw, w, n=None):
    """... of each of the first n ids"""
    j = z3.Int("j!w")
    return ForAll([j], Implies(And(0 <= j, j < (w.n if n is None else n)), watches(tw, w[j], [j])))


def watch_lits(tw, w, n=None):
    j = z3.Int("j!w")
    return ForAll([j], Implies(And(0 <= j, j < (w.n if n is None else n)), watches_lit(tw, w[j])))


def keeps(a, b):
    """the triggers b include the triggers a"""
    j = z3.Int("j!w")
    return And(*[And(x.n <= y.n, ForAll([j], Implies(And(0 <= j, j < x.n), y[j].eq(x[j])))) for x, y in ((a.on_change, b.on_change), (a.on_bounds, b.on_bounds), (a.on_instantiated, b.on_instantiated))])


def now(c):
    """the current version of the state, in a loop contract"""
    return ver(c.st)


lit_not = Contract("gcs::innards::operator!", name="operator! on literals", select=lambda en, d: "const Literal &" in d["type"]["qualType"],
                   ensures=lambda c: [("satisfied exactly when the operand is not", lit_true(c.r) == Not(lit_true(c.a(0))))])


def T(c):
    """the constraint as it was when installation began, in a loop contract"""
    return c.en.cur.ctx.this


def then(c):
    """the version of the state when the loop was entered"""
    return ver(c.entry)


def installs(n, requires, rel, first=0):
    """a call of a function, verified on its own, that installs propagators for the relation given of arguments first.. first+n-1"""
    def hook(en, base, args, st, e):
        def go(s, vs):
            ws = [wv(en, s, v if isinstance(v, (LV, Val)) else en.as_val(s, v, en.ty(a))) for v, a in zip(vs, args[first:first + n])]
            c = CallCtx(en, [], None, s)
            s = s.copy()
            for nm, f in requires(*ws, c):
                en.oblige(s, f, "precondition '%s' of what installs the propagators" % nm, "pre", e)
            r = rel(*ws, c)
            en.oblige(s, Implies(And(ALIVE(V_INIT), en.cur.rel(en.cur.ctx)), r), "what is installed follows from the constraint", "inference", e)
            survives(s, r)
            return [(s, VOpaque("void"))]
        return en.bind(en.rvs(args[first:first + n], st), go)
    return hook


class Enforce(PropContract):
    """a function that makes inferences: verified for every state and assignment; at calls, a sound step of the state.

    at: positions of the parameters for the logger, the state and the inferences"""

    def __init__(self, qname, rel, at, accepts=True, wrong=None, **kw):
        def param(en, st):
            v0 = z3.Int(fresh_name("ver"))
            st.cells[GV] = Val(GHOST, {(): v0})
            return VOpaque("parameter")
        pv = {i: (lambda en, st: VPtr(None)) if n == "logger" else param if n == "state" else (lambda en, st: VOpaque("parameter")) for n, i in at.items()}
        sel0 = kw.pop("select", None)
        super().__init__(qname, rel, param_values=pv, modifies=[i for n, i in at.items() if n != "logger"], throws=lambda c: {FAILED: ("may", TT), OVF: ("may", TT)},
                         select=lambda en, d: any("SimpleInferenceTracker" in p["type"]["qualType"] for p in d["_params"]) and (sel0 is None or sel0(en, d)), **kw)
        self.at, self.accepts = at, accepts

    def enforced(self, c):
        v0, v = ver(c.pre), ver(c.st)
        rel = self.rel(self.ctx)
        if not self.accepts:
            return []
        K = lambda n: c.r.t == c.enum(PSTATE, n)
        return [("disabled only where every assignment left satisfies the relation", Implies(And(ALIVE(v), K("DisableUntilBacktrack")), rel)),
                ("once every variable is fixed, accepts only satisfying assignments", Implies(And(ALIVE(v), Or(And(K("Enable"), FX(v0)), And(K("EnableButIdempotent"), FX(v)))), rel))]

    def hook(self, en, base, args, st, e):
        def go(s, vs):
            s = s.copy()
            vals = []
            for i, v in enumerate(vs):
                if i in self.at.values():
                    vals.append(None)
                    continue
                v = en.read(s, v) if isinstance(v, LV) else v
                vals.append(v)
            c = CallCtx(en, vals, None, s, call=True)
            for nm, f in Contract.requires(self, c):
                en.oblige(s, f, "precondition '%s' of %s" % (nm, self.short()), "pre", e)
            mine = self.rel(c)
            v = ver(s)
            en.oblige(s, Implies(And(ALIVE(v), en.cur.rel(en.cur.ctx)), mine), "%s: what is enforced follows from the constraint" % self.short(), "inference", e)
            bad, good = s.copy(), s.copy()
            for x in (bad, good):
                v2 = z3.Int(fresh_name("ver"))
                for f in mono(v, v2):
                    x.assume(f)
                x.assume(Implies(And(ALIVE(v), mine), ALIVE(v2)))
                x.cells[GV] = Val(GHOST, {(): v2})
            bad.assume(Not(ALIVE(ver(bad))))
            out = [(bad, Raise(FAILED, self.short()))]
            if not self.accepts:
                return out + [(good, VOpaque("void"))]
            v2 = ver(good)
            r = en.fresh(Ty("enum", en.types.find(PSTATE) or PSTATE), "outcome", good)
            K = lambda n: W(r, en).t == c.enum(PSTATE, n)
            good.assume(Implies(And(ALIVE(v2), K("DisableUntilBacktrack")), mine))
            good.assume(Implies(And(ALIVE(v2), Or(And(K("Enable"), FX(v)), And(K("EnableButIdempotent"), FX(v2)))), mine))
            return out + [(good, r)]
        return en.bind(en.evs(args, st), go)


def watch_cond(tw, ev):
    """a condition still undecided is watched"""
    i = ev.alt_of("Undecided")
    return [("the condition", Implies(ev.tag == i, watches(tw, ev.alt(i).cond.var)))]
