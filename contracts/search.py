"""Depth-first search: what the search loop reports, against the contracts of propagation, of the state's epochs and of branching.

An arbitrary assignment is followed through the search."""
from contracts.world import *
from contracts.world import _result, _any
from contracts.common import INTEGER

SOL = z3.Bool("satisfies every constraint")
AT, ATP = z3.Function("version at epoch", I, I), z3.Function("pending at epoch", I, B)
PENDING = "pending"
GHOSTS = {"ver": I, "pending": B, "reps": I, "total": I, "repobj": I, "exc": B, "stale": B, "asked": B, "aborting": B}
HAS = {}


def setg(st, n, t):
    st.cells["ghost", n] = Val(GHOST, {(): t})


def gh(st, n):
    return st.cells["ghost", n].lv[()]


def minvar(en):
    """the variable to minimise, if any: the same throughout"""
    if not hasattr(en, "_minvar"):
        en._minvar = en.fresh(en.types.parse("std::optional<gcs::IntegerVariableID>"), "minimise")
    return W(en._minvar, en)


def the_literal(en):
    """an arbitrary literal, followed from where it is inferred to where its propagators are woken"""
    if not hasattr(en, "_lit"):
        en._lit = en.fresh(en.types.parse("gcs::innards::Literal"), "some_literal")
    return W(en._lit, en)


def is_the_literal(en, w):
    g = the_literal(en)
    if w.ty.k == "variant":
        return w.eq(g)
    i = next(k for k, t in enumerate(g.ty.a) if t.a[0].startswith("gcs::VariableConditionFrom"))
    return And(g.tag == i, g.alt(i).eq(w))


def cost(en):
    return idval(minvar(en).val)


def dominated(en, obj):
    return And(minvar(en).has, obj.has, obj.val.t <= cost(en))


def done(en, st, obj):
    """the assignment has been reported, or something at least as good has"""
    return Or(gh(st, "reps") >= 1, dominated(en, obj))


def all_true(w, n=None):
    i = z3.Int("i!at")
    return ForAll([i], Implies(And(0 <= i, i < (w.n if n is None else n)), lit_true(w[i])))


# ---------------------------------------------------------------- the state
def shrinks(en, st, v0, v1):
    """no bound of the objective gets any wider"""
    w = minvar(en).val
    for x in ids(w):
        for v in (v0, v1):
            for f in about(v, x):
                st.assume(x.when(f))
        if not x.const:
            st.assume(x.when(And(LO(v0, x.i) <= LO(v1, x.i), HI(v1, x.i) <= HI(v0, x.i))))


def bound_by(en, st, w):
    """after the condition has been inferred, the bounds of its variable satisfy it"""
    if w.ty.k == "variant" or not w.ty.a[0].startswith("gcs::VariableConditionFrom"):
        return []
    v = ver(st)
    return [opholds(en, w, sel(w.var, lambda x: lo_of(v, x))), opholds(en, w, sel(w.var, lambda x: hi_of(v, x)))]


def _new_epoch(en, base, args, st, e):
    st = st.copy()
    r = en.fresh(en.ty(e), "timestamp", st)
    w = W(r, en).when.t
    st.assume(And(AT(w) == ver(st), ATP(w) == gh(st, PENDING)))
    return [(st, r)]


def _backtrack(en, base, args, st, e):
    def go(s, v):
        s = s.copy()
        w = wv(en, s, v).when.t
        setg(s, "ver", AT(w))
        setg(s, PENDING, ATP(w))
        return [(s, VOpaque("void"))]
    return en.bind(en.rv(args[0], st), go)


def _guess(en, base, args, st, e):
    def go(s, v):
        s = s.copy()
        w = wv(en, s, v)
        step(en, s, lit_true(w))
        setg(s, PENDING, Or(gh(s, PENDING), is_the_literal(en, w)))
        return [(s, VOpaque("void"))]
    return en.bind(en.rv(args[0], st), go)


def _state_infer(en, base, args, st, e):
    def go(s, v):
        s = s.copy()
        w = wv(en, s, v)
        t = lit_true(w)
        r = en.fresh(en.ty(e), "inference", s)
        K = lambda n: W(r, en).t == CallCtx(en, [], None, None).enum("gcs::innards::Inference", n)
        v0 = step(en, s, t)
        v1 = ver(s)
        s.assume(Implies(K("Contradiction"), Not(And(ALIVE(v0), t))))
        s.assume(Implies(K("NoChange"), v1 == v0))
        for f in bound_by(en, s, w):
            s.assume(Implies(Not(K("Contradiction")), f))
        shrinks(en, s, v0, v1)
        p = gh(s, PENDING)
        setg(s, PENDING, Or(p, And(Not(K("NoChange")), is_the_literal(en, w))))
        return [(s, r)]
    return en.bind(en.rv(args[0], st), go)


def _value_of(en, base, args, st, e):
    def go(s, v):
        s = s.copy()
        w = wv(en, s, v)
        vv, val, lo, hi = tell(en, s, w)
        en.oblige(s, lo == hi, "the value asked for is the only one left", "pre", e)
        s.assume(lo == hi)
        r = _result(en, s, e, "value")
        q = W(r, en)
        s.assume((q.val.t if q.ty.k == "opt" else q.t) == lo)
        return [(s, r)]
    return en.bind(en.rv(args[0], st), go)


# ---------------------------------------------------------------- propagation, branching, callbacks
def _propagate(en, base, args, st, e):
    """propagators.propagate(changed, state, logger, abort flag)"""
    def go(s, vs):
        s = s.copy()
        gs = wv(en, s, vs[0])
        i = z3.Int("i!p")
        en.oblige(s, Implies(gh(s, PENDING), Or(gs.n == 0, *[And(gs.n > k, is_the_literal(en, gs[k])) for k in (0, 1)], z3.Exists([i], And(0 <= i, i < gs.n, is_the_literal(en, gs[i]))))), "the propagators of everything that has changed are woken", "pre", e)
        null = isinstance(vs[1], VPtr) and vs[1].lv is None or isinstance(vs[1], VNull)
        aborting = _abort(en, s, null)
        v0 = ver(s)
        v1 = z3.Int(fresh_name("ver"))
        for f in mono(v0, v1):
            s.assume(f)
        shrinks(en, s, v0, v1)
        setg(s, "ver", v1)
        setg(s, PENDING, TF(False))
        setg(s, "stale", And(gh(s, "stale"), gs.n > 0))
        r = _result(en, s, e, "propagated")
        q = W(r, en).t
        s.assume(Implies(And(SOL, Not(gh(s, "exc")), ALIVE(v0)), And(q, ALIVE(v1))))
        s.assume(Implies(And(q, FX(v1), ALIVE(v1), Not(aborting)), And(SOL, Implies(gh(s, "exc"), gh(s, "stale")))))
        return [(s, r)]
    return en.bind(en.rvs([args[0], args[3]], st), go)


TF = z3.BoolVal


def _abort(en, st, null):
    """somebody may ask for the search to be given up at any time, if it can be asked"""
    a0 = gh(st, "aborting")
    if null:
        st.assume(Not(a0))
        return a0
    a = z3.Bool(fresh_name("aborting"))
    st.assume(Implies(a0, a))
    setg(st, "aborting", a)
    return a


def _load(en, base, args, st, e):
    def go(s, v):
        s = s.copy()
        return [(s, scalar(Ty("bool"), _abort(en, s, False)))]
    return en.bind(en.ev(base, st), go)


def _branch(en, base, args, st, e):
    st = st.copy()
    r = _result(en, st, e, "branches")
    q = W(r, en)
    v = ver(st)
    p = z3.Int(fresh_name("branch"))
    i = z3.Int(fresh_name("i"))
    st.assume((q.n == 0) == FX(v))
    st.assume(Implies(ALIVE(v), Or(q.n == 0, And(0 <= p, p < q.n, lit_true(q[p])))))
    st.assume(Implies(ALIVE(v), ForAll([i], Implies(And(0 <= i, i < q.n), lit_true(q[i]) == (i == p)))))
    st.ghost["branch"] = p
    return [(st, r)]


def _wants_solutions(en, base, args, st, e):
    return [(st, scalar(Ty("bool"), True))]


def _asked(en, st, r):
    q = W(r, en).t
    setg(st, "asked", Or(gh(st, "asked"), Not(q)))


def _solution(en, base, args, st, e):
    st = st.copy()
    v = ver(st)
    en.oblige(st, FX(v), "a solution is reported only when every variable is fixed", "report", e)
    en.oblige(st, Implies(ALIVE(v), SOL), "what is reported satisfies every constraint", "report", e)
    en.oblige(st, Implies(ALIVE(v), gh(st, "reps") == 0), "what is reported has not been reported before", "report", e)
    en.oblige(st, Not(gh(st, "asked")), "nothing is reported after a callback has asked to stop", "report", e)
    w = minvar(en)
    _, val, lo, hi = tell(en, st, w.val)
    en.oblige(st, Implies(And(w.has, gh(st, "total") > 0), lo < gh(st, "repobj")), "what is reported improves on what was reported before", "report", e)
    setg(st, "repobj", lo)
    setg(st, "total", gh(st, "total") + 1)
    setg(st, "reps", gh(st, "reps") + If(ALIVE(v), 1, 0))
    r = _result(en, st, e, "go_on")
    _asked(en, st, r)
    return [(st, r)]


def _trace(en, base, args, st, e):
    st = st.copy()
    r = _result(en, st, e, "go_on")
    _asked(en, st, r)
    return [(st, r)]


def _anybool(en, base, args, st, e):
    st = st.copy()
    return [(st, en.fresh(Ty("bool"), "set", st))]


def _learn(en, base, args, st, e):
    def go(s, v):
        s = s.copy()
        t = all_true(wv(en, s, v))
        if "objective_value" in s.names:
            en.oblige(s, Implies(And(t, SOL), done(en, s, W(en.read(s, s.names["objective_value"]), en))), "what is learned excludes only what has been reported, or is no better", "learn", e)
        setg(s, "exc", Or(gh(s, "exc"), t))
        setg(s, "stale", TF(True))
        return [(s, VOpaque("void"))]
    return en.bind(en.rv(args[0], st), go)


def _minimise(en, base, args, st, e):
    return [(st, minvar(en).v)]


def _opaque_call(en, base, args, st, e):
    return [(st, VOpaque("opaque"))]


SEARCH = {**HOOKS, S_ + "new_epoch": _new_epoch, S_ + "backtrack": _backtrack, S_ + "guess": _guess, S_ + "infer": _state_infer, S_ + "operator()": _value_of, S_ + "current": _opaque_call,
          P_ + "propagate": _propagate, ("call", "branch_callback"): _branch, ("operator bool", "solution"): _wants_solutions, ("call", "solution"): _solution,
          ("operator bool", "trace"): _anybool, ("call", "trace"): _trace, ("load", "optional_abort_flag"): _load, "gcs::NogoodStore::add": _learn, "gcs::Problem::optional_minimise_variable": _minimise}


# ---------------------------------------------------------------- solve_with_state
def learning(p):
    """is there a store for nogoods?"""
    if not isinstance(p, VPtr):
        raise Unsupported("store of nogoods that is neither given nor absent")
    return p.lv is not None


def _pre(c):
    en, st = c.en, c.st
    guess, obj, prefix = c.a(5), c.a(11), c.a(14)
    m = minvar(en)
    v = gh(st, "ver")
    return [("objective", And(Implies(Not(m.has), Not(obj.has)), obj.has == And(m.has, gh(st, "total") > 0), Implies(obj.has, gh(st, "repobj") == obj.val.t))),
            ("reports", And(gh(st, "reps") >= 0, gh(st, "reps") <= 1, gh(st, "reps") <= gh(st, "total"))),
            ("nobody has asked to stop", Not(gh(st, "asked"))),
            ("excluded", Implies(And(gh(st, "exc"), SOL), done(en, st, obj))),
            ("reported before", Implies(gh(st, "reps") >= 1, If(m.has, dominated(en, obj), Or(gh(st, "exc"), Not(ALIVE(v)))))),
            ("what was decided", Implies(ALIVE(v), all_true(prefix))),
            ("what is elsewhere is done", Implies(And(TF(learning(c._olds[13])), SOL, all_true(prefix)), Or(ALIVE(v), done(en, st, obj)))),
            ("what is to be propagated", Implies(gh(st, PENDING), If(guess.has, is_the_literal(en, guess.val), Not(obj.has)))),
            ("what has been learned is known", Implies(gh(st, "stale"), Or(m.has, Not(guess.has))))]


def _post(c):
    en, s0, s1 = c.en, c.pre, c.st
    obj0, obj = c.a(11), c.x(11)
    m = minvar(en)
    v0, v1 = gh(s0, "ver"), gh(s1, "ver")
    K = lambda n: c.r.t == c.enum(RESULT, n)
    grew = gh(s1, "reps") > gh(s0, "reps")
    any_ = gh(s1, "total") > gh(s0, "total")
    return [("objective", And(Implies(Not(m.has), Not(obj.has)), obj.has == And(m.has, gh(s1, "total") > 0), Implies(obj.has, gh(s1, "repobj") == obj.val.t))),
            ("the objective only improves", Implies(obj0.has, obj.val.t <= obj0.val.t)),
            ("reports", And(gh(s1, "reps") >= gh(s0, "reps"), gh(s1, "reps") <= 1, gh(s1, "total") >= gh(s0, "total"), gh(s1, "reps") <= gh(s1, "total"))),
            ("only what is here is reported", Implies(grew, And(SOL, ALIVE(v0)))),
            ("reported, so the objective is at least as good", Implies(And(m.has, gh(s1, "reps") >= 1), dominated(en, obj))),
            ("explored completely: every solution has been reported, or is no better than one that has", Implies(And(K("Complete"), SOL, ALIVE(v0)), done(en, s1, obj))),
            ("given up only when asked", Implies(K("Stop"), Or(gh(s1, "asked"), gh(s1, "aborting")))),
            ("asked, so given up", Implies(gh(s1, "asked"), K("Stop"))),
            ("a restart only when the conflicts are used up", Implies(K("RestartCutoffHit"), c.x(12).conflicts_since_restart.t >= c.x(12).cutoff.t)),
            ("excluded", And(Implies(gh(s0, "exc"), gh(s1, "exc")), Implies(And(gh(s1, "exc"), SOL), done(en, s1, obj)))),
            ("nothing is learned unless restarting", Implies(K("Complete"), And(gh(s1, "exc") == gh(s0, "exc"), Implies(gh(s1, "stale"), gh(s0, "stale"))))),
            ("what was reported before the restart is excluded after it", Implies(And(K("RestartCutoffHit"), grew, TF(learning(c._olds[13]))), Or(m.has, gh(s1, "exc")))),
            ("what is to be propagated", Implies(And(Not(K("Stop")), gh(s1, PENDING), K("RestartCutoffHit")), And(gh(s0, PENDING), obj.has == obj0.has))),
            ("nothing is lost before a restart", And(Implies(ALIVE(v1), ALIVE(v0)), Implies(And(K("RestartCutoffHit"), SOL, ALIVE(v0)), Or(ALIVE(v1), done(en, s1, obj))))),
            ("when to restart is not up to the search", And(c.x(12).cutoff.t == c.a(12).cutoff.t, c.x(12).enabled.t == c.a(12).enabled.t)),
            ("whether there was a solution", c.x(9).t == Or(c.a(9).t, any_)),
            ("how many solutions", c.x(10).t == c.a(10).t + gh(s1, "total") - gh(s0, "total"))]


RESULT = "SearchResult"


def _loop(c):
    """siblings: those before the current one have been explored completely"""
    en, st, e0 = c.en, c.st, c.entry
    gen, k = c.v("branch_generator"), c.v("branch_iter").idx
    obj, obj0 = c.v("objective_value"), c.e("objective_value")
    m = minvar(en)
    p = st.ghost["branch"]
    v = gh(e0, "ver")
    refuted = c.v("refuted_siblings")
    i = z3.Int("i!l")
    lit = next(j for j, t in enumerate(the_literal(en).ty.a) if t.a[0].startswith("gcs::VariableConditionFrom"))
    grew = gh(st, "reps") > gh(e0, "reps")
    any_ = gh(st, "total") > gh(e0, "total")
    first = c.v("first_sibling")
    learns = learning(en.param_vals[13])
    return [("index", And(0 <= k, k <= gen.n)), ("the state is back where it was", And(gh(st, "ver") == v, gh(st, PENDING) == gh(e0, PENDING))),
            ("nobody has asked to stop", Not(gh(st, "asked"))),
            ("objective", And(Implies(Not(m.has), Not(obj.has)), obj.has == And(m.has, gh(st, "total") > 0), Implies(obj.has, gh(st, "repobj") == obj.val.t), Implies(obj0.has, obj.val.t <= obj0.val.t))),
            ("reports", And(gh(st, "reps") >= gh(e0, "reps"), gh(st, "reps") <= 1, gh(st, "total") >= gh(e0, "total"), gh(st, "reps") <= gh(st, "total"))),
            ("only what is in the siblings before is reported", Implies(grew, And(SOL, ALIVE(v), p < k))),
            ("reported, so the objective is at least as good", Implies(And(m.has, gh(st, "reps") >= 1), dominated(en, obj))),
            ("every solution in the siblings before is done", Implies(And(SOL, ALIVE(v), p < k), done(en, st, obj))),
            ("nothing is learned", And(gh(st, "exc") == gh(e0, "exc"), Implies(gh(st, "stale"), gh(e0, "stale")))),
            ("the siblings before are recorded", And(refuted.n == k, ForAll([i], Implies(And(0 <= i, i < k), And(refuted[i].tag == lit, refuted[i].alt(lit).eq(gen[i])))))),
            ("the first sibling", And(Implies(first.has, And(TF(learns), k > 0, first.val.eq(gen[0]))), *([c.v("sibling_index").t == k] if learns else []))),
            ("when to restart is not up to the search", And(c.v("restart").cutoff.t == c.e("restart").cutoff.t, c.v("restart").enabled.t == c.e("restart").enabled.t)),
            ("whether there was a solution", c.v("this_subtree_contains_solution").t == Or(c.e("this_subtree_contains_solution").t, any_)),
            ("how many solutions", c.v("number_of_solutions").t == c.e("number_of_solutions").t + gh(st, "total") - gh(e0, "total"))]


def _learn_loop(c):
    en, st, e0 = c.en, c.st, c.entry
    refuted, prefix, obj = c.rng(1), c.v("reduced_prefix"), c.v("objective_value")
    i = z3.Int("i!l")
    return [("index", And(0 <= c.index, c.index <= refuted.n)),
            ("excluded", And(Implies(gh(e0, "exc"), gh(st, "exc")), Implies(And(gh(st, "exc"), SOL), done(en, st, obj)))),
            ("what the siblings before stand for", Implies(all_true(prefix), ForAll([i], Implies(And(0 <= i, i < c.index, lit_true(refuted[i])), gh(st, "exc")))))]


def opq(en, st):
    return VOpaque("parameter")


def null(en, st):
    return VPtr(None)


def some(en, st):
    return VPtr(LV(en.new_cell(st, VOpaque("pointee")), (), None))


BASE = {1: opq, 2: opq, 3: opq, 4: opq, 6: opq, 7: opq, 8: null}
solve_rec = Contract("solve_with_state", requires=_pre, ensures=_post, ghosts=GHOSTS, modifies=[9, 10, 11, 12], loops=[LoopContract("siblings", _loop), LoopContract("learning", _learn_loop)],
                     throws=lambda c: {OVF: ("may", TT)}, merge=True,
                     cases=[{**BASE, 13: a, 15: b} for a in (null, some) for b in (null, some)])


# ---------------------------------------------------------------- solve_with
# everything up to the search, the restart loop, and what is said at the end
SETUP = {"completed": I, "contradicted": B}


def _new_state(en, base, args, st, e):
    """the assignment is one of those that the domains the variables were created with allow"""
    st = st.copy()
    v = z3.Int(fresh_name("ver"))
    st.assume(ALIVE(v))
    setg(st, "ver", v)
    return [(st, VOpaque("state"))]


def _quiet(en, base, args, st, e):
    return [(st, VOpaque("opaque"))]


def _set_up(en, base, args, st, e):
    """initialisers, presolvers: whether the problem may still have a solution"""
    st = st.copy()
    v0, v1 = ver(st), z3.Int(fresh_name("ver"))
    for f in mono(v0, v1):
        st.assume(f)
    setg(st, "ver", v1)
    r = _result(en, st, e, "possible")
    st.assume(Implies(And(SOL, Not(gh(st, "exc")), ALIVE(v0)), And(W(r, en).t, ALIVE(v1))))
    setg(st, PENDING, z3.Bool(fresh_name("pending")))
    setg(st, "contradicted", Or(gh(st, "contradicted"), Not(W(r, en).t)))
    return [(st, r)]


def _completed(en, base, args, st, e):
    st = st.copy()
    en.oblige(st, And(Not(gh(st, "asked"))), "completion is reported only if nobody has asked to stop", "report", e)
    en.oblige(st, gh(st, "completed") == 0, "completion is reported once", "report", e)
    m = minvar(en)
    en.oblige(st, Implies(SOL, Or(gh(st, "reps") >= 1, And(m.has, gh(st, "total") > 0, gh(st, "repobj") <= cost(en)))), "completion is reported only when every solution has been reported, or is no better than the last that was", "report", e)
    setg(st, "completed", gh(st, "completed") + 1)
    return [(st, VOpaque("void"))]


def _swpre(c):
    st = c.st
    return [("nothing has happened yet", And(gh(st, "reps") == 0, gh(st, "total") == 0, Not(gh(st, "exc")), Not(gh(st, "stale")), Not(gh(st, "asked")), Not(gh(st, "aborting")), gh(st, "completed") == 0, Not(gh(st, "contradicted"))))]


def _swpost(c):
    en, st = c.en, c.st
    m = minvar(en)
    best = And(m.has, gh(st, "total") > 0, gh(st, "repobj") <= cost(en))
    over = Not(Or(gh(st, "asked"), gh(st, "aborting")))
    return [("unless given up, every solution has been reported, or is no better than the last that was", Implies(And(over, SOL), Or(gh(st, "reps") >= 1, best))),
            ("unless given up, completion has been reported", Implies(over, gh(st, "completed") == 1)),
            ("only solutions are reported, once", And(gh(st, "reps") <= 1, Implies(gh(st, "reps") == 1, SOL)))]


class _Args:
    def __init__(self, en, st, args, store):
        self.en, self.st, self._args, self._olds = en, st, args, {13: store}

    def a(self, i):
        return self._args[i]


def _passes(c):
    """each pass starts with what the passes before have not dealt with"""
    en, st, e0 = c.en, c.st, c.entry
    none = lambda t: W(en.default_val(en.types.parse(t)), en)
    store = VPtr(None) if z3.is_false(restarts(en)) else VPtr(LV(0, (), None))
    return _pre(_Args(en, st, {5: none("std::optional<gcs::innards::Literal>"), 11: c.v("objective_value"), 14: none("std::vector<gcs::IntegerVariableCondition>")}, store)) + [
        ("completion has not been reported", gh(st, "completed") == 0), ("only solutions are reported", Implies(gh(st, "reps") == 1, SOL))] + [
        ("no contradiction was found in setting up", Not(gh(st, "contradicted"))),
        ("without a schedule there is no restart", Implies(Not(restarts(en)), c.v("restart").cutoff.t == 2**64 - 1)),
        ("the schedule is there", c.v("restart_schedule").has == restarts(en))]


def restarts(en):
    return z3.simplify(W(en.param_vals[1], en).restarts.has)


def _presolving(c):
    st = c.st
    return [("no solution is lost", Implies(And(SOL, Not(gh(st, "exc"))), ALIVE(ver(st)))), ("no contradiction was found in setting up", Not(gh(st, "contradicted"))),
            ("nothing is reported", And(*[gh(st, n) == gh(c.entry, n) for n in ("reps", "total", "exc", "stale", "asked", "aborting", "completed")]))]


def _callbacks(has):
    def f(en, st):
        v = en.fresh(en.types.parse("gcs::SolveCallbacks"), "callbacks", st)
        return Val(v.ty, {**v.lv, ("restarts", "?"): TF(has)})
    return f


def _no_proof(en, st):
    return en.default_val(en.types.parse("std::optional<gcs::ProofOptions>"))


solve_few = Contract("solve_with_state", requires=lambda c: _pre(c) + [("no contradiction was found in setting up", Not(gh(c.st, "contradicted")))], ensures=lambda c: _post(c) + [("ASSUMED: there are fewer conflicts than a counter can count", c.x(12).conflicts_since_restart.t < 2**64 - 1)], ghosts=GHOSTS, modifies=[9, 10, 11, 12],
                     throws=lambda c: {OVF: ("may", TT)}, trusted="verified in the unit 'search' with the same contract, which the assumption is added to here")
solve_top = Contract("gcs::solve_with", requires=_swpre, ensures=_swpost, ghosts={**GHOSTS, **SETUP}, throws=lambda c: {OVF: ("may", TT)}, merge=True,
                     loops=[LoopContract("presolvers", _presolving), LoopContract("passes", _passes), LoopContract("observers", lambda c: [])],
                     cases=[{0: opq, 1: _callbacks(r), 2: _no_proof, 3: a} for r in (False, True) for a in (null, some)])
N_ = "gcs::"


def _store(en, base, args, st, e):
    return [(st, VPtr(None) if z3.is_false(restarts(en)) else some(en, st))]


def _started(en, base, args, st, e):
    return [(st, VOpaque("void"))]


TOP = {**SEARCH, N_ + "Problem::create_state_for_new_search": _new_state, N_ + "Problem::create_propagators": _quiet, N_ + "Problem::all_normal_variables": _quiet, P_ + "initialise": _set_up, N_ + "Presolver::run": _set_up, N_ + "Problem::each_presolver": _any, P_ + "conflict_observers": _any,
       N_ + "innards::ConflictObserver::on_restart": _quiet, N_ + "RestartSchedule::current_cutoff": _any, N_ + "RestartSchedule::advance": _quiet, P_ + "fill_in_constraint_stats": _quiet, N_ + "NogoodStore::size": _quiet,
       ("operator bool", "completed"): _wants_solutions, ("call", "completed"): _completed, ("operator bool", "after_proof_started"): _anybool, ("call", "after_proof_started"): _started,
       ("operator bool", "stats_report"): _anybool, ("operator bool", "branch"): _anybool, ("call", "branch_heuristic"): _quiet,
       ("fn", "now"): _quiet, ("fn", "duration_cast"): _quiet, ("fn", "getenv"): _quiet, ("fn", "make_shared"): _quiet, ("get", "nogood_store"): _store, ("operator bool", "nogood_store"): lambda en, base, args, st, e: [(st, scalar(Ty("bool"), restarts(en)))],
       ("fn", "branch_with"): _quiet, ("fn", "default_stats_report"): _quiet, N_ + "branch_with": _quiet, N_ + "default_stats_report": _quiet}
