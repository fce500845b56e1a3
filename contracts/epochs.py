"""Contracts of State: epochs, backtracking, and what is kept beside the domains."""
from contracts.state import *

# ---- how often a function object occurs among those registered
AI = z3.ArraySort(z3.IntSort(), z3.IntSort())
AAI = z3.ArraySort(z3.IntSort(), AI)
OCC = z3.Function("OCC", AI, z3.IntSort(), z3.IntSort(), z3.IntSort())            # in the first k entries
TOT = z3.Function("TOT", AI, AAI, z3.IntSort(), z3.IntSort(), z3.IntSort(), z3.IntSort())  # in the lists lo, ..., hi - 1
FN = z3.Int("fn!any")     # any function object


def occ0(A):
    return OCC(A, I0, FN) == 0


def occS(A, k):
    return Implies(k >= 0, OCC(A, k + 1, FN) == OCC(A, k, FN) + If(z3.Select(A, k) == FN, 1, 0))


def tot0(L, A, h):
    return TOT(L, A, h, h, FN) == 0


def totS(L, A, lo, hi):
    return Implies(lo < hi, TOT(L, A, lo, hi, FN) == OCC(z3.Select(A, lo), z3.Select(L, lo), FN) + TOT(L, A, lo + 1, hi, FN))


IMP = ("_imp", "*")
DOMS, CONS, BACK = ("integer_variable_states",), ("constraint_states",), ("on_backtracks",)
GUESS, EXTRA = ("guesses",), ("extra_proof_conditions",)


def leaves(w):
    return {p[1:]: t for p, t in w._imp.v.lv.items() if p[:1] == ("*",)}


def size(w, part):
    return leaves(w)[part + ("#",)]


def prefix(w, x, part, k):
    """the first k elements are the same"""
    a, b = leaves(w), leaves(x)
    i = z3.Int("i!p")
    return And(*[ForAll([i], Implies(And(0 <= i, i < k), z3.Select(b[p], i) == z3.Select(a[p], i)), patterns=[z3.Select(b[p], i)]) for p in a if p[:2] == part + ("[]",)])


def elem_same(w, x, part, i, j):
    """element j in x is element i in w"""
    a, b = leaves(w), leaves(x)
    return And(*[z3.Select(b[p], j) == z3.Select(a[p], i) for p in a if p[:2] == part + ("[]",)])


def others(w, x, *parts):
    """everything but these parts is the same"""
    a, b = leaves(w), leaves(x)
    return And(*[b[p] == t for p, t in a.items() if not any(p[:1] == q for q in parts)])


def kept(w, x, part, n):
    return And(size(x, part) == n, prefix(w, x, part, n))


new_epoch_ = Contract(ST + "new_epoch", modifies=["this"], calls=True, requires=lambda c: shape(c.this), ensures=lambda c: shape(c.this_x) + [
    ("one more epoch", And(*[size(c.this_x, p) == size(c.this, p) + 1 for p in (DOMS, CONS, BACK)])),
    ("the epochs before are as they were", And(*[prefix(c.this, c.this_x, p, size(c.this, p)) for p in (DOMS, CONS, BACK)])),
    ("the new epoch starts with the same domains", elem_same(c.this, c.this_x, DOMS, size(c.this, DOMS) - 1, size(c.this, DOMS))),
    ("the new epoch starts with the same constraint states", elem_same(c.this, c.this_x, CONS, size(c.this, CONS) - 1, size(c.this, CONS))),
    ("the new epoch has no callbacks", leaves(c.this_x)[BACK + ("[]", "#")][size(c.this, BACK)] == 0),
    ("nothing else changes", others(c.this, c.this_x, DOMS, CONS, BACK)),
    ("no callback is called", c.calls_x == c.calls),
    ("the timestamp is the number of epochs before", c.r.when.t == size(c.this, DOMS)),
    ("it counts the guesses", c.r.how_many_guesses.t == size(c.this, GUESS)),
    ("and, for a subsearch only, the extra conditions", And(c.r.how_many_extra_proof_conditions.has == c.a(0).t, Implies(c.a(0).t, c.r.how_many_extra_proof_conditions.val.t == size(c.this, EXTRA))))])


def valid_stamp(w, t):
    e = t.how_many_extra_proof_conditions
    return [("the timestamp is of an epoch on the stack", And(1 <= t.when.t, t.when.t <= size(w, DOMS))), ("there were no more guesses then", t.how_many_guesses.t <= size(w, GUESS)),
            ("there were no more extra conditions then", Implies(e.has, e.val.t <= size(w, EXTRA)))]


def _undone(c):
    t = c.a(0)
    e = t.how_many_extra_proof_conditions
    w, x, n = c.this, c.this_x, t.when.t
    L, A = leaves(w)[BACK + ("[]", "#")], leaves(w)[BACK + ("[]", "[]")]
    return shape(x) + [("exactly the domains of the epochs up to then", kept(w, x, DOMS, n)), ("exactly the constraint states of the epochs up to then", kept(w, x, CONS, n)), ("exactly the callbacks of the epochs up to then", kept(w, x, BACK, n)),
            ("exactly the guesses made by then", kept(w, x, GUESS, t.how_many_guesses.t)), ("the extra conditions of then, if it was for a subsearch", Implies(e.has, kept(w, x, EXTRA, e.val.t))),
            ("otherwise the extra conditions stay", Implies(Not(e.has), others(w, x, DOMS, CONS, BACK, GUESS))), ("nothing else changes", others(w, x, DOMS, CONS, BACK, GUESS, EXTRA)),
            ("each callback registered since is called as often as it was registered", c.calls_x[FN] == c.calls[FN] + TOT(L, A, n, size(w, BACK), FN))]


def _bt_start(c):
    w = c.this
    return [tot0(leaves(w)[BACK + ("[]", "#")], leaves(w)[BACK + ("[]", "[]")], size(w, BACK))]


def _bt_state(c, extra):
    w = c.this_e
    L, A, n = leaves(w)[BACK + ("[]", "#")], leaves(w)[BACK + ("[]", "[]")], size(w, BACK)
    m = size(c.this, BACK)
    return [("epochs left", And(c.v("t").when.t <= m, m <= n)), ("the callbacks of the epochs left are as they were", prefix(w, c.this, BACK, m)), ("nothing else changes", others(w, c.this, BACK)),
            ("the callbacks called so far", c.calls[FN] == c.calls_e[FN] + TOT(L, A, m, n, FN) + extra)]


def _bt_outer(c):
    return _bt_state(c, 0)


def _bt_facts(c):
    w = c.this_e
    L, A, n, m = leaves(w)[BACK + ("[]", "#")], leaves(w)[BACK + ("[]", "[]")], size(w, BACK), size(c.this, BACK)
    return [tot0(L, A, n), totS(L, A, m - 1, n), occ0(z3.Select(A, m - 1))]


def _bt_inner(c):
    w = c.this_e
    m = size(c.this, BACK)
    A = z3.Select(leaves(w)[BACK + ("[]", "[]")], m - 1)
    k = c.index
    return [("position in range", And(0 <= k, Implies(k > 0, k <= z3.Select(leaves(w)[BACK + ("[]", "#")], m - 1)))), ("those passed have been called", c.calls[FN] == c.calls_e[FN] + OCC(A, k, FN))]


backtrack_ = Contract(ST + "backtrack", modifies=["this"], calls=True, requires=lambda c: shape(c.this) + valid_stamp(c.this, c.a(0)), ensures=_undone, facts=_bt_start,
                      loops=[LoopContract("epochs to undo", _bt_outer, decreases=lambda c: size(c.this, BACK), facts=_bt_facts),
                             LoopContract("callbacks of an epoch", _bt_inner, decreases=lambda c: z3.Select(leaves(c.this_e)[BACK + ("[]", "#")], size(c.this, BACK) - 1) - c.index,
                                          facts=lambda c: [occ0(z3.Select(leaves(c.this_e)[BACK + ("[]", "[]")], size(c.this, BACK) - 1)), occS(z3.Select(leaves(c.this_e)[BACK + ("[]", "[]")], size(c.this, BACK) - 1), c.index)])])


def _registered(part, value):
    """an element is added at the end of the newest epoch's list; gives the clauses"""
    def ens(c):
        w, x = c.this, c.this_x
        a, b = leaves(w), leaves(x)
        k = size(w, part) - 1
        i = z3.Int("i!r")
        n = z3.Select(a[part + ("[]", "#")], k)
        A, B = z3.Select(a[part + ("[]", "[]")], k), z3.Select(b[part + ("[]", "[]")], k)
        return [("no epoch is added", size(x, part) == size(w, part)), ("earlier epochs are as they were", prefix(w, x, part, k)), ("one more in the newest epoch", z3.Select(b[part + ("[]", "#")], k) == n + 1),
                ("it is the one given", z3.Select(B, n) == value(c)), ("those before are as they were", ForAll([i], Implies(And(0 <= i, i < n), z3.Select(B, i) == z3.Select(A, i)), patterns=[z3.Select(B, i)])), ("nothing else changes", others(w, x, part))]
    return ens


on_backtrack_ = Contract(ST + "on_backtrack", modifies=["this"], requires=lambda c: shape(c.this), ensures=_registered(BACK, lambda c: c.a(0).t))
add_cs = Contract(ST + "add_constraint_state", modifies=["this"], requires=lambda c: shape(c.this),
                  ensures=lambda c: _registered(CONS, lambda c: c.a(0).t)(c) + [("the handle is its position", c.r.fld(0).t == z3.Select(leaves(c.this)[CONS + ("[]", "#")], size(c.this, CONS) - 1))])
get_cs = Contract(ST + "get_constraint_state", requires=lambda c: shape(c.this) + [("the handle is of a constraint state", And(0 <= c.a(0).fld(0).t, c.a(0).fld(0).t < z3.Select(leaves(c.this)[CONS + ("[]", "#")], size(c.this, CONS) - 1)))],
                  ensures=lambda c: [("the one registered under that handle, in the newest epoch", c.r.t == z3.Select(z3.Select(leaves(c.this)[CONS + ("[]", "[]")], size(c.this, CONS) - 1), c.a(0).fld(0).t))])
EPOCHS = [new_epoch_, backtrack_, on_backtrack_, add_cs, get_cs]


# ---- guesses and extra conditions, in the order reported
def _lits(w, part):
    return {p[len(part) + 1:]: t for p, t in leaves(w).items() if p[:len(part) + 1] == part + ("[]",)}


def _ylits(y):
    return {p[1:]: t for p, t in y.v.lv.items() if p[:1] == ("[]",)}


def _eqseq(ya, off, xa, lo, hi):
    """entries off + i of the first are entries i of the second, for lo <= i < hi"""
    i = z3.Int("i!s")
    return And(*[ForAll([i], Implies(And(lo <= i, i < hi), z3.Select(ya[p], off + i) == z3.Select(xa[p], i)), patterns=[z3.Select(xa[p], i)]) for p in xa])


def _all_guesses(c):
    e, g = size(c.this, EXTRA), size(c.this, GUESS)
    y = _ylits(c.r)
    return [("as many as there are extra conditions and guesses", c.r.n == e + g), ("first the extra conditions, in order", _eqseq(y, I0, _lits(c.this, EXTRA), I0, e)), ("then the guesses, in order", _eqseq(y, e, _lits(c.this, GUESS), I0, g))]


def _gl(first):
    def inv(c):
        k, y, e = c.index, c.v("co_yield"), size(c.this, EXTRA)
        n = e if first else size(c.this, GUESS)
        out = [("position in range", And(0 <= k, k <= n)), ("yielded so far", y.n == (k if first else e + k)), ("the extra conditions, in order", _eqseq(_ylits(y), I0, _lits(c.this, EXTRA), I0, k if first else e))]
        return out if first else out + [("then the guesses, in order", _eqseq(_ylits(y), e, _lits(c.this, GUESS), I0, k))]
    return LoopContract("extra conditions" if first else "guesses", inv, decreases=lambda c: (size(c.this, EXTRA) if first else size(c.this, GUESS)) - c.index)


guesses_ = Contract(ST + "guesses", requires=lambda c: shape(c.this), ensures=_all_guesses, loops=[_gl(True), _gl(False)], borrows=("this",))


def _pushed_extra(c):
    e = size(c.this, EXTRA)
    g, h = D(c.this).imp.extra_proof_conditions, D(c.this_x).imp.extra_proof_conditions
    return [("one more extra condition", h.n == e + 1), ("it is the literal", lit_eq(h[e], c.a(0))), ("those before are as they were", prefix(c.this, c.this_x, EXTRA, e)), ("nothing else changes", others(c.this, c.this_x, EXTRA))]


add_extra = Contract(ST + "add_extra_proof_condition", modifies=["this"], requires=lambda c: shape(c.this), ensures=_pushed_extra)


# ---- whole states
def _cloned(c):
    w, x = c.this, c.r
    same_ = lambda part: And(size(x, part) == size(w, part), prefix(w, x, part, size(w, part)))
    a, b = leaves(w), leaves(x)
    return shape(x) + [("the same domains, in every epoch", same_(DOMS)), ("the same constraint states, in every epoch", same_(CONS)), ("the same callbacks, in every epoch", same_(BACK)),
                       ("no guesses", And(size(x, GUESS) == 0, size(x, EXTRA) == 0)), ("the same objective", And(*[b[p] == t for p, t in a.items() if p[0] in ("optional_minimise_variable", "optional_objective_incumbent")])),
                       ("the same proof logger", b[("maybe_proof_logger",)] == a[("maybe_proof_logger",)])]


clone_ = Contract(ST + "clone", requires=lambda c: shape(c.this), ensures=_cloned)
fresh_ = Contract(ST + "State", [], name="State()", modifies=["this"], ensures=lambda c: shape(c.this_x) + [("one epoch", size(c.this_x, DOMS) == 1), ("no variables", D(c.this_x).top.n == 0), ("no constraint states", z3.Select(leaves(c.this_x)[CONS + ("[]", "#")], 0) == 0),
                  ("no callbacks", z3.Select(leaves(c.this_x)[BACK + ("[]", "#")], 0) == 0), ("no guesses", And(size(c.this_x, GUESS) == 0, size(c.this_x, EXTRA) == 0)), ("no objective", Not(D(c.this_x).imp.optional_minimise_variable.has))])
EPOCHS += [guesses_, add_extra, clone_, fresh_]


# ---- any history of modifications, epochs and backtracking
def below(c):
    """what every modification that is not an epoch or a backtrack respects: all but the newest epoch, and everything registered before"""
    w, x = c.this if not c.free else c.a(0), c.this_x if not c.free else c.x(0)
    n = size(w, DOMS)
    return ([("no epoch comes or goes", And(*[size(x, p) == size(w, p) for p in (DOMS, CONS, BACK)])), ("earlier epochs are as they were", And(*[prefix(w, x, p, n - 1) for p in (DOMS, CONS, BACK)])),
             ("guesses and extra conditions are only added", And(*[And(size(x, p) >= size(w, p), prefix(w, x, p, size(w, p))) for p in (GUESS, EXTRA)])), ("nothing else changes", others(w, x, DOMS, CONS, BACK, GUESS, EXTRA))])


def var_there(st, i):
    d = D(st)
    return [("the variable exists", And(0 <= i, i < d.top.n))]


def id_there(st, w):
    return per_id(w, lambda x: [] if x.const else var_there(st, x.i))


def lit_there(st, w):
    ic, it, if_, cond = lit_parts(w)
    return [("for a condition: " + n, Implies(ic, f)) for n, f in id_there(st, cond.var)]


def respects(c, there):
    """the same function, proved against `below` only; about domains nothing more is needed here"""
    def ens(ctx):
        ctx.free = False
        return shape(ctx.this_x) + below(ctx)
    return Contract(c.qname, c.params, name=c.name + " (earlier epochs)", select=c.select, modifies=c.modifies, requires=lambda k: shape(k.this) + there(k), throws=lambda k: {t: ("may", z3.BoolVal(True)) for t in (OVF, NONEX, UNEXP, INVALID)}, ensures=ens)


FREE = lambda k: []
RESPECT = ([respects(c, lambda k: var_there(k.this, idx(k.a(0)))) for c in CHANGE] + [respects(c, lambda k: id_there(k.this, k.a(0))) for c in INFER] + [respects(c, lambda k: id_there(k.this, k.a(0).var)) for c in infer_cond] +
           [respects(c, lambda k: lit_there(k.this, k.a(0))) for c in (infer_lit, guess)] + [respects(c, FREE) for c in (allocate, on_backtrack_, add_cs, add_extra)])
# an interval set changes nothing but itself (its members: C17)
SETS = [Contract(c.qname, c.params, name=c.name + " (any effect on the set)", select=c.select, modifies=c.modifies, throws=(lambda k: {}) if c is ctor else (lambda k: {OVF: ("may", z3.BoolVal(True))}), trusted="a member function of an interval set changes nothing but the set; what it does to it is proved under C17")
        for c in QUERIES + MODIFIERS]

CLIENT = """
namespace gcs::innards
{
    auto cv_modify(State & s) -> void;
    auto cv_history(State & s, const std::vector<int> & script) -> void
    {
        std::vector<Timestamp> ts;
        auto t = s.new_epoch(true);
        for (auto x : script) {
            if (x == 0)
                cv_modify(s);
            else if (x == 1 || x == 2)
                ts.push_back(s.new_epoch(x == 2));
            else if (! ts.empty()) {
                s.backtrack(ts.back());
                ts.pop_back();
            }
        }
        s.backtrack(t);
    }
}
"""


def _modify(c):
    c.free = True
    return shape(c.x(0)) + below(c)


modify = Contract("gcs::innards::cv_modify", modifies=[0], requires=lambda c: shape(c.a(0)), ensures=_modify, trusted="stands for any one of the modifications, each proved to respect this contract")


class Stamps:
    def __init__(self, ts):
        self.n = ts.n
        g = lambda *p: ts.v.lv[("[]",) + p]
        self.when = lambda i: z3.Select(g("when"), i)
        self.guess = lambda i: z3.Select(g("how_many_guesses"), i)
        self.has = lambda i: z3.Select(g("how_many_extra_proof_conditions", "?"), i)
        self.extra = lambda i: z3.Select(g("how_many_extra_proof_conditions", "*"), i)


def _history_inv(c):
    T, s, s0, t = Stamps(c.v("ts")), c.v("s"), c.p(0), c.v("t")
    i, j = z3.Ints("i!h j!h")
    n0, n = size(s0, DOMS), size(s, DOMS)
    all_ = lambda f, pat: ForAll([i], Implies(And(0 <= i, i < T.n), f(i)), patterns=[pat(i)])
    e = t.how_many_extra_proof_conditions
    return shape(s) + [("the first timestamp is of the start", And(t.when.t == n0, t.how_many_guesses.t == size(s0, GUESS), e.has, e.val.t == size(s0, EXTRA))), ("one epoch for each timestamp", n == n0 + 1 + T.n), ("timestamps are of their epochs", all_(lambda i: T.when(i) == n0 + 1 + i, T.when)),
            ("the guesses counted are there", And(size(s, GUESS) >= t.how_many_guesses.t, all_(lambda i: And(t.how_many_guesses.t <= T.guess(i), T.guess(i) <= size(s, GUESS)), T.guess))),
            ("... in order", ForAll([i, j], Implies(And(0 <= i, i < j, j < T.n), T.guess(i) <= T.guess(j)), patterns=[z3.MultiPattern(T.guess(i), T.guess(j))])),
            ("the extra conditions counted are there", And(size(s, EXTRA) >= e.val.t, all_(lambda i: Implies(T.has(i), And(e.val.t <= T.extra(i), T.extra(i) <= size(s, EXTRA))), T.extra))),
            ("... in order too", ForAll([i, j], Implies(And(0 <= i, i < j, j < T.n, T.has(i), T.has(j)), T.extra(i) <= T.extra(j)), patterns=[z3.MultiPattern(T.extra(i), T.extra(j))])),
            ("the epochs of the start are as they were", And(*[prefix(s0, s, p, n0) for p in (DOMS, CONS, BACK)])), ("its guesses and extra conditions too", And(*[prefix(s0, s, p, size(s0, p)) for p in (GUESS, EXTRA)])), ("nothing else changes", others(s0, s, DOMS, CONS, BACK, GUESS, EXTRA))]


def _restored(c):
    w, x = c.a(0), c.x(0)
    return [("all domains, constraint states, callbacks, guesses and extra conditions are as at the start", And(*[kept(w, x, p, size(w, p)) for p in (DOMS, CONS, BACK, GUESS, EXTRA)])), ("and everything else", others(w, x, DOMS, CONS, BACK, GUESS, EXTRA))]


history = Contract("gcs::innards::cv_history", name="any history between an epoch and backtracking to it", modifies=[0], calls=True, requires=lambda c: shape(c.a(0)), ensures=_restored, loops=[LoopContract("the history", _history_inv, decreases=lambda c: c.p(1).n - c.index)])
