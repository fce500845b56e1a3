"""C20: propagators remove no solution and accept nothing but solutions."""
from contracts.world import *
from contracts.common import INTEGER, UNEXP

from cv.runner import Unit, Harness
K_ = "gcs/constraints/"
OVS = "gcs/innards/integer_overflow.cc"
LITS = "gcs/innards/literal.cc"
unit = lambda tag, src, targets, reg=(), more={}: Unit(tag, targets, list(reg) + INTEGER, sources=[K_ + s for s in ([src] if isinstance(src, str) else src)] + [OVS], hooks={**HOOKS, **more}, auto_inv=auto_inv, opaque=OPAQUE_TYPES, abstract=ABSTRACT)

plus_i = PropContract("gcs::Plus::install_propagators", rel=lambda c: idval(c.this._a) + idval(c.this._b) == idval(c.this._result),
                      watched=lambda c, t: [("the operands and the result", And(*[watches(t, x) for x in (c.this._a, c.this._b, c.this._result)]))],
                      loops=[LoopContract("passes", lambda c: [])])
UNITS = [unit("plus", "plus_minus/plus.cc", [plus_i])]
minus_i = PropContract("gcs::Minus::install_propagators", rel=lambda c: idval(c.this._a) - idval(c.this._b) == idval(c.this._result),
                      watched=lambda c, t: [("the operands and the result", And(*[watches(t, x) for x in (c.this._a, c.this._b, c.this._result)]))],
                      loops=[LoopContract("passes", lambda c: [])])
UNITS.append(unit("minus", "plus_minus/minus.cc", [minus_i]))

def _cmp(c):
    a, b = idval(c.this._v1), idval(c.this._v2)
    return reified(c.this._reif_cond, If(c.this._or_equal.t, a <= b, a < b))


def _cmp_pre(w):
    return evaluated(w._evaluated_cond, w._reif_cond) + constant_of(w._v1_is_constant, w._v1) + constant_of(w._v2_is_constant, w._v2)


CMP = "gcs::ReifiedCompareLessThanOrMaybeEqual::"
compare_p = Prepare(CMP + "prepare", lambda c: _cmp_pre(c.this_x))
compare_i = PropContract(CMP + "install_propagators", rel=_cmp, requires=lambda c: _cmp_pre(c.this),
                          watched=lambda c, t: [("the operands", And(watches(t, c.this._v1), watches(t, c.this._v2)))] + watch_cond(t, c.this._evaluated_cond))
UNITS.append(unit("compare", ["comparison/comparison.cc", "innards/reified_state.cc", "innards/triggers.cc", "../innards/literal.cc"], [lit_not, compare_p, compare_i]))


# ---------------------------------------------------------------- parity
def truth_count(name):
    """(function, defining facts): how many of the first n literals are true"""
    F = z3.Function(name, I, I)
    def facts(w):
        k = z3.Int("k!" + name)
        return [F(0) == 0, ForAll([k], Implies(And(0 <= k, k < w.n), F(k + 1) == F(k) + If(lit_true(w[k]), 1, 0)), patterns=[F(k + 1)])]
    return F, facts


PAR, par_facts = truth_count("true literals")


def _par_inv(c):
    k, one, unk, an = c.index, c.v("how_many_1").t, c.v("how_many_unknown").t, c.v("an_unknown")
    v = now(c)
    return [("index", And(0 <= k, k <= c.rng(1).n)), ("unknown", And(0 <= unk, unk <= 1, an.has == (unk == 1), 0 <= one, one + unk <= k)),
            ("count", Implies(ALIVE(v), PAR(k) == one + If(And(an.has, lit_true(an.val)), 1, 0))), ("fixed", Implies(And(ALIVE(v), FX(v)), unk == 0))]


add_trigger = Contract("gcs::innards::add_trigger_for", modifies=[0], ensures=lambda c: [("a trigger on the literal's variable is added", watches_lit(c.x(0), c.a(1))), ("nothing watched is dropped", keeps(c.a(0), c.x(0)))])
TRIG = ["innards/triggers.cc", "../innards/literal.cc"]
parity_i = PropContract("gcs::ParityOdd::install_propagators", rel=lambda c: PAR(c.this._lits.n) % 2 == 1, facts=lambda c: par_facts(c.this._lits),
                        watched=lambda c, t: [("every literal", watch_lits(t, c.this._lits))],
                        loops=[LoopContract("triggers", lambda c: [("so far", watch_lits(c.v("triggers"), c.this._lits, c.index)), ("index", And(0 <= c.index, c.index <= c.this._lits.n))]), LoopContract("literals", _par_inv)])
UNITS.append(unit("parity", ["parity/parity.cc"] + TRIG, [lit_not, add_trigger, parity_i]))


# ---------------------------------------------------------------- increasing
JX, IX = z3.Int("j!x"), z3.Int("i!x")


def each(n, f, lo=0):
    return ForAll([JX], Implies(And(lo <= JX, JX < n), f(JX)))


def _inc_rel(vs, step):
    return each(vs.n - 1, lambda j: idval(vs[j]) + step <= idval(vs[j + 1]))


_inc_step = lambda w: If(w._strict.t, 1, 0)
inc_p = Prepare("gcs::IncreasingChain::prepare", lambda c: [("the variables in ascending order", And(c.this_x._ordered_vars.n == c.this._vars.n, c.this_x._strict.t == c.this._strict.t,
                each(c.this._vars.n, lambda j: idval(c.this_x._ordered_vars[j]) == idval(c.this._vars[If(c.this._descending.t, c.this._vars.n - 1 - j, j)])))),
                ("what it returns", c.r.t == (c.this_x._ordered_vars.n > 1))],
                rel=lambda c: each(c.this._vars.n - 1, lambda j: If(c.this._descending.t, idval(c.this._vars[j]) >= idval(c.this._vars[j + 1]) + _inc_step(c.this), idval(c.this._vars[j]) + _inc_step(c.this) <= idval(c.this._vars[j + 1]))))


def _inc_vs(c):
    return T(c)._ordered_vars


def _inc_fwd(c):
    i, vs, v, p = c.index, _inc_vs(c), now(c), c.v("prev_lb").fld(0).t
    st = _inc_step(T(c))
    return [("index", And(1 <= i, i <= vs.n)), ("a lower bound of the one before", Implies(ALIVE(v), p <= idval(vs[i - 1]))),
            ("fixed: in order so far", Implies(And(ALIVE(v), FX(then(c))), And(p == idval(vs[i - 1]), each(i - 1, lambda j: idval(vs[j]) + st <= idval(vs[j + 1])))))]


def _inc_bwd(c):
    k, vs, v, p = c.index, _inc_vs(c), now(c), c.v("prev_ub").fld(0).t
    return [("index", And(0 <= k, k < vs.n)), ("an upper bound of the one after", Implies(ALIVE(v), p >= idval(vs[vs.n - 1 - k])))]


def _inc_ent(c):
    i, vs, v = c.index, _inc_vs(c), now(c)
    st = _inc_step(T(c))
    return [("index", And(0 <= i, i < vs.n)), ("entailed so far", Implies(And(c.v("entailed").t, ALIVE(v)), each(i, lambda j: idval(vs[j]) + st <= idval(vs[j + 1])))), ("not yet refuted", c.v("entailed").t)]


inc_i = PropContract("gcs::IncreasingChain::install_propagators", rel=lambda c: _inc_rel(c.this._ordered_vars, _inc_step(c.this)), requires=lambda c: [("two variables or more", c.this._ordered_vars.n > 1)],
                     watched=lambda c, t: [("every variable", watch_all(t, c.this._ordered_vars))],
                     loops=[LoopContract("forward", _inc_fwd), LoopContract("backward", _inc_bwd), LoopContract("entailed", _inc_ent)])
UNITS.append(unit("increasing", "increasing/increasing.cc", [inc_p, inc_i]))


# ---------------------------------------------------------------- and, or
def conjunction(name, true=None):
    """(function, defining facts): are the first n of them true?"""
    F = z3.Function(name, I, B)
    tr = true or lit_true
    def facts(w):
        k = z3.Int("k!" + name)
        return [F(0), ForAll([k], Implies(And(0 <= k, k < w.n), F(k + 1) == And(F(k), tr(w[k]))), patterns=[F(k + 1)]), ForAll([k], Implies(And(0 <= k, k < w.n, F(w.n)), tr(w[k])))]
    return F, facts


ALLT, allt_facts = conjunction("all literals true")
L_REQ = lambda lits, reif, st, c: [("the state of the reification literal", And(Implies(And(ALIVE(V_INIT), st == c.enum("gcs::innards::LiteralIs", "DefinitelyTrue")), lit_true(reif)), Implies(And(ALIVE(V_INIT), st == c.enum("gcs::innards::LiteralIs", "DefinitelyFalse")), Not(lit_true(reif)))))]
_lgn = lambda c: c.en.cur.ctx.a(2).n


def _lg_scan_false(c):
    k, v, u, f = c.index, now(c), c.v("undecided1"), c.v("any_false").t
    return [("index", And(0 <= k, k <= _lgn(c))), ("false seen", Implies(And(ALIVE(v), f), Not(ALLT(k)))), ("none seen", Implies(And(ALIVE(v), Not(f)), ALLT(k) == Implies(u.has, lit_true(u.val)))), ("fixed", Implies(And(ALIVE(v), FX(v)), Not(u.has)))]


def _lg_scan_undecided(c):
    k, v, f, a = c.index, now(c), c.v("any_false").has, c.v("all_true").t
    return [("index", And(0 <= k, k <= _lgn(c))), ("false seen", Implies(And(ALIVE(v), f), Not(ALLT(k)))), ("all true", Implies(And(ALIVE(v), a), ALLT(k))), ("one or the other", Implies(f, Not(a))), ("fixed", Implies(And(ALIVE(v), FX(v)), Or(a, f)))]


_lg_force = LoopContract("force", lambda c: [("index", And(0 <= c.index, c.index <= _lgn(c))), ("so far", Implies(ALIVE(now(c)), ALLT(c.index)))])
_lg_why = LoopContract("reason", lambda c: [])
logical = PropContract("install_propagators_logical", modifies=[], rel=lambda c: lit_true(c.a(3)) == ALLT(c.a(2).n), facts=lambda c: allt_facts(c.a(2)), requires=lambda c: L_REQ(c.a(2), c.a(3), c.a(4).t, c),
                       watched=lambda c, t: [("every literal and the reification", And(watch_lits(t, c.a(2)), watches_lit(t, c.a(3))))],
                       loops=[_lg_force, LoopContract("triggers", lambda c: [("index", And(0 <= c.index, c.index <= _lgn(c))), ("so far", watch_lits(c.v("triggers"), c.en.cur.ctx.a(2), c.index)), ("false seen", Implies(c.v("saw_false").t, Not(ALLT(c.index))))]),
                              _lg_force, LoopContract("scan", _lg_scan_false), _lg_why, _lg_why, LoopContract("scan", _lg_scan_undecided), _lg_why])
and_p = Prepare("gcs::And::prepare", lambda c: L_REQ(None, c.this_x._full_reif, c.this_x._reif_state.t, c) + [("the literals are kept", And(c.this_x._lits.eq(c.this._lits), c.this_x._full_reif.eq(c.this._full_reif)))], rel=lambda c: FF)
or_p = Prepare("gcs::Or::prepare", lambda c: _or_req(c.this_x, c) + [("the literals are kept", And(c.this_x._lits.eq(c.this._lits), c.this_x._full_reif.eq(c.this._full_reif)))], rel=lambda c: FF)


def _or_req(w, c):
    st, K, r = w._reif_state.t, lambda n: c.enum("gcs::innards::LiteralIs", n), lit_true(w._full_reif)
    return [("the state of the negated reification literal", And(Implies(And(ALIVE(V_INIT), st == K("DefinitelyTrue")), Not(r)), Implies(And(ALIVE(V_INIT), st == K("DefinitelyFalse")), r)))]


ANYT = z3.Function("any literal true", I, B)


def anyt_facts(w):
    k = z3.Int("k!any")
    return [Not(ANYT(0)), ForAll([k], Implies(And(0 <= k, k < w.n), ANYT(k + 1) == Or(ANYT(k), lit_true(w[k]))), patterns=[ANYT(k + 1)])]


and_i = PropContract("gcs::And::install_propagators", rel=lambda c: lit_true(c.this._full_reif) == each(c.this._lits.n, lambda j: lit_true(c.this._lits[j])), requires=lambda c: L_REQ(None, c.this._full_reif, c.this._reif_state.t, c))
or_i = PropContract("gcs::Or::install_propagators", rel=lambda c: lit_true(c.this._full_reif) == z3.Exists([JX], And(0 <= JX, JX < c.this._lits.n, lit_true(c.this._lits[JX]))), requires=lambda c: _or_req(c.this, c),
                    loops=[LoopContract("negate", lambda c: [("index", And(0 <= c.index, c.index <= T(c)._lits.n)), ("length", c.v("lits").n == T(c)._lits.n),
                                                             ("negated so far", each(c.index, lambda j: lit_true(c.v("lits")[j]) == Not(lit_true(T(c)._lits[j])))), ("the rest as given", each(T(c)._lits.n, lambda j: c.v("lits")[j].eq(T(c)._lits[j]), c.index))])])
lg_call = installs(3, lambda lits, reif, st, c: L_REQ(lits, reif, st.t, c), lambda lits, reif, st, c: lit_true(reif) == each(lits.n, lambda j: lit_true(lits[j])), first=2)
UNITS.append(unit("logical", ["logical/logical.cc"] + TRIG, [lit_not, add_trigger, logical]))
UNITS.append(unit("andor", ["logical/logical.cc"] + TRIG, [lit_not, and_p, or_p, and_i, or_i], more={"install_propagators_logical": lg_call}))


# ---------------------------------------------------------------- equals, not equals
def eqpair(c):
    return idval(c.a(1)) == idval(c.a(2))


_span_values = LoopContract("values", lambda c: [("from the first", c.v("val").fld(0).t >= c.v("lo").fld(0).t)])
enf_eq = Enforce("gcs::innards::enforce_equality", eqpair, dict(logger=0, state=3, inference=4), loops=[LoopContract("intervals", lambda c: []), _span_values] * 2)
EQ = "gcs::ReifiedEquals::"
equals_p = Prepare(EQ + "prepare", lambda c: evaluated(c.this_x._evaluated_cond, c.this_x._cond) + [("the operands are kept", And(*[getattr(c.this_x, f).eq(getattr(c.this, f)) for f in ("_v1", "_v2", "_cond")]))])
equals_i = PropContract(EQ + "install_propagators", rel=lambda c: reified(c.this._cond, idval(c.this._v1) == idval(c.this._v2)), requires=lambda c: evaluated(c.this._evaluated_cond, c.this._cond),
                        watched=lambda c, t: [("the operands", And(watches(t, c.this._v1), watches(t, c.this._v2)))] + watch_cond(t, c.this._evaluated_cond),
                        loops=[LoopContract("justification", lambda c: [])])
REIF = ["innards/reified_state.cc"] + TRIG
UNITS.append(unit("equals", ["equals/equals.cc"] + REIF, [lit_not, enf_eq]))
UNITS.append(unit("equals_i", ["equals/equals.cc"] + REIF, [lit_not, add_trigger, equals_p, equals_i], more={"gcs::innards::enforce_equality": enf_eq.hook}))


LEMMAS = []
_h = ["gcs/innards/state.cc", "gcs/innards/propagators.cc", "gcs/innards/literal.cc", "gcs/innards/reason.cc", "gcs/innards/variable_id_utils.cc", "gcs/variable_id.cc", "gcs/variable_condition.cc", "gcs/current_state.cc", "gcs/constraint.cc", "gcs/stats.cc"]
_k = ["plus_minus/plus.cc", "plus_minus/minus.cc", "comparison/comparison.cc", "equals/equals.cc", "increasing/increasing.cc", "logical/logical.cc", "parity/parity.cc", "innards/reified_state.cc", "innards/triggers.cc", "innards/tabulation.cc", "extensional_utils.cc"]
HARNESS = Harness("C20.cc", sources=_h + [K_ + s for s in _k], flags=["-Wl,--unresolved-symbols=ignore-all"], quick_s=60,
                  bound="random problems of up to 4 variables with at most 5 values each (domains with holes, views, constants) and up to 3 constraints, all solutions compared with brute force; proofs off")
ASSUMPTIONS = ["proof logging is off: propagators are verified in their instantiation for SimpleInferenceTracker with no logger; arguments that only justify an inference (justification, reason, hint) are not evaluated",
               "what State tells a propagator and what an inference does to it are taken as weaker facts implied by the contracts proved under C18 and C19 (interval sets: C17)",
               "the propagation loop runs a propagator again whenever a variable it watches in that way changes, and every initialiser once; a propagator's triggers are proved to watch what its acceptance depends on",
               "define_proof_model changes no field the propagators read (it is not called when proofs are off)",
               "IntegerOverflow may be thrown where the code adds, subtracts or negates: the search is over then",
               "the table that Plus and Minus add for small domains (or on request) is outside: its initialiser is opaque here"]
