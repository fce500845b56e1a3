"""Branching: every value order and variable order the library offers, against the values a variable has left.

The variable branched on is arbitrary, and so is what it has left; the domain is a set of integers, as seen through its id."""
from contracts.world import *
from contracts.common import INTEGER

D = z3.Function("remaining", I, B)
LOW, HIGH, SIZE = z3.Ints("least_remaining greatest_remaining how_many_remain")
AT_ = z3.Function("position", I, I)
x_, i_, j_ = z3.Ints("x!b i!b j!b")


def the_var(en):
    if not hasattr(en, "_bvar"):
        en._bvar = en.fresh(en.types.parse("gcs::IntegerVariableID"), "branched_on")
    return W(en._bvar, en)


def domain():
    return And(D(LOW), D(HIGH), LOW < HIGH, SIZE >= 2, SIZE <= 2**63 - 1, ForAll([x_], Implies(D(x_), And(LOW <= x_, x_ <= HIGH)), patterns=[D(x_)]))


def _ask(f):
    def hook(en, base, args, st, e):
        def go(s, v):
            s = s.copy()
            r = en.fresh(en.ty(e), "asked", s)
            s.assume(Implies(wv(en, s, v).eq(the_var(en)), f(W(r, en))))
            return [(s, r)]
        return en.bind(en.rv(args[0], st), go)
    return hook


def listed(up):
    """each remaining value once, in order"""
    def f(r):
        return And(r.n == SIZE, ForAll([i_, j_], Implies(And(0 <= i_, i_ < j_, j_ < r.n), (r[i_].t < r[j_].t) if up else (r[i_].t > r[j_].t)), patterns=[z3.MultiPattern(r[i_].t, r[j_].t)]), ForAll([i_], Implies(And(0 <= i_, i_ < r.n), D(r[i_].t)), patterns=[r[i_].t]),
                   ForAll([x_], Implies(D(x_), And(0 <= AT_(x_), AT_(x_) < r.n, r[AT_(x_)].t == x_)), patterns=[D(x_)]))
    return f


def _shuffle(en, base, args, st, e):
    """the same values, in any order"""
    def go(s, lv):
        s = s.copy()
        w = W(en.read(s, lv), en)
        v = en.fresh(w.ty, "shuffled", s)
        r = W(v, en)
        p, q = z3.Function(fresh_name("perm"), I, I), z3.Function(fresh_name("inverse"), I, I)
        s.assume(And(r.n == w.n, ForAll([i_], Implies(And(0 <= i_, i_ < w.n), And(0 <= p(i_), p(i_) < w.n, q(p(i_)) == i_, r[i_].eq(w[p(i_)]))), patterns=[r[i_].t]),
                     ForAll([i_], Implies(And(0 <= i_, i_ < w.n), And(0 <= q(i_), q(i_) < w.n, p(q(i_)) == i_, r[q(i_)].eq(w[i_]))), patterns=[q(i_)])))
        en._inverses = getattr(en, "_inverses", []) + [q]
        en.write(s, lv, v)
        return [(s, VOpaque("iterator"))]
    return en.bind(en.ev(args[0], st), go)


C_ = "gcs::CurrentState::"
BRANCHING = {C_ + "lower_bound": _ask(lambda r: r.t == LOW), C_ + "upper_bound": _ask(lambda r: r.t == HIGH), C_ + "domain_size": _ask(lambda r: r.t == SIZE), C_ + "each_value": _ask(listed(True)), C_ + "each_value_reversed": _ask(listed(False)),
             ("call", "shuffle"): _shuffle, "make_shared_rng": lambda en, base, args, st, e: [(st, VOpaque("random engine"))]}
ORDERS = ["smallest_in", "smallest_out", "smallest_first", "largest_in", "largest_out", "largest_first", "split_smallest_first", "split_largest_first", "split_random", "random", "random_out", "reject_random_interval", "median"] + [o + " (seeded)" for o in ("split_random", "random", "random_out", "reject_random_interval")]


def ident(o):
    return re.sub(r"[^a-z_]+", "_", o)


def order_call(o):
    return o.replace(" (seeded)", "(1)") if o.endswith(")") else o + "()"

CLIENT = """
#include <gcs/current_state.hh>
#include <gcs/search_heuristics.hh>
#include <gcs/innards/propagators.hh>
namespace gcs_client
{
    using namespace gcs;
%s
}
""" % "\n".join("    auto cv_%s(const CurrentState & s, const innards::Propagators & p, const IntegerVariableID & var) -> std::generator<IntegerVariableCondition> { auto order = value_order::%s; return order(s, p, var); }" % (ident(o), order_call(o)) for o in ORDERS)


def _var(en, st):
    return the_var(en).v


def opq(en, st):
    return VOpaque("parameter")


X0, I0, J0 = z3.Ints("some_value some_branch another_branch")


def _branches(c):
    """of one arbitrary value and two arbitrary branches"""
    q, en = c.r, c.en
    holds = lambda i, x: opholds(en, q[i], x)
    in_ = lambda i: And(0 <= i, i < q.n)
    at = [z3.IntVal(0), z3.IntVal(1), AT_(X0)] + [f(AT_(X0)) for f in getattr(en, "_inverses", [])]
    vals = [LOW, HIGH] + ([q[k].value.t for k in (0, 1, I0)] if q.n is not None else [])
    return [("there are branches", q.n >= 2), ("the branches are about the variable", Implies(in_(I0), q[I0].var.eq(the_var(en)))),
            ("each remaining value is in some branch", Implies(D(X0), Or(*[And(in_(i), holds(i, X0)) for i in at]))),
            ("no remaining value is in two", Implies(And(D(X0), in_(I0), in_(J0), I0 < J0), Not(And(holds(I0, X0), holds(J0, X0))))),
            ("each branch leaves something", Implies(in_(I0), Or(*[And(D(x), holds(I0, x)) for x in vals]))),
            ("each branch excludes something", Implies(in_(I0), Or(*[And(D(x), Not(holds(I0, x))) for x in vals])))]


def _collect(c):
    """the values so far, as listed"""
    a, k = c.rng(0), c.index
    v = c.v(_local(c, "std::vector<gcs::Integer>"))
    return [("position in range", And(0 <= k, k <= a.n)), ("the values so far", And(v.n == k, ForAll([i_], Implies(And(0 <= i_, i_ < k), v[i_].t == a[i_].t), patterns=[v[i_].t])))]


def _local(c, t):
    """the only local variable of that type"""
    ns = [n for n, lv in c.st.names.items() if isinstance(lv, LV) and lv.ty is not None and lv.ty == c.en.types.parse(t) and n not in ("co_yield",) and not n.startswith("__")]
    if len(ns) > 1:   # the one that is empty at first
        ns = [n for n in ns if z3.simplify(c.e(n).n).eq(z3.IntVal(0))]
    if len(ns) != 1:
        raise Unsupported("locals of type %s: %s" % (t, ns))
    return ns[0]


def same(a, b):
    """the very same representation"""
    return And(*[t == b.v.lv[p] for p, t in a.v.lv.items()])


def _each(k):
    def inv(c):
        a, n, y = c.rng(k), c.index, c.v("co_yield")
        return [("position in range", And(0 <= n, n <= a.n)), ("a branch for each value so far", y.n == n), ("the branches are about the variable", Implies(And(0 <= I0, I0 < n), same(y[I0].var, the_var(c.en)))),
                ("each is for its value", ForAll([i_], Implies(And(0 <= i_, i_ < n), And(y[i_].op.t == CallCtx(c.en, [], None, None).enum("gcs::VariableConditionOperator", "Equal"), y[i_].value.t == a[i_].t)), patterns=[y[i_].value.t]))]
    return inv


COLLECT = LoopContract("values", _collect, decreases=lambda c: c.rng(0).n - c.index)
LOOPS = {"smallest_first": [LoopContract("values", _each(0))], "largest_first": [LoopContract("values", _each(0))], "random": [COLLECT, LoopContract("branches", _each(1))], **{o: [COLLECT] for o in ("random_out", "reject_random_interval", "median")}}


def _ordered(o):
    """what the documentation says of the order of the branches"""
    o = o.partition(" ")[0]

    def f(c):
        q, en = c.r, c.en
        holds = lambda i, x: opholds(en, q[i], x)
        is_ = lambda n: CallCtx(en, [], None, None).enum("gcs::VariableConditionOperator", n)
        just = lambda i, x: And(q.n == 2, Implies(D(X0), holds(i, X0) == (X0 == x)))
        before = lambda up: Implies(And(D(X0), D(X1), 0 <= I0, I0 < J0, J0 < q.n, holds(I0, X0), holds(J0, X1)), X0 < X1 if up else X0 > X1)
        if o in ("smallest_in", "smallest_out", "largest_in", "largest_out"):
            return [("the value taken or left out", just(0 if o.endswith("_in") else 1, LOW if o.startswith("s") else HIGH))]
        if o in ("smallest_first", "largest_first", "split_smallest_first", "split_largest_first"):
            return [("in the order documented", before("smallest" in o))] + ([("in two", q.n == 2)] if o.startswith("split") else [("a branch for each value", q.n == SIZE)])
        if o == "random":
            return [("a branch for each value", q.n == SIZE)]
        return [("in two", q.n == 2)]
    return f


X1 = z3.Int("another_value")


def value_contract(o):
    return Contract("gcs_client::cv_" + ident(o), name="gcs::value_order::" + o, requires=lambda c: [("something is left to decide", domain())], ensures=lambda c: _branches(c) + _ordered(o)(c), param_values={0: opq, 1: opq, 2: _var}, throws=lambda c: {OVF: ("may", TT)}, loops=LOOPS.get(o.partition(" ")[0], ()))


VALUES = [value_contract(o) for o in ORDERS]


# ---------------------------------------------------------------- which variable
JV = z3.Int("some_variable")
CMP = "[](const CurrentState & s, const innards::Propagators & p, const IntegerVariableID & a, const IntegerVariableID & b) -> bool { return cv_better(s, p, a, b); }"
SELECT = {}
for _of, _v in (("", "vars"), (" of a problem", "problem")):
    SELECT.update({o + _of: "variable_order::%s(%s)" % (o, _v) for o in ("random", "in_order", "dom", "dom_then_deg", "with_smallest_value", "with_largest_value") if o != "in_order" or not _of})
    SELECT.update({"random (seeded)" + _of: "variable_order::random(%s, 1)" % _v, "dom_wdeg" + _of: "variable_order::dom_wdeg(%s, cv_scheme())" % _v, "in_order_of" + _of: "variable_order::in_order_of(%s, %s)" % (_v, CMP)})


SELECTORS = """
#include <gcs/current_state.hh>
#include <gcs/search_heuristics.hh>
#include <gcs/innards/propagators.hh>
namespace gcs_client
{
    using namespace gcs;
    auto cv_better(const CurrentState & s, const innards::Propagators & p, const IntegerVariableID & a, const IntegerVariableID & b) -> bool;
    auto cv_scheme() -> WeightingScheme;
%s
}
""" % "\n".join("    auto cv_%s(const std::vector<IntegerVariableID> & vars, const Problem & problem, innards::State & state, innards::Propagators & ps, const CurrentState & s, const innards::Propagators & p) -> std::optional<IntegerVariableID> { auto heuristic = %s; auto select = heuristic(problem, state, ps); return select(s, p); }" % (ident(o), t) for o, t in SELECT.items())


def is_var(en, w):
    return same(w, the_var(en))


def _vars(en, st):
    return en.fresh(en.types.parse("std::vector<gcs::IntegerVariableID>"), "vars", st)


def measure(n, w):
    """what is told of any variable, by its representation"""
    ts = [t for p, t in sorted(w.v.lv.items(), key=lambda x: str(x[0]))]
    return z3.Function("measure_" + n, *[t.sort() for t in ts], I)(*ts)


def best(o, a, b):
    """is the first at least as good a choice as the second?"""
    m = lambda n: (measure(n, a), measure(n, b))
    (s, t), (g, h), (l, k), (u, w) = m("size"), m("degree"), m("lower"), m("upper")
    return {"dom": s <= t, "dom_then_deg": Or(s < t, And(s == t, g >= h)), "with_smallest_value": l <= k, "with_largest_value": u >= w}.get(o.partition(" ")[0], TT)


def _selected(o):
    def f(c):
        vs, r = c.a(0), c.r
        out = [("what is selected is the best", Implies(And(r.has, 0 <= JV, JV < vs.n, measure("size", vs[JV]) >= 2), best(o, r.val, vs[JV])))] if o.partition(" ")[0] in ("dom", "dom_then_deg", "with_smallest_value", "with_largest_value") else []
        if o == "in_order":
            out = [("what is selected is the first", Implies(And(r.has, 0 <= JV, JV < vs.n, measure("size", vs[JV]) >= 2), z3.Exists([i_], And(0 <= i_, i_ <= JV, same(vs[i_], r.val)))))]
        return _sound(c) + out
    return f


def _sound(c):
    en, r, vs = c.en, c.r, c.a(0)
    g = the_var(en)
    return [("only a variable with something left to decide is selected", Implies(And(r.has, same(r.val, g)), SIZE >= 2)),
            ("only one of those given is selected", Implies(r.has, z3.Exists([i_], And(0 <= i_, i_ < vs.n, same(vs[i_], r.val))))),
            ("none is selected only if nothing is left to decide of any given", Implies(And(Not(r.has), 0 <= JV, JV < vs.n, same(vs[JV], g)), SIZE < 2))]


def _found(o):
    def f(c):
        vs, k = c.rng(0), c.index
        r = c.v(_local(c, "std::optional<gcs::IntegerVariableID>"))
        return _is_found(c) + [("nothing is found only if there is nothing", Implies(And(Not(r.has), 0 <= JV, JV < k), measure("size", vs[JV]) < 2)), ("what is found is the best so far", Implies(And(r.has, 0 <= JV, JV < k, measure("size", vs[JV]) >= 2), best(o, r.val, vs[JV])))]
    return f


def _is_found(c):
    """one so far"""
    en, vs, k = c.en, c.rng(0), c.index
    g = the_var(en)
    r = c.v(_local(c, "std::optional<gcs::IntegerVariableID>"))
    return [("position in range", And(0 <= k, k <= vs.n)), ("what is found has something left to decide", Implies(And(r.has, same(r.val, g)), SIZE >= 2)),
            ("what is found is one of those so far", Implies(r.has, z3.Exists([i_], And(0 <= i_, i_ < k, same(vs[i_], r.val))))),
            ("nothing is found only if nothing is left to decide of those so far", Implies(And(Not(r.has), 0 <= JV, JV < k, same(vs[JV], g)), SIZE < 2))]


def _passed(c):
    """nothing is left to decide of those so far"""
    en, vs, k = c.en, c.rng(0), c.index
    return [("position in range", And(0 <= k, k <= vs.n)), ("nothing is left to decide of those so far", Implies(And(0 <= JV, JV < k, same(vs[JV], the_var(en))), SIZE < 2)), ("of none of those so far is there anything left to decide", Implies(And(0 <= JV, JV < k), measure("size", vs[JV]) < 2))]


def _feasible(c):
    """those of which something is left to decide"""
    en, vs, k = c.en, c.rng(0), c.index
    g = the_var(en)
    f = c.v(_local(c, "std::vector<gcs::IntegerVariableID>"))
    tag = f.v.lv[("[]", "tag")]
    pat = [z3.Select(tag, j_)]
    return [("position in range", And(0 <= k, k <= vs.n, f.n <= k, f.n >= 0)),
            ("each has something left to decide", ForAll([j_], Implies(And(0 <= j_, j_ < f.n, same(f[j_], g)), SIZE >= 2), patterns=pat)),
            ("each is one of those so far", ForAll([j_], Implies(And(0 <= j_, j_ < f.n), z3.Exists([i_], And(0 <= i_, i_ < k, same(vs[i_], f[j_])))), patterns=pat)),
            ("there are none only if nothing is left to decide of those so far", Implies(And(f.n == 0, 0 <= JV, JV < k, same(vs[JV], g)), SIZE < 2))]


def selector(o):
    inv = {"in_order": _passed, "random": _feasible}.get(o.partition(" ")[0], _found(o))
    return Contract("gcs_client::cv_" + ident(o), name="gcs::variable_order::" + o, requires=lambda c: [("a domain is never empty", And(SIZE >= 1, SIZE <= 2**63 - 1)), ("the size is that of the variable", measure("size", the_var(c.en)) == SIZE), ("there are a number of variables", And(c.a(0).n >= 0, c.a(0).n < 2**59))], ensures=_selected(o),
                    param_values={0: lambda en, st: _const(en, "vars", "std::vector<gcs::IntegerVariableID>").v, **{i: opq for i in range(1, 6)}}, throws=lambda c: {OVF: ("may", TT)}, loops=[LoopContract("variables", inv, decreases=lambda c: c.rng(0).n - c.index)])


def _const(en, n, t):
    """the same value whenever asked"""
    k = "_const_" + n
    if not hasattr(en, k):
        setattr(en, k, en.fresh(en.types.parse(t), n))
    return W(getattr(en, k), en)


def _measured(n, low=-2**63, high=2**63 - 1):
    def hook(en, base, args, st, e):
        def go(s, v):
            s = s.copy()
            r = en.fresh(en.ty(e), "asked", s)
            t = measure(n, wv(en, s, v))
            s.assume(And(W(r, en).t == t, low <= t, t <= high))
            return [(s, r)]
        return en.bind(en.rv(args[0], st), go)
    return hook


def _whatever(en, base, args, st, e):
    s = st.copy()
    return [(s, en.fresh(en.ty(e), "any", s))]


def _nothing(en, base, args, st, e):
    return [(st, VOpaque("opaque"))]


SELECTING = {**BRANCHING, C_ + "domain_size": _measured("size", 1), C_ + "lower_bound": _measured("lower"), C_ + "upper_bound": _measured("upper"), "gcs::innards::Propagators::degree_of": _measured("degree", 0, 2**62), "gcs::Problem::all_normal_variables": lambda en, base, args, st, e: [(st, _const(en, "vars", "std::vector<gcs::IntegerVariableID>").v)], "gcs_client::cv_better": _whatever, "gcs_client::cv_scheme": _whatever, ("fn", "make_shared"): _nothing, "gcs::VariableWeighting::weighted_degree_of": _nothing, "gcs::VariableWeighting::load": _nothing, "gcs::innards::Propagators::add_conflict_observer": _nothing}
SEL_OPAQUE = re.compile(OPAQUE_TYPES.pattern + r"|^(std::)?shared_ptr<(gcs::)?VariableWeighting>$|^(gcs::)?(ClassicDomWDeg|RefinedWeighting|ConflictHistorySearch|VariableWeighting)$")
SELECTED = [selector(o) for o in SELECT]


# ---------------------------------------------------------------- combining them
COMBINE = """
#include <gcs/current_state.hh>
#include <gcs/search_heuristics.hh>
#include <gcs/innards/propagators.hh>
namespace gcs_client
{
    using namespace gcs;
    using Gen = std::generator<IntegerVariableCondition>;
    auto cv_select(const CurrentState & s, const innards::Propagators & p) -> std::optional<IntegerVariableID>;
    auto cv_values(const CurrentState & s, const innards::Propagators & p, const IntegerVariableID & v) -> Gen;
    auto cv_first(const CurrentState & s, const innards::Propagators & p) -> Gen;
    auto cv_second(const CurrentState & s, const innards::Propagators & p) -> Gen;
    auto cv_branch_with(const Problem & problem, innards::State & state, innards::Propagators & ps, const CurrentState & s, const innards::Propagators & p) -> Gen
    {
        auto heuristic = branch_with([](const Problem &, innards::State &, innards::Propagators &) -> BranchVariableSelector {
            return [](const CurrentState & s, const innards::Propagators & p) -> std::optional<IntegerVariableID> { return cv_select(s, p); };
        }, [](const CurrentState & s, const innards::Propagators & p, const IntegerVariableID & v) -> Gen { return cv_values(s, p, v); });
        auto callback = heuristic(problem, state, ps);
        return callback(s, p);
    }
    auto cv_branch_sequence(const Problem & problem, innards::State & state, innards::Propagators & ps, const CurrentState & s, const innards::Propagators & p) -> Gen
    {
        auto heuristic = branch_sequence([](const Problem &, innards::State &, innards::Propagators &) -> BranchCallback {
            return [](const CurrentState & s, const innards::Propagators & p) -> Gen { return cv_first(s, p); };
        }, [](const Problem &, innards::State &, innards::Propagators &) -> BranchCallback {
            return [](const CurrentState & s, const innards::Propagators & p) -> Gen { return cv_second(s, p); };
        });
        auto callback = heuristic(problem, state, ps);
        return callback(s, p);
    }
}
"""


GENS = "std::vector<gcs::IntegerVariableCondition>"
_sel = lambda en: _const(en, "selected", "std::optional<gcs::IntegerVariableID>")
_gen = lambda en, n: _const(en, n, GENS)


def _returns(f):
    return lambda en, base, args, st, e: [(st, f(en).v)]


def _values_of(en, base, args, st, e):
    def go(s, v):
        en.oblige(s, And(_sel(en).has, same(wv(en, s, v), _sel(en).val)), "the values asked for are those of the variable selected", "pre", e)
        return [(s, _gen(en, "values").v)]
    return en.bind(en.rv(args[2], st), go)


def equal_seq(a, b, n=None):
    return And(a.n == b.n if n is None else a.n == n, *[ForAll([i_], Implies(And(0 <= i_, i_ < a.n), z3.Select(t, i_) == z3.Select(b.v.lv[p], i_)), patterns=[z3.Select(t, i_)]) for p, t in a.v.lv.items() if p != ("#",)])


def _wellformed(n):
    return lambda c: [("a generator yields a number of branches", And(*[And(_gen(c.en, x).n >= 0, _gen(c.en, x).n < 2**59) for x in n]))]


def _copied(g):
    def inv(c):
        w, y = _gen(c.en, g), c.v("co_yield")
        it = [x for x in (c.st.names[n] for n in c.st.names) if isinstance(x, LV) and isinstance(c.en.read(c.st, x), VIter)]
        ks = [c.en.read(c.st, x) for x in it]
        k = ks[-1].idx
        return [("position in range", And(0 <= k, k <= w.n)), ("what has been yielded so far", equal_seq(y, w, k))]
    return LoopContract(g, inv)


COMBINED = [Contract("gcs_client::cv_branch_with", name="gcs::branch_with", requires=_wellformed(["values"]), ensures=lambda c: [("no branches if no variable is selected", Implies(Not(_sel(c.en).has), c.r.n == 0)), ("the branches are those of the values of the variable selected", Implies(_sel(c.en).has, equal_seq(c.r, _gen(c.en, "values"))))],
                     param_values={i: opq for i in range(5)}),
            Contract("gcs_client::cv_branch_sequence", name="gcs::branch_sequence", requires=_wellformed(["first", "second"]), ensures=lambda c: [("the branches are the first's, or else the second's", If(_gen(c.en, "first").n > 0, equal_seq(c.r, _gen(c.en, "first")), equal_seq(c.r, _gen(c.en, "second"))))],
                     param_values={i: opq for i in range(5)}, loops=[_copied("first"), _copied("second")])]
COMBINING = {"gcs_client::cv_select": _returns(_sel), "gcs_client::cv_values": _values_of, "gcs_client::cv_first": _returns(lambda en: _gen(en, "first")), "gcs_client::cv_second": _returns(lambda en: _gen(en, "second"))}


# ---------------------------------------------------------------- what CurrentState tells of a variable
S_ = "gcs::innards::State::"
NOT_UNIQUE = "gcs::VariableDoesNotHaveUniqueValue"


def _holds(en, base, args, st, e):
    def go(s, vs):
        s = s.copy()
        r = en.fresh(en.ty(e), "asked", s)
        s.assume(Implies(is_var(en, wv(en, s, vs[0])), W(r, en).t == D(wv(en, s, vs[1]).t)))
        return [(s, r)]
    return en.bind(en.rvs(args[:2], st), go)


def _one_value(en, base, args, st, e):
    def go(s, v):
        s, bad = s.copy(), s.copy()
        g = is_var(en, wv(en, s, v))
        r = en.fresh(en.ty(e), "asked", s)
        s.assume(Implies(g, And(SIZE == 1, W(r, en).t == LOW)))
        bad.assume(Implies(g, SIZE != 1))
        return [(s, r), (bad, Raise(NOT_UNIQUE, "no single value"))]
    return en.bind(en.rv(args[0], st), go)


def _set_all(up):
    def f(en, st, e, a):
        r = en.fresh(en.ty(e), "each", st)
        q, at = W(r, en), z3.Function(fresh_name("position"), I, I)
        st.assume(And(q.n >= 0, ForAll([i_], Implies(And(0 <= i_, i_ < q.n), a.t[q[i_].t]), patterns=[q[i_].t]), ForAll([i_, j_], Implies(And(0 <= i_, i_ < j_, j_ < q.n), q[i_].t < q[j_].t if up else q[i_].t > q[j_].t), patterns=[z3.MultiPattern(q[i_].t, q[j_].t)]),
                      ForAll([x_], Implies(a.t[x_], And(0 <= at(x_), at(x_) < q.n, q[at(x_)].t == x_)), patterns=[a.t[x_]])))
        en._at = at
        return r
    return f


def _unordered(en, base, args, st, e):
    """each value once, but a negated view's the other way round"""
    def go(s, v):
        s = s.copy()
        r = en.fresh(en.ty(e), "asked", s)
        w = wv(en, s, v)
        up = z3.Bool(fresh_name("ascending"))
        s.assume(Implies(is_var(en, w), If(up, listed(True)(W(r, en)), listed(False)(W(r, en)))))
        return [(s, r)]
    return en.bind(en.rv(args[0], st), go)


CURRENT = {S_ + "lower_bound": _ask(lambda r: r.t == LOW), S_ + "upper_bound": _ask(lambda r: r.t == HIGH), S_ + "domain_size": _ask(lambda r: r.t == SIZE), S_ + "has_single_value": _ask(lambda r: r.t == (SIZE == 1)), S_ + "in_domain": _holds,
           S_ + "copy_of_values": _ask(lambda r: ForAll([x_], r.t[x_] == D(x_), patterns=[r.t[x_]])), S_ + "operator()": _one_value, S_ + "bounds": _ask(lambda r: And(r.at(0).t == LOW, r.at(1).t == HIGH)),
           S_ + "each_value_mutable": _unordered, S_ + "each_value_immutable": _unordered, "gcs::IntervalSet::each": on_set(_set_all(True)), "gcs::IntervalSet::each_reversed": on_set(_set_all(False)), "gcs::IntervalSet::contains": SETS["contains"], "gcs::IntervalSet::lower": SETS["lower"], "gcs::IntervalSet::upper": SETS["upper"], "gcs::IntervalSet::empty": SETS["empty"]}
some = lambda: And(D(LOW), D(HIGH), LOW <= HIGH, SIZE >= 1, (SIZE == 1) == (LOW == HIGH), ForAll([x_], Implies(D(x_), And(LOW <= x_, x_ <= HIGH)), patterns=[D(x_)]))


def told(name, ens, params=None, **kw):
    return Contract(C_ + name, params=params, requires=lambda c: [("a domain is never empty", some())], ensures=lambda c: ens(c), param_values={0: _var, **kw.pop("pv", {})}, **kw)


def _copied_set(up):
    """the values so far, as listed"""
    def inv(c):
        a, k, y = c.rng(0), c.index, c.v("co_yield")
        return [("position in range", And(0 <= k, k <= a.n)), ("the values so far", And(y.n == k, ForAll([i_], Implies(And(0 <= i_, i_ < k), y[i_].t == a[i_].t), patterns=[y[i_].t])))]
    return [LoopContract("values", inv)]


def _lists(up):
    def f(c):
        r, at = c.r, getattr(c.en, "_at", AT_)
        in_ = lambda i: And(0 <= i, i < r.n)
        return [("only remaining values", Implies(in_(I0), D(r[I0].t))), ("in order", Implies(And(in_(I0), in_(J0), I0 < J0), r[I0].t < r[J0].t if up else r[I0].t > r[J0].t)),
                ("each remaining value", Implies(D(X0), Or(*[And(in_(f(X0)), r[f(X0)].t == X0) for f in (at, AT_)])))]
    return f


VALUE_OF = told("operator()", lambda c: [("the value", And(SIZE == 1, c.r.t == LOW))], select=lambda en, d: "vector" not in d["type"]["qualType"].partition("(")[2], throws=lambda c: {NOT_UNIQUE: SIZE != 1})


def _values_far(c):
    """the values so far are those of the variables"""
    vs, k, out = c.rng(0), c.index, c.v(_local(c, "std::vector<gcs::Integer>"))
    return [("position in range", And(0 <= k, k <= vs.n)), ("a value for each so far", out.n == k), ("each the value of its variable", Implies(And(0 <= JV, JV < k, is_var(c.en, vs[JV])), And(SIZE == 1, out[JV].t == LOW)))]


VALUES_OF = Contract(C_ + "operator()", name="gcs::CurrentState::operator() (several)", select=lambda en, d: "vector" in d["type"]["qualType"].partition("(")[2], requires=lambda c: [("a domain is never empty", some())], param_values={0: _vars}, throws=lambda c: {NOT_UNIQUE: ("may", TT)},
                     ensures=lambda c: [("a value for each", c.r.n == c.a(0).n), ("each the value of its variable", Implies(And(0 <= JV, JV < c.r.n, is_var(c.en, c.a(0)[JV])), And(SIZE == 1, c.r[JV].t == LOW)))],
                     loops=[LoopContract("variables", _values_far, decreases=lambda c: c.rng(0).n - c.index)])
TOLD = [told("lower_bound", lambda c: [("the least", c.r.t == LOW)]), told("upper_bound", lambda c: [("the greatest", c.r.t == HIGH)]), told("domain_size", lambda c: [("how many", c.r.t == SIZE)]),
        told("has_single_value", lambda c: [("whether one is left", c.r.t == (SIZE == 1))]), told("in_domain", lambda c: [("whether it is left", c.r.t == D(c.a(1).t))]),
        told("copy_of_values", lambda c: [("the values left", c.r.t[X0] == D(X0))]), VALUE_OF, VALUES_OF,
        told("each_value", _lists(True), loops=_copied_set(True)), told("each_value_reversed", _lists(False), loops=_copied_set(False))]
CUR_OPAQUE = re.compile(OPAQUE_TYPES.pattern + r"|^(const )?(gcs::innards::)?State$|^(std::)?unique_ptr<(gcs::innards::)?State.*$")


# ---------------------------------------------------------------- weights, kept as conflicts happen and read while searching
def _asked(low):
    """the size of the domain of a variable, at least low"""
    return _measured("size", low)


def _one_left(low):
    """asks for the bounds, of which an empty domain has none"""
    def hook(en, base, args, st, e):
        def go(s, v):
            s = s.copy()
            t = measure("size", wv(en, s, v))
            s.assume(t >= low)
            en.oblige(s, t >= 1, "a domain asked for its bounds is not empty", "pre", e)
            r = en.fresh(en.ty(e), "single", s)
            s.assume(W(r, en).t == (t == 1))
            return [(s, r)]
        return en.bind(en.rv(args[0], st), go)
    return hook


def _weights(low):
    one = _one_left(low)
    return {S_ + "has_single_value": one, C_ + "has_single_value": one, S_ + "domain_size": _asked(low), C_ + "domain_size": _asked(low), S_ + "lower_bound": one, S_ + "upper_bound": one}


def _position(c):
    return [("position in range", And(0 <= c.index, c.index <= c.rng(len([n for n in c.st.names if n.startswith("__range")]) and 0).n))]


def _scope(en, st):
    return en.fresh(en.types.parse("std::vector<gcs::SimpleIntegerVariableID>"), "scope", st)


def _counted(k):
    def inv(c):
        a, n = c.rng(k), c.index
        return [("position in range", And(0 <= n, n <= a.n)), ("no more than there are", And(0 <= c.v("futures").t, c.v("futures").t <= n))] if k == 0 else [("position in range", And(0 <= n, n <= a.n))]
    return LoopContract("scope", inv)


NOTED = [Contract("gcs::RefinedWeighting::note_conflict", requires=lambda c: [("there are a number of variables", And(c.a(1).n >= 0, c.a(1).n < 2**59)), ("the constraint is one of those there", And(0 <= c.a(0).t, c.a(0).t < c.this._local_weights.n, c.this._local_weights.n < 2**59))], ensures=lambda c: [], param_values={1: _scope, 2: opq, 3: opq}, modifies=["this"], loops=[_counted(0), _counted(1)])]
WEIGHT_OPAQUE = re.compile(OPAQUE_TYPES.pattern + r"|^(std::)?(unordered_)?map<.*$")
