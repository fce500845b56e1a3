"""Contracts of State: the domains of the variables, and how they change."""
from contracts.iset import *
from contracts.common import UNEXP

ST = "gcs::innards::State::"
INF = "gcs::innards::Inference"
LIS = "gcs::innards::LiteralIs"
INVALID = "gcs::InvalidProblemDefinitionException"
NONEX = "gcs::innards::NonExhaustiveSwitch"
inf = lambda c, n: c.enum(INF, n)


class Doms:
    """the domains a state holds"""

    def __init__(self, w):
        self.imp = w._imp.val
        self.ok = w._imp.has
        self.stack = self.imp.integer_variable_states
        self.top = self.stack[self.stack.n - 1]
        self.n = self.stack.n

    def set(self, i):
        return Seq(self.top[i].intervals)


D = lambda w: Doms(w)


def shape(w):
    d = D(w)
    return [("the state is there", d.ok), ("there is an epoch", d.n >= 1), ("as many epochs of constraint states", d.imp.constraint_states.n == d.n), ("as many epochs of callbacks", d.imp.on_backtracks.n == d.n)]


def has_var(w, i):
    d = D(w)
    s = d.set(i)
    return [("the variable exists", And(0 <= i, i < d.top.n)), ("its domain is not empty", s.n > 0)] + s.wf()


def frame(w, x, i):
    """only the domain of variable i changes"""
    return frame_but(w, x, i)


def frame_but(w, x, i, *drop):
    """only the domain of variable i changes, and perhaps the parts dropped"""
    a, b = w._imp.v.lv, x._imp.v.lv
    out = []
    k = D(w).n - 1
    P = ("*", "integer_variable_states", "[]")
    for p in a:
        if any(p[:len(q)] == q for q in drop):
            continue
        if p[:3] == P and p[3] == "[]":
            new = z3.Select(z3.Select(b[p], k), i)
            out.append(b[p] == z3.Store(a[p], k, z3.Store(z3.Select(a[p], k), i, new)))
        else:
            out.append(a[p] == b[p])
    return And(*out)


def idx(w):
    return w.fld(0).t


def changed(c, a, b, cond, r):
    """what an inference reports about the domain a it has restricted by cond to b"""
    C = lambda *ns: Or(*[r == inf(c, n) for n in ns])
    y = z3.Int("y!c")
    allsat = ForAll([y], Implies(a.has(y), cond(y)), patterns=[a.has(y)])
    return [("a contradiction is reported exactly if no value of the domain satisfies the condition", C("Contradiction") == ForAll([y], Implies(a.has(y), Not(cond(y))), patterns=[a.has(y)])),
            ("otherwise exactly the values satisfying it remain", Implies(Not(C("Contradiction")), same(b, a, lambda x, m: And(m, cond(x))))),
            ("and there are some", Or(C("Contradiction"), b.n > 0)),
            ("no change is reported exactly if every value satisfies it", C("NoChange") == allsat),
            ("a single value left is reported as such", Implies(Not(C("Contradiction", "NoChange")), C("Instantiated") == (b.L(I0) == b.H(b.n - 1)))),
            ("a change of bounds is reported exactly if a bound changes", Implies(Not(C("Contradiction", "NoChange", "Instantiated")), C("BoundsChanged") == Or(b.L(I0) != a.L(I0), b.H(b.n - 1) != a.H(a.n - 1)))),
            ("the report is one of the kinds", C("NoChange", "BoundsChanged", "InteriorValuesChanged", "Instantiated", "Contradiction"))] + b.wf()


def ends(s):
    """the first and last members (instances of the definition)"""
    return [wit(s, I0, s.L(I0)), wit(s, s.n - 1, s.H(s.n - 1))]


def _change(name, cond, n=1, thr=None):
    def ens(c):
        i = idx(c.a(0))
        f = lambda y: cond(y, *[c.a(k + 1).t for k in range(n)])
        return changed(c, D(c.this).set(i), D(c.this_x).set(i), f, c.r.t) + [("nothing else changes", frame(c.this, c.this_x, i))]
    return Contract(ST + "change_state_for_" + name, modifies=["this"], requires=lambda c: shape(c.this) + has_var(c.this, idx(c.a(0))), throws=thr and (lambda c: {OVF: thr(c)}), strong=True,
                    facts=lambda c: DEFS + ends(D(c.this).set(idx(c.a(0)))) + ranges(D(c.this).set(idx(c.a(0)))), exit_facts=lambda c: ends(D(c.this_x).set(idx(c.a(0)))), ensures=ens)


ch_eq = _change("equal", lambda y, v: y == v)
ch_ne = _change("not_equal", lambda y, v: y != v)
ch_lt = _change("less_than", lambda y, v: y < v, thr=lambda c: c.a(1).t == MIN)
ch_ge = _change("greater_than_or_equal", lambda y, v: y >= v)
ch_nin = _change("not_in_range", lambda y, l, u: Not(And(l <= y, y <= u)), 2)
ch_in = _change("in_range", lambda y, l, u: And(l <= y, y <= u), 2)
CHANGE = [ch_eq, ch_ne, ch_lt, ch_ge, ch_nin, ch_in]


# ---- variable ids: a variable of the state, seen directly or through a view, or a constant
FALSE, ZERO = z3.BoolVal(False), z3.IntVal(0)


class Id:
    """a variable id of a known kind: a constant k, or a view of variable i (const: None or the variable's index)"""

    def __init__(self, w, guard=None, name=""):
        self.guard, self.name = guard, name
        kind = w.ty.a[0].rpartition("::")[2]
        self.const, self.k, self.i, self.neg, self.add = kind == "ConstantIntegerVariableID", ZERO, ZERO, FALSE, ZERO
        if self.const:
            self.k = w.fld(0).t
        elif kind == "SimpleIntegerVariableID":
            self.i = w.fld(0).t
        elif kind == "ViewOfIntegerVariableID":
            self.i, self.neg, self.add = w.fld(0).fld(0).t, w.fld(1).t, w.fld(2).t
        else:
            raise Unsupported("variable id " + kind)

    def when(self, f):
        return f if self.guard is None else Implies(self.guard, f)

    def val(self, y):
        """the value of the view when the variable has value y"""
        return y if z3.is_false(self.neg) else If(self.neg, -y, y) + self.add

    def raw(self, v):
        """the value of the variable for which the view has value v"""
        return v if z3.is_false(self.neg) else If(self.neg, self.add - v, v - self.add)

    def clauses(self, cs):
        """clauses that hold if the id is of this kind"""
        return [(self.name + n, self.when(f)) for n, f in cs]


def ids(w):
    """the id, for each kind it may be"""
    if w.ty.k == "variant":
        short = {"Cons": "for a constant: ", "View": "for a view: ", "Simp": "for a variable: "}
        return [Id(w.alt(i), w.tag == i, short[t.a[0].rpartition("::")[2][:4]]) for i, t in enumerate(w.ty.a)]
    return [Id(w)]


def per_id(w, f):
    return [cl for x in ids(w) for cl in x.clauses(f(x))]


def has_id(st, w):
    """the variable of the id is one of the state's"""
    return per_id(w, lambda x: [] if x.const else has_var(st, x.i))


def id_facts(st, w):
    """the ends of its domain are members (instances of the definition)"""
    return [f for x in ids(w) if not x.const for f in ends(D(st).set(x.i)) + ranges(D(st).set(x.i))]


def unrep(w, *vs):
    """what the overflow check may reject: values which, seen from the variable's side, are not all representable"""
    def one(x):
        f = Or(*[Or(And(x.neg, v == MIN), Not(And(fits(x.raw(v) - 1), fits(x.raw(v) + 1)))) for v in vs])
        return FALSE if x.const else f if x.guard is None else And(x.guard, f)
    return Or(*[one(x) for x in ids(w)])


def all_same(w, x):
    return And(*[x._imp.v.lv[p] == t for p, t in w._imp.v.lv.items()])


def restricted(c, w, cond, r):
    """ensures of an inference: the domain of the variable is restricted to the values for which the condition holds of the id's value"""
    def one(x):
        if x.const:
            return [("nothing changes", all_same(c.this, c.this_x)), ("a contradiction exactly if the condition does not hold, otherwise no change", r == If(cond(x.k), inf(c, "NoChange"), inf(c, "Contradiction")))]
        return changed(c, D(c.this).set(x.i), D(c.this_x).set(x.i), lambda y: cond(x.val(y)), r) + [("nothing but the domain of the variable changes", frame(c.this, c.this_x, x.i))]
    return per_id(w, one)


KINDS = ["SimpleIntegerVariableID", "ViewOfIntegerVariableID", "ConstantIntegerVariableID", "variant"]


def _infer(name, cond, n=1):
    out = []
    for k in KINDS:
        args = lambda c: [c.a(j + 1).t for j in range(n)]
        out.append(Contract(ST + "infer_" + name, [k] + ["Integer"] * n, name="State::infer_%s(%s)" % (name, k), modifies=["this"], requires=lambda c: shape(c.this) + has_id(c.this, c.a(0)),
                            throws=lambda c: {OVF: ("may", unrep(c.a(0), *args(c)))}, strong=True, facts=lambda c: DEFS + id_facts(c.this, c.a(0)),
                            ensures=lambda c: restricted(c, c.a(0), lambda z: cond(z, *args(c)), c.r.t)))
    return out


OPS = [("Equal", "equal", lambda z, v, u: z == v), ("NotEqual", "not_equal", lambda z, v, u: z != v), ("Less", "less_than", lambda z, v, u: z < v), ("GreaterEqual", "greater_than_or_equal", lambda z, v, u: z >= v),
       ("InRange", "in_range", lambda z, v, u: And(v <= z, z <= u)), ("NotInRange", "not_in_range", lambda z, v, u: Not(And(v <= z, z <= u)))]
INFER = []
for _n, _f, _c in OPS:
    INFER += _infer(_f, _c, 2) if "Range" in _n else _infer(_f, lambda z, v, _c=_c: _c(z, v, v), 1)


def opcond(c, w):
    """the condition a VariableConditionFrom denotes, of the value of its variable"""
    op, v, u = w.op.t, w.value.t, w.upper_value.t
    e = lambda n: op == c.enum("gcs::VariableConditionOperator", n)

    def f(z):
        out = FALSE
        for n, _, g in OPS:
            out = If(e(n), g(z, v, u), out)
        return out
    return f


def valid_op(c, w):
    return Or(*[w.op.t == c.enum("gcs::VariableConditionOperator", n) for n, _, g in OPS])


def cond_unrep(c, w):
    rng = Or(*[w.op.t == c.enum("gcs::VariableConditionOperator", n) for n in ("InRange", "NotInRange")])
    return Or(unrep(w.var, w.value.t), And(rng, unrep(w.var, w.upper_value.t)))


_condof = lambda k: (lambda en, d: k in d["_params"][0]["type"]["qualType"])


def _of(kind):
    """the instantiation for conditions on this kind of id"""
    def sel(en, d):
        t = en.types.node([p for p in d["inner"] if p.get("kind") == "ParmVarDecl"][0])
        if t.k != "rec" or not t.a[0].startswith("gcs::VariableConditionFrom<"):
            return False
        v = en.types.fields(t)[0][1]
        return v.k == "variant" if kind == "variant" else v.k == "rec" and v.a[0].endswith("::" + kind)
    return sel


infer_cond = [Contract(ST + "infer", select=_of(k), name="State::infer(condition on %s)" % k, modifies=["this"], requires=lambda c: shape(c.this) + has_id(c.this, c.a(0).var), strong=True,
                       throws=lambda c: {NONEX: Not(valid_op(c, c.a(0))), OVF: ("may", And(valid_op(c, c.a(0)), cond_unrep(c, c.a(0))))}, facts=lambda c: DEFS,
                       ensures=lambda c: restricted(c, c.a(0).var, opcond(c, c.a(0)), c.r.t)) for k in KINDS]


def lit_parts(w):
    i = next(k for k, t in enumerate(w.ty.a) if t.a[0].startswith("gcs::VariableConditionFrom"))
    return w.tag == i, w.tag == w.alt_of("TrueLiteral"), w.tag == w.alt_of("FalseLiteral"), w.alt(i)


def lit_restricted(c, w, r):
    ic, it, if_, cond = lit_parts(w)
    return ([("for a condition: " + n, Implies(ic, f)) for n, f in restricted(c, cond.var, opcond(c, cond), r)] +
            [("the true literal changes nothing", Implies(it, And(r == inf(c, "NoChange"), all_same(c.this, c.this_x)))), ("the false literal is a contradiction", Implies(if_, And(r == inf(c, "Contradiction"), all_same(c.this, c.this_x))))])


def lit_req(st, w):
    ic, it, if_, cond = lit_parts(w)
    return [("for a condition: " + n, Implies(ic, f)) for n, f in has_id(st, cond.var)]


def lit_throws(c, w):
    ic, it, if_, cond = lit_parts(w)
    return {NONEX: And(ic, Not(valid_op(c, cond))), OVF: ("may", And(ic, valid_op(c, cond), cond_unrep(c, cond)))}


infer_lit = Contract(ST + "infer", ["variant"], name="State::infer(Literal)", modifies=["this"], requires=lambda c: shape(c.this) + lit_req(c.this, c.a(0)), strong=True, throws=lambda c: lit_throws(c, c.a(0)), facts=lambda c: DEFS,
                     ensures=lambda c: lit_restricted(c, c.a(0), c.r.t))



# ---- queries
class Dom:
    """the values an id may take: those of the view of the members of a set, or the constant"""

    def __init__(self, st, x):
        self.x = x
        self.s = None if x.const else D(st).set(x.i)

    def has(self, z):
        return z == self.x.k if self.x.const else self.s.has(self.x.raw(z))

    def all(self, f):
        """for every value in it"""
        if self.x.const:
            return f(self.x.k)
        y = z3.Int("y!q")
        return ForAll([y], Implies(self.s.has(y), f(self.x.val(y))), patterns=[self.s.has(y)])

    def ends(self):
        """what the variable's least and greatest values are as values of the view (the least first)"""
        if self.x.const:
            return self.x.k, self.x.k
        l, h = self.s.L(I0), self.s.H(self.s.n - 1)
        return If(self.x.neg, self.x.val(h), self.x.val(l)), If(self.x.neg, self.x.val(l), self.x.val(h))

    def single(self):
        if self.x.const:
            return z3.BoolVal(True)
        return self.s.L(I0) == self.s.H(self.s.n - 1)

    def unrep(self, lo=True, hi=True):
        """an end the overflow check may reject"""
        if self.x.const:
            return FALSE
        l, h = self.s.L(I0), self.s.H(self.s.n - 1)
        one = lambda e: Or(And(self.x.neg, e == MIN), Not(fits(self.x.val(e))))
        lower, upper = If(self.x.neg, one(h), one(l)), If(self.x.neg, one(l), one(h))
        return Or(*([lower] if lo else []) + ([upper] if hi else []))

    def equals(self, what, has):
        """has(z) holds for exactly the values in it"""
        z = z3.Int("z!q")
        return [(what + " every value in the domain", self.all(has)), (what + " no other value", ForAll([z], Implies(has(z), self.has(z)), patterns=[has(z)]))]


def exactly(c, w, f):
    return Or(*[f(x) if x.guard is None else And(x.guard, f(x)) for x in ids(w)])


def doms(st, w, f):
    """clauses about the domain of an id, for each kind it may be of"""
    return per_id(w, lambda x: f(Dom(st, x)))


qreq = lambda c: shape(c.this) + has_id(c.this, c.a(0))
qfacts = lambda c: DEFS + id_facts(c.this, c.a(0))


def _query(name, ens, thr=None, kinds=KINDS, args=(), facts=None, **kw):
    return [Contract(ST + name, [k] + list(args), name="State::%s(%s)" % (name, k), requires=kw.get("req", qreq), facts=facts or qfacts, throws=thr and (lambda c: {OVF: ("may", thr(c))}),
                     ensures=lambda c: doms(c.this, c.a(0), lambda d: ens(c, d)), **{k: v for k, v in kw.items() if k != "req"}) for k in kinds]


def raw_unrep(x, v):
    return FALSE if x.const else Or(And(x.neg, v == MIN), Not(fits(x.raw(v))))


VAR = ["variant"]
in_domain = _query("in_domain", lambda c, d: [("true exactly for the values in the domain", c.r.t == d.has(c.a(1).t))], lambda c: exactly(c, c.a(0), lambda x: raw_unrep(x, c.a(1).t)), args=["Integer"])
lower_bound = _query("lower_bound", lambda c, d: [("in the domain", d.has(c.r.t)), ("the least value in the domain", d.all(lambda z: c.r.t <= z)), ("the least end", c.r.t == d.ends()[0])], lambda c: exactly(c, c.a(0), lambda x: Dom(c.this, x).unrep(True, False)), VAR)
upper_bound = _query("upper_bound", lambda c, d: [("in the domain", d.has(c.r.t)), ("the greatest value in the domain", d.all(lambda z: c.r.t >= z)), ("the greatest end", c.r.t == d.ends()[1])], lambda c: exactly(c, c.a(0), lambda x: Dom(c.this, x).unrep(False, True)), VAR)
bounds = _query("bounds", lambda c, d: [("in the domain", And(d.has(c.r.at(0).t), d.has(c.r.at(1).t))), ("the least and the greatest value in the domain", d.all(lambda z: And(c.r.at(0).t <= z, z <= c.r.at(1).t)))],
                lambda c: exactly(c, c.a(0), lambda x: Dom(c.this, x).unrep()))
opt_single = _query("optional_single_value", lambda c, d: [("a value exactly if all in the domain are the same", c.r.has == d.single()), ("and then that value", Implies(c.r.has, And(d.has(c.r.val.t), d.all(lambda z: z == c.r.val.t))))], lambda c: exactly(c, c.a(0), lambda x: And(Dom(c.this, x).single(), Dom(c.this, x).unrep())))
has_single = _query("has_single_value", lambda c, d: [("true exactly if the ends of the domain coincide", c.r.t == d.single())], None, VAR)
has_holes_ = _query("domain_has_holes", lambda c, d: [("true exactly if a value between two of the domain is missing", c.r.t == (FALSE if d.x.const else holes(d.s)))], None, VAR)
dsize = _query("domain_size", lambda c, d: [("the number of values in the domain", c.r.t == (1 if d.x.const else SUM(d.s.lo, d.s.hi, d.s.n)))], lambda c: exactly(c, c.a(0), lambda x: FALSE if x.const else SUM(D(c.this).set(x.i).lo, D(c.this).set(x.i).hi, D(c.this).set(x.i).n) > MAX), ["SimpleIntegerVariableID", "variant"])
QUERY = in_domain + lower_bound + upper_bound + bounds + opt_single + has_single + has_holes_ + dsize



# ---- copies, intersections and iteration
def ends_unrep(c, w):
    return exactly(c, w, lambda x: Dom(c.this, x).unrep())


def _copy_loops():
    def raw(c):
        return Seq(c.v("raw").intervals)

    def each_inv(c):
        a, y = raw(c), Seq(c.v("intervals"))
        return [("index in range", And(0 <= c.index, c.index <= a.n)), ("the intervals passed, in order", And(y.n == c.index, a.all(lambda i: And(y.L(i) == a.L(i), y.H(i) == a.H(i)), 0, c.index)))]

    def moved(c, a, lo, hi, sign):
        """the result so far holds exactly the images of the members in the intervals [lo, hi) of a"""
        r, add = Seq(c.v("result").intervals), c.v("then_add").t
        z = z3.Int("z!m")
        inside = (lambda y: And(a.has(y, hi), Not(a.has(y, lo)))) if not z3.is_int_value(lo) else (lambda y: a.has(y, hi))
        back = (lambda z: add - z) if sign < 0 else (lambda z: z - add)
        return ForAll([z], r.has(z) == inside(back(z)), patterns=[r.has(z)])

    def rev_inv(c):
        a, y, b = raw(c), Seq(c.v("intervals")), c.v("it").idx
        r, add = Seq(c.v("result").intervals), c.v("then_add").t
        return [("position in range", And(0 <= b, b <= a.n)), ("exactly the images of the intervals passed", moved(c, a, b, a.n, -1)),
                ("all below what is to come", Implies(And(r.n > 0, b > 0), r.H(r.n - 1) <= add - a.H(b - 1)))] + r.wf()

    def fwd_inv(c):
        a, k = raw(c), c.index
        r, add = Seq(c.v("result").intervals), c.v("then_add").t
        return [("position in range", And(0 <= k, k <= a.n)), ("exactly the images of the intervals passed", moved(c, a, ZERO, k, 1)), ("all below what is to come", Implies(And(r.n > 0, k < a.n), r.H(r.n - 1) <= a.L(k) + add))] + r.wf()
    return [LoopContract("gather", each_inv, decreases=lambda c: raw(c).n - c.index),
            LoopContract("reversed", rev_inv, facts=lambda c: steps(raw(c), c.v("it").idx - 1), step_facts=lambda c: ends(Seq(c.v("result").intervals)), decreases=lambda c: c.v("it").idx),
            LoopContract("forward", fwd_inv, facts=lambda c: steps(raw(c), c.index), step_facts=lambda c: ends(Seq(c.v("result").intervals)), decreases=lambda c: raw(c).n - c.index)]


def copied(c, d):
    r = Seq(c.r.intervals)
    return d.equals("holds", r.has) + r.wf()


copy_of = _query("copy_of_values", copied, lambda c: ends_unrep(c, c.a(0)), loops=_copy_loops(), facts=lambda c: qfacts(c) + PUSH)



def meets(d1, has):
    """some value in the domain has the property"""
    return Not(d1.all(lambda z: Not(has(z))))


intersects_with = [Contract(ST + "domain_intersects_with", [k, "IntervalSet"], name="State::domain_intersects_with(%s)" % k, requires=lambda c: qreq(c) + [("the set: " + n, f) for n, f in S(c.a(1)).wf()], facts=lambda c: qfacts(c) + ranges(S(c.a(1))),
                            throws=lambda c: {OVF: ("may", ends_unrep(c, c.a(0)))},
                            ensures=lambda c: doms(c.this, c.a(0), lambda d: [("true exactly if some value in the domain is in the set", c.r.t == meets(d, S(c.a(1)).has))])) for k in KINDS]


def _both(c):
    out = []
    for x in ids(c.a(0)):
        for y in ids(c.a(1)):
            d, e = Dom(c.this, x), Dom(c.this, y)
            out.append(("true exactly if some value is in both domains (%s / %s)" % (x.name.strip(": "), y.name.strip(": ")), Implies(And(x.guard, y.guard), c.r.t == (meets(e, d.has) if x.const else meets(d, e.has)))))
    return out


def _both_unrep(c):
    """an end of either domain, or a constant seen from the other's side"""
    out = [ends_unrep(c, c.a(0)), ends_unrep(c, c.a(1))]
    for a, b in ((c.a(0), c.a(1)), (c.a(1), c.a(0))):
        out += [And(x.guard, y.guard, raw_unrep(y, x.k)) for x in ids(a) if x.const for y in ids(b) if not y.const]
    return Or(*out)


domains_intersect = Contract(ST + "domains_intersect", requires=lambda c: shape(c.this) + has_id(c.this, c.a(0)) + [("the other: " + n, f) for n, f in has_id(c.this, c.a(1))],
                             facts=lambda c: DEFS + id_facts(c.this, c.a(0)) + id_facts(c.this, c.a(1)), throws=lambda c: {OVF: ("may", _both_unrep(c))}, ensures=_both)


# ---- iteration
def yielded(c, d):
    y = Seq(c.r)
    mono = lambda sign: y.increasing(sign)
    return d.equals("yields", y.yd) + [("one value for a constant", y.n == 1) if d.x.const else ("in order, reversed by a negated view", If(d.x.neg, mono(-1), mono(1)))]


def _values_loop():
    def inv(c):
        a, y, k = c.rng(0), Seq(c.v("co_yield")), c.index
        g, i = Seq(a), z3.Int("i!v")
        return ([("position in range", And(0 <= k, k <= g.n)), ("one value for each passed", y.n == k)] +
                per_id(c.p(0), lambda x: [] if x.const else [("the values passed as seen through the view", ForAll([i], Implies(And(0 <= i, i < k), y.Y(i) == x.val(g.Y(i))), patterns=[y.Y(i), g.Y(i)])), ("all of them are yielded", ForAll([i], Implies(g.yd(i, k), y.yd(x.val(i))), patterns=[g.yd(i, k)]))]))
    return [LoopContract("values", inv, facts=lambda c: [Implies(And(0 <= c.index, c.index < c.rng(0).n), Seq(c.rng(0)).yd(Seq(c.rng(0)).Y(c.index))), ystep(Seq(c.rng(0)), c.index)], decreases=lambda c: c.rng(0).n - c.index)]


each_value = [k for n, b in (("each_value_immutable", ("this",)), ("each_value_mutable", ())) for k in _query(n, yielded, lambda c: ends_unrep(c, c.a(0)), loops=_values_loop(), facts=lambda c: qfacts(c) + PUSH, borrows=b)]


# ---- the value of a variable, literals, new variables, guesses
NOVALUE = "gcs::VariableDoesNotHaveUniqueValue"


def _single_throws(c):
    return {NOVALUE: exactly(c, c.a(0), lambda x: Not(Dom(c.this, x).single())), OVF: ("may", exactly(c, c.a(0), lambda x: And(Dom(c.this, x).single(), Dom(c.this, x).unrep())))}


value_of = Contract(ST + "operator()", ["variant"], requires=qreq, facts=qfacts, throws=_single_throws, ensures=lambda c: doms(c.this, c.a(0), lambda d: [("the only value in the domain", And(d.has(c.r.t), d.all(lambda z: z == c.r.t)))]))
LIT = lambda c, n: c.enum(LIS, n)


def tested(c, st, cond, r):
    f = opcond(c, cond)
    return doms(st, cond.var, lambda d: [("definitely true exactly if every value in the domain satisfies the condition", (r == LIT(c, "DefinitelyTrue")) == d.all(f)),
                                         ("definitely false exactly if no value in the domain satisfies the condition", (r == LIT(c, "DefinitelyFalse")) == d.all(lambda z: Not(f(z)))),
                                         ("one of the three answers", Or(*[r == LIT(c, n) for n in ("DefinitelyTrue", "DefinitelyFalse", "Undecided")]))])


def range_ok(c, w):
    rng = Or(*[w.op.t == c.enum("gcs::VariableConditionOperator", n) for n in ("InRange", "NotInRange")])
    return Implies(rng, w.value.t <= w.upper_value.t)


def test_unrep(c, w):
    return Or(cond_unrep(c, w), ends_unrep_of(c, w.var))


def ends_unrep_of(c, w):
    return exactly(c, w, lambda x: Dom(c.this, x).unrep())


test_cond = Contract(ST + "test_literal", select=_of("variant"), name="State::test_literal(condition)", requires=lambda c: shape(c.this) + has_id(c.this, c.a(0).var) + [("a range is not empty", range_ok(c, c.a(0)))], facts=lambda c: DEFS + id_facts(c.this, c.a(0).var),
                     throws=lambda c: {NONEX: Not(valid_op(c, c.a(0))), OVF: ("may", And(valid_op(c, c.a(0)), test_unrep(c, c.a(0))))}, ensures=lambda c: tested(c, c.this, c.a(0), c.r.t))


def _test_lit(c):
    ic, it, if_, cond = lit_parts(c.a(0))
    return ([("for a condition: " + n, Implies(ic, f)) for n, f in tested(c, c.this, cond, c.r.t)] +
            [("the true literal is true", Implies(it, c.r.t == LIT(c, "DefinitelyTrue"))), ("the false literal is false", Implies(if_, c.r.t == LIT(c, "DefinitelyFalse")))])


def _test_lit_req(c):
    ic, it, if_, cond = lit_parts(c.a(0))
    return shape(c.this) + lit_req(c.this, c.a(0)) + [("a range is not empty", Implies(ic, range_ok(c, cond)))]


def _test_lit_thr(c):
    ic, it, if_, cond = lit_parts(c.a(0))
    return {NONEX: And(ic, Not(valid_op(c, cond))), OVF: ("may", And(ic, valid_op(c, cond), test_unrep(c, cond)))}


test_lit = Contract(ST + "test_literal", ["variant"], name="State::test_literal(Literal)", requires=_test_lit_req, facts=lambda c: DEFS, throws=_test_lit_thr, ensures=_test_lit)


def _alloc(c):
    a, b = D(c.this), D(c.this_x)
    i = z3.Int("i!n")
    s = b.set(a.top.n)
    P = ("*", "integer_variable_states", "[]")
    keep = []
    for p, t in c.this._imp.v.lv.items():
        u = c.this_x._imp.v.lv[p]
        if p[:3] == P:
            keep.append(ForAll([i], Implies(And(0 <= i, i < a.n - 1), z3.Select(u, i) == z3.Select(t, i)), patterns=[z3.Select(u, i)]))
            if p[3] == "[]":
                keep.append(ForAll([i], Implies(And(0 <= i, i < a.top.n), z3.Select(z3.Select(u, a.n - 1), i) == z3.Select(z3.Select(t, a.n - 1), i)), patterns=[z3.Select(z3.Select(u, a.n - 1), i)]))
        else:
            keep.append(u == t)
    return [("a variable the state did not have", c.r.fld(0).t == a.top.n), ("one more variable", b.top.n == a.top.n + 1), ("its domain is the values between the bounds", each(lambda x: s.has(x) == And(c.a(0).t <= x, x <= c.a(1).t), s.has)),
            ("its domain is not empty", s.n > 0), ("nothing else changes", And(*keep))] + s.wf()


allocate = Contract(ST + "allocate_integer_variable_with_state", modifies=["this"], requires=lambda c: shape(c.this), throws=lambda c: {INVALID: c.a(0).t > c.a(1).t}, strong=True, facts=lambda c: DEFS, exit_facts=lambda c: ends(D(c.this_x).set(D(c.this).top.n)) + [wit(D(c.this_x).set(D(c.this).top.n), I0, c.a(0).t)], ensures=_alloc)
next_id = Contract(ST + "what_variable_id_will_be_created_next", requires=lambda c: shape(c.this), ensures=lambda c: [("the id allocate will return", c.r.fld(0).t == D(c.this).top.n)])
OTHER = [value_of, test_cond, test_lit, allocate, next_id]
STATE = CHANGE + INFER + infer_cond + [infer_lit] + QUERY + copy_of + intersects_with + [domains_intersect] + each_value + OTHER


# ---- guesses
GUESSES = ("*", "guesses")


def lit_eq(a, b):
    """literals with the same value"""
    ia, it, if_, ca = lit_parts(a)
    jb, jt, jf, cb = lit_parts(b)
    return And(a.tag == b.tag, Implies(ia, And(*[x == y for x, y in zip(ca.v.lv.values(), cb.v.lv.values())])))


def pushed_guess(c):
    a, b = c.this._imp.v.lv, c.this_x._imp.v.lv
    g, h = D(c.this).imp.guesses, D(c.this_x).imp.guesses
    i = z3.Int("i!g")
    return [("one more guess", h.n == g.n + 1), ("it is the literal", lit_eq(h[g.n], c.a(0))), ("the guesses before it are as they were", And(*[ForAll([i], Implies(And(0 <= i, i < g.n), z3.Select(b[p], i) == z3.Select(a[p], i)), patterns=[z3.Select(b[p], i)]) for p in a if p[:3] == GUESSES + ("[]",)]))]


def _same_but(w, x, *drop):
    return And(*[x._imp.v.lv[p] == t for p, t in w._imp.v.lv.items() if not any(p[:len(q)] == q for q in drop)])


def _guess(c):
    ic, it, if_, cond = lit_parts(c.a(0))
    out = []
    for x in ids(cond.var):
        f = opcond(c, cond)
        pre = lambda cs: [("for a condition: " + n, Implies(ic, g)) for n, g in x.clauses(cs)]
        if x.const:
            out += pre([("it holds of the constant", f(x.k)), ("no domain changes", _same_but(c.this, c.this_x, GUESSES))])
        else:
            a, b = D(c.this).set(x.i), D(c.this_x).set(x.i)
            out += pre([("exactly the values satisfying it remain", same(b, a, lambda y, m: And(m, f(x.val(y))))), ("and there are some", b.n > 0), ("only the domain of the variable changes", frame_but(c.this, c.this_x, x.i, GUESSES))] + b.wf())
    return out + [("the true literal changes no domain", Implies(it, _same_but(c.this, c.this_x, GUESSES))), ("the false literal cannot be guessed", Not(if_))] + pushed_guess(c)


def _guess_throws(c):
    ic, it, if_, cond = lit_parts(c.a(0))
    f = opcond(c, cond)
    no = exactly(c, cond.var, lambda x: Dom(c.this, x).all(lambda z: Not(f(z))))
    return {NONEX: And(ic, Not(valid_op(c, cond))), OVF: ("may", And(ic, valid_op(c, cond), cond_unrep(c, cond))), UNEXP: Or(if_, And(ic, valid_op(c, cond), no))}


guess = Contract(ST + "guess", ["variant"], modifies=["this"], requires=lambda c: shape(c.this) + lit_req(c.this, c.a(0)), throws=_guess_throws, facts=lambda c: DEFS, ensures=_guess)
STATE += [guess]
