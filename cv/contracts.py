"""Contract language."""
import z3
if not hasattr(z3, "_mp"):
    # z3py drops its references to the terms before the pattern is made from them
    z3._mp = z3.MultiPattern

    def _multi_pattern(*args):
        keep = list(args)
        p = z3._mp(*args)
        del keep
        return p
    z3.MultiPattern = z3.z3.MultiPattern = _multi_pattern
from .types import Ty, Val, sub, Unsupported, fresh_name, int_range


class W:
    """Read-only view of a value inside specifications."""
    __slots__ = ("v", "en")

    def __init__(self, v, en):
        self.v, self.en = v, en

    @property
    def t(self):
        lv = self.v.lv
        if len(lv) == 1:
            return next(iter(lv.values()))
        raise Unsupported("value is not a single term: %s" % self.v.ty)

    @property
    def ty(self):
        return self.v.ty

    def __getattr__(self, n):
        t = self.v.ty
        if t.k == "rec":
            for fn, ft, _ in self.en.types.fields(t):
                if fn == n:
                    return W(Val(ft, sub(self.en.types.open(self.v), n)), self.en)
        if t.k == "tuple" and n in ("first", "second"):
            i = 0 if n == "first" else 1
            return self.at(i)
        raise Unsupported("specification mentions %s of %s" % (n, t))

    def fld(self, k):
        """k-th field of a record"""
        fn, ft, _ = self.en.types.fields(self.v.ty)[k]
        return W(Val(ft, sub(self.en.types.open(self.v), fn)), self.en)

    def at(self, i):
        return W(Val(self.v.ty.a[i], sub(self.v.lv, str(i))), self.en)

    @property
    def n(self):
        return self.v.lv[("#",)]

    def __getitem__(self, i):
        if isinstance(i, int):
            i = z3.IntVal(i)
        return W(Val(self.v.ty.a[0], {p: z3.Select(t, i) for p, t in sub(self.v.lv, "[]").items()}), self.en)

    @property
    def has(self):
        return self.v.lv[("?",)]

    @property
    def val(self):
        return W(Val(self.v.ty.a[0], sub(self.v.lv, "*")), self.en)

    @property
    def tag(self):
        return self.v.lv[("tag",)]

    def alt(self, i):
        return W(Val(self.v.ty.a[i], sub(self.v.lv, "alt%d" % i)), self.en)

    def alt_of(self, name):
        """index of the alternative whose type name ends with `name`"""
        for i, t in enumerate(self.v.ty.a):
            if t.k in ("rec", "enum") and (t.a[0] == name or t.a[0].endswith("::" + name)):
                return i
        raise Unsupported("alternative " + name)

    def mem(self, x):
        return z3.Select(self.v.lv[("in",)], x)

    def eq(self, o):
        return self.en.val_eq(self.v, o.v)


class CallCtx:
    def __init__(self, en, olds, told, st, call=False, news=None, tnew=None, result=None):
        self.en, self._olds, self._told, self.st, self.call = en, olds, told, st, call
        self._news, self._tnew, self._res = news, tnew, result
        self.call = call
        self.pre = None

    def _w(self, v):
        if isinstance(v, Val):
            return W(v, self.en)
        return v

    def a(self, i):
        """argument i at entry"""
        return self._w(self._olds[i])

    def x(self, i):
        """argument i at exit (for by-reference parameters)"""
        return self._w(self._news[i])

    @property
    def this(self):
        return self._w(self._told)

    @property
    def this_x(self):
        return self._w(self._tnew)

    @property
    def r(self):
        return self._w(self._res)

    def g(self, name):
        """ghost variable of the environment at entry"""
        return (self.pre or self.st).cells["ghost", name].lv[()]

    def gx(self, name):
        """... at exit"""
        return self.st.cells["ghost", name].lv[()]

    @property
    def calls(self):
        """how often each function object had been called at entry"""
        return (self.pre or self.st).cells["ghost", "calls"].lv[()]

    @property
    def calls_x(self):
        """... and has been called at exit"""
        return self.st.cells["ghost", "calls"].lv[()]

    def enum(self, qname, const):
        n = self.en.tu.enums[self.en.types.find(qname) or qname]
        k = 0
        for c in n["inner"]:
            if c.get("kind") == "EnumConstantDecl":
                if c["name"] == const:
                    return self.en.enum_value(c)
        raise Unsupported("enum constant %s::%s" % (qname, const))


class LoopCtx:
    def __init__(self, en, st, entry, index):
        self.en, self.st, self.entry, self._index = en, st, entry, index
        self.head = None

    def _get(self, st, name):
        lv = st.names.get(name)
        if lv is None:
            raise Unsupported("loop contract mentions '%s', which the loop no longer has in scope" % name)
        v = self.en.read(st, lv)
        from .engine import VIter, VList, VRange
        if isinstance(v, (VList, VRange)):
            v = self.en.as_val(st, v, v.ty)
        return W(v, self.en) if isinstance(v, Val) else v

    def v(self, name):
        return self._get(self.st, name)

    def e(self, name):
        """value when the loop was entered"""
        return self._get(self.entry, name)

    @property
    def this(self):
        return W(self.en.read(self.st, self.st.env["this"]), self.en)

    @property
    def this_e(self):
        return W(self.en.read(self.entry, self.entry.env["this"]), self.en)

    def idx(self, k):
        """current value of the index variable of loop k (an enclosing one)"""
        return LoopCtx(self.en, self.st, self.entry, self.st.ghost["index%d" % k]).index

    def g(self, name):
        """current value of a ghost variable"""
        return self.st.cells[("ghost", name)].lv[()]

    @property
    def calls(self):
        """how often each function object has been called"""
        return self.g("calls")

    @property
    def calls_e(self):
        """... when the loop was entered"""
        return self.entry.cells[("ghost", "calls")].lv[()]

    def p(self, i):
        """i-th parameter at function entry"""
        return W(self.en.param_vals[i], self.en)

    def rng(self, k):
        """the elements loop k ranges over, in order"""
        v = self.en.read(self.st, self.st.ghost["range%d" % k])
        return W(self.en.as_val(self.st, v, v.ty), self.en) if not isinstance(v, Val) else W(v, self.en)

    @property
    def index(self):
        if self._index is None:
            raise Unsupported("loop has no index variable")
        v = self.en.read(self.st, self._index)
        if isinstance(v, Val):
            return W(v, self.en).t
        return v.idx


class LoopContract:
    def __init__(self, name, inv, decreases=None, facts=None, step_facts=None, exit_facts=None, budget=None, ghost=None, ghost_step=None):
        self.name = name
        # ghost variables: terms assigned when the loop is reached / at the end of each iteration
        self.ghost, self.ghost_step = ghost, ghost_step
        self._inv = inv
        self.decreases = decreases
        self._facts, self._step, self._exit = facts, step_facts, exit_facts
        self.budget = budget

    def ctx(self, en, st, entry, index):
        return LoopCtx(en, st, entry, index)

    def inv(self, c):
        return _clauses(self._inv(c))

    def facts(self, c):
        return self._facts(c) if self._facts else []

    def step_facts(self, c):
        return self._step(c) if self._step else []

    def exit_facts(self, c):
        return self._exit(c) if self._exit else []


def _clauses(x):
    out = []
    if x is None:
        return out
    if isinstance(x, dict):
        return list(x.items())
    for k, f in enumerate(x):
        if isinstance(f, tuple):
            out.append(f)
        else:
            out.append(("clause %d" % k, f))
    return out


class Contract:
    def __init__(self, qname, params=None, requires=None, ensures=None, throws=None, modifies=(), loops=(), facts=None,
                 exit_facts=None, steps=None, name=None, merge=False, unroll=8, prune=True, budget=None, result=None, make_result=None,
                 result_lv=False, trusted=None, param_values=None, before_call=None, fork_cond=False, lemmas=(), select=None, returns_arg=None, cases=None, strong=False, decreases=None, group=None, borrows=None, calls=False, ghosts=None):
        self.ghosts = ghosts or {}   # ghost state of the environment: {name: sort}, changed by calls of it as its contract says
        self.calls = calls   # calls function objects held in its arguments or its object: how often each has been called is a ghost
        self.borrows = borrows   # of a function returning a generator: the parameters (or "this") it may go on referring to; None: any reference
        self.decreases = decreases
        self.group = group   # mutually recursive functions: the measure decreases at calls within the group
        self.cases, self.strong = cases, strong
        self.returns_arg = returns_arg
        self.qname, self.params = qname, params
        self._req, self._ens, self._thr = requires, ensures, throws
        self.modifies = modifies
        self.loops = list(loops)
        self._facts, self._exit_facts, self._steps = facts, exit_facts, steps
        self.name = name or qname
        self.merge, self.unroll, self.prune, self.budget = merge, unroll, prune, budget
        self._result, self.make_result, self.result_lv = result, make_result, result_lv
        self.trusted = trusted
        self.param_values = param_values
        self.before_call = before_call
        self.fork_cond = fork_cond
        self.lemmas = lemmas
        self.select = select

    def short(self):
        return self.qname.rpartition("::")[2]

    def matches(self, en, d):
        if d.get("_q") != self.qname:
            return False
        if self.select is not None and not self.select(en, d):
            return False
        if self.params is None:
            return True
        ps = [c for c in d.get("inner", []) if c.get("kind") == "ParmVarDecl"]
        if len(ps) != len(self.params):
            return False
        for p, t in zip(ps, self.params):
            try:
                pt = en.types.node(p)
            except Unsupported:
                return False
            if not _tymatch(pt, t):
                return False
        return True

    def requires(self, ctx):
        return _clauses(self._req(ctx)) if self._req else []

    def ensures(self, ctx):
        return _clauses(self._ens(ctx)) if self._ens else []

    def throws(self, ctx):
        return self._thr(ctx) if self._thr else {}

    def facts(self, ctx):
        return self._facts(ctx) if self._facts else []

    def exit_facts(self, ctx):
        return self._exit_facts(ctx) if self._exit_facts else []

    def steps(self, ctx):
        """intermediate assertions at exit: each is proved, then used for what follows; callers do not see them"""
        return self._steps(ctx) if self._steps else []

    def result_type(self, en, d, node):
        if self._result is not None:
            return self._result if isinstance(self._result, Ty) else en.types.parse(self._result)
        return en.ret_type(d, node)


def _tymatch(pt, t):
    if isinstance(t, Ty):
        return pt == t
    if t == "*":
        return True
    if pt.k in ("rec", "enum"):
        for q in (pt.a[0], pt.a[0].partition("<")[0]):
            if q == t or q.endswith("::" + t):
                return True
        return False
    return str(pt) == t or pt.k == t


class Lemma:
    """A universally quantified fact, proved as an obligation of its own on
    every run, and used through explicit instances."""
    all = {}

    def __init__(self, name, sorts, stmt, hints=None, budget=None, induction=None, backends=None):
        self.name, self.sorts, self.stmt, self.hints, self.budget, self.induction = name, sorts, stmt, hints, budget, induction
        self.backends = backends
        Lemma.all[name] = self
        self.used = False

    def __call__(self, *args):
        self.used = True
        args = [z3.IntVal(a) if isinstance(a, int) and not isinstance(a, bool) else a for a in args]
        return self.stmt(*args)

    def vars(self):
        return [z3.Const("%s_%d" % (self.name, i), s) for i, s in enumerate(self.sorts)]

    def forall(self, pats=None):
        self.used = True
        xs = self.vars()
        return z3.ForAll(xs, self.stmt(*xs), patterns=pats(*xs) if pats else [])

    def obligations(self):
        from .engine import Obligation
        xs = self.vars()
        out = []
        hy = []
        if self.induction is not None:
            # well-founded induction on a natural measure: the hypothesis is the
            # statement at explicitly listed smaller points
            meas, points = self.induction
            for pt in points(*xs):
                if len(pt) == 3 and isinstance(pt[0], list):   # ([vars], point, patterns): for all vars
                    vs, q, pats = pt
                    hy.append(z3.ForAll(vs, z3.Implies(z3.And(meas(*q) >= 0, meas(*q) < meas(*xs)), self.stmt(*q)), patterns=pats))
                    continue
                hy.append(z3.Implies(z3.And(meas(*pt) >= 0, meas(*pt) < meas(*xs)), self.stmt(*pt)))
        hy += list(self.hints(*xs)) if self.hints else []
        # intermediate steps: tuples ("assert", f) are proved in order
        hyps = []
        k = 0
        for h in hy:
            if isinstance(h, tuple) and h[0] == "assert":
                o = Obligation("lemma " + self.name, "step %d" % k, list(hyps), h[1], "lemma", "contracts", self.budget)
                o.inputs = []
                out.append(o)
                hyps.append(h[1])
                k += 1
            else:
                hyps.append(h)
        o = Obligation("lemma " + self.name, "statement", hyps, self.stmt(*xs), "lemma", "contracts", self.budget)
        o.inputs = []
        out.append(o)
        return out
