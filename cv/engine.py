"""Symbolic execution of clang ASTs into verification conditions.

One function is executed at a time, from its contract's precondition.  Calls to
functions that have a contract use the contract only (the body is verified
separately); calls to other /repo functions are inlined from their current
body; loops use their loop contract (or are unrolled completely, which the
solver has to confirm).  Every check the C++ semantics or a contract demands
becomes a named obligation.
"""
import itertools
import re
import z3

from .astload import loc, FUNC_KINDS
from .types import (Ty, LL, ULL, INT, BOOL, VOID, ORD, STR, CHAR, OPAQUE, Types, Val, Unsupported, scalar, sub, int_range, fresh_name, strip_cv)

I = z3.IntVal
TRUE = z3.BoolVal(True)
FALSE = z3.BoolVal(False)


class LV:
    """l-value: a cell and an access path."""
    __slots__ = ("cell", "path", "ty")

    def __init__(self, cell, path, ty):
        self.cell = cell
        self.path = path
        self.ty = ty

    def f(self, name, ty):
        return LV(self.cell, self.path + (("f", name),), ty)

    def i(self, idx, ty):
        return LV(self.cell, self.path + (("i", idx),), ty)

    def step(self, s, ty):
        return LV(self.cell, self.path + (s,), ty)

    def __repr__(self):
        return "LV(%s,%s)" % (self.cell, self.path)


class VFn:
    """closure"""

    def __init__(self, node=None, caps=None, py=None, name="", this=None, overloads=None, names=None):
        self.node, self.caps, self.py, self.name, self.this = node, caps or {}, py, name, this
        self.overloads = overloads
        self.names = names or {}
        self.byref, self.captures, self.has_this = set(), 0, False


class VPtr:
    def __init__(self, lv):
        self.lv = lv


class VIter:
    def __init__(self, lv, idx, rev=False):
        self.lv, self.idx, self.rev = lv, idx, rev


class VList:
    """braced list / small concrete sequence"""

    def __init__(self, elems, ty):
        self.elems, self.ty = elems, ty


class VRange:
    """a lazy view: python-level length + element function"""

    def __init__(self, n, at, ty):
        self.n, self.at, self.ty = n, at, ty


class VSink:
    """output iterator appending to the text in a cell"""

    def __init__(self, cell):
        self.cell = cell


class VNull:
    pass


class VOpaque:
    """value whose content the contracts never look at (messages, streams)"""

    def __init__(self, what=""):
        self.what = what


GHOST = Ty("ghost")


class Raise:
    def __init__(self, ty, where="?"):
        self.ty, self.where = ty, where


class FnRef:
    def __init__(self, decl, name, ty):
        self.decl, self.name, self.ty = decl, name, ty


class State:
    __slots__ = ("env", "cells", "pc", "names", "ranged", "ghost", "trail")

    def __init__(self):
        self.env, self.cells, self.pc, self.names, self.ranged, self.ghost, self.trail = {}, {}, [], {}, set(), {}, []

    def copy(self):
        s = State.__new__(State)
        s.env, s.cells, s.pc = dict(self.env), dict(self.cells), list(self.pc)
        s.names, s.ranged, s.ghost, s.trail = self.names, set(self.ranged), dict(self.ghost), list(self.trail)
        return s

    def assume(self, c):
        if z3.is_true(c):
            return
        self.pc.append(c)


class Obligation:
    __slots__ = ("fn", "name", "hyps", "goal", "kind", "where", "status", "backend", "time", "model", "cex", "budget", "inputs")

    def __init__(self, fn, name, hyps, goal, kind, where, budget=None):
        self.fn, self.name, self.hyps, self.goal, self.kind, self.where = fn, name, hyps, goal, kind, where
        self.status = self.backend = self.model = None
        self.time = 0.0
        self.cex = None
        self.budget = budget
        self.inputs = None


def has_quant(e, _memo={}):
    k = e.get_id()
    if k in _memo and _memo[k][0].eq(e):
        return _memo[k][1]
    if z3.is_quantifier(e):
        r = True
    else:
        r = any(has_quant(c) for c in e.children())
    _memo[k] = (e, r)
    return r


def simp(e):
    return z3.simplify(e)


def is_const_int(t):
    return z3.is_int_value(t)


# truncated quotient and remainder as mathematical functions; tdiv_axioms is
# their definition (existence and uniqueness for b != 0 is elementary)
TQ = z3.Function("tquot", z3.IntSort(), z3.IntSort(), z3.IntSort())
TR = z3.Function("trem", z3.IntSort(), z3.IntSort(), z3.IntSort())


def tdef(a, b):
    return z3.Implies(b != 0, z3.And(*tdiv_axioms(a, b, TQ(a, b), TR(a, b))))


def tdiv_axioms(a, b, q, r):
    ab = z3.If(b >= 0, b, -b)
    return [a == b * q + r,
            z3.Implies(a >= 0, z3.And(r >= 0, r < ab)),
            z3.Implies(a <= 0, z3.And(r <= 0, -r < ab))]


BUILDS = {"CXXConstructExpr", "InitListExpr", "CXXTemporaryObjectExpr", "CXXFunctionalCastExpr", "CXXDefaultArgExpr", "MaterializeTemporaryExpr", "ExprWithCleanups", "CallExpr", "ImplicitCastExpr", "CXXBindTemporaryExpr"}


class Engine:
    def __init__(self, tu, registry):
        self.tu = tu
        self.types = Types(tu)
        self.registry = registry  # list of Contract
        self.obls = []
        self.recording = True
        self.cur = None
        self.ncell = itertools.count(1)
        self.depth = 0
        self.loop_ids = {}
        self.active = []
        self.inlined = set()
        self.used_contracts = set()
        self.assumptions = set()
        self.maxpaths = 4000
        self._bycontract = {}
        self._qs = 0

    # ------------------------------------------------------------ utilities
    def new_cell(self, st, v):
        c = next(self.ncell)
        st.cells[c] = v
        return c

    def fresh(self, ty, name, st=None):
        lv = {}
        for p, s in self.types.leaves(ty):
            lv[p] = z3.Const(fresh_name(name + ("." + ".".join(map(str, p)) if p else "")), s)
        v = Val(ty, lv)
        if st is not None:
            self.wf(v, st)
        return v

    def nonnull(self, v):
        if self.types.tree(v.ty):
            return v.lv[("?",)]
        return z3.Not(v.t == self.types.datatype(v.ty.a[0])[0].nil)

    def wf(self, v, st):
        """type-range facts for the scalar leaves of a fresh value"""
        for c in self.wf_facts(v.ty, v.lv):
            st.assume(c)

    def wf_facts(self, ty, lv, quant=False):
        k = ty.k
        out = []
        r = int_range(ty)
        if k == "enum":
            n = self.enum_size(ty)
            out.append(z3.And(lv[()] >= 0, lv[()] < n))
        elif r is not None:
            t = lv[()]
            out.append(z3.And(t >= r[0], t <= r[1]))
        elif k == "rec":
            if not self.types.boxed(ty):
                for n, t, _ in self.types.fields(ty):
                    out += self.wf_facts(t, sub(lv, n))
        elif k == "tuple":
            for i, t in enumerate(ty.a):
                out += self.wf_facts(t, sub(lv, str(i)))
        elif k == "vec":
            out.append(z3.And(lv[("#",)] >= 0, lv[("#",)] <= (1 << 59)))
        elif k == "opt" or k == "uptr" and ("?",) in lv:
            out += self.wf_facts(ty.a[0], sub(lv, "*"))
        elif k == "variant":
            out.append(z3.And(lv[("tag",)] >= 0, lv[("tag",)] < len(ty.a)))
            for i, t in enumerate(ty.a):
                out += self.wf_facts(t, sub(lv, "alt%d" % i))
        elif k in ("set", "map") and ("n",) in lv:
            out.append(z3.And(lv[("n",)] >= 0, lv[("n",)] <= (1 << 59)))
        return out

    def enum_size(self, ty):
        n = self.tu.enums[ty.a[0]]
        return len([c for c in n.get("inner", []) if c.get("kind") == "EnumConstantDecl"])

    def enum_value(self, decl):
        """numeric value of an EnumConstantDecl"""
        d = self.tu.decls.get(decl["id"], decl)
        par = d.get("_parent")
        if par is None:
            raise Unsupported("enum constant " + str(decl.get("name")))
        v = -1
        for c in par.get("inner", []):
            if c.get("kind") != "EnumConstantDecl":
                continue
            ini = [x for x in c.get("inner", []) if x.get("kind") == "ConstantExpr"]
            if ini and "value" in ini[0]:
                v = int(ini[0]["value"])
            else:
                v += 1
            if c["id"] == d["id"]:
                return v
        raise Unsupported("enum constant")

    def default_val(self, ty):
        """value-initialised"""
        lv = {}
        for p, s in self.types.leaves(ty):
            lv[p] = self.zero_of(s)
        return Val(ty, lv)

    def zero_of(self, s):
        if s == z3.IntSort():
            return I(0)
        if s == z3.BoolSort():
            return FALSE
        if isinstance(s, z3.ArraySortRef):
            return z3.K(s.domain(), self.zero_of(s.range()))
        if s.kind() == z3.Z3_UNINTERPRETED_SORT:
            return z3.Const("unset_" + s.name(), s)
        if isinstance(s, z3.DatatypeSortRef):
            return s.nil
        raise Unsupported("zero of %s" % s)

    def oblige(self, st, goal, name, kind, node=None, budget=None):
        if not self.recording:
            return
        g = simp(goal) if not has_quant(goal) else goal
        if z3.is_true(g):
            self.cur_trivial += 1
        o = Obligation(self.cur.name, name, list(st.pc) + self.types.box_axioms, goal, kind, loc(node) if isinstance(node, dict) else (node or "?"), budget)
        o.inputs = self.inputs
        self.obls.append(o)

    def quick(self, st, goal, rl=60000):
        """cheap deterministic proof attempt (False = don't know)"""
        g = simp(goal)
        if z3.is_true(g):
            return True
        if z3.is_false(g) and not st.pc:
            return False
        self._qs += 1
        s = z3.SolverFor("QF_UFNIA") if False else z3.Solver()
        s.set("rlimit", rl)
        for h in st.pc:
            if not has_quant(h):
                s.add(h)
        s.add(z3.Not(g))
        return s.check() == z3.unsat

    def feasible(self, st):
        if any(z3.is_false(c) for c in st.pc[-3:]):
            return False
        return not self.quick(st, FALSE, 40000)

    # ------------------------------------------------------------ memory
    def vread(self, v, path):
        for s in path:
            if not isinstance(v, Val):
                raise Unsupported("member access into non-value %s" % type(v).__name__)
            ty = v.ty
            if s[0] == "f":
                if ty.k == "rec":
                    for n, t, _ in self.types.fields(ty):
                        if n == s[1]:
                            v = Val(t, sub(self.types.open(v), n))
                            break
                    else:
                        raise Unsupported("no field %s in %s" % (s[1], ty))
                elif ty.k == "tuple":
                    v = Val(ty.a[int(s[1])], sub(v.lv, s[1]))
                else:
                    raise Unsupported("field %s of %s" % (s[1], ty))
            elif s[0] == "i":
                v = Val(ty.a[0], {p: z3.Select(t, s[1]) for p, t in sub(v.lv, "[]").items()})
            elif s[0] == "o":
                v = Val(ty.a[0], sub(v.lv, "*"))
            elif s[0] == "k":
                v = Val(ty.a[s[1]], sub(v.lv, "alt%d" % s[1]))
            elif s[0] == "d" and self.types.tree(ty):
                v = Val(ty.a[0], sub(v.lv, "*"))
            elif s[0] == "d":
                srt, paths = self.types.datatype(ty.a[0])
                c = srt.constructor(1)
                v = Val(ty.a[0], {p: srt.accessor(1, i)(v.t) for i, p in enumerate(paths)})
            elif s[0] == "m":
                v = Val(ty.a[1], {p: z3.Select(t, s[1]) for p, t in sub(v.lv, "at").items()})
            else:
                raise Unsupported("path " + str(s))
        return v

    def vwrite(self, v, path, new):
        if not path:
            return new
        s = path[0]
        inner = self.vwrite(self.vread(v, (s,)), path[1:], new)
        if not isinstance(inner, Val):
            raise Unsupported("storing a %s inside an aggregate" % type(inner).__name__)
        if s[0] == "f" and v.ty.k == "rec" and self.types.boxed(v.ty):
            lv = dict(self.types.open(v))
            for p, t in inner.lv.items():
                lv[(s[1],) + p] = t
            return Val(v.ty, self.types.close(v.ty, lv))
        lv = dict(v.lv)
        if s[0] == "f":
            pre = s[1]
        elif s[0] == "o" or (s[0] == "d" and self.types.tree(v.ty)):
            pre = "*"
        elif s[0] == "k":
            pre = "alt%d" % s[1]
        elif s[0] == "i":
            for p, t in inner.lv.items():
                lv[("[]",) + p] = z3.Store(v.lv[("[]",) + p], s[1], t)
            return Val(v.ty, lv)
        elif s[0] == "m":
            for p, t in inner.lv.items():
                lv[("at",) + p] = z3.Store(v.lv[("at",) + p], s[1], t)
            return Val(v.ty, lv)
        elif s[0] == "d":
            srt, paths = self.types.datatype(v.ty.a[0])
            return Val(v.ty, {(): srt.constructor(1)(*[inner.lv[p] for p in paths])})
        else:
            raise Unsupported("path")
        for p, t in inner.lv.items():
            lv[(pre,) + p] = t
        return Val(v.ty, lv)

    def read(self, st, lv):
        if lv.cell not in st.cells:
            raise Unsupported("read of dead or unknown storage")
        v = st.cells[lv.cell]
        if lv.path:
            v = self.vread(v, lv.path)
        if isinstance(v, Val) and v.ty.k in ("int", "bool", "enum"):
            self.assume_range(st, v)
        elif isinstance(v, Val) and v.ty.k in ("rec", "tuple") and len(v.lv) <= 6:
            self.assume_ranges(st, v)
        return v

    def assume_ranges(self, st, v):
        if v.ty.k in ("int", "enum"):
            self.assume_range(st, v)
        elif v.ty.k == "rec" and not self.types.boxed(v.ty):
            for n, t, _ in self.types.fields(v.ty):
                self.assume_ranges(st, Val(t, sub(v.lv, n)))
        elif v.ty.k == "tuple":
            for i, t in enumerate(v.ty.a):
                self.assume_ranges(st, Val(t, sub(v.lv, str(i))))

    def assume_range(self, st, v):
        t = v.t
        if v.ty.k == "bool" or is_const_int(t) or not z3.is_app(t):
            return
        k = t.decl().kind()
        if k in (z3.Z3_OP_SELECT, z3.Z3_OP_DT_ACCESSOR):
            i = t.get_id()
            if i not in st.ranged:
                st.ranged.add(i)
                r = int_range(v.ty)
                if v.ty.k == "enum":
                    r = (0, self.enum_size(v.ty) - 1)
                st.assume(z3.And(t >= r[0], t <= r[1]))

    def write(self, st, lv, new):
        if not lv.path:
            st.cells[lv.cell] = new
        else:
            new = self.as_val(st, new, lv.ty)
            st.cells[lv.cell] = self.vwrite(st.cells[lv.cell], lv.path, new)

    def as_val(self, st, v, ty):
        """coerce python-level values (VList, VNull ...) to a Val of type ty"""
        if isinstance(v, LV):
            v = self.read(st, v)
        if isinstance(v, Val):
            if v.ty.k == "null" and ty is not None and ty.k != "null":
                return self.default_val(ty)
            return v
        if isinstance(v, VSink):
            return v
        if isinstance(v, VNull):
            return self.default_val(ty)
        if isinstance(v, VList):
            if ty is not None and ty.k == "vec":
                return self.list_to_vec(st, v, ty)
        if isinstance(v, VRange) and ty is not None and ty.k == "vec":
            return self.range_to_vec(st, v, ty)
        if isinstance(v, VOpaque):
            return self.fresh(ty if ty is not None else OPAQUE, "opaque")
        if isinstance(v, VFn) and ty is not None and ty.k in ("fn",):
            return v
        raise Unsupported("value of kind %s where %s is needed" % (type(v).__name__, ty))

    def list_to_vec(self, st, v, ty):
        out = self.default_val(ty)
        lv = dict(out.lv)
        lv[("#",)] = I(len(v.elems))
        for n, e in enumerate(v.elems):
            e = self.as_val(st, e, ty.a[0])
            for p, t in e.lv.items():
                lv[("[]",) + p] = z3.Store(lv[("[]",) + p], I(n), t)
        return Val(ty, lv)

    def range_to_vec(self, st, v, ty):
        i = z3.Int(fresh_name("i"))
        e = v.at(i)
        lv = {("#",): v.n}
        for p, t in e.lv.items():
            if z3.is_app_of(t, z3.Z3_OP_SELECT) and t.arg(1).eq(i) and str(i) not in str(t.arg(0)):
                lv[("[]",) + p] = t.arg(0)
            else:
                lv[("[]",) + p] = z3.Lambda([i], t)
        return Val(ty, lv)

    def ite(self, c, a, b):
        if a is b:
            return a
        if isinstance(a, Val) and isinstance(b, Val):
            if a.ty != b.ty and set(a.lv) != set(b.lv):
                raise Unsupported("merging values of different types %s/%s" % (a.ty, b.ty))
            return Val(a.ty, {p: (a.lv[p] if a.lv[p].eq(b.lv[p]) else z3.If(c, a.lv[p], b.lv[p])) for p in a.lv})
        if isinstance(a, VOpaque) and isinstance(b, VOpaque):
            return a
        if isinstance(a, VIter) and isinstance(b, VIter) and self.same_lv(a.lv, b.lv):
            if a.rev != b.rev:
                raise Unsupported("merging iterators of different directions")
            return VIter(a.lv, z3.If(c, a.idx, b.idx), a.rev)
        raise Unsupported("merging %s with %s" % (type(a).__name__, type(b).__name__))

    def same_lv(self, a, b):
        return a.cell == b.cell and len(a.path) == len(b.path) and all(
            x[0] == y[0] and (x[1:] == y[1:] or (len(x) > 1 and z3.is_expr(x[1]) and z3.is_expr(y[1]) and x[1].eq(y[1]))) for x, y in zip(a.path, b.path))

    def val_eq(self, a, b, ty=None):
        """structural equality as a formula"""
        ty = ty or a.ty
        k = ty.k
        if k == "vec":
            i = z3.Int(fresh_name("qi"))
            n1, n2 = a.lv[("#",)], b.lv[("#",)]
            ea = Val(ty.a[0], {p: z3.Select(t, i) for p, t in sub(a.lv, "[]").items()})
            eb = Val(ty.a[0], {p: z3.Select(t, i) for p, t in sub(b.lv, "[]").items()})
            body = self.val_eq(ea, eb)
            if is_const_int(simp(n1)) and simp(n1).as_long() <= 64:
                n = simp(n1).as_long()
                return z3.And(n1 == n2, *[z3.substitute(body, (i, I(j))) for j in range(n)])
            if is_const_int(simp(n2)) and simp(n2).as_long() <= 64:
                n = simp(n2).as_long()
                return z3.And(n1 == n2, *[z3.substitute(body, (i, I(j))) for j in range(n)])
            return z3.And(n1 == n2, z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n1), body)))
        if k == "opt":
            return z3.And(a.lv[("?",)] == b.lv[("?",)],
                          z3.Implies(a.lv[("?",)], self.val_eq(Val(ty.a[0], sub(a.lv, "*")), Val(ty.a[0], sub(b.lv, "*")))))
        if k == "variant":
            cs = [a.lv[("tag",)] == b.lv[("tag",)]]
            for i, t in enumerate(ty.a):
                cs.append(z3.Implies(a.lv[("tag",)] == i, self.val_eq(Val(t, sub(a.lv, "alt%d" % i)), Val(t, sub(b.lv, "alt%d" % i)))))
            return z3.And(*cs)
        if k == "rec":
            if self.types.boxed(ty):
                return a.t == b.t
            return z3.And(*[self.val_eq(Val(t, sub(a.lv, n)), Val(t, sub(b.lv, n))) for n, t, _ in self.types.fields(ty)])
        if k == "tuple":
            return z3.And(*([TRUE] + [self.val_eq(Val(t, sub(a.lv, str(i))), Val(t, sub(b.lv, str(i)))) for i, t in enumerate(ty.a)]))
        return z3.And(*[a.lv[p] == b.lv[p] for p in a.lv])

    # ------------------------------------------------------------ expression evaluation
    def bind(self, rs, f):
        out = []
        for st, v in rs:
            if isinstance(v, Raise):
                out.append((st, v))
            else:
                out.extend(f(st, v))
        if len(out) > self.maxpaths:
            raise Unsupported("too many paths in " + self.cur.name)
        return out

    def rv(self, e, st):
        """evaluate to a value"""
        def load(s, v):
            if isinstance(v, LV):
                return [(s, self.read(s, v))]
            return [(s, v)]
        return self.bind(self.ev(e, st), load)

    def rvs(self, es, st):
        """evaluate several, left to right -> list of values"""
        rs = [(st, [])]
        for e in es:
            nxt = []
            for s, vs in rs:
                if isinstance(vs, Raise):
                    nxt.append((s, vs))
                    continue
                for s2, v in self.rv(e, s):
                    nxt.append((s2, v if isinstance(v, Raise) else vs + [v]))
            rs = nxt
        return rs

    def evs(self, es, st):
        rs = [(st, [])]
        for e in es:
            nxt = []
            for s, vs in rs:
                if isinstance(vs, Raise):
                    nxt.append((s, vs))
                    continue
                for s2, v in self.ev(e, s):
                    nxt.append((s2, v if isinstance(v, Raise) else vs + [v]))
            rs = nxt
        return rs

    def ty(self, e):
        return self.types.node(e)

    def branch(self, st, cond, node=None):
        """split on a boolean term -> [(state, True/False)] with infeasible sides dropped"""
        c = simp(cond)
        if z3.is_true(c):
            return [(st, True)]
        if z3.is_false(c):
            return [(st, False)]
        out = []
        for val, cc in ((True, c), (False, simp(z3.Not(c)))):
            s = st.copy()
            s.assume(cc)
            if self.prune and not self.feasible(s):
                continue
            out.append((s, val))
        if not out:  # contradiction in pc: keep one side (harmless)
            s = st.copy()
            s.assume(c)
            out.append((s, True))
        return out

    def truth(self, v):
        if isinstance(v, Val):
            if v.ty.k == "bool":
                return v.t
            if v.ty.k in ("int", "enum"):
                return v.t != 0
            if v.ty.k == "opt":
                return v.lv[("?",)]
            if v.ty.k == "uptr":
                return self.nonnull(v)
        if isinstance(v, VPtr):
            return z3.BoolVal(v.lv is not None)
        if isinstance(v, VNull):
            return FALSE
        if isinstance(v, VFn):
            return TRUE
        raise Unsupported("truth value of %r" % (v,))

    def ev(self, e, st):
        k = e["kind"]
        if self.types.opaque is not None and k in BUILDS and self.is_opaque(e):
            return [(st, VOpaque("opaque"))]
        m = getattr(self, "e_" + k, None)
        if m is None:
            raise Unsupported("expression %s at %s" % (k, loc(e)))
        return m(e, st)

    def is_opaque(self, e):
        t = e["type"]
        return self.types.opaque.match(strip_cv(t.get("desugaredQualType", t["qualType"]))) is not None

    def kids(self, e):
        return [c for c in e.get("inner", []) if c and c.get("kind") and not c["kind"].endswith("Comment")]

    def _pass(self, e, st):
        return self.ev(self.kids(e)[0], st)

    e_ParenExpr = e_ExprWithCleanups = e_CXXBindTemporaryExpr = _pass
    e_SubstNonTypeTemplateParmExpr = _pass

    def e_ConstantExpr(self, e, st):
        v = e.get("value")
        if v is not None and re.match(r"^-?\d+$", str(v)):
            t = self.ty(e)
            if t.k == "bool":
                return [(st, scalar(t, int(v) != 0))]
            if t.k in ("int", "enum"):
                return [(st, scalar(t, int(v)))]
        if str(v) in ("true", "false"):
            return [(st, scalar(BOOL, str(v) == "true"))]
        return self._pass(e, st)

    def e_MaterializeTemporaryExpr(self, e, st):
        def f(s, v):
            if isinstance(v, LV):
                return [(s, v)]
            c = self.new_cell(s, v)
            return [(s, LV(c, (), v.ty if isinstance(v, Val) else None))]
        return self.bind(self.ev(self.kids(e)[0], st), f)

    def e_IntegerLiteral(self, e, st):
        return [(st, scalar(self.ty(e), int(e["value"])))]

    def e_CharacterLiteral(self, e, st):
        return [(st, scalar(self.ty(e), int(e["value"])))]

    def e_CXXBoolLiteralExpr(self, e, st):
        return [(st, scalar(BOOL, bool(e["value"])))]

    def e_CXXNullPtrLiteralExpr(self, e, st):
        return [(st, VNull())]

    def e_GNUNullExpr(self, e, st):
        return [(st, VNull())]

    def e_FloatingLiteral(self, e, st):
        return [(st, VOpaque("float"))]

    def e_StringLiteral(self, e, st):
        import json
        raw = e.get("value", '""')
        try:
            s = json.loads(raw)
        except Exception:
            return [(st, VOpaque("str"))]
        return [(st, VList([scalar(CHAR, ord(c)) for c in s], STR))]

    def e_ImplicitValueInitExpr(self, e, st):
        return [(st, self.default_val(self.ty(e)))]

    e_CXXScalarValueInitExpr = e_ImplicitValueInitExpr

    def e_UnaryExprOrTypeTraitExpr(self, e, st):
        raise Unsupported("sizeof")

    def e_CXXNoexceptExpr(self, e, st):
        return [(st, scalar(BOOL, True))]

    def e_TypeTraitExpr(self, e, st):
        v = e.get("value")
        if v is None:
            raise Unsupported("type trait")
        return [(st, scalar(BOOL, bool(v)))]

    def e_CXXThisExpr(self, e, st):
        return [(st, VPtr(st.env["this"]))]

    def e_DeclRefExpr(self, e, st):
        r = e["referencedDecl"]
        k = r["kind"]
        if k == "EnumConstantDecl":
            if r["id"] not in self.tu.decls:
                return [(st, VOpaque("enum:" + r["name"]))]
            return [(st, scalar(self.types.parse(r["type"].get("desugaredQualType", r["type"]["qualType"])), self.enum_value(r)))]
        if k in ("VarDecl", "ParmVarDecl", "BindingDecl"):
            if r["id"] in st.env:
                b = st.env[r["id"]]
                return [(st, b)]
            return self.global_var(e, r, st)
        if k in FUNC_KINDS:
            return [(st, FnRef(r["id"], r["name"], r.get("type", {}).get("qualType", "")))]
        if k == "NonTypeTemplateParmDecl":
            raise Unsupported("template parameter reference")
        raise Unsupported("reference to %s %s" % (k, r.get("name")))

    def global_var(self, e, r, st):
        name = r["name"]
        d = self.tu.decls.get(r["id"])
        if d is not None:
            # const global / constexpr with an initialiser
            ini = [c for c in self.kids(d) if not c["kind"].endswith("Attr")]
            if ini and ("const" in d["type"]["qualType"] or d.get("constexpr")):
                def f(s, v):
                    c = self.new_cell(s, v)
                    lv = LV(c, (), v.ty if isinstance(v, Val) else None)
                    s.env[r["id"]] = lv
                    return [(s, lv)]
                return self.bind(self.rv(ini[0], st), f)
        if name == "nullopt":
            return [(st, VNull())]
        if name in ("cerr", "cout", "clog"):
            return [(st, VOpaque("stream"))]
        if name in ("less", "equal", "greater"):
            v = {"less": -1, "equal": 0, "greater": 1}[name]
            return [(st, scalar(ORD, v))]
        if name == "digits":
            from . import stdlib
            txt = stdlib.source_text(self, e)
            m = re.search(r"numeric_limits<\s*(.*)\s*>::digits", txt or "")
            if m is None:
                raise Unsupported("numeric_limits digits")
            a = m.group(1).strip()
            bits = {"long long": 63, "unsigned long long": 64, "int": 31, "unsigned": 32, "std::size_t": 64, "size_t": 64}.get(a)
            if bits is None and re.match(r"decltype\([\w.]*raw_value\)$", a):
                bits = 63
            if bits is None:
                raise Unsupported("numeric_limits<%s>::digits" % a)
            return [(st, scalar(INT, bits))]
        if name == "npos":
            return [(st, scalar(ULL, (1 << 64) - 1))]
        t = e["type"].get("qualType", "")
        if name in ("size", "begin", "end", "transform", "filter", "drop", "take", "iota", "sort", "min", "max", "reverse", "zip", "all_of", "any_of", "find", "lower_bound", "upper_bound", "to", "keys", "values", "none_of", "max_element", "min_element", "copy", "fill", "equal", "contains", "partition_point", "accumulate", "unique", "empty", "elements", "is_sorted", "equal_range", "stable_sort", "make_heap", "push_heap", "pop_heap", "count_if", "count", "find_if"):
            return [(st, FnRef(None, "ranges::" + name, t))]
        raise Unsupported("global variable " + name)

    # ---- casts
    def e_ImplicitCastExpr(self, e, st):
        ck = e.get("castKind")
        sube = self.kids(e)[0]
        if ck == "LValueToRValue":
            return self.rv(sube, st)
        if ck in ("NoOp", "FunctionToPointerDecay", "BuiltinFnToFnPtr"):
            return self.ev(sube, st)
        if ck == "ArrayToPointerDecay":
            return self.ev(sube, st)
        if ck in ("ConstructorConversion", "UserDefinedConversion"):
            return self.ev(sube, st)
        if ck in ("DerivedToBase", "UncheckedDerivedToBase"):
            return self.ev(sube, st)
        if ck in ("NullToPointer", "NullToMemberPointer"):
            return [(st, VNull())]
        if ck == "ToVoid":
            return self.bind(self.ev(sube, st), lambda s, v: [(s, VOpaque("void"))])
        if ck == "IntegralCast":
            t = self.ty(e)
            return self.bind(self.rv(sube, st), lambda s, v: [(s, self.conv_int(s, v, t))])
        if ck == "IntegralToBoolean":
            return self.bind(self.rv(sube, st), lambda s, v: [(s, scalar(BOOL, self.truth(v)))])
        if ck in ("PointerToBoolean",):
            return self.bind(self.rv(sube, st), lambda s, v: [(s, scalar(BOOL, self.truth(v)))])
        if ck == "FloatingToIntegral":
            raise Unsupported("floating point")
        if ck in ("IntegralToFloating", "FloatingCast"):
            return self.bind(self.ev(sube, st), lambda s, v: [(s, VOpaque("float"))])   # rounding is not modelled: nothing is known of the value
        if ck == "Dependent":
            raise Unsupported("dependent cast")
        raise Unsupported("cast %s at %s" % (ck, loc(e)))

    e_CStyleCastExpr = e_CXXStaticCastExpr = e_CXXFunctionalCastExpr = e_ImplicitCastExpr
    e_CXXConstCastExpr = e_ImplicitCastExpr

    def conv_int(self, st, v, t):
        if isinstance(v, VOpaque):
            return v
        if v.ty.k == "bool":
            return scalar(t, z3.If(v.t, I(1), I(0)))
        if t.k == "bool":
            return scalar(BOOL, self.truth(v))
        r, src = int_range(t), int_range(v.ty)
        if src[0] >= r[0] and src[1] <= r[1]:
            return Val(t, {(): v.t})
        if is_const_int(v.t):
            x = v.t.as_long()
            n = r[1] - r[0] + 1
            x = (x - r[0]) % n + r[0]
            return scalar(t, x)
        return scalar(t, self.wrap(st, v.t, r))

    def wrap(self, st, x, r):
        """reduce x modulo 2^n into r, avoiding 'mod' where no wrap is provable"""
        if self.quick(st, z3.And(x >= r[0], x <= r[1])):
            return x
        n = r[1] - r[0] + 1
        if self.quick(st, z3.And(x >= r[0] - n, x <= r[1] + n)):
            return z3.If(x < r[0], x + n, z3.If(x > r[1], x - n, x))
        return (x - r[0]) % n + r[0]

    # ---- operators
    def arith(self, st, op, a, b, t, node):
        """machine arithmetic in type t -> term (adds overflow obligations)"""
        x, y = a.t, b.t
        if t.k == "bool":
            raise Unsupported("bool arithmetic")
        r = int_range(t)
        signed = t.a[1]
        if op in ("+", "-", "*"):
            z = x + y if op == "+" else (x - y if op == "-" else x * y)
            z = simp(z) if is_const_int(x) and is_const_int(y) else z
            if signed:
                self.oblige(st, z3.And(z >= r[0], z <= r[1]), "no signed overflow in '%s'" % op, "overflow", node)
                st.assume(z3.And(z >= r[0], z <= r[1]))
                return z
            return self.wrap(st, z, r)
        if op in ("/", "%"):
            self.oblige(st, y != 0, "divisor is not zero", "overflow", node)
            if signed:
                self.oblige(st, z3.Not(z3.And(x == r[0], y == -1)), "no overflow in division", "overflow", node)
            st.assume(y != 0)
            if is_const_int(x) and is_const_int(y) and y.as_long() != 0:
                a_, b_ = x.as_long(), y.as_long()
                q = abs(a_) // abs(b_) * (1 if (a_ >= 0) == (b_ >= 0) else -1)
                return I(q if op == "/" else a_ - q * b_)
            if not signed and is_const_int(y):
                return x / y if op == "/" else x % y
            q, rr = self.tdivmod(st, x, y)
            return q if op == "/" else rr
        if op in ("<<", ">>"):
            w = t.a[0]
            self.oblige(st, z3.And(y >= 0, y < w), "shift count in range", "overflow", node)
            st.assume(z3.And(y >= 0, y < w))
            p = self.pow2_term(st, y, w)
            if op == ">>":
                if is_const_int(y):
                    return x / I(1 << y.as_long())
                return z3.If(y == 0, x, x / p)
            z = simp(x * p) if is_const_int(x) else x * p
            if signed:
                # C++20: value is congruent modulo 2^w
                return self.wrap(st, z, r)
            return self.wrap(st, z, r)
        if op in ("&", "|", "^"):
            if is_const_int(x) and is_const_int(y):
                a_, b_ = x.as_long(), y.as_long()
                return I({"&": a_ & b_, "|": a_ | b_, "^": a_ ^ b_}[op])
            for u, c in ((x, y), (y, x)):
                if op == "&" and is_const_int(c) and c.as_long() >= 0 and (c.as_long() + 1) & c.as_long() == 0:
                    return u % I(c.as_long() + 1)
            if op in ("&", "|", "^") and self.quick(st, z3.And(x >= 0, x <= 1, y >= 0, y <= 1)):
                if op == "&":
                    return x * y if False else z3.If(z3.And(x == 1, y == 1), I(1), I(0))
                if op == "|":
                    return z3.If(z3.Or(x == 1, y == 1), I(1), I(0))
                return z3.If(x != y, I(1), I(0))
            raise Unsupported("bit operation %s at %s" % (op, loc(node)))
        raise Unsupported("operator " + op)

    def pow2_term(self, st, y, w):
        if is_const_int(y):
            return I(1 << y.as_long())
        t = I(1 << (w - 1))
        for k in range(w - 2, -1, -1):
            t = z3.If(y == k, I(1 << k), t)
        return t

    def tdivmod(self, st, x, y):
        key = ("tdiv", x.get_id(), y.get_id())
        if key in st.ghost and st.ghost[key][2].eq(x) and st.ghost[key][3].eq(y):
            return st.ghost[key][:2]
        if is_const_int(y):
            c = abs(y.as_long())
            sg = 1 if y.as_long() > 0 else -1
            q0 = z3.If(x >= 0, x / I(c), -((-x) / I(c)))
            q = q0 if sg > 0 else -q0
            return q, x - y * q
        q, r = TQ(x, y), TR(x, y)
        for c in tdiv_axioms(x, y, q, r):
            st.assume(c)
        st.ghost[key] = (q, r, x, y)
        return q, r

    def cmp(self, op, a, b):
        if op == "==":
            return a == b
        if op == "!=":
            return a != b
        return {"<": a < b, "<=": a <= b, ">": a > b, ">=": a >= b}[op]

    def e_BinaryOperator(self, e, st):
        op = e["opcode"]
        l, r = self.kids(e)
        if op in ("&&", "||"):
            return self.logic(op, l, r, st)
        if op == ",":
            return self.bind(self.ev(l, st), lambda s, _: self.ev(r, s))
        if op == "=":
            # C++17: right operand first
            def f(s, v):
                def g(s2, lv):
                    if isinstance(lv, VOpaque):   # a part of something that is not looked at
                        return [(s2, lv)]
                    self.write(s2, lv, v)
                    return [(s2, lv)]
                return self.bind(self.ev(l, s), g)
            return self.bind(self.rv(r, st), f)

        def f2(s, vs):
            a, b = vs
            if op in ("==", "!=", "<", "<=", ">", ">="):
                return [(s, scalar(BOOL, self.compare(s, op, a, b)))]
            if isinstance(a, VIter) or isinstance(b, VIter) or isinstance(a, VPtr):
                raise Unsupported("pointer arithmetic at " + loc(e))
            t = self.ty(e)
            if e["type"]["qualType"] in ("double", "float") and (isinstance(a, VOpaque) or isinstance(b, VOpaque)):
                return [(s, VOpaque("float"))]
            return [(s, scalar(t, self.arith(s, op, a, b, t, e)))]
        return self.bind(self.rvs([l, r], st), f2)

    def compare(self, s, op, a, b):
        if isinstance(a, (VPtr, VNull)) and isinstance(b, (VPtr, VNull)):
            la = a.lv if isinstance(a, VPtr) else None
            lb = b.lv if isinstance(b, VPtr) else None
            if la is None or lb is None:
                r = la is None and lb is None
            elif la.cell != lb.cell:
                r = False
            elif self.same_lv(la, lb):
                r = True
            else:
                raise Unsupported("pointer comparison")
            return z3.BoolVal(r == (op == "=="))
        if isinstance(a, VIter) and isinstance(b, VIter):
            return self.cmp(op, a.idx, b.idx)
        if isinstance(b, VNull) and isinstance(a, Val) and a.ty.k == "uptr":
            c = z3.Not(self.truth(a))
            return c if op == "==" else z3.Not(c)
        if isinstance(a, Val) and isinstance(b, Val):
            if a.ty.k == "bool" and b.ty.k == "bool":
                if op in ("==", "!="):
                    return self.cmp(op, a.t, b.t)
                return self.cmp(op, z3.If(a.t, I(1), I(0)), z3.If(b.t, I(1), I(0)))
            if a.ty.k in ("int", "enum") and b.ty.k in ("int", "enum"):
                return self.cmp(op, a.t, b.t)
        if isinstance(a, VOpaque) or isinstance(b, VOpaque):
            return z3.Bool(fresh_name("opaque"))
        raise Unsupported("comparison of %r and %r" % (a, b))

    def logic(self, op, l, r, st):
        def f(s, v):
            a = simp(self.truth(v))
            short = (op == "||")
            if z3.is_true(a) and op == "&&" or z3.is_false(a) and op == "||":
                return self.bind(self.rv(r, s), lambda s2, w: [(s2, scalar(BOOL, self.truth(w)))])
            if z3.is_true(a) or z3.is_false(a):
                return [(s, scalar(BOOL, short))]
            # try to evaluate the right side purely under the guard
            n0 = len(self.obls)
            s2 = s.copy()
            s2.assume(a if op == "&&" else z3.Not(a))
            rs = self.rv(r, s2)
            if len(rs) == 1 and not isinstance(rs[0][1], Raise) and self.pure(s2_before=s, s2=rs[0][0]):
                b = self.truth(rs[0][1])
                g = a if op == "&&" else z3.Not(a)
                # facts learned while evaluating the right side hold under the guard
                for c in rs[0][0].pc[len(s.pc) + 1:]:
                    s.assume(z3.Implies(g, c))
                return [(s, scalar(BOOL, z3.And(a, b) if op == "&&" else z3.Or(a, b)))]
            del self.obls[n0:]
            out = []
            for s3, bv in self.branch(s, a, l):
                if bv == short:
                    out.append((s3, scalar(BOOL, short)))
                else:
                    out.extend(self.bind(self.rv(r, s3), lambda s4, w: [(s4, scalar(BOOL, self.truth(w)))]))
            return out
        return self.bind(self.rv(l, st), f)

    def pure(self, s2_before, s2):
        for c, v in s2_before.cells.items():
            w = s2.cells.get(c)
            if w is v:
                continue
            if isinstance(v, Val) and isinstance(w, Val) and all(w.lv.get(p) is not None and w.lv[p].eq(t) for p, t in v.lv.items()):
                continue
            return False
        return True

    def e_ConditionalOperator(self, e, st):
        c, a, b = self.kids(e)
        lvalue = e.get("valueCategory") == "lvalue"

        def f(s, v):
            t = simp(self.truth(v))
            if z3.is_true(t):
                return self.ev(a, s)
            if z3.is_false(t):
                return self.ev(b, s)
            if True:
                n0 = len(self.obls)
                sa = s.copy()
                sa.assume(t)
                ra = self.rv(a, sa)
                sb = s.copy()
                sb.assume(simp(z3.Not(t)))
                rb = self.rv(b, sb)
                if len(ra) == 1 and len(rb) == 1 and not isinstance(ra[0][1], Raise) and not isinstance(rb[0][1], Raise) \
                        and self.pure(s, ra[0][0]) and self.pure(s, rb[0][0]) and not (self.cur.fork_cond) \
                        and (not lvalue or True):
                    try:
                        val = self.ite(t, ra[0][1], rb[0][1])
                        npc = len(s.pc)
                        for x in ra[0][0].pc[npc + 1:]:
                            s.assume(z3.Implies(t, x))
                        for x in rb[0][0].pc[npc + 1:]:
                            s.assume(z3.Implies(z3.Not(t), x))
                        if lvalue and e["type"]["qualType"].find("const") < 0 and not self.readonly_ok(e):
                            raise Unsupported("lvalue conditional")
                        return [(s, val)]
                    except Unsupported:
                        pass
                del self.obls[n0:]
            out = []
            for s3, bv in self.branch(s, t, c):
                out.extend(self.ev(a if bv else b, s3))
            return out
        return self.bind(self.rv(c, st), f)

    def readonly_ok(self, e):
        return False

    def e_UnaryOperator(self, e, st):
        op = e["opcode"]
        x = self.kids(e)[0]
        if op == "!":
            return self.bind(self.rv(x, st), lambda s, v: [(s, scalar(BOOL, z3.Not(self.truth(v))))])
        if op in ("++", "--"):
            post = e.get("isPostfix")

            def f(s, lv):
                if isinstance(lv, VOpaque):
                    return [(s, lv)]
                v = self.read(s, lv)
                if isinstance(v, VIter):
                    nv = VIter(v.lv, v.idx + (1 if (op == "++") != v.rev else -1), v.rev)
                else:
                    t = v.ty
                    nv = scalar(t, self.arith(s, "+" if op == "++" else "-", v, scalar(t, 1), t, e))
                self.write(s, lv, nv)
                return [(s, v if post else lv)]
            return self.bind(self.ev(x, st), f)
        if op == "-":
            t = self.ty(e)
            return self.bind(self.rv(x, st), lambda s, v: [(s, scalar(t, self.arith(s, "-", scalar(t, 0), v, t, e)))])
        if op == "+":
            return self.rv(x, st)
        if op == "~":
            t = self.ty(e)
            r = int_range(t)
            return self.bind(self.rv(x, st), lambda s, v: [(s, scalar(t, (-1 - v.t) if t.a[1] else (r[1] - v.t)))])
        if op == "*":
            def g(s, v):
                return [(s, self.deref(s, v, e))]
            return self.bind(self.rv(x, st), g)
        if op == "&":
            def h(s, v):
                if isinstance(v, LV):
                    return [(s, VPtr(v))]
                if isinstance(v, FnRef):
                    return [(s, v)]
                raise Unsupported("address of rvalue")
            return self.bind(self.ev(x, st), h)
        raise Unsupported("unary " + op)

    def deref(self, s, v, node):
        if isinstance(v, VPtr):
            if v.lv is None:
                self.oblige(s, FALSE, "no null dereference", "memory", node)
                raise Unsupported("null dereference")
            return v.lv
        if isinstance(v, VIter):
            return self.iter_target(s, v, node)
        raise Unsupported("dereference of %s at %s" % (type(v).__name__, loc(node)))

    def iter_target(self, s, it, node):
        n = self.read_len(s, it.lv)
        i = simp(it.idx - 1) if it.rev else it.idx   # a reverse iterator refers to the element before its base
        self.oblige(s, z3.And(i >= 0, i < n), "iterator dereference in bounds", "memory", node)
        s.assume(z3.And(i >= 0, i < n))
        return it.lv.i(i, it.lv.ty.a[0])

    def read_len(self, s, lv):
        v = self.read(s, lv)
        if isinstance(v, VList):
            return I(len(v.elems))
        if isinstance(v, VRange):
            return v.n
        n = v.lv[("#",)]
        self.len_fact(s, n)
        return n

    def len_fact(self, s, n):
        if not is_const_int(n) and n.get_id() not in s.ranged:
            s.ranged.add(n.get_id())
            s.assume(z3.And(n >= 0, n <= (1 << 59)))

    def e_CompoundAssignOperator(self, e, st):
        op = e["opcode"][:-1]
        l, r = self.kids(e)
        ct = self.types.parse(e.get("computeResultType", {}).get("desugaredQualType", e.get("computeResultType", {}).get("qualType", e["type"]["qualType"])), e["type"]["qualType"])

        if ct.k == "opaque":
            return self.bind(self.evs([r, l], st), lambda s, vs: [(s, vs[1])])

        def f(s, v):
            def g(s2, lv):
                cur = self.read(s2, lv)
                if cur.ty.k == "bool" or v.ty.k == "bool":
                    a, b = self.truth(cur), self.truth(v)
                    if op == "|":
                        nv = scalar(BOOL, z3.Or(a, b))
                    elif op == "&":
                        nv = scalar(BOOL, z3.And(a, b))
                    elif op == "^":
                        nv = scalar(BOOL, z3.Xor(a, b))
                    else:
                        raise Unsupported("bool compound " + op)
                else:
                    lt = self.types.parse(e.get("computeLHSType", {}).get("desugaredQualType", e.get("computeLHSType", {}).get("qualType", "long long")))
                    a = self.conv_int(s2, cur, lt)
                    t = self.arith(s2, op, a, v, ct, e)
                    nv = self.conv_int(s2, scalar(ct, t), cur.ty)
                self.write(s2, lv, nv)
                return [(s2, lv)]
            return self.bind(self.ev(l, s), g)
        return self.bind(self.rv(r, st), f)

    def e_CXXRewrittenBinaryOperator(self, e, st):
        return self.ev(self.kids(e)[0], st)

    def e_ArraySubscriptExpr(self, e, st):
        def f(s, vs):
            base, idx = vs
            lv = base if isinstance(base, LV) else (base.lv if isinstance(base, VPtr) else None)
            if lv is None:
                raise Unsupported("subscript")
            i = self.read(s, idx).t if isinstance(idx, LV) else idx.t
            return [(s, self.index(s, lv, i, e))]
        return self.bind(self.evs(self.kids(e), st), f)

    def index(self, s, lv, i, node, checked=False):
        cont = self.read(s, lv)
        if isinstance(cont, VList):
            cont = self.list_to_vec(s, cont, cont.ty)
            self.write(s, lv, cont)
        if isinstance(cont, VRange):
            c = self.new_cell(s, cont.at(i))
            return LV(c, (), cont.ty.a[0])
        n = cont.lv[("#",)]
        self.len_fact(s, n)
        self.oblige(s, z3.And(i >= 0, i < n), "index within bounds", "memory", node)
        s.assume(z3.And(i >= 0, i < n))
        return LV(lv.cell, lv.path, cont.ty).i(i, cont.ty.a[0])

    def e_MemberExpr(self, e, st):
        base = self.kids(e)[0]
        name = e["name"]

        def f(s, v):
            if e.get("isArrow"):
                if isinstance(v, LV):
                    v = self.read(s, v)
                v = self.deref(s, v, e)
            if isinstance(v, LV):
                cv = self.read(s, v)
                if isinstance(cv, Val):
                    fs = self.field_of(cv.ty, name)
                    if fs is not None:
                        return [(s, v.f(fs[0], fs[1]))]
                if isinstance(cv, VOpaque):
                    return [(s, VOpaque())]
            if isinstance(v, Val):
                fs = self.field_of(v.ty, name)
                if fs is not None:
                    return [(s, self.vread(v, (("f", fs[0]),)))]
            raise Unsupported("member %s at %s" % (name, loc(e)))
        return self.bind(self.ev(base, st), f)

    def field_of(self, ty, name):
        if ty.k == "rec":
            for n, t, _ in self.types.fields(ty):
                if n == name:
                    return (n, t)
        if ty.k == "tuple" and name in ("first", "second"):
            i = 0 if name == "first" else 1
            return (str(i), ty.a[i])
        if ty.k == "rec":
            for n, t, _ in self.types.fields(ty):
                if n == "base" and t.k in ("tuple",):
                    pass
        return None

    # ---- construction
    def e_InitListExpr(self, e, st):
        t = self.ty(e)
        ks = self.kids(e)
        if t.k == "rec":
            fl = [f for f in self.types.fields(t)]
            if len(ks) != len(fl):
                if len(ks) == 1 and self.ty(ks[0]) == t:
                    return self.rv(ks[0], st)
                if len(ks) > len(fl):
                    raise Unsupported("init list shape for %s" % t)

            def f(s, vs):
                if t.k == "rec" and any(x[1].k in ("fn", "ptr") for x in fl):
                    raise Unsupported("aggregate holding pointers")
                lv = {}
                for (n, ft, _), v in zip(fl, vs):
                    w = self.as_val(s, v, ft)
                    for p, x in w.lv.items():
                        lv[(n,) + p] = x
                for n, ft, _ in fl[len(vs):]:
                    for p, x in self.default_val(ft).lv.items():
                        lv[(n,) + p] = x
                return [(s, Val(t, lv))]
            return self.bind(self.rvs(ks, st), f)
        if t.k == "vec":
            return self.bind(self.rvs(ks, st), lambda s, vs: [(s, VList(vs, t))])
        if t.k == "fn":  # overloaded{...}
            return self.bind(self.rvs(ks, st), lambda s, vs: [(s, VFn(overloads=vs))])
        if len(ks) == 1:
            return self.rv(ks[0], st)
        if len(ks) == 0:
            return [(st, self.default_val(t))]
        raise Unsupported("init list of %s" % t)

    def e_CXXDefaultInitExpr(self, e, st):
        ks = self.kids(e)
        if ks:
            return self.ev(ks[0], st)
        raise Unsupported("default member initialiser")

    e_CXXDefaultArgExpr = e_CXXDefaultInitExpr

    def e_CXXStdInitializerListExpr(self, e, st):
        def f(s, v):
            if isinstance(v, LV):
                v = self.read(s, v)
            return [(s, v)]
        return self.bind(self.ev(self.kids(e)[0], st), f)

    def e_CXXConstructExpr(self, e, st):
        from . import stdlib
        return stdlib.construct(self, e, st)

    e_CXXTemporaryObjectExpr = e_CXXConstructExpr

    def e_CXXUnresolvedConstructExpr(self, e, st):
        raise Unsupported("dependent construct")

    def e_CXXParenListInitExpr(self, e, st):
        return self.e_InitListExpr(e, st)

    # ---- calls
    def e_UserDefinedLiteral(self, e, st):
        return self.e_CallExpr(e, st)

    def e_CallExpr(self, e, st):
        from . import stdlib
        ks = self.kids(e)
        rs = self.ev(ks[0], st)

        def f(s, fn):
            if isinstance(fn, LV):
                fn = self.read(s, fn)
            if isinstance(fn, VFn):
                return self.bind(self.evs(ks[1:], s), lambda s2, a: self.call_fn(fn, a, s2, e))
            if isinstance(fn, VPtr):
                raise Unsupported("call through pointer")
            d = self.tu.func_for(fn.decl) if fn.decl else None
            c = self.contract_for(fn.decl) if fn.decl else None
            if self.hooks and fn.decl in self.tu.decls:
                x = self.hooks.get(self.tu.decls[self.tu.root(fn.decl)].get("_q") or self.tu.decls[fn.decl].get("_q"))
                if x is not None:
                    return x(self, None, ks[1:], s, e)
            if self.hooks and d is None and c is None:
                x = self.hooks.get(("fn", fn.name))
                if x is not None:
                    return x(self, None, ks[1:], s, e)
            if c is None and d is None and fn.decl in self.tu.decls:
                q = self.tu.decls[fn.decl].get("_q", fn.name)
                x = self.extern(q)
                if x is not None:
                    return x(self, ks[1:], s, e)
            if d is None and c is None:
                return stdlib.call(self, fn, ks[1:], s, e)
            if c is not None and d is None:
                d = self.tu.decls[fn.decl]
            return self.bind(self.evs(ks[1:], s), lambda s2, a: self.call_decl(d, a, None, s2, e))
        return self.bind(rs, f)

    externs = {}
    # calls specified at the call (arguments not yet evaluated), even where there is a body: name -> f(engine, object expression, arguments, state, call)
    hooks = {}
    auto_inv = None   # clauses every loop keeps: f(engine, state at entry, state) -> [(name, formula)]

    def extern(self, q):
        return self.externs.get(q)

    def contract_for(self, declid):
        if declid not in self.tu.decls:
            return None
        r = self.tu.root(declid)
        if r in self._bycontract:
            return self._bycontract[r]
        d = self.tu.body_of.get(r) or self.tu.decls[declid]
        res = None
        for c in self.registry:
            if c.matches(self, d):
                res = c
                break
        self._bycontract[r] = res
        return res

    def e_CXXOperatorCallExpr(self, e, st):
        from . import stdlib
        ks = self.kids(e)
        fnexpr = ks[0]
        while fnexpr["kind"] in ("ImplicitCastExpr", "ParenExpr"):
            fnexpr = self.kids(fnexpr)[0]
        if fnexpr["kind"] != "DeclRefExpr":
            raise Unsupported("operator call shape")
        r = fnexpr["referencedDecl"]
        name = r["name"]
        d = self.tu.func_for(r["id"])
        if self.hooks and r["id"] in self.tu.decls:
            x = self.hooks.get(self.tu.decls[self.tu.root(r["id"])].get("_q") or self.tu.decls[r["id"]].get("_q"))
            if x is not None:
                return x(self, ks[1], ks[2:], st, e)
        if name == "operator()":
            if self.hooks:
                o = ks[1]
                while o["kind"] in ("ImplicitCastExpr", "ParenExpr"):
                    o = self.kids(o)[0]
                x = self.hooks.get(("call", o.get("name") or (o.get("referencedDecl") or {}).get("name")))
                if x is not None:
                    return x(self, ks[1], ks[2:], st, e)

            def f(s, fn):
                if isinstance(fn, LV):
                    flv = fn
                    fn = self.read(s, fn)
                    if isinstance(fn, Val) and fn.ty.k == "rec" and (d is not None or self.contract_for(r["id"]) is not None):
                        dd = d or self.tu.decls[r["id"]]
                        return self.bind(self.evs(ks[2:], s), lambda s2, a: self.call_decl(dd, a, flv, s2, e))
                    if isinstance(fn, Val) and fn.ty.k == "opaque":
                        # a library function object (such as a random engine): any value
                        return self.bind(self.evs(ks[2:], s), lambda s2, a: [(s2, self.fresh(self.ty(e), "opaque_call", s2))])
                if isinstance(fn, FnRef):
                    return stdlib.call(self, fn, ks[2:], s, e)
                if isinstance(fn, Val) and fn.ty.k == "tuple" and "uniform_int_distribution" in ks[1]["type"].get("desugaredQualType", ks[1]["type"]["qualType"]):
                    # any number between its two ends
                    lo, hi = fn.lv[("0",)], fn.lv[("1",)]
                    self.oblige(s, lo <= hi, "the distribution is not empty", "pre", e)
                    s = s.copy()
                    drawn = self.fresh(fn.ty.a[0], "drawn", s)
                    s.assume(z3.And(lo <= drawn.t, drawn.t <= hi))
                    return [(s, drawn)]
                if isinstance(fn, Val) and fn.ty.k == "fn" and len(ks) == 2 and ("ghost", "calls") in s.cells and e["type"]["qualType"] == "void":
                    # a function object held somewhere: the call is counted
                    s = s.copy()
                    old = s.cells["ghost", "calls"].lv[()]
                    s.cells["ghost", "calls"] = Val(GHOST, {(): z3.Store(old, fn.t, z3.Select(old, fn.t) + 1)})
                    return [(s, VOpaque("void"))]
                if not isinstance(fn, VFn):
                    raise Unsupported("call of %s at %s" % (type(fn).__name__, loc(e)))
                return self.bind(self.evs(ks[2:], s), lambda s2, a: self.call_fn(fn, a, s2, e, declid=r["id"]))
            return self.bind(self.ev(ks[1], st), f)
        c = self.contract_for(r["id"])
        if d is None and c is None and r["id"] in self.tu.decls:
            # defaulted comparison?
            pass
        if d is not None or c is not None:
            dd = d or self.tu.decls[r["id"]]
            if c is None and dd.get("explicitlyDefaulted") or c is None and dd.get("isImplicit") or (c is None and dd.get("_body") is not None and not dd["_body"].get("inner") and name in ("operator==", "operator<=>", "operator=")):
                if name in ("operator==", "operator<=>", "operator=", "operator!=", "operator<"):
                    return stdlib.operator(self, name, ks[1:], st, e)
            if name in ("operator==", "operator<=>") and c is None and dd.get("explicitlyDefaulted"):
                return stdlib.operator(self, name, ks[1:], st, e)
            if dd["kind"] == "CXXMethodDecl":
                def g(s, vs):
                    obj = vs[0]
                    if not isinstance(obj, LV):
                        obj = LV(self.new_cell(s, obj), (), obj.ty)
                    return self.call_decl(dd, vs[1:], obj, s, e)
                # assignment-like operators evaluate right to left
                if name.endswith("=") and name not in ("operator==", "operator<=", "operator>=", "operator!="):
                    rev = list(reversed(ks[1:]))
                    return self.bind(self.evs(rev, st), lambda s, vs: g(s, list(reversed(vs))))
                return self.bind(self.evs(ks[1:], st), g)
            order = ks[1:]
            if name in ("operator+=", "operator-=", "operator*="):
                rev = list(reversed(order))
                return self.bind(self.evs(rev, st), lambda s, vs: self.call_decl(dd, list(reversed(vs)), None, s, e))
            return self.bind(self.evs(order, st), lambda s, vs: self.call_decl(dd, vs, None, s, e))
        return stdlib.operator(self, name, ks[1:], st, e)

    def e_CXXMemberCallExpr(self, e, st):
        from . import stdlib
        ks = self.kids(e)
        me = ks[0]
        if self.types.opaque is not None and me["kind"] == "MemberExpr" and self.kids(me) and self.is_opaque(self.kids(me)[0]):
            d = self.tu.decls.get(me.get("referencedMemberDecl")) if self.hooks else None
            x = d is not None and (self.hooks.get(self.tu.decls[self.tu.root(d["id"])].get("_q") or d.get("_q")))
            if not x:
                return [(st, VOpaque("opaque"))]
            return x(self, self.kids(me)[0], ks[1:], st, e)
        while me["kind"] in ("ParenExpr", "ImplicitCastExpr"):
            me = self.kids(me)[0]
        if me["kind"] != "MemberExpr":
            raise Unsupported("member call through %s" % me["kind"])
        did = me.get("referencedMemberDecl")
        d = self.tu.func_for(did)
        c = self.contract_for(did)
        base = self.kids(me)[0]
        if self.hooks and me.get("name") in ("load", "operator bool", "get"):
            o = base
            while o["kind"] in ("ImplicitCastExpr", "ParenExpr"):
                o = self.kids(o)[0]
            x = self.hooks.get((me["name"], o.get("name") or (o.get("referencedDecl") or {}).get("name")))
            if x is not None:
                return x(self, base, ks[1:], st, e)
        if self.hooks and did in self.tu.decls:
            x = self.hooks.get(self.tu.decls[self.tu.root(did)].get("_q") or self.tu.decls[did].get("_q"))
            if x is not None:
                return x(self, base, ks[1:], st, e)
        if d is None and c is None and did in self.tu.decls:
            q = self.tu.decls[did].get("_q", me["name"])
            x = self.extern(q)
            if x is not None:
                return x(self, ks, st, e)
        if d is not None or c is not None:
            dd = d or self.tu.decls[did]

            def f(s, b):
                if me.get("isArrow"):
                    if isinstance(b, LV):
                        b = self.read(s, b)
                    b = self.deref(s, b, e) if not (isinstance(b, Val) and b.ty.k == "uptr") else b
                if not isinstance(b, LV):
                    if isinstance(b, VFn):
                        return self.bind(self.evs(ks[1:], s), lambda s2, a: self.call_fn(b, a, s2, e))
                    b = LV(self.new_cell(s, b), (), b.ty)
                return self.bind(self.evs(ks[1:], s), lambda s2, a: self.call_decl(dd, a, b, s2, e))
            return self.bind(self.ev(base, st), f)
        return stdlib.member(self, me, ks[1:], st, e)

    def ret_is_ref(self, d):
        t = d["type"]["qualType"]
        if "->" in t:
            t = t.rpartition("->")[2]
            return t.strip().endswith("&")
        return t.split("(")[0].strip().endswith("&")

    def ret_type(self, d, call=None):
        t = d["type"]["qualType"]
        if "->" in t:
            r = t.rpartition("->")[2]
        else:
            r = t.split("(")[0]
        return self.types.parse(r.strip(), None)

    def call_decl(self, d, args, this, st, node):
        """call of a known /repo function: by contract, or inlined"""
        c = self.contract_for(d["id"])
        if c is not None and not (self.cur is c and not self.active_recursive(d)):
            return self.call_contract(c, d, args, this, st, node)
        if c is not None and self.cur is c:
            return self.call_contract(c, d, args, this, st, node)
        if d.get("_body") is None:
            raise Unsupported("no body and no contract for %s" % d.get("_q"))
        return self.inline(d, args, this, st, node)

    def active_recursive(self, d):
        return True

    def inline(self, d, args, this, st, node, caps=None, names=None, roots=()):
        if d["_root"] in self.active:
            raise Unsupported("recursion through %s needs a contract" % d.get("_q"))
        if len(self.active) > 40:
            raise Unsupported("call depth")
        self.inlined.add((d.get("_q") or "lambda", loc(d)))
        st = st.copy()
        saved = {}
        saved_names = st.names
        st.names = dict(names if names is not None else {})

        def setenv(i, v):
            saved[i] = st.env.get(i)
            st.env[i] = v
        for i, v in (caps or {}).items():
            setenv(i, v)
        if this is not None:
            setenv("this", this)
        self.bind_params(d, args, st, setenv)
        if d.get("_coro"):
            setenv("#refs", self.coro_refs(d, st) | set(roots))
        self.active.append(d["_root"])
        try:
            outs = []
            ref = self.ret_is_ref(d) or node is not None and node.get("valueCategory") == "lvalue"
            starts = [st]
            if d["kind"] == "CXXConstructorDecl":
                starts = None
            for s2, o in self.exec_body(d, st):
                for i, v in saved.items():
                    if v is None:
                        s2.env.pop(i, None)
                    else:
                        s2.env[i] = v
                s2.names = saved_names
                if o[0] == "throw":
                    outs.append((s2, o[1]))
                elif o[0] == "ret":
                    v = o[1]
                    if isinstance(v, LV) and not ref:
                        v = self.read(s2, v)
                    outs.append((s2, v))
                else:
                    outs.append((s2, VOpaque("void")))
            return self.maybe_merge(st, outs)
        finally:
            self.active.pop()

    def maybe_merge(self, st0, outs):
        if not self.cur.merge or len(outs) < 2:
            return outs
        norm = [(s, v) for s, v in outs if not isinstance(v, Raise)]
        exc = [(s, v) for s, v in outs if isinstance(v, Raise)]
        if len(norm) < 2:
            return outs
        try:
            m = self.merge(st0, [(s, v) for s, v in norm])
        except Unsupported:
            return outs
        return [m] + exc

    def merge(self, st0, pairs):
        """join several (state, value) that continue the same program point"""
        n = len(st0.pc)
        acc_s, acc_v = pairs[-1]
        base = st0.copy()
        acc = acc_s.copy()
        sufs = [z3.And(*([TRUE] + s.pc[n:])) for s, _ in pairs]
        for s, v in reversed(pairs[:-1]):
            k = pairs.index((s, v))
            c = sufs[k]
            for cell in list(acc.cells):
                if cell in s.cells:
                    a, b = s.cells[cell], acc.cells[cell]
                    if a is not b:
                        acc.cells[cell] = self.ite(c, a, b)
                elif cell in st0.cells:
                    raise Unsupported("merge: cell vanished")
            for cell in s.cells:
                if cell not in acc.cells:
                    acc.cells[cell] = s.cells[cell]
            if isinstance(v, LV) or isinstance(acc_v, LV):
                if not (isinstance(v, LV) and isinstance(acc_v, LV) and self.same_lv(v, acc_v)):
                    raise Unsupported("merging references")
            elif v is not None and acc_v is not None:
                acc_v = self.ite(c, v, acc_v)
            acc.ranged &= s.ranged
        acc.pc = list(st0.pc) + [z3.Or(*sufs)]
        acc.ghost = {k: v for k, v in acc.ghost.items() if k in st0.ghost}
        for k2 in acc.env:
            for s, _ in pairs:
                if k2 in st0.env and s.env.get(k2) is not st0.env[k2] and not (isinstance(s.env.get(k2), LV) and self.same_lv(s.env[k2], st0.env[k2])):
                    raise Unsupported("merge: rebinding")
        return (acc, acc_v)

    def bind_params(self, d, args, st, setenv):
        params = d["_params"]
        if len(args) < len(params):
            # default arguments appear as CXXDefaultArgExpr in the call, so this is a real mismatch
            raise Unsupported("argument count for %s" % d.get("_q"))
        for p, a in zip(params, args):
            self.bind_var(p, a, st, setenv)
        if len(args) > len(params):
            raise Unsupported("variadic call")

    def bind_var(self, p, a, st, setenv):
        t = p["type"]["qualType"].strip()
        isref = t.endswith("&")
        if isref:
            if not isinstance(a, LV):
                a = LV(self.new_cell(st, a), (), a.ty if isinstance(a, Val) else None)
            lv = a
        else:
            if isinstance(a, LV):
                a = self.read(st, a)
            if not isinstance(a, Val) and not isinstance(a, (VFn, VPtr, VIter, VOpaque)):
                try:
                    a = self.as_val(st, a, self.types.node(p))
                except Unsupported:
                    pass
            lv = LV(self.new_cell(st, a), (), a.ty if isinstance(a, Val) else None)
        setenv(p["id"], lv)
        if p.get("name"):
            st.names[p["name"]] = lv

    def call_fn(self, fn, args, st, node, declid=None):
        if fn.py is not None:
            return fn.py(self, args, st, node)
        if fn.overloads is not None:
            raise Unsupported("direct call of overload set")
        d = fn.node
        # generic lambda: choose the instantiation actually referenced
        if declid is not None:
            x = self.tu.func_for(declid)
            if x is not None:
                d = x
        elif isinstance(d, list):
            d = self.pick_overload(d, args, st)
        if isinstance(d, list):
            d = self.pick_overload(d, args, st)
        if "_root" not in d:
            d = self.tu.decls.get(d["id"], d)   # printed more than once
        names = dict(fn.names)
        return self.inline(d, args, fn.this, st, node, caps=fn.caps, names=names, roots={"closure"} if fn.captures else set())

    def pick_overload(self, ds, args, st):
        for d in ds:
            ok = len(d["_params"]) == len(args)
            for p, a in zip(d["_params"], args):
                t = self.types.node(p)
                at = a.ty if isinstance(a, (Val, LV)) else None
                if at is not None and t != at:
                    ok = False
            if ok:
                return d
        raise Unsupported("no matching overload of lambda")

    def e_LambdaExpr(self, e, st):
        ks = self.kids(e)
        rec = ks[0]
        ops = []
        for c in rec.get("inner", []):
            if c.get("kind") == "CXXMethodDecl" and c.get("name") == "operator()":
                ops.append(c)
            if c.get("kind") == "FunctionTemplateDecl" and c.get("name") == "operator()":
                ops += [x for x in c["inner"] if x.get("kind") == "CXXMethodDecl"][1:]
        fields = [c for c in rec.get("inner", []) if c.get("kind") == "FieldDecl"]
        capexprs = [c for c in ks[1:] if c["kind"] not in ("CompoundStmt", "CoroutineBodyStmt")]
        caps = {}
        this = st.env.get("this")
        sts = st
        fresh = self.undeclared(e)
        byref, has_this = set(), False
        for fdecl, ce in zip(fields, capexprs):
            x = ce
            while x["kind"] in ("ImplicitCastExpr", "CXXConstructExpr", "ParenExpr", "ParenListExpr", "MaterializeTemporaryExpr", "ExprWithCleanups") and self.kids(x):
                x = self.kids(x)[0]
            isref = fdecl["type"]["qualType"].strip().endswith("&")
            nm = self.tu.text_at(fdecl) if fresh else None
            if fresh and nm is None:
                raise Unsupported("captures at " + loc(e))
            if nm in fresh:
                # an init capture: declares a variable of its own
                rs = self.ev(ce, sts) if isref else self.rv(ce, sts)
                if len(rs) != 1 or isinstance(rs[0][1], Raise):
                    raise Unsupported("init capture")
                if fresh[nm] is None:
                    raise Unsupported("two captures named %s at %s" % (nm, loc(e)))
                sts, v = rs[0]
                if isref:
                    byref.add(fresh[nm])
                caps[fresh[nm]] = v if isref and isinstance(v, LV) else LV(self.new_cell(sts, v), (), v.ty if isinstance(v, Val) else None)
            elif x["kind"] == "DeclRefExpr" and (isref or ce["kind"] in ("ImplicitCastExpr", "DeclRefExpr", "CXXConstructExpr")):
                rid = x["referencedDecl"]["id"]
                b = sts.env.get(rid)
                if b is None:
                    continue
                if isref:
                    byref.add(rid)
                    caps[rid] = b
                else:
                    v = self.read(sts, b)
                    caps[rid] = LV(self.new_cell(sts, v), (), v.ty if isinstance(v, Val) else None)
            elif x["kind"] == "CXXThisExpr":
                has_this = True
            else:
                # an init capture the body does not mention: only its evaluation matters
                rs = self.rv(ce, sts)
                if len(rs) != 1 or isinstance(rs[0][1], Raise):
                    raise Unsupported("init capture")
                sts = rs[0][0]
        if not ops:
            raise Unsupported("lambda without call operator at " + loc(e))
        fn = VFn(node=ops if len(ops) > 1 else ops[0], caps=caps, this=this, names=dict(st.names))
        fn.byref, fn.captures, fn.has_this = byref, len(fields), has_this
        return [(sts, fn)]

    # what a generator that has not run yet refers to: cells of its reference
    # parameters, of the object, of what its function objects captured
    def coro_refs(self, d, st):
        out = set()
        for p in d["_params"]:
            lv = st.env.get(p["id"])
            if isinstance(lv, LV):
                out |= {lv.cell} if p["type"]["qualType"].strip().endswith("&") else self.refs_of(st, self.read(st, lv))
        if d["kind"] == "CXXMethodDecl" and d.get("storageClass") != "static" and not self.is_lambda(d) and isinstance(st.env.get("this"), LV):
            out.add(st.env["this"].cell)
        return out

    def refs_of(self, st, v):
        """cells a value refers to, as far as generators, function objects and pointers go"""
        out = set()
        if isinstance(v, LV):
            return {v.cell}
        if isinstance(v, VPtr):
            return {v.lv.cell} if isinstance(v.lv, LV) else set()
        if isinstance(v, VFn):
            for i, lv in v.caps.items():
                if isinstance(lv, LV):
                    out |= {lv.cell} if i in v.byref else self.refs_of(st, self.read(st, lv))
            if v.has_this and isinstance(v.this, LV):
                out.add(v.this.cell)
        elif isinstance(v, Val) and self.borrowed:
            seen, todo = set(), list(v.lv.values())
            while todo:
                t = todo.pop()
                if t.get_id() in seen:
                    continue
                seen.add(t.get_id())
                if t.get_id() in self.borrowed:
                    out |= self.borrowed[t.get_id()][1]
                todo.extend(t.children())
        return out

    def borrow(self, v, cells):
        """the generator v, not yet run, refers to these cells"""
        if isinstance(v, Val) and cells:
            for p, t in v.lv.items():
                if p[:1] == ("[]",):
                    self.borrowed[t.get_id()] = (t, set(cells) | self.borrowed.get(t.get_id(), (t, set()))[1])

    @staticmethod
    def returns_generator(d):
        return re.search(r"(->|^)\s*(?:const )?(std::)?(__1::)?generator<", d["type"]["qualType"]) is not None

    def undeclared(self, e):
        """variables an expression mentions which are declared nowhere in print: those declared by init captures (name -> id)"""
        res = {}

        def note(nm, i):
            if res.setdefault(nm, i) != i:
                res[nm] = None   # ambiguous

        def rec(n):
            if n.get("kind") == "LambdaExpr":
                # what it captures by initialising, it declares itself
                ks = self.kids(n)
                own = self.undeclared(n)
                caps = [c for c in ks[1:] if c["kind"] not in ("CompoundStmt", "CoroutineBodyStmt")]
                for f, ce in zip([c for c in ks[0].get("inner", []) if c.get("kind") == "FieldDecl"], caps):
                    nm, x = self.tu.text_at(f), ce
                    while x["kind"] != "DeclRefExpr" and len(self.kids(x)) == 1:
                        x = self.kids(x)[0]
                    if nm in own and not (x["kind"] == "DeclRefExpr" and x["referencedDecl"]["id"] == own[nm]):
                        del own[nm]
                    rec(ce)
                for nm, i in own.items():
                    note(nm, i)
                return
            if n.get("kind") == "DeclRefExpr":
                r = n["referencedDecl"]
                if r.get("kind") == "VarDecl" and r["id"] not in self.tu.decls and n.get("refersToEnclosingVariableOrCapture") is not False:
                    note(r.get("name"), r["id"])
            for c in n.get("inner", []):
                if c:
                    rec(c)
        ks = self.kids(e)
        for c in [ks[0]] + [c for c in ks[1:] if c["kind"] in ("CompoundStmt", "CoroutineBodyStmt")]:
            rec(c)
        return res

    def e_CXXThrowExpr(self, e, st):
        ks = self.kids(e)
        if not ks:
            return [(st, Raise("rethrow", loc(e)))]
        x = ks[0]
        t = x["type"].get("desugaredQualType", x["type"]["qualType"])
        return [(st, Raise(self.exc_name(t), loc(e)))]

    def exc_name(self, t):
        t = re.sub(r"^const ", "", t).strip().rstrip("&").strip()
        f = self.types.find(t)
        return f or t

    def exc_is(self, t, base):
        if t == base or base == "...":
            return True
        n = self.tu.records.get(t)
        if n is None:
            return base in ("std::exception", "exception")
        for b in n.get("bases", []):
            bt = self.exc_name(b["type"].get("desugaredQualType", b["type"]["qualType"]))
            if self.exc_is(bt, base) or bt == base:
                return True
        return base in ("std::exception",)

    # ------------------------------------------------------------ statements
    # outcome: ("norm",) ("ret", v) ("brk",) ("cont",) ("throw", Raise)
    def exec_body(self, d, st):
        pre = [(st, ("norm",))]
        if d["kind"] == "CXXConstructorDecl":
            pre = self.ctor_inits(d, st)
        out = []
        for s, o in pre:
            if o[0] != "norm":
                out.append((s, o))
            elif d.get("_coro"):
                out.extend(self.coroutine(d, s))
            else:
                out.extend(self.exec(d["_body"], s))
        return out

    def coroutine(self, d, st):
        """a generator's value is the sequence of everything it yields: its body
        is run to the end (or to co_return), collecting the yields"""
        t = self.ret_type(d)
        if t.k != "vec":
            raise Unsupported("coroutine returning %s" % t)
        lv = LV(self.new_cell(st, self.default_val(t)), (), t)
        refs = st.env.get("#refs") or set()
        outer = st.env.get("co_yield")
        st.env["co_yield"] = lv
        st.names = dict(st.names)
        st.names["co_yield"] = lv
        out = []
        for s, o in self.exec(d["_body"], st):
            if outer is None:
                s.env.pop("co_yield", None)
            else:
                s.env["co_yield"] = outer
            if o[0] in ("norm", "ret"):
                o = ("ret", self.read(s, lv))
                self.borrow(o[1], refs)
            out.append((s, o))
        return out

    def e_CoyieldExpr(self, e, st):
        from . import stdlib
        call = self.kids(e)[0]
        while call["kind"] in ("MaterializeTemporaryExpr", "ExprWithCleanups", "CXXBindTemporaryExpr"):
            call = self.kids(call)[0]
        ks = self.kids(call)
        if call["kind"] != "CXXMemberCallExpr" or self.kids(e)[0] is None or ks[0].get("name") != "yield_value" or len(ks) != 2:
            raise Unsupported("co_yield shape at " + loc(e))

        def f(s, v):
            out = s.env["co_yield"]
            stdlib.MEMBERS["vec", "push_back"](self, s, out, [v], e)
            return [(s, VOpaque("void"))]
        return self.bind(self.rv(ks[1], st), f)

    def s_CoreturnStmt(self, n, st):
        return [(st, ("ret", VOpaque("void")))]

    def ctor_inits(self, d, st):
        this = st.env["this"]
        outs = [(st, ("norm",))]
        for c in self.kids(d):
            if c["kind"] != "CXXCtorInitializer":
                continue
            ai = c.get("anyInit")
            nxt = []
            for s, o in outs:
                if o[0] != "norm":
                    nxt.append((s, o))
                    continue
                x = self.kids(c)[0]
                if ai is None:
                    raise Unsupported("base initialiser")
                ft = None
                for n, t, _ in self.types.fields(this.ty):
                    if n == ai["name"]:
                        ft = t
                for s2, v in self.rv(x, s):
                    if isinstance(v, Raise):
                        nxt.append((s2, ("throw", v)))
                        continue
                    self.write(s2, this.f(ai["name"], ft), self.as_val(s2, v, ft))
                    nxt.append((s2, ("norm",)))
            outs = nxt
        return outs

    def exec(self, n, st):
        k = n["kind"]
        m = getattr(self, "s_" + k, None)
        if m is not None:
            return m(n, st)
        if k.endswith("Expr") or k.endswith("Operator") or k in ("ExprWithCleanups", "UserDefinedLiteral"):
            out = []
            for s, v in self.ev(n, st):
                out.append((s, ("throw", v) if isinstance(v, Raise) else ("norm",)))
            return out
        raise Unsupported("statement %s at %s" % (k, loc(n)))

    def seq(self, stmts, st):
        cur = [st]
        done = []
        for x in stmts:
            nxt = []
            for s in cur:
                for s2, o in self.exec(x, s):
                    if o[0] == "norm":
                        nxt.append(s2)
                    else:
                        done.append((s2, o))
            if len(nxt) > 1 and self.cur.merge:
                # join alternatives that fall through to the same point
                base = self.common_base(nxt)
                try:
                    m, _ = self.merge(base, [(s, None) for s in nxt])
                    nxt = [m]
                except Unsupported:
                    pass
            cur = nxt
            if len(cur) + len(done) > self.maxpaths:
                raise Unsupported("too many paths in " + self.cur.name)
            if not cur:
                break
        return done + [(s, ("norm",)) for s in cur]

    def common_base(self, sts):
        n = 0
        while all(len(s.pc) > n for s in sts) and all(s.pc[n].eq(sts[0].pc[n]) for s in sts):
            n += 1
        b = sts[0].copy()
        b.pc = b.pc[:n]
        return b

    def s_CompoundStmt(self, n, st):
        names = st.names
        st.names = dict(names)
        out = self.seq([c for c in n.get("inner", []) if c and c.get("kind") and not c["kind"].endswith("Comment")], st)
        for s, o in out:
            s.names = names
        return out

    def s_NullStmt(self, n, st):
        return [(st, ("norm",))]

    def s_AttributedStmt(self, n, st):
        return self.exec([c for c in self.kids(n) if not c["kind"].endswith("Attr")][0], st)

    def s_GCCAsmStmt(self, n, st):
        if n.get("inner"):
            raise Unsupported("asm")
        return [(st, ("norm",))]

    def s_DeclStmt(self, n, st):
        return self.seq([c for c in n.get("inner", []) if c and c.get("kind")], st) if False else self._decls(n, st)

    def _decls(self, n, st):
        cur = [(st, ("norm",))]
        for d in n.get("inner", []):
            if not d or not d.get("kind"):
                continue
            nxt = []
            for s, o in cur:
                if o[0] != "norm":
                    nxt.append((s, o))
                else:
                    nxt.extend(self.decl(d, s))
            cur = nxt
        return cur

    def decl(self, d, st):
        k = d["kind"]
        if k in ("TypeAliasDecl", "TypedefDecl", "UsingDecl", "UsingDirectiveDecl", "StaticAssertDecl", "CXXRecordDecl", "EmptyDecl", "UsingEnumDecl", "UsingShadowDecl", "EnumDecl", "FunctionDecl"):
            return [(st, ("norm",))]
        if k == "DecompositionDecl":
            return self.decomposition(d, st)
        if k != "VarDecl":
            raise Unsupported("declaration " + k)
        if d.get("storageClass") == "static" and "const" not in d["type"]["qualType"] and not d.get("constexpr"):
            raise Unsupported("static local variable")
        ini = [c for c in self.kids(d) if not c["kind"].endswith("Attr")]
        t = None
        try:
            t = self.types.node(d)
        except Unsupported:
            pass
        out = []

        def setenv(s, lv):
            s.env[d["id"]] = lv
            if d.get("name"):
                s.names = dict(s.names)
                s.names[d["name"]] = lv
        if not ini:
            # uninitialised scalar: arbitrary value
            v = self.fresh(t, d.get("name", "tmp"), st)
            setenv(st, LV(self.new_cell(st, v), (), t))
            return [(st, ("norm",))]
        isref = d["type"]["qualType"].strip().endswith("&")
        for s, v in (self.ev(ini[0], st) if isref else self.rv(ini[0], st)):
            if isinstance(v, Raise):
                out.append((s, ("throw", v)))
                continue
            if isref:
                if not isinstance(v, LV):
                    v = LV(self.new_cell(s, v), (), v.ty if isinstance(v, Val) else None)
                setenv(s, v)
            else:
                if not isinstance(v, (VFn, VPtr, VIter, VOpaque, VRange, FnRef)):
                    if isinstance(v, VNull) and t.k == "ptr":
                        v = VPtr(None)
                    else:
                        v = self.as_val(s, v, t)
                setenv(s, LV(self.new_cell(s, v), (), v.ty if isinstance(v, Val) else None))
            out.append((s, ("norm",)))
        return out

    def decomposition(self, d, st):
        ks = self.kids(d)
        binds = [c for c in ks if c["kind"] == "BindingDecl"]
        ini = [c for c in ks if c["kind"] != "BindingDecl" and not c["kind"].endswith("Attr")]
        isref = d["type"]["qualType"].strip().endswith("&")
        out = []
        for s, v in (self.ev(ini[0], st) if isref else self.rv(ini[0], st)):
            if isinstance(v, Raise):
                out.append((s, ("throw", v)))
                continue
            self.bind_decomposition(d, binds, v, isref, s)
            out.append((s, ("norm",)))
        return out

    def bind_decomposition(self, d, binds, v, isref, s):
        if isinstance(v, LV) and not isref:
            v = self.read(s, v)
        if isinstance(v, VOpaque):   # and so is each part
            s.names = dict(s.names)
            for b in binds:
                lv = LV(self.new_cell(s, VOpaque("opaque")), (), None)
                s.env[b["id"]] = lv
                s.names[b.get("name")] = lv
            return
        if not isinstance(v, LV):
            v = LV(self.new_cell(s, v), (), v.ty if isinstance(v, Val) else None)
        if v.ty is None:
            raise Unsupported("decomposition of non-value")
        s.names = dict(s.names)
        for i, b in enumerate(binds):
            if v.ty.k == "tuple":
                lv = v.f(str(i), v.ty.a[i])
            elif v.ty.k == "rec":
                n, t, _ = self.types.fields(v.ty)[i]
                lv = v.f(n, t)
            else:
                raise Unsupported("decomposition of %s" % v.ty)
            s.env[b["id"]] = lv
            # references inside the body may go through the hidden holding variable
            for hv in self.kids(b):
                pass
            s.names[b["name"]] = lv

    def s_ReturnStmt(self, n, st):
        ks = self.kids(n)
        if not ks:
            return [(st, ("ret", VOpaque("void")))]
        return [(s, ("throw", v) if isinstance(v, Raise) else ("ret", v)) for s, v in self.ev(ks[0], st)]

    def s_BreakStmt(self, n, st):
        return [(st, ("brk",))]

    def s_ContinueStmt(self, n, st):
        return [(st, ("cont",))]

    def s_IfStmt(self, n, st):
        ks = [c for c in n.get("inner", []) if c and c.get("kind")]
        if n.get("isConstexpr"):
            pass
        pre = [(st, ("norm",))]
        idx = 0
        if n.get("hasInit"):
            pre = self.exec(ks[0], st)
            idx = 1
        if n.get("hasVar"):
            nx = []
            for s, o in pre:
                nx += self.exec(ks[idx], s) if o[0] == "norm" else [(s, o)]
            pre = nx
            idx += 1
        cond, then = ks[idx], ks[idx + 1]
        els = ks[idx + 2] if n.get("hasElse") else None
        out = []
        for s0, o0 in pre:
            if o0[0] != "norm":
                out.append((s0, o0))
                continue
            for s, v in self.rv(cond, s0):
                if isinstance(v, Raise):
                    out.append((s, ("throw", v)))
                    continue
                for s2, b in self.branch(s, self.truth(v), cond):
                    if b:
                        out.extend(self.exec(then, s2))
                    elif els is not None:
                        out.extend(self.exec(els, s2))
                    else:
                        out.append((s2, ("norm",)))
        for s, _ in out:
            s.names = st.names
        return out

    def s_SwitchStmt(self, n, st):
        ks = [c for c in n.get("inner", []) if c and c.get("kind")]
        cond, body = ks[-2], ks[-1]
        if body["kind"] != "CompoundStmt":
            raise Unsupported("switch shape")
        out = []
        # flatten labels
        items = []  # (labels or None, stmt)
        for c in body.get("inner", []):
            if not c or not c.get("kind"):
                continue
            labels = []
            x = c
            while x is not None and x["kind"] in ("CaseStmt", "DefaultStmt", "AttributedStmt"):
                xs = [y for y in x.get("inner", []) if y and y.get("kind") and not y["kind"].endswith("Attr")]
                if x["kind"] == "AttributedStmt":
                    if xs[0]["kind"] not in ("CaseStmt", "DefaultStmt", "AttributedStmt"):
                        break
                    x = xs[0]
                    continue
                if x["kind"] == "CaseStmt":
                    labels.append(xs[0])
                    x = xs[1] if len(xs) > 1 else None
                else:
                    labels.append("default")
                    x = xs[0] if xs else None
            items.append((labels, x))
        for s, v in self.rv(cond, st):
            if isinstance(v, Raise):
                out.append((s, ("throw", v)))
                continue
            consts = []
            for labels, _ in items:
                for l in labels:
                    if l != "default":
                        consts.append(self.const_of(l, s))
            rest = s.copy()
            targets = []
            for i, (labels, _) in enumerate(items):
                for l in labels:
                    if l == "default":
                        cnd = z3.And(*([TRUE] + [v.t != c for c in consts]))
                    else:
                        cnd = v.t == self.const_of(l, s)
                    targets.append((i, cnd))
            if not any("default" in l for l, _ in items):
                targets.append((None, z3.And(*([TRUE] + [v.t != c for c in consts]))))
            for i, cnd in targets:
                c = simp(cnd)
                if z3.is_false(c):
                    continue
                s2 = s.copy()
                s2.assume(c)
                if self.prune and not self.feasible(s2):
                    continue
                if i is None:
                    out.append((s2, ("norm",)))
                    continue
                for s3, o in self.seq([x for _, x in items[i:] if x is not None], s2):
                    if o[0] == "brk":
                        o = ("norm",)
                    out.append((s3, o))
        for s, _ in out:
            s.names = st.names
        return out

    def const_of(self, e, st):
        rs = self.rv(e, st)
        return simp(rs[0][1].t)

    def s_CXXTryStmt(self, n, st):
        ks = self.kids(n)
        body, handlers = ks[0], ks[1:]
        out = []
        for s, o in self.exec(body, st):
            if o[0] == "throw":
                done = False
                for h in handlers:
                    hk = [c for c in h.get("inner", []) if c and c.get("kind")]
                    var = hk[0] if hk and hk[0]["kind"] == "VarDecl" else None
                    ht = "..." if var is None else self.exc_name(var["type"].get("desugaredQualType", var["type"]["qualType"]))
                    if self.exc_is(o[1].ty, ht):
                        if var is not None:
                            s.env[var["id"]] = LV(self.new_cell(s, VOpaque("exc")), (), None)
                        for s2, o2 in self.exec(hk[-1], s):
                            if o2[0] == "throw" and o2[1].ty == "rethrow":
                                o2 = o
                            out.append((s2, o2))
                        done = True
                        break
                if not done:
                    out.append((s, o))
            else:
                out.append((s, o))
        return out

    # ------------------------------------------------------------ loops
    def loop_contract(self, n):
        """loop contracts are attached by order of first encounter in the
        verified function (inlined helpers included)"""
        i = n["id"]
        if i not in self.loop_ids:
            self.loop_ids[i] = len(self.loop_ids)
        k = self.loop_ids[i]
        ls = self.cur.loops
        return (ls[k] if k < len(ls) else None), k

    def s_WhileStmt(self, n, st):
        ks = [c for c in n.get("inner", []) if c and c.get("kind")]
        return self.loop(n, st, None, ks[0], None, ks[1])

    def s_DoStmt(self, n, st):
        ks = [c for c in n.get("inner", []) if c and c.get("kind")]
        body, cond = ks
        cs = cond
        while cs["kind"] in ("ImplicitCastExpr", "ParenExpr", "ExprWithCleanups"):
            cs = self.kids(cs)[0]
        if cs["kind"] in ("CXXBoolLiteralExpr", "IntegerLiteral") and (cs.get("value") in (False, 0, "0", "false")):
            out = []
            for s, o in self.exec(body, st):
                out.append((s, ("norm",) if o[0] in ("brk", "cont") else o))
            return out
        lc, k = self.loop_contract(n)
        if lc is None:
            return self.unroll(n, st, cond, None, body, do=True)
        return self.loop_inv(n, st, cond, None, body, lc, k, do=True)

    def s_ForStmt(self, n, st):
        inner = n.get("inner", [])
        init, _, cond, inc, body = (inner + [None] * 5)[:5]
        init = init if init and init.get("kind") else None
        cond = cond if cond and cond.get("kind") else None
        inc = inc if inc and inc.get("kind") else None
        names = st.names
        st.names = dict(names)
        pre = [(st, ("norm",))] if init is None else self.exec(init, st)
        out = []
        for s, o in pre:
            if o[0] != "norm":
                out.append((s, o))
                continue
            out.extend(self.loop(n, s, init, cond, inc, body))
        for s, _ in out:
            s.names = names
        return out

    def loop(self, n, st, init, cond, inc, body, index=None):
        lc, k = self.loop_contract(n)
        if lc is None:
            return self.unroll(n, st, cond, inc, body)
        idx = index
        if idx is None and init is not None and init["kind"] == "DeclStmt":
            vs = [c for c in init.get("inner", []) if c.get("kind") == "VarDecl"]
            if vs:
                idx = st.env.get(vs[0]["id"])
        return self.loop_inv(n, st, cond, inc, body, lc, k, index=idx)

    def cond_split(self, cond, st):
        """-> [(state, True/False/Raise)]"""
        if cond is None:
            return [(st, True)]
        out = []
        if callable(cond):
            return cond(st)
        for s, v in self.rv(cond, st):
            if isinstance(v, Raise):
                out.append((s, v))
            else:
                out.extend(self.branch(s, self.truth(v), cond))
        return out

    def run_inc(self, inc, st):
        if inc is None:
            return [(st, ("norm",))]
        if callable(inc):
            return inc(st)
        return self.exec(inc, st)

    def run_body(self, body, st):
        if callable(body):
            return body(st)
        return self.exec(body, st)

    def unroll(self, n, st, cond, inc, body, do=False, limit=None):
        limit = limit or self.cur.unroll
        out = []
        names = st.names
        cur = [(st, do)]
        for it in range(limit + 1):
            nxt = []
            for s, skip in cur:
                cs = [(s, True)] if skip else self.cond_split(cond, s)
                for s2, b in cs:
                    if isinstance(b, Raise):
                        out.append((s2, ("throw", b)))
                    elif not b:
                        out.append((s2, ("norm",)))
                    else:
                        if it == limit:
                            if self.feasible(s2):
                                raise Unsupported("loop at %s has no contract and is not bounded by %d iterations" % (loc(n), limit))
                            continue
                        for s3, o in self.run_body(body, s2):
                            if o[0] in ("norm", "cont"):
                                for s4, o4 in self.run_inc(inc, s3):
                                    if o4[0] == "norm":
                                        nxt.append((s4, False))
                                    else:
                                        out.append((s4, o4))
                            elif o[0] == "brk":
                                out.append((s3, ("norm",)))
                            else:
                                out.append((s3, o))
            cur = nxt
            if not cur:
                break
            if len(cur) + len(out) > self.maxpaths:
                raise Unsupported("too many paths in loop at " + loc(n))
        for s, _ in out:
            s.names = names
        return out

    def diff_cells(self, a, b, cells, havoc):
        """leaves of pre-existing cells that differ between states a and b"""
        new = set()
        for c in cells:
            va, vb = a.cells.get(c), b.cells.get(c)
            if va is vb:
                continue
            if isinstance(va, Val) and isinstance(vb, Val):
                for p, t in va.lv.items():
                    if p not in vb.lv or not vb.lv[p].eq(t):
                        if (c, p) not in havoc:
                            new.add((c, p))
            elif isinstance(va, VIter) and isinstance(vb, VIter):
                if not va.idx.eq(vb.idx) and (c, "idx") not in havoc:
                    new.add((c, "idx"))
                if not self.same_lv(va.lv, vb.lv):
                    raise Unsupported("iterator retargeted in loop")
            elif isinstance(va, VOpaque) and isinstance(vb, VOpaque):   # nothing is known of either
                continue
            elif isinstance(va, VList) and isinstance(vb, Val):
                raise Unsupported("list modified in loop")
            else:
                raise Unsupported("loop modifies a %s" % type(va).__name__)
        return new

    def havoc(self, st, hv, cells_in_loop=()):
        s = st.copy()
        bycell = {}
        for c, p in hv:
            bycell.setdefault(c, []).append(p)
        for c, ps in sorted(bycell.items(), key=lambda x: str(x[0])):
            v = s.cells[c]
            if isinstance(v, VIter):
                s.cells[c] = VIter(v.lv, z3.Int(fresh_name("it")), v.rev)
                continue
            lv = dict(v.lv)
            for p in sorted(ps, key=str):
                lv[p] = z3.Const(fresh_name("h_" + "_".join(map(str, p))), lv[p].sort())
            s.cells[c] = Val(v.ty, lv)
            # ranges for the scalar leaves that were havocked
            for f in self.wf_facts(v.ty, lv):
                s.assume(f)
        s.ghost = {k: v for k, v in s.ghost.items() if not (isinstance(k, tuple) and k[0] == "idxof")}
        return s

    def after_do(self, cond, st):
        for s, b in self.cond_split(cond, st):
            yield s, (("throw", b) if isinstance(b, Raise) else ("norm",) if b else ("left",))

    def loop_inv(self, n, st, cond, inc, body, lc, k, do=False, index=None):
        # a do-while's invariant holds where its body starts; its condition is evaluated after the body
        where = loc(n)
        names = st.names
        lname = "loop %d (%s)" % (k, lc.name)
        entry = st.copy()

        def ctx(s, idx_only=False):
            return lc.ctx(self, s, entry, index)
        def invs(cx):
            return lc.inv(cx) + (self.auto_inv(self, entry, cx.st) if self.auto_inv else [])
        def set_ghosts(s, vals):
            for g, t in vals.items():
                s.cells[("ghost", g)] = Val(GHOST, {(): t})
        st.ghost["index%d" % k] = index
        entry.ghost["index%d" % k] = index
        if lc.ghost is not None:
            set_ghosts(st, lc.ghost(ctx(st)))
            entry = st.copy()
        # 1. establish
        for nm, f in invs(ctx(st)):
            self.oblige(st, f, "%s: invariant '%s' holds on entry" % (lname, nm), "loop-entry", n, budget=lc.budget)
        cells = set(st.cells)
        hv = set()
        rec0 = self.recording
        nobl = len(self.obls)
        for attempt in range(12):
            del self.obls[nobl:]
            s = self.havoc(st, hv)
            c0 = ctx(s)
            for nm, f in invs(c0):
                s.assume(f)
            for f in lc.facts(c0):
                s.assume(f)
            head = s.copy()
            exits = []
            grown = set()
            for s2, b in ([(s.copy(), True)] if do else self.cond_split(cond, s.copy())):
                grown |= self.diff_cells(head, s2, cells, hv)
                if isinstance(b, Raise):
                    exits.append((s2, ("throw", b)))
                elif not b:
                    exits.append((s2, ("norm",)))
                else:
                    d0 = None
                    if lc.decreases is not None:
                        d0 = lc.decreases(ctx(s2))
                        for j, dd in enumerate(d0 if isinstance(d0, tuple) else (d0,)):
                            self.oblige(s2, dd >= 0, "%s: variant %d bounded below" % (lname, j), "termination", n, budget=lc.budget)
                    at_head = s2.copy()
                    for s3, o in self.run_body(body, s2):
                        if o[0] in ("norm", "cont"):
                            s3.names = dict(at_head.names)
                            for s4, o4 in (self.after_do(cond, s3) if do else self.run_inc(inc, s3)):
                                if o4[0] == "left":     # nothing flows back to the head
                                    exits.append((s4, ("norm",)))
                                    continue
                                grown |= self.diff_cells(head, s4, cells, hv)
                                if o4[0] != "norm":
                                    exits.append((s4, o4))
                                    continue
                                s4.names = names
                                c4 = ctx(s4)
                                c4.head = ctx(at_head)
                                if lc.ghost_step is not None:
                                    set_ghosts(s4, lc.ghost_step(c4))
                                    grown |= self.diff_cells(head, s4, cells, hv)
                                for f in lc.step_facts(c4):
                                    s4.assume(f)
                                for nm, f in invs(c4):
                                    self.oblige(s4, f, "%s: invariant '%s' preserved" % (lname, nm), "loop-step", n, budget=lc.budget)
                                if d0 is not None:
                                    d1 = lc.decreases(c4)
                                    if isinstance(d0, tuple):
                                        g = FALSE
                                        for a, b_ in reversed(list(zip(d1, d0))):
                                            g = z3.Or(a < b_, z3.And(a == b_, g))
                                    else:
                                        g = d1 < d0
                                    self.oblige(s4, g, "%s: variant decreases" % lname, "termination", n, budget=lc.budget)
                        else:   # leaves the loop with its own state: nothing flows back to the head
                            if o[0] == "brk":
                                exits.append((s3, ("norm",)))
                            else:
                                exits.append((s3, o))
            if not grown:
                break
            hv |= grown
        else:
            raise Unsupported("loop frame does not stabilise at " + where)
        out = []
        for s2, o in exits:
            s2.names = names
            if o[0] == "norm":
                cx = ctx(s2)
                for f in lc.exit_facts(cx):
                    s2.assume(f)
            out.append((s2, o))
        return out

    def s_CXXForRangeStmt(self, n, st):
        inner = n.get("inner", [])
        # init, range, begin, end, cond, inc, loopvar, body
        rng, lvdecl, body = inner[1], inner[6], inner[7]
        names = st.names
        if inner[0] and inner[0].get("kind"):
            pre = self.exec(inner[0], st)
        else:
            pre = [(st, ("norm",))]
        rvar = rng["inner"][0]
        out = []
        for s0, o0 in pre:
            if o0[0] != "norm":
                out.append((s0, o0))
                continue
            for s, v in self.ev(self.kids(rvar)[0], s0):
                if isinstance(v, Raise):
                    out.append((s, ("throw", v)))
                    continue
                out.extend(self.for_range(n, s, v, lvdecl, body))
        for s, _ in out:
            s.names = names
        return out

    def for_range(self, n, st, rng, lvdecl, body):
        from . import stdlib
        var = lvdecl["inner"][0]
        cv = self.read(st, rng) if isinstance(rng, LV) else rng
        if not isinstance(rng, LV):
            if isinstance(cv, VList):
                rng = LV(self.new_cell(st, cv), (), cv.ty)
            elif isinstance(cv, (VRange,)):
                rng = LV(self.new_cell(st, cv), (), cv.ty)
            else:
                rng = LV(self.new_cell(st, cv), (), cv.ty)
        if isinstance(cv, Val) and cv.ty.k in ("set", "map"):
            cv = stdlib.enumerate_keyed(self, st, cv)
            rng = LV(self.new_cell(st, cv), (), cv.ty)
        if isinstance(cv, Val) and cv.ty.k != "vec":
            raise Unsupported("range-for over %s at %s" % (cv.ty, loc(n)))
        if isinstance(cv, VOpaque):
            raise Unsupported("range-for over unmodelled range at %s" % loc(n))
        it = LV(self.new_cell(st, scalar(ULL, 0)), (), ULL)

        def cond(s):
            i = self.read(s, it).t
            ln = self.read_len(s, rng)
            return self.branch(s, i < ln)

        def inc(s):
            i = self.read(s, it).t
            self.write(s, it, scalar(ULL, simp(i + 1)))
            return [(s, ("norm",))]

        def run(s):
            i = self.read(s, it).t
            cvv = self.read(s, rng)
            names = s.names
            s.names = dict(names)
            if isinstance(cvv, VList):
                e = cvv.elems[simp(i).as_long()]
                tgt = LV(self.new_cell(s, e), (), e.ty if isinstance(e, Val) else None)
            elif isinstance(cvv, VRange):
                e = cvv.at(i)
                if isinstance(e, LV):
                    tgt = e
                else:
                    for c in self.wf_facts(e.ty, e.lv):
                        s.assume(c)
                    tgt = LV(self.new_cell(s, e), (), e.ty if isinstance(e, Val) else None)
            else:
                tgt = rng.i(i, cvv.ty.a[0])
            if var["kind"] == "DecompositionDecl":
                isref = var["type"]["qualType"].strip().endswith("&")
                self.bind_decomposition(var, [c for c in self.kids(var) if c["kind"] == "BindingDecl"], tgt, isref, s)
            else:
                self.bind_var(var, tgt, s, lambda i_, v_: s.env.__setitem__(i_, v_))
            outs = self.exec(body, s)
            for s2, _ in outs:
                s2.names = names
            return outs
        lc, k = self.loop_contract(n)
        if lc is None:
            return self.unroll(n, st, cond, inc, run)
        idx = it
        lcx = lc
        st.ghost["range%d" % k] = rng
        return self.loop_inv(n, st, cond, inc, run, lcx, k, index=idx)

    # ------------------------------------------------------------ contracts
    def call_contract(self, c, d, args, this, st, node):
        from .contracts import CallCtx
        st = st.copy()
        self.used_contracts.add(c.name)
        lvs, olds = [], []
        for p, a in zip(d["_params"] if "_params" in d else [x for x in d.get("inner", []) if x.get("kind") == "ParmVarDecl"], args):
            t = p["type"]["qualType"].strip()
            if isinstance(a, LV):
                lvs.append(a)
                olds.append(self.read(st, a))
            else:
                try:
                    a = self.as_val(st, a, self.types.node(p)) if not isinstance(a, (VFn, VPtr, VIter)) else a
                except Unsupported:
                    pass
                lvs.append(None)
                olds.append(a)
            if isinstance(olds[-1], VList) and self.types.node(p).k == "vec":
                olds[-1] = self.as_val(st, olds[-1], self.types.node(p))
        told = self.read(st, this) if this is not None else None
        ctx = CallCtx(self, olds, told, st, call=True)
        ctx.node = node
        if c.before_call is not None:
            c.before_call(ctx)
        for nm, f in c.requires(ctx):
            self.oblige(st, f, "precondition '%s' of %s" % (nm, c.name), "call-pre", node, budget=c.budget)
            st.assume(f)
        if self.entry_measure is not None and c.decreases is not None and (c is self.cur or (c.group is not None and c.group == self.cur.group)):
            m, m0 = c.decreases(ctx), self.entry_measure
            if not isinstance(m, tuple):
                m, m0 = (m,), (m0,)
            less_, same = z3.BoolVal(False), z3.BoolVal(True)
            for x, y in zip(m, m0):
                less_ = z3.Or(less_, z3.And(same, x >= 0, x < y))
                same = z3.And(same, x == y)
            self.oblige(st, less_, "the measure of the recursion decreases", "termination", node, budget=c.budget)
        out = []
        th = c.throws(ctx)
        nothrow = []
        for et, cond in th.items():
            if isinstance(cond, tuple):   # ("may", c): may throw when c holds
                cond = cond[1]
            else:
                nothrow.append(z3.Not(cond))
            cc = simp(cond) if not has_quant(cond) else cond
            if z3.is_false(cc):
                continue
            s2 = st.copy()
            s2.assume(cc)
            if self.prune and not self.feasible(s2):
                continue
            # what a by-reference argument holds after the callee threw: unspecified unless framed
            for i in c.modifies if not c.strong else ():
                self.havoc_arg(c, i, lvs, this, s2)
            out.append((s2, Raise(et, loc(node) if isinstance(node, dict) else "?")))
        s = st.copy()
        for f in nothrow:
            s.assume(simp(f) if not has_quant(f) else f)
        if nothrow and self.prune and not self.feasible(s):
            return out
        news = list(olds)
        tnew = told
        if c.calls:
            if ("ghost", "calls") not in s.cells:
                raise Unsupported("%s calls function objects, which %s does not account for" % (c.name, self.cur.name))
            s.cells["ghost", "calls"] = Val(GHOST, {(): z3.Const(fresh_name("calls"), z3.ArraySort(z3.IntSort(), z3.IntSort()))})
        for n, so in c.ghosts.items():
            if ("ghost", n) not in s.cells:
                raise Unsupported("%s changes ghost state %s, which %s does not account for" % (c.name, n, self.cur.name))
            s.cells["ghost", n] = Val(GHOST, {(): z3.Const(fresh_name(n), so)})
        for i in c.modifies:
            v = self.havoc_arg(c, i, lvs, this, s)
            if i == "this":
                tnew = v
            else:
                news[i] = v
        rt = c.result_type(self, d, node)
        res = None
        if c.returns_arg is not None:
            res = tnew if c.returns_arg == "this" else news[c.returns_arg]
        elif rt is not None and rt.k != "void":
            res = c.make_result(self, rt, ctx, s) if c.make_result else self.fresh(rt, "r_" + c.short(), s)
            if isinstance(res, Val):
                from .contracts import W
                s.ghost[("callres", c.qname, len(s.ghost))] = W(res, self)
        ctx2 = CallCtx(self, olds, told, s, call=True, news=news, tnew=tnew, result=res)
        ctx2.pre = st
        for nm, f in c.ensures(ctx2):
            s.assume(f)
        if self.returns_generator(d) and isinstance(res, Val):
            refs = set()
            for i, p in enumerate(d.get("_params") or [x for x in d.get("inner", []) if x.get("kind") == "ParmVarDecl"]):
                if c.borrows is None or i in c.borrows:
                    if p["type"]["qualType"].strip().endswith("&"):
                        refs |= {lvs[i].cell} if lvs[i] is not None else {"temporary"}
                    else:
                        refs |= self.refs_of(st, olds[i])
            if isinstance(this, LV) and (c.borrows is None or "this" in c.borrows):
                refs.add(this.cell)
            self.borrow(res, refs)
        if c.returns_arg is not None:
            out.append((s, this if c.returns_arg == "this" else lvs[c.returns_arg]))
        else:
            out.append((s, res if res is not None else VOpaque("void")))
        return out

    def havoc_arg(self, c, i, lvs, this, s):
        lv = this if i == "this" else lvs[i]
        if lv is None:
            raise Unsupported("modified argument is not an lvalue")
        cur = self.read(s, lv)
        v = self.fresh(cur.ty, "mod_%s" % i, s)
        self.write(s, lv, v)
        return v

    def verify(self, c, d):
        """generate all obligations of function d under contract c"""
        covers = []
        pres = []
        for case in (c.cases or [c.param_values]):
            covers += self.verify_case(c, d, case)
            pres.append(self.pre_state)
        return covers

    def verify_case(self, c, d, param_values):
        from .contracts import CallCtx
        self.cur = c
        self.cur_trivial = 0
        self.prune = c.prune
        self.loop_ids = {}
        self.active = [d["_root"]]
        self.borrowed = {}
        st = State()
        vals, lvs = [], []
        self.inputs = []
        for p in d["_params"]:
            nm = p.get("name") or "arg"
            if param_values and len(vals) in param_values:
                v = param_values[len(vals)](self, st)
            else:
                t = self.types.node(p)
                if t.k == "ptr":
                    inner = self.fresh(t.a[0], nm + "_pointee", st)
                    v = VPtr(LV(self.new_cell(st, inner), (), t.a[0]))
                elif t.k == "fn" and not re.search(r"(^|::)(move_only_)?function<", str(t.a[0])):
                    raise Unsupported("function-valued parameter")
                else:
                    v = self.fresh(t, nm, st)
                    self.inputs.append((nm, v))
            lv = LV(self.new_cell(st, v), (), v.ty if isinstance(v, Val) else None)
            st.env[p["id"]] = lv
            if p.get("name"):
                st.names[p["name"]] = lv
            vals.append(v)
            lvs.append(lv)
        self.param_vals = vals
        told = None
        this = None
        if d["kind"] in ("CXXMethodDecl", "CXXConstructorDecl") and d.get("storageClass") != "static" and not self.is_lambda(d):
            t = Ty("rec", self.tu.record_of(d) or d["_q"].rpartition("::")[0])
            if t.a[0] not in self.tu.records:
                t = self.types.parse(d["_q"].rpartition("::")[0])
            told = self.fresh(t, "this", st)
            if d["kind"] != "CXXConstructorDecl":
                self.inputs.append(("this", told))
            this = LV(self.new_cell(st, told), (), t)
            st.env["this"] = this
        if c.calls:
            st.cells["ghost", "calls"] = Val(GHOST, {(): z3.Const(fresh_name("calls"), z3.ArraySort(z3.IntSort(), z3.IntSort()))})
        for n, so in c.ghosts.items():
            st.cells["ghost", n] = Val(GHOST, {(): z3.Const(fresh_name(n), so)})
        ctx = CallCtx(self, vals, told, st)
        self.entry_measure = c.decreases(ctx) if c.decreases else None
        pres = c.requires(ctx)
        for nm, f in pres:
            st.assume(f)
        for f in c.facts(ctx):
            st.assume(f)
        self.pre_state = st.copy()
        outs = self.exec_body(d, st.copy())
        covers = []
        ref = self.ret_is_ref(d)
        th = c.throws(ctx)
        for s, o in outs:
            if o[0] == "throw":
                et = o[1].ty
                match = [cond[1] if isinstance(cond, tuple) else cond for t, cond in th.items() if t == et or self.exc_is(et, t)]
                g = z3.Or(*match) if match else FALSE
                self.oblige(s, g, "throws %s only when specified (thrown at %s)" % (et, o[1].where), "exceptional-post", o[1].where, budget=c.budget)
                if c.strong:
                    for i in c.modifies:
                        v0 = told if i == "this" else vals[i]
                        v1 = self.read(s, this if i == "this" else lvs[i])
                        self.oblige(s, self.val_eq(v0, v1), "nothing is modified when it throws", "exceptional-post", o[1].where, budget=c.budget)
                covers.append((s, "throw"))
                continue
            res = None
            if o[0] == "ret":
                res = o[1]
                if isinstance(res, LV) and not c.result_lv:
                    res = self.read(s, res)
                rt = None
                try:
                    rt = c.result_type(self, d, None)
                except Unsupported:
                    pass
                if not isinstance(res, (VFn, VPtr, VIter, VOpaque, LV, VSink)) and rt is not None and rt.k != "void":
                    res = self.as_val(s, res, rt)
            for t, cond in th.items():
                if isinstance(cond, tuple):
                    continue
                self.oblige(s, z3.Not(cond), "does not return normally where %s is specified" % t.rpartition("::")[2], "exceptional-post", d, budget=c.budget)
            news = [self.read(s, l) for l in lvs]
            tnew = self.read(s, this) if this is not None else None
            ctx2 = CallCtx(self, vals, told, s, news=news, tnew=tnew, result=res)
            ctx2.pre = self.pre_state
            for f in c.exit_facts(ctx2):
                s.assume(f)
            for nm, f in c.steps(ctx2):
                self.oblige(s, f, "step '%s'" % nm, "post", d, budget=c.budget)
                s.assume(f)
            for nm, f in c.ensures(ctx2):
                self.oblige(s, f, "ensures '%s'" % nm, "post", d, budget=c.budget)
            if self.returns_generator(d):
                where = {l.cell: i for i, (p, l) in enumerate(zip(d["_params"], lvs)) if p["type"]["qualType"].strip().endswith("&")}
                if this is not None:
                    where[this.cell] = "this"
                refs = self.coro_refs(d, s) if d.get("_coro") else self.refs_of(s, res)
                self.oblige(s, z3.BoolVal(all(r in where for r in refs)), "the generator returned refers to nothing that has ended", "post", d, budget=c.budget)
                if c.borrows is not None:
                    self.oblige(s, z3.BoolVal(all(where.get(r) in c.borrows for r in refs if r in where)), "the generator returned does not depend on what may change before it runs", "post", d, budget=c.budget)
            # frame: by-reference parameters not listed in modifies are unchanged
            for i, (p, v0, v1) in enumerate(zip(d["_params"], vals, news)):
                if p["type"]["qualType"].strip().endswith("&") and i not in c.modifies and isinstance(v0, Val) and isinstance(v1, Val):
                    if not all(v0.lv[q].eq(v1.lv[q]) for q in v0.lv):
                        self.oblige(s, self.val_eq(v0, v1), "parameter %d is not modified" % i, "frame", d)
            if told is not None and "this" not in c.modifies and d["kind"] != "CXXConstructorDecl":
                if not all(told.lv[q].eq(tnew.lv[q]) for q in told.lv):
                    self.oblige(s, self.val_eq(told, tnew), "object is not modified", "frame", d)
            covers.append((s, "return"))
        return covers

    def is_lambda(self, d):
        p = d.get("_parent") or self.tu.decls.get(d.get("parentDeclContextId")) or {}
        return p.get("name") is None and d.get("name") == "operator()"
