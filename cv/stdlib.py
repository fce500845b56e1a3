"""Model of the parts of the C++ standard library that verified code uses.
This file is part of the trusted base: each entry states the library's
documented behaviour on the verifier's value representation."""
import re
import z3

from .astload import loc
from .types import Ty, LL, ULL, INT, BOOL, VOID, ORD, STR, CHAR, Val, Unsupported, scalar, sub, int_range, fresh_name


def E():
    from . import engine
    return engine


def I(n):
    return z3.IntVal(n)


TRUE, FALSE = z3.BoolVal(True), z3.BoolVal(False)


# ---------------------------------------------------------------- conversions
def convert(en, s, v, t):
    eng = E()
    if isinstance(v, eng.LV):
        src = v
        v = en.read(s, v)
    if isinstance(v, Val) and v.ty == t:
        return v
    if t.k == "opt":
        if isinstance(v, eng.VNull):
            return en.default_val(t)
        if isinstance(v, Val) and v.ty.k == "opt":
            inner = convert(en, s, Val(v.ty.a[0], sub(v.lv, "*")), t.a[0])
            return Val(t, {("?",): v.lv[("?",)], **{("*",) + p: x for p, x in inner.lv.items()}})
        w = convert(en, s, v, t.a[0])
        return Val(t, {("?",): TRUE, **{("*",) + p: x for p, x in w.lv.items()}})
    if t.k == "variant":
        if isinstance(v, Val):
            if v.ty.k == "variant":
                # variant of a subset of alternatives is not implicitly convertible in C++
                raise Unsupported("variant conversion")
            for i, a in enumerate(t.a):
                if a == v.ty:
                    return mk_variant(en, t, i, v)
            cands = [i for i, a in enumerate(t.a) if a.k == "variant" and v.ty in a.a]
            if len(cands) == 1:
                i = cands[0]
                return mk_variant(en, t, i, convert(en, s, v, t.a[i]))
            cands = [i for i, a in enumerate(t.a) if a.k == "int" and v.ty.k == "int"]
            if len(cands) == 1:
                return mk_variant(en, t, cands[0], en.conv_int(s, v, t.a[cands[0]]))
        raise Unsupported("conversion of %r to %s" % (v, t))
    if t.k == "tuple" and isinstance(v, Val) and v.ty.k == "tuple" and len(v.ty.a) == len(t.a):
        lv = {}
        for i, (a, b) in enumerate(zip(v.ty.a, t.a)):
            w = convert(en, s, Val(a, sub(v.lv, str(i))), b)
            for p, x in w.lv.items():
                lv[(str(i),) + p] = x
        return Val(t, lv)
    if t.k in ("int", "bool") and isinstance(v, Val) and v.ty.k in ("int", "bool"):
        return en.conv_int(s, v, t)
    if t.k == "uptr":
        if isinstance(v, eng.VNull):
            return en.default_val(t)
    if t.k in ("set",) and isinstance(v, eng.VList):
        return list_to_set(en, s, v, t)
    if t.k == "vec" and isinstance(v, (eng.VList, eng.VRange)):
        return en.as_val(s, v, t)
    if t.k == "rec" and isinstance(v, Val) and v.ty.k == "rec" and set(v.lv) == set(en.default_val(t).lv):
        return Val(t, v.lv)
    if t.k in ("ptr", "fn", "iter", "opaque"):
        return v
    return en.as_val(s, v, t)


def mk_variant(en, t, i, v):
    lv = {("tag",): I(i)}
    for j, a in enumerate(t.a):
        w = v if j == i else en.default_val(a)
        for p, x in w.lv.items():
            lv[("alt%d" % j,) + p] = x
    return Val(t, lv)


def key_term(en, s, v):
    v = en.read(s, v) if isinstance(v, E().LV) else v
    if not isinstance(v, Val) or len(v.lv) != 1:
        raise Unsupported("key of associative container")
    return list(v.lv.values())[0]


def list_to_set(en, s, v, t):
    out = en.default_val(t)
    r = out
    for e in v.elems:
        r = set_insert(en, r, key_term(en, s, e))
    return r


def set_insert(en, v, k):
    lv = dict(v.lv)
    was = z3.Select(lv[("in",)], k)
    lv[("n",)] = z3.If(was, lv[("n",)], lv[("n",)] + 1)
    lv[("in",)] = z3.Store(lv[("in",)], k, TRUE)
    return Val(v.ty, lv)


def set_of_range(en, s, a, b, t):
    src = en.read(s, a.lv)
    if not (isinstance(src, Val) and src.ty.k == "vec" and src.ty.a[0] == t.a[0]):
        raise Unsupported("set from a range of another type")
    x = list(sub(src.lv, "[]").values())[0]
    w = en.fresh(t, "set", s)
    i, k = z3.Ints("i!sr k!sr")
    at = z3.Function(fresh_name("where"), z3.IntSort(), z3.IntSort())
    ins = w.lv[("in",)]
    s.assume(z3.ForAll([i], z3.Implies(z3.And(a.idx <= i, i < b.idx), z3.Select(ins, z3.Select(x, i))), patterns=[z3.Select(x, i)]))
    s.assume(z3.ForAll([k], z3.Implies(z3.Select(ins, k), z3.And(a.idx <= at(k), at(k) < b.idx, z3.Select(x, at(k)) == k)), patterns=[z3.Select(ins, k)]))
    return w


def enumerate_keyed(en, st, v):
    """in-order sequence of the elements of a std::set / std::map: strictly
    increasing, exactly the members"""
    kt = v.ty.a[0]
    kp = en.types.leaves(kt)[0][0]
    seq = z3.Const(fresh_name("order"), z3.ArraySort(z3.IntSort(), z3.IntSort()))
    pos = z3.Function(fresh_name("pos"), z3.IntSort(), z3.IntSort())
    n = v.lv[("n",)]
    ins = v.lv[("in",)]
    i, j, x = z3.Ints("oi oj ox")
    st.assume(n >= 0)
    st.assume(z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < j, j < n), z3.Select(seq, i) < z3.Select(seq, j)),
                        patterns=[z3.MultiPattern(z3.Select(seq, i), z3.Select(seq, j))]))
    st.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n), z3.Select(ins, z3.Select(seq, i))), patterns=[z3.Select(seq, i)]))
    st.assume(z3.ForAll([x], z3.Implies(z3.Select(ins, x), z3.And(0 <= pos(x), pos(x) < n, z3.Select(seq, pos(x)) == x)), patterns=[z3.Select(ins, x)]))
    if v.ty.k == "set":
        ty = Ty("vec", kt)
        return Val(ty, {("#",): n, ("[]",) + kp: seq})
    ety = Ty("tuple", kt, v.ty.a[1])
    ty = Ty("vec", ety)
    eng = E()

    def at(ix):
        lv = {("0",) + kp: z3.Select(seq, ix)}
        for p, t in sub(v.lv, "at").items():
            lv[("1",) + p] = z3.Select(t, z3.Select(seq, ix))
        return Val(ety, lv)
    return eng.VRange(n, at, ty)


# ---------------------------------------------------------------- construction
def construct(en, e, st):
    eng = E()
    t = en.ty(e)
    ks = en.kids(e)
    k = t.k
    if k == "rec":
        q = t.a[0]
        ct = e.get("ctorType", {}).get("qualType", "")
        if len(ks) == 1 and e.get("ctorType") and en_same_type(en, ks[0], t):
            return en.rv(ks[0], st)
        rec = en.tu.records[q]
        if len(ks) == 0 and not user_ctor(en, rec, ct):
            return default_construct(en, t, st)
        d = find_ctor(en, rec, ct)
        if d is None:
            raise Unsupported("constructor %s of %s at %s" % (ct, q, loc(e)))
        c = en.contract_for(d["id"])

        def f(s, args):
            s = s.copy()
            cell = en.new_cell(s, en.fresh(t, "new", s))
            lv = eng.LV(cell, (), t)
            if d.get("_body") is None and c is None:
                raise Unsupported("constructor without body %s" % q)
            # default member initialisers first
            starts = [(s, None)]
            for n, ft, fd in en.types.fields(t):
                init = [x for x in en.kids(fd)] if fd is not None else []
                nx = []
                for s2, _ in starts:
                    if init:
                        for s3, v in en.rv(init[0], s2):
                            if not isinstance(v, eng.Raise):
                                en.write(s3, lv.f(n, ft), convert(en, s3, v, ft))
                            nx.append((s3, v if isinstance(v, eng.Raise) else None))
                    elif ft.k in ("vec", "opt", "uptr", "set", "map", "iset"):
                        en.write(s2, lv.f(n, ft), en.default_val(ft))
                        nx.append((s2, None))
                    else:
                        nx.append((s2, None))
                starts = nx
            out = []
            for s2, x in starts:
                if isinstance(x, eng.Raise):
                    out.append((s2, x))
                    continue
                for s3, v in en.call_decl(d, args, lv, s2, e):
                    out.append((s3, v if isinstance(v, eng.Raise) else en.read(s3, lv)))
            return out
        return en.bind(en.evs(ks, st), f)

    def f(s, vs):
        ct = e.get("ctorType", {}).get("qualType", "")
        return [(s, build(en, t, vs, s, e, ct))]
    if k == "uptr" and len(ks) == 1:
        def g(s, v):
            return [(s, take(en, s, v, t))]
        return en.bind(en.ev(ks[0], st), g)
    if k == "fn":
        if len(ks) >= 1:
            return en.rv(ks[0], st)
        return [(st, eng.VNull())]
    if k in ("opaque", "iter", "ptr"):
        try:
            rs = en.rvs(ks, st)
        except Unsupported:
            return [(st, eng.VOpaque(str(t)))]
        return en.bind(rs, lambda s, vs: [(s, vs[0] if len(vs) == 1 and not isinstance(vs[0], Val) else eng.VOpaque(str(t)))])
    return en.bind(en.rvs(ks, st), f)


def take(en, s, v, t):
    """move out of a unique_ptr"""
    eng = E()
    if isinstance(v, eng.LV):
        val = en.read(s, v)
        if isinstance(val, Val) and val.ty.k == "uptr":
            en.write(s, v, en.default_val(val.ty))
        return val
    if isinstance(v, eng.VNull):
        return en.default_val(t)
    return v


def moved_from(en, s, v):
    """what is left where v has been moved from: unspecified, except that what is
    moved by copying stays, and an optional or variant keeps its shape"""
    t = v.ty
    if t.k in ("int", "bool", "enum", "ptr", "float"):
        return v
    if t.k == "opt" or t.k == "tuple" or t.k == "variant" or (t.k == "rec" and not en.types.boxed(t) and not user_move(en, t)):
        lv = {}
        if t.k == "opt":
            parts = [("*", t.a[0])]
            lv[("?",)] = v.lv[("?",)]
        elif t.k == "variant":
            parts = [("alt%d" % i, x) for i, x in enumerate(t.a)]
            lv[("tag",)] = v.lv[("tag",)]
        elif t.k == "tuple":
            parts = [(str(i), x) for i, x in enumerate(t.a)]
        else:
            parts = [(n, x) for n, x, _ in en.types.fields(t)]
        for n, x in parts:
            for p, y in moved_from(en, s, Val(x, sub(v.lv, n))).lv.items():
                lv[(n,) + p] = y
        if set(lv) == set(v.lv):
            return v if all(lv[p] is v.lv[p] for p in lv) else Val(t, lv)
    if t.k == "uptr":
        return en.default_val(t)
    return en.fresh(t, "moved_from")  # no facts at all about it


def user_move(en, t):
    rec = en.tu.records.get(t.a[0])
    return rec is None or any(c.get("kind") == "CXXConstructorDecl" and not c.get("isImplicit") and not c.get("explicitlyDefaulted") and "&&" in c.get("type", {}).get("qualType", "") for c in rec.get("inner", []))


def move_out(en, s, lv):
    """std::move: taken to be consumed at once, whatever becomes of the result"""
    eng = E()
    if not isinstance(lv, eng.LV) or (lv.ty is not None and lv.ty.k == "uptr"):
        return lv
    v = en.read(s, lv)
    if isinstance(v, (eng.VList, eng.VRange)):
        v = vec_val(en, s, lv)
    if not isinstance(v, Val) or v.ty.k == "uptr":
        return lv
    w = moved_from(en, s, v)
    if w is v:
        return lv
    cell = en.new_cell(s, v)
    en.write(s, lv, w)
    return eng.LV(cell, (), lv.ty)


def en_same_type(en, node, t):
    try:
        return en.ty(node) == t
    except Unsupported:
        return False


def user_ctor(en, rec, ct):
    d = find_ctor(en, rec, ct)
    return d is not None and d.get("_body") is not None and not d.get("isImplicit") and not d.get("explicitlyDefaulted")


def find_ctor(en, rec, ct):
    norm = lambda x: re.sub(r"\b(\w+::)+", "", re.sub(r"\s+noexcept(\(.*\))?$", "", x).strip())
    best = None
    for c in rec.get("inner", []):
        if c.get("kind") == "CXXConstructorDecl" and norm(c["type"]["qualType"]) == norm(ct):
            best = en.tu.func_for(c["id"]) or c
            if best.get("_body") is not None:
                return best
        if c.get("kind") == "FunctionTemplateDecl":
            for x in c.get("inner", []):
                if x.get("kind") == "CXXConstructorDecl" and norm(x["type"]["qualType"]) == norm(ct) and x.get("_body") is not None:
                    best = x
    return best


def default_construct(en, t, st):
    eng = E()
    s = st.copy()
    v = en.fresh(t, "dflt", s)
    cell = en.new_cell(s, v)
    lv = eng.LV(cell, (), t)
    cur = [(s, None)]
    for n, ft, fd in en.types.fields(t):
        init = [x for x in en.kids(fd)] if fd is not None else []
        nx = []
        for s2, x in cur:
            if init:
                for s3, w in en.rv(init[0], s2):
                    if not isinstance(w, eng.Raise):
                        en.write(s3, lv.f(n, ft), convert(en, s3, w, ft))
                    nx.append((s3, None))
            elif ft.k in ("vec", "opt", "uptr", "set", "map", "tuple", "variant", "iset"):
                en.write(s2, lv.f(n, ft), en.default_val(ft))
                nx.append((s2, None))
            elif ft.k == "rec":
                for s3, w in default_construct(en, ft, s2):
                    en.write(s3, lv.f(n, ft), w)
                    nx.append((s3, None))
            else:
                nx.append((s2, None))
        cur = nx
    return [(s2, en.read(s2, lv)) for s2, _ in cur]


def build(en, t, vs, s, e, ct=""):
    eng = E()
    k = t.k
    if k == "vec":
        if not vs:
            return en.default_val(t)
        a = vs[0]
        if isinstance(a, Val) and a.ty.k == "vec" and (len(vs) == 1 or (t.a[0] == CHAR and len(vs) == 2 and isinstance(vs[1], eng.VOpaque))):
            return Val(t, a.lv) if a.ty == t else a
        if isinstance(a, eng.VList):
            return en.list_to_vec(s, eng.VList([convert(en, s, x, t.a[0]) for x in a.elems], t), t)
        if isinstance(a, eng.VRange):
            return en.range_to_vec(s, a, t)
        if isinstance(a, eng.VIter) and len(vs) >= 2 and isinstance(vs[1], eng.VIter):
            src = en.read(s, a.lv)
            lo, hi = a.idx, vs[1].idx
            i = z3.Int(fresh_name("i"))
            lv = {("#",): hi - lo}
            for p, x in sub(src.lv, "[]").items():
                lv[("[]",) + p] = x if z3.is_int_value(lo) and lo.as_long() == 0 else z3.Lambda([i], z3.Select(x, i + lo))
            return Val(t, lv)
        if isinstance(a, Val) and a.ty.k == "int":
            n = a.t
            if len(vs) >= 2 and isinstance(vs[1], (Val,)) and not isinstance(vs[1], eng.VOpaque):
                fill = convert(en, s, vs[1], t.a[0])
            else:
                fill = en.default_val(t.a[0])
            return vec_fill(en, t, n, fill)
        if isinstance(a, eng.VOpaque):
            return en.fresh(t, "opaque_str", s)
        raise Unsupported("vector construction at " + loc(e))
    if k == "iset":
        if not vs:
            return en.default_val(t)
        if len(vs) == 1 and isinstance(vs[0], Val) and vs[0].ty == t:
            return vs[0]
        if len(vs) == 2 and all(isinstance(x, Val) for x in vs):
            z = z3.Int(fresh_name("z"))
            lo, hi = [next(iter(x.lv.values())) for x in vs]
            return Val(t, {(): z3.Lambda([z], z3.And(lo <= z, z <= hi))})
        raise Unsupported("construction of a set of numbers at " + loc(e))
    if k in ("opt", "variant"):
        if not vs:
            return en.default_val(t)
        return convert(en, s, vs[0], t)
    if k == "tuple":
        if not vs:
            return en.default_val(t)
        if len(vs) == 1 and isinstance(vs[0], Val) and vs[0].ty.k == "tuple":
            return convert(en, s, vs[0], t)
        lv = {}
        if len(vs) != len(t.a):
            raise Unsupported("tuple construction")
        for i, (v, a) in enumerate(zip(vs, t.a)):
            w = convert(en, s, v, a)
            if isinstance(w, eng.VOpaque):
                w = en.as_val(s, w, a)
            for p, x in w.lv.items():
                lv[(str(i),) + p] = x
        return Val(t, lv)
    if k in ("set", "map"):
        if not vs:
            return en.default_val(t)
        if isinstance(vs[0], eng.VList):
            return list_to_set(en, s, vs[0], t)
        if isinstance(vs[0], Val) and vs[0].ty == t:
            return vs[0]
        if k == "set" and len(vs) == 2 and isinstance(vs[0], eng.VIter) and isinstance(vs[1], eng.VIter):
            return set_of_range(en, s, vs[0], vs[1], t)
    if k in ("int", "bool", "enum"):
        if not vs:
            return en.default_val(t)
        return convert(en, s, vs[0], t)
    if k == "uptr" and not vs:
        return en.default_val(t)
    if k == "null":
        return eng.VNull()
    raise Unsupported("construction of %s at %s" % (t, loc(e)))


def vec_fill(en, t, n, fill):
    lv = {("#",): n}
    for p, srt in en.types.leaves(t.a[0]):
        lv[("[]",) + p] = z3.K(z3.IntSort(), fill.lv[p])
    return Val(t, lv)


# ---------------------------------------------------------------- ordering
def order_term(en, a, b):
    """<=> as a term in {-1,0,1}"""
    ty = a.ty
    k = ty.k
    if k in ("int", "enum"):
        return z3.If(a.t < b.t, I(-1), z3.If(a.t == b.t, I(0), I(1)))
    if k == "bool":
        return z3.If(a.t == b.t, I(0), z3.If(b.t, I(-1), I(1)))
    if k == "rec":
        fs = [(Val(t, sub(a.lv, n)), Val(t, sub(b.lv, n))) for n, t, _ in en.types.fields(ty)]
    elif k == "tuple":
        fs = [(Val(t, sub(a.lv, str(i))), Val(t, sub(b.lv, str(i)))) for i, t in enumerate(ty.a)]
    elif k == "variant":
        r = I(0)
        for i, t in enumerate(ty.a):
            r = z3.If(a.lv[("tag",)] == i, order_term(en, Val(t, sub(a.lv, "alt%d" % i)), Val(t, sub(b.lv, "alt%d" % i))), r)
        ta, tb = a.lv[("tag",)], b.lv[("tag",)]
        return z3.If(ta < tb, I(-1), z3.If(ta > tb, I(1), r))
    else:
        raise Unsupported("ordering of %s" % ty)
    r = I(0)
    for x, y in reversed(fs):
        o = order_term(en, x, y)
        r = z3.If(o == 0, r, o)
    return z3.simplify(r)


def user_op(en, ty, name):
    """user-provided comparison operator of a record, if the TU has one"""
    return None


def less(en, s, a, b):
    return z3.simplify(order_term(en, a, b)) < 0


# ---------------------------------------------------------------- operators
def operator(en, name, args, st, node):
    eng = E()
    op = name[len("operator"):]

    if op == "=":
        def f(s, vs):
            rhs, lhs = vs
            if isinstance(lhs, eng.VSink):
                v = en.read(s, rhs) if isinstance(rhs, eng.LV) else rhs
                if not (isinstance(v, Val) and v.ty.k == "int"):
                    raise Unsupported("assignment through an output iterator at " + loc(node))
                t = s.cells[lhs.cell]
                n = t.lv[("#",)]
                s = s.copy()
                s.cells[lhs.cell] = Val(t.ty, {("#",): n + 1, ("[]",): z3.Store(t.lv[("[]",)], n, en.conv_int(s, v, CHAR).t)})
                return [(s, lhs)]
            if isinstance(lhs, eng.VOpaque):    # nothing is known about what is assigned to, before or after
                return [(s, lhs)]
            if not isinstance(lhs, eng.LV):
                raise Unsupported("assignment to rvalue")
            t = lhs.ty
            cur = s.cells.get(lhs.cell)
            if t is not None and t.k == "uptr":
                v = take(en, s, rhs, t)
                en.write(s, lhs, v)
                return [(s, lhs)]
            v = en.read(s, rhs) if isinstance(rhs, eng.LV) else rhs
            if t is not None and not isinstance(v, (eng.VFn, eng.VPtr, eng.VIter, eng.VOpaque)):
                if t.k == "tuple" and isinstance(v, Val) and v.ty.k == "tuple" and any(x.k == "ptr" for x in t.a):
                    raise Unsupported("tie assignment")
                v = convert(en, s, v, t)
            if isinstance(cur, eng.VTie) if hasattr(eng, "VTie") else False:
                pass
            en.write(s, lhs, v)
            return [(s, lhs)]
        return en.bind(en.evs(list(reversed(args)), st), f)

    if op == "<<" or op == ">>":
        try:
            t = en.ty(args[0])
        except Unsupported:
            t = Ty("opaque")
        if t.k in ("opaque",):
            return en.bind(en.ev(args[0], st), lambda s, v: [(s, v)])

    if op == "->":
        def f(s, v):
            return [(s, arrow(en, s, v, node))]
        return en.bind(en.ev(args[0], st), f)
    if op == "*" and len(args) == 1:
        def f(s, v):
            w = en.read(s, v) if isinstance(v, eng.LV) else v
            if isinstance(w, eng.VSink):
                return [(s, w)]
            return [(s, arrow(en, s, v, node).lv)]
        return en.bind(en.ev(args[0], st), f)
    if op == "[]":
        def f(s, vs):
            base, ix = vs
            if not isinstance(base, eng.LV):
                base = eng.LV(en.new_cell(s, base), (), base.ty)
            bv = en.read(s, base)
            if isinstance(bv, Val) and bv.ty.k == "map":
                return [(s, map_at(en, s, base, bv, key_term(en, s, ix), create=True))]
            if isinstance(bv, eng.VIter):
                ixv = en.read(s, ix) if isinstance(ix, eng.LV) else ix
                return [(s, en.iter_target(s, eng.VIter(bv.lv, bv.idx - ixv.t if bv.rev else bv.idx + ixv.t, bv.rev), node))]
            ixv = en.read(s, ix) if isinstance(ix, eng.LV) else ix
            return [(s, en.index(s, base, ixv.t, node))]
        return en.bind(en.evs(args, st), f)
    if op in ("++", "--"):
        def f(s, lv):
            v = en.read(s, lv) if isinstance(lv, eng.LV) else lv
            if isinstance(v, eng.VSink):
                return [(s, v)]
            if not isinstance(v, eng.VIter):
                raise Unsupported("operator%s on %s at %s" % (op, type(v).__name__, loc(node)))
            d = 1 if (op == "++") != v.rev else -1
            n = en.read_len(s, v.lv)
            en.oblige(s, z3.And(v.idx + d >= 0, v.idx + d <= n), "iterator stays in range", "memory", node)
            s.assume(z3.And(v.idx + d >= 0, v.idx + d <= n))
            en.write(s, lv, eng.VIter(v.lv, v.idx + d, v.rev))
            return [(s, v if len(args) == 2 else lv)]
        return en.bind(en.ev(args[0], st), f)
    if op == "|":
        return pipe(en, args, st, node)

    def g(s, vs):
        a, b = (vs + [None])[:2]
        if op == "!" and b is None:
            return [(s, scalar(BOOL, z3.Not(en.truth(a))))]
        if isinstance(a, Val) and a.ty.k == "ord":
            # comparison of an ordering with literal zero
            return [(s, scalar(BOOL, en.cmp(op, a.t, I(0))))] if op in ("<", "<=", ">", ">=", "==", "!=") else bad(op, node)
        if isinstance(b, Val) and b.ty.k == "ord" and not (isinstance(a, Val) and a.ty.k != "opaque"):
            flip = {"<": ">", "<=": ">=", ">": "<", ">=": "<=", "==": "==", "!=": "!="}
            return [(s, scalar(BOOL, en.cmp(flip[op], b.t, I(0))))]
        if isinstance(a, eng.VIter) and isinstance(b, eng.VIter):
            if a.rev != b.rev:
                raise Unsupported("iterators of different directions at " + loc(node))
            if a.rev:
                a, b = b, a
            if op in ("==", "!=", "<", ">", "<=", ">="):
                return [(s, scalar(BOOL, en.cmp(op, a.idx, b.idx)))]
            if op == "-":
                return [(s, scalar(LL, a.idx - b.idx))]
            if op == "<=>":
                return [(s, scalar(ORD, order_term(en, scalar(LL, a.idx), scalar(LL, b.idx))))]
        if isinstance(a, eng.VIter) and isinstance(b, Val) and op in ("+", "-"):
            d = b.t if (op == "+") != a.rev else -b.t
            return [(s, eng.VIter(a.lv, z3.simplify(a.idx + d), a.rev))]
        if op in ("==", "!="):
            if isinstance(b, eng.VNull) or isinstance(a, eng.VNull):
                x = a if isinstance(b, eng.VNull) else b
                c = z3.Not(en.truth(x))
            else:
                c = eq_vals(en, s, a, b)
            return [(s, scalar(BOOL, c if op == "==" else z3.Not(c)))]
        if op == "<=>" and isinstance(a, Val) and isinstance(b, Val):
            return [(s, scalar(ORD, order_term(en, a, b)))]
        if op in ("<", "<=", ">", ">=") and isinstance(a, Val) and isinstance(b, Val):
            return [(s, scalar(BOOL, en.cmp(op, order_term(en, a, b), I(0))))]
        if op == "+" and isinstance(a, (eng.VOpaque, eng.VList, Val)):
            return [(s, eng.VOpaque("string"))]
        if isinstance(a, eng.VOpaque):
            return [(s, eng.VOpaque("op"))]
        if op == "+=" and len(vs) == 2:
            raise Unsupported("operator+= on library type at " + loc(node))
        raise Unsupported("operator%s at %s" % (op, loc(node)))
    return en.bind(en.rvs(args, st), g)


def bad(op, node):
    raise Unsupported("operator%s at %s" % (op, loc(node)))


def eq_vals(en, s, a, b):
    eng = E()
    if isinstance(a, eng.VList) and isinstance(b, Val):
        a = en.as_val(s, a, b.ty)
    if isinstance(b, eng.VList) and isinstance(a, Val):
        b = en.as_val(s, b, a.ty)
    if isinstance(a, Val) and isinstance(b, Val):
        if a.ty.k == "opt" and b.ty.k != "opt":
            return z3.And(a.lv[("?",)], en.val_eq(Val(a.ty.a[0], sub(a.lv, "*")), convert(en, s, b, a.ty.a[0])))
        if b.ty.k == "opt" and a.ty.k != "opt":
            return eq_vals(en, s, b, a)
        return en.val_eq(a, b)
    raise Unsupported("equality of %s and %s" % (type(a).__name__, type(b).__name__))


def arrow(en, s, v, node):
    """the l-value that * or -> designates"""
    eng = E()
    if isinstance(v, eng.LV):
        lv = v
        val = en.read(s, v)
    else:
        val = v
        lv = eng.LV(en.new_cell(s, v), (), v.ty if isinstance(v, Val) else None)
    if isinstance(val, eng.VOpaque):
        return eng.VPtr(eng.LV(en.new_cell(s, eng.VOpaque("opaque")), (), None))
    if isinstance(val, eng.VPtr):
        return eng.VPtr(en.deref(s, val, node))
    if isinstance(val, eng.VIter):
        return eng.VPtr(en.iter_target(s, val, node))
    if val.ty.k == "opt":
        en.oblige(s, val.lv[("?",)], "optional holds a value where it is dereferenced", "memory", node)
        s.assume(val.lv[("?",)])
        return eng.VPtr(lv.step(("o",), val.ty.a[0]))
    if val.ty.k == "uptr":
        nn = en.nonnull(val)
        en.oblige(s, nn, "pointer is not null where it is dereferenced", "memory", node)
        s.assume(nn)
        return eng.VPtr(lv.step(("d",), val.ty.a[0]))
    raise Unsupported("dereference of %s" % val.ty)


def named(s, t):
    """a name for a term that may not occur in a trigger"""
    t = z3.simplify(t)
    if not z3.is_app_of(t, z3.Z3_OP_ITE):
        return t
    c = z3.Const(fresh_name("val"), t.sort())
    s.assume(c == t)
    return c


def map_at(en, s, base, bv, k, create=False):
    if create:
        lv = dict(bv.lv)
        was = z3.Select(lv[("in",)], k)
        lv[("n",)] = z3.If(was, lv[("n",)], lv[("n",)] + 1)
        lv[("in",)] = z3.Store(lv[("in",)], k, TRUE)
        dv = en.default_val(bv.ty.a[1])
        for p, x in dv.lv.items():
            arr = lv[("at",) + p]
            lv[("at",) + p] = z3.Store(arr, k, named(s, z3.If(was, z3.Select(arr, k), x)))
        en.write(s, base, Val(bv.ty, lv))
    return base.step(("m", k), bv.ty.a[1])


# ---------------------------------------------------------------- member functions
def member(en, me, args, st, node):
    eng = E()
    name = me["name"]
    base = en.kids(me)[0]

    def f(s, b):
        if me.get("isArrow"):
            if isinstance(b, eng.LV):
                b = en.read(s, b)
            b = en.deref(s, b, node)
        if isinstance(b, eng.LV):
            lv = b
            v = en.read(s, b)
        else:
            v = b
            lv = eng.LV(en.new_cell(s, b), (), b.ty if isinstance(b, Val) else getattr(b, "ty", None))
        if isinstance(v, eng.VOpaque) and name == "out" and v.what == "format_context":
            return [(s, eng.VSink(s.ghost["sink"]))]
        if isinstance(v, eng.VOpaque) and name in ("begin", "end") and v.what == "parse_context":
            l = eng.LV(s.ghost["spec"], (), STR)
            return [(s, eng.VIter(l, I(0) if name == "begin" else s.cells[l.cell].lv[("#",)]))]
        if isinstance(v, eng.VOpaque):
            return en.bind(en.evs(args, s), lambda s2, _: [(s2, eng.VOpaque(name))])
        if isinstance(v, eng.VFn) and name == "visit":
            return en.bind(en.evs(args, s), lambda s2, a: visit_vals(en, s2, [v] + a, node))
        if isinstance(v, eng.VFn) and name == "operator bool":
            return [(s, scalar(BOOL, TRUE))]
        if isinstance(v, eng.VNull):
            if name == "operator bool":
                return [(s, scalar(BOOL, FALSE))]
        if isinstance(v, (eng.VList, eng.VRange)):
            ty = v.ty
            kind = "vec"
        elif isinstance(v, Val):
            ty, kind = v.ty, v.ty.k
        elif isinstance(v, eng.VIter) and name == "base":
            return [(s, eng.VIter(v.lv, v.idx))]
        else:
            raise Unsupported("member %s of %s at %s" % (name, type(v).__name__, loc(node)))
        op = name
        if kind == "vec" and name == "pop":
            bt = base["type"].get("desugaredQualType", base["type"]["qualType"])
            op = "pop_front" if re.search(r"\bqueue<", bt) else "pop_back" if re.search(r"\bstack<", bt) else name
        if kind == "vec" and name in ("pop", "top"):
            bt = base["type"].get("desugaredQualType", base["type"]["qualType"])
            if re.search(r"\bpriority_queue<", bt):
                return pq_extremum(en, s, lv, bt, name, node)
        h = MEMBERS.get((kind, op))
        if h is None:
            raise Unsupported("member function %s of %s at %s" % (name, ty, loc(node)))
        return en.bind(en.evs(args, s), lambda s2, a: h(en, s2, lv, a, node))
    return en.bind(en.ev(base, st), f)


MEMBERS = {}


def mem(kind, *names):
    def d(f):
        for n in names:
            MEMBERS[(kind, n)] = f
        return f
    return d


def val_of(en, s, a):
    return en.read(s, a) if isinstance(a, E().LV) else a


def vec_val(en, s, lv):
    v = en.read(s, lv)
    eng = E()
    if isinstance(v, (eng.VList, eng.VRange)):
        v = en.as_val(s, v, v.ty)
        en.write(s, lv, v)
    return v


@mem("vec", "size", "length", "ssize")
def _(en, s, lv, a, node):
    return [(s, scalar(ULL, en.read_len(s, lv)))]


@mem("vec", "empty")
def _(en, s, lv, a, node):
    return [(s, scalar(BOOL, en.read_len(s, lv) == 0))]


@mem("vec", "reserve", "shrink_to_fit")
def _(en, s, lv, a, node):
    return [(s, E().VOpaque("void"))]


@mem("vec", "at")
def _(en, s, lv, a, node):
    eng = E()
    v = vec_val(en, s, lv)
    i = val_of(en, s, a[0]).t
    n = v.lv[("#",)]
    en.len_fact(s, n)
    out = []
    for s2, ok in en.branch(s, z3.And(i >= 0, i < n)):
        out.append((s2, eng.LV(lv.cell, lv.path, v.ty).i(i, v.ty.a[0]) if ok else eng.Raise("std::out_of_range", loc(node))))
    return out


@mem("vec", "push_back", "push", "emplace_back", "emplace")
def _(en, s, lv, a, node):
    eng = E()
    v = vec_val(en, s, lv)
    t = v.ty.a[0]
    n = v.lv[("#",)]
    en.len_fact(s, n)
    nl = dict(v.lv)

    def done(s, w):
        nl[("#",)] = z3.simplify(n + 1)
        s.assume(n + 1 <= (1 << 59))
        for p, x in w.lv.items():
            nl[("[]",) + p] = z3.Store(v.lv[("[]",) + p], n, named(s, x) if z3.is_app_of(x, z3.Z3_OP_ITE) else x)
        en.write(s, lv, Val(v.ty, nl))
        return [(s, lv.i(n, t))]
    w = elem_from_args(en, s, a, t, node)
    return done(s, w)


def elem_from_args(en, s, a, t, node):
    eng = E()
    if len(a) == 1:
        if isinstance(a[0], eng.LV) and a[0].ty is not None and a[0].ty.k == "uptr":
            return take(en, s, a[0], t)
        v = val_of(en, s, a[0])
        if not (t.k == "rec" and isinstance(v, Val) and v.ty.k != "rec"):
            try:
                return convert(en, s, v, t)
            except Unsupported:
                pass
    vs = [val_of(en, s, x) for x in a]
    if not vs:
        return en.default_val(t)
    if t.k == "rec":
        fl = en.types.fields(t)
        if len(fl) >= len(vs):
            # aggregate or a constructor that initialises members in order: only
            # accepted when the record has no user-provided constructor
            rec = en.tu.records[t.a[0]]
            if not any(c.get("kind") == "CXXConstructorDecl" and not c.get("isImplicit") for c in rec.get("inner", [])):
                lv = {}
                for i, (n, ft, fd) in enumerate(fl):
                    if i >= len(vs) and fd is not None and en.kids(fd):
                        raise Unsupported("in-place construction with default member initialisers")
                    w = convert(en, s, vs[i], ft) if i < len(vs) else en.default_val(ft)
                    for p, x in w.lv.items():
                        lv[(n,) + p] = x
                return Val(t, en.types.close(t, lv))
        rec = en.tu.records[t.a[0]]
        cands = [en.tu.func_for(c["id"]) for c in rec.get("inner", []) if c.get("kind") == "CXXConstructorDecl"]
        cands = [c for c in cands if c is not None and len(c["_params"]) == len(vs)]
        if len(cands) == 1:
            cell = en.new_cell(s, en.fresh(t, "new", s))
            l2 = eng.LV(cell, (), t)
            rs = en.call_decl(cands[0], vs, l2, s, node)
            if len(rs) == 1 and not isinstance(rs[0][1], eng.Raise):
                s2 = rs[0][0]
                s.cells.update(s2.cells)
                s.pc[:] = s2.pc
                return en.read(s2, l2)
        raise Unsupported("in-place construction of %s" % t)
    return build(en, t, vs, s, node)


@mem("vec", "pop_back")
def _(en, s, lv, a, node):
    v = vec_val(en, s, lv)
    n = v.lv[("#",)]
    en.len_fact(s, n)
    en.oblige(s, n > 0, "pop_back on a non-empty sequence", "memory", node)
    s.assume(n > 0)
    nl = dict(v.lv)
    nl[("#",)] = z3.simplify(n - 1)
    en.write(s, lv, Val(v.ty, nl))
    return [(s, E().VOpaque("void"))]


@mem("bool", "operator bool")
def _(en, s, lv, a, node):
    return [(s, en.read(s, lv))]


def pq_extremum(en, s, lv, bt, name, node):
    """priority_queue as the bag of its elements: top is any extremal element
    (equal elements are indistinguishable under a total order), pop removes one"""
    eng = E()
    v = vec_val(en, s, lv)
    n = v.lv[("#",)]
    en.len_fact(s, n)
    en.oblige(s, n > 0, "%s() on a non-empty queue" % name, "memory", node)
    s.assume(n > 0)
    least = re.search(r"\bgreater<", bt) is not None
    if not least and re.search(r"priority_queue<.*,.*,", bt) and not re.search(r"\bless<", bt):
        raise Unsupported("priority_queue with its own comparison")
    key = ("pqtop", lv.cell, lv.path)
    m = z3.Int(fresh_name("top"))
    i = z3.Int(fresh_name("i"))
    o = order_term(en, leaf_at(v, m), leaf_at(v, i))
    first = list(sub(v.lv, "[]").values())[0]
    ext = z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n), (o <= 0) if least else (o >= 0)), patterns=[z3.Select(first, i)])
    old = s.ghost.get(key)
    if old is not None and old[1] is not None and all(old[1].lv[p].eq(t) for p, t in v.lv.items()):
        m = old[0]
    else:
        s.assume(z3.And(0 <= m, m < n, ext))
    s.ghost[key] = (m, v)
    if name == "top":
        return [(s, lv.i(m, v.ty.a[0]))]
    nl = {("#",): z3.simplify(n - 1)}
    for p, x in sub(v.lv, "[]").items():
        nl[("[]",) + p] = z3.Store(x, m, z3.Select(x, n - 1))
    s.ghost[key] = (None, None)
    en.write(s, lv, Val(v.ty, nl))
    return [(s, eng.VOpaque("void"))]


@mem("vec", "pop_front")
def _(en, s, lv, a, node):
    v = vec_val(en, s, lv)
    n = v.lv[("#",)]
    en.len_fact(s, n)
    en.oblige(s, n > 0, "pop on a non-empty sequence", "memory", node)
    s.assume(n > 0)
    i = z3.Int(fresh_name("i"))
    nl = {("#",): z3.simplify(n - 1)}
    for p, x in sub(v.lv, "[]").items():
        y = z3.Const(fresh_name("rest"), x.sort())
        s.assume(z3.ForAll([i], z3.Select(y, i) == z3.Select(x, i + 1), patterns=[z3.Select(y, i)]))
        s.assume(z3.ForAll([i], z3.Select(y, i - 1) == z3.Select(x, i), patterns=[z3.Select(x, i)]))
        nl[("[]",) + p] = y
    en.write(s, lv, Val(v.ty, nl))
    return [(s, E().VOpaque("void"))]


@mem("vec", "back", "top")
def _(en, s, lv, a, node):
    v = vec_val(en, s, lv)
    n = v.lv[("#",)]
    en.len_fact(s, n)
    en.oblige(s, n > 0, "back() on a non-empty sequence", "memory", node)
    s.assume(n > 0)
    return [(s, lv.i(z3.simplify(n - 1), v.ty.a[0]))]


@mem("vec", "front")
def _(en, s, lv, a, node):
    v = vec_val(en, s, lv)
    n = v.lv[("#",)]
    en.len_fact(s, n)
    en.oblige(s, n > 0, "front() on a non-empty sequence", "memory", node)
    s.assume(n > 0)
    return [(s, lv.i(I(0), v.ty.a[0]))]


@mem("vec", "clear")
def _(en, s, lv, a, node):
    v = vec_val(en, s, lv)
    en.write(s, lv, Val(v.ty, {**v.lv, ("#",): I(0)}))
    return [(s, E().VOpaque("void"))]


@mem("vec", "assign")
def _(en, s, lv, a, node):
    v = vec_val(en, s, lv)
    vs = [val_of(en, s, x) for x in a]
    if len(vs) == 2 and isinstance(vs[0], Val) and vs[0].ty.k == "int":
        en.write(s, lv, vec_fill(en, v.ty, vs[0].t, convert(en, s, vs[1], v.ty.a[0])))
        return [(s, E().VOpaque("void"))]
    raise Unsupported("vector::assign")


@mem("vec", "resize")
def _(en, s, lv, a, node):
    v = vec_val(en, s, lv)
    n = v.lv[("#",)]
    en.len_fact(s, n)
    m = val_of(en, s, a[0]).t
    fill = convert(en, s, val_of(en, s, a[1]), v.ty.a[0]) if len(a) > 1 else en.default_val(v.ty.a[0])
    nl = {("#",): m}
    i = z3.Int(fresh_name("i"))
    empty = z3.is_int_value(z3.simplify(n)) and z3.simplify(n).as_long() == 0
    grows = s.copy()
    grows.assume(m > n)
    shrinks = not empty and not en.feasible(grows)   # then the elements that stay are as they are
    for p, x in sub(v.lv, "[]").items():
        if shrinks:
            nl[("[]",) + p] = x
            continue
        nl[("[]",) + p] = z3.K(z3.IntSort(), fill.lv[p]) if empty else z3.Lambda([i], z3.If(i < n, z3.Select(x, i), fill.lv[p]))
    en.write(s, lv, Val(v.ty, nl))
    return [(s, E().VOpaque("void"))]


@mem("vec", "begin", "cbegin")
def _(en, s, lv, a, node):
    return [(s, E().VIter(lv, I(0)))]


@mem("vec", "end", "cend")
def _(en, s, lv, a, node):
    vec_val(en, s, lv)
    return [(s, E().VIter(lv, en.read_len(s, lv)))]


@mem("vec", "rbegin", "crbegin")
def _(en, s, lv, a, node):
    vec_val(en, s, lv)
    return [(s, E().VIter(lv, en.read_len(s, lv), True))]


@mem("vec", "rend", "crend")
def _(en, s, lv, a, node):
    return [(s, E().VIter(lv, I(0), True))]


@mem("vec", "data", "c_str")
def _(en, s, lv, a, node):
    return [(s, E().VIter(lv, I(0)))]


@mem("vec", "substr")
def _(en, s, lv, a, node):
    eng = E()
    v = vec_val(en, s, lv)
    n = v.lv[("#",)]
    en.len_fact(s, n)
    at = val_of(en, s, a[0]).t if a else I(0)
    cnt = val_of(en, s, a[1]).t if len(a) > 1 and isinstance(val_of(en, s, a[1]), Val) else n
    out = []
    for s2, ok in en.branch(s, at <= n):
        if not ok:
            out.append((s2, eng.Raise("std::out_of_range", loc(node))))
            continue
        m = z3.simplify(z3.If(cnt < n - at, cnt, n - at))
        w = en.fresh(v.ty, "substr", s2)
        s2.assume(w.lv[("#",)] == m)
        i = z3.Int(fresh_name("i"))
        for p, x in sub(w.lv, "[]").items():
            y = v.lv[("[]",) + p]
            s2.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < m), z3.Select(x, i) == z3.Select(y, i + at)), patterns=[z3.Select(x, i)]))
        out.append((s2, w))
    return out


def shift_maps(s, k, m, d):
    """index maps as functions, so that each element of one sequence names one of
    the other: up moves what lies from k on by d, dn undoes it (-1 for the
    indices below m that up does not reach)"""
    up, dn = (z3.Function(fresh_name(x), z3.IntSort(), z3.IntSort()) for x in ("moved_up", "moved_down"))
    i = z3.Int(fresh_name("i"))
    s.assume(z3.ForAll([i], z3.And(up(i) == z3.If(i < k, i, i + d), dn(up(i)) == i), patterns=[up(i)]))
    hit = z3.Or(i < k, i >= k + d)
    s.assume(z3.ForAll([i], z3.And(dn(i) == z3.If(i < k, i, z3.If(i >= k + d, i - d, z3.IntVal(-1))), z3.Implies(hit, up(dn(i)) == i), z3.Implies(z3.Not(hit), up(dn(i)) == -1)), patterns=[dn(i)]))
    return up, dn


@mem("vec", "insert")
def _(en, s, lv, a, node):
    eng = E()
    v = vec_val(en, s, lv)
    it = val_of(en, s, a[0])
    n = v.lv[("#",)]
    en.len_fact(s, n)
    at_end = isinstance(it, eng.VIter) and z3.is_true(z3.simplify(it.idx == n))
    if len(a) == 2 and at_end and isinstance(val_of(en, s, a[1]), eng.VList):
        nl = dict(v.lv)
        es = val_of(en, s, a[1]).elems
        for k, e in enumerate(es):
            e = convert(en, s, val_of(en, s, e), v.ty.a[0])
            for p, t in e.lv.items():
                nl[("[]",) + p] = z3.Store(nl[("[]",) + p], z3.simplify(n + k), t)
        nl[("#",)] = z3.simplify(n + len(es))
        s.assume(nl[("#",)] <= (1 << 59))
        en.write(s, lv, Val(v.ty, nl))
        return [(s, eng.VIter(lv, n))]
    if len(a) == 3 and at_end and all(isinstance(val_of(en, s, x), eng.VIter) for x in a[1:]):
        b, e = (val_of(en, s, x) for x in a[1:])
        src = en.read(s, b.lv)
        if not en.same_lv(b.lv, e.lv) or b.rev or e.rev or not isinstance(src, Val) or src.ty != v.ty:
            raise Unsupported("vector::insert of a range at " + loc(node))
        m = e.idx - b.idx
        en.oblige(s, m >= 0, "the range inserted is a range", "memory", node)
        nl = {("#",): z3.simplify(n + m)}
        s.assume(nl[("#",)] <= (1 << 59))
        i = z3.Int(fresh_name("i"))
        whole = z3.is_true(z3.simplify(n == 0)) and z3.is_true(z3.simplify(b.idx == 0))
        for p, x in sub(v.lv, "[]").items():
            y = src.lv[("[]",) + p]
            if whole:
                nl[("[]",) + p] = y
                continue
            z = z3.Const(fresh_name("appended"), x.sort())
            s.assume(z3.ForAll([i], z3.Implies(i < n, z3.Select(z, i) == z3.Select(x, i)), patterns=[z3.Select(z, i)]))
            s.assume(z3.ForAll([i], z3.Implies(z3.And(n <= i, i < n + m), z3.Select(z, i) == z3.Select(y, i - n + b.idx)), patterns=[z3.Select(z, i)]))
            s.assume(z3.ForAll([i], z3.Implies(z3.And(b.idx <= i, i < e.idx), z3.Select(z, n + i - b.idx) == z3.Select(y, i)), patterns=[z3.Select(y, i)]))
            nl[("[]",) + p] = z
        en.write(s, lv, Val(v.ty, nl))
        return [(s, eng.VIter(lv, n))]
    if len(a) == 2 and isinstance(it, eng.VIter):
        w = convert(en, s, val_of(en, s, a[1]), v.ty.a[0])
        k = it.idx
        en.oblige(s, z3.And(k >= 0, k <= n), "insert position within sequence", "memory", node)
        s.assume(z3.And(k >= 0, k <= n))
        i = z3.Int(fresh_name("i"))
        nl = {("#",): z3.simplify(n + 1)}
        s.assume(n + 1 <= (1 << 59))
        up, dn = shift_maps(s, k, k, 1)
        for p, x in sub(v.lv, "[]").items():
            y = z3.Const(fresh_name("inserted"), x.sort())
            s.assume(z3.ForAll([i], z3.Implies(i != k, z3.Select(y, i) == z3.Select(x, dn(i))), patterns=[z3.Select(y, i)]))
            s.assume(z3.ForAll([i], z3.Select(y, up(i)) == z3.Select(x, i), patterns=[z3.Select(x, i)]))
            s.assume(z3.Select(y, k) == w.lv[p])
            nl[("[]",) + p] = y
        en.write(s, lv, Val(v.ty, nl))
        return [(s, eng.VIter(lv, k))]
    raise Unsupported("vector::insert form at " + loc(node))


@mem("vec", "erase")
def _(en, s, lv, a, node):
    eng = E()
    v = vec_val(en, s, lv)
    it = val_of(en, s, a[0])
    n = v.lv[("#",)]
    en.len_fact(s, n)
    if isinstance(it, eng.VIter):
        k = it.idx
        if len(a) == 2:
            m = val_of(en, s, a[1]).idx
        else:
            m = k + 1
        en.oblige(s, z3.And(k >= 0, k <= m, m <= n), "erase range within sequence", "memory", node)
        s.assume(z3.And(k >= 0, k <= m, m <= n))
        i = z3.Int(fresh_name("i"))
        nl = {("#",): z3.simplify(n - (m - k))}
        up, dn = shift_maps(s, k, m, m - k)
        for p, x in sub(v.lv, "[]").items():
            y = z3.Const(fresh_name("erased"), x.sort())
            s.assume(z3.ForAll([i], z3.Select(y, i) == z3.Select(x, up(i)), patterns=[z3.Select(y, i)]))
            s.assume(z3.ForAll([i], z3.Implies(z3.Or(i < k, i >= m), z3.Select(y, dn(i)) == z3.Select(x, i)), patterns=[z3.Select(x, i)]))
            nl[("[]",) + p] = y
        en.write(s, lv, Val(v.ty, nl))
        return [(s, eng.VIter(lv, k))]
    raise Unsupported("vector::erase form at " + loc(node))


# ---- optional
@mem("opt", "has_value", "operator bool")
def _(en, s, lv, a, node):
    return [(s, scalar(BOOL, en.read(s, lv).lv[("?",)]))]


@mem("opt", "value")
def _(en, s, lv, a, node):
    eng = E()
    v = en.read(s, lv)
    out = []
    for s2, ok in en.branch(s, v.lv[("?",)]):
        out.append((s2, lv.step(("o",), v.ty.a[0]) if ok else eng.Raise("std::bad_optional_access", loc(node))))
    return out


@mem("opt", "value_or")
def _(en, s, lv, a, node):
    v = en.read(s, lv)
    w = convert(en, s, val_of(en, s, a[0]), v.ty.a[0])
    return [(s, en.ite(v.lv[("?",)], Val(v.ty.a[0], sub(v.lv, "*")), w))]


@mem("opt", "transform")
def _(en, s, lv, a, node):
    """the function applied to the value, if there is one"""
    eng = E()
    v = en.read(s, lv)
    t = en.ty(node)
    fn = en.read(s, a[0]) if isinstance(a[0], eng.LV) else a[0]
    if not isinstance(fn, eng.VFn):
        raise Unsupported("optional::transform with %s" % type(fn).__name__)
    out = []
    for s2, ok in en.branch(s, v.lv[("?",)]):
        if not ok:
            out.append((s2, en.default_val(t)))
            continue

        def wrap(s3, r):
            r = convert(en, s3, val_of(en, s3, r), t.a[0])
            return [(s3, Val(t, {("?",): TRUE, **{("*",) + p: x for p, x in r.lv.items()}}))]
        out += en.bind(en.call_fn(fn, [lv.step(("o",), v.ty.a[0])], s2, node), wrap)
    return out


@mem("opt", "reset")
def _(en, s, lv, a, node):
    v = en.read(s, lv)
    en.write(s, lv, en.default_val(v.ty))
    return [(s, E().VOpaque("void"))]


@mem("opt", "emplace")
def _(en, s, lv, a, node):
    v = en.read(s, lv)
    w = elem_from_args(en, s, a, v.ty.a[0], node)
    en.write(s, lv, convert(en, s, w, v.ty))
    return [(s, lv.step(("o",), v.ty.a[0]))]


# ---- unique_ptr
@mem("uptr", "get")
def _(en, s, lv, a, node):
    eng = E()
    v = en.read(s, lv)
    out = []
    for s2, ok in en.branch(s, en.truth(v)):
        out.append((s2, eng.VPtr(lv.step(("d",), v.ty.a[0])) if ok else eng.VPtr(None)))
    return out


@mem("uptr", "operator bool")
def _(en, s, lv, a, node):
    return [(s, scalar(BOOL, en.truth(en.read(s, lv))))]


@mem("uptr", "reset")
def _(en, s, lv, a, node):
    if a:
        raise Unsupported("unique_ptr::reset(p)")
    en.write(s, lv, en.default_val(en.read(s, lv).ty))
    return [(s, E().VOpaque("void"))]


# ---- set / map
for _k in ("set", "map"):
    @mem(_k, "contains")
    def _(en, s, lv, a, node):
        v = en.read(s, lv)
        return [(s, scalar(BOOL, z3.Select(v.lv[("in",)], key_term(en, s, a[0]))))]

    @mem(_k, "count")
    def _(en, s, lv, a, node):
        v = en.read(s, lv)
        return [(s, scalar(ULL, z3.If(z3.Select(v.lv[("in",)], key_term(en, s, a[0])), I(1), I(0))))]

    @mem(_k, "size")
    def _(en, s, lv, a, node):
        return [(s, scalar(ULL, en.read(s, lv).lv[("n",)]))]

    @mem(_k, "empty")
    def _(en, s, lv, a, node):
        return [(s, scalar(BOOL, en.read(s, lv).lv[("n",)] == 0))]

    @mem(_k, "clear")
    def _(en, s, lv, a, node):
        en.write(s, lv, en.default_val(en.read(s, lv).ty))
        return [(s, E().VOpaque("void"))]


@mem("set", "insert")
@mem("set", "emplace")
def _(en, s, lv, a, node):
    eng = E()
    v = en.read(s, lv)
    if len(a) != 1:
        raise Unsupported("set::insert form at " + loc(node))
    k = key_term(en, s, a[0])
    en.write(s, lv, set_insert(en, v, k))
    return [(s, Val(Ty("tuple", Ty("opaque"), BOOL), {("0",): I(0), ("1",): z3.Not(z3.Select(v.lv[("in",)], k))}))]


@mem("set", "erase")
def _(en, s, lv, a, node):
    v = en.read(s, lv)
    k = key_term(en, s, a[0])
    was = z3.Select(v.lv[("in",)], k)
    en.write(s, lv, Val(v.ty, {("in",): z3.Store(v.lv[("in",)], k, FALSE), ("n",): z3.If(was, v.lv[("n",)] - 1, v.lv[("n",)])}))
    return [(s, scalar(ULL, z3.If(was, I(1), I(0))))]


@mem("map", "emplace")
@mem("map", "try_emplace")
def _(en, s, lv, a, node):
    v = en.read(s, lv)
    if len(a) != 2:
        raise Unsupported("map::emplace form at " + loc(node))
    k = key_term(en, s, a[0])
    w = convert(en, s, val_of(en, s, a[1]), v.ty.a[1])
    ml = dict(v.lv)
    was = z3.Select(ml[("in",)], k)
    ml[("n",)] = z3.If(was, ml[("n",)], ml[("n",)] + 1)
    ml[("in",)] = z3.Store(ml[("in",)], k, TRUE)
    for p, x in w.lv.items():
        arr = ml[("at",) + p]
        ml[("at",) + p] = z3.Store(arr, k, named(s, z3.If(was, z3.Select(arr, k), x)))
    en.write(s, lv, Val(v.ty, ml))
    return [(s, Val(Ty("tuple", Ty("opaque"), BOOL), {("0",): I(0), ("1",): z3.Not(was)}))]


@mem("map", "at")
def _(en, s, lv, a, node):
    eng = E()
    v = en.read(s, lv)
    k = key_term(en, s, a[0])
    out = []
    for s2, ok in en.branch(s, z3.Select(v.lv[("in",)], k)):
        out.append((s2, map_at(en, s2, lv, v, k) if ok else eng.Raise("std::out_of_range", loc(node))))
    return out


# ---------------------------------------------------------------- free functions
def source_text(en, node):
    r = node.get("range", {})
    try:
        b, e = r["begin"], r["end"]
        b = b.get("expansionLoc", b)
        e = e.get("expansionLoc", e)
        f = node["_loc"][0]
        data = en.tu.texts.get(f) or open(f, "rb").read()
        return data[b["offset"]:e["offset"] + e["tokLen"]].decode("utf8", "replace")
    except Exception:
        return ""


IGNORED_FORMAT = ("format", "print", "println", "to_string", "vformat", "make_format_args", "put_time", "quoted", "getenv", "endl")


def call(en, fn, args, st, node):
    eng = E()
    name = fn.name
    if name.startswith("ranges::"):
        name = name[len("ranges::"):]
    if name in ("move", "forward") and len(args) == 1 and node.get("valueCategory") == "xvalue" and "const " not in node["type"]["qualType"]:
        return en.bind(en.ev(args[0], st), lambda s, lv: [(s, move_out(en, s, lv))])
    if name in ("move", "forward", "as_const", "ref", "cref", "forward_like") and len(args) == 1:
        return en.ev(args[0], st)
    if name == "format_to":
        return format_to(en, args, st, node)
    if name in IGNORED_FORMAT:
        return [(st, eng.VOpaque(name))]
    if name in ("__builtin_add_overflow", "__builtin_sub_overflow", "__builtin_mul_overflow"):
        def f(s, vs):
            a, b, p = vs
            x, y = a.t, b.t
            z = {"add": x + y, "sub": x - y, "mul": x * y}[name[10:13]]
            t = p.lv.ty
            r = int_range(t)
            out = []
            for s2, ok in en.branch(s, z3.And(z >= r[0], z <= r[1])):
                if ok:
                    en.write(s2, p.lv, scalar(t, z))
                else:
                    n = r[1] - r[0] + 1
                    en.write(s2, p.lv, scalar(t, (z - r[0]) % n + r[0]))
                out.append((s2, scalar(BOOL, not ok)))
            return out
        return en.bind(en.rvs(args, st), f)
    if name in ("unreachable", "__builtin_unreachable", "abort", "terminate"):
        en.oblige(st, FALSE, "unreachable code is not reached", "memory", node)
        return []
    if name in ("min", "max", "lowest", "digits") and not args:
        t = en.ty(node)
        r = int_range(t)
        return [(st, scalar(t, r[1] if name == "max" else r[0]))]
    if name in ("abs", "llabs", "labs") and len(args) == 1:
        def f(s, v):
            t = v.ty
            r = int_range(t)
            if t.k != "int":
                raise Unsupported("abs")
            en.oblige(s, v.t > r[0], "no overflow in abs", "overflow", node)
            s.assume(v.t > r[0])
            return [(s, scalar(t, z3.If(v.t >= 0, v.t, -v.t)))]
        return en.bind(en.rv(args[0], st), f)
    if name in ("min", "max"):
        def f(s, vs):
            if len(vs) == 1 and isinstance(vs[0], eng.VList):
                vs = vs[0].elems
            elif len(vs) == 1:
                raise Unsupported("ranges::min")
            if len(vs) > 2 and isinstance(vs[2], eng.VFn):
                raise Unsupported("min/max with comparator")
            if any(isinstance(v, eng.VOpaque) for v in vs):
                return [(s, eng.VOpaque("opaque"))]
            r = vs[0]
            for v in vs[1:]:
                c = less(en, s, v, r) if name == "min" else less(en, s, r, v)
                r = en.ite(c, v, r)
            return [(s, r)]
        return en.bind(en.rvs(args, st), f)
    if name in ("minmax",):
        raise Unsupported("minmax")
    if name == "clamp":
        def f(s, vs):
            v, lo, hi = vs
            return [(s, en.ite(less(en, s, v, lo), lo, en.ite(less(en, s, hi, v), hi, v)))]
        return en.bind(en.rvs(args, st), f)
    if name == "swap" and len(args) == 2:
        def f(s, lvs):
            a, b = lvs
            va, vb = en.read(s, a), en.read(s, b)
            en.write(s, a, vb)
            en.write(s, b, va)
            return [(s, eng.VOpaque("void"))]
        return en.bind(en.evs(args, st), f)
    if name == "exchange" and len(args) == 2:
        def f(s, vs):
            lv, v = vs
            old = en.read(s, lv)
            en.write(s, lv, convert(en, s, v, lv.ty))
            return [(s, old)]
        return en.bind(en.evs(args, st), f)
    if name in ("make_pair", "make_tuple", "pair", "tuple"):
        t = en.ty(node)

        def f(s, vs):
            return [(s, build(en, t, vs, s, node))]
        return en.bind(en.rvs(args, st), f)
    if name in ("make_optional",):
        t = en.ty(node)
        return en.bind(en.rvs(args, st), lambda s, vs: [(s, convert(en, s, vs[0], t))])
    if name in ("make_unique", "make_shared"):
        t = en.ty(node)

        def f(s, vs):
            w = elem_from_args(en, s, vs, t.a[0], node)
            if en.types.tree(t):
                return [(s, Val(t, {("?",): TRUE, **{("*",) + p: x for p, x in w.lv.items()}}))]
            srt, paths = en.types.datatype(t.a[0])
            return [(s, Val(t, {(): srt.constructor(1)(*[w.lv[p] for p in paths])}))]
        return en.bind(en.evs(args, st), f)
    if name == "get" and len(args) == 1:
        return std_get(en, args, st, node)
    if name in ("holds_alternative",):
        def f(s, v):
            i = alt_index(en, v.ty, node)
            return [(s, scalar(BOOL, v.lv[("tag",)] == i))]
        return en.bind(en.rv(args[0], st), f)
    if name == "get_if":
        def f(s, p):
            lv = p.lv
            v = en.read(s, lv)
            i = alt_index(en, v.ty, node)
            out = []
            for s2, ok in en.branch(s, v.lv[("tag",)] == i):
                out.append((s2, eng.VPtr(lv.step(("k", i), v.ty.a[i]) if ok else None)))
            return out
        return en.bind(en.rv(args[0], st), f)
    if name == "visit":
        return visit(en, args, st, node)
    if name in ("size", "ssize") and len(args) == 1:
        def f(s, v):
            if not isinstance(v, eng.LV):
                v = eng.LV(en.new_cell(s, v), (), getattr(v, "ty", None))
            return [(s, scalar(ULL, en.read_len(s, v)))]
        return en.bind(en.ev(args[0], st), f)
    if name in ("begin", "end", "cbegin", "cend") and len(args) == 1:
        def f(s, v):
            if not isinstance(v, eng.LV):
                v = eng.LV(en.new_cell(s, v), (), getattr(v, "ty", None))
            vec_val(en, s, v)
            return [(s, eng.VIter(v, I(0) if "begin" in name else en.read_len(s, v)))]
        return en.bind(en.ev(args[0], st), f)
    if name == "empty" and len(args) == 1:
        def f(s, v):
            if not isinstance(v, eng.LV):
                v = eng.LV(en.new_cell(s, v), (), getattr(v, "ty", None))
            return [(s, scalar(BOOL, en.read_len(s, v) == 0))]
        return en.bind(en.ev(args[0], st), f)
    if name in ("next", "prev"):
        def f(s, vs):
            d = vs[1].t if len(vs) > 1 else I(1)
            return [(s, eng.VIter(vs[0].lv, z3.simplify(vs[0].idx + (d if (name == "next") != vs[0].rev else -d)), vs[0].rev))]
        return en.bind(en.rvs(args, st), f)
    if name == "distance":
        return en.bind(en.rvs(args, st), lambda s, vs: [(s, scalar(LL, vs[1].idx - vs[0].idx))])
    if name == "bit_width":
        def f(s, vs):
            x = vs[0].t
            t = I(64)
            for k in range(63, -1, -1):
                t = z3.If(x < I(1 << k), I(k), t)
            return [(s, scalar(INT, t))]
        return en.bind(en.rvs(args, st), f)
    if name == "isdigit":
        return en.bind(en.rvs(args, st), lambda s, vs: [(s, scalar(INT, z3.If(z3.And(vs[0].t >= 48, vs[0].t <= 57), I(1), I(0))))])
    if name in ("isspace",):
        return en.bind(en.rvs(args, st), lambda s, vs: [(s, scalar(INT, z3.If(z3.Or(vs[0].t == 32, z3.And(vs[0].t >= 9, vs[0].t <= 13)), I(1), I(0))))])
    if name in ("make_heap", "push_heap", "pop_heap"):
        return heap_op(en, name, args, st, node)
    h = FUNCS.get(name)
    if h is not None:
        return en.bind(en.evs(args, st), lambda s, vs: h(en, s, vs, node))
    raise Unsupported("library or unextracted function %s at %s" % (name, loc(node)))


def cmp_sign(node):
    """direction of a stateless library comparator argument"""
    t = node["type"].get("desugaredQualType", node["type"].get("qualType", ""))
    if re.search(r"\bgreater\b", t):
        return -1
    if re.search(r"\bless\b", t):
        return 1
    raise Unsupported("comparator " + t)


PARENT = z3.Function("heap_parent", z3.IntSort(), z3.IntSort())


def leaf_at(v, i):
    return Val(v.ty.a[0], {p: z3.Select(t, i) for p, t in sub(v.lv, "[]").items()})


def heap_formula(en, v, n, sign):
    """the first n elements form a heap: no element is before its parent
    (PARENT is an arbitrary function to a smaller position)"""
    i = z3.Int("h!i")
    o = order_term(en, leaf_at(v, PARENT(i)), leaf_at(v, i))
    return z3.ForAll([i], z3.Implies(z3.And(0 < i, i < n), z3.And(0 <= PARENT(i), PARENT(i) < i, (o >= 0) if sign > 0 else (o <= 0))), patterns=[PARENT(i)])


def array_bases(t):
    """the arrays an updated array was made from, and the updated indices"""
    bases, idx, seen, todo = [], [], set(), [t]
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        k = x.decl().kind() if z3.is_app(x) else None
        if k == z3.Z3_OP_STORE:
            idx.append(x.arg(1))
            todo.append(x.arg(0))
        elif k == z3.Z3_OP_ITE:
            todo += [x.arg(1), x.arg(2)]
        elif z3.is_const(x):
            bases.append(x)
    return bases, idx


def permuted(en, s, v, tag):
    """a vector holding the same elements in another order"""
    w = en.fresh(v.ty, tag, s)
    w.lv[("#",)] = v.lv[("#",)]
    n = v.lv[("#",)]
    to, frm = z3.Function(fresh_name("perm"), z3.IntSort(), z3.IntSort()), z3.Function(fresh_name("unperm"), z3.IntSort(), z3.IntSort())
    i = z3.Int("p!i")
    for p, t in sub(v.lv, "[]").items():
        u = w.lv[("[]",) + p]
        bases, idx = array_bases(t)
        if not z3.is_const(t):
            nm = z3.Const(fresh_name(tag + "_before"), t.sort())
            s.assume(nm == t)
            t = nm
        s.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n), z3.Select(u, i) == z3.Select(t, to(i))), patterns=[z3.Select(u, i)]))
        back = lambda i: z3.Implies(z3.And(0 <= i, i < n), z3.Select(u, frm(i)) == z3.Select(t, i))
        s.assume(z3.ForAll([i], back(i), patterns=[z3.Select(x, i) for x in [t] + [b for b in bases if not b.eq(t)]]))
        for x in idx:
            s.assume(back(x))
    s.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n), z3.And(0 <= to(i), to(i) < n, frm(to(i)) == i)), patterns=[to(i)]))
    s.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n), z3.And(0 <= frm(i), frm(i) < n, to(frm(i)) == i)), patterns=[frm(i)]))
    return w, to, frm


def heap_op(en, name, args, st, node):
    eng = E()
    iters = 2 if len(args) >= 2 and en_is_iter(en, args[1]) else 1
    sign = cmp_sign(args[iters]) if len(args) > iters else 1

    def f(s, vs):
        if iters == 2:
            lv = vs[0].lv
            if not (z3.is_int_value(z3.simplify(vs[0].idx)) and z3.simplify(vs[0].idx).as_long() == 0):
                raise Unsupported("heap operation on a part of a sequence")
            if not z3.simplify(vs[1].idx).eq(z3.simplify(en.read_len(s, lv))):
                raise Unsupported("heap operation on a part of a sequence")
        else:
            lv = vs[0]
        v = vec_val(en, s, lv)
        n = v.lv[("#",)]
        en.len_fact(s, n)
        if name == "push_heap":
            en.oblige(s, z3.Or(n <= 1, heap_formula(en, v, n - 1, sign)), "all but the last element form a heap", "library-pre", node)
        if name == "pop_heap":
            en.oblige(s, z3.And(n >= 1, heap_formula(en, v, n, sign)), "the elements form a heap", "library-pre", node)
        w, to, frm = permuted(en, s, v, name)
        i = z3.Int("h!i")
        if name == "pop_heap":
            s.assume(heap_formula(en, w, n - 1, sign))
            o = order_term(en, leaf_at(w, n - 1), leaf_at(w, i))
            first = list(sub(w.lv, "[]").values())[0]
            s.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n), (o >= 0) if sign > 0 else (o <= 0)), patterns=[z3.Select(first, i)]))
        else:
            s.assume(heap_formula(en, w, n, sign))
        en.write(s, lv, w)
        return [(s, eng.VOpaque("iterator"))]
    return en.bind(en.evs(args[:iters], st), f)


def en_is_iter(en, node):
    try:
        return en.ty(node).k == "iter"
    except Unsupported:
        return False


FUNCS = {}


def func(*names):
    def d(f):
        for n in names:
            FUNCS[n] = f
        return f
    return d


def template_args(en, node, fname):
    """explicit template arguments of the called function, from the source text"""
    ks = en.kids(node)
    txt = source_text(en, ks[0])
    m = re.search(r"<(.*)>\s*$", txt, re.S)
    if not m:
        raise Unsupported("template arguments of %s in '%s'" % (fname, txt))
    return m.group(1).strip()


def alt_index(en, vt, node):
    a = template_args(en, node, "variant access")
    if re.match(r"^\d+$", a):
        return int(a)
    t = en.types.parse(a)
    for i, x in enumerate(vt.a):
        if x == t:
            return i
    raise Unsupported("alternative %s of %s" % (a, vt))


def std_get(en, args, st, node):
    eng = E()

    def f(s, v):
        if not isinstance(v, eng.LV):
            v = eng.LV(en.new_cell(s, v), (), v.ty)
        val = en.read(s, v)
        if val.ty.k == "tuple":
            a = template_args(en, node, "get")
            if re.match(r"^\d+$", a):
                i = int(a)
            else:
                t = en.types.parse(a)
                i = [k for k, x in enumerate(val.ty.a) if x == t][0]
            return [(s, v.f(str(i), val.ty.a[i]))]
        if val.ty.k == "variant":
            i = alt_index(en, val.ty, node)
            out = []
            for s2, ok in en.branch(s, val.lv[("tag",)] == i):
                out.append((s2, v.step(("k", i), val.ty.a[i]) if ok else eng.Raise("std::bad_variant_access", loc(node))))
            return out
        raise Unsupported("std::get on %s" % val.ty)
    return en.bind(en.ev(args[0], st), f)


def fn_candidates(fn):
    if fn.overloads is not None:
        r = []
        for o in fn.overloads:
            r += fn_candidates(o)
        return r
    if fn.py is not None:
        return [(fn, None)]
    if isinstance(fn.node, list):
        return [(fn, d) for d in fn.node]
    return [(fn, fn.node)]


def visit(en, args, st, node):
    return en.bind(en.evs(args, st), lambda s, vs: visit_vals(en, s, vs, node))


def visit_vals(en, s, vs, node):
    eng = E()
    if True:
        fn = vs[0]
        if isinstance(fn, eng.LV):
            fn = en.read(s, fn)
        ops = []
        for v in vs[1:]:
            if not isinstance(v, eng.LV):
                v = eng.LV(en.new_cell(s, v), (), v.ty)
            val = en.read(s, v)
            while isinstance(val, Val) and val.ty.k == "rec" and len(en.types.fields(val.ty)) == 1 and en.types.fields(val.ty)[0][1].k == "variant":
                n, t, _ = en.types.fields(val.ty)[0]
                v = v.f(n, t)
                val = en.read(s, v)
            if val.ty.k != "variant":
                raise Unsupported("visit of %s" % val.ty)
            ops.append((v, val))
        combos = [([], s)]
        for v, val in ops:
            nx = []
            for pre, s2 in combos:
                for i, t in enumerate(val.ty.a):
                    c = z3.simplify(val.lv[("tag",)] == i)
                    if z3.is_false(c):
                        continue
                    s3 = s2.copy()
                    s3.assume(c)
                    if en.prune and not en.feasible(s3):
                        continue
                    nx.append((pre + [v.step(("k", i), t)], s3))
            combos = nx
        out = []
        cands = fn_candidates(fn)
        for a, s2 in combos:
            best = None
            for cf, d in cands:
                if d is None:
                    best = (cf, None)
                    break
                if len(d["_params"]) != len(a):
                    continue
                try:
                    ts = [en.types.node(p) for p in d["_params"]]
                except Unsupported:
                    continue
                if all(t == x.ty for t, x in zip(ts, a)):
                    best = (cf, d)
                    break
            if best is None:
                raise Unsupported("no overload for %s at %s" % ([x.ty for x in a], loc(node)))
            cf, d = best
            g = eng.VFn(node=d, caps=cf.caps, this=cf.this, names=cf.names, py=cf.py)
            g.byref, g.captures, g.has_this = cf.byref, cf.captures, cf.has_this
            out.extend(en.call_fn(g, a, s2, node))
        return out


def pipe(en, args, st, node):
    """what is left of a sequence without its first values"""
    eng = E()
    rhs = args[1]
    while rhs["kind"] in ("ImplicitCastExpr", "ParenExpr", "ExprWithCleanups", "MaterializeTemporaryExpr", "CXXBindTemporaryExpr"):
        rhs = en.kids(rhs)[0]
    if rhs["kind"] == "CXXOperatorCallExpr":
        ks = en.kids(rhs)
        o = ks[1]
        while o["kind"] in ("ImplicitCastExpr", "ParenExpr"):
            o = en.kids(o)[0]
        if (o.get("referencedDecl") or {}).get("name") == "drop" and len(ks) == 3:
            def f(s, vs):
                v, n = (en.read(s, x) if isinstance(x, eng.LV) else x for x in vs)
                if not (isinstance(v, Val) and v.ty.k == "vec" and isinstance(n, Val) and n.ty.k == "int"):
                    raise Unsupported("range pipeline at " + loc(node))
                en.oblige(s, n.t >= 0, "the number of values dropped is not negative", "pre", node)
                s = s.copy()
                r = en.fresh(v.ty, "dropped", s)
                i = z3.Int("i!drop")
                had = v.lv[("#",)]
                k = z3.If(n.t < had, n.t, had)
                s.assume(r.lv[("#",)] == had - k)
                for p in r.lv:
                    if p != ("#",):
                        s.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < had - k), z3.Select(r.lv[p], i) == z3.Select(v.lv[p], i + k)), patterns=[z3.Select(r.lv[p], i)]))
                return [(s, r)]
            return en.bind(en.evs([args[0], ks[2]], st), f)
    raise Unsupported("range pipeline at " + loc(node))


# ---------------------------------------------------------------- text output
def string_literals(node):
    if node.get("kind") == "StringLiteral":
        return [node["value"]]
    return [x for c in node.get("inner", []) if c for x in string_literals(c)]


def append_text(s, cell, n, at):
    """append n characters at(k) to the text in a cell"""
    t = s.cells[cell]
    m, a = t.lv[("#",)], t.lv[("[]",)]
    b = z3.Const(fresh_name("text"), a.sort())
    k = z3.Int(fresh_name("k"))
    s.assume(z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < m), z3.Select(b, k) == z3.Select(a, k)), patterns=[z3.Select(b, k)]))
    s.assume(z3.ForAll([k], z3.Implies(z3.And(m <= k, k < m + n), z3.Select(b, k) == at(k - m)), patterns=[z3.Select(b, k)]))
    s.cells[cell] = Val(t.ty, {("#",): m + n, ("[]",): b})


RENDER = {}


def format_to(en, args, st, node):
    """std::format_to(out, "{}", x) onto a known sink: x's rendering is appended"""
    eng = E()
    if string_literals(args[1]) != ['"{}"'] or len(args) != 3:
        raise Unsupported("format string at " + loc(node))

    def f(s, vs):
        out, x = vs
        if isinstance(out, eng.LV):
            out = en.read(s, out)
        if isinstance(x, eng.LV):
            x = en.read(s, x)
        if not isinstance(out, eng.VSink) or not isinstance(x, Val):
            raise Unsupported("format_to at " + loc(node))
        s = s.copy()
        if x.ty == STR:
            append_text(s, out.cell, x.lv[("#",)], lambda k: z3.Select(x.lv[("[]",)], k))
            return [(s, out)]
        if x.ty.k == "rec" and x.ty.a[0] in RENDER:
            n, at = RENDER[x.ty.a[0]](en, s, x, node)
            s.assume(n >= 0)
            append_text(s, out.cell, n, at)
            return [(s, out)]
        raise Unsupported("format_to of %s at %s" % (x.ty, loc(node)))
    return en.bind(en.evs([args[0], args[2]], st), f)




@func("reverse")
def _(en, s, vs, node):
    eng = E()
    lv = vs[0]
    if isinstance(lv, eng.VIter):
        whole = len(vs) == 2 and z3.simplify(lv.idx).eq(z3.IntVal(0)) and z3.simplify(vs[1].idx).eq(z3.simplify(en.read_len(s, lv.lv)))
        if not whole:
            raise Unsupported("reversal of a part of a sequence")
        lv = lv.lv
    v = vec_val(en, s, lv)
    n = v.lv[("#",)]
    en.len_fact(s, n)
    nl = {("#",): n}
    i = z3.Int(fresh_name("i"))
    for p, x in sub(v.lv, "[]").items():
        x = named_array(s, x)
        y = z3.Const(fresh_name("reversed"), x.sort())
        s.assume(z3.ForAll([i], z3.Select(y, i) == z3.Select(x, n - 1 - i), patterns=[z3.Select(y, i)]))
        s.assume(z3.ForAll([i], z3.Select(y, n - 1 - i) == z3.Select(x, i), patterns=[z3.Select(x, i)]))
        nl[("[]",) + p] = y
    en.write(s, lv, Val(v.ty, nl))
    return [(s, eng.VOpaque("iterator"))]


def named_array(s, x):
    """a constant equal to the array term x, usable in patterns"""
    if z3.is_const(x):
        return x
    nm = z3.Const(fresh_name("arr"), x.sort())
    s.assume(nm == x)
    return nm
