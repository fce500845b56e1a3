"""Contracts of the s-expression reader and terms."""
from contracts.common import *
from cv.types import STR, Val, sub, fresh_name

SEXPR = "gcs::innards::SExpr"
ERR = "gcs::innards::SExprParseError"
CH = z3.ArraySort(Int, Int)
FT = (CH, Int, Int)           # text, its length, a position
SK = z3.Function("skip_space", *FT, Int)          # first non-space position at or after p
AE = z3.Function("atom_end", *FT, Int)            # first delimiter at or after p
TOK = z3.Function("term_ok", *FT, Bool)           # a term can be read at p
TEND = z3.Function("term_end", *FT, Int)          # where it ends
LOK = z3.Function("items_ok", *FT, Bool)          # items up to a closing parenthesis
LEND = z3.Function("items_end", *FT, Int)         # position after that parenthesis
LCNT = z3.Function("items_count", *FT, Int)
IPOS = z3.Function("item_position", *FT, Int, Int)  # position after i items from p
SOK = z3.Function("sequence_ok", *FT, Bool)       # terms up to the end of the text
SCNT = z3.Function("sequence_count", *FT, Int)
OPEN, CLOSE = ord("("), ord(")")
SPACES = [32, 9, 10, 13, 12, 11]


def ws(c):
    return Or([c == k for k in SPACES])


def delim(c):
    return Or(ws(c), c == OPEN, c == CLOSE)


class Th:
    """what it means for a term to be written at a position of a text"""

    def __init__(self, en):
        self.en = en
        self.ty = Ty("rec", en.types.find(SEXPR) or SEXPR)
        self.B = en.types.boxsort(self.ty)
        self.DEN = z3.Function("denotes", *FT, self.B, Bool)

    def w(self, b):
        return W(Val(self.ty, {(): b}), self.en)

    def alts(self, b):
        """(is list, atom, children) of a term, over the current layout"""
        v = self.w(b).fld(0)
        ia = [i for i, t in enumerate(v.ty.a) if t == STR][0]
        il = [i for i, t in enumerate(v.ty.a) if t == Ty("vec", self.ty)][0]
        return v.tag == il, v.tag == ia, v.alt(ia), v.alt(il)

    def den_def(self, A, n, p, b):
        isl, isa, at, ls = self.alts(b)
        q = SK(A, n, p)
        i = z3.Int("i!den")
        s = q + 1
        return self.DEN(A, n, p, b) == If(A[q] == OPEN,
            And(isl, ls.n == LCNT(A, n, s), ForAll([i], Implies(And(0 <= i, i < ls.n), self.DEN(A, n, SK(A, n, IPOS(A, n, s, i)), ls[i].t)), patterns=[ls[i].t])),
            And(isa, at.n == AE(A, n, q) - q, ForAll([i], Implies(And(0 <= i, i < at.n), at[i].t == A[q + i]), patterns=[at[i].t])))


def th(en):
    if not hasattr(en, "_sexpr_th"):
        en._sexpr_th = Th(en)
    return en._sexpr_th


def unf(A, n, p):
    """definitions at position p"""
    q = SK(A, n, p)
    e = TEND(A, n, q)
    return [SK(A, n, p) == If(And(p < n, ws(A[p])), SK(A, n, p + 1), p),
            AE(A, n, p) == If(And(p < n, Not(delim(A[p]))), AE(A, n, p + 1), p),
            TOK(A, n, p) == And(q < n, A[q] != CLOSE, Implies(A[q] == OPEN, LOK(A, n, q + 1))),
            TEND(A, n, p) == If(A[q] == OPEN, LEND(A, n, q + 1), AE(A, n, q)),
            LOK(A, n, p) == And(q < n, Or(A[q] == CLOSE, And(TOK(A, n, q), LOK(A, n, e)))),
            LEND(A, n, p) == If(A[q] == CLOSE, q + 1, LEND(A, n, e)),
            LCNT(A, n, p) == If(A[q] == CLOSE, 0, 1 + LCNT(A, n, e)),
            SOK(A, n, p) == Or(q >= n, And(TOK(A, n, q), SOK(A, n, e))),
            SCNT(A, n, p) == If(q >= n, 0, 1 + SCNT(A, n, e))]


def ipos0(A, n):
    p = z3.Int("p!ipos")
    return [ForAll([p], IPOS(A, n, p, 0) == p, patterns=[IPOS(A, n, p, 0)])]


def ipos(A, n, s, i):
    return [IPOS(A, n, s, 0) == s, IPOS(A, n, s, i + 1) == TEND(A, n, SK(A, n, IPOS(A, n, s, i)))]


def tx(w):
    """(characters, length) of a text value"""
    return w.v.lv[("[]",)], w.n


def rd(w):
    """(text, length, position) of a reader"""
    A, n = tx(w.text)
    return A, n, w.pos.t


def same_text(a, b):
    return And(a.text.v.lv[("[]",)] == b.text.v.lv[("[]",)], a.text.n == b.text.n)


is_space = Contract("is_space", name="is_space", ensures=lambda c: [("exactly the six white space characters", c.r.t == ws(c.a(0).t))])
R = "Reader::"
_in = lambda c: [("position within the text", And(0 <= c.this.pos.t, c.this.pos.t <= c.this.text.n))]


def _moved(c, to):
    A, n, p = rd(c.this)
    return [("the text is unchanged", same_text(c.this, c.this_x)), ("the position is exact", c.this_x.pos.t == to)]


skip = Contract(R + "skip_whitespace", modifies=["this"], requires=_in,
                ensures=lambda c: _moved(c, SK(*rd(c.this))) + [("stops within the text", And(c.this.pos.t <= c.this_x.pos.t, c.this_x.pos.t <= c.this.text.n))],
                loops=[LoopContract("skip", lambda c: [("text", same_text(c.this, c.this_e)), ("range", And(c.this_e.pos.t <= c.this.pos.t, c.this.pos.t <= c.this.text.n)),
                                                       ("skipped", SK(*rd(c.this)) == SK(*rd(c.this_e)))],
                                    decreases=lambda c: c.this.text.n - c.this.pos.t, facts=lambda c: unf(*rd(c.this)))])
at_end = Contract(R + "at_end", modifies=["this"], requires=_in,
                  ensures=lambda c: _moved(c, SK(*rd(c.this))) + [("only white space remains", c.r.t == (SK(*rd(c.this)) >= c.this.text.n)), ("stops within the text", And(c.this.pos.t <= c.this_x.pos.t, c.this_x.pos.t <= c.this.text.n))])


def _read_ens(c):
    A, n, p = rd(c.this)
    t = th(c.en)
    return _moved(c, TEND(A, n, p)) + [("moves on within the text", And(p < c.this_x.pos.t, c.this_x.pos.t <= n)), ("the result denotes the text read", t.DEN(A, n, p, c.r.t))]


def _read_exit(c):
    A, n, p = rd(c.this)
    return unf(A, n, p) + unf(A, n, SK(A, n, p)) + [th(c.en).den_def(A, n, p, c.r.t)]


def _items_inv(c, start):
    A, n, p = rd(c.this)
    s = start
    ch = c.v("children")
    i = z3.Int("i!inv")
    t = th(c.en)
    return [("text", same_text(c.this, c.this_e)), ("range", And(s <= p, p <= n)), ("position after the items read", p == IPOS(A, n, s, ch.n)),
            ("the rest decides acceptance", LOK(A, n, s) == LOK(A, n, p)), ("the rest decides the end", LEND(A, n, s) == LEND(A, n, p)),
            ("count", LCNT(A, n, s) == ch.n + LCNT(A, n, p)),
            ("items", ForAll([i], Implies(And(0 <= i, i < ch.n), t.DEN(A, n, SK(A, n, IPOS(A, n, s, i)), ch[i].t)), patterns=[ch[i].t]))]


def _den_from_skip(en, A, n, p, b):
    """a term at the first non-space position is the term at p"""
    q = SK(A, n, p)
    return []


read_one = Contract(R + "read_one", decreases=lambda c: c.this.text.n - c.this.pos.t, modifies=["this"], requires=_in, ensures=_read_ens, throws=lambda c: {ERR: Not(TOK(*rd(c.this)))},
                    facts=lambda c: unf(*rd(c.this)) + ipos0(*tx(c.this.text)), exit_facts=_read_exit,
                    loops=[LoopContract("items", lambda c: _items_inv(c, c.this_e.pos.t), decreases=lambda c: c.this.text.n - c.this.pos.t,
                                        facts=lambda c: unf(*rd(c.this)) + unf(c.this.v.lv and rd(c.this)[0], rd(c.this)[1], SK(*rd(c.this))) + ipos(rd(c.this)[0], rd(c.this)[1], c.this_e.pos.t, c.v("children").n)),
                           LoopContract("atom", lambda c: [("text", same_text(c.this, c.this_e)), ("range", And(c.this_e.pos.t <= c.this.pos.t, c.this.pos.t <= c.this.text.n)),
                                                           ("scanned", AE(*rd(c.this)) == AE(*rd(c.this_e)))],
                                        decreases=lambda c: c.this.text.n - c.this.pos.t, facts=lambda c: unf(*rd(c.this)))])
READER = [is_space, skip, at_end, read_one]

_kind = lambda c: th(c.en).alts(c.this.t)
is_atom = Contract(SEXPR + "::is_atom", ensures=lambda c: [("true for atoms only", c.r.t == _kind(c)[1])])
is_list = Contract(SEXPR + "::is_list", ensures=lambda c: [("true for lists only", c.r.t == _kind(c)[0])])


def _same_seq(a, b):
    i = z3.Int("i!seq")
    return And(a.n == b.n, ForAll([i], Implies(And(0 <= i, i < a.n), And([x == y for x, y in zip(a[i].v.lv.values(), b[i].v.lv.values())]))))


as_atom = Contract(SEXPR + "::as_atom", result=STR, ensures=lambda c: [("the atom's text", _same_seq(c.r, _kind(c)[2]))], throws=lambda c: {ERR: Not(_kind(c)[1])})
as_list = Contract(SEXPR + "::as_list", ensures=lambda c: [("the list's children", _same_seq(c.r, _kind(c)[3]))], throws=lambda c: {ERR: Not(_kind(c)[0])})


def _mk_atom(c):
    isl, isa, at, ls = th(c.en).alts(c.r.t)
    return [("an atom", And(isa, Not(isl))), ("with that text", _same_seq(at, c.a(0)))]


def _mk_list(c):
    isl, isa, at, ls = th(c.en).alts(c.r.t)
    return [("a list", And(isl, Not(isa))), ("with those children", _same_seq(ls, c.a(0)))]


mk_atom = Contract(SEXPR + "::atom", ensures=_mk_atom)
mk_list = Contract(SEXPR + "::list", ensures=_mk_list)
TERMS = [is_atom, is_list, as_atom, as_list, mk_atom, mk_list]


def _p1_ok(c):
    A, n = tx(c.a(0))
    e = TEND(A, n, SK(A, n, 0))
    return And(TOK(A, n, SK(A, n, 0)), SK(A, n, e) >= n)


def _p1_ens(c):
    A, n = tx(c.a(0))
    return [("the result denotes the text", th(c.en).DEN(A, n, SK(A, n, 0), c.r.t))]


def _p_facts(c):
    A, n = tx(c.a(0))
    q = SK(A, n, z3.IntVal(0))
    return unf(A, n, z3.IntVal(0)) + unf(A, n, q) + unf(A, n, SK(A, n, q))


parse = Contract("gcs::innards::parse_s_expr", ensures=_p1_ens, throws=lambda c: {ERR: Not(_p1_ok(c))}, facts=_p_facts)


def _seq_inv(c):
    r = c.v("reader")
    A, n, p = rd(r)
    z = z3.IntVal(0)
    out = c.v("result")
    i = z3.Int("i!inv")
    t = th(c.en)
    return [("text", same_text(r, c.e("reader"))), ("range", And(0 <= p, p <= n)), ("position after the terms read", p == IPOS(A, n, z, out.n)),
            ("the rest decides acceptance", SOK(A, n, z) == SOK(A, n, p)), ("count", SCNT(A, n, z) == out.n + SCNT(A, n, p)),
            ("terms", ForAll([i], Implies(And(0 <= i, i < out.n), t.DEN(A, n, SK(A, n, IPOS(A, n, z, i)), out[i].t)), patterns=[out[i].t]))]


def _seq_facts(c):
    A, n, p = rd(c.v("reader"))
    return unf(A, n, p) + unf(A, n, SK(A, n, p)) + ipos(A, n, z3.IntVal(0), c.v("result").n)


def _seq_ens(c):
    A, n = tx(c.a(0))
    z = z3.IntVal(0)
    i = z3.Int("i!post")
    return [("every term is there", c.r.n == SCNT(A, n, z)), ("each denotes its place in the text", ForAll([i], Implies(And(0 <= i, i < c.r.n), th(c.en).DEN(A, n, SK(A, n, IPOS(A, n, z, i)), c.r[i].t)), patterns=[c.r[i].t]))]


parse_seq = Contract("gcs::innards::parse_s_expr_seq", ensures=_seq_ens, throws=lambda c: {ERR: Not(SOK(tx(c.a(0))[0], c.a(0).n, z3.IntVal(0)))}, facts=lambda c: ipos0(*tx(c.a(0))),
                     loops=[LoopContract("terms", _seq_inv, decreases=lambda c: c.v("reader").text.n - c.v("reader").pos.t, facts=_seq_facts)])


# ---- rendering: RL(b) characters RC(b, k); a list's body is its first BL(b, i)
# characters for the first i children, with the characters BC(b, k)
class Ren:
    def __init__(self, en):
        t = self.t = th(en)
        B = t.B
        self.RL, self.RC = z3.Function("rendered_length", B, Int), z3.Function("rendered_char", B, Int, Int)
        self.BL, self.BC = z3.Function("body_length", B, Int, Int), z3.Function("body_char", B, Int, Int)

    def defs(self, b):
        isl, isa, at, ls = self.t.alts(b)
        i, j = z3.Ints("i!ren j!ren")
        RL, RC, BL, BC = self.RL, self.RC, self.BL, self.BC
        off = BL(b, i) + If(i > 0, 1, 0)
        return [Implies(isa, And(RL(b) == at.n, ForAll([j], RC(b, j) == at[j].t, patterns=[RC(b, j)]))),
                Implies(isl, And(RL(b) == BL(b, ls.n) + 2, RC(b, 0) == OPEN, RC(b, 1 + BL(b, ls.n)) == CLOSE,
                                 ForAll([j], Implies(And(0 <= j, j < BL(b, ls.n)), RC(b, 1 + j) == BC(b, j)), patterns=[BC(b, j)]))),
                BL(b, 0) == 0, BL(b, ls.n) >= 0,
                ForAll([i], Implies(And(0 <= i, i < ls.n), And(BL(b, i + 1) == off + RL(ls[i].t), RL(ls[i].t) >= 0, BL(b, i) >= 0, Implies(i > 0, BC(b, BL(b, i)) == 32))), patterns=[BL(b, i)]),
                ForAll([i, j], Implies(And(0 <= i, i < ls.n, 0 <= j, j < RL(ls[i].t)), BC(b, off + j) == RC(ls[i].t, j)), patterns=[RC(ls[i].t, j)])]


def ren(en):
    if not hasattr(en, "_sexpr_ren"):
        en._sexpr_ren = Ren(en)
    return en._sexpr_ren


def _render_child(en, s, x, node):
    r = ren(en)
    return r.RL(x.t), lambda k: r.RC(x.t, k)


from cv import stdlib as _sl
_sl.RENDER[SEXPR] = _render_child
FMT = "std::formatter<gcs::innards::SExpr>::"


def _ctx(en, st):
    from cv.engine import VOpaque
    st.ghost["sink"] = en.new_cell(st, en.fresh(STR, "output", st))
    return VOpaque("format_context")


def _pctx(en, st):
    from cv.engine import VOpaque
    st.ghost["spec"] = en.new_cell(st, en.fresh(STR, "spec", st))
    return VOpaque("parse_context")


def _sink(st):
    t = st.cells[st.ghost["sink"]]
    return t.lv[("[]",)], t.lv[("#",)]


def _fmt_ens(c):
    r = ren(c.en)
    b = c.a(0).t
    isl, isa, at, ls = r.t.alts(b)
    (A0, n0), (A1, n1) = _sink(c.pre), _sink(c.st)
    k = z3.Int("k!fmt")
    body = And(c.this.fld(0).t, isl)
    return [("length of the rendering", n1 == n0 + If(body, r.BL(b, ls.n), r.RL(b))),
            ("what was there stays", ForAll([k], Implies(And(0 <= k, k < n0), A1[k] == A0[k]))),
            ("characters of the rendering", ForAll([k], Implies(And(0 <= k, k < n1 - n0), A1[n0 + k] == If(body, r.BC(b, k), r.RC(b, k)))))]


def _fmt_inv(c):
    r = ren(c.en)
    b = c.p(0).t
    h = If(c.this.fld(0).t, 0, 1)
    (A0, n0), (A1, n1) = _sink(c.entry), _sink(c.st)
    k = z3.Int("k!fmt")
    i = c.index
    return [("index", i <= r.t.alts(b)[3].n), ("progress", n1 == n0 + r.BL(b, i)), ("first", c.v("first").t == (i == 0)),
            ("what was there stays", ForAll([k], Implies(And(0 <= k, k < n0), A1[k] == A0[k]), patterns=[A1[k]])),
            ("body so far", ForAll([k], Implies(And(n0 <= k, k < n1), A1[k] == r.BC(b, k - n0)), patterns=[A1[k]]))]


fmt = Contract(FMT + "format", param_values={1: _ctx}, ensures=_fmt_ens, facts=lambda c: ren(c.en).defs(c.a(0).t), result=Ty("opaque"),
               loops=[LoopContract("children", _fmt_inv)])


def _spec(st):
    t = st.cells[st.ghost["spec"]]
    return t.lv[("[]",)], t.lv[("#",)]


def _fp_hash(c):
    A, n = _spec(c.st)
    return And(n > 0, A[0] == ord("#"))


def _fp_end(c):
    return If(_fp_hash(c), 1, 0)


fmt_parse = Contract(FMT + "parse", param_values={0: _pctx}, modifies=["this"], result=Ty("opaque"),
                     ensures=lambda c: [("bare exactly when asked for", c.this_x.fld(0).t == Or(c.this.fld(0).t, _fp_hash(c))), ("stops after it", c._res.idx == _fp_end(c))],
                     throws=lambda c: {"std::format_error": And(_fp_end(c) < _spec(c.st)[1], _spec(c.st)[0][_fp_end(c)] != ord("}"))})
FORMAT = [fmt, fmt_parse]
