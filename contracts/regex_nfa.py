"""Contracts of the automaton construction. SEQ is an arbitrary sequence; ZS is
an arbitrary set of (state, position) pairs: the construction is complete if
whatever is closed under its edges and holds the start holds every accepted end,
and sound if there is a labelling of its states by languages that every edge respects."""
from contracts.regex_parse import *
from contracts.regex import _i, _j, _k, _n, _m, _pending
from contracts.regex_parse import _v

AA = z3.ArraySort(Int, z3.ArraySort(Int, Bool))
ZS = z3.Const("any_pairs", AA)
SZ = z3.Function("fragment_size", B, Int)
SL = z3.Function("state_language", B, Int, Int, R)          # of a state in the fragment of a node from a state number on
CC = z3.Function("state_cut", B, Int, Int, Int, Int, Int)
BOTH = z3.Function("at_both", Int, Int, z3.ArraySort(Int, Bool))
_q = z3.Int("q!r")
TB = "ThompsonBuilder::"


class Gr:
    """rows of the builder's graph"""

    def __init__(self, w):
        e, s = w.eps, w.sym
        self.n, self.sn = e.n, s.n
        g = lambda v, *p: v.v.lv[p]
        self.en, self.et = g(e, "[]", "#"), g(e, "[]", "[]")
        sp = [p for p in s.v.lv if p[:2] == ("[]", "[]")]
        self.m, self.st = g(s, "[]", "#"), g(s, "[]", "[]", "1")
        self.sv = [s.v.lv[p] for p in sp if p[2] == "0"][0]
        self.arrs = list(sub(e.v.lv, "[]").values()) + list(sub(s.v.lv, "[]").values())

    def row_same(self, o, q):
        return And([x[q] == y[q] for x, y in zip(self.arrs, o.arrs)])


def eps_lang(r):
    return ForAll([_i, _j], IN(r, _i, _j) == (_i == _j), patterns=[IN(r, _i, _j)])


def cat(r, b, lo, q, x, y):
    """every one after the other (the labels are only ever compared upwards)"""
    K = CC(b, lo, q, _i, _j)
    return And(ForAll([_i, _k, _j], Implies(And(IN(x, _i, _k), IN(y, _k, _j)), IN(r, _i, _j)), patterns=[z3.MultiPattern(IN(x, _i, _k), IN(y, _k, _j))]),
               ForAll([_i, _j], Implies(IN(r, _i, _j), And(IN(x, _i, K), IN(y, K, _j))), patterns=[IN(r, _i, _j)]))


def labels(t, b, lo):
    o, op = t.op, t.w(b).op.t
    x, y = t.c(b, 0), t.c(b, 1)
    mid = lo + SZ(x)
    S = lambda q: SL(b, lo, q)
    qs = lambda g, f: ForAll([_q], Implies(g, f), patterns=[S(_q)])
    inner = lo + 2
    return [SZ(b) == If(op == o["Concat"], SZ(x) + SZ(y), If(op == o["Union"], 2 + SZ(x) + SZ(y), If(op == o["Star"], 2 + SZ(x), 2))),
            Implies(op != o["Concat"], And(same(S(lo), LANG(b)), eps_lang(S(lo + 1)))),
            Implies(op == o["Concat"], And(qs(And(lo <= _q, _q < mid), cat(S(_q), b, lo, _q, SL(x, lo, _q), LANG(y))), qs(mid <= _q, same(S(_q), SL(y, mid, _q))))),
            Implies(op == o["Union"], And(qs(And(inner <= _q, _q < inner + SZ(x)), same(S(_q), SL(x, inner, _q))), qs(inner + SZ(x) <= _q, same(S(_q), SL(y, inner + SZ(x), _q))))),
            Implies(op == o["Star"], qs(inner <= _q, cat(S(_q), b, lo, _q, SL(x, inner, _q), LANG(b))))]


def within(g, lo, hi):
    return And(ForAll([_q], Implies(And(lo <= _q, _q < hi), And(g.en[_q] >= 0, g.m[_q] >= 0)), patterns=[g.en[_q], g.m[_q]]),
               ForAll([_q, _k], Implies(And(lo <= _q, _q < hi, 0 <= _k, _k < g.en[_q]), And(lo <= g.et[_q][_k], g.et[_q][_k] < hi)), patterns=[g.et[_q][_k]]),
               ForAll([_q, _k], Implies(And(lo <= _q, _q < hi, 0 <= _k, _k < g.m[_q]), And(lo <= g.st[_q][_k], g.st[_q][_k] < hi)), patterns=[g.st[_q][_k]]))


def respected(g, lo, hi, S):
    return And(ForAll([_q, _k, _i, _j], Implies(And(lo <= _q, _q < hi, 0 <= _k, _k < g.en[_q], IN(S(g.et[_q][_k]), _i, _j)), IN(S(_q), _i, _j)), patterns=[IN(S(g.et[_q][_k]), _i, _j)]),
               ForAll([_q, _k, _i, _j], Implies(And(lo <= _q, _q < hi, 0 <= _k, _k < g.m[_q], 0 <= _i, _i < SEQN, g.sv[_q][_k] == SEQ[_i], IN(S(g.st[_q][_k]), _i + 1, _j)), IN(S(_q), _i, _j)), patterns=[z3.MultiPattern(IN(S(g.st[_q][_k]), _i + 1, _j), SEQ[_i])]))


EDGE = z3.Function("edge_index", Int, Int, Bool)     # always true: names the edges the solvers should look at


def closed(g, lo, hi):
    P = lambda t: [z3.MultiPattern(t[_q][_k], ZS[_q][_i]), z3.MultiPattern(EDGE(_q, _k), ZS[_q][_i])]
    return And(ForAll([_q, _k, _i], Implies(And(EDGE(_q, _k), lo <= _q, _q < hi, 0 <= _k, _k < g.en[_q], ZS[_q][_i]), ZS[g.et[_q][_k]][_i]), patterns=P(g.et)),
               ForAll([_q, _k, _i], Implies(And(EDGE(_q, _k), lo <= _q, _q < hi, 0 <= _k, _k < g.m[_q], 0 <= _i, _i < SEQN, ZS[_q][_i], g.sv[_q][_k] == SEQ[_i]), ZS[g.st[_q][_k]][_i + 1]), patterns=P(g.st)))


def both_def():
    a = z3.Int("a!both")
    return ForAll([_q, a, _i], BOTH(_q, a)[_i] == And(ZS[_q][_i], ZS[a][_i]), patterns=[BOTH(_q, a)[_i]])


_rows = lambda c: [("as many rows of either kind", Gr(c.this).n == Gr(c.this).sn)]
_kept = lambda g0, g1: ("the rest of the graph is unchanged", ForAll([_q], Implies(And(0 <= _q, _q < g0.n), g1.row_same(g0, _q)), patterns=[g1.en[_q], g1.et[_q], g1.m[_q], g1.st[_q]]))


def _add_ens(c):
    g0, g1 = Gr(c.this), Gr(c.this_x)
    return [("one more row of either kind", And(g1.n == g0.n + 1, g1.sn == g1.n)), ("its number", c.r.t == g0.n), ("without edges", And(g1.en[g0.n] == 0, g1.m[g0.n] == 0)), _kept(g0, g1)]


add_state = Contract(TB + "add_state", modifies=["this"], requires=_rows, ensures=_add_ens)


def _build_ens(c):
    g0, g1 = Gr(c.this), Gr(c.this_x)
    b = c.a(0).t
    lo, hi = g0.n, g1.n
    s, a = c.r.start.t, c.r.accept.t
    S = lambda q: SL(b, lo, q)
    return [("as many rows of either kind", g1.sn == hi), ("the size of the fragment", And(hi == lo + SZ(b), SZ(b) >= 2)), _kept(g0, g1), ("start within the fragment", And(lo <= s, s < hi)), ("end within the fragment", And(lo <= a, a < hi, a != s)),
            ("the end has no edges", And(g1.en[a] == 0, g1.m[a] == 0)), ("edges stay within the fragment", within(g1, lo, hi)),
            ("the start is labelled with the node's language", same(S(s), LANG(b))), ("the end is labelled with the empty word", eps_lang(S(a))), ("every edge respects the labels", respected(g1, lo, hi, S)),
            ("every match is followed", ForAll([_i, _j], Implies(And(closed(g1, lo, hi), ZS[s][_i], IN(LANG(b), _i, _j)), ZS[a][_j]), patterns=[z3.MultiPattern(ZS[s][_i], IN(LANG(b), _i, _j))]))]


after_empty = Lemma("after_the_empty_word", [R, B, Int, Int, R, R], lambda r, b, lo, q, x, y: Implies(And(cat(r, b, lo, q, x, y), eps_lang(x)), same(r, y)), hints=lambda r, b, lo, q, x, y: [IN(x, _i, _i) == IN(x, _i, _i)])
star_front = Lemma("star_one_more_in_front", [R, Int, Int, Int], lambda r, i, k, j: Implies(And(IN(r, i, k), ATL(r, 0, k, j)), ATL(r, 0, i, j)), hints=lambda r, i, k, j: [plus_in(r, i, k, j), atl_def(r)])
REGEX_LEMMAS += [after_empty, star_front]


def _build_facts(c):
    t = th(c.en)
    b = c.a(0).t
    lo = Gr(c.this).n
    x = LANG(t.c(b, 0))
    a = z3.Int("a!star")
    for l, args in ((star_front, (x, _i, _k, _j)), (closed_star, (BOTH(_q, a), x, _i, _j))):
        l(*args)
    return t.deep(b) + labels(t, b, lo) + [rep0(x), star_refl_all(x), both_def(), ForAll([_q, _k], EDGE(_q, _k), patterns=[EDGE(_q, _k)])] + [Implies(t.w(b).op.t == t.op["Star"], f) for f in (
        ForAll([_i, _k, _j], star_front(x, _i, _k, _j), patterns=[z3.MultiPattern(IN(x, _i, _k), ATL(x, 0, _k, _j))]),
        ForAll([_q], after_empty(SL(b, lo, _q), b, lo, _q, SL(t.c(b, 0), lo + 2, _q), LANG(b)), patterns=[SL(b, lo, _q)]),
        ForAll([_q, a, _i, _j], closed_star(BOTH(_q, a), x, _i, _j), patterns=[z3.MultiPattern(ATL(x, 0, _i, _j), ZS[_q][_i], ZS[a][_j])]))]


def _sym_inv(c):
    g, g0 = Gr(c.this), Gr(c.this_e)
    s, a = c.v("s").t, c.v("a").t
    m = c.rng(0)
    return [("index", And(0 <= c.index, c.index <= m.n)), ("rows", And(g.n == g0.n, g.sn == g0.sn)), ("other rows", ForAll([_q], Implies(_q != s, g.row_same(g0, _q)), patterns=[g.m[_q], g.st[_q], g.sv[_q]])), ("no other edges", g.en[s] == g0.en[s]),
            ("one edge for each value so far", And(g.m[s] == c.index, ForAll([_k], Implies(And(0 <= _k, _k < c.index), And(g.st[s][_k] == a, g.sv[s][_k] == m[_k].t)), patterns=[g.st[s][_k], g.sv[s][_k], m[_k].t])))]


build = Contract(TB + "build", modifies=["this"], requires=lambda c: _rows(c) + [("a well-formed tree", WF(c.a(0).t))], ensures=_build_ens, decreases=lambda c: HT(c.a(0).t), facts=_build_facts,
                 loops=[LoopContract("values", _sym_inv)])
THOMPSON = [add_state, build]


# ---- without empty moves, only what is reachable, renumbered
# INVF: the state that got a new number; CLO: what it reaches by empty moves. RUN is an arbitrary run,
# NZ an arbitrary set of (new state, position) pairs.
INVF = z3.Function("old_number", Int, Int)
CLO = z3.Function("empty_closure", Int, z3.ArraySort(Int, Bool))
RUN = z3.Const("any_run", z3.ArraySort(Int, Int))
NZ = z3.Const("any_new_pairs", AA)
WY = z3.Function("whose_closure", Int, Int, Int)
LBL = z3.Const("labels", z3.ArraySort(Int, R))
_s, _t, _x = z3.Ints("s!r t!r x!r")


class Tr:
    """rows of transitions: symbol to set of states"""

    def __init__(self, w):
        self.n = w.n
        self.i, self.a = w.v.lv[("[]", "in")], w.v.lv[("[]", "at", "in")]

    def has(self, k, s, t):
        return And(self.i[k][s], self.a[k][s][t])

    def pats(self, k, s, t):
        return [self.a[k][s][t]]


class One:
    """one row of transitions"""

    def __init__(self, w):
        self.i, self.a = w.v.lv[("in",)], w.v.lv[("at", "in")]

    def has(self, s, t):
        return And(self.i[s], self.a[s][t])


class Vis:
    """the numbering of the states found so far"""

    def __init__(self, c, e=False):
        v = c.e if e else c.v
        self.g = Gr(v("builder"))
        m = v("old_to_new")
        self.ins, self.at, self.mn = m.v.lv[("in",)], m.v.lv[("at",)], m.v.lv[("n",)]
        self.q = v("to_visit")
        self.raw, self.fin = Tr(v("raw_transitions")), v("is_final")
        self.start, self.accept = v("start").t, v("accept").t
        self.b = c.p(0).t
        self.N = self.g.n

    def S(self, x):
        return SL(self.b, 0, x)

    def numbering(self, h):
        """numbers from h on are waiting, in order"""
        return [("as many numbers as states", And(self.mn == h + self.q.n, self.q.n >= 0)), ("waiting states", ForAll([_k], Implies(And(0 <= _k, _k < self.q.n), And(self.ins[self.q[_k].t], self.at[self.q[_k].t] == h + _k)), patterns=[self.q[_k].t])),
                ("numbered states", ForAll([_x], Implies(self.ins[_x], And(0 <= _x, _x < self.N, 0 <= self.at[_x], self.at[_x] < self.mn, Implies(self.at[_x] >= h, self.q[self.at[_x] - h].t == _x))), patterns=[self.ins[_x]])),
                ("the start is first", And(self.ins[self.start], self.at[self.start] == 0))]

    def goes(self, s, t, x):
        """a symbol and then the language of t is within that of x"""
        return ForAll([_i, _j], Implies(And(0 <= _i, _i < SEQN, SEQ[_i] == s, IN(self.S(t), _i + 1, _j)), IN(self.S(x), _i, _j)), patterns=[z3.MultiPattern(IN(self.S(t), _i + 1, _j), SEQ[_i])])

    def done(self):
        g, raw, k = self.g, self.raw, _n
        D = And(0 <= k, k < raw.n)
        x, C = INVF(k), CLO(k)
        return [("numbered once", ForAll([_x], Implies(And(self.ins[_x], self.at[_x] < raw.n), INVF(self.at[_x]) == _x), patterns=[self.ins[_x], self.at[_x]])),
                ("numbers are used", ForAll([k], Implies(D, And(self.ins[x], self.at[x] == k)), patterns=[x])),
                ("its own closure", ForAll([k], Implies(D, C[x]), patterns=[x])),
                ("closure of empty moves", ForAll([k, _q, _k], Implies(And(D, C[_q], 0 <= _k, _k < g.en[_q]), C[g.et[_q][_k]]), patterns=[z3.MultiPattern(C[_q], g.et[_q][_k])])),
                ("closure within the graph", ForAll([k, _q], Implies(And(D, C[_q]), And(0 <= _q, _q < self.N)), patterns=[C[_q]])),
                ("accepting states", ForAll([k], Implies(D, (self.fin[k].t != 0) == C[self.accept]), patterns=[self.fin[k].t, C[self.accept]])),
                ("accepting states are labelled with the empty word", ForAll([k, _i], Implies(And(D, C[self.accept]), IN(self.S(x), _i, _i)), patterns=[IN(self.S(x), _i, _i)])),
                ("every edge of the closure is there", ForAll([k, _q, _k], Implies(And(D, C[_q], EDGE(_q, _k), 0 <= _k, _k < g.m[_q]), And(raw.has(k, g.sv[_q][_k], g.st[_q][_k]), self.ins[g.st[_q][_k]])), patterns=[z3.MultiPattern(C[_q], g.st[_q][_k]), z3.MultiPattern(C[_q], EDGE(_q, _k))])),
                ("targets are numbered", ForAll([k, _s, _t], Implies(And(D, raw.has(k, _s, _t)), self.ins[_t]), patterns=raw.pats(k, _s, _t))),
                ("transitions respect the labels", ForAll([k, _s, _t, _i, _j], Implies(And(D, raw.has(k, _s, _t), 0 <= _i, _i < SEQN, SEQ[_i] == _s, IN(self.S(_t), _i + 1, _j)), IN(self.S(x), _i, _j)),
                                                           patterns=[z3.MultiPattern(raw.a[k][_s][_t], SEQ[_i], IN(self.S(_t), _i + 1, _j))]))]


def _visit_inv(c):
    v = Vis(c)
    return [("rows", And(v.raw.n == v.fin.n, v.raw.n >= 0))] + v.numbering(v.raw.n) + v.done()


def _clo_inv(c, inner=False):
    g = Gr(c.v("builder"))
    b = c.p(0).t
    S = lambda x: SL(b, 0, x)
    seen, st, q = ins(c.v("seen")), c.v("stack"), c.v("q").t
    top = st[st.n - 1].t
    out = [("the next one is a state", Implies(st.n > 0, And(0 <= top, top < g.n))), ("itself", seen[q]), ("within the graph", ForAll([_x], Implies(seen[_x], And(0 <= _x, _x < g.n)), patterns=[seen[_x]])), ("labels", ForAll([_x, _i, _j], Implies(And(seen[_x], IN(S(_x), _i, _j)), IN(S(q), _i, _j)), patterns=[z3.MultiPattern(seen[_x], IN(S(_x), _i, _j))])),
           ("pending ones are seen", ForAll([_k], Implies(And(0 <= _k, _k < st.n), seen[st[_k].t]), patterns=[st[_k].t]))]
    if not inner:
        return out + [("others are closed", ForAll([_x, _k], Implies(And(seen[_x], 0 <= _k, _k < g.en[_x]), Or(seen[g.et[_x][_k]], _pending(st, _x))), patterns=[g.et[_x][_k]]))]
    h, e = c.v("x").t, c.e("stack")
    return out + [("index", And(0 <= c.index, c.index <= g.en[h])), ("others are closed", ForAll([_x, _k], Implies(And(seen[_x], 0 <= _k, _k < g.en[_x]), Or(seen[g.et[_x][_k]], And(_x == h, _k >= c.index), _pending(st, _x))), patterns=[g.et[_x][_k]])),
                  ("this one is seen", seen[h]), ("measure", NM(seen, g.n - 1) + st.n <= NM(ins(c.e("seen")), g.n - 1) + e.n)]


def _clo_step(c):
    g = Gr(c.v("builder"))
    h = c.head
    return [nm_insert(ins(h.v("seen")), g.et[c.v("x").t][h.index], g.n - 1)]


def _edges_inv(c, k):
    v, o = Vis(c), Vis(c, True)
    x = c.v("q").t
    g = v.g
    tr = One(c.v("transitions"))
    m = c.rng(k)
    out = [("the state's own number", And(v.ins[x], v.at[x] == v.raw.n)), ("numbers are not reused", ForAll([_x], Implies(And(v.ins[_x], v.at[_x] <= v.raw.n), o.ins[_x]), patterns=[v.ins[_x]])), ("numbers are kept", ForAll([_x], Implies(o.ins[_x], And(v.ins[_x], v.at[_x] == o.at[_x])), patterns=[o.ins[_x]])), ("measure", NM(v.ins, v.N - 1) + v.q.n <= NM(o.ins, v.N - 1) + o.q.n)]
    return out + v.numbering(v.raw.n + 1) + [("index", And(0 <= c.index, c.index <= m.n)), ("targets are numbered", ForAll([_s, _t], Implies(tr.has(_s, _t), v.ins[_t]), patterns=[tr.a[_s][_t]])),
        ("transitions respect the labels", ForAll([_s, _t, _i, _j], Implies(And(tr.has(_s, _t), 0 <= _i, _i < SEQN, SEQ[_i] == _s, IN(v.S(_t), _i + 1, _j)), IN(v.S(x), _i, _j)), patterns=[z3.MultiPattern(tr.a[_s][_t], SEQ[_i], IN(v.S(_t), _i + 1, _j))]))]


def _there(v, tr, q, k):
    return And(tr.has(v.g.sv[q][k], v.g.st[q][k]), v.ins[v.g.st[q][k]])


def _members_inv(c):
    v = Vis(c)
    tr, m = One(c.v("transitions")), c.rng(3)
    return [("the next one is a state", Implies(c.index < m.n, And(0 <= m[c.index].t, m[c.index].t < v.N)))] + _edges_inv(c, 3) + [("edges so far", ForAll([_n, _k], Implies(And(0 <= _n, _n < c.index, 0 <= _k, _k < v.g.m[m[_n].t]), _there(v, tr, m[_n].t, _k)), patterns=[v.g.st[m[_n].t][_k]]))]


def _member_inv(c):
    v = Vis(c)
    tr, o, p = One(c.v("transitions")), One(c.e("transitions")), c.v("p").t
    return _edges_inv(c, 4) + [("nothing is lost", ForAll([_s, _t], Implies(o.has(_s, _t), tr.has(_s, _t)), patterns=[o.a[_s][_t]])), ("edges so far", ForAll([_k], Implies(And(0 <= _k, _k < c.index), _there(v, tr, p, _k)), patterns=[v.g.st[p][_k]]))]


def _member_step(c):
    v = Vis(c.head)
    p = c.v("p").t
    return [nm_insert(v.ins, v.g.st[p][c.head.index], v.N - 1)]


def _cl_is(c):
    n = Tr(c.v("raw_transitions")).n
    cl = ins(c.v("cl"))
    return [ForAll([_q], CLO(n)[_q] == cl[_q], patterns=[CLO(n)[_q], cl[_q]]), INVF(n) == c.v("q").t]


def _finals(w, fin, hi):
    return [("accepting states listed", ForAll([_k], Implies(And(0 <= _k, _k < w.n), And(0 <= w[_k].t, w[_k].t < hi, fin[w[_k].t].t != 0)), patterns=[w[_k].t])),
            ("all of them", ForAll([_x], Implies(And(0 <= _x, _x < hi, fin[_x].t != 0), Exists([_k], And(0 <= _k, _k < w.n, w[_k].t == _x))), patterns=[fin[_x].t]))]


def _rename(c, upto, row=None):
    v = Vis(c)
    nf = c.v("nfa")
    t = Tr(nf.transitions)
    M = v.raw.n
    row = row or (lambda k: And(0 <= k, k < upto))
    return [("as many rows", t.n == M), ("moves are kept", ForAll([_k, _s, _t], Implies(And(row(_k), v.raw.has(_k, _s, _t)), t.has(_k, _s, v.at[_t])), patterns=[v.raw.a[_k][_s][_t]])),
            ("and no others", ForAll([_k, _s, _t], Implies(And(row(_k), t.has(_k, _s, _t)), And(0 <= _t, _t < M, v.raw.has(_k, _s, INVF(_t)))), patterns=[t.a[_k][_s][_t]]))]


def _rows_inv(c):
    v = Vis(c)
    i = c.v("i").t
    t = Tr(c.v("nfa").transitions)
    return [("range", And(0 <= i, i <= v.raw.n)), ("the number of states", c.v("nfa").num_states.t == v.raw.n)] + _rename(c, i) + [("later rows are empty", ForAll([_k, _s], Implies(And(i <= _k, _k < v.raw.n), Not(t.i[_k][_s])), patterns=[t.i[_k][_s]]))] + _finals(c.v("nfa").final_states, v.fin, i)


def _other_rows(t, o, i):
    return ("other rows are unchanged", ForAll([_k], Implies(_k != i, And(t.i[_k] == o.i[_k], t.a[_k] == o.a[_k])), patterns=[t.i[_k], t.a[_k]]))


def _row_inv(c):
    v = Vis(c)
    i = c.v("i").t
    t, o = Tr(c.v("nfa").transitions), Tr(c.e("nfa").transitions)
    m = c.rng(6)
    f, f0 = c.v("nfa").final_states, c.e("nfa").final_states
    sym = lambda k: m[k].at(0).t
    return [("index", And(0 <= c.index, c.index <= m.n)), ("as many rows", t.n == v.raw.n), _other_rows(t, o, i), ("nothing but the symbols so far", ForAll([_s], Implies(t.i[i][_s], Exists([_n], And(0 <= _n, _n < c.index, sym(_n) == _s))), patterns=[t.i[i][_s]])),
            ("moves are kept", ForAll([_n, _t], Implies(And(0 <= _n, _n < c.index, v.raw.has(i, sym(_n), _t)), t.has(i, sym(_n), v.at[_t])), patterns=[v.raw.a[i][sym(_n)][_t]])),
            ("and no others", ForAll([_s, _t], Implies(t.has(i, _s, _t), And(0 <= _t, _t < v.raw.n, v.raw.has(i, _s, INVF(_t)))), patterns=[t.a[i][_s][_t]]))]


def _targets_inv(c):
    v = Vis(c)
    i, s = c.v("i").t, c.v("symbol").t
    t, o = Tr(c.v("nfa").transitions), Tr(c.e("nfa").transitions)
    m = c.rng(7)
    return [("index", And(0 <= c.index, c.index <= m.n)), ("as many rows", t.n == v.raw.n), _other_rows(t, o, i), ("other symbols are unchanged", And(t.i[i] == o.i[i], ForAll([_s], Implies(_s != s, t.a[i][_s] == o.a[i][_s]), patterns=[t.a[i][_s]]))),
            ("moved so far", ForAll([_k], Implies(And(0 <= _k, _k < c.index), t.a[i][s][v.at[m[_k].t]]), patterns=[m[_k].t])),
            ("nothing else", ForAll([_t], Implies(t.a[i][s][_t], Exists([_k], And(0 <= _k, _k < c.index, v.at[m[_k].t] == _t))), patterns=[t.a[i][s][_t]]))]


run_in = Lemma("labelled_run", [z3.ArraySort(Int, R), z3.ArraySort(Int, Int), Int], lambda a, r, i: Implies(And(0 <= i, i <= SEQN, IN(a[r[SEQN]], SEQN, SEQN), ForAll([_k], Implies(And(0 <= _k, _k < SEQN, IN(a[r[_k + 1]], _k + 1, SEQN)), IN(a[r[_k]], _k, SEQN)), patterns=[r[_k + 1]])), IN(a[r[i]], i, SEQN)),
               hints=lambda a, r, i: [r[i + 1] == r[i + 1]], induction=(lambda a, r, i: SEQN - i + 1, lambda a, r, i: [(a, r, i + 1)]))
REGEX_LEMMAS += [run_in]


def _nfa_ens(L):
    def f(c):
        t, fs, n = Tr(c.r.transitions), c.r.final_states, c.r.num_states.t
        run = And(RUN[0] == 0, ForAll([_i], Implies(And(0 <= _i, _i <= SEQN), And(0 <= RUN[_i], RUN[_i] < n)), patterns=[RUN[_i]]), ForAll([_i], Implies(And(0 <= _i, _i < SEQN), t.has(RUN[_i], SEQ[_i], RUN[_i + 1])), patterns=[RUN[_i + 1]]), Exists([_k], And(0 <= _k, _k < fs.n, fs[_k].t == RUN[SEQN])))
        follows = And(NZ[0][0], ForAll([_q, _t, _i], Implies(And(0 <= _q, _q < n, 0 <= _i, _i < SEQN, NZ[_q][_i], t.has(_q, SEQ[_i], _t)), NZ[_t][_i + 1]), patterns=[z3.MultiPattern(NZ[_q][_i], t.a[_q][SEQ[_i]][_t])]))
        return [("as many rows as states", And(n == t.n, n >= 1)), ("targets are states", ForAll([_q, _s, _t], Implies(And(0 <= _q, _q < n, t.has(_q, _s, _t)), And(0 <= _t, _t < n)), patterns=[t.a[_q][_s][_t]])),
                ("accepting states are states", ForAll([_k], Implies(And(0 <= _k, _k < fs.n), And(0 <= fs[_k].t, fs[_k].t < n)), patterns=[fs[_k].t])),
                ("what it accepts matches", Implies(run, IN(L(c), 0, SEQN))),
                ("what matches it accepts", Implies(And(follows, IN(L(c), 0, SEQN)), Exists([_k], And(0 <= _k, _k < fs.n, NZ[fs[_k].t][SEQN]))))]
    return f


def _zs_is(c):
    v = Vis(c)
    y = WY(_x, _i)
    return [ForAll([_x, _i], Implies(ZS[_x][_i], And(0 <= y, y < v.raw.n, CLO(y)[_x], NZ[y][_i])), patterns=[ZS[_x][_i]]),
            ForAll([_n, _x, _i], Implies(And(0 <= _n, _n < v.raw.n, CLO(_n)[_x], NZ[_n][_i]), ZS[_x][_i]), patterns=[z3.MultiPattern(CLO(_n)[_x], NZ[_n][_i])]),
            ForAll([_q], LBL[_q] == v.S(INVF(_q)), patterns=[LBL[_q]]), run_in(LBL, RUN, z3.IntVal(0))]


build_nfa = Contract("build_nfa", requires=lambda c: [("a well-formed tree", WF(c.a(0).t)), ("the sequence", SEQN >= 0)], ensures=_nfa_ens(lambda c: LANG(c.a(0).t)), facts=lambda c: [ForAll([_q, _k], EDGE(_q, _k), patterns=[EDGE(_q, _k)])],
                     loops=[LoopContract("states to visit", _visit_inv, decreases=lambda c: NM(Vis(c).ins, Vis(c).N - 1) + Vis(c).q.n, facts=lambda c: [nm_pos(Vis(c).ins, Vis(c).N - 1)], exit_facts=_zs_is),
                            LoopContract("empty moves", _clo_inv, decreases=lambda c: NM(ins(c.v("seen")), Gr(c.v("builder")).n - 1) + c.v("stack").n, facts=lambda c: [nm_pos(ins(c.v("seen")), Gr(c.v("builder")).n - 1)]),
                            LoopContract("empty moves of one state", lambda c: _clo_inv(c, True), step_facts=_clo_step),
                            LoopContract("states of the closure", _members_inv, exit_facts=_cl_is), LoopContract("edges of one state", _member_inv, step_facts=_member_step),
                            LoopContract("rows", _rows_inv), LoopContract("symbols", _row_inv), LoopContract("targets", _targets_inv)])
THOMPSON += [build_nfa]

to_nfa = Contract("gcs::innards::regex_to_nfa", requires=lambda c: [("the text", the_text(c.a(0))), ("the sequence", SEQN >= 0), ("the alphabet", ForAll([_v], AL[_v] == Exists([_k], And(0 <= _k, _k < c.a(1).n, c.a(1)[_k].t == _v))))],
                  throws=lambda c: {IPD: Not(parses(c.en))}, ensures=_nfa_ens(lambda c: EL(0)))
THOMPSON += [to_nfa]
