"""Contracts of the difference-logic core: adjacency, potentials, bounds."""
from contracts.common import *
from cv.types import fresh_name

D_ = "gcs::innards::"
AI = z3.ArraySort(Int, Int)
QV, QW, QE, QI, QE2 = z3.Ints("v!q w!q e!q i!q f!q")


def frm(arcs, e):
    return arcs[e].fld(0).t


def to(arcs, e):
    return arcs[e].fld(1).t


def wt(arcs, e):
    return arcs[e].fld(2).t


def well_formed(n, arcs):
    return ForAll([QE], Implies(And(0 <= QE, QE < arcs.n), And(0 <= frm(arcs, QE), frm(arcs, QE) < n, 0 <= to(arcs, QE), to(arcs, QE) < n)))


# ---- counting: CNT(A, v, k) = #{ e < k : A[e] = v },  LT(A, v, k) = #{ e < k : A[e] < v }
CNT = z3.Function("count_equal", AI, Int, Int, Int)
LT = z3.Function("count_below", AI, Int, Int, Int)


def sel(A, k):
    return z3.Select(A, k)


def cnt0(A, v):
    return CNT(A, v, z3.IntVal(0)) == 0


def cntS(A, v, k):
    return Implies(k >= 0, CNT(A, v, k + 1) == CNT(A, v, k) + If(sel(A, k) == v, 1, 0))


def ltS(A, v, k):
    """definition of LT by recursion on v"""
    return And(LT(A, z3.IntVal(0), k) == 0, Implies(v >= 0, LT(A, v + 1, k) == LT(A, v, k) + CNT(A, v, k)))


cnt_mono = Lemma("counts grow with the prefix", [AI, Int, Int, Int],
                 lambda A, v, k, m: Implies(And(0 <= k, k <= m), And(0 <= CNT(A, v, k), CNT(A, v, k) <= CNT(A, v, m), CNT(A, v, m) - CNT(A, v, k) <= m - k, Implies(And(k < m, sel(A, k) == v), CNT(A, v, k) < CNT(A, v, m)))),
                 hints=lambda A, v, k, m: [cnt0(A, v), cntS(A, v, m - 1), CNT(A, v, m - 1 + 1) == CNT(A, v, m), cntS(A, v, k - 1), CNT(A, v, k - 1 + 1) == CNT(A, v, k)],
                 induction=(lambda A, v, k, m: m, lambda A, v, k, m: [(A, v, k, m - 1), (A, v, z3.IntVal(0), m - 1), (A, v, k - 1, m - 1)]))
lt_mono = Lemma("block starts grow with the node", [AI, Int, Int, Int],
                lambda A, v, w, k: Implies(And(0 <= v, v <= w, k >= 0), And(0 <= LT(A, v, k), LT(A, v, k) <= LT(A, w, k), Implies(v < w, LT(A, v, k) + CNT(A, v, k) <= LT(A, w, k)))),
                hints=lambda A, v, w, k: [ltS(A, w - 1, k), LT(A, w - 1 + 1, k) == LT(A, w, k), cnt_mono(A, w - 1, z3.IntVal(0), k), cnt_mono(A, w - 1, k, k), ltS(A, v - 1, k), ltS(A, v, k), LT(A, v - 1 + 1, k) == LT(A, v, k)],
                induction=(lambda A, v, w, k: w, lambda A, v, w, k: [(A, v, w - 1, k), (A, z3.IntVal(0), w - 1, k)]))
lt_step = Lemma("one more element counts once", [AI, Int, Int],
                lambda A, v, k: Implies(And(v >= 0, k >= 0), LT(A, v, k + 1) == LT(A, v, k) + If(And(0 <= sel(A, k), sel(A, k) < v), 1, 0)),
                hints=lambda A, v, k: [ltS(A, v - 1, k), ltS(A, v - 1, k + 1), LT(A, v - 1 + 1, k) == LT(A, v, k), LT(A, v - 1 + 1, k + 1) == LT(A, v, k + 1), cntS(A, v - 1, k)],
                induction=(lambda A, v, k: v, lambda A, v, k: [(A, v - 1, k)]))
lt_zero = Lemma("an empty prefix counts nothing", [AI, Int], lambda A, v: Implies(v >= 0, LT(A, v, z3.IntVal(0)) == 0),
                hints=lambda A, v: [ltS(A, v - 1, z3.IntVal(0)), cnt0(A, v - 1), LT(A, v - 1 + 1, z3.IntVal(0)) == LT(A, v, z3.IntVal(0))],
                induction=(lambda A, v: v, lambda A, v: [(A, v - 1)]))
lt_all = Lemma("every element is counted", [AI, Int, Int],
               lambda A, n, k: Implies(And(n >= 0, k >= 0, ForAll([QE], Implies(And(0 <= QE, QE < k), And(0 <= sel(A, QE), sel(A, QE) < n)))), LT(A, n, k) == k),
               hints=lambda A, n, k: [lt_zero(A, n), lt_step(A, n, k - 1), LT(A, n, k - 1 + 1) == LT(A, n, k)],
               induction=(lambda A, n, k: k, lambda A, n, k: [(A, n, k - 1)]))
LEM_ADJ = [cnt_mono, lt_mono, lt_step, lt_zero, lt_all]


# ---- adjacency
def adjacency(n, arcs, adj, end, pos):
    """adj lists, for every node, exactly the arcs with that end; pos(e) is where arc e is listed"""
    start, ids = adj.fld(0), adj.fld(1)
    return [("one block per node", start.n == n + 1), ("as many entries as arcs", ids.n == arcs.n),
            ("blocks lie in the list", ForAll([QV], Implies(And(0 <= QV, QV < n), And(0 <= start[QV].t, start[QV].t <= start[QV + 1].t, start[QV + 1].t <= ids.n)))),
            ("a block lists only arcs with the node's end", ForAll([QV, QI], Implies(And(0 <= QV, QV < n, start[QV].t <= QI, QI < start[QV + 1].t), And(0 <= ids[QI].t, ids[QI].t < arcs.n, end(ids[QI].t) == QV)))),
            ("every arc is listed in its block", ForAll([QE], Implies(And(0 <= QE, QE < arcs.n), And(start[end(QE)].t <= pos(QE), pos(QE) < start[end(QE) + 1].t, ids[pos(QE)].t == QE))))]


def _ends(c):
    """array of the chosen ends of the arcs at entry"""
    en = c.en
    A = getattr(en, "_ends_array", None)
    if A is None or A[1] is not en.param_vals:
        A = en._ends_array = (z3.Const(fresh_name("ends"), AI), en.param_vals)
    return A[0]


def _end_of(arcs, by_tail):
    return lambda e: If(by_tail, frm(arcs, e), to(arcs, e))


def _adj_facts(c):
    A, arcs = _ends(c), c.a(1)
    k = z3.Int("k!d")
    return [ForAll([k], sel(A, k) == _end_of(arcs, c.a(2).t)(k), patterns=[sel(A, k)]), ForAll([QV], cnt0(A, QV)), LT(A, z3.IntVal(0), arcs.n) == 0]


def _adj_ens(c):
    n, arcs, bt = c.a(0).t, c.a(1), c.a(2).t
    if c.call:
        pos = z3.Function(fresh_name("place"), Int, Int)
    else:
        A = _ends(c)
        pos = lambda e: LT(A, sel(A, e), arcs.n) + CNT(A, sel(A, e), e)
    return adjacency(n, arcs, c.r, _end_of(arcs, bt), pos)


def _ctx(c):
    return c.p(0).t, W_arcs(c), _ends(c)


def W_arcs(c):
    return c.p(1)


def _l1(c):
    n, arcs, A = _ctx(c)
    start, k = c.v("result").fld(0), c.index
    return [("index", And(0 <= k, k <= arcs.n)), ("sizes", And(start.n == n + 1, c.v("result").fld(1).n == arcs.n)), ("first", start[0].t == 0),
            ("counts so far", ForAll([QV], Implies(And(0 <= QV, QV < n), And(start[QV + 1].t == CNT(A, QV, k), CNT(A, QV, k) <= k))))]


def _l1_facts(c):
    n, arcs, A = _ctx(c)
    k = c.index
    return [ForAll([QV], And(cnt0(A, QV), cntS(A, QV, k)), patterns=[CNT(A, QV, k)]), ForAll([QV], cnt0(A, QV))]


def _l2(c):
    n, arcs, A = _ctx(c)
    start, v, m = c.v("result").fld(0), c.v("v").t, W_arcs(c).n
    return [("index", And(0 <= v, v <= n)), ("sizes", And(start.n == n + 1, c.v("result").fld(1).n == m)),
            ("starts so far", ForAll([QV], Implies(And(0 <= QV, QV <= v), start[QV].t == LT(A, QV, m)))),
            ("counts still to be summed", ForAll([QV], Implies(And(v <= QV, QV < n), start[QV + 1].t == CNT(A, QV, m))))]


def _l2_facts(c):
    n, arcs, A = _ctx(c)
    v, m = c.v("v").t, arcs.n
    return [ltS(A, v, m), lt_all(A, n, m), lt_mono(A, v, n, m), lt_mono(A, v + 1, n, m), cnt_mono(A, v, z3.IntVal(0), m)]


def _place(A, m, e):
    return LT(A, sel(A, e), m) + CNT(A, sel(A, e), e)


def _l3(c):
    n, arcs, A = _ctx(c)
    res = c.v("result")
    start, ids, nx, e, m = res.fld(0), res.fld(1), c.v("next"), c.v("e").t, arcs.n
    return [("index", And(0 <= e, e <= m)), ("sizes", And(start.n == n + 1, nx.n == n + 1, ids.n == m)),
            ("starts", ForAll([QV], Implies(And(0 <= QV, QV <= n), start[QV].t == LT(A, QV, m)))),
            ("next places", ForAll([QV], Implies(And(0 <= QV, QV < n), nx[QV].t == LT(A, QV, m) + CNT(A, QV, e)))),
            ("processed arcs are in their places", ForAll([QE], Implies(And(0 <= QE, QE < e), ids[_place(A, m, QE)].t == QE))),
            ("used places hold arcs of their block", ForAll([QV, QI], Implies(And(0 <= QV, QV < n, LT(A, QV, m) <= QI, QI < LT(A, QV, m) + CNT(A, QV, e)), And(0 <= ids[QI].t, ids[QI].t < e, sel(A, ids[QI].t) == QV))))]


def _l3_facts(c):
    n, arcs, A = _ctx(c)
    e, m = c.v("e").t, arcs.n
    x = sel(A, e)
    return [cntS(A, x, e), ForAll([QV], cntS(A, QV, e)), ForAll([QV], cnt0(A, QV)), cnt_mono(A, x, e, m), lt_mono(A, x, n, m), lt_all(A, n, m), lt_mono(A, x + 1, n, m), ltS(A, x, m),
            ForAll([QE], cnt_mono(A, sel(A, QE), QE, e), patterns=[sel(A, QE)]), ForAll([QE], cnt_mono(A, sel(A, QE), QE, m), patterns=[sel(A, QE)]), ForAll([QV], lt_mono(A, QV, x, m), patterns=[LT(A, QV, m)]), ForAll([QV], lt_mono(A, x, QV, m), patterns=[LT(A, QV, m)]),
            ForAll([QV], And(cnt_mono(A, QV, e, m), cnt_mono(A, QV, z3.IntVal(0), e)), patterns=[LT(A, QV, m)]), ]


def _adj_exit(c):
    n, arcs, A = c.a(0).t, c.a(1), _ends(c)
    m = arcs.n
    return [ForAll([QV], And(ltS(A, QV, m), lt_mono(A, QV, n, m), lt_mono(A, QV + 1, n, m), cnt_mono(A, QV, z3.IntVal(0), m)), patterns=[LT(A, QV, m)]), lt_all(A, n, m),
            ForAll([QE], And(ltS(A, sel(A, QE), m), cnt_mono(A, sel(A, QE), QE, m)), patterns=[sel(A, QE)])]


build_adj = Contract(D_ + "build_difference_adjacency", name="build_difference_adjacency",
                     requires=lambda c: [("arcs join nodes", well_formed(c.a(0).t, c.a(1))), ("number of nodes", And(0 <= c.a(0).t, c.a(0).t < 1 << 59))],
                     ensures=_adj_ens, facts=_adj_facts, exit_facts=_adj_exit,
                     loops=[LoopContract("count arcs per node", _l1, decreases=lambda c: W_arcs(c).n - c.index, facts=_l1_facts),
                            LoopContract("prefix sums", _l2, decreases=lambda c: c.p(0).t - c.v("v").t, facts=_l2_facts),
                            LoopContract("place arcs", _l3, decreases=lambda c: W_arcs(c).n - c.v("e").t, facts=_l3_facts)])
active = Contract(D_ + "difference_arc_is_active", name="difference_arc_is_active",
                  requires=lambda c: [("flag exists", Or(c.a(0).n == 0, And(0 <= c.a(1).t, c.a(1).t < c.a(0).n)))],
                  ensures=lambda c: [("selected", c.r.t == act(c.a(0), c.a(1).t))])


def act(flags, e):
    return Or(flags.n == 0, flags[e].t != 0)


def is_potential(arcs, flags, pot, but=None):
    return ForAll([QE], Implies(And(0 <= QE, QE < arcs.n, act(flags, QE), *([QE != but] if but is not None else [])), pot(frm(arcs, QE)) + wt(arcs, QE) - pot(to(arcs, QE)) >= 0))


def flags_ok(arcs, flags):
    return Or(flags.n == 0, flags.n == arcs.n)


def graph_pre(n, arcs, flags):
    return [("arcs join nodes", well_formed(n, arcs)), ("number of nodes", And(0 <= n, n < 1 << 59)), ("one flag per arc, or none", flags_ok(arcs, flags))]


# a shortest-path forest from the imaginary source: the certificate that the
# active arcs are satisfiable with representable potentials
DELTA, RANK, PAR = [z3.Function(x, Int, Int) for x in ("shortest_distance", "forest_depth", "forest_arc")]
CERT = z3.Bool("has_shortest_path_forest")


def cert_facts(n, arcs, flags):
    p = PAR(QV)
    return [Implies(CERT, ForAll([QV], Implies(And(0 <= QV, QV < n), And(MIN <= DELTA(QV), DELTA(QV) <= 0, 0 <= RANK(QV), RANK(QV) < n, Implies(RANK(QV) == 0, DELTA(QV) == 0),
                                                                       Implies(RANK(QV) > 0, And(0 <= p, p < arcs.n, act(flags, p), to(arcs, p) == QV, RANK(frm(arcs, p)) == RANK(QV) - 1, DELTA(QV) == DELTA(frm(arcs, p)) + wt(arcs, p))))), patterns=[DELTA(QV)])),
            Implies(CERT, is_potential(arcs, flags, DELTA))]


def _ip(c):
    n, arcs, flags, pot = c.p(0).t, c.p(1), c.p(2), c.v("potential")
    return n, arcs, flags, pot


def _ip_outer(c):
    n, arcs, flags, pot = _ip(c)
    r = c.v("round").t
    return [("rounds", And(0 <= r, r <= n + 1)), ("one potential per node", pot.n == n), ("potentials are not positive", ForAll([QV], Implies(And(0 <= QV, QV < n), pot[QV].t <= 0))),
            ("potentials stay above the shortest distances", Implies(CERT, ForAll([QV], Implies(And(0 <= QV, QV < n), DELTA(QV) <= pot[QV].t)))),
            ("shortest paths found so far", Implies(CERT, ForAll([QV], Implies(And(0 <= QV, QV < n, RANK(QV) <= r), pot[QV].t == DELTA(QV))))),
            ("a satisfiable system is settled in time", Implies(CERT, r <= n))]


def _ip_inner(c):
    n, arcs, flags, pot = _ip(c)
    r, e, changed = c.v("round").t, c.v("e").t, c.v("changed").t
    return [("index", And(0 <= e, e <= arcs.n)), ("one potential per node", pot.n == n), ("potentials are not positive", ForAll([QV], Implies(And(0 <= QV, QV < n), pot[QV].t <= 0))),
            ("potentials stay above the shortest distances", Implies(CERT, ForAll([QV], Implies(And(0 <= QV, QV < n), DELTA(QV) <= pot[QV].t)))),
            ("shortest paths found so far", Implies(CERT, ForAll([QV], Implies(And(0 <= QV, QV < n, Or(RANK(QV) <= r, And(RANK(QV) == r + 1, PAR(QV) < e))), pot[QV].t == DELTA(QV))))),
            ("a settled system does not change", Implies(And(CERT, r >= n), Not(changed))),
            ("arcs seen without a change are satisfied", Implies(Not(changed), ForAll([QE], Implies(And(0 <= QE, QE < e, act(flags, QE)), pot[frm(arcs, QE)].t + wt(arcs, QE) - pot[to(arcs, QE)].t >= 0))))]


def _ip_ens(c):
    n, arcs, flags = c.a(0).t, c.a(1), c.a(2)
    r = c.r
    pot = r.val
    out = [("one potential per node", Implies(r.has, pot.n == n)), ("the result is a potential of the active arcs", Implies(r.has, is_potential(arcs, flags, lambda v: pot[v].t)))]
    if not c.call:
        out.append(("nothing is returned only when the active arcs have no solution", Implies(CERT, r.has)))
    return out


initial = Contract(D_ + "difference_initial_potential", name="difference_initial_potential",
                   requires=lambda c: graph_pre(c.a(0).t, c.a(1), c.a(2)), ensures=_ip_ens, facts=lambda c: cert_facts(c.a(0).t, c.a(1), c.a(2)),
                   throws=lambda c: {OVF: ("may", z3.BoolVal(True) if c.call else Not(CERT))},
                   loops=[LoopContract("rounds", _ip_outer, decreases=lambda c: c.p(0).t + 1 - c.v("round").t),
                          LoopContract("relax every arc", _ip_inner, decreases=lambda c: c.p(1).n - c.v("e").t)])


def _inv_ens(c):
    arcs, flags, pot = c.a(0), c.a(1), c.a(2)
    bad = lambda e: And(0 <= e, e < arcs.n, act(flags, e), pot[frm(arcs, e)].t + wt(arcs, e) - pot[to(arcs, e)].t < 0)
    return [("a reported arc is violated", Implies(c.r.has, bad(c.r.val.t))), ("no arc is reported only when all are satisfied", Implies(Not(c.r.has), is_potential(arcs, flags, lambda v: pot[v].t)))]


invalid_arc = Contract(D_ + "difference_invalid_potential_arc", name="difference_invalid_potential_arc",
                       requires=lambda c: [("arcs join nodes", well_formed(c.a(2).n, c.a(0))), ("one flag per arc, or none", flags_ok(c.a(0), c.a(1)))],
                       ensures=_inv_ens, throws=lambda c: {OVF: ("may", Not(_small(c.a(0), c.a(2))))},
                       loops=[LoopContract("every arc", lambda c: [("index", And(0 <= c.v("e").t, c.v("e").t <= c.p(0).n)),
                                                                   ("arcs seen are satisfied", ForAll([QE], Implies(And(0 <= QE, QE < c.v("e").t, act(c.p(1), QE)), c.p(2)[frm(c.p(0), QE)].t + wt(c.p(0), QE) - c.p(2)[to(c.p(0), QE)].t >= 0)))],
                                           decreases=lambda c: c.p(0).n - c.v("e").t)])
LIM = 1 << 59


def small(x):
    return And(-LIM <= x, x <= LIM)


def _small(arcs, pot):
    return And(ForAll([QE], Implies(And(0 <= QE, QE < arcs.n), small(wt(arcs, QE)))), ForAll([QV], Implies(And(0 <= QV, QV < pot.n), small(pot[QV].t))))


# ---- repairing a potential (Cotton and Maler's incremental satisfiability)
from cv.stdlib import heap_formula

PHI = z3.Function("any_other_potential", Int, Int)
HASPHI = z3.Bool("has_other_potential")
SLOT = z3.Function("slot_in_block", Int, Int)


def tail_adjacency(c, n, arcs, adj, by_tail=True):
    return adjacency(n, arcs, adj, (lambda e: frm(arcs, e)) if by_tail is True else _end_of(arcs, by_tail), lambda e: SLOT(e))


def all_zero(a, n):
    return ForAll([QV], Implies(And(0 <= QV, QV < n), a[QV].t == 0))


def clean_ws(n, work):
    return [("scratch distances are zero", all_zero(work.fld(0), n)), ("scratch flags are clear", all_zero(work.fld(2), n)),
            ("scratch sizes", And(work.fld(0).n == n, work.fld(1).n == n, work.fld(2).n == n))]


class RP:
    """the pieces of the state the repair contracts speak about"""

    def __init__(self, c, pot, work):
        self.n, self.arcs, self.adj, self.flags, self.added = c.p(0).t, c.p(1), c.p(2), c.p(3), c.p(5).t
        self.pot0, self.pot, self.work = c.p(4), pot, work
        self.G, self.U, self.S, self.T, self.H = [work.fld(i) for i in range(5)]
        self.s, self.t, self.d = frm(self.arcs, self.added), to(self.arcs, self.added), wt(self.arcs, self.added)
        self.K = self.pot0[self.s].t - PHI(self.s)
        self.initial = self.pot0[self.s].t + self.d - self.pot0[self.t].t


def _rp(c):
    return RP(c, c.v("potential"), c.v("work"))


def nd(n, v):
    return And(0 <= v, v < n)


def _sizes(q):
    return [("scratch sizes", And(q.G.n == q.n, q.U.n == q.n, q.S.n == q.n, q.pot.n == q.n))]


def _rp_state(c, here=None, upto=None):
    q = _rp(c)
    n, arcs, flags, G, U, S, T, H, P = q.n, q.arcs, q.flags, q.G, q.U, q.S, q.T, q.H, q.pot0
    f, t, d = frm(arcs, QE), to(arcs, QE), wt(arcs, QE)
    done = And(nd(arcs.n, QE), act(flags, QE), S[f].t != 0)
    if here is not None:
        done = And(done, Or(f != here, SLOT(QE) < upto))
    return _sizes(q) + [
        ("pending improvements are negative", ForAll([QV], Implies(nd(n, QV), G[QV].t <= 0))),
        ("a lowered node is not pending", ForAll([QV], Implies(And(nd(n, QV), S[QV].t != 0), And(G[QV].t == 0, U[QV].t < P[QV].t)))),
        ("the new arc's tail is not lowered", S[q.s].t == 0),
        ("the queue is a heap", heap_formula(c.en, H.v, H.n, -1)),
        ("queue entries", ForAll([QI], Implies(nd(H.n, QI), And(nd(n, H[QI].at(1).t), H[QI].at(0).t < 0, Or(S[H[QI].at(1).t].t != 0, H[QI].at(0).t >= G[H[QI].at(1).t].t))))),
        ("pending nodes are queued", ForAll([QV], Implies(And(nd(n, QV), G[QV].t < 0), Exists([QI], And(nd(H.n, QI), H[QI].at(1).t == QV, H[QI].at(0).t == G[QV].t))))),
        ("lowered nodes precede the queue", ForAll([QV, QI], Implies(And(nd(n, QV), S[QV].t != 0, nd(H.n, QI)), U[QV].t - P[QV].t <= H[QI].at(0).t))),
        ("arcs out of lowered nodes are satisfied or pending", ForAll([QE], Implies(done, And(Implies(S[t].t != 0, U[f].t + d - U[t].t >= 0), Implies(S[t].t == 0, G[t].t <= U[f].t + d - P[t].t))))),
        ("the new arc is satisfied or pending", And(Implies(S[q.t].t != 0, U[q.t].t <= P[q.s].t + q.d), Implies(S[q.t].t == 0, G[q.t].t <= q.initial))),
        ("changed nodes are recorded", ForAll([QV], Implies(And(nd(n, QV), Or(S[QV].t != 0, G[QV].t < 0)), Exists([QI], And(nd(T.n, QI), T[QI].t == QV))))),
        ("recorded nodes", ForAll([QI], Implies(nd(T.n, QI), nd(n, T[QI].t)))),
        ("nothing falls below any other potential", Implies(HASPHI, ForAll([QV], Implies(nd(n, QV), And(Implies(S[QV].t != 0, U[QV].t - PHI(QV) >= q.K), Implies(G[QV].t < 0, P[QV].t + G[QV].t - PHI(QV) >= q.K)))))),
    ]


def _rp_main(c):
    q = _rp(c)
    return [("still successful", c.v("result").t)] + _rp_state(c)


def _rp_relax(c):
    q = _rp(c)
    here, i, g = c.v("here").t, c.v("i").t, c.v("gamma_here").t
    start = q.adj.fld(0)
    return [("still successful", c.v("result").t), ("the current node", And(nd(q.n, here), q.S[here].t != 0, q.U[here].t == q.pot0[here].t + g, g < 0, here != q.s)),
            ("index", And(start[here].t <= i, i <= start[here + 1].t)),
            ("the current node precedes the queue", ForAll([QI], Implies(nd(q.H.n, QI), g <= q.H[QI].at(0).t))),
            ("lowered nodes fell at least as far", ForAll([QV], Implies(And(nd(q.n, QV), q.S[QV].t != 0), q.U[QV].t - q.pot0[QV].t <= g))),
            ("flags do not change", CNT(q.S.v.lv[("[]",)], z3.IntVal(0), q.n) == CNT(W_e(c, 2).v.lv[("[]",)], z3.IntVal(0), q.n)),
            ("values do not change", ForAll([QV], Implies(nd(q.n, QV), And(q.S[QV].t == W_e(c, 2)[QV].t, q.U[QV].t == W_e(c, 1)[QV].t))))] + _rp_state(c, here, i)


def W_e(c, k):
    return c.e("work").fld(k)


def _rp_commit(c):
    q = _rp(c)
    k = c.index
    n, P, S, U, T = q.n, q.pot0, q.S, q.U, q.T
    return [("index", And(0 <= k, k <= T.n)), ("one potential per node", q.pot.n == n),
            ("only lowered nodes change, to their new values", ForAll([QV], Implies(nd(n, QV), Or(q.pot[QV].t == P[QV].t, And(S[QV].t != 0, q.pot[QV].t == U[QV].t))))),
            ("processed nodes have their new values", ForAll([QI], Implies(And(nd(k, QI), S[T[QI].t].t != 0), q.pot[T[QI].t].t == U[T[QI].t].t)))]


def _rp_clear(c):
    q = _rp(c)
    k = c.index
    return [("index", And(0 <= k, k <= q.T.n)), ("scratch sizes", And(q.G.n == q.n, q.U.n == q.n, q.S.n == q.n)),
            ("what is still dirty will be cleared", ForAll([QV], Implies(nd(q.n, QV), Or(And(q.G[QV].t == 0, q.S[QV].t == 0), Exists([QI], And(k <= QI, QI < q.T.n, q.T[QI].t == QV))))))]


def _rp_pre(c):
    n, arcs, adj, flags, pot, added, work = [c.a(i) for i in range(7)]
    n, added = n.t, added.t
    return graph_pre(n, arcs, flags) + [("one potential per node", pot.n == n), ("the added arc exists and is active", And(nd(arcs.n, added), act(flags, added))),
                                        ("the potential is valid for the other arcs", is_potential(arcs, flags, lambda v: pot[v].t, but=added)),
                                        ("scratch space is fresh or was left clean", Or(work.fld(0).n != n, And(*[f for _, f in clean_ws(n, work)])))] + tail_adjacency(c, n, arcs, adj)


def _rp_ens(c):
    n, arcs, adj, flags, pot, added, work = [c.a(i) for i in range(7)]
    n = n.t
    new = c.x(4)
    out = [("one potential per node", new.n == n),
           ("on success the potential is valid for every active arc", Implies(c.r.t, is_potential(arcs, flags, lambda v: new[v].t))),
           ("on failure the potential is unchanged", Implies(Not(c.r.t), ForAll([QV], Implies(nd(n, QV), new[QV].t == pot[QV].t))))] + clean_ws(n, c.x(6))
    if not c.call:
        out.append(("failure is reported only when no potential exists", Implies(HASPHI, c.r.t)))
    return out


def _rp_small(c):
    n, arcs, pot = c.a(0).t, c.a(1), c.a(4)
    return And(HASPHI, _small(arcs, pot), ForAll([QV], Implies(nd(n, QV), small(PHI(QV)))))


def _flags_count(c):
    q = _rp(c)
    return CNT(q.S.v.lv[("[]",)], z3.IntVal(0), q.n)


cnt_store = Lemma("setting a flag lowers the count of clear flags by one", [AI, Int, Int, Int],
                  lambda A, h, x, k: Implies(And(k >= 0, x != 0, h >= 0), CNT(z3.Store(A, h, x), z3.IntVal(0), k) == CNT(A, z3.IntVal(0), k) - If(And(h < k, sel(A, h) == 0), 1, 0)),
                  hints=lambda A, h, x, k: [cntS(A, z3.IntVal(0), k - 1), cntS(z3.Store(A, h, x), z3.IntVal(0), k - 1), CNT(A, z3.IntVal(0), k - 1 + 1) == CNT(A, z3.IntVal(0), k),
                                            CNT(z3.Store(A, h, x), z3.IntVal(0), k - 1 + 1) == CNT(z3.Store(A, h, x), z3.IntVal(0), k), cnt0(A, z3.IntVal(0)), cnt0(z3.Store(A, h, x), z3.IntVal(0))],
                  induction=(lambda A, h, x, k: k, lambda A, h, x, k: [(A, h, x, k - 1)]))


def _rp_step(c):
    """the flag array before this round, with the popped node's flag set"""
    q = _rp(c)
    hd = RP(c, c.head.v("potential"), c.head.v("work"))
    A, n = hd.S.v.lv[("[]",)], q.n
    h = z3.Int("h!c")
    return [ForAll([h], cnt_store(A, h, z3.IntVal(1), n), patterns=[CNT(z3.Store(A, h, z3.IntVal(1)), z3.IntVal(0), n)]), cnt_mono(A, z3.IntVal(0), z3.IntVal(0), n), cnt0(A, z3.IntVal(0))]


def _rp_loopfacts(c):
    q = _rp(c)
    A, n = q.S.v.lv[("[]",)], q.n
    h = z3.Int("h!c")
    return [ForAll([h], cnt_store(A, h, z3.IntVal(1), n), patterns=[CNT(z3.Store(A, h, z3.IntVal(1)), z3.IntVal(0), n)]), cnt_mono(A, z3.IntVal(0), z3.IntVal(0), n), cnt0(A, z3.IntVal(0))]


repair = Contract(D_ + "difference_repair_potential", name="difference_repair_potential", modifies=[4, 6],
                  requires=_rp_pre, ensures=_rp_ens, throws=lambda c: {OVF: ("may", z3.BoolVal(True) if c.call else Not(_rp_small(c)))},
                  facts=lambda c: [Implies(HASPHI, is_potential(c.a(1), c.a(3), PHI))],
                  loops=[LoopContract("lower nodes in order", _rp_main, decreases=lambda c: (_flags_count(c), _rp(c).H.n), facts=_rp_loopfacts),
                         LoopContract("arcs out of a lowered node", _rp_relax, decreases=lambda c: _rp(c).adj.fld(0)[c.v("here").t + 1].t - c.v("i").t),
                         LoopContract("commit", _rp_commit, decreases=lambda c: _rp(c).T.n - c.index),
                         LoopContract("clear the scratch space", _rp_clear, decreases=lambda c: _rp(c).T.n - c.index)])


# ---- incremental bound propagation (gated Dijkstra in the reduced graph)
XS = z3.Function("any_solution", Int, Int)
HASX = z3.Bool("has_solution")


class IB:
    """n, arcs, adjacency, by_tail, active, potential, bound, gate, forced, work"""

    def __init__(self, c, work, args):
        self.n, self.arcs, self.adj, self.bt, self.flags = args[0].t, args[1], args[2], args[3].t, args[4]
        self.pot, self.bound, self.gate, self.forced = args[5:9]
        self.work = work
        self.g, self.q, self.st, self.hp, self.pr, self.sb, self.order, self.H = [work.fld(i) for i in range(8)]

    def tail(self, e):
        return If(self.bt, frm(self.arcs, e), to(self.arcs, e))

    def head(self, e):
        return If(self.bt, to(self.arcs, e), frm(self.arcs, e))

    def d(self, e):
        return wt(self.arcs, e)

    def on(self, e):
        return And(nd(self.arcs.n, e), act(self.flags, e))

    def start(self, v):
        return Or(self.bound[v].t > self.gate[v].t, self.forced[v].t != 0)

    def open(self, v):
        """a settled node that must be expanded"""
        return Or(self.sb[v].t > self.gate[v].t, self.forced[v].t != 0)


def _ib(c):
    return IB(c, c.v("work"), [c.p(i) for i in range(9)])


def _ib_sizes(q):
    return ("scratch sizes", And(*[x.n == q.n for x in (q.g, q.q, q.st, q.hp, q.pr, q.sb)]))


def _ib_seen(c):
    q = _ib(c)
    v, any_, m = c.v("v").t, c.v("any").t, c.v("pi_v0").t
    lo, hi = -(1 << 60), 1 << 60
    return [("index", And(0 <= v, v <= q.n)), ("whether some node starts", any_ == Exists([QV], And(nd(v, QV), q.start(QV)))),
            ("the source potential is the sum of a start node, or zero", Implies(_ib_small_q(q), And(lo <= m, m <= hi)))]


def _ib_seed(c):
    q = _ib(c)
    v, V0 = c.v("v").t, c.v("pi_v0").t
    return [("index", And(0 <= v, v <= q.n)), _ib_sizes(q), ("nothing is settled", And(all_zero(q.st, q.n), q.order.n == 0)),
            ("start nodes so far are queued, others are not", ForAll([QV], Implies(nd(q.n, QV), And((q.q[QV].t != 0) == And(QV < v, q.start(QV)), Implies(And(QV < v, q.start(QV)), And(q.g[QV].t == V0 - q.bound[QV].t - q.pot[QV].t, q.hp[QV].t == 0)))))),
            ("queue entries", ForAll([QI], Implies(nd(q.H.n, QI), And(nd(v, q.H[QI].at(1).t), q.q[q.H[QI].at(1).t].t != 0, q.H[QI].at(0).t == q.g[q.H[QI].at(1).t].t)))),
            ("queued nodes have an entry", ForAll([QV], Implies(And(nd(q.n, QV), q.q[QV].t != 0), Exists([QI], And(nd(q.H.n, QI), q.H[QI].at(1).t == QV, q.H[QI].at(0).t == q.g[QV].t)))))]


def _ib_state(c, here=None, upto=None):
    q = _ib(c)
    n, V0, g = q.n, c.v("pi_v0").t, q.g
    t, s = q.head(QE), q.tail(QE)
    exp = And(q.on(QE), q.st[s].t != 0, q.open(s))
    if here is not None:
        exp = And(exp, Or(s != here, SLOT(QE) < upto))
    pe = q.pr[QV].t
    return [_ib_sizes(q),
            ("settled nodes were queued", ForAll([QV], Implies(And(nd(n, QV), q.st[QV].t != 0), And(q.q[QV].t != 0, q.sb[QV].t == V0 - g[QV].t - q.pot[QV].t)))),
            ("start nodes are queued", ForAll([QV], Implies(And(nd(n, QV), q.start(QV)), And(q.q[QV].t != 0, g[QV].t <= V0 - q.bound[QV].t - q.pot[QV].t)))),
            ("the queue is a heap", heap_formula(c.en, q.H.v, q.H.n, -1)),
            ("queue entries", ForAll([QI], Implies(nd(q.H.n, QI), And(nd(n, q.H[QI].at(1).t), q.q[q.H[QI].at(1).t].t != 0, q.H[QI].at(0).t >= g[q.H[QI].at(1).t].t)))),
            ("queued nodes have an entry or are settled", ForAll([QV], Implies(And(nd(n, QV), q.q[QV].t != 0, q.st[QV].t == 0), Exists([QI], And(nd(q.H.n, QI), q.H[QI].at(1).t == QV, q.H[QI].at(0).t == g[QV].t))))),
            ("settled nodes precede the queue", ForAll([QV, QI], Implies(And(nd(n, QV), q.st[QV].t != 0, nd(q.H.n, QI)), g[QV].t <= q.H[QI].at(0).t))),
            ("arcs out of expanded nodes are relaxed", ForAll([QE], Implies(exp, And(q.q[t].t != 0, g[t].t <= g[s].t + q.pot[s].t + q.d(QE) - q.pot[t].t)))),
            ("distances come from an arc or from the node's own bound", ForAll([QV], Implies(And(nd(n, QV), q.q[QV].t != 0),
                If(q.hp[QV].t != 0, And(q.on(pe), q.head(pe) == QV, q.st[q.tail(pe)].t != 0, q.open(q.tail(pe)), g[QV].t == g[q.tail(pe)].t + q.pot[q.tail(pe)].t + q.d(pe) - q.pot[QV].t),
                   And(q.start(QV), g[QV].t == V0 - q.bound[QV].t - q.pot[QV].t))))),
            ("no solution lies below a distance", Implies(HASX, ForAll([QV], Implies(And(nd(n, QV), q.q[QV].t != 0), V0 - g[QV].t - q.pot[QV].t <= XS(QV))))),
            ("settled nodes are listed", ForAll([QV], Implies(And(nd(n, QV), q.st[QV].t != 0), Exists([QI], And(nd(q.order.n, QI), q.order[QI].t == QV))))),
            ("listed nodes are settled", ForAll([QI], Implies(nd(q.order.n, QI), And(nd(n, q.order[QI].t), q.st[q.order[QI].t].t != 0)))),
            ("no node is listed twice", ForAll([QI, QW], Implies(And(0 <= QI, QI < QW, QW < q.order.n), q.order[QI].t != q.order[QW].t))),
            ("predecessors are listed first", ForAll([QI], Implies(And(nd(q.order.n, QI), q.hp[q.order[QI].t].t != 0), Exists([QW], And(0 <= QW, QW < QI, q.order[QW].t == q.tail(q.pr[q.order[QI].t].t))))))]


def _ib_relax(c):
    q = _ib(c)
    here, i, gh = c.v("here").t, c.v("i").t, c.v("gamma_here").t
    start = q.adj.fld(0)
    w0 = c.e("work")
    return [("the current node", And(nd(q.n, here), q.st[here].t != 0, q.open(here), q.g[here].t == gh)), ("index", And(start[here].t <= i, i <= start[here + 1].t)),
            ("the current node precedes the queue", ForAll([QI], Implies(nd(q.H.n, QI), gh <= q.H[QI].at(0).t))),
            ("settled nodes are no farther", ForAll([QV], Implies(And(nd(q.n, QV), q.st[QV].t != 0), q.g[QV].t <= gh)))] + _ib_state(c, here, i)


def _ib_reset(c):
    q = _ib(c)
    k = c.index
    return [("index", And(0 <= k, k <= q.order.n)), _ib_sizes(q),
            ("what is still marked will be cleared", ForAll([QV], Implies(nd(q.n, QV), Or(And(q.q[QV].t == 0, q.st[QV].t == 0), Exists([QI], And(k <= QI, QI < q.order.n, q.order[QI].t == QV))))))]


def _ib_args(c):
    return [c.a(i) for i in range(9)]


def _ib_pre(c):
    q = IB(c, c.a(9), _ib_args(c))
    n = q.n
    s, t = q.tail(QE), q.head(QE)
    return graph_pre(n, q.arcs, q.flags) + [
        ("one value per node", And(q.pot.n == n, q.bound.n == n, q.gate.n == n, q.forced.n == n)),
        ("the potential is valid", ForAll([QE], Implies(q.on(QE), q.pot[s].t + q.d(QE) - q.pot[t].t >= 0))),
        ("gates do not exceed bounds", ForAll([QV], Implies(nd(n, QV), q.gate[QV].t <= q.bound[QV].t))),
        ("what unforced nodes' gates imply is known", ForAll([QE], Implies(And(q.on(QE), q.forced[s].t == 0), q.bound[t].t >= q.gate[s].t - q.d(QE)))),
        ("scratch space is fresh or was left clean", Or(q.g.n != n, And(*[x.n == n for x in (q.q, q.st, q.hp, q.pr, q.sb)], all_zero(q.q, n), all_zero(q.st, n))))] + tail_adjacency(c, n, q.arcs, q.adj, q.bt)


def _ib_ens(c):
    q = IB(c, c.x(9), _ib_args(c))
    n, order, sb = q.n, q.order, q.sb
    s, t = q.tail(QE), q.head(QE)

    def known(y):
        return Or(q.bound[t].t >= y, Exists([QW], And(nd(order.n, QW), order[QW].t == t, sb[t].t >= y)))
    o = order[QI].t
    pe = q.pr[o].t
    out = [("the consequences of every bound are known", ForAll([QE], Implies(q.on(QE), known(q.bound[s].t - q.d(QE))))),
           ("the consequences of every settled bound are known", ForAll([QE, QI], Implies(And(q.on(QE), nd(order.n, QI), order[QI].t == s), known(sb[s].t - q.d(QE))))),
           ("settled nodes are nodes", ForAll([QI], Implies(nd(order.n, QI), nd(n, o)))),
           ("no node is settled twice", ForAll([QI, QW], Implies(And(0 <= QI, QI < QW, QW < order.n), order[QI].t != order[QW].t))),
           ("a settled bound is the node's own or comes across an active arc from an earlier one", ForAll([QI], Implies(nd(order.n, QI),
               If(q.hp[o].t != 0, And(q.on(pe), q.head(pe) == o, sb[o].t == sb[q.tail(pe)].t - q.d(pe), Exists([QW], And(0 <= QW, QW < QI, order[QW].t == q.tail(pe)))), sb[o].t == q.bound[o].t)))),
           ("scratch space is left clean", And(*[x.n == n for x in (q.q, q.st, q.hp, q.pr, q.sb)], q.g.n == n, all_zero(q.q, n), all_zero(q.st, n)))]
    if not c.call:
        out.append(("every solution meets the settled bounds", Implies(HASX, ForAll([QI], Implies(nd(order.n, QI), XS(o) >= sb[o].t)))))
    return out


def _ib_small_q(q):
    return And(_small(q.arcs, q.pot), ForAll([QV], Implies(nd(q.n, QV), And(small(q.bound[QV].t), small(q.gate[QV].t)))))


def _ib_small(c):
    q = IB(c, c.a(9), _ib_args(c))
    return And(_ib_small_q(q), HASX, ForAll([QV], Implies(nd(q.n, QV), small(XS(QV)))))


def _ib_facts(c):
    q = IB(c, c.a(9), _ib_args(c))
    return [Implies(HASX, And(ForAll([QV], Implies(nd(q.n, QV), XS(QV) >= q.bound[QV].t)), ForAll([QE], Implies(q.on(QE), XS(q.head(QE)) >= XS(q.tail(QE)) - q.d(QE)))))]


def _ib_count(c):
    q = _ib(c)
    return CNT(q.st.v.lv[("[]",)], z3.IntVal(0), q.n)


def _ib_cnt(c):
    q = _ib(c)
    A, n = q.st.v.lv[("[]",)], q.n
    h = z3.Int("h!c")
    return [ForAll([h], cnt_store(A, h, z3.IntVal(1), n), patterns=[CNT(z3.Store(A, h, z3.IntVal(1)), z3.IntVal(0), n)]), cnt_mono(A, z3.IntVal(0), z3.IntVal(0), n), cnt0(A, z3.IntVal(0))]


bounds = Contract(D_ + "difference_incremental_bounds", name="difference_incremental_bounds", modifies=[9], requires=_ib_pre, ensures=_ib_ens, facts=_ib_facts,
                  throws=lambda c: {OVF: ("may", z3.BoolVal(True) if c.call else Not(_ib_small(c)))},
                  loops=[LoopContract("find the start set", _ib_seen, decreases=lambda c: c.p(0).t - c.v("v").t),
                         LoopContract("queue the start set", _ib_seed, decreases=lambda c: c.p(0).t - c.v("v").t),
                         LoopContract("settle nodes in order", _ib_state, decreases=lambda c: (_ib_count(c), _ib(c).H.n), facts=_ib_cnt),
                         LoopContract("arcs out of a settled node", _ib_relax, decreases=lambda c: _ib(c).adj.fld(0)[c.v("here").t + 1].t - c.v("i").t),
                         LoopContract("clear the marks", _ib_reset, decreases=lambda c: _ib(c).order.n - c.index)])
