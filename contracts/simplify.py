"""Contracts of the root simplification of difference graphs.

Ghost functions name what one run computes: HH the potential, and for every
source s the row REACH(s, .), DR(s, .) of real distances, PE(s, .) the last arc
of a shortest path, DEP(s, .) the order in which nodes were settled, KEEP(s, v)
the tight arc kept."""
from contracts.diff import *

BoolS = z3.BoolSort()
HH = z3.Function("potential_found", Int, Int)
DR = z3.Function("real_distance", Int, Int, Int)
REACH = z3.Function("reachable", Int, Int, BoolS)
PE = z3.Function("last_arc", Int, Int, Int)
DEP = z3.Function("settled_at", Int, Int, Int)
KEEP = z3.Function("kept_tight_arc", Int, Int, Int)
PSI = z3.Function("any_assignment", Int, Int)
SUM = z3.Function("path_weight", AI, AI, Int, Int)
# the graph and the outcome, by name, for the lemmas
FROM, TO, WD = [z3.Function(x, Int, Int) for x in ("arc_from", "arc_to", "arc_weight")]
BASEQ, KEPTQ, NEEDQ = [z3.Function(x, Int, BoolS) for x in ("arc_in_base", "arc_kept", "node_is_source")]
MARK = z3.Function("place_of_interest", Int, BoolS)   # true everywhere; only guides instantiation
QS, QX = z3.Ints("s!q x!q")
B_, C_, I_ = 0, 1, 2


class SD:
    def __init__(self, n, edges, roles):
        self.n, self.E, self.roles, self.m = n.t, edges, roles, edges.n

    def f(self, e):
        return frm(self.E, e)

    def t(self, e):
        return to(self.E, e)

    def d(self, e):
        return wt(self.E, e)

    def role(self, e, r):
        return And(nd(self.m, e), self.roles[e].t == r)

    def base(self, e):
        return self.role(e, B_)

    def cand(self, e):
        return self.role(e, C_)

    def live(self, e):
        return And(nd(self.m, e), self.roles[e].t != I_)


def _sd(c):
    return SD(c.p(0), c.p(1), c.p(2))


def _sda(c):
    return SD(c.a(0), c.a(1), c.a(2))


K0 = z3.K(Int, z3.IntVal(0))


# ---- lists of arcs
def listed(q, L, cond, slot, upto=None):
    """L[v] lists arcs; cond(v, e): e belongs to v's list; slot(e): where e is"""
    raise NotImplementedError


def _base_inv(c, upto):
    q, B, BS = _sd(c), c.v("base"), c.g("BS")
    return [("base arcs listed are base arcs", ForAll([QI], Implies(nd(B.n, QI), And(q.base(B[QI].t), B[QI].t < upto)))),
            ("every base arc is listed", ForAll([QE], Implies(And(q.base(QE), QE < upto), And(0 <= sel(BS, QE), sel(BS, QE) < B.n, B[sel(BS, QE)].t == QE)), patterns=[sel(BS, QE)])),
            ("every base arc is listed, by arc", ForAll([QE], Implies(And(q.base(QE), QE < upto), And(0 <= sel(BS, QE), sel(BS, QE) < B.n, B[sel(BS, QE)].t == QE)), patterns=[q.roles[QE].t]))]


def _l0(c):
    q, e = _sd(c), c.v("e").t
    return [("index", And(0 <= e, e <= q.m))] + _base_inv(c, e)


# ---- Bellman-Ford
def _cert(q):
    p = PAR(QV)
    return [Implies(CERT, ForAll([QV], Implies(nd(q.n, QV), And(MIN <= DELTA(QV), DELTA(QV) <= 0, 0 <= RANK(QV), RANK(QV) < q.n, Implies(RANK(QV) == 0, DELTA(QV) == 0),
                                                               Implies(RANK(QV) > 0, And(q.base(p), q.t(p) == QV, RANK(q.f(p)) == RANK(QV) - 1, DELTA(QV) == DELTA(q.f(p)) + q.d(p))))), patterns=[DELTA(QV)])),
            Implies(CERT, ForAll([QE], Implies(q.base(QE), DELTA(q.f(QE)) + q.d(QE) - DELTA(q.t(QE)) >= 0)))]


def _bf_outer(c):
    q, h, r = _sd(c), c.v("h"), c.v("round").t
    return [("rounds", And(0 <= r, r <= q.n)), ("not refuted yet", Not(c.v("outcome").fld(0).t)), ("one potential per node", h.n == q.n), ("potentials are not positive", ForAll([QV], Implies(nd(q.n, QV), h[QV].t <= 0))),
            ("potentials stay above the shortest distances", Implies(CERT, ForAll([QV], Implies(nd(q.n, QV), DELTA(QV) <= h[QV].t)))),
            ("shortest paths found so far", Implies(CERT, ForAll([QV], Implies(And(nd(q.n, QV), RANK(QV) <= r), h[QV].t == DELTA(QV)))))]


def _bf_inner(c):
    q, h, r, k, B, BS, ch = _sd(c), c.v("h"), c.v("round").t, c.index, c.v("base"), c.g("BS"), c.v("changed").t
    return [("index", And(0 <= k, k <= B.n)), ("one potential per node", h.n == q.n), ("potentials are not positive", ForAll([QV], Implies(nd(q.n, QV), h[QV].t <= 0))),
            ("potentials stay above the shortest distances", Implies(CERT, ForAll([QV], Implies(nd(q.n, QV), DELTA(QV) <= h[QV].t)))),
            ("shortest paths found so far", Implies(CERT, ForAll([QV], Implies(And(nd(q.n, QV), Or(RANK(QV) <= r, And(RANK(QV) == r + 1, sel(BS, PAR(QV)) < k))), h[QV].t == DELTA(QV))))),
            ("a settled system does not change", Implies(And(CERT, r >= q.n), Not(ch))),
            ("arcs seen without a change are satisfied", Implies(Not(ch), ForAll([QI], Implies(nd(k, QI), h[q.f(B[QI].t)].t + q.d(B[QI].t) - h[q.t(B[QI].t)].t >= 0))))]


def _needs(c):
    q, need = _sd(c), c.v("need_source")
    row = NEEDQ(QV) == And(nd(q.n, QV), need[QV].t)
    return [ForAll([QV], row, patterns=[NEEDQ(QV)]), ForAll([QV], row, patterns=[need[QV].t])]


def _hh(c):
    h = c.v("h")
    q = _sd(c)
    return [ForAll([QV], HH(QV) == h[QV].t, patterns=[HH(QV)]), ForAll([QV], HH(QV) == h[QV].t, patterns=[h[QV].t])]


# ---- lists per node
def _out_inv(c, done):
    q, out, red, SL = _sd(c), c.v("out"), c.v("reduced"), c.g("SL")
    e = out[QV][QI].t
    return [("sizes", And(out.n == q.n, red.n == q.m)), ("list sizes", ForAll([QV], Implies(nd(q.n, QV), out[QV].n >= 0))),
            ("out lists base arcs by their tails", ForAll([QV, QI], Implies(And(nd(q.n, QV), nd(out[QV].n, QI)), And(q.base(e), q.f(e) == QV)))),
            ("base arcs are listed under their tails, with their reduced weights", ForAll([QE], Implies(And(q.base(QE), done(QE)), And(
                0 <= sel(SL, QE), sel(SL, QE) < out[q.f(QE)].n, out[q.f(QE)][sel(SL, QE)].t == QE, red[QE].t == q.d(QE) + HH(q.f(QE)) - HH(q.t(QE)), red[QE].t >= 0)), patterns=[sel(SL, QE)])),
            ("base arcs are listed under their tails, by arc", ForAll([QE], Implies(And(q.base(QE), done(QE)), And(
                0 <= sel(SL, QE), sel(SL, QE) < out[q.f(QE)].n, out[q.f(QE)][sel(SL, QE)].t == QE, red[QE].t == q.d(QE) + HH(q.f(QE)) - HH(q.t(QE)), red[QE].t >= 0)), patterns=[q.roles[QE].t]))]


def _l3(c):
    k, B, BS = c.index, c.v("base"), c.g("BS")
    return [("index", And(0 <= k, k <= B.n))] + _out_inv(c, lambda e: sel(BS, e) < k)


def _l3_step(c):
    q = _sd(c)
    e = c.v("base")[c.head.index].t
    return {"SL": z3.Store(c.g("SL"), e, c.v("out")[q.f(e)].n - 1)}


def _lists_inv(c, upto):
    q, EF, CT, need = _sd(c), c.v("edges_from"), c.v("candidates_to"), c.v("need_source")
    SF, SC = c.g("SF"), c.g("SC")
    e, e2 = EF[QV][QI].t, EF[QV][QW].t
    k, k2 = CT[QV][QI].t, CT[QV][QW].t

    def both(stmt, S):
        return [ForAll([QE], stmt, patterns=[sel(S, QE)]), ForAll([QE], stmt, patterns=[q.roles[QE].t])]
    lf = Implies(And(q.live(QE), QE < upto), And(0 <= sel(SF, QE), sel(SF, QE) < EF[q.f(QE)].n, EF[q.f(QE)][sel(SF, QE)].t == QE, need[q.f(QE)].t))
    lc = Implies(And(q.cand(QE), QE < upto), And(0 <= sel(SC, QE), sel(SC, QE) < CT[q.t(QE)].n, CT[q.t(QE)][sel(SC, QE)].t == QE, need[q.t(QE)].t))
    return [("sizes", And(EF.n == q.n, CT.n == q.n, need.n == q.n)), ("list sizes", ForAll([QV], Implies(nd(q.n, QV), And(EF[QV].n >= 0, CT[QV].n >= 0)))),
            ("arcs are listed under their tails", ForAll([QV, QI], Implies(And(nd(q.n, QV), nd(EF[QV].n, QI)), And(q.live(e), e < upto, q.f(e) == QV, sel(SF, e) == QI)))),
            ("candidates are listed under their heads", ForAll([QV, QI], Implies(And(nd(q.n, QV), nd(CT[QV].n, QI)), And(q.cand(k), k < upto, q.t(k) == QV, sel(SC, k) == QI)))),
            ] + [("every arc is listed %d" % i, x) for i, x in enumerate(both(lf, SF))] + [("every candidate is listed %d" % i, x) for i, x in enumerate(both(lc, SC))]


def _l4(c):
    q, e = _sd(c), c.v("e").t
    return [("index", And(0 <= e, e <= q.m))] + _lists_inv(c, e)


def _l4_step(c):
    q = _sd(c)
    e = c.head.v("e").t
    return {"SF": z3.Store(c.g("SF"), e, c.v("edges_from")[q.f(e)].n - 1), "SC": z3.Store(c.g("SC"), e, c.v("candidates_to")[q.t(e)].n - 1)}


def _l5(c):
    q, z, k, B = _sd(c), c.v("zero_out"), c.index, c.v("base")
    return [("index", And(0 <= k, k <= B.n)), ("targets are nodes", zero_ok(q.n, z))]


def zero_ok(n, z):
    return And(z.n == n, ForAll([QV, QI], Implies(And(nd(n, QV), nd(z[QV].n, QI)), nd(n, z[QV][QI].t))))


# ---- what is known about the rows of the processed sources
def rows(need, base, f, t, d, HHf=HH):
    """need(s): s is a processed source; base, f, t, d: the base graph"""
    p = PE(QS, QV)
    return [("a source reaches itself", ForAll([QS], Implies(need(QS), And(REACH(QS, QS), DR(QS, QS) == 0)), patterns=[REACH(QS, QS)])),
            ("distances are closed under the arcs", ForAll([QS, QE], Implies(And(need(QS), base(QE), REACH(QS, f(QE))), And(REACH(QS, t(QE)), DR(QS, t(QE)) <= DR(QS, f(QE)) + d(QE))))),
            ("distances come along arcs", ForAll([QS, QV], Implies(And(need(QS), REACH(QS, QV), QV != QS), And(base(p), t(p) == QV, REACH(QS, f(p)), DR(QS, QV) == DR(QS, f(p)) + d(p), 0 <= DEP(QS, f(p)), DEP(QS, f(p)) < DEP(QS, QV))), patterns=[PE(QS, QV)])),
            ("distances respect the potential", ForAll([QS, QV], Implies(And(need(QS), REACH(QS, QV)), DR(QS, QV) >= HHf(QV) - HHf(QS)), patterns=[DR(QS, QV)]))]


def _need(c):
    need, n = c.v("need_source"), c.p(0).t
    return lambda s, upto: And(nd(n, s), s < upto, need[s].t)


def _rows(c, s):
    q, nd_ = _sd(c), _need(c)
    return rows(lambda x: nd_(x, s), q.base, q.f, q.t, q.d)


def removal(q, rem, done):
    """done(e): the decision about e has been made"""
    r = rem[QE].t
    f, t, d = q.f(QE), q.t(QE), q.d(QE)
    k = KEEP(f, t)
    return [("one decision per arc", rem.n == q.m),
            ("arcs not yet considered are kept", ForAll([QE], Implies(And(nd(q.m, QE), Or(Not(q.live(QE)), Not(done(QE)))), Not(r)))),
            ("a candidate is removed exactly when the base graph implies it", ForAll([QE], Implies(And(q.cand(QE), done(QE)), r == And(REACH(f, t), d >= DR(f, t))))),
            ("a base arc is kept exactly when it is the one chosen among those attaining the distance", ForAll([QE], Implies(And(q.base(QE), done(QE)), And(REACH(f, t), d >= DR(f, t), r == Not(And(d == DR(f, t), k == QE)))))),
            ("an arc is chosen for every attained distance", ForAll([QE], Implies(And(q.base(QE), done(QE), d == DR(f, t)), And(q.base(k), q.f(k) == f, q.t(k) == t, q.d(k) == d))))]


def negative(q, e):
    return And(REACH(q.t(e), q.f(e)), q.d(e) + DR(q.t(e), q.f(e)) < 0)


def path_ok(q, e, P):
    """P leads from e's head to e's tail along base arcs that attain the distances from e's head"""
    s = q.t(e)
    x, y = P[QX].t, P[QX + 1].t
    return And(P.n >= 0, Implies(P.n == 0, q.f(e) == s), Implies(P.n > 0, And(q.f(P[0].t) == s, q.t(P[P.n - 1].t) == q.f(e))),
               ForAll([QX], Implies(nd(P.n, QX), And(q.base(x), DR(s, q.t(x)) == DR(s, q.f(x)) + q.d(x))), patterns=[x]),
               ForAll([QX], Implies(And(0 <= QX, QX < P.n - 1), q.t(x) == q.f(y)), patterns=[x]))


def fixes(q, fix, FX, done):
    e = fix[QI].at(0).t
    return [("conditions to be fixed", ForAll([QI], Implies(nd(fix.n, QI), And(q.cand(e), done(e), negative(q, e), sel(FX, e) == QI)))),
            ("every fixed condition has a path", ForAll([QI], Implies(nd(fix.n, QI), path_ok(q, e, fix[QI].at(1))))),
            ("every candidate closing a negative cycle is fixed", ForAll([QE], Implies(And(q.cand(QE), done(QE), negative(q, QE)), And(0 <= sel(FX, QE), sel(FX, QE) < fix.n, fix[sel(FX, QE)].at(0).t == QE))))]


def scratch(c, dirty_from=None):
    q, dist, par, tk, T = _sd(c), c.v("dist"), c.v("parent"), c.v("tight_kept"), c.v("touched")
    lo, TP = 0 if dirty_from is None else dirty_from, c.g("TP")
    return [("scratch sizes", And(dist.n == q.n, par.n == q.n, tk.n == q.n, c.v("queue").n == 0)),
            ("touched nodes", ForAll([QI], Implies(nd(T.n, QI), nd(q.n, T[QI].t)))),
            ("what is marked is listed as touched", ForAll([QV], Implies(And(nd(q.n, QV), Or(dist[QV].has, par[QV].has, tk[QV].t)), And(lo <= sel(TP, QV), sel(TP, QV) < T.n, T[sel(TP, QV)].t == QV))))]


def _out(c):
    return c.v("outcome")


def _main(c):
    q, s = _sd(c), c.v("s").t
    o = _out(c)
    return [("index", And(0 <= s, s <= q.n))] + scratch(c) + _rows(c, s) + removal(q, o.remove, lambda e: q.f(e) < s) + fixes(q, o.fix, c.g("FX"), lambda e: q.t(e) < s)


def _reset(c):
    k = c.index
    return [("index", And(0 <= k, k <= c.v("touched").n))] + scratch(c, k)


# ---- Dijkstra from s
def _dj(c, here=None, upto=None):
    q, dist, par, tk, TD, Q = _sd(c), c.v("dist"), c.v("parent"), c.v("tight_kept"), c.v("touched"), c.v("queue")
    TP = c.g("TP")
    s, T, clk, red, SL = c.v("s").t, c.g("T"), c.g("clock"), c.v("reduced"), c.g("SL")
    D = lambda v: dist[v].val.t
    key, node = Q[QI].at(0).t, Q[QI].at(1).t
    key2, node2 = Q[QW].at(0).t, Q[QW].at(1).t
    p = par[QV].val.t
    st = lambda v: sel(T, v) != 0
    exp = And(q.base(QE), st(q.f(QE)))
    if here is not None:
        exp = And(exp, Or(q.f(QE) != here, sel(SL, QE) < upto))
    return [("scratch sizes", And(dist.n == q.n, par.n == q.n, tk.n == q.n)), ("clock", clk >= 1),
            ("the source", And(dist[s].has, D(s) == 0)),
            ("distances are not negative", ForAll([QV], Implies(And(nd(q.n, QV), dist[QV].has), D(QV) >= 0))),
            ("queue entries", ForAll([QI], Implies(nd(Q.n, QI), And(nd(q.n, node), dist[node].has, key >= D(node), key >= 0)))),
            ("no entry is queued twice", ForAll([QI, QW], Implies(And(0 <= QI, QI < QW, QW < Q.n, node == node2), key != key2))),
            ("reached nodes are settled or queued", ForAll([QV], Implies(And(nd(q.n, QV), dist[QV].has, Not(st(QV)), MARK(z3.IntVal(0))), Exists([QI], And(MARK(QI), nd(Q.n, QI), node == QV, key == D(QV)))))),
            ("settled nodes", ForAll([QV], Implies(And(nd(q.n, QV), st(QV)), And(dist[QV].has, 1 <= sel(T, QV), sel(T, QV) < clk)))),
            ("settled nodes are not queued with their distances", ForAll([QI], Implies(And(nd(Q.n, QI), st(node)), key > D(node)))),
            ("settled nodes precede the queue", ForAll([QV, QI], Implies(And(nd(q.n, QV), st(QV), nd(Q.n, QI)), D(QV) <= key))),
            ("arcs out of settled nodes are relaxed", ForAll([QE], Implies(exp, And(dist[q.t(QE)].has, D(q.t(QE)) <= D(q.f(QE)) + red[QE].t)))),
            ("distances come along arcs", ForAll([QV], Implies(And(nd(q.n, QV), dist[QV].has, QV != s), And(par[QV].has, q.base(p), q.t(p) == QV, st(q.f(p)), D(QV) == D(q.f(p)) + red[p].t, Implies(st(QV), sel(T, q.f(p)) < sel(T, QV)))))),
            ("touched nodes", ForAll([QI], Implies(nd(TD.n, QI), nd(q.n, TD[QI].t)))),
            ("what is reached is listed as touched", ForAll([QV], Implies(And(nd(q.n, QV), dist[QV].has), And(nd(TD.n, sel(TP, QV)), TD[sel(TP, QV)].t == QV)))),
            ("only reached nodes have predecessors", ForAll([QV], Implies(And(nd(q.n, QV), par[QV].has), dist[QV].has))),
            ("no tight arc yet", ForAll([QV], Implies(nd(q.n, QV), Not(tk[QV].t))))]


def _dj_exit(c):
    q, dist, par, s, T = _sd(c), c.v("dist"), c.v("parent"), c.v("s").t, c.g("T")
    row = And(REACH(s, QV) == And(nd(q.n, QV), dist[QV].has), Implies(And(nd(q.n, QV), dist[QV].has), DR(s, QV) == dist[QV].val.t - HH(s) + HH(QV)), PE(s, QV) == par[QV].val.t, DEP(s, QV) == sel(T, QV))
    return [ForAll([QV], row, patterns=[REACH(s, QV)]), ForAll([QV], row, patterns=[DR(s, QV)]), ForAll([QV], row, patterns=[PE(s, QV)]), ForAll([QV], row, patterns=[dist[QV].has]), row_at(row, s)]


def row_at(row, v):
    return z3.substitute(row, (QV, v))


def _dj_relax(c):
    q, dist, Q = _sd(c), c.v("dist"), c.v("queue")
    v, k, rd, T = c.v("v").t, c.index, c.v("reduced_distance").t, c.g("T")
    return [("the current node", And(nd(q.n, v), sel(T, v) == c.g("clock") - 1, dist[v].has, dist[v].val.t == rd)), ("index", And(0 <= k, k <= c.v("out")[v].n)),
            ("the current node precedes the queue", ForAll([QI], Implies(nd(Q.n, QI), rd <= Q[QI].at(0).t))),
            ("settled nodes are no farther", ForAll([QV], Implies(And(nd(q.n, QV), sel(T, QV) != 0), dist[QV].val.t <= rd)))] + _dj(c, v, k)


def _relax_step(c):
    n1, n0 = c.v("touched").n, c.head.v("touched").n
    w = _sd(c).t(c.v("out")[c.v("v").t][c.head.index].t)
    return {"TP": If(n1 > n0, z3.Store(c.g("TP"), w, n0), c.g("TP"))}


# ---- decisions
def _decide(c):
    q, s, k, o = _sd(c), c.v("s").t, c.index, _out(c)
    tk, SF, KP, dist = c.v("tight_kept"), c.g("SF"), c.g("KP"), c.v("dist")
    done = lambda e: Or(q.f(e) < s, And(q.f(e) == s, sel(SF, e) < k))
    r = o.remove[QE].t
    here = And(nd(q.m, QE), q.f(QE) == s, sel(SF, QE) < k)
    f, t, d = q.f(QE), q.t(QE), q.d(QE)
    K = lambda v: sel(KP, v)
    base = [x for x in removal(q, o.remove, lambda e: q.f(e) < s)]
    return [("index", And(0 <= k, k <= c.v("edges_from")[s].n)), ("scratch sizes", tk.n == q.n),
            ("one decision per arc", o.remove.n == q.m),
            ("only reached nodes are marked", ForAll([QV], Implies(And(nd(q.n, QV), tk[QV].t), And(dist[QV].has, q.base(K(QV)), q.f(K(QV)) == s, q.t(K(QV)) == QV, q.d(K(QV)) == DR(s, QV), sel(SF, K(QV)) < k, Not(o.remove[K(QV)].t))))),
            ("arcs not yet considered are kept", ForAll([QE], Implies(And(nd(q.m, QE), Or(Not(q.live(QE)), Not(done(QE)))), Not(r)))),
            ("candidates considered here", ForAll([QE], Implies(And(here, q.cand(QE)), r == And(REACH(s, t), d >= DR(s, t))))),
            ("base arcs considered here", ForAll([QE], Implies(And(here, q.base(QE)), And(REACH(s, t), d >= DR(s, t), r == Not(And(d == DR(s, t), tk[t].t, K(t) == QE)), Implies(d == DR(s, t), tk[t].t))))),
            ("earlier candidates", base[2][1] if False else ForAll([QE], Implies(And(q.cand(QE), q.f(QE) < s), r == And(REACH(f, t), d >= DR(f, t))))),
            ("earlier base arcs", ForAll([QE], Implies(And(q.base(QE), q.f(QE) < s), And(REACH(f, t), d >= DR(f, t), r == Not(And(d == DR(f, t), KEEP(f, t) == QE))))))]


def _decide_step(c):
    q = _sd(c)
    e = c.v("edges_from")[c.v("s").t][c.head.index].t
    v = q.t(e)
    return {"KP": If(And(c.v("tight_kept")[v].t, Not(c.head.v("tight_kept")[v].t)), z3.Store(c.g("KP"), v, e), c.g("KP"))}


def _decide_exit(c):
    s, KP = c.v("s").t, c.g("KP")
    return [ForAll([QV], KEEP(s, QV) == sel(KP, QV), patterns=[KEEP(s, QV)]), ForAll([QV], KEEP(s, QV) == sel(KP, QV), patterns=[sel(KP, QV)])]


def _fixing(c):
    q, s, k, o = _sd(c), c.v("s").t, c.index, _out(c)
    SC = c.g("SC")
    return [("index", And(0 <= k, k <= c.v("candidates_to")[s].n))] + fixes(q, o.fix, c.g("FX"), lambda e: Or(q.t(e) < s, And(q.t(e) == s, sel(SC, e) < k)))


def _fixing_step(c):
    e = c.v("candidates_to")[c.v("s").t][c.head.index].t
    return {"FX": z3.Store(c.g("FX"), e, _out(c).fix.n - 1)}


def _walk(c):
    q, s, at, P, u = _sd(c), c.v("s").t, c.v("at").t, c.v("path"), c.v("u").t
    x, y = P[QX].t, P[QX + 1].t
    return [("the walk", And(nd(q.n, at), REACH(s, at), P.n >= 0)), ("where it starts", If(P.n == 0, at == u, And(q.t(P[0].t) == u, at == q.f(P[P.n - 1].t)))),
            ("arcs walked", ForAll([QX], Implies(nd(P.n, QX), And(q.base(x), DR(s, q.t(x)) == DR(s, q.f(x)) + q.d(x))), patterns=[x])),
            ("the walk is contiguous", ForAll([QX], Implies(And(0 <= QX, QX < P.n - 1), q.f(x) == q.t(y)), patterns=[x]))]


# ---- lemmas over the named graph
def _from_sources():
    return ForAll([QE], Implies(BASEQ(QE), NEEDQ(FROM(QE))), patterns=[BASEQ(QE)])


def _H():
    return And(*[f for _, f in rows(NEEDQ, BASEQ, FROM, TO, WD)], _from_sources())


triangle = Lemma("distances satisfy the triangle inequality", [Int, Int, Int],
                 lambda s, x, v: Implies(And(_H(), NEEDQ(s), NEEDQ(x), REACH(s, x), REACH(x, v)), And(REACH(s, v), DR(s, v) <= DR(s, x) + DR(x, v))),
                 hints=lambda s, x, v: [PE(x, v) == PE(x, v)], induction=(lambda s, x, v: DEP(x, v), lambda s, x, v: [(s, x, FROM(PE(x, v)))]))


def _tight():
    k = KEEP(FROM(QE), TO(QE))
    return ForAll([QE], Implies(And(BASEQ(QE), WD(QE) == DR(FROM(QE), TO(QE))), And(BASEQ(k), KEPTQ(k), FROM(k) == FROM(QE), TO(k) == TO(QE), WD(k) == WD(QE))), patterns=[BASEQ(QE)])


def _psi(sat):
    return ForAll([QE], Implies(sat(QE), PSI(FROM(QE)) - PSI(TO(QE)) <= WD(QE)), patterns=[BASEQ(QE)])


def _imp_hyps():
    return And(_H(), _tight(), _psi(lambda e: And(BASEQ(e), KEPTQ(e))))


ROWSH, PSIH = z3.Bools("rows_are_complete kept_arcs_hold")


implied = Lemma("the kept arcs imply every distance", [Int, Int],
                lambda s, v: Implies(And(_imp_hyps(), NEEDQ(s), REACH(s, v)), PSI(s) - PSI(v) <= DR(s, v)),
                hints=lambda s, v: [triangle(s, FROM(PE(s, v)), v), BASEQ(PE(s, v)) == BASEQ(PE(s, v)), REACH(FROM(PE(s, v)), FROM(PE(s, v))) == REACH(FROM(PE(s, v)), FROM(PE(s, v)))],
                induction=(lambda s, v: DEP(s, v), lambda s, v: [(s, FROM(PE(s, v)))]))


def sum0(w, P):
    return SUM(w, P, z3.IntVal(0)) == 0


def sumS(w, P, k):
    return Implies(k >= 0, SUM(w, P, k + 1) == SUM(w, P, k) + sel(w, sel(P, k)))


def _tele(F, T, w, P, s, k):
    x = sel(P, QX)
    return Implies(And(k > 0, ForAll([QX], Implies(nd(k, QX), DR(s, sel(T, x)) == DR(s, sel(F, x)) + sel(w, x)), patterns=[x]),
                       ForAll([QX], Implies(And(0 <= QX, QX < k - 1), sel(T, x) == sel(F, sel(P, QX + 1))), patterns=[x])),
                   SUM(w, P, k) == DR(s, sel(T, sel(P, k - 1))) - DR(s, sel(F, sel(P, z3.IntVal(0)))))


telescope = Lemma("path weights telescope", [AI, AI, AI, AI, Int, Int], _tele,
                  hints=lambda F, T, w, P, s, k: [sum0(w, P), sumS(w, P, k - 1), SUM(w, P, k - 1 + 1) == SUM(w, P, k), sel(P, k - 1) == sel(P, k - 1), sel(P, k - 2) == sel(P, k - 2)],
                  induction=(lambda F, T, w, P, s, k: k, lambda F, T, w, P, s, k: [(F, T, w, P, s, k - 1)]))
LEM_SIMPLIFY = [triangle, implied, telescope]


# ---- the contract
def _pre(c):
    q = _sda(c)
    return [("arcs join nodes", well_formed(q.n, q.E)), ("number of nodes", And(0 <= q.n, q.n < 1 << 59))]


def _arr(W_, *path):
    return W_.v.lv[path]


def _ens(c):
    q, r = _sda(c), c.r
    bnc, rem, fix = r.fld(0).t, r.remove, r.fix
    live = Not(bnc)
    e = fix[QI].at(0).t
    P = fix[QI].at(1)
    x, y = P[QX].t, P[QX + 1].t
    kept = And(q.base(QE), Not(rem[QE].t))
    psi = lambda cond: ForAll([QE], Implies(cond, PSI(q.f(QE)) - PSI(q.t(QE)) <= q.d(QE)))
    Wa = _arr(q.E, "[]", "d", "raw_value")
    infix = Exists([QI], And(nd(fix.n, QI), e == QE))
    g = lambda v: If(REACH(q.t(QE), v), If(HH(v) <= HH(q.f(QE)) + q.d(QE) + DR(q.t(QE), v), HH(v), HH(q.f(QE)) + q.d(QE) + DR(q.t(QE), v)), HH(v))
    k = QW
    return [("one decision per arc", rem.n == q.m),
            ("a refuted base graph has nothing removed or fixed", Implies(bnc, And(fix.n == 0, ForAll([QE], Implies(nd(q.m, QE), Not(rem[QE].t)))))),
            ("a base graph with shortest paths is not refuted", Implies(CERT, live)),
            ("a base graph that is not refuted has a potential", Implies(live, ForAll([QE], Implies(q.base(QE), HH(q.t(QE)) <= HH(q.f(QE)) + q.d(QE))))),
            ("ignored arcs are not removed", ForAll([QE], Implies(And(nd(q.m, QE), Not(q.live(QE))), Not(rem[QE].t)))),
            ("the kept base arcs imply every base arc and every removed candidate", Implies(And(live, psi(kept)), psi(Or(q.base(QE), And(q.cand(QE), rem[QE].t))))),
            ("a condition is fixed only on candidates that are not removed", ForAll([QI], Implies(nd(fix.n, QI), And(q.cand(e), Not(rem[e].t))))),
            ("no condition is fixed twice", ForAll([QI, QW], Implies(And(0 <= QI, QI < QW, QW < fix.n), e != fix[QW].at(0).t))),
            ("a fixed condition's path leads back along base arcs", ForAll([QI], Implies(nd(fix.n, QI), And(
                P.n >= 0, Implies(P.n == 0, q.f(e) == q.t(e)), Implies(P.n > 0, And(q.f(P[0].t) == q.t(e), q.t(P[P.n - 1].t) == q.f(e))),
                ForAll([QX], Implies(nd(P.n, QX), q.base(x)), patterns=[x]), ForAll([QX], Implies(And(0 <= QX, QX < P.n - 1), q.t(x) == q.f(y)), patterns=[x]))))),
            ("a fixed condition's cycle has negative weight", ForAll([QI], Implies(nd(fix.n, QI), q.d(e) + SUM(Wa, _arr(P, "[]"), P.n) < 0))),
            ("no solution of the base graph satisfies a fixed condition's arc", Implies(psi(q.base(QE)), ForAll([QI], Implies(nd(fix.n, QI), PSI(q.f(e)) - PSI(q.t(e)) > q.d(e))))),
            ("a candidate neither removed nor fixed can be added to the base graph", Implies(live, ForAll([QE], Implies(And(q.cand(QE), Not(rem[QE].t), Not(infix)), And(
                g(q.t(QE)) <= g(q.f(QE)) + q.d(QE), ForAll([QW], Implies(q.base(QW), g(q.t(QW)) <= g(q.f(QW)) + q.d(QW)))))))),
            ("a kept base arc attains the distance between its ends", Implies(live, ForAll([QE], Implies(kept, And(REACH(q.f(QE), q.t(QE)), q.d(QE) == DR(q.f(QE), q.t(QE))))))),
            ("a kept candidate is not implied by the base arcs", Implies(live, ForAll([QE], Implies(And(q.cand(QE), Not(rem[QE].t), REACH(q.f(QE), q.t(QE))), q.d(QE) < DR(q.f(QE), q.t(QE)))))),
            ("no kept base arc is implied strictly or twice", ForAll([QE, QW], Implies(And(live, kept, q.base(QW), Not(rem[QW].t), q.f(QE) == q.f(QW), q.t(QE) == q.t(QW)), QE == QW))),
            ]


def _exit(c):
    q, r = _sda(c), c.r
    rem, fix = r.remove, r.fix
    Fa, Ta, Wa = [_arr(q.E, "[]", *x) for x in (("from",), ("to",), ("d", "raw_value"))]
    P = fix[QI].at(1)
    s = q.t(fix[QI].at(0).t)
    names = And(FROM(QE) == q.f(QE), TO(QE) == q.t(QE), WD(QE) == q.d(QE), BASEQ(QE) == q.base(QE), KEPTQ(QE) == Not(rem[QE].t))
    Pa = _arr(P, "[]")
    return [ForAll([QE], names, patterns=[x]) for x in (BASEQ(QE), FROM(QE), TO(QE), WD(QE), KEPTQ(QE), q.roles[QE].t)] + [
        ROWSH == And(_H(), _tight()), PSIH == _psi(lambda e: And(BASEQ(e), KEPTQ(e))),
        # the lemma for all nodes, its hypotheses (which do not mention them) written as the names just defined
        ForAll([QV, QW], z3.substitute(implied(QV, QW), (_imp_hyps(), And(ROWSH, PSIH))), patterns=[DR(QV, QW)]),
        ForAll([QI], And(sum0(Wa, Pa), telescope(Fa, Ta, Wa, Pa, s, P.n)), patterns=[fix[QI].at(0).t])]


def _steps(c):
    q, r = _sda(c), c.r
    live, rem = Not(r.fld(0).t), r.remove
    psi = lambda cond: ForAll([QE], Implies(cond, PSI(q.f(QE)) - PSI(q.t(QE)) <= q.d(QE)))
    pieces = rows(NEEDQ, BASEQ, FROM, TO, WD) + [("arcs lead from sources", _from_sources()), ("a tight arc is kept for every tight arc", _tight())]
    live = And(live, q.n > 0, q.m > 0)   # without arcs, nothing was computed and nothing is to be shown
    return [("by name: " + nm, Implies(live, f)) for nm, f in pieces] + [("the rows of distances are complete", Implies(live, ROWSH)), ("the kept arcs hold, by name", Implies(And(live, psi(And(q.base(QE), Not(rem[QE].t)))), PSIH)),
            ("arcs lead from and to sources", Implies(live, ForAll([QE], Implies(And(q.live(QE)), And(NEEDQ(q.f(QE)), Implies(q.cand(QE), NEEDQ(q.t(QE)))))))),
        ("arcs base or removed are attained", Implies(live, ForAll([QE], Implies(Or(q.base(QE), And(q.cand(QE), rem[QE].t)), And(REACH(q.f(QE), q.t(QE)), q.d(QE) >= DR(q.f(QE), q.t(QE))))))),
        ("distances are implied", Implies(And(live, PSIH), ForAll([QE], Implies(Or(q.base(QE), And(q.cand(QE), rem[QE].t)), PSI(q.f(QE)) - PSI(q.t(QE)) <= q.d(QE)))))]


count_cycles = Contract("count_zero_weight_cycles", name="count_zero_weight_cycles", modifies=[2, 3],
                        trusted="the counts of zero-weight cycles are compared by the bounded falsifier only",
                        requires=lambda c: [("targets are nodes", zero_ok(c.a(0).t, c.a(1)))])
UNEXP = "gcs::UnexpectedException"
_dec = lambda f: f
simplify = Contract(D_ + "simplify_difference_graph", name="simplify_difference_graph",
                    requires=_pre, ensures=_ens, facts=lambda c: _cert(_sda(c)), exit_facts=_exit, steps=_steps,
                    throws=lambda c: {OVF: ("may", z3.BoolVal(True)), UNEXP: c.a(2).n != c.a(1).n},
                    loops=[LoopContract("list the base arcs", _l0, decreases=lambda c: _sd(c).m - c.v("e").t, ghost=lambda c: {"BS": K0}, ghost_step=lambda c: {"BS": z3.Store(c.g("BS"), c.head.v("e").t, c.v("base").n - 1)}),
                           LoopContract("rounds", _bf_outer, decreases=lambda c: c.p(0).t + 1 - c.v("round").t, exit_facts=_hh),
                           LoopContract("relax every base arc", _bf_inner, decreases=lambda c: c.v("base").n - c.index),
                           LoopContract("reduced weights", _l3, decreases=lambda c: c.v("base").n - c.index, ghost=lambda c: {"SL": K0}, ghost_step=_l3_step),
                           LoopContract("lists per node", _l4, decreases=lambda c: _sd(c).m - c.v("e").t, ghost=lambda c: {"SF": K0, "SC": K0}, ghost_step=_l4_step),
                           LoopContract("zero arcs", _l5, decreases=lambda c: c.v("base").n - c.index),
                           LoopContract("sources", _main, exit_facts=_needs, decreases=lambda c: c.p(0).t - c.v("s").t, ghost=lambda c: {"FX": K0, "TP": K0}),
                           LoopContract("clear the scratch space", _reset, decreases=lambda c: c.v("touched").n - c.index),
                           LoopContract("settle nodes in order", _dj, decreases=lambda c: (CNT(c.g("T"), z3.IntVal(0), c.p(0).t), c.v("queue").n), exit_facts=_dj_exit,
                                        ghost=lambda c: {"T": K0, "clock": z3.IntVal(1), "TP": z3.Store(c.g("TP"), c.v("s").t, c.v("touched").n - 1)}, facts=lambda c: _cnt_facts(c) + _marks(c)),
                           LoopContract("arcs out of a settled node", _dj_relax, decreases=lambda c: c.v("out")[c.v("v").t].n - c.index,
                                        ghost=lambda c: {"T": z3.Store(c.g("T"), c.v("v").t, c.g("clock")), "clock": c.g("clock") + 1}, ghost_step=_relax_step, facts=lambda c: _marks(c)),
                           LoopContract("redundant arcs", _decide, decreases=lambda c: c.v("edges_from")[c.v("s").t].n - c.index, ghost=lambda c: {"KP": K0}, ghost_step=_decide_step, exit_facts=_decide_exit),
                           LoopContract("conditions to fix", _fixing, decreases=lambda c: c.v("candidates_to")[c.v("s").t].n - c.index, ghost_step=_fixing_step),
                           LoopContract("walk back along the path", _walk, decreases=lambda c: DEP(c.v("s").t, c.v("at").t))])


def _cnt_facts(c):
    A, n = c.g("T"), c.p(0).t
    h, x = z3.Ints("h!c x!c")
    return [ForAll([h, x], cnt_store(A, h, x, n), patterns=[CNT(z3.Store(A, h, x), z3.IntVal(0), n)]), cnt_mono(A, z3.IntVal(0), z3.IntVal(0), n), cnt0(A, z3.IntVal(0))]


def _marks(c):
    n = c.v("queue").n
    return [ForAll([QI], MARK(QI), patterns=[MARK(QI)]), MARK(n), MARK(n - 1), MARK(z3.IntVal(0))]
