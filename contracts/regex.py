"""Contracts of the regular expression compiler: syntax trees, the reader, and
the reference matcher, against one language semantics for an arbitrary sequence."""
from contracts.common import *
from cv.types import STR, Val, Unsupported, sub, fresh_name

NODE = "CoreNode"
B = z3.DeclareSort("Box_CoreNode")
R = z3.DeclareSort("Language")                     # a set of segments of the sequence
IN = z3.Function("matches", R, Int, Int, Bool)     # the segment [i, j)
REP = z3.Function("repeated", R, Int, Int, Int, Bool)   # n copies one after the other
KR = z3.Function("repeated_cut", R, Int, Int, Int, Int)
ATL = z3.Function("repeated_at_least", R, Int, Int, Int, Bool)
NAT = z3.Function("repeated_at_least_count", R, Int, Int, Int, Int)
BTW = z3.Function("repeated_between", R, Int, Int, Int, Int, Bool)
NBT = z3.Function("repeated_between_count", R, Int, Int, Int, Int, Int)
LANG = z3.Function("language_of_node", B, R)
HT = z3.Function("height", B, Int)
WF = z3.Function("well_formed", B, Bool)
KC = z3.Function("concat_cut", B, Int, Int, Int)
SEQ, SEQN = z3.Const("sequence", z3.ArraySort(Int, Int)), z3.Int("sequence_length")   # arbitrary, fixed
_i, _j, _k, _n, _m = z3.Ints("i!r j!r k!r n!r m!r")


def same(r, s):
    return ForAll([_i, _j], IN(r, _i, _j) == IN(s, _i, _j), patterns=[IN(r, _i, _j), IN(s, _i, _j)])


def rep0(r):
    return ForAll([_i, _j], REP(r, 0, _i, _j) == (_i == _j), patterns=[REP(r, 0, _i, _j)])


def rep_step(r, n):
    """n + 1 copies are n copies and one more"""
    return And(ForAll([_i, _j], Implies(REP(r, n + 1, _i, _j), And(REP(r, n, _i, KR(r, n, _i, _j)), IN(r, KR(r, n, _i, _j), _j))), patterns=[REP(r, n + 1, _i, _j)]),
               ForAll([_i, _k, _j], Implies(And(REP(r, n, _i, _k), IN(r, _k, _j)), REP(r, n + 1, _i, _j)), patterns=[z3.MultiPattern(REP(r, n, _i, _k), IN(r, _k, _j))]))


def atl_def(r):
    return And(ForAll([_m, _n, _i, _j], Implies(And(0 <= _m, _m <= _n, REP(r, _n, _i, _j)), ATL(r, _m, _i, _j)), patterns=[z3.MultiPattern(REP(r, _n, _i, _j), ATL(r, _m, _i, _j))]),
               ForAll([_m, _i, _j], Implies(ATL(r, _m, _i, _j), And(NAT(r, _m, _i, _j) >= _m, NAT(r, _m, _i, _j) >= 0, REP(r, NAT(r, _m, _i, _j), _i, _j))), patterns=[ATL(r, _m, _i, _j)]))


def btw_def(r):
    N = NBT(r, _m, _k, _i, _j)
    return And(ForAll([_m, _k, _n, _i, _j], Implies(And(_m <= _n, _n <= _k, 0 <= _n, REP(r, _n, _i, _j)), BTW(r, _m, _k, _i, _j)), patterns=[z3.MultiPattern(REP(r, _n, _i, _j), BTW(r, _m, _k, _i, _j))]),
               ForAll([_m, _k, _i, _j], Implies(BTW(r, _m, _k, _i, _j), And(_m <= N, N <= _k, 0 <= N, REP(r, N, _i, _j))), patterns=[BTW(r, _m, _k, _i, _j)]))


ind = lambda at: (lambda *a: a[at], lambda *a: [a[:at] + (a[at] - 1,) + a[at + 1:]])

cong = Lemma("rep_congruence", [R, R, Int], lambda r, s, n: Implies(And(same(r, s), n >= 0), ForAll([_i, _j], REP(r, n, _i, _j) == REP(s, n, _i, _j), patterns=[REP(r, n, _i, _j), REP(s, n, _i, _j)])),
             hints=lambda r, s, n: [rep0(r), rep0(s), rep_step(r, n - 1), rep_step(s, n - 1)], induction=ind(2))
rep_add = Lemma("rep_add", [R, Int, Int], lambda r, n, m: Implies(And(n >= 0, m >= 0), And(
    ForAll([_i, _k, _j], Implies(And(REP(r, n, _i, _k), REP(r, m, _k, _j)), REP(r, n + m, _i, _j)), patterns=[z3.MultiPattern(REP(r, n, _i, _k), REP(r, m, _k, _j))]))),
    hints=lambda r, n, m: [rep0(r), rep_step(r, m - 1), rep_step(r, n + m - 1)], induction=ind(2))
CUT = z3.Function("repeated_split", R, Int, Int, Int, Int, Int)
rep_split = Lemma("rep_split", [R, Int, Int, Int, Int], lambda r, n, m, i, j: Implies(And(n >= 0, m >= 0, REP(r, n + m, i, j)), Exists([_k], And(REP(r, n, i, _k), REP(r, m, _k, j)))),
                  hints=lambda r, n, m, i, j: [rep0(r), rep_step(r, m - 1), rep_step(r, n + m - 1)],
                  induction=(lambda r, n, m, i, j: m, lambda r, n, m, i, j: [(r, n, m - 1, i, KR(r, n + m - 1, i, j))]))
A = z3.ArraySort(Int, Bool)
closed_rep = Lemma("closed_set_holds_repetitions", [A, R, Int], lambda a, r, n: Implies(And(n >= 0, ForAll([_k, _j], Implies(And(a[_k], IN(r, _k, _j)), a[_j]), patterns=[IN(r, _k, _j)])),
                   ForAll([_i, _j], Implies(And(a[_i], REP(r, n, _i, _j)), a[_j]), patterns=[REP(r, n, _i, _j)])),
                   hints=lambda a, r, n: [rep0(r), rep_step(r, n - 1)], induction=ind(2))
# how many positions up to m are missing from a set
NM = z3.Function("missing", A, Int, Int)


def nm_def(a, m):
    return NM(a, m) == If(m < 0, 0, NM(a, m - 1) + If(a[m], 0, 1))


nm_insert = Lemma("missing_after_insertion", [A, Int, Int], lambda a, k, m: Implies(And(Not(a[k]), k >= 0, m >= -1), NM(z3.Store(a, k, True), m) == NM(a, m) - If(k <= m, 1, 0)),
                  hints=lambda a, k, m: [nm_def(a, m), nm_def(z3.Store(a, k, True), m)], induction=(lambda a, k, m: m + 1, lambda a, k, m: [(a, k, m - 1)]))
nm_pos = Lemma("missing_not_negative", [A, Int], lambda a, m: Implies(m >= -1, NM(a, m) >= 0), hints=lambda a, m: [nm_def(a, m)], induction=(lambda a, m: m + 1, lambda a, m: [(a, m - 1)]))
REGEX_LEMMAS = [cong, rep_add, rep_split, closed_rep, nm_insert, nm_pos]


def at_point(lemma, args, n_args, pats):
    """a lemma for all values of its last n integers"""
    vs = [z3.Int("v!%d" % k) for k in range(n_args)]
    return ForAll(vs, lemma(*args, *vs), patterns=pats(*vs))


class Th:
    """what a node means, over the layout the node type currently has"""

    def __init__(self, en):
        self.en = en
        self.ty = Ty("rec", en.types.find(NODE) or NODE)
        if en.types.boxsort(self.ty) != B:
            raise Unsupported("the syntax tree has another type")
        n = en.tu.enums[en.types.find("Core") or "Core"]
        self.op = {c["name"]: en.enum_value(c) for c in n["inner"] if c.get("kind") == "EnumConstantDecl"}

    def w(self, b):
        return W(Val(self.ty, {(): b}), self.en)

    def kids(self, b):
        return self.w(b).children

    def c(self, b, i):
        return self.kids(b)[i].v.lv[("*",)]

    def wf(self, b):
        w = self.w(b)
        ch = w.children
        o = self.op
        bin_ = Or(w.op.t == o["Concat"], w.op.t == o["Union"])
        return And(WF(b) == And(ch.n == If(bin_, 2, If(w.op.t == o["Star"], 1, 0)), ForAll([_i], Implies(And(0 <= _i, _i < ch.n), And(ch[_i].v.lv[("?",)], WF(self.c(b, _i)))), patterns=[self.c(b, _i)])),
                   HT(b) >= 0, ForAll([_i], Implies(And(0 <= _i, _i < ch.n, ch[_i].v.lv[("?",)]), And(HT(self.c(b, _i)) >= 0, HT(self.c(b, _i)) < HT(b))), patterns=[self.c(b, _i)]))

    def mean(self, b):
        w = self.w(b)
        o = self.op
        L = LANG(b)
        x, y = LANG(self.c(b, 0)), LANG(self.c(b, 1))
        K = KC(b, _i, _j)
        case = lambda nm, f: Implies(w.op.t == o[nm], f)
        return And(case("Empty", ForAll([_i, _j], IN(L, _i, _j) == (_i == _j), patterns=[IN(L, _i, _j)])),
                   case("Symbols", ForAll([_i, _j], IN(L, _i, _j) == And(0 <= _i, _i < SEQN, _j == _i + 1, w.symbols.mem(SEQ[_i])), patterns=[IN(L, _i, _j)])),
                   case("Concat", And(ForAll([_i, _j], Implies(IN(L, _i, _j), And(IN(x, _i, K), IN(y, K, _j))), patterns=[IN(L, _i, _j)]),
                                      ForAll([_i, _k, _j], Implies(And(IN(x, _i, _k), IN(y, _k, _j)), IN(L, _i, _j)), patterns=[z3.MultiPattern(IN(x, _i, _k), IN(y, _k, _j))]))),
                   case("Union", ForAll([_i, _j], IN(L, _i, _j) == Or(IN(x, _i, _j), IN(y, _i, _j)), patterns=[IN(L, _i, _j), IN(x, _i, _j), IN(y, _i, _j)])),
                   case("Star", ForAll([_i, _j], IN(L, _i, _j) == ATL(x, 0, _i, _j), patterns=[IN(L, _i, _j), ATL(x, 0, _i, _j)])))

    def defs(self, b):
        return [self.wf(b), self.mean(b)]

    def deep(self, b):
        return self.defs(b) + [atl_def(LANG(self.c(b, 0)))]


def th(en):
    if not hasattr(en, "_regex_th"):
        en._regex_th = Th(en)
    return en._regex_th


def pt(w):
    """the node a (non-null) pointer owns"""
    return w.v.lv[("*",)]


def nn(w):
    return w.v.lv[("?",)]


def ok(w):
    return And(nn(w), WF(pt(w)))


def result_ok(c):
    return ("a well-formed tree", ok(c.r))


def _mk_ens(op, same_syms=False):
    def f(c):
        t = th(c.en)
        w = t.w(pt(c.r))
        return [("result", nn(c.r)), ("kind", w.op.t == t.op[op]), ("no children", w.children.n == 0)]
    return f


def lang_clause(c, name, f):
    L = LANG(pt(c.r))
    return (name, ForAll([_i, _j], IN(L, _i, _j) == f(_i, _j), patterns=[IN(L, _i, _j)]))


make_empty = Contract("make_empty", ensures=lambda c: [result_ok(c), lang_clause(c, "matches the empty word", lambda i, j: i == j)], exit_facts=lambda c: th(c.en).defs(pt(c.r)))
make_symbols = Contract("make_symbols", ensures=lambda c: [result_ok(c), lang_clause(c, "matches one value of the set", lambda i, j: And(0 <= i, i < SEQN, j == i + 1, c.a(0).mem(SEQ[i])))],
                        exit_facts=lambda c: th(c.en).defs(pt(c.r)))


def concat_clauses(c, x, y):
    L = LANG(pt(c.r))
    K = KC(pt(c.r), _i, _j)
    return [("matches only one after the other", ForAll([_i, _j], Implies(IN(L, _i, _j), And(IN(x, _i, K), IN(y, K, _j))), patterns=[IN(L, _i, _j)])),
            ("matches every one after the other", ForAll([_i, _k, _j], Implies(And(IN(x, _i, _k), IN(y, _k, _j)), IN(L, _i, _j)), patterns=[z3.MultiPattern(IN(x, _i, _k), IN(y, _k, _j))]))]


def union_clause(c, x, y):
    L = LANG(pt(c.r))
    return [("matches either", ForAll([_i, _j], IN(L, _i, _j) == Or(IN(x, _i, _j), IN(y, _i, _j)), patterns=[IN(L, _i, _j), IN(x, _i, _j), IN(y, _i, _j)]))]


def lang(w):
    return LANG(pt(w))


def _bin_ens(c):
    t = th(c.en)
    w = t.w(pt(c.r))
    return [("a tree", nn(c.r)), ("of the kind asked for", w.op.t == c.a(0).t), ("two children", w.children.n == 2), ("the first", And(w.children[0].has, t.c(pt(c.r), 0) == pt(c.a(1)))),
            ("the second", And(w.children[1].has, t.c(pt(c.r), 1) == pt(c.a(2))))]


make_binary = Contract("make_binary", requires=lambda c: [("children", And(nn(c.a(1)), nn(c.a(2))))], ensures=_bin_ens)
_two = lambda c: [("children", And(ok(c.a(0)), ok(c.a(1))))]
make_concat = Contract("make_concat", requires=_two, ensures=lambda c: [result_ok(c)] + concat_clauses(c, lang(c.a(0)), lang(c.a(1))), exit_facts=lambda c: th(c.en).defs(pt(c.r)))
make_union = Contract("make_union", requires=_two, ensures=lambda c: [result_ok(c)] + union_clause(c, lang(c.a(0)), lang(c.a(1))), exit_facts=lambda c: th(c.en).defs(pt(c.r)))
make_star = Contract("make_star", requires=lambda c: [("child", ok(c.a(0)))], ensures=lambda c: [result_ok(c), 
                     ("matches any number of repetitions", ForAll([_i, _j], IN(lang(c.r), _i, _j) == ATL(lang(c.a(0)), 0, _i, _j), patterns=[IN(lang(c.r), _i, _j), ATL(lang(c.a(0)), 0, _i, _j)]))],
                     exit_facts=lambda c: th(c.en).defs(pt(c.r)))


# ---- copies and repetitions
atl_cong = Lemma("at_least_congruence", [R, R, Int, Int, Int], lambda r, s, m, i, j: Implies(And(m >= 0, same(r, s)), ATL(r, m, i, j) == ATL(s, m, i, j)),
                 hints=lambda r, s, m, i, j: [atl_def(r), atl_def(s), cong(r, s, NAT(r, m, i, j)), cong(r, s, NAT(s, m, i, j))])
REGEX_LEMMAS.append(atl_cong)


# n to k + 1 repetitions are n to k, or n to k and one more
btw_less = Lemma("between_one_less", [R, Int, Int, Int, Int], lambda r, m, k, i, j: Implies(And(0 <= m, m <= k, BTW(r, m, k + 1, i, j)), Or(BTW(r, m, k, i, j), And(BTW(r, m, k, i, KR(r, k, i, j)), IN(r, KR(r, k, i, j), j)))),
                 hints=lambda r, m, k, i, j: [btw_def(r), rep_step(r, k)])
btw_more = Lemma("between_one_more", [R, Int, Int, Int, Int, Int], lambda r, m, k, i, q, j: Implies(And(0 <= m, m <= k, BTW(r, m, k, i, q)), And(BTW(r, m, k + 1, i, q), Implies(IN(r, q, j), BTW(r, m, k + 1, i, j)))),
                 hints=lambda r, m, k, i, q, j: [btw_def(r), rep_step(r, NBT(r, m, k, i, q))])
btw_one = Lemma("between_one_count", [R, Int, Int, Int], lambda r, m, i, j: Implies(0 <= m, BTW(r, m, m, i, j) == REP(r, m, i, j)), hints=lambda r, m, i, j: [btw_def(r)])
REGEX_LEMMAS += [btw_less, btw_more, btw_one]


def cong_facts(r, s):
    return [at_point(atl_cong, [r, s], 3, lambda m, i, j: [ATL(r, m, i, j), ATL(s, m, i, j)])]


def cong_any(r):
    s = z3.Const("s!cong", R)
    atl_cong(s, r, _m, _i, _j)
    return ForAll([s, _m, _i, _j], Implies(And(_m >= 0, same(s, r)), ATL(s, _m, _i, _j) == ATL(r, _m, _i, _j)), patterns=[ATL(s, _m, _i, _j)])


def cong_nodes(r):
    """the same, for the languages of the nodes at hand"""
    b = z3.Const("b!cong", B)
    atl_cong(LANG(b), r, _m, _i, _j)
    return ForAll([b, _m, _i, _j], Implies(And(_m >= 0, same(LANG(b), r)), ATL(LANG(b), _m, _i, _j) == ATL(r, _m, _i, _j)), patterns=[z3.MultiPattern(ATL(r, _m, _i, _j), WF(b))])


def _clone_exit(c):
    t = th(c.en)
    a, r = c.a(0).t, pt(c.r)
    out = t.defs(r)
    for k in (0, 1):
        out += cong_facts(LANG(t.c(a, k)), LANG(t.c(r, k)))
    return out


def _clone_inv(c):
    t = th(c.en)
    a, w = c.p(0).t, c.v("c")
    b = t.w(pt(w))
    A0 = t.w(a)
    i = c.index
    return [("a tree", nn(w)), ("kind", b.op.t == A0.op.t), ("symbols", And([x == y for x, y in zip(b.symbols.v.lv.values(), A0.symbols.v.lv.values())])), ("children so far", And(i <= A0.children.n, b.children.n == i)),
            ("each a copy", ForAll([_k], Implies(And(0 <= _k, _k < i), And(b.children[_k].has, WF(t.c(pt(w), _k)), same(LANG(t.c(pt(w), _k)), LANG(t.c(a, _k))))), patterns=[t.c(pt(w), _k), t.c(a, _k)]))]


clone = Contract("clone", requires=lambda c: [("a well-formed tree", WF(c.a(0).t))], ensures=lambda c: [result_ok(c), ("the same language", same(LANG(pt(c.r)), LANG(c.a(0).t)))],
                 facts=lambda c: th(c.en).defs(c.a(0).t), exit_facts=_clone_exit, decreases=lambda c: HT(c.a(0).t), loops=[LoopContract("children", _clone_inv)])

_atom = lambda c: [("a well-formed tree", WF(c.a(0).t))]


def rep_clause(c, r, n):
    return lang_clause(c, "that many repetitions", lambda i, j: REP(r, n, i, j))


repeat_exact = Contract("repeat_exact", requires=_atom, ensures=lambda c: [result_ok(c), rep_clause(c, LANG(c.a(0).t), If(c.a(1).t <= 0, 0, c.a(1).t))],
                        facts=lambda c: [rep0(LANG(c.a(0).t)), rep_step(LANG(c.a(0).t), z3.IntVal(0))],
                        loops=[LoopContract("copies", lambda c: [("count", And(1 <= c.v("i").t, c.v("i").t <= c.p(1).t)), ("a tree", ok(c.v("result"))),
                                                                 ("repetitions so far", ForAll([_i, _j], IN(lang(c.v("result")), _i, _j) == REP(LANG(c.p(0).t), c.v("i").t, _i, _j), patterns=[IN(lang(c.v("result")), _i, _j), REP(LANG(c.p(0).t), c.v("i").t, _i, _j)]))],
                                            decreases=lambda c: c.p(1).t - c.v("i").t, step_facts=lambda c: [rep_step(LANG(c.p(0).t), c.head.v("i").t)])])


def _at_least_ens(c):
    r, n = LANG(c.a(0).t), c.a(1).t
    L = LANG(pt(c.r))

    def lem(i, j):
        K = KC(pt(c.r), i, j)
        m = NAT(r, n, i, j)
        return [atl_def(r), rep_add(r, n, NAT(r, 0, K, j)), rep_split(r, n, m - n, i, j)]
    return [result_ok(c), ("at least that many repetitions", forall(c, 2, lambda i, j: IN(L, i, j) == ATL(r, n, i, j), lem))]


repeat_at_least = Contract("repeat_at_least", requires=lambda c: _atom(c) + [("a count", c.a(1).t >= 0)], ensures=_at_least_ens, exit_facts=lambda c: [cong_any(LANG(c.a(0).t))])


def _btw_inv(c):
    r, n, i = LANG(c.p(0).t), c.p(1).t, c.v("i").t
    w = c.v("result")
    L = lang(w)
    return [("count", And(n <= i, i <= c.p(2).t)), ("a tree", ok(w)), ("repetitions so far", ForAll([_i, _j], IN(L, _i, _j) == BTW(r, n, i, _i, _j), patterns=[IN(L, _i, _j), BTW(r, n, i, _i, _j)]))]


def _btw_facts(c):
    r, n, k = LANG(c.p(0).t), c.p(1).t, c.head.v("i").t
    btw_less(r, n, k, _i, _j)
    btw_more(r, n, k, _i, _k, _j)
    return [ForAll([_i, _j], btw_less(r, n, k, _i, _j), patterns=[BTW(r, n, k + 1, _i, _j)]),
            ForAll([_i, _k, _j], btw_more(r, n, k, _i, _k, _j), patterns=[z3.MultiPattern(BTW(r, n, k, _i, _k), IN(r, _k, _j))]),
            ForAll([_i, _j], btw_more(r, n, k, _i, _j, _j), patterns=[BTW(r, n, k, _i, _j)])]


repeat_between = Contract("repeat_between", requires=lambda c: _atom(c) + [("counts", And(c.a(1).t >= 0, c.a(1).t <= c.a(2).t))],
                          ensures=lambda c: [result_ok(c), lang_clause(c, "between so many and so many repetitions", lambda i, j: BTW(LANG(c.a(0).t), c.a(1).t, c.a(2).t, i, j))],
                          facts=lambda c: [ForAll([_i, _j], btw_one(LANG(c.a(0).t), c.a(1).t, _i, _j), patterns=[BTW(LANG(c.a(0).t), c.a(1).t, c.a(1).t, _i, _j)])],
                          loops=[LoopContract("optional copies", _btw_inv, decreases=lambda c: c.p(2).t - c.v("i").t, step_facts=_btw_facts)])
TREES = [make_empty, make_symbols, make_binary, make_concat, make_union, make_star, clone, repeat_exact, repeat_at_least, repeat_between]


# ---- the reference matcher
def _me_req(c):
    return [("a well-formed tree", WF(c.a(0).t)), ("the sequence", And(c.a(1).n == SEQN, ForAll([_i], Implies(And(0 <= _i, _i < SEQN), c.a(1)[_i].t == SEQ[_i])))), ("within the sequence", And(0 <= c.a(2).t, c.a(2).t <= SEQN))]


def _me_ens(c):
    L, s, r = LANG(c.a(0).t), c.a(2).t, c.r
    return [("every end is there", ForAll([_j], Implies(IN(L, s, _j), r.mem(_j)), patterns=[IN(L, s, _j)])),
            ("nothing else is", ForAll([_j], Implies(r.mem(_j), And(IN(L, s, _j), s <= _j, _j <= SEQN)), patterns=[r.mem(_j)]))]


def _me_facts(c):
    t = th(c.en)
    b, s = c.a(0).t, c.a(2).t
    r = LANG(t.c(b, 0))
    return t.deep(b) + [rep0(r), star_refl_all(r), star_step_all(r)]


star_refl = Lemma("star_empty", [R, Int], lambda r, i: ATL(r, 0, i, i), hints=lambda r, i: [rep0(r), atl_def(r), REP(r, 0, i, i)])
star_step = Lemma("star_one_more", [R, Int, Int, Int], lambda r, i, k, j: Implies(And(ATL(r, 0, i, k), IN(r, k, j)), ATL(r, 0, i, j)), hints=lambda r, i, k, j: [atl_def(r), rep_step(r, NAT(r, 0, i, k))])
REGEX_LEMMAS += [star_refl, star_step]
closed_star = Lemma("closed_set_holds_star", [A, R, Int, Int], lambda a, r, i, j: Implies(And(a[i], ForAll([_k, _n], Implies(And(a[_k], IN(r, _k, _n)), a[_n]), patterns=[IN(r, _k, _n)]), ATL(r, 0, i, j)), a[j]),
                    hints=lambda a, r, i, j: [atl_def(r), closed_rep(a, r, NAT(r, 0, i, j))])
REGEX_LEMMAS += [closed_star]


def star_refl_all(r):
    star_refl(r, _i)
    return ForAll([_i], ATL(r, 0, _i, _i), patterns=[ATL(r, 0, _i, _i)])


def star_step_all(r):
    return ForAll([_i, _k, _j], star_step(r, _i, _k, _j), patterns=[z3.MultiPattern(ATL(r, 0, _i, _k), IN(r, _k, _j))])


def ins(w):
    return w.v.lv[("in",)]


def _sub(a, b):
    return ForAll([_j], Implies(a[_j], b[_j]), patterns=[a[_j]])


def _sound(c):
    L, s = LANG(c.p(0).t), c.p(2).t
    e = ins(c.v("ends"))
    return ("only ends", ForAll([_j], Implies(e[_j], And(IN(L, s, _j), s <= _j, _j <= SEQN)), patterns=[e[_j]]))


def _cat_outer(c):
    t = th(c.en)
    y = LANG(t.c(c.p(0).t, 1))
    m = c.rng(0)
    e = ins(c.v("ends"))
    return [("index", And(0 <= c.index, c.index <= m.n)), _sound(c), ("ends after the first parts so far", ForAll([_k, _j], Implies(And(0 <= _k, _k < c.index, IN(y, m[_k].t, _j)), e[_j]), patterns=[z3.MultiPattern(m[_k].t, IN(y, m[_k].t, _j))]))]


def _copy_inner(k):
    def f(c):
        m = c.rng(k)
        e = ins(c.v("ends"))
        return [("index", And(0 <= c.index, c.index <= m.n)), _sound(c), ("nothing is lost", _sub(ins(c.e("ends")), e)), ("copied so far", ForAll([_k], Implies(And(0 <= _k, _k < c.index), e[m[_k].t]), patterns=[m[_k].t]))]
    return f


def _star_parts(c):
    t = th(c.en)
    x = LANG(t.c(c.p(0).t, 0))
    return x, ins(c.v("reachable")), c.v("stack"), c.p(2).t


def _pending(st, i):
    return Exists([_n], And(0 <= _n, _n < st.n, st[_n].t == i))


def _star_common(c):
    x, re, st, s = _star_parts(c)
    return [("only ends", ForAll([_j], Implies(re[_j], And(ATL(x, 0, s, _j), s <= _j, _j <= SEQN)), patterns=[re[_j]])), ("start", re[s]),
            ("pending ones are reachable", ForAll([_k], Implies(And(0 <= _k, _k < st.n), re[st[_k].t]), patterns=[st[_k].t])),
            ]


def _star_inv(c):
    x, re, st, s = _star_parts(c)
    return _star_common(c) + [("others are closed", ForAll([_k, _j], Implies(And(re[_k], IN(x, _k, _j)), Or(re[_j], _pending(st, _k))), patterns=[IN(x, _k, _j)]))]


def _star_inner(c):
    x, re, st, s = _star_parts(c)
    e, h = c.e("stack"), c.v("i").t
    m = c.rng(4)
    return [("index", And(0 <= c.index, c.index <= m.n))] + _star_common(c) + [
        ("others are closed", ForAll([_k, _j], Implies(And(re[_k], IN(x, _k, _j)), Or(re[_j], _k == h, _pending(st, _k))), patterns=[IN(x, _k, _j)])),
        ("reached so far", ForAll([_k], Implies(And(0 <= _k, _k < c.index), re[m[_k].t]), patterns=[m[_k].t])),
        ("measure", NM(re, SEQN) + st.n <= NM(ins(c.e("reachable")), SEQN) + e.n)]


def _star_facts(c):
    x, re, st, s = _star_parts(c)
    return [nm_pos(re, SEQN)]


def _star_inner_facts(c):
    re = ins(c.head.v("reachable"))
    return [nm_insert(re, c.rng(4)[c.head.index].t, SEQN)]


def _star_exit(c):
    x, re, st, s = _star_parts(c)
    return [ForAll([_j], closed_star(re, x, s, _j), patterns=[ATL(x, 0, s, _j)])]


match_ends = Contract("match_ends", requires=_me_req, ensures=_me_ens, facts=_me_facts, decreases=lambda c: HT(c.a(0).t),
                      loops=[LoopContract("first parts", _cat_outer), LoopContract("second parts", _copy_inner(1)), LoopContract("second choice", _copy_inner(2)),
                             LoopContract("repetitions", _star_inv, decreases=lambda c: NM(ins(c.v("reachable")), SEQN) + c.v("stack").n, facts=_star_facts, exit_facts=_star_exit),
                             LoopContract("one repetition more", _star_inner, step_facts=_star_inner_facts)])
MATCH = [match_ends]
