"""Contracts of the interval tree (a treap augmented with interval ends)."""
from contracts.common import *
from cv.types import Val, sub, fresh_name
from cv.engine import VPtr, LV, VNull
from cv.contracts import W

NODE = "gcs::innards::IntervalTree::Node"


class Theory:
    """the tree as a mathematical object, over the layout the current Node has"""

    def __init__(self, en):
        self.en = en
        self.nty = Ty("rec", en.types.find(NODE) or NODE)
        self.srt, self.paths = en.types.datatype(self.nty)
        S = self.srt
        self.MEM = z3.Function("holds_interval", S, Int, Int, Bool)
        self.ORD = z3.Function("search_tree_order", S, Bool)
        self.BND = z3.Function("end_bounds_hold", S, Bool)
        self.nil = S.nil

    def is_node(self, t):
        return Not(t == self.srt.nil)

    def f(self, t, name):
        for i, p in enumerate(self.paths):
            if p[0] == name:
                return self.srt.accessor(1, i)(t)
        from cv.types import Unsupported
        raise Unsupported("tree node has no member " + name)

    def lt(self, a, b, c, d):
        return Or(a < c, And(a == c, b < d))

    def unfold(self, t):
        """definitions of membership, order and bounds at the root t"""
        l, h = z3.Ints("l!m h!m")
        f = lambda n: self.f(t, n)
        M = self.MEM
        L, R = f("left"), f("right")
        node = self.is_node(t)
        return And(ForAll([l, h], M(t, l, h) == And(node, Or(And(l == f("lo"), h == f("hi")), M(L, l, h), M(R, l, h))), patterns=[M(t, l, h)]),
                   self.ORD(t) == Or(Not(node), And(self.ORD(L), self.ORD(R), ForAll([l, h], Implies(M(L, l, h), self.lt(l, h, f("lo"), f("hi"))), patterns=[M(L, l, h)]),
                                                    ForAll([l, h], Implies(M(R, l, h), self.lt(f("lo"), f("hi"), l, h)), patterns=[M(R, l, h)]))),
                   self.BND(t) == Or(Not(node), And(self.BND(L), self.BND(R), self.own(t))))

    def own(self, t):
        l, h = z3.Ints("l!b h!b")
        return ForAll([l, h], Implies(self.MEM(t, l, h), And(self.f(t, "min_hi") <= h, h <= self.f(t, "max_hi"))), patterns=[self.MEM(t, l, h)])

    def same(self, t, u, extra=None):
        l, h = z3.Ints("l!s h!s")
        b = self.MEM(u, l, h)
        if extra is not None:
            b = Or(b, extra(l, h))
        return ForAll([l, h], self.MEM(t, l, h) == b, patterns=[self.MEM(t, l, h)])


def th(en):
    if not hasattr(en, "_tree_theory"):
        en._tree_theory = Theory(en)
    return en._tree_theory


def tree(c, v):
    """the tree a pointer or a smart pointer holds"""
    T = th(c.en)
    if isinstance(v, W):
        v = v.v
    if isinstance(v, VPtr):
        if v.lv is None:
            return T.nil
        v = c.en.read(c.st, v.lv)
    if isinstance(v, VNull):
        return T.nil
    if v.ty.k == "uptr":
        t = v.t
    else:
        t = T.srt.constructor(1)(*[v.lv[p] for p in T.paths])
    if _has_ite(t):
        # give it a name, so that it can occur in quantifier patterns
        names = getattr(c.en, "_tree_names", None)
        if names is None:
            names = c.en._tree_names = {}
        if t.get_id() not in names:
            names[t.get_id()] = (z3.Const(fresh_name("tree"), T.srt), t)
        n = names[t.get_id()][0]
        c.st.assume(n == t)
        return n
    return t


def _has_ite(t):
    todo, seen_ = [t], set()
    while todo:
        x = todo.pop()
        if x.get_id() in seen_:
            continue
        seen_.add(x.get_id())
        if z3.is_app(x) and x.decl().kind() in (z3.Z3_OP_ITE, z3.Z3_OP_AND, z3.Z3_OP_OR):
            return True
        todo += x.children()
    return False


def children(T, t):
    return [T.f(t, "left"), T.f(t, "right")]


def unf(c, *ts, depth=2):
    T = th(c.en)
    out = []

    def go(t, d):
        out.append(T.unfold(t))
        if d > 1:
            for k in children(T, t):
                go(k, d - 1)
    for t in ts:
        go(t, depth)
    return out


# ---- update: recomputes the ends of one node from its children
def _upd_ens(c):
    T = th(c.en)
    a, x = tree(c, c.a(0)), tree(c, c.x(0))
    keep = [T.f(a, n) == T.f(x, n) for n in ("lo", "hi", "priority", "left", "right")]
    L, R = children(T, a)
    return [("nothing but the ends changes", And(*keep)), ("the ends bound the subtree", And(T.own(x), T.BND(x))), ("same intervals", T.same(x, a))]


update = Contract("gcs::innards::IntervalTree::update", modifies=[0], name="IntervalTree::update",
                  requires=lambda c: [("children have correct ends", And(*[th(c.en).BND(k) for k in children(th(c.en), tree(c, c.a(0)))]))],
                  ensures=_upd_ens, facts=lambda c: unf(c, tree(c, c.a(0))), exit_facts=lambda c: unf(c, tree(c, c.x(0)), depth=1))


def _rot(side):
    def req(c):
        T = th(c.en)
        t = tree(c, c.a(0))
        if c.call:
            for f in unf(c, t, depth=1):
                c.st.assume(f)
        return [("there is a node and a %s child" % side, And(T.is_node(t), T.is_node(T.f(t, side)))), ("ordered", T.ORD(t)),
                ("children have correct ends", And(*[T.BND(k) for k in children(T, t)]))]

    def ens(c):
        T = th(c.en)
        t, u = tree(c, c.a(0)), tree(c, c.x(0))
        return [("there is a node", T.is_node(u)), ("same intervals", T.same(u, t)), ("ordered", T.ORD(u)), ("ends are correct", T.BND(u))]
    return Contract("gcs::innards::IntervalTree::rotate_" + ("left" if side == "right" else "right"), modifies=[0], requires=req, ensures=ens,
                    facts=lambda c: unf(c, tree(c, c.a(0)), depth=3), exit_facts=lambda c: unf(c, tree(c, c.x(0)), depth=3))


rotl, rotr = _rot("right"), _rot("left")


def _ins_ens(c, t, u, lo, hi):
    T = th(c.en)
    return [("there is a node", T.is_node(u)), ("holds exactly the old intervals and the new one", T.same(u, t, lambda l, h: And(l == lo, h == hi))), ("ordered", T.ORD(u)), ("ends are correct", T.BND(u))]


insert_at = Contract("gcs::innards::IntervalTree::insert_at", modifies=[0],
                     requires=lambda c: [("ordered", th(c.en).ORD(tree(c, c.a(0)))), ("ends are correct", th(c.en).BND(tree(c, c.a(0))))],
                     ensures=lambda c: _ins_ens(c, tree(c, c.a(0)), tree(c, c.x(0)), c.a(1).t, c.a(2).t),
                     facts=lambda c: unf(c, tree(c, c.a(0)), depth=2), exit_facts=lambda c: unf(c, tree(c, c.x(0)), depth=2))
ROOT = lambda c, w: w._root.t
insert = Contract("gcs::innards::IntervalTree::insert", modifies=["this"],
                  requires=lambda c: [("ordered", th(c.en).ORD(ROOT(c, c.this))), ("ends are correct", th(c.en).BND(ROOT(c, c.this)))],
                  ensures=lambda c: _ins_ens(c, ROOT(c, c.this), ROOT(c, c.this_x), c.a(0).t, c.a(1).t))

TREE_INST = """
namespace gcs_client {
using namespace gcs;
// records the calls made by a query
struct Recorder {
    mutable std::vector<std::vector<bool>> seen;
    mutable bool any;
    mutable Integer last_lo, last_hi;
    void operator()(Integer c, Integer d) const;
};
inline void containing(const innards::IntervalTree & t, Integer lo, Integer hi, const Recorder & r) { t.for_each_containing(lo, hi, r); }
inline void contained(const innards::IntervalTree & t, Integer lo, Integer hi, const Recorder & r) { t.for_each_contained_in(lo, hi, r); }
inline innards::IntervalTree fresh_tree() { innards::IntervalTree t; return t; }
}
"""


def seen(w, l, h):
    return z3.Select(z3.Select(w.v.lv[("seen", "[]", "[]")], l), h)


def after(T, w, l, h):
    return Or(Not(w.any.t), T.lt(w.last_lo.t, w.last_hi.t, l, h))


record = Contract("gcs_client::Recorder::operator()", modifies=["this"], trusted="the visitor given to a query: notes the call in a set, together with the last interval seen",
                  requires=lambda c: [("intervals are visited in increasing order, none twice", after(th(c.en), c.this, c.a(0).t, c.a(1).t))],
                  ensures=lambda c: [And(c.this_x.any.t, c.this_x.last_lo.t == c.a(0).t, c.this_x.last_hi.t == c.a(1).t),
                                     c.this_x.v.lv[("seen", "[]", "[]")] == z3.Store(c.this.v.lv[("seen", "[]", "[]")], c.a(0).t, z3.Store(z3.Select(c.this.v.lv[("seen", "[]", "[]")], c.a(0).t), c.a(1).t, z3.BoolVal(True)))])


def _visit(match):
    def req(c, t, r):
        T = th(c.en)
        l, h = z3.Ints("l!v h!v")
        return [("ordered", T.ORD(t)), ("ends are correct", T.BND(t)), ("everything in the tree comes after what was visited", ForAll([l, h], Implies(T.MEM(t, l, h), after(T, r, l, h)), patterns=[T.MEM(t, l, h)]))]

    def ens(c, t, r0, r1, lo, hi):
        T = th(c.en)
        l, h = z3.Ints("l!w h!w")
        return [("exactly the matching intervals are visited", ForAll([l, h], seen(r1, l, h) == Or(seen(r0, l, h), And(T.MEM(t, l, h), match(l, h, lo, hi))), patterns=[seen(r1, l, h)])),
                ("the last interval visited is an old one or one of the tree's", Or(And(r1.any.t == r0.any.t, r1.last_lo.t == r0.last_lo.t, r1.last_hi.t == r0.last_hi.t), And(r1.any.t, T.MEM(t, r1.last_lo.t, r1.last_hi.t))))]
    return req, ens


def _null(en, st):
    return VPtr(None)


def _nonnull(en, st):
    T = th(en)
    v = en.fresh(T.nty, "node", st)
    return VPtr(LV(en.new_cell(st, v), (), T.nty))


def _visitor(name, match):
    req, ens = _visit(match)
    inner = Contract("gcs::innards::IntervalTree::" + name, modifies=[3], cases=[{0: _null}, {0: _nonnull}],
                     requires=lambda c: req(c, tree(c, c.a(0)), c.a(3)), ensures=lambda c: ens(c, tree(c, c.a(0)), c.a(3), c.x(3), c.a(1).t, c.a(2).t),
                     facts=lambda c: unf(c, tree(c, c.a(0)), depth=1))
    return inner


containing = _visitor("visit_containing", lambda l, h, lo, hi: And(l <= lo, h >= hi))
contained = _visitor("visit_contained_in", lambda l, h, lo, hi: And(l >= lo, h <= hi))


def _query(name, match):
    req, ens = _visit(match)
    return Contract("gcs::innards::IntervalTree::" + name, modifies=[2],
                    requires=lambda c: req(c, ROOT(c, c.this), c.a(2)), ensures=lambda c: ens(c, ROOT(c, c.this), c.a(2), c.x(2), c.a(0).t, c.a(1).t))


fe_containing = _query("for_each_containing", lambda l, h, lo, hi: And(l <= lo, h >= hi))
fe_contained = _query("for_each_contained_in", lambda l, h, lo, hi: And(l >= lo, h <= hi))
fresh_tree = Contract("gcs_client::fresh_tree", name="IntervalTree::IntervalTree", facts=lambda c: unf(c, th(c.en).nil, depth=1),
                      ensures=lambda c: [("a new tree is ordered", th(c.en).ORD(ROOT(c, c.r))), ("its ends are correct", th(c.en).BND(ROOT(c, c.r))),
                                         ("it is empty", ForAll([z3.Int("l!e"), z3.Int("h!e")], Not(th(c.en).MEM(ROOT(c, c.r), z3.Int("l!e"), z3.Int("h!e")))))])
TREE = [update, rotl, rotr, insert_at, insert, containing, contained, fe_containing, fe_contained, fresh_tree, record]
