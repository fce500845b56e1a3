"""Contracts of the regular expression lexer and recursive descent parser. The
text, its tokens and the alphabet are arbitrary but fixed."""
from contracts.regex import *
from contracts.regex import _i, _j, _k, _n, _m

IPD = "gcs::InvalidProblemDefinitionException"
UNX = "gcs::UnexpectedException"
RS, RN = z3.Const("regex_text", z3.ArraySort(Int, Int)), z3.Int("regex_length")
TK, TV = z3.Const("token_kind", z3.ArraySort(Int, Int)), z3.Const("token_value", z3.ArraySort(Int, Int))
NT = z3.Int("token_count")
AL = z3.Const("alphabet_set", z3.ArraySort(Int, Bool))
_f = lambda n: z3.Function(n, Int, Int)
_l = lambda n: z3.Function(n, Int, R)
EE, TE, FE, AE_, CE, IE = [_f(n + "_end") for n in ("expression", "term", "factor", "atom", "class", "items")]   # -1: nothing can be read there
EL, TL, FL, AL_ = [_l(n + "_language") for n in ("expression", "term", "factor", "atom")]
IM = z3.Function("in_items", Int, Int, Bool)
TKUT = z3.Function("term_cut", Int, Int, Int, Int)
_v = z3.Int("v!r")


class G:
    """the grammar, over the enumeration the tokens currently have"""

    def __init__(self, en):
        n = en.tu.enums[en.types.find("Tok") or "Tok"]
        self.k = {c["name"]: en.enum_value(c) for c in n["inner"] if c.get("kind") == "EnumConstantDecl"}

    def at(self, p, *names):
        return Or([TK[p] == self.k[n] for n in names])

    def starts(self, p):
        return self.at(p, "Integer", "Any", "ClassOpen", "GroupOpen")

    def class_items(self, p):
        return If(self.at(p + 1, "ClassNeg"), p + 2, p + 1)

    def quant_end(self, q):
        """after the opening brace"""
        at = self.at
        return If(Not(at(q, "Integer")), -1, If(at(q + 1, "QuantClose"), q + 2, If(Not(at(q + 1, "Comma")), -1,
                  If(at(q + 2, "QuantClose"), q + 3, If(And(at(q + 2, "Integer"), at(q + 3, "QuantClose"), TV[q] <= TV[q + 2]), q + 4, -1)))))

    def quant(self, r, q, i, j):
        at = self.at
        return If(at(q + 1, "QuantClose"), REP(r, TV[q], i, j), If(at(q + 2, "QuantClose"), ATL(r, TV[q], i, j), BTW(r, TV[q], TV[q + 2], i, j)))

    def items_end(self, s):
        return If(self.at(s, "Integer"), IE(s), -1)

    def symbols(self, L, f):
        return ForAll([_i, _j], IN(L, _i, _j) == And(0 <= _i, _i < SEQN, _j == _i + 1, f(SEQ[_i])), patterns=[IN(L, _i, _j)])

    def expr(self, p):
        t = TE(p)
        u = self.at(t, "Union")
        return [EE(p) == If(t < 0, -1, If(u, EE(t + 1), t)),
                ForAll([_i, _j], IN(EL(p), _i, _j) == Or(IN(TL(p), _i, _j), And(u, IN(EL(t + 1), _i, _j))), patterns=[IN(EL(p), _i, _j), IN(TL(p), _i, _j), IN(EL(t + 1), _i, _j)])]

    def term(self, p):
        f = FE(p)
        m = self.starts(f)
        K = TKUT(p, _i, _j)
        return [TE(p) == If(f < 0, -1, If(m, TE(f), f)),
                Implies(Not(m), same(TL(p), FL(p))),
                Implies(m, And(ForAll([_i, _j], Implies(IN(TL(p), _i, _j), And(IN(FL(p), _i, K), IN(TL(f), K, _j))), patterns=[IN(TL(p), _i, _j)]),
                               ForAll([_i, _k, _j], Implies(And(IN(FL(p), _i, _k), IN(TL(f), _k, _j)), IN(TL(p), _i, _j)), patterns=[z3.MultiPattern(IN(FL(p), _i, _k), IN(TL(f), _k, _j))])))]

    def factor(self, p):
        a, at = AE_(p), self.at
        A, F = AL_(p), FL(p)
        same_as = lambda f: ForAll([_i, _j], IN(F, _i, _j) == f, patterns=[IN(F, _i, _j)])
        return [FE(p) == If(a < 0, -1, If(at(a, "Star", "Plus", "Optional"), a + 1, If(at(a, "QuantOpen"), self.quant_end(a + 1), a))),
                Implies(at(a, "Star"), same_as(ATL(A, 0, _i, _j))), Implies(at(a, "Plus"), same_as(ATL(A, 1, _i, _j))),
                Implies(at(a, "Optional"), same_as(Or(_i == _j, IN(A, _i, _j)))), Implies(at(a, "QuantOpen"), same_as(self.quant(A, a + 1, _i, _j))),
                Implies(Not(at(a, "Star", "Plus", "Optional", "QuantOpen")), same(F, A))]

    def atom(self, p):
        at = self.at
        e = EE(p + 1)
        s = self.class_items(p)
        neg = at(p + 1, "ClassNeg")
        return [AE_(p) == If(at(p, "Integer", "Any"), p + 1, If(at(p, "ClassOpen"), CE(p), If(And(at(p, "GroupOpen"), e >= 0, at(e, "GroupClose")), e + 1, -1))),
                CE(p) == If(And(self.items_end(s) >= 0, at(self.items_end(s), "ClassClose")), self.items_end(s) + 1, -1),
                Implies(at(p, "Integer"), self.symbols(AL_(p), lambda v: v == TV[p])), Implies(at(p, "Any"), self.symbols(AL_(p), lambda v: AL[v])),
                Implies(at(p, "ClassOpen"), self.symbols(AL_(p), lambda v: If(neg, And(AL[v], Not(IM(s, v))), IM(s, v)))),
                Implies(at(p, "GroupOpen"), same(AL_(p), EL(p + 1)))]

    def items(self, p):
        """items one after the other, as many as there are"""
        rng = self.at(p + 1, "ClassRange")
        lo, hi = mn(TV[p], TV[p + 2]), mx(TV[p], TV[p + 2])
        return [IE(p) == If(Not(self.at(p, "Integer")), p, If(rng, If(self.at(p + 2, "Integer"), IE(p + 3), -1), IE(p + 1))),
                ForAll([_v], IM(p, _v) == And(self.at(p, "Integer"), If(rng, Or(And(lo <= _v, _v <= hi), IM(p + 3, _v)), Or(_v == TV[p], IM(p + 1, _v)))), patterns=[IM(p, _v)])]

    def well_formed_tokens(self):
        return And(NT >= 1, TK[NT - 1] == self.k["End"], ForAll([_i], Implies(And(0 <= _i, _i < NT - 1), TK[_i] != self.k["End"]), patterns=[TK[_i]]),
                   ForAll([_i], Implies(And(0 <= _i, _i < NT, TK[_i] == self.k["Integer"]), TV[_i] >= 0), patterns=[TV[_i]]))


def gr(en):
    if not hasattr(en, "_regex_gr"):
        en._regex_gr = G(en)
    return en._regex_gr


def same_tokens(w):
    return And(w.n == NT, ForAll([_i], Implies(And(0 <= _i, _i < NT), And(w[_i].kind.t == TK[_i], w[_i].value.t == TV[_i])), patterns=[w[_i].kind.t, w[_i].value.t]))


def same_set(w):
    return ForAll([_v], w.mem(_v) == AL[_v], patterns=[w.mem(_v)])


def inv_(en, w):
    return [("the tokens", same_tokens(w.tokens)), ("one end, at the end", gr(en).well_formed_tokens()), ("the alphabet", same_set(w.alphabet)), ("before the end", And(0 <= w.pos.t, w.pos.t < NT))]


_req = lambda c: inv_(c.en, c.this)
P = "Parser::"


def moved(c, to):
    q = c.this_x.pos.t
    return inv_(c.en, c.this_x) + [("stops where the grammar says", q == to), ("moves on", c.this.pos.t < q)]


def reader(name, level, end, lang_, unfold, exit_=None):
    def ens(c):
        p = c.this.pos.t
        L = LANG(pt(c.r))
        return moved(c, end(c.en, p)) + [result_ok(c), ("has the language the grammar gives it", same(L, lang_(p)))]
    return Contract(P + name, modifies=["this"], group="parser", decreases=lambda c: (NT - c.this.pos.t, z3.IntVal(level)), requires=_req, ensures=ens,
                    throws=lambda c: {IPD: end(c.en, c.this.pos.t) < 0}, facts=lambda c: unfold(gr(c.en), c.this.pos.t), exit_facts=exit_)


peek = Contract(P + "peek", requires=_req, ensures=lambda c: [("the kind of the token", c.r.t == TK[c.this.pos.t])])
advance = Contract(P + "advance", modifies=["this"], requires=_req,
                   ensures=lambda c: inv_(c.en, c.this_x)[:3] + [("one further", c.this_x.pos.t == c.this.pos.t + 1), ("the token", And(c.r.kind.t == TK[c.this.pos.t], c.r.value.t == TV[c.this.pos.t]))])
fail = Contract(P + "fail", throws=lambda c: {IPD: z3.BoolVal(True)})
expect = Contract(P + "expect", modifies=["this"], requires=_req, throws=lambda c: {IPD: TK[c.this.pos.t] != c.a(0).t},
                  ensures=lambda c: inv_(c.en, c.this_x)[:3] + [("one further", c.this_x.pos.t == c.this.pos.t + 1), ("the token", And(c.r.kind.t == TK[c.this.pos.t], c.r.value.t == TV[c.this.pos.t]))])
starts_atom = Contract(P + "starts_atom", ensures=lambda c: [("kinds an atom can begin with", c.r.t == Or([c.a(0).t == gr(c.en).k[n] for n in ("Integer", "Any", "ClassOpen", "GroupOpen")]))])

parse_expression = reader("parse_expression", 5, lambda en, p: EE(p), EL, lambda g, p: g.expr(p))
parse_term = reader("parse_term", 4, lambda en, p: TE(p), TL, lambda g, p: g.term(p))

plus_in = Lemma("one_then_any", [R, Int, Int, Int], lambda r, i, k, j: Implies(And(IN(r, i, k), ATL(r, 0, k, j)), ATL(r, 1, i, j)),
                hints=lambda r, i, k, j: [rep0(r), rep_step(r, z3.IntVal(0)), rep_add(r, 1, NAT(r, 0, k, j)), atl_def(r)])
plus_out = Lemma("some_is_one_then_any", [R, Int, Int], lambda r, i, j: Implies(ATL(r, 1, i, j), Exists([_k], And(IN(r, i, _k), ATL(r, 0, _k, j)))),
                 hints=lambda r, i, j: [rep0(r), rep_step(r, z3.IntVal(0)), rep_split(r, 1, NAT(r, 1, i, j) - 1, i, j), atl_def(r)])
REGEX_LEMMAS += [plus_in, plus_out]


btw_cong = Lemma("between_congruence", [R, R, Int, Int, Int, Int], lambda r, s, m, k, i, j: Implies(And(m >= 0, same(r, s)), BTW(r, m, k, i, j) == BTW(s, m, k, i, j)),
                 hints=lambda r, s, m, k, i, j: [btw_def(r), btw_def(s), cong(r, s, NBT(r, m, k, i, j)), cong(r, s, NBT(s, m, k, i, j))])
REGEX_LEMMAS += [btw_cong]


def _factor_exit(c):
    r = AL_(c.this.pos.t)
    s = z3.Const("s!cong", R)
    cong(s, r, _m)
    btw_cong(s, r, _m, _n, _i, _j)
    more = [ForAll([s, _m, _i, _j], Implies(And(_m >= 0, same(s, r)), REP(s, _m, _i, _j) == REP(r, _m, _i, _j)), patterns=[REP(s, _m, _i, _j)]),
            ForAll([s, _m, _n, _i, _j], btw_cong(s, r, _m, _n, _i, _j), patterns=[BTW(s, _m, _n, _i, _j)])]
    plus_in(r, _i, _k, _j)
    plus_out(r, _i, _j)
    return more + [cong_any(r), cong_nodes(r), ForAll([_i, _k, _j], plus_in(r, _i, _k, _j), patterns=[z3.MultiPattern(IN(r, _i, _k), ATL(r, 0, _k, _j))]), ForAll([_i, _j], plus_out(r, _i, _j), patterns=[ATL(r, 1, _i, _j)])]


parse_factor = reader("parse_factor", 3, lambda en, p: FE(p), FL, lambda g, p: g.factor(p), _factor_exit)
parse_atom = reader("parse_atom", 2, lambda en, p: AE_(p), AL_, lambda g, p: g.atom(p))
parse_class = reader("parse_class", 1, lambda en, p: CE(p), AL_, lambda g, p: g.atom(p))
def _class_inv(c):
    m, al, it = c.v("complement"), c.rng(0), c.v("items")
    return [("index", And(0 <= c.index, c.index <= al.n)), ("only values of the alphabet outside the class", ForAll([_v], Implies(m.mem(_v), And(AL[_v], Not(it.mem(_v)))), patterns=[m.mem(_v)])),
            ("all of them so far", ForAll([_i], Implies(And(0 <= _i, _i < c.index), Or(m.mem(al[_i].t), it.mem(al[_i].t))), patterns=[al[_i].t]))]


parse_class.loops = [LoopContract("alphabet", _class_inv)]
parse_class._req = lambda c: inv_(c.en, c.this) + [("at an opening bracket", gr(c.en).at(c.this.pos.t, "ClassOpen"))]


def _quant_ens(c):
    g = gr(c.en)
    q = c.this.pos.t
    r = LANG(c.a(0).t)
    return moved(c, g.quant_end(q)) + [result_ok(c), lang_clause(c, "the repetitions asked for", lambda i, j: g.quant(r, q, i, j))]


parse_quantifier = Contract(P + "parse_quantifier", modifies=["this"], group="parser", decreases=lambda c: (NT - c.this.pos.t, z3.IntVal(0)), requires=lambda c: _req(c) + [("a well-formed tree", WF(c.a(0).t))],
                            ensures=_quant_ens, throws=lambda c: {IPD: gr(c.en).quant_end(c.this.pos.t) < 0})


def _items_inv(c):
    p, s = c.this.pos.t, c.this_e.pos.t
    m = c.v("items")
    return inv_(c.en, c.this) + [("range", And(s <= p, Or(p > s, gr(c.en).at(p, "Integer")))), ("the rest decides the end", IE(s) == IE(p)),
                                 ("items so far and the rest", ForAll([_v], IM(s, _v) == Or(m.mem(_v), IM(p, _v)), patterns=[IM(s, _v), m.mem(_v), IM(p, _v)]))]


def _range_inv(c):
    m, m0 = c.v("items"), c.e("items")
    f, x, t = c.v("from").t, c.v("val").t, c.v("to").t
    return [("between the ends", And(f <= x, x <= t)), ("what was there and the values so far", ForAll([_v], m.mem(_v) == Or(m0.mem(_v), And(f <= _v, _v < x)), patterns=[m.mem(_v), m0.mem(_v)]))]


parse_set_items = Contract(P + "parse_set_items", modifies=["this"], group="parser", decreases=lambda c: (NT - c.this.pos.t, z3.IntVal(0)), requires=_req,
                           ensures=lambda c: moved(c, gr(c.en).items_end(c.this.pos.t)) + [("exactly the values of the items", ForAll([_v], c.r.mem(_v) == IM(c.this.pos.t, _v), patterns=[c.r.mem(_v), IM(c.this.pos.t, _v)]))],
                           throws=lambda c: {IPD: gr(c.en).items_end(c.this.pos.t) < 0}, facts=lambda c: gr(c.en).items(c.this.pos.t),
                           loops=[LoopContract("items", _items_inv, decreases=lambda c: NT - c.this.pos.t, facts=lambda c: gr(c.en).items(c.this.pos.t)),
                                  LoopContract("values of a range", _range_inv, decreases=lambda c: c.v("to").t - c.v("val").t)])
PARSER = [peek, advance, fail, expect, starts_atom, parse_expression, parse_term, parse_factor, parse_quantifier, parse_atom, parse_class, parse_set_items]


# ---- the lexer
SKP, DE, LX = _f("skip_space_"), _f("digits_end"), z3.Function("lexes", Int, Bool)
DV = z3.Function("digits_value", Int, Int, Int)       # of the digits from p up to k
TPOS = _f("token_position")
BLANK = [32, 9, 10]
CHARS = {"|": "Union", "+": "Plus", "*": "Star", "(": "GroupOpen", ")": "GroupClose", "?": "Optional", "{": "QuantOpen", "}": "QuantClose", ",": "Comma", ".": "Any", "[": "ClassOpen", "]": "ClassClose", "-": "ClassRange", "^": "ClassNeg"}


def digit(c):
    return And(48 <= c, c <= 57)


def lex_at(p):
    c = RS[p]
    q = SKP(p)
    return [SKP(p) == If(And(p < RN, Or([c == b for b in BLANK])), SKP(p + 1), p), DE(p) == If(And(p < RN, digit(c)), DE(p + 1), p), DV(p, p) == 0,
            LX(p) == Or(q >= RN, If(digit(RS[q]), And(DV(q, DE(q)) <= MAX, LX(DE(q))), And(Or([RS[q] == ord(x) for x in CHARS]), LX(q + 1))))]


def dv_step(p, k):
    return DV(p, k + 1) == 10 * DV(p, k) + (RS[k] - 48)


def lex_end(q):
    return If(digit(RS[q]), DE(q), q + 1)


def tok_at(g, i):
    """the i-th token"""
    p = TPOS(i)
    k = g.k["End"]
    for x, nm in CHARS.items():
        k = If(RS[p] == ord(x), g.k[nm], k)
    k = If(p >= RN, g.k["End"], If(digit(RS[p]), g.k["Integer"], k))
    return [TPOS(0) == SKP(0), TPOS(i + 1) == SKP(lex_end(p)), TK[i] == k, TV[i] == If(And(p < RN, digit(RS[p])), DV(p, DE(p)), 0)]


def count_def():
    """the token count: the first token past the end of the text is the last"""
    return And(NT >= 1, TPOS(NT - 1) >= RN, ForAll([_i], Implies(And(0 <= _i, _i < NT - 1), TPOS(_i) < RN), patterns=[TPOS(_i)]))


def the_text(w):
    return And(w.n == RN, ForAll([_i], Implies(And(0 <= _i, _i < RN), w[_i].t == RS[_i]), patterns=[w[_i].t]))


more_digits = Lemma("more_digits_are_no_less", [Int, Int], lambda p, k: Implies(And(p <= k, k <= RN, DV(p, k) >= 0), DV(p, DE(k)) >= DV(p, k)),
                    hints=lambda p, k: lex_at(k) + [dv_step(p, k)], induction=(lambda p, k: RN - k + 1, lambda p, k: [(p, k + 1)]))
REGEX_LEMMAS += [more_digits]


def _tok_inv(c):
    t, i = c.v("tokens"), c.v("i").t
    return [("range", And(0 <= i, i <= RN)), ("the next token", TPOS(t.n) == SKP(i)), ("the rest decides acceptance", LX(0) == LX(i)),
            ("tokens so far", ForAll([_k], Implies(And(0 <= _k, _k < t.n), And(t[_k].kind.t == TK[_k], t[_k].value.t == TV[_k], TPOS(_k) < RN)), patterns=[t[_k].kind.t, TPOS(_k)])),
            ("none is the end", ForAll([_k], Implies(And(0 <= _k, _k < t.n), And(t[_k].kind.t != gr(c.en).k["End"], Implies(t[_k].kind.t == gr(c.en).k["Integer"], t[_k].value.t >= 0))), patterns=[t[_k].kind.t]))]


def _tok_facts(c):
    t, i = c.v("tokens"), c.v("i").t
    return lex_at(i) + lex_at(i + 1) + tok_at(gr(c.en), t.n)


def _num_inv(c):
    s, i, v = c.e("i").t, c.v("i").t, c.v("value").t
    return [("range", And(s <= i, i <= RN)), ("the value so far", v == DV(s, i)), ("not negative", v >= 0), ("the rest decides the end", DE(s) == DE(i))]


def _num_facts(c):
    s, i = c.e("i").t, c.v("i").t
    return lex_at(i) + [dv_step(s, i), more_digits(s, i), more_digits(s, i + 1)] + lex_at(i + 1)


tokenize = Contract("tokenize", requires=lambda c: [("the text", the_text(c.a(0)))], ensures=lambda c: [("the tokens of the text", same_tokens(c.r)), ("one end, at the end", gr(c.en).well_formed_tokens())],
                    throws=lambda c: {IPD: Not(LX(0))}, facts=lambda c: [count_def(), TPOS(0) == SKP(0)], exit_facts=lambda c: [count_def()] + tok_at(gr(c.en), c.r.n - 1),
                    loops=[LoopContract("text", _tok_inv, decreases=lambda c: RN - c.v("i").t, facts=_tok_facts), LoopContract("digits", _num_inv, decreases=lambda c: RN - c.v("i").t, facts=_num_facts)])


def parses(en):
    return And(LX(0), EE(0) >= 0, gr(en).at(EE(0), "End"))


parse_regex = Contract("parse_regex", requires=lambda c: [("the text", the_text(c.a(0))), ("the alphabet", same_set(c.a(1)))], throws=lambda c: {IPD: Not(parses(c.en))},
                       ensures=lambda c: [result_ok(c), ("has the language of the expression", same(LANG(pt(c.r)), EL(0)))])
accepts = Contract("gcs::innards::regex_reference_accepts", requires=lambda c: [("the text", the_text(c.a(0))), ("the alphabet", ForAll([_v], AL[_v] == Exists([_k], And(0 <= _k, _k < c.a(1).n, c.a(1)[_k].t == _v)))),
                                                                              ("the sequence", And(c.a(2).n == SEQN, ForAll([_i], Implies(And(0 <= _i, _i < SEQN), c.a(2)[_i].t == SEQ[_i]), patterns=[c.a(2)[_i].t])))],
                   throws=lambda c: {IPD: Not(parses(c.en))}, ensures=lambda c: [("exactly when the language has the whole sequence", c.r.t == IN(EL(0), 0, SEQN))])
PARSER += [tokenize, parse_regex, accepts]
