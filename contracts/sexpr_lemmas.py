"""Reading back what was written: lemmas over the definitions of sexpr.py, for
terms seen abstractly (kind, text, children)."""
from contracts.sexpr import *

T = z3.DeclareSort("Term")
ISA = z3.Function("is_an_atom", T, Bool)
AN, AC = z3.Function("atom_length", T, Int), z3.Function("atom_char", T, Int, Int)
LN, LC = z3.Function("children", T, Int), z3.Function("child", T, Int, T)
DEN = z3.Function("denotes_term", *FT, T, Bool)
RL, RC = z3.Function("text_length", T, Int), z3.Function("text_char", T, Int, Int)
BL, BC = z3.Function("body_len", T, Int, Int), z3.Function("body_ch", T, Int, Int)
WF = z3.Function("well_formed_atoms", T, Bool)
EQ = z3.Function("same_term", T, T, Bool)
_i, _j, _k = z3.Ints("i!l j!l k!l")


def rdefs(b):
    off = BL(b, _i) + If(_i > 0, 1, 0)
    return [RL(b) >= 0, AN(b) >= 0, LN(b) >= 0, If(ISA(b), And(RL(b) == AN(b), ForAll([_j], RC(b, _j) == AC(b, _j), patterns=[RC(b, _j)])),
               And(RL(b) == BL(b, LN(b)) + 2, RC(b, 0) == OPEN, RC(b, 1 + BL(b, LN(b))) == CLOSE,
                   ForAll([_j], Implies(And(0 <= _j, _j < BL(b, LN(b))), RC(b, 1 + _j) == BC(b, _j)), patterns=[BC(b, _j)]))),
            BL(b, 0) == 0, BL(b, LN(b)) >= 0,
            ForAll([_i], Implies(And(0 <= _i, _i < LN(b)), And(BL(b, _i + 1) == off + RL(LC(b, _i)), RL(LC(b, _i)) >= 0, BL(b, _i) >= 0, Implies(_i > 0, BC(b, BL(b, _i)) == 32))), patterns=[BL(b, _i)]),
            ForAll([_i, _j], Implies(And(0 <= _i, _i < LN(b), 0 <= _j, _j < RL(LC(b, _i))), BC(b, off + _j) == RC(LC(b, _i), _j)), patterns=[RC(LC(b, _i), _j)])]


def wf_def(b):
    return WF(b) == If(ISA(b), And(AN(b) > 0, ForAll([_j], Implies(And(0 <= _j, _j < AN(b)), Not(delim(AC(b, _j)))), patterns=[AC(b, _j)])),
                       ForAll([_i], Implies(And(0 <= _i, _i < LN(b)), WF(LC(b, _i))), patterns=[LC(b, _i)]))


def den(A, n, p, b):
    q = SK(A, n, p)
    s = q + 1
    return DEN(A, n, p, b) == If(A[q] == OPEN,
        And(Not(ISA(b)), LN(b) == LCNT(A, n, s), ForAll([_i], Implies(And(0 <= _i, _i < LN(b)), DEN(A, n, SK(A, n, IPOS(A, n, s, _i)), LC(b, _i))), patterns=[LC(b, _i)])),
        And(ISA(b), AN(b) == AE(A, n, q) - q, ForAll([_i], Implies(And(0 <= _i, _i < AN(b)), AC(b, _i) == A[q + _i]), patterns=[AC(b, _i)])))


def eq_def(b, c):
    return EQ(b, c) == And(ISA(b) == ISA(c), Implies(ISA(b), And(AN(b) == AN(c), ForAll([_j], Implies(And(0 <= _j, _j < AN(b)), AC(b, _j) == AC(c, _j)), patterns=[AC(b, _j)]))),
                           Implies(Not(ISA(b)), And(LN(b) == LN(c), ForAll([_i], Implies(And(0 <= _i, _i < LN(b)), EQ(LC(b, _i), LC(c, _i))), patterns=[LC(b, _i)]))))


def written(A, n, p, b):
    """the rendering of b stands at p, followed by a delimiter or the end"""
    e = p + RL(b)
    return And(0 <= p, e <= n, ForAll([_k], Implies(And(0 <= _k, _k < RL(b)), A[p + _k] == RC(b, _k)), patterns=[RC(b, _k)]), Or(e == n, delim(A[e])))


def read_back(A, n, p, b):
    return And(SK(A, n, p) == p, TOK(A, n, p), TEND(A, n, p) == p + RL(b), DEN(A, n, p, b), RL(b) > 0)


def start(p, b, i):
    return p + 1 + BL(b, i) + If(i > 0, 1, 0)


def kids_read(A, n, p, b):
    return ForAll([_i], Implies(And(0 <= _i, _i < LN(b)), read_back(A, n, start(p, b, _i), LC(b, _i))), patterns=[BL(b, _i)])


def list_at(A, n, p, b):
    return And(Not(ISA(b)), written(A, n, p, b), kids_read(A, n, p, b))


atom_scan = Lemma("an atom ends at the first delimiter", [CH, Int, Int, Int],
                  lambda A, n, p, e: Implies(And(0 <= p, p <= e, e <= n, ForAll([_k], Implies(And(p <= _k, _k < e), Not(delim(A[_k]))), patterns=[A[_k]]), Or(e == n, delim(A[e]))), AE(A, n, p) == e),
                  hints=lambda A, n, p, e: unf(A, n, p)[1:2], induction=(lambda A, n, p, e: e - p, lambda A, n, p, e: [(A, n, p + 1, e)]))


# body lengths are non-negative and increase
grow = Lemma("body lengths increase", [T, Int],
             lambda b, i: Implies(And(Not(ISA(b)), 0 <= i, i <= LN(b)), And(0 <= BL(b, i), BL(b, i) <= BL(b, LN(b)))),
             hints=lambda b, i: rdefs(b), induction=(lambda b, i: LN(b) - i, lambda b, i: [(b, i + 1)]))


def sep(A, n, p, b, i):
    """where skipping leads from the end of the i-th item"""
    q = p + 1 + BL(b, i)
    return If(i < LN(b), And(SK(A, n, q) == start(p, b, i), SK(A, n, q) < n, A[SK(A, n, q)] != CLOSE), And(SK(A, n, q) == q, A[q] == CLOSE, q < n, q + 1 == p + RL(b)))


step_sep = Lemma("from one item to the next", [CH, Int, Int, T, Int],
                 lambda A, n, p, b, i: Implies(And(list_at(A, n, p, b), 0 <= i, i <= LN(b)), sep(A, n, p, b, i)),
                 hints=lambda A, n, p, b, i: unf(A, n, p + 1 + BL(b, i)) + unf(A, n, p + 2 + BL(b, i)) + rdefs(b) + [grow(b, i), grow(b, i + 1), RC(b, 1 + BL(b, i)) == RC(b, 1 + BL(b, i)), BC(b, BL(b, i)) == BC(b, BL(b, i)),
                                                   BL(b, i + 1) == BL(b, i + 1)] + unf(A, n, start(p, b, i)))
positions = Lemma("items stand where they were written", [CH, Int, Int, T, Int],
                  lambda A, n, p, b, i: Implies(And(list_at(A, n, p, b), 0 <= i, i <= LN(b)), IPOS(A, n, p + 1, i) == p + 1 + BL(b, i)),
                  hints=lambda A, n, p, b, i: ipos0(A, n) + ipos(A, n, p + 1, i - 1) + [IPOS(A, n, p + 1, i - 1 + 1) == IPOS(A, n, p + 1, i), step_sep(A, n, p, b, i - 1), grow(b, i - 1), BL(b, i - 1) == BL(b, i - 1), BL(b, i - 1 + 1) == BL(b, i)] + rdefs(b),
                  induction=(lambda A, n, p, b, i: i, lambda A, n, p, b, i: [(A, n, p, b, i - 1)]))
tail = Lemma("the rest of a written list is accepted", [CH, Int, Int, T, Int],
             lambda A, n, p, b, i: Implies(And(list_at(A, n, p, b), 0 <= i, i <= LN(b)), And(LOK(A, n, p + 1 + BL(b, i)), LCNT(A, n, p + 1 + BL(b, i)) == LN(b) - i, LEND(A, n, p + 1 + BL(b, i)) == p + RL(b))),
             hints=lambda A, n, p, b, i: unf(A, n, p + 1 + BL(b, i)) + [step_sep(A, n, p, b, i), BL(b, i) == BL(b, i)] + rdefs(b),
             induction=(lambda A, n, p, b, i: LN(b) - i, lambda A, n, p, b, i: [(A, n, p, b, i + 1)]))


def _kid_written(A, n, p, b):
    return ForAll([_i], Implies(And(0 <= _i, _i < LN(b)), And(RL(LC(b, _i)) < RL(b), WF(LC(b, _i)), written(A, n, start(p, b, _i), LC(b, _i)))), patterns=[BL(b, _i)])


kid_written = Lemma("the children of a written list are written", [CH, Int, Int, T, Int],
                    lambda A, n, p, b, i: Implies(And(Not(ISA(b)), WF(b), written(A, n, p, b), 0 <= i, i < LN(b)), And(RL(LC(b, i)) < RL(b), WF(LC(b, i)), written(A, n, start(p, b, i), LC(b, i)))),
                    hints=lambda A, n, p, b, i: rdefs(b) + [wf_def(b), grow(b, i), grow(b, i + 1), BL(b, i) == BL(b, i), BL(b, i + 1) == BL(b, i + 1), BC(b, BL(b, i + 1)) == BC(b, BL(b, i + 1)), RC(b, 1 + BL(b, i + 1)) == RC(b, 1 + BL(b, i + 1))])


written_at = Lemma("the text of a written term, by position", [CH, Int, Int, T, Int],
                   lambda A, n, p, b, m: Implies(And(written(A, n, p, b), p <= m, m < p + RL(b)), A[m] == RC(b, m - p)),
                   hints=lambda A, n, p, b, m: [RC(b, m - p) == RC(b, m - p)])


def _rb_hints(A, n, p, b):
    h = unf(A, n, p) + rdefs(b) + [wf_def(b), den(A, n, p, b), RC(b, 0) == RC(b, 0), AC(b, 0) == AC(b, 0), ForAll([_i], written_at(A, n, p, b, _i), patterns=[A[_i]]), atom_scan(A, n, p, p + RL(b))]
    h += [ForAll([_i], kid_written(A, n, p, b, _i), patterns=[LC(b, _i)]), ForAll([_i], positions(A, n, p, b, _i), patterns=[IPOS(A, n, p + 1, _i)]), ForAll([_i], step_sep(A, n, p, b, _i), patterns=[IPOS(A, n, p + 1, _i)]), tail(A, n, p, b, z3.IntVal(0))]
    h += [("assert", Implies(And(WF(b), written(A, n, p, b), ISA(b)), And(AE(A, n, p) == p + RL(b), SK(A, n, p) == p, A[p] != OPEN, A[p] != CLOSE))), ("assert", Implies(And(WF(b), written(A, n, p, b), ISA(b)), read_back(A, n, p, b)))]
    h += [("assert", Implies(And(WF(b), written(A, n, p, b), Not(ISA(b))), kids_read(A, n, p, b))), ("assert", Implies(And(WF(b), written(A, n, p, b), Not(ISA(b))), And(TOK(A, n, p), TEND(A, n, p) == p + RL(b))))]
    return h


reads_back = Lemma("what was written is read back", [CH, Int, Int, T],
                   lambda A, n, p, b: Implies(And(WF(b), written(A, n, p, b)), read_back(A, n, p, b)),
                   hints=_rb_hints,
                   induction=(lambda A, n, p, b: RL(b), lambda A, n, p, b: [([_i], (A, n, start(p, b, _i), LC(b, _i)), [LC(b, _i)])]))
smaller = Lemma("a child's text is shorter", [T, Int],
                lambda b, i: Implies(And(Not(ISA(b)), 0 <= i, i < LN(b)), And(RL(LC(b, i)) < RL(b), RL(LC(b, i)) >= 0)),
                hints=lambda b, i: rdefs(b) + [grow(b, i), grow(b, i + 1), BL(b, i) == BL(b, i)])
unique = Lemma("a text denotes one term only", [CH, Int, Int, T, T],
               lambda A, n, p, b, c: Implies(And(DEN(A, n, p, b), DEN(A, n, p, c)), EQ(b, c)),
               hints=lambda A, n, p, b, c: [den(A, n, p, b), den(A, n, p, c), eq_def(b, c), ForAll([_i], smaller(b, _i), patterns=[LC(b, _i)])],
               induction=(lambda A, n, p, b, c: RL(b), lambda A, n, p, b, c: [([_i], (A, n, SK(A, n, IPOS(A, n, SK(A, n, p) + 1, _i)), LC(b, _i), LC(c, _i)), [LC(b, _i)])]))


def _round(b, A, c):
    return Implies(And(WF(b), ForAll([_k], Implies(And(0 <= _k, _k < RL(b)), A[_k] == RC(b, _k)), patterns=[RC(b, _k)])),
                   And(TOK(A, RL(b), SK(A, RL(b), 0)), SK(A, RL(b), TEND(A, RL(b), SK(A, RL(b), 0))) >= RL(b), Implies(DEN(A, RL(b), SK(A, RL(b), 0), c), EQ(b, c))))


round_trip = Lemma("reading a rendering gives the term back", [T, CH, T], _round,
                   hints=lambda b, A, c: [reads_back(A, RL(b), z3.IntVal(0), b), unique(A, RL(b), z3.IntVal(0), b, c), unf(A, RL(b), RL(b))[0], RL(b) >= 0])
same_body = Lemma("equal children have equal bodies", [T, T, Int],
                  lambda b, c, i: Implies(And(Not(ISA(b)), Not(ISA(c)), LN(b) == LN(c), ForAll([_i], Implies(And(0 <= _i, _i < LN(b)), RL(LC(b, _i)) == RL(LC(c, _i))), patterns=[LC(b, _i)]), 0 <= i, i <= LN(b)), BL(b, i) == BL(c, i)),
                  hints=lambda b, c, i: rdefs(b) + rdefs(c) + [BL(b, i - 1) == BL(b, i - 1), BL(c, i - 1) == BL(c, i - 1), BL(b, i - 1 + 1) == BL(b, i), BL(c, i - 1 + 1) == BL(c, i), LC(b, i - 1) == LC(b, i - 1)],
                  induction=(lambda b, c, i: i, lambda b, c, i: [(b, c, i - 1)]))
SEXPR_LEMMAS = [atom_scan, written_at, grow, step_sep, positions, tail, kid_written, reads_back, smaller, unique, round_trip, same_body]
