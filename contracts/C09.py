"""C09: restart cutoffs follow the scaled Luby sequence."""
from contracts.common import *
from cv.runner import Unit, Harness

# the Luby sequence: L(2^k - 1) = 2^(k-1), L(i) = L(i - 2^(k-1) + 1) for 2^(k-1) <= i < 2^k - 1
LUBY = z3.Function("Luby", Int, Int)
TOP = (1 << 63) - 1


def p2(k):
    t = z3.IntVal(1 << 63)
    for j in range(62, -1, -1):
        t = If(k == j, z3.IntVal(1 << j), t)
    return t


def luby_def(i, k):
    return Implies(And(k >= 1, k <= 63, p2(k - 1) <= i, i < p2(k)), LUBY(i) == If(i == p2(k) - 1, p2(k - 1), LUBY(i - p2(k - 1) + 1)))


term = Contract("luby_term", ["*"], requires=lambda c: [("a position of the sequence", And(c.a(0).t >= 1, c.a(0).t <= TOP))],
                ensures=lambda c: [("term of the Luby sequence", c.r.t == LUBY(c.a(0).t))], fork_cond=True,
                loops=[LoopContract("reluctant doubling", lambda c: [("same term", LUBY(c.v("i").t) == LUBY(c.p(0).t)), ("position", And(1 <= c.v("i").t, c.v("i").t <= TOP)),
                                                                     ("block", And(1 <= c.v("k").t, c.v("k").t <= 63, p2(c.v("k").t - 1) <= c.v("i").t))],
                                    facts=lambda c: [luby_def(c.v("i").t, c.v("k").t)],
                                    decreases=lambda c: (c.v("i").t, 64 - c.v("k").t))])
SC, IX = lambda w: w.fld(0).t, lambda w: w.fld(1).t
luby = Contract("gcs::RestartSchedule::luby", ["*"], ensures=lambda c: [("scale", SC(c.r) == c.a(0).t), ("starts at the first term", IX(c.r) == 1)])
cutoff = Contract("gcs::RestartSchedule::current_cutoff", [], requires=lambda c: [("position", And(IX(c.this) >= 1, IX(c.this) <= TOP)), ("cutoff representable", LUBY(IX(c.this)) * SC(c.this) <= (1 << 64) - 1)],
                  ensures=lambda c: [("scaled term", c.r.t == LUBY(IX(c.this)) * SC(c.this))])
advance = Contract("gcs::RestartSchedule::advance", [], requires=lambda c: [("position", And(IX(c.this) >= 1, IX(c.this) < TOP))], modifies=["this"],
                   ensures=lambda c: [("next position", IX(c.this_x) == IX(c.this) + 1), ("same scale", SC(c.this_x) == SC(c.this))])
UNITS = [Unit("restarts", [term, luby, cutoff, advance], [term], sources=["gcs/restarts.cc"])]
HARNESS = Harness("C09.cc", ["gcs/restarts.cc"], bound="the first 3 million (quick) or 60 million (thorough) cutoffs of schedules with several scales, against an independent generator of the sequence; positions near powers of two up to 2^62 and random ones set directly where the schedule keeps a counter named _index", flags=["-fno-access-control"])
