#include "state.hh"

template <typename V_> static Inference by_name(State & st, const V_ & v, const C & c)
{
    Integer a{c.v}, b{c.u};
    switch (c.op) {
    case Op::Equal: return st.infer_equal(v, a);
    case Op::NotEqual: return st.infer_not_equal(v, a);
    case Op::Less: return st.infer_less_than(v, a);
    case Op::GreaterEqual: return st.infer_greater_than_or_equal(v, a);
    case Op::InRange: return st.infer_in_range(v, a, b);
    case Op::NotInRange: return st.infer_not_in_range(v, a, b);
    }
    std::abort();
}
template <typename V_> static Inference by_cond(State & st, const V_ & v, const C & c)
{
    return st.infer(c.op == Op::InRange || c.op == Op::NotInRange ? VariableConditionFrom<V_>{v, c.op, Integer{c.v}, Integer{c.u}} : VariableConditionFrom<V_>{v, c.op, Integer{c.v}});
}
static Inference infer(State & st, const C & c)
{
    int how = rnd(0, 4);
    if (how == 0) return by_name(st, c.n.id, c);
    if (how == 1) return st.infer(c.cond());
    if (how == 2) return st.infer(Literal{c.cond()});
    return std::visit([&](const auto & v) { return how == 3 ? by_name(st, v, c) : by_cond(st, v, c); }, c.n.id);
}
int main(int argc, char ** argv)
{
    start(argc, argv);
    for (long it = 0; it < (g_thorough ? 200000 : 12000) && time_left(); ++it) {
        State st;
        Model m;
        std::vector<SimpleIntegerVariableID> vs;
        std::string what;
        int nv = rnd(1, 3);
        for (int i = 0; i < nv; ++i) {
            ll l = rnd(-6, 6), u = l + rnd(0, 9);
            what += "x" + std::to_string(i) + " in " + std::to_string(l) + ".." + std::to_string(u) + "; ";
            cur(what);
            auto next = st.what_variable_id_will_be_created_next();
            vs.push_back(st.allocate_integer_variable_with_state(Integer{l}, Integer{u}));
            if (next.index != vs.back().index) fail("the id announced is not the one created");
            m.dom.emplace_back();
            for (ll v = l; v <= u; ++v) m.dom.back().insert(v);
        }
        try {
            (void)st.allocate_integer_variable_with_state(3_i, 2_i);
            fail("an empty variable is created");
        }
        catch (const InvalidProblemDefinitionException &) {
        }
        bool over = false;
        for (int step = 0; step < 14 && ! over; ++step) {
            C c = pick(vs, m, false);
            Model before = m;
            auto want = apply(c, m);
            if (want == Inference::Contradiction && rnd(0, 3)) { m = before; continue; }
            if (rnd(0, 5) == 0 && (c.op < Op::InRange || c.v <= c.u)) {
                what += "guess " + c.str() + "; ";
                cur(what);
                std::vector<Literal> g0, g1;
                for (auto l : st.guesses()) g0.push_back(l);
                try {
                    st.guess(c.cond());
                    if (want == Inference::Contradiction) fail("the guess is accepted");
                    g0.push_back(c.cond());
                    for (auto l : st.guesses()) g1.push_back(l);
                    if (g0 != g1) fail("the guess is not recorded");
                }
                catch (const UnexpectedException &) {
                    if (want != Inference::Contradiction) fail("the guess is refused");
                    over = true;
                }
            }
            else {
                what += c.str() + "; ";
                cur(what);
                auto got = infer(st, c);
                if (got != want) fail("reports %s instead of %s", infname(got), infname(want));
                over = want == Inference::Contradiction;
            }
            if (over) break;
            {
                // iteration while the domain changes: the values from before
                Name n = name(vs, rnd(0, 1));
                Set s = seen(n, m);
                what += "iterate over " + n.str() + " removing values; ";
                cur(what);
                std::vector<ll> want(s.begin(), s.end()), got;
                if (n.neg) std::reverse(want.begin(), want.end());
                auto see = [&](Integer v) {
                    got.push_back(v.raw_value);
                    if (m.dom[n.var].size() > 1 && rnd(0, 2) == 0) {
                        ll y = *std::next(m.dom[n.var].begin(), rnd(0, (ll)m.dom[n.var].size() - 1));
                        m.dom[n.var].erase(y);
                        (void)st.infer_not_equal(vs[n.var], Integer{y});
                    }
                };
                if (rnd(0, 1)) st.for_each_value_mutable(n.id, see);
                else
                    for (auto v : st.each_value_mutable(n.id)) see(v);
                std::sort(got.begin(), got.end()), std::sort(want.begin(), want.end());
                if (got != want) fail("iteration over %s follows the changes", n.str().c_str());
            }
            for (int i = 0; i < nv; ++i) query(st, Name{vs[i], i, false, 0, 0}, m);
            for (int k = 0; k < 3; ++k) query(st, name(vs, k), m);
            if (st.infer(Literal{TrueLiteral{}}) != Inference::NoChange || st.infer(Literal{FalseLiteral{}}) != Inference::Contradiction) fail("true or false is inferred wrongly");
            for (int k = 0; k < 6; ++k) {
                C t = pick(vs, m, true);
                Set s = seen(t.n, m);
                size_t yes = std::count_if(s.begin(), s.end(), [&](ll z) { return t.ok(z); });
                auto w = yes == s.size() ? LiteralIs::DefinitelyTrue : yes == 0 ? LiteralIs::DefinitelyFalse : LiteralIs::Undecided;
                if (st.test_literal(t.cond()) != w || st.test_literal(Literal{t.cond()}) != w) fail("test_literal(%s) is wrong", t.str().c_str());
                Name a = name(vs), b = name(vs);
                if (st.domains_intersect(a.id, b.id) != meet(seen(a, m), seen(b, m))) fail("domains_intersect(%s, %s) is wrong", a.str().c_str(), b.str().c_str());
                Set x;
                auto xs = random_set(x);
                if (std::visit([&](const auto & v) { return st.domain_intersects_with(v, xs); }, a.id) != meet(seen(a, m), x) || st.domain_intersects_with(a.id, xs) != meet(seen(a, m), x))
                    fail("domain_intersects_with(%s, set) is wrong", a.str().c_str());
            }
        }
    }
    finish();
}
