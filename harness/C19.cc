#include "state.hh"

struct Snap
{
    Timestamp t;
    bool sub;
    Model m;
    std::vector<ll> cs;
    std::vector<Literal> guesses, extra;
    std::vector<int> calls; // callbacks registered before: how often called
    size_t registered;
};
static void check(const State & st, const std::vector<SimpleIntegerVariableID> & vs, const Model & m, const std::vector<ConstraintStateHandle> & hs, const std::vector<ll> & cs, const std::vector<Literal> & guesses, const std::vector<Literal> & extra, const char * when)
{
    for (size_t i = 0; i < m.dom.size(); ++i)
        if (! set_is(st.copy_of_values(IntegerVariableID{vs[i]}), m.dom[i])) fail("%s, the values of x%zu are wrong", when, i);
    if (st.what_variable_id_will_be_created_next().index != m.dom.size()) fail("%s, the number of variables is wrong", when);
    for (size_t i = 0; i < cs.size(); ++i)
        if (std::any_cast<ll>(st.get_constraint_state(hs[i])) != cs[i]) fail("%s, constraint state %zu is wrong", when, i);
    std::vector<Literal> want = extra, got;
    want.insert(want.end(), guesses.begin(), guesses.end());
    for (auto l : st.guesses()) {
        got.push_back(l);
        if (got.size() > 1000) fail("too many guesses");
    }
    if (got != want) fail("%s, the guesses are wrong", when);
}
int main(int argc, char ** argv)
{
    start(argc, argv);
    for (long it = 0; it < (g_thorough ? 150000 : 8000) && time_left(); ++it) {
        State st;
        Model m;
        std::vector<SimpleIntegerVariableID> vs;
        std::vector<ConstraintStateHandle> hs;
        std::vector<ll> cs;
        std::vector<Literal> guesses, extra;
        std::vector<int> calls;
        std::vector<std::vector<int>> live{{}}; // callbacks per epoch
        std::vector<Snap> stack;
        std::string what;
        auto see = [&](const char * when) { check(st, vs, m, hs, cs, guesses, extra, when); };
        int steps = rnd(4, 30);
        for (int step = 0; step < steps; ++step) {
            int k = rnd(0, 11);
            if (vs.empty() || k == 0) {
                ll l = rnd(-6, 6), u = l + rnd(0, 9);
                what += "x" + std::to_string(vs.size()) + " in " + std::to_string(l) + ".." + std::to_string(u) + "; ";
                cur(what);
                auto v = st.allocate_integer_variable_with_state(Integer{l}, Integer{u});
                if (v.index != m.dom.size()) fail("the new variable's id is wrong");
                vs.push_back(v);
                m.dom.emplace_back();
                for (ll y = l; y <= u; ++y) m.dom.back().insert(y);
            }
            else if (k == 1) {
                what += "new constraint state; ";
                cur(what);
                ll y = rnd(0, 1000);
                auto h = st.add_constraint_state(std::any{y});
                if (h.index != cs.size()) fail("a constraint state that was undone is still there");
                hs.push_back(h);
                cs.push_back(y);
            }
            else if (k == 2 && ! cs.empty()) {
                what += "constraint state changed; ";
                cur(what);
                ll i = rnd(0, (ll)cs.size() - 1), y = rnd(0, 1000);
                st.get_constraint_state(hs[i]) = std::any{y};
                cs[i] = y;
            }
            else if (k == 3) {
                what += "callback " + std::to_string(calls.size()) + "; ";
                cur(what);
                int id = (int)calls.size();
                calls.push_back(0);
                live.back().push_back(id);
                st.on_backtrack([&calls, id]() { ++calls[id]; });
            }
            else if (k == 4) {
                C c = pick(vs, m, true);
                what += "extra " + c.str() + "; ";
                cur(what);
                st.add_extra_proof_condition(c.cond());
                extra.push_back(c.cond());
            }
            else if (k < 8) {
                C c = pick(vs, m, true);
                Model before = m;
                if (apply(c, m) == Inference::Contradiction) { m = before; continue; }
                if (rnd(0, 1)) {
                    what += "guess " + c.str() + "; ";
                    cur(what);
                    st.guess(c.cond());
                    guesses.push_back(c.cond());
                }
                else {
                    what += c.str() + "; ";
                    cur(what);
                    (void)st.infer(c.cond());
                }
            }
            else if (k < 10) {
                bool sub = rnd(0, 2) == 0;
                what += sub ? "new subsearch epoch; " : "new epoch; ";
                cur(what);
                stack.push_back(Snap{st.new_epoch(sub), sub, m, cs, guesses, extra, calls, calls.size()});
                live.emplace_back();
            }
            else if (k == 10 && ! stack.empty()) {
                // possibly several epochs at once
                size_t to = stack.size() - 1 - (rnd(0, 2) ? 0 : rnd(0, (ll)stack.size() - 1));
                Snap s = stack[to];
                what += "backtrack " + std::to_string(stack.size() - to) + "; ";
                cur(what);
                std::vector<int> want = calls;
                while (live.size() > to + 1) {
                    for (int id : live.back()) ++want[id];
                    live.pop_back();
                }
                if (rnd(0, 3) == 0) {
                    // what is registered for an epoch that failed goes with it
                    C c = pick(vs, m, true);
                    c.op = Op::Less, c.v = -100;
                    (void)st.infer(c.cond());
                }
                st.backtrack(s.t);
                if (calls != want) fail("the callbacks of the epochs undone are not called as registered");
                m = s.m, cs = s.cs, guesses = s.guesses;
                if (s.sub) extra = s.extra;
                vs.erase(vs.begin() + (long)m.dom.size(), vs.end());
                hs.erase(hs.begin() + (long)cs.size(), hs.end());
                stack.erase(stack.begin() + (long)to, stack.end());
                see("after backtracking");
            }
            else if (k == 11) {
                what += "clone; ";
                cur(what);
                State c = st.clone();
                check(c, vs, m, hs, cs, {}, {}, "in the clone");
                std::vector<int> before = calls;
                for (size_t i = 0; i < m.dom.size(); ++i)
                    if (m.dom[i].size() > 1) (void)c.infer_not_equal(vs[i], Integer{*m.dom[i].begin()});
                if (! cs.empty()) c.get_constraint_state(hs[0]) = std::any{-1ll};
                (void)c.add_constraint_state(std::any{-2ll});
                (void)c.allocate_integer_variable_with_state(0_i, 1_i);
                if (rnd(0, 1) && ! stack.empty()) {
                    // a clone has the history too, but not the guesses
                    Timestamp t = stack.front().t;
                    t.how_many_guesses = 0, t.how_many_extra_proof_conditions = std::nullopt;
                    std::vector<int> keep = calls;
                    c.backtrack(t);
                    calls = keep;
                    check(c, vs, stack.front().m, hs, stack.front().cs, {}, {}, "in the clone, after backtracking");
                }
            }
            see("now");
        }
    }
    finish();
}
