from seeds_f import m, S, H
H = H + "#include <any>\n"
only = __import__("sys").argv[1:]
_m = m
def m(sid, *a, **k):
    if not only or sid in only: _m(sid, *a, **k)


if __name__ == "__main__":
    m("g01", "C19", [(S, "return _imp->constraint_states.back()[h.index];", "return _imp->constraint_states.front()[h.index];")], H + """int main() {
    State s;
    auto h = s.add_constraint_state(std::any{1});
    auto t = s.new_epoch();
    s.get_constraint_state(h) = std::any{2};
    s.backtrack(t);
    return std::any_cast<int>(s.get_constraint_state(h)) == 1 ? 0 : bad("a constraint state is not restored");
}""", "changing a constraint state in an epoch and backtracking", "constraint states are kept in the first epoch only, so a change is not undone")
    m("g02", "C19", [(S, "subsearch ? make_optional<unsigned long long>(_imp->extra_proof_conditions.size()) : nullopt", "subsearch ? make_optional<unsigned long long>(_imp->guesses.size()) : nullopt")], H + """int main() {
    State s;
    auto v = s.allocate_integer_variable_with_state(1_i, 9_i);
    s.add_extra_proof_condition(Cond{v, Op::Less, 9_i});
    auto t = s.new_epoch(true);
    s.backtrack(t);
    int n = 0;
    for (auto l : s.guesses()) { (void)l; ++n; }
    return n == 1 ? 0 : bad("an extra condition from before is gone");
}""", "a subsearch epoch opened when there are more extra conditions than guesses", "backtracking keeps as many extra conditions as there were guesses")
    m("g03", "C19", [(S, "while (_imp->on_backtracks.size() > t.when) {", "if (_imp->on_backtracks.size() > t.when) {")], H + """int main() {
    State s;
    int a = 0, b = 0;
    auto t = s.new_epoch();
    s.on_backtrack([&] { ++a; });
    (void)s.new_epoch();
    s.on_backtrack([&] { ++b; });
    s.backtrack(t);
    return a == 1 && b == 1 ? 0 : bad("a callback is not called");
}""", "backtracking over two epochs at once", "only the newest epoch's callbacks are called, and those of the one below stay registered")
    m("g04", "C19", [(S, "_imp->on_backtracks.back().push_back(move(f));", "_imp->on_backtracks.front().push_back(move(f));")], H + """int main() {
    State s;
    int a = 0;
    auto t = s.new_epoch();
    s.on_backtrack([&] { ++a; });
    s.backtrack(t);
    return a == 1 ? 0 : bad("the callback is not called");
}""", "a callback registered below the root", "a callback is registered with the root, and so not called when the epoch is undone")
    m("g05", "C19", [(S, "result._imp->constraint_states = _imp->constraint_states;", "result._imp->constraint_states.resize(_imp->constraint_states.size(), _imp->constraint_states.back());\n    result._imp->constraint_states.back() = _imp->constraint_states.back();")], H + """int main() {
    State s;
    auto h = s.add_constraint_state(std::any{1});
    auto t = s.new_epoch();
    s.get_constraint_state(h) = std::any{2};
    (void)s.new_epoch();
    s.get_constraint_state(h) = std::any{3};
    auto t2 = s.new_epoch();
    State c = s.clone();
    c.backtrack(t2);
    return std::any_cast<int>(c.get_constraint_state(h)) == 3 && (c.backtrack(Timestamp{t.when + 1, 0, std::nullopt}), std::any_cast<int>(c.get_constraint_state(h)) == 2) ? 0 : bad("the clone backtracks to something else");
}""", "cloning below the root, and backtracking the clone", "a clone holds the newest constraint states in every epoch")
    m("g06", "C19", [(S, "    _imp->constraint_states.back().push_back(c);\n", "    for (auto & states : _imp->constraint_states)\n        states.push_back(c);\n")], H + """int main() {
    State s;
    auto h = s.add_constraint_state(std::any{1});
    auto t = s.new_epoch();
    (void)s.add_constraint_state(std::any{2});
    s.backtrack(t);
    auto k = s.add_constraint_state(std::any{3});
    return k.index == h.index + 1 ? 0 : bad("a constraint state from an undone epoch is still there");
}""", "a constraint state added below the root, and backtracking", "constraint states are added to all epochs and survive backtracking")
    m("g07", "C19", [(S, """    _imp->guesses.erase(_imp->guesses.begin() + t.how_many_guesses, _imp->guesses.end());
    if (t.how_many_extra_proof_conditions)
""", """    if (! t.how_many_extra_proof_conditions)
        _imp->guesses.erase(_imp->guesses.begin() + t.how_many_guesses, _imp->guesses.end());
    else
""")], H + """int main() {
    State s;
    auto v = s.allocate_integer_variable_with_state(1_i, 9_i);
    auto t = s.new_epoch(true);
    s.guess(Cond{v, Op::Less, 5_i});
    s.backtrack(t);
    for (auto l : s.guesses()) { (void)l; return bad("a guess is still there"); }
    return 0;
}""", "a guess made in a subsearch, and backtracking to its start", "guesses made in a subsearch survive it")
    m("g08", "C19", [(S, "_imp->integer_variable_states.push_back(_imp->integer_variable_states.back());", "_imp->integer_variable_states.push_back(move(_imp->integer_variable_states.back()));")], H + """int main() {
    State s;
    (void)s.allocate_integer_variable_with_state(1_i, 9_i);
    auto t = s.new_epoch();
    s.backtrack(t);
    return s.what_variable_id_will_be_created_next().index == 1 ? 0 : bad("the variable is gone");
}""", "backtracking", "opening an epoch takes the domains away from the epoch below")
