import sys; sys.path.insert(0, __file__.rsplit("/", 1)[0])
from seeds import make
B = ["gcs/innards/integer_overflow.cc", "gcs/exception.cc"]
RX = "gcs/constraints/regular/regex.cc"
H = """#include <gcs/constraints/regular/regex.hh>
#include <gcs/exception.hh>
#include <cstdio>
#include <set>
#include <string>
#include <vector>
using namespace gcs;
using namespace gcs::innards;
static bool run(const std::string & re, std::vector<Integer> al, const std::vector<Integer> & w)
{
    auto nfa = regex_to_nfa(re, al);
    std::set<long> at{0};
    for (auto & v : w) {
        std::set<long> next;
        for (auto q : at)
            if (auto it = nfa.transitions[q].find(v); it != nfa.transitions[q].end())
                next.insert(it->second.begin(), it->second.end());
        at = next;
    }
    for (auto f : nfa.final_states)
        if (at.contains(f)) return true;
    return false;
}
static bool refused(const std::string & re)
{
    try { (void) regex_to_nfa(re, {}); return false; }
    catch (const InvalidProblemDefinitionException &) { return true; }
}
static int bad(const char * s) { printf("%s\\n", s); return 1; }
"""
S = [RX] + B

make("c01", "C16", [(RX, """                auto s = add_state(), a = add_state();
                auto x = build(*n.children[0]);
                eps[s].push_back(x.start);
                eps[s].push_back(a);
                eps[x.accept].push_back(x.start);
                eps[x.accept].push_back(a);
                return {s, a};""", """                // loop on the child's own ends: no need for two more states
                auto x = build(*n.children[0]);
                eps[x.start].push_back(x.accept);
                eps[x.accept].push_back(x.start);
                return x;""")], H + """int main() {
    if (! run("(1* 2)*", {}, {1_i, 2_i}) || ! run("(1* 2)*", {}, {})) return bad("a word of (1* 2)* is refused");
    if (run("(1* 2)*", {}, {1_i})) return bad("1 is not in (1* 2)*");
    return 0;
}""", S, "a star over a concatenation that begins or ends with a star", "the inner loop runs into the outer exit and words outside the language are accepted")

make("c02", "C16", [(RX, """        auto build(const CoreNode & n) -> Fragment
        {""", """        static auto accepts_empty(const CoreNode & n) -> bool
        {
            if (n.op == Core::Empty || n.op == Core::Star)
                return true;
            for (const auto & c : n.children)
                if (accepts_empty(*c))
                    return true;
            return false;
        }

        auto build(const CoreNode & n) -> Fragment
        {"""), (RX, """                eps[s].push_back(x.start);
                eps[s].push_back(a);
                eps[x.accept].push_back(x.start);""", """                eps[s].push_back(x.start);
                if (! accepts_empty(*n.children[0]))
                    eps[s].push_back(a);
                eps[x.accept].push_back(x.start);""")], H + """int main() {
    if (! run("1*", {}, {}) || ! run("(1*)*", {}, {})) return bad("the empty word is refused");
    if (! run("(1* 2)*", {}, {})) return bad("(1* 2)* does not accept the empty word");
    return 0;
}""", S, "a star over a concatenation only one part of which may be empty", "the empty word is not accepted")

make("c03", "C16", [(RX, """                for (auto y : builder.eps[x])
                    if (seen.insert(y).second)
                        stack.push_back(y);""", """                for (auto y : builder.eps[x])
                    if (seen.insert(y).second && y >= q) // fragments are laid out left to right
                        stack.push_back(y);""")], H + """int main() {
    if (! run("(1|2)* 3", {}, {1_i, 2_i, 3_i})) return bad("(1|2)* 3 refuses 1 2 3");
    if (! run("((1 2)|3)*", {}, {1_i, 2_i, 3_i, 1_i, 2_i})) return bad("((1 2)|3)* refuses 1 2 3 1 2");
    if (! run("((1|2) 3)*", {}, {2_i, 3_i, 2_i, 3_i})) return bad("((1|2) 3)* refuses 2 3 2 3");
    return 0;
}""", S, "a loop back over more than one state made of empty moves", "closures stop at the first state numbered lower, and words needing a second round are refused")

make("c04", "C15", [(RX, """            if (c == ' ' || c == '\\t' || c == '\\n') {""", """            if (c == ' ' || (c >= '\\t' && c <= '\\r')) {""")], H + """int main() {
    if (! refused("1\\r2") || ! refused("1 \\v")) return bad("an illegal character is accepted");
    return refused("1\\t2\\n") ? bad("white space is refused") : 0;
}""", S, "a carriage return, form feed or vertical tab in the text", "a text outside the syntax is accepted")

make("c05", "C15", [(RX, """            if (m < n)
                fail("quantifier upper bound is below its lower bound");
            return repeat_between(atom, n, m);""", """            if (m < n)
                fail("quantifier upper bound is below its lower bound");
            if (0 == n) // nothing is required: at most m copies
                return make_union(make_empty(), repeat_between(atom, 1, m));
            return repeat_between(atom, n, m);""")], H + """int main() {
    for (auto & w : std::vector<std::vector<Integer>>{{1_i}, {1_i, 1_i}})
        if (run("1{0,0}", {}, w)) return bad("1{0,0} accepts more than the empty word");
    return run("1{0,0}", {}, {}) && run("1{0,2}", {}, {1_i, 1_i}) ? 0 : bad("a word is refused");
}""", S, "a counted quantifier with both bounds zero", "an item that must not occur is allowed once")

make("c06", "C15", [(RX, """                for (auto j : match_ends(*node.children[0], sequence, i))
                    if (reachable.insert(j).second)
                        stack.push_back(j);""", """                auto more = match_ends(*node.children[0], sequence, i);
                more.erase(i); // an empty match gets nowhere
                auto before = reachable.size();
                reachable.insert(more.begin(), more.end());
                if (reachable.size() != before)
                    stack.push_back(*more.rbegin());""")], H + """int main() {
    std::vector<Integer> w{1_i, 2_i, 1_i, 3_i};
    if (! regex_reference_accepts("(1|2 1|1 2 1 2|3)*", {}, w)) return bad("a concatenation of three items is refused");
    if (! regex_reference_accepts("(1|1 2|2 2)*", {}, {1_i, 2_i, 2_i})) return bad("1 then 2 2 is refused");
    return 0;
}""", S, "a repeated item that matches at two lengths of which only the shorter leads on", "only the longest match is followed, and sequences in the language are refused")
