#include "common.hh"
#include <gcs/innards/s_expr.hh>
#include <format>
using namespace gcs::innards;
// an independent tree, reader and renderer
struct T { bool atom = true; std::string a; std::vector<T> k; };
static bool sp(char c) { return std::memchr(" \t\n\r\f\v", c, 6) != nullptr; }
static std::vector<std::string> tokens(const std::string & s)
{
    std::vector<std::string> r;
    bool open = false;
    for (char c : s) {
        if (sp(c)) { open = false; continue; }
        if (c == '(' || c == ')') { r.push_back(std::string(1, c)); open = false; continue; }
        if (! open) r.emplace_back();
        r.back() += c;
        open = true;
    }
    return r;
}
// every top-level term, or nothing when the brackets do not match
static bool read(const std::string & s, std::vector<T> & out)
{
    std::vector<T> st(1);
    for (auto & t : tokens(s)) {
        if (t == "(") st.emplace_back();
        else if (t == ")") {
            if (st.size() < 2) return false;
            T l = st.back();
            l.atom = false;
            st.pop_back();
            st.back().k.push_back(l);
        } else st.back().k.push_back(T{true, t, {}});
    }
    if (st.size() != 1) return false;
    out = st[0].k;
    return true;
}
static std::string render(const T & t, bool bare)
{
    if (t.atom) return t.a;
    std::string r;
    for (auto & c : t.k) r += (r.empty() && &c == &t.k[0] ? "" : " ") + render(c, false);
    return bare ? r : "(" + r + ")";
}
static bool same(const T & a, const T & b)
{
    if (a.atom != b.atom) return false;
    if (a.atom) return a.a == b.a;
    if (a.k.size() != b.k.size()) return false;
    for (size_t i = 0; i < a.k.size(); ++i) if (! same(a.k[i], b.k[i])) return false;
    return true;
}
static bool matches(const SExpr & e, const T & t)
{
    if (e.is_atom() != t.atom || e.is_list() == t.atom) return false;
    bool threw = false;
    if (t.atom) {
        try { (void)e.as_list(); } catch (const SExprParseError &) { threw = true; }
        return threw && e.as_atom() == t.a;
    }
    try { (void)e.as_atom(); } catch (const SExprParseError &) { threw = true; }
    auto & l = e.as_list();
    if (! threw || l.size() != t.k.size()) return false;
    for (size_t i = 0; i < l.size(); ++i) if (! matches(l[i], t.k[i])) return false;
    return true;
}
static SExpr build(const T & t)
{
    if (t.atom) return rnd(0, 1) ? SExpr::atom(t.a) : SExpr{t.a};
    std::vector<SExpr> k;
    for (auto & c : t.k) k.push_back(build(c));
    return rnd(0, 1) ? SExpr::list(std::move(k)) : SExpr{std::move(k)};
}
static std::string shown(const std::string & s)
{
    std::string r = "\"";
    for (unsigned char c : s) {
        char b[8];
        if (c < 32 || c > 126 || c == '"') std::snprintf(b, sizeof b, "\\x%02x", c), r += b;
        else r += (char)c;
    }
    return (r + "\"").substr(0, 3000);
}
static void check_text(const std::string & s)
{
    cur("text " + shown(s));
    std::vector<T> ts;
    bool ok = read(s, ts);
    std::string outcome;
    try {
        auto got = parse_s_expr_seq(s);
        if (! ok) fail("malformed text was accepted as a sequence");
        if (got.size() != ts.size()) fail("%zu terms were read where there are %zu", got.size(), ts.size());
        for (size_t i = 0; i < got.size(); ++i) if (! matches(got[i], ts[i])) fail("term %zu read is not the one written", i);
    }
    catch (const SExprParseError & e) { if (ok) fail("a well-formed sequence was refused: %s", e.what()); }
    try {
        auto got = parse_s_expr(s);
        if (! ok || ts.size() != 1) fail("text that is not exactly one term was accepted");
        if (! matches(got, ts[0])) fail("the term read is not the one written");
        auto plain = std::format("{}", got), bare = std::format("{:#}", got);
        if (plain != render(ts[0], false)) fail("rendered as %s", shown(plain).c_str());
        if (bare != render(ts[0], true)) fail("rendered bare as %s", shown(bare).c_str());
        auto again = parse_s_expr(plain);
        if (! (again == got) || ! matches(again, ts[0])) fail("reading the rendering back gives another term");
    }
    catch (const SExprParseError & e) { if (ok && ts.size() == 1) fail("a single well-formed term was refused: %s", e.what()); }
}
static std::string word()
{
    std::string r;
    int mode = rnd(0, 5);
    for (int n = rnd(1, mode == 0 ? 12 : 3); n > 0; --n) {
        char c;
        do c = mode == 1 ? (char)rnd(1, 255) : mode == 2 ? (char)rnd(-128, -1) : "abz_-019#{}:;,'\"\\[]<>=+"[rnd(0, 23)];
        while (sp(c) || c == '(' || c == ')' || ! c);
        r += c;
    }
    if (mode == 3 && rnd(0, 9) == 0) r += '\0';
    return r;
}
static T tree(int depth)
{
    T t;
    if (depth == 0 || rnd(0, 3) == 0) { t.a = word(); return t; }
    t.atom = false;
    for (int n = rnd(0, 4); n > 0; --n) t.k.push_back(tree(depth - 1));
    return t;
}
static std::string spaced(const std::string & s)
{
    std::string r;
    auto gap = [&](int min) { for (int n = rnd(0, 3) ? min : rnd(min, 3); n > 0; --n) r += " \t\n\r\f\v"[rnd(0, 5)]; };
    gap(0);
    for (size_t i = 0; i < s.size(); ++i) {
        if (s[i] == ' ') gap(1);
        else { if (s[i] == '(' || s[i] == ')') gap(0); r += s[i]; if (s[i] == '(' || s[i] == ')') gap(0); }
    }
    gap(0);
    return r;
}
template <typename F> static void refused(const char * what, const std::string & spec, const SExpr & e, F &&)
{
    bool threw = false;
    try { (void)std::vformat(spec, std::make_format_args(e)); } catch (const std::format_error &) { threw = true; }
    if (! threw) fail("the %s %s was accepted", what, spec.c_str());
}
int main(int argc, char ** argv)
{
    start(argc, argv);
    // every short text over the characters that matter
    const std::string al = std::string(" ()ab\t\n#", 8);
    for (int len = 0; len <= (g_thorough ? 7 : 5); ++len) {
        size_t total = 1;
        for (int i = 0; i < len; ++i) total *= al.size();
        for (size_t x = 0; x < total && time_left(); ++x) {
            std::string s;
            for (size_t y = x, i = 0; i < (size_t)len; ++i, y /= al.size()) s += al[y % al.size()];
            check_text(s);
        }
    }
    for (int c = 0; c < 256; ++c) {
        for (std::string s : {std::string(1, (char)c), "a" + std::string(1, (char)c) + "b", "(a" + std::string(1, (char)c) + ")", "(" + std::string(1, (char)c) + "a)"}) check_text(s);
    }
    for (const char * s : {"(all_different (_1 _2 _3))", "(-_1 + 17)", "((((()))))", "(_2 neq 1)", "a )", ") a", "( ) ( )", "(a", "a)", "(a))", "((a)"}) check_text(s);
    cur("format specifications");
    {
        auto e = parse_s_expr("(a b)");
        for (const char * s : {"{:x}", "{:##}", "{:#x}", "{:x#}", "{:5}", "{:-}"}) refused("specification", s, e, 0);
        if (std::format("[{:#}]", e) != "[a b]" || std::format("<{}|{:#}|{}>", e, e, e) != "<(a b)|a b|(a b)>") fail("the '#' of one field changes another");
        if (std::format("{:#}", parse_s_expr("()")) != "" || std::format("{}", parse_s_expr("( )")) != "()") fail("an empty list is rendered wrongly");
    }
    for (int it = 0; it < (g_thorough ? 300000 : 30000) && time_left(); ++it) {
        T t = tree(rnd(0, 5)), u = rnd(0, 1) ? tree(rnd(0, 2)) : t;
        if (rnd(0, 3) == 0 && ! u.k.empty()) u.k.back() = tree(1);
        if (rnd(0, 5) == 0 && ! u.k.empty()) u.k.pop_back();
        std::string s = render(t, false), v = render(u, false);
        cur("terms " + shown(s) + " and " + shown(v));
        auto e = build(t), f = build(u);
        if (! matches(e, t)) fail("the first term is not as built");
        if ((e == f) != same(t, u) || (f == e) != same(t, u) || (e != f) == same(t, u)) fail("equality is wrong");
        if ((std::format("{}", e) == std::format("{}", f)) != same(t, u)) fail("equal renderings do not mean equal terms");
        check_text(s);
        check_text(spaced(s));
        check_text(spaced(s + " " + v));
        // damage it
        std::string d = rnd(0, 1) ? spaced(s) : s + " " + v;
        for (int n = rnd(1, 3); n > 0 && ! d.empty(); --n) {
            size_t p = rnd(0, d.size() - 1);
            if (rnd(0, 1)) d.erase(p, 1);
            else d.insert(p, 1, "() a"[rnd(0, 3)]);
        }
        check_text(d);
    }
    // long and deep
    {
        std::string deep(2000, '('), wide = "(";
        deep += std::string(2000, ')');
        check_text(deep);
        for (int i = 0; i < 20000; ++i) wide += " x" + std::to_string(i);
        check_text(wide + ")");
        check_text(wide);
    }
    finish();
}
