#include "common.hh"
#include <gcs/constraints/regular/regex.hh>
#include <gcs/exception.hh>
#include <memory>
#include <optional>
using namespace gcs;
using namespace gcs::innards;
// an independent reading of the documented syntax: items with bounds, matched by sets of ends
struct Re;
using P = std::shared_ptr<Re>;
struct Re { int kind = 0; std::vector<P> k; std::set<ll> sym; i128 lo = 0, hi = 0; };   // 0 symbols, 1 sequence, 2 choice, 3 repetition (hi < 0: no limit)
struct Bad {};
static bool g_huge;   // a class too large to list
struct Rd {
    const std::string & s;
    const std::set<ll> & al;
    size_t p = 0;
    i128 work = 0;
    void blank() { while (p < s.size() && (s[p] == ' ' || s[p] == '\t' || s[p] == '\n')) ++p; }
    char look() { blank(); return p < s.size() ? s[p] : '\0'; }
    bool take(char c) { if (look() != c || p >= s.size()) return false; ++p; return true; }
    bool num() { char c = look(); return c >= '0' && c <= '9'; }
    i128 number()
    {
        if (! num()) throw Bad{};
        i128 v = 0;
        while (p < s.size() && s[p] >= '0' && s[p] <= '9') v = v * 10 + (s[p++] - '0');
        return v;
    }
    P node(int k, std::vector<P> c = {}) { auto r = std::make_shared<Re>(); r->kind = k; r->k = c; return r; }
    P expr()
    {
        std::vector<P> c{term()};
        while (take('|')) c.push_back(term());
        return c.size() == 1 ? c[0] : node(2, c);
    }
    P term()
    {
        std::vector<P> c;
        do c.push_back(factor());
        while (num() || look() == '.' || look() == '[' || look() == '(');
        return c.size() == 1 ? c[0] : node(1, c);
    }
    P rep(P a, i128 lo, i128 hi) { auto r = node(3, {a}); r->lo = lo; r->hi = hi; return r; }
    P factor()
    {
        P a = atom();
        if (take('*')) return rep(a, 0, -1);
        if (take('+')) return rep(a, 1, -1);
        if (take('?')) return rep(a, 0, 1);
        if (! take('{')) return a;
        i128 n = number();
        if (take('}')) return rep(a, n, n);
        if (! take(',')) throw Bad{};
        if (take('}')) return rep(a, n, -1);
        i128 m = number();
        if (! take('}') || m < n) throw Bad{};
        return rep(a, n, m);
    }
    P atom()
    {
        P r = node(0);
        if (num()) { r->sym = {(ll)number()}; return r; }
        if (take('.')) { r->sym = al; return r; }
        if (take('(')) {
            r = expr();
            if (! take(')')) throw Bad{};
            return r;
        }
        if (! take('[')) throw Bad{};
        bool neg = take('^');
        std::set<ll> it;
        if (! num()) throw Bad{};
        while (num()) {
            i128 a = number(), b = a;
            if (take('-')) b = number();
            if (a > b) std::swap(a, b);
            if (b > INT64_MAX) throw Bad{};
            if (b - a > 5000) g_huge = true;
            else for (i128 v = a; v <= b; ++v) it.insert((ll)v);
        }
        if (! take(']')) throw Bad{};
        if (! neg) r->sym = it;
        else for (auto v : al) if (! it.contains(v)) r->sym.insert(v);
        return r;
    }
};
static bool lexes(const std::string & s)
{
    for (size_t i = 0; i < s.size();) {
        if (s[i] >= '0' && s[i] <= '9') {
            i128 v = 0;
            while (i < s.size() && s[i] >= '0' && s[i] <= '9') { v = v * 10 + (s[i++] - '0'); if (v > INT64_MAX) return false; }
            continue;
        }
        if (! s[i] || ! std::strchr(" \t\n|+*()?{},.[]-^", s[i])) return false;
        ++i;
    }
    return true;
}
static P parse(const std::string & s, const std::set<ll> & al)
{
    if (! lexes(s)) return nullptr;
    try {
        Rd r{s, al};
        P e = r.expr();
        r.blank();
        return r.p == s.size() ? e : nullptr;
    } catch (const Bad &) { return nullptr; }
}
static std::set<size_t> step(const Re & r, const std::vector<ll> & w, const std::set<size_t> & from)
{
    std::set<size_t> to;
    if (r.kind == 0) {
        for (auto i : from) if (i < w.size() && r.sym.contains(w[i])) to.insert(i + 1);
        return to;
    }
    if (r.kind == 1) {
        to = from;
        for (auto & k : r.k) to = step(*k, w, to);
        return to;
    }
    if (r.kind == 2) {
        for (auto & k : r.k) { auto t = step(*k, w, from); to.insert(t.begin(), t.end()); }
        return to;
    }
    auto c = from;
    i128 n = 0;
    std::set<size_t> prev;
    for (; n < r.lo; ++n) { auto nx = step(*r.k[0], w, c); if (nx == c) { n = r.lo; break; } c = nx; }
    to = c;
    for (; r.hi < 0 || n < r.hi; ++n) {
        c = step(*r.k[0], w, c);
        auto b = to.size();
        to.insert(c.begin(), c.end());
        if (to.size() == b) break;
    }
    return to;
}
// sizes of the tree the parser builds, to keep within memory and recursion limits
static i128 size(const Re & r)
{
    i128 t = 1;
    for (auto & k : r.k) t += size(*k);
    if (r.kind == 3) t = 2 + t * (std::max(r.lo, r.hi) + 2);
    if (r.kind == 0) t += (i128)r.sym.size();
    return t > 1000000 ? 1000000 : t;
}
static void symbols(const Re & r, std::vector<ll> & out)
{
    if (r.kind == 0) out.insert(out.end(), r.sym.begin(), r.sym.end());
    for (auto & k : r.k) symbols(*k, out);
}
static void draw(const Re & r, std::vector<ll> & w, size_t longest)
{
    if (w.size() > longest) return;
    if (r.kind == 0) {
        if (r.sym.empty()) return;
        auto i = r.sym.begin();
        std::advance(i, rnd(0, (ll)r.sym.size() - 1));
        w.push_back(*i);
    }
    if (r.kind == 1) for (auto & k : r.k) draw(*k, w, longest);
    if (r.kind == 2) draw(*r.k[(size_t)rnd(0, (ll)r.k.size() - 1)], w, longest);
    if (r.kind == 3) {
        i128 n = r.lo + rnd(0, r.hi < 0 ? 3 : (ll)std::min<i128>(3, r.hi - r.lo));
        for (i128 i = 0; i < n && i < 20; ++i) draw(*r.k[0], w, longest);
    }
}
static std::string rnum()
{
    if (rnd(0, 40) == 0) return std::to_string(pool(0)[rnd(0, 10)] & INT64_MAX);
    std::string z = rnd(0, 12) ? "" : "0";
    return z + std::to_string(rnd(0, 9) ? rnd(0, 5) : rnd(0, 14));
}
static std::string sp() { return rnd(0, 6) ? "" : rnd(0, 1) ? " " : rnd(0, 1) ? "\t" : "\n"; }
static std::string gen(int d);
static std::string gatom(int d)
{
    int k = (int)rnd(0, d > 0 ? 6 : 4);
    if (k < 2) return rnum() + " ";
    if (k == 2) return ".";
    if (k < 5) {
        std::string s = rnd(0, 2) ? "[" : "[" + sp() + "^" + sp();
        int n = (int)rnd(1, 3);
        for (int i = 0; i < n; ++i) {
            ll a = rnd(0, 6), b = rnd(0, 6);
            if (rnd(0, 60) == 0) { a = INT64_MAX - rnd(0, 3); b = INT64_MAX - rnd(0, 3); }
            s += std::to_string(a) + (rnd(0, 1) ? sp() + "-" + sp() + std::to_string(b) : "") + (rnd(0, 8) ? " " : "\n");
        }
        return s + "]";
    }
    return "(" + sp() + gen(d - 1) + ")";
}
static std::string gfac(int d)
{
    std::string s = gatom(d) + sp();
    switch (rnd(0, 9)) {
    case 0: return s + "*";
    case 1: return s + "+";
    case 2: return s + "?";
    case 3: return s + "{" + sp() + std::to_string(rnd(0, 4)) + sp() + "}";
    case 4: return s + "{" + std::to_string(rnd(0, 3)) + sp() + ",}";
    case 5: { ll n = rnd(0, 3); return s + "{" + std::to_string(n) + "," + sp() + std::to_string(n + rnd(rnd(0, 9) ? 0 : -1, 3)) + "}"; }
    default: return s;
    }
}
static std::string gen(int d)
{
    std::string s;
    int n = (int)rnd(1, 3);
    for (int i = 0; i < n; ++i) s += gfac(d) + sp();
    return rnd(0, 2) ? s : s + "|" + gen(d > 0 ? d - 1 : 0);
}
static std::string shown(const std::string & s)
{
    std::string r;
    for (unsigned char c : s) {
        char b[8];
        if (c < 32 || c > 126) std::snprintf(b, sizeof b, "\\x%02x", c), r += b;
        else r += (char)c;
    }
    return r;
}
static void check(const std::string & s, const std::set<ll> & al, int words)
{
    std::string a;
    std::vector<Integer> alv;
    for (auto v : al) { a += " " + std::to_string(v); alv.push_back(Integer{v}); }
    if (rnd(0, 1)) std::shuffle(alv.begin(), alv.end(), g_rng);
    if (rnd(0, 3) == 0 && ! alv.empty()) alv.push_back(alv[0]);
    curf("regular expression \"%s\" over the alphabet {%s }", shown(s).c_str(), a.c_str());
    g_huge = false;
    P e = parse(s, al);
    if (g_huge) return;
    if (e && size(*e) > 3000) return;
    bool threw = false;
#ifdef NFA
    const char * fn = "regex_to_nfa";
    RegexNfa nfa;
#else
    const char * fn = "regex_reference_accepts";
#endif
    try {
#ifdef NFA
        nfa = regex_to_nfa(s, alv);
#else
        (void)regex_reference_accepts(s, alv, {});
#endif
    } catch (const InvalidProblemDefinitionException &) { threw = true; }
    catch (const std::exception & x) { fail("%s threw the wrong exception: %s", fn, x.what()); }
    if (threw != ! e) fail(threw ? "%s rejects a well-formed expression" : "%s accepts a malformed expression", fn);
    if (! e) return;
#ifdef NFA
    std::set<long> fin(nfa.final_states.begin(), nfa.final_states.end());
    if (nfa.num_states < 1 || (long)nfa.transitions.size() != nfa.num_states) fail("%ld states, %zu rows of transitions", nfa.num_states, nfa.transitions.size());
    for (auto & t : nfa.transitions) for (auto & [v, ts] : t) for (auto q : ts) if (q < 0 || q >= nfa.num_states) fail("a transition to state %ld of %ld", q, nfa.num_states);
    for (auto q : fin) if (q < 0 || q >= nfa.num_states) fail("final state %ld of %ld", q, nfa.num_states);
#endif
    std::vector<ll> sy(al.begin(), al.end());
    symbols(*e, sy);
    std::sort(sy.begin(), sy.end());
    sy.erase(std::unique(sy.begin(), sy.end()), sy.end());
    sy.push_back(77777);
    for (int it = 0; it < words; ++it) {
        std::vector<ll> w;
        // most words are drawn from the language, some of them then damaged
        if (rnd(0, 3)) {
            draw(*e, w, it % 3 ? 5 : 12);
            if (rnd(0, 2) == 0 && ! w.empty()) w.erase(w.begin() + rnd(0, (ll)w.size() - 1));
            if (rnd(0, 3) == 0 && ! w.empty()) w[(size_t)rnd(0, (ll)w.size() - 1)] = sy[(size_t)rnd(0, (ll)sy.size() - 1)];
            if (rnd(0, 3) == 0) w.insert(w.begin() + rnd(0, (ll)w.size()), sy[(size_t)rnd(0, (ll)sy.size() - 1)]);
        }
        else
            for (auto len = rnd(0, 4); len; --len) w.push_back(sy[(size_t)rnd(0, (ll)sy.size() - 1)]);
        std::vector<Integer> wi;
        std::string ws;
        for (auto v : w) { wi.push_back(Integer{v}); ws += " " + std::to_string(v); }
        curf("regular expression \"%s\" over the alphabet {%s }, word [%s ]", shown(s).c_str(), a.c_str(), ws.c_str());
        bool want = step(*e, w, {0}).contains(w.size());
#ifndef NFA
        if (regex_reference_accepts(s, alv, wi) != want) fail("the reference matcher says %d, expected %d", ! want, want);
#else
        std::set<long> at{0};
        for (auto v : w) {
            std::set<long> nx;
            for (auto x : at) if (auto f = nfa.transitions[x].find(Integer{v}); f != nfa.transitions[x].end()) nx.insert(f->second.begin(), f->second.end());
            at = nx;
        }
        bool got = std::any_of(at.begin(), at.end(), [&](long x) { return fin.contains(x); });
        if (got != want) fail("the automaton says %d, expected %d", got, want);
#endif
    }
}
int main(int argc, char ** argv)
{
    start(argc, argv);
    for (auto s : {"", " ", "9223372036854775807", "9223372036854775808", "[9223372036854775807-9223372036854775805]", "[9223372036854775807-9223372036854775807]", "1{0}", "1{0,0}", "(1{0,}){3}", "(1*)*", "(1?|2*)+", "1{9223372036854775808}",
             "1{2,1}", "[]", "[^]", "[1-]", "[-1]", "[1-2-3]", "1|", "|1", "()", "1**", "1+?", "{2}", "1{,2}", "1{}", "1,2", "1-2", "^1", "a", "1\r2", "0001", "1 2 3", "12 3", ".", ".*", "[^1]", "[3-1]", "(1", "1)", "[1", "[1]]", "((((1))))", "(1|2)(3|4)", "(12|1)2*", "1{1,}", "1 \n\t2", "999999999999999999999999999999999999999"})
        for (auto & al : {std::set<ll>{}, std::set<ll>{1, 2, 3}, std::set<ll>{-2, 0, 1, INT64_MAX}}) check(s, al, 200);
    // every short text
    const std::string cs = "12|*{},.[]-^(+? )";
    int longest = g_thorough ? 5 : 4;
    for (int n = 1; n <= longest; ++n) {
        long total = 1;
        for (int i = 0; i < n; ++i) total *= (long)cs.size();
        for (long c = 0; c < total && time_left(); ++c) {
            std::string s;
            for (long x = c, i = 0; i < n; ++i, x /= (long)cs.size()) s += cs[(size_t)(x % (long)cs.size())];
            check(s, {1, 2}, 6);
        }
    }
    for (long it = 0; (it < (g_thorough ? 60000 : 5000)) && time_left(); ++it) {
        std::string s = gen((int)rnd(0, 3));
        if (rnd(0, 3) == 0 && ! s.empty())
            for (int k = (int)rnd(1, 2); k; --k) {
                size_t at = (size_t)rnd(0, (ll)s.size() - 1);
                switch (rnd(0, 2)) {
                case 0: s.erase(at, 1); break;
                case 1: s.insert(at, 1, cs[(size_t)rnd(0, (ll)cs.size() - 1)]); break;
                default: s[at] = "0123|*{},.[]-^(+? )a\r\n"[rnd(0, 21)];
                }
                if (s.empty()) break;
            }
        std::set<ll> al;
        ll lo = rnd(-2, 2), hi = lo + rnd(0, 5);
        for (ll v = lo; v <= hi; ++v) al.insert(v);
        check(s, al, 40);
    }
    finish();
}
