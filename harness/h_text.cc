// Calls the string functions of the library and records inputs and outputs.
#include "rec.h"
#include "gul14/escape.h"
#include "gul14/join_split.h"
#include "gul14/tokenize.h"
#include "gul14/replace.h"
#include "gul14/trim.h"
#include "gul14/case_ascii.h"
#include "gul14/substring_checks.h"
#include "gul14/string_view.h"
#include "gul14/string_util.h"
#include "gul14/cat.h"
#include "gul14/hexdump.h"
#include "gul14/SmallVector.h"
// FAMILY selects the functions under test; only those are compiled.
#define F_escape 1
#define F_split 2
#define F_tokenize 3
#define F_replace 4
#define F_trim 5
#define F_sub 6
#define F_sview 7
#define F_cat 8
#define F_hex 9
#include <list>
#include <queue>
#include <deque>
#include <sstream>
#include <iomanip>
#include <iostream>
using namespace gul14;
using std::string;
static string_view sv(const Exact& e) { return string_view(e.data(), e.size()); }

// ------------------------------------------------------------------------------------------------ escape
#if FAMILY == F_escape
static void do_escape(Rec& R, const string& s)
{
    Exact e(s);
    R.begin("escape").s("s", s).call();
    string o = escape(sv(e));
    R.s("o", o);
    string back = unescape(o);
    R.s("b", back).end();
}
static void do_unescape(Rec& R, const string& s)
{
    Exact e(s);
    R.begin("unescape").s("s", s).call();
    R.s("o", unescape(sv(e))).end();
}
static void fam_escape(Rec& R, Gen& g, bool th)
{
    for (auto& s : all_strings(string("\"\\nx0a\x01\x7f\x80\xff\n\t\r \x1f\x20", 16), 3)) do_escape(R, s);
    for (int a = 0; a < 256; ++a) {
        do_escape(R, string(1, char(a)));
        for (int b : { 0, 34, 92, 48, 120, 127, 128, 255 }) { do_escape(R, string{ char(a), char(b) }); do_escape(R, string{ char(b), char(a) }); }
    }
    for (auto& s : all_strings("\\xn\"4gAf", th ? 6 : 5)) do_unescape(R, s);
    const string al = "\\xnrt\"0123456789abcdefABCDEFgG ";
    for (int i = 0; i < (th ? 60000 : 6000); ++i) {
        do_escape(R, g.bytes(g.u(40)));
        do_unescape(R, g.str(al, g.u(30)));
        do_unescape(R, g.bytes(g.u(30)));
        string s; for (int k = g.u(8); k >= 0; --k) { switch (g.u(4)) { case 0: s += "\\x"; s += g.str("0123456789abcdefABCDEFgh", g.u(4)); break;
            case 1: s += '\\'; s += char(g.u(256)); break; case 2: s += g.bytes(g.u(3)); break; default: s += "\\\\"; } }
        do_unescape(R, s);
    }
    for (int c = 0; c < 256; ++c) { do_unescape(R, string("\\") + char(c)); do_unescape(R, string("\\x4") + char(c)); do_unescape(R, string("\\x") + char(c) + "4"); do_unescape(R, string("a\\") + char(c) + "1b"); }
    for (int i = 0; i < 256; ++i) { char b[8]; std::snprintf(b, 8, "\\x%02x", i); do_unescape(R, b); std::snprintf(b, 8, "\\x%02X", i); do_unescape(R, b); }
    for (int n : { 100, 255, 256, 257, 1000, 4097 }) { do_escape(R, g.bytes(n)); do_unescape(R, g.str("\\xn4", n)); }
}
#endif
// ------------------------------------------------------------------------------------------------ split / join
#if FAMILY == F_split
static void do_split(Rec& R, const string& s, const string& d)
{
    Exact es(s), ed(d);
    R.begin("split").s("s", s).s("d", d).call();
    auto o = split(sv(es), sv(ed));
    R.ss("o", o);
    auto o2 = split_sv(sv(es), sv(ed));
    // views must lie inside the input text
    bool inside = true;
    for (auto& v : o2) if (v.data() < es.data() || v.data() + v.size() > es.data() + es.size()) inside = false;
    R.ss("v", o2).b("in", inside);
    auto o3 = split<std::list<string_view>>(sv(es), sv(ed));
    auto o4 = split<SmallVector<string, 2>>(sv(es), sv(ed));
    using Q = std::queue<string>;
    auto o5 = split<Q>(sv(es), sv(ed), [](Q& q, string_view x) { q.emplace(x); });
    std::vector<string> o5v; while (!o5.empty()) { o5v.push_back(o5.front()); o5.pop(); }
    R.ss("l", o3).ss("sm", o4).ss("q", o5v);
    R.s("j", join(o, sv(ed))).s("jv", join(o2.begin(), o2.end(), sv(ed))).end();
}
static void do_resplit(Rec& R, const string& s, const std::regex& re, const char* set, const char* mode)
{
    Exact es(s);
    R.begin("resplit").s("s", s).s("set", string(set)).t("m", mode).call();
    auto o = split(sv(es), re);
    R.ss("o", o);
    auto o2 = split<std::list<string_view>>(sv(es), re);
    R.ss("v", o2);
    using Q = std::queue<string>;
    auto o5 = split<Q>(sv(es), re, [](Q& q, string_view x) { q.emplace(x); });
    std::vector<string> o5v; while (!o5.empty()) { o5v.push_back(o5.front()); o5.pop(); }
    R.ss("q", o5v).end();
}
static void do_join(Rec& R, const std::vector<string>& parts, const string& glue)
{
    Exact eg(glue);
    R.begin("join").ss("p", parts).s("d", glue).call();
    R.s("o", join(parts, sv(eg)));
    std::list<string_view> l(parts.begin(), parts.end());
    R.s("v", join(l, sv(eg))).end();
}
static void fam_split(Rec& R, Gen& g, bool th)
{
    auto ds = all_strings("ab", 3);
    for (auto& s : all_strings("abc", th ? 7 : 5)) for (auto& d : ds) do_split(R, s, d);
    std::regex r1("[,;]"), r2("[,;]+"), r3("[,;]*"), r4("ab");
    for (auto& s : all_strings("x,;", th ? 8 : 6)) { do_resplit(R, s, r1, ",;", "one"); do_resplit(R, s, r2, ",;", "plus"); do_resplit(R, s, r3, ",;", "star"); }
    for (auto& s : all_strings("abc", th ? 7 : 5)) do_resplit(R, s, r4, "ab", "word");
    std::vector<string> ps = { "", "a", "ab", string("\0", 1), "," };
    for (auto& gl : { string(""), string(","), string("--"), string("\0x", 2) }) {
        do_join(R, {}, gl);
        for (auto& a : ps) { do_join(R, { a }, gl); for (auto& b : ps) { do_join(R, { a, b }, gl); for (auto& c : ps) { do_join(R, { a, b, c }, gl); do_join(R, { a, b, c, a }, gl); } } }
    }
    for (int i = 0; i < (th ? 20000 : 2000); ++i) {
        string d = g.coin(15) ? g.bytes(1 + g.u(3)) : g.str(string("ab\0-", 4), g.u(5)), s;
        for (int k = g.u(12); k > 0; --k) s += g.coin(50) ? d : g.coin(50) ? d.substr(0, g.u(d.size() + 1)) : g.str(string("ab\0-\xff", 5), g.u(6));
        do_split(R, s, d);
        std::vector<string> p; for (int k = g.u(10); k > 0; --k) p.push_back(g.bytes(g.u(6)));
        do_join(R, p, g.bytes(g.u(4)));
        do_resplit(R, g.str("xy,;", g.u(40)), r2, ",;", "plus"); do_resplit(R, g.str("xy,;", g.u(30)), r3, ",;", "star"); do_resplit(R, g.str(string("ab\0\xff", 4), g.u(40)), r4, "ab", "word");
    }
    for (int n : { 300, 1025 }) { do_split(R, g.str("ab,", n), ","); do_split(R, g.str("ab,", n), "ab"); do_split(R, string(n, 'a'), "aa"); }
}
#endif
// ------------------------------------------------------------------------------------------------ tokenize
#if FAMILY == F_tokenize
static void do_tok(Rec& R, const string& s, const string* d)
{
    Exact es(s), ed(d ? *d : string());
    R.begin(d ? "tok" : "tokdef").s("s", s); if (d) R.s("d", *d); R.call();
    auto o = d ? tokenize(sv(es), sv(ed)) : tokenize(sv(es));
    auto o2 = d ? tokenize_sv(sv(es), sv(ed)) : tokenize_sv(sv(es));
    bool inside = true;
    for (auto& v : o2) if (v.data() < es.data() || v.data() + v.size() > es.data() + es.size()) inside = false;
    R.ss("o", o).ss("v", o2).b("in", inside);
    auto o3 = d ? tokenize<std::list<string_view>>(sv(es), sv(ed)) : tokenize<std::list<string_view>>(sv(es));
    auto o4 = d ? tokenize<SmallVector<string, 2>>(sv(es), sv(ed)) : tokenize<SmallVector<string, 2>>(sv(es));
    using Q = std::queue<string>;
    auto ins = [](Q& q, string_view x) { q.emplace(x); };
    auto o5 = d ? tokenize<Q>(sv(es), sv(ed), ins) : tokenize<Q>(sv(es), default_whitespace_characters, ins);
    std::vector<string> o5v; while (!o5.empty()) { o5v.push_back(o5.front()); o5.pop(); }
    R.ss("l", o3).ss("sm", o4).ss("q", o5v).end();
}
static void fam_tokenize(Rec& R, Gen& g, bool th)
{
    std::vector<string> ds = { "", "a", "b", "ab", "ba", "aab", string("\0", 1), string("a\0", 2) };
    for (auto& s : all_strings(string("abc\0", 4), th ? 7 : 5)) for (auto& d : ds) do_tok(R, s, &d);
    for (auto& s : all_strings(" x\t", 6)) do_tok(R, s, nullptr);
    for (int c = 0; c < 256; ++c) { do_tok(R, string("A") + char(c) + "B", nullptr); do_tok(R, string(1, char(c)), nullptr); string d(1, char(c)); do_tok(R, string("A") + char(c) + "B" + char(c ^ 1), &d); }
    for (int i = 0; i < (th ? 20000 : 2500); ++i) {
        string d = g.bytes(g.u(5)), s;
        for (int k = g.u(30); k > 0; --k) s += (!d.empty() && g.coin(50)) ? d[g.u(d.size())] : char(g.u(256));
        do_tok(R, s, &d); do_tok(R, s, nullptr);
        do_tok(R, g.str(" \t\r\n\a\b\f\vxyz", g.u(30)), nullptr);
    }
    for (int n : { 300, 1025 }) { string d = ", "; do_tok(R, g.str("ab, ", n), &d); do_tok(R, g.str("ab \t", n), nullptr); }
}
#endif
// ------------------------------------------------------------------------------------------------ replace
#if FAMILY == F_replace
static void do_rep(Rec& R, const string& s, const string& n, const string& r)
{
    Exact es(s), en(n), er(r);
    R.begin("replace").s("s", s).s("n", n).s("r", r).call();
    R.s("o", replace(sv(es), sv(en), sv(er)));
    string t = s;
    string& ref = replace_inplace(t, sv(en), sv(er));
    R.s("p", t).b("ref", &ref == &t).end();
}
static void fam_replace(Rec& R, Gen& g, bool th)
{
    auto ns = all_strings("ab", 3);
    std::vector<string> rs = { "", "a", "ab", "ba", "aa", "aba", "bbbb" };
    for (auto& s : all_strings("ab", th ? 9 : 7)) for (auto& n : ns) for (auto& r : rs) if (th || (s.size() + r.size() + n.size()) % 2 == 0 || s.size() < 6) do_rep(R, s, n, r);
    for (int i = 0; i < (th ? 40000 : 4000); ++i) {
        string n = g.str(string("ab\0\xff", 4), g.u(5)), s;
        for (int k = g.u(10); k > 0; --k) s += g.coin(50) ? n : g.coin(50) ? n.substr(0, g.u(n.size() + 1)) : g.bytes(g.u(4));
        string r = g.coin(30) ? n + g.bytes(g.u(3)) : g.coin(30) ? n.substr(0, n.size() / 2) + n : g.bytes(g.u(6));
        do_rep(R, s, n, r);
    }
    for (int n : { 300, 1025 }) { do_rep(R, g.str("ab", n), "ab", "bab"); do_rep(R, string(n, 'a'), "aa", "a"); do_rep(R, string(n, 'a'), "a", "aa"); }
}
#endif
// ------------------------------------------------------------------------------------------------ trim
#if FAMILY == F_trim
static void do_trim(Rec& R, const string& s, const string* w)
{
    Exact es(s), ew(w ? *w : string());
    R.begin(w ? "trim" : "trimdef").s("s", s); if (w) R.s("w", *w); R.call();
    if (w) R.s("o", trim(sv(es), sv(ew))).s("l", trim_left(sv(es), sv(ew))).s("r", trim_right(sv(es), sv(ew)));
    else R.s("o", trim(sv(es))).s("l", trim_left(sv(es))).s("r", trim_right(sv(es)));
    auto a = w ? trim_sv(sv(es), sv(ew)) : trim_sv(sv(es));
    auto b = w ? trim_left_sv(sv(es), sv(ew)) : trim_left_sv(sv(es));
    auto c = w ? trim_right_sv(sv(es), sv(ew)) : trim_right_sv(sv(es));
    R.s("ov", string(a)).s("lv", string(b)).s("rv", string(c)).end();
}
static void fam_trim(Rec& R, Gen& g, bool th)
{
    std::vector<string> ws = { "", "a", "b", "ab", "ba", string("\0", 1), string("a\0", 2) };
    for (auto& s : all_strings(string("abc\0", 4), th ? 7 : 5)) for (auto& w : ws) do_trim(R, s, &w);
    for (auto& s : all_strings(" x\n", 6)) do_trim(R, s, nullptr);
    for (int c = 0; c < 256; ++c) { string s = string("A") + char(c); do_trim(R, s, nullptr); do_trim(R, char(c) + s, nullptr); string w(1, char(c)); do_trim(R, char(c) + s, &w); do_trim(R, string("x") + w + "x" + w, &w); }
    for (int i = 0; i < (th ? 30000 : 4000); ++i) {
        string w = g.bytes(g.u(5)), s = g.bytes(g.u(10));
        if (!w.empty()) s = g.str(w, g.u(6)) + s + g.str(w, g.u(6));
        do_trim(R, s, &w);
        do_trim(R, g.str(" \t\r\n\a\b\f\v", g.u(5)) + g.bytes(g.u(10)) + g.str(" \t\r\n\a\b\f\v", g.u(5)), nullptr);
    }
    for (int n : { 300, 1025 }) { do_trim(R, string(n, ' ') + "x" + string(n, '\t'), nullptr); do_trim(R, string(n, ' '), nullptr); }
}
#endif
// ------------------------------------------------------------------------------------------------ substring checks, case
#if FAMILY == F_sub
static void do_sub(Rec& R, const string& h, const string& n)
{
    Exact eh(h), en(n);
    auto H = sv(eh), N = sv(en);
    R.begin("sub").s("h", h).s("n", n).call();
    R.b("c", contains(H, N)).b("s", starts_with(H, N)).b("e", ends_with(H, N));
    R.b("cn", contains_nocase(H, N)).b("sn", starts_with_nocase(H, N)).b("en", ends_with_nocase(H, N)).b("q", equals_nocase(H, N)).end();
    if (n.size() == 1) {
        char c = n[0];
        R.begin("subc").s("h", h).s("n", n).call();
        R.b("c", contains(H, c)).b("s", starts_with(H, c)).b("e", ends_with(H, c));
        R.b("cn", contains_nocase(H, c)).b("sn", starts_with_nocase(H, c)).b("en", ends_with_nocase(H, c)).end();
    }
}
static void do_case(Rec& R, const string& s)
{
    Exact e(s);
    R.begin("case").s("s", s).call();
    R.s("l", lowercase_ascii(sv(e))).s("u", uppercase_ascii(sv(e)));
    string a = s, b = s;
    bool ok = &lowercase_ascii_inplace(a) == &a && &uppercase_ascii_inplace(b) == &b;
    R.s("li", a).s("ui", b).b("ref", ok);
    string c1, c2; for (char c : s) { c1 += lowercase_ascii(c); c2 += uppercase_ascii(c); }
    R.s("lc", c1).s("uc", c2).end();
}
static void fam_sub(Rec& R, Gen& g, bool th)
{
    auto ns = all_strings("aAb", 3);
    for (auto& h : all_strings("aAbB", th ? 6 : 4)) for (auto& n : ns) do_sub(R, h, n);
    for (int a = 0; a < 256; ++a) {
        do_case(R, string(1, char(a)));
        for (int b = 0; b < 256; ++b) if (th || (a ^ b) == 32 || a == b || (a ^ b) == 128 || g.coin(4)) do_sub(R, string(1, char(a)), string(1, char(b)));
    }
    for (int i = 0; i < (th ? 30000 : 4000); ++i) {
        string h = g.coin(50) ? g.bytes(g.u(20)) : g.str(string("abAB\0[{@`\xc4\xe4", 11), g.u(20));
        size_t p = g.u(h.size() + 1); string n = h.substr(p, g.u(6));
        if (g.coin(20)) n = h.substr(0, g.u(h.size() + 1)); else if (g.coin(20)) n = h.substr(p);
        for (auto& c : n) if (g.coin(30)) c ^= 32;
        if (g.coin(15) && !n.empty()) n[g.u(n.size())] = char(g.u(256));
        if (g.coin(10)) n += char(g.u(256));
        do_sub(R, h, n); do_case(R, g.bytes(g.u(20)));
        string h2 = h; for (auto& c : h2) if (g.coin(30)) c ^= 32; do_sub(R, h, h2);
    }
    for (int n : { 300, 1025 }) { string h = g.str("aAbB", n); do_sub(R, h, h.substr(n - 7)); do_sub(R, h, h + "a"); do_sub(R, h, h); do_case(R, g.bytes(n)); }
}
#endif
// ------------------------------------------------------------------------------------------------ string_view
#if FAMILY == F_sview
template <typename F> static long long pos_or(F f) { auto p = f(); return p == string_view::npos ? -1 : (p > 1000000 ? -7 : (long long)p); }
static int sgn(int x) { return x < 0 ? -1 : x > 0; }
// pos: -1 = npos, -2 = npos - 1
static size_t P(long long p) { return p == -1 ? string_view::npos : p == -2 ? string_view::npos - 1 : p == -3 ? (string_view::npos >> 1) : size_t(p); }
static void do_sv2(Rec& R, const string& h, const string& n)
{
    Exact eh(h), en(n);
    auto H = sv(eh), N = sv(en);
    R.begin("cmp").s("h", h).s("n", n).call();
    R.i("c", sgn(H.compare(N))).b("eq", H == N).b("ne", H != N).b("lt", H < N).b("gt", H > N).b("le", H <= N).b("ge", H >= N);
    string sn = n, sh = h;
    R.b("eq2", H == sn && true).b("ne2", H != sn).b("lt2", sh < N).b("gt2", H > sn).b("le2", sh <= N).b("ge2", H >= sn).b("eq3", sh == N).end();
    std::vector<long long> ps; for (size_t p = 0; p <= h.size() + 1; ++p) ps.push_back(p); ps.push_back(-1); ps.push_back(-2); ps.push_back(-3);
    for (auto p : ps) {
        R.begin("find").s("h", h).s("n", n).i("p", p).call();
        R.i("fi", pos_or([&] { return H.find(N, P(p)); })).i("ri", pos_or([&] { return H.rfind(N, P(p)); }));
        R.i("fo", pos_or([&] { return H.find_first_of(N, P(p)); })).i("fn", pos_or([&] { return H.find_first_not_of(N, P(p)); }));
        R.i("lo", pos_or([&] { return H.find_last_of(N, P(p)); })).i("ln", pos_or([&] { return H.find_last_not_of(N, P(p)); }));
        R.i("f2", pos_or([&] { return H.find(N.data(), P(p), N.size()); })).i("r2", pos_or([&] { return H.rfind(N.data(), P(p), N.size()); }));
        R.i("fo2", pos_or([&] { return H.find_first_of(N.data(), P(p), N.size()); })).i("fn2", pos_or([&] { return H.find_first_not_of(N.data(), P(p), N.size()); }));
        R.i("lo2", pos_or([&] { return H.find_last_of(N.data(), P(p), N.size()); })).i("ln2", pos_or([&] { return H.find_last_not_of(N.data(), P(p), N.size()); }));
        R.end();
        if (n.size() == 1) {
            char c = n[0];
            R.begin("find").s("h", h).s("n", n).i("p", p).t("c", "char").call();
            R.i("fi", pos_or([&] { return H.find(c, P(p)); })).i("ri", pos_or([&] { return H.rfind(c, P(p)); }));
            R.i("fo", pos_or([&] { return H.find_first_of(c, P(p)); })).i("fn", pos_or([&] { return H.find_first_not_of(c, P(p)); }));
            R.i("lo", pos_or([&] { return H.find_last_of(c, P(p)); })).i("ln", pos_or([&] { return H.find_last_not_of(c, P(p)); }));
            if (p == 0) { R.i("f2", pos_or([&] { return H.find(c); })).i("fo2", pos_or([&] { return H.find_first_of(c); })).i("fn2", pos_or([&] { return H.find_first_not_of(c); }));
                R.i("r2", pos_or([&] { return H.rfind(c, 0); })).i("lo2", pos_or([&] { return H.find_last_of(c, 0); })).i("ln2", pos_or([&] { return H.find_last_not_of(c, 0); })); }
            else { R.i("f2", pos_or([&] { return H.find(c, P(p)); })).i("fo2", pos_or([&] { return H.find_first_of(c, P(p)); })).i("fn2", pos_or([&] { return H.find_first_not_of(c, P(p)); }));
                if (p == -1) R.i("r2", pos_or([&] { return H.rfind(c); })).i("lo2", pos_or([&] { return H.find_last_of(c); })).i("ln2", pos_or([&] { return H.find_last_not_of(c); }));
                else R.i("r2", pos_or([&] { return H.rfind(c, P(p)); })).i("lo2", pos_or([&] { return H.find_last_of(c, P(p)); })).i("ln2", pos_or([&] { return H.find_last_not_of(c, P(p)); })); }
            R.end();
        }
    }
}
static void do_sv1(Rec& R, const string& h)
{
    Exact eh(h);
    auto H = sv(eh);
    std::vector<long long> ps; for (size_t p = 0; p <= h.size() + 2; ++p) ps.push_back(p); ps.push_back(-1); ps.push_back(-2); ps.push_back(-3);
    for (auto p : ps) {
        for (auto n : ps) {
            R.begin("substr").s("h", h).i("p", p).i("n", n).call();
            bool thr = false; string_view o; bool in = true;
            try { o = H.substr(P(p), P(n)); } catch (const std::out_of_range&) { thr = true; }
            if (!thr) in = o.size() <= h.size() && o.data() >= eh.data() && o.data() + o.size() <= eh.data() + eh.size();
            R.b("x", thr).b("in", in).s("o", in && !thr ? string(o) : string());
            // copy
            bool xc = false; string buf(h.size() + 8, '#'); size_t cnt = 0;
            try { cnt = H.copy(&buf[0], P(n), P(p)); } catch (const std::out_of_range&) { xc = true; }
            R.b("xc", xc).i("cn", cnt > 1000000 ? -7 : (long long)cnt).s("co", xc ? string() : buf.substr(0, std::min(cnt, buf.size()))).b("cr", buf.find_first_not_of('#', std::min(cnt, buf.size())) == string::npos);
            R.end();
        }
        R.begin("at").s("h", h).i("p", p).call();
        int o = -1; try { o = (unsigned char)H.at(P(p)); } catch (const std::out_of_range&) { o = -2; }
        auto A = H, B = H; A.remove_prefix(P(p)); B.remove_suffix(P(p));
        R.i("o", o).s("rp", string(A.begin(), A.end())).s("rs", string(B.begin(), B.end()));
        R.s("it", string(H.cbegin(), H.cend())).s("ri", string(H.crbegin(), H.crend())).i("sz", H.size()).b("em", H.empty()).s("st", string(H));
        std::ostringstream os; os << std::setw(P(p) > 20 ? 5 : int(P(p))) << std::setfill('.') << (h.size() % 2 ? std::left : std::right) << H << '|';
        R.s("os", os.str()).b("left", h.size() % 2).i("w", P(p) > 20 ? 5 : (long long)P(p)).end();
    }
}
static void do_sv3(Rec& R, const string& h, const string& n)
{
    Exact eh(h), en(n);
    auto H = sv(eh), N = sv(en);
    for (long long p1 = 0; p1 <= (long long)h.size() + 1; ++p1) for (long long n1 : { 0LL, 1LL, 2LL, (long long)h.size(), -1LL })
        for (long long p2 = 0; p2 <= (long long)n.size() + 1; ++p2) for (long long n2 : { 0LL, 1LL, -1LL }) {
            R.begin("cmp5").s("h", h).s("n", n).i("p1", p1).i("n1", n1).i("p2", p2).i("n2", n2).call();
            int o; try { o = sgn(H.compare(P(p1), P(n1), N, P(p2), P(n2))); } catch (const std::out_of_range&) { o = 9; }
            R.i("o", o);
            if (p2 == 0) { int o3; try { o3 = sgn(H.compare(P(p1), P(n1), N)); } catch (const std::out_of_range&) { o3 = 9; } R.i("o3", o3); }
            R.end();
        }
}
// the other ways to compare, to search, to make and to append views
template <typename A, typename C> static string six_of(const A& a, const C& b)
{
    auto B = [](bool x) { return string(x ? "true" : "false"); };
    return "[" + B(a == b) + "," + B(a != b) + "," + B(a < b) + "," + B(a > b) + "," + B(a <= b) + "," + B(a >= b) + "]";
}
template <typename V> static string ints(const V& v) { string r = "["; for (size_t i = 0; i < v.size(); ++i) r += (i ? "," : "") + std::to_string(v[i]); return r + "]"; }
static void do_svx(Rec& R, const string& h, const string& n)
{
    Exact eh(h), en(n); auto H = sv(eh), N = sv(en); const bool z = n.find('\0') == string::npos, hz = h.find('\0') == string::npos;
    R.begin("cmpx").s("h", h).s("n", n).call();
    string m = six_of(H, n) + "," + six_of(h, N);
    if (z) m += "," + six_of(H, n.c_str()); if (hz) m += "," + six_of(h.c_str(), N);
    R.raw("m", "[" + m + "]");
    std::vector<int> c = { sgn(H.compare(N)), sgn(H.compare(n)), sgn(H.compare(0, h.size(), N)), sgn(H.compare(0, string_view::npos, N.data(), N.size())) };
    if (z) { c.push_back(sgn(H.compare(n.c_str()))); c.push_back(sgn(H.compare(0, h.size(), n.c_str()))); }
    R.raw("c", ints(c));
    string a = h; string& ra = (a += N); string o1 = h + N, o2 = H + n, o3 = string(h) + string(n), o4 = "<" + (h + N), o5 = std::move(o3) + H;
    R.s("ap", a).b("ref", &ra == &a).s("o1", o1).s("o2", o2).s("o5", o5);
    std::vector<long long> f, d;
    if (z) { const char* p = n.c_str(); f = { pos_or([&] { return H.find(p); }), pos_or([&] { return H.rfind(p); }), pos_or([&] { return H.find_first_of(p); }), pos_or([&] { return H.find_first_not_of(p); }), pos_or([&] { return H.find_last_of(p); }), pos_or([&] { return H.find_last_not_of(p); }) }; }
    d = { pos_or([&] { return H.find(N); }), pos_or([&] { return H.rfind(N); }), pos_or([&] { return H.find_first_of(N); }), pos_or([&] { return H.find_first_not_of(N); }), pos_or([&] { return H.find_last_of(N); }), pos_or([&] { return H.find_last_not_of(N); }) };
    R.raw("fd", ints(d)).raw("fz", ints(f));
    string_view x = H, y = N; x.swap(y); string_view k; k = x; string_view lit = z ? string_view(n.c_str()) : N, str(n), dflt;
    R.s("x", string(x)).s("y", string(y)).s("k", string(k)).s("lit", string(lit)).s("str", string(str)).b("d", dflt.empty() && dflt.size() == 0 && dflt.begin() == dflt.end() && dflt == "" && H.length() == h.size());
    R.raw("e", h.empty() ? "[]" : ints(std::vector<int>{ (unsigned char)H.front(), (unsigned char)H.back(), (unsigned char)H[0], (unsigned char)H[h.size() - 1], (unsigned char)H[h.size() / 2] }));
    std::ostringstream os; os << std::setw(int(n.size())) << H << N << std::setw(3) << H; R.s("os", os.str()).end();
}
// wider characters: a byte b is represented by the character b * K
template <typename C> static void do_wide(Rec& R, const string& h, const string& n, unsigned long K)
{
    using S = std::basic_string<C>; using W = gul14::basic_string_view<C>; S hs, ns; for (unsigned char c : h) hs += C(c * K); for (unsigned char c : n) ns += C(c * K);
    W H(hs), N(ns); std::unique_ptr<C[]> p(new C[h.size()]); std::copy(hs.begin(), hs.end(), p.get()); H = W(p.get(), h.size());
    R.begin("wide").s("h", h).s("n", n).call();
    R.i("c", sgn(H.compare(N))).raw("m", "[" + six_of(H, N) + "," + six_of(H, ns) + "," + six_of(hs, N) + "]");
    std::vector<long long> ps; for (size_t q = 0; q <= h.size(); ++q) ps.push_back(q); ps.push_back(-1); string l = "[";
    for (auto q : ps) { if (l.size() > 1) l += ','; l += ints(std::vector<long long>{ q, pos_or([&] { return H.find(N, P(q)); }), pos_or([&] { return H.rfind(N, P(q)); }), pos_or([&] { return H.find_first_of(N, P(q)); }), pos_or([&] { return H.find_first_not_of(N, P(q)); }), pos_or([&] { return H.find_last_of(N, P(q)); }), pos_or([&] { return H.find_last_not_of(N, P(q)); }) }); }
    R.raw("fs", l + "]"); S back(H); auto part = H.substr(h.size() / 2, 2); string t, u; for (C c : back) t += char((unsigned long)c / K); for (C c : part) u += char((unsigned long)c / K); R.s("t", t).s("u", u).end();
}
static void fam_sview(Rec& R, Gen& g, bool th)
{
    for (auto& h : all_strings("ab", th ? 5 : 4)) for (auto& n : all_strings("ab", 3)) { do_svx(R, h, n); do_wide<char16_t>(R, h, n, 257); do_wide<char32_t>(R, h, n, 0x1010101); do_wide<wchar_t>(R, h, n, 0x7fffff); }
    for (int i = 0; i < (th ? 4000 : 500); ++i) {
        string h = g.bytes(g.u(10)), n = g.coin(50) ? h.substr(g.u(h.size() + 1)) : g.coin(50) ? h + g.bytes(g.u(2)) : g.bytes(g.u(4)); if (g.coin(20) && !n.empty()) n[g.u(n.size())] = char(g.u(256));
        do_svx(R, h, n); do_wide<char16_t>(R, h, n, 257); do_wide<char32_t>(R, h, n, 0x1010101); do_wide<wchar_t>(R, h, n, 0x7fffff);
    }
    auto ns = all_strings("ab", 3);
    for (auto& h : all_strings("ab", th ? 7 : 5)) { for (auto& n : ns) do_sv2(R, h, n); }
    for (auto& h : all_strings("abc", 4)) do_sv1(R, h);
    for (auto& h : all_strings("ab", 3)) for (auto& n : all_strings("ab", 2)) do_sv3(R, h, n);
    for (int i = 0; i < (th ? 8000 : 500); ++i) {
        string h = g.coin(50) ? g.bytes(g.u(14)) : g.str(string("ab\0\x80\xff", 5), g.u(14));
        size_t p = g.u(h.size() + 1); string n = h.substr(p, g.u(5));
        if (g.coin(20) && !n.empty()) n[g.u(n.size())] = char(g.u(256));
        if (g.coin(20)) n = h + g.bytes(g.u(2));
        do_sv2(R, h, n);
    }
    { string h = g.str("ab", 300); do_sv2(R, h, "abbab"); }
}
#endif
// ------------------------------------------------------------------------------------------------ cat, repeat, safe_string, hex_string
#if FAMILY == F_cat
static string dec(long long v) { return std::to_string(v); }
static void fam_cat(Rec& R, Gen& g, bool th)
{
    std::vector<string> ps = { "", "a", "bc", string("\0", 1), string("x\0y", 3), string(40, 'z') };
    auto one = [&](const std::vector<string>& p) {
        R.begin("cat").ss("p", p).call();
        string o;
        switch (p.size()) {
        case 0: o = cat(); break;
        case 1: { Exact a(p[0]); o = cat(sv(a)); break; }
        case 2: { Exact a(p[0]); o = cat(sv(a), p[1]); break; }
        case 3: { Exact a(p[0]), c(p[2]); o = cat(sv(a), p[1], sv(c)); break; }
        case 4: { Exact a(p[0]), c(p[2]); o = cat(sv(a), p[1], sv(c), p[3]); break; }
        case 5: o = cat(p[0], p[1], string_view(p[2]), p[3], p[4]); break;
        default: o = cat(p[0], p[1], string_view(p[2]), p[3], p[4], p[5]); break;
        }
        R.s("o", o).end();
    };
    one({});
    for (auto& a : ps) { one({ a }); for (auto& b : ps) { one({ a, b }); for (auto& c : ps) { one({ a, b, c }); one({ a, b, c, "q" }); one({ c, b, a, b, c }); one({ a, a, b, c, b, a }); } } }
    // numbers and characters in every position; the decimal text comes from the digit strings in the spec
    std::vector<long long> nums = { 0, 1, -1, 9, 10, -10, 99, 100, 12345, -12345, 2147483647, -2147483647 - 1, 999999999, 1000000000 };
    auto limbs = [](unsigned long long m) { std::vector<int> l; do { l.insert(l.begin(), int(m % 10000)); m /= 10000; } while (m); string s = "["; for (size_t i = 0; i < l.size(); ++i) s += (i ? "," : "") + std::to_string(l[i]); return s + "]"; };
    auto num2 = [&](const char* ty, bool neg, unsigned long long m, const string& o) { R.begin("catnum").t("ty", ty).raw("l", limbs(m)).b("neg", neg).s("o", o).end(); };
    auto num = [&](const char* ty, long long v, const string& o) { num2(ty, v < 0, v < 0 ? 0ull - (unsigned long long)v : v, o); };
    // 64-bit numbers: around every power of two and of ten, and random ones
    std::vector<unsigned long long> big = { 0 };
    for (int b = 0; b < 64; ++b) { big.push_back(1ull << b); big.push_back((1ull << b) - 1); big.push_back((1ull << b) + 1); }
    for (unsigned long long p = 1, k = 0; k < 20; ++k, p *= 10) { big.push_back(p); big.push_back(p - 1); big.push_back(p + 1); }
    for (int i = 0; i < (th ? 3000 : 300); ++i) big.push_back(g.r() >> g.u(64));
    big.push_back(~0ull);
    for (auto u : big) {
        R.begin("catnum").t("ty", "?").call();
        unsigned long long m = u; long long s = (long long)u;
        num2("int1", false, m, cat(m)); num2("int2", false, m, cat("<", (unsigned long)m)); num2("int3", false, m, cat("<", m, ">")); num2("int4", false, m, cat("<", m, ">", (unsigned long)m));
        num("int1", s, cat(s)); num("int2", s, cat("<", (long)s)); num("int3", s, cat("<", s, ">")); num("int4", s, cat("<", s, ">", (long)s));
        num("int1", (unsigned)u, cat((unsigned)u)); num("int3", int(u), cat("<", int(u), ">")); num("int2", short(u), cat("<", short(u))); num("int1", (unsigned short)u, cat((unsigned short)u));
        // a copied or assigned argument keeps its text
        std::vector<ConvertingStringView> v; v.push_back(s); v.push_back(ConvertingStringView(m)); v.push_back("<"); v.push_back(v[0]); v[1] = v[0]; v.insert(v.begin(), v[2]); v.insert(v.begin(), ConvertingStringView(u));
        ConvertingStringView w(7); w = v[2]; v.clear(); v.shrink_to_fit();
        num("int1", s, string(w)); num("int3", s, cat("<", w, ">")); num("int4", s, cat("<", w, ">", ConvertingStringView(w)));
        ConvertingStringView a(s), b(m), t("<>"); std::swap(a, b); std::swap(b, t); num2("int1", false, m, string(a)); num("int1", s, string(t)); num("int1", s, cat(t));
        R.begin("cat").ss("p", std::vector<string>{ "<>" }).s("o", string(b.data(), b.length())).end();
    }
    // multiples of 1/64 have at most six decimals
    for (int i = 0; i < (th ? 4000 : 600); ++i) {
        int k = i < 200 ? i - 100 : int(g.r() >> (32 + g.u(30))) / 2; k = k < 0 ? -k : k;
        double d = k / 64.0; float f = float(k & 0xffffff) / 64.0f; bool neg = g.coin(40);
        R.begin("catflt").i("k", k).b("neg", neg).call(); R.s("o", cat("<", neg ? -d : d, ">")).end();
        R.begin("catflt").i("k", k & 0xffffff).b("neg", neg).call(); R.s("o", cat("<", neg ? -f : f, ">")).end();
    }
    for (auto v : nums) {
        R.begin("catnum").t("ty", "?").call();
        num("int2", v, cat("<", int(v))); num("int1", v, cat(int(v))); num("int3", v, cat("<", int(v), ">")); num("int4", v, cat("<", int(v), ">", int(v)));
        num("long3", v, cat("<", long(v), ">")); num("ll4", v, cat("<", (long long)(v), ">", short(v & 0), (long)v));
        if (v >= 0) { num("int3", v, cat("<", unsigned(v), ">")); num("long3", v, cat("<", (unsigned long)(v), ">")); num("int4", v, cat("<", (unsigned long long)v, ">", unsigned(v))); }
    }
    for (int c = 0; c < 256; ++c) { R.begin("cat").ss("p", std::vector<string>{ "<", string(1, char(c)), ">", string(1, char(c)) }).call(); R.s("o", cat('<', char(c), ">", char(c))).end(); }
    for (auto& s : ps) for (size_t n : { 0, 1, 2, 3, 7, 40 }) { Exact e(s); R.begin("repeat").s("s", s).i("n", n).call(); R.s("o", repeat(sv(e), n)).end(); }
    for (auto& s : all_strings(string("a\0b", 3), 5)) for (size_t n = 0; n <= s.size(); ++n) { Exact e(s); R.begin("safe").s("s", s).i("n", n).call(); R.s("o", safe_string(e.data(), n)).end(); }
    // a NUL-terminated buffer that is shorter than the given length: nothing past the terminator may be read
    for (auto& s : all_strings(string("a\0", 2), 5)) if (s.find('\0') != s.npos) { Exact e(s); R.begin("safe").s("s", s).i("n", s.size() + 9).call(); R.s("o", safe_string(e.data(), s.size() + 9)).end(); }
    R.begin("safenull").call(); R.s("o", safe_string(nullptr, 17)).end();
    for (int i = 0; i < (th ? 20000 : 3000); ++i) {
        std::vector<string> p; for (int k = g.u(7); k > 0; --k) p.push_back(g.bytes(g.u(20)));
        one(p);
        string s = g.bytes(g.u(12)); Exact e(s); size_t n = g.u(9);
        R.begin("repeat").s("s", s).i("n", n).call(); R.s("o", repeat(sv(e), n)).end();
        string z = g.str(string("\0abc", 4), g.u(20)); Exact ez(z); R.begin("safe").s("s", z).i("n", z.size()).call(); R.s("o", safe_string(ez.data(), z.size())).end();
    }
}
#endif
#if FAMILY == F_hex
template <typename T> static std::vector<int> be(T v)
{
    std::vector<int> r; auto u = static_cast<std::make_unsigned_t<T>>(v);
    for (int k = sizeof(T) - 1; k >= 0; --k) r.push_back(int((static_cast<std::uint64_t>(u) >> (8 * k)) & 255));
    return r;
}
static string jarr(const std::vector<std::vector<int>>& v)
{
    string s = "["; for (size_t i = 0; i < v.size(); ++i) { if (i) s += ','; s += '['; for (size_t j = 0; j < v[i].size(); ++j) { if (j) s += ','; s += std::to_string(v[i][j]); } s += ']'; } return s + "]";
}
template <typename T> static void do_hex(Rec& R, const std::vector<T>& v, const string& sep, const string& prompt, bool trunc_ok = false)
{
    std::vector<std::vector<int>> e; for (auto x : v) e.push_back(be(x));
    // exact-size buffer
    std::unique_ptr<T[]> buf(new T[v.size()]); std::copy(v.begin(), v.end(), buf.get());
    const T* b = buf.get(); const T* en = b + v.size();
    Exact es(sep), ep(prompt);
    if (!trunc_ok) {
        R.begin("hexstr").raw("e", jarr(e)).s("sep", sep).call();
        R.s("o", hex_string(b, en, sv(es))).s("o2", hex_string(v, sv(es))).s("o3", v.empty() ? string() : hex_string(v[0])).end();
    }
    R.begin("hexdump").raw("e", jarr(e)).i("w", sizeof(T)).s("pr", prompt).call();
    string o = hexdump(b, en, sv(ep));
    string o2 = hexdump(v, sv(ep));
    std::ostringstream os; os << hexdump_stream(v, prompt); string o3 = os.str();
    std::ostringstream os2; os2 << hexdump_stream(b, en, prompt); string o4 = os2.str();
    std::ostringstream os3; os3 << hexdump_stream(std::vector<T>(v), prompt); string o5 = os3.str();
    auto hp = hexdump_stream(std::vector<T>(v), prompt); auto hp2 = hp; auto hp3 = std::move(hp); hp = hp2; std::ostringstream os4; os4 << hp << hp3; string o6 = os4.str();
    std::list<T> l(v.begin(), v.end()); string o7 = hexdump(l, sv(ep)); string o8 = hexdump(l.begin(), l.end(), sv(ep));
    // the whole text for small dumps; head, tail and length for large ones
    R.b("same", o == o2 && o == o3 && o == o4 && o == o5 && o + o == o6 && o == o7 && o == o8).s("o", o).end();
}
static void fam_hex(Rec& R, Gen& g, bool th)
{
    for (int c = 0; c < 256; ++c) do_hex<unsigned char>(R, { (unsigned char)c }, "", "");
    for (size_t n = 0; n <= 50; ++n) {
        std::vector<char> c; std::vector<std::uint8_t> u; std::vector<short> s; std::vector<int> i; std::vector<std::uint64_t> q; std::vector<long long> ll;
        for (size_t k = 0; k < n; ++k) { c.push_back(char(g.u(256))); u.push_back(std::uint8_t(g.u(256))); s.push_back(short(g.r())); i.push_back(int(g.r())); q.push_back(g.coin(30) ? g.u(300) : g.r()); ll.push_back((long long)g.r()); }
        string sep = g.bytes(g.u(3)), pr = g.str("ab> ", g.u(9));
        do_hex(R, c, sep, pr); do_hex(R, u, "", ""); do_hex(R, s, sep, pr); do_hex(R, i, ":", pr); do_hex(R, q, sep, pr); do_hex(R, ll, sep, "");
    }
    for (int i = 0; i < (th ? 3000 : 200); ++i) {
        std::vector<char> c; std::vector<int> q; for (size_t k = g.u(120); k > 0; --k) { c.push_back(char(g.u(256))); q.push_back(int(g.r())); }
        do_hex(R, c, g.bytes(g.u(4)), g.str("ab> ", g.u(20))); q.resize(q.size() / 3); do_hex(R, q, ",", ">");
    }
    for (size_t n : { 15984, 15999, 16000, 16001, 16016 }) { std::vector<char> c(n); for (auto& x : c) x = char(g.u(256)); do_hex(R, c, "", n == 16000 ? "ab" : "abc", true); }
    { std::vector<short> c(16001); for (auto& x : c) x = short(g.r()); do_hex(R, c, "", "p", true); }
    for (size_t n : { 255, 256, 257, 272, 4096, 4097 }) { std::vector<char> c(n); for (auto& x : c) x = char(g.u(256)); do_hex(R, c, "", "", true); }
}
#endif
int main(int argc, char** argv)
{
    Args a = parse_args(argc, argv); Rec R(a.out, a.last); Gen g(a.seed); bool th = a.thorough();
    FAM(R, g, th);
    std::printf("%zu\n", R.count);
}
