// Records histories of SlidingBuffer and SlidingBufferExposed: scripts of operations on two buffers with everything that can be observed after each.
// usage: h_sliding OUT LAST TIER SEED PROFILE      profile: access | resize | iter
#include "rec.h"
#include "gul14/SlidingBuffer.h"
#include <algorithm>
#include <deque>
#include <sstream>
#include <stdexcept>
using std::string; using std::vector; using gul14::ShrinkBehavior;

// ---- element types: integers, strings (with heap memory), boxes that can only be moved
template <typename T> struct El;
template <> struct El<int> { static int make(int v) { return v; } static long get(int v) { return v; } static constexpr bool text = true, copyable = true; };
template <> struct El<long> { static long make(int v) { return v; } static long get(long v) { return v; } static constexpr bool text = true, copyable = true; };
template <> struct El<string> { static string make(int v) { string d = std::to_string(v); return string(12 - d.size(), '0') + d + string(30, ' '); } static long get(const string& s) { return s.empty() ? 0 : std::atol(s.c_str()); } static constexpr bool text = false, copyable = true; };
using Box = std::unique_ptr<int>;
template <> struct El<Box> { static Box make(int v) { return std::make_unique<int>(v); } static long get(const Box& b) { return b ? *b : 0; } static constexpr bool text = false, copyable = false; };
namespace std { inline bool operator<(const Box& a, const Box& b) { return El<Box>::get(a) < El<Box>::get(b); } }

enum K { PB, PF, PBM, PFM, POPB, POPF, CLEAR, RESIZE, RESERVE, SET, AT, ALB, ALF, COPYC, COPYA, MOVEC, MOVEA, SELF, SWAP, SORT, REV, ITER, HOLD, NEWB };
struct Op { K k; int x = 1; int a = 0; int b = 0; };

template <typename B, bool Dyn> struct Run {
    using T = typename B::value_type; using E = El<T>;
    static std::unique_ptr<B> make(std::size_t cap, std::true_type) { return std::make_unique<B>(cap); }
    static std::unique_ptr<B> make(std::size_t, std::false_type) { return std::make_unique<B>(); }
    std::unique_ptr<B> buf[3]; string& out; Rec& rec; const char* name; bool exposed; int held_x = 0, held_i = 0; std::unique_ptr<typename B::iterator> held; int counter = 0; std::size_t cap0;
    Run(string& o, Rec& r, const char* n, bool e, std::size_t cap) : out(o), rec(r), name(n), exposed(e), cap0(cap) { for (int i = 1; i < 3; ++i) buf[i] = make(cap, std::integral_constant<bool, Dyn>{}); }

    template <typename It> static void list(string& s, const char* k, It a, It b) { s += string(",\"") + k + "\":["; bool first = true; for (; a != b; ++a) { if (!first) s += ','; first = false; s += std::to_string(E::get(*a)); } s += ']'; }
    template <typename U> static auto text(const U& b) -> std::enable_if_t<El<typename U::value_type>::text, string> { std::ostringstream o; o << b; string s = o.str(), r; for (char c : s) if (c == '\n') r += "\\n"; else r += c; return r; }
    template <typename U> static auto text(const U&) -> std::enable_if_t<!El<typename U::value_type>::text, string> { return ""; }
    template <typename U> static void rlist(string& s, const U& c, std::true_type) { list(s, "r", c.crbegin(), c.crend()); }
    template <typename U> static void rlist(string& s, const U&, std::false_type) { s += ",\"r\":[-1]"; }   // constant reverse iterators that cannot be dereferenced
    string obs(B& b)
    {
        const B& c = b; string s = "{\"z\":" + std::to_string(c.size()) + ",\"c\":" + std::to_string(c.capacity()) + ",\"fl\":" + (c.filled() ? "true" : "false") + ",\"e\":" + (c.empty() ? "true" : "false") + ",\"q\":[";
        for (std::size_t i = 0; i < c.size(); ++i) { if (i) s += ','; s += std::to_string(E::get(i % 2 ? c[i] : b[i])); }
        s += "]"; if (c.size() > 0) s += ",\"fr\":" + std::to_string(E::get(counter % 2 ? b.front() : c.front())) + ",\"bk\":" + std::to_string(E::get(counter % 2 ? b.back() : c.back())); else s += ",\"fr\":0,\"bk\":0";
        s += ",\"u\":["; for (std::size_t i = c.size(); i < c.capacity(); ++i) { if (i > c.size()) s += ','; s += std::to_string(E::get(i % 2 ? c[i] : b[i])); } s += ']';
        s += ",\"t\":\"" + text(c) + "\"";
        switch (counter++ % 3) { case 0: list(s, "f", b.begin(), b.end()); list(s, "r", b.rbegin(), b.rend()); break; case 1: list(s, "f", c.begin(), c.end()); rlist(s, c, std::is_convertible<typename std::add_lvalue_reference<const T>::type, typename std::iterator_traits<typename B::const_iterator>::reference>{}); break; default: list(s, "f", c.cbegin(), c.cend()); list(s, "r", b.rbegin(), b.rend()); }
        return s + "}";
    }
    void put(B& b, const Op& o, int v, bool front, std::true_type) { T e = E::make(v); bool mv = o.k == PBM || o.k == PFM; if (front) { if (mv) b.push_front(std::move(e)); else b.push_front(e); } else { if (mv) b.push_back(std::move(e)); else b.push_back(e); } }
    void put(B& b, const Op&, int v, bool front, std::false_type) { if (front) b.push_front(E::make(v)); else b.push_back(E::make(v)); }
    template <typename U> static void clear(U& b, std::true_type) { b.clear(); } template <typename U> static void clear(U&, std::false_type) {}
    template <typename U> static void resize(U& b, const Op& o, std::true_type) { auto k = o.b ? ShrinkBehavior::keep_back_elements : ShrinkBehavior::keep_front_elements; if (o.k == RESERVE) { if (o.b) b.reserve(o.a, k); else b.reserve(o.a); } else if (o.b) b.resize(o.a, k); else b.resize(o.a); }
    template <typename U> static void resize(U&, const Op&, std::false_type) {}
    template <typename U> static void alias(U& b, std::size_t i, bool front, std::true_type) { if (front) b.push_front(static_cast<const U&>(b)[i]); else b.push_back(static_cast<const U&>(b)[i]); } template <typename U> static void alias(U&, std::size_t, bool, std::false_type) {}
    void copy(const Op& o, std::true_type) { if (o.k == COPYC) { const B& src = *buf[3 - o.x]; buf[o.x] = std::make_unique<B>(src); } else if (o.k == SELF) { auto& r = *buf[o.x]; *buf[o.x] = r; } else *buf[o.x] = static_cast<const B&>(*buf[3 - o.x]); } void copy(const Op&, std::false_type) {}
    template <typename U> void iter(U& b, int i, string& l, std::false_type)
    {
        using D = std::ptrdiff_t; const U& c = b; D k = i - 1, n = D(b.size()); auto it = b.begin() + k; auto jt = c.cbegin(); jt += k; auto kt = k + b.begin(); auto lt = b.end() - (n - k); auto mt = c.cend(); mt -= n - k;
        auto g = [](const T& t) { return std::to_string(E::get(t)); };
        l = "[" + g(*it) + "," + g(*jt) + "," + g(*kt) + "," + g(*lt) + "," + g(*mt) + "," + std::to_string(b.end() - it) + "," + std::to_string(it - b.begin()) + "," + g(b.begin()[k]);
        auto pt = it; auto old = pt++; bool ok = old == it && pt != it && pt > it && it < pt && it <= pt && pt >= it && !(pt < it) && !(it > pt) && pt - it == 1; auto qt = pt--; ok = ok && pt == it && qt == it + 1 && !(it != pt) && it <= pt && it >= pt; auto rt = it; ++rt; ok = ok && rt == qt; --rt; ok = ok && rt == it && (it.operator->() == &*it) && std::distance(b.begin(), it) == k && std::next(b.begin(), k) == it;
        l += "," + g(*pt) + "," + g(k + 1 < n ? *std::next(it) : *it) + "," + (ok ? "1" : "0") + "]";
    }
    template <typename U> void iter(U& b, int i, string& l, std::true_type) { const U& c = b; auto g = std::to_string(E::get(c[i - 1])), nx = std::to_string(E::get(i < int(c.size()) ? c[i] : c[i - 1])); l = "[" + g + "," + g + "," + g + "," + g + "," + g + "," + std::to_string(b.size() - i + 1) + "," + std::to_string(i - 1) + "," + g + "," + g + "," + nx + ",1]"; }
    // the operation is skipped (returns false) if it is not permitted in the current state
    template <bool Exposed> bool step(const Op& o)
    {
        constexpr auto C = std::integral_constant<bool, E::copyable>{}; constexpr auto D = std::integral_constant<bool, Dyn>{};
        B& b = *buf[o.x]; const int size = int(b.size()), cap = int(b.capacity()); string arg; bool both = false; const char* nm = ""; string lst = "[]"; int v = 0;
        switch (o.k) {
        case PB: case PBM: case PF: case PFM: if (cap == 0) return false; break;
        case POPB: case POPF: if (size == 0) return false; break;
        case CLEAR: case SELF: case COPYC: case COPYA: if (!E::copyable) return false; break;
        case RESIZE: case RESERVE: case NEWB: if (!Dyn) return false; break;
        case SET: case ITER: case HOLD: if (size == 0) return false; break;
        case ALB: case ALF: if (size == 0 || !E::copyable) return false; break;
        case SORT: case REV: if (Exposed && true) return false; break;
        default: break;
        }
        const int i = size ? 1 + o.a % size : 0;
        { string what = string(name) + " cap " + std::to_string(cap0) + ": op " + std::to_string(o.k) + " on buffer " + std::to_string(o.x) + " args " + std::to_string(o.a) + "," + std::to_string(o.b) + " size " + std::to_string(size); rec.note(what); }
        const bool keeps = o.k == PB || o.k == PBM || o.k == PF || o.k == PFM || o.k == POPB || o.k == POPF || o.k == SET || o.k == AT || o.k == ALB || o.k == ALF || o.k == ITER || o.k == SORT || o.k == REV;
        if (!keeps && o.k != HOLD && (o.x == held_x || o.k >= COPYC)) { held.reset(); held_x = 0; }
        switch (o.k) {
        case PB: case PBM: nm = "pushb"; put(b, o, v = o.a, false, C); break;
        case PF: case PFM: nm = "pushf"; put(b, o, v = o.a, true, C); break;
        case POPB: nm = "popb"; b.pop_back(); break; case POPF: nm = "popf"; b.pop_front(); break;
        case CLEAR: nm = "clear"; clear(b, C); break;
        case RESIZE: case RESERVE: nm = "resize"; resize(b, o, D); break;
        case NEWB: nm = "new"; buf[o.x] = make(std::size_t(o.a), D); break;
        case SET: { nm = "set"; v = o.b; auto& c = b; switch (counter % 4) { case 0: c[i - 1] = E::make(v); break; case 1: c.at(i - 1) = E::make(v); break; case 2: if (i == 1) c.front() = E::make(v); else if (i == size) c.back() = E::make(v); else c[i - 1] = E::make(v); break; default: if (Exposed) c[i - 1] = E::make(v); else *(c.begin() + (i - 1)) = E::make(v); } break; }
        case AT: { nm = "at"; try { v = int(counter % 2 ? E::get(b.at(o.a - 1)) : E::get(static_cast<const B&>(b).at(o.a - 1))); } catch (const std::out_of_range&) { v = -77; } break; }
        case ALB: nm = "alias_b"; alias(b, i - 1, false, C); break; case ALF: nm = "alias_f"; alias(b, i - 1, true, C); break;
        case COPYC: case COPYA: nm = "copy"; copy(o, C); both = true; break; case SELF: nm = "selfcopy"; copy(o, C); break;
        case MOVEC: nm = "move"; { auto n = std::make_unique<B>(std::move(*buf[3 - o.x])); buf[o.x] = std::move(n); } both = true; break;
        case MOVEA: nm = "move"; *buf[o.x] = std::move(*buf[3 - o.x]); both = true; break;
        case SWAP: nm = "swap"; { using std::swap; swap(*buf[1], *buf[2]); } both = true; break;
        case SORT: nm = "sort"; std::sort(b.begin(), b.end()); break; case REV: nm = "reverse"; std::reverse(b.begin(), b.end()); break;
        case ITER: nm = "iter"; iter(b, i, lst, std::integral_constant<bool, Exposed>{}); break;
        case HOLD: nm = "hold"; if (!Exposed) { held = std::make_unique<typename B::iterator>(b.begin() + (i - 1)); held_x = o.x; held_i = i; } break;
        }
        B& now = *buf[o.x]; int hi = 0; long hv = 0; if (!Exposed && held && held_x == o.x && held_i <= int(now.size())) { hi = held_i; hv = E::get(**held); }
        if (!out.empty() && out.back() == '}') out += ',';
        out += string("{\"o\":\"") + nm + "\",\"x\":" + std::to_string(o.x) + ",\"v\":" + std::to_string(v) + ",\"i\":" + std::to_string(o.k == AT ? o.a : i) + ",\"n\":" + std::to_string(o.a) + ",\"k\":\"" + (o.b ? "back" : "front") + "\",\"l\":" + lst + ",\"hi\":" + std::to_string(hi) + ",\"hv\":" + std::to_string(hv) + ",\"ob\":[" + obs(now) + (both ? "," + obs(*buf[3 - o.x]) : "") + "]}";
        return true;
    }
};
struct Sink { std::FILE* f; unsigned long hist = 0, events = 0; };
template <typename B, bool Dyn, bool Exposed> static void history(Sink& s, Rec& rec, const char* name, std::size_t cap, const vector<Op>& ops)
{
    string ev; unsigned n = 0;
    { Run<B, Dyn> r(ev, rec, name, Exposed, cap); for (auto& o : ops) n += r.template step<Exposed>(o); }
    if (!n) return;
    std::fprintf(s.f, "{\"name\":\"%s\",\"cap\":%d,\"exposed\":%s,\"text\":%s,\"ev\":[%s]}\n", name, int(Dyn ? cap : B().capacity()), Exposed ? "true" : "false", El<typename B::value_type>::text ? "true" : "false", ev.c_str());
    ++s.hist; s.events += n;
}
struct G { std::mt19937_64 r; explicit G(std::uint64_t s) : r(s * 977 + 5) {} unsigned u(unsigned n) { return n ? unsigned(r() % n) : 0; } bool pc(unsigned p) { return u(100) < p; } };

template <typename B, bool Dyn, bool Exposed> static void explore(Sink& s, Rec& rec, G& g, const char* name, std::size_t cap, const string& profile, bool thorough, unsigned depth, unsigned nrandom)
{
    // all scripts of a given length over a small alphabet
    vector<Op> alpha{ { PB }, { PF }, { POPB }, { POPF } };
    if (profile == "resize") { if (Dyn) { for (int n : { 1, 2, 3, 5 }) { alpha.push_back({ RESIZE, 1, n, 0 }); alpha.push_back({ RESIZE, 1, n, 1 }); } } }
    else alpha.push_back({ CLEAR });
    unsigned total = 1, len = depth; if (profile == "resize" && Dyn) len = depth > 2 ? depth - 2 : 2;
    for (unsigned i = 0; i < len; ++i) total *= unsigned(alpha.size());
    for (unsigned n = 0; n < total; ++n) { vector<Op> ops; unsigned m = n; for (unsigned i = 0; i < len; ++i) { Op o = alpha[m % alpha.size()]; m /= unsigned(alpha.size()); if (o.k == PB || o.k == PF) { o.a = int(i) + 1; if ((n + i) % 2) o.k = o.k == PB ? PBM : PFM; } ops.push_back(o); } history<B, Dyn, Exposed>(s, rec, name, cap, ops); }
    // the same alphabet after every fill state (number of elements and place of the first one), which only longer scripts reach
    for (unsigned shift = 0; shift < cap && cap > 1 && cap <= 8; ++shift) for (unsigned fill = 0; fill <= cap; ++fill) for (unsigned way = 0; way < 4; ++way) {
        vector<Op> pre; int v = 100;
        for (unsigned i = 0; i < shift; ++i) { pre.push_back({ way & 1 ? PF : PB, 1, ++v }); pre.push_back({ way & 1 ? POPB : POPF }); }
        for (unsigned i = 0; i < fill; ++i) pre.push_back({ (way & 2) && i % 2 ? PF : way & 1 ? PF : PB, 1, ++v });
        vector<Op> last = alpha; for (int n = 0; n <= int(cap) + 2; ++n) for (int b = 0; b < 2; ++b) last.push_back({ n % 2 ? RESIZE : RESERVE, 1, n, b });
        for (K k : { SORT, REV, ALB, ALF, COPYC, COPYA, MOVEC, MOVEA, SELF, SWAP }) last.push_back({ k, k == COPYC || k == COPYA || k == MOVEC || k == MOVEA ? 2 : 1, int(shift) });
        for (auto& o : last) { auto ops = pre; Op p = o; if (p.k == PB || p.k == PF) p.a = ++v; ops.push_back(p); ops.push_back({ PB, 1, ++v }); ops.push_back({ PF, 2, ++v }); ops.push_back({ POPF }); ops.push_back({ ITER, 1, int(fill / 2) }); history<B, Dyn, Exposed>(s, rec, name, cap, ops); }
    }
    for (unsigned n = 0; n < nrandom; ++n) {
        vector<Op> ops; unsigned L = 8 + g.u(thorough ? 60 : 30); const unsigned bias = g.u(4);
        for (unsigned i = 0; i < L; ++i) {
            Op o; o.x = g.pc(75) ? 1 : 2; unsigned w = g.u(100); const int val = 1 + int(g.u(9)) + 10 * int(i);
            if (w < 40) { o.k = K(g.u(4)); if (bias == 0) o.k = o.k == PF ? PB : o.k == PFM ? PBM : o.k; if (bias == 1) o.k = o.k == PB ? PF : o.k == PBM ? PFM : o.k; o.a = val; }
            else if (w < 52) o.k = g.pc(50) ? POPB : POPF; else if (w < 55) o.k = CLEAR;
            else if (w < 68) { o.k = profile == "iter" && g.pc(60) ? ITER : profile == "access" && g.pc(60) ? AT : g.pc(50) ? RESIZE : RESERVE; o.a = int(g.u(unsigned(cap) + 5)); o.b = int(g.u(2)); if (o.k == AT) o.a = g.pc(85) ? int(g.u(unsigned(cap) + 5)) : int(g.pc(50) ? 2147483647 : 100000); }
            else if (w < 74) { o.k = SET; o.a = int(g.u(19)); o.b = val; } else if (w < 80) { o.k = g.pc(50) ? ALB : ALF; o.a = int(g.u(9)); } else if (w < 86) o.k = K(COPYC + g.u(6)); else if (w < 88) { o.k = NEWB; o.a = int(g.u(5)); } else if (w < 92) o.k = g.pc(50) ? SORT : REV; else if (w < 96) { o.k = ITER; o.a = int(g.u(9)); } else { o.k = HOLD; o.a = int(g.u(9)); }
            ops.push_back(o);
        }
        history<B, Dyn, Exposed>(s, rec, name, cap, ops);
    }
}
int main(int argc, char** argv)
{
    Args a = parse_args(argc, argv); string profile = a.rest.empty() ? "access" : a.rest[0]; Rec rec(a.out + ".unused", a.last); Sink s{ std::fopen(a.out.c_str(), "w") }; if (!s.f) return 3;
    G g(a.seed); const bool th = a.thorough(); const unsigned d = th ? 7 : 5, rnd = th ? 1500 : 120; using namespace gul14;
    for (std::size_t cap : { 1, 2, 3, 4 }) explore<SlidingBuffer<int>, true, false>(s, rec, g, "SlidingBuffer<int>", cap, profile, th, cap == 3 ? d : d - 1, rnd);
    explore<SlidingBuffer<string>, true, false>(s, rec, g, "SlidingBuffer<string>", 3, profile, th, d - 2, rnd);
    explore<SlidingBuffer<Box>, true, false>(s, rec, g, "SlidingBuffer<unique_ptr>", 3, profile, th, 2, rnd);
    explore<SlidingBuffer<long, 0, std::deque<long>>, true, false>(s, rec, g, "SlidingBuffer<long, deque>", 2, profile, th, 2, rnd);
    explore<SlidingBuffer<int>, true, false>(s, rec, g, "SlidingBuffer<int>", 0, profile, th, 3, rnd / 2);
    explore<SlidingBuffer<int>, true, false>(s, rec, g, "SlidingBuffer<int>", 6, profile, th, 2, rnd);
    for (std::size_t cap : { 9, 17 }) explore<SlidingBuffer<int>, true, false>(s, rec, g, "SlidingBuffer<int>", cap, profile, th, 1, rnd);
    explore<SlidingBufferExposed<int>, true, true>(s, rec, g, "SlidingBufferExposed<int>", 10, profile, th, 1, rnd);
    explore<SlidingBuffer<int, 1>, false, false>(s, rec, g, "SlidingBuffer<int, 1>", 1, profile, th, 4, rnd);
    explore<SlidingBuffer<int, 2>, false, false>(s, rec, g, "SlidingBuffer<int, 2>", 2, profile, th, d - 1, rnd);
    explore<SlidingBuffer<string, 3>, false, false>(s, rec, g, "SlidingBuffer<string, 3>", 3, profile, th, d - 1, rnd);
    explore<SlidingBuffer<Box, 4>, false, false>(s, rec, g, "SlidingBuffer<unique_ptr, 4>", 4, profile, th, 2, rnd);
    for (std::size_t cap : { 2, 3, 4 }) explore<SlidingBufferExposed<int>, true, true>(s, rec, g, "SlidingBufferExposed<int>", cap, profile, th, profile == "access" ? 3 : d - 1, rnd);
    explore<SlidingBufferExposed<string>, true, true>(s, rec, g, "SlidingBufferExposed<string>", 3, profile, th, 3, rnd);
    explore<SlidingBufferExposed<int, 3>, false, true>(s, rec, g, "SlidingBufferExposed<int, 3>", 3, profile, th, d - 1, rnd);
    std::fclose(s.f); std::remove((a.out + ".unused").c_str()); std::printf("{\"histories\":%lu,\"events\":%lu}\n", s.hist, s.events); return 0;
}
