// Records histories of gul14::span: two windows onto one array are made, narrowed, copied and written through.
// usage: h_span OUT LAST TIER SEED PROFILE
#include "hist.h"
#include "gul14/span.h"
#include <array>
#include <cmath>
#include <vector>
using std::string; using gul14::span;
using Yes = std::true_type; using No = std::false_type;
struct Odd { unsigned char c[3]; };      // a size that is not a power of two
inline bool operator==(const Odd& a, const Odd& b) { return a.c[0] == b.c[0]; } inline bool operator!=(const Odd& a, const Odd& b) { return !(a == b); }
inline bool operator<(const Odd& a, const Odd& b) { return a.c[0] < b.c[0]; } inline bool operator>(const Odd& a, const Odd& b) { return b < a; }
template <> struct El<Odd> { static Odd make(int v) { return Odd{ { (unsigned char)v, 7, 9 } }; } static int get(const Odd& o) { return o.c[1] == 7 && o.c[2] == 9 ? o.c[0] : -5; } };
static string list(const std::vector<long>& l) { string s = "["; for (auto i : l) { if (s.size() > 1) s += ','; s += J(i); } return s + "]"; }
template <std::size_t I> using Ix = std::integral_constant<std::size_t, I>;
template <typename F, std::size_t... I> void pick_impl(std::size_t i, F&& f, std::index_sequence<I...>) { int d[] = { (i == I ? (f(Ix<I>{}), 0) : 0)... }; (void)d; }
template <std::size_t N, typename F> void pick(std::size_t i, F&& f) { pick_impl(i, f, std::make_index_sequence<N>{}); }
constexpr std::size_t SIZE = 7, MAX = 5;

enum { WHOLE, DEFAULT, PTR, PTRS, FIRST, LAST, SUB, SUBREST, SFIRST, SLAST, SSUB, SSUBREST, CHAIN, COPY, ASSIGN, WRITE, FILL, BYTES, GET, CONVERT, LOOK, NOPS };
static const char* NAME[] = { "whole", "default", "ptr", "ptrs", "first", "last", "sub", "subrest", "sfirst", "slast", "ssub", "ssubrest", "chain", "copy", "assign", "write", "fill", "bytes", "get", "convert", "look" };
template <typename T> struct Run {
    using S = span<T>; using E = El<T>;
    std::array<T, SIZE> mem; std::vector<T> vec; T arr[SIZE]; S w[3]; T* base; int home; Rec& rec; string ev; int next = 20; unsigned turn = 0;
    Run(Rec& r, int h) : home(h), rec(r)
    {
        vec.resize(SIZE); for (std::size_t i = 0; i < SIZE; ++i) vec[i] = arr[i] = mem[i] = E::make(int(i) + 1);
        base = h == 0 ? mem.data() : h == 1 ? vec.data() : arr;
    }
    S whole() { return home == 0 ? S(mem) : home == 1 ? S(vec) : S(arr); }
    span<const T> cwhole() { const auto& m = mem; const auto& v = vec; return home == 0 ? span<const T>(m) : home == 1 ? span<const T>(v) : span<const T>(arr); }
    span<T, SIZE> fixed() { return home == 0 ? span<T, SIZE>(mem) : home == 1 ? span<T, SIZE>(vec.data(), SIZE) : span<T, SIZE>(arr); }
    template <typename X> static std::vector<long> dump(const X& s) { std::vector<long> r; for (std::size_t i = 0; i < s.size(); ++i) r.push_back(E::get(s[i])); return r; }
    // everything that can be asked of a span; fixed extents too
    template <typename X> string obs(const X& s)
    {
        std::vector<std::vector<long>> seen; seen.push_back(dump(s)); std::vector<long> t;
        for (auto& e : s) t.push_back(E::get(e)); seen.push_back(t); t.clear();
        for (auto i = s.begin(); i != s.end(); ++i) t.push_back(E::get(*i)); seen.push_back(t); t.clear();
        for (auto i = s.cbegin(); i != s.cend(); ++i) t.push_back(E::get(*i)); seen.push_back(t); t.clear();
        for (auto i = begin(s); i != end(s); ++i) t.push_back(E::get(*i)); seen.push_back(t); t.clear();
        for (auto i = s.rbegin(); i != s.rend(); ++i) t.insert(t.begin(), E::get(*i)); seen.push_back(t); t.clear();
        for (auto i = s.crbegin(); i != s.crend(); ++i) t.insert(t.begin(), E::get(*i)); seen.push_back(t); t.clear();
        for (std::size_t i = 0; i < s.size(); ++i) t.push_back(E::get(s.data()[i])); seen.push_back(t);
        span<const typename X::value_type> c = s; seen.push_back(dump(c));
        string l = "["; for (auto& q : seen) { if (l.size() > 1) l += ','; l += list(q); } l += "]";
        auto by = gul14::as_bytes(s); bool bytes = by.size() == s.size_bytes() && (const void*)by.data() == (const void*)s.data();
        for (std::size_t i = 0; bytes && i < by.size(); ++i) bytes = &by[i] == reinterpret_cast<const unsigned char*>(s.data()) + i;
        return "{\"at\":" + (s.data() ? J(long(s.data() - base)) : string("-1")) + ",\"n\":" + J(long(s.size())) + ",\"em\":" + B(s.empty()) + ",\"sb\":" + J(long(s.size_bytes())) + ",\"ends\":" + (s.size() ? list({ E::get(s.front()), E::get(s.back()) }) : string("[]")) + ",\"by\":" + B(bytes) + ",\"seen\":" + l + "}";
    }
    template <typename A, typename C> static string six(A a, C b) { return "[" + B(a == b) + "," + B(a != b) + "," + B(a < b) + "," + B(a <= b) + "," + B(a > b) + "," + B(a >= b) + "]"; }
    string all() { return "[" + obs(w[1]) + "," + obs(w[2]) + "]"; }
    string memory() { std::vector<long> m; for (std::size_t i = 0; i < SIZE; ++i) m.push_back(E::get(base[i])); return list(m); }
    void step(int op, int x, std::size_t a, std::size_t b, std::size_t c)
    {
        turn++; S& s = w[x]; S& o = w[3 - x]; const std::size_t n = s.size(); string res = "[]"; int val = ++next; std::vector<long> ex;
        a %= n + 1; b %= n - a + 1;
        switch (op) { case SFIRST: case SLAST: case SSUB: case SSUBREST: case CHAIN: if (a > MAX || b > MAX) return; break; case WRITE: case GET: case BYTES: if (a >= n) return; break; default: break; }
        if (op == CHAIN && (c > MAX || b > c || a + b > c || c > n)) return;
        rec.note(string("span: ") + NAME[op] + " " + J(long(a)) + " " + J(long(b)) + " " + J(long(c)) + " on a span of " + J(long(n)) + " elements");
        switch (op) {
        case WHOLE: if (turn % 3 == 0) { auto f = fixed(); ex = { long(decltype(f)::extent), long(f.size()) }; s = f; } else s = whole(); break;
        case DEFAULT: s = S(); break; case PTR: s = S(base + c, SIZE - c - (a + c < SIZE ? a : 0)); b = s.size(); break; case PTRS: s = S(base + c, base + SIZE); b = s.size(); break;
        case FIRST: s = s.first(a); break; case LAST: s = s.last(a); break; case SUB: s = s.subspan(a, b); break; case SUBREST: s = s.subspan(a); break;
        case SFIRST: pick<MAX + 1>(a, [&](auto i) { auto r = s.template first<decltype(i)::value>(); ex = { long(decltype(r)::extent), long(r.size()) }; res = "[" + obs(r) + "]"; s = r; }); break;
        case SLAST: pick<MAX + 1>(a, [&](auto i) { auto r = s.template last<decltype(i)::value>(); ex = { long(decltype(r)::extent), long(r.size()) }; res = "[" + obs(r) + "]"; s = r; }); break;
        case SSUB: pick<MAX + 1>(a, [&](auto i) { pick<MAX + 1>(b, [&](auto j) { auto r = s.template subspan<decltype(i)::value, decltype(j)::value>(); ex = { long(decltype(r)::extent), long(r.size()) }; res = "[" + obs(r) + "]"; s = r; }); }); break;
        case SSUBREST: pick<MAX + 1>(a, [&](auto i) { auto r = s.template subspan<decltype(i)::value>(); s = r; }); break;
        // narrowing spans of fixed extent c: the rest from a, b from a, the first and the last b
        case CHAIN: pick<MAX + 1>(c, [&](auto k) { auto f = s.template first<decltype(k)::value>(); pick<decltype(k)::value + 1>(a, [&](auto i) {
                auto rest = f.template subspan<decltype(i)::value>(); constexpr std::size_t left = decltype(k)::value - decltype(i)::value;
                pick<left + 1>(b, [&](auto j) {
                    constexpr std::size_t I = decltype(i)::value, J2 = decltype(j)::value;
                    auto m = f.template subspan<I, J2>(); auto h = f.template first<J2>(); auto l = f.template last<J2>(); auto d = f.subspan(I, J2); auto dr = f.subspan(I);
                    ex = { long(decltype(rest)::extent), long(decltype(m)::extent), long(decltype(h)::extent), long(decltype(l)::extent) };
                    res = "[" + obs(rest) + "," + obs(m) + "," + obs(h) + "," + obs(l) + "," + obs(d) + "," + obs(dr) + "]"; s = m;
                }); }); }); break;
        case COPY: { S t(o); s = t; } break; case ASSIGN: s = o; break;
        case WRITE: switch (turn % 4) { case 0: s[a] = E::make(val); break; case 1: s.begin()[long(a)] = E::make(val); break; case 2: s.data()[a] = E::make(val); break; default: if (a == 0) s.front() = E::make(val); else if (a + 1 == n) s.back() = E::make(val); else *(s.rbegin() + long(n - 1 - a)) = E::make(val); } break;
        case FILL: { int i = 0; for (auto& e : s) e = E::make(next + ++i); val = next; next += i; } break;
        case BYTES: bytes(s, a, val, std::integral_constant<bool, std::is_trivially_copyable<T>::value>{}); break;
        case GET: if (a > MAX || n <= a || n > MAX) return; pick<MAX + 1>(a, [&](auto i) { pick<MAX + 1>(n, [&](auto k) { put(s, i, k, val, std::integral_constant<bool, (decltype(i)::value < decltype(k)::value)>{}); }); }); break;
        case CONVERT: {
            span<const T> k(o); span<const T> u = cwhole(); span<const T> t = home == 0 ? span<const T>(std::move(mem)) : home == 1 ? span<const T>(std::move(vec)) : span<const T>(arr); res = "[" + obs(k) + "," + obs(u) + "," + obs(t) + "]";
            std::initializer_list<T> il{ E::make(1), E::make(2), E::make(3) }; span<const T> z(il); ex = { long(z.size()), long(z.data() == il.begin()) };
        } break;
        default: break;
        }
        if (!ev.empty()) ev += ',';
        ev += string("{\"o\":\"") + NAME[op] + "\",\"x\":" + J(x) + ",\"a\":" + J(long(a)) + ",\"b\":" + J(long(b)) + ",\"c\":" + J(long(c)) + ",\"v\":" + J(val) + ",\"ex\":" + list(ex) + ",\"res\":" + res + ",\"cm\":[" + six(w[1], w[2]) + "," + six(w[2], w[1]) + "," + six(span<const T>(w[1]), w[2]) + "],\"m\":" + memory() + ",\"ob\":" + all() + "}";
    }
    void bytes(S s, std::size_t a, int val, Yes) { auto by = gul14::as_writable_bytes(s); T t = E::make(val); auto p = reinterpret_cast<const unsigned char*>(&t); for (std::size_t i = 0; i < sizeof(T); ++i) by[a * sizeof(T) + i] = p[i]; }
    void bytes(S s, std::size_t a, int val, No) { s[a] = E::make(val); }
    template <typename I, typename K> void put(S s, I, K, int val, Yes) { auto f = s.template first<K::value>(); gul14::get<I::value>(f) = E::make(val); static_assert(std::tuple_size<decltype(f)>::value == K::value && std::is_same<typename std::tuple_element<I::value, decltype(f)>::type, T>::value, ""); }
    template <typename I, typename K> void put(S, I, K, int, No) {}
};
template <typename T> void play(Rec& rec, Sink& out, G& g, bool th, char kind)
{
    struct Cmd { int op, x; std::size_t a, b, c; };
    unsigned long hist = 0;
    auto one = [&](const std::vector<Cmd>& script) {
        Run<T> r(rec, int(hist++ % 3)); string i = "{\"w\":" + r.all() + ",\"m\":" + r.memory() + "}";
        for (auto& x : script) r.step(x.op, x.x, x.a, x.b, x.c);
        if (!r.ev.empty()) out.put(string("\"kind\":\"") + kind + "\",\"size\":" + J(long(sizeof(T))), i, r.ev);
    };
    for (int op = 0; op < NOPS; ++op) for (std::size_t n = 0; n <= SIZE; ++n) for (std::size_t a = 0; a <= SIZE; ++a) for (std::size_t b = 0; b <= SIZE; ++b) for (std::size_t c = 0; c <= (op == CHAIN || op == PTR || op == PTRS ? MAX : 0); ++c) {
        if (a > n || a + b > n) continue;
        if (op == CHAIN && (c > n || a > c)) continue;
        one({ { WHOLE, 1, 0, 0, 0 }, { SUB, 1, n == SIZE ? 0 : 1 % (SIZE - n + 1), n, 0 }, { WHOLE, 2, 0, 0, 0 }, { op, 1, a, b, c } });
    }
    for (int n = 0; n < (th ? 20000 : 1500); ++n) {
        std::vector<Cmd> s{ { WHOLE, 1, 0, 0, 0 } }; unsigned len = 3 + g.u(10);
        for (unsigned i = 0; i < len; ++i) s.push_back({ int(g.u(NOPS)), 1 + int(g.u(2)), g.u(4), g.u(7), g.u(6) });
        one(s);
    }
}
// comparisons of all pairs of short sequences; -9 stands for a NaN
template <std::size_t A, std::size_t C> static string fixedsix(const std::vector<double>& p, const std::vector<double>& q)
{
    using R = Run<int>; span<const double, A> a(p.data(), A); span<const double, C> b(q.data(), C);
    return R::six(a, b) + "," + R::six(a, span<const double>(q)) + "," + R::six(span<const double>(p), b);
}
static void compare(Rec& rec, Sink& out)
{
    std::vector<std::vector<int>> seqs{ {} }; for (std::size_t i = 0; i < seqs.size(); ++i) if (seqs[i].size() < 3) for (int v : { -9, 0, 1 }) { auto t = seqs[i]; t.push_back(v); seqs.push_back(t); }
    for (auto& p : seqs) {
        string ev;
        for (auto& q : seqs) {
            std::vector<double> a, b; std::vector<int> ia, ib; std::vector<std::string> sa, sb; bool nan = false; std::vector<long> lp, lq;
            for (int v : p) { nan |= v == -9; a.push_back(v == -9 ? std::nan("") : v); ia.push_back(v); lp.push_back(v); sa.push_back(v ? "one" : "nil"); } for (int v : q) { nan |= v == -9; b.push_back(v == -9 ? std::nan("") : v); ib.push_back(v); lq.push_back(v); sb.push_back(v ? "one" : "nil"); }
            rec.note("span: comparison of " + list(lp) + " and " + list(lq));
            using R = Run<int>; string c = R::six(span<double>(a), span<double>(b)) + "," + R::six(span<const double>(a), span<double>(b));
            if (!nan) c += "," + R::six(span<int>(ia), span<int>(ib)) + "," + R::six(span<int>(ia), span<double>(b)) + "," + R::six(span<double>(a), span<const int>(ib)) + "," + R::six(span<std::string>(sa), span<std::string>(sb));
            pick<4>(p.size(), [&](auto i) { pick<4>(q.size(), [&](auto j) { c += "," + fixedsix<decltype(i)::value, decltype(j)::value>(a, b); }); });
            if (!ev.empty()) ev += ',';
            ev += "{\"o\":\"cmp\",\"x\":1,\"p\":" + list(lp) + ",\"q\":" + list(lq) + ",\"cm\":[" + c + "]}";
        }
        out.put("\"kind\":\"D\",\"size\":8", "{\"m\":[]}", ev);
    }
}
int main(int argc, char** argv)
{
    Args a = parse_args(argc, argv); Sink out{ std::fopen(a.out.c_str(), "w") }; if (!out.f) return 3;
    Rec rec("/dev/null", a.last); G g(a.seed); const bool th = a.thorough();
    play<int>(rec, out, g, th, 'I'); play<std::string>(rec, out, g, th, 'S'); play<Odd>(rec, out, g, th, 'O'); compare(rec, out);
    std::fprintf(stderr, "%lu histories\n", out.hist);
    std::fclose(out.f); return 0;
}
