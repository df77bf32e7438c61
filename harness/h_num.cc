// Calls the numeric functions of the library and records inputs and outputs.
#include "rec.h"
#define F_tonum 1
#define F_tofloat 2
#define F_bits 3
#define F_gcd 4
#define F_stats 5
#define F_date 6
#include <limits>
#include <cmath>
#include <list>
#include <deque>
#include <array>
#if FAMILY == F_tonum || FAMILY == F_tofloat
#include "gul14/to_number.h"
#elif FAMILY == F_bits
#include "gul14/bit_manip.h"
#include "gul14/traits.h"
#include <cerrno>
#include <csignal>
#include <fcntl.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>
#elif FAMILY == F_gcd
#include "gul14/gcd_lcm.h"
#include "gul14/num_util.h"
#elif FAMILY == F_stats
#include "gul14/statistics.h"
#elif FAMILY == F_date
#include "gul14/date.h"
#endif
using namespace gul14;
using std::string;

#if FAMILY == F_tonum
template <typename T> static string text(T v) { return std::to_string(v); }
template <typename T> static void one(Rec& R, const string& s)
{
    Exact e(s);
    R.begin("int").i("bits", sizeof(T) * 8).b("sg", std::is_signed<T>::value).s("s", s).call();
    auto o = to_number<T>(string_view(e.data(), e.size()));
    R.b("has", o.has_value()).s("o", o ? std::to_string(*o) : string()).end();
}
static void onebool(Rec& R, const string& s)
{
    Exact e(s);
    R.begin("bool").s("s", s).call();
    auto o = to_number<bool>(string_view(e.data(), e.size()));
    R.i("o", o ? int(*o) : -1).end();
}
static void all(Rec& R, const string& s)
{
    one<signed char>(R, s); one<unsigned char>(R, s); one<short>(R, s); one<unsigned short>(R, s); one<int>(R, s); one<unsigned>(R, s);
    one<long>(R, s); one<unsigned long>(R, s); one<long long>(R, s); one<unsigned long long>(R, s); one<char>(R, s);
}
static string add(string d, int k) // decimal string + small k (result nonnegative)
{
    int i = int(d.size()) - 1, c = k;
    while (c != 0 && i >= 0) { int v = (d[i] - '0') + c; c = 0; while (v < 0) { v += 10; --c; } while (v > 9) { v -= 10; ++c; } d[i] = char('0' + v); --i; }
    if (c > 0) d = std::to_string(c) + d;
    size_t z = d.find_first_not_of('0'); return z == string::npos ? "0" : d.substr(z);
}
static void fam_tonum(Rec& R, Gen& g, bool th)
{
    for (auto& s : all_strings("019-+ a", th ? 5 : 4)) { one<signed char>(R, s); one<unsigned char>(R, s); if (s.size() < 4) all(R, s); }
    for (int v = -400; v <= 400; ++v) { one<signed char>(R, std::to_string(v)); one<unsigned char>(R, std::to_string(v)); one<char>(R, std::to_string(v)); }
    for (int v = -66000; v <= 66000; v += th ? 1 : 37) { one<short>(R, std::to_string(v)); one<unsigned short>(R, std::to_string(v)); }
    const char* lim[] = { "127", "128", "255", "256", "32767", "32768", "65535", "65536", "2147483647", "2147483648", "4294967295", "4294967296", "9223372036854775807", "9223372036854775808", "18446744073709551615", "18446744073709551616",
                          "0", "1", "10", "100", "99", "999", "9999", "99999", "9999999999", "10000000000000000000", "20000000000000000000", "36893488147419103232", "184467440737095516160", "340282366920938463463374607431768211456" };
    for (auto l : lim) for (int k = -12; k <= 12; ++k) {
        string d = add(l, k); if (d.find('-') != string::npos) continue;
        for (auto& v : { d, "-" + d, "+" + d, "0" + d, "-0" + d, "000000000000000000000000000000" + d, "-00000000000000000000000000000" + d, d + "0", "-" + d + "0", "--" + d, d + "-", d + " ", " " + d, d + ".", d + "x", string("-") }) all(R, v);
        for (size_t p = 0; p < d.size(); ++p) { string v = d; v[p] = "/:aA-. "[g.u(7)]; all(R, v); all(R, "-" + v); }
    }
    for (int c = 0; c < 256; ++c) { all(R, string(1, char(c))); all(R, string("1") + char(c)); all(R, char(c) + string("1")); onebool(R, string(1, char(c))); onebool(R, string("tru") + char(c)); onebool(R, char(c) + string("alse")); onebool(R, string("1") + char(c)); onebool(R, string("0") + char(c)); }
    for (int i = 0; i < (th ? 30000 : 2500); ++i) {
        string d = g.str("0123456789", 1 + g.u(22)); if (g.coin(40)) d = "-" + d; if (g.coin(15)) d[g.u(d.size())] = char(g.u(256));
        all(R, d);
        one<long>(R, std::to_string((long)g.r())); one<unsigned long>(R, std::to_string((unsigned long)g.r())); one<int>(R, std::to_string((int)g.r()));
        string b = g.coin(50) ? "true" : "false"; for (auto& c : b) if (g.coin(40)) c ^= 32; if (g.coin(30)) b[g.u(b.size())] = char(g.u(256)); if (g.coin(10)) b += 'e'; if (g.coin(10)) b.pop_back();
        onebool(R, b);
    }
    for (auto& b : all_strings("01tTrRuUeE", 4)) onebool(R, b);
    for (auto& b : { "", "true", "false", "TRUE", "FALSE", "True", "tRuE", "yes", "no", "on", "2", "00", "01", "10", "11", "-1", "+1", "1.", "truee", "tru", "falsee", "fals", " true", "true " }) onebool(R, b);
}
#endif
#if FAMILY == F_tofloat
template <typename T> T ref(const string& s);
template <> float ref<float>(const string& s) { return std::strtof(s.c_str(), nullptr); }
template <> double ref<double>(const string& s) { return std::strtod(s.c_str(), nullptr); }
template <> long double ref<long double>(const string& s) { return std::strtold(s.c_str(), nullptr); }
template <typename T> int dist(T a, T b)
{
    if (a == b) return 0;
    if (std::isnan(a) || std::isnan(b)) return 9999;
    int n = 0; while (a != b && n < 200) { a = std::nextafter(a, b); ++n; } return a == b ? n : 9999;
}
template <typename T> static void one(Rec& R, const string& s)
{
    Exact e(s);
    R.begin("flt").i("w", std::is_same<T, float>::value ? 4 : std::is_same<T, double>::value ? 8 : 10).s("s", s).call();
    auto o = to_number<T>(string_view(e.data(), e.size()));
    const char* cls = "none"; int d = 0; bool neg = false, sub = false;
    if (o) { neg = std::signbit(*o); cls = std::isnan(*o) ? "nan" : std::isinf(*o) ? "inf" : *o == 0 ? "zero" : "fin"; T r = ref<T>(s); if (!std::isnan(*o)) d = dist(*o, r); sub = r != 0 && !std::isnormal(r); }
    R.t("c", cls).b("neg", neg).i("d", d).b("sub", sub).end();
}
static void all(Rec& R, const string& s) { one<float>(R, s); one<double>(R, s); one<long double>(R, s); }
static void fam_tofloat(Rec& R, Gen& g, bool th)
{
    for (auto& s : all_strings("10.e-+", th ? 6 : 5)) { if (s.size() < 5) all(R, s); else one<double>(R, s); }
    for (auto& s : all_strings("inf", 3)) all(R, s);
    for (auto& s : all_strings("na(_)x ", 6)) if (s.compare(0, 2, "na") == 0) one<double>(R, s);
    std::vector<string> words = { "inf", "INF", "Inf", "infinity", "INFINITY", "infinitY", "infinit", "infinityy", "infi", "nan", "NaN", "NAN", "nan()", "nan(", "nan)", "nan(abc)", "nan(a_Z9)", "nan(a-b)", "nan(a b)", "nan(a", "nan(a)b", "nana", "nann", "nan(a))", "nan((a)", "in", "na", "n", "i", "infe5", "nan.0", "1inf", "1nan", "inf1" };
    for (auto& w : words) for (auto& p : { "", "-", "+", "--", " " }) all(R, p + w);
    for (int c = 0; c < 256; ++c) { one<double>(R, string("nan(") + char(c) + ")"); one<double>(R, string("1") + char(c)); one<double>(R, string("1.") + char(c)); one<double>(R, string("1") + char(c) + "5"); one<double>(R, char(c) + string("5")); one<double>(R, string("1e") + char(c)); one<double>(R, string("1e5") + char(c)); one<double>(R, string("0") + char(c)); one<double>(R, string("0.0") + char(c)); one<double>(R, string("inf") + char(c)); }
    // long mantissas, with a foreign character at every position
    for (int len : { 17, 18, 19, 20, 21, 25, 37, 38, 39, 40, 45, 60 }) for (int pt : { -1, 0, 1, 5, 18, 19, 20, 38, 39 }) {
        string m = g.str("0123456789", len); if (m[0] == '0') m[0] = '7'; if (pt >= 0 && pt <= len) m.insert(pt, ".");
        all(R, m); all(R, "-" + m); all(R, m + "e-5"); all(R, "000" + m);
        for (size_t p = 0; p < m.size(); ++p) { string v = m; v[p] = "abex./:+-"[g.u(9)]; one<double>(R, v); one<long double>(R, v); one<float>(R, v); }
        all(R, m + "x"); all(R, m + "."); all(R, m + " ");
    }
    // many zeros in front of, behind or between the digits, made up for by the exponent
    for (int z : { 5, 19, 20, 37, 40, 100, 127, 128, 200, 254, 255, 256, 257, 300, 320, 511, 513, 1000, 4940 }) for (auto& m : { "1", "7", "123", "99999999999999999999" }) for (int dx : { 0, 1, -1, 5, -30 }) {
        string zz(z, '0');
        all(R, "0." + zz + m + "e" + std::to_string(z + 1 + dx)); all(R, "." + zz + m + "e+" + std::to_string(z + dx)); all(R, m + zz + "e" + std::to_string(-z + dx)); all(R, m + zz + ".0e" + std::to_string(-z + dx)); all(R, "-" + zz + m + "e" + std::to_string(dx)); all(R, zz + "." + zz + m + "E" + std::to_string(z + dx)); all(R, m + string(".") + zz + m); all(R, m + string(".") + zz); all(R, m + zz); all(R, "0." + zz + m); all(R, m + zz + "x"); all(R, "0." + zz + "e"); all(R, "0." + zz + "-1");
    }
    // exponents: range ends, sign, many digits
    for (auto& m : { "1", "9.99", "0.01", "12", "123456789", "0.000000123", "1.", ".5", "0", "0.0", "00000000000000000000000000001", "0.00000000000000000000000000000000000000001" })
        for (long long x : { 0LL, 1LL, 5LL, 15LL, 16LL, 17LL, 31LL, 32LL, 37LL, 38LL, 39LL, 44LL, 45LL, 46LL, 63LL, 64LL, 128LL, 255LL, 256LL, 300LL, 307LL, 308LL, 309LL, 323LL, 324LL, 325LL, 400LL, 511LL, 512LL, 1000LL, 1024LL, 4000LL, 4930LL, 4932LL, 4933LL, 4950LL, 4951LL, 4952LL, 5000LL, 8191LL, 8192LL, 65536LL, 100000LL, 1000000000LL, 2147483640LL, 2147483646LL, 2147483647LL })
            for (auto& sg : { "e", "E", "e+", "e-", "E-", "e-0", "e000000000000000000000000" }) { all(R, m + string(sg) + std::to_string(x)); }
    for (auto& x : { "2147483648", "99999999999", "9223372036854775807", "9223372036854775808", "18446744073709551616", "99999999999999999999999999" }) { all(R, string("1e") + x); all(R, string("1e-") + x); }
    for (auto& x : { "1e", "1e+", "1e-", "1e++5", "1e--5", "1e+-5", "1e5.", "1e.5", "1e5e5", "1ee5", ".e5", "e5", ".", "-.", "-", "", "+1", "--1", "1..2", "1.2.3", "0x10", "1e0x5", "1,5", "1'000", "-.5", "-5.", "- 1", "1 ", " 1", "1_000", "1f", "1.0f", "1L", "-e5", "-.e5" }) all(R, x);
    for (int i = 0; i < (th ? 60000 : 4000); ++i) {
        string s; if (g.coin(30)) s += '-';
        s += g.str("0123456789", g.u(22)); if (g.coin(70)) { s += '.'; s += g.str("0123456789", g.u(25)); }
        if (g.coin(60)) { s += "eE"[g.u(2)]; if (g.coin(50)) s += "+-"[g.u(2)]; s += std::to_string(g.u(g.coin(50) ? 40 : g.coin(50) ? 330 : 5000)); }
        if (g.coin(20) && !s.empty()) s[g.u(s.size())] = "0123456789.eE+-xinf()"[g.u(21)];
        all(R, s);
        char b[64]; std::snprintf(b, 64, "%.17g", std::ldexp(double(g.r() >> 11), int(g.u(2000)) - 1050)); one<double>(R, b);
        std::snprintf(b, 64, "%.9g", double(std::ldexp(float(g.r() >> 40), int(g.u(250)) - 150))); one<float>(R, b);
        std::snprintf(b, 64, "%.21Lg", std::ldexp((long double)(g.r()), int(g.u(32000)) - 16200)); one<long double>(R, b);
    }
}
#endif
#if FAMILY == F_bits
template <typename T> static std::vector<int> bits(T v) { std::vector<int> r; auto u = static_cast<std::make_unsigned_t<T>>(v); for (unsigned k = 0; k < sizeof(T) * 8; ++k) r.push_back(int((static_cast<std::uint64_t>(u) >> k) & 1)); return r; }
template <typename T> static void one(Rec& R, T v, unsigned b)
{
    R.begin("bit").i("w", sizeof(T) * 8).v("x", bits(v)).i("b", b).call();
    R.v("s0", bits<T>(bit_set<T>(b))).v("s", bits<T>(bit_set(v, b))).v("r", bits<T>(bit_reset(v, b))).v("fl", bits<T>(bit_flip(v, b))).b("t", bit_test(v, b)).end();
}
template <typename T> static void ty(Rec& R, Gen& g, bool th)
{
    for (unsigned b = 0; b < sizeof(T) * 8; ++b) {
        for (T v : { T(0), T(-1), T(1), std::numeric_limits<T>::min(), std::numeric_limits<T>::max(), T(T(1) << (b % (sizeof(T) * 8 - 1))) }) one<T>(R, v, b);
        for (int i = 0; i < (th ? 200 : 12); ++i) one<T>(R, T(g.r()), b);
    }
}
// calls with an index beyond the width end the program by an assertion; the result has the type of the operand
template <typename F> static bool aborts(F f)
{
    std::fflush(nullptr); pid_t p = fork();
    if (p == 0) { int n = open("/dev/null", O_WRONLY); dup2(n, 2); dup2(n, 1); struct rlimit rl{ 0, 0 }; setrlimit(RLIMIT_CORE, &rl); signal(SIGABRT, SIG_DFL); volatile bool sink = f(); (void)sink; _exit(0); }
    int st = 0; while (waitpid(p, &st, 0) < 0 && errno == EINTR) {} return WIFSIGNALED(st) && WTERMSIG(st) == SIGABRT;
}
template <typename T> static void misuse(Rec& R)
{
    using U = std::decay_t<T>; const unsigned w = sizeof(T) * 8; std::vector<bool> o;
    R.begin("bittype").call();
    R.b("same", std::is_same<decltype(bit_set<T>(0u)), U>::value && std::is_same<decltype(bit_set(std::declval<T&>(), 0u)), U>::value && std::is_same<decltype(bit_reset(std::declval<T&>(), 0u)), U>::value && std::is_same<decltype(bit_flip(std::declval<T&>(), 0u)), U>::value && std::is_same<decltype(bit_test(std::declval<T&>(), 0u)), bool>::value && noexcept(bit_set(std::declval<T&>(), 0u))).end();
    for (unsigned b : { w, w + 1, 2 * w, 256u, 4294967295u }) {
        volatile unsigned i = b; U x{ 5 }; R.begin("bitdie").call();
        int n = aborts([&] { return bit_set<T>(i) != 0; }) + aborts([&] { return bit_set(x, i) != 0; }) + aborts([&] { return bit_reset(x, i) != 0; }) + aborts([&] { return bit_flip(x, i) != 0; }) + aborts([&] { return bit_test(x, i); });
        R.i("n", n).end();
    }
}
enum Enum { e1 };
template <typename T, typename = void> struct CanSet : std::false_type {}; template <typename T> struct CanSet<T, void_t<decltype(bit_set(std::declval<T>(), 0u))>> : std::true_type {};
template <typename T, typename = void> struct CanSet1 : std::false_type {}; template <typename T> struct CanSet1<T, void_t<decltype(bit_set<T>(0u))>> : std::true_type {};
template <typename T, typename = void> struct CanReset : std::false_type {}; template <typename T> struct CanReset<T, void_t<decltype(bit_reset(std::declval<T>(), 0u))>> : std::true_type {};
template <typename T, typename = void> struct CanFlip : std::false_type {}; template <typename T> struct CanFlip<T, void_t<decltype(bit_flip(std::declval<T>(), 0u))>> : std::true_type {};
template <typename T> static void refused(Rec& R) { R.begin("bitref").call(); R.b("any", CanSet<T>::value || CanSet1<T>::value || CanReset<T>::value || CanFlip<T>::value).end(); }
static void fam_bits(Rec& R, Gen& g, bool th)
{
    for (int v = 0; v < 256; ++v) for (unsigned b = 0; b < 8; ++b) { one<signed char>(R, (signed char)v, b); one<unsigned char>(R, (unsigned char)v, b); one<char>(R, char(v), b); }
    ty<short>(R, g, th); ty<unsigned short>(R, g, th); ty<int>(R, g, th); ty<unsigned>(R, g, th); ty<long>(R, g, th); ty<unsigned long>(R, g, th); ty<long long>(R, g, th); ty<unsigned long long>(R, g, th); ty<char16_t>(R, g, th); ty<char32_t>(R, g, th); ty<wchar_t>(R, g, th);
    // default type, chained use: a sequence of set / reset / flip operations on one word
    for (unsigned b = 0; b < 32; ++b) { R.begin("bitdef").i("b", b).call(); R.v("o", bits<unsigned>(bit_set(b))).end(); }
    for (int i = 0; i < (th ? 3000 : 300); ++i) {
        std::uint64_t w = 0; std::vector<int> ops;
        for (int k = 0; k < 20; ++k) { int op = int(g.u(3)); unsigned b = unsigned(g.u(64)); ops.push_back(op * 64 + int(b)); w = op == 0 ? bit_set(w, b) : op == 1 ? bit_reset(w, b) : bit_flip(w, b); }
        R.begin("bitseq").v("ops", ops).call(); R.v("o", bits(w)).end();
    }
    misuse<signed char>(R); misuse<unsigned char>(R); misuse<char>(R); misuse<short>(R); misuse<unsigned short>(R); misuse<int>(R); misuse<unsigned>(R); misuse<long>(R); misuse<unsigned long long>(R); misuse<char32_t>(R); misuse<const int>(R); misuse<volatile unsigned short>(R);
    refused<bool>(R); refused<const bool>(R); refused<float>(R); refused<double>(R); refused<int*>(R); refused<Enum>(R);
    R.begin("endian").call(); std::uint16_t one16 = 1; unsigned char first; std::memcpy(&first, &one16, 1);
    R.b("le", is_little_endian()).b("be", is_big_endian()).i("first", first).end();
}
#endif
#if FAMILY == F_gcd
template <typename A, typename B> static void two(Rec& R, A a, B b)
{
    R.begin("gcd").i("a", (long long)a).i("b", (long long)b).call();
    R.i("g", (long long)gcd(a, b)).i("l", (long long)lcm(a, b)).end();
}
template <typename T> static void wo(Rec& R, T a, T b, int ord)
{
    R.begin("orders").i("a", (long long)a).i("b", (long long)b).i("n", ord).call();
    R.b("o", within_orders(a, b, ord)).b("o2", within_orders(b, a, ord)).end();
}
template <typename T> static void wa(Rec& R, T a, T b, T tol)
{
    R.begin("wabs").i("a", (long long)a).i("b", (long long)b).i("t", (long long)tol).call();
    R.b("o", within_abs(a, b, tol)).b("o2", within_abs(b, a, tol)).end();
}
template <typename T> static void cl(Rec& R, T v, T lo, T hi)
{
    R.begin("clamp").i("v", (long long)v).i("lo", (long long)lo).i("hi", (long long)hi).call();
    R.i("o", (long long)clamp(v, lo, hi)).i("o2", (long long)clamp(v, lo, hi, [](T a, T b) { return a < b; }));
    R.i("o3", (long long)clamp(v, hi, lo, [](T a, T b) { return a > b; })).i("ab", (long long)gul14::abs(v)).end();
}
// the same with all operands multiplied by k (which neither gcd nor the other results change, up to that factor)
template <typename T> static void twok(Rec& R, int a, int b, T k)
{
    R.begin("gcd").i("a", a).i("b", b).i("k2", (long long)(k / 1000000000)).call();
    T g = gcd(T(a * k), T(b * k)), l = lcm(T(a * k), T(b * k));
    R.i("g", g % k == 0 ? (long long)(g / k) : -1).i("l", l % k == 0 ? (long long)(l / k) : -1).end();
}
template <typename T> static void wak(Rec& R, int a, int b, int t, T off, T k)
{
    R.begin("wabs").i("a", a).i("b", b).i("t", t).call();
    R.b("o", within_abs(T(off + a * k), T(off + b * k), T(t * k))).b("o2", within_abs(T(off + b * k), T(off + a * k), T(t * k))).end();
}
template <typename T> static void wok(Rec& R, int a, int b, int n, T k)
{
    R.begin("orders").i("a", a).i("b", b).i("n", n).call();
    R.b("o", within_orders(T(a * k), T(b * k), n)).b("o2", within_orders(T(b * k), T(a * k), double(n))).end();
}
// objects that can be told apart although the comparison sees only their keys
struct Keyed { int key, id; bool operator<(const Keyed& o) const { return key < o.key; } };
static void clk(Rec& R, int v, int lo, int hi)
{
    Keyed a{ v, 1 }, l{ lo, 2 }, h{ hi, 3 };
    R.begin("clampid").i("v", v).i("lo", lo).i("hi", hi).call();
    const Keyed& x = clamp(a, l, h); const Keyed& y = clamp(a, l, h, [](const Keyed& p, const Keyed& q) { return p.key < q.key; }); const Keyed& z = clamp(a, h, l, [](const Keyed& p, const Keyed& q) { return q.key < p.key; });
    auto which = [&](const Keyed& k) { return &k == &a ? 1 : &k == &l ? 2 : &k == &h ? 3 : 0; };
    R.i("o", which(x)).i("o2", which(y)).i("o3", which(z)).end();
}
static const char* fclass(double d) { return std::isnan(d) ? "nan" : std::isinf(d) ? (d > 0 ? "inf" : "minf") : d == 0 ? (std::signbit(d) ? "nz" : "z") : d > 0 ? "one" : "mone"; }
template <typename T> static void clf(Rec& R)
{
    const T inf = std::numeric_limits<T>::infinity();
    std::vector<T> v = { -inf, T(-1), -T(0), T(0), T(1), inf };
    for (T a : { -inf, T(-1), -T(0), T(0), T(1), inf, std::numeric_limits<T>::quiet_NaN() }) for (T lo : v) for (T hi : v) if (lo <= hi) {
        R.begin("clampf").t("v", fclass(a)).t("lo", fclass(lo)).t("hi", fclass(hi)).call();
        R.t("o", fclass(clamp(a, lo, hi))).t("o2", fclass(clamp(a, lo, hi, [](T p, T q) { return p < q; }))).t("ab", fclass(gul14::abs(a))).end();
    }
}
// values on the floating-point grid: base * (1 + k ulp)
template <typename T> static void ulpcase(Rec& R, T base, int k, unsigned ulp, const char* kind)
{
    T b = base; for (int i = 0; i < std::abs(k); ++i) b = std::nextafter(b, k > 0 ? std::numeric_limits<T>::infinity() : -std::numeric_limits<T>::infinity());
    R.begin("ulp").t("kind", kind).i("k", k).i("u", ulp).call();
    R.b("o", within_ulp(base, b, ulp)).b("o2", within_ulp(b, base, ulp)).end();
}
template <typename T> static void flt(Rec& R)
{
    const T inf = std::numeric_limits<T>::infinity(), nan = std::numeric_limits<T>::quiet_NaN(), mx = std::numeric_limits<T>::max();
    std::vector<std::pair<const char*, T>> v = { { "z", 0 }, { "nz", -T(0) }, { "one", 1 }, { "mone", -1 }, { "max", mx }, { "low", -mx }, { "inf", inf }, { "minf", -inf }, { "nan", nan }, { "den", std::numeric_limits<T>::denorm_min() }, { "half", T(0.5) } };
    for (auto& a : v) for (auto& b : v) for (auto& t : v) {
        R.begin("fabs").t("a", a.first).t("b", b.first).t("t", t.first).call();
        R.b("o", within_abs(a.second, b.second, t.second)).b("o2", within_abs(b.second, a.second, t.second)).b("u0", within_ulp(a.second, b.second, 0)).b("u1", within_ulp(a.second, b.second, 1000)).end();
    }
    for (int k = -12; k <= 12; ++k) for (unsigned u = 0; u <= 12; ++u) {
        ulpcase<T>(R, T(1), k, u, "one"); ulpcase<T>(R, T(-1), k, u, "mone"); ulpcase<T>(R, T(1.5), k, u, "mid"); ulpcase<T>(R, T(-1.5), k, u, "mid"); ulpcase<T>(R, std::ldexp(T(1.5), 40), k, u, "mid"); ulpcase<T>(R, std::ldexp(T(1.5), -40), k, u, "mid");
        ulpcase<T>(R, std::numeric_limits<T>::denorm_min() * 100, k, u, "den"); ulpcase<T>(R, -std::numeric_limits<T>::denorm_min() * 100, k, u, "den"); ulpcase<T>(R, T(0), k, u, "den");
    }
}
static void fam_gcd(Rec& R, Gen& g, bool th)
{
    int n = th ? 130 : 45;
    for (int a = -n; a <= n; ++a) for (int b = -n; b <= n; ++b) { two<int, int>(R, a, b); if (a >= -100 && a < 100 && b >= -100 && b < 100 && (a * b) % 3 == 0) { if (std::abs(a * b) < 127) two<signed char, signed char>(R, (signed char)a, (signed char)b); two<short, long>(R, short(a), long(b)); two<long long, int>(R, a, b); } if (a >= 0 && b >= 0) { two<unsigned, unsigned>(R, a, b); two<unsigned short, unsigned long>(R, a, b); } }
    for (int i = 0; i < (th ? 30000 : 3000); ++i) { int k = 1 + int(g.u(200)); int a = k * int(g.u(200)), b = k * int(g.u(200)); if (g.coin(50)) a = -a; if (g.coin(50)) b = -b; if ((long long)std::abs(a) / k * std::abs(b) < 2000000000LL) { two<int, int>(R, a, b); two<unsigned, unsigned>(R, std::abs(a), std::abs(b)); two<long, long>(R, a, b); } }
    // operands whose product does not fit although the least common multiple does
    for (int k : { 46341, 65536, 100000, 1000003 }) for (int a = 1; a < 40; ++a) for (int b = 1; b < 40; b += 3) if ((long long)k * a * b < 2000000000LL) { two<int, int>(R, k * a, k * b); two<unsigned, unsigned>(R, k * a, k * b); two<int, int>(R, -k * a, k * b); }
    two<int, int>(R, 2147483647, 1); two<int, int>(R, 2147483647, 2147483647); two<int, int>(R, 2147483646, 1073741823); two<int, int>(R, -2147483647, 2147483647); two<int, int>(R, 2147483647, 0);
    for (int a = -30; a <= 30; ++a) for (int b = -30; b <= 30; ++b) { for (int t = -8; t <= 8; ++t) { wa<int>(R, a, b, t); if (a >= 0 && b >= 0 && t >= 0) { wa<unsigned>(R, a, b, t); wa<unsigned char>(R, a, b, t); } if ((a + b) % 2) wa<long long>(R, a, b, t); else wa<double>(R, a, b, t); } }
    for (int a = -6; a <= 6; ++a) for (int lo = -6; lo <= 6; ++lo) for (int hi = lo; hi <= 6; ++hi) { cl<int>(R, a, lo, hi); cl<long>(R, a, lo, hi); cl<double>(R, a, lo, hi); cl<signed char>(R, a, lo, hi); if (a >= 0 && lo >= 0) cl<unsigned>(R, a, lo, hi); }
    for (int v : { 2147483647, -2147483647, 0, 5 }) for (int lo : { -2147483647 - 1, -5, 0 }) for (int hi : { 0, 7, 2147483647 }) cl<int>(R, v, lo, hi);
    for (int a = 0; a <= (th ? 1100 : 330); a += 3) for (int d = -40; d <= 40; d += 1) if (a + d >= 0) { int o = (a + d) % 4; wo<int>(R, a, a + d, o); wo<unsigned>(R, a, a + d, o); wo<double>(R, a, a + d, o); if (d % 4 == 0) { wo<int>(R, -a, -(a + d), o); wo<int>(R, a, -(a + d), o); wo<long>(R, a, a + d, o); wo<std::size_t>(R, a, a + d, o); wo<unsigned short>(R, a, a + d, o); wo<float>(R, a, a + d, o); } }
    for (int v = -3; v <= 3; ++v) for (int lo = -3; lo <= 3; ++lo) for (int hi = lo; hi <= 3; ++hi) clk(R, v, lo, hi);
    clf<float>(R); clf<double>(R); clf<long double>(R);
    for (int a = 0; a <= 60; ++a) for (int b = 0; b <= 60; ++b) {
        twok<unsigned long long>(R, a, b, 5000000000000000ULL); if (a % 2) twok<unsigned long>(R, a, b, 1UL << 52); twok<long long>(R, a % 3 ? a : -a, b % 5 ? b : -b, 2500000000000000LL);
        if (a < 40 && b < 40) { for (int n = 0; n < 3; ++n) { wok<double>(R, a, b, n, std::ldexp(1., 900)); wok<double>(R, -a, -b, n, std::ldexp(1., -900)); wok<long long>(R, a, b, n, 1LL << 50); wok<unsigned long long>(R, a, b, n, 1ULL << 57); wok<float>(R, a, b, n, std::ldexp(1.f, 90)); wok<int>(R, a, b, n, 1 << 25); wok<int>(R, -a, -b, n, 1 << 25); wok<unsigned>(R, a, b, n, 1u << 26); } }
    }
    for (int a = 0; a <= 24; ++a) for (int b = 0; b <= 24; ++b) for (int t = 0; t <= 24; t += 3) {
        wak<unsigned long long>(R, a, b, t, ~0ULL - 30, 1); wak<unsigned>(R, a, b, t, ~0u - 30, 1); wak<unsigned char>(R, a, b, t, 230, 1); wak<int>(R, a, b, -t, 2147483647 - 30, 1); wak<int>(R, -a, -b, t, -2147483647 + 30, 1); wak<long long>(R, a, -b, t, 0, 1LL << 57);
        wak<unsigned long long>(R, a, b, t, 1ULL << 63, 1ULL << 58); wak<double>(R, a, -b, t, 0, std::ldexp(1., 1000)); wak<double>(R, a, -b, t, 0, std::ldexp(1., -1070)); wak<float>(R, a, -b, -t, 0, std::ldexp(1.f, -140)); wak<long double>(R, -a, b, t, 0, std::ldexp(1.L, 16000)); wak<short>(R, a, b, t, 32700, 1); wak<unsigned short>(R, a, b, t, 0, 2000);
    }
    for (int k : { 99, 100, 101, 149, 150, 151, 199, 200, 201, 255, 256, 257, 999, 1000, 1001 }) for (unsigned u : { 99u, 100u, 101u, 199u, 255u, 256u, 1000u }) for (int s : { 1, -1 }) {
        ulpcase<double>(R, 1., s * k, u, "one"); ulpcase<float>(R, 1.f, s * k, u, "one"); ulpcase<double>(R, -1., s * k, u, "mone"); ulpcase<long double>(R, 1.5L, s * k, u, "mid"); ulpcase<float>(R, -1.5f, s * k, u, "mid"); ulpcase<double>(R, 0., s * k, u, "den"); ulpcase<float>(R, 0.f, s * k, u, "den");
    }
    flt<float>(R); flt<double>(R); flt<long double>(R);
}
#endif
#if FAMILY == F_stats
struct El { int id; double d; int i; float f; };
static long long rnd(double x, bool& ex) { double r = std::nearbyint(x); if (!(std::fabs(x - r) < 1e-3)) ex = false; return (long long)r; }
static void one(Rec& R, const std::vector<int>& x, double base, double scale, const char* bn)
{
    std::vector<double> d; std::vector<El> els; std::list<double> l; std::vector<int> vi = x; std::vector<float> vf; std::deque<long double> dl;
    for (size_t k = 0; k < x.size(); ++k) { double v = base + x[k] * scale; d.push_back(v); l.push_back(v); els.push_back({ int(k), v, x[k], float(x[k]) }); vf.push_back(float(x[k])); dl.push_back(v); }
    double n = double(x.size());
    auto acc = [](const El& e) { return e.d; };
    R.begin("stat").v("x", x).t("base", bn).call();
    bool ex = true; std::vector<long long> means, var, med, mn, mx, rm;
    auto M = [&](double m) { means.push_back(std::isnan(m) ? -999999 : rnd((m - base) / scale * n, ex)); };
    M(mean(d)); M(mean(l)); M(mean(els, acc)); M(mean(d.begin(), d.end())); M(mean(els.begin(), els.end(), acc)); M((double)mean<long double>(dl)); M(standard_deviation(d).mean()); M(standard_deviation(els, acc).mean_); M(standard_deviation(l.begin(), l.end()).mean());
    auto V = [&](double s) { var.push_back(std::isnan(s) ? -999999 : rnd(s * s / scale / scale * n * (n - 1), ex)); };
    V(standard_deviation(d).sigma()); V(standard_deviation(l)); V(standard_deviation(els, acc)); V(standard_deviation(d.begin(), d.end()).sigma()); V(standard_deviation(els.begin(), els.end(), acc).sigma_); V((double)standard_deviation<long double>(d).sigma());
    auto D = [&](double m) { med.push_back(std::isnan(m) ? -999999 : rnd((m - base) / scale * 2, ex)); };
    D(median(d)); D(median(l)); D(median(els, acc)); D(median(d.begin(), d.end())); D(median(els.begin(), els.end(), acc)); D((double)median<long double>(dl));
    auto Q = [&](std::vector<long long>& t, double m) { t.push_back(std::isnan(m) ? -999999 : rnd((m - base) / scale, ex)); };
    Q(mn, minimum(d)); Q(mn, minimum(l)); Q(mn, minimum(els, acc)); Q(mn, minimum(d.begin(), d.end())); Q(mn, min_max(d).min); Q(mn, min_max(els, acc).min); Q(mn, min_max(l.begin(), l.end()).min); Q(mn, minimum(els.begin(), els.end(), acc));
    Q(mx, maximum(d)); Q(mx, maximum(l)); Q(mx, maximum(els, acc)); Q(mx, maximum(d.begin(), d.end())); Q(mx, min_max(d).max); Q(mx, min_max(els, acc).max); Q(mx, min_max(l.begin(), l.end()).max); Q(mx, maximum(els.begin(), els.end(), acc));
    // integer-typed data
    auto acci = [](const El& e) { return e.i; };
    bool ii = true;
    std::vector<long long> im;
    if (!x.empty()) { im = { minimum(vi), maximum(vi), min_max(vi).min, min_max(vi).max, minimum(els, acci), maximum(els, acci), rnd(mean(vi) * n, ex), rnd(median(vi) * 2, ex), rnd(rms(vi) * rms(vi) * n, ex), rnd(rms(els, acci) * rms(els, acci) * n, ex), rnd(rms(vi.begin(), vi.end()) * rms(vi.begin(), vi.end()) * n, ex), rnd(mean<float>(vf) * n, ex),
             (long long)gul14::accumulate<double>(vi, [](double a, double b) { return a + b; }), (long long)gul14::accumulate<double>(els, [](double a, int b) { return a < b ? b : a; }, acci), (long long)gul14::accumulate<double>(vi.begin(), vi.end(), [](double a, double b) { return a - b; }) }; }
    else ii = minimum(vi) == std::numeric_limits<int>::max() && maximum(vi) == std::numeric_limits<int>::lowest() && min_max(vi).min == std::numeric_limits<int>::max() && min_max(vi).max == std::numeric_limits<int>::lowest();
    R.v("mean", means).v("var", var).v("med", med).v("mn", mn).v("mx", mx).v("im", im).b("ii", ii).b("ex", ex).end();
}
// samples x * k of type T: the results are those of x times k, also at the ends of the range of T
template <typename T> static void scl(Rec& R, const std::vector<int>& x, T k, bool m, bool v)
{
    using F = std::conditional_t<std::is_floating_point<T>::value, T, double>;
    std::vector<T> d; std::list<T> l; std::vector<std::pair<int, T>> e; for (int q : x) { d.push_back(T(q * k)); l.push_back(T(q * k)); e.push_back({ 0, T(q * k) }); }
    auto acc = [](const std::pair<int, T>& p) { return p.second; };
    F n = F(x.size()); bool ex = true; std::vector<long long> mean_, var, med, mn, mx, sq;
    R.begin("statx").v("x", x).i("dg", std::numeric_limits<T>::digits).call();
    auto P = [&](std::vector<long long>& t, F s) { t.push_back(std::isnan(s) ? -999999 : std::fabs(s) < 1e9 ? rnd(double(s), ex) : -888888); };
    for (F s : { median<F>(d), median<F>(l), median<F>(e, acc), median<F>(d.begin(), d.end()) }) P(med, s / F(k) * 2);
    P(mn, F(minimum(d)) / F(k)); P(mn, F(minimum(e, acc)) / F(k)); P(mn, F(min_max(l).min) / F(k)); P(mn, F(minimum(l.begin(), l.end())) / F(k)); P(mx, F(maximum(d)) / F(k)); P(mx, F(maximum(e, acc)) / F(k)); P(mx, F(min_max(d.begin(), d.end()).max) / F(k)); P(mx, F(maximum(l)) / F(k));
    if (m) for (F s : { mean<F>(d), mean<F>(l), mean<F>(e, acc), mean<F>(d.begin(), d.end()), standard_deviation<F>(d).mean() }) P(mean_, s / F(k) * n);
    if (v) { for (F s : { standard_deviation<F>(d).sigma(), standard_deviation<F>(e, acc).sigma(), standard_deviation<F>(l.begin(), l.end()).sigma() }) P(var, (s / F(k)) * (s / F(k)) * n * (n - 1)); for (F s : { rms<F>(d), rms<F>(l), rms<F>(e, acc) }) P(sq, (s / F(k)) * (s / F(k)) * n); }
    R.v("mean", mean_).v("var", var).v("med", med).v("mn", mn).v("mx", mx).v("sq", sq).b("ex", ex).end();
}
static void scales(Rec& R, const std::vector<int>& x)
{
    if (x.empty()) return;
    scl<double>(R, x, std::ldexp(1., 1017), false, false); scl<double>(R, x, std::ldexp(1., 1000), true, false); scl<double>(R, x, std::ldexp(1., 490), true, true); scl<double>(R, x, std::ldexp(1., -490), true, true); scl<double>(R, x, std::ldexp(1., -1073), false, false); scl<double>(R, x, std::ldexp(1., -1000), true, false);
    scl<float>(R, x, std::ldexp(1.f, 121), false, false); scl<float>(R, x, std::ldexp(1.f, -148), false, false); scl<long double>(R, x, std::ldexp(1.L, 16377), false, false);
    scl<int>(R, x, 20000000, true, true); scl<int>(R, x, 1, true, true); scl<short>(R, x, 300, true, true); scl<signed char>(R, x, 1, true, true); scl<long long>(R, x, 90000000000000000LL, true, true);
    std::vector<int> p; for (int q : x) p.push_back(q + 100); scl<unsigned long long>(R, p, 90000000000000000ULL, true, true); scl<unsigned char>(R, p, 1, true, true); scl<unsigned>(R, p, 20000000u, true, true);
}
static void outl(Rec& R, const std::vector<int>& x, std::size_t k)
{
    R.begin("outl").v("x", x).i("k", k).call();
    std::vector<int> a = x; auto& ra = remove_outliers(std::move(a), k);
    std::vector<double> d(x.begin(), x.end()); const auto& cd = d; auto b = remove_outliers(cd, k);
    std::list<int> l(x.begin(), x.end()); remove_outliers(std::move(l), k);
    std::vector<El> els; for (size_t i = 0; i < x.size(); ++i) els.push_back({ int(i), double(x[i]), x[i], 0 });
    auto c = remove_outliers(els.cbegin(), els.cend(), k, [](const El& e) { return e.d; });
    std::vector<int> ids, cv; for (auto& e : c) { ids.push_back(e.id + 1); cv.push_back(e.i); }
    bool same = d.size() == x.size() && &ra == &a; for (size_t i = 0; same && i < x.size(); ++i) same = d[i] == x[i];
    R.v("a", a).v("b", b).v("l", l).v("c", cv).v("ids", ids).b("same", same).end();
}
static void nanc(Rec& R, const std::vector<int>& x) // -9 stands for NaN
{
    std::vector<double> d; std::vector<float> f; for (int v : x) { d.push_back(v == -9 ? NAN : v); f.push_back(v == -9 ? NAN : v); }
    auto c = [](double m) -> long long { return std::isnan(m) ? -9 : (long long)m; };
    R.begin("nan").v("x", x).call();
    R.v("mn", std::vector<long long>{ c(minimum(d)), c(min_max(d).min), c(minimum(f)), c(minimum(d.begin(), d.end())) }).v("mx", std::vector<long long>{ c(maximum(d)), c(min_max(d).max), c(maximum(f)), c(min_max(f.begin(), f.end()).max) }).end();
}
static void tuples(std::vector<std::vector<int>>& out, const std::vector<int>& vals, size_t maxn)
{
    out.push_back({}); size_t from = 0;
    for (size_t l = 1; l <= maxn; ++l) { size_t to = out.size(); for (size_t i = from; i < to; ++i) for (int v : vals) { auto t = out[i]; t.push_back(v); out.push_back(t); } from = to; }
}
static void fam_stats(Rec& R, Gen& g, bool th)
{
    std::vector<std::vector<int>> ts; tuples(ts, { -3, 0, 1, 5 }, th ? 6 : 5);
    for (auto& t : ts) if (t.size() < 4 || g.coin(15)) scales(R, t);
    for (auto& t : ts) { one(R, t, 0, 1, "zero"); if (t.size() < 5) { one(R, t, 1e9, 1, "big"); one(R, t, -1e9, 0.25, "mbig"); } for (size_t k = 0; k <= t.size() + 1; ++k) if (t.size() < 5 || k < 2) outl(R, t, k); }
    std::vector<std::vector<int>> tn; tuples(tn, { -9, -2, 0, 3 }, 5); for (auto& t : tn) nanc(R, t);
    for (int i = 0; i < (th ? 6000 : 800); ++i) { std::vector<int> x; for (size_t k = g.u(20); k > 0; --k) x.push_back(int(g.u(400)) - 200); one(R, x, 0, 1, "zero"); one(R, x, 1e9, 1, "big"); one(R, x, 0.5, 0.125, "frac"); outl(R, x, g.u(5)); }
    for (int i = 0; i < (th ? 1500 : 200); ++i) { std::vector<int> x; for (size_t k = g.u(20); k > 0; --k) x.push_back(int(g.u(200)) - 100); scales(R, x); }
    for (int i = 0; i < 6; ++i) { std::vector<int> x; for (size_t k = 100 + g.u(100); k > 0; --k) x.push_back(int(g.u(200)) - 100); one(R, x, 0, 1, "zero"); outl(R, x, 3); }
}
#endif
#if FAMILY == F_date
using namespace gul14::date;
static void rday(Rec& R, int z)
{
    if (z < -12687428 || z > 11248737) return; // outside of the years -32767..32767
    R.begin("day").i("z", z).call();
    sys_days sd{ days{ z } }; year_month_day y{ sd };
    R.i("y", int(y.year())).i("m", unsigned(y.month())).i("d", unsigned(y.day())).b("ok", y.ok()).i("wd", weekday{ sd }.c_encoding()).i("back", sys_days{ y }.time_since_epoch().count());
    year_month_weekday yw{ sd };
    R.i("wi", yw.index()).i("wwd", yw.weekday().c_encoding()).i("wm", unsigned(yw.month())).i("wback", sys_days{ yw }.time_since_epoch().count());
    R.i("lback", local_days{ y }.time_since_epoch().count()).end();
}
static void ym(Rec& R, int y, unsigned m)
{
    R.begin("ym").i("y", y).i("m", m).call();
    auto l = year{ y } / month{ m } / last;
    R.b("leap", year{ y }.is_leap()).i("last", unsigned(l.day())).i("lz", sys_days{ l }.time_since_epoch().count());
    std::vector<int> ok, nth, okn; for (unsigned d = 0; d <= 33; ++d) ok.push_back((year{ y } / month{ m } / day{ d }).ok());
    for (unsigned w = 0; w < 7; ++w) { for (unsigned i = 1; i <= 5; ++i) { auto q = year{ y } / month{ m } / weekday{ w }[i]; okn.push_back(q.ok()); nth.push_back(sys_days{ q }.time_since_epoch().count()); } auto q = year{ y } / month{ m } / weekday{ w }[last]; nth.push_back(sys_days{ q }.time_since_epoch().count()); }
    R.v("ok", ok).v("nth", nth).v("okn", okn).end();
}
static void addm(Rec& R, int y, unsigned m, unsigned d, int k)
{
    R.begin("addm").i("y", y).i("m", m).i("d", d).i("k", k).call();
    auto a = year{ y } / month{ m } / day{ d }; auto b = a + months{ k }; auto c = a - months{ k }; auto e = a + years{ k }; auto f = month{ m } + months{ k }; auto h = month{ m } - months{ k };
    R.i("by", int(b.year())).i("bm", unsigned(b.month())).i("bd", unsigned(b.day())).i("cy", int(c.year())).i("cm", unsigned(c.month())).i("ey", int(e.year())).i("fm", unsigned(f)).i("hm", unsigned(h));
    auto p = year{ y } / month{ m }; auto q = p + months{ k }; R.i("diff", (q - p).count());
    auto w = weekday{ m % 7 }; auto w2 = w + days{ k }; auto w3 = w - days{ k }; R.i("w2", w2.c_encoding()).i("w3", w3.c_encoding()).i("wd", (weekday{ d % 7 } - weekday{ m % 7 }).count()).end();
}
static void hms(Rec& R, long long ms)
{
    R.begin("hms").i("t", ms).call();
    auto t = make_time(std::chrono::milliseconds{ ms });
    R.i("h", t.hours().count()).i("mi", t.minutes().count()).i("s", t.seconds().count()).i("ss", t.subseconds().count()).b("neg", t.is_negative()).i("fl", floor<days>(std::chrono::milliseconds{ ms }).count()).i("ce", ceil<days>(std::chrono::milliseconds{ ms }).count()).i("ro", gul14::date::round<std::chrono::seconds>(std::chrono::milliseconds{ ms }).count()).end();
}
static void fam_date(Rec& R, Gen& g, bool th)
{
    for (int z = -200000; z <= 200000; z += th ? 1 : 17) rday(R, z);
    for (int z = -800; z <= 1600; ++z) rday(R, z);
    for (int c : { 1600, 1700, 1800, 1900, 2000, 2100, 2400, 0, -1, -4, -100, -400, 4, 100, 32767, -32767, 9999, 1, 1968, 1969, 1970, 1971, 1972 }) {
        long z = sys_days{ year{ c } / 1 / 1 }.time_since_epoch().count(); for (int k = 0; k < 366; k += (c > 1500 && c < 2500) ? 1 : 9) rday(R, int(z) + k); rday(R, int(z) + 58); rday(R, int(z) + 59); rday(R, int(z) + 60); rday(R, int(z) + 364); rday(R, int(z) + 365);
        for (unsigned m = 1; m <= 12; ++m) ym(R, c, m);
    }
    for (int y = 1890; y < 2110; y += th ? 1 : 3) for (unsigned m = 1; m <= 12; ++m) ym(R, y, m);
    for (int i = 0; i < (th ? 20000 : 2000); ++i) { rday(R, int(g.u(22000000)) - 11000000); ym(R, int(g.u(60000)) - 30000, 1 + unsigned(g.u(12))); }
    for (unsigned m = 1; m <= 12; ++m) for (int k = -40; k <= 40; ++k) addm(R, 2020 + int(g.u(3)), m, 1 + unsigned(g.u(31)), k);
    for (int i = 0; i < (th ? 8000 : 1500); ++i) addm(R, int(g.u(4000)) - 1000, 1 + unsigned(g.u(12)), 1 + unsigned(g.u(28)), int(g.u(3000)) - 1500);
    for (int i = 0; i < (th ? 8000 : 1500); ++i) hms(R, (long long)(g.u(400000000)) - 200000000);
    for (long long t : { 0LL, 1LL, -1LL, 999LL, 1000LL, -1000LL, 59999LL, 60000LL, 3599999LL, 3600000LL, 86399999LL, 86400000LL, 86400001LL, -86400000LL, -86399999LL, -86400001LL, 500LL, 1500LL, 2500LL, -500LL, -1500LL, 499LL, 501LL }) hms(R, t);
}
#endif
int main(int argc, char** argv)
{
    Args a = parse_args(argc, argv); Rec R(a.out, a.last); Gen g(a.seed);
    FAM(R, g, a.thorough());
    std::printf("%zu\n", R.count);
}
