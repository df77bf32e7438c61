// Calendar values as text: records what the library writes.
#include "cal.h"
#include <sstream>
#include <iomanip>
using namespace gul14::date;
using std::string;
namespace ch = std::chrono;

static void odd(std::ostream& os) { os << std::hex << std::showbase << std::uppercase << std::showpos << std::left << std::setfill('*'); os.precision(3); }
template <typename S> static bool same_state(const S& a, const S& b) { return a.flags() == b.flags() && a.fill() == b.fill() && a.precision() == b.precision() && a.width() == b.width(); }
template <typename T> static void put(Rec& R, const T& x, bool guarded)
{
    std::vector<string> o; bool keep = true;
    { std::ostringstream s, s0; s << x; o.push_back(s.str()); keep = keep && same_state(s, s0); s << x; string two = s.str(); keep = keep && two == o[0] + o[0]; }
    { std::wostringstream s, s0; s << x; o.push_back(narrow(s.str())); keep = keep && same_state(s, s0); }
    if (guarded) { std::ostringstream s, s0; odd(s); odd(s0); s << x; o.push_back(s.str()); keep = keep && same_state(s, s0); }
    R.raw("o", jstrs(o)).b("keep", keep).end();
}
template <typename T> static void out(Rec& R, const V& v)
{
    string k = K<T>::name; if (k == "ymd" && v[0] > -1000 && v[0] < 1000) return; // how these years are written is not stated
    R.begin("out").t("k", k.c_str()).v("v", v).call();
    bool ok = K<T>::make(v).ok();
    put(R, K<T>::make(v), k == "day" || k == "year" || k == "ymd" || (ok && (k == "month" || k == "wd" || k == "wdl" || k == "ym" || k == "md" || k == "mdl" || k == "mwdl" || k == "ymdl" || k == "ymwdl")));
}
struct T { bool neg; int sec, sub; };
static void tfields(Rec& R, const T& t, long den) { R.b("neg", t.neg && (t.sec || t.sub)).i("sec", t.sec).i("sub", t.sub).i("den", den); }
template <long DEN> using Du = ch::duration<long long, std::ratio<1, DEN>>;
template <long DEN> static Du<DEN> dur(const T& t) { Du<DEN> d{ (long long)t.sec * DEN + t.sub }; return t.neg ? -d : d; }
template <long DEN> static void outt(Rec& R, const V& date, const T& t)
{
    R.begin("outt").v("date", date); tfields(R, t, DEN); R.call();
    if (date.empty()) { put(R, make_time(dur<DEN>(t)), false); return; }
    auto d = sys_days{ K<year_month_day>::make(date) }; sys_time<Du<DEN>> s = sys_time<Du<DEN>>{ d } + dur<DEN>(t); local_time<Du<DEN>> l{ s.time_since_epoch() };
    std::ostringstream a, b; a << s; b << l; R.raw("o", jstrs({ a.str(), b.str() })).b("keep", same_state(a, b)).end();
}
template <typename D> static void outd(Rec& R, int n, const char* u)
{
    R.begin("outd").i("n", n).t("u", u).call(); std::ostringstream s; s << D{ static_cast<typename D::rep>(n) }; R.raw("o", jstr(s.str())).end();
}
struct Fields { int y = -32768, m = 0, d = 0, w = 8; bool tod = false; T t{ false, 0, 0 }; long den = 1; int off = -99999; string zone = "?"; };
template <typename X> static bool tryfmt(std::vector<string>& o, const X& f) { try { o.push_back(f()); return true; } catch (const std::ios_base::failure&) { return false; } }
// x formatted in every way there is
template <typename X> static void fmt(Rec& R, const Fields& F, const std::vector<string>& items, const X& x)
{
    R.begin("fmt").i("y", F.y).i("m", F.m).i("d", F.d).i("w", F.w).b("tod", F.tod); tfields(R, F.t, F.den); R.i("off", F.off).raw("zone", jstr(F.zone)).raw("fmt", jstrs(items)).call();
    string f; for (auto& s : items) f += s; std::wstring wf(f.begin(), f.end());
    std::vector<string> o; V fail; bool keep = true; const std::locale cl = std::locale::classic();
    fail.push_back(!tryfmt(o, [&] { return format(f.c_str(), x); }));
    fail.push_back(!tryfmt(o, [&] { return format(f, x); }));
    fail.push_back(!tryfmt(o, [&] { return format(cl, f.c_str(), x); }));
    fail.push_back(!tryfmt(o, [&] { return format(cl, f, x); }));
    fail.push_back(!tryfmt(o, [&] { return narrow(format(wf, x)); }));
    { std::ostringstream s, s0; odd(s); odd(s0); to_stream(s, f.c_str(), x); fail.push_back(s.fail()); if (!s.fail()) { o.push_back(s.str()); keep = same_state(s, s0); } }
    R.raw("o", jstrs(o)).v("fail", fail).b("keep", keep).end();
}
template <long DEN> static void fmtzone(Rec& R, const Fields& F, const std::vector<string>& items, bool withzone, bool withoff)
{
    Fields G = F; if (!withzone) G.zone = "?"; if (!withoff) G.off = -99999;
    R.begin("fmt").i("y", G.y).i("m", G.m).i("d", G.d).i("w", G.w).b("tod", true); tfields(R, G.t, DEN); R.i("off", G.off).raw("zone", jstr(G.zone)).raw("fmt", jstrs(items)).call();
    string f; for (auto& s : items) f += s;
    local_time<Du<DEN>> l = local_time<Du<DEN>>{ local_days{ year{ G.y } / G.m / G.d } } + dur<DEN>(G.t); ch::seconds off{ G.off * 60 };
    std::ostringstream s; to_stream(s, f.c_str(), l, withzone ? &G.zone : nullptr, withoff ? &off : nullptr);
    std::vector<string> o; if (!s.fail()) o.push_back(s.str());
    R.raw("o", jstrs(o)).v("fail", V{ s.fail() }).b("keep", true).end();
}
using Items = std::vector<string>;
static const Items I_wd{ "%a", "%A", "%u", "%Ou", "%w", "%Ow" }, I_mon{ "%b", "%B", "%h", "%m", "%Om" }, I_day{ "%d", "%e", "%Od", "%Oe" }, I_year{ "%y", "%Y", "%C" }, I_lyear{ "%Ey", "%Oy", "%EY", "%EC" },
    I_date{ "%D", "%F", "%g", "%G", "%U", "%V", "%W", "%j" }, I_ldate{ "%x", "%Ex", "%OU", "%OV", "%OW" }, I_dur{ "%H", "%M", "%S", "%Q", "%q", "%OM", "%OS" }, I_pdur{ "%R", "%T", "%j" }, I_clock{ "%OH", "%I", "%OI", "%p", "%r", "%X", "%EX", "%R", "%T", "%H" },
    I_plain{ "%n", "%t", "%%", "-", "/", ":", " ", "x", "T", "aAbBcCdDeFgGhHIjmMnpqQrRStTuUVwWxXyYzZEO", "%Ea", "%Ob", "%OC", "%Ed", "%EF", "%EH", "%Em", "%EM", "%En", "%Ep", "%EQ", "%ER", "%Er", "%ES", "%Et", "%ET", "%Eu", "%EU", "%EV", "%EW", "%OX", "%OY", "%EZ", "%E%", "%EE", "%OO", "%OE", "%k", "%Ek", "%1", "%Oa", "%OB", "%Oc", "%Ox", "%Eh", "%ED", "%OF", "%Eg", "%OG", "%Ej", "%Oj", "%On", "%Op", "%Oq", "%OQ", "%Or", "%OR", "%Ot", "%OT", "%OZ", "%O%" };
template <typename... L> static Items mix(Gen& g, const L&... l)
{
    Items all; for (const Items* p : { &l... }) all.insert(all.end(), p->begin(), p->end());
    Items r; for (std::size_t n = 1 + g.u(4); n > 0; --n) { r.push_back(all[g.u(all.size())]); if (g.coin(50)) r.push_back(I_plain[g.u(g.coin(70) ? 9 : I_plain.size())]); }
    return r;
}
static void ymdf(Fields& F, const V& v) { F.y = v[0]; F.m = v[1]; F.d = v[2]; }
template <long DEN> static void times(Rec& R, Gen& g, const V& date, const T& t)
{
    Fields F; ymdf(F, date); F.tod = true; F.t = t; F.den = DEN;
    bool loc = date[0] >= 1000 && date[0] <= 9999; static const Items c{ "%c", "%Ec" }, zone{ "%z", "%Z", "%Ez", "%Oz" }, none;
    auto s = sys_time<Du<DEN>>{ sys_days{ K<year_month_day>::make(date) } } + dur<DEN>(t); local_time<Du<DEN>> l{ s.time_since_epoch() };
    static const Items fr{ "%H", "%M", "%S", "%OM", "%OS" };
    Items it = mix(g, I_wd, I_mon, I_day, I_year, loc ? I_lyear : none, I_date, loc ? I_ldate : none, fr, I_clock, loc ? c : none); fmt(R, F, it, l);
    F.off = 0; F.zone = "UTC"; fmt(R, F, mix(g, I_wd, I_day, I_year, I_date, I_clock, fr, zone, zone, loc ? c : none), s);
    F.off = int(g.u(1600)) - 800; F.zone = g.coin(50) ? "CEST" : "A B"; fmtzone<DEN>(R, F, mix(g, zone, I_clock, I_year), g.coin(80), g.coin(80));
}
template <long DEN> static void durs(Rec& R, Gen& g, bool th)
{
    auto one = [&](T t) {
        Fields F; F.tod = true; F.t = t; F.den = DEN; t.neg = t.neg && (t.sec || t.sub);
        fmt(R, F, t.neg ? mix(g, I_dur) : mix(g, I_dur, I_pdur), dur<DEN>(t)); if (g.coin(30)) fmt(R, F, { "%T" }, dur<DEN>(t));
        if (!t.neg && t.sec < 86400) fmt(R, F, mix(g, I_dur, I_clock), dur<DEN>(t));
        outt<DEN>(R, {}, t);
    };
    for (int s : { 0, 1, 9, 10, 59, 60, 599, 600, 3599, 3600, 35999, 36000, 43199, 43200, 46799, 46800, 86399, 86400, 359999, 360000, 3600000 }) for (long b : { 0L, 1L, DEN / 10, DEN - 1 }) for (bool n : { false, true }) if (b < DEN) one({ n, s, int(b) });
    for (int i = 0; i < (th ? 2000 : 120); ++i) one({ g.coin(35), int(g.u(g.coin(80) ? 86400 : 10000000)), int(g.coin(80) ? g.u(DEN) : 0) });
    for (int i = 0; i < (th ? 3000 : 200); ++i) {
        V v = random_fields<year_month_day>(g, true); if (v[2] > 28) v[2] = 28; T t{ false, int(g.u(86400)), int(g.u(DEN)) }; if (DEN > 1000000) v[0] = 1700 + int(g.u(550));
        times<DEN>(R, g, v, t); if (v[0] >= 1000 || v[0] <= -1000) outt<DEN>(R, v, t);
    }
    for (int y : { 1969, 1970, 1971, 1600, -1 }) if (DEN < 10000000 || y > 1700) for (int s : { 0, 1, 43199, 43200, 86399 }) for (int b : { 0, 1, int(DEN - 1) }) if (b < DEN) times<DEN>(R, g, { y, 1, 1 }, { false, s, b }), times<DEN>(R, g, { y, 12, 31 }, { false, s, b });
}
template <typename X> static void outs(Rec& R, Gen& g, bool th) { for (int i = 0; i < (th ? 2000 : 200); ++i) out<X>(R, random_fields<X>(g, g.coin(50))); }
static void run(Rec& R, Gen& g, bool th)
{
    outs<day>(R, g, th); outs<month>(R, g, th); outs<year>(R, g, th); outs<weekday>(R, g, th); outs<weekday_indexed>(R, g, th); outs<weekday_last>(R, g, th); outs<year_month>(R, g, th); outs<month_day>(R, g, th); outs<month_day_last>(R, g, th);
    outs<month_weekday>(R, g, th); outs<month_weekday_last>(R, g, th); outs<year_month_day>(R, g, th); outs<year_month_day_last>(R, g, th); outs<year_month_weekday>(R, g, th); outs<year_month_weekday_last>(R, g, th);
    for (int m = 0; m <= 14; ++m) { out<month>(R, { m }); out<month_day_last>(R, { m }); out<year_month>(R, { 2020, m }); out<month_day>(R, { m, 29 }); out<month_day>(R, { m, 31 }); out<year_month_day_last>(R, { 5, m }); }
    for (int d = 0; d <= 255; ++d) out<day>(R, { d });
    for (int w = 0; w <= 9; ++w) if (w != 7) { out<weekday>(R, { w }); out<weekday_last>(R, { w }); for (int i = 0; i < 7; ++i) { out<weekday_indexed>(R, { w, i }); out<month_weekday>(R, { 3, w, i }); out<year_month_weekday>(R, { 2024, 2, w, i }); } out<year_month_weekday_last>(R, { 2024, 2, w }); out<month_weekday_last>(R, { 12, w }); }
    for (int y : { -32768, -32767, -12345, -9999, -1000, -999, -100, -99, -10, -9, -1, 0, 1, 9, 10, 99, 100, 999, 1000, 9999, 10000, 32767 }) { out<year>(R, { y }); out<year_month>(R, { y, 7 }); out<year_month_day>(R, { y, 7, 4 }); out<year_month_day>(R, { y, 2, 30 }); }
    for (int n : { 0, 1, -1, 10, 59, -86400, 2147483647 }) {
        outd<ch::seconds>(R, n, "s"); outd<ch::minutes>(R, n, "min"); outd<ch::hours>(R, n, "h"); outd<days>(R, n, "d"); outd<ch::milliseconds>(R, n, "ms"); outd<ch::nanoseconds>(R, n, "ns"); outd<weeks>(R, n, "[604800]s");
        outd<ch::duration<int, std::deci>>(R, n, "ds"); outd<ch::duration<int, std::centi>>(R, n, "cs"); outd<ch::duration<int, std::kilo>>(R, n, "ks"); outd<ch::duration<int, std::ratio<1, 3>>>(R, n, "[1/3]s"); outd<ch::duration<int, std::ratio<1, 2>>>(R, n, "[1/2]s"); outd<ch::duration<int, std::ratio<2, 3>>>(R, n, "[2/3]s"); outd<ch::duration<int, std::ratio<2>>>(R, n, "[2]s"); outd<ch::microseconds>(R, n, "us");
        outd<ch::duration<long long, std::pico>>(R, n, "ps"); outd<ch::duration<int, std::mega>>(R, n, "Ms"); outd<ch::duration<int, std::giga>>(R, n, "Gs"); outd<ch::duration<int, std::hecto>>(R, n, "hs"); outd<ch::duration<int, std::deca>>(R, n, "das"); outd<years>(R, n, "[31556952]s");
    }
    // partial objects: everything that they hold can be formatted, everything else fails
    static const Items none; Items everything; for (auto* p : { &I_wd, &I_mon, &I_day, &I_year, &I_date }) everything.insert(everything.end(), p->begin(), p->end());
    for (auto* p : { &I_dur, &I_pdur, &I_clock }) everything.insert(everything.end(), p->begin(), p->end());
    for (const char* z : { "%z", "%Ez", "%Z", "%c" }) everything.push_back(z);
    for (int rep = 0; rep < (th ? 12 : 2); ++rep)
        for (auto& i : everything) {
            V v = random_fields<year_month_day>(g, true); if (v[2] > 28) v[2] = 28; if (v[0] < 1000 || v[0] > 9999) v[0] = 1000 + int(g.u(9000)); int w = int(g.u(7));
            Fields F; F.y = v[0]; fmt(R, F, { i }, year{ v[0] }); F.m = v[1]; fmt(R, F, { i }, year_month{ year{ v[0] }, M(v[1]) }); F.d = v[2]; fmt(R, F, { i }, K<year_month_day>::make(v)); F.y = -32768; fmt(R, F, { i }, month_day{ M(v[1]), Dd(v[2]) }); F.m = 0; fmt(R, F, { i }, Dd(v[2]));
            F.d = 0; F.m = v[1]; fmt(R, F, { i }, M(v[1])); F.m = 0; F.w = w; fmt(R, F, { i }, W(w));
            F = Fields(); F.y = v[0]; F.m = 2; F.d = 30; fmt(R, F, { i }, K<year_month_day>::make({ v[0], 2, 30 }));
            F = Fields(); F.tod = true; F.t = { false, int(g.u(86400)), 0 }; fmt(R, F, { i }, ch::seconds{ F.t.sec }); fmt(R, F, { i }, ch::duration<int>{ F.t.sec });
            F.t.sec = F.t.sec / 60 * 60; fmt(R, F, { i }, ch::minutes{ F.t.sec / 60 }); F.t.sec = F.t.sec / 3600 * 3600; fmt(R, F, { i }, ch::hours{ F.t.sec / 3600 });
            F = Fields(); ymdf(F, v); F.tod = true; F.off = 0; F.zone = "UTC"; fmt(R, F, { i }, sys_days{ K<year_month_day>::make(v) }); F.off = -99999; F.zone = "?"; fmt(R, F, { i }, local_days{ K<year_month_day>::make(v) });
        }
    for (auto& i : I_plain) { Fields F; ymdf(F, { 2015, 3, 22 }); fmt(R, F, { i }, year{ 2015 } / 3 / 22); fmt(R, F, { i, i }, year{ 2015 } / 3 / 22); fmt(R, F, { "%Y", i, "%m" }, year{ 2015 } / 3 / 22); fmt(R, F, { "%d", i }, year{ 2015 } / 3 / 22); }
    { Fields F; ymdf(F, { 2015, 3, 22 }); for (auto& e : { "%", "%E", "%O" }) { fmt(R, F, { e }, year{ 2015 } / 3 / 22); fmt(R, F, { "%Y", e }, year{ 2015 } / 3 / 22); } }
    // weeks and years at the turn of every kind of year
    for (int y = th ? 1600 : 1990; y <= (th ? 2400 : 2030); ++y) for (V md : { V{ 1, 1 }, V{ 1, 2 }, V{ 1, 3 }, V{ 1, 4 }, V{ 1, 5 }, V{ 1, 6 }, V{ 1, 7 }, V{ 1, 8 }, V{ 2, 28 }, V{ 3, 1 }, V{ 12, 27 }, V{ 12, 28 }, V{ 12, 29 }, V{ 12, 30 }, V{ 12, 31 } }) { Fields F; ymdf(F, { y, md[0], md[1] }); fmt(R, F, { "%g", " ", "%G", " ", "%V", " ", "%U", " ", "%W", " ", "%OV", " ", "%OU", " ", "%OW", " ", "%j", " ", "%a", " ", "%u" }, year{ y } / md[0] / md[1]); }
    for (int y : { -32000, -9999, -1234, -1000, -999, -401, -400, -199, -101, -100, -99, -10, -1, 0, 1, 9, 10, 99, 100, 101, 199, 999, 1000, 9999, 10000, 32000 }) for (auto& i : { "%Y", "%y", "%C", "%F", "%D", "%G", "%g", "%j", "%V", "%U", "%W", "%a", "%u", "%w", "%b", "%d", "%e" }) { Fields F; ymdf(F, { y, 6, 9 }); fmt(R, F, { i }, year{ y } / 6 / 9); }
    for (int i = 0; i < (th ? 6000 : 600); ++i) { V v = random_fields<year_month_day>(g, true); if (v[2] > 28) v[2] = 28; bool loc = v[0] >= 1000 && v[0] <= 9999; Fields F; ymdf(F, v); fmt(R, F, mix(g, I_wd, I_mon, I_day, I_year, loc ? I_lyear : none, I_date, loc ? I_ldate : none), K<year_month_day>::make(v)); }
    durs<1>(R, g, th); durs<10>(R, g, th); durs<4>(R, g, th); durs<1000>(R, g, th); durs<1000000>(R, g, th); durs<1000000000>(R, g, th);
}
int main(int argc, char** argv)
{
    Args a = parse_args(argc, argv); Rec R(a.out, a.last); Gen g(a.seed);
    run(R, g, a.thorough());
    std::printf("%zu\n", R.count);
}
