// Uses the calendar types of the library and records operands and results.
#include "cal.h"
using namespace gul14::date;
using std::string;
namespace ch = std::chrono;

template <typename T> static void okc(Rec& R, const V& v)
{
    R.begin("ok").t("k", K<T>::name).v("v", v).call();
    auto x = K<T>::make(v); R.b("o", x.ok()).v("v2", fv(x)).end();
}
template <typename T> static V compare(const T& a, const T& b, ...) { return { a == b, a != b }; }
template <typename T> static auto compare(const T& a, const T& b, int) -> decltype(a < b, V()) { return { a == b, a != b, a < b, a > b, a <= b, a >= b }; }
template <typename T> static void cmp(Rec& R, const V& a, const V& b)
{
    R.begin("cmp").t("k", K<T>::name).v("a", a).v("b", b).call();
    R.v("o", compare(K<T>::make(a), K<T>::make(b), 0)).end();
}
template <typename T, typename U> static void add(Rec& R, const char* u, const V& v, int n)
{
    R.begin("add").t("k", K<T>::name).t("u", u).v("v", v).i("n", n).call();
    const T x = K<T>::make(v); const U k{ n }; T p = x, q = x; T& rp = (p += k); T& rq = (q -= k);
    R.raw("o", js(std::vector<V>{ fv(x + k), fv(k + x), fv(p), fv(x - k), fv(q) })).b("ref", &rp == &p && &rq == &q).end();
}
template <typename T> static void step(Rec& R, const V& v)
{
    R.begin("step").t("k", K<T>::name).v("v", v).call();
    T a = K<T>::make(v), b = a, c = a, d = a; T& ra = ++a; V va = fv(ra); T rb = b++; T& rc = --c; V vc = fv(rc); T rd = d--;
    R.raw("o", js(std::vector<V>{ va, fv(a), fv(rb), fv(b), vc, fv(c), fv(rd), fv(d) })).b("ref", &ra == &a && &rc == &c).end();
}
template <typename T> static void diff(Rec& R, const V& a, const V& b)
{
    R.begin("diff").t("k", K<T>::name).v("a", a).v("b", b).call();
    R.i("o", (K<T>::make(a) - K<T>::make(b)).count()).end();
}
template <typename T> static void todays(Rec& R, const V& v)
{
    R.begin("days").t("k", K<T>::name).v("v", v).call();
    auto x = K<T>::make(v); sys_days s = x; local_days l{ x };
    R.v("o", V{ s.time_since_epoch().count(), l.time_since_epoch().count() }).end();
}
static void from(Rec& R, int z)
{
    R.begin("from").i("z", z).call();
    sys_days s{ days{ z } }; local_days l{ days{ z } };
    year_month_day a = s; year_month_day b{ l }; year_month_weekday c = s; year_month_weekday d{ l }; weekday e = s; weekday f{ l };
    R.v("ymd", fv(a)).v("lymd", fv(b)).v("ymwd", fv(c)).v("lymwd", fv(d)).v("wd", V{ fv(e)[0], fv(f)[0] }).end();
}
static void lastday(Rec& R, int y, int m)
{
    R.begin("lastday").v("v", V{ y, m }).call();
    year_month_day_last l = year{ y } / M(m) / last; year_month_day d = l;
    R.v("o", fv(d)).i("d", unsigned(l.day())).end();
}
template <typename... T> static void forms(Rec& R, const char* k, const V& v, const T&... x)
{
    R.begin("comp").t("k", k).v("v", v).call();
    R.raw("o", js(std::vector<V>{ fv(x)... })).end();
}
static void compose(Rec& R, int yi, int mi, int di, int wi, int ii)
{
    const year y{ yi }; const month m = M(mi); const day d = Dd(di); const weekday w = W(wi); const weekday_indexed wx = w[unsigned(ii)]; const weekday_last wl = w[last];
    const V vym{ yi, mi }, vmd{ mi, di }, vymd{ yi, mi, di };
    forms(R, "wdi", { wi, ii }, wx, weekday_indexed(w, unsigned(ii))); forms(R, "wdl", { wi }, wl, weekday_last(w));
    forms(R, "ym", vym, y / m, y / mi, year_month(y, m));
    forms(R, "md", vmd, d / m, d / mi, m / d, m / di, mi / d, month_day(m, d));
    forms(R, "mdl", { mi }, m / last, mi / last, last / m, last / mi, month_day_last(m));
    forms(R, "mwd", { mi, wi, ii }, m / wx, mi / wx, wx / m, wx / mi, month_weekday(m, wx));
    forms(R, "mwdl", { mi, wi }, m / wl, mi / wl, wl / m, wl / mi, month_weekday_last(m, wl));
    forms(R, "ymd", vymd, (y / m) / d, (y / m) / di, y / (m / d), yi / (m / d), (m / d) / y, (m / d) / yi, y / mi / di, d / m / y, d / mi / yi, m / di / yi, year_month_day(y, m, d));
    forms(R, "ymdl", vym, (y / m) / last, y / (m / last), yi / (m / last), (m / last) / y, (m / last) / yi, last / m / y, year_month_day_last(y, m / last));
    forms(R, "ymwd", { yi, mi, wi, ii }, (y / m) / wx, y / (m / wx), yi / (m / wx), (m / wx) / y, (m / wx) / yi, wx / m / y, year_month_weekday(y, m, wx));
    forms(R, "ymwdl", { yi, mi, wi }, (y / m) / wl, y / (m / wl), yi / (m / wl), (m / wl) / y, (m / wl) / yi, wl / m / y, year_month_weekday_last(y, m, wl));
}
static void constants(Rec& R)
{
    R.begin("const").call(); V m, ml, w, wl, iso;
    for (auto x : { jan, feb, mar, apr, may, jun, jul, aug, sep, oct, nov, dec }) m.push_back(int(unsigned(x)));
    for (auto x : { January, February, March, April, May, June, July, August, September, October, November, December }) ml.push_back(int(unsigned(x)));
    for (auto x : { sun, mon, tue, wed, thu, fri, sat }) w.push_back(int(x.c_encoding()));
    for (auto x : { Sunday, Monday, Tuesday, Wednesday, Thursday, Friday, Saturday }) { wl.push_back(int(x.c_encoding())); iso.push_back(int(x.iso_encoding())); }
    R.v("m", m).v("ml", ml).v("w", w).v("wl", wl).v("iso", iso).i("wd7", weekday{ 7 }.c_encoding()).v("lim", V{ int(year::min()), int(year::max()) }).v("lit", V{ int(unsigned(5_d)), int(2015_y) }).end();
}
static void yearc(Rec& R, int y) { R.begin("yr").i("y", y).call(); R.v("o", V{ int(-year{ y }), int(+year{ y }) }).b("leap", year{ y }.is_leap()).end(); }
template <typename From, typename To> static void rnd(Rec& R, int t)
{
    using Q = std::ratio_divide<typename From::period, typename To::period>;
    R.begin("rnd").i("t", t).i("n", Q::num).i("d", Q::den).call();
    const From x{ t }; const sys_time<From> s{ x }; const local_time<From> l{ x };
    auto c = [](auto p) { return int(p.time_since_epoch().count()); };
    R.raw("o", js(std::vector<V>{
        { int(gul14::date::floor<To>(x).count()), int(gul14::date::ceil<To>(x).count()), int(gul14::date::round<To>(x).count()), int(gul14::date::trunc<To>(x).count()) },
        { c(gul14::date::floor<To>(s)), c(gul14::date::ceil<To>(s)), c(gul14::date::round<To>(s)), c(gul14::date::trunc<To>(s)) },
        { c(gul14::date::floor<To>(l)), c(gul14::date::ceil<To>(l)), c(gul14::date::round<To>(l)), c(gul14::date::trunc<To>(l)) } })).end();
}
template <long DEN> static void hms(Rec& R, int sec, int sub, bool neg)
{
    using Du = ch::duration<long long, std::ratio<1, DEN>>;
    R.begin("hms").i("sec", sec).i("sub", sub).i("den", DEN).b("neg", neg).call();
    Du t{ (long long)sec * DEN + sub }; if (neg) t = -t;
    hh_mm_ss<Du> h{ t }; auto h2 = make_time(t);
    auto split = [](auto p) { long long den = decltype(p)::period::den, c = p.count(); return V{ int(c / den), int(c % den) }; };
    R.i("w", hh_mm_ss<Du>::fractional_width).v("o", V{ int(h.hours().count()), int(h.minutes().count()), int(h.seconds().count()), int(h2.subseconds().count()) }).b("isneg", h.is_negative());
    R.v("back", split(h.to_duration())).v("back2", split(static_cast<typename hh_mm_ss<Du>::precision>(h2))).b("conv", h.in_conventional_range()).end();
}
template <typename T> static void kind(Rec& R, Gen& g, bool th)
{
    const int n = th ? 6000 : 500;
    for (int i = 0; i < n; ++i) {
        V a = random_fields<T>(g, g.coin(50)); okc<T>(R, a);
        V b = a; if (g.coin(85)) { V c = random_fields<T>(g, true); b[g.u(b.size())] = c[g.u(c.size())]; if (g.coin(40)) { std::size_t j = g.u(b.size()); b[j] = a[j] + (g.coin(50) ? 1 : -1); if (b[j] < 0 && shape<T>()[j] != 'y') b[j] = 1; } b = fv(K<T>::make(b)); }
        a = fv(K<T>::make(a)); b = fv(K<T>::make(b)); cmp<T>(R, a, b); cmp<T>(R, b, a);
    }
}
template <typename T> static void addmy(Rec& R, Gen& g, bool th)
{
    for (int i = 0; i < (th ? 4000 : 400); ++i) {
        V v = random_fields<T>(g, true); if (v[0] < -30000 || v[0] > 30000) v[0] /= 2;
        int n = g.coin(50) ? int(g.u(60)) - 30 : int(g.u(4000)) - 2000; add<T, months>(R, "m", v, n); add<T, years>(R, "y", v, n);
        if (g.coin(30)) add<T, months>(R, "m", v, 12 * (int(g.u(20)) - 10));
    }
}
template <typename From, typename To> static void rnds(Rec& R, Gen& g, bool th, int lim)
{
    using Q = std::ratio_divide<typename From::period, typename To::period>;
    for (int t = -130; t <= 130; ++t) rnd<From, To>(R, t);
    for (int i = 0; i < (th ? 2000 : 150); ++i) {
        rnd<From, To>(R, int((long long)(g.u(2ull * unsigned(lim))) - lim));
        // near multiples and halves of the target
        long k = long(g.u(2000)) - 1000; long t = k * (long(Q::den)) / (2 * long(Q::num)) + long(g.u(3)) - 1; if (t > -lim && t < lim) rnd<From, To>(R, int(t));
    }
}
template <long DEN> static void hmss(Rec& R, Gen& g, bool th)
{
    for (int s : { 0, 1, 59, 60, 3599, 3600, 35999, 36000, 86399, 86400, 86401, 359999, 360000 }) for (long b : { 0L, 1L, DEN - 1, DEN / 2 }) for (bool neg : { false, true }) if (b < DEN) hms<DEN>(R, s, int(b), neg);
    for (int i = 0; i < (th ? 2000 : 120); ++i) hms<DEN>(R, int(g.u(g.coin(70) ? 90000 : 900000)), int(g.u(DEN)), g.coin(40));
}
static void run(Rec& R, Gen& g, bool th)
{
    kind<day>(R, g, th); kind<month>(R, g, th); kind<year>(R, g, th); kind<weekday>(R, g, th); kind<weekday_indexed>(R, g, th); kind<weekday_last>(R, g, th); kind<year_month>(R, g, th);
    kind<month_day>(R, g, th); kind<month_day_last>(R, g, th); kind<month_weekday>(R, g, th); kind<month_weekday_last>(R, g, th); kind<year_month_day>(R, g, th);
    kind<year_month_day_last>(R, g, th); kind<year_month_weekday>(R, g, th); kind<year_month_weekday_last>(R, g, th);
    for (int m = 0; m <= 14; ++m) { okc<month>(R, { m }); okc<month_day_last>(R, { m }); for (int d = 0; d <= 33; ++d) okc<month_day>(R, { m, d }); }
    for (int d = 0; d < 256; ++d) { okc<day>(R, { d }); okc<month>(R, { d }); }
    for (int w : { 0, 1, 2, 3, 4, 5, 6, 8, 9 }) { okc<weekday>(R, { w }); for (int i = 0; i < 8; ++i) { okc<weekday_indexed>(R, { w, i }); okc<month_weekday>(R, { 1 + i, w, i }); for (int y : { 2015, 2016, 2023, 2024, 2100, -1, -32767 }) for (int m : { 0, 1, 2, 13 }) okc<year_month_weekday>(R, { y, m, w, i }); } }
    for (int y : { -32768, -32767, -1, 0, 1, 1900, 2000, 2023, 2024, 2100, 32767 }) { okc<year>(R, { y }); for (int m = 0; m <= 13; ++m) { okc<year_month>(R, { y, m }); okc<year_month_day_last>(R, { y, m }); okc<year_month_weekday_last>(R, { y, m, m % 7 }); for (int d : { 0, 1, 28, 29, 30, 31, 32 }) okc<year_month_day>(R, { y, m, d }); } if (y > -32768) yearc(R, y); }
    for (int i = 0; i < 200; ++i) yearc(R, int(g.u(65535)) - 32767);
    for (int a = 0; a < 7; ++a) for (int b = 0; b < 7; ++b) { cmp<weekday>(R, { a }, { b }); diff<weekday>(R, { a }, { b }); }
    for (int a = 1; a <= 12; ++a) for (int b = 1; b <= 12; ++b) { cmp<month>(R, { a }, { b }); diff<month>(R, { a }, { b }); }
    for (int a = 0; a < 7; ++a) { step<weekday>(R, { a }); for (int n = -30; n <= 30; ++n) add<weekday, days>(R, "d", { a }, n); for (int n : { 1000000007, -1000000007, 2147483000, -2147483000 }) add<weekday, days>(R, "d", { a }, n); }
    for (int a = 1; a <= 12; ++a) { step<month>(R, { a }); for (int n = -40; n <= 40; ++n) add<month, months>(R, "m", { a }, n); for (int n : { 1000000007, -1000000007, 2147483000, -2147483000 }) add<month, months>(R, "m", { a }, n); }
    for (int a = 1; a <= 31; ++a) { step<day>(R, { a }); for (int n = -a; n <= 40; ++n) if (a - n >= 0 && a - n < 256) add<day, days>(R, "d", { a }, n); for (int b = 1; b <= 31; ++b) diff<day>(R, { a }, { b }); }
    for (int i = 0; i < (th ? 3000 : 300); ++i) {
        int y = int(g.u(40000)) - 20000, n = int(g.u(20000)) - 10000; add<year, years>(R, "y", { y }, n); step<year>(R, { y }); diff<year>(R, { y }, { n });
        diff<year_month>(R, random_fields<year_month>(g, true), random_fields<year_month>(g, true)); V p = random_fields<year_month>(g, true); diff<year_month>(R, p, { p[0] + int(g.u(3)) - 1, 1 + int(g.u(12)) });
    }
    for (int y : { -1, 0, 1, 1999, 2000 }) step<year>(R, { y });
    addmy<year_month>(R, g, th); addmy<year_month_day>(R, g, th); addmy<year_month_day_last>(R, g, th); addmy<year_month_weekday>(R, g, th); addmy<year_month_weekday_last>(R, g, th);
    for (int i = 0; i < (th ? 10000 : 800); ++i) {
        V v = random_fields<year_month_day>(g, true); todays<year_month_day>(R, v); v[2] = int(g.u(256)); todays<year_month_day>(R, v); v = random_fields<year_month_day_last>(g, true); todays<year_month_day_last>(R, v); lastday(R, v[0], v[1]);
        v = random_fields<year_month_weekday>(g, true); todays<year_month_weekday>(R, v); v[3] = int(g.u(10)); todays<year_month_weekday>(R, v); todays<year_month_weekday_last>(R, random_fields<year_month_weekday_last>(g, true));
        from(R, g.coin(50) ? int(g.u(60000)) - 30000 : int(g.u(23000000)) - 12000000);
    }
    for (int z = -900; z <= 900; z += th ? 1 : 7) from(R, z);
    for (int y : { -400, -1, 0, 4, 1600, 1900, 2000, 2001, 2004, 2100 }) for (int m = 1; m <= 12; ++m) { lastday(R, y, m); for (int d : { 0, 1, 31, 60, 255 }) todays<year_month_day>(R, { y, m, d }); for (int w = 0; w < 7; ++w) { todays<year_month_weekday_last>(R, { y, m, w }); for (int i = 0; i <= 5; ++i) todays<year_month_weekday>(R, { y, m, w, i }); } }
    for (int i = 0; i < (th ? 1000 : 150); ++i) { V v = random_fields<year_month_day>(g, true), w = random_fields<weekday_indexed>(g, true); compose(R, v[0], v[1], v[2], w[0], w[1]); }
    constants(R);
    rnds<ch::seconds, ch::minutes>(R, g, th, 2000000000); rnds<ch::seconds, days>(R, g, th, 2000000000); rnds<days, weeks>(R, g, th, 2000000000); rnds<ch::hours, days>(R, g, th, 2000000000); rnds<ch::milliseconds, ch::seconds>(R, g, th, 1000000000);
    rnds<ch::minutes, ch::seconds>(R, g, th, 10000000); rnds<months, weeks>(R, g, th, 10000); rnds<days, months>(R, g, th, 600000); rnds<days, years>(R, g, th, 2500000); rnds<weeks, years>(R, g, th, 300000);
    rnds<ch::duration<int, std::ratio<5>>, ch::duration<int, std::ratio<3>>>(R, g, th, 100000000); rnds<ch::minutes, ch::hours>(R, g, th, 1000000000); rnds<ch::seconds, ch::duration<int, std::ratio<2>>>(R, g, th, 1000000000);
    hmss<1>(R, g, th); hmss<2>(R, g, th); hmss<3>(R, g, th); hmss<4>(R, g, th); hmss<8>(R, g, th); hmss<10>(R, g, th); hmss<100>(R, g, th); hmss<1000>(R, g, th); hmss<1000000>(R, g, th); hmss<1000000000>(R, g, th);
    for (int h = 0; h < 24; ++h) { R.begin("h12").i("h", h).call(); ch::hours x{ h }; R.i("o", make12(x).count()).b("am", is_am(x)).b("pm", is_pm(x)).i("back", make24(make12(x), is_pm(x)).count()).end(); }
    for (int h = 1; h <= 12; ++h) { R.begin("h24").i("h", h).call(); R.v("o", V{ int(make24(ch::hours{ h }, false).count()), int(make24(ch::hours{ h }, true).count()) }).end(); }
    for (int t : { 0, 1, -1, 5, -5, 1000000, -1000000, 2147483647, -2147483647 }) { R.begin("abs").i("t", t).call(); R.v("o", V{ int(gul14::date::abs(ch::seconds{ t }).count()), gul14::date::abs(days{ t }).count() }).end(); }
}
int main(int argc, char** argv)
{
    Args a = parse_args(argc, argv); Rec R(a.out, a.last); Gen g(a.seed);
    run(R, g, a.thorough());
    std::printf("%zu\n", R.count);
}
