// Reading calendar values from text: records what the library makes of texts that fit a format, and of texts that do not.
#include "cal.h"
#include <ctime>
#include <sstream>
using namespace gul14::date;
using std::string;
namespace ch = std::chrono;

struct Val { int Y, m, d, wd, j, U, W, V, G, H, M, S; long sub; int off; };
static const char* const wdn[] = { "Sunday", "Monday", "Tuesday", "Wednesday", "Thursday", "Friday", "Saturday" };
static const char* const monn[] = { "January", "February", "March", "April", "May", "June", "July", "August", "September", "October", "November", "December" };
static bool leap(int y) { return (y % 4 == 0 && y % 100 != 0) || y % 400 == 0; }
// the derived fields of a date, by the C library
static Val value(int y, int m, int d, int sec, long sub)
{
    std::tm t{}; t.tm_year = y - 1900; t.tm_mon = m - 1; t.tm_mday = d; ::timegm(&t);
    Val v{}; v.Y = t.tm_year + 1900; v.m = t.tm_mon + 1; v.d = t.tm_mday; v.wd = t.tm_wday; v.j = t.tm_yday + 1; v.U = (t.tm_yday + 7 - t.tm_wday) / 7; v.W = (t.tm_yday + 7 - (t.tm_wday + 6) % 7) / 7;
    char b[16]; std::strftime(b, sizeof b, "%V", &t); v.V = std::atoi(b); v.G = v.Y + (v.m == 12 && v.V == 1) - (v.m == 1 && v.V > 50);
    v.H = sec / 3600; v.M = sec / 60 % 60; v.S = sec % 60; v.sub = sub; return v;
}
struct Part { const char* c; int n; };
struct Out { string text; std::vector<Part> p; bool sub = false, off = false; string zone = "?"; };
static string num(int n, int w, bool pad) { char b[16]; std::snprintf(b, sizeof b, pad ? "%0*d" : "%*d", pad ? (n < 0 ? w + 1 : w) : 0, n); return b; }
static string frac(long sub, long den, bool strip) { if (den == 1) return ""; int w = den == 10 ? 1 : den == 100 ? 2 : den == 1000 ? 3 : den == 1000000 ? 6 : 9; char b[24]; std::snprintf(b, sizeof b, ".%0*ld", w, sub); string s = b; if (strip) while (s.size() > 2 && s.back() == '0') s.pop_back(); return s; }
// text of one conversion specification; pad: numbers have all their digits
static void conv(Out& o, const string& f, const Val& v, long den, bool pad, Gen& g)
{
    auto N = [&](const char* c, int n, int w) { o.p.push_back({ c, n }); o.text += num(n, w, pad); };
    auto L = [&](const char* s) { o.text += s; };
    char k = f.back();
    switch (k) {
    case 'Y': N("Y", v.Y, 4); break;
    case 'y': N("y", v.Y % 100, 2); break;
    case 'C': N("C", v.Y / 100, 2); break;
    case 'm': N("m", v.m, 2); break;
    case 'd': case 'e': N("d", v.d, 2); break;
    case 'b': case 'h': case 'B': o.p.push_back({ "m", v.m }); o.text += k == 'B' ? string(monn[v.m - 1]) : string(monn[v.m - 1]).substr(0, 3); break;
    case 'a': case 'A': o.p.push_back({ "a", v.wd }); o.text += k == 'A' ? string(wdn[v.wd]) : string(wdn[v.wd]).substr(0, 3); break;
    case 'u': o.p.push_back({ "u", v.wd == 0 ? 7 : v.wd }); o.text += num(o.p.back().n, 1, true); break;
    case 'w': o.p.push_back({ "w", v.wd }); o.text += num(v.wd, 1, true); break;
    case 'j': N("j", v.j, 3); break;
    case 'U': N("U", v.U, 2); break;
    case 'W': N("W", v.W, 2); break;
    case 'V': N("V", v.V, 2); break;
    case 'G': N("G", v.G, 4); break;
    case 'g': N("g", v.G % 100, 2); break;
    case 'H': N("H", v.H, 2); break;
    case 'I': N("I", v.H > 24 ? v.H : v.H == 24 ? 0 : v.H % 12 == 0 ? 12 : v.H % 12, 2); break;
    case 'p': o.p.push_back({ "p", v.H >= 12 }); L(v.H >= 12 ? "PM" : "AM"); break;
    case 'M': N("M", v.M, 2); break;
    case 'S': o.p.push_back({ "S", v.S }); o.text += num(v.S, 2, pad || den > 1); if (f.find('O') == string::npos) { o.text += frac(v.sub, den, !pad); o.sub = true; } break;
    case 'F': N("Y", v.Y, 4); L("-"); N("m", v.m, 2); L("-"); N("d", v.d, 2); break;
    case 'D': case 'x': N("m", v.m, 2); L("/"); N("d", v.d, 2); L("/"); N("y", v.Y % 100, 2); break;
    case 'T': N("H", v.H, 2); L(":"); N("M", v.M, 2); L(":"); o.p.push_back({ "S", v.S }); o.text += num(v.S, 2, true) + frac(v.sub, den, !pad); o.sub = true; break;
    case 'X': N("H", v.H, 2); L(":"); N("M", v.M, 2); L(":"); N("S", v.S, 2); break;
    case 'r': N("I", v.H > 24 ? v.H : v.H == 24 ? 0 : v.H % 12 == 0 ? 12 : v.H % 12, 2); L(":"); N("M", v.M, 2); L(":"); N("S", v.S, 2); L(" "); o.p.push_back({ "p", v.H >= 12 }); L(v.H >= 12 ? "PM" : "AM"); break;
    case 'R': N("H", v.H, 2); L(":"); N("M", v.M, 2); break;
    case 'z': { char b[16]; std::snprintf(b, sizeof b, f.find('E') == string::npos ? "%c%02d%02d" : "%c%02d:%02d", v.off < 0 ? '-' : '+', std::abs(v.off) / 60, std::abs(v.off) % 60); o.text += b; o.off = true; break; }
    case 'Z': o.zone = "A/b_c-1"; o.text += o.zone; break;
    case 'n': L(g.coin(50) ? " " : "\n"); break;
    case 't': L(g.coin(50) ? "\t" : ""); break;
    case '%': L("%"); break;
    }
}
// white space of the format stands for any amount of white space
static string space(Gen& g) { string s; for (std::size_t n = 1 + g.u(3); n > 0; --n) s += " \t\n"[g.u(3)]; return s; }
struct Case { std::vector<string> f; };
static std::vector<string> split(const string& f)
{
    std::vector<string> r;
    for (std::size_t i = 0; i < f.size();) {
        if (f[i] != '%') { r.push_back(f.substr(i, 1)); ++i; continue; }
        std::size_t j = i + 1; while (f[j] == 'E' || f[j] == 'O' || isdigit((unsigned char)f[j])) ++j;
        r.push_back(f.substr(i, j - i + 1)); i = j + 1;
    }
    return r;
}
template <typename T> struct Target;
template <typename T> static V got(const T& x) { return fv(x); }
static long long fl(long long a, long long b) { return a / b - (a % b < 0); }
template <typename Cl, typename R_, typename P> static V got(const ch::time_point<Cl, ch::duration<R_, P>>& x)
{
    long long den = P::den, num = P::num, n = (long long)(x.time_since_epoch().count()) * num, s = fl(n, den), day = fl(s, 86400);
    return { int(day), int(s - day * 86400), int(n - s * den) };
}
template <typename R_, typename P> static V got(const ch::duration<R_, P>& x) { long long den = P::den, num = P::num, n = x.count() * num; return { int(n / den), int(n % den) }; }
// read text according to f into an object of type T that holds init
template <typename T> static void one(Rec& R, const char* k, long den, const T& init, const string& f, const Out& o, const string& text, bool bad, const string& tail, int off, long sub)
{
    string ps = "["; for (std::size_t i = 0; i < o.p.size(); ++i) { if (i) ps += ','; ps += string("[\"") + o.p[i].c + "\"," + std::to_string(o.p[i].n) + "]"; } ps += "]";
    R.begin("parse").t("k", k).i("den", den).raw("fmt", jstr(f)).raw("text", jstr(text)).raw("p", ps).b("bad", bad).i("off", o.off ? off : -99999).i("sub", o.sub ? sub : 0).raw("zone", jstr(o.zone)).call();
    const V before = got(init); struct Res { bool fail; V v; string rest; int off; string zone; }; std::vector<Res> rs;
    auto add = [&](std::istream& is, const T& x, int of, const string& z) { Res r{ is.fail(), got(x), "", of, z }; if (!r.fail) { is.clear(); std::getline(is, r.rest, '\0'); } rs.push_back(r); };
    { std::istringstream is(text + tail); T x = init; ch::minutes m{ o.off ? 7777 : 0 }; string z = "?"; is >> parse(f, x, z, m); add(is, x, int(m.count()), z); }
    { std::istringstream is(text + tail); T x = init; ch::minutes m{ o.off ? 7777 : 0 }; string z = "?"; is >> parse(f.c_str(), x, z, m); add(is, x, int(m.count()), z); }
    { std::istringstream is(text + tail); T x = init; ch::minutes m{ o.off ? 7777 : 0 }; string z = "?"; from_stream(is, f.c_str(), x, &z, &m); add(is, x, int(m.count()), z); }
    { std::istringstream is(text + tail); T x = init; is >> parse(f, x); add(is, x, off, o.zone); }
    { std::istringstream is(text + tail); T x = init; is >> parse(f.c_str(), x); add(is, x, off, o.zone); }
    { std::istringstream is(text + tail); T x = init; ch::minutes m{ o.off ? 7777 : 0 }; is >> parse(f, x, m); add(is, x, int(m.count()), o.zone); }
    bool state = true;
    { std::istringstream is(text + tail); T x = init; const string more = f + "%"; is >> parse_manip<T, char>{ gul14::string_view(more.data(), f.size()), x }; add(is, x, off, o.zone); }
    { std::istringstream is(text + tail); T x = init; string z = "?"; std::ostringstream tied; is.tie(&tied); is.fill('*'); is.flags(std::ios::hex | std::ios::left | std::ios::showbase); is.precision(3); is >> parse(f, x, z);
      state = is.tie() == &tied && is.fill() == '*' && is.flags() == (std::ios::hex | std::ios::left | std::ios::showbase) && is.precision() == 3 && is.getloc() == std::locale(); is.flags(std::ios::skipws | std::ios::dec); add(is, x, off, z); }
    bool same = true, keep = true, rest = true;
    for (auto& r : rs) {
        same = same && r.fail == rs[0].fail && r.v == rs[0].v && (r.fail || !o.off || r.off == rs[0].off) && (r.fail || o.zone == "?" || r.zone == rs[0].zone);
        if (r.fail) keep = keep && r.v == before; else rest = rest && r.rest == tail;
    }
    R.b("fail", rs[0].fail).v("v", rs[0].v).b("keep", keep && same && state).b("rest", rest).i("ooff", rs[0].off).raw("ozone", jstr(rs[0].zone)).end();
}
static Val change(Gen& g, Val v)
{
    switch (g.u(17)) {
    case 0: v.m = int(g.u(14)); break;
    case 1: v.d = int(g.u(33)); break;
    case 2: v.Y = 1970 + int(g.u(90)); break;
    case 3: v.wd = int(g.u(10)); break;
    case 4: v.j = int(g.u(368)); break;
    case 5: v.U = int(g.u(54)); break;
    case 6: v.W = int(g.u(54)); break;
    case 7: v.V = int(g.u(55)); break;
    case 8: v.G = v.G + int(g.u(3)) - 1; break;
    case 9: v.H = int(g.u(26)); break;
    case 10: v.M = int(g.u(62)); break;
    case 11: v.S = int(g.u(62)); break;
    case 12: v.m = 2; v.d = 29 + int(g.u(2)); break;
    case 13: v.d = 31; break;
    case 14: v.H = v.H >= 12 ? v.H - 12 : v.H + 12; break;
    case 16: v.m += 256; v.d += 256; break;
    case 15: v.wd = (v.wd + 1) % 7; break;
    }
    return v;
}
static bool named(const string& f) { return f.back() == 'b' || f.back() == 'B' || f.back() == 'h'; }
// one text for format f: as it should be, or with a field changed in one place, a wrong separator or an end that is missing
template <typename T> static void read(Rec& R, Gen& g, const char* k, long den, const T& init, const string& f, const Val& v, int how)
{
    Out o; bool bad = false; auto items = split(f); string text;
    std::vector<std::size_t> convs; for (std::size_t i = 0; i < items.size(); ++i) if (items[i].size() > 1) convs.push_back(i);
    std::size_t at = convs[g.u(convs.size())]; Val w = change(g, v); bool pad = g.coin(60);
    if (items[at] != "%4m" && items[at] != "%4d" && (w.m > 99 || w.d > 99)) w = v;
    if ((named(items[at]) && (w.m < 1 || w.m > 12)) || ((items[at].back() == 'a' || items[at].back() == 'A') && w.wd > 6)) w = v;
    std::size_t badat = how == 2 ? g.u(items.size()) : items.size(), cut = how == 3 ? items.size() - 1 : items.size();
    while (cut > 0 && cut < items.size() && (items[cut] == " " || items[cut] == "%t")) --cut;
    if (how == 3 && cut == items.size()) how = 0;
    for (std::size_t i = 0; i < items.size(); ++i) {
        if (how == 3 && i >= cut) { bad = true; break; }
        const string& it = items[i]; bool nextlit = i + 1 == items.size() || items[i + 1].size() == 1;
        if (it.size() == 1) {
            if (it == " ") o.text += space(g);
            else if (i == badat) { o.text += it == "~" ? "^" : "~"; bad = true; }
            else o.text += it;
        } else conv(o, it, how == 1 && i == at ? w : v, den, pad || !nextlit || it.size() > 2, g);
    }
    if (how == 3) o.zone = "?", o.off = false;
    string tail = !bad && how == 0 && g.coin(40) ? "!x" : "";
    one<T>(R, k, den, init, f, o, o.text, bad, tail, v.off, v.sub);
}
template <typename T> static void reads(Rec& R, Gen& g, bool th, const char* k, long den, const T& init, std::vector<string> fs, int ylo, int yhi, int times = 1)
{
    for (auto& f : fs) for (int i = 0; i < (th ? 600 : 100) * times; ++i) {
        Val v = value(ylo + int(g.u(unsigned(yhi - ylo + 1))), 1 + int(g.u(12)), 1 + int(g.coin(20) ? 28 + g.u(3) : g.u(28)), int(g.u(86400)), long(g.u(den)));
        if (g.coin(15)) v = value(v.Y, g.coin(50) ? 1 : 12, g.coin(50) ? 1 + int(g.u(4)) : 28 + int(g.u(4)), v.H * 3600, v.sub);
        v.off = int(g.u(1600)) - 800; read<T>(R, g, k, den, init, f, v, g.coin(50) ? 0 : g.coin(70) ? 1 : g.coin(50) ? 2 : 3);
    }
}
static void run(Rec& R, Gen& g, bool th)
{
    const std::vector<string> D4{ "%F", "%Y-%m-%d", "%Y%m%d", "%d.%m.%Y", "%e %b %Y", "%B %d, %Y", "%h/%d/%Y", "%C%y-%m-%d", "%Y-%j", "%Y%j", "%a, %d %b %Y", "%F %u", "%A %F", "%Y-%m-%d %w", "%Y %U %a", "%Y %W %u", "%G-W%V-%u", "%G %V %A", "%F %U", "%F %W", "%F %V", "%F %G", "%F %G-W%V", "%F %j", "%Y %U %a %m %d",
                                  "%G %V %u %Y-%m-%d", "%Y %W %w %m/%d", "%F %F", "%Y-%m-%d %d", "%F %a %A", "%n%F", "%F%t%%%n%a", "x%Fy", "%5Y-%3m-%3d", "%5F", "%5Y-%4m-%4d", "%G%V%u", "%Y%U%w", "%Y%W%u", "%C%y%m%d", "%j%Y", "%u%F", "%Y%m%d%j%w", "%Y-%Om-%Od", "%Y-%m-%Oe" };
    const std::vector<string> D2{ "%D", "%x", "%m/%d/%y", "%y%m%d", "%g %V %u", "%g-%V %a", "%d %B %y", "%y %j", "%Y %y %m %d", "%C %y %Y %m %d", "%g%V%u", "%Oy-%m-%d", "%Ey-%m-%d", "%EY-%m-%d" };
    reads(R, g, th, "ymd", 1, year{ 1234 } / 5 / 6, D4, 1000, 9999); reads(R, g, th, "ymd", 1, year{ 1234 } / 5 / 6, D4, 1890, 2110); reads(R, g, th, "ymd", 1, year{ 1234 } / 5 / 6, D2, 1969, 2068, 2);
    // a width holds for one specification only
    std::vector<string> W1, W2; for (char c : string("uwjUWVGmdeCYFnt")) W1.push_back(string("%5") + c + "|%Y%j"); for (char c : string("yg")) W2.push_back(string("%5") + c + "|%Y%j"); W2.push_back("%5D|%Y%j"); W1.push_back("%10Y|%j"); W1.push_back("%20m/%10d/%Y"); W1.push_back("%12F|%j");
    reads(R, g, th, "ymd", 1, year{ 1234 } / 5 / 6, W1, 1000, 9999); reads(R, g, th, "ymd", 1, year{ 1234 } / 5 / 6, W2, 1969, 2068);
    reads(R, g, th, "year", 1, year{ 1234 }, { "%Y", "%C%y", "year %Y", "%5Y" }, 1000, 9999); reads(R, g, th, "year", 1, year{ 1234 }, { "%y", "%Y %y" }, 1969, 2068);
    reads(R, g, th, "month", 1, month{ 5 }, { "%m", "%b", "%B", "%h", "%m %b", "(%m)" }, 1990, 2030); reads(R, g, th, "day", 1, day{ 6 }, { "%d", "%e", "%d.", "%d %e" }, 1990, 2030);
    reads(R, g, th, "wd", 1, weekday{ 3 }, { "%a", "%A", "%u", "%w", "%a %u", "%w-%A" }, 1990, 2030, 2); reads(R, g, th, "ym", 1, year{ 1234 } / 5, { "%Y-%m", "%b %Y", "%Y%m", "%B, %Y" }, 1000, 9999); reads(R, g, th, "md", 1, month{ 5 } / 6, { "%m/%d", "%d %B", "%m%d", "%b %e" }, 1990, 2030);
    const std::vector<string> T1{ "%F %T", "%FT%H:%M:%S", "%Y%m%d%H%M%S", "%F %R", "%F %I:%M:%S %p", "%d.%m.%Y %H:%M", "%T %F", "%F", "%F %H", "%F %T %z", "%F %T%Ez", "%FT%T %Z", "%F %H:%M:%S %I %p", "%F %H:%M %I", "%F %T %H", "%a %F %T", "%F %T %Z %z", "%F %I", "%F %p %I", "%F %I%M%p", "%F %M%H", "%F %OH:%OM:%OS", "%H%M%Y%j" };
    const std::vector<string> TL{ "%F %X", "%F %r" };
    const local_days L0{ year{ 1234 } / 5 / 6 }; const sys_days S0{ year{ 1234 } / 5 / 6 }; using ms = ch::milliseconds; using us = ch::microseconds;
    reads(R, g, th, "sys", 1, sys_seconds{ S0 }, T1, 1000, 9999); reads(R, g, th, "local", 1, local_seconds{ L0 }, T1, 1890, 2110); reads(R, g, th, "sys", 1000, sys_time<ms>{ S0 }, T1, 1890, 2110); reads(R, g, th, "local", 1000, local_time<ms>{ L0 }, T1, 1000, 9999); reads(R, g, th, "sys", 1000000, sys_time<us>{ S0 }, T1, 1890, 2110);
    reads(R, g, th, "sys", 1, sys_seconds{ S0 }, { "%5H|%Y%j", "%5M|%Y%j", "%5S|%Y%j", "%5I%p|%Y%j", "%I%5p|%Y%j", "%5T|%Y%j", "%5R|%Y%j", "%5z|%Y%j", "%5Ez|%Y%j", "%5Z|%Y%j" }, 1969, 2068);
    reads(R, g, th, "sys", 1, sys_seconds{ S0 }, TL, 1969, 2068, 3);
    reads(R, g, th, "dur", 1, ch::seconds{ -5 }, { "%T", "%H:%M:%S", "%M:%S", "%S", "%j %T", "%R", "%I:%M:%S %p", "%H%M", "%H %I %p" }, 1990, 2030); reads(R, g, th, "dur", 1000, ms{ -5 }, { "%T", "%H:%M:%S", "%S", "%j %T", "%M %S" }, 1990, 2030); reads(R, g, th, "dur", 1000000, us{ -5 }, { "%T", "%S" }, 1990, 2030);
    // years of any sign and length; time points and durations of other resolutions
    reads(R, g, th, "ymd", 1, year{ 1234 } / 5 / 6, { "%F", "%Y-%m-%d", "%d.%m.%Y", "%F %a", "%F %j", "%Y %j", "%Y %U %a", "%F %W", "%G %V %u", "%F %G %V" }, -9999, 999);
    reads(R, g, th, "sys", 1, sys_seconds{ S0 }, { "%F %T", "%d.%m.%Y %T", "%F %T %z" }, -9999, 999); reads(R, g, th, "local", 1, local_seconds{ L0 }, { "%F %T", "%Y %j %T" }, -9999, 999);
    reads(R, g, th, "sys", 1, S0, { "%F", "%D", "%Y %j", "%a %d %b %Y", "%G-W%V-%u" }, 1969, 2068); reads(R, g, th, "local", 1, L0, { "%F", "%D", "%Y %j" }, 1969, 2068); reads(R, g, th, "sys", 1, sys_time<ch::minutes>{ S0 }, { "%F %R", "%F %H:%M", "%F %R %z", "%F %I:%M %p" }, 1000, 9999); reads(R, g, th, "local", 1, local_time<ch::hours>{ L0 }, { "%F %H", "%F %I %p" }, 1000, 9999);
    reads(R, g, th, "dur", 1, ch::minutes{ -5 }, { "%R", "%H:%M", "%M", "%I:%M %p" }, 1990, 2030); reads(R, g, th, "dur", 1, ch::hours{ -5 }, { "%H", "%I%p", "%j %H" }, 1990, 2030); reads(R, g, th, "dur", 100, ch::duration<long long, std::centi>{ -5 }, { "%T", "%S", "%R" }, 1990, 2030);
    // the text lacks what the object needs
    reads(R, g, th, "year", 1, year{ 1234 }, { "%m", "%d", "%C", "%a" }, 1990, 2030); reads(R, g, th, "month", 1, month{ 5 }, { "%Y", "%d", "%H" }, 1990, 2030); reads(R, g, th, "day", 1, day{ 6 }, { "%Y-%m", "%a", "%M" }, 1990, 2030); reads(R, g, th, "wd", 1, weekday{ 3 }, { "%Y", "%m", "%d", "%S" }, 1990, 2030);
    reads(R, g, th, "ym", 1, year{ 1234 } / 5, { "%Y", "%m", "%m-%d", "%T" }, 1990, 2030); reads(R, g, th, "md", 1, month{ 5 } / 6, { "%m", "%d", "%Y", "%Y-%m" }, 1990, 2030); reads(R, g, th, "ymd", 1, year{ 1234 } / 5 / 6, { "%Y-%m", "%m-%d", "%Y-%d", "%a", "%Y %U", "%Y %a", "%G-W%V", "%j", "%T" }, 1990, 2030);
    reads(R, g, th, "sys", 1, sys_seconds{ S0 }, { "%T", "%m-%d %T", "%Y %T", "%a %T", "%H" }, 1990, 2030); reads(R, g, th, "local", 1, local_seconds{ L0 }, { "%T", "%Y-%m %T", "%j %T", "%z" }, 1990, 2030); reads(R, g, th, "dur", 1, ch::seconds{ -5 }, { "%m", "%F", "%a", "%p", "%Z" }, 1990, 2030);
    // years with a sign or of other lengths
    for (int y : { -9999, -1234, -400, -100, -5, -1, 0, 1, 9, 10, 99, 100, 999 }) for (const char* f : { "%Y", "%5Y" }) for (bool pad : { true, false }) { Out o; o.text = num(y, 4, pad); o.p.push_back({ "Y", y }); one<year>(R, "year", 1, year{ 1234 }, f, o, o.text, false, "", 0, 0); }
    for (int y : { -32767, -12345, 10000, 32767 }) { Out o; o.text = num(y, 5, true); o.p.push_back({ "Y", y }); one<year>(R, "year", 1, year{ 1234 }, "%5Y", o, o.text, false, "", 0, 0); }
    for (int y : { -99999, -40000, -32769, -32768, 32768, 40000, 65536, 65537, 67556, 99999 }) { Out o; o.text = num(y, 5, true); o.p.push_back({ "Y", y }); one<year>(R, "year", 1, year{ 1234 }, "%6Y", o, o.text, false, "", 0, 0); o.text += "-05-06"; o.p.push_back({ "m", 5 }); o.p.push_back({ "d", 6 }); one<year_month_day>(R, "ymd", 1, year{ 1234 } / 5 / 6, "%6Y-%m-%d", o, o.text, false, "", 0, 0); one<sys_seconds>(R, "sys", 1, sys_seconds{ S0 }, "%6Y-%m-%d", o, o.text, false, "", 0, 0); o.p.pop_back(); o.text.resize(o.text.size() - 3); one<year_month>(R, "ym", 1, year{ 1234 } / 5, "%6Y-%m", o, o.text, false, "", 0, 0); }
    // texts in which something else stands than the format says
    for (const char* f : { "%Y", "%m", "%d", "%a", "%b", "%y", "%j", "%U", "%F", "%D", "%u", "%w", "%G", "%V" }) for (const char* t : { "", "?", "x", " ", "%", "-", "Foo", ":5", "%Y" }) { Out o; if (string(t) == " " && (string(f) == "%a" || string(f) == "%b")) continue; one<year_month_day>(R, "ymd", 1, year{ 1234 } / 5 / 6, f, o, t, true, "", 0, 0); }
    for (const char* f : { "%H:%M", "%T", "%R", "%I %p", "%p", "%S", "%M", "%r" }) for (const char* t : { "", "?", "x", "%", "-", "12", ":5", "12;30", "12:", "12:x" }) { if ((string(f) == "%S" || string(f) == "%M") && isdigit((unsigned char)t[0])) continue; Out o; one<sys_seconds>(R, "sys", 1, sys_seconds{ S0 }, f, o, t, true, "", 0, 0); }
    for (const char* t : { "", "?", "1", "+", "+1", "x0100", ":01" }) { Out o; o.off = false; string f = "%F %z"; one<sys_seconds>(R, "sys", 1, sys_seconds{ S0 }, f, o, string("2015-03-22 ") + t, true, "", 0, 0); }
}
int main(int argc, char** argv)
{
    Args a = parse_args(argc, argv); Rec R(a.out, a.last); Gen g(a.seed);
    run(R, g, a.thorough());
    std::printf("%zu\n", R.count);
}
