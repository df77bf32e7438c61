// The calendar types as a kind and a list of fields.
#pragma once
#include "rec.h"
#include "gul14/date.h"
#include <array>
using V = std::vector<int>;
namespace D = gul14::date;
inline V fv(const D::day& x) { return { int(unsigned(x)) }; }
inline V fv(const D::month& x) { return { int(unsigned(x)) }; }
inline V fv(const D::year& x) { return { int(x) }; }
inline V fv(const D::weekday& x) { return { int(x.c_encoding()) }; }
inline V fv(const D::weekday_indexed& x) { return { int(x.weekday().c_encoding()), int(x.index()) }; }
inline V fv(const D::weekday_last& x) { return { int(x.weekday().c_encoding()) }; }
inline V fv(const D::year_month& x) { return { int(x.year()), int(unsigned(x.month())) }; }
inline V fv(const D::month_day& x) { return { int(unsigned(x.month())), int(unsigned(x.day())) }; }
inline V fv(const D::month_day_last& x) { return { int(unsigned(x.month())) }; }
inline V fv(const D::month_weekday& x) { return { int(unsigned(x.month())), int(x.weekday_indexed().weekday().c_encoding()), int(x.weekday_indexed().index()) }; }
inline V fv(const D::month_weekday_last& x) { return { int(unsigned(x.month())), int(x.weekday_last().weekday().c_encoding()) }; }
inline V fv(const D::year_month_day& x) { return { int(x.year()), int(unsigned(x.month())), int(unsigned(x.day())) }; }
inline V fv(const D::year_month_day_last& x) { V v{ int(x.year()), int(unsigned(x.month())) }; if (x.month_day_last().month() != x.month()) v.push_back(-1); return v; }
inline V fv(const D::year_month_weekday& x)
{
    V v{ int(x.year()), int(unsigned(x.month())), int(x.weekday().c_encoding()), int(x.index()) };
    if (x.weekday_indexed().weekday() != x.weekday() || x.weekday_indexed().index() != x.index()) v.push_back(-1);
    return v;
}
inline V fv(const D::year_month_weekday_last& x) { V v{ int(x.year()), int(unsigned(x.month())), int(x.weekday().c_encoding()) }; if (x.weekday_last().weekday() != x.weekday()) v.push_back(-1); return v; }

inline D::month M(int m) { return D::month{ unsigned(m) }; }
inline D::day Dd(int d) { return D::day{ unsigned(d) }; }
inline D::weekday W(int w) { return D::weekday{ unsigned(w) }; }
template <typename T> struct K;
#define KIND(T, NAME, N, ...) template <> struct K<T> { static constexpr const char* name = NAME; static constexpr int n = N; static T make(const V& v) { (void)v; return __VA_ARGS__; } };
KIND(D::day, "day", 1, Dd(v[0]))
KIND(D::month, "month", 1, M(v[0]))
KIND(D::year, "year", 1, D::year{ v[0] })
KIND(D::weekday, "wd", 1, W(v[0]))
KIND(D::weekday_indexed, "wdi", 2, D::weekday_indexed{ W(v[0]), unsigned(v[1]) })
KIND(D::weekday_last, "wdl", 1, D::weekday_last{ W(v[0]) })
KIND(D::year_month, "ym", 2, D::year_month{ D::year{ v[0] }, M(v[1]) })
KIND(D::month_day, "md", 2, D::month_day{ M(v[0]), Dd(v[1]) })
KIND(D::month_day_last, "mdl", 1, D::month_day_last{ M(v[0]) })
KIND(D::month_weekday, "mwd", 3, D::month_weekday{ M(v[0]), D::weekday_indexed{ W(v[1]), unsigned(v[2]) } })
KIND(D::month_weekday_last, "mwdl", 2, D::month_weekday_last{ M(v[0]), D::weekday_last{ W(v[1]) } })
KIND(D::year_month_day, "ymd", 3, D::year_month_day{ D::year{ v[0] }, M(v[1]), Dd(v[2]) })
KIND(D::year_month_day_last, "ymdl", 2, D::year_month_day_last{ D::year{ v[0] }, D::month_day_last{ M(v[1]) } })
KIND(D::year_month_weekday, "ymwd", 4, D::year_month_weekday{ D::year{ v[0] }, M(v[1]), D::weekday_indexed{ W(v[2]), unsigned(v[3]) } })
KIND(D::year_month_weekday_last, "ymwdl", 3, D::year_month_weekday_last{ D::year{ v[0] }, M(v[1]), D::weekday_last{ W(v[2]) } })
#undef KIND

inline std::string js(const V& v) { std::string s = "["; for (std::size_t i = 0; i < v.size(); ++i) { if (i) s += ','; s += std::to_string(v[i]); } return s + "]"; }
inline std::string js(const std::vector<V>& vs) { std::string s = "["; for (std::size_t i = 0; i < vs.size(); ++i) { if (i) s += ','; s += js(vs[i]); } return s + "]"; }
// the fields of a kind, by name: y, m, d, w, i
template <typename T> inline const char* shape()
{
    std::string k = K<T>::name;
    return k == "day" ? "d" : k == "month" ? "m" : k == "year" ? "y" : k == "wd" || k == "wdl" ? "w" : k == "wdi" ? "wi" : k == "ym" || k == "ymdl" ? "ym" : k == "md" ? "md"
         : k == "mdl" ? "m" : k == "mwd" ? "mwi" : k == "mwdl" ? "mw" : k == "ymd" ? "ymd" : k == "ymwd" ? "ymwi" : "ymw";
}
template <typename T> V random_fields(Gen& g, bool valid)
{
    V v;
    for (const char* s = shape<T>(); *s; ++s)
        switch (*s) {
        case 'y': v.push_back(g.coin(60) ? 1890 + int(g.u(220)) : g.coin(50) ? int(g.u(64000)) - 32000 : int(g.u(6)) - 3 + (g.coin(50) ? 2000 : 0)); break;
        case 'm': v.push_back(valid ? 1 + int(g.u(12)) : int(g.u(15))); break;
        case 'd': v.push_back(valid ? 1 + int(g.u(31)) : g.coin(80) ? int(g.u(34)) : int(g.u(256))); break;
        case 'w': v.push_back(valid ? int(g.u(7)) : (g.coin(70) ? int(g.u(7)) : 8 + int(g.u(3)))); break;
        case 'i': v.push_back(valid ? 1 + int(g.u(5)) : int(g.u(8))); break;
        }
    return v;
}

inline std::string narrow(const std::wstring& w) { std::string s; for (wchar_t c : w) s += c == 0xb5 ? std::string("\xc2\xb5") : std::string(1, char(c)); return s; }
// text as a JSON string; the sign for micro is written as u
inline std::string jstr(const std::string& s)
{
    std::string o = "\"";
    for (std::size_t i = 0; i < s.size(); ++i) {
        unsigned char c = static_cast<unsigned char>(s[i]);
        if (c == 0xc2 && i + 1 < s.size() && static_cast<unsigned char>(s[i + 1]) == 0xb5) { o += 'u'; ++i; }
        else if (c == '"' || c == '\\') { o += '\\'; o += char(c); }
        else if (c == '\n') o += "\\n";
        else if (c == '\t') o += "\\t";
        else if (c < 32 || c > 126) { char b[8]; std::snprintf(b, sizeof b, "<%02x>", c); o += b; }
        else o += char(c);
    }
    return o + "\"";
}
inline std::string jstrs(const std::vector<std::string>& v) { std::string o = "["; for (std::size_t i = 0; i < v.size(); ++i) { if (i) o += ','; o += jstr(v[i]); } return o + "]"; }
