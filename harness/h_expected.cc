// Records histories of gul14::expected: operations on two objects with tracked values and errors and injected faults.
// usage: h_expected OUT LAST TIER SEED PROFILE
#include "hist.h"
#include "gul14/expected.h"
#include <memory>
using std::string;
#define CMP(OP) template <char K> bool operator OP(const Tr<K>& a, const Tr<K>& b) { used(&a); used(&b); return a.v OP b.v; }
CMP(!=) CMP(<) CMP(<=) CMP(>) CMP(>=)

// neither tracked nor faulty, and trivially destructible
struct Plain { int v; Plain() : v(0) {} explicit Plain(int x) : v(x) {} Plain(std::initializer_list<Seed> l, int x = 0) : v(x + total(l)) {} };
#define PCMP(OP) inline bool operator OP(const Plain& a, const Plain& b) { return a.v OP b.v; }
PCMP(==) PCMP(!=) PCMP(<) PCMP(<=) PCMP(>) PCMP(>=)
template <> struct El<Plain> : El<int> { static Plain make(int v) { return Plain(v); } static int get(const Plain& p) { return p.v; } };

enum { SETV, SETM, SETE, SETEM, EMPL, COPYA, MOVEA, COPYC, MOVEC, NEWV, NEWM, NEWD, NEWIP, NEWE, NEWEM, NEWU, CONV, CONVM, CONVE, CONVEM, SWAP, FSWAP, SELF, SELFSWAP, VALOR, VALORM, TAKE, WRITE, ANDL, ANDR, MAPL, MAPR, MAPVL, MAPVR, MERRL, MERRR, MERRVL, MERRVR, ORL, ORR, ORVL, ORVR, EMPLIL, NEWIL, NEWUL, SETX, NEWX, NEWG, NEWGM, LOOK, NOPS };
static const char* NAME[] = { "setv", "setm", "sete", "setem", "empl", "copya", "movea", "copyc", "movec", "newv", "newm", "newd", "newip", "newe", "newem", "newu", "conv", "convm", "conve", "convem", "swap", "fswap", "self", "selfswap", "valor", "valorm", "take", "write", "andl", "andr", "mapl", "mapr", "mapvl", "mapvr", "merrl", "merrr", "merrvl", "merrvr", "orl", "orr", "orvl", "orvr", "emplil", "newil", "newul", "setx", "newx", "newg", "newgm", "look" };
using Yes = std::true_type; using No = std::false_type;
static bool copies(int op) { return op == COPYA || op == COPYC || op == SELF || op == ANDL || op == MERRL || op == MERRVL || op == MAPL || op == MAPVL || op == ORL || op == ORVL; }

template <typename T, typename U> struct Run {
    using X = gul14::expected<T, U>; using UX = gul14::unexpected<U>; using V = El<T>; using E = El<U>;
    using CT = std::integral_constant<bool, V::copyable>; using CE = std::integral_constant<bool, E::copyable>; using CB = std::integral_constant<bool, V::copyable && E::copyable>;
    static constexpr int OPS = NOPS, INITS = 4;
    std::unique_ptr<X> v[3]; Rec& rec; string ev; bool threw = false; int next = 10; unsigned turn = 0;
    explicit Run(Rec& r) : rec(r) {}
    string head() const { return string("\"t\":\"") + V::kind + "\",\"e\":\"" + E::kind + "\""; }
    void start(int init) { for (int x = 1; x < 3; ++x) if (init >> (x - 1) & 1) v[x] = std::make_unique<X>(gul14::in_place, V::raw(++next)); else v[x] = std::make_unique<X>(gul14::unexpect, E::raw(++next)); }
    static string thrown_error(X& o, int& bad, Yes) { string s; const X& c = o; try { (void)o.value(); } catch (const gul14::bad_expected_access<U>& e) { ++bad; s += "," + J(E::get(e.error())); } try { (void)c.value(); } catch (const gul14::bad_expected_access<void>& e) { ++bad; } return s; }
    static string thrown_error(X&, int& bad, No) { bad = 2; return ""; }
    static string values(X& o, Yes) { const X& c = o; return "," + J(V::get(o.value())) + "," + J(V::get(c.value())); }
    static string values(X&, No) { return ""; }
    string obs(X& o)
    {
        const X& c = o; int bad = 0; string ac = "[";
        if (o.has_value()) ac += J(V::get(*o)) + "," + J(V::get(*c)) + "," + J(V::get(*o.operator->())) + "," + J(V::get(*c.operator->())) + values(o, CE{});
        else ac += J(E::get(o.error())) + "," + J(E::get(c.error())) + thrown_error(o, bad, CE{});
        return "{\"h\":" + B(o.has_value()) + ",\"b\":" + B(bool(c)) + ",\"v\":" + (o.has_value() ? J(V::get(*o)) : J(E::get(o.error()))) + ",\"ac\":" + ac + "],\"bad\":" + J(bad) + "}";
    }
    string both() { Quiet q; return "[" + obs(*v[1]) + "," + obs(*v[2]) + "]"; }
    // ---- what needs copies of values, of errors, of both
    bool copyv(X& o, int op, const T& arg, void* at, X*& fresh, string& r, Yes)
    {
        switch (op) {
        case SETV: r = J(&(o = arg) == &o); return true; case NEWV: fresh = ::new (at) X(arg); return true;
        default: return false;
        }
    }
    bool copyv(X&, int, const T&, void*, X*&, string&, No) { return false; }
    bool copye(X& o, int op, const UX& arg, void* at, X*& fresh, string& r, Yes)
    {
        switch (op) {
        case SETE: r = J(&(o = arg) == &o); return true; case NEWE: fresh = ::new (at) X(arg); return true;
        default: return false;
        }
    }
    bool copye(X&, int, const UX&, void*, X*&, string&, No) { return false; }
    template <typename Z> static string res(const Z& z) { Quiet q; return z.has_value() ? "1," + J(*z) : "0," + J(E::get(z.error())); }
    static string resx(const X& z) { Quiet q; return z.has_value() ? "1," + J(V::get(*z)) : "0," + J(E::get(z.error())); }
    bool copyb(X& o, X& w, int op, const T& arg, void* at, X*& fresh, string& r, int& calls, int& seen, Yes)
    {
        const X& c = o; const bool t = turn % 2; const bool k = turn % 4 < 2;
        auto f = [&](auto const& a) { Quiet q; ++calls; seen = V::get(a); return t ? gul14::expected<int, U>(gul14::in_place, seen + 1000) : gul14::expected<int, U>(gul14::unexpect, E::raw(seen + 1000)); };
        auto m = [&](auto const& a) { Quiet q; ++calls; seen = V::get(a); return seen + 1000; };
        auto me = [&](auto const& a) { Quiet q; ++calls; seen = E::get(a); return seen + 1000; };
        auto fe = [&](auto const& a) { Quiet q; ++calls; seen = E::get(a); return t ? X(gul14::in_place, V::raw(seen + 1000)) : X(gul14::unexpect, E::raw(seen + 1000)); };
        auto fv = [&](auto const& a) { Quiet q; ++calls; seen = V::get(a); };
        auto fev = [&](auto const& a) { Quiet q; ++calls; seen = E::get(a); };
        auto emap = [](auto const& z) { Quiet q; return z.has_value() ? "1," + J(V::get(*z)) : "0," + J(z.error()); };
        auto vmap = [](auto const& z) { Quiet q; return z.has_value() ? string("1,0") : "0," + J(E::get(z.error())); };
        auto evmap = [](auto const& z) { Quiet q; return z.has_value() ? "1," + J(V::get(*z)) : string("0,0"); };
        switch (op) {
        case COPYA: r = J(&(o = static_cast<const X&>(w)) == &o); return true; case COPYC: fresh = ::new (at) X(static_cast<const X&>(w)); return true;
        case SELF: { auto& s = o; o = static_cast<const X&>(s); } return true;
        case VALOR: { T z = c.value_or(arg); Quiet q; r = J(V::get(z)); } return true;
        case ANDL: r = k ? res(o.and_then(f)) : res(c.and_then(f)); return true;
        case MAPL: r = t ? (k ? res(o.map(m)) : res(c.map(m))) : (k ? res(o.transform(m)) : res(c.transform(m))); return true;
        case MAPVL: r = t ? (k ? vmap(o.map(fv)) : vmap(c.map(fv))) : (k ? vmap(o.transform(fv)) : vmap(c.transform(fv))); return true;
        case MERRL: r = t ? (k ? emap(o.map_error(me)) : emap(c.map_error(me))) : (k ? emap(o.transform_error(me)) : emap(c.transform_error(me))); return true;
        case MERRVL: r = t ? (k ? evmap(o.map_error(fev)) : evmap(c.map_error(fev))) : (k ? evmap(o.transform_error(fev)) : evmap(c.transform_error(fev))); return true;
        case ORL: r = k ? resx(o.or_else(fe)) : resx(c.or_else(fe)); return true;
        case ORVL: r = k ? resx(o.or_else(fev)) : resx(c.or_else(fev)); return true;
        default: return false;
        }
    }
    bool copyb(X&, X&, int, const T&, void*, X*&, string&, int&, int&, No) { return false; }
    // made from a list and a value: the two add up
    static void listed(X& o, int op, int val, void* at, X*& fresh, Yes) { if (op == EMPLIL) o.emplace({ Seed{ 2 }, Seed{ 5 } }, val - 7); else fresh = ::new (at) X(gul14::in_place, { Seed{ 2 }, Seed{ 5 } }, val - 7); }
    static void listed(X&, int, int, void*, X*&, No) {}
    static void listede(int val, void* at, X*& fresh, Yes) { if (val % 2) fresh = ::new (at) X(gul14::unexpect, { Seed{ 2 }, Seed{ 5 } }, val - 7); else { Quiet q; UX u({ Seed{ 2 }, Seed{ 5 } }, val - 7); fresh = ::new (at) X(std::move(u)); } }
    static void listede(int, void*, X*&, No) {}
    static void set_other(X& o, int val, string& r, No) { r = J(&(o = short(val)) == &o); }
    static void set_other(X&, int, string&, Yes) {}
    using TT = std::integral_constant<bool, !std::is_same<T, int>::value>; using TE = std::integral_constant<bool, !std::is_same<U, int>::value>;
    static string take_value(X& o, Yes) { T z = std::move(o).value(); Quiet q; return J(V::get(z)); }
    bool step(int op, int x, long k)
    {
        threw = false; turn++; X& o = *v[x]; X& w = *v[3 - x]; string r; int calls = 0, seen = 0;
        if (!CB::value && (copies(op) || op == VALOR)) return false;
        if ((!TT::value && (op == EMPLIL || op == NEWIL)) || (!TE::value && op == NEWUL) || (TT::value && op == SETX)) return false;
        if (!CT::value && (op == SETV || op == NEWV)) return false;
        if (!CE::value && (op == SETE || op == NEWE)) return false;
        rec.note(string("expected<") + V::kind + "," + E::kind + ">: " + NAME[op] + " on an object with " + (o ? "a value" : "an error") + ", the other one with " + (w ? "a value" : "an error") + ", fault in step " + J(k));
        int val = ++next, ag, eg; const bool odd = turn % 2;
        {
            T arg = V::make(val); UX err(E::raw(val)); auto raw = V::raw(val); auto eraw = E::raw(val); gul14::expected<int, int> other(val); gul14::expected<int, int> bad(gul14::unexpect, val);
            void* at = ::operator new(sizeof(X)); X* fresh = nullptr;
            auto f = [&](auto&& a) { Quiet q; ++calls; seen = V::get(a); return odd ? gul14::expected<int, U>(gul14::in_place, seen + 1000) : gul14::expected<int, U>(gul14::unexpect, E::raw(seen + 1000)); };
            auto m = [&](auto&& a) { Quiet q; ++calls; seen = V::get(a); return seen + 1000; };
            auto fv = [&](auto&& a) { Quiet q; ++calls; seen = V::get(a); };
            auto me = [&](auto&& a) { Quiet q; ++calls; seen = E::get(a); return seen + 1000; };
            auto fe = [&](auto&& a) { Quiet q; ++calls; seen = E::get(a); return odd ? X(gul14::in_place, V::raw(seen + 1000)) : X(gul14::unexpect, E::raw(seen + 1000)); };
            auto fev = [&](auto&& a) { Quiet q; ++calls; seen = E::get(a); };
            auto emap = [](auto const& z) { Quiet q; return z.has_value() ? "1," + J(V::get(*z)) : "0," + J(z.error()); };
            auto vmap = [](auto const& z) { Quiet q; return z.has_value() ? string("1,0") : "0," + J(E::get(z.error())); };
            auto evmap = [](auto const& z) { Quiet q; return z.has_value() ? "1," + J(V::get(*z)) : string("0,0"); };
            R.errs = 0; R.thrown.clear(); R.fuel = k; R.armed = k > 0;
            try {
                if (!copyv(o, op, arg, at, fresh, r, CT{}) && !copye(o, op, err, at, fresh, r, CE{}) && !copyb(o, w, op, arg, at, fresh, r, calls, seen, CB{})) switch (op) {
                case SETM: r = J(&(o = std::move(arg)) == &o); break; case SETEM: r = J(&(o = std::move(err)) == &o); break; case EMPL: o.emplace(raw); break;
                case MOVEA: r = J(&(o = std::move(w)) == &o); break; case MOVEC: fresh = ::new (at) X(std::move(w)); break;
                case NEWM: fresh = ::new (at) X(std::move(arg)); break; case NEWD: fresh = ::new (at) X(); break; case NEWIP: fresh = ::new (at) X(gul14::in_place, raw); break;
                case NEWEM: fresh = ::new (at) X(std::move(err)); break; case NEWU: fresh = ::new (at) X(gul14::unexpect, eraw); break;
                case CONV: fresh = ::new (at) X(static_cast<const gul14::expected<int, int>&>(other)); break; case CONVM: fresh = ::new (at) X(std::move(other)); break;
                case CONVE: fresh = ::new (at) X(static_cast<const gul14::expected<int, int>&>(bad)); break; case CONVEM: fresh = ::new (at) X(std::move(bad)); break;
                case EMPLIL: case NEWIL: listed(o, op, val, at, fresh, TT{}); break; case NEWUL: listede(val, at, fresh, TE{}); break;
                case SETX: set_other(o, val, r, TT{}); break; case NEWX: fresh = ::new (at) X(short(val)); break;
                case NEWG: { const gul14::unexpected<int> u(val); fresh = ::new (at) X(u); } break; case NEWGM: fresh = ::new (at) X(gul14::make_unexpected(val)); break;
                case SWAP: o.swap(w); break; case FSWAP: { using std::swap; swap(o, w); } break; case SELFSWAP: { auto& s = o; o.swap(s); } break;
                case VALORM: { T z = std::move(o).value_or(std::move(arg)); Quiet q; r = J(V::get(z)); } break;
                case TAKE: if (o) { if (odd) { T z = *std::move(o); Quiet q; r = J(V::get(z)); } else r = take_value(o, Yes{}); }
                           else if (odd) { U z = std::move(o).error(); Quiet q; r = J(E::get(z)); }
                           else try { r = take_value(o, Yes{}); } catch (gul14::bad_expected_access<U>& e) { Quiet q; r = J(E::get(e.error())); } break;
                case WRITE: { Quiet q; if (!o) o.error() = E::make(val); else if (odd) *o = V::make(val); else *o.operator->() = V::make(val); } break;
                case ANDR: r = res(std::move(o).and_then(f)); break; case MAPR: r = odd ? res(std::move(o).map(m)) : res(std::move(o).transform(m)); break; case MAPVR: r = odd ? vmap(std::move(o).map(fv)) : vmap(std::move(o).transform(fv)); break;
                case MERRR: r = odd ? emap(std::move(o).map_error(me)) : emap(std::move(o).transform_error(me)); break; case MERRVR: r = odd ? evmap(std::move(o).map_error(fev)) : evmap(std::move(o).transform_error(fev)); break;
                case ORR: r = resx(std::move(o).or_else(fe)); break; case ORVR: r = resx(std::move(o).or_else(fev)); break;
                default: break;
                }
            } catch (const Boom&) { threw = true; }
            R.armed = false; ag = V::get(arg); eg = E::get(err.value());
            if (fresh) v[x].reset(fresh); else ::operator delete(at);
        }
        const int errs = R.errs, live = int(R.live.size());
        string ob = both(); Quiet q; T c = V::make(odd ? val : *v[3 - x] ? V::get(**v[3 - x]) : val); UX ce(E::raw(odd ? val : *v[3 - x] ? val : E::get(v[3 - x]->error()))); const X& a = *v[1]; const X& b = *v[2]; const X& s = *v[x];
        if (!ev.empty()) ev += ',';
        ev += string("{\"o\":\"") + NAME[op] + "\",\"x\":" + J(x) + ",\"v\":" + J(val) + ",\"w\":" + J(odd) + ",\"ag\":" + J(ag) + ",\"eg\":" + J(eg) + ",\"r\":[" + r + "],\"calls\":" + J(calls) + ",\"seen\":" + J(seen) + ",\"th\":\"" + R.thrown + "\",\"live\":" + J(live) + ",\"errs\":" + J(errs)
            + ",\"cm\":[" + B(a == b) + "," + B(a != b) + "," + B(b == a) + "," + B(b != a) + "],\"c\":" + J(V::get(c)) + ",\"cv\":[" + B(s == c) + "," + B(c == s) + "," + B(s != c) + "," + B(c != s) + "],\"ce\":" + J(E::get(ce.value())) + ",\"cu\":[" + B(s == ce) + "," + B(ce == s) + "," + B(s != ce) + "," + B(ce != s) + "],\"cats\":" + (op == LOOK ? cats(s, CB{}) : string("[]")) + ",\"ux\":" + errors(ce, UX(E::raw(val % 3 ? val : E::get(ce.value())))) + ",\"ob\":" + ob + "}";
        return true;
    }
    // the category of what the functions are given
    template <typename A> static string cat() { return string(std::is_const<std::remove_reference_t<A>>::value ? "c" : "") + (std::is_lvalue_reference<A>::value ? "l" : "r"); }
    static string cats(const X& s, Yes)
    {
        string r; auto note = [&r](const string& c) { if (!r.empty()) r += ','; r += "\"" + c + "\""; };
        auto f = [&](auto&& a) { note(cat<decltype(a)>()); return gul14::expected<int, U>(gul14::in_place, 1); }; auto m = [&](auto&& a) { note(cat<decltype(a)>()); return 1; }; auto n = [&](auto&& a) { note(cat<decltype(a)>()); };
        auto e = [&](auto&& a) { note(cat<decltype(a)>()); return X(gul14::in_place, V::raw(1)); };
        X x(s); const X& c = x;
#define CATS(FN, G) x.FN(G); c.FN(G); std::move(c).FN(G); { X y(s); std::move(y).FN(G); }
        if (x) { CATS(and_then, f) CATS(map, m) CATS(map, n) CATS(transform, m) CATS(transform, n) }
        else { CATS(map_error, m) CATS(map_error, n) CATS(transform_error, m) CATS(transform_error, n) CATS(or_else, e) CATS(or_else, n) }
        if (x) { note(cat<decltype(*x)>()); note(cat<decltype(*c)>()); note(cat<decltype(*std::move(c))>()); note(cat<decltype(*std::move(x))>()); note(cat<decltype(x.value())>()); note(cat<decltype(c.value())>()); note(cat<decltype(std::move(c).value())>()); note(cat<decltype(std::move(x).value())>()); }
        else { note(cat<decltype(x.error())>()); note(cat<decltype(c.error())>()); note(cat<decltype(std::move(c).error())>()); note(cat<decltype(std::move(x).error())>()); }
        return "[" + r + "]";
    }
    static string cats(const X&, No) { return "[]"; }
    // an error on its own
    static string errors(UX& a, UX b)
    {
        const UX& c = a;
        return "{\"a\":[" + J(E::get(a.value())) + "," + J(E::get(c.value())) + "],\"b\":" + J(E::get(b.value())) + ",\"cm\":[" + B(a == b) + "," + B(a != b) + "," + B(a < b) + "," + B(a <= b) + "," + B(a > b) + "," + B(a >= b) + "," + B(b < c) + "," + B(c == c) + "]}";
    }
    void finish() { R.errs = 0; v[1].reset(); v[2].reset(); ev += ",{\"o\":\"end\",\"live\":" + J(long(R.live.size())) + ",\"errs\":" + J(R.errs) + "}"; }
};
// ---------------------------------------------------------------- no value, just success
template <typename U> struct VRun {
    using X = gul14::expected<void, U>; using UX = gul14::unexpected<U>; using E = El<U>;
    static constexpr int OPS = NOPS, INITS = 4;
    std::unique_ptr<X> v[3]; Rec& rec; string ev; bool threw = false; int next = 10; unsigned turn = 0;
    explicit VRun(Rec& r) : rec(r) {}
    string head() const { return string("\"t\":\"V\",\"e\":\"") + E::kind + "\""; }
    void start(int init) { for (int x = 1; x < 3; ++x) if (init >> (x - 1) & 1) v[x] = std::make_unique<X>(); else v[x] = std::make_unique<X>(gul14::unexpect, E::raw(++next)); }
    string obs(X& o)
    {
        const X& c = o; string ac = "["; if (!o.has_value()) ac += J(E::get(o.error())) + "," + J(E::get(c.error())); else ac += "0";
        return "{\"h\":" + B(o.has_value()) + ",\"b\":" + B(bool(c)) + ",\"v\":" + (o.has_value() ? string("0") : J(E::get(o.error()))) + ",\"ac\":" + ac + "],\"bad\":" + (o.has_value() ? "0" : "2") + "}";
    }
    string both() { Quiet q; return "[" + obs(*v[1]) + "," + obs(*v[2]) + "]"; }
    template <typename Z> static string res(const Z& z) { Quiet q; return z.has_value() ? "1," + J(*z) : "0," + J(E::get(z.error())); }
    static string vres(const X& z) { Quiet q; return z.has_value() ? string("1,0") : "0," + J(E::get(z.error())); }
    bool step(int op, int x, long k)
    {
        threw = false; turn++; X& o = *v[x]; X& w = *v[3 - x]; const X& c = o; string r; int calls = 0, seen = 0; const bool odd = turn % 2;
        switch (op) { case SETV: case SETM: case EMPL: case NEWV: case NEWM: case NEWIP: case CONV: case CONVM: case CONVE: case CONVEM: case SWAP: case FSWAP: case SELFSWAP: case VALOR: case VALORM: case TAKE: case WRITE: case EMPLIL: case NEWIL: case SETX: case NEWX: case NEWG: case NEWGM: return false; default: break; }
        rec.note(string("expected<void,") + E::kind + ">: " + NAME[op] + " on an object with " + (o ? "success" : "an error") + ", the other one with " + (w ? "success" : "an error") + ", fault in step " + J(k));
        int val = ++next, eg;
        {
            UX err(E::raw(val)); auto eraw = E::raw(val); void* at = ::operator new(sizeof(X)); X* fresh = nullptr;
            auto f = [&] { Quiet q; ++calls; return odd ? gul14::expected<int, U>(gul14::in_place, 1000) : gul14::expected<int, U>(gul14::unexpect, E::raw(1000)); };
            auto m = [&] { ++calls; return 1000; }; auto fv = [&] { ++calls; };
            auto me = [&](auto const& a) { Quiet q; ++calls; seen = E::get(a); return seen + 1000; };
            auto fe = [&](auto const& a) { Quiet q; ++calls; seen = E::get(a); return odd ? X() : X(gul14::unexpect, E::raw(seen + 1000)); };
            auto fev = [&](auto const& a) { Quiet q; ++calls; seen = E::get(a); };
            auto emap = [](auto const& z) { Quiet q; return z.has_value() ? string("1,0") : "0," + J(z.error()); };
            auto evmap = [](auto const& z) { return z.has_value() ? string("1,0") : string("0,0"); };
            R.errs = 0; R.thrown.clear(); R.fuel = k; R.armed = k > 0;
            try {
                switch (op) {
                case SETE: r = J(&(o = static_cast<const UX&>(err)) == &o); break; case SETEM: r = J(&(o = std::move(err)) == &o); break;
                case COPYA: r = J(&(o = static_cast<const X&>(w)) == &o); break; case MOVEA: r = J(&(o = std::move(w)) == &o); break; case COPYC: fresh = ::new (at) X(static_cast<const X&>(w)); break; case MOVEC: fresh = ::new (at) X(std::move(w)); break;
                case NEWD: fresh = ::new (at) X(); break; case NEWUL: fresh = ::new (at) X(gul14::unexpect, { Seed{ 2 }, Seed{ 5 } }, val - 7); break; case NEWE: fresh = ::new (at) X(static_cast<const UX&>(err)); break; case NEWEM: fresh = ::new (at) X(std::move(err)); break; case NEWU: fresh = ::new (at) X(gul14::unexpect, eraw); break;
                case SELF: { auto& s = o; o = static_cast<const X&>(s); } break;
                case ANDL: r = odd ? res(o.and_then(f)) : res(c.and_then(f)); break; case ANDR: r = res(std::move(o).and_then(f)); break;
                case MAPL: r = odd ? res(o.map(m)) : res(c.transform(m)); break; case MAPR: r = odd ? res(std::move(o).map(m)) : res(std::move(o).transform(m)); break;
                case MAPVL: r = odd ? vres(o.map(fv)) : vres(c.transform(fv)); break; case MAPVR: r = odd ? vres(std::move(o).map(fv)) : vres(std::move(o).transform(fv)); break;
                case MERRL: r = odd ? emap(o.map_error(me)) : emap(c.transform_error(me)); break; case MERRR: r = odd ? emap(std::move(o).map_error(me)) : emap(std::move(o).transform_error(me)); break;
                case MERRVL: r = odd ? evmap(o.map_error(fev)) : evmap(c.transform_error(fev)); break; case MERRVR: r = odd ? evmap(std::move(o).map_error(fev)) : evmap(std::move(o).transform_error(fev)); break;
                case ORL: r = odd ? vres(o.or_else(fe)) : vres(c.or_else(fe)); break; case ORR: r = vres(std::move(o).or_else(fe)); break;
                case ORVL: r = odd ? vres(o.or_else(fev)) : vres(c.or_else(fev)); break; case ORVR: r = vres(std::move(o).or_else(fev)); break;
                default: break;
                }
            } catch (const Boom&) { threw = true; }
            R.armed = false; eg = E::get(err.value());
            if (fresh) v[x].reset(fresh); else ::operator delete(at);
        }
        const int errs = R.errs, live = int(R.live.size());
        string ob = both(); Quiet q; UX ce(E::raw(odd ? val : *v[3 - x] ? val : E::get(v[3 - x]->error()))); const X& a = *v[1]; const X& b = *v[2]; const X& s = *v[x];
        if (!ev.empty()) ev += ',';
        ev += string("{\"o\":\"") + NAME[op] + "\",\"x\":" + J(x) + ",\"v\":" + J(val) + ",\"w\":" + J(odd) + ",\"ag\":" + J(val) + ",\"eg\":" + J(eg) + ",\"r\":[" + r + "],\"calls\":" + J(calls) + ",\"seen\":" + J(seen) + ",\"th\":\"" + R.thrown + "\",\"live\":" + J(live) + ",\"errs\":" + J(errs)
            + ",\"cm\":[" + B(a == b) + "," + B(a != b) + "," + B(b == a) + "," + B(b != a) + "],\"c\":0,\"cv\":[],\"ce\":" + J(E::get(ce.value())) + ",\"cu\":[" + B(s == ce) + "," + B(ce == s) + "," + B(s != ce) + "," + B(ce != s) + "],\"ob\":" + ob + "}";
        return true;
    }
    void finish() { R.errs = 0; v[1].reset(); v[2].reset(); ev += ",{\"o\":\"end\",\"live\":" + J(long(R.live.size())) + ",\"errs\":" + J(R.errs) + "}"; }
};

int main(int argc, char** argv)
{
    Args a = parse_args(argc, argv); Sink out{ std::fopen(a.out.c_str(), "w") }; if (!out.f) return 3;
    Rec rec("/dev/null", a.last); G g(a.seed); const bool th = a.thorough(); const unsigned rnd = th ? 4000 : 400;
    drive<Run<Tr<'N'>, Tr<'N'>>>(rec, out, g, true, rnd, true);
    drive<Run<Tr<'T'>, Tr<'N'>>>(rec, out, g, th, rnd, true);
    drive<Run<Tr<'N'>, Tr<'T'>>>(rec, out, g, th, rnd, true);
    drive<Run<Tr<'M'>, Tr<'M'>>>(rec, out, g, th, rnd, true);
    drive<Run<Tr<'C'>, Tr<'N'>>>(rec, out, g, th, rnd, true);
    drive<Run<int, Tr<'N'>>>(rec, out, g, th, rnd, true);
    drive<Run<Tr<'N'>, int>>(rec, out, g, th, rnd / 4, true);
    drive<Run<Tr<'N'>, Plain>>(rec, out, g, th, rnd / 2, true);
    drive<Run<Plain, Tr<'N'>>>(rec, out, g, th, rnd / 2, true);
    drive<Run<Plain, Plain>>(rec, out, g, th, rnd / 2, true);
    drive<Run<int, int>>(rec, out, g, th, rnd, false);
    drive<VRun<Tr<'N'>>>(rec, out, g, th, rnd, true);
    drive<VRun<Tr<'T'>>>(rec, out, g, th, rnd, true);
    drive<VRun<Plain>>(rec, out, g, th, rnd, false);
    std::fprintf(stderr, "%lu histories\n", out.hist);
    std::fclose(out.f); return 0;
}
