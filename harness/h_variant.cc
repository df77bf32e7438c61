// Records histories of gul14::variant: operations on two variants of tracked elements with injected faults.
// usage: h_variant OUT LAST TIER SEED PROFILE
#include "hist.h"
#include "gul14/variant.h"
#include <memory>
#include <utility>
#include <vector>
using std::string;
#define CMP(OP) template <char K> bool operator OP(const Tr<K>& a, const Tr<K>& b) { used(&a); used(&b); return a.v OP b.v; }
CMP(!=) CMP(<) CMP(<=) CMP(>) CMP(>=)
// many different types that behave like Tr<'N'>
template <int I> struct Many : Tr<'N'> { using Tr<'N'>::Tr; };
template <int I> struct El<Many<I>> : El<Tr<'N'>> { static Many<I> make(int v) { return Many<I>(v); } };
template <> struct El<gul14::monostate> { static gul14::monostate make(int) { return {}; } static int get(gul14::monostate) { return 0; } static constexpr char kind = 'U'; static constexpr bool copyable = true, tracked = false; };
struct Bomb { operator int() const { throw Boom(); } };

template <typename T, typename... Ts> struct Count;
template <typename T> struct Count<T> { static constexpr int value = 0; };
template <typename T, typename U, typename... Ts> struct Count<T, U, Ts...> { static constexpr int value = int(std::is_same<T, U>::value) + Count<T, Ts...>::value; };
template <std::size_t I> using Ix = std::integral_constant<std::size_t, I>;
using Yes = std::true_type; using No = std::false_type;
template <std::size_t N, typename F, std::size_t... I> void pick_impl(std::size_t i, F&& f, std::index_sequence<I...>) { int d[] = { (i == I ? (f(Ix<I>{}), 0) : 0)... }; (void)d; }
template <std::size_t N, typename F> void pick(std::size_t i, F&& f) { pick_impl<N>(i, f, std::make_index_sequence<N>{}); }
template <std::size_t N, typename F> void each(F&& f) { for (std::size_t i = 0; i < N; ++i) pick<N>(i, f); }

enum { EMPI, EMPT, SETC, SETM, NEWI, NEWT, NEWC, NEWM, BOMB, WRITE, TAKE, EMPIL, EMPTL, NEWIL, NEWTL, NALTOPS };   // operations that name an alternative
enum { NEWD, COPYA, MOVEA, COPYC, MOVEC, SWAP, FSWAP, SELF, SELFSWAP, VWRITE, VTAKE, LOOK, NOTHER };
static const char* NAME[] = { "empi", "empt", "setc", "setm", "newi", "newt", "newc", "newm", "bomb", "write", "take", "empi", "empt", "newi", "newt" };
static const char* NAME2[] = { "newd", "copya", "movea", "copyc", "movec", "swap", "fswap", "self", "selfswap", "vwrite", "vtake", "look" };

template <int... Alts> struct Alternatives { static int at(int i) { const int a[] = { Alts... }; return a[i]; } static constexpr int n = sizeof...(Alts); };

// Set: alternatives that the operations name; Inits: how many initial states
template <typename Set, bool HashIt, typename... Ts> struct Run {
    using V = gul14::variant<Ts...>; static constexpr std::size_t N = sizeof...(Ts);
    template <std::size_t I> using T = gul14::variant_alternative_t<I, V>;
    template <std::size_t I> using Unique = std::integral_constant<bool, Count<T<I>, Ts...>::value == 1>;
    static constexpr bool all(std::initializer_list<bool> l) { for (bool b : l) if (!b) return false; return true; }
    using Copyable = std::integral_constant<bool, all({ El<Ts>::copyable... })>;
    static constexpr int STATES = Set::n + 1, OPS = NALTOPS * Set::n + NOTHER, INITS = STATES * STATES;
    std::unique_ptr<V> v[3]; Rec& rec; string ev; bool threw = false; int next = 10; unsigned turn = 0;
    explicit Run(Rec& r) : rec(r) {}
    string head() const { const char k[] = { El<Ts>::kind... }; string s = "\"k\":["; for (std::size_t i = 0; i < N; ++i) s += (i ? ",\"" : "\"") + string(1, k[i]) + "\""; return s + "]"; }
    template <typename A> static auto boom(V& o, A, Yes) { try { o.template emplace<A::value>(Bomb{}); } catch (const Boom&) {} }
    template <std::size_t I> using Bombable = std::integral_constant<bool, El<T<I>>::tracked || std::is_same<T<I>, int>::value>;
    static void set(V& o, int i, int val) { pick<N>(std::size_t(i), [&](auto ix) { make_in<decltype(ix)::value>(o, val, typename std::is_same<T<decltype(ix)::value>, gul14::monostate>::type{}); }); }
    template <std::size_t I> static auto& make_in(V& o, int val, No) { return o.template emplace<I>(El<T<I>>::raw(val)); }
    template <std::size_t I> static auto& make_in(V& o, int, Yes) { return o.template emplace<I>(); }
    static void disarm(V& o) { bool done = false; each<N>([&](auto ix) { if (!done) done = defuse<decltype(ix)::value>(o, Bombable<decltype(ix)::value>{}); }); }
    template <std::size_t I> static bool defuse(V& o, Yes) { try { o.template emplace<I>(Bomb{}); } catch (const Boom&) { return true; } return false; }
    template <std::size_t I> static bool defuse(V&, No) { return false; }
    void start(int init) { for (int x = 1; x < 3; ++x) { v[x] = std::make_unique<V>(); int s = x == 1 ? init % STATES : init / STATES; if (s == Set::n) disarm(*v[x]); else set(*v[x], Set::at(s), ++next); } }
    static string list(const std::vector<long>& l) { string s = "["; for (auto i : l) { if (s.size() > 1) s += ','; s += J(i); } return s + "]"; }
    struct Look { template <typename X> int operator()(const X& x) const { return El<X>::get(x); } };
    template <typename X> struct Id { static string name() { return string(1, El<X>::kind); } };
    template <int I> struct Id<Many<I>> { static string name() { return J(I); } };
    struct Which { template <typename X> string operator()(const X&) const { return "\"" + Id<X>::name() + "\""; } };
    // who claims to hold something
    template <std::size_t I> static void by_type(V& o, const V& c, std::vector<long>& hit, std::vector<long>& got, bool probe, Yes)
    {
        using X = T<I>;
        if (gul14::holds_alternative<X>(c)) hit.push_back(I);
        if (auto p = gul14::get_if<X>(&o)) { hit.push_back(I); got.push_back(El<X>::get(*p)); }
        if (auto p = gul14::get_if<X>(&c)) { hit.push_back(I); got.push_back(El<X>::get(*p)); }
        if (probe) try { got.push_back(El<X>::get(gul14::get<X>(o))); hit.push_back(I); } catch (const gul14::bad_variant_access&) {}
        if (probe) try { got.push_back(El<X>::get(gul14::get<X>(c))); hit.push_back(I); } catch (const gul14::bad_variant_access&) {}
    }
    template <std::size_t I> static void by_type(V&, const V&, std::vector<long>&, std::vector<long>&, bool, No) {}
    static int hits(std::size_t i) { int n = 0; pick<N>(i, [&](auto ix) { n = Unique<decltype(ix)::value>::value ? 9 : 4; }); return n; }
    string obs(V& o)
    {
        const V& c = o; std::vector<long> hit, got; string vis = "[]", vt = "[]"; const std::size_t probe = (turn + unsigned(next)) % N;    // which alternative to ask for in vain
        each<N>([&](auto ix) {
            constexpr std::size_t I = decltype(ix)::value; using X = T<I>;
            if (auto p = gul14::get_if<I>(&o)) { hit.push_back(I); got.push_back(El<X>::get(*p)); }
            if (auto p = gul14::get_if<I>(&c)) { hit.push_back(I); got.push_back(El<X>::get(*p)); }
            const bool ask = I == probe || o.index() == I;
            if (ask) try { got.push_back(El<X>::get(gul14::get<I>(o))); hit.push_back(I); } catch (const gul14::bad_variant_access&) {}
            if (ask) try { got.push_back(El<X>::get(gul14::get<I>(c))); hit.push_back(I); } catch (const gul14::bad_variant_access&) {}
            by_type<I>(o, c, hit, got, ask, Unique<I>{});
        });
        V* null = nullptr; if (gul14::get_if<0>(null)) hit.push_back(-9);
        try { string a = "[" + J(gul14::visit(Look{}, o)) + "," + J(gul14::visit(Look{}, c)) + "]"; vis = a; string b = "[" + gul14::visit(Which{}, o) + "," + gul14::visit(Which{}, c) + "]"; vt = b; } catch (const gul14::bad_variant_access&) {}
        const long i = c.valueless_by_exception() ? -1 : long(o.index());
        return "{\"i\":" + J(i) + ",\"np\":" + B(o.index() == gul14::variant_npos) + ",\"v\":" + J(got.empty() ? 0 : got[0]) + ",\"nh\":" + J(i < 0 ? 0 : hits(std::size_t(i))) + ",\"hit\":" + list(hit) + ",\"got\":" + list(got) + ",\"vis\":" + vis + ",\"vt\":" + vt + "}";
    }
    string both() { Quiet q; return "[" + obs(*v[1]) + "," + obs(*v[2]) + "]"; }
    struct Look2 { template <typename X, typename Y> string operator()(const X& x, const Y& y) const { return J(El<X>::get(x)) + "," + J(El<Y>::get(y)); } };
    struct Look3 { template <typename X, typename Y, typename Z> string operator()(const X& x, const Y& y, const Z& z) const { return J(El<X>::get(x)) + "," + J(El<Y>::get(y)) + "," + J(El<Z>::get(z)); } };
    template <typename F> static string guarded(F f) { try { return "[" + f() + "]"; } catch (const gul14::bad_variant_access&) { return "[]"; } }
    static string twos(V& a, V& b, Yes) { const V& ca = a; const V& cb = b; return guarded([&] { return gul14::visit(Look2{}, a, b); }) + "," + guarded([&] { return gul14::visit(Look2{}, cb, a); }) + "," + guarded([&] { return gul14::visit(Look2{}, std::move(ca), std::move(b)); }); }
    struct Dup { template <typename X, typename Y> long operator()(const X& x, const Y& y) const { return long(El<X>::get(x)) * 100000 + El<Y>::get(y); } };
    static string twos(V& a, V& b, No)
    {
        auto f = [](const V& p, const V& q) { return guarded([&] { long z = gul14::visit(Dup{}, p, q); long y = z % 100000; if (y > 50000) y -= 100000; if (y < -50000) y += 100000; return J((z - y) / 100000) + "," + J(y); }); };
        return f(a, b) + "," + f(b, a) + "," + f(a, b);
    }
    static string threes(V& a, V& b, Yes) { return guarded([&] { return gul14::visit(Look3{}, a, static_cast<const V&>(b), std::move(a)); }); }
    static string threes(V& a, V& b, No) { return guarded([&] { if (b.valueless_by_exception()) gul14::visit(Look{}, b); return J(gul14::visit(Look{}, a)) + "," + J(gul14::visit(Look{}, b)) + "," + J(gul14::visit(Look{}, a)); }); }
    static string hashes(const V& a, const V& b, Yes) { std::hash<V> h; return "[" + B(h(a) == h(b)) + "," + B(h(a) == h(V(a))) + "]"; }
    static string hashes(const V&, const V&, No) { return "[]"; }
    template <std::size_t I> struct Op {       // operations that name alternative I
        using X = T<I>; using E = El<X>; using U = Unique<I>;
        template <typename Z = X> static auto emp(V& o, int val, No) -> string { auto& r = o.template emplace<I>(E::raw(val)); Quiet q; return J(gul14::get_if<I>(&o) == &r) + "," + J(E::get(r)); }
        template <typename Z = X> static auto emp(V& o, int, Yes) -> string { auto& r = o.template emplace<I>(); return J(gul14::get_if<I>(&o) == &r) + ",0"; }
        static string empt(V& o, int val, Yes, No) { auto& r = o.template emplace<X>(E::raw(val)); Quiet q; return J(gul14::get_if<I>(&o) == &r) + "," + J(E::get(r)); }
        static string empt(V& o, int val, No, No) { return emp(o, val, No{}); }
        template <typename A> static string empt(V& o, int val, A, Yes) { return emp(o, val, Yes{}); }
        static V* newi(void* at, int val, No) { return ::new (at) V(gul14::in_place_index_t<I>{}, E::raw(val)); }
        static V* newi(void* at, int, Yes) { return ::new (at) V(gul14::in_place_index_t<I>{}); }
        template <typename M> static V* newt(void* at, int val, No, M m) { return newi(at, val, m); }
        static V* newt(void* at, int val, Yes, No) { return ::new (at) V(gul14::in_place_type_t<X>{}, E::raw(val)); }
        static V* newt(void* at, int, Yes, Yes) { return ::new (at) V(gul14::in_place_type_t<X>{}); }
        template <typename C> static void convert(int op, V& o, X& arg, void* at, V*& fresh, string& r, Yes, C c)
        {
            if (op == SETM) r = J(&(o = std::move(arg)) == &o); else if (op == NEWM) fresh = ::new (at) V(std::move(arg)); else copyconvert(op, o, arg, at, fresh, r, c);
        }
        template <typename C> static void convert(int, V&, X&, void*, V*&, string&, No, C) {}
        static void copyconvert(int op, V& o, const X& arg, void* at, V*& fresh, string& r, Yes) { if (op == SETC) r = J(&(o = arg) == &o); else fresh = ::new (at) V(arg); }
        static void copyconvert(int, V&, const X&, void*, V*&, string&, No) {}
        // made from a list and a value: the two add up
        static string listed(int op, V& o, int val, void* at, V*& fresh, Yes, Yes)
        {
            if (op == EMPTL) { auto& r = o.template emplace<X>({ Seed{ 2 }, Seed{ 5 } }, val - 7); Quiet q; return J(gul14::get_if<I>(&o) == &r) + "," + J(E::get(r)); }
            if (op == NEWTL) { fresh = ::new (at) V(gul14::in_place_type_t<X>{}, { Seed{ 2 }, Seed{ 5 } }, val - 7); return ""; }
            return listed(op, o, val, at, fresh, Yes{}, No{});
        }
        static string listed(int op, V& o, int val, void* at, V*& fresh, Yes, No)
        {
            if (op == EMPIL) { auto& r = o.template emplace<I>({ Seed{ 2 }, Seed{ 5 } }, val - 7); Quiet q; return J(gul14::get_if<I>(&o) == &r) + "," + J(E::get(r)); }
            fresh = ::new (at) V(gul14::in_place_index_t<I>{}, { Seed{ 2 }, Seed{ 5 } }, val - 7); return "";
        }
        template <typename Z> static string listed(int, V&, int, void*, V*&, No, Z) { return ""; }
        static void bomb(V& o, Yes) { o.template emplace<I>(Bomb{}); }
        static void bomb(V&, No) {}
    };
    void copying(int op, V& o, const V& w, void* at, V*& fresh, string& r, Yes)
    {
        switch (op) { case COPYA: r = J(&(o = w) == &o); break; case COPYC: fresh = ::new (at) V(w); break; default: { auto& s = o; o = static_cast<const V&>(s); } }
    }
    void copying(int, V&, const V&, void*, V*&, string&, No) {}
    struct Put { int val; template <typename X> void operator()(X& x) const { Quiet q; x = El<X>::make(val); } };
    struct Grab { string& r; template <typename X> void operator()(X&& x) const { std::decay_t<X> z = std::forward<X>(x); Quiet q; r = J(El<std::decay_t<X>>::get(z)); } };
    bool step(int code, int x, long k)
    {
        threw = false; turn++; V& o = *v[x]; V& w = *v[3 - x]; string r; const bool odd = turn % 2;
        const bool named = code < NALTOPS * Set::n; const int op = named ? code / Set::n : code - NALTOPS * Set::n, alt = named ? Set::at(code % Set::n) : 0;
        int val = ++next; if (turn % 3 == 0 && !w.valueless_by_exception()) { Quiet q; val = gul14::visit(Look{}, w) + int(turn % 4) - 1; if (val < 1) val = next; }
        bool unique = false, bombable = false, tracked = false, copyable = false, unit = false;
        pick<N>(std::size_t(alt), [&](auto ix) { constexpr std::size_t I = decltype(ix)::value; unique = Unique<I>::value; bombable = Bombable<I>::value; copyable = El<T<I>>::copyable; unit = El<T<I>>::kind == 'U'; tracked = El<T<I>>::tracked; });
        if (named) {
            if (!unique && (op == SETC || op == SETM || op == NEWC || op == NEWM || op == EMPT || op == NEWT || op == EMPTL || op == NEWTL)) return false;
            if (!tracked && op >= EMPIL) return false;
            if (!copyable && (op == SETC || op == NEWC)) return false;
            if (!bombable && op == BOMB) return false;
            if (unit) val = 0;
        } else {
            if (!Copyable::value && (op == COPYA || op == COPYC || op == SELF)) return false;
            if ((op == VWRITE) && !o.valueless_by_exception() && o.index() < N) { char kd[] = { El<Ts>::kind... }; if (kd[o.index()] == 'U') val = 0; }
        }
        const char* name = named ? NAME[op] : NAME2[op];
        rec.note(string("variant with ") + J(long(N)) + " alternatives: " + name + " " + J(alt) + " on a variant with alternative " + J(long(o.index())) + ", the other one with " + J(long(w.index())) + ", fault in step " + J(k));
        int ag = val;
        {
            void* at = ::operator new(sizeof(V)); V* fresh = nullptr; R.errs = 0; R.thrown.clear();
            auto arm = [&] { R.fuel = k; R.armed = k > 0; };
            try {
                if (named) pick<N>(std::size_t(alt), [&](auto ix) {
                    constexpr std::size_t I = decltype(ix)::value; using X = T<I>; using P = Op<I>; using Unit = typename std::is_same<X, gul14::monostate>::type;
                    switch (op) {
                    case EMPI: arm(); r = P::emp(o, val, Unit{}); break; case EMPT: arm(); r = P::empt(o, val, Unique<I>{}, Unit{}); break;
                    case NEWI: arm(); fresh = P::newi(at, val, Unit{}); break; case NEWT: arm(); fresh = P::newt(at, val, Unique<I>{}, Unit{}); break;
                    case EMPIL: case EMPTL: case NEWIL: case NEWTL: arm(); r = P::listed(op, o, val, at, fresh, std::integral_constant<bool, El<X>::tracked>{}, Unique<I>{}); break;
                    case BOMB: R.thrown = "bomb"; P::bomb(o, Bombable<I>{}); R.thrown.clear(); break;
                    case WRITE: try { auto& t = odd ? gul14::get<I>(o) : *(gul14::get_if<I>(&o) ? gul14::get_if<I>(&o) : &gul14::get<I>(o)); { Quiet q; t = El<X>::make(val); } r = "1"; } catch (const gul14::bad_variant_access&) { r = "0"; } break;
                    case TAKE: arm(); try { X t = gul14::get<I>(std::move(o)); Quiet q; r = "1," + J(El<X>::get(t)); } catch (const gul14::bad_variant_access&) { r = "0,0"; } break;
                    default: {
                        X arg = El<X>::make(val); struct After { X& a; int& g; ~After() { R.armed = false; g = El<X>::get(a); } } after{ arg, ag };
                        arm(); P::convert(op, o, arg, at, fresh, r, Unique<I>{}, std::integral_constant<bool, El<X>::copyable>{});
                    } }
                });
                else { arm(); switch (op) {
                    case NEWD: fresh = ::new (at) V(); break;
                    case COPYA: case COPYC: case SELF: copying(op, o, w, at, fresh, r, Copyable{}); break;
                    case MOVEA: r = J(&(o = std::move(w)) == &o); break; case MOVEC: fresh = ::new (at) V(std::move(w)); break;
                    case SWAP: o.swap(w); break; case FSWAP: { using std::swap; swap(o, w); } break; case SELFSWAP: { auto& s = o; o.swap(s); } break;
                    case VWRITE: try { gul14::visit(Put{ val }, o); r = "1"; } catch (const gul14::bad_variant_access&) { r = "0"; } break;
                    case VTAKE: try { gul14::visit(Grab{ r }, std::move(o)); } catch (const gul14::bad_variant_access&) { r = "-77"; } break;
                    default: break;
                    } }
            } catch (const Boom&) { threw = true; }
            R.armed = false;
            if (fresh) v[x].reset(fresh); else ::operator delete(at);
        }
        const int errs = R.errs, live = int(R.live.size()); string ob = both(); Quiet q; V& a = *v[1]; V& b = *v[2]; const V& ca = a; const V& cb = b;
        if (!ev.empty()) ev += ',';
        ev += string("{\"o\":\"") + name + "\",\"x\":" + J(x) + ",\"a\":" + J(alt) + ",\"v\":" + J(val) + ",\"ag\":" + J(ag) + ",\"r\":[" + r + "],\"th\":\"" + R.thrown + "\",\"live\":" + J(live) + ",\"errs\":" + J(errs)
            + ",\"cm\":[" + B(ca == cb) + "," + B(ca != cb) + "," + B(ca < cb) + "," + B(ca <= cb) + "," + B(ca > cb) + "," + B(ca >= cb) + "],\"hs\":" + hashes(a, b, std::integral_constant<bool, HashIt>{})
            + ",\"v2\":[" + twos(a, b, std::integral_constant<bool, (N < 8)>{}) + "],\"v3\":" + threes(a, b, std::integral_constant<bool, (N < 8)>{}) + ",\"ob\":" + ob + "}";
        return true;
    }
    void finish() { R.errs = 0; v[1].reset(); v[2].reset(); ev += ",{\"o\":\"end\",\"live\":" + J(long(R.live.size())) + ",\"errs\":" + J(R.errs) + "}"; }
};
template <int N> struct AllOf { static int at(int i) { return i; } static constexpr int n = N; };
template <typename Set, typename S> struct Big;
template <typename Set, int... I> struct Big<Set, std::integer_sequence<int, I...>> { using type = Run<Set, false, Many<I>...>; };

#ifdef PICK
// ---------------------------------------------------------------- which alternative a value of another type is put into
template <typename T> struct Nm;
#define TYPE(T, N, V) template <> struct Nm<T> { static const char* name() { return N; } static T sample() { return V; } };
TYPE(bool, "bool", true) TYPE(char, "char", 'A') TYPE(short, "short", 7) TYPE(int, "int", 7) TYPE(long, "long", 7) TYPE(unsigned, "unsigned", 7) TYPE(float, "float", 7) TYPE(double, "double", 7) TYPE(const char*, "cstr", "seven") TYPE(std::string, "string", "seven")
struct SameAs {
    template <typename S, typename X, std::enable_if_t<std::is_arithmetic<S>::value && std::is_arithmetic<X>::value>* = nullptr> static bool eq(const S& s, const X& x) { return double(s) == double(x); }
    template <typename S, typename X, std::enable_if_t<!(std::is_arithmetic<S>::value && std::is_arithmetic<X>::value)>* = nullptr> static bool eq(const S& s, const X& x) { return eqs(s, x); }
    static bool eqs(const string& s, const string& x) { return s == x; }
    static bool eqs(const char* s, const string& x) { return s == x; }
    template <typename S, typename X> static bool eqs(const S&, const X&) { return false; }
};
template <typename S, typename V> string put_in(std::true_type)
{
    S s = Nm<S>::sample(); const S cs = s; V a(s); V b(cs); V c(Nm<S>::sample()); string r = J(long(a.index())) + "," + J(long(b.index())) + "," + J(long(c.index())); bool same = true; long got = -1;
    for (std::size_t i = 0; i < 3; ++i) { V d(a); pick<3>(i, [&](auto ix) { d.template emplace<decltype(ix)::value>(); }); if (i % 2) d = s; else d = Nm<S>::sample(); if (i == 0 || got == long(d.index())) got = long(d.index()); else got = -2; same = same && gul14::visit([&](auto const& x) { return SameAs::eq(s, x); }, d); }
    same = same && gul14::visit([&](auto const& x) { return SameAs::eq(s, x); }, a) && gul14::visit([&](auto const& x) { return SameAs::eq(s, x); }, b);
    return "\"i\":[" + r + "," + J(got) + "],\"same\":" + B(same);
}
template <typename S, typename V> string put_in(std::false_type) { return "\"i\":[],\"same\":true"; }
template <typename S, typename A, typename C, typename D> void choose(Sink& out, Rec& rec)
{
    using V = gul14::variant<A, C, D>; rec.note(string("variant<") + Nm<A>::name() + "," + Nm<C>::name() + "," + Nm<D>::name() + "> from " + Nm<S>::name()); using Can = std::integral_constant<bool, std::is_constructible<V, S&>::value && std::is_assignable<V&, S>::value>;
    const bool some = std::is_constructible<V, S&>::value || std::is_constructible<V, S>::value || std::is_assignable<V&, S>::value || std::is_assignable<V&, S&>::value || std::is_convertible<S, V>::value;
    out.put("\"k\":[]", "[]", string("{\"o\":\"pick\",\"s\":\"") + Nm<S>::name() + "\",\"t\":[\"" + Nm<A>::name() + "\",\"" + Nm<C>::name() + "\",\"" + Nm<D>::name() + "\"],\"can\":" + B(Can::value) + ",\"some\":" + B(some) + "," + put_in<S, V>(Can{}) + "}");
}
template <typename A, typename C, typename D> void from_each(Sink& out, Rec& rec)
{
    choose<bool, A, C, D>(out, rec); choose<char, A, C, D>(out, rec); choose<short, A, C, D>(out, rec); choose<int, A, C, D>(out, rec); choose<long, A, C, D>(out, rec); choose<unsigned, A, C, D>(out, rec); choose<float, A, C, D>(out, rec); choose<double, A, C, D>(out, rec); choose<const char*, A, C, D>(out, rec); choose<std::string, A, C, D>(out, rec);
}
static void choices(Sink& out, Rec& rec)
{
    using std::string;
    from_each<bool, int, string>(out, rec); from_each<string, bool, double>(out, rec); from_each<short, long, float>(out, rec); from_each<int, double, string>(out, rec); from_each<double, float, long>(out, rec);
    from_each<unsigned, int, bool>(out, rec); from_each<long, unsigned, short>(out, rec); from_each<float, string, unsigned>(out, rec); from_each<long, double, bool>(out, rec); from_each<string, short, int>(out, rec);
    from_each<bool, short, unsigned>(out, rec); from_each<double, int, short>(out, rec); from_each<float, long, int>(out, rec);
}
#endif

int main(int argc, char** argv)
{
    Args a = parse_args(argc, argv); Sink out{ std::fopen(a.out.c_str(), "w") }; if (!out.f) return 3;
    Rec rec("/dev/null", a.last); G g(a.seed); const bool th = a.thorough(); const unsigned rnd = th ? 5000 : 500;
#ifdef PICK
    choices(out, rec); (void)g; (void)th; (void)rnd;
#elif !defined MANY
#if PART == 1
        drive<Run<Alternatives<0, 1, 2, 3>, false, Tr<'N'>, Tr<'T'>, int, Tr<'C'>>>(rec, out, g, th, rnd, true, 30);
#elif PART == 2
        drive<Run<Alternatives<0, 1, 2>, false, Tr<'M'>, Tr<'X'>, int>>(rec, out, g, th, rnd, true, 50);
#elif PART == 3
        drive<Run<Alternatives<0, 1, 2>, false, int, int, Tr<'N'>>>(rec, out, g, th, rnd, true, 50);
#else
        drive<Run<Alternatives<0, 1, 2, 3>, true, gul14::monostate, int, long, std::string>>(rec, out, g, th, rnd, false, 30);
#endif
#else
    {   // every alternative of many: both variants with it, and one of them without a value
        using Every = typename Big<AllOf<36>, std::make_integer_sequence<int, 36>>::type; constexpr int S = Every::STATES, N0 = NALTOPS * 36;
        auto play = [&](int init, std::vector<int> ops) {
            string i, ev, head;
            { Every r(rec); { Quiet q; r.start(init); } i = r.both(); for (int op : ops) r.step(op, 1, 0); r.finish(); ev = r.ev; head = r.head(); }
            out.put(head, i, ev);
        };
        for (int alt = 0; alt < 36; ++alt) for (int other : { alt, (alt * 7 + 3) % 36, 36 })
            for (int op : { N0 + NEWD, N0 + COPYA, N0 + MOVEA, N0 + COPYC, N0 + MOVEC, N0 + SWAP, N0 + SELF, N0 + VWRITE, N0 + VTAKE, N0 + LOOK, EMPI * 36 + alt, EMPT * 36 + alt, SETC * 36 + alt, SETM * 36 + alt, NEWC * 36 + alt, NEWT * 36 + alt, TAKE * 36 + alt, WRITE * 36 + alt, BOMB * 36 + alt }) {
                if (th || other == alt || g.pc(30)) { play(alt + S * other, { op }); play(other + S * alt, { op, N0 + LOOK }); }
            }
    }
    drive<typename Big<Alternatives<0, 1, 30, 31, 32, 33, 35>, std::make_integer_sequence<int, 36>>::type>(rec, out, g, false, rnd, th);
#endif
    std::fprintf(stderr, "%lu histories\n", out.hist);
    std::fclose(out.f); return 0;
}
