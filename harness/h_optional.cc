// Records histories of gul14::optional: operations on two optionals of tracked elements with injected faults.
// usage: h_optional OUT LAST TIER SEED PROFILE
#include "hist.h"
#include "gul14/optional.h"
#include <memory>
using std::string;
#define CMP(OP) template <char K> bool operator OP(const Tr<K>& a, const Tr<K>& b) { used(&a); used(&b); return a.v OP b.v; }
CMP(!=) CMP(<) CMP(<=) CMP(>) CMP(>=)

template <typename T> int member(const T& t) { return El<T>::get(t); }
template <typename T> string six(const T& a, const T& b) { return B(a == b) + "," + B(a != b) + "," + B(a < b) + "," + B(a <= b) + "," + B(a > b) + "," + B(a >= b); }
template <typename A, typename C> string both_ways(const A& a, const C& c)
{
    return "[" + B(a == c) + "," + B(c == a) + "," + B(a != c) + "," + B(c != a) + "," + B(a < c) + "," + B(c < a) + "," + B(a <= c) + "," + B(c <= a) + "," + B(a > c) + "," + B(c > a) + "," + B(a >= c) + "," + B(c >= a) + "]";
}

enum { NUL, RESET, SETV, SETM, EMPL, EMPLV, COPYA, MOVEA, COPYC, MOVEC, NEWV, NEWM, NEWN, NEWD, NEWIP, MAKE, SWAP, FSWAP, SELF, SELFSWAP, VALOR, VALORM, TAKE, WRITE, BRACES, EMPLIL, NEWIL, LOOK, NOPS };
static const char* NAME[] = { "null", "reset", "setv", "setm", "empl", "emplv", "copya", "movea", "copyc", "movec", "newv", "newm", "newn", "newd", "newip", "make", "swap", "fswap", "self", "selfswap", "valor", "valorm", "take", "write", "braces", "emplil", "newil", "look" };

template <typename T> struct Run {
    using O = gul14::optional<T>; using E = El<T>; using Copyable = std::integral_constant<bool, E::copyable>;
    static constexpr int OPS = NOPS, INITS = 4;
    std::unique_ptr<O> v[3]; Rec& rec; string ev; bool threw = false; int next = 10; unsigned turn = 0;
    explicit Run(Rec& r) : rec(r) {}
    string head() const { return string("\"kind\":\"") + E::kind + "\""; }
    void start(int init) { for (int x = 1; x < 3; ++x) { v[x] = std::make_unique<O>(); if (init >> (x - 1) & 1) v[x]->emplace(E::raw(++next)); } }
    string obs(O& o)
    {
        const O& c = o; int bad = 0; string ac = "[";
        if (o) ac += J(E::get(*o)) + "," + J(E::get(*c)) + "," + J(E::get(*o.operator->())) + "," + J(E::get(*c.operator->())) + "," + J(E::get(o.value())) + "," + J(E::get(c.value()));
        else { try { (void)o.value(); } catch (const gul14::bad_optional_access&) { ++bad; } try { (void)c.value(); } catch (const gul14::bad_optional_access&) { ++bad; } }
        return "{\"e\":" + B(o.has_value()) + ",\"b\":" + B(bool(c)) + ",\"v\":" + (o ? J(E::get(*o)) : string("0")) + ",\"ac\":" + ac + "],\"bad\":" + J(bad) + "}";
    }
    string both() { Quiet q; return "[" + obs(*v[1]) + "," + obs(*v[2]) + "]"; }
    static string hashes(const gul14::optional<int>& a, const gul14::optional<int>& b) { std::hash<gul14::optional<int>> h; return "[" + B(h(a) == h(b)) + "," + B(h(a) == h(gul14::optional<int>(a))) + "," + B(!a || h(a) == std::hash<int>{}(*a)) + "]"; }
    template <typename X> static string hashes(const X&, const X&) { return "[true,true,true]"; }
    // operations that copy
    bool copying(O& o, O& w, int op, const T& arg, void* at, O*& fresh, string& r, std::true_type)
    {
        switch (op) {
        case SETV: r = J(&(o = arg) == &o); return true; case COPYA: r = J(&(o = static_cast<const O&>(w)) == &o); return true;
        case COPYC: fresh = ::new (at) O(static_cast<const O&>(w)); return true; case NEWV: fresh = ::new (at) O(arg); return true;
        case SELF: { auto& s = o; o = static_cast<const O&>(s); } return true;
        case VALOR: { T t = static_cast<const O&>(o).value_or(arg); Quiet q; r = J(E::get(t)); } return true;
        default: return false;
        }
    }
    bool copying(O&, O&, int, const T&, void*, O*&, string&, std::false_type) { return false; }
    // made from a list and a value: the two add up
    void listed(O& o, int op, int val, void* at, O*& fresh, std::true_type) { if (op == EMPLIL) o.emplace({ Seed{ 2 }, Seed{ 5 } }, val - 7); else if (val % 2) fresh = ::new (at) O(gul14::in_place_t{}, { Seed{ 2 }, Seed{ 5 } }, val - 7); else fresh = ::new (at) O(gul14::in_place_t{}, { Seed{ val } }); }
    void listed(O&, int, int, void*, O*&, std::false_type) {}
    bool step(int op, int x, long k)
    {
        threw = false; O& o = *v[x]; O& w = *v[3 - x]; string r; int val = 0, after = 0; turn++;
        if (!E::copyable && (op == SETV || op == COPYA || op == COPYC || op == NEWV || op == SELF || op == VALOR)) return false;
        if (op == WRITE && !o) return false;
        if ((op == EMPLIL || op == NEWIL) && !E::tracked) return false;
        rec.note(string("optional<") + E::kind + ">: " + NAME[op] + " on " + (o ? "an engaged" : "an empty") + " optional, the other one " + (w ? "engaged" : "empty") + ", fault in step " + J(k));
        int errs, live;
        {
            val = ++next; T arg = E::make(val); auto raw = E::raw(val); void* at = ::operator new(sizeof(O)); O* fresh = nullptr;
            R.errs = 0; R.thrown.clear(); R.fuel = k; R.armed = k > 0;
            try {
                if (!copying(o, w, op, arg, at, fresh, r, Copyable{})) switch (op) {
                case NUL: r = J(&(o = gul14::nullopt) == &o); break; case RESET: o.reset(); break; case BRACES: o = {}; break;
                case SETM: r = J(&(o = std::move(arg)) == &o); break; case EMPL: o.emplace(raw); break; case EMPLV: o.emplace(std::move(arg)); break;
                case MOVEA: r = J(&(o = std::move(w)) == &o); break; case MOVEC: fresh = ::new (at) O(std::move(w)); break;
                case NEWM: fresh = ::new (at) O(std::move(arg)); break; case NEWN: fresh = ::new (at) O(gul14::nullopt); break; case NEWD: fresh = ::new (at) O(); break;
                case NEWIP: fresh = ::new (at) O(gul14::in_place_t{}, raw); break;
                case MAKE: { auto m = gul14::make_optional(std::move(arg)); Quiet q; fresh = ::new (at) O(std::move(m)); } break;
                case EMPLIL: case NEWIL: listed(o, op, val, at, fresh, std::integral_constant<bool, E::tracked>{}); break;
                case SWAP: o.swap(w); break; case FSWAP: { using std::swap; swap(o, w); } break; case SELFSWAP: { auto& s = o; o.swap(s); } break;
                case VALORM: { T t = std::move(o).value_or(std::move(arg)); Quiet q; r = J(E::get(t)); } break;
                case TAKE: try { if (turn % 2 && o) { T t = *std::move(o); Quiet q; r = J(E::get(t)); } else { T t = std::move(o).value(); Quiet q; r = J(E::get(t)); } } catch (const gul14::bad_optional_access&) { r = "-77"; } break;
                case WRITE: { Quiet q; if (turn % 3 == 0) *o = E::make(val); else if (turn % 3 == 1) o.value() = E::make(val); else *o.operator->() = E::make(val); } break;
                default: break;
                }
            } catch (const Boom&) { threw = true; }
            R.armed = false; after = E::get(arg);
            if (fresh) v[x].reset(fresh); else ::operator delete(at);
        }
        errs = R.errs; live = E::tracked ? int(R.live.size()) : int(bool(*v[1])) + int(bool(*v[2]));
        string ob = both(); Quiet q; T c = E::make(turn % 2 ? val : (*v[3 - x] ? E::get(**v[3 - x]) : val)); const O& a = *v[1]; const O& b = *v[2]; const O& me = *v[x];
        if (!ev.empty()) ev += ',';
        ev += string("{\"o\":\"") + NAME[op] + "\",\"x\":" + J(x) + ",\"v\":" + J(val) + ",\"ag\":" + J(after) + ",\"r\":[" + r + "],\"th\":\"" + R.thrown + "\",\"live\":" + J(live) + ",\"errs\":" + J(errs)
            + ",\"cm\":[" + six(a, b) + "],\"cn\":" + both_ways(me, gul14::nullopt) + ",\"c\":" + J(E::get(c)) + ",\"cv\":" + both_ways(me, c) + ",\"hs\":" + hashes(a, b) + ",\"ob\":" + ob + "}";
        return true;
    }
    void finish()
    {
        R.errs = 0; v[1].reset(); v[2].reset(); ev += ",{\"o\":\"end\",\"live\":" + J(long(R.live.size())) + ",\"errs\":" + J(R.errs) + "}";
    }
};
// ---------------------------------------------------------------- optional references
enum { R_NEW, R_NEWIP, R_COPYC, R_ASSIGN, R_MOVEA, R_NULL, R_RESET, R_EMPL, R_SWAP, R_FSWAP, R_WRITE, R_VALOR, R_MAKE, R_SELF, R_LOOK, R_NOPS };
static const char* RNAME[] = { "rnew", "rnewip", "rcopyc", "rassign", "rmovea", "rnull", "rreset", "rempl", "rswap", "rfswap", "rwrite", "rvalor", "rmake", "rself", "rlook" };
// (an optional reference must find the address of its object even if operator& is something else)
struct Cell { int v; Cell* operator&() { return this + 1; } const Cell* operator&() const { return this + 1; } };
template <typename O, typename A, typename = void> struct Accepts : std::false_type {};
template <typename O, typename A> struct Accepts<O, A, decltype(std::declval<O&>().emplace(std::declval<A>()))> : std::true_type {};
struct RRun {
    using O = gul14::optional<int&>; static constexpr int OPS = R_NOPS, INITS = 9;
    int cell[4] = { 0, 1, 2, 3 }; O v[3]; Rec& rec; string ev; bool threw = false; int next = 10; unsigned turn = 0;
    explicit RRun(Rec& r) : rec(r) {}
    string head() const { return "\"kind\":\"R\""; }
    void start(int init) { if (init % 3) v[1].emplace(cell[init % 3]); if (init / 3) v[2].emplace(cell[init / 3]); }
    string obs(O& o)
    {
        const O& c = o; int bad = 0; string ac = "[";
        auto at = [this](const int& r) { return J(&r - cell); };
        if (o) ac += at(*o) + "," + at(*c) + "," + at(*o.operator->()) + "," + at(c.value()) + "," + at(o.value());
        else try { (void)o.value(); } catch (const gul14::bad_optional_access&) { ++bad; }
        return "{\"e\":" + B(o.has_value()) + ",\"b\":" + B(bool(c)) + ",\"p\":" + (o ? J(&*o - cell) : string("0")) + ",\"ac\":" + ac + "],\"bad\":" + J(bad) + "}";
    }
    string both() { return "{\"o\":[" + obs(v[1]) + "," + obs(v[2]) + "],\"m\":[" + J(cell[1]) + "," + J(cell[2]) + "," + J(cell[3]) + "]}"; }
    bool step(int op, int x, long)
    {
        threw = false; turn++; O& o = v[x]; O& w = v[3 - x]; int i = 1 + int(turn + unsigned(next)) % 3, val = ++next; string r;
        rec.note(string("optional<int&>: ") + RNAME[op]);
        switch (op) {
        case R_NEW: { O n(cell[i]); o = n; } break; case R_NEWIP: { O n(gul14::in_place_t{}, cell[i]); o = n; } break; case R_COPYC: { O n(w); o.reset(); o = n; } break;
        case R_ASSIGN: o = w; break; case R_MOVEA: o = std::move(w); break; case R_NULL: o = gul14::nullopt; break; case R_RESET: o.reset(); break; case R_EMPL: o.emplace(cell[i]); break;
        case R_SWAP: o.swap(w); break; case R_FSWAP: { using std::swap; swap(o, w); } break; case R_WRITE: if (!o) return false; if (turn % 2) *o = val; else o.value() = val; break;
        case R_VALOR: r = J(o.value_or(val)); break; case R_MAKE: { auto n = gul14::make_optional(std::ref(cell[i])); o = n; } break; case R_SELF: { auto& s = o; o = s; } break;
        default: break;
        }
        if (!ev.empty()) ev += ',';
        gul14::optional<const int&> k; if (v[x]) k.emplace(*v[x]); gul14::optional<Cell&> p; gul14::optional<const Cell&> pc; gul14::optional<Cell> in; Cell cells[4] = { { 0 }, { 1 }, { 2 }, { 3 } }; string am = "[";
        if (v[x]) {
            Cell& z = cells[&*v[x] - cell]; const Cell& zc = z; if (turn % 2) p.emplace(z); else { gul14::optional<Cell&> n(z); p = n; } if (turn % 3) pc.emplace(zc); else { gul14::optional<const Cell&> n(gul14::in_place_t{}, zc); pc = n; } in.emplace(z); const auto& cin = in;
            auto at = [&cells](const Cell& r) { return J(std::addressof(r) - cells); };
            am += at(*p) + "," + at(p.value()) + "," + at(*p.operator->()) + "," + at(*pc) + "," + at(*pc.operator->()) + "," + J(in->v) + "," + J(cin->v) + "," + J((*in).v);
        }
        am += "]";
        const O& a = v[1]; const O& b = v[2]; const O& me = v[x]; const int c = turn % 2 ? cell[1] : val;
        ev += string("{\"o\":\"") + RNAME[op] + "\",\"x\":" + J(x) + ",\"i\":" + J(i) + ",\"v\":" + J(val) + ",\"r\":[" + r + "],\"cm\":[" + six(a, b) + "],\"cn\":" + both_ways(me, gul14::nullopt) + ",\"c\":" + J(c) + ",\"cv\":" + both_ways(me, c) + ",\"ck\":" + both_ways(k, c) + ",\"am\":" + am + ",\"tmp\":[" + temporaries() + "],\"ob\":" + both() + "}";
        return true;
    }
    // can a reference be bound to a temporary?
    static string temporaries()
    {
        using K = gul14::optional<const int&>;
        return B(Accepts<K, int>::value || Accepts<O, int>::value) + "," + B(std::is_constructible<K, int>::value || std::is_constructible<O, int>::value) + "," + B(std::is_constructible<K, gul14::in_place_t, int>::value) + "," + B(std::is_assignable<K&, int>::value || std::is_assignable<O&, int>::value);
    }
    void finish() {}
};

int main(int argc, char** argv)
{
    Args a = parse_args(argc, argv); Sink out{ std::fopen(a.out.c_str(), "w") }; if (!out.f) return 3;
    Rec rec("/dev/null", a.last); G g(a.seed); const bool th = a.thorough(); const unsigned rnd = th ? 6000 : 700;
    drive<Run<Tr<'N'>>>(rec, out, g, true, rnd, true);
    drive<Run<Tr<'T'>>>(rec, out, g, th, rnd, true);
    drive<Run<Tr<'M'>>>(rec, out, g, th, rnd, true);
    drive<Run<Tr<'X'>>>(rec, out, g, th, rnd, true);
    drive<Run<Tr<'C'>>>(rec, out, g, th, rnd, true);
    drive<Run<int>>(rec, out, g, true, rnd, false);
    drive<RRun>(rec, out, g, true, rnd, false);
    std::fprintf(stderr, "%lu histories\n", out.hist);
    std::fclose(out.f); return 0;
}
