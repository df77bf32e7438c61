// Records histories of SmallVector: operations on two vectors of instrumented elements, with faults injected into
// the k-th element operation or allocation, and everything that can be observed of both vectors after each operation.
// usage: h_smallvec OUT LAST TIER SEED PROFILE      profile: seq | life | value
#include "rec.h"
#include "track.h"
#include "gul14/SmallVector.h"
#include <iterator>
#include <list>
#include <stdexcept>
using std::string; using std::vector;

constexpr bool ALL_RANGES = true;
// an iterator that can pass over its range only once
template <typename T> struct Once {
    using iterator_category = std::input_iterator_tag; using value_type = T; using difference_type = std::ptrdiff_t; using pointer = const T*; using reference = const T&;
    const vector<T>* src; std::size_t* pos;
    bool done() const { return !src || *pos >= src->size(); }
    reference operator*() const { return (*src)[*pos]; } pointer operator->() const { return &(*src)[*pos]; }
    Once& operator++() { ++*pos; return *this; } Once operator++(int) { auto c = *this; ++*pos; return c; }
    friend bool operator==(const Once& a, const Once& b) { return a.done() == b.done(); } friend bool operator!=(const Once& a, const Once& b) { return !(a == b); }
};

// ---------------------------------------------------------------- operations
enum K { PUSH, PUSHM, EMPLB, INS1, INS1M, EMPL, INSN, INSR, ERASE1, ERASER, POP, CLEAR, RESIZE, RESIZEV, ASSIGNN, ASSIGNR, NEWN, NEWV, NEWR, SET, RESERVE, SHRINK, AT, COPYC, COPYA, MOVEC, MOVEA, SWAP, SELF, SELFM, SELFSWAP, LOOK, NK };
static const char* NAME[] = { "push", "pushm", "emplb", "ins1", "ins1m", "empl", "insn", "insr", "erase1", "eraser", "pop", "clear", "resize", "resizev", "assignn", "assignr", "newn", "newv", "newr", "set", "reserve", "shrink", "at", "copyc", "copya", "movec", "movea", "swap", "self", "selfm", "selfswap", "look" };
struct Op { K k = LOOK; int x = 1, i = 0, n = 0, a = 0, w = 0; };      // vector, position, count, aliased element (from 1), kind of range
static string J(int v) { return std::to_string(v); }
template <typename It> static string list(It a, It b) { string s = "["; for (bool first = true; a != b; ++a, first = false) { if (!first) s += ','; s += J(El<std::decay_t<decltype(*a)>>::get(*a)); } return s + "]"; }

template <typename T, std::size_t N> struct Run {
    using V = gul14::SmallVector<T, N>; using E = El<T>;
    std::unique_ptr<V> v[3]; Rec& rec; string ev; unsigned n_ev = 0; int next = 1; bool threw = false; unsigned turn = 0;
    explicit Run(Rec& r) : rec(r) {}
    template <typename U> static auto rev(const U& c, int) -> decltype(list(c.crbegin(), c.crend())) { return list(c.crbegin(), c.crend()); }
    template <typename U> static string rev(const U&, long) { return "[-1]"; }      // constant vectors cannot be traversed backwards
    string obs(V& b, const void* before)
    {
        const V& c = b; auto raw = reinterpret_cast<const char*>(c.data()), self = reinterpret_cast<const char*>(&c);
        bool in = N > 0 && raw >= self && raw < self + sizeof(V); turn++;
        string s = "{\"q\":["; for (unsigned i = 0; i < c.size(); ++i) { if (i) s += ','; s += J(E::get(i % 2 ? c[i] : b[i])); }
        s += "],\"z\":" + J(int(c.size())) + ",\"c\":" + J(int(c.capacity())) + ",\"ic\":" + J(int(c.inner_capacity())) + ",\"inn\":" + (in ? "true" : "false") + ",\"e\":" + (c.empty() ? "true" : "false");
        s += ",\"f\":" + (turn % 3 == 0 ? list(b.begin(), b.end()) : turn % 3 == 1 ? list(c.begin(), c.end()) : list(c.cbegin(), c.cend()));
        s += ",\"r\":" + (turn % 2 ? list(b.rbegin(), b.rend()) : rev(c, 0));
        s += c.size() ? ",\"fr\":" + J(E::get(turn % 2 ? b.front() : c.front())) + ",\"bk\":" + J(E::get(turn % 2 ? b.back() : c.back())) : string(",\"fr\":0,\"bk\":0");
        s += string(",\"al\":") + (reinterpret_cast<std::uintptr_t>(raw) % alignof(T) == 0 ? "true" : "false") + ",\"same\":" + (c.data() == before ? "true" : "false");
        return s + "}";
    }
    string both(const void* b1, const void* b2) { return "[" + obs(*v[1], b1) + "," + obs(*v[2], b2) + "]"; }
    void fill(int x, int n, int cap) { v[x] = std::make_unique<V>(); if (cap) v[x]->reserve(unsigned(cap)); for (int i = 0; i < n; ++i) v[x]->push_back(E::make(++next)); }

    template <typename Vx, typename P, typename L, typename O> static auto other_range(Vx& b, P pos, L* l, O oa, O ob, std::true_type) { return l ? b.insert(pos, l->begin(), l->end()) : b.insert(pos, oa, ob); }
    template <typename Vx, typename P, typename L, typename O> static auto other_range(Vx& b, P, L*, O, O, std::false_type) { return b.begin(); }
    // ---- operations that need copies
    template <typename Vx> bool copying(Vx& b, const Op& o, T& arg, const vector<T>& src, int& ri, std::true_type)
    {
        auto pos = b.cbegin() + o.i; const T& val = o.a ? static_cast<const Vx&>(b)[unsigned(o.a - 1)] : arg; std::list<T>* lp = nullptr; std::list<T> tmp; if (o.w == 1) { Quiet q; tmp.assign(src.begin(), src.end()); lp = &tmp; }
        std::size_t at = 0; Once<T> oa{ &src, &at }, ob{ nullptr, nullptr };
        switch (o.k) {
        case PUSH: b.push_back(val); return true;
        case EMPLB: if (!o.a) return false; { auto& r = b.emplace_back(val); ri = int(&r - b.data()); } return true;
        case INS1: ri = int(b.insert(pos, val) - b.begin()); return true;
        case EMPL: if (!o.a) return false; ri = int(b.emplace(pos, val) - b.begin()); return true;
        case INSN: ri = int(b.insert(pos, unsigned(o.n), val) - b.begin()); return true;
        case RESIZEV: b.resize(unsigned(o.n), val); return true;
        case ASSIGNN: b.assign(unsigned(o.n), val); return true;
        case INSR: ri = int((o.w == 0 ? b.insert(pos, src.data(), src.data() + src.size()) : (o.w == 1 || o.w == 2) ? other_range(b, pos, lp, oa, ob, std::integral_constant<bool, ALL_RANGES>{})
                            : src.size() == 0 ? b.insert(pos, std::initializer_list<T>{}) : src.size() == 1 ? b.insert(pos, { src[0] }) : src.size() == 2 ? b.insert(pos, { src[0], src[1] }) : b.insert(pos, { src[0], src[1], src[2] })) - b.begin()); return true;
        case ASSIGNR: if (o.w == 0) b.assign(src.data(), src.data() + src.size()); else if (o.w == 1) b.assign(lp->begin(), lp->end()); else if (o.w == 2) b.assign(oa, ob);
            else if (o.i % 2) { if (src.size() == 0) b = std::initializer_list<T>{}; else if (src.size() == 1) b = { src[0] }; else if (src.size() == 2) b = { src[0], src[1] }; else b = { src[0], src[1], src[2] }; }
            else { if (src.size() == 0) b.assign(std::initializer_list<T>{}); else if (src.size() == 1) b.assign({ src[0] }); else if (src.size() == 2) b.assign({ src[0], src[1] }); else b.assign({ src[0], src[1], src[2] }); } return true;
        case COPYA: b = static_cast<const Vx&>(*v[3 - o.x]); return true;
        case SELF: { auto& r = b; b = static_cast<const Vx&>(r); } return true;
        default: return false;
        }
    }
    template <typename Vx> bool copying(Vx&, const Op&, T&, const vector<T>&, int&, std::false_type) { return false; }
    // ---- construction of a vector in its place (the place is allocated before, so that only the vector's own operations count)
    template <typename Vx> bool constructing(void* at, const Op& o, T& arg, const vector<T>& src, std::true_type)
    {
        std::size_t p = 0; Once<T> oa{ &src, &p }, ob{ nullptr, nullptr }; std::list<T> tmp; if (o.k == NEWR && o.w == 1) { Quiet q; tmp.assign(src.begin(), src.end()); }
        switch (o.k) {
        case NEWV: ::new (at) Vx(unsigned(o.n), static_cast<const T&>(arg)); return true;
        case COPYC: ::new (at) Vx(static_cast<const Vx&>(*v[3 - o.x])); return true;
        case NEWR: if (o.w == 0) ::new (at) Vx(src.data(), src.data() + src.size()); else if (o.w == 1) ::new (at) Vx(tmp.begin(), tmp.end()); else if (o.w == 2) ::new (at) Vx(oa, ob);
            else if (src.size() == 0) ::new (at) Vx(std::initializer_list<T>{}); else if (src.size() == 1) ::new (at) Vx({ src[0] }); else if (src.size() == 2) ::new (at) Vx({ src[0], src[1] }); else ::new (at) Vx({ src[0], src[1], src[2] }); return true;
        default: return false;
        }
    }
    template <typename Vx> bool constructing(void*, const Op&, T&, const vector<T>&, std::false_type) { return false; }

    bool permitted(Op& o) const
    {
        const int z = int(v[o.x]->size()); if (o.a > z) return false;
        if (!E::copyable && (o.a || o.k == PUSH || o.k == INS1 || o.k == INSN || o.k == RESIZEV || o.k == ASSIGNN || o.k == INSR || o.k == ASSIGNR || o.k == COPYA || o.k == SELF || o.k == NEWV || o.k == NEWR || o.k == COPYC)) return false;
        if (o.k == INS1 || o.k == INS1M || o.k == EMPL || o.k == INSN || o.k == INSR) return o.i <= z;
        if (o.k == ERASE1 || o.k == SET) return o.i < z;
        if (o.k == ERASER) return o.i <= o.n && o.n <= z;
        if (o.k == POP) return z > 0;
        return true;
    }
    // runs one operation, with a fault in its k-th fallible step if k > 0; false if it is not permitted in the current state
    bool step(Op o, long k)
    {
        if (!permitted(o)) return false;
        // copying vectors whose elements can be copied without exceptions is declared noexcept (and tested to be so): no failing allocation there
        if (k > 0 && std::is_nothrow_copy_constructible<T>::value && (o.k == COPYC || o.k == COPYA)) k = 0;
        constexpr auto C = std::integral_constant<bool, E::copyable>{};
        V& b = *v[o.x]; int val = 0, ri = -1; threw = false; vector<T> src; string vs = "[";
        { string what = string("SmallVector<") + E::kind + "," + J(int(N)) + "> size " + J(int(b.size())) + " capacity " + J(int(b.capacity())) + ": " + NAME[o.k] + " i " + J(o.i) + " n " + J(o.n) + " alias " + J(o.a) + " range kind " + J(o.w) + " fault " + J(int(k)); rec.note(what); }
        const void* d1 = v[1]->data(); const void* d2 = v[2]->data();
        {
            if (o.k == INSR || o.k == ASSIGNR || o.k == NEWR) { src.reserve(std::size_t(o.n)); for (int i = 0; i < o.n; ++i) { src.push_back(E::make(++next)); vs += (i ? "," : "") + J(next); } }
            const bool range = o.k == INSR || o.k == ASSIGNR || o.k == NEWR; if (range && o.w == 3 && o.n > 3) { src.clear(); vs = "["; for (int i = 0; i < 3; ++i) { src.push_back(E::make(++next)); vs += (i ? "," : "") + J(next); } }
            val = ++next; T arg = E::make(val); typename E::Raw raw = E::raw(val); std::unique_ptr<unsigned char[]> place; V* fresh = nullptr;
            const bool constructs = o.k == NEWN || o.k == NEWV || o.k == NEWR || o.k == COPYC || o.k == MOVEC; void* at = constructs ? ::operator new(sizeof(V)) : nullptr;
            R.errs = 0; R.allocs = 0; R.thrown.clear(); R.fuel = k; R.counting = true; R.armed = k > 0;
            try {
                if (constructs) {
                    if (!constructing<V>(at, o, arg, src, C)) { if (o.k == NEWN) ::new (at) V(unsigned(o.n)); else ::new (at) V(std::move(*v[3 - o.x])); }
                    fresh = static_cast<V*>(at);
                }
                else if (!copying(b, o, arg, src, ri, C)) switch (o.k) {
                case PUSHM: b.push_back(std::move(arg)); break;
                case EMPLB: { auto& r = b.emplace_back(raw); ri = int(&r - b.data()); } break;
                case INS1M: ri = int(b.insert(b.cbegin() + o.i, std::move(arg)) - b.begin()); break;
                case EMPL: ri = int(b.emplace(b.cbegin() + o.i, raw) - b.begin()); break;
                case ERASE1: ri = int(b.erase(b.cbegin() + o.i) - b.begin()); break;
                case ERASER: ri = int(b.erase(b.cbegin() + o.i, b.cbegin() + o.n) - b.begin()); break;
                case POP: b.pop_back(); break; case CLEAR: b.clear(); break; case RESIZE: b.resize(unsigned(o.n)); break;
                case SET: { Quiet q; unsigned i = unsigned(o.i); if (turn % 3 == 0) b[i] = E::make(val); else if (turn % 3 == 1) b.at(i) = E::make(val); else *(b.begin() + i) = E::make(val); } break;
                case RESERVE: b.reserve(unsigned(o.n)); break; case SHRINK: b.shrink_to_fit(); break;
                case AT: { Quiet q; try { ri = E::get(turn % 2 ? b.at(unsigned(o.i)) : static_cast<const V&>(b).at(unsigned(o.i))); } catch (const std::out_of_range&) { ri = -77; } } break;
                case MOVEA: b = std::move(*v[3 - o.x]); break;
                case SWAP: { using std::swap; if (o.i % 2) b.swap(*v[3 - o.x]); else swap(b, *v[3 - o.x]); } break;
                case SELFM: { auto& r = b; b = std::move(r); } break; case SELFSWAP: { auto& r = b; b.swap(r); } break;
                default: break;
                }
            } catch (const Boom&) { threw = true; } catch (const std::bad_alloc&) { threw = true; }
            R.armed = R.counting = false;
            if (at) { if (fresh) v[o.x].reset(fresh); else ::operator delete(at); }
        }
        src.clear();
        for (int x = 1; x < 3; ++x) for (auto& e : *v[x]) if (E::tracked) used(&e);
        const int live = E::tracked ? int(R.live.size()) : int(v[1]->size() + v[2]->size()), errs = R.errs;
        if (n_ev++) ev += ',';
        ev += string("{\"o\":\"") + NAME[o.k] + "\",\"x\":" + J(o.x) + ",\"i\":" + J(o.i) + ",\"n\":" + J(o.n) + ",\"a\":" + J(o.a) + ",\"w\":" + J(o.w) + ",\"v\":" + J(val) + ",\"vs\":" + vs + "],\"ri\":" + J(ri) + ",\"na\":" + J(E::kind == 'S' ? 0 : R.allocs) + ",\"th\":\"" + R.thrown + "\",\"live\":" + J(live) + ",\"errs\":" + J(errs)
            + ",\"eq\":" + (*v[1] == *v[2] ? "true" : "false") + ",\"ne\":" + (*v[1] != *v[2] ? "true" : "false") + ",\"ob\":" + both(d1, d2) + "}";
        return true;
    }
};
struct Sink { std::FILE* f; unsigned long hist = 0, events = 0; };
struct G { std::mt19937_64 r; explicit G(std::uint64_t s) : r(s * 977 + 5) {} unsigned u(unsigned n) { return n ? unsigned(r() % n) : 0; } bool pc(unsigned p) { return u(100) < p; } };
struct Base { int n1, c1, n2, c2; };
static bool value_op(const Op& o) { return o.a || (o.k >= COPYC && o.k <= SELFSWAP); }

// one history; returns whether the faulty operation threw
template <typename T, std::size_t N> static bool history(Sink& s, Rec& rec, const Base& b, const vector<Op>& ops, unsigned faulty, long k)
{
    bool threw = false;
    {
        Run<T, N> r(rec); r.fill(1, b.n1, b.c1); r.fill(2, b.n2, b.c2); string init = r.both(r.v[1]->data(), r.v[2]->data());
        for (unsigned i = 0; i < ops.size(); ++i) { r.step(ops[i], i == faulty ? k : 0); if (i == faulty) threw = r.threw; }
        if (r.n_ev) { std::fprintf(s.f, "{\"kind\":\"%c\",\"inner\":%d,\"init\":%s,\"ev\":[%s]}\n", El<T>::kind, int(N), init.c_str(), r.ev.c_str()); ++s.hist; s.events += r.n_ev; }
    }
    if (!R.live.empty() && El<T>::tracked) { std::fprintf(stderr, "elements that were never destroyed: %zu\n", R.live.size()); rec.note("destruction of both vectors: elements are left over"); std::_Exit(98); }
    return threw;
}
static vector<Op> catalogue(int z, int p, int n2)
{
    vector<Op> c; auto add = [&c](K k, int i = 0, int n = 0, int a = 0, int w = 0) { Op o; o.k = k; o.i = i; o.n = n; o.a = a; o.w = w; c.push_back(o); };
    for (K k : { PUSH, PUSHM, EMPLB, POP, CLEAR, SHRINK, COPYC, COPYA, MOVEC, MOVEA, SELF, SELFM, SELFSWAP, LOOK }) add(k);
    add(SWAP, 0); add(SWAP, 1);
    for (int a = 1; a <= z; ++a) { add(PUSH, 0, 0, a); add(EMPLB, 0, 0, a); for (int n : { 1, z, z + 1, z + 3, p + 1 }) { add(RESIZEV, 0, n, a); add(ASSIGNN, 0, n, a); } }
    for (int i = 0; i <= z; ++i) {
        add(INS1, i); add(INS1M, i); add(EMPL, i); for (int n : { 0, 1, 2, 3, 5 }) { add(INSN, i, n); for (int w = 0; w < 4; ++w) if (w < 3 || n <= 3) add(INSR, i, n, 0, w); }
        for (int a = 1; a <= z; ++a) { add(INS1, i, 0, a); add(EMPL, i, 0, a); for (int n : { 1, 2, 4 }) add(INSN, i, n, a); }
        for (int j = i; j <= z; ++j) add(ERASER, i, j);
        if (i < z) { add(ERASE1, i); add(SET, i); }
        add(AT, i);
    }
    add(AT, 2147483647); add(AT, z + 1);
    for (int n : { 0, 1, 2, 3, 4, 6, 7 }) { add(RESIZE, 0, n); add(RESIZEV, 0, n); add(ASSIGNN, 0, n); add(NEWN, 0, n); add(NEWV, 0, n); for (int w = 0; w < 4; ++w) if (w < 3 || n <= 3) { add(ASSIGNR, n % 2, n, 0, w); add(NEWR, 0, n, 0, w); if (w == 3) add(ASSIGNR, 1 - n % 2, n, 0, w); } }
    for (int n : { 0, p - 1, p, p + 1, p + 4 }) if (n >= 0) add(RESERVE, 0, n);
    (void)n2; return c;
}
template <typename T, std::size_t N> static void explore(Sink& s, Rec& rec, G& g, const string& profile, bool th, unsigned keep, unsigned nrandom)
{
    const int c = int(N);
    for (int n1 = 0; n1 <= c + 3; ++n1) for (int room : { 0, 2 }) {
        const int c1 = room ? std::max(n1, c) + room : 0;       // 0: as it grew; otherwise on the heap with room to spare
        int p; { gul14::SmallVector<int, N> probe; if (c1) probe.reserve(unsigned(c1)); for (int i = 0; i < n1; ++i) probe.push_back(i); p = int(probe.capacity()); }
        for (auto& o : catalogue(n1, p, 0)) {
            const bool two = o.k >= COPYC && o.k <= SWAP; if (profile == "seq" && value_op(o)) continue; if (profile == "value" && !value_op(o)) continue;
            for (int n2 = two ? 0 : int(g.u(3)), m2 = two ? c + 2 : n2; n2 <= m2; ++n2) for (int r2 = 0; r2 < (two ? 2 : 1); ++r2) {
                const Base b{ n1, c1, n2, r2 ? std::max(n2, c) + 2 : 0 }; const vector<Op> tail = [&] { vector<Op> t{ o, Op{}, Op{} }; t[1].k = g.pc(50) ? EMPLB : RESIZE; t[1].n = n1 + 1; t[2].k = g.pc(50) ? EMPL : SHRINK; if (two) { Op u; u.x = 2; u.k = EMPLB; t.push_back(u); } return t; }();
                if (profile != "life") { history<T, N>(s, rec, b, tail, 0, 0); continue; }
                if (!th && !g.pc(keep)) continue;
                for (long k = 1; k < 200; ++k) if (!history<T, N>(s, rec, b, tail, 0, k)) break;
            }
        }
    }
    for (unsigned n = 0; n < nrandom; ++n) {
        const Base b{ int(g.u(unsigned(c) + 3)), g.pc(30) ? c + 3 : 0, int(g.u(unsigned(c) + 3)), g.pc(30) ? c + 3 : 0 }; vector<Op> ops; const unsigned L = 5 + g.u(th ? 60 : 25);
        for (unsigned i = 0; i < L; ++i) { Op o; o.k = K(g.u(NK)); if (g.pc(35)) o.k = K(g.u(POP)); o.x = g.pc(70) ? 1 : 2; o.i = int(g.u(8)); o.n = int(g.u(9)); o.w = int(g.u(4)); if (profile == "value" && g.pc(40)) o.a = 1 + int(g.u(6)); if (o.k != PUSH && o.k != EMPLB && o.k != INS1 && o.k != EMPL && o.k != INSN && o.k != RESIZEV && o.k != ASSIGNN) o.a = 0; ops.push_back(o); }
        // a position that does not exist is replaced by one that most likely does
        history<T, N>(s, rec, b, ops, profile == "life" ? g.u(L) : 0, profile == "life" ? 1 + long(g.u(8)) : 0);
    }
}
int main(int argc, char** argv)
{
    Args a = parse_args(argc, argv); string p = a.rest.empty() ? "seq" : a.rest[0]; Rec rec(a.out + ".unused", a.last); Sink s{ std::fopen(a.out.c_str(), "w") }; if (!s.f) return 3;
    G g(a.seed); const bool th = a.thorough(); const unsigned rnd = th ? 3000 : 150, keep = 22;
    explore<Tr<'N'>, 2>(s, rec, g, p, th, keep, rnd); explore<Tr<'T'>, 3>(s, rec, g, p, th, keep, rnd); explore<Tr<'C'>, 2>(s, rec, g, p, th, keep, rnd);
    explore<Tr<'M'>, 3>(s, rec, g, p, th, keep * 2, rnd); explore<Tr<'X'>, 2>(s, rec, g, p, th, keep * 2, rnd); explore<Tr<'N'>, 0>(s, rec, g, p, th, keep, rnd); explore<Tr<'T'>, 1>(s, rec, g, p, th, keep, rnd);
    explore<Tr<'A'>, 2>(s, rec, g, p, th, keep, rnd);
    if (p != "life") { explore<int, 2>(s, rec, g, p, th, keep, rnd); explore<string, 3>(s, rec, g, p, th, keep, rnd); }
    if (th) { explore<Tr<'N'>, 5>(s, rec, g, p, th, keep, rnd); explore<Tr<'T'>, 0>(s, rec, g, p, th, keep, rnd); explore<Tr<'C'>, 4>(s, rec, g, p, th, keep, rnd); explore<Tr<'X'>, 4>(s, rec, g, p, th, keep, rnd); explore<Tr<'M'>, 1>(s, rec, g, p, th, keep, rnd); }
    std::fclose(s.f); std::remove((a.out + ".unused").c_str()); std::printf("{\"histories\":%lu,\"events\":%lu}\n", s.hist, s.events); return 0;
}
