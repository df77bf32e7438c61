// Records histories of gul14::FinalAction / finally(): guards are made, moved, overwritten and destroyed; which actions ran?
// usage: h_finalizer OUT LAST TIER SEED PROFILE
#include "hist.h"
#include "gul14/finalizer.h"
#include <functional>
#include <memory>
#include <vector>
using std::string;
static std::vector<int> ran;
static string list(const std::vector<int>& v) { string s = "["; for (int i : v) { if (s.size() > 1) s += ','; s += J(i); } return s + "]"; }
// ---- kinds of callables
struct Copyable { int id; void operator()() const { ran.push_back(id); } };
struct Emptied { int id; explicit Emptied(int i) : id(i) {} Emptied(const Emptied& o) = default; Emptied(Emptied&& o) noexcept : id(o.id) { o.id = -1; } Emptied& operator=(const Emptied&) = default; Emptied& operator=(Emptied&& o) noexcept { int i = o.id; o.id = -1; id = i; return *this; } void operator()() { ran.push_back(id); } };
struct MoveOnly { std::unique_ptr<int> id; explicit MoveOnly(int i) : id(std::make_unique<int>(i)) {} void operator()() { ran.push_back(id ? *id : -1); } };
template <int I> void fn() { ran.push_back(I); }
using Fp = void (*)();
template <int... I> static Fp fn_at(int i, std::integer_sequence<int, I...>) { static const Fp t[] = { fn<I>... }; return t[i]; }
template <typename F> struct Mk;
template <> struct Mk<Copyable> { static Copyable make(int i) { return Copyable{ i }; } static constexpr char kind = 'C'; static constexpr bool lvalue = true; };
template <> struct Mk<Emptied> { static Emptied make(int i) { return Emptied(i); } static constexpr char kind = 'E'; static constexpr bool lvalue = true; };
template <> struct Mk<MoveOnly> { static MoveOnly make(int i) { return MoveOnly(i); } static constexpr char kind = 'M'; static constexpr bool lvalue = false; };
template <> struct Mk<void (*)()> { static auto make(int i) { return fn_at(i, std::make_integer_sequence<int, 100>{}); } static constexpr char kind = 'P'; static constexpr bool lvalue = true; };
template <> struct Mk<std::function<void()>> { static std::function<void()> make(int i) { return [i, pad = std::vector<int>(3)] { ran.push_back(i); (void)pad; }; } static constexpr char kind = 'S'; static constexpr bool lvalue = true; };
using Yes = std::true_type; using No = std::false_type;

enum { NEWR, NEWL, NEWCL, NEWX, MOVEC, MOVEA, SELF, DIE, RETURN, THROW, GROW, NOPS };
static const char* NAME[] = { "newr", "newl", "newcl", "newx", "movec", "movea", "self", "die", "return", "throw", "grow" };
template <typename F> struct Run {
    using A = gul14::FinalAction<F>; using M = Mk<F>; static constexpr int SLOTS = 3;
    std::unique_ptr<A> s[SLOTS + 1]; Rec& rec; string ev; int next = 0;
    explicit Run(Rec& r) : rec(r) {}
    static auto make(const F& f, Yes) { return gul14::finally(f); }
    static A make(const F&, No) { return gul14::finally(M::make(0)); }
    // lvalues must still be what they were: called once more, they do the same again
    static int left(F& f, Yes) { std::vector<int> keep; std::swap(keep, ran); f(); int i = ran.empty() ? -2 : ran[0]; ran = keep; return i; }
    void step(int op, int a, int b, unsigned n)
    {
        ran.clear(); int id = next + 1, lv = 0; std::vector<int> ids;
        switch (op) {
        case NEWR: case NEWX: case NEWL: case NEWCL: case MOVEC: if (s[a]) return; break;
        case MOVEA: if (!s[a] || !s[b] || a == b) return; break; case SELF: case DIE: if (!s[a]) return; break; default: break;
        }
        if (op == MOVEC && (!s[b] || a == b)) return;
        if ((op == NEWL || op == NEWCL) && !M::lvalue) return;
        rec.note(string("guards with callable ") + M::kind + ": " + NAME[op]);
        switch (op) {
        case NEWR: ++next; s[a] = std::make_unique<A>(gul14::finally(M::make(id))); break;
        case NEWX: ++next; s[a] = std::make_unique<A>(M::make(id)); break;
        case NEWL: case NEWCL: lvalues(op, a, id, lv, std::integral_constant<bool, M::lvalue>{}); ++next; break;
        case MOVEC: s[a] = std::make_unique<A>(std::move(*s[b])); break;
        case MOVEA: *s[a] = std::move(*s[b]); break;
        case SELF: { auto& r = *s[a]; *s[a] = std::move(r); } break;
        case DIE: s[a].reset(); break;
        case RETURN: case THROW: for (unsigned i = 0; i < n; ++i) ids.push_back(++next); try { nest(ids, 0, op == THROW); } catch (const Boom&) { ran.push_back(1000); } break;
        case GROW: { std::vector<A> v; for (unsigned i = 0; i < n; ++i) { ids.push_back(++next); v.push_back(gul14::finally(M::make(next))); } lv = int(ran.size()); v.clear(); } break;
        }
        ids.resize(op == RETURN || op == THROW || op == GROW ? n : 0);
        if (!ev.empty()) ev += ',';
        ev += string("{\"o\":\"") + NAME[op] + "\",\"a\":" + J(a) + ",\"b\":" + J(b) + ",\"id\":" + J(id) + ",\"ids\":" + list(ids) + ",\"lv\":" + J(lv) + ",\"ran\":" + list(ran) + "}";
    }
    void lvalues(int op, int a, int id, int& lv, Yes) { F f = M::make(id); if (op == NEWL) s[a] = std::make_unique<A>(gul14::finally(f)); else s[a] = std::make_unique<A>(make(f, Yes{})); lv = left(f, Yes{}); }
    void lvalues(int, int, int, int&, No) {}
    void nest(const std::vector<int>& ids, std::size_t i, bool thr) { if (i == ids.size()) { if (thr) throw Boom(); return; } auto g = gul14::finally(M::make(ids[i])); nest(ids, i + 1, thr); }
    void finish() { ran.clear(); for (int i = 1; i <= SLOTS; ++i) s[i].reset(); ev += string(ev.empty() ? "" : ",") + "{\"o\":\"end\",\"a\":0,\"b\":0,\"id\":0,\"ids\":[],\"lv\":0,\"ran\":" + list(ran) + "}"; }
};
template <typename F> void play(Rec& rec, Sink& out, G& g, bool th)
{
    auto one = [&](const std::vector<std::vector<int>>& script) { Run<F> r(rec); for (auto& x : script) r.step(x[0], x[1], x[2], unsigned(x[3])); r.finish(); out.put(string("\"kind\":\"") + Mk<F>::kind + "\"", "[0,0,0]", r.ev); };
    // all short histories over two slots
    std::vector<std::vector<int>> cmds; for (int op = 0; op < NOPS; ++op) for (int a = 1; a < 3; ++a) for (int b = 1; b < 3; ++b) if (a != b && (op < RETURN || a == 1)) cmds.push_back({ op, a, b, op < RETURN ? 0 : 1 + int(cmds.size() % 4) });
    for (auto& x : cmds) for (auto& y : cmds) { one({ { NEWR, 1, 2, 0 }, x, y }); one({ { NEWR, 1, 2, 0 }, { NEWX, 2, 1, 0 }, x, y }); if (th) for (auto& z : cmds) one({ { NEWX, 1, 2, 0 }, { NEWR, 2, 1, 0 }, x, y, z }); }
    for (int n = 0; n < (th ? 20000 : 1500); ++n) {
        std::vector<std::vector<int>> s; unsigned len = 3 + g.u(10);
        for (unsigned i = 0; i < len; ++i) s.push_back({ int(g.u(NOPS)), 1 + int(g.u(3)), 1 + int(g.u(3)), int(g.u(4)) });
        one(s);
    }
}
int main(int argc, char** argv)
{
    Args a = parse_args(argc, argv); Sink out{ std::fopen(a.out.c_str(), "w") }; if (!out.f) return 3;
    Rec rec("/dev/null", a.last); G g(a.seed); const bool th = a.thorough();
    play<Copyable>(rec, out, g, th); play<Emptied>(rec, out, g, th); play<MoveOnly>(rec, out, g, th); play<void (*)()>(rec, out, g, th); play<std::function<void()>>(rec, out, g, th);
    std::fprintf(stderr, "%lu histories\n", out.hist);
    std::fclose(out.f); return 0;
}
