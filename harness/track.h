// Elements whose lifetimes are tracked and whose operations (and allocations) can be made to fail.
#pragma once
#include <cstdlib>
#include <initializer_list>
#include <new>
#include <string>
#include <type_traits>
#include <unordered_set>
// ---------------------------------------------------------------- lifetimes and faults
struct Boom {};
static struct Reg {
    std::unordered_set<const void*> live; int errs = 0; bool armed = false; long fuel = 0; std::string thrown; int allocs = 0; bool counting = false;
    bool lasting = false;       // after the first failure everything that can fail does, until the operation is over
    bool fails() { if (!armed) return false; if (fuel > 0) return --fuel == 0; return lasting && !thrown.empty(); }
} R;
struct Quiet { bool a = R.armed, c = R.counting; Quiet() { R.armed = R.counting = false; } ~Quiet() { R.armed = a; R.counting = c; } };
static void tick(const char* what) { if (R.fails()) { { Quiet q; if (R.thrown.empty()) R.thrown = what; } throw Boom(); } }
static void born(const void* p) { Quiet q; if (!R.live.insert(p).second) ++R.errs; }
static void died(const void* p) { Quiet q; if (!R.live.erase(p)) ++R.errs; }
static void used(const void* p) { Quiet q; if (!R.live.count(p)) ++R.errs; }
static void* take(std::size_t n) { if (R.counting) { ++R.allocs; if (R.fails()) { { Quiet q; if (R.thrown.empty()) R.thrown = "alloc"; } throw std::bad_alloc(); } } void* p = std::malloc(n ? n : 1); if (!p) throw std::bad_alloc(); return p; }
void* operator new(std::size_t n) { return take(n); }
void* operator new[](std::size_t n) { return take(n); }
void operator delete(void* p) noexcept { std::free(p); }
void operator delete[](void* p) noexcept { std::free(p); }
void operator delete(void* p, std::size_t) noexcept { std::free(p); }
void operator delete[](void* p, std::size_t) noexcept { std::free(p); }

constexpr int GONE = -1;
struct Seed { int v; };                                                       // what the elements can be made of a list of
inline int total(std::initializer_list<Seed> l) { int s = 0; for (auto const& x : l) s += x.v; return s; }
#define BASIC(K) \
    int v; Tr() : v(0) { tick("def"); born(this); } explicit Tr(int x) : v(x) { tick("ctor"); born(this); } Tr(std::initializer_list<Seed> l, int x = 0) : v(x + total(l)) { tick("ctor"); born(this); } ~Tr() { died(this); v = -9; }
#define COPY(K) \
    Tr(const Tr& o) : v(0) { used(&o); tick("copy"); v = o.v; born(this); } \
    Tr& operator=(const Tr& o) { used(this); used(&o); tick("casgn"); v = o.v; return *this; }
#define NOCOPY(K) Tr(const Tr&) = delete; Tr& operator=(const Tr&) = delete;
// (a self-move loses the value, as it does for std::string)
#define MOVE(K, NOEX) \
    Tr(Tr&& o) noexcept(NOEX) : v(0) { used(&o); if (!(NOEX)) tick("move"); v = o.v; o.v = GONE; born(this); } \
    Tr& operator=(Tr&& o) noexcept(NOEX) { used(this); used(&o); if (!(NOEX)) tick("masgn"); v = o.v; o.v = GONE; return *this; }
template <char K> struct Tr;
template <> struct Tr<'N'> { BASIC('N') COPY('N') MOVE('N', true) };          // copyable, moves never throw
template <> struct Tr<'T'> { BASIC('T') COPY('T') MOVE('T', false) };         // copyable, moves may throw
template <> struct Tr<'M'> { BASIC('M') NOCOPY('M') MOVE('M', true) };        // can only be moved, never throws
template <> struct Tr<'X'> { BASIC('X') NOCOPY('X') MOVE('X', false) };       // can only be moved, may throw
template <> struct Tr<'C'> { BASIC('C') COPY('C') };                          // can only be copied
template <> struct alignas(16) Tr<'A'> { BASIC('A') MOVE('A', true)            // nothing throws; strictest fundamental alignment
    Tr(const Tr& o) noexcept : v(o.v) { used(&o); born(this); } Tr& operator=(const Tr& o) noexcept { used(this); used(&o); v = o.v; return *this; } };
template <char K> bool operator==(const Tr<K>& a, const Tr<K>& b) { used(&a); used(&b); return a.v == b.v; }

template <typename T> struct El;
template <char K> struct El<Tr<K>> { static Tr<K> make(int v) { return Tr<K>(v); } static int get(const Tr<K>& t) { used(&t); return t.v; } static constexpr char kind = K; static constexpr bool copyable = K == 'N' || K == 'T' || K == 'C' || K == 'A', tracked = true; using Raw = int; static int raw(int v) { return v; } };
template <> struct El<int> { static int make(int v) { return v; } static int get(int v) { return v; } static constexpr char kind = 'I'; static constexpr bool copyable = true, tracked = false; using Raw = int; static int raw(int v) { return v; } };
template <> struct El<std::string> { static std::string make(int v) { return v ? std::to_string(1000000 + v).substr(1) + std::string(v % 2 ? 1 : 40, ' ') : std::string(); } static int get(const std::string& s) { return s.empty() ? 0 : std::atoi(s.c_str()); } static constexpr char kind = 'S'; static constexpr bool copyable = true, tracked = false; using Raw = std::string; static std::string raw(int v) { return make(v); } };

template <> struct El<long> : El<int> { static long make(int v) { return v; } static int get(long v) { return int(v); } };
