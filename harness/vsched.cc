#include "vsched.h"
#include <algorithm>
#include <array>
#include <atomic>
#include <cerrno>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <future>
#include <map>
#include <memory>
#include <random>
#include <unordered_map>
#include <pthread.h>
#include <time.h>
#include <ucontext.h>
#include <unistd.h>
#include <sys/mman.h>
#include <link.h>
#include <cxxabi.h>

extern "C" char __libc_single_threaded;
extern "C" void* __libc_malloc(size_t); extern "C" void __libc_free(void*); extern "C" void* __libc_calloc(size_t, size_t); extern "C" void* __libc_realloc(void*, size_t); extern "C" void* __libc_memalign(size_t, size_t);
extern "C" size_t malloc_usable_size(void*);
namespace __cxxabiv1 { extern "C" __cxa_eh_globals* __cxa_get_globals() noexcept; }

namespace vs {
namespace {

constexpr int MAXF = 24;
constexpr std::size_t STACK = 192 * 1024;
using VC = std::array<std::uint32_t, MAXF>;
enum St { Runnable, BMutex, BCond, BFutex, BJoin, BSleep, BGate, BOnce, Done };
const char* st_name[] = { "runnable", "mutex", "condition variable", "future", "join", "sleep", "gate", "once", "done" };

struct Eh { void* a; unsigned b; };
struct Fiber {
    int id = 0; St st = Runnable; ucontext_t ctx; char* stack = nullptr;
    void* (*fn)(void*) = nullptr; void* arg = nullptr; void* ret = nullptr; std::function<void()> mainfn;
    const void* obj = nullptr; long long deadline = -1; bool timed_out = false, woken = false;
    std::vector<char> tls; std::vector<std::pair<void (*)(void*), void*>> at_exit; bool joined = false, detached = false; std::uint64_t prio = 0; sigset_t mask; Eh eh{ nullptr, 0 }; VC vc{};
};
struct Rec { std::uint8_t f, mask, wr; std::uint32_t clk; const void* pc; };
struct Cell { std::vector<Rec> r; bool freed = false; };

struct World {
    Options o; Result res; std::mt19937_64 rng; std::vector<std::unique_ptr<Fiber>> fibers; Fiber* cur = nullptr; ucontext_t driver;
    long long now = 0; // ns
    unsigned spurious = 0, early = 0, preempt = 0, creates = 0, pos = 0;
    std::vector<unsigned> change; bool ended = false; std::map<const void*, VC> sync; std::unordered_map<std::uintptr_t, Cell> shadow; std::map<int, bool> gates;
    std::map<const void*, int> mutex_owner; std::vector<void*> quarantine; bool in_rt = false; int held = 0;
};
World* W = nullptr;              // the execution in progress
std::vector<char*> free_stacks;

// The thread-local variables of the executable live in one block; every fiber gets a copy of its own.
char* tls_block = nullptr; std::size_t tls_len = 0; std::vector<char> tls_image;
int find_tls(dl_phdr_info* i, size_t, void*)
{
    for (int k = 0; k < i->dlpi_phnum; ++k) if (i->dlpi_phdr[k].p_type == PT_TLS && i->dlpi_tls_data) {
        tls_block = static_cast<char*>(i->dlpi_tls_data); tls_len = i->dlpi_phdr[k].p_memsz; tls_image.assign(tls_len, 0);
        std::memcpy(tls_image.data(), reinterpret_cast<char*>(i->dlpi_addr + i->dlpi_phdr[k].p_vaddr), i->dlpi_phdr[k].p_filesz);
    }
    return 1; // the first entry is the executable
}
struct Rt { bool old; Rt() : old(W ? W->in_rt : false) { if (W) W->in_rt = true; } ~Rt() { if (W) W->in_rt = old; } };

void bad(const std::string& s)
{
    if (W->res.bad.size() < 20 && std::find(W->res.bad.begin(), W->res.bad.end(), s) == W->res.bad.end()) W->res.bad.push_back(s);
}
long long next_deadline()
{
    long long d = -1; for (auto& f : W->fibers) if (f->st != Done && f->st != Runnable && f->deadline >= 0 && (d < 0 || f->deadline < d)) d = f->deadline; return d;
}
long long shown(long long us) { return W->o.far_us && us > 1000000000LL ? us - W->o.far_us + 1500000000LL : us; }
void log_raw(const std::string& s, int f) { W->res.log.push_back("{\"t\":" + std::to_string(shown(W->now / 1000)) + ",\"f\":" + std::to_string(f) + "," + s + "}"); }
void advance(long long to)
{
    if (to > W->now) W->now = to;
    log_raw("\"e\":\"tick\"", 0);
    for (auto& f : W->fibers) if (f->st != Done && f->st != Runnable && f->deadline >= 0 && f->deadline <= W->now) { f->st = Runnable; f->timed_out = true; f->deadline = -1; }
}
unsigned choose(unsigned n) // replay mode
{
    unsigned c = W->pos < W->o.choices.size() ? W->o.choices[W->pos] : 0; if (c >= n) c = n - 1;
    W->res.options.push_back(n); W->res.taken.push_back(c); ++W->pos; return c;
}
void switch_to(Fiber* n)
{
    Fiber* p = W->cur; if (p == n) return;
    Eh* g = reinterpret_cast<Eh*>(abi::__cxa_get_globals()); if (p) p->eh = *g; *g = n ? n->eh : Eh{ nullptr, 0 };
    if (tls_len) { if (p) std::memcpy(p->tls.data(), tls_block, tls_len); if (n) std::memcpy(tls_block, n->tls.data(), tls_len); }
    W->cur = n;
    bool rt = W->in_rt; // belongs to the fiber that leaves
    swapcontext(p ? &p->ctx : &W->driver, n ? &n->ctx : &W->driver);
    if (W) W->in_rt = rt;
}
void stop() { W->ended = true; switch_to(nullptr); std::abort(); }

// Pick the fiber that runs next; the current one may be blocked, finished or runnable.
void reschedule()
{
    for (;;) {
        if (++W->res.steps > W->o.max_steps) { W->res.limit = true; stop(); }
        std::vector<Fiber*> run, spur; Fiber* c = W->cur; bool cr = c && c->st == Runnable;
        for (auto& f : W->fibers) { if (f->st == Runnable) run.push_back(f.get()); if (f->st == BCond) spur.push_back(f.get()); }
        if (run.empty()) {
            bool all = true; for (auto& f : W->fibers) if (f->st != Done) all = false;
            if (all) { W->ended = true; switch_to(nullptr); return; }
            long long d = next_deadline();
            log_raw("\"e\":\"quiet\"", 0);
            if (d < 0) {
                W->res.stuck = true; for (auto& f : W->fibers) if (f->st != Done) W->res.blocked += "fiber " + std::to_string(f->id) + " waits for " + st_name[f->st] + "; ";
                stop();
            }
            if (W->o.mode != 2 && W->rng() % 8 == 0) d += 1000 * (1 + W->rng() % 1500);
            advance(d); continue;
        }
        if (W->o.mode == 2) {
            // alternatives: the current thread first, the others only within the preemption bound; then spurious wakeups and time
            std::vector<Fiber*> alt; if (cr) alt.push_back(c);
            if (!cr || W->preempt < W->o.preemptions) for (Fiber* f : run) if (f != c) alt.push_back(f);
            unsigned nrun = alt.size(), n = nrun; if (W->spurious < W->o.spurious) n += spur.size();
            bool tick = !W->held && W->early < W->o.early_ticks && next_deadline() >= 0; if (tick) ++n;
            unsigned k = n > 1 ? choose(n) : 0;
            if (k < nrun) { if (cr && alt[k] != c) ++W->preempt; switch_to(alt[k]); return; }
            if (tick && k == n - 1) { ++W->early; advance(next_deadline()); continue; }
            ++W->spurious; Fiber* f = spur[k - nrun]; f->st = Runnable; f->woken = true; f->deadline = -1; continue;
        }
        if (W->spurious < W->o.spurious && !spur.empty() && W->rng() % 24 == 0) { ++W->spurious; Fiber* f = spur[W->rng() % spur.size()]; f->st = Runnable; f->woken = true; f->deadline = -1; continue; }
        if (!W->held && W->early < W->o.early_ticks && W->rng() % 40 == 0) {
            ++W->early; long long d = next_deadline(); long long to = W->now + 1000 * (1 + W->rng() % 2000); if (d >= 0 && W->rng() % 2) to = d; advance(to); continue;
        }
        Fiber* n = nullptr;
        if (W->o.mode == 1) {
            for (unsigned s : W->change) if (s == W->res.steps && cr) c->prio = W->rng() % 1000;
            for (Fiber* f : run) if (!n || f->prio > n->prio) n = f;
        } else if (cr && W->rng() % 100 >= W->o.switch_pct) n = c;
        else n = run[W->rng() % run.size()];
        switch_to(n); return;
    }
}
void block(St st, const void* obj, long long deadline)
{
    Fiber* c = W->cur; c->st = st; c->obj = obj; c->deadline = deadline; c->timed_out = false; c->woken = false;
    reschedule();
    c->obj = nullptr; c->deadline = -1;
}
void wake_all(St st, const void* obj) { for (auto& f : W->fibers) if (f->st == st && f->obj == obj) { f->st = Runnable; f->woken = true; f->deadline = -1; } }
void acquire(const void* o) { auto it = W->sync.find(o); if (it != W->sync.end()) for (int i = 0; i < MAXF; ++i) W->cur->vc[i] = std::max(W->cur->vc[i], it->second[i]); }
void release(const void* o, bool join = false)
{
    auto& v = W->sync[o]; if (join) { for (int i = 0; i < MAXF; ++i) v[i] = std::max(v[i], W->cur->vc[i]); } else v = W->cur->vc;
    ++W->cur->vc[W->cur->id];
}
char* get_stack()
{
    if (!free_stacks.empty()) { char* s = free_stacks.back(); free_stacks.pop_back(); return s; }
    char* s = static_cast<char*>(mmap(nullptr, STACK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0)); if (s == MAP_FAILED) std::exit(3); return s;
}
void clear_range(const void* p, std::size_t n)
{
    std::uintptr_t a = reinterpret_cast<std::uintptr_t>(p) >> 3, e = (reinterpret_cast<std::uintptr_t>(p) + n + 7) >> 3;
    if (e - a > W->shadow.size()) { for (auto it = W->shadow.begin(); it != W->shadow.end();) { if (it->first >= a && it->first < e) it = W->shadow.erase(it); else ++it; } }
    else for (; a < e; ++a) W->shadow.erase(a);
}
void trampoline(unsigned lo, unsigned hi)
{
    Fiber* f = reinterpret_cast<Fiber*>((std::uintptr_t(hi) << 32) | lo);
    W->in_rt = false;
    { if (f->fn) f->ret = f->fn(f->arg); else f->mainfn(); }
    while (!f->at_exit.empty()) { auto d = f->at_exit.back(); f->at_exit.pop_back(); d.first(d.second); }
    W->in_rt = true;
    f->st = Done; release(f); wake_all(BJoin, f);
    W->in_rt = false;
    reschedule();
    std::abort();
}
Fiber* new_fiber(void* (*fn)(void*), void* arg, std::function<void()> mainfn)
{
    if (W->fibers.size() >= MAXF) { std::fprintf(stderr, "vsched: too many threads\n"); std::exit(3); }
    std::unique_ptr<Fiber> u(new Fiber); Fiber* f = u.get(); f->id = int(W->fibers.size()); f->fn = fn; f->arg = arg; f->mainfn = std::move(mainfn);
    f->stack = get_stack(); f->tls = tls_image; sigemptyset(&f->mask); f->prio = 1000 + W->rng() % 1000;
    getcontext(&f->ctx); f->ctx.uc_stack.ss_sp = f->stack; f->ctx.uc_stack.ss_size = STACK; f->ctx.uc_link = nullptr;
    std::uintptr_t a = reinterpret_cast<std::uintptr_t>(f);
    makecontext(&f->ctx, reinterpret_cast<void (*)()>(trampoline), 2, unsigned(a & 0xffffffffu), unsigned(a >> 32));
    if (W->cur) { f->vc = W->cur->vc; ++W->cur->vc[W->cur->id]; f->mask = W->cur->mask; }
    f->vc[f->id] = 1;
    W->fibers.push_back(std::move(u)); return f;
}
Fiber* fiber_of(pthread_t t) { std::size_t i = std::size_t(t) - 0x1000; return W && i < W->fibers.size() ? W->fibers[i].get() : nullptr; }
bool active() { return W && W->cur && !W->ended; }

const std::uintptr_t tls_size = 256 * 1024, tls_lo = reinterpret_cast<std::uintptr_t>(__builtin_thread_pointer()) - tls_size + 8192;
void access(const void* p, unsigned n, bool wr, const void* pc)
{
    if (!active() || W->in_rt) return;
    Rt rt; std::uintptr_t a = reinterpret_cast<std::uintptr_t>(p);
    if (a - tls_lo < tls_size) return; // thread-local variables of the one OS thread are private to a fiber in reality
    while (n) {
        unsigned off = a & 7, k = std::min(n, 8 - off); std::uint8_t m = std::uint8_t(((1u << k) - 1) << off);
        Cell& c = W->shadow[a >> 3]; int id = W->cur->id;
        char buf[200];
        if (c.freed) { std::snprintf(buf, sizeof buf, "%s of freed memory at pc %p", wr ? "write" : "read", pc); bad(buf); }
        bool found = false;
        for (Rec& r : c.r) {
            if (r.f == id) { if (r.wr == wr && r.mask == m) { r.clk = W->cur->vc[id]; r.pc = pc; found = true; } }
            else if ((r.mask & m) && (r.wr || wr) && r.clk > W->cur->vc[r.f]) {
                std::snprintf(buf, sizeof buf, "data race between a %s at pc %p and a %s at pc %p", r.wr ? "write" : "read", r.pc, wr ? "write" : "read", pc); bad(buf);
            }
        }
        if (!found) c.r.push_back(Rec{ std::uint8_t(id), m, std::uint8_t(wr), W->cur->vc[id], pc });
        a += k; n -= k;
    }
}
long long abs_ns(clockid_t clk, const timespec* t)
{
    long long base = clk == CLOCK_REALTIME ? 1700000000LL : 5000LL;
    if (t->tv_sec - base > 4000000000LL) return 4000000000LL * 1000000000LL; // far future
    if (t->tv_sec - base < -4000000000LL) return 0;
    long long v = (t->tv_sec - base) * 1000000000LL + t->tv_nsec; return v < 0 ? 0 : v;
}
} // namespace

int self() { return W && W->cur ? W->cur->id : 0; }
long long shown_us(long long us) { return W ? shown(us) : us; }
long long now_us() { return W ? W->now / 1000 : 0; }
void log(const std::string& s) { Rt rt; log_raw(s, self()); }
void log_as(int f, const std::string& s) { Rt rt; log_raw(s, f); }
void point() { if (active()) { Rt rt; reschedule(); } }
void hold_time(bool b) { W->held += b ? 1 : -1; }
unsigned live_fibers() { unsigned n = 0; for (auto& f : W->fibers) if (f->st != Done) ++n; return n; }
bool in_cond(int f) { return W->fibers[f]->st == BCond; }
bool is_done(int f) { return W->fibers[f]->st == Done; }
bool has_sigmask(const std::vector<int>& s) { for (int x : s) if (!sigismember(&W->cur->mask, x)) return false; return true; }
void gate_open(int g) { Rt rt; W->gates[g] = true; wake_all(BGate, &W->gates[g]); reschedule(); }
bool gate_is_open(int g) { Rt rt; return W->gates[g]; }
bool gate_wait(int g, long long us)
{
    Rt rt; long long d = us < 0 ? -1 : W->now + us * 1000;
    while (!W->gates[g]) { block(BGate, &W->gates[g], d); if (W->cur->timed_out) return W->gates[g]; }
    return true;
}

Result execute(const Options& o, const std::function<void()>& main_fn)
{
    __libc_single_threaded = 0; static int once = dl_iterate_phdr(find_tls, nullptr); (void)once;
    static World* keep = nullptr; // the previous world: freed here, after all of its fibers are gone
    World* w = new World; w->o = o; w->rng.seed(o.seed * 2862933555777941757ULL + 3037000493ULL);
    W = w; w->in_rt = true;
    for (unsigned i = 0; i < o.pct_depth; ++i) w->change.push_back(1 + unsigned(w->rng() % 300));
    Fiber* m = new_fiber(nullptr, nullptr, main_fn);
    w->in_rt = false;
    switch_to(m);
    // driver again
    Result r = std::move(w->res); W = nullptr;
    for (auto& f : w->fibers) { if (f->st == Done) free_stacks.push_back(f->stack); else f.release(); }
    for (void* p : w->quarantine) __libc_free(p);
    delete keep; keep = w; keep->shadow.clear();
    return r;
}

} // namespace vs

using namespace vs;

// ------------------------------------------------------------------------------------------------ allocation
extern "C" void* malloc(size_t n) { void* p = __libc_malloc(n); if (p && active() && !W->in_rt) { Rt rt; clear_range(p, n); } return p; }
extern "C" void free(void* p)
{
    if (!p) return;
    if (active() && !W->in_rt) {
        Rt rt; std::size_t n = malloc_usable_size(p); std::uintptr_t a = reinterpret_cast<std::uintptr_t>(p) >> 3;
        for (std::size_t i = 0; i < n / 8; ++i) { Cell& c = W->shadow[a + i]; c.r.clear(); c.freed = true; }
        W->quarantine.push_back(p); return;
    }
    __libc_free(p);
}
extern "C" void* calloc(size_t a, size_t b) { void* p = __libc_calloc(a, b); if (p && active() && !W->in_rt) { Rt rt; clear_range(p, a * b); } return p; }
extern "C" void* realloc(void* p, size_t n) { return __libc_realloc(p, n); }

// ------------------------------------------------------------------------------------------------ threads
extern "C" int pthread_create(pthread_t* t, const pthread_attr_t*, void* (*fn)(void*), void* arg) noexcept
{
    if (!active()) { std::fprintf(stderr, "vsched: thread created outside of an execution\n"); std::_Exit(3); }
    Rt rt;
    if (W->o.fail_thread_create >= 0 && W->creates++ == unsigned(W->o.fail_thread_create)) return EAGAIN;
    Fiber* f = new_fiber(fn, arg, nullptr); clear_range(f->stack, STACK); *t = pthread_t(0x1000 + f->id); reschedule(); return 0;
}
extern "C" int pthread_join(pthread_t t, void** ret)
{
    Rt rt; Fiber* f = fiber_of(t); if (!f || f->joined || f->detached) { bad("join of a thread that is not joinable"); return EINVAL; }
    if (f == W->cur) return EDEADLK;
    reschedule();
    while (f->st != Done) block(BJoin, f, -1);
    f->joined = true; acquire(f); if (ret) *ret = f->ret; return 0;
}
extern "C" int pthread_detach(pthread_t t) noexcept { Fiber* f = fiber_of(t); if (!f) return ESRCH; f->detached = true; return 0; }
extern "C" pthread_t pthread_self() noexcept { return pthread_t(0x1000 + (W && W->cur ? W->cur->id : 0)); }
extern "C" int pthread_sigmask(int how, const sigset_t* s, sigset_t* o) noexcept
{
    if (!active()) return 0;
    sigset_t& m = W->cur->mask; if (o) *o = m;
    if (s) for (int i = 1; i < 64; ++i) { int in = sigismember(s, i) == 1; if (how == SIG_SETMASK) { if (in) sigaddset(&m, i); else sigdelset(&m, i); } else if (in) { if (how == SIG_BLOCK) sigaddset(&m, i); else sigdelset(&m, i); } }
    return 0;
}
extern "C" int sched_yield() noexcept { vs::point(); return 0; }
extern "C" int pthread_once(pthread_once_t* o, void (*fn)())
{
    if (!active()) { if (*o != 2) { *o = 2; fn(); } return 0; }
    while (*o == 1) { Rt rt; block(BOnce, o, -1); }
    if (*o == 2) { Rt rt; acquire(o); return 0; }
    *o = 1;
    try { fn(); } catch (...) { Rt rt; *o = 0; wake_all(BOnce, o); throw; }
    { Rt rt; *o = 2; release(o); wake_all(BOnce, o); }
    return 0;
}

// ------------------------------------------------------------------------------------------------ mutexes
static bool mutex_recursive(pthread_mutex_t* m) { return m->__data.__kind == PTHREAD_MUTEX_RECURSIVE; }
static int do_lock(pthread_mutex_t* m, long long deadline)
{
    for (;;) {
        auto it = W->mutex_owner.find(m); if (it == W->mutex_owner.end() || it->second < 0) break;
        if (it->second == W->cur->id) { if (mutex_recursive(m)) { ++m->__data.__count; return 0; } bad("a thread locks a mutex that it already holds"); }
        block(BMutex, m, deadline); if (deadline >= 0 && W->cur->timed_out) return ETIMEDOUT;
    }
    W->mutex_owner[m] = W->cur->id; acquire(m); return 0;
}
static void do_unlock(pthread_mutex_t* m)
{
    auto it = W->mutex_owner.find(m);
    if (it == W->mutex_owner.end() || it->second != W->cur->id) bad("a thread unlocks a mutex that it does not hold");
    if (mutex_recursive(m) && m->__data.__count > 0) { --m->__data.__count; return; }
    W->mutex_owner[m] = -1; release(m); wake_all(BMutex, m);
}
extern "C" int pthread_mutex_lock(pthread_mutex_t* m) noexcept { if (!active() || W->in_rt) return 0; access(m, 8, false, __builtin_return_address(0)); Rt rt; reschedule(); return do_lock(m, -1); }
extern "C" int pthread_mutex_trylock(pthread_mutex_t* m) noexcept
{
    if (!active() || W->in_rt) return 0;
    Rt rt; reschedule(); auto it = W->mutex_owner.find(m); if (it != W->mutex_owner.end() && it->second >= 0) { if (it->second == W->cur->id && mutex_recursive(m)) { ++m->__data.__count; return 0; } return EBUSY; }
    W->mutex_owner[m] = W->cur->id; acquire(m); return 0;
}
extern "C" int pthread_mutex_timedlock(pthread_mutex_t* m, const timespec* t) noexcept { if (!active() || W->in_rt) return 0; Rt rt; reschedule(); return do_lock(m, abs_ns(CLOCK_REALTIME, t)); }
extern "C" int pthread_mutex_clocklock(pthread_mutex_t* m, clockid_t c, const timespec* t) noexcept { if (!active() || W->in_rt) return 0; Rt rt; reschedule(); return do_lock(m, abs_ns(c, t)); }
extern "C" int pthread_mutex_unlock(pthread_mutex_t* m) noexcept { if (!active() || W->in_rt) return 0; access(m, 8, false, __builtin_return_address(0)); Rt rt; do_unlock(m); reschedule(); return 0; }
extern "C" int pthread_mutex_init(pthread_mutex_t* m, const pthread_mutexattr_t* a) noexcept { std::memset(m, 0, sizeof *m); if (a) { int k = 0; pthread_mutexattr_gettype(a, &k); m->__data.__kind = k; } if (W) { Rt rt; W->mutex_owner.erase(m); } return 0; }
extern "C" int pthread_mutex_destroy(pthread_mutex_t* m) noexcept { if (W) { Rt rt; W->mutex_owner.erase(m); } return 0; }

// ------------------------------------------------------------------------------------------------ condition variables
static int do_cond_wait(pthread_cond_t* c, pthread_mutex_t* m, long long deadline)
{
    access(c, 8, false, __builtin_return_address(0));
    Rt rt; auto it = W->mutex_owner.find(m);
    if (it == W->mutex_owner.end() || it->second != W->cur->id) bad("a thread waits on a condition variable without holding the mutex");
    reschedule(); // still holding the mutex: the classical window of a lost wakeup
    W->mutex_owner[m] = -1; release(m); wake_all(BMutex, m);
    int rc = 0;
    if (deadline >= 0 && deadline <= W->now) { reschedule(); rc = ETIMEDOUT; }
    else { block(BCond, c, deadline); if (W->cur->timed_out) rc = ETIMEDOUT; }
    do_lock(m, -1);
    return rc;
}
extern "C" int pthread_cond_init(pthread_cond_t* c, const pthread_condattr_t*) noexcept { std::memset(c, 0, sizeof *c); return 0; }
extern "C" int pthread_cond_destroy(pthread_cond_t* c) noexcept
{
    if (!active()) return 0;
    Rt rt; for (auto& f : W->fibers) if (f->st == BCond && f->obj == c) { bad("a condition variable is destroyed while a thread waits on it"); break; }
    return 0;
}
extern "C" int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) { return active() ? do_cond_wait(c, m, -1) : 0; }
extern "C" int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const timespec* t) { return active() ? do_cond_wait(c, m, abs_ns(CLOCK_REALTIME, t)) : ETIMEDOUT; }
extern "C" int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t k, const timespec* t) { return active() ? do_cond_wait(c, m, abs_ns(k, t)) : ETIMEDOUT; }
extern "C" int pthread_cond_signal(pthread_cond_t* c) noexcept
{
    if (!active()) return 0;
    access(c, 8, false, __builtin_return_address(0));
    Rt rt; reschedule(); std::vector<Fiber*> w; for (auto& f : W->fibers) if (f->st == BCond && f->obj == c) w.push_back(f.get());
    if (!w.empty()) { unsigned k = w.size() == 1 ? 0 : W->o.mode == 2 ? choose(w.size()) : unsigned(W->rng() % w.size()); w[k]->st = Runnable; w[k]->woken = true; w[k]->deadline = -1; }
    reschedule(); return 0;
}
extern "C" int pthread_cond_broadcast(pthread_cond_t* c) noexcept { if (!active()) return 0; access(c, 8, false, __builtin_return_address(0)); Rt rt; reschedule(); wake_all(BCond, c); reschedule(); return 0; }

// ------------------------------------------------------------------------------------------------ shared mutexes
struct Rw { int writer = -1; std::map<int, int> readers; };
static std::map<const void*, Rw> rws; static World* rw_world = nullptr;
static Rw& rw_of(const void* l) { if (rw_world != W) { rws.clear(); rw_world = W; } return rws[l]; }
static int rw_lock(pthread_rwlock_t* l, bool wr, bool wait, long long deadline)
{
    access(l, 8, false, __builtin_return_address(0)); Rt rt; reschedule();
    for (;;) {
        Rw& r = rw_of(l); int me = W->cur->id;
        if (r.writer == me || (wr && r.readers.count(me))) bad("a thread locks a shared mutex that it already holds");
        if (r.writer < 0 && (!wr || r.readers.empty())) { if (wr) r.writer = me; else ++r.readers[me]; acquire(l); return 0; }
        if (!wait) return EBUSY;
        block(BMutex, l, deadline); if (deadline >= 0 && W->cur->timed_out) return ETIMEDOUT;
    }
}
extern "C" int pthread_rwlock_init(pthread_rwlock_t* l, const pthread_rwlockattr_t*) noexcept { std::memset(l, 0, sizeof *l); if (W) { Rt rt; rw_of(l) = Rw(); } return 0; }
extern "C" int pthread_rwlock_destroy(pthread_rwlock_t* l) noexcept { if (W) { Rt rt; rws.erase(l); } return 0; }
extern "C" int pthread_rwlock_rdlock(pthread_rwlock_t* l) noexcept { return active() && !W->in_rt ? rw_lock(l, false, true, -1) : 0; }
extern "C" int pthread_rwlock_wrlock(pthread_rwlock_t* l) noexcept { return active() && !W->in_rt ? rw_lock(l, true, true, -1) : 0; }
extern "C" int pthread_rwlock_tryrdlock(pthread_rwlock_t* l) noexcept { return active() && !W->in_rt ? rw_lock(l, false, false, -1) : 0; }
extern "C" int pthread_rwlock_trywrlock(pthread_rwlock_t* l) noexcept { return active() && !W->in_rt ? rw_lock(l, true, false, -1) : 0; }
extern "C" int pthread_rwlock_timedrdlock(pthread_rwlock_t* l, const timespec* t) noexcept { return active() && !W->in_rt ? rw_lock(l, false, true, abs_ns(CLOCK_REALTIME, t)) : 0; }
extern "C" int pthread_rwlock_timedwrlock(pthread_rwlock_t* l, const timespec* t) noexcept { return active() && !W->in_rt ? rw_lock(l, true, true, abs_ns(CLOCK_REALTIME, t)) : 0; }
extern "C" int pthread_rwlock_clockrdlock(pthread_rwlock_t* l, clockid_t c, const timespec* t) noexcept { return active() && !W->in_rt ? rw_lock(l, false, true, abs_ns(c, t)) : 0; }
extern "C" int pthread_rwlock_clockwrlock(pthread_rwlock_t* l, clockid_t c, const timespec* t) noexcept { return active() && !W->in_rt ? rw_lock(l, true, true, abs_ns(c, t)) : 0; }
extern "C" int pthread_rwlock_unlock(pthread_rwlock_t* l) noexcept
{
    if (!active() || W->in_rt) return 0;
    access(l, 8, false, __builtin_return_address(0)); Rt rt; Rw& r = rw_of(l); int me = W->cur->id;
    if (r.writer == me) { r.writer = -1; release(l, true); }
    else { auto it = r.readers.find(me); if (it == r.readers.end()) bad("a thread unlocks a shared mutex that it does not hold"); else if (--it->second == 0) r.readers.erase(it); release(l, true); }
    wake_all(BMutex, l); reschedule(); return 0;
}

// ------------------------------------------------------------------------------------------------ static and thread-local objects
namespace __cxxabiv1 {
extern "C" int __cxa_guard_acquire(__guard* g)
{
    char* c = reinterpret_cast<char*>(g);
    if (!active() || W->in_rt) { if (c[0]) return 0; c[1] = 1; return 1; }
    while (c[1] && !c[0]) { Rt rt; block(BOnce, g, -1); }
    if (c[0]) { Rt rt; acquire(g); return 0; }
    c[1] = 1; return 1;
}
extern "C" void __cxa_guard_release(__guard* g) { char* c = reinterpret_cast<char*>(g); c[0] = 1; c[1] = 0; if (active() && !W->in_rt) { Rt rt; release(g); wake_all(BOnce, g); } }
extern "C" void __cxa_guard_abort(__guard* g) { char* c = reinterpret_cast<char*>(g); c[1] = 0; if (active() && !W->in_rt) { Rt rt; wake_all(BOnce, g); } }
extern "C" int __cxa_thread_atexit(void (*fn)(void*), void* obj, void*) noexcept { if (active()) { Rt rt; W->cur->at_exit.emplace_back(fn, obj); } return 0; }
}

// ------------------------------------------------------------------------------------------------ futures
namespace std {
bool __atomic_futex_unsigned_base::_M_futex_wait_until(unsigned* a, unsigned v, bool to, chrono::seconds s, chrono::nanoseconds ns)
{
    Rt rt; timespec t{ time_t(s.count()), long(ns.count()) }; reschedule();
    if (*a != v) return true;
    long long d = to ? abs_ns(CLOCK_REALTIME, &t) : -1; if (to && d <= W->now) return false;
    block(BFutex, a, d); return !W->cur->timed_out;
}
bool __atomic_futex_unsigned_base::_M_futex_wait_until_steady(unsigned* a, unsigned v, bool to, chrono::seconds s, chrono::nanoseconds ns)
{
    Rt rt; timespec t{ time_t(s.count()), long(ns.count()) }; reschedule();
    if (*a != v) return true;
    long long d = to ? abs_ns(CLOCK_MONOTONIC, &t) : -1; if (to && d <= W->now) return false;
    block(BFutex, a, d); return !W->cur->timed_out;
}
void __atomic_futex_unsigned_base::_M_futex_notify_all(unsigned* a) { Rt rt; reschedule(); wake_all(BFutex, a); }
}

// ------------------------------------------------------------------------------------------------ time
extern "C" int clock_gettime(clockid_t c, timespec* t) noexcept
{
    long long n = W ? W->now : 0, base = c == CLOCK_REALTIME ? 1700000000LL : 5000LL; t->tv_sec = base + n / 1000000000LL; t->tv_nsec = n % 1000000000LL; return 0;
}
static int do_sleep(long long until) { Rt rt; if (until <= W->now) { reschedule(); return 0; } block(BSleep, nullptr, until); return 0; }
extern "C" int nanosleep(const timespec* t, timespec*) { return active() ? do_sleep(W->now + t->tv_sec * 1000000000LL + t->tv_nsec) : 0; }
extern "C" int clock_nanosleep(clockid_t c, int flags, const timespec* t, timespec*) { return active() ? do_sleep(flags ? abs_ns(c, t) : W->now + t->tv_sec * 1000000000LL + t->tv_nsec) : 0; }
extern "C" int usleep(useconds_t u) { return active() ? do_sleep(W->now + u * 1000LL) : 0; }

// ------------------------------------------------------------------------------------------------ compiler hooks
#define PC __builtin_return_address(0)
extern "C" {
void __tsan_init() {} void __tsan_func_entry(void*) {} void __tsan_func_exit() {}
void __tsan_read1(void* p) { access(p, 1, false, PC); } void __tsan_read2(void* p) { access(p, 2, false, PC); } void __tsan_read4(void* p) { access(p, 4, false, PC); } void __tsan_read8(void* p) { access(p, 8, false, PC); } void __tsan_read16(void* p) { access(p, 16, false, PC); }
void __tsan_write1(void* p) { access(p, 1, true, PC); } void __tsan_write2(void* p) { access(p, 2, true, PC); } void __tsan_write4(void* p) { access(p, 4, true, PC); } void __tsan_write8(void* p) { access(p, 8, true, PC); } void __tsan_write16(void* p) { access(p, 16, true, PC); }
void __tsan_unaligned_read2(void* p) { access(p, 2, false, PC); } void __tsan_unaligned_read4(void* p) { access(p, 4, false, PC); } void __tsan_unaligned_read8(void* p) { access(p, 8, false, PC); } void __tsan_unaligned_read16(void* p) { access(p, 16, false, PC); }
void __tsan_unaligned_write2(void* p) { access(p, 2, true, PC); } void __tsan_unaligned_write4(void* p) { access(p, 4, true, PC); } void __tsan_unaligned_write8(void* p) { access(p, 8, true, PC); } void __tsan_unaligned_write16(void* p) { access(p, 16, true, PC); }
void __tsan_volatile_read1(void*) {} void __tsan_volatile_read2(void*) {} void __tsan_volatile_read4(void*) {} void __tsan_volatile_read8(void*) {} void __tsan_volatile_read16(void*) {}
void __tsan_volatile_write1(void*) {} void __tsan_volatile_write2(void*) {} void __tsan_volatile_write4(void*) {} void __tsan_volatile_write8(void*) {} void __tsan_volatile_write16(void*) {}
void __tsan_read_range(void* p, unsigned long n) { access(p, unsigned(n), false, PC); } void __tsan_write_range(void* p, unsigned long n) { access(p, unsigned(n), true, PC); }
void __tsan_vptr_update(void** p, void* v) { if (*p != v) access(p, 8, true, PC); } void __tsan_vptr_read(void** p) { access(p, 8, false, PC); }
void __tsan_atomic_thread_fence(int) { if (active() && !W->in_rt) { Rt rt; static int fence; acquire(&fence); release(&fence, true); } } void __tsan_atomic_signal_fence(int) {}
void __tsan_mutex_create(void*, unsigned) {} void __tsan_mutex_destroy(void*, unsigned) {} void __tsan_mutex_pre_lock(void*, unsigned) {} void __tsan_mutex_post_lock(void*, unsigned, int) {} int __tsan_mutex_pre_unlock(void*, unsigned) { return 0; } void __tsan_mutex_post_unlock(void*, unsigned) {} void __tsan_mutex_pre_signal(void*, unsigned) {} void __tsan_mutex_post_signal(void*, unsigned) {}
}
static inline void at_before(const volatile void* p, unsigned n, const void* pc)
{
    if (!active() || W->in_rt) return;
    { Rt rt; auto it = W->shadow.find(reinterpret_cast<std::uintptr_t>(p) >> 3); if (it != W->shadow.end() && it->second.freed) { char b[100]; std::snprintf(b, sizeof b, "atomic access to freed memory at pc %p", pc); bad(b); } }
    if (W->o.mode == 2) return; // systematic exploration switches at blocking operations only
    Rt rt; reschedule();
}
static inline void at_acq(const volatile void* p, int mo) { if (active() && !W->in_rt && (mo == 1 || mo == 2 || mo == 4 || mo == 5)) { Rt rt; acquire(const_cast<const void*>(p)); } }
static inline void at_rel(const volatile void* p, int mo, bool rmw) { if (active() && !W->in_rt) { Rt rt; if (mo == 3 || mo == 4 || mo == 5) release(const_cast<const void*>(p), rmw); else if (!rmw) W->sync.erase(const_cast<const void*>(p)); } }
#define ATOMIC(B, T) \
extern "C" T __tsan_atomic##B##_load(const volatile T* p, int mo) { at_before(p, sizeof(T), PC); at_acq(p, mo); return *p; } \
extern "C" void __tsan_atomic##B##_store(volatile T* p, T v, int mo) { at_before(p, sizeof(T), PC); at_rel(p, mo, false); *p = v; } \
extern "C" T __tsan_atomic##B##_exchange(volatile T* p, T v, int mo) { at_before(p, sizeof(T), PC); at_acq(p, mo); at_rel(p, mo, true); T o = *p; *p = v; return o; } \
extern "C" T __tsan_atomic##B##_fetch_add(volatile T* p, T v, int mo) { at_before(p, sizeof(T), PC); at_acq(p, mo); at_rel(p, mo, true); T o = *p; *p = o + v; return o; } \
extern "C" T __tsan_atomic##B##_fetch_sub(volatile T* p, T v, int mo) { at_before(p, sizeof(T), PC); at_acq(p, mo); at_rel(p, mo, true); T o = *p; *p = o - v; return o; } \
extern "C" T __tsan_atomic##B##_fetch_and(volatile T* p, T v, int mo) { at_before(p, sizeof(T), PC); at_acq(p, mo); at_rel(p, mo, true); T o = *p; *p = o & v; return o; } \
extern "C" T __tsan_atomic##B##_fetch_or(volatile T* p, T v, int mo) { at_before(p, sizeof(T), PC); at_acq(p, mo); at_rel(p, mo, true); T o = *p; *p = o | v; return o; } \
extern "C" T __tsan_atomic##B##_fetch_xor(volatile T* p, T v, int mo) { at_before(p, sizeof(T), PC); at_acq(p, mo); at_rel(p, mo, true); T o = *p; *p = o ^ v; return o; } \
static bool cas##B(volatile T* p, T* e, T v, int mo, int fmo, const void* pc) { at_before(p, sizeof(T), pc); T o = *p; if (o == *e) { at_acq(p, mo); at_rel(p, mo, true); *p = v; return true; } at_acq(p, fmo); *e = o; return false; } \
extern "C" bool __tsan_atomic##B##_compare_exchange_strong(volatile T* p, T* e, T v, int mo, int fmo) { return cas##B(p, e, v, mo, fmo, PC); } \
extern "C" bool __tsan_atomic##B##_compare_exchange_weak(volatile T* p, T* e, T v, int mo, int fmo) { return cas##B(p, e, v, mo, fmo, PC); } \
extern "C" T __tsan_atomic##B##_compare_exchange_val(volatile T* p, T e, T v, int mo, int fmo) { cas##B(p, &e, v, mo, fmo, PC); return e; }
ATOMIC(8, std::uint8_t) ATOMIC(16, std::uint16_t) ATOMIC(32, std::uint32_t) ATOMIC(64, std::uint64_t)
