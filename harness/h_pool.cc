// Runs scripted scenarios of the thread pool under the deterministic scheduler and records what happens.
// usage: h_pool OUT TIER SEED PROFILE SHARD NSHARDS
#include "vsched.h"
#include "gul14/ThreadPool.h"
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <memory>
#include <random>
#include <set>
#include <string>
#include <thread>
#include <vector>
using namespace gul14;
using std::string;
using namespace std::chrono_literals;

enum OpKind { ADD, CANCEL, CANCELALL, COUNT, FULL, IDLE, SHUT, PNAMES, RNAMES, CAPACITY, THREADS, STATE, COMPLETE, RESULT, RESET, GWAIT, GOPEN, SLEEP, DROP, NOPS };
struct Op { OpKind k; int a = 0; int b = 0; };
struct TaskSpec {
    int when = 0;       // 0 none, 1 absolute time, 2 delay
    long long ms = 0;
    int name = 0;       // 0 no name
    bool takes_pool = false; int rtype = 0; // 0 int, 1 void, 2 move-only
    bool fails = false;
    std::vector<Op> body;
    // the function object owns an object that owns the pool and does this when it is destroyed
    bool guarded = false; std::vector<Op> guard;
};
struct Scenario { unsigned threads = 1, cap = 8; long long far_ms = 0;  std::vector<std::vector<Op>> clients; std::vector<TaskSpec> tasks; };

// there is a single distant moment: once it has been reached, delays are short ones
static long long delay_ms(const Scenario& sc, const TaskSpec& t) { return sc.far_ms && t.ms >= sc.far_ms && vs::now_us() >= 1000000000LL ? t.ms - sc.far_ms : t.ms; }

static int live_closures = 0; // only touched while a single fiber runs
__attribute__((no_sanitize("thread"), noinline)) static void count_closure(int d) { live_closures += d; }
struct Token { Token() { count_closure(1); } Token(const Token&) { count_closure(1); } Token(Token&&) noexcept { count_closure(1); } ~Token() { count_closure(-1); } };

struct TaskError : std::runtime_error { int k; explicit TaskError(int kk) : std::runtime_error("task"), k(kk) {} };
struct Any { virtual ~Any() = default; virtual bool cancel() = 0; virtual TaskState state() = 0; virtual bool complete() = 0; virtual int result() = 0; };
template <typename T> int value(T&& v) { return v; }
inline int value(std::unique_ptr<int>&& v) { return *v; }
template <typename T> struct Handle : Any {
    ThreadPool::TaskHandle<T> h; int k; Handle(ThreadPool::TaskHandle<T>&& x, int kk) : h(std::move(x)), k(kk) {}
    bool cancel() override { return h.cancel(); } TaskState state() override { return h.get_state(); } bool complete() override { return h.is_complete(); }
    int result() override { return value(h.get_result()); }
};
template <> inline int Handle<void>::result() { h.get_result(); return k; }

static const std::vector<int> kSignals{ SIGALRM, SIGINT, SIGPIPE, SIGTERM, SIGURG, SIGUSR1, SIGUSR2 };
static const char* kOpName[] = { "add", "cancel", "cancelall", "count", "full", "idle", "shut", "pnames", "rnames", "capacity", "threads", "state", "complete", "result", "reset" };

struct Ctx { const Scenario* sc; std::shared_ptr<ThreadPool> own; ThreadPool* pool; int as = -1; std::vector<std::unique_ptr<Any>> handles{ 320 }; };
static void run_ops(Ctx& c, const std::vector<Op>& ops);
static void run_op(Ctx& c, const Op& o);
// Owned by the function object of task k: owns the pool and calls it when it is destroyed, wherever that happens.
// What it does is recorded as the acts of a thread of its own (they may be nested in a call of the real one).
struct Guard {
    Ctx c; int k;
    Guard(const Scenario* sc, std::shared_ptr<ThreadPool> p, int kk) : c{ sc, std::move(p), nullptr }, k(kk) { c.pool = c.own.get(); c.as = 15 + k; vs::log_as(c.as, "\"e\":\"own\""); }
    ~Guard() { run_ops(c, c.sc->tasks[k].guard); run_op(c, Op{ RESET }); }
};

static string task_name(int n) { return n == 0 ? string() : "n" + std::to_string(n) + (n == 3 ? " a rather long task name that does not fit into a small buffer" : ""); }

static void body(const Scenario* sc, int k, ThreadPool* pool)
{
    const TaskSpec& t = sc->tasks[k];
    vs::log("\"e\":\"begin\",\"k\":" + std::to_string(k) + ",\"v\":" + std::to_string(vs::has_sigmask(kSignals)));
    Ctx c{ sc, nullptr, pool }; run_ops(c, t.body);
    vs::log("\"e\":\"end\",\"k\":" + std::to_string(k) + ",\"r\":\"" + (t.fails ? "exc" : "val") + "\"");
    if (t.fails) throw TaskError(k);
}
template <typename R> struct Ret;
template <> struct Ret<int> { static int make(int k) { return k; } };
template <> struct Ret<void> { static void make(int) {} };
template <> struct Ret<std::unique_ptr<int>> { static std::unique_ptr<int> make(int k) { return std::make_unique<int>(k); } };
template <typename F> static auto submit(const Scenario* sc, ThreadPool* p, const TaskSpec& t, F f)
{
    auto abs = ThreadPool::TimePoint(std::chrono::duration_cast<ThreadPool::Duration>(std::chrono::seconds(1700000000) + std::chrono::milliseconds(t.ms)));
    ThreadPool::Duration rel = std::chrono::milliseconds(delay_ms(*sc, t));
    if (t.when == 0) return t.name ? p->add_task(std::move(f), task_name(t.name)) : p->add_task(std::move(f));
    if (t.when == 1) return t.name ? p->add_task(std::move(f), abs, task_name(t.name)) : p->add_task(std::move(f), abs);
    return t.name ? p->add_task(std::move(f), rel, task_name(t.name)) : p->add_task(std::move(f), rel);
}
template <typename R> static std::unique_ptr<Any> submit_r(const Scenario* sc, ThreadPool* p, int k, std::shared_ptr<Guard> gd)
{
    const TaskSpec& t = sc->tasks[k]; Token tok;
    if (t.takes_pool) return std::make_unique<Handle<R>>(submit(sc, p, t, [sc, k, tok, gd = std::move(gd)](ThreadPool& q) { body(sc, k, &q); return Ret<R>::make(k); }), k);
    return std::make_unique<Handle<R>>(submit(sc, p, t, [sc, k, tok, p, gd = std::move(gd)]() { body(sc, k, p); return Ret<R>::make(k); }), k);
}
static string names_json(const std::vector<string>& v)
{
    string s = "["; for (auto& n : v) { if (s.size() > 1) s += ','; s += "\"" + n + "\""; } return s + "]";
}
static void ev_call(const Ctx& c, const Op& o, int k, long long d, const string& n) { vs::point(); vs::log_as(c.as < 0 ? vs::self() : c.as, string("\"e\":\"call\",\"op\":\"") + kOpName[o.k] + "\",\"k\":" + std::to_string(k) + ",\"d\":" + std::to_string(d) + ",\"n\":\"" + n + "\",\"rf\":" + std::to_string(vs::self())); }
static void ev_ret(const Ctx& c, const Op& o, const string& r, int v, const string& l = "[]") { vs::log_as(c.as < 0 ? vs::self() : c.as, string("\"e\":\"ret\",\"op\":\"") + kOpName[o.k] + "\",\"r\":\"" + r + "\",\"v\":" + std::to_string(v) + ",\"l\":" + l); vs::point(); }

static void run_op(Ctx& c, const Op& o)
{
    switch (o.k) {
    case GWAIT: vs::gate_wait(o.a, o.b < 0 ? -1 : o.b * 1000LL); return;
    case GOPEN: vs::gate_open(o.a); return;
    case DROP: c.handles[o.a].reset(); return;
    case SLEEP: std::this_thread::sleep_for(std::chrono::milliseconds(o.a)); return;
    default: break;
    }
    if (o.k == ADD) {
        const TaskSpec& t = c.sc->tasks[o.a];
        std::shared_ptr<Guard> gd; if (t.guarded && c.own) gd = std::make_shared<Guard>(c.sc, c.own, o.a);
        vs::hold_time(true);
        ev_call(c, o, o.a, t.when == 0 ? 0 : vs::shown_us(t.when == 1 ? t.ms * 1000LL : vs::now_us() + delay_ms(*c.sc, t) * 1000LL), task_name(t.name));
        try {
            auto h = t.rtype == 0 ? submit_r<int>(c.sc, c.pool, o.a, std::move(gd)) : t.rtype == 1 ? submit_r<void>(c.sc, c.pool, o.a, std::move(gd)) : submit_r<std::unique_ptr<int>>(c.sc, c.pool, o.a, std::move(gd));
            c.handles[o.a] = std::move(h); ev_ret(c, o, "ok", 0);
        }
        catch (const std::bad_weak_ptr&) { ev_ret(c, o, "gone", 0); }
        catch (const std::runtime_error&) { ev_ret(c, o, "full", 0); }
        vs::hold_time(false);
        return;
    }
    if (o.k == CANCEL || o.k == STATE || o.k == COMPLETE || o.k == RESULT) {
        if (!c.handles[o.a]) return; // the task was not accepted
        Any& h = *c.handles[o.a]; ev_call(c, o, o.a, 0, "");
        try {
            if (o.k == CANCEL) { bool r = h.cancel(); ev_ret(c, o, "ok", r); }
            else if (o.k == COMPLETE) { bool r = h.complete(); ev_ret(c, o, "", r); }
            else if (o.k == STATE) { auto s = h.state(); ev_ret(c, o, s == TaskState::pending ? "pending" : s == TaskState::running ? "running" : s == TaskState::complete ? "complete" : s == TaskState::canceled ? "canceled" : "?", 0); }
            else { int r = h.result(); ev_ret(c, o, "val", r); }
        }
        catch (const TaskError& e) { ev_ret(c, o, "exc", e.k); }
        catch (const std::logic_error&) { ev_ret(c, o, o.k == RESULT ? "logic" : "gone", 0); }
        return;
    }
    if (o.k == RESET) { if (!c.own) return; ev_call(c, o, 0, 0, ""); c.pool = nullptr; c.own.reset(); ev_ret(c, o, "", 0); return; }
    if (!c.pool) return;
    ThreadPool& p = *c.pool; ev_call(c, o, 0, 0, "");
    switch (o.k) {
    case CANCELALL: { auto n = p.cancel_pending_tasks(); ev_ret(c, o, "ok", int(n)); break; }
    case COUNT: { auto n = p.count_pending(); ev_ret(c, o, "", int(n)); break; }
    case FULL: { bool b = p.is_full(); ev_ret(c, o, "", b); break; }
    case IDLE: { bool b = p.is_idle(); ev_ret(c, o, "", b); break; }
    case SHUT: { bool b = p.is_shutdown_requested(); ev_ret(c, o, "", b); break; }
    case PNAMES: { auto v = p.get_pending_task_names(); ev_ret(c, o, "", 0, names_json(v)); break; }
    case RNAMES: { auto v = p.get_running_task_names(); ev_ret(c, o, "", 0, names_json(v)); break; }
    case CAPACITY: { auto n = p.capacity(); ev_ret(c, o, "", int(n)); break; }
    case THREADS: { auto n = p.count_threads(); ev_ret(c, o, "", int(n)); break; }
    default: break;
    }
}
static void run_ops(Ctx& c, const std::vector<Op>& ops) { for (auto& o : ops) run_op(c, o); }

static vs::Result run(const Scenario& sc, vs::Options o, string& clients)
{
    o.far_us = sc.far_ms * 1000;
    clients = "0"; live_closures = 0;
    auto r = vs::execute(o, [&] {
        Ctx c{ &sc, make_thread_pool(sc.threads, sc.cap), nullptr }; c.pool = c.own.get();
        std::vector<std::thread> ts;
        for (std::size_t i = 1; i < sc.clients.size(); ++i) {
            auto p = c.own;
            ts.emplace_back([&sc, i, p]() mutable { Ctx d{ &sc, std::move(p), nullptr }; d.pool = d.own.get(); run_ops(d, sc.clients[i]); run_op(d, Op{ RESET }); });
        }
        run_ops(c, sc.clients[0]);
        run_op(c, Op{ RESET });
        for (auto& t : ts) t.join();
    });
    for (std::size_t i = 1; i < sc.clients.size(); ++i) clients += "," + std::to_string(sc.threads + i);
    if (!r.stuck && !r.limit) {
        if (live_closures != 0) r.bad.push_back(std::to_string(live_closures) + " function objects were never destroyed");
        r.log.push_back("{\"t\":" + std::to_string(0) + ",\"f\":0,\"e\":\"fin\"}");
    }
    if (r.stuck) r.bad.push_back("all threads are blocked forever: " + r.blocked);
    if (r.limit) r.bad.push_back("the execution does not end");
    return r;
}

// ------------------------------------------------------------------------------------------------ scenarios
struct G { std::mt19937_64 r; explicit G(std::uint64_t s) : r(s * 977 + 5) {} unsigned u(unsigned n) { return n ? unsigned(r() % n) : 0; } bool pc(unsigned p) { return u(100) < p; } };

// some of the tasks that have a start time get one hours, weeks or decades away
static void far_tasks(G& g, Scenario& s)
{
    if (!g.pc(20)) return;
    static const long long h = 3600000; const long long away[] = { 2 * h, 30 * h, 24 * 60 * h, 24 * 36525 * h }; s.far_ms = away[g.u(4)];
    for (auto& t : s.tasks) if (t.when != 0 && g.pc(50)) t.ms += s.far_ms;
}
static Scenario random_scenario(G& g, const string& profile)
{
    Scenario s; s.threads = 1 + g.u(3); s.cap = 1 + g.u(6); if (g.pc(30)) s.cap = 8;
    unsigned nt = 2 + g.u(5), nested = g.pc(40) ? 1 + g.u(2) : 0; if (nt + nested > 8) nested = 0;
    const bool guards = g.pc(30); const unsigned spare = guards && nt + nested < 8 ? 1 : 0;
    s.tasks.resize(1 + nt + nested + spare);
    bool timed = profile == "time" ? true : g.pc(35);
    for (unsigned k = 1; k < s.tasks.size(); ++k) {
        TaskSpec& t = s.tasks[k];
        if (timed && g.pc(60)) { t.when = 1 + g.u(2); t.ms = int(g.u(5)) * (g.pc(80) ? 4 : 5000); if (g.pc(5)) t.ms = -10; }
        t.name = g.pc(70) ? 1 + int(g.u(3)) : 0; t.takes_pool = g.pc(50); t.rtype = int(g.u(3)); t.fails = g.pc(20);
        for (unsigned i = g.u(3); i > 0; --i) switch (g.u(9)) {
            case 0: t.body.push_back({ GWAIT, int(g.u(3)), 12 }); break;
            case 1: t.body.push_back({ SLEEP, 1 + int(g.u(9)) }); break;
            case 2: t.body.push_back({ GOPEN, int(g.u(3)) }); break;
            case 3: t.body.push_back({ IDLE }); break;
            case 4: t.body.push_back({ RNAMES }); break;
            case 5: t.body.push_back({ COUNT }); break;
            case 6: t.body.push_back({ SHUT }); break;
            case 7: if (profile == "cancel" || g.pc(20)) t.body.push_back({ CANCELALL }); break;
            default: break;
        }
        if (guards && k > nested && g.pc(50)) {
            t.guarded = true; static const OpKind what[] = { COUNT, IDLE, RNAMES, PNAMES, FULL, SHUT, CANCELALL };
            for (unsigned i = g.u(3); i > 0; --i) t.guard.push_back({ what[g.u(profile == "cancel" || g.pc(15) ? 7 : 6)] });
            if (k == nested + 1 && spare && g.pc(50)) t.guard.push_back({ ADD, int(s.tasks.size() - 1) });
        }
        if (k <= nested) { t.takes_pool = true; t.body.push_back({ ADD, int(nt + k) }); if (g.pc(40)) t.body.push_back({ g.pc(50) ? COMPLETE : g.pc(50) ? STATE : CANCEL, int(nt + k) }); }
    }
    unsigned nc = 1 + (g.pc(60) ? 1 + g.u(2) : 0); s.clients.resize(nc);
    std::vector<std::vector<int>> mine(nc);
    for (unsigned k = 1; k <= nt; ++k) {
        unsigned c = g.u(nc); auto& ops = s.clients[c];
        ops.push_back({ ADD, int(k) }); mine[c].push_back(int(k));
        for (unsigned i = g.u(3); i > 0; --i) {
            int h = mine[c][g.u(unsigned(mine[c].size()))];
            switch (g.u(guards ? 17 : 15)) {
            case 0: case 1: ops.push_back({ CANCEL, h }); break;
            case 2: case 3: ops.push_back({ STATE, h }); break;
            case 4: ops.push_back({ COMPLETE, h }); break;
            case 5: ops.push_back({ COUNT }); break;
            case 6: ops.push_back({ FULL }); break;
            case 7: ops.push_back({ IDLE }); break;
            case 8: ops.push_back({ PNAMES }); break;
            case 9: ops.push_back({ RNAMES }); break;
            case 10: ops.push_back({ GOPEN, int(g.u(3)) }); break;
            case 11: ops.push_back({ SLEEP, 1 + int(g.u(6)) }); break;
            case 12: if (profile == "cancel" || g.pc(30)) ops.push_back({ CANCELALL }); break;
            case 13: ops.push_back({ RESULT, h }); break;
            case 15: case 16: ops.push_back({ DROP, h }); break;
            case 14: if (g.pc(20)) ops.push_back({ g.pc(50) ? CAPACITY : g.pc(50) ? THREADS : SHUT }); break;
            }
        }
    }
    for (unsigned c = 0; c < nc; ++c) {
        auto& ops = s.clients[c];
        bool early = g.pc(profile == "shutdown" ? 60 : 25);
        if (early) ops.push_back({ RESET });
        for (int h : mine[c]) { if (g.pc(60)) ops.push_back({ RESULT, h }); if (g.pc(25)) ops.push_back({ COMPLETE, h }); if (g.pc(30)) ops.push_back({ STATE, h }); if (g.pc(10)) ops.push_back({ CANCEL, h }); if (g.pc(10)) ops.push_back({ RESULT, h }); }
        if (!early && g.pc(30)) { ops.push_back({ SLEEP, 30 }); ops.push_back({ IDLE }); ops.push_back({ RNAMES }); }
    }
    far_tasks(g, s);
    return s;
}
// Scenarios aimed at one profile: workers held busy by gates so that the queue fills, distinct names, concurrent callers.
static Scenario focused_scenario(G& g, const string& profile)
{
    Scenario s; const bool cap = profile == "cap", state = profile == "state", time = profile == "time", shutdown = profile == "shutdown", once = profile == "once", cancel = profile == "cancel";
    s.threads = state || time ? 2 + g.u(2) : 1 + g.u(2); s.cap = cap ? 1 + g.u(3) : 8;
    const unsigned nt = 8; s.tasks.resize(1 + nt); const unsigned nc = cap ? 2 + g.u(2) : cancel || state ? 1 + g.u(2) : 1 + g.u(2);
    s.clients.resize(nc); std::vector<std::vector<int>> mine(nc);
    for (unsigned k = 1; k <= nt; ++k) {
        TaskSpec& t = s.tasks[k]; t.name = g.pc(85) ? int(k) : 0; t.takes_pool = g.pc(50); t.rtype = int(g.u(3)); t.fails = g.pc(10);
        if (k <= s.threads ? !time || g.pc(50) : state && g.pc(60)) t.body.push_back({ GWAIT, int(state ? k : g.u(2)), time || shutdown || g.pc(30) ? 8 + int(g.u(20)) : -1 });
        else if (g.pc(20)) t.body.push_back({ SLEEP, 1 + int(g.u(6)) });
        if (k > s.threads && g.pc(time ? 75 : once ? 40 : 20)) { t.when = 1 + g.u(2); t.ms = int(g.u(6)) * 5 + int(g.u(2)); }
        if (g.pc(20)) t.body.push_back({ g.pc(50) ? RNAMES : g.pc(50) ? COUNT : IDLE });
        if (cancel && g.pc(10)) t.body.push_back({ CANCELALL });
    }
    auto observe = [&](unsigned c) { auto& ops = s.clients[c]; int h = mine[c].empty() ? 0 : mine[c][g.u(unsigned(mine[c].size()))];
        unsigned w = cap ? g.u(7) : cancel ? 3 + g.u(7) : state ? g.u(10) : once ? 3 + g.u(4) : time ? 3 + g.u(5) : g.u(11);
        switch (w) { case 0: ops.push_back({ FULL }); break; case 1: ops.push_back({ COUNT }); break; case 2: ops.push_back({ state ? RNAMES : COUNT }); break; case 3: case 4: if (h) ops.push_back({ CANCEL, h }); break; case 5: ops.push_back({ SLEEP, 1 + int(g.u(4)) }); break; case 6: if (h) ops.push_back({ STATE, h }); break;
            case 7: ops.push_back({ cancel || g.pc(20) ? CANCELALL : RNAMES }); break; case 8: if (h) ops.push_back({ COMPLETE, h }); break; case 9: ops.push_back({ g.pc(50) ? PNAMES : RNAMES }); break; default: ops.push_back({ IDLE }); } };
    for (unsigned k = 1; k <= s.threads; ++k) { s.clients[0].push_back({ ADD, int(k) }); mine[0].push_back(int(k)); if (!state && g.pc(70)) s.clients[0].push_back({ SLEEP, 1 }); }
    if (g.pc(60)) for (unsigned c = 0; c < nc; ++c) s.clients[c].push_back({ SLEEP, 1 });
    for (unsigned k = s.threads + 1; k <= nt - g.u(3); ++k) { unsigned c = g.u(nc); s.clients[c].push_back({ ADD, int(k) }); mine[c].push_back(int(k)); for (unsigned i = g.u(3); i > 0; --i) observe(c); }
    for (unsigned c = 0; c < nc; ++c) for (unsigned i = g.u(3); i > 0; --i) observe(c);
    // several tasks given up out of order and more than once while others wait
    if (cancel) for (unsigned c = 0; c < nc; ++c) if (!mine[c].empty() && g.pc(60)) for (unsigned i = 2 + g.u(4); i > 0; --i) { int h = mine[c][g.u(unsigned(mine[c].size()))]; s.clients[c].push_back({ CANCEL, h }); if (g.pc(50)) s.clients[c].push_back({ g.pc(80) ? CANCEL : STATE, h }); }
    std::vector<int> gates{ 0, 1 }; if (state) { gates.clear(); for (unsigned k = 1; k <= nt; ++k) gates.push_back(int(k)); }
    for (std::size_t i = gates.size(); i > 1; --i) std::swap(gates[i - 1], gates[g.u(unsigned(i))]);
    if (shutdown && g.pc(60)) { if (nc > 1) { s.clients[0].push_back({ RESET }); } }
    for (int x : gates) { auto& ops = s.clients[0]; ops.push_back({ GOPEN, x }); if (state && g.pc(60)) { if (g.pc(50)) ops.push_back({ SLEEP, 1 }); ops.push_back({ g.pc(70) ? RNAMES : IDLE }); } else if (g.pc(40)) observe(0); }
    for (unsigned c = 0; c < nc; ++c) {
        auto& ops = s.clients[c]; if (g.pc(shutdown ? 50 : 15)) ops.push_back({ RESET });
        for (int h : mine[c]) { if (g.pc(55)) ops.push_back({ RESULT, h }); if (g.pc(20)) ops.push_back({ STATE, h }); if (g.pc(15)) ops.push_back({ COMPLETE, h }); if (g.pc(8)) ops.push_back({ CANCEL, h }); if (g.pc(8)) ops.push_back({ RESULT, h }); }
        if (g.pc(30)) { ops.push_back({ SLEEP, 40 }); ops.push_back({ IDLE }); ops.push_back({ COUNT }); }
    }
    far_tasks(g, s);
    return s;
}
// Small scenarios whose schedules are explored systematically.
static std::vector<Scenario> small_scenarios(const string& profile)
{
    std::vector<Scenario> v; auto T = [](int when, int ms, std::vector<Op> b, bool fails = false, int name = 1) { TaskSpec t; t.when = when; t.ms = ms; t.body = b; t.fails = fails; t.name = name; t.takes_pool = true; return t; };
    auto S = [&](unsigned th, unsigned cap, std::vector<std::vector<Op>> cl, std::vector<TaskSpec> ts) { Scenario s; s.threads = th; s.cap = cap; s.clients = cl; s.tasks.resize(1); for (auto& t : ts) s.tasks.push_back(t); v.push_back(s); };
    bool all = profile == "all";
    if (all || profile == "once") { S(2, 4, { { { ADD, 1 }, { ADD, 2 }, { RESULT, 1 }, { RESULT, 2 } } }, { T(0, 0, {}), T(0, 0, {}, true) });
        S(1, 4, { { { ADD, 1 }, { RESULT, 1 } }, { { ADD, 2 }, { RESULT, 2 } } }, { T(0, 0, {}), T(0, 0, {}) });
        S(2, 4, { { { ADD, 1 }, { RESULT, 1 } } }, { T(0, 0, { { ADD, 2 } }), T(0, 0, {}) }); }
    if (all || profile == "time") { S(2, 4, { { { ADD, 1 }, { ADD, 2 }, { RESULT, 2 }, { RESULT, 1 } } }, { T(2, 10, {}), T(0, 0, {}) });
        S(1, 4, { { { ADD, 1 }, { ADD, 2 }, { ADD, 3 }, { RESULT, 1 }, { RESULT, 2 }, { RESULT, 3 } } }, { T(2, 10, {}), T(2, 5, {}), T(0, 0, { { SLEEP, 7 } }) });
        S(1, 4, { { { ADD, 1 }, { ADD, 2 }, { ADD, 3 }, { SLEEP, 20 } } }, { T(0, 0, {}), T(0, 0, {}), T(0, 0, {}) }); }
    if (all || profile == "cap") { S(1, 1, { { { ADD, 1 }, { ADD, 2 }, { FULL }, { COUNT } }, { { ADD, 3 }, { FULL } } }, { T(0, 0, {}), T(0, 0, {}), T(0, 0, {}) });
        S(1, 1, { { { ADD, 1 }, { SLEEP, 1 }, { ADD, 2 }, { SLEEP, 1 }, { GOPEN, 0 } }, { { SLEEP, 1 }, { ADD, 3 } } }, { T(0, 0, { { GWAIT, 0, -1 } }), T(0, 0, {}), T(0, 0, {}) });
        S(1, 2, { { { ADD, 1 }, { ADD, 2 }, { ADD, 3 }, { COUNT }, { ADD, 4 }, { GOPEN, 0 } } }, { T(0, 0, { { GWAIT, 0, -1 } }), T(0, 0, {}), T(0, 0, {}), T(0, 0, {}) }); }
    if (all || profile == "cancel") { S(1, 4, { { { ADD, 1 }, { ADD, 2 }, { CANCEL, 2 }, { CANCEL, 1 }, { RESULT, 1 }, { RESULT, 2 } } }, { T(0, 0, {}), T(0, 0, {}) });
        S(2, 4, { { { ADD, 1 }, { ADD, 2 }, { CANCEL, 1 }, { STATE, 1 } }, { { CANCELALL } } }, { T(0, 0, {}), T(0, 0, {}) });
        S(1, 4, { { { ADD, 1 }, { ADD, 2 }, { ADD, 3 }, { CANCELALL }, { COMPLETE, 2 }, { STATE, 3 }, { GOPEN, 0 }, { RESULT, 3 }, { RESULT, 1 } } }, { T(0, 0, { { GWAIT, 0, -1 } }), T(0, 0, {}), T(2, 5, {}) }); }
    if (all || profile == "state") { S(1, 4, { { { ADD, 1 }, { STATE, 1 }, { RNAMES }, { COMPLETE, 1 }, { STATE, 1 }, { IDLE } } }, { T(0, 0, {}, false, 1) });
        S(2, 4, { { { ADD, 1 }, { PNAMES }, { RNAMES }, { RESULT, 1 }, { STATE, 1 }, { COMPLETE, 1 } }, { { ADD, 2 }, { RNAMES } } }, { T(0, 0, {}, false, 1), T(0, 0, {}, false, 2) });
        S(3, 4, { { { ADD, 1 }, { SLEEP, 1 }, { ADD, 2 }, { SLEEP, 1 }, { ADD, 3 }, { SLEEP, 1 }, { RNAMES }, { GOPEN, 1 }, { SLEEP, 1 }, { RNAMES }, { GOPEN, 3 }, { SLEEP, 1 }, { RNAMES }, { GOPEN, 2 }, { SLEEP, 1 }, { IDLE } } }, { T(0, 0, { { GWAIT, 1, -1 } }, false, 1), T(0, 0, { { GWAIT, 2, -1 } }, false, 2), T(0, 0, { { GWAIT, 3, -1 } }, false, 3) }); }
    if (all || profile == "shutdown") { S(1, 4, { { { ADD, 1 }, { RESET }, { COMPLETE, 1 }, { RESULT, 1 }, { STATE, 1 } } }, { T(0, 0, {}) });
        S(2, 4, { { { ADD, 1 }, { ADD, 2 }, { RESET }, { RESULT, 2 } } }, { T(0, 0, { { SLEEP, 3 } }), T(2, 50, {}) });
        S(1, 4, { { { ADD, 1 }, { RESET }, { RESULT, 1 } } }, { T(0, 0, { { ADD, 2 }, { SHUT } }), T(0, 0, {}) });
        S(2, 4, { { { ADD, 1 }, { RESET } }, { { ADD, 2 }, { RESET }, { STATE, 2 } } }, { T(0, 0, {}), T(0, 0, {}) });
        S(3, 4, { { { RESET } } }, {}); }
    // function objects that use and own the pool when they are destroyed
    auto D = [&](unsigned th, unsigned cap, std::vector<std::vector<Op>> cl, std::vector<TaskSpec> ts) { ts[0].guarded = true; S(th, cap, cl, ts); };
    auto K = [&](TaskSpec t, std::vector<Op> what) { t.guarded = true; t.guard = what; return t; };
    D(1, 4, { { { ADD, 1 }, { RESULT, 1 }, { RESET } } }, { K(T(0, 0, {}), { { COUNT } }) });
    D(1, 4, { { { ADD, 1 }, { DROP, 1 }, { RESET } } }, { K(T(0, 0, {}), { { ADD, 2 } }), T(0, 0, {}) });
    D(2, 4, { { { ADD, 1 }, { RESET }, { RESULT, 1 } } }, { K(T(0, 0, {}, true), {}) });
    D(1, 4, { { { ADD, 1 }, { SLEEP, 1 }, { ADD, 2 }, { DROP, 2 }, { CANCELALL }, { GOPEN, 0 }, { RESET }, { COMPLETE, 1 } } }, { K(T(0, 0, { { GWAIT, 0, -1 } }), {}), K(T(0, 0, {}), { { COUNT }, { RNAMES } }) });
    D(1, 1, { { { ADD, 1 }, { SLEEP, 1 }, { ADD, 2 }, { ADD, 3 }, { CANCEL, 2 }, { GOPEN, 0 }, { RESET } } }, { K(T(0, 0, { { GWAIT, 0, -1 } }), { { IDLE } }), K(T(0, 0, {}), { { PNAMES } }), K(T(0, 0, {}), { { FULL } }) });
    if (all || profile == "progress") { S(2, 4, { { { ADD, 1 }, { ADD, 2 } } , { { SLEEP, 25 } } }, { T(0, 0, { { GWAIT, 0, 5000 } }), T(0, 0, { { GOPEN, 0 } }) });
        S(2, 4, { { { ADD, 1 }, { SLEEP, 1 }, { ADD, 2 }, { SLEEP, 30 } } }, { T(2, 10, { { GOPEN, 0 } }), T(0, 0, { { GWAIT, 0, 40 } }) });
        S(2, 4, { { { ADD, 1 }, { ADD, 2 }, { SLEEP, 1 }, { ADD, 3 }, { SLEEP, 60 } } }, { T(2, 10, {}), T(2, 20, {}), T(0, 0, { { SLEEP, 40 } }) });
        S(3, 4, { { { ADD, 1 }, { ADD, 2 }, { SLEEP, 40 } }, { { ADD, 3 }, { SLEEP, 40 } } }, { T(0, 0, { { GWAIT, 0, 5000 } }), T(0, 0, { { GWAIT, 1, 5000 }, { GOPEN, 0 } }), T(0, 0, { { GOPEN, 1 } }) }); }
    return v;
}

// A few executions with many tasks (queue limits and identifiers beyond small numbers).
template <typename E> static void long_scenarios(bool thorough, std::uint64_t seed, unsigned shard, unsigned shards, E emit)
{
    auto go = [&](const Scenario& s, unsigned i, const char* how) { vs::Options p; p.mode = i % 2; p.seed = seed * 31 + i; p.switch_pct = 5; p.max_steps = 400000; string cl; auto r = run(s, p, cl); emit(s, r, cl, how); };
    for (unsigned i = shard; i < (thorough ? 12u : 3u); i += shards) {
        Scenario s; s.tasks.resize(301); for (auto& t : s.tasks) { t.name = 1 + int(i % 2); t.takes_pool = i & 1; }
        switch (i % 3) {
        case 0: { s.threads = 1; s.cap = 200; s.clients.resize(1); auto& c = s.clients[0]; s.tasks[1].body.push_back({ GWAIT, 0, -1 }); c.push_back({ ADD, 1 }); c.push_back({ SLEEP, 1 });
            for (int k = 2; k <= 203; ++k) { c.push_back({ ADD, k }); if (k > 199) { c.push_back({ FULL }); c.push_back({ COUNT }); } }
            c.push_back({ GOPEN, 0 }); for (int k = 1; k <= 201; ++k) c.push_back({ RESULT, k }); c.push_back({ SLEEP, 1 }); c.push_back({ IDLE }); break; }
        case 1: { s.threads = 2; s.cap = 8; s.clients.resize(1); auto& c = s.clients[0]; for (int k = 1; k <= 280; ++k) { c.push_back({ ADD, k }); if (k % 5 == 0) c.push_back({ CANCEL, k }); c.push_back({ RESULT, k }); if (k % 3 == 0) c.push_back({ STATE, k }); if (k % 7 == 0) c.push_back({ RNAMES }); } break; }
        default: { s.threads = 1; s.cap = 300; s.clients.resize(1); auto& c = s.clients[0]; s.tasks[1].body.push_back({ GWAIT, 0, -1 }); c.push_back({ ADD, 1 }); c.push_back({ SLEEP, 1 });
            for (int k = 2; k <= 290; ++k) c.push_back({ ADD, k }); for (int k = 2; k <= 290; k += 11) c.push_back({ CANCEL, k }); c.push_back({ STATE, 290 }); c.push_back({ PNAMES }); c.push_back({ COUNT });
            if (i != 2) { c.push_back({ CANCELALL }); c.push_back({ STATE, 270 }); } c.push_back({ GOPEN, 0 }); for (int k = 1; k <= 290; k += 3) c.push_back({ RESULT, k }); break; }
        }
        go(s, i, "long scenario");
    }
}
// Creation of pools: permitted and forbidden arguments, and failure to start the n-th thread.
static void constructors(std::FILE* f)
{
    const std::size_t big = std::size_t(-1); string s;
    auto clip = [](std::size_t n) { return std::to_string(n > 2000000000u ? 2000000000u : n); };
    auto one = [&](std::size_t n, std::size_t c, int fail) {
        for (unsigned m = 0; m < 6; ++m) {
            vs::Options o; o.mode = m % 2; o.seed = m; o.fail_thread_create = fail; string r = "?"; std::size_t th = 0, ca = 0; unsigned live = 0;
            auto res = vs::execute(o, [&] {
                try { auto p = c == 77 ? make_thread_pool(n) : make_thread_pool(n, c); th = p->count_threads(); ca = p->capacity(); r = "ok"; }
                catch (const std::invalid_argument&) { r = "invalid"; } catch (const std::system_error&) { r = "system"; } catch (...) { r = "other"; }
                live = vs::live_fibers();
            });
            if (res.stuck) res.bad.push_back("all threads are blocked forever: " + res.blocked);
            s += (s.empty() ? "" : ",") + string("{\"t\":0,\"f\":0,\"e\":\"ctor\",\"n\":") + clip(n) + ",\"c\":" + (c == 77 ? "200" : clip(c)) + ",\"d\":" + std::to_string(fail) + ",\"r\":\"" + r + "\",\"v\":" + clip(th) + ",\"k\":" + clip(ca) + ",\"l\":" + std::to_string(live) + "}";
            for (auto& b : res.bad) s += ",{\"t\":0,\"f\":0,\"e\":\"bad\",\"what\":\"" + b + "\"}";
        }
    };
    for (std::size_t n : { std::size_t(0), std::size_t(1), std::size_t(2), std::size_t(5), std::size_t(20), std::size_t(10001), std::size_t(65537), big, big - 1 })
        for (std::size_t c : { std::size_t(0), std::size_t(1), std::size_t(77), std::size_t(300), std::size_t(65536), std::size_t(9999999), std::size_t(10000000), std::size_t(10000001), big }) one(n, c, -1);
    for (int fail = 0; fail < 4; ++fail) for (std::size_t n = 1; n < 5; ++n) one(n, 4, fail);
    std::fprintf(f, "{\"n\":1,\"cap\":1,\"cl\":[0],\"ev\":[%s],\"how\":\"constructors\"}\n", s.c_str());
}

int main(int argc, char** argv)
{
    if (argc < 7) return 3;
    std::FILE* f = std::fopen(argv[1], "w"); if (!f) return 3;
    bool thorough = !std::strcmp(argv[2], "thorough"); std::uint64_t seed = std::strtoull(argv[3], nullptr, 10); string profile = argv[4];
    std::set<std::size_t> seen; unsigned long execs = 0, distinct = 0, steps = 0, dfs = 0, nbad = 0; std::hash<string> hash; bool complete = true;
    const unsigned shard = std::atoi(argv[5]), shards = std::atoi(argv[6]); const unsigned max_distinct = (thorough ? 30000 : 10000) / shards;
    auto emit = [&](const Scenario& sc, const vs::Result& r, const string& clients, const string& how) {
        ++execs; steps += r.steps;
        string s = "{\"n\":" + std::to_string(sc.threads) + ",\"cap\":" + std::to_string(sc.cap) + ",\"cl\":[" + clients + "],\"ev\":["; bool first = true;
        for (auto& e : r.log) { if (!first) s += ','; first = false; s += e; }
        for (auto& b : r.bad) { if (!first) s += ','; first = false; s += "{\"t\":0,\"f\":0,\"e\":\"bad\",\"what\":\"" + b + "\"}"; ++nbad; }
        s += "]";
        if (!seen.insert(hash(s)).second) return;
        ++distinct; std::fprintf(f, "%s,\"how\":\"%s\"}\n", s.c_str(), how.c_str());
    };
    // 1. systematic exploration of the small scenarios within a preemption bound
    if (profile == "long") { long_scenarios(thorough, seed, shard, shards, emit); constructors(f); std::fclose(f); std::printf("{\"executions\":%lu,\"distinct\":%lu,\"steps\":%lu,\"systematic\":0,\"systematic_complete\":true}\n", execs, distinct, steps); return 0; }
    auto small = small_scenarios("all"); const unsigned per = (thorough ? 40000 : 2500), cap_distinct = thorough ? 800 : 80;
    for (std::size_t i = 0; i < small.size(); ++i) {
        if (i % shards != shard) continue;
        vs::Options o; o.mode = 2; o.preemptions = thorough ? 3 : 2; o.spurious = 0; std::vector<unsigned> prefix; unsigned n = 0; auto d0 = distinct;
        for (;;) {
            string cl; o.choices = prefix; auto r = run(small[i], o, cl); emit(small[i], r, cl, "small scenario " + std::to_string(i)); ++n; ++dfs;
            // next prefix in depth-first order
            std::vector<unsigned> c = r.taken; while (!c.empty() && c.back() + 1 >= r.options[c.size() - 1]) c.pop_back();
            if (c.empty()) break;
            ++c.back(); prefix = c;
            if (n >= per || distinct - d0 >= cap_distinct || nbad > 40) { complete = false; break; }
        }
        for (unsigned k = 0; k < (thorough ? 4000u : 300u) && nbad < 40; ++k) { vs::Options p; p.mode = k % 2; p.seed = seed * 131 + k; p.spurious = k % 3; p.early_ticks = k % 4 == 3 ? 2 : 0; string cl; auto r = run(small[i], p, cl); emit(small[i], r, cl, "small scenario " + std::to_string(i) + " random"); }
    }
    // 2. random scenarios under random schedules
    G g(seed * 64 + shard);
    for (unsigned i = 0; distinct < max_distinct && nbad < 40 && i < max_distinct * 4; ++i) {
        Scenario sc = i % 2 ? focused_scenario(g, profile) : random_scenario(g, profile);
        for (unsigned k = 0; k < 3; ++k) { vs::Options p; p.mode = (i + k) % 2; p.seed = (seed * 64 + shard) * 7777 + i * 3 + k; p.switch_pct = 10 + 20 * (i % 4); p.spurious = (i + k) % 3; p.early_ticks = i % 3 == 0 ? 3 : 0; string cl; auto r = run(sc, p, cl); emit(sc, r, cl, "random scenario " + std::to_string(i)); }
    }
    std::fclose(f);
    std::printf("{\"executions\":%lu,\"distinct\":%lu,\"steps\":%lu,\"systematic\":%lu,\"systematic_complete\":%s}\n", execs, distinct, steps, dfs, complete ? "true" : "false");
    return 0;
}
