// Runs scripted scenarios of Trigger, sleep() and tic()/toc() under the deterministic scheduler and records what happens.
// usage: h_trigger OUT TIER SEED PROFILE SHARD NSHARDS        profile: trigger | sleep
#include "vsched.h"
#include "gul14/Trigger.h"
#include "gul14/time_util.h"
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <memory>
#include <random>
#include <set>
#include <string>
#include <thread>
#include <vector>
using std::string; using namespace std::chrono;

enum K { TRIG, RST, SETT, SETF, READ, WAIT, WFOR, WUNT, SLT, SL, TOC, PAUSE, DESTROY };
static const char* kName[] = { "set", "clear", "set", "clear", "read", "wait", "timed", "timed", "timed", "sleep", "toc", "", "destroy" };
struct Op { K k; int ms = 0; int form = 0; int us = 0; };
struct Scenario { bool init = false; std::vector<std::vector<Op>> th; };
struct Ctx { gul14::Trigger* trg; std::vector<int> fiber; std::vector<char>* last; };
__attribute__((no_sanitize("thread"), noinline)) static void mark(char* p) { *p = 1; }
__attribute__((no_sanitize("thread"), noinline)) static bool marked(const char* p) { return *p; }

static void call(const Op& o, long long d) { vs::point(); vs::log(string("\"e\":\"call\",\"op\":\"") + kName[o.k] + "\",\"d\":" + std::to_string(d)); }
static void ret(const Op& o, long long v) { vs::log(string("\"e\":\"ret\",\"op\":\"") + kName[o.k] + "\",\"v\":" + std::to_string(v)); vs::point(); }

static void run_op(Ctx& c, const Op& o)
{
    long long t0 = vs::now_us(), dl = t0 + o.ms * 1000LL;
    switch (o.k) {
    case TRIG: call(o, 0); c.trg->trigger(); ret(o, 0); break;
    case RST: call(o, 0); c.trg->reset(); ret(o, 0); break;
    case SETT: { call(o, 0); auto& r = (*c.trg = true); ret(o, &r == c.trg ? 0 : 1); break; }
    case SETF: { call(o, 0); auto& r = (*c.trg = false); ret(o, &r == c.trg ? 0 : 1); break; }
    case READ: { call(o, 0); bool b = *c.trg; ret(o, b); break; }
    case WAIT: call(o, 0); c.trg->wait(); ret(o, 1); break;
    case WFOR: { vs::hold_time(true); call(o, dl = vs::now_us() + o.ms * 1000LL); vs::hold_time(false); bool b;
        switch (o.form) { case 0: b = c.trg->wait_for(milliseconds(o.ms)); break; case 1: b = c.trg->wait_for(nanoseconds(o.ms * 1000000LL)); break; case 2: b = c.trg->wait_for(duration<double>(o.ms / 1000.0)); break; case 3: b = c.trg->wait_for(duration<float, std::milli>(float(o.ms))); break; default: b = c.trg->wait_for(duration<short, std::ratio<1, 500>>(short(o.ms / 2))); dl = t0; }
        ret(o, b); break; }
    case WUNT: { vs::hold_time(true); dl = vs::now_us() + o.ms * 1000LL; call(o, dl); vs::hold_time(false); bool b;
        if (o.form % 2) b = c.trg->wait_until(steady_clock::time_point(duration_cast<steady_clock::duration>(seconds(5000) + microseconds(dl))));
        else b = c.trg->wait_until(system_clock::time_point(duration_cast<system_clock::duration>(seconds(1700000000) + microseconds(dl))));
        ret(o, b); break; }
    case SLT: { vs::hold_time(true); call(o, vs::now_us() + o.ms * 1000LL + o.us); vs::hold_time(false); bool b; const long long us = o.ms * 1000LL + o.us;
        if (o.us) b = o.form % 3 == 0 ? gul14::sleep(microseconds(us), *c.trg) : o.form % 3 == 1 ? gul14::sleep(duration<int, std::ratio<1, 16>>(int(us / 62500)), *c.trg) : gul14::sleep(us / 1e6, *c.trg);
        else if (o.form % 3 == 0) b = gul14::sleep(milliseconds(o.ms), *c.trg); else if (o.form % 3 == 1) b = gul14::sleep(o.ms / 1000.0, *c.trg); else b = gul14::sleep(duration<float, std::milli>(float(o.ms)), *c.trg);
        ret(o, !b); break; }
    case SL: { vs::hold_time(true); call(o, vs::now_us() + o.ms * 1000LL + o.us); vs::hold_time(false); bool b; const long long us = o.ms * 1000LL + o.us;
        if (o.us) b = o.form % 3 == 0 ? gul14::sleep(microseconds(us)) : o.form % 3 == 1 ? gul14::sleep(duration<int, std::ratio<1, 16>>(int(us / 62500))) : gul14::sleep(us / 1e6);
        else if (o.form % 4 == 0) b = gul14::sleep(milliseconds(o.ms)); else if (o.form % 4 == 1) b = gul14::sleep(o.ms / 1000.0); else if (o.form % 4 == 2) b = gul14::sleep(microseconds(o.ms * 1000LL)); else b = gul14::sleep(duration<float, std::milli>(float(o.ms)));
        ret(o, b); break; }
    case TOC: { vs::hold_time(true); auto t = gul14::tic(); call(o, vs::now_us()); vs::hold_time(false); std::this_thread::sleep_for(microseconds(o.ms * 777LL)); vs::hold_time(true);
        long long now = vs::now_us(), v = 0, e = 0;
        switch (o.form % 6) { case 0: v = std::llround(gul14::toc(t) * 1e6); e = 1; break; case 1: v = gul14::toc<milliseconds>(t); e = 1000; break; case 2: v = gul14::toc<microseconds>(t); e = 1; break; case 3: v = gul14::toc<seconds>(t); e = 1000000; break; case 4: v = std::llround(double(gul14::toc<duration<double, std::milli>>(t)) * 1000); e = 1; break; default: v = gul14::toc<minutes>(t); e = 60000000; }
        vs::log("\"e\":\"ret\",\"op\":\"toc\",\"v\":" + std::to_string(v) + ",\"u\":" + std::to_string(e)); (void)now; vs::hold_time(false); break; }
    case PAUSE: std::this_thread::sleep_for(milliseconds(o.ms)); break;
    case DESTROY: {
        // permitted once every other thread has ended or is inside of its last (waiting) call
        bool ok = false;
        for (unsigned i = 0; i < 160 && !ok; ++i) { ok = true; for (std::size_t k = 0; k < c.fiber.size(); ++k) if (!vs::is_done(c.fiber[k]) && !(marked(&(*c.last)[k]) && vs::in_cond(c.fiber[k]))) ok = false; if (!ok) { if (i % 4 == 3) std::this_thread::sleep_for(microseconds(i < 40 ? 300 : i < 80 ? 5000 : 20000000)); else vs::point(); } }
        if (!ok) { // the waiting threads do not use a condition variable: release them instead
            for (unsigned i = 0; i < 50; ++i) { Op s{ TRIG }; run_op(c, s); bool all = true; for (int k : c.fiber) all = all && vs::is_done(k); if (all) break; std::this_thread::sleep_for(milliseconds(1)); }
            return;
        }
        vs::log("\"e\":\"call\",\"op\":\"destroy\",\"d\":0"); delete c.trg; c.trg = nullptr; ret(o, 0); break; }
    }
}
static vs::Result run(const Scenario& sc, const vs::Options& o)
{
    auto r = vs::execute(o, [&] {
        std::vector<char> last(sc.th.size(), 0); Ctx c{ new gul14::Trigger(sc.init), {}, &last }; std::vector<std::thread> ts;
        for (std::size_t i = 1; i < sc.th.size(); ++i) {
            c.fiber.push_back(int(i)); char* lp = &last[i - 1]; const auto* ops = &sc.th[i]; gul14::Trigger* trg = c.trg;
            ts.emplace_back([trg, ops, lp] { Ctx d{ trg, {}, nullptr }; for (std::size_t k = 0; k < ops->size(); ++k) { if (k + 1 == ops->size()) mark(lp); run_op(d, (*ops)[k]); } });
        }
        for (auto& op : sc.th[0]) run_op(c, op);
        for (auto& t : ts) t.join();
        if (c.trg) { Op d{ DESTROY }; c.fiber.clear(); run_op(c, d); }
    });
    if (!r.stuck && !r.limit) r.log.push_back("{\"t\":0,\"f\":0,\"e\":\"fin\"}");
    if (r.stuck) r.bad.push_back("all threads are blocked forever: " + r.blocked);
    if (r.limit) r.bad.push_back("the execution does not end");
    return r;
}
struct G { std::mt19937_64 r; explicit G(std::uint64_t s) : r(s * 977 + 5) {} unsigned u(unsigned n) { return n ? unsigned(r() % n) : 0; } bool pc(unsigned p) { return u(100) < p; } };
static Op wait_op(G& g) { static const int ms[] = { 0, 1, 2, 3, 4, 7, 9, 40, 3000, 600000, -5 }; int m = ms[g.u(11)]; switch (g.u(5)) { case 0: case 1: return { WAIT }; case 2: return { WFOR, m > 100000 ? 3000 : m, int(g.u(4)) }; case 3: return { WUNT, m, int(g.u(2)) }; default: return { SLT, m > 100000 ? 3000 : m, int(g.u(3)) }; } }
static Scenario random_trigger(G& g)
{
    Scenario s; s.init = g.pc(15); s.th.resize(2 + g.u(3));
    for (std::size_t i = 1; i < s.th.size(); ++i) {
        auto& t = s.th[i];
        for (unsigned k = g.u(3); k > 0; --k) switch (g.u(8)) { case 0: t.push_back({ TRIG }); break; case 1: t.push_back({ RST }); break; case 2: t.push_back({ SETT }); break; case 3: t.push_back({ SETF }); break; case 4: t.push_back({ READ }); break; case 5: t.push_back({ PAUSE, 1 + int(g.u(5)) }); break;
            default: { Op o = wait_op(g); if (o.k == WAIT) o = Op{ WFOR, int(g.u(6)), 0 }; t.push_back(o); } }
        if (g.pc(70)) t.push_back(wait_op(g)); else t.push_back({ READ });
    }
    auto& m = s.th[0];
    for (unsigned k = g.u(5); k > 0; --k) switch (g.u(7)) { case 0: m.push_back({ TRIG }); break; case 1: m.push_back({ RST }); break; case 2: m.push_back({ SETT }); break; case 3: m.push_back({ SETF }); break; case 4: m.push_back({ READ }); break; default: m.push_back({ PAUSE, 1 + int(g.u(8)) }); }
    m.push_back(g.pc(50) ? Op{ DESTROY } : Op{ TRIG });
    if (m.back().k == TRIG) { // others may reset it: keep it high until they are done
        for (std::size_t i = 1; i < s.th.size(); ++i) for (auto& o : s.th[i]) if (o.k == RST || o.k == SETF) o.k = READ;
    }
    return s;
}
static Scenario random_sleep(G& g)
{
    Scenario s; s.th.resize(1 + g.u(3)); static const int ms[] = { 0, 1, 2, 3, 5, 7, 9, 11, 13, 29, 100, 250, 999, 1000, 1001, 2500, 61000, -3 };
    auto with_us = [&](Op o) { if (g.pc(30)) { if (o.form % 3 == 1) { o.ms = 62 + 1000 * int(g.u(3)); o.us = 500; } else o.us = 1 + int(g.u(999)); } return o; };
    if (g.pc(50)) { // interruptible
        if (s.th.size() == 1) s.th.resize(2);
        s.init = g.pc(10);
        for (std::size_t i = 1; i < s.th.size(); ++i) for (unsigned k = 1 + g.u(3); k > 0; --k) s.th[i].push_back(with_us({ SLT, ms[g.u(18)], int(g.u(3)) }));
        for (unsigned k = g.u(4); k > 0; --k) switch (g.u(5)) { case 0: s.th[0].push_back({ TRIG }); break; case 1: s.th[0].push_back({ RST }); break; case 2: s.th[0].push_back({ SL, ms[g.u(15)], 0 }); break; default: s.th[0].push_back({ PAUSE, 1 + int(g.u(30)) }); }
        return s;
    }
    for (auto& t : s.th) for (unsigned k = 1 + g.u(4); k > 0; --k) { int m = ms[g.u(18)]; if (g.pc(50)) t.push_back(with_us({ SL, m, int(g.u(4)) })); else t.push_back({ TOC, std::abs(m), int(g.u(6)) }); }
    return s;
}
static std::vector<Scenario> small_trigger()
{
    std::vector<Scenario> v; auto S = [&](std::vector<std::vector<Op>> t, bool init = false) { Scenario s; s.init = init; s.th = t; v.push_back(s); };
    S({ { { TRIG } }, { { WAIT } } }); S({ { { SETT } }, { { WAIT } }, { { WAIT } } }); S({ { { PAUSE, 1 }, { DESTROY } }, { { WAIT } }, { { WAIT } } });
    S({ { { DESTROY } }, { { WAIT } } }); S({ { { DESTROY } }, { { WFOR, 4 } } }); S({ { { DESTROY } }, { { WUNT, 4, 1 } }, { { WUNT, 4, 0 } } }); S({ { { DESTROY } }, { { SLT, 4, 1 } } });
    S({ { { TRIG } }, { { WFOR, 3 }, { READ } } }); S({ { { TRIG }, { RST }, { TRIG } }, { { WAIT } } }); S({ { { TRIG }, { SETF }, { READ }, { DESTROY } }, { { WAIT } } });
    S({ { { READ }, { RST }, { READ }, { SETT }, { READ } }, { { WAIT }, { READ } } }, true); S({ { { PAUSE, 2 }, { TRIG } }, { { SLT, 2, 0 } }, { { WFOR, 2, 2 } } });
    S({ { { RST }, { TRIG } }, { { WAIT } }, { { TRIG }, { READ } } });
    return v;
}
int main(int argc, char** argv)
{
    if (argc < 7) return 3;
    std::FILE* f = std::fopen(argv[1], "w"); if (!f) return 3;
    bool thorough = !std::strcmp(argv[2], "thorough"); std::uint64_t seed = std::strtoull(argv[3], nullptr, 10); bool trig = !std::strcmp(argv[4], "trigger");
    const unsigned shard = std::atoi(argv[5]), shards = std::atoi(argv[6]), max_distinct = (thorough ? 40000 : 4000) / shards;
    std::set<std::size_t> seen; unsigned long execs = 0, distinct = 0, steps = 0, dfs = 0, nbad = 0; std::hash<string> hash; bool complete = true;
    auto emit = [&](const Scenario& sc, const vs::Result& r, const string& how, bool early = false) {
        ++execs; steps += r.steps; string s = string("{\"slack\":") + (early ? "1000000000" : "1") + ",\"init\":" + (sc.init ? "true" : "false") + ",\"ev\":["; bool first = true;
        for (auto& e : r.log) { if (!first) s += ','; first = false; s += e; }
        for (auto& b : r.bad) { if (!first) s += ','; first = false; s += "{\"t\":0,\"f\":0,\"e\":\"bad\",\"what\":\"" + b + "\"}"; ++nbad; }
        s += "]"; if (!seen.insert(hash(s)).second) return;
        ++distinct; std::fprintf(f, "%s,\"how\":\"%s\"}\n", s.c_str(), how.c_str());
    };
    auto small = trig ? small_trigger() : std::vector<Scenario>();
    for (std::size_t i = 0; i < small.size(); ++i) {
        if (i % shards != shard) continue;
        vs::Options o; o.mode = 2; o.preemptions = thorough ? 4 : 3; std::vector<unsigned> prefix; unsigned n = 0; auto d0 = distinct;
        for (;;) {
            o.choices = prefix; auto r = run(small[i], o); emit(small[i], r, "small scenario " + std::to_string(i)); ++n; ++dfs;
            std::vector<unsigned> c = r.taken; while (!c.empty() && c.back() + 1 >= r.options[c.size() - 1]) c.pop_back();
            if (c.empty()) break;
            ++c.back(); prefix = c;
            if (n >= (thorough ? 60000u : 4000u) || distinct - d0 >= (thorough ? 2000u : 200u) || nbad > 40) { complete = false; break; }
        }
        for (unsigned k = 0; k < (thorough ? 4000u : 300u) && nbad < 40; ++k) { vs::Options p; p.mode = k % 2; p.seed = seed * 131 + k; p.spurious = k % 3; p.early_ticks = k % 4 == 3 ? 2 : 0; auto r = run(small[i], p); emit(small[i], r, "small scenario " + std::to_string(i) + " random", p.early_ticks > 0); }
    }
    G g(seed * 64 + shard + (trig ? 0 : 7));
    for (unsigned i = 0; distinct < max_distinct && nbad < 40 && i < max_distinct * 4; ++i) {
        Scenario sc = trig ? random_trigger(g) : random_sleep(g);
        for (unsigned k = 0; k < 3; ++k) { vs::Options p; p.mode = (i + k) % 2; p.seed = (seed * 64 + shard) * 7777 + i * 3 + k; p.switch_pct = 10 + 20 * (i % 4); p.spurious = (i + k) % 4; p.early_ticks = i % 3 == 0 ? 3 : 0; auto r = run(sc, p); emit(sc, r, "random scenario " + std::to_string(i), p.early_ticks > 0); }
    }
    std::fclose(f);
    std::printf("{\"executions\":%lu,\"distinct\":%lu,\"steps\":%lu,\"systematic\":%lu,\"systematic_complete\":%s}\n", execs, distinct, steps, dfs, complete ? "true" : "false");
    return 0;
}
