// Drives histories of operations on two objects: every operation in every initial state with a fault in every fallible
// step, all pairs of operations, and seeded longer histories.
// A Run has: static constexpr int OPS, INITS; Run(Rec&); void start(int init); string both(); bool step(int op, int x, long fault);
// bool threw; string ev; string head(); void finish();
#pragma once
#include "rec.h"
#include "track.h"
#include <cstdio>
#include <random>
#include <string>

struct G { std::mt19937_64 r; explicit G(std::uint64_t s) : r(s * 977 + 5) {} unsigned u(unsigned n) { return n ? unsigned(r() % n) : 0; } bool pc(unsigned p) { return u(100) < p; } };
struct Sink {
    std::FILE* f; unsigned long hist = 0;
    void put(const std::string& head, const std::string& init, const std::string& ev) { ++hist; std::fprintf(f, "{%s,\"init\":%s,\"ev\":[%s]}\n", head.c_str(), init.c_str(), ev.c_str()); }
};
inline std::string J(long v) { return std::to_string(v); }
inline std::string B(bool b) { return b ? "true" : "false"; }

template <typename Run> void drive(Rec& rec, Sink& out, G& g, bool pairs, unsigned rnd, bool faults, unsigned pct = 100)
{
    struct One { int op, x; long k; };
    auto play = [&](int init, const std::vector<One>& script, bool* thrown, bool* ran, bool must_throw = false) {
        std::string i, ev, head; bool any = false, fault = false;
        {
            Run r(rec); { Quiet q; r.start(init); } i = r.both(); *thrown = false;
            for (auto const& s : script) { bool ok = r.step(s.op, s.x, s.k); *ran = ok; any = any || ok; *thrown = r.threw; fault = fault || r.threw; if (must_throw && !fault) return false; }
            if (any) r.finish();
            ev = r.ev; head = r.head();
        }
        if (any) out.put(head, i, ev);
        if (!R.live.empty()) { R.live.clear(); }
        return any;
    };
    bool thrown, ran;
    for (int init = 0; init < Run::INITS; ++init)
        for (int op = 0; op < Run::OPS; ++op) for (int x = 1; x < 3; ++x) {
            play(init, { { op, x, 0 } }, &thrown, &ran); if (!ran) continue;
            if (faults) for (long k = 1; k < 12; ++k) { play(init, { { op, x, k } }, &thrown, &ran, true); if (!thrown) break; }
            if (faults) { R.lasting = true; for (long k = 1; k < 12; ++k) { play(init, { { op, x, k } }, &thrown, &ran, true); if (!thrown) break; } R.lasting = false; }
            // what the object is like after a failure shows in what can still be done with it
            if (faults) for (int then = 0; then < Run::OPS; ++then) if (g.pc(25)) play(init, { { op, x, 1 + g.u(2) }, { then, x, 0 } }, &thrown, &ran, true);
            if (pairs) for (int op2 = 0; op2 < Run::OPS; ++op2) if (pct >= 100 || g.pc(pct)) play(init, { { op, x, 0 }, { op2, 1 + int(g.u(2)), 0 } }, &thrown, &ran);
        }
    for (unsigned n = 0; n < rnd; ++n) {
        std::vector<One> s; unsigned len = 3 + g.u(12);
        for (unsigned j = 0; j < len; ++j) s.push_back({ int(g.u(Run::OPS)), 1 + int(g.u(2)), faults && g.pc(30) ? 1 + long(g.u(4)) : 0 });
        R.lasting = faults && g.pc(30); play(int(g.u(Run::INITS)), s, &thrown, &ran); R.lasting = false;
    }
}
