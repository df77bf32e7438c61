// A deterministic scheduler that runs the threads of the code under test as fibers of one OS thread.
//
// It replaces the pthread, futex, clock and sleep functions that libstdc++ and the code under test call, so the
// unmodified sources of /repo run under full control: which thread runs next, which waiter a notification wakes,
// spurious wakeups and the passing of (virtual) time are all choices made here.  The code under test is compiled
// with -fsanitize=thread but linked against the run-time below instead of the real one; every memory access is
// reported to a happens-before race detector, and accesses to freed memory are detected as well.
#pragma once
#include <cstdint>
#include <functional>
#include <string>
#include <vector>

namespace vs {

struct Options {
    int mode = 0;               // 0 random walk, 1 random priorities (PCT), 2 replay of `choices`, then default choice
    std::uint64_t seed = 1;
    unsigned switch_pct = 40;   // random walk: chance to leave a thread that could continue
    unsigned pct_depth = 3;     // random priorities: number of change points
    unsigned spurious = 0;      // budget of spurious wakeups per execution
    unsigned early_ticks = 0;   // budget of clock advances while threads could still run
    unsigned preemptions = 2;   // replay mode: preemption bound
    unsigned max_steps = 20000;
    long long far_us = 0;       // distant moment: times of the log from 1000 s on are shown relative to it (1500 s = far_us)
    int fail_thread_create = -1; // n: the n-th pthread_create (from 0) fails with EAGAIN
    std::vector<unsigned> choices; // replay mode
};

struct Result {
    bool stuck = false, limit = false;
    std::vector<std::string> bad;      // data races, use after free, misuse of a mutex, ...
    std::vector<std::string> log;      // JSON objects without the closing brace handling: complete objects
    std::vector<unsigned> options;     // replay mode: number of alternatives at each choice point
    std::vector<unsigned> taken;
    unsigned steps = 0;
    std::string blocked;
};

// Run `main_fn` as fiber 0 until all fibers have ended (or nothing can run any more).
Result execute(const Options& o, const std::function<void()>& main_fn);

int self();                                 // number of the running fiber
long long shown_us(long long us);           // as it appears in the log (numbers there are limited to 31 bits)
long long now_us();                         // virtual time in microseconds since the start of the execution
void log(const std::string& json_fields);   // append {"t":now,"f":fiber,<json_fields>} to the log
void log_as(int fiber, const std::string& json_fields); // the same on behalf of somebody else
void point();                               // a scheduling point
bool has_sigmask(const std::vector<int>& signals); // the running fiber has blocked all of these signals
// Harness-level gates: they order threads but add no happens-before edge and are not part of the code under test.
void gate_open(int g);
bool gate_wait(int g, long long timeout_us); // false: timed out
bool gate_is_open(int g);
unsigned live_fibers();
bool in_cond(int fiber);                    // the fiber waits on a condition variable
bool is_done(int fiber);
void hold_time(bool);                       // no clock advance while a thread could still run (nestable)

} // namespace vs
