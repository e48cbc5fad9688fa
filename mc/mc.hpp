// mcrt: a stateless model checker for the real PlutoUtils headers.
// Harness side interface.  See mcrt.cpp for how it works.
#pragma once
#include <cstdint>
#include <cstddef>
#include <cstdarg>
#include <functional>

extern "C" void mc_untracked_begin(); // accesses by this thread are not race-checked in between
extern "C" void mc_untracked_end();
namespace mc
{
    // ---- scenario registration -------------------------------------------------------------
    struct Bounds { int preempt = 2; int spurious = 0; int time = 0; int fault = 0; int delay = -1; long max_exec = 400000; double max_s = 60; int max_steps = 60000; };
    struct Opt { Bounds quick{}; Bounds thorough{}; bool leave_blocked_ok = false; };
    void scenario(const char* prop, const char* name, const Opt& opt, void (*body)(int), int arg = 0);

    // ---- inside an execution ---------------------------------------------------------------
    struct Ev { int kind; int tid; long a; long b; long long time; };
    void point();                                   // a scheduling point
    void ev(int kind, long a = 0, long b = 0);      // append to the globally ordered log (no scheduling point)
    int ev_count();
    const Ev& ev_at(int i);
    void flag_set(int i);                           // one-shot gates, 0..63
    void flag_wait(int i);
    bool flag_get(int i);
    void counter_add(int i, long d);                // untracked global counters (ordered like ev)
    long counter_get(int i);
    int choose(int n, const char* what = "choice"); // environment choice, fully enumerated
    int choose_fault(const char* what);             // 0, or 1 while the fault budget lasts
    void quiesce();                                 // continue when nobody else can run (no time passes)
    void quiesce_until(long long ns);               // let time pass up to ns (since the epoch of the virtual clock)
    long long now();                                // virtual time, ns since start of execution
    long long real_base_ns();                       // system_clock value at virtual time 0
    long long mono_base_ns();                       // steady_clock value at virtual time 0
    int self();
    int live_threads();                             // unfinished threads, including the caller
    int blocked_threads();                          // unfinished threads that cannot run now, excluding the caller
    [[noreturn]] void fail(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
    void outcome(std::uint64_t h);                  // a distinct observable result (vacuity statistics)
    void outcome_str(const char* s);
    void note(const char* fmt, ...) __attribute__((format(printf, 1, 2))); // goes to the replay trace
    void at_end(void (*check)(int), int arg);       // runs after every thread of the execution has ended
    bool tracing();
    void hardware_threads(unsigned n);              // what std::thread::hardware_concurrency() says in this execution (2)

    // ---- file-system seam ------------------------------------------------------------------
    struct FsOp { const char* kind; const char* path; const char* path2; int fd; const void* buf; std::size_t len; };
    // called before every hooked operation below root; non-zero = fail with that errno; *partial may be
    // set to a number of bytes to write before failing (kind "write")
    typedef int (*fs_hook_t)(const FsOp& op);
    void fs_hook(const char* root, fs_hook_t hook); // reset at the end of every execution
    const char* scratch_dir();                      // fresh empty directory for this execution
    std::size_t fs_ops();                           // hooked operations so far in this execution

    void count_extra(int which, long n);            // additional counters reported in the evidence (0..7)
    void extra_name(int which, const char* name);

    

    struct Untracked { Untracked() { mc_untracked_begin(); } ~Untracked() { mc_untracked_end(); } };
}
#define MC_CHECK(cond, ...) do { if (!(cond)) ::mc::fail(__VA_ARGS__); } while (0)
