// mcrt: stateless model checking of real C++ code.
//
// The harness (and with it the real, unmodified headers) is compiled with -fsanitize=thread, but linked against the
// __tsan_* functions defined here instead of libtsan.  Threads are fibers on one OS thread; every pthread, futex, clock
// and atomic operation is a scheduling point or a scheduling-relevant event; plain accesses are checked for data races
// by vector clocks (only real synchronisation creates edges, never the scheduler), and for use of freed memory.
// Executions are enumerated depth first, within bounds on preemptions, spurious wake-ups, early time-outs and injected
// faults; a branch is cut when a state with the same happens-before history was expanded before.
#ifndef _GNU_SOURCE
#define _GNU_SOURCE 1
#endif
#include "mc.hpp"
#include <pthread.h>
#include <semaphore.h>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <ftw.h>
#include <link.h>
#include <linux/futex.h>
#include <sched.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <cxxabi.h>
#include <exception>
#include <mutex>
#include <new>
#include <string>
#include <typeinfo>
#include <vector>
#include <algorithm>

typedef uint64_t u64; typedef uint32_t u32; typedef uint16_t u16; typedef uint8_t u8; typedef int64_t i64;

#define HOT __attribute__((hot))
#define NOINL __attribute__((noinline))
#define likely(x) __builtin_expect(!!(x), 1)
#define unlikely(x) __builtin_expect(!!(x), 0)

// ------------------------------------------------------------------------------------------------ real functions
template<class F> static F real_fn(const char* n) { return (F)dlsym(RTLD_NEXT, n); }
#define REAL(name) ([]{ static auto p = real_fn<decltype(&::name)>(#name); return p; }())

// malloc-based containers for the runtime itself (operator new is replaced below)
template<class T> struct Mal
{
    typedef T value_type;
    Mal() {}
    template<class U> Mal(const Mal<U>&) {}
    T* allocate(size_t n) { return (T*)malloc(n * sizeof(T)); }
    void deallocate(T* p, size_t) { free(p); }
    template<class U> bool operator==(const Mal<U>&) const { return true; }
    template<class U> bool operator!=(const Mal<U>&) const { return false; }
};
template<class T> using Vec = std::vector<T, Mal<T>>;
typedef std::basic_string<char, std::char_traits<char>, Mal<char>> Str;

// ------------------------------------------------------------------------------------------------ constants
enum { MAXT = 24, MAXPATH = 1 << 17, STACK = 256 * 1024, NFLAGS = 64, NEV = 4096 };
static const size_t ARENA = 96u << 20;
static const int EXIT_VIOL = 77, EXIT_NONDET = 78;
static const i64 REAL_BASE = 1700000000LL * 1000000000LL;
static const i64 MONO_BASE = 5000LL * 1000000000LL;
static const int FAIR = 1500;

struct Shared
{
    // progress of the child, read by the parent when the child dies
    volatile int path_len; u8 path[MAXPATH][2];
    volatile int bound;
    char msg[8192];
    volatile long execs, steps, states, cached, maxdepth, outcomes, capped, complete_bound, accesses, forced_switch;
    volatile long extra[8];
    char sample[3][2048];
    volatile int nsample;
    volatile int done;
};
static Shared* shm;

enum OpK : u8 { O_RUN, O_LOCK, O_RDLOCK, O_WRLOCK, O_CONDW, O_JOIN, O_FLAG, O_FUTEX, O_SLEEP, O_QUIESCE, O_GUARD, O_YIELD, O_NEW };
static const char* opn[] = { "run", "lock", "rdlock", "wrlock", "cond-wait", "join", "gate", "futex-wait", "sleep", "quiesce", "guard", "yield", "start" };

struct VC { u32 c[MAXT]; };

struct Obj
{
    const void* addr; u32 gen; int id;
    VC vc, rvc; u64 hw, hr; // rvc: released by readers of an rwlock, acquired by writers only
    int owner, count;      // mutex / rwlock writer: fiber id+1
    int readers;           // rwlock
    u64 readmask;
};

struct Dtor { void (*fn)(void*); void* obj; };

struct Fiber
{
    int id; void* sp; char* stack;
    bool used, finished, detached, joined;
    OpK op; void* obj; void* obj2; i64 deadline; bool signaled, timedout; u32 yield_step; int yskip;
    VC vc; u64 h;
    VC acq_pending, rel_fence; bool has_rel_fence;
    void* (*fn)(void*); void* arg; void* ret;
    u64 eh[2]; int err; void* once_callable; void (*once_call)();
    char* tls; int untracked;
    Dtor* dtors; int nd, capd;
};

struct Entry { u32 clk; u8 tid, mask, flags, pad; void* pc; };  // flags: 1 write, 2 atomic
struct Cell { u32 gen; u8 n; Entry e[6]; };

// ------------------------------------------------------------------------------------------------ state
static bool g_active;          // an execution is in progress and the current code is a fiber
static int g_rt;               // inside the runtime: do not intercept
static Fiber F[MAXT];
static int nF, cur;
static void* ctl_sp; static u64 ctl_eh[2]; static int ctl_err; static void* ctl_oc; static void (*ctl_ocf)(); static char* ctl_tls;
static char* region; static size_t region_size; static char* arena; static size_t arena_cur, arena_start; static long arena_live;
static u8* astate; static Cell* shadow; static Cell* hshadow; static const u32 HS = 1 << 16; static const void** hkey;
static u32 gen;
static Obj* objs; static const u32 NOBJ = 1 << 13; static int nobj; static Obj* objlist[1 << 13];
static Obj timeObj, logObj, createObj, envObj;
static i64 vnow; static Vec<i64>* times;
static bool flags_[NFLAGS]; static Obj flagObj[NFLAGS]; static long counters[64];
static mc::Ev evs[NEV]; static int nev;
static long steps; static int run_len;
static mc::Bounds B; static int used_[5]; // preempt, spurious, time, fault, delay
enum { U_PRE, U_SPUR, U_TIME, U_FAULT, U_DELAY };
static int ppos, prefix_len; static bool nobranch, caching = true;
static bool tracing_; static Str* trace_;
static void (*body_)(int); static int body_arg; static bool leave_blocked_ok;
static struct { void (*f)(int); int a; } at_end_[8]; static int n_at_end;
static u32 exec_no; static time_t exec_started;
static char scratch_base[256], scratch_cur[300]; static bool scratch_made; static int scratch_no;
static char fsroot[300]; static mc::fs_hook_t fshook; static size_t fsops; static bool in_fshook;
static const char* extra_names[8];
static Vec<char*>* exec_guards; static Vec<Dtor>* exit_dtors; // function-local statics of the current execution
static unsigned hw_threads = 2;
static Vec<i64>* swtrace;       // (fiber) sequence for samples

static inline u64 mix(u64 a, u64 b) { a ^= b + 0x9e3779b97f4a7c15ULL + (a << 6) + (a >> 2); a ^= a >> 31; a *= 0xbf58476d1ce4e5b9ULL; a ^= a >> 29; a *= 0x94d049bb133111ebULL; a ^= a >> 32; return a; }

// visited set
struct USet
{
    u64* t = nullptr; size_t cap = 0, n = 0;
    void clear() { if (t) memset(t, 0, cap * 8); n = 0; }
    bool insert(u64 k)
    {
        if (!k) k = 1;
        if (2 * (n + 1) > cap) grow();
        size_t i = k & (cap - 1);
        while (t[i]) { if (t[i] == k) return false; i = (i + 1) & (cap - 1); }
        t[i] = k; ++n; return true;
    }
    void grow()
    {
        size_t oc = cap; u64* ot = t; cap = cap ? cap * 2 : 1 << 16; t = (u64*)calloc(cap, 8); n = 0;
        for (size_t i = 0; i < oc; ++i) if (ot[i]) insert(ot[i]);
        free(ot);
    }
};
static USet visited, outcomes_, allstates;

// ------------------------------------------------------------------------------------------------ reporting
static void trace(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
static void trace(const char* fmt, ...)
{
    if (likely(!tracing_)) return;
    char b[1024]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
    trace_->append(b); trace_->push_back('\n');
}
static void describe_threads(char* out, size_t n)
{
    size_t k = 0; out[0] = 0;
    for (int i = 0; i < nF && k + 80 < n; ++i)
        k += snprintf(out + k, n - k, " T%d:%s", i, F[i].finished ? "done" : F[i].signaled && F[i].op == O_LOCK ? "relock" : opn[F[i].op]);
}
[[noreturn]] static void violation(const char* fmt, ...)
{
    g_rt++; g_active = false;
    va_list ap; va_start(ap, fmt);
    int k = vsnprintf(shm->msg, sizeof shm->msg - 600, fmt, ap); va_end(ap);
    if (k < 0) k = 0;
    if (k > (int)sizeof shm->msg - 600) k = sizeof shm->msg - 600;
    char th[512]; describe_threads(th, sizeof th);
    snprintf(shm->msg + k, sizeof shm->msg - k, " [by T%d;%s; virtual time %lld ns]", cur, th, (long long)vnow);
    shm->path_len = ppos;
    if (tracing_) { trace("VIOLATION: %s", shm->msg); ssize_t w = write(1, trace_->data(), trace_->size()); (void)w; }
    if (scratch_made) { char cmd[600]; (void)cmd; }
    _exit(EXIT_VIOL);
}
void mc::fail(const char* fmt, ...)
{
    char b[4096]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
    violation("%s", b);
}
[[noreturn]] static void nondet(const char* what)
{
    snprintf(shm->msg, sizeof shm->msg, "internal: replay diverged (%s) at choice %d of execution %ld", what, ppos, (long)shm->execs);
    if (tracing_) { ssize_t w = write(1, trace_->data(), trace_->size()); (void)w; }
    _exit(EXIT_NONDET);
}

// ------------------------------------------------------------------------------------------------ objects
static Obj* getobj(const void* a)
{
    u32 i = (u32)(((u64)a >> 2) * 2654435761u) & (NOBJ - 1);
    while (objs[i].gen == gen && objs[i].addr != a) i = (i + 1) & (NOBJ - 1);
    Obj& o = objs[i];
    if (o.gen != gen)
    {
        if (nobj > (int)NOBJ / 2) violation("internal: too many synchronisation objects");
        memset(&o, 0, sizeof o); o.gen = gen; o.addr = a; o.id = nobj; objlist[nobj++] = &o;
    }
    return &o;
}
static inline Fiber& me() { return F[cur]; }
static inline void vjoin(VC& a, const VC& b) { for (int i = 0; i < nF; ++i) if (a.c[i] < b.c[i]) a.c[i] = b.c[i]; }
static inline void acquire(Obj& o) { vjoin(me().vc, o.vc); }
static inline void release_join(Obj& o) { vjoin(o.vc, me().vc); ++me().vc.c[cur]; }
static inline void release_set(Obj& o) { o.vc = me().vc; ++me().vc.c[cur]; }
static inline void hwrite(Obj& o, u64 k) { Fiber& f = me(); u64 h = mix(mix(mix(f.h, o.hw), o.hr), k); f.h = h; o.hw = h; o.hr = 0; }
static inline void hread(Obj& o, u64 k) { Fiber& f = me(); f.h = mix(mix(f.h, o.hw), k); o.hr += mix(f.h, 77); }

// ------------------------------------------------------------------------------------------------ fibers
extern "C" void mc_switch(void** save, void* to);
asm(R"(
.text
.globl mc_switch
.type mc_switch,@function
mc_switch:
    pushq %rbp
    pushq %rbx
    pushq %r12
    pushq %r13
    pushq %r14
    pushq %r15
    subq $8, %rsp
    stmxcsr (%rsp)
    fnstcw 4(%rsp)
    movq %rsp, (%rdi)
    movq %rsi, %rsp
    ldmxcsr (%rsp)
    fldcw 4(%rsp)
    addq $8, %rsp
    popq %r15
    popq %r14
    popq %r13
    popq %r12
    popq %rbx
    popq %rbp
    ret
.size mc_switch,.-mc_switch
.globl mc_fiber_start
.type mc_fiber_start,@function
mc_fiber_start:
    .cfi_startproc
    .cfi_undefined rip
    xorl %ebp, %ebp
    call mc_fiber_main
    ud2
    .cfi_endproc
.size mc_fiber_start,.-mc_fiber_start
)");
extern "C" void mc_fiber_start();

static u64 tp_lo; static char* tls_base; static size_t tls_size; static const char* tls_init; static size_t tls_filesz;
static int phdr_cb(struct dl_phdr_info* i, size_t, void*)
{
    static bool first = true;
    if (!first) return 0;
    first = false;
    for (int k = 0; k < i->dlpi_phnum; ++k)
        if (i->dlpi_phdr[k].p_type == PT_TLS)
        {
            tls_base = (char*)i->dlpi_tls_data; tls_size = i->dlpi_phdr[k].p_memsz;
            tls_init = (const char*)(i->dlpi_addr + i->dlpi_phdr[k].p_vaddr); tls_filesz = i->dlpi_phdr[k].p_filesz;
        }
    return 1;
}

namespace std { extern __thread void* __once_callable; extern __thread void (*__once_call)(); }

static void save_ctx(u64* eh, int& err, void*& oc, void (*&of)(), char* tls)
{
    memcpy(eh, abi::__cxa_get_globals(), 16); err = errno; oc = std::__once_callable; of = std::__once_call;
    if (tls_size) memcpy(tls, tls_base, tls_size);
}
static void load_ctx(const u64* eh, int err, void* oc, void (*of)(), const char* tls)
{
    memcpy((void*)abi::__cxa_get_globals(), eh, 16); errno = err; std::__once_callable = oc; std::__once_call = of;
    if (tls_size) memcpy(tls_base, tls, tls_size);
}
static void switch_to(int t)
{
    int from = cur;
    Fiber& a = F[from]; Fiber& b = F[t];
    save_ctx(a.eh, a.err, a.once_callable, a.once_call, a.tls);
    cur = t;
    load_ctx(b.eh, b.err, b.once_callable, b.once_call, b.tls);
    if (swtrace->size() < 400) swtrace->push_back(t);
    mc_switch(&a.sp, b.sp);
    // back here: whoever switched to us has loaded our context
}
static void to_controller()
{
    Fiber& a = me();
    load_ctx(ctl_eh, ctl_err, ctl_oc, ctl_ocf, ctl_tls);
    g_active = false;
    mc_switch(&a.sp, ctl_sp);
}

static int new_fiber(void* (*fn)(void*), void* arg)
{
    if (nF >= MAXT) violation("internal: more than %d threads in one execution", MAXT);
    int id = nF++;
    Fiber& f = F[id];
    char* st = region + (size_t)id * STACK; char* tls = f.tls; Dtor* d = f.dtors; int cd = f.capd;
    memset(&f, 0, sizeof f);
    f.stack = st; f.id = id; f.used = true; f.fn = fn; f.arg = arg; f.op = O_NEW; f.deadline = -1;
    f.tls = tls ? tls : (char*)malloc(tls_size + 1); f.dtors = d; f.capd = cd;
    if (tls_size) { memset(f.tls, 0, tls_size); memcpy(f.tls, tls_init, tls_filesz); }
    f.vc.c[id] = 1;
    char* top = st + STACK - 64;
    u64* sp = (u64*)((u64)top & ~63ULL);
    *--sp = 0; *--sp = 0;            // alignment
    *--sp = (u64)&mc_fiber_start;    // ret
    for (int i = 0; i < 6; ++i) *--sp = 0;
    --sp; ((u32*)sp)[0] = 0x1f80; ((u32*)sp)[1] = 0x37f;
    f.sp = sp;
    return id;
}

static void schedule(OpK op);
extern "C" void mc_fiber_main() noexcept
{
    Fiber& f = me();
    f.h = mix(f.h, 0x51a7);
    g_rt = 0;
    f.ret = f.fn(f.arg);
    // thread_local destructors
    while (f.nd) { Dtor d = f.dtors[--f.nd]; d.fn(d.obj); }
    if (f.id == 0) while (!exit_dtors->empty()) { Dtor d = exit_dtors->back(); exit_dtors->pop_back(); trace("T0 destroys a function-local static"); d.fn(d.obj); }
    g_rt = 1;
    f.finished = true;
    trace("T%d ends", cur);
    f.h = mix(f.h, 0xdead);
    ++f.vc.c[cur];
    schedule(O_RUN);
    abort();
}

// ------------------------------------------------------------------------------------------------ scheduling
static bool mutex_free(const void* m, int who)
{
    Obj* o = getobj(m);
    if (!o->owner) return true;
    return o->owner == who + 1 && ((const pthread_mutex_t*)m)->__data.__kind == PTHREAD_MUTEX_RECURSIVE_NP;
}
static bool others_idle(int me_, i64 until);
static bool enabled(int t)
{
    Fiber& f = F[t];
    if (f.finished) return false;
    bool due = f.deadline >= 0 && f.deadline <= vnow;
    switch (f.op)
    {
        case O_RUN: case O_NEW: return true;
        case O_LOCK: return mutex_free(f.obj, t) || (due && !f.signaled);
        case O_RDLOCK: return !getobj(f.obj)->owner || due;
        case O_WRLOCK: { Obj* o = getobj(f.obj); return (!o->owner && !o->readers) || due; }
        case O_CONDW: return due;
        case O_JOIN: return F[(long)f.obj].finished;
        case O_FLAG: return flags_[(long)f.obj];
        case O_FUTEX: return f.signaled || due;
        case O_SLEEP: return due;
        case O_GUARD: return ((char*)f.obj)[1] == 0;
        case O_YIELD:
        {
            if ((u32)steps > f.yield_step + 1) return true;
            for (int i = 0; i < nF; ++i) if (i != t && !F[i].finished && F[i].op != O_YIELD && F[i].op != O_QUIESCE && enabled(i)) return false;
            return true;
        }
        case O_QUIESCE: return others_idle(t, f.deadline);
    }
    return false;
}
static bool others_idle(int t, i64 until)
{
    for (int i = 0; i < nF; ++i)
    {
        Fiber& f = F[i];
        if (i == t || f.finished || f.op == O_QUIESCE) continue;
        if (f.op == O_YIELD) return false;
        if (enabled(i)) return false;
        if (f.deadline >= 0 && f.deadline <= until && !(f.op == O_LOCK && f.signaled)) return false;
    }
    return true;
}
static u64 state_key(int kind)
{
    u64 k = 0;
    for (int i = 0; i < nF; ++i) k += mix(mix(F[i].h, i + 1), F[i].finished ? 99 : 1 + F[i].op + (F[i].op == O_YIELD ? 200 + ((u32)steps > F[i].yield_step + 1) : 0));
    k = mix(k, cur); k = mix(k, kind); k = mix(k, (u64)vnow); k = mix(k, logObj.hw); k = mix(k, envObj.hw);
    for (int i = 0; i < 5; ++i) k = mix(k, used_[i]);
    return k;
}
static int decide(int n, int kind)
{
    if (n <= 1) return 0;
    if (nobranch) return 0;
    if (n > 250) violation("internal: too many alternatives");
    if (ppos < prefix_len)
    {
        if (shm->path[ppos][1] != n) nondet("number of alternatives");
        return shm->path[ppos++][0];
    }
    if (caching)
    {
        u64 k = state_key(kind);
        allstates.insert(k);
        if (!visited.insert(k)) { nobranch = true; shm->cached = shm->cached + 1; return 0; }
    }
    if (ppos >= MAXPATH - 1) violation("internal: schedule too long");
    shm->path[ppos][0] = 0; shm->path[ppos][1] = n; ++ppos;
    return 0;
}
static i64 next_time()
{
    i64 best = -1;
    for (i64 t : *times) if (t > vnow && (best < 0 || t < best)) best = t;
    return best;
}
static i64 next_deadline()
{
    i64 best = -1;
    for (int i = 0; i < nF; ++i)
    {
        Fiber& f = F[i];
        if (f.finished || f.deadline < 0 || f.deadline <= vnow || f.op == O_QUIESCE) continue;
        if (best < 0 || f.deadline < best) best = f.deadline;
    }
    return best;
}
static void advance(i64 t)
{
    vnow = t; timeObj.hw = mix(timeObj.hw, (u64)t); timeObj.hr = 0;
    trace("-- time advances to %lld ns", (long long)t);
}
// One of n ways to go on.  With a delay bound the k-th way costs k of it: bound 0 leaves the round-robin schedule alone.
static int decide_delay(int n, int kind)
{
    if (B.delay < 0) return decide(n, kind);
    int left = 1 + B.delay - used_[U_DELAY];
    int k = decide(n < left ? n : left, kind);
    used_[U_DELAY] += k;
    return k;
}
// The current fiber waits for op; picks who runs next.  Returns when this fiber has been chosen.
static void schedule(OpK op)
{
    Fiber& f = me();
    int self = cur;
    f.op = op;
    const int rt0 = g_rt++;
    for (;;)
    {
        if (++steps > B.max_steps)
            violation("livelock: execution did not end within %d scheduling steps", B.max_steps);
        bool ce = enabled(self);
        bool free_switch = !ce || op == O_YIELD;
        if (ce && run_len > FAIR) { free_switch = true; shm->forced_switch = shm->forced_switch + 1; }
        int opts[64]; int n = 0;     // >=0 fiber, -1 time, <=-2 spurious wake of fiber -(x+2)
        if (ce && run_len <= FAIR) opts[n++] = self;
        if (free_switch || used_[U_PRE] < B.preempt)
            for (int j = 0; j < nF; ++j) { int i = B.delay < 0 ? j : (self + 1 + j) % nF; if (i != self && enabled(i)) opts[n++] = i; }
        if (ce && run_len > FAIR) { opts[n++] = self; run_len = 0; nobranch = nobranch || false; }
        if (n)
        {
            if (used_[U_TIME] < B.time && next_time() >= 0) opts[n++] = -1;
            if (used_[U_SPUR] < B.spurious)
                for (int i = 0; i < nF; ++i) if (!F[i].finished && F[i].op == O_CONDW) opts[n++] = -2 - i;
        }
        if (!n)
        {
            // nobody can run: let time pass, or the execution has ended, or it is stuck
            i64 d = next_deadline();
            if (d >= 0) { advance(d); continue; }
            bool all = true;
            for (int i = 0; i < nF; ++i) if (!F[i].finished) all = false;
            if (!all && !F[0].finished) violation("deadlock: no thread can run");
            if (!all && !leave_blocked_ok) violation("threads are left blocked for ever after everything was destroyed");
            to_controller();
        }
        int c = opts[decide_delay(n, 1)];
        if (c == -1) { ++used_[U_TIME]; advance(next_time()); continue; }
        if (c <= -2)
        {
            int w = -2 - c; ++used_[U_SPUR];
            trace("-- spurious wake-up of T%d", w);
            F[w].h = mix(F[w].h, 0x59a1); F[w].op = O_LOCK; F[w].obj = F[w].obj2; F[w].deadline = -1; F[w].signaled = true;
            continue;
        }
        if (c == self) { ++run_len; break; }
        if (!free_switch) ++used_[U_PRE];
        run_len = 0;
        switch_to(c);
        break;
    }
    // running again
    Fiber& g = me();
    g.h = mix(g.h, g.op);
    g_rt = rt0;
}
static inline void point() { me().deadline = -1; schedule(O_RUN); }

static inline bool on() { return g_active && !g_rt; }
struct Rt { Rt() { ++g_rt; } ~Rt() { --g_rt; } };

// ------------------------------------------------------------------------------------------------ memory: arena
extern "C" char __executable_start, _end;
static inline bool in_arena(const void* p) { return (const char*)p >= arena && (const char*)p < arena + ARENA; }
static inline bool in_region(const void* p) { return (const char*)p >= region && (const char*)p < region + region_size; }
static inline bool ours(const void* p) { return in_region(p) || ((const char*)p >= &__executable_start && (const char*)p < &_end); }

struct Hdr { size_t size; u64 magic; };
static const u64 MAGIC = 0x6d63727461726e61ULL;
static void* my_alloc(size_t n, size_t al)
{
    if (n == 0) n = 1;
    if (on())
    {
        size_t a = al < 16 ? 16 : al;
        size_t p = arena_cur + sizeof(Hdr);
        p = (p + a - 1) & ~(a - 1);
        size_t end = (p + n + 15) & ~(size_t)15;
        end += 16;
        if (end < ARENA)
        {
            Hdr* h = (Hdr*)(arena + p - sizeof(Hdr)); h->size = n; h->magic = MAGIC;
            memset(astate + (p >> 4), 1, (n + 15) >> 4);
            arena_cur = end; ++arena_live;
            return arena + p;
        }
    }
    return al <= 16 ? malloc(n) : aligned_alloc(al, (n + al - 1) & ~(al - 1));
}
static void check_race(const void* a, unsigned sz, unsigned fl, void* pc);
static void my_free(void* p, void* pc)
{
    if (!p) return;
    if (!in_arena(p)) { if (g_active && in_region(p)) violation("invalid delete of a stack address"); free(p); return; }
    Hdr* h = (Hdr*)((char*)p - sizeof(Hdr));
    size_t off = (char*)p - arena;
    if (h->magic != MAGIC) violation("invalid or double delete (pc %p)", pc);
    if (astate[off >> 4] != 1) violation("double delete (pc %p)", pc);
    if (on() && !me().untracked)
    {   // freeing is a write: it must be ordered after every access
        size_t n = h->size;
        for (size_t i = 0; i < n && i < 256; i += 8) check_race((char*)p + i, n - i < 8 ? n - i : 8, 1, pc);
    }
    memset(astate + (off >> 4), 2, (h->size + 15) >> 4);
    h->magic = ~MAGIC;
    --arena_live;
}
void* operator new(size_t n) { void* p = my_alloc(n, 16); if (!p) throw std::bad_alloc(); return p; }
void* operator new[](size_t n) { void* p = my_alloc(n, 16); if (!p) throw std::bad_alloc(); return p; }
void* operator new(size_t n, std::align_val_t a) { return my_alloc(n, (size_t)a); }
void* operator new[](size_t n, std::align_val_t a) { return my_alloc(n, (size_t)a); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return my_alloc(n, 16); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return my_alloc(n, 16); }
void operator delete(void* p) noexcept { my_free(p, __builtin_return_address(0)); }
void operator delete[](void* p) noexcept { my_free(p, __builtin_return_address(0)); }
void operator delete(void* p, size_t) noexcept { my_free(p, __builtin_return_address(0)); }
void operator delete[](void* p, size_t) noexcept { my_free(p, __builtin_return_address(0)); }
void operator delete(void* p, std::align_val_t) noexcept { my_free(p, __builtin_return_address(0)); }
void operator delete[](void* p, std::align_val_t) noexcept { my_free(p, __builtin_return_address(0)); }
void operator delete(void* p, size_t, std::align_val_t) noexcept { my_free(p, __builtin_return_address(0)); }
void operator delete[](void* p, size_t, std::align_val_t) noexcept { my_free(p, __builtin_return_address(0)); }
void operator delete(void* p, const std::nothrow_t&) noexcept { my_free(p, __builtin_return_address(0)); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { my_free(p, __builtin_return_address(0)); }

// ------------------------------------------------------------------------------------------------ race detection
static HOT Cell* cell_for(const void* g8)
{
    if (in_region(g8)) return &shadow[((const char*)g8 - region) >> 3];
    u32 i = (u32)(((u64)g8 >> 3) * 0x9E3779B1u) & (HS - 1);
    for (u32 k = 0; k < 64; ++k, i = (i + 1) & (HS - 1))
    {
        if (hshadow[i].gen != gen) { hkey[i] = g8; return &hshadow[i]; }
        if (hkey[i] == g8) return &hshadow[i];
    }
    return nullptr;
}
static NOINL void report_race(const void* a, unsigned sz, unsigned fl, void* pc, const Entry& e)
{
    violation("data race on %p (%u bytes): %s%s by T%d at pc %p, not ordered after %s%s by T%d at pc %p",
        a, sz, fl & 2 ? "atomic " : "", fl & 1 ? "write" : "read", cur, (void*)((char*)pc - &__executable_start),
        e.flags & 2 ? "atomic " : "", e.flags & 1 ? "write" : "read", e.tid, (void*)((char*)e.pc - &__executable_start));
}
static HOT inline void access1(const char* g8, unsigned mask, unsigned fl, void* pc, const void* a, unsigned sz)
{
    Cell* c = cell_for(g8);
    if (unlikely(!c)) return;
    Fiber& f = me();
    if (c->gen != gen) { c->gen = gen; c->n = 0; }
    u32 myclk = f.vc.c[cur];
    for (int i = 0; i < c->n; ++i)
    {
        Entry& e = c->e[i];
        if (e.tid == cur) { if (e.clk == myclk && (e.mask & mask) == mask && (e.flags & 1) >= (fl & 1) && (e.flags & 2) <= (fl & 2)) return; continue; }
    }
    for (int i = 0; i < c->n; )
    {
        Entry& e = c->e[i];
        if (e.tid != cur && (e.mask & mask) && ((e.flags | fl) & 1) && !((e.flags & fl) & 2) && e.clk > f.vc.c[e.tid])
            report_race(a, sz, fl, pc, e);
        // superseded: same thread and not stronger, or everything ordered before a write
        bool sup = (e.mask & ~mask) == 0 && (e.tid == cur ? (e.flags & 1) <= (fl & 1) && (e.flags & 2) >= (fl & 2)
                                                          : (fl & 3) == 1 && e.clk <= f.vc.c[e.tid]);
        if (sup) e = c->e[--c->n]; else ++i;
    }
    if (c->n == 6)
    {   // drop something ordered before us if possible, else the oldest
        int k = 0;
        for (int i = 0; i < 6; ++i) if (c->e[i].clk <= f.vc.c[c->e[i].tid]) { k = i; break; }
        for (int i = k; i + 1 < 6; ++i) c->e[i] = c->e[i + 1];
        --c->n;
    }
    Entry& e = c->e[c->n++];
    e.clk = myclk; e.tid = cur; e.mask = mask; e.flags = fl; e.pc = pc;
}
static void check_race(const void* a, unsigned sz, unsigned fl, void* pc)
{
    const char* p = (const char*)a;
    while (sz)
    {
        unsigned off = (u64)p & 7, n = 8 - off < sz ? 8 - off : sz;
        access1(p - off, ((1u << n) - 1) << off, fl, pc, a, n);
        p += n; sz -= n;
    }
}
static HOT inline void access(const void* a, unsigned sz, unsigned fl, void* pc)
{
    if (!g_active || g_rt) return;
    if (unlikely(me().untracked)) return;
    if (unlikely((u64)a - tp_lo < 8192 + 2304)) return; // thread-local storage: private to each fiber
    shm->accesses = shm->accesses + 1;
    if (in_arena(a))
    {
        size_t off = (const char*)a - arena;
        u8 s = astate[off >> 4], s2 = astate[(off + sz - 1) >> 4];
        if (unlikely(s != 1 || s2 != 1))
            violation("%s of %u bytes at %p (pc %p) %s", fl & 1 ? "write" : "read", sz, a, (void*)((char*)pc - &__executable_start),
                (s == 2 || s2 == 2) ? "uses freed memory" : "is outside any live allocation");
    }
    unsigned o = (u64)a & 7;
    if (likely(o + sz <= 8)) access1((const char*)a - o, ((1u << sz) - 1) << o, fl, pc, a, sz);
    else check_race(a, sz, fl, pc);
}
#define PC __builtin_return_address(0)
extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
#define RW(n) \
    void __tsan_read##n(void* a) { access(a, n, 0, PC); } \
    void __tsan_write##n(void* a) { access(a, n, 1, PC); } \
    void __tsan_unaligned_read##n(void* a) { access(a, n, 0, PC); } \
    void __tsan_unaligned_write##n(void* a) { access(a, n, 1, PC); } \
    void __tsan_volatile_read##n(void* a) { access(a, n, 0, PC); } \
    void __tsan_volatile_write##n(void* a) { access(a, n, 1, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* a, size_t n) { if (n) access(a, n, 0, PC); }
void __tsan_write_range(void* a, size_t n) { if (n) access(a, n, 1, PC); }
void __tsan_vptr_read(void** a) { access(a, 8, 0, PC); }
void __tsan_vptr_update(void** a, void* v) { if (*a != v) access(a, 8, 1, PC); }
// references in the harness object are renamed to these (objcopy), so that only its own copies are checked
void* mcw_memcpy(void* d, const void* s, size_t n) { if (n && on()) { access(s, n, 0, PC); access(d, n, 1, PC); } return memcpy(d, s, n); }
void* mcw_memmove(void* d, const void* s, size_t n) { if (n && on()) { access(s, n, 0, PC); access(d, n, 1, PC); } return memmove(d, s, n); }
void* mcw_memset(void* d, int c, size_t n) { if (n && on()) access(d, n, 1, PC); return memset(d, c, n); }

// list and tree primitives of libstdc++.so, whose accesses would otherwise be invisible
struct LN { LN* next; LN* prev; };
void _ZNSt8__detail15_List_node_base7_M_hookEPS0_(LN* t, LN* pos)
{
    access(pos, 16, 0, PC); access(&pos->prev, 8, 1, PC); access(&pos->prev->next, 8, 1, PC); access(t, 16, 1, PC);
    t->next = pos; t->prev = pos->prev; pos->prev->next = t; pos->prev = t;
}
void _ZNSt8__detail15_List_node_base9_M_unhookEv(LN* t)
{
    access(t, 16, 0, PC); access(&t->prev->next, 8, 1, PC); access(&t->next->prev, 8, 1, PC);
    LN* n = t->next; LN* p = t->prev; p->next = n; n->prev = p;
}
void _ZNSt8__detail15_List_node_base11_M_transferEPS0_S1_(LN* t, LN* first, LN* last)
{
    if (t == last) return;
    access(t, 16, 0, PC); access(&t->prev, 8, 1, PC); access(&last->prev, 8, 1, PC); access(&first->prev, 8, 1, PC);
    access(&last->prev->next, 8, 1, PC); access(&first->prev->next, 8, 1, PC); access(&t->prev->next, 8, 1, PC);
    last->prev->next = t; first->prev->next = last; t->prev->next = first;
    LN* tmp = t->prev; t->prev = last->prev; last->prev = first->prev; first->prev = tmp;
}
void _ZSt29_Rb_tree_insert_and_rebalancebPSt18_Rb_tree_node_baseS0_RS_(bool, void*, void*, void*);
void mcw__ZSt29_Rb_tree_insert_and_rebalancebPSt18_Rb_tree_node_baseS0_RS_(bool l, void* x, void* p, void* h)
{
    if (on()) { access(x, 32, 1, PC); access(p, 32, 1, PC); access(h, 32, 1, PC); }
    _ZSt29_Rb_tree_insert_and_rebalancebPSt18_Rb_tree_node_baseS0_RS_(l, x, p, h);
}
void* _ZSt28_Rb_tree_rebalance_for_erasePSt18_Rb_tree_node_baseRS_(void*, void*);
void* mcw__ZSt28_Rb_tree_rebalance_for_erasePSt18_Rb_tree_node_baseRS_(void* x, void* h)
{
    if (on()) { access(x, 32, 1, PC); access(h, 32, 1, PC); }
    return _ZSt28_Rb_tree_rebalance_for_erasePSt18_Rb_tree_node_baseRS_(x, h);
}
void* _ZSt18_Rb_tree_incrementPSt18_Rb_tree_node_base(void*);
void* mcw__ZSt18_Rb_tree_incrementPSt18_Rb_tree_node_base(void* x)
{
    if (on()) access(x, 32, 0, PC);
    return _ZSt18_Rb_tree_incrementPSt18_Rb_tree_node_base(x);
}
#define TREE_STEP(n) void* n(void*); void* mcw_##n(void* x) { if (on()) access(x, 32, 0, PC); return n(x); }
TREE_STEP(_ZSt18_Rb_tree_incrementPKSt18_Rb_tree_node_base)
TREE_STEP(_ZSt18_Rb_tree_decrementPSt18_Rb_tree_node_base)
TREE_STEP(_ZSt18_Rb_tree_decrementPKSt18_Rb_tree_node_base)
int mcw_memcmp(const void* a, const void* b, size_t n) { if (n && on()) { access(a, n, 0, PC); access(b, n, 0, PC); } return memcmp(a, b, n); }
const void* mcw_memchr(const void* a, int c, size_t n) { const void* r = memchr(a, c, n); if (n && on()) access(a, r ? (const char*)r - (const char*)a + 1 : n, 0, PC); return r; }
// the handle inside a std::thread
void _ZNSt6thread6detachEv(void*);
void mcw__ZNSt6thread6detachEv(void* t)
{
    if (on()) { mc::point(); access(t, 8, 1, PC); }
    _ZNSt6thread6detachEv(t);
}
void _ZNSt6thread4joinEv(void*);
void mcw__ZNSt6thread4joinEv(void* t)
{
    if (on()) access(t, 8, 0, PC);
    _ZNSt6thread4joinEv(t);
    if (on()) access(t, 8, 1, PC);
}
void _ZNSt6thread15_M_start_threadESt10unique_ptrINS_6_StateESt14default_deleteIS1_EEPFvvE(void*, void*, void (*)());
void mcw__ZNSt6thread15_M_start_threadESt10unique_ptrINS_6_StateESt14default_deleteIS1_EEPFvvE(void* t, void* s, void (*f)())
{
    if (on()) access(t, 8, 1, PC);
    _ZNSt6thread15_M_start_threadESt10unique_ptrINS_6_StateESt14default_deleteIS1_EEPFvvE(t, s, f);
}

// ------------------------------------------------------------------------------------------------ atomics
}
enum { MO_RELAXED, MO_CONSUME, MO_ACQUIRE, MO_RELEASE, MO_ACQ_REL, MO_SEQ_CST };
static inline bool is_acq(int m) { return m == MO_ACQUIRE || m == MO_CONSUME || m == MO_ACQ_REL || m == MO_SEQ_CST; }
static inline bool is_rel(int m) { return m == MO_RELEASE || m == MO_ACQ_REL || m == MO_SEQ_CST; }
static bool at_begin(const void* a, unsigned sz, bool write, void* pc)
{
    if (!on()) return false;
    if (me().untracked) return false;
    point();
    access(a, sz, (write ? 1 : 0) | 2, pc);
    return true;
}
static void at_load(const void* a, int mo, u64 v)
{
    Rt r; Obj* o = getobj(a); hread(*o, 1);
    if (is_acq(mo)) acquire(*o); else vjoin(me().acq_pending, o->vc);
    trace("T%d atomic load x%d -> %llu", cur, o->id, (unsigned long long)v);
}
static void at_store(const void* a, int mo, u64 v)
{
    Rt r; Obj* o = getobj(a); hwrite(*o, mix(2, v));
    if (is_rel(mo)) release_set(*o); else if (me().has_rel_fence) o->vc = me().rel_fence; else memset(&o->vc, 0, sizeof(VC));
    trace("T%d atomic store x%d = %llu", cur, o->id, (unsigned long long)v);
}
static void at_rmw(const void* a, int mo, u64 v)
{
    Rt r; Obj* o = getobj(a); hwrite(*o, mix(3, v));
    if (is_acq(mo)) acquire(*o); else vjoin(me().acq_pending, o->vc);
    if (is_rel(mo)) release_join(*o); else if (me().has_rel_fence) vjoin(o->vc, me().rel_fence);
    trace("T%d atomic rmw x%d -> was %llu", cur, o->id, (unsigned long long)v);
}
extern "C" {
#define AT(bits, T) \
    T __tsan_atomic##bits##_load(const volatile T* a, int mo) { bool b = at_begin((void*)a, sizeof(T), false, PC); T v = *a; if (b) at_load((void*)a, mo, (u64)v); return v; } \
    void __tsan_atomic##bits##_store(volatile T* a, T v, int mo) { bool b = at_begin((void*)a, sizeof(T), true, PC); *a = v; if (b) at_store((void*)a, mo, (u64)v); } \
    T __tsan_atomic##bits##_exchange(volatile T* a, T v, int mo) { bool b = at_begin((void*)a, sizeof(T), true, PC); T o = *a; *a = v; if (b) at_rmw((void*)a, mo, (u64)o); return o; } \
    T __tsan_atomic##bits##_fetch_add(volatile T* a, T v, int mo) { bool b = at_begin((void*)a, sizeof(T), true, PC); T o = *a; *a = o + v; if (b) at_rmw((void*)a, mo, (u64)o); return o; } \
    T __tsan_atomic##bits##_fetch_sub(volatile T* a, T v, int mo) { bool b = at_begin((void*)a, sizeof(T), true, PC); T o = *a; *a = o - v; if (b) at_rmw((void*)a, mo, (u64)o); return o; } \
    T __tsan_atomic##bits##_fetch_and(volatile T* a, T v, int mo) { bool b = at_begin((void*)a, sizeof(T), true, PC); T o = *a; *a = o & v; if (b) at_rmw((void*)a, mo, (u64)o); return o; } \
    T __tsan_atomic##bits##_fetch_or(volatile T* a, T v, int mo) { bool b = at_begin((void*)a, sizeof(T), true, PC); T o = *a; *a = o | v; if (b) at_rmw((void*)a, mo, (u64)o); return o; } \
    T __tsan_atomic##bits##_fetch_xor(volatile T* a, T v, int mo) { bool b = at_begin((void*)a, sizeof(T), true, PC); T o = *a; *a = o ^ v; if (b) at_rmw((void*)a, mo, (u64)o); return o; } \
    T __tsan_atomic##bits##_fetch_nand(volatile T* a, T v, int mo) { bool b = at_begin((void*)a, sizeof(T), true, PC); T o = *a; *a = ~(o & v); if (b) at_rmw((void*)a, mo, (u64)o); return o; } \
    int __tsan_atomic##bits##_compare_exchange_strong(volatile T* a, T* c, T v, int mo, int fmo) { bool b = at_begin((void*)a, sizeof(T), true, PC); T o = *a; if (o == *c) { *a = v; if (b) at_rmw((void*)a, mo, (u64)o); return 1; } *c = o; if (b) at_load((void*)a, fmo, (u64)o); return 0; } \
    int __tsan_atomic##bits##_compare_exchange_weak(volatile T* a, T* c, T v, int mo, int fmo) { return __tsan_atomic##bits##_compare_exchange_strong(a, c, v, mo, fmo); } \
    T __tsan_atomic##bits##_compare_exchange_val(volatile T* a, T c, T v, int mo, int fmo) { __tsan_atomic##bits##_compare_exchange_strong(a, &c, v, mo, fmo); return c; }
typedef unsigned __int128 u128;
AT(8, u8) AT(16, u16) AT(32, u32) AT(64, u64) AT(128, u128)
void __tsan_atomic_thread_fence(int mo)
{
    if (!on()) return;
    Rt r; Fiber& f = me();
    if (is_acq(mo)) vjoin(f.vc, f.acq_pending);
    if (is_rel(mo)) { f.rel_fence = f.vc; f.has_rel_fence = true; ++f.vc.c[cur]; }
}
void __tsan_atomic_signal_fence(int) {}

// ------------------------------------------------------------------------------------------------ pthreads
static bool sys_obj(const void* m) { return !ours(m); }   // locks inside libc / libstdc++ / malloc memory: no scheduling point
static void do_acquired(void* m)
{
    Obj* o = getobj(m); o->owner = cur + 1; ++o->count; acquire(*o); hwrite(*o, 11);
    trace("T%d lock m%d", cur, o->id);
}
static int do_lock(void* m, i64 deadline)
{
    { Rt r; if (!sys_obj(m)) { --g_rt; access(m, 4, 1 | 2, PC); ++g_rt; } }
    Fiber& f = me();
    if (sys_obj(m) && mutex_free(m, cur)) { Rt r; do_acquired(m); return 0; }
    f.obj = m; f.deadline = deadline; f.signaled = false;
    schedule(O_LOCK);
    Rt r;
    f.deadline = -1;
    if (!mutex_free(m, cur)) { hread(*getobj(m), 12); return ETIMEDOUT; }
    do_acquired(m);
    return 0;
}
static void do_unlock(void* m)
{
    Rt r; Obj* o = getobj(m);
    if (o->owner != cur + 1) violation("mutex unlocked by a thread that does not hold it");
    if (!sys_obj(m)) { --g_rt; access(m, 4, 1 | 2, PC); ++g_rt; }
    hwrite(*o, 13);
    if (--o->count == 0) { o->owner = 0; release_join(*o); }
    trace("T%d unlock m%d", cur, o->id);
}
int pthread_mutex_lock(pthread_mutex_t* m) { if (!on()) return REAL(pthread_mutex_lock)(m); return do_lock(m, -1); }
int pthread_mutex_trylock(pthread_mutex_t* m)
{
    if (!on()) return REAL(pthread_mutex_trylock)(m);
    if (!sys_obj(m)) point();
    Rt r;
    if (!mutex_free(m, cur)) { hread(*getobj(m), 12); return EBUSY; }
    do_acquired(m); return 0;
}
int pthread_mutex_unlock(pthread_mutex_t* m) { if (!on()) return REAL(pthread_mutex_unlock)(m); do_unlock(m); return 0; }
static i64 ts_ns(clockid_t c, const struct timespec* t)
{
    __int128 v = (__int128)t->tv_sec * 1000000000LL + t->tv_nsec;
    __int128 d = v - (c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE ? REAL_BASE : MONO_BASE);
    return d < 0 ? 0 : d > INT64_MAX / 2 ? INT64_MAX / 2 : (i64)d;
}
static void add_time(i64 d) { if (d > vnow) { for (i64 t : *times) if (t == d) return; times->push_back(d); } }
int pthread_mutex_timedlock(pthread_mutex_t* m, const struct timespec* t) { if (!on()) return REAL(pthread_mutex_timedlock)(m, t); i64 d = ts_ns(CLOCK_REALTIME, t); { Rt r; add_time(d); } return do_lock(m, d); }
int pthread_mutex_clocklock(pthread_mutex_t* m, clockid_t c, const struct timespec* t) { if (!on()) return REAL(pthread_mutex_clocklock)(m, c, t); i64 d = ts_ns(c, t); { Rt r; add_time(d); } return do_lock(m, d); }
int pthread_mutex_init(pthread_mutex_t* m, const pthread_mutexattr_t* a)
{
    int r = REAL(pthread_mutex_init)(m, a);
    if (on()) { Rt q; Obj* o = getobj(m); o->owner = 0; o->count = 0; }
    return r;
}
int pthread_mutex_destroy(pthread_mutex_t* m)
{
    if (!on()) return REAL(pthread_mutex_destroy)(m);
    Rt q; Obj* o = getobj(m); if (o->owner) violation("mutex destroyed while locked"); return 0;
}

static int cond_wait(void* c, void* m, i64 deadline)
{
    Fiber& f = me();
    point();          // a notification sent without the mutex may come in between the caller's last check and its going to sleep
    {
        Rt r;
        --g_rt; access(c, 4, 1 | 2, PC); ++g_rt;
        Obj* o = getobj(c); hwrite(*o, 21);
        trace("T%d waits on c%d", cur, o->id);
        if (deadline >= 0) add_time(deadline);
    }
    do_unlock(m);
    f.obj = c; f.obj2 = m; f.deadline = deadline; f.signaled = false; f.timedout = false;
    schedule(O_CONDW);
    bool to;
    {
        Rt r;
        to = f.op == O_CONDW; // resumed by time-out (a signal turns the operation into a lock)
        hwrite(*getobj(c), to ? 22 : 23);
        f.deadline = -1; f.signaled = false;
    }
    if (to) { trace("T%d times out", cur); do_lock(m, -1); return ETIMEDOUT; }
    { Rt r; do_acquired(m); }
    return 0;
}
static void cond_signal(void* c, bool all)
{
    point();
    Rt r;
    --g_rt; access(c, 4, 1 | 2, PC); ++g_rt;
    Obj* o = getobj(c); hwrite(*o, all ? 24 : 25);
    int w[MAXT], n = 0;
    for (int i = 0; i < nF; ++i) if (!F[i].finished && F[i].op == O_CONDW && F[i].obj == c) w[n++] = i;
    trace("T%d %s c%d (%d waiting)", cur, all ? "broadcasts" : "signals", o->id, n);
    if (!n) return;
    int k = 0;
    if (!all) { k = decide_delay(n, 2); me().h = mix(me().h, k + 31); o->hw = me().h; w[0] = w[k]; n = 1; }
    for (int i = 0; i < n; ++i)
    {
        Fiber& x = F[w[i]];
        x.h = mix(x.h, me().h); x.op = O_LOCK; x.obj = x.obj2; x.signaled = true;
        trace("   wakes T%d", w[i]);
    }
}
int pthread_cond_init(pthread_cond_t* c, const pthread_condattr_t* a) { return REAL(pthread_cond_init)(c, a); }
int pthread_cond_destroy(pthread_cond_t* c)
{
    if (!on()) return REAL(pthread_cond_destroy)(c);
    Rt r;
    for (int i = 0; i < nF; ++i) if (!F[i].finished && F[i].op == O_CONDW && F[i].obj == c) violation("condition variable destroyed while T%d waits on it", i);
    return 0;
}
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) { if (!on()) return REAL(pthread_cond_wait)(c, m); return cond_wait(c, m, -1); }
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec* t) { if (!on()) return REAL(pthread_cond_timedwait)(c, m, t); return cond_wait(c, m, ts_ns(CLOCK_REALTIME, t)); }
int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t k, const struct timespec* t) { if (!on()) return REAL(pthread_cond_clockwait)(c, m, k, t); return cond_wait(c, m, ts_ns(k, t)); }
int pthread_cond_signal(pthread_cond_t* c) { if (!on()) return REAL(pthread_cond_signal)(c); cond_signal(c, false); return 0; }
int pthread_cond_broadcast(pthread_cond_t* c) { if (!on()) return REAL(pthread_cond_broadcast)(c); cond_signal(c, true); return 0; }

static int rw_lock(void* m, bool wr, i64 deadline)
{
    Fiber& f = me();
    if (!sys_obj(m)) access(m, 4, 1 | 2, PC);
    f.obj = m; f.deadline = deadline;
    bool sys = sys_obj(m);
    if (!sys || !enabled(cur)) schedule(wr ? O_WRLOCK : O_RDLOCK);
    Rt r; Obj* o = getobj(m);
    f.deadline = -1;
    if (o->owner || (wr && o->readers)) { hread(*o, 12); return ETIMEDOUT; }
    if (wr) { o->owner = cur + 1; hwrite(*o, 14); vjoin(me().vc, o->rvc); } else { ++o->readers; o->readmask |= 1ull << cur; hread(*o, 15); }
    acquire(*o);
    trace("T%d %slock w%d", cur, wr ? "write" : "read", o->id);
    return 0;
}
static int rw_try(void* m, bool wr)
{
    point();
    Rt r; Obj* o = getobj(m);
    if (o->owner || (wr && o->readers)) { hread(*o, 12); return EBUSY; }
    if (wr) { o->owner = cur + 1; hwrite(*o, 14); vjoin(me().vc, o->rvc); } else { ++o->readers; hread(*o, 15); }
    acquire(*o);
    return 0;
}
int pthread_rwlock_init(pthread_rwlock_t* m, const pthread_rwlockattr_t* a) { return REAL(pthread_rwlock_init)(m, a); }
int pthread_rwlock_destroy(pthread_rwlock_t* m)
{
    if (!on()) return REAL(pthread_rwlock_destroy)(m);
    Rt r; Obj* o = getobj(m); if (o->owner || o->readers) violation("rwlock destroyed while locked"); return 0;
}
int pthread_rwlock_rdlock(pthread_rwlock_t* m) { if (!on()) return REAL(pthread_rwlock_rdlock)(m); return rw_lock(m, false, -1); }
int pthread_rwlock_wrlock(pthread_rwlock_t* m) { if (!on()) return REAL(pthread_rwlock_wrlock)(m); return rw_lock(m, true, -1); }
int pthread_rwlock_tryrdlock(pthread_rwlock_t* m) { if (!on()) return REAL(pthread_rwlock_tryrdlock)(m); return rw_try(m, false); }
int pthread_rwlock_trywrlock(pthread_rwlock_t* m) { if (!on()) return REAL(pthread_rwlock_trywrlock)(m); return rw_try(m, true); }
int pthread_rwlock_timedrdlock(pthread_rwlock_t* m, const struct timespec* t) { if (!on()) return REAL(pthread_rwlock_timedrdlock)(m, t); return rw_lock(m, false, ts_ns(CLOCK_REALTIME, t)); }
int pthread_rwlock_timedwrlock(pthread_rwlock_t* m, const struct timespec* t) { if (!on()) return REAL(pthread_rwlock_timedwrlock)(m, t); return rw_lock(m, true, ts_ns(CLOCK_REALTIME, t)); }
int pthread_rwlock_clockrdlock(pthread_rwlock_t* m, clockid_t c, const struct timespec* t) { if (!on()) return REAL(pthread_rwlock_clockrdlock)(m, c, t); return rw_lock(m, false, ts_ns(c, t)); }
int pthread_rwlock_clockwrlock(pthread_rwlock_t* m, clockid_t c, const struct timespec* t) { if (!on()) return REAL(pthread_rwlock_clockwrlock)(m, c, t); return rw_lock(m, true, ts_ns(c, t)); }
int pthread_rwlock_unlock(pthread_rwlock_t* m)
{
    if (!on()) return REAL(pthread_rwlock_unlock)(m);
    if (!sys_obj(m)) access(m, 4, 1 | 2, PC);
    Rt r; Obj* o = getobj(m);
    if (o->owner)
    {
        if (o->owner != cur + 1) violation("rwlock unlocked by a thread that does not hold it");
        o->owner = 0; hwrite(*o, 16); release_join(*o);
    }
    else
    {
        if (!o->readers) violation("rwlock unlocked while not locked");
        --o->readers;
        // readers commute among themselves; a later writer is ordered after all of them
        me().h = mix(mix(me().h, o->hw), 17); o->hr += mix(me().h, 78);
        vjoin(o->rvc, me().vc); ++me().vc.c[cur];
    }
    trace("T%d unlock w%d", cur, o->id);
    return 0;
}

int pthread_create(pthread_t* t, const pthread_attr_t* a, void* (*fn)(void*), void* arg)
{
    if (!on()) return REAL(pthread_create)(t, a, fn, arg);
    {
        Rt r;
        hwrite(createObj, 41);
        int id = new_fiber(fn, arg);
        Fiber& f = F[id]; Fiber& m = me();
        // everything so far happens before the child
        for (int i = 0; i < MAXT; ++i) if (i != id) f.vc.c[i] = m.vc.c[i];
        ++m.vc.c[cur];
        f.h = mix(mix(m.h, 43), id);
        *t = (pthread_t)(0x7000 + id);
        if (a) { int ds = 0; pthread_attr_getdetachstate(a, &ds); f.detached = ds == PTHREAD_CREATE_DETACHED; }
        trace("T%d creates T%d", cur, id);
    }
    point();
    return 0;
}
static Fiber* by_handle(pthread_t t)
{
    long id = (long)t - 0x7000;
    if (id < 0 || id >= nF) return nullptr;
    return &F[id];
}
int pthread_join(pthread_t t, void** ret)
{
    if (!on()) return REAL(pthread_join)(t, ret);
    { Rt r; }
    Fiber* x = by_handle(t);
    if (!x || x->detached || x->joined) violation("join of a thread that is not joinable");
    if (x->id == cur) return EDEADLK;
    Fiber& f = me(); f.obj = (void*)(long)x->id; f.deadline = -1;
    schedule(O_JOIN);
    Rt r;
    f.h = mix(f.h, x->h); vjoin(f.vc, x->vc);
    x->joined = true;
    trace("T%d joins T%d", cur, x->id);
    if (ret) *ret = x->ret;
    return 0;
}
int pthread_detach(pthread_t t)
{
    if (!on()) return REAL(pthread_detach)(t);
    Rt r;
    Fiber* x = by_handle(t);
    if (!x || x->detached || x->joined) violation("detach of a thread that is not joinable");
    x->detached = true; me().h = mix(me().h, 45 + x->id);
    trace("T%d detaches T%d", cur, x->id);
    return 0;
}
static long raw_syscall(long n, long a, long b, long c, long d, long e, long f);
pid_t gettid(void) noexcept { if (!g_active) return (pid_t)raw_syscall(SYS_gettid, 0, 0, 0, 0, 0, 0); return 5000 + cur; }
pthread_t pthread_self(void) { if (!g_active) return REAL(pthread_self)(); return (pthread_t)(0x7000 + cur); }
int pthread_once(pthread_once_t* o, void (*fn)(void))
{
    if (!on()) return REAL(pthread_once)(o, fn);
    Fiber& f = me();
    // 0 = not run, 1 = running, 2 = done (libstdc++ re-initialises to 0 for a fresh once_flag)
    for (;;)
    {
        int st = *(volatile int*)o;
        if (st == 2) { Rt r; Obj* b = getobj(o); acquire(*b); hread(*b, 51); return 0; }
        if (st == 0) break;
        f.yield_step = steps; f.deadline = -1; schedule(O_YIELD);
    }
    *(volatile int*)o = 1;
    { Rt r; hwrite(*getobj(o), 52); }
    try { fn(); } catch (...) { *(volatile int*)o = 0; throw; }
    *(volatile int*)o = 2;
    { Rt r; Obj* b = getobj(o); hwrite(*b, 53); release_join(*b); }
    point();
    return 0;
}
int sched_yield(void)
{
    if (!on()) return REAL(sched_yield)();
    Fiber& f = me();
    {
        // normally the others go on; at the cost of a preemption the thread goes on at once, a number of times
        Rt r; f.h = mix(f.h, 46);
        if (f.yskip) { --f.yskip; return 0; }
        bool other = false;
        for (int i = 0; i < nF; ++i) if (i != cur && enabled(i)) other = true;
        if (other && used_[U_PRE] < B.preempt && decide(2, 9)) { ++used_[U_PRE]; f.yskip = 40; f.h = mix(f.h, 47); return 0; }
    }
    f.yield_step = steps; f.deadline = -1;
    schedule(O_YIELD);
    return 0;
}
static void do_sleep(i64 until)
{
    Fiber& f = me(); { Rt r; add_time(until); }
    f.deadline = until; schedule(O_SLEEP); f.deadline = -1;
    Rt r; hread(timeObj, 61);
}
int nanosleep(const struct timespec* t, struct timespec* rem) { if (!on()) return REAL(nanosleep)(t, rem); do_sleep(vnow + t->tv_sec * 1000000000LL + t->tv_nsec); return 0; }
int clock_nanosleep(clockid_t c, int fl, const struct timespec* t, struct timespec* rem)
{
    if (!on()) return REAL(clock_nanosleep)(c, fl, t, rem);
    do_sleep(fl & TIMER_ABSTIME ? ts_ns(c, t) : vnow + t->tv_sec * 1000000000LL + t->tv_nsec); return 0;
}
int usleep(useconds_t u) { if (!on()) return REAL(usleep)(u); do_sleep(vnow + u * 1000LL); return 0; }
static i64 read_clock()
{
    if (B.time > 0 && next_time() >= 0) point();
    Rt r; hread(timeObj, 62);
    return vnow;
}
int clock_gettime(clockid_t c, struct timespec* t) noexcept
{
    if (!on()) return syscall(SYS_clock_gettime, c, t);
    i64 v = read_clock() + (c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE ? REAL_BASE : MONO_BASE);
    t->tv_sec = v / 1000000000LL; t->tv_nsec = v % 1000000000LL; return 0;
}
int gettimeofday(struct timeval* __restrict t, void* __restrict) noexcept
{
    if (!on()) { struct timespec s; syscall(SYS_clock_gettime, CLOCK_REALTIME, &s); t->tv_sec = s.tv_sec; t->tv_usec = s.tv_nsec / 1000; return 0; }
    i64 v = read_clock() + REAL_BASE; t->tv_sec = v / 1000000000LL; t->tv_usec = v % 1000000000LL / 1000; return 0;
}
time_t time(time_t* o) noexcept
{
    time_t r;
    if (!on()) { struct timespec s; syscall(SYS_clock_gettime, CLOCK_REALTIME, &s); r = s.tv_sec; }
    else r = (read_clock() + REAL_BASE) / 1000000000LL;
    if (o) *o = r;
    return r;
}
static long raw_syscall(long n, long a, long b, long c, long d, long e, long f)
{
    long r; register long r10 asm("r10") = d; register long r8 asm("r8") = e; register long r9 asm("r9") = f;
    asm volatile("syscall" : "=a"(r) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
    if (r < 0 && r > -4096) { errno = -r; return -1; }
    return r;
}
long syscall(long n, ...) noexcept
{
    va_list ap; va_start(ap, n);
    long a = va_arg(ap, long), b = va_arg(ap, long), c = va_arg(ap, long), d = va_arg(ap, long), e = va_arg(ap, long), f = va_arg(ap, long);
    va_end(ap);
    if (n == SYS_gettid) return gettid();
    if (n != SYS_futex || !on()) return raw_syscall(n, a, b, c, d, e, f);
    int cmd = b & FUTEX_CMD_MASK;
    void* addr = (void*)a;
    if (cmd == FUTEX_WAIT || cmd == FUTEX_WAIT_BITSET)
    {
        i64 dl = -1;
        const struct timespec* t = (const struct timespec*)d;
        if (t) dl = cmd == FUTEX_WAIT ? vnow + t->tv_sec * 1000000000LL + t->tv_nsec : ts_ns(b & FUTEX_CLOCK_REALTIME ? CLOCK_REALTIME : CLOCK_MONOTONIC, t);
        point();
        Rt r; Obj* o = getobj(addr);
        if (*(volatile u32*)addr != (u32)c) { hread(*o, 71); errno = EAGAIN; return -1; }
        hwrite(*o, 72);
        Fiber& x = me();
        if (dl >= 0) add_time(dl);
        x.obj = addr; x.deadline = dl; x.signaled = false;
        trace("T%d futex-waits x%d", cur, o->id);
        --g_rt; schedule(O_FUTEX); ++g_rt;
        bool s = x.signaled; x.signaled = false; x.deadline = -1;
        hwrite(*o, s ? 73 : 74);
        if (!s) { errno = ETIMEDOUT; return -1; }
        return 0;
    }
    if (cmd == FUTEX_WAKE || cmd == FUTEX_WAKE_BITSET)
    {
        point();
        Rt r; Obj* o = getobj(addr); hwrite(*o, 75);
        int left = (int)c, woken = 0;
        while (left-- > 0)
        {
            int w[MAXT], k = 0;
            for (int i = 0; i < nF; ++i) if (!F[i].finished && F[i].op == O_FUTEX && F[i].obj == addr && !F[i].signaled) w[k++] = i;
            if (!k) break;
            int ch = left + 1 >= k ? 0 : decide_delay(k, 3);
            me().h = mix(me().h, ch + 31);
            F[w[ch]].signaled = true; F[w[ch]].h = mix(F[w[ch]].h, me().h); ++woken;
        }
        trace("T%d futex-wakes x%d (%d)", cur, o->id, woken);
        return woken;
    }
    return raw_syscall(n, a, b, c, d, e, f);
}
// function-local statics
int __cxa_guard_acquire(char* g)
{
    if (g[0]) { if (on()) { Rt r; Obj* o = getobj(g); acquire(*o); hread(*o, 81); } return 0; }
    while (g[1])
    {
        if (!on()) abort();
        Fiber& f = me(); f.obj = g; f.deadline = -1; schedule(O_GUARD);
        if (g[0]) { Rt r; Obj* o = getobj(g); acquire(*o); hread(*o, 81); return 0; }
    }
    g[1] = 1;
    if (on()) { Rt r; hwrite(*getobj(g), 82); }
    return 1;
}
void __cxa_guard_release(char* g)
{
    g[0] = 1; g[1] = 0;
    if (on()) { Rt r; Obj* o = getobj(g); release_join(*o); hwrite(*o, 83); }
}
void __cxa_guard_abort(char* g) { g[1] = 0; if (on()) { Rt r; hwrite(*getobj(g), 84); } }
// those of the harness and the headers under test live for one execution: constructed on first use in it, destroyed, in reverse
// order, when its main thread ends, as at normal termination of a program
int mcw___cxa_guard_acquire(char* g)
{
    if (!on()) return __cxa_guard_acquire(g);
    if (!g[0]) mc::point();
    if (!__cxa_guard_acquire(g)) return 0;
    Rt r; trace("T%d constructs a function-local static", cur);
    for (char* x : *exec_guards) if (x == g) return 1;
    exec_guards->push_back(g);
    return 1;
}
void mcw___cxa_guard_release(char* g) { __cxa_guard_release(g); mc::point(); }
void mcw___cxa_guard_abort(char* g) { __cxa_guard_abort(g); mc::point(); }
extern int __cxa_atexit(void (*)(void*), void*, void*);
int mcw___cxa_atexit(void (*fn)(void*), void* obj, void* dso)
{
    if (!on()) return __cxa_atexit(fn, obj, dso);
    Rt r; exit_dtors->push_back({ fn, obj }); return 0;
}
// functions of the C library with hidden static state: a call is a write to it
#define HIDDEN(obj, n) do { if (on()) { mc::point(); access(obj, n, 1, PC); } } while (0)
static char hid_locale[8], hid_rand[8], hid_tok[8];
struct tm* mcw_localtime(const time_t* t) { static struct tm r; HIDDEN(&r, sizeof r); localtime_r(t, &r); if (on()) mc::point(); return &r; }
struct tm* mcw_gmtime(const time_t* t) { static struct tm r; HIDDEN(&r, sizeof r); gmtime_r(t, &r); if (on()) mc::point(); return &r; }
struct tm* mcw_localtime_r(const time_t* t, struct tm* r) { if (on()) access(r, sizeof *r, 1, PC); localtime_r(t, r); return r; }
struct tm* mcw_gmtime_r(const time_t* t, struct tm* r) { if (on()) access(r, sizeof *r, 1, PC); gmtime_r(t, r); return r; }
size_t mcw_strlen(const char* s) { size_t n = strlen(s); if (on()) access(s, n + 1, 0, PC); return n; }
int mcw_vsnprintf(char* b, size_t n, const char* f, va_list a) { int r = vsnprintf(b, n, f, a); if (on() && n) { access(b, r < 0 ? 1 : (size_t)r < n ? (size_t)r + 1 : n, 1, PC); } return r; }
int mcw_snprintf(char* b, size_t n, const char* f, ...) { va_list a; va_start(a, f); int r = mcw_vsnprintf(b, n, f, a); va_end(a); return r; }
int mcw_sprintf(char* b, const char* f, ...) { va_list a; va_start(a, f); int r = mcw_vsnprintf(b, 1u << 30, f, a); va_end(a); return r; }
size_t mcw_strftime(char* b, size_t n, const char* f, const struct tm* t) { size_t r = strftime(b, n, f, t); if (on() && n) { access(t, sizeof *t, 0, PC); access(b, r + 1 < n ? r + 1 : n, 1, PC); } return r; }
char* mcw_strcpy(char* d, const char* s) { if (on()) { size_t n = strlen(s) + 1; access(s, n, 0, PC); access(d, n, 1, PC); } return strcpy(d, s); }
char* mcw_strncpy(char* d, const char* s, size_t n) { if (on() && n) access(d, n, 1, PC); return strncpy(d, s, n); }
char* mcw_strcat(char* d, const char* s) { if (on()) { size_t n = strlen(s) + 1, k = strlen(d); access(s, n, 0, PC); access(d + k, n, 1, PC); } return strcat(d, s); }
char* mcw_asctime(const struct tm* t) { static char r[64]; HIDDEN(r, sizeof r); asctime_r(t, r); if (on()) mc::point(); return r; }
char* mcw_ctime(const time_t* t) { static char r[64]; HIDDEN(r, sizeof r); ctime_r(t, r); if (on()) mc::point(); return r; }
char* mcw_setlocale(int c, const char* l) { HIDDEN(hid_locale, 8); char* r = setlocale(c, l); if (on()) mc::point(); return r; }
int mcw_rand() { HIDDEN(hid_rand, 8); return rand(); }
void mcw_srand(unsigned n) { HIDDEN(hid_rand, 8); srand(n); }
char* mcw_strtok(char* s, const char* d) { HIDDEN(hid_tok, 8); char* r = strtok(s, d); if (on()) mc::point(); return r; }
void* _ZNSt6locale6globalERKS_(void*, void*);
void* mcw__ZNSt6locale6globalERKS_(void* ret, void* l) { if (on()) mc::point(); void* r = _ZNSt6locale6globalERKS_(ret, l); if (on()) mc::point(); return r; }
unsigned mcw__ZNSt6thread20hardware_concurrencyEv() { return hw_threads; }
int __cxa_thread_atexit(void (*fn)(void*), void* obj, void* dso)
{
    if (!on()) { extern int __cxa_thread_atexit_impl(void (*)(void*), void*, void*); return __cxa_thread_atexit_impl(fn, obj, dso); }
    Rt r; Fiber& f = me();
    if (f.nd == f.capd) { f.capd = f.capd ? 2 * f.capd : 8; f.dtors = (Dtor*)realloc(f.dtors, f.capd * sizeof(Dtor)); }
    f.dtors[f.nd++] = { fn, obj };
    return 0;
}
void mc_untracked_begin() { if (g_active) ++me().untracked; }
void mc_untracked_end() { if (g_active) --me().untracked; }
}

// ------------------------------------------------------------------------------------------------ file system
static bool under_root(const char* p) { size_t n = strlen(fsroot); return n && strncmp(p, fsroot, n) == 0; }
static int fs_call(const char* kind, const char* p, const char* p2, int fd, const void* buf, size_t len)
{
    if (!on() || !fshook || in_fshook) return 0;
    char fp[4096];
    if (!p)
    {
        char l[64]; snprintf(l, sizeof l, "/proc/self/fd/%d", fd);
        ssize_t n = readlink(l, fp, sizeof fp - 1); if (n < 0) return 0;
        fp[n] = 0; p = fp;
    }
    if (!under_root(p) && !(p2 && under_root(p2))) return 0;
    ++fsops;
    mc::FsOp op{ kind, p, p2, fd, buf, len };
    in_fshook = true; me().untracked++;
    int e = fshook(op);
    me().untracked--; in_fshook = false;
    if (tracing_) trace("T%d fs %s %s%s%s%s", cur, kind, p, p2 ? " -> " : "", p2 ? p2 : "", e ? "  [injected failure]" : "");
    return e;
}
#define FS(kind, p, p2, fd, buf, len, failval) do { if (int e_ = fs_call(kind, p, p2, fd, buf, len)) { errno = e_; return failval; } } while (0)
extern "C" {
FILE* fopen(const char* __restrict p, const char* __restrict m) { FS("open", p, 0, -1, 0, 0, nullptr); return REAL(fopen)(p, m); }
FILE* fopen64(const char* __restrict p, const char* __restrict m) { FS("open", p, 0, -1, 0, 0, nullptr); return REAL(fopen64)(p, m); }
int open(const char* p, int fl, ...) { va_list ap; va_start(ap, fl); int m = va_arg(ap, int); va_end(ap); FS("open", p, 0, -1, 0, 0, -1); return REAL(open)(p, fl, m); }
int open64(const char* p, int fl, ...) { va_list ap; va_start(ap, fl); int m = va_arg(ap, int); va_end(ap); FS("open", p, 0, -1, 0, 0, -1); return REAL(open64)(p, fl, m); }
ssize_t write(int fd, const void* b, size_t n) { FS("write", 0, 0, fd, b, n, -1); return raw_syscall(SYS_write, fd, (long)b, n, 0, 0, 0); }
ssize_t writev(int fd, const struct iovec* v, int n)
{
    if (on() && fshook && !in_fshook)
    {
        Str s; for (int i = 0; i < n; ++i) s.append((const char*)v[i].iov_base, v[i].iov_len);
        FS("write", 0, 0, fd, s.data(), s.size(), -1);
    }
    return raw_syscall(SYS_writev, fd, (long)v, n, 0, 0, 0);
}
int rename(const char* a, const char* b) noexcept { FS("rename", a, b, -1, 0, 0, -1); return raw_syscall(SYS_rename, (long)a, (long)b, 0, 0, 0, 0); }
int unlink(const char* p) noexcept { FS("remove", p, 0, -1, 0, 0, -1); return raw_syscall(SYS_unlink, (long)p, 0, 0, 0, 0, 0); }
int remove(const char* p) noexcept
{
    FS("remove", p, 0, -1, 0, 0, -1);
    if (raw_syscall(SYS_unlink, (long)p, 0, 0, 0, 0, 0) == 0) return 0;
    if (errno != EISDIR && errno != EPERM) return -1;
    return raw_syscall(SYS_rmdir, (long)p, 0, 0, 0, 0, 0);
}
int mkdir(const char* p, mode_t m) noexcept { FS("mkdir", p, 0, -1, 0, 0, -1); return raw_syscall(SYS_mkdir, (long)p, m, 0, 0, 0, 0); }
int stat(const char* __restrict p, struct stat* __restrict s) noexcept { FS("stat", p, 0, -1, 0, 0, -1); return REAL(stat)(p, s); }
int lstat(const char* __restrict p, struct stat* __restrict s) noexcept { FS("stat", p, 0, -1, 0, 0, -1); return REAL(lstat)(p, s); }
int truncate(const char* p, off_t n) noexcept { FS("truncate", p, 0, -1, 0, 0, -1); return raw_syscall(SYS_truncate, (long)p, n, 0, 0, 0, 0); }
}

// ------------------------------------------------------------------------------------------------ harness API
namespace mc
{
    void point() { if (on()) ::point(); }
    void ev(int kind, long a, long b)
    {
        Rt r; if (!g_active) return;
        if (nev >= NEV) violation("internal: event log full");
        hwrite(logObj, mix(mix(kind, a), b));
        evs[nev++] = { kind, cur, a, b, (long long)vnow };
        trace("T%d EVENT %d (%ld, %ld)", cur, kind, a, b);
    }
    int ev_count() { return nev; }
    const Ev& ev_at(int i) { return evs[i]; }
    void flag_set(int i) { ::point(); Rt r; hwrite(flagObj[i], 91); release_join(flagObj[i]); flags_[i] = true; trace("T%d opens gate %d", cur, i); }
    bool flag_get(int i) { ::point(); Rt r; hread(flagObj[i], 92); if (flags_[i]) acquire(flagObj[i]); return flags_[i]; }
    void flag_wait(int i) { Fiber& f = me(); f.obj = (void*)(long)i; f.deadline = -1; schedule(O_FLAG); Rt r; hread(flagObj[i], 93); acquire(flagObj[i]); }
    void counter_add(int i, long d) { Rt r; if (g_active) hwrite(logObj, mix(i, d)); counters[i] += d; }
    long counter_get(int i) { Rt r; if (g_active) hread(logObj, mix(i, 7)); return counters[i]; }
    int choose(int n, const char* what)
    {
        Rt r; int c = decide(n, 4); me().h = mix(me().h, c + 101); envObj.hw = mix(envObj.hw, me().h);
        trace("T%d %s := %d of %d", cur, what, c, n); return c;
    }
    int choose_fault(const char* what)
    {
        Rt r; if (used_[U_FAULT] >= B.fault) return 0;
        int c = decide(2, 5); me().h = mix(me().h, c + 103); envObj.hw = mix(envObj.hw, me().h);
        if (c) { ++used_[U_FAULT]; trace("T%d FAULT %s", cur, what); }
        return c;
    }
    void quiesce() { Fiber& f = me(); f.deadline = vnow; schedule(O_QUIESCE); f.deadline = -1; }
    void quiesce_until(long long t)
    {
        Fiber& f = me(); if (t < vnow) t = vnow;
        f.deadline = t; schedule(O_QUIESCE); f.deadline = -1;
        Rt r; if (vnow < t) advance(t);
        hread(timeObj, 63);
    }
    long long now() { Rt r; if (g_active) hread(timeObj, 64); return vnow; }
    long long real_base_ns() { return REAL_BASE; }
    long long mono_base_ns() { return MONO_BASE; }
    int self() { return cur; }
    int live_threads() { int n = 0; for (int i = 0; i < nF; ++i) if (!F[i].finished) ++n; return n; }
    int blocked_threads() { int n = 0; for (int i = 0; i < nF; ++i) if (i != cur && !F[i].finished && !enabled(i)) ++n; return n; }
    void outcome(u64 h) { Rt r; if (outcomes_.insert(mix(h, 5))) shm->outcomes = outcomes_.n; }
    void outcome_str(const char* s) { u64 h = 7; for (; *s; ++s) h = mix(h, (u8)*s); outcome(h); }
    void note(const char* fmt, ...)
    {
        if (!tracing_) return;
        char b[1024]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
        trace("T%d NOTE %s", cur, b);
    }
    void hardware_threads(unsigned n) { hw_threads = n; }
    void at_end(void (*f)(int), int a) { at_end_[n_at_end].f = f; at_end_[n_at_end++].a = a; }
    bool tracing() { return tracing_; }
    void fs_hook(const char* root, fs_hook_t h) { snprintf(fsroot, sizeof fsroot, "%s", root); fshook = h; }
    std::size_t fs_ops() { return fsops; }
    const char* scratch_dir()
    {
        Rt r;
        snprintf(scratch_cur, sizeof scratch_cur, "%s/%d", scratch_base, scratch_no);
        if (!scratch_made) { if (raw_syscall(SYS_mkdir, (long)scratch_cur, 0700, 0, 0, 0, 0)) violation("internal: cannot make scratch directory %s", scratch_cur); scratch_made = true; }
        return scratch_cur;
    }
    void count_extra(int w, long n) { shm->extra[w] = shm->extra[w] + n; }
    void extra_name(int w, const char* n) { extra_names[w] = n; }
}

// ------------------------------------------------------------------------------------------------ exploration
static int rm_cb(const char* p, const struct stat*, int, struct FTW*) { if (strncmp(p, scratch_base, strlen(scratch_base)) == 0) remove(p); return 0; }
static void clean_scratch()
{
    if (scratch_made) { nftw(scratch_cur, rm_cb, 16, FTW_DEPTH | FTW_PHYS); scratch_made = false; ++scratch_no; }
}
static void* main_entry(void*)
{
    body_(body_arg);
    return nullptr;
}
static void reset_obj(Obj& o) { memset(&o, 0, sizeof o); }
static void run_one()
{
    ++gen; ++exec_no; exec_started = 0;
    if (arena_live) { arena_start = arena_cur; arena_live = 0; if (arena_start > ARENA - (8u << 20)) fprintf(stderr, "mcrt: arena exhausted by leaks\n"); }
    else { memset(astate + (arena_start >> 4), 0, ((arena_cur - arena_start) >> 4) + 2); }
    arena_cur = arena_start;
    nobj = 0; reset_obj(timeObj); reset_obj(logObj); reset_obj(createObj); reset_obj(envObj);
    for (auto& o : flagObj) reset_obj(o);
    memset(flags_, 0, sizeof flags_); memset(counters, 0, sizeof counters); memset(used_, 0, sizeof used_);
    vnow = 0; hw_threads = 2; times->clear(); nev = 0; steps = 0; run_len = 0; ppos = 0; nobranch = false; n_at_end = 0;
    fshook = nullptr; fsops = 0; in_fshook = false; fsroot[0] = 0; swtrace->clear();
    nF = 0; cur = new_fiber(main_entry, nullptr);
    g_rt = 0;
    save_ctx(ctl_eh, ctl_err, ctl_oc, ctl_ocf, ctl_tls);
    load_ctx(F[0].eh, 0, nullptr, nullptr, F[0].tls);
    g_active = true;
    mc_switch(&ctl_sp, F[0].sp);
    g_active = false; g_rt = 0;
    for (char* g : *exec_guards) memset(g, 0, 8);
    exec_guards->clear();
    for (int i = 0; i < n_at_end; ++i) at_end_[i].f(at_end_[i].a);
    clean_scratch();
}
static void take_sample()
{
    int k = shm->nsample; if (k >= 3) return;
    Str s = "switches:"; char b[64];
    for (size_t i = 0; i < swtrace->size() && i < 60; ++i) { snprintf(b, sizeof b, " T%d", (int)(*swtrace)[i]); s += b; }
    s += "; choices:";
    for (int i = 0; i < ppos && i < 60; ++i) { snprintf(b, sizeof b, " %d/%d", shm->path[i][0], shm->path[i][1]); s += b; }
    s += "; events:";
    for (int i = 0; i < nev && i < 24; ++i) { snprintf(b, sizeof b, " T%d:%d(%ld,%ld)", evs[i].tid, evs[i].kind, evs[i].a, evs[i].b); s += b; }
    snprintf(shm->sample[k], sizeof shm->sample[k], "%s", s.c_str());
    shm->nsample = k + 1;
}

struct Scn { const char* prop; const char* name; mc::Opt opt; void (*body)(int); int arg; };
static Vec<Scn>& scns() { static Vec<Scn> v; return v; }
void mc::scenario(const char* prop, const char* name, const Opt& opt, void (*body)(int), int arg)
{
    scns().push_back({ strdup(prop), strdup(name), opt, body, arg });
}

static double now_s() { struct timespec t; raw_syscall(SYS_clock_gettime, CLOCK_MONOTONIC, (long)&t, 0, 0, 0, 0); return t.tv_sec + t.tv_nsec * 1e-9; }
static void on_signal(int s, siginfo_t* si, void*)
{
    if (s == SIGALRM)
    {
        static u32 last = 0; static int stuck = 0; static long last_steps = -1;
        if (g_active && last == exec_no && last_steps == steps) { if (++stuck >= 3) { shm->path_len = ppos; snprintf(shm->msg, sizeof shm->msg, "hang: T%d runs for ever without reaching a synchronisation operation", cur); _exit(EXIT_VIOL); } }
        else stuck = 0;
        last = exec_no; last_steps = steps;
        return;
    }
    shm->path_len = ppos;
    snprintf(shm->msg, sizeof shm->msg, "program received signal %d (%s) at address %p in T%d", s, strsignal(s), si->si_addr, cur);
    if (tracing_ && trace_) { ssize_t w = raw_syscall(SYS_write, 1, (long)trace_->data(), trace_->size(), 0, 0, 0); (void)w; }
    _exit(g_active ? EXIT_VIOL : EXIT_NONDET);
}
static void on_terminate()
{
    const char* what = "std::terminate called";
    char b[512]; snprintf(b, sizeof b, "%s", what);
    if (g_active)
    {
        g_rt++;
        if (std::exception_ptr e = std::current_exception())
        {
            try { std::rethrow_exception(e); }
            catch (const std::exception& x) { snprintf(b, sizeof b, "%s with an exception of type %s: %s", what, typeid(x).name(), x.what()); }
            catch (...) { snprintf(b, sizeof b, "%s with an unknown exception", what); }
        }
        violation("%s", b);
    }
    snprintf(shm->msg, sizeof shm->msg, "%s outside an execution", b);
    _exit(EXIT_NONDET);
}
static void setup_child()
{
    stack_t ss; memset(&ss, 0, sizeof ss); ss.ss_size = 128 * 1024; ss.ss_sp = malloc(ss.ss_size); sigaltstack(&ss, nullptr);
    struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_sigaction = on_signal; sa.sa_flags = SA_SIGINFO | SA_ONSTACK;
    for (int s : { SIGSEGV, SIGBUS, SIGILL, SIGFPE, SIGABRT }) sigaction(s, &sa, nullptr);
    sa.sa_flags = SA_SIGINFO | SA_ONSTACK | SA_RESTART; sigaction(SIGALRM, &sa, nullptr);
    struct itimerval it; it.it_interval.tv_sec = 5; it.it_interval.tv_usec = 0; it.it_value = it.it_interval; setitimer(ITIMER_REAL, &it, nullptr);
    std::set_terminate(on_terminate);
    objs = (Obj*)mmap(0, NOBJ * sizeof(Obj), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    region_size = (size_t)MAXT * STACK + ARENA;
    region = (char*)mmap((void*)0x600000000000, region_size, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); // same addresses in every run
    arena = region + (size_t)MAXT * STACK;
    for (int i = 0; i < MAXT; ++i) mprotect(region + (size_t)i * STACK, 4096, PROT_NONE);
    astate = (u8*)mmap(0, (ARENA >> 4) + 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    shadow = (Cell*)mmap(0, (region_size >> 3) * sizeof(Cell), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    hshadow = (Cell*)mmap(0, HS * sizeof(Cell), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    hkey = (const void**)calloc(HS, sizeof(void*));
    times = new (malloc(sizeof(Vec<i64>))) Vec<i64>(); swtrace = new (malloc(sizeof(Vec<i64>))) Vec<i64>(); trace_ = new (malloc(sizeof(Str))) Str();
    exec_guards = new (malloc(sizeof(Vec<char*>))) Vec<char*>(); exit_dtors = new (malloc(sizeof(Vec<Dtor>))) Vec<Dtor>();
    times->reserve(64); swtrace->reserve(512);
    dl_iterate_phdr(phdr_cb, nullptr);
    ctl_tls = (char*)malloc(tls_size + 1); tp_lo = (u64)__builtin_thread_pointer() - 8192;
    char* lst = (char*)dlsym(RTLD_DEFAULT, "__libc_single_threaded"); if (lst) *lst = 0;
    snprintf(scratch_base, sizeof scratch_base, "%s/mcrt.XXXXXX", getenv("MC_SCRATCH") ? getenv("MC_SCRATCH") : "/tmp");
    if (!mkdtemp(scratch_base)) { perror("mkdtemp"); _exit(EXIT_NONDET); }
}
static void warm_up(const Scn& s)
{
    // initialises function-local statics, locale caches and the like outside the exploration
    prefix_len = 0; caching = false; bool t = tracing_; tracing_ = false; mc::Bounds b = B; B.preempt = 0; B.spurious = B.time = B.fault = 0;
    for (int i = 0; i < 2; ++i) run_one();
    caching = true; tracing_ = t; B = b; outcomes_.clear(); shm->outcomes = 0; shm->accesses = 0; shm->forced_switch = 0;
    for (auto& e : shm->extra) e = 0;
    (void)s;
}
static void explore(const Scn& s, bool thorough)
{
    mc::Bounds full = thorough ? s.opt.thorough : s.opt.quick;
    B = full; body_ = s.body; body_arg = s.arg; leave_blocked_ok = s.opt.leave_blocked_ok;
    warm_up(s);
    double t0 = now_s(); shm->complete_bound = -1;
    for (int b = 0; b <= full.preempt; ++b)
    {
        B.preempt = b; shm->bound = b;
        visited.clear();
        prefix_len = 0;
        for (;;)
        {
            run_one();
            shm->path_len = ppos;
            shm->execs = shm->execs + 1; shm->steps = shm->steps + steps;
            shm->states = allstates.n;
            if (ppos > shm->maxdepth) shm->maxdepth = ppos;
            long x = shm->execs;
            if (x == 1 || x == 17 || x == 400) take_sample();
            // backtrack
            int i = ppos - 1;
            while (i >= 0 && shm->path[i][0] + 1 >= shm->path[i][1]) --i;
            if (i < 0) break;
            ++shm->path[i][0]; prefix_len = i + 1;
            if (x >= full.max_exec || ((x & 63) == 0 && now_s() - t0 > full.max_s)) { shm->capped = 1; break; }
        }
        if (shm->capped) break;
        shm->complete_bound = b;
    }
    shm->done = 1;
}
static void explore_child(const Scn& s, bool thorough)
{
    setup_child();
    explore(s, thorough);
    rmdir(scratch_base);
    _exit(0);
}
static void replay_child(const Scn& s, bool thorough, int bound, int outfd)
{
    if (outfd >= 0) dup2(outfd, 1);
    setup_child();
    B = thorough ? s.opt.thorough : s.opt.quick; B.preempt = bound;
    body_ = s.body; body_arg = s.arg; leave_blocked_ok = s.opt.leave_blocked_ok;
    int len = shm->path_len;
    static u8 keep[MAXPATH][2]; memcpy(keep, shm->path, sizeof(u8) * 2 * len);
    if (len) warm_up(s);
    memcpy(shm->path, keep, sizeof(u8) * 2 * len);
    tracing_ = true; caching = false; prefix_len = len;
    run_one();
    ssize_t w = write(1, trace_->data(), trace_->size()); (void)w;
    _exit(0);
}
static void cleanup_dir(const char* d) { static char pre[300]; snprintf(pre, sizeof pre, "%s", d); snprintf(scratch_base, sizeof scratch_base, "%s", d); nftw(d, rm_cb, 16, FTW_DEPTH | FTW_PHYS); }

static void jstr(FILE* f, const char* s)
{
    fputc('"', f);
    for (; *s; ++s) { unsigned char c = *s; if (c == '"' || c == '\\') fprintf(f, "\\%c", c); else if (c < 32 || c > 126) fprintf(f, "\\u%04x", c); else fputc(c, f); }
    fputc('"', f);
}
extern void mc_register();

int main(int argc, char** argv)
{
    const char* prop = ""; const char* tier = "quick"; const char* stats = nullptr; const char* only = nullptr; const char* rdir = "."; const char* replay = nullptr; int jobs = 8; bool list = false;
    double budget = 0;
    for (int i = 1; i < argc; ++i)
    {
        std::string a = argv[i];
        auto nx = [&] { return i + 1 < argc ? argv[++i] : (char*)""; };
        if (a == "--prop") prop = nx(); else if (a == "--tier") tier = nx(); else if (a == "--stats") stats = nx(); else if (a == "--only") only = nx();
        else if (a == "--replay-dir") rdir = nx(); else if (a == "--replay") replay = nx(); else if (a == "--jobs") jobs = atoi(nx()); else if (a == "--list") list = true;
        else if (a == "--budget") budget = atof(nx()); else if (a == "--tag") nx();
    }
    mc_register();
    bool thorough = strcmp(tier, "thorough") == 0;
    auto newshm = [] { return (Shared*)mmap(0, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); };
    if (list) { for (auto& s : scns()) printf("%s %s\n", s.prop, s.name); return 0; }
    char base[256]; snprintf(base, sizeof base, "%s/mcb.XXXXXX", access("/dev/shm", W_OK) == 0 ? "/dev/shm" : "/tmp");
    if (!mkdtemp(base)) { perror("mkdtemp"); return 2; }
    setenv("MC_SCRATCH", base, 1);
    if (replay)
    {
        FILE* f = fopen(replay, "r"); if (!f) { perror(replay); return 2; }
        char line[1 << 16]; std::string name, tr = "quick"; int bound = 0; shm = newshm(); std::string pr;
        while (fgets(line, sizeof line, f))
        {
            char v[512];
            if (sscanf(line, "scenario %511s", v) == 1) name = v;
            else if (sscanf(line, "property %511s", v) == 1) pr = v;
            else if (sscanf(line, "tier %511s", v) == 1) tr = v;
            else if (sscanf(line, "bound %d", &bound) == 1) {}
            else if (strncmp(line, "path", 4) == 0)
            {
                char* p = line + 4; int a, b, k, n = 0;
                while (sscanf(p, " %d/%d%n", &a, &b, &k) == 2) { shm->path[n][0] = a; shm->path[n][1] = b; ++n; p += k; }
                shm->path_len = n;
            }
        }
        fclose(f);
        int rc = 2;
        for (auto& s : scns()) if (name == s.name && pr == s.prop)
        {
            fflush(stdout);
            pid_t p = fork(); if (!p) replay_child(s, tr == "thorough", bound, -1);
            int st; waitpid(p, &st, 0);
            rc = WIFEXITED(st) && WEXITSTATUS(st) == 0 ? 0 : WIFEXITED(st) && WEXITSTATUS(st) == EXIT_VIOL ? 1 : 2;
            printf("replay: %s\n", rc == 1 ? shm->msg : rc == 0 ? "no violation" : "internal error");
        }
        cleanup_dir(base);
        return rc;
    }
    struct Job { Scn* s; Shared* sh; pid_t pid; int state; double t; double t0; };
    std::vector<Job> js;
    for (auto& s : scns()) if (strcmp(s.prop, prop) == 0 && (!only || strstr(s.name, only)))
    {
        if (!(thorough ? s.opt.thorough : s.opt.quick).max_exec) continue;   // not in this tier
        if (budget > 0) { s.opt.quick.max_s = std::min(s.opt.quick.max_s, budget); s.opt.thorough.max_s = std::min(s.opt.thorough.max_s, budget); }
        js.push_back({ &s, newshm(), 0, 0, 0, 0 });
    }
    int running = 0, bad = 0, nviol = 0; size_t next = 0;
    double t0 = now_s();
    std::string viol;
    while (next < js.size() || running)
    {
        while (running < jobs && next < js.size() && !nviol)
        {
            Job& j = js[next++]; shm = j.sh; j.t0 = now_s();
            fflush(stdout);
            j.pid = fork(); if (!j.pid) explore_child(*j.s, thorough);
            j.state = 1; ++running;
        }
        if (!running) break;
        int st; pid_t p = waitpid(-1, &st, 0);
        for (auto& j : js) if (j.pid == p && j.state == 1)
        {
            --running; j.state = 2; j.t = now_s() - j.t0;
            bool ok = WIFEXITED(st) && WEXITSTATUS(st) == 0;
            if (ok) break;
            bool killed = WIFSIGNALED(st);
            if (WIFEXITED(st) && WEXITSTATUS(st) == EXIT_NONDET) { fprintf(stderr, "scenario %s: %s\n", j.s->name, j.sh->msg); bad = 1; break; }
            if (killed && (WTERMSIG(st) == SIGKILL || WTERMSIG(st) == SIGTERM)) { fprintf(stderr, "scenario %s: killed\n", j.s->name); bad = 1; break; }
            // confirm by replaying the schedule twice in fresh processes
            std::string msg = j.sh->msg; int len = j.sh->path_len; int bound = j.sh->bound;
            std::string sp; char b[64];
            for (int i = 0; i < len; ++i) { snprintf(b, sizeof b, " %d/%d", j.sh->path[i][0], j.sh->path[i][1]); sp += b; }
            char rp[512]; snprintf(rp, sizeof rp, "%s/%s-%s.replay", rdir, j.s->prop, j.s->name);
            char tp[600]; snprintf(tp, sizeof tp, "%s.trace", rp);
            bool confirmed = true; std::string m2[2];
            for (int k = 0; k < 2; ++k)
            {
                Shared* sh = newshm(); memcpy(sh->path, j.sh->path, 2 * len); sh->path_len = len; shm = sh;
                int fd = raw_syscall(SYS_open, (long)tp, O_CREAT | O_TRUNC | O_WRONLY, 0644, 0, 0, 0);
                pid_t q = fork(); if (!q) replay_child(*j.s, thorough, bound, fd);
                int s2; waitpid(q, &s2, 0); close(fd);
                if (!(WIFEXITED(s2) && WEXITSTATUS(s2) == EXIT_VIOL) && !WIFSIGNALED(s2)) confirmed = false;
                m2[k] = sh->msg;
            }
            if (!confirmed || m2[0] != m2[1])
            {
                fprintf(stderr, "scenario %s: %s -- NOT reproduced by replay (%s / %s)\n", j.s->name, msg.c_str(), m2[0].c_str(), m2[1].c_str());
                bad = 1; break;
            }
            FILE* f = fopen(rp, "w");
            if (f)
            {
                fprintf(f, "property %s\nscenario %s\ntier %s\nbound %d\npath%s\nviolation %s\n", j.s->prop, j.s->name, thorough ? "thorough" : "quick", bound, sp.c_str(), m2[0].c_str());
                fprintf(f, "--- trace of the execution ---\n");
                FILE* t = fopen(tp, "r"); if (t) { char line[4096]; while (fgets(line, sizeof line, t)) fputs(line, f); fclose(t); }
                fclose(f);
            }
            unlink(tp);
            ++nviol;
            printf("scenario %s: %s\n", j.s->name, m2[0].c_str());
            printf("VIOLATION property=%s replay=%s\n", j.s->prop, rp);
            fflush(stdout);
            break;
        }
    }
    cleanup_dir(base);
    if (stats)
    {
        FILE* f = fopen(stats, "w");
        fprintf(f, "{\"wall_s\": %.2f, \"violations\": %d, \"scenarios\": [\n", now_s() - t0, nviol);
        bool first = true;
        for (auto& j : js)
        {
            Shared* h = j.sh; if (j.state != 2) continue;
            mc::Bounds& b = thorough ? j.s->opt.thorough : j.s->opt.quick;
            fprintf(f, "%s{\"name\": ", first ? "" : ",\n"); first = false; jstr(f, j.s->name);
            fprintf(f, ", \"executions\": %ld, \"steps\": %ld, \"states\": %ld, \"pruned\": %ld, \"max_choices\": %ld, \"outcomes\": %ld, \"capped\": %s, \"preemption_bound_completed\": %ld, \"preemption_bound\": %d, \"spurious\": %d, \"early_time\": %d, \"faults\": %d, \"delay_bound\": %d, \"checked_accesses\": %ld, \"wall_s\": %.2f",
                h->execs, h->steps, h->states, h->cached, h->maxdepth, h->outcomes, h->capped ? "true" : "false", h->complete_bound, b.preempt, b.spurious, b.time, b.fault, b.delay, h->accesses, j.t);
            for (int i = 0; i < 8; ++i) if (h->extra[i] && extra_names[i]) { fprintf(f, ", "); jstr(f, extra_names[i]); fprintf(f, ": %ld", h->extra[i]); }
            fprintf(f, ", \"samples\": [");
            for (int i = 0; i < h->nsample; ++i) { if (i) fprintf(f, ", "); jstr(f, h->sample[i]); }
            fprintf(f, "]}");
        }
        fprintf(f, "]}\n"); fclose(f);
    }
    if (nviol) return 1;
    return bad ? 2 : 0;
}
