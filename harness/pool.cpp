// T01..T08: pluto::thread_pool, the real header under mcrt.
//
// A scenario is an initial number of workers, a script for the main thread and scripts for further threads.  Every
// script letter is one public call of the pool; the events it and the tasks record are judged afterwards.
#include "mc.hpp"
#include <pluto/thread_pool.hpp>
#include <cstdio>
#include <cstring>
#include <memory>
#include <string>
#include <vector>

namespace
{
    typedef pluto::thread_pool pool;
    typedef pool::clock_type clk;
    enum Kind { BEGIN = 1, END, SUB_CALL, SUB_RET, WAIT_CALL, WAIT_RET, NONE_CALL, NONE_RET, DEL_CALL, DEL_RET, TARGET };

    enum { MAXTASK = 700 };
    // plain data, written and read outside the race detector
    struct Task { int submitted, prio; long long due; bool sync; };
    struct World
    {
        pool* p; Task t[MAXTASK]; int n; int maxTarget; int lastTarget; bool mode_complete; bool quiet;
    } w;

    // the clock's value `ns` after the start of the execution
    clk::time_point at(long long ns)
    {
        const long long base = std::is_same<clk, std::chrono::steady_clock>::value ? mc::mono_base_ns() : mc::real_base_ns();
        return clk::time_point(std::chrono::duration_cast<clk::duration>(std::chrono::nanoseconds(base + ns)));
    }
    int new_task(int prio, long long due = -1, bool sync = false)
    {
        mc::Untracked u;
        int id = w.n++; if (id >= MAXTASK) mc::fail("internal: too many tasks");
        w.t[id] = Task{ 1, prio, due, sync };
        return id;
    }
    std::function<void()> body(int id) { return [id] { mc::ev(BEGIN, id); mc::point(); mc::ev(END, id); }; }
    std::function<void()> quick(int id) { return [id] { mc::ev(BEGIN, id); mc::ev(END, id); }; }
    std::function<void()> gated(int id, int gate) { return [id, gate] { mc::ev(BEGIN, id); mc::flag_wait(gate); mc::ev(END, id); }; }
    std::function<void()> nesting(int id, int depth)
    {
        return [id, depth]
        {
            mc::ev(BEGIN, id);
            int k = new_task(0); mc::ev(SUB_CALL, k);
            if (depth > 1) w.p->run_async(nesting(k, depth - 1)); else w.p->run_async(quick(k));
            mc::ev(SUB_RET, k);
            mc::ev(END, id);
        };
    }
    void async(std::function<void()> f, int id, int prio) { mc::ev(SUB_CALL, id); w.p->run_async(f, (signed char)prio); mc::ev(SUB_RET, id); }

    __attribute__((noinline)) void scribble() { volatile char b[1500]; for (unsigned i = 0; i < sizeof b; i += 4) b[i] = (char)i; }

    int count(int kind, long a) { int c = 0; for (int i = 0; i < mc::ev_count(); ++i) if (mc::ev_at(i).kind == kind && mc::ev_at(i).a == a) ++c; return c; }
    int find(int kind, long a) { for (int i = 0; i < mc::ev_count(); ++i) if (mc::ev_at(i).kind == kind && mc::ev_at(i).a == a) return i; return -1; }

    void set_target(int k)
    {
        { mc::Untracked u; if (k > w.maxTarget) w.maxTarget = k; }
        pool& r = w.p->target_workers_size(k);
        MC_CHECK(&r == w.p, "setter does not return the pool");
        mc::ev(TARGET, k);
    }

    void getters()
    {
        const pool& p = *w.p;
        auto a = p.workers_size(), b = p.active_workers_size(), c = p.waiting_workers_size(), d = p.tasks_size(), e = p.active_tasks_size(),
            f = p.waiting_tasks_size(), g = p.scheduled_tasks_size(), t = p.target_workers_size();
        int mt; { mc::Untracked u; mt = w.maxTarget; }
        MC_CHECK(a <= 20 && b <= 20 && c <= 20 && d <= 64 && e <= 20 && f <= 64 && g <= 64 && (int)t <= mt, "a getter reports nonsense: %zu %zu %zu %zu %zu %zu %zu %zu", a, b, c, d, e, f, g, t);
        (void)p.on_stop();
    }

    // -------------------------------------------------------------------------------- the script interpreter
    void step(char c)
    {
        switch (c)
        {
            case 'a': { int k = new_task(0); async(body(k), k, 0); break; }
            case 'b': { int k = new_task(0); async(quick(k), k, 0); break; }
            case 'h': { int k = new_task(64); mc::ev(SUB_CALL, k); w.p->run_async(quick(k), pool::priority::higher); mc::ev(SUB_RET, k); break; }
            case 'l': { int k = new_task(-128); mc::ev(SUB_CALL, k); w.p->run_async(quick(k), pool::priority::lowest); mc::ev(SUB_RET, k); break; }
            case 'N': { int k = new_task(0); async(nesting(k, 1), k, 0); break; }
            case 'M': { int k = new_task(0); async(nesting(k, 2), k, 0); break; }
            case 'G': { int k = new_task(0); async(gated(k, 1), k, 0); break; }   // runs until gate 1 opens
            case 'o': mc::flag_set(1); break;
            case 's': case 'S':
            {
                int k = new_task(32, -1, true); int result = 0; int* r = &result;
                auto f = [k, r] { mc::ev(BEGIN, k); *r = 7; mc::point(); mc::ev(END, k); };
                if (c == 's') w.p->run_sync(f); else w.p->run_sync(f, pool::priority::low);
                MC_CHECK(count(END, k) == 1, "run_sync returned before its task %d had completed", k);
                MC_CHECK(result == 7, "the effect of a synchronous task is not visible to its caller");
                scribble();
                break;
            }
            case 'Y':   // a task that itself runs another one synchronously (needs a second worker)
            {
                int k = new_task(0);
                async([k] { mc::ev(BEGIN, k); step('s'); mc::ev(END, k); }, k, 0);
                break;
            }
            case '0': case '1': case '2': case '3': set_target(c - '0'); break;
            case 'w': { int z = mc::ev_count(); mc::ev(WAIT_CALL, z); w.p->wait_until_all_tasks_complete(); mc::ev(WAIT_RET, z); break; }
            case 'n': { int z = mc::ev_count(); mc::ev(NONE_CALL, z); w.p->wait_until_no_tasks_waiting(); mc::ev(NONE_RET, z); break; }
            case 'c': { w.p->on_stop(pool::action::complete_tasks); mc::Untracked u; w.mode_complete = true; break; }
            case 'j': { w.p->on_stop(pool::action::join_all); mc::Untracked u; w.mode_complete = false; break; }
            case 'p': case 'P': case 'q': case 'z': case 'x': case 'y':
            {
                // scheduled: p = in 10 ms, q = in 5 ms, x = in 20 ms, P = 10 ms ago, z = after 0, y = after 10 ms (relative, by priority)
                long long off = c == 'p' ? 10 : c == 'q' ? 5 : c == 'x' ? 20 : c == 'P' ? -10 : c == 'y' ? 10 : 0;
                if (c == 'z' || c == 'y')
                {
                    long long due = mc::now() + off * 1000000;
                    int k = new_task(0, due);
                    mc::ev(SUB_CALL, k);
                    if (c == 'z') w.p->run_after(std::chrono::milliseconds(0), quick(k)); else w.p->run_after(std::chrono::milliseconds(10), quick(k), pool::priority::low);
                    mc::ev(SUB_RET, k);
                }
                else
                {
                    long long due = off * 1000000;
                    int k = new_task(0, due < 0 ? 0 : due);
                    mc::ev(SUB_CALL, k);
                    w.p->run_at(at(due), quick(k));
                    mc::ev(SUB_RET, k);
                }
                break;
            }
            case 'e': case 'E': case 't':   // scheduled and gated: e = in 10 ms, E = 10 ms ago, t = in 20 ms
            {
                long long due = c == 'e' ? 10000000 : c == 't' ? 20000000 : -10000000;
                int k = new_task(0, due < 0 ? 0 : due);
                mc::ev(SUB_CALL, k); w.p->run_at(at(due), gated(k, 1)); mc::ev(SUB_RET, k);
                break;
            }
            case 'v': getters(); break;
            case '.': mc::quiesce(); break;
            case '~': mc::quiesce_until(mc::now() + 10000000); break;
            case '_': mc::point(); break;
            default: mc::fail("internal: bad script letter %c", c);
        }
    }
    void script(const char* s)
    {
        for (; *s; ++s)
            if (*s != '[') step(*s);
            else { int k = new_task(0); char c = *++s; async([k, c] { mc::ev(BEGIN, k); step(c); mc::ev(END, k); }, k, 0); }   // [x: a task that performs x
    }

    // -------------------------------------------------------------------------------- judging
    void judge_common(bool all_must_run)
    {
        mc::Untracked u;
        int n = w.n;
        for (int k = 0; k < n; ++k)
        {
            int b = count(BEGIN, k), e = count(END, k);
            MC_CHECK(b <= 1 && e <= 1, "task %d was executed %d times", k, b);
            MC_CHECK(b == e, "task %d was started but has not finished", k);
            if (all_must_run) MC_CHECK(b == 1, "task %d was lost: it was never executed although a worker is available", k);
            if (b && w.t[k].due >= 0)
                MC_CHECK(mc::ev_at(find(BEGIN, k)).time >= w.t[k].due, "scheduled task %d started at %lld, before its time %lld", k, mc::ev_at(find(BEGIN, k)).time, w.t[k].due);
        }
        // never more tasks at once than workers were asked for
        int run = 0;
        for (int i = 0; i < mc::ev_count(); ++i)
        {
            if (mc::ev_at(i).kind == BEGIN) { ++run; MC_CHECK(run <= w.maxTarget, "%d tasks run at once with at most %d workers asked for", run, w.maxTarget); }
            if (mc::ev_at(i).kind == END) --run;
        }
        std::uint64_t h = 1469598103934665603ull;
        for (int i = 0; i < mc::ev_count(); ++i) if (mc::ev_at(i).kind == BEGIN || mc::ev_at(i).kind == END || mc::ev_at(i).kind == WAIT_RET)
            h = (h ^ (mc::ev_at(i).kind * 64 + mc::ev_at(i).a)) * 1099511628211ull;
        mc::outcome(h);
    }
    // every wait call returned at a moment its condition may have held at (see DESIGN.md for "definitely pending")
    void judge_waits()
    {
        mc::Untracked u;
        for (int i = 0; i < mc::ev_count(); ++i)
        {
            int kind = mc::ev_at(i).kind;
            if (kind != WAIT_RET && kind != NONE_RET) continue;
            int from = find(kind == WAIT_RET ? WAIT_CALL : NONE_CALL, mc::ev_at(i).a);
            bool ok = false;
            int pending = 0, fresh = 0, running = 0; // definitely waiting-or-running / submitted-not-begun / between begin and end
            std::vector<char> sub(w.n, 0), beg(w.n, 0);
            for (int j = 0; j < i; ++j)
            {
                const mc::Ev& e = mc::ev_at(j);
                if (j > from)
                    { if (kind == WAIT_RET ? pending == 0 : fresh <= w.maxTarget - running) ok = true; }
                if (e.kind == SUB_RET && w.t[e.a].due < 0) { sub[e.a] = true; if (!beg[e.a]) ++fresh; if (count(END, e.a) == 0 || find(END, e.a) > j) ++pending; }
                if (e.kind == BEGIN) { beg[e.a] = true; ++running; if (sub[e.a]) --fresh; }
                if (e.kind == END) { --running; if (sub[e.a]) --pending; }
                if (e.kind == BEGIN && !sub[e.a]) { /* not yet definitely submitted: not counted */ }
            }
            if (kind == WAIT_RET ? pending == 0 : fresh <= w.maxTarget - running) ok = true;
            MC_CHECK(ok, "%s returned although a task was waiting%s during the whole call", kind == WAIT_RET ? "wait_until_all_tasks_complete" : "wait_until_no_tasks_waiting", kind == WAIT_RET ? " or running" : "");
        }
    }
    void judge_idle_counts(int target)
    {
        pool& p = *w.p;
        MC_CHECK((int)p.target_workers_size() == target, "target is %zu, not %d", p.target_workers_size(), target);
        MC_CHECK((int)p.workers_size() == target, "idle pool has %zu workers, target %d", p.workers_size(), target);
        MC_CHECK(p.active_workers_size() == 0 && p.active_tasks_size() == 0, "idle pool reports %zu active workers", p.active_workers_size());
        MC_CHECK((int)p.waiting_workers_size() == target, "idle pool reports %zu waiting workers of %d", p.waiting_workers_size(), target);
        MC_CHECK(p.scheduled_tasks_size() == 0, "scheduled tasks remain");
        if (target) MC_CHECK(p.tasks_size() == 0 && p.waiting_tasks_size() == 0, "idle pool with workers has %zu tasks", p.waiting_tasks_size());
        else MC_CHECK(p.tasks_size() == p.waiting_tasks_size(), "idle pool: tasks %zu, waiting %zu", p.tasks_size(), p.waiting_tasks_size());
    }

    // -------------------------------------------------------------------------------- scenario kinds
    struct Script { int workers; std::string main; std::vector<std::string> threads; int finalTarget; bool drop; std::string tail; bool timed; };
    std::vector<Script> table;

    void start(int workers)
    {
        { mc::Untracked u; std::memset(&w, 0, sizeof w); w.maxTarget = workers; w.lastTarget = workers; }
        w.p = new pool(workers);
    }
    void destroy(bool prompt = true)
    {
        long long t = mc::now();
        mc::ev(DEL_CALL);
        delete w.p;
        mc::ev(DEL_RET);
        // time passes only when nothing else can happen, unless the scenario lets it pass at any point
        if (prompt) MC_CHECK(mc::now() == t, "destruction took %lld ms although no task was running for so long", (mc::now() - t) / 1000000);
    }
    void after_end(int)
    {
        // nothing may start or still run after destruction returned
        int d = -1;
        for (int i = 0; i < mc::ev_count(); ++i) if (mc::ev_at(i).kind == DEL_RET) d = i;
        for (int i = d + 1; d >= 0 && i < mc::ev_count(); ++i)
            MC_CHECK(mc::ev_at(i).kind != BEGIN && mc::ev_at(i).kind != END, "a task runs after the pool was destroyed");
    }
    // live pool: run the scripts, let everything settle, then everything must have run and the counts must agree
    void live(int idx)
    {
        const Script* s; { mc::Untracked u; s = &table[idx]; }
        mc::at_end(after_end, 0);
        start(s->workers);
        {
            std::thread th[4]; int n = 0;
            for (auto& t : s->threads) { const char* c = t.c_str(); th[n++] = std::thread([c] { script(c); }); }
            script(s->main.c_str());
            for (int i = 0; i < n; ++i) th[i].join();
        }
        script(s->tail.c_str());
        if (s->finalTarget >= 0) set_target(s->finalTarget);
        mc::quiesce_until(mc::now() + 1000000000);
        int target = (int)w.p->target_workers_size();
        judge_common(target > 0 && !s->drop);
        judge_waits();
        judge_idle_counts(target);
        // a pool that became idle still works
        if (target > 0) { int k = new_task(0); async(quick(k), k, 0); mc::quiesce(); MC_CHECK(count(END, k) == 1, "the idle pool no longer runs tasks"); }
        destroy(!s->timed);
        judge_common(target > 0 && !s->drop);
    }
    // destruction without settling first
    void doomed(int idx)
    {
        const Script* s; { mc::Untracked u; s = &table[idx]; }
        mc::at_end(after_end, 0);
        start(s->workers);
        {
            std::thread th[4]; int n = 0;
            for (auto& t : s->threads) { const char* c = t.c_str(); th[n++] = std::thread([c] { script(c); }); }
            script(s->main.c_str());
            for (int i = 0; i < n; ++i) th[i].join();
        }
        script(s->tail.c_str());
        bool all; { mc::Untracked u; all = w.mode_complete && !s->drop; }
        destroy(!s->timed);
        bool sched; { mc::Untracked u; sched = false; for (int i = 0; i < w.n; ++i) if (w.t[i].due >= 0) sched = true; }
        judge_common(all && !sched);
        if (sched && all)
        {   // tasks that were not scheduled must still all have run
            mc::Untracked u;
            for (int k = 0; k < w.n; ++k) if (w.t[k].due < 0) MC_CHECK(count(BEGIN, k) == 1, "task %d was lost by destruction with complete_tasks", k);
        }
    }
    // join: tasks that had certainly not started when destruction began are dropped
    void join_drops(int workers)
    {
        mc::at_end(after_end, 0);
        start(workers);
        for (int i = 0; i < workers; ++i) step('G');
        mc::quiesce();                                   // every worker is inside a gated task
        int first = w.n;
        step('b'); step('h'); step('l');
        std::thread opener([] { mc::quiesce(); mc::flag_set(1); });   // opens the gate when the destructor is waiting
        destroy();
        opener.join();
        judge_common(false);
        for (int k = 0; k < first; ++k) MC_CHECK(count(END, k) == 1, "a started task was not finished by destruction");
        for (int k = first; k < first + 3; ++k) MC_CHECK(count(BEGIN, k) == 0, "task %d was executed although the stop action is to join", k);
    }
    // on_stop set back and forth: last one counts
    void complete_gated(int workers)
    {
        mc::at_end(after_end, 0);
        start(workers);
        for (int i = 0; i < workers; ++i) step('G');
        mc::quiesce();
        step('b'); step('N'); step('l'); step('c'); step('j'); step('c');
        std::thread opener([] { mc::quiesce(); mc::flag_set(1); });
        destroy();
        opener.join();
        judge_common(true);
    }

    // tasks that block until the end: as many as there are workers must get started, none of them wait beside a sleeping worker
    void parallel(int idx)
    {
        const Script* s; { mc::Untracked u; s = &table[idx]; }
        mc::at_end(after_end, 0);
        start(s->workers);
        {
            std::thread th[4]; int n = 0;
            for (auto& t : s->threads) { const char* c = t.c_str(); th[n++] = std::thread([c] { script(c); }); }
            script(s->main.c_str());
            for (int i = 0; i < n; ++i) th[i].join();
        }
        mc::quiesce_until(mc::now() + 1000000000);
        int target = (int)w.p->target_workers_size(), gated = 0, running = 0;
        { mc::Untracked u; for (int k = 0; k < w.n; ++k) { gated += count(END, k) == 0; running += count(BEGIN, k) - count(END, k); } }
        MC_CHECK(running == (gated < target ? gated : target), "%d of %d tasks run although there are %d workers", running, gated, target);
        MC_CHECK((int)w.p->active_workers_size() == running && (int)w.p->waiting_tasks_size() == gated - running, "counters wrong with %d of %d tasks running", running, gated);
        mc::flag_set(1);
        mc::quiesce();
        judge_common(true);
        judge_idle_counts(target);
        destroy();
    }

    // -------------------------------------------------------------------------------- T02
    const int prios[] = { 127, 64, 32, 5, 0, -1, -64, -128 };
    // one worker, busy; submit `n` tasks with every combination of priorities; then release it
    void order1(int arg)
    {
        int n = arg & 15, alpha = arg >> 4 & 15, how = arg >> 8;   // how: 0 async, 1 mixed forms, 2 scheduled for the past
        mc::at_end(after_end, 0);
        start(1);
        step('G'); mc::quiesce();
        static const int sub3[] = { 0, 4, 7 };
        int pr[8]; int first = w.n;
        for (int i = 0; i < n; ++i)
        {
            int c = mc::choose(alpha, "priority");
            pr[i] = prios[alpha == 3 ? sub3[c] : c];
            int k = new_task(pr[i]);
            mc::ev(SUB_CALL, k);
            if (how == 2)
            {
                w.p->run_at(at(0), quick(k), (signed char)pr[i]);
                mc::quiesce();
            }
            else if (how == 1 && pr[i] == 64) w.p->run_async(quick(k), pool::priority::higher);
            else if (how == 1 && pr[i] == 0) w.p->run_async(quick(k));
            else if (how == 1 && pr[i] == -128) w.p->run_async(quick(k), pool::priority::lowest);
            else w.p->run_async(quick(k), (signed char)pr[i]);
            mc::ev(SUB_RET, k);
        }
        mc::flag_set(1);
        mc::quiesce();
        std::vector<int> want;
        for (int q = 127; q >= -128; --q) for (int i = 0; i < n; ++i) if (pr[i] == q) want.push_back(first + i);
        int at = 0;
        for (int i = 0; i < mc::ev_count(); ++i) if (mc::ev_at(i).kind == BEGIN && mc::ev_at(i).a >= first)
        {
            int got = (int)mc::ev_at(i).a;
            MC_CHECK(at < n && got == want[at], "start %d: task %d (priority %d) was taken, expected task %d (priority %d)", at, got - first, pr[got - first], want[at] - first, pr[want[at] - first]);
            ++at;
        }
        MC_CHECK(at == n, "only %d of %d tasks ran", at, n);
        judge_common(true);
        destroy();
    }
    // `workers` busy workers, several submitters incl. run_sync, then release; no task may start while more better ones are
    // waiting than other workers could have taken
    void order2(int arg)
    {
        int workers = arg & 15, n = arg >> 4;
        mc::at_end(after_end, 0);
        start(workers);
        for (int i = 0; i < workers; ++i) step('G');
        mc::quiesce();
        int first = w.n; int pr[8];
        for (int i = 0; i < n; ++i) { static const int a[] = { 32, 0, -32 }; pr[i] = a[mc::choose(3, "priority")]; int k = new_task(pr[i]); async(body(k), k, pr[i]); }
        mc::flag_set(1);
        mc::quiesce();
        mc::Untracked u;
        int running = 0;
        for (int i = 0; i < mc::ev_count(); ++i)
        {
            const mc::Ev& e = mc::ev_at(i);
            if (e.kind == END) --running;
            if (e.kind != BEGIN) continue;
            ++running;
            int x = (int)e.a - first; if (x < 0) continue;
            int better = 0;
            for (int y = 0; y < n; ++y) if (find(BEGIN, first + y) > i && (pr[y] > pr[x] || (pr[y] == pr[x] && y < x))) ++better;
            MC_CHECK(better <= workers - running, "task %d (priority %d) started while %d tasks that come before it were waiting and only %d other workers could have taken them", x, pr[x], better, workers - running);
        }
        judge_common(true);
        destroy();
    }
    // a synchronous task (default priority high) submitted from another thread, against queued async ones
    void order_sync(int)
    {
        mc::at_end(after_end, 0);
        start(1);
        step('G'); mc::quiesce();
        static const int a[] = { 64, 32, 31, 0 };
        int pr = a[mc::choose(4, "priority of the asynchronous task")];
        bool before = mc::choose(2, "order") == 0;
        int sp = mc::choose(3, "form"); // default high, enum lowest, numeric 33
        int ka = new_task(pr), ks = new_task(sp == 0 ? 32 : sp == 1 ? -128 : 33, -1, true);
        if (before) async(quick(ka), ka, pr);
        std::thread t([ks, sp]
            {
                auto f = quick(ks);
                if (sp == 0) w.p->run_sync(f); else if (sp == 1) w.p->run_sync(f, pool::priority::lowest); else w.p->run_sync(f, (signed char)33);
                MC_CHECK(count(END, ks) == 1, "run_sync returned before completion");
            });
        mc::quiesce();
        if (!before) async(quick(ka), ka, pr);
        mc::flag_set(1);
        t.join(); mc::quiesce();
        int psync = sp == 0 ? 32 : sp == 1 ? -128 : 33;
        bool sync_first = psync > pr || (psync == pr && !before);
        MC_CHECK((find(BEGIN, ks) < find(BEGIN, ka)) == sync_first, "synchronous task of priority %d and asynchronous one of priority %d ran in the wrong order", psync, pr);
        judge_common(true);
        destroy();
    }
    // interleaved submit and take: one worker, tasks submitted while it runs (from two threads), never takes a worse one first
    void order_live(int)
    {
        mc::at_end(after_end, 0);
        start(1);
        int first = w.n;
        auto sub = [](int k, int p) { async(quick(k), k, p); };
        int k0 = new_task(0), k1 = new_task(64), k2 = new_task(0), k3 = new_task(64);
        std::thread t([&] { sub(k2, 0); sub(k3, 64); });
        sub(k0, 0); sub(k1, 64);
        t.join(); mc::quiesce();
        mc::Untracked u;
        // per thread FIFO within equal priority is trivially required; and at each BEGIN of x, any y definitely submitted before
        // the previous END with a better rank must already have begun
        int last_end = -1;
        for (int i = 0; i < mc::ev_count(); ++i)
        {
            const mc::Ev& e = mc::ev_at(i);
            if (e.kind == END) last_end = i;
            if (e.kind != BEGIN) continue;
            for (int y = first; y < w.n; ++y)
            {
                int sr = find(SUB_RET, y);
                if (y != e.a && find(BEGIN, y) > i && sr >= 0 && sr < last_end && (w.t[y].prio > w.t[e.a].prio || (w.t[y].prio == w.t[e.a].prio && sr < find(SUB_CALL, e.a))))
                    mc::fail("task %ld was taken before task %d, which was waiting and comes first", e.a, y);
            }
        }
        judge_common(true);
        destroy();
    }

    // -------------------------------------------------------------------------------- T06
    // all orders of submission of up to 3 tasks over a set of due times, one worker: executed in time order
    void sched_order(int arg)
    {
        int n = arg & 15; bool settle = arg & 16;
        mc::at_end(after_end, 0);
        start(1);
        static const int offs[] = { -5, 0, 5, 10, 15 };
        int due[4], first = w.n;
        for (int i = 0; i < n; ++i)
        {
            due[i] = offs[mc::choose(5, "due")];
            int k = new_task(0, due[i] < 0 ? 0 : due[i] * 1000000LL);
            mc::ev(SUB_CALL, k);
            w.p->run_at(at(due[i] * 1000000LL), quick(k));
            mc::ev(SUB_RET, k);
            if (settle) mc::quiesce();
        }
        for (int t = 0; t <= 20; t += 5)
        {
            mc::quiesce_until(t * 1000000LL);
            mc::quiesce();
            for (int i = 0; i < n; ++i)
                MC_CHECK(count(END, first + i) == (due[i] <= t), "task due at %d ms has run %d times at %d ms", due[i], count(END, first + i), t);
        }
        // in time order, and in order of submission for equal times; tasks in the past may overtake only by being submitted later than another one was taken
        if (!settle)
            for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j)
                if (due[i] < due[j] && due[j] > 0)
                    MC_CHECK(find(BEGIN, first + i) < find(BEGIN, first + j), "task due at %d ms ran after the one due at %d ms", due[i], due[j]);
        for (int i = 0; i < n; ++i) for (int j = i + 1; j < n; ++j)
            if (due[i] == due[j]) MC_CHECK(find(BEGIN, first + i) < find(BEGIN, first + j), "of two tasks due together the one submitted later ran first");
        judge_common(true);
        judge_idle_counts(1);
        destroy();
    }
    // scheduled tasks wait in the queue by priority once they are due
    void sched_prio(int)
    {
        mc::at_end(after_end, 0);
        start(1);
        step('G'); mc::quiesce();
        static const int ps[] = { 127, 0, -128 };
        int pr[3], due[3], first = w.n;
        for (int i = 0; i < 3; ++i)
        {
            pr[i] = ps[mc::choose(3, "priority")]; due[i] = mc::choose(2, "due") ? 10 : 5;
            int k = new_task(pr[i], due[i] * 1000000LL);
            if (i == 2 && pr[i] == 127) w.p->run_after(std::chrono::milliseconds(due[i]), quick(k), pool::priority::highest);
            else if (i == 1 && pr[i] == -128) w.p->run_after(std::chrono::milliseconds(due[i]), quick(k), (signed char)-128);
            else w.p->run_at(at(due[i] * 1000000LL), quick(k), (signed char)pr[i]);
        }
        MC_CHECK(w.p->scheduled_tasks_size() == 3, "scheduled tasks: %zu, not 3", w.p->scheduled_tasks_size());
        mc::quiesce_until(10000000);
        MC_CHECK(w.p->scheduled_tasks_size() == 0 && w.p->waiting_tasks_size() == 3, "due tasks do not wait in the queue");
        mc::flag_set(1); mc::quiesce();
        for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) if (i != j)
        {
            bool before = pr[i] > pr[j] || (pr[i] == pr[j] && (due[i] < due[j] || (due[i] == due[j] && i < j)));
            if (before) MC_CHECK(find(BEGIN, first + i) < find(BEGIN, first + j), "due tasks with priorities %d and %d (due %d, %d) ran in the wrong order", pr[i], pr[j], due[i], due[j]);
        }
        judge_common(true);
        destroy();
    }

    // -------------------------------------------------------------------------------- T07: counts in settled states
    void counts(int arg)
    {
        mc::at_end(after_end, 0);
        int W = 1 + mc::choose(3, "workers"), n = mc::choose(5, "tasks"), sch = mc::choose(2, "scheduled");
        start(W);
        for (int i = 0; i < n; ++i) step('G');
        for (int i = 0; i < sch; ++i) step('p');
        mc::quiesce();
        auto expect = [&](int workers, int active, int waiting, int scheduled, int target)
        {
            pool& p = *w.p;
            MC_CHECK((int)p.workers_size() == workers && (int)p.active_workers_size() == active && (int)p.waiting_workers_size() == workers - active
                && (int)p.active_tasks_size() == active && (int)p.waiting_tasks_size() == waiting && (int)p.tasks_size() == active + waiting
                && (int)p.scheduled_tasks_size() == scheduled && (int)p.target_workers_size() == target,
                "counters wrong: workers %zu active %zu idle %zu | tasks %zu active %zu waiting %zu scheduled %zu target %zu; expected workers %d active %d waiting tasks %d scheduled %d target %d",
                p.workers_size(), p.active_workers_size(), p.waiting_workers_size(), p.tasks_size(), p.active_tasks_size(), p.waiting_tasks_size(), p.scheduled_tasks_size(), p.target_workers_size(),
                workers, active, waiting, scheduled, target);
        };
        int act = n < W ? n : W;
        expect(W, act, n - act, sch, W);
        int T = mc::choose(4, "new target");
        set_target(T);
        mc::quiesce();
        int workers = W, active = act, waiting = n - act;
        if (T > W) { workers = T; active = n < T ? n : T; waiting = n - active; }
        else { int idle = W - act; workers = W - (W - T < idle ? W - T : idle); }
        expect(workers, active, waiting, sch, T);
        mc::flag_set(1);
        mc::quiesce();
        if (T > 0) expect(T, 0, 0, sch, T); else expect(0, 0, waiting, sch, 0);
        int T2 = 1 + (arg ? mc::choose(3, "last target") : 0);
        set_target(T2);
        mc::quiesce_until(20000000); mc::quiesce();
        expect(T2, 0, 0, 0, T2);
        judge_common(true);
        destroy();
    }

    // -------------------------------------------------------------------------------- many tasks, many workers
    const int sizes[] = { 15, 16, 17, 63, 64, 65, 127, 128, 129, 255, 256, 257, 300 };
    // T02: one worker, busy; hundreds of tasks wait in every one of these patterns of priorities
    void order_many(int forms)
    {
        mc::at_end(after_end, 0);
        int n = sizes[mc::choose(sizeof sizes / sizeof *sizes, "tasks")], pat = mc::choose(9, "pattern");
        start(1);
        step('G'); mc::quiesce();
        int first = w.n;
        std::vector<int> pr(n);
        for (int i = 0; i < n; ++i)
        {
            switch (pat)
            {
                case 0: pr[i] = 0; break;                                       // all the same
                case 1: pr[i] = i % 256 - 128; break;                           // every priority, ascending
                case 2: pr[i] = 127 - i % 256; break;                           // every priority, descending
                case 3: pr[i] = i * 37 % 256 - 128; break;                      // every priority, mixed
                case 4: pr[i] = i % 2 ? 127 : -128; break;
                case 5: pr[i] = i + 1 == n ? 127 : 0; break;                    // the last one overtakes all
                case 6: pr[i] = i ? 1 : -1; break;                              // the first one is overtaken by all
                case 7: pr[i] = i * 2 < n ? 64 : -64; break;
                default: pr[i] = (i / 8 % 2 ? 1 : -1) * (i % 8); break;
            }
            int k = new_task(pr[i]);
            if (!forms || i % 32) async(quick(k), k, pr[i]);
            else { w.p->run_at(at(0), quick(k), (signed char)pr[i]); mc::quiesce(); }
        }
        MC_CHECK((int)w.p->waiting_tasks_size() == n && (int)w.p->tasks_size() == n + 1, "%d tasks wait, %zu of %zu are reported", n, w.p->waiting_tasks_size(), w.p->tasks_size());
        mc::flag_set(1);
        mc::quiesce();
        mc::Untracked u;
        std::vector<int> want;
        for (int q = 127; q >= -128; --q) for (int i = 0; i < n; ++i) if (pr[i] == q) want.push_back(i);
        int at = 0;
        for (int i = 0; i < mc::ev_count(); ++i) if (mc::ev_at(i).kind == BEGIN && mc::ev_at(i).a >= first)
        {
            int got = (int)mc::ev_at(i).a - first;
            MC_CHECK(at < n && got == want[at], "start %d of %d: task %d (priority %d) was taken, expected task %d (priority %d)", at, n, got, pr[got], want[at], pr[want[at]]);
            ++at;
        }
        MC_CHECK(at == n, "only %d of %d tasks ran", at, n);
        judge_common(true);
        destroy();
    }
    // T01, T04: all of many tasks run, submitted from outside, from a task and from two threads; the waits cover all of them
    void all_many(int waits)
    {
        mc::at_end(after_end, 0);
        static const int ws[] = { 1, 2, 3, 8, 16, 20 };
        int W = ws[mc::choose(6, "workers")], n = sizes[mc::choose(sizeof sizes / sizeof *sizes, "tasks")], from = mc::choose(4, "submitted from");
        start(W);
        auto sub = [n] { for (int i = 0; i < n; ++i) { int k = new_task(i % 7 - 3); async(quick(k), k, i % 7 - 3); } };
        if (from == 0) sub();
        else if (from == 1) { int k = new_task(0); async([k, &sub] { mc::ev(BEGIN, k); sub(); mc::ev(END, k); }, k, 0); mc::quiesce(); }
        else if (from == 2) { std::thread t(sub); sub(); t.join(); }
        else { mc::quiesce(); for (int i = 0; i < W; ++i) step('G'); mc::quiesce(); sub(); mc::flag_set(1); }
        if (waits) { step(waits == 1 ? 'w' : 'n'); judge_waits(); if (waits == 1) MC_CHECK(w.p->tasks_size() == 0, "tasks remain after waiting for all of them"); }
        mc::quiesce();
        judge_common(true); judge_idle_counts(W);
        destroy();
    }
    // T03: many synchronous tasks, one after the other and from many threads at once
    void sync_many(int)
    {
        mc::at_end(after_end, 0);
        int W = 1 + mc::choose(3, "workers"), n = mc::choose(2, "tasks") ? 300 : 40, threads = 1 + mc::choose(4, "threads") * 4;
        start(W);
        std::vector<std::thread> ts;
        for (int t = 1; t < threads; ++t) ts.emplace_back([n, threads] { for (int i = 0; i < n / threads; ++i) step('s'); });
        for (int i = 0; i < n / threads; ++i) step('s');
        for (auto& t : ts) t.join();
        judge_common(true);
        destroy();
    }
    // T05: destruction with many tasks waiting
    void doomed_many(int)
    {
        mc::at_end(after_end, 0);
        static const int ws[] = { 1, 2, 3, 8, 20 };
        int W = ws[mc::choose(5, "workers")], n = sizes[mc::choose(sizeof sizes / sizeof *sizes, "tasks")], all = mc::choose(2, "action"), sched = mc::choose(2, "scheduled");
        start(W);
        for (int i = 0; i < W; ++i) step('G');
        mc::quiesce();
        if (all) step('c');
        int first = w.n;
        for (int i = 0; i < n; ++i) { int k = new_task(i % 5 * 10); async(quick(k), k, i % 5 * 10); }
        int last = w.n;
        if (sched) for (int i = 0; i < 40; ++i) { int k = new_task(0, 1000000000); w.p->run_after(std::chrono::seconds(1), quick(k)); }
        std::thread opener([] { mc::quiesce(); mc::flag_set(1); });
        destroy();
        opener.join();
        judge_common(false);
        mc::Untracked u;
        for (int k = 0; k < w.n; ++k)
            MC_CHECK(count(END, k) == (k < first || (k < last && all) ? 1 : 0), "task %d of %d was executed %d times by destruction with %s", k, w.n, count(END, k), all ? "complete_tasks" : "join_all");
    }
    // T06: many scheduled tasks in every one of these orders of submission
    void sched_many(int)
    {
        mc::at_end(after_end, 0);
        int n = sizes[mc::choose(12, "tasks")], pat = mc::choose(5, "pattern"), W = 1 + mc::choose(2, "workers") * 3;
        start(W);
        std::vector<int> due(n); int first = w.n;
        for (int i = 0; i < n; ++i)
        {
            due[i] = pat == 0 ? 1 + i : pat == 1 ? n - i : pat == 2 ? 1 + i * 37 % n : pat == 3 ? 5 : i % 2 ? 1 + i : 2 * n - i;
            int k = new_task(0, due[i] * 1000000LL);
            if (i % 2) w.p->run_after(std::chrono::milliseconds(due[i]), quick(k)); else w.p->run_at(at(due[i] * 1000000LL), quick(k));
        }
        mc::quiesce();
        MC_CHECK((int)w.p->scheduled_tasks_size() == n, "%d tasks are scheduled, %zu reported", n, w.p->scheduled_tasks_size());
        for (int t : { 1, 4, 5, 6, n / 2, n - 1, n, 2 * n })
        {
            if (t * 1000000LL > mc::now()) mc::quiesce_until(t * 1000000LL);
            mc::quiesce();
            mc::Untracked u;
            int ms = (int)(mc::now() / 1000000);
            for (int i = 0; i < n; ++i) MC_CHECK(count(END, first + i) == (due[i] <= ms), "task due at %d ms has run %d times at %d ms", due[i], count(END, first + i), ms);
        }
        if (W == 1)
        {
            mc::Untracked u; int prev = -1;
            for (int i = 0; i < mc::ev_count(); ++i) if (mc::ev_at(i).kind == BEGIN)
            {
                int k = (int)mc::ev_at(i).a - first;
                if (prev >= 0) MC_CHECK(due[prev] < due[k] || (due[prev] == due[k] && prev < k), "task %d due at %d ms ran before task %d due at %d ms", prev, due[prev], k, due[k]);
                prev = k;
            }
        }
        judge_common(true); judge_idle_counts(W);
        destroy();
    }
    // T06: times and durations at the ends of their types: the far future never comes, the distant past is now
    void extremes(int)
    {
        mc::at_end(after_end, 0);
        typedef clk::duration D; typedef clk::time_point T;
        start(1 + mc::choose(2, "workers"));
        int other = mc::choose(3, "another task"), how = mc::choose(12, "time");
        if (other == 1) step('p');
        int k = new_task(0); bool past = how >= 8;
        switch (how)
        {
            case 0: w.p->run_at(T::max(), quick(k)); break;
            case 1: w.p->run_at(T::max() - D(1), quick(k)); break;
            case 2: w.p->run_at(clk::now() + std::chrono::hours(24 * 365 * 100), quick(k)); break;
            case 3: w.p->run_after(D::max(), quick(k)); break;
            case 4: w.p->run_after(D::max() - D(1), quick(k), pool::priority::high); break;
            case 5: w.p->run_after(T::max() - clk::now(), quick(k)); break;
            case 6: w.p->run_after(D::max() / 2, quick(k)); break;
            case 7: w.p->run_after(std::chrono::hours(24 * 365 * 100), quick(k)); break;
            case 8: w.p->run_at(T::min(), quick(k)); break;
            case 9: w.p->run_at(T(), quick(k)); break;
            case 10: w.p->run_after(D::min(), quick(k)); break;
            default: w.p->run_after(D(-1), quick(k)); break;
        }
        if (other == 2) step('p');
        mc::quiesce();
        MC_CHECK(count(END, k) == past, "a task scheduled for %s has run %d times", past ? "the past" : "the far future", count(END, k));
        mc::quiesce_until(mc::now() + 1000000000);
        judge_common(false);
        for (int i = 0; i < w.n; ++i) MC_CHECK(count(END, i) == (i != k || past), "task %d has run %d times", i, count(END, i));
        MC_CHECK((int)w.p->scheduled_tasks_size() == !past, "%zu tasks are scheduled", w.p->scheduled_tasks_size());
        destroy();
    }
    // T06: times that are no whole multiple of anything
    void fine(int)
    {
        mc::at_end(after_end, 0);
        static const long long ns[] = { 1, 999, 1001, 999999, 1000001, 1500000, 1999999, 10500001, 999999999, 1000000001, 1500000000, 59999999999, 60000000001 };
        long long due = ns[mc::choose(sizeof ns / sizeof *ns, "time")], due2 = ns[mc::choose(sizeof ns / sizeof *ns, "other time")]; bool after = mc::choose(2, "form");
        start(1);
        long long from = mc::now();
        int k = new_task(0, from + due), j = new_task(0, from + due2);
        if (after) { w.p->run_after(std::chrono::duration_cast<clk::duration>(std::chrono::nanoseconds(due)), quick(k)); w.p->run_after(std::chrono::duration_cast<clk::duration>(std::chrono::nanoseconds(due2)), quick(j)); }
        else { w.p->run_at(at(from + due), quick(k)); w.p->run_at(at(from + due2), quick(j)); }
        long long a = due < due2 ? due : due2, b = due < due2 ? due2 : due; int ka = due <= due2 ? k : j, kb = due <= due2 ? j : k;
        mc::quiesce_until(from + a - 1); MC_CHECK(count(BEGIN, ka) == 0 && count(BEGIN, kb) == 0, "a task due at %lld ns has run at %lld ns", a, mc::now() - from);
        if (a + 2000000 < b) { mc::quiesce_until(from + a + 2000000); MC_CHECK(count(END, ka) == 1 && count(BEGIN, kb) == 0, "at %lld ns, the tasks due at %lld and %lld ns have run %d and %d times", mc::now() - from, a, b, count(END, ka), count(BEGIN, kb)); }
        mc::quiesce_until(from + b + 2000000);
        judge_common(true);
        if (a != b) MC_CHECK(find(BEGIN, ka) < find(BEGIN, kb), "the task due at %lld ns ran after the one due at %lld ns", a, b);
        destroy();
    }
    // T07: larger numbers of workers, idle and busy
    void counts_many(int)
    {
        mc::at_end(after_end, 0);
        static const int ws[] = { 0, 1, 7, 8, 9, 15, 16, 17, 20 };
        int W = ws[mc::choose(9, "workers")], T = ws[mc::choose(9, "target")], busy = mc::choose(3, "tasks") * 10;
        start(W);
        for (int i = 0; i < busy; ++i) step('G');
        mc::quiesce();
        int act = busy < W ? busy : W;
        pool& p = *w.p;
        auto expect = [&](int workers, int active)
        {
            MC_CHECK((int)p.workers_size() == workers && (int)p.active_workers_size() == active && (int)p.waiting_workers_size() == workers - active && (int)p.waiting_tasks_size() == busy - active && (int)p.tasks_size() == busy,
                "%zu workers (%zu active, %zu waiting), %zu tasks (%zu waiting), expected %d workers, %d active, %d tasks", p.workers_size(), p.active_workers_size(), p.waiting_workers_size(), p.tasks_size(), p.waiting_tasks_size(), workers, active, busy);
        };
        expect(W, act);
        set_target(T); mc::quiesce();
        if (T >= W) { act = busy < T ? busy : T; expect(T, act); }
        else { int leave = W - T < W - act ? W - T : W - act; expect(W - leave, act); }
        mc::flag_set(1); mc::quiesce();
        if (T == 0 && W) { busy -= act; expect(0, 0); set_target(1); mc::quiesce(); }
        else if (T == 0) { expect(0, 0); set_target(1); mc::quiesce(); }
        busy = 0; expect(T ? T : 1, 0);
        judge_common(true);
        destroy();
    }

    // more tasks than 16 bits can count: what = 0 all run, 1 in order, 2 waited for, 3 finished or dropped by the destructor, 4 scheduled
    enum { FLOOD = 66100 };
    struct Flood { int order[FLOOD + 8]; int n; unsigned char ran[FLOOD + 8]; } fl;
    void flood(int what)
    {
        int W = what == 1 || what == 4 ? 1 : 1 + mc::choose(2, "workers") * 3, var = mc::choose(what == 1 ? 5 : 2, "variant");
        start(W);
        { mc::Untracked u; std::memset(&fl, 0, sizeof fl); }
        auto task = [](int i) { return [i] { mc::Untracked u; fl.order[fl.n < FLOOD ? fl.n : FLOOD] = i; ++fl.n; if (fl.ran[i] < 3) ++fl.ran[i]; }; };
        auto prio = [what, var](int i) { return what != 1 || var == 0 ? 0 : var == 1 ? (i % 2 ? 1 : 0) : var == 2 ? i % 256 - 128 : var == 3 ? 127 - i / 259 : i / 259 - 128; };
        auto total = [](int want, const char* when) { mc::Untracked u; for (int i = 0; i < FLOOD; ++i) MC_CHECK(fl.ran[i] == want, "task %d of %d was executed %d times %s", i, (int)FLOOD, fl.ran[i], when); };
        if (what == 4)
        {
            for (int i = 0; i < FLOOD; ++i) w.p->run_at(at(1000000 + (var ? (FLOOD - i) / 64 * 1000LL : 0)), task(i));
            MC_CHECK((int)w.p->scheduled_tasks_size() == FLOOD, "%d tasks are scheduled, %zu reported", (int)FLOOD, w.p->scheduled_tasks_size());
            mc::quiesce(); total(0, "before its time");
            mc::quiesce_until(mc::now() + 1000000000);
            total(1, "in all");
            mc::Untracked u;
            int want = 0;
            if (!var) for (; want < FLOOD; ++want) MC_CHECK(fl.order[want] == want, "start %d: task %d ran, all being due together", want, fl.order[want]);
            else for (; want + 1 < FLOOD; ++want) { int a = fl.order[want], b = fl.order[want + 1], da = (FLOOD - a) / 64, db = (FLOOD - b) / 64; MC_CHECK(da < db || (da == db && a < b), "task %d ran before task %d", a, b); }
        }
        else
        {
            for (int i = 0; i < W; ++i) step('G');
            mc::quiesce();
            for (int i = 0; i < FLOOD; ++i) w.p->run_async(task(i), (signed char)prio(i));
            MC_CHECK((int)w.p->waiting_tasks_size() == FLOOD && (int)w.p->tasks_size() == FLOOD + W, "%d tasks wait, %zu of %zu are reported", (int)FLOOD, w.p->waiting_tasks_size(), w.p->tasks_size());
            if (what == 3)
            {
                if (var) step('c');
                std::thread opener([] { mc::quiesce(); mc::flag_set(1); });
                destroy();
                opener.join();
                total(var, var ? "by destruction with complete_tasks" : "by destruction with join_all");
                mc::outcome(var);
                return;
            }
            total(0, "while the workers were busy");
            mc::flag_set(1);
            if (what == 2) { if (var) { w.p->wait_until_all_tasks_complete(); total(1, "by the time the wait for all tasks returned"); } else { w.p->wait_until_no_tasks_waiting(); MC_CHECK((int)w.p->waiting_tasks_size() == 0, "tasks wait"); } }
            mc::quiesce();
            total(1, "in all");
            if (what == 1)
            {
                mc::Untracked u;
                int at = 0;
                for (int q = 127; q >= -128; --q) for (int i = 0; i < FLOOD; ++i) if (prio(i) == q) { MC_CHECK(fl.order[at] == i, "start %d of %d: task %d was taken, expected task %d", at, (int)FLOOD, fl.order[at], i); ++at; }
            }
        }
        judge_idle_counts(W);
        destroy();
        mc::outcome(var * 8 + W);
    }

    // many tasks: the round-robin schedule, and those with up to that many other decisions
    mc::Opt D(int qd, int td) { mc::Opt o; o.quick.preempt = o.thorough.preempt = 0; o.quick.delay = qd; o.thorough.delay = td; o.quick.max_s = 60; o.quick.max_exec = 5000000; o.thorough.max_s = 200; o.thorough.max_exec = 30000000; return o; }
    // longer scripts: every execution with up to that many deviations from the round-robin schedule, preemptions among them
    mc::Opt E(int qd, int td, int time = 0) { mc::Opt o = D(qd, td); o.quick.preempt = qd; o.thorough.preempt = td; o.quick.time = o.thorough.time = time; o.quick.max_s = 100; return o; }
    mc::Opt O(int qp, int tp, int spur = 0, int time = 0, double ts = 120)
    {
        mc::Opt o; o.quick.preempt = qp; o.thorough.preempt = tp; o.quick.spurious = o.thorough.spurious = spur; o.quick.time = o.thorough.time = time;
        if (spur && tp > qp) o.thorough.spurious = spur + 1;
        o.quick.max_s = 150; o.quick.max_exec = 5000000; o.thorough.max_s = ts; o.thorough.max_exec = 30000000;
        return o;
    }
    void add(const char* prop, void (*f)(int), mc::Opt o, int workers, const char* main, std::vector<std::string> th, int finalTarget = -1, bool drop = false, const char* tail = "")
    {
        int i = (int)table.size();
        table.push_back({ workers, main, th, finalTarget, drop, tail, o.quick.time > 0 });
        std::string ops = std::string(main) + tail;
        for (auto& t : th) ops += t;
        // without run_at nothing waits for a time; should something do so after all, its time may also come early
        if (ops.find_first_of("pPqzxy") == std::string::npos) { o.quick.time = std::max(o.quick.time, 1); o.thorough.time = std::max(o.thorough.time, 1); }
        std::string n = std::string(f == live ? "live" : f == parallel ? "parallel" : "doomed") + "-" + std::to_string(workers) + "w-" + main;
        for (auto& t : th) n += "-" + t;
        if (*tail) n += std::string("-then-") + tail;
        if (finalTarget >= 0) n += "-to" + std::to_string(finalTarget);
        if (o.quick.spurious) n += "-spurious";
        for (auto& c : n) { if (c == '.') c = '='; if (c == '~') c = '+'; if (c == '[') c = '@'; }
        mc::scenario(prop, n.c_str(), o, f, i);
    }
}

void mc_register()
{
    table.reserve(1000);
    // ---- T01
    add("T01", live, O(3, 5), 1, "ab", {});
    add("T01", live, O(3, 4), 2, "ab", {});
    add("T01", live, O(2, 4), 2, "ab", { "a" });
    add("T01", live, O(2, 3), 1, "a", { "b", "b" });
    add("T01", live, O(2, 4), 2, "M", { "b" });
    add("T01", live, O(3, 4), 1, "NN", {});
    add("T01", live, O(2, 4), 0, "ab1", { "b" });
    add("T01", live, O(2, 3), 2, "ab", { "1" });
    add("T01", live, O(2, 3), 2, "b1b", { "b" });
    add("T01", live, O(2, 3), 1, "b", { "0", "b" }, 1);
    add("T01", live, O(2, 3), 1, "ab", { "03" });
    add("T01", live, O(2, 3), 1, "0b1", { "b" });
    add("T01", live, O(1, 2), 3, "b", { "b", "2" });
    add("T01", live, O(2, 3), 2, ".ab", {});
    add("T01", live, O(2, 3), 2, ".b", { "b" });
    add("T01", live, O(2, 3), 1, ".ab", { "b" });
    add("T01", live, O(2, 3), 2, "b", { "b" }, -1, false, "");
    add("T01", live, O(1, 2, 1), 2, "ab", {});
    add("T01", live, O(1, 2, 1), 1, "b.b", { "b" });
    add("T01", live, O(1, 2, 1), 2, "b1", { "b" });
    add("T01", live, O(2, 3), 2, "hlb", { "s" });
    add("T01", live, O(1, 2), 3, "bbb", { "b" });
    add("T01", live, O(1, 2), 2, "bbbb", { "bb" });
    add("T01", parallel, O(2, 3), 2, "GG", {});
    add("T01", parallel, O(2, 3), 2, ".GG", {});
    add("T01", parallel, O(2, 3), 2, ".G", { "G" });
    add("T01", parallel, O(2, 3), 2, ".G", { "G", "G" });
    add("T01", parallel, O(2, 3), 3, ".GG", { "G" });
    add("T01", parallel, O(2, 3), 3, "GGGG", {});
    add("T01", parallel, O(2, 3), 1, "GG2", {});
    add("T01", parallel, O(2, 3), 1, "GG", { "3" });
    add("T01", parallel, O(2, 3), 2, "[G[G", {});
    add("T01", parallel, O(1, 2, 1), 2, ".GG", {});
    for (const char* m : { "ee", ".ee", "eE", ".EE", "et", ".Ge", "ebe", ".eet" }) add("T01", parallel, O(2, 3), 2, m, {});
    add("T01", parallel, O(1, 2), 3, ".eee", {}); add("T01", parallel, O(1, 2), 2, ".e", { "e" }); add("T01", parallel, O(1, 2), 2, "Ee", { "G" });
    add("T01", parallel, O(1, 2), 1, "ee2", {}); add("T01", parallel, O(1, 2), 2, ".[e[e", {}); add("T01", parallel, O(1, 2, 1), 2, ".ee", {});
    add("T01", parallel, D(1, 2), 4, ".eeee", {}); add("T01", parallel, D(1, 2), 5, "eeeeetE", {});
    add("T01", live, O(2, 3), 2, "[a[b", { "[b" });
    add("T01", live, O(1, 2), 2, "[1b[3", { "b" });
    add("T01", live, O(2, 3), 2, "[0bb", {}, 1);
    mc::scenario("T01", "many-tasks", D(1, 2), all_many, 0);
    // ---- T02
    { mc::Opt o = D(0, 0); o.quick.max_steps = o.thorough.max_steps = 6000000; const char* of[] = { "T01", "T02", "T04", "T05", "T06" }; for (int i = 0; i < 5; ++i) mc::scenario(of[i], "flood", o, flood, i); }
    mc::scenario("T02", "many-tasks", D(1, 2), order_many, 0); mc::scenario("T02", "many-tasks-some-due", D(1, 2), order_many, 1);
    { mc::Opt o = O(1, 2); mc::scenario("T02", "one-worker-all-priorities-3", o, order1, 3 | 8 << 4);
      mc::scenario("T02", "one-worker-4-tasks", o, order1, 4 | 3 << 4); mc::scenario("T02", "one-worker-mixed-forms-3", o, order1, 3 | 8 << 4 | 1 << 8);
      mc::scenario("T02", "one-worker-due-tasks-3", o, order1, 3 | 3 << 4 | 2 << 8); mc::scenario("T02", "one-worker-5-tasks", O(0, 1), order1, 5 | 3 << 4);
      mc::scenario("T02", "one-worker-4-tasks-all-priorities", O(0, 1), order1, 4 | 8 << 4);
      mc::scenario("T02", "sync-vs-async", O(2, 3), order_sync, 0);
      mc::scenario("T02", "two-workers-3", O(1, 2), order2, 2 | 3 << 4); mc::scenario("T02", "three-workers-4", O(0, 1), order2, 3 | 4 << 4); mc::scenario("T02", "three-workers-5-delays", E(2, 3), order2, 3 | 5 << 4); mc::scenario("T02", "two-workers-4-delays", E(3, 4), order2, 2 | 4 << 4);
      mc::scenario("T02", "submit-while-running", O(2, 4), order_live, 0); mc::scenario("T02", "due-by-priority", O(1, 2), sched_prio, 0); }
    // ---- T03
    add("T03", live, O(3, 5), 1, "s", {});
    add("T03", live, O(3, 4), 1, "s", { "s" });
    add("T03", live, O(3, 4), 2, "s", { "s" });
    add("T03", live, O(3, 4), 1, "sS", { "b" });
    add("T03", live, O(2, 3), 2, "as", { "S" });
    add("T03", live, O(3, 4), 2, "Ys", {});
    add("T03", live, O(3, 4), 2, "s", { "1" });
    add("T03", live, O(3, 4), 1, "s", { "2" });
    add("T03", live, O(3, 4), 0, "s", { "1" });
    add("T03", live, O(1, 2), 2, "s", { "s", "s" });
    add("T03", live, O(1, 2), 3, "YY", {});
    add("T03", live, O(2, 3, 1), 1, "s", { "b" });
    add("T03", live, O(3, 4), 1, "s", { "w", "n" });
    mc::scenario("T03", "many-tasks", D(0, 2), sync_many);
    // ---- T04
    mc::scenario("T04", "many-tasks-all", D(1, 2), all_many, 1); mc::scenario("T04", "many-tasks-none-waiting", D(1, 2), all_many, 2);
    add("T04", live, O(3, 5), 1, "aw", {});
    add("T04", live, O(2, 4), 2, "abw", {});
    add("T04", live, O(2, 4), 2, "abn", {});
    add("T04", live, O(2, 3), 1, "ab", { "w", "n" });
    add("T04", live, O(2, 3), 2, "a", { "bw" });
    add("T04", live, O(2, 3), 1, "Nw", { "n" });
    add("T04", live, O(2, 3), 2, "Mw", {});
    add("T04", live, O(2, 3), 0, "aa", { "1", "w" });
    add("T04", live, O(1, 3), 2, "aw", { "w", "w" });
    add("T04", live, O(1, 2), 2, "abn", { "n", "w" });
    add("T04", live, O(2, 3), 1, "aw", { "2" });
    add("T04", live, O(2, 3), 2, "abw", { "1" });
    mc::scenario("T04", "last-worker-leaves-while-waiting", O(3, 4), [](int)
        {
            mc::at_end(after_end, 0);
            start(1); step('G'); mc::quiesce();
            std::thread a([] { step('w'); }), b([] { step('n'); }), c([] { step('w'); });
            step('0'); mc::flag_set(1);
            a.join(); b.join(); c.join();
            judge_common(true); judge_waits(); mc::quiesce(); judge_idle_counts(0); destroy();
        });
    mc::scenario("T04", "last-workers-leave-while-waiting-2", O(2, 3), [](int)
        {
            mc::at_end(after_end, 0);
            start(2); step('G'); step('G'); mc::quiesce();
            std::thread a([] { step('w'); }), b([] { step('w'); });
            std::thread c([] { step('0'); });
            mc::flag_set(1);
            a.join(); b.join(); c.join();
            judge_common(true); judge_waits(); destroy();
        });
    mc::scenario("T04", "empty-pool-returns-at-once", O(2, 3), [](int a)
        {
            (void)a; int n = mc::choose(3, "workers");
            start(n); step('w'); step('n'); if (n) { step('b'); step('w'); step('n'); step('w'); } judge_waits(); destroy();
        });
    add("T04", live, O(1, 2, 1), 1, "aw", { "w" });
    add("T04", live, O(1, 2, 1), 1, "Gbb.o", { "w" });
    add("T04", live, O(1, 2, 1), 1, "Gbb.o", { "n" });
    add("T04", live, O(1, 2, 1), 2, "GGb.o", { "n", "w" });
    add("T04", live, O(1, 2, 1), 2, "GG.o", { "w" });
    add("T04", live, O(1, 2), 1, "Ghlb.o", { "n", "n" });
    add("T04", live, O(1, 2), 1, "Ghlb.o", { "w", "w" });
    add("T04", live, O(2, 3), 2, "[aw", { "[bn" });
    add("T04", live, O(2, 3), 1, "p~w", {});
    add("T04", live, O(2, 3), 1, "w", { "PP" });
    add("T04", live, O(1, 2, 1), 2, "abn", {});
    add("T04", live, O(2, 3), 1, "aw", { "aw" });
    add("T04", live, O(1, 2), 2, "aw", { "aw", "n" });
    add("T04", live, O(2, 3), 1, "sw", { "bn" });
    // ---- T05
    add("T05", doomed, O(3, 5), 1, "cab", {});
    add("T05", doomed, O(3, 4), 2, "abc", {});
    add("T05", doomed, O(3, 4), 2, "cM", {});
    add("T05", doomed, O(3, 4), 1, "cMb", {});
    add("T05", doomed, O(3, 4), 2, "cN", { "b" });
    add("T05", doomed, O(3, 4), 2, "abb1c", {});
    add("T05", doomed, O(3, 4), 3, "cbbb1", {});
    add("T05", doomed, O(3, 4), 2, "cbb", { "1" });
    add("T05", doomed, O(3, 4), 1, "cbb3", {});
    add("T05", doomed, O(3, 4), 1, "cbb2", { "1" });
    add("T05", doomed, O(3, 5), 1, "ab", {});
    add("T05", doomed, O(3, 4), 2, "aab", {});
    add("T05", doomed, O(3, 4), 2, "N1", {});
    add("T05", doomed, O(3, 4), 2, "M0", {}, -1, true);
    add("T05", doomed, O(3, 4), 0, "ab", {});
    add("T05", doomed, O(3, 4), 2, "", {});
    add("T05", doomed, O(3, 4), 3, "1", {});
    add("T05", doomed, O(3, 4), 1, "p", {});
    add("T05", doomed, O(3, 4), 1, "cPb", {});
    add("T05", doomed, O(3, 4), 1, "cpb", {});
    add("T05", doomed, O(3, 4), 1, "P", {});
    add("T05", doomed, O(3, 4), 1, "zp", {});
    { mc::Opt o = O(2, 3, 0, 1); add("T05", doomed, o, 1, "py", {}); o = O(1, 2, 0, 1); add("T05", doomed, o, 2, "cpb", { "b" }); }
    add("T05", doomed, O(2, 3, 1), 2, "cab", {});
    for (const char* m : { "c[3b", "c[3bb", "[3b", "c[1bb", "[1bb", "[2[3" }) for (int W : { 1, 2 }) add("T05", doomed, O(2, 3), W, m, {});
    for (const char* m : { "c[0bb", "c[0[3", "c[jb", "[c[jb", "[0[1" }) for (int W : { 1, 2 }) add("T05", doomed, O(2, 3), W, m, {}, -1, true);
    for (const char* m : { "c[vb", "[vb", "c[p", "[p", "[P", "[z", "c[Pb", "p[q", "cp[q" }) for (int W : { 1, 2 }) add("T05", doomed, O(2, 3), W, m, {});
    add("T05", doomed, O(3, 4), 2, "pqx", {}); add("T05", doomed, O(3, 4), 2, "p", { "q" }); add("T05", doomed, O(3, 4), 2, "pq", { "cb" });
    add("T05", doomed, O(2, 3, 1), 2, "ab", {});
    mc::scenario("T05", "join-drops-1", O(2, 4), join_drops, 1); mc::scenario("T05", "join-drops-2", O(1, 3), join_drops, 2);
    mc::scenario("T05", "complete-gated-1", O(2, 4), complete_gated, 1); mc::scenario("T05", "complete-gated-2", O(1, 3), complete_gated, 2);
    mc::scenario("T05", "many-tasks", D(1, 2), doomed_many);
    // ---- T06
    mc::scenario("T06", "extremes", O(1, 2), extremes); { mc::Opt o = O(0, 1); o.quick.time = o.thorough.time = 0; mc::scenario("T06", "fine-times", o, fine); }
    mc::scenario("T06", "many-tasks", D(1, 2), sched_many);
    { mc::Opt o = O(2, 3, 0, 1), o2 = O(2, 3, 0, 2), os = O(1, 2, 1, 1);
      add("T06", live, o2, 1, "p", {}); add("T06", live, o2, 1, "pq", {}); add("T06", live, o, 1, "p", { "q" });
      add("T06", live, O(2, 3), 1, "p", { "p" }); add("T06", live, o, 1, "P", { "P" }); add("T06", live, o, 1, "z", { "y" });
      add("T06", live, O(1, 2), 1, "p", { "q", "x" }); add("T06", live, O(1, 2, 0, 1), 2, "pP", { "z" });
      add("T06", live, o, 1, "p~q", {}); add("T06", live, o, 1, "P.P", {}); add("T06", live, o, 1, "P", { "_P" }); add("T06", live, o, 1, "PP", {});
      add("T06", live, o, 1, "P.", { "P" }); add("T06", live, o, 1, "p~", { "y" }); add("T06", live, o2, 1, "xqp", {});
      add("T06", live, os, 1, "pq", {}); add("T06", live, os, 1, "P", { "p" }); add("T06", live, O(2, 3), 0, "pP", {}, 1); add("T06", live, o, 1, "pa", { "b" });
      add("T06", live, o, 1, "z", { "z" }); add("T06", live, o, 2, "p", { "1" }); add("T06", live, o2, 1, "yy", { "P" });
      mc::scenario("T06", "all-due-orders-3", O(0, 1), sched_order, 3); mc::scenario("T06", "all-due-orders-settled-3", O(0, 1), sched_order, 3 | 16); mc::scenario("T06", "all-due-orders-2", O(2, 3), sched_order, 2);
      mc::scenario("T06", "all-due-orders-settled-2", O(2, 3), sched_order, 2 | 16); mc::scenario("T06", "due-by-priority", O(0, 1), sched_prio, 0);
      mc::scenario("T06", "all-due-orders-4", O(0, 0), sched_order, 4); }
    // ---- T07
    add("T07", live, O(3, 4), 1, "3", { "0" }); add("T07", live, O(3, 4), 2, "1", { "3" }); add("T07", live, O(3, 4), 2, "13", { "b" });
    add("T07", live, O(3, 4), 3, "1b", { "a" }); add("T07", live, O(3, 4), 0, "2", { "1" }, 1); add("T07", live, O(3, 4), 2, "G.0o", {}, 1);
    add("T07", live, O(3, 4), 2, "GG.1o", {}); add("T07", live, O(3, 4), 2, "GG.13o", {}); add("T07", live, O(3, 4), 2, "GGb.1o", { "2" });
    add("T07", live, O(3, 4), 1, "aw0", { "2" }, 1); add("T07", live, O(3, 4), 3, "0.2", { "b" }); add("T07", live, O(3, 4), 3, "01", { "b" });
    add("T07", live, O(3, 4), 1, "0", { "1", "v" }); add("T07", live, O(2, 3), 2, "0", { "3", "1" }, 2); add("T07", live, O(1, 2, 1), 2, "1b", { "2" });
    add("T07", live, O(3, 4), 2, "0", {}); add("T07", live, O(3, 4), 3, "0", { "b" }, 1); add("T07", live, O(2, 2), 2, "0.3.1.2", { "a" });
    mc::scenario("T07", "counts", O(0, 1), counts, 0); mc::scenario("T07", "counts-last", O(0, 0), counts, 1);
    mc::scenario("T07", "target-changed-inside-a-task", O(2, 3), [](int)
        {
            mc::at_end(after_end, 0);
            int W = 1 + mc::choose(2, "workers"), T = mc::choose(4, "target");
            start(W);
            int k = new_task(0); async([k, T] { mc::ev(BEGIN, k); set_target(T); mc::ev(END, k); }, k, 0);
            step('b'); mc::quiesce();
            judge_idle_counts(T);
            if (T == 0) { set_target(1); mc::quiesce(); }
            judge_common(true); destroy();
        });
    mc::scenario("T07", "many-workers", D(1, 2), counts_many);
    // ---- T08: every pair of operations, from two threads, against a pool with a task in flight
    const char ops[] = "abhsN012pPzwncjv";
    for (int i = 0; ops[i]; ++i) for (int j = i; ops[j]; ++j)
    {
        std::string a(1, ops[i]), b(1, ops[j]);
        bool zero = ops[i] == '0' || ops[j] == '0';
        // a wait or synchronous call may legitimately block when the last worker is taken away: keep one by using two workers and restoring the target
        if (zero && strchr("sw n", ops[i])) continue;
        if (zero && strchr("sw n", ops[j])) continue;
        mc::Opt o = O(3, 4, 0, strchr("pPz", ops[i]) || strchr("pPz", ops[j]) ? 1 : 0, 60);
        add("T08", live, o, 1, a.c_str(), { b }, zero ? 1 : -1);
    }
    // the same from inside tasks
    for (int i = 0; ops[i]; ++i)
    {
        if (strchr("wnsN0", ops[i])) continue;
        static char letters[32]; letters[i] = ops[i];
        mc::Opt o = O(3, 4, 0, strchr("pPz", ops[i]) ? 1 : 0, 60);
        mc::scenario("T08", (std::string("in-task-") + ops[i]).c_str(), o, [](int x)
            {
                mc::at_end(after_end, 0);
                start(2);
                int k = new_task(0), k2 = new_task(0);
                async([k, x] { mc::ev(BEGIN, k); step((char)x); mc::ev(END, k); }, k, 0);
                async([k2, x] { mc::ev(BEGIN, k2); step((char)x); mc::ev(END, k2); }, k2, 0);
                mc::quiesce_until(mc::now() + 1000000000);
                judge_common(true); judge_idle_counts((int)w.p->target_workers_size());
                destroy(!strchr("pPz", x));
            }, ops[i]);
    }
    // and from the destructors of what tasks capture, which a worker runs as well
    for (int i = 0; ops[i]; ++i)
    {
        if (strchr("wnsN0", ops[i])) continue;
        mc::Opt o = O(2, 3, 0, strchr("pPz", ops[i]) ? 1 : 0, 60);
        mc::scenario("T08", (std::string("in-capture-destructor-") + ops[i]).c_str(), o, [](int x)
            {
                mc::at_end(after_end, 0);
                start(2);
                struct Last { int x; explicit Last(int v) : x(v) {} ~Last() { step((char)x); } };
                int k = new_task(0), k2 = new_task(0);
                {
                    std::shared_ptr<Last> l = std::make_shared<Last>(x), l2 = std::make_shared<Last>(x);
                    std::function<void()> f = [k, l] { mc::ev(BEGIN, k); mc::ev(END, k); }, f2 = [k2, l2] { mc::ev(BEGIN, k2); mc::ev(END, k2); };
                    l.reset(); l2.reset();
                    async(f, k, 0); w.p->run_at(at(0), f2);
                }
                mc::quiesce_until(mc::now() + 1000000000);
                judge_common(true); judge_idle_counts((int)w.p->target_workers_size());
                destroy(!strchr("pPz", x));
            }, ops[i]);
    }
    // longer scripts
    struct Long { int workers; const char* main; std::vector<std::string> th; int to; };
    for (const Long& l : std::vector<Long>{
        { 2, "abhl2aN1b3", { "bsvb", "1wv3", "ab" }, 2 }, { 3, "MaN.bb1", { "sSs", "w2n", "3v1v" }, 1 }, { 1, "pPab~q", { "zb_p", "wv", "32" }, 2 },
        { 4, "bbbbbbbbbb", { "bbbbb", "bbbbb", "bbbbb" }, -1 }, { 1, "0b1b0b1b0b1", { "bbb", "v2v", "b" }, 1 }, { 2, "[b[1[2[a", { "[aN", "w[b" }, 2 },
        { 0, "abab", { "1", "2", "sb", "wn" }, 2 } })
    {
        bool time = (std::string(l.main)).find_first_of("pPzqxy") != std::string::npos;
        for (const char* prop : { "T01", "T08" }) add(prop, live, E(3, 4, time), l.workers, l.main, l.th, l.to);
        if (l.th.back().find('w') == std::string::npos) add("T04", live, E(3, 4, time), l.workers, l.main, l.th, l.to, false, "");
    }
    for (const Long& l : std::vector<Long>{
        { 2, "cabN1b3b", { "b", "b2", "ab" }, -1 }, { 3, "cMbb", { "Nb", "bb" }, -1 }, { 2, "abN1b3b", { "b", "b2", "ab" }, -1 }, { 4, "cbbbbbbbb", { "bbbb", "1" }, -1 }, { 1, "cpPbz", { "qb", "3", "N" }, -1 }, { 2, "zpPbz", { "qb", "3", "N" }, -1 } })
        add("T05", doomed, E(3, 4, 0), l.workers, l.main, l.th);
    for (const Long& l : std::vector<Long>{ { 1, "pPqz", { "yPx", "pz" }, -1 }, { 2, "ppqq~xx", { "P.P", "yzy" }, -1 }, { 1, "xqpzP", { "xqpzP" }, -1 }, { 1, "p~q~p", { "b_P", "2" }, -1 } })
        add("T06", live, E(3, 4, 1), l.workers, l.main, l.th);
    for (const Long& l : std::vector<Long>{ { 2, "0312031", { "v", "b" }, 2 }, { 3, "b1b2b3", { "a2", "1b" }, 2 }, { 4, "1.3b1", { "G.o", "20" }, 3 }, { 1, "230", { "112", "v3v" }, 1 } })
        add("T07", live, E(3, 4), l.workers, l.main, l.th, l.to);
    // three threads, mixed
    for (const char* s : { "a|1|v", "p|p|1", "P|a|2", "s|s|v", "a|w|n", "1|2|a", "p|1|v" })
    {
        std::string x = s;
        add("T08", live, O(1, 2, 0, 0, 120), 2, x.substr(0, 1).c_str(), { x.substr(2, 1), x.substr(4, 1) });
    }
}
