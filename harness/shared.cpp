// P01: the instances shared by the whole program, thread_pool::instance() and logger::instance() with its macros.  Function-local
// statics live for one execution under mcrt: made by whichever thread comes first, destroyed when the main thread ends.
#include "mc.hpp"
#include "logcommon.hpp"
#include <pluto/thread_pool.hpp>
#include <atomic>
#include <thread>

namespace
{
    typedef pluto::thread_pool pool;
    using lc::logger;
    struct World { int tasks, logs, workers; bool all; const void* addr[2][8]; int file[40]; int thread[40]; bool pools, loggers; } w;

    int task() { mc::Untracked u; return w.tasks++; }
    std::function<void()> body(int id) { return [id] { mc::counter_add(id, 1); mc::point(); mc::counter_add(id, 100); }; }
    int new_log(int file) { mc::Untracked u; int id = w.logs++; w.file[id] = file; w.thread[id] = mc::self(); return id; }
    std::string path(int f) { mc::Untracked u; return std::string(mc::scratch_dir()) + "/logs/" + "ab"[f] + ".log"; }
    void log(int form, int file)
    {
        int id = new_log(file); std::string f = path(file);
        switch (form)
        {
            case 0: PLUTO_LOG_WRITE(f, info, "m" + std::to_string(id)); break;
            case 1: PLUTO_LOG_WRITEF(f, fatal, "m%d", id); break;
            case 2: PLUTO_LOG_FORMAT(f, warning, "m{}", id); break;
            default: PLUTO_LOG_STREAM(f, verbose, "m" << id); break;
        }
    }
    // one letter is one thing a thread of the program does
    void act(char c)
    {
        switch (c)
        {
            case 'p': { pool& p = pool::instance(); mc::Untracked u; w.addr[0][mc::self()] = &p; break; }
            case 'a': { int k = task(); pool::instance().run_async(body(k)); break; }
            case 'A': { int k = task(); pool::instance().run_after(std::chrono::milliseconds(5), body(k)); break; }
            case 's': { int k = task(); pool::instance().run_sync(body(k)); MC_CHECK(mc::counter_get(k) == 101, "a synchronous task of the shared pool has run %ld times", mc::counter_get(k)); break; }
            case 'c': { pool& p = pool::instance().on_stop(pool::action::complete_tasks); MC_CHECK(&p == &pool::instance(), "the setter returns another pool"); break; }
            case 'w': pool::instance().wait_until_all_tasks_complete(); for (int i = 0; i < w.tasks; ++i) MC_CHECK(mc::counter_get(i) == 101, "task %d has run %ld times although the shared pool is done", i, mc::counter_get(i)); break;
            case 't': { auto n = pool::instance().target_workers_size(), m = pool::instance().workers_size(); MC_CHECK((int)n == w.workers && (int)m == w.workers, "the shared pool has %zu workers of %zu on a machine with %d hardware threads", m, n, w.workers); break; }
            case 'i': { logger& l = logger::instance(); mc::Untracked u; w.addr[1][mc::self()] = &l; break; }
            case 'l': log(0, 0); break;
            case 'L': log(1, 0); break;
            case 'k': log(2, 1); break;
            case 'K': log(3, 0); break;
            case 'F': logger::instance().buffer_flush_size(1000); break;
            case 'f': { bool evaluated = false; std::string f = path(0); logger::instance().level(pluto::log_level::warning); PLUTO_LOG_WRITE(f, info, (evaluated = true, "filtered")); PLUTO_LOG_STREAM(f, notice, (evaluated = true, "filtered")); PLUTO_LOG_WRITEF(f, debug, "%d", (evaluated = true, 1));
                        MC_CHECK(!evaluated, "the arguments of a filtered log were evaluated"); logger::instance().level(pluto::log_level::verbose); break; }
            case 'g': { int id = new_log(0); logger::instance().write(path(0), pluto::log_level::error, { "shared.cpp", 1, "act" }, "m" + std::to_string(id)); break; }
            case 'e': logger::instance().level(pluto::log_level::notice).file_rotation_limit(77); pool::instance().on_stop(pool::action::complete_tasks); break;
            case 'E': MC_CHECK(logger::instance().level() == pluto::log_level::notice && logger::instance().file_rotation_limit() == 77 && pool::instance().on_stop() == pool::action::complete_tasks, "what one thread set in a shared instance is not what another one reads"); break;
            // a task of the shared pool that logs
            case 'x': { int k = task(), id = new_log(0); { mc::Untracked u; w.thread[id] = 100 + id; } std::string f = path(0); pool::instance().run_async([k, id, f] { mc::counter_add(k, 101); PLUTO_LOG_WRITE(f, info, "m" + std::to_string(id)); }); break; }
            case ',': mc::quiesce(); break;
            case '5': mc::quiesce_until(6000000); break;
            default: mc::fail("internal: letter %c", c);
        }
    }
    void judge_end(int)
    {
        mc::Untracked u; std::uint64_t h = 3;
        for (int i = 0; i < w.tasks; ++i)
        {
            long n = mc::counter_get(i);
            MC_CHECK(n == 101 || (!w.all && n == 0), "task %d of the shared pool was %s at the end of the program", i, n == 0 ? "never run" : n % 100 > 1 ? "run twice" : "abandoned half-way");
            h = h * 31 + n;
        }

        for (auto& row : w.addr) { const void* a = nullptr; for (auto x : row) if (x) { MC_CHECK(!a || a == x, "two threads were given different instances"); a = x; } }
        int seen[40] = {};
        for (int f = 0; f < 2; ++f)
        {
            int header = 0; std::vector<int> order;
            std::vector<lc::Line> ls = lc::read_lines(path(f));
            for (std::size_t i = 0; i < ls.size(); ++i)
            {
                std::string& t = ls[i].text;
                MC_CHECK(ls[i].whole, "file %c ends in an incomplete line", "AB"[f]);
                if (t.find("|Message") != std::string::npos || t.find("--+") != std::string::npos) { MC_CHECK(i < 2, "a header in the middle of file %c", "AB"[f]); ++header; continue; }
                std::size_t p = t.rfind('|'); int id = p == std::string::npos ? -1 : lc::parse(t.substr(p + 1), nullptr);
                MC_CHECK(id >= 0 && id < w.logs && w.file[id] == f && t.substr(p + 1) == "m" + std::to_string(id), "file %c contains \"%.80s\"", "AB"[f], t.c_str());
                MC_CHECK(!seen[id]++, "log %d was written twice", id);
                for (int o : order) MC_CHECK(w.thread[o] != w.thread[id] || o < id, "log %d precedes log %d of the same thread", o, id);
                order.push_back(id); h = h * 31 + id;
            }
            MC_CHECK(header == (ls.empty() ? 0 : 2), "%d header lines in file %c", header, "AB"[f]);
        }
        for (int i = 0; i < w.logs; ++i) MC_CHECK(seen[i] || (!w.all && w.thread[i] >= 100), "log %d was not written at the end of the program", i);
        mc::outcome(h);
    }
    struct Sc { std::string before; std::vector<std::string> th; std::string after; int workers; bool all; };
    std::vector<Sc>& table() { static std::vector<Sc> t; return t; }
    std::vector<Sc>& tab = table();
    void run(int i)
    {
        Sc& s = tab[i];
        { mc::Untracked u; w = World(); w.workers = s.workers; w.all = s.all; mc::scratch_dir(); }
        mc::hardware_threads(s.workers);
        mc::at_end(judge_end, 0);
        for (char c : s.before) act(c);
        std::thread t[4]; int n = 0;
        for (auto& x : s.th) { const char* p = x.c_str(); t[n++] = std::thread([p] { for (const char* q = p; *q; ++q) act(*q); }); }
        for (int k = 0; k < n; ++k) t[k].join();
        for (char c : s.after) act(c);
    }
    void add(const char* name, Sc s, int pre, int tpre = -1, bool thorough_only = false)
    {
        tab.push_back(s);
        mc::Opt o; o.quick.preempt = pre + 1; o.thorough.preempt = tpre < 0 ? pre + 2 : tpre + 1; o.quick.max_s = 100; o.quick.max_exec = thorough_only ? 0 : 4000000; o.thorough.max_s = 300; o.thorough.max_exec = 40000000;
        mc::scenario("P01", name, o, run, (int)tab.size() - 1);
    }
}
void mc_register()
{
    add("pool-raced-by-two", { "", { "p", "p" }, "p", 1, true }, 2);
    add("pool-raced-by-three", { "", { "p", "p", "p" }, "", 1, true }, 1);
    add("pool-two-submit-first", { "", { "a", "a" }, "w", 1, true }, 1);
    add("pool-sync-first", { "", { "s", "s" }, "", 1, true }, 1);
    add("pool-submit-and-sync-first", { "", { "a", "s" }, "w", 2, true }, 1);
    add("pool-workers-1", { "t", {}, "", 1, true }, 2);
    add("pool-workers-2", { "t", { "p" }, "t", 2, true }, 1);
    add("pool-workers-3", { "p", {}, "t", 3, true }, 1);
    add("pool-exit-joining", { "aa", {}, "", 1, false }, 2);
    add("pool-exit-completing", { "c", { "a" }, "aa", 1, true }, 1);
    add("pool-exit-completing-unused-workers", { "caa", {}, "", 2, true }, 2);
    add("pool-exit-scheduled", { "A", {}, "5", 1, true }, 1);
    add("pool-exit-scheduled-later", { "aA", {}, "", 1, false }, 1);
    add("pool-completing-raced", { "", { "ca", "ca" }, "", 1, true }, 1);
    add("logger-raced-by-two", { "", { "i", "i" }, "i", 0, true }, 3);
    add("logger-raced-by-three", { "", { "i", "i", "i" }, "", 0, true }, 2);
    add("logger-two-log-first", { "", { "l", "l" }, "", 0, true }, 2);
    add("logger-all-macros", { "", { "lL", "kK" }, "", 0, true }, 1);
    add("logger-mixed-first", { "", { "g", "K" }, "L", 0, true }, 1);
    add("logger-all-macros-alone", { "lLkKg", {}, "", 0, true }, 1);
    add("logger-exit-flushes", { "F", { "lk", "L" }, "K", 0, true }, 1);
    add("logger-exit-flushes-alone", { "Flkf", {}, "L", 0, true }, 3);
    add("logger-filter", { "f", { "l" }, "f", 0, true }, 1);
    add("both-settings-seen-by-all", { "e", { "E", "E" }, "E", 1, true }, 0);
    add("both-settings-made-elsewhere", { "", { "e" }, "E", 1, true }, 1);
    add("both-raced", { "", { "i", "p" }, "", 1, true }, 2);
    add("both-task-logs", { "ip", {}, "cx", 1, true }, 1);
    add("both-tasks-log-at-exit", { "icxx", {}, "", 1, true }, 1);
    add("both-tasks-log-two-workers", { "i", { "x" }, "cx", 2, true }, 0, 1);
    add("both-tasks-dropped-at-exit", { "lx", {}, "x", 1, false }, 1);
    add("both-unflushed", { "Fx", { "l" }, "cx", 1, true }, 0, 1);
}
