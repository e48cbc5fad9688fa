// G01, G02 (scope guards), W01 (stopwatch), R01 (ranges), V01 (case-insensitive comparators), V02 (values), V03 (file names).
#include "seq.hpp"
#include <chrono>
#include <functional>
#include <limits>
#include <memory>
#include <string>
#include <vector>
#ifndef SW_PERIOD
#define SW_PERIOD std::nano
#endif
// a clock the check drives
struct fake_clock
{
    typedef std::chrono::duration<long long, SW_PERIOD> duration; typedef duration::rep rep; typedef duration::period period;
    typedef std::chrono::time_point<fake_clock> time_point; static constexpr bool is_steady = true;
    static long long& value() { static long long v; return v; }
    static long& reads() { static long v; return v; }
    static long long& tick() { static long long v; return v; }
    static time_point now() noexcept { ++reads(); value() += tick(); return time_point(duration(value())); }
};
#ifndef SW_DEFAULT
#define PLUTO_STOPWATCH_CLOCK_TYPE fake_clock
#endif
#include <pluto/scope.hpp>
#include <pluto/stopwatch.hpp>
#include <pluto/range.hpp>
#include <pluto/value.hpp>
#include <pluto/compare.hpp>
#include <pluto/platform.hpp>

namespace
{
    using seq::u64;
    // ================================================================================================ G01
    struct Boom { int n; };
    std::vector<int>* g_log;
    // a task: N does nothing, T throws, X throws something that is no std::exception, E is empty, A adds its child first,
    // B adds its child and then throws, C adds its child twice over
    struct TaskT { char kind; const TaskT* child; int id; };
    template<class Guard> std::function<void()> make(Guard* g, const TaskT* t)
    {
        if (t->kind == 'E') return nullptr;
        auto canary = std::make_shared<std::string>("a capture living outside the small buffer of the function");
        std::string big = *canary + *canary;
        return [g, t, canary, big]
        {
            g_log->push_back(t->id); SEQ_CHECK(g_log->size() < 40000, "the guard's tasks are run without end");
            if (t->kind == 'A' || t->kind == 'B' || t->kind == 'C') g->add(make(g, t->child));
            if (t->kind == 'C') { auto& c = *t->child; g->add(make(g, &c)); }
            SEQ_CHECK(canary->size() == 57 && big.size() == 114 && *canary == big.substr(57), "a task's captures changed while it was running");
            if (t->kind == 'T' || t->kind == 'B') throw std::string("task failed, with a text long enough to be allocated");
            if (t->kind == 'X') throw Boom{ 1 };
        };
    }
    void model_run(const TaskT* t, std::vector<int>& out, int depth = 0)
    {
        if (t->kind == 'E' || depth > 5000) return;
        out.push_back(t->id);
        if (t->kind == 'A' || t->kind == 'B') model_run(t->child, out, depth + 1);
        if (t->kind == 'C') { model_run(t->child, out, depth + 1); model_run(t->child, out, depth + 1); }
    }
    std::string text(const TaskT* t) { std::string s(1, t->kind); if (t->child) s += "(" + text(t->child) + ")"; return s; }
    template<class Guard> void g01_case(const std::vector<const TaskT*>& prog, int mode, bool runs, const char* guard)
    {
        // mode: 0 all by add, 1 first by construction; +2 the scope is left by an exception
        std::string d; if (seq::verbose() || seq::ctl().sampling) { for (auto t : prog) d += " " + text(t); }
        SEQ_CASE("%s%s, left by %s:%s", guard, mode & 1 ? " (first task at construction)" : "", mode & 2 ? "exception" : "its end", d.c_str());
        std::vector<int> log, expect; g_log = &log;
        for (auto it = prog.rbegin(); runs && it != prog.rend(); ++it) model_run(*it, expect);
        bool caught = false;
        auto fill = [&](Guard& g, std::size_t from) { for (std::size_t i = from; i < prog.size(); ++i) { g.add(make(&g, prog[i])); seq::step(); } };
        try
        {
            if (mode & 1)
            {
                if (prog.empty()) { Guard g{ std::function<void()>() }; if (mode & 2) throw Boom{ 7 }; }
                else { struct H { Guard* p; } h; alignas(Guard) char raw[sizeof(Guard)]; h.p = reinterpret_cast<Guard*>(raw);
                       struct Hold { Guard* p; ~Hold() { p->~Guard(); } } hold{ new (raw) Guard(make(h.p, prog[0])) };
                       fill(*h.p, 1); if (mode & 2) throw Boom{ 7 }; }
            }
            else { Guard g; fill(g, 0); if (mode & 2) throw Boom{ 7 }; }
        }
        catch (const Boom& b) { SEQ_CHECK(b.n == 7, "an exception of a task escaped"); caught = true; }
        catch (...) { seq::fail("%s: an exception of a task escaped", guard); }
        SEQ_CHECK(caught == ((mode & 2) != 0), "%s: the exception leaving the scope was lost", guard);
        SEQ_CHECK(log.size() == expect.size(), "%s with%s, left by %s: %d task runs instead of %d", guard, [&] { static std::string s; s.clear(); for (auto t : prog) s += " " + text(t); return s.c_str(); }(), mode & 2 ? "exception" : "its end", (int)log.size(), (int)expect.size());
        for (std::size_t i = 0; i < log.size(); ++i) SEQ_CHECK(log[i] == expect[i], "%s with%s: run %d was of task %d instead of task %d", guard, [&] { static std::string s; s.clear(); for (auto t : prog) s += " " + text(t); return s.c_str(); }(), (int)i, log[i], expect[i]);
        u64 h = 17; for (int x : log) h = seq::mix(h, (u64)x); seq::outcome(h); seq::state(seq::mix(h, (u64)prog.size()));
    }
    void g01(int arg)
    {
        int guard = arg % 10, len = arg / 10 % 10, depth = arg / 100;
        static std::vector<std::unique_ptr<TaskT>> pool; std::vector<const TaskT*> kinds; int id = 1;
        auto mk = [&](char k, const TaskT* c) { pool.push_back(std::unique_ptr<TaskT>(new TaskT{ k, c, id++ })); return pool.back().get(); };
        std::vector<const TaskT*> level;
        for (char k : { 'N', 'T', 'X', 'E' }) level.push_back(mk(k, nullptr));
        kinds = level;
        for (int d = 0; d < depth; ++d) { std::vector<const TaskT*> up; for (char k : { 'A', 'B', 'C' }) for (auto c : level) if (d == 0 || k != 'C') up.push_back(mk(k, c)); kinds.insert(kinds.end(), up.begin(), up.end()); level = up; }
        std::vector<const TaskT*> prog;
        std::function<void()> walk = [&]
        {
            if ((int)prog.size() == len)
            {
                for (int mode = 0; mode < 4; ++mode)
                {
                    if (!seq::next()) continue;
                    // tasks of equal shape at different places must be told apart
                    static std::vector<TaskT> inst; inst.clear(); inst.reserve(200);
                    std::function<const TaskT*(const TaskT*, int)> clone = [&](const TaskT* t, int base) { const TaskT* c = t->child ? clone(t->child, base) : nullptr; inst.push_back(TaskT{ t->kind, c, base * 10 + (t->child ? 1 : 0) + (c && c->child ? 1 : 0) }); return &inst.back(); };
                    std::vector<const TaskT*> q; for (std::size_t i = 0; i < prog.size(); ++i) q.push_back(clone(prog[i], (int)i + 1));
                    if (guard == 0) g01_case<pluto::on_scope_exit>(q, mode, true, "on_scope_exit");
                    else if (guard == 1) g01_case<pluto::on_scope_success>(q, mode, !(mode & 2), "on_scope_success");
                    else g01_case<pluto::on_scope_fail>(q, mode, (mode & 2) != 0, "on_scope_fail");
                }
                return;
            }
            for (auto k : kinds) { prog.push_back(k); walk(); prog.pop_back(); }
        };
        walk();
    }

    // many tasks, and tasks that add a task that adds a task ...
    void g01_many(int guard)
    {
        auto run = [&](const std::vector<char>& kinds, const std::vector<int>& depth)
        {
            for (int mode = 0; mode < 4; ++mode)
            {
                if (!seq::next()) continue;
                std::vector<std::unique_ptr<TaskT>> keep; std::vector<const TaskT*> q; int id = 1;
                for (std::size_t i = 0; i < kinds.size(); ++i)
                {
                    const TaskT* c = nullptr;
                    for (int d = depth[i]; d > 0; --d) { keep.push_back(std::unique_ptr<TaskT>(new TaskT{ d == depth[i] ? 'N' : d % 5 == 1 ? 'B' : 'A', c, id++ })); c = keep.back().get(); }
                    keep.push_back(std::unique_ptr<TaskT>(new TaskT{ kinds[i], c, id++ })); q.push_back(keep.back().get());
                }
                if (guard == 0) g01_case<pluto::on_scope_exit>(q, mode, true, "on_scope_exit");
                else if (guard == 1) g01_case<pluto::on_scope_success>(q, mode, !(mode & 2), "on_scope_success");
                else g01_case<pluto::on_scope_fail>(q, mode, (mode & 2) != 0, "on_scope_fail");
                seq::nontrivial();
            }
        };
        seq::long_lists<char>('N', std::vector<std::vector<char>>{ { 'T' }, { 'E' }, { 'A', 'X' }, { 'B' } }, seq::thorough() ? 5000 : 1100, [&](const std::vector<char>& k) { if (k.size() < 6) return; std::vector<int> d; for (char c : k) d.push_back(c == 'A' || c == 'B' ? 1 : 0); run(k, d); });
        for (std::size_t n : seq::lengths()) if (n && n <= 1100) { run({ 'A' }, { (int)n }); run({ 'N', 'B', 'T' }, { 0, (int)n, 0 }); run({ 'A', 'A' }, { (int)n, 3 }); }
    }

    // ================================================================================================ G02
    // programs of scopes, throws, catches and destructors:
    //   '.' nothing  'T' throw  'R' rethrow  'S' a guarded scope around a  'C' try a catch b  'D' an object whose destructor runs a (containing what it throws), then b  ';' a then b
    //   'E' as S, but the guards are destroyed before the scope's own body is over (they judge the inner block)
    struct Node { char op; const Node* a; const Node* b; int size; bool rethrows; };
    struct Event { int id; char what; };
    std::vector<Event> *g_real;
    struct Ex { int serial; };
    int g_serial;
    void exec(const Node* n, int& id);
    struct Runner { const Node* n; int* id; ~Runner() { try { exec(n, *id); } catch (const Ex&) {} } };
    void exec(const Node* n, int& id)
    {
        switch (n->op)
        {
            case '.': return;
            case 'T': throw Ex{ ++g_serial };
            case 'R': throw;
            case 'S':
            {
                int me = id++;
                pluto::on_scope_exit e([me] { g_real->push_back(Event{ me, 'e' }); });
                pluto::on_scope_success s([me] { g_real->push_back(Event{ me, 's' }); });
                pluto::on_scope_fail f([me] { g_real->push_back(Event{ me, 'f' }); });
                exec(n->a, id); return;
            }
            case 'C': { bool ran = false; try { exec(n->a, id); ran = true; } catch (const Ex&) { exec(n->b, id); } (void)ran; return; }
            case 'D': { Runner r{ n->a, &id }; exec(n->b, id); return; }
            default: exec(n->a, id); exec(n->b, id);
        }
    }
    // the same without guards: returns whether it throws; flight: scopes entered while an exception is in flight and left
    // by one cannot be judged before C++17
    bool model(const Node* n, int& id, bool inFlight, std::vector<Event>& out, std::vector<int>& unjudged)
    {
        switch (n->op)
        {
            case '.': return false;
            case 'T': case 'R': return true;
            case 'S':
            {
                int me = id++; bool t = model(n->a, id, inFlight, out, unjudged);
                out.push_back(Event{ me, t ? 'f' : 's' }); out.push_back(Event{ me, 'e' });
                if (t && inFlight) unjudged.push_back(me);
                return t;
            }
            case 'C': { bool t = model(n->a, id, inFlight, out, unjudged); return t ? model(n->b, id, inFlight, out, unjudged) : false; }
            case 'D': { bool t = model(n->b, id, inFlight, out, unjudged); model(n->a, id, inFlight || t, out, unjudged); return t; }
            default: return model(n->a, id, inFlight, out, unjudged) || model(n->b, id, inFlight, out, unjudged);
        }
    }
    std::string text(const Node* n)
    {
        switch (n->op)
        {
            case '.': return "nothing"; case 'T': return "throw"; case 'R': return "rethrow"; case 'S': return "guards{" + text(n->a) + "}";
            case 'C': return "try{" + text(n->a) + "}catch{" + text(n->b) + "}"; case 'D': return "dtor{" + text(n->a) + "} " + text(n->b); default: return text(n->a) + "; " + text(n->b);
        }
    }
    void g02(int size)
    {
        // all programs of exactly size nodes; [n][1] may contain a bare rethrow (only usable inside a catch block)
        static std::vector<std::unique_ptr<Node>> pool; std::vector<std::vector<const Node*>> by((std::size_t)size + 1);
        auto mk = [&](char op, const Node* a, const Node* b) { int s = 1 + (a ? a->size : 0) + (b ? b->size : 0); bool r = op == 'R' || (a && a->rethrows) || (b && op != 'C' && b->rethrows); pool.push_back(std::unique_ptr<Node>(new Node{ op, a, b, s, r })); by[(std::size_t)s].push_back(pool.back().get()); };
        mk('.', nullptr, nullptr); mk('T', nullptr, nullptr); mk('R', nullptr, nullptr);
        for (std::size_t s = 2; s <= (std::size_t)size; ++s)
        {
            for (auto a : by[s - 1]) mk('S', a, nullptr);
            for (std::size_t i = 1; i + 1 < s; ++i) for (auto a : by[i]) for (auto b : by[s - 1 - i])
            {
                if (a->op == '.' || (b->op == '.' && a->op == ';')) { if (a->op == '.') continue; }
                if (a->op != 'T' && a->op != 'R' && !(a->op == '.')) mk(';', a, b);
                mk('C', a, b); if (!a->rethrows) mk('D', a, b);   // rethrowing an exception that is in flight already ends the program
            }
        }
        for (auto n : by[(std::size_t)size])
        {
            if (n->rethrows) continue;
            if (!seq::next()) continue;
            SEQ_CASE("%s", text(n).c_str());
            std::vector<Event> real, want; std::vector<int> unjudged; g_real = &real; g_serial = 0;
            int id = 0; bool threw = false;
            try { exec(n, id); } catch (const Ex&) { threw = true; }
            int mid = 0; bool wt = model(n, mid, false, want, unjudged);
            SEQ_CHECK(threw == wt, "internal: the program does not do what the model says");
            seq::step((u64)size);
#if __cplusplus < 201703L
            for (int u : unjudged)
            {
                auto drop = [&](std::vector<Event>& v) { std::vector<Event> o; for (auto& e : v) if (e.id != u || e.what == 'e') o.push_back(e); v.swap(o); };
                drop(real); drop(want);
            }
#endif
            std::string got, exp; for (auto& e : real) got += " " + std::to_string(e.id) + e.what; for (auto& e : want) exp += " " + std::to_string(e.id) + e.what;
            SEQ_CHECK(got == exp, "in %s the guards ran as%s instead of%s (scope number, then e exit, s success, f failure)", text(n).c_str(), got.c_str(), exp.c_str());
            if (!want.empty()) seq::nontrivial();
            u64 h = 3; for (char c : got) h = seq::mix(h, (u64)c); seq::outcome(h);
        }
    }

    // ================================================================================================ W01
#ifndef SW_DEFAULT
    typedef __int128 wide;
    const wide PNUM = (wide)SW_PERIOD::num, PDEN = (wide)SW_PERIOD::den;
    long long in_unit(long long ticks, wide num, wide den) { return (long long)((wide)ticks * PNUM * den / (PDEN * num)); }   // truncation toward zero of ticks in units of num/den s
    struct SwModel
    {
        long long acc = 0, start = 0; bool run = false;
        long long time(long long now) const { return acc + (run ? now - start : 0); }
    };
    void sw_compare(const pluto::stopwatch& s, const SwModel& m, const std::string& what)
    {
        long long t = m.time(fake_clock::value());
        auto bad = [&](const char* q, long long got, long long want) { seq::fail("after%s: %s is %lld instead of %lld", what.c_str(), q, got, want); };
#define Q(expr, want) do { long long g_ = (long long)(expr), w_ = (long long)(want); if (g_ != w_) bad(#expr, g_, w_); } while (0)
        Q(s.is_running(), m.run);
        Q(s.time().count(), t);
        long long ns = in_unit(t, 1, 1000000000), us = in_unit(t, 1, 1000000), ms = in_unit(t, 1, 1000), sec = in_unit(t, 1, 1), mi = in_unit(t, 60, 1), h = in_unit(t, 3600, 1);
        Q(s.in_nanoseconds(), ns); Q(s.in_microseconds(), us); Q(s.in_milliseconds(), ms); Q(s.in_seconds(), sec); Q(s.in_minutes(), mi); Q(s.in_hours(), h);
        Q(s.nanoseconds_part(), ns % 1000); Q(s.microseconds_part(), us % 1000); Q(s.milliseconds_part(), ms % 1000); Q(s.seconds_part(), sec % 60); Q(s.minutes_part(), mi % 60); Q(s.hours_part(), h);
        Q(s.count<std::chrono::milliseconds>(), ms); Q(s.count<std::chrono::minutes>(7), mi % 7);
        typedef std::chrono::duration<long long, std::ratio<86400>> days; Q(s.count<days>(), in_unit(t, 86400, 1));
        Q(s.time().count(), t); Q(s.is_running(), m.run);
    }
    const long long ADV_NS[] = { 1, 999, 1000, 1999999, 999999999, 1500000000, 59999999999LL, 3723004005006LL, 86400000000000LL, (1LL << 60) + 1, (1LL << 57) + 12345678901LL };
    const char* SWOP[] = { "start", "stop", "reset", "restart", "stop_and_time", "query", "copy" };
    void w01(int arg)
    {
        int len = arg % 10, advs = arg / 10 % 10, init = arg / 100 % 10; bool observe = arg / 1000 % 10; int nops = 7 + advs;
        static const int picks[][9] = { { 5, 1, 7, 0, 3, 8, 2, 4, 6 }, { 9, 10 } }; const int* pick = picks[arg / 10000];
        int ops[12];
        std::function<void(int)> walk = [&](int pos)
        {
            if (pos < len) { for (ops[pos] = 0; ops[pos] < nops; ++ops[pos]) walk(pos + 1); return; }
            if (!seq::next()) return;
            std::string what = init == 0 ? " construction" : init == 1 ? " construction running" : " construction stopped";
            auto name = [&](int o) { return o < 7 ? std::string(SWOP[o]) : "advance " + std::to_string(ADV_NS[pick[o - 7]]) + " ns"; };
            auto describe = [&] { std::string s = what; for (int i = 0; i < len; ++i) s += ", " + name(ops[i]); return s; };
            SEQ_CASE("%s", describe().c_str());
            fake_clock::value() = init == 2 ? 0 : 1234567890123LL; fake_clock::reads() = 0;
            pluto::stopwatch s0 = init == 0 ? pluto::stopwatch() : pluto::stopwatch(init == 1); SwModel m; if (init == 1) { m.run = true; m.start = fake_clock::value(); }
            std::vector<pluto::stopwatch> copies; pluto::stopwatch* s = &s0; copies.reserve(12);
            for (int i = 0; i < len; ++i)
            {
                long long now = fake_clock::value(); seq::step();
                switch (ops[i])
                {
                    case 0: s->start(); if (!m.run) { m.run = true; m.start = now; } break;
                    case 1: s->stop(); if (m.run) { m.acc += now - m.start; m.run = false; } break;
                    case 2: s->reset(); m = SwModel(); break;
                    case 3: s->restart(); m = SwModel(); m.run = true; m.start = now; break;
                    case 4: { auto t = s->stop_and_time(); if (m.run) { m.acc += now - m.start; m.run = false; } SEQ_CHECK((long long)t.count() == m.acc, "after%s: stop_and_time gave %lld instead of %lld", describe().c_str(), (long long)t.count(), m.acc); break; }
                    case 5: SEQ_CHECK((long long)s->time().count() == m.time(now), "after%s: time() is %lld instead of %lld", describe().c_str(), (long long)s->time().count(), m.time(now)); break;
                    case 6: copies.push_back(*s); s = &copies.back(); break;
                    default: { wide a = (wide)ADV_NS[pick[ops[i] - 7]] * PDEN / (PNUM * 1000000000); fake_clock::value() += (long long)(a ? a : 1); }
                }
                if (observe) sw_compare(*s, m, describe());
            }
            sw_compare(*s, m, describe());
            seq::state(seq::mix(seq::mix((u64)m.acc, (u64)m.run), (u64)m.time(fake_clock::value()))); seq::outcome((u64)m.time(fake_clock::value()));
        };
        walk(0);
    }
    // many laps
    void w01_laps(int)
    {
        for (std::size_t n : seq::lengths()) for (long long on : { 1ll, 1000003ll, (long long)((wide)59999999999LL * PDEN / (PNUM * 1000000000)) }) for (int how = 0; how < 4; ++how)
        {
            if (!seq::next()) continue;
            SEQ_CASE("%zu laps of %lld ticks, kind %d", n, on, how);
            fake_clock::value() = 1234567890123LL; pluto::stopwatch s; SwModel m;
            for (std::size_t i = 0; i < n; ++i)
            {
                s.start(); if (how == 1) { fake_clock::value() += 5; m.acc += 5; s.start(); } fake_clock::value() += on; m.acc += on;
                if (how == 2) { long long t = (long long)s.stop_and_time().count(); SEQ_CHECK(t == m.acc, "after %zu laps stop_and_time gave %lld instead of %lld", i + 1, t, m.acc); } else s.stop();
                fake_clock::value() += 77; if (how == 3) { s.stop(); pluto::stopwatch c(s); s = c; }
            }
            seq::step(n); sw_compare(s, m, " " + std::to_string(n) + " laps");
        }
    }
    // a clock that moves between any two readings of it: what is counted lies between what the calls allow, and once
    // stopped the time stands still, at the value stop_and_time gave
    void w01_ticking(int len)
    {
        int ops[12];
        std::function<void(int)> walk = [&](int pos)
        {
            if (pos < len) { for (ops[pos] = 0; ops[pos] < 7; ++ops[pos]) walk(pos + 1); return; }
            for (int init = 0; init < 2; ++init)
            {
                if (!seq::next()) continue;
                auto describe = [&] { std::string s = init ? " construction running" : " construction"; for (int i = 0; i < len; ++i) s += std::string(", ") + SWOP[ops[i]]; return s; };
                SEQ_CASE("ticking clock: %s", describe().c_str());
                fake_clock::value() = 1000; fake_clock::tick() = 7;
                struct Off { ~Off() { fake_clock::tick() = 0; } } off;
                auto now = [] { return fake_clock::value(); };
                long long lo = 0, hi = 0, slo = 0, shi = 0; bool run = init == 1;      // counted so far, and when the current run began
                slo = now(); pluto::stopwatch s0(run), copy, *s = &s0; shi = now();
                auto reading = [&](const char* q, long long t, long long v0, long long v1)
                {
                    long long l = lo + (run ? v0 - shi : 0), h = hi + (run ? v1 - slo : 0);
                    SEQ_CHECK(t >= l && t <= h, "after%s: %s is %lld, which is not between %lld and %lld", describe().c_str(), q, t, l, h);
                    if (!run) lo = hi = t;
                };
                auto stopped = [&](long long v0, long long v1) { if (run) { lo += v0 - shi; hi += v1 - slo; run = false; } };
                auto started = [&](long long v0, long long v1) { if (!run) { slo = v0; shi = v1; run = true; } };
                for (int i = 0; i < len; ++i)
                {
                    long long v0 = now(); seq::step();
                    switch (ops[i])
                    {
                        case 0: s->start(); started(v0, now()); break;
                        case 1: s->stop(); stopped(v0, now()); break;
                        case 2: s->reset(); lo = hi = 0; run = false; break;
                        case 3: s->restart(); lo = hi = 0; run = false; started(v0, now()); break;
                        case 4: { long long t = s->stop_and_time().count(); stopped(v0, now()); reading("stop_and_time()", t, v0, now()); break; }
                        case 5: { long long t = s->time().count(); reading("time()", t, v0, now()); break; }
                        case 6: copy = *s; s = &copy; break;
                    }
                }
                SEQ_CHECK(s->is_running() == run, "after%s: is_running() is wrong", describe().c_str());
                for (int i = 0; i < 2; ++i) { long long v0 = now(), t = s->time().count(); reading("time()", t, v0, now()); }
                seq::outcome((u64)lo * 2 + run); if (lo || run) seq::nontrivial();
            }
        };
        walk(0);
    }
#else
    void w01_default(int)
    {
        if (!seq::next()) return;
        SEQ_CASE("the default clock");
        SEQ_CHECK(pluto::stopwatch::clock_type::is_steady, "the stopwatch's default clock can be set back");
    }
#endif

    // ================================================================================================ R01
    template<class T> void ranges(const std::vector<T>& dom, const char* type)
    {
        typedef pluto::range<T> R;
        std::vector<R> all; for (auto& a : dom) for (auto& b : dom) all.push_back(R(a, b));
        std::size_t n = all.size();
        auto idx = [&](std::size_t i) { return std::to_string(i / dom.size()) + ".." + std::to_string(i % dom.size()); };
        for (std::size_t i = 0; i < n; ++i)
            for (std::size_t j = 0; j < n; ++j)
            {
                if (!seq::next()) continue;
                SEQ_CASE("%s: ranges %s and %s of the domain", type, idx(i).c_str(), idx(j).c_str());
                const R a = all[i], b = all[j];
                // the domain is listed in increasing order, so positions decide
                int ab = (int)(i / dom.size()), ae = (int)(i % dom.size()), bb = (int)(j / dom.size()), be = (int)(j % dom.size());
                bool lt = ab != bb ? ab < bb : ae < be, eq = ab == bb && ae == be;
                auto bad = [&](const char* w) { seq::fail("%s: %s is wrong for positions [%d,%d) and [%d,%d)", type, w, ab, ae, bb, be); };
                if ((a == b) != eq || a.is_equal(b) != eq) bad("equality");
                if ((a != b) == eq) bad("inequality");
                if ((a < b) != lt || a.is_less(b) != lt) bad("less");
                if ((a > b) != (!lt && !eq)) bad("greater");
                if ((a <= b) != (lt || eq)) bad("less or equal");
                if ((a >= b) != !lt) bad("greater or equal");
                bool ov = ab == bb || (ab < be && bb < ae);
                if (a.is_overlapping(b) != ov || b.is_overlapping(a) != ov) bad("overlap");
                bool w = ab != bb && ae <= bb, w2 = ab != bb && be <= ab;
                if (a.is_less_no_overlap(b) != w || b.is_less_no_overlap(a) != w2) bad("less without overlap");
                if (ab <= ae && bb <= be) { if (a.is_overlapping(b) + a.is_less_no_overlap(b) + b.is_less_no_overlap(a) != 1) bad("the partition"); seq::nontrivial(); }
                for (std::size_t k = 0; k < n; ++k)
                {
                    const R& c = all[k]; seq::step();
                    if (a < b && b < c && !(a < c)) bad("transitivity");
                    if (!(a < b) && !(b < a) && !(b < c) && !(c < b) && ((a < c) || (c < a))) bad("transitivity of equivalence");
                }
                seq::outcome((u64)(lt * 4 + eq * 2 + ov)); seq::state((u64)(i * n + j));
            }
    }
    struct Only { int v; explicit Only(int x = 0) : v(x) {} bool operator==(const Only& o) const { return v == o.v; } bool operator!=(const Only& o) const { return v != o.v; } bool operator<(const Only& o) const { return v < o.v; } bool operator<=(const Only& o) const { return v <= o.v; } };
    template<class R, class T> void sizes(const std::vector<T>& d)
    {
        for (auto a : d) for (auto b : d) if (!(b < a) && seq::next()) { R r(a, b); SEQ_CHECK(r.begin == a && r.end == b && r.size() == b - a, "a range does not hold what it was made of"); }
    }
    void r01(int t)
    {
        if (t == 0) { std::vector<int> d; for (int i = -3; i <= 3; ++i) d.push_back(i); ranges<int>(d, "int"); sizes<pluto::int_range>(d); }
        else if (t == 1) ranges<int>({ std::numeric_limits<int>::min(), -1, 0, 1, std::numeric_limits<int>::max() }, "extreme int");
        else if (t == 2) { std::vector<unsigned> d{ 0u, 1u, 2u, 0x7fffffffu, 0x80000000u, 0xffffffffu }; ranges<unsigned>(d, "unsigned"); sizes<pluto::uint_range>(d); }
        else if (t == 3) { std::vector<long long> d{ std::numeric_limits<long long>::min(), -1, 0, 1, std::numeric_limits<long long>::max() }; ranges<long long>(d, "long long"); sizes<pluto::long_long_range>(std::vector<long long>{ -3, -1, 0, 2, 1LL << 40 }); }
        else if (t == 4) { std::vector<unsigned long long> d{ 0, 1, ~0ull >> 1, (~0ull >> 1) + 1, ~0ull }; ranges<unsigned long long>(d, "unsigned long long"); sizes<pluto::ulong_long_range>(d); }
        else if (t == 5) { static char buf[8]; std::vector<void*> d; for (int i = 0; i < 6; ++i) d.push_back(buf + i); typedef pluto::pvoid_range P; static_assert(std::is_same<P, pluto::range<void*>>::value, ""); ranges<void*>(d, "void*"); }
        else if (t == 6) ranges<double>({ -std::numeric_limits<double>::infinity(), -1.5, 0.0, 1e-300, 2.0 }, "double");
        else if (t == 7) ranges<std::string>({ "", "a", "aa", "b" }, "string");
        else { std::vector<Only> d; for (int i = 0; i < 5; ++i) d.push_back(Only(i)); ranges<Only>(d, "a type with ==, !=, < and <= only"); }
    }

    // ================================================================================================ V01
    // a locale of our own: ROT13-like case pairs, freed when nobody refers to it
    template<class E> struct my_ctype;
    template<> struct my_ctype<char> : std::ctype<char>
    {
        int* live; explicit my_ctype(int* l) : live(l) { ++*live; } ~my_ctype() { --*live; }
        char do_toupper(char c) const override { return c >= 'g' && c <= 'l' ? (char)('G' + ('l' - c)) : c == '1' ? '2' : c; }
        const char* do_toupper(char* b, const char* e) const override { for (; b < e; ++b) *b = do_toupper(*b); return e; }
    };
    template<> struct my_ctype<wchar_t> : std::ctype<wchar_t>
    {
        int* live; explicit my_ctype(int* l) : live(l) { ++*live; } ~my_ctype() { --*live; }
        wchar_t do_toupper(wchar_t c) const override { return c >= L'g' && c <= L'l' ? (wchar_t)(L'G' + (L'l' - c)) : c == L'1' ? L'2' : c; }
        const wchar_t* do_toupper(wchar_t* b, const wchar_t* e) const override { for (; b < e; ++b) *b = do_toupper(*b); return e; }
    };
    template<class E> std::locale my_locale(int* live) { return std::locale(std::locale::classic(), new my_ctype<E>(live)); }
    template<class E> void judge(const pluto::is_iless<E>& lt, const pluto::is_igreater<E>& gt, const pluto::is_iless_equal<E>& le, const pluto::is_igreater_equal<E>& ge,
                                 const pluto::is_iequal<E>& eq, const pluto::is_not_iequal<E>& ne, const std::vector<E>& chars, const std::vector<E>& up, const char* what)
    {
        for (std::size_t i = 0; i < chars.size(); ++i)
            for (std::size_t j = 0; j < chars.size(); ++j)
            {
                E a = chars[i], b = chars[j], ua = up[i], ub = up[j]; seq::step();
                auto bad = [&](const char* w) { seq::fail("%s: %s is wrong for characters %ld and %ld (upper case %ld and %ld)", what, w, (long)a, (long)b, (long)ua, (long)ub); };
                if (lt(a, b) != (ua < ub)) bad("less");
                if (gt(a, b) != (ub < ua)) bad("greater");
                if (le(a, b) != !(ub < ua)) bad("less or equal");
                if (ge(a, b) != !(ua < ub)) bad("greater or equal");
                if (eq(a, b) != (ua == ub)) bad("equal");
                if (ne(a, b) != (ua != ub)) bad("not equal");
                seq::outcome((u64)((ua < ub) * 2 + (ua == ub)) + ((a == b) ? 10 : 0));
            }
    }
    template<class E> std::vector<E> upper(const std::vector<E>& c, const std::locale& l) { auto& f = std::use_facet<std::ctype<E>>(l); std::vector<E> u; for (E x : c) u.push_back(f.toupper(x)); return u; }
    __attribute__((noinline)) void clobber() { volatile char b[4000]; for (unsigned i = 0; i < sizeof b; ++i) b[i] = (char)0xee; std::vector<std::string> v; for (int i = 0; i < 60; ++i) v.push_back(std::string((std::size_t)(i * 9 + 1), 'z')); }
    template<class E> struct Six { pluto::is_iless<E> lt; pluto::is_igreater<E> gt; pluto::is_iless_equal<E> le; pluto::is_igreater_equal<E> ge; pluto::is_iequal<E> eq; pluto::is_not_iequal<E> ne;
        Six() {} explicit Six(const std::locale& l) : lt(l), gt(l), le(l), ge(l), eq(l), ne(l) {}
        void run(const std::vector<E>& c, const std::vector<E>& u, const char* what) const { judge<E>(lt, gt, le, ge, eq, ne, c, u, what); } };
    template<class E> void v01_type(const std::vector<E>& chars, const char* type)
    {
        int live = 0;
        for (int l = 0; l < 5; ++l)
            for (int how = 0; how < 6; ++how)
            {
                if (!seq::next()) continue;
                static const char* LN[] = { "C", "en_US.UTF-8", "C.UTF-8", "an own locale", "the default locale" };
                static const char* HN[] = { "locale alive", "locale object destroyed", "made from a temporary locale", "copied, original destroyed", "copied from a temporary", "global locale changed meanwhile" };
                SEQ_CASE("%s, %s, %s", type, LN[l], HN[how]);
                std::string what = std::string(type) + ", " + LN[l] + ", " + HN[how];
                std::vector<E> up;
                std::function<std::locale()> mk = [&] { return l == 3 ? my_locale<E>(&live) : l == 4 ? std::locale(pluto::default_locale()) : std::locale(LN[l]); };
                { std::locale x = mk(); up = upper<E>(chars, x); }
                std::unique_ptr<Six<E>> s; std::unique_ptr<std::locale> loc;
                if (l == 4 && how != 1 && how != 3) s.reset(new Six<E>());
                else if (how == 2 || how == 4) s.reset(new Six<E>(mk()));
                else { loc.reset(new std::locale(mk())); s.reset(new Six<E>(*loc)); }
                std::unique_ptr<Six<E>> first;
                if (how == 3 || how == 4) { first = std::move(s); s.reset(new Six<E>(*first)); first.reset(); }
                if (how == 1 || how == 3) loc.reset();
                if (how == 5) { std::locale::global(std::locale("C.UTF-8")); std::locale::global(std::locale::classic()); }
                clobber();
                s->run(chars, up, what.c_str());
                if (l == 3) { SEQ_CHECK(live == 1, "%s: %d instances of the locale's facet are alive", what.c_str(), live); }
                s.reset(); loc.reset();
                if (l == 3) SEQ_CHECK(live == 0, "%s: %d instances of the locale's facet leaked", what.c_str(), live);
                seq::state((u64)(l * 10 + how)); seq::nontrivial();
            }
    }
    void v01(int t)
    {
        if (t == 0) { std::vector<char> c; for (int i = -128; i < 128; ++i) c.push_back((char)i); v01_type<char>(c, "char"); }
        else
        {
            std::vector<wchar_t> c; for (int i = 0; i < 0x180; ++i) c.push_back((wchar_t)i);
            for (wchar_t x : { 0x390, 0x391, 0x3a9, 0x3b1, 0x3c2, 0x3c3, 0x3c9, 0x410, 0x430, 0x44f, 0x4ff, 0x10a0, 0x1e9e, 0x1f80, 0x2160, 0x2170, 0x24b6, 0x24d0, 0xa64a, 0xd800, 0xff21, 0xff41, 0xffff, 0x10400, 0x10428, 0x10ffff, 0x7fffffff, -1 }) c.push_back(x);
            v01_type<wchar_t>(c, "wchar_t");
        }
    }

    // ================================================================================================ V02
    template<class T> T rabs(T v) { return v < 0 ? (T)(0 - v) : v; }
    template<class T> void abs_all(const std::vector<T>& d, const char* type)
    {
        for (T v : d)
        {
            if (!seq::next()) continue;
            SEQ_CASE("%s: %lld", type, (long long)v);
            if (std::is_signed<T>::value && v == std::numeric_limits<T>::min()) continue;   // its magnitude is not representable
            T r = pluto::abs(v); SEQ_CHECK(r == rabs(v) && !(r < 0), "%s: abs(%lld) is %lld", type, (long long)v, (long long)r);
            SEQ_CHECK(pluto::copy(v) == v, "%s: copy(%lld) differs", type, (long long)v);
            SEQ_CHECK(pluto::is_true()(v) == (v != 0) && pluto::is_false()(v) == (v == 0), "%s: truth of %lld", type, (long long)v);
            seq::state((u64)v); seq::outcome((u64)r);
        }
    }
    template<class T> std::vector<T> domain()
    {
        std::vector<T> d;
        if (sizeof(T) <= 2) { long long lo = (long long)std::numeric_limits<T>::min(), hi = (long long)std::numeric_limits<T>::max(); for (long long i = lo; i <= hi; ++i) d.push_back((T)i); return d; }
        for (unsigned b = 0; b < sizeof(T) * 8; ++b) for (int o = -2; o <= 2; ++o) { u64 x = (1ull << b) + (u64)(long long)o; d.push_back((T)x); d.push_back((T)(0 - x)); }
        d.push_back(std::numeric_limits<T>::min()); d.push_back(std::numeric_limits<T>::max());
        return d;
    }
    struct Tagged { int v; int tag; bool operator<(const Tagged& o) const { return v < o.v; } };
    template<class T> void minmax(const std::vector<T>& d, const char* type)
    {
        for (std::size_t i = 0; i < d.size(); ++i) for (std::size_t j = 0; j < d.size(); ++j)
        {
            if (!seq::next()) continue;
            SEQ_CASE("%s: minimum and maximum of elements %d and %d", type, (int)i, (int)j);
            const T a = d[i], b = d[j];
            auto bad = [&](const char* w) { seq::fail("%s: %s of elements %d and %d does not refer to the right argument", type, w, (int)i, (int)j); };
            if (&(pluto::min)(a, b) != (b < a ? &b : &a)) bad("min");
            if (&(pluto::max)(a, b) != (a < b ? &b : &a)) bad("max");
            if (&(pluto::min)(a, a) != &a || &(pluto::max)(a, a) != &a) bad("min or max with itself");
            int calls = 0;
            auto gt = [&](const T& x, const T& y) { ++calls; return y < x; };
            if (&(pluto::min)(a, b, gt) != (a < b ? &b : &a)) bad("min by predicate");
            if (&(pluto::max)(a, b, gt) != (b < a ? &b : &a)) bad("max by predicate");
            auto never = [](const T&, const T&) { return false; };
            if (&(pluto::min)(a, b, never) != &a || &(pluto::max)(a, b, never) != &a) bad("min or max of equivalents");
            seq::outcome((u64)((a < b) * 2 + (b < a))); seq::state((u64)(i * 100000 + j)); seq::step(6);
        }
    }
    struct Truthy { int v; bool operator!() const { return v == 0; } explicit operator bool() const { return v != 0; } };
    void v02(int t)
    {
        switch (t)
        {
            case 0: abs_all(domain<signed char>(), "signed char"); abs_all(domain<unsigned char>(), "unsigned char"); abs_all(domain<char>(), "char"); break;
            case 1: abs_all(domain<short>(), "short"); abs_all(domain<unsigned short>(), "unsigned short"); break;
            case 2: abs_all(domain<int>(), "int"); abs_all(domain<unsigned>(), "unsigned"); abs_all(domain<long>(), "long"); abs_all(domain<long long>(), "long long"); abs_all(domain<unsigned long long>(), "unsigned long long"); break;
            case 3:
                for (double v : { 0.5, -0.5, 1e308, -1e308, 5e-324, -5e-324, -1.0, 3.25, -std::numeric_limits<double>::infinity() }) if (seq::next()) { SEQ_CASE("double %g", v); SEQ_CHECK(pluto::abs(v) == (v < 0 ? -v : v) && pluto::abs((float)v) == ((float)v < 0 ? -(float)v : (float)v), "abs(%g) is %g", v, pluto::abs(v)); }
                for (int i = -6; i <= 6; ++i) for (int e = 0; e <= 8; ++e) if (seq::next())
                {
                    SEQ_CASE("%d to the power %d", i, e); double r = 1; for (int k = 0; k < e; ++k) r *= i;
                    SEQ_CHECK(pluto::pow(i, e) == r && pluto::pow((double)i, (double)e) == r && (double)pluto::pow((float)i, (float)e) == r && (double)pluto::pow((long double)i, (long double)e) == r, "pow(%d, %d) is not %g", i, e, r);
                }
                for (int i = -40; i <= 40; ++i) if (seq::next()) { double v = i / 4.0; double r = v < 0 ? -(double)(long long)(-v + 0.5) : (double)(long long)(v + 0.5); SEQ_CASE("round(%g)", v); SEQ_CHECK(pluto::round(v) == r && pluto::round((float)v) == (float)r, "round(%g) is %g", v, (double)pluto::round(v)); }
                for (int i = 0; i < 3; ++i) if (seq::next())
                {
                    SEQ_CASE("truth of other types"); int x = i; int* p = i ? &x : nullptr; std::function<void()> f; if (i) f = [] {}; std::unique_ptr<int> u; if (i) u.reset(new int(0)); Truthy q{ i };
                    pluto::is_true it; pluto::is_false nf;
                    SEQ_CHECK(it(p) == (i != 0) && nf(p) == (i == 0) && it(f) == (i != 0) && nf(f) == (i == 0) && it(u) == (i != 0) && nf(u) == (i == 0) && it(q) == (i != 0) && nf(q) == (i == 0) && it(i != 0) == (i != 0) && nf(i != 0) == (i == 0) && it(i * 0.25) == (i != 0) && nf(i * 0.25) == (i == 0), "truth of value %d of some type", i);
                }
                break;
            case 4: { std::vector<int> d; for (int i = -4; i <= 4; ++i) d.push_back(i); d.push_back(std::numeric_limits<int>::min()); d.push_back(std::numeric_limits<int>::max()); minmax(d, "int"); break; }
            case 5: { std::vector<Tagged> d; for (int i = 0; i < 12; ++i) d.push_back(Tagged{ i / 3, i }); minmax(d, "a type with equivalent values"); break; }
            case 6: minmax(std::vector<double>{ -1.0, -0.0, 0.0, 1.0, std::numeric_limits<double>::infinity(), std::numeric_limits<double>::quiet_NaN() }, "double"); break;
            default: minmax(std::vector<std::string>{ "", "a", "ab", "b", "b" }, "string");
        }
    }

    // ================================================================================================ V03
    void v03(int arg)
    {
        static const char ALPHA[] = { '/', '\\', '.', 'a', (char)0xc3, (char)0xff, ':', ' ', '\n' };
        int len = arg % 10, n = arg / 10; std::string s((std::size_t)len, 'x');
        std::function<void(int)> walk = [&](int pos)
        {
            if (pos < len) { for (int i = 0; i < n; ++i) { s[(std::size_t)pos] = ALPHA[i]; walk(pos + 1); } return; }
            if (!seq::next()) return;
            SEQ_CASE("%s", seq::show(s).c_str());
            std::unique_ptr<char[]> heap(new char[(std::size_t)len + 1]); std::memcpy(heap.get(), s.c_str(), (std::size_t)len + 1);   // reading past the end is caught
            const char* r = pluto::file_name(heap.get());
            std::size_t want = 0; for (std::size_t i = 0; i < s.size(); ++i) if (s[i] == '/' || s[i] == '\\') want = i + 1;
            SEQ_CHECK(r == heap.get() + want, "the file name of %s starts at %ld instead of %ld", seq::show(s).c_str(), (long)(r - heap.get()), (long)want);
            SEQ_CHECK(s == heap.get(), "the path changed");
            seq::outcome((u64)want * 16 + (u64)len);
        };
        walk(0);
    }
    void v03_long(int)
    {
        for (char fill : { 'a', '/', '.', (char)0xe2 }) seq::long_lists<char>(fill, std::vector<std::vector<char>>{ { '/' }, { '\\' }, { 'b', '/', 'c' }, { '.', '\\' } }, 200000, [&](const std::vector<char>& v)
        {
            if (!seq::next()) return;
            SEQ_CASE("a path of %zu", v.size());
            std::unique_ptr<char[]> heap(new char[v.size() + 1]); std::copy(v.begin(), v.end(), heap.get()); heap[v.size()] = 0;
            std::size_t want = 0; for (std::size_t i = 0; i < v.size(); ++i) if (v[i] == '/' || v[i] == '\\') want = i + 1;
            const char* r = pluto::file_name(heap.get()); seq::step();
            SEQ_CHECK(r == heap.get() + want, "the file name of a path of %zu starts at %ld instead of %ld", v.size(), (long)(r - heap.get()), (long)want);
        });
    }
    void v03_chars(int)
    {
        for (int a = 1; a < 256; ++a) for (int b = 1; b < 256; ++b) if (seq::next())
        {
            char p[4] = { 'x', (char)a, (char)b, 0 }; SEQ_CASE("bytes x %d %d", a, b);
            int want = 0; for (int i = 0; i < 3; ++i) if (p[i] == '/' || p[i] == '\\') want = i + 1;
            SEQ_CHECK(pluto::file_name(p) == p + want, "the file name after bytes %d %d starts at %ld instead of %d", a, b, (long)(pluto::file_name(p) - p), want);
        }
    }
}

void reg()
{
    for (int g = 0; g < 3; ++g)
    {
        static const char* n[] = { "exit", "success", "fail" };
        for (int len = 0; len <= 3; ++len) seq::scenario("G01", std::string(n[g]) + "-" + std::to_string(len) + "-tasks", g01, g + len * 10 + (len <= 2 ? 200 : 100), len >= 3 ? 3 : 1);
        seq::scenario("G01", std::string(n[g]) + "-many-tasks", g01_many, g, 3);
        seq::scenario("G01", std::string(n[g]) + "-4-tasks", g01, g + 40 + 100, 8, true);
        seq::scenario("G01", std::string(n[g]) + "-4-flat-tasks", g01, g + 40);
        seq::scenario("G01", std::string(n[g]) + "-5-flat-tasks", g01, g + 50);
    }
    for (int s = 1; s <= 11; ++s) seq::scenario("G02", "programs-of-size-" + std::to_string(s), g02, s, s >= 8 ? 8 : 1, s >= 10);
#ifndef SW_DEFAULT
    for (int init = 0; init < 3; ++init)
    {
        for (int len = 0; len <= 4; ++len) seq::scenario("W01", "all-" + std::to_string(len) + "-operations-start" + std::to_string(init), w01, len + 90 + init * 100, len == 4 ? 2 : 1);
        seq::scenario("W01", "observed-4-operations-start" + std::to_string(init), w01, 4 + 40 + init * 100 + 1000, 2);
        seq::scenario("W01", "huge-times-4-operations-start" + std::to_string(init), w01, 10000 + 4 + 20 + init * 100, 1);
        seq::scenario("W01", "5-operations-start" + std::to_string(init), w01, 5 + 60 + init * 100, 4);
        seq::scenario("W01", "6-operations-start" + std::to_string(init), w01, 6 + 20 + init * 100, 4);
        seq::scenario("W01", "7-operations-start" + std::to_string(init), w01, 7 + 20 + init * 100, 8, true);
    }
    seq::scenario("W01", "many-laps", w01_laps);
    seq::scenario("W01", "ticking-clock-5-operations", w01_ticking, 5, 2); seq::scenario("W01", "ticking-clock-6-operations", w01_ticking, 6, 4, true);
#else
    seq::scenario("W01", "default-clock", w01_default);
#endif
    for (int t = 0; t < 9; ++t) seq::scenario("R01", "type-" + std::to_string(t), r01, t);
    seq::scenario("V01", "narrow", v01, 0); seq::scenario("V01", "wide", v01, 1);
    for (int t = 0; t < 8; ++t) seq::scenario("V02", "group-" + std::to_string(t), v02, t);
    for (int len = 0; len <= 8; ++len) seq::scenario("V03", "length-" + std::to_string(len), v03, len + (len <= 5 ? 90 : len <= 6 ? 60 : 40), len >= 7 ? 2 : 1);
    seq::scenario("V03", "every-byte-pair", v03_chars); seq::scenario("V03", "long", v03_long, 0, 2);
}
int main(int argc, char** argv) { return seq::main(argc, argv, reg); }
