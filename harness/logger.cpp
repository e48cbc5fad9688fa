// L01..L05, L09: pluto::logger, the real header with its writer thread under mcrt and real files in a scratch directory.
// L06..L08 (rotation, crash points, failures) are in logfs.cpp.
#include "mc.hpp"
#include "logcommon.hpp"

namespace
{
    using namespace lc;

    struct Sc { int flush, max; std::string main; std::vector<std::string> th; std::string tail; };
    std::vector<Sc> table;

    // ---------------------------------------------------------------------------------------------- judges
    // order and uniqueness; if all is true every log not excused must be there
    void judge(bool all)
    {
        mc::Untracked u;
        int seen[MAXLOG] = {};
        int discards_possible = 0;
        for (int f = 0; f < 3; ++f)
        {
            std::vector<Line> ls = read_lines(path(f));
            std::vector<int> ids;
            for (auto& l : ls)
            {
                MC_CHECK(l.whole, "file %c ends in an incomplete line", "ABC"[f]);
                int gen = 0, id = parse(l.text, &gen);
                MC_CHECK(id >= 0 && id < w.n, "file %c contains the line \"%.60s\", which is no log", "ABC"[f], l.text.c_str());
                MC_CHECK(l.text == std::string(w.log[id].expect) + (gen == 2 ? "#2" : ""), "log %d was written as \"%.60s\" instead of \"%.60s\"", id, l.text.c_str(), w.log[id].expect);
                MC_CHECK(w.log[id].file == f, "log %d for file %c is in file %c", id, "ABC"[w.log[id].file], "ABC"[f]);
                MC_CHECK(!seen[id]++, "log %d was written twice", id);
                MC_CHECK(!w.log[id].filtered, "log %d below the level was written", id);
                int call = find(CALL, id);
                if (gen == 1) MC_CHECK(!(find(SETW, 0) >= 0 && find(SETW, 0) < call), "log %d was written by a writer replaced before it was made", id);
                if (gen == 2) MC_CHECK(find(SETWC, 0) >= 0 && find(SETWC, 0) < find(WRITE, id), "log %d was written by a writer never installed", id);
                ids.push_back(id);
            }
            for (size_t i = 0; i < ids.size(); ++i) for (size_t j = i + 1; j < ids.size(); ++j)
                MC_CHECK(!(find(RET, ids[j]) >= 0 && find(RET, ids[j]) < find(CALL, ids[i])), "log %d was made after log %d had returned but precedes it in file %c", ids[i], ids[j], "ABC"[f]);
        }
        int missing = 0;
        for (int i = 0; i < w.n; ++i)
        {
            Log& l = w.log[i];
            if (seen[i] || l.filtered) continue;
            int lv = find(LEVELC, 0);
            if (lv >= 0 && lv < find(RET, i)) { ++discards_possible; continue; }      // the level was being changed
            ++missing;
        }
        if (all)
        {
            if (!w.limited) MC_CHECK(missing == 0, "%d accepted logs are in no file (first: %d)", missing, first_missing(seen));
            else if (!w.resets && !discards_possible) MC_CHECK((long)missing == (long)w.discarded_end, "%d logs are missing but %ld discards were counted", missing, (long)w.discarded_end);
        }
        std::uint64_t h = 17;
        for (int i = 0; i < mc::ev_count(); ++i) if (mc::ev_at(i).kind == WRITE || mc::ev_at(i).kind == RET) h = h * 1000003 + mc::ev_at(i).a * 8 + mc::ev_at(i).kind;
        mc::outcome(h);
    }
    // nobody can run: everything that reached the flush size must be in the files
    void judge_settled()
    {
        mc::Untracked u;
        if (w.limited) return;
        for (int f = 0; f < 3; ++f)
        {
            int lines = (int)read_lines(path(f)).size(), made = 0;
            for (int i = 0; i < w.n; ++i) if (w.log[i].file == f && !w.log[i].filtered && find(RET, i) >= 0) ++made;
            int pending = made - lines;
            MC_CHECK(pending == 0 || (pending > 0 && (std::size_t)pending < w.lg->buffer_flush_size()),
                "%d logs of file %c wait although the flush size is %zu and nothing else will happen", pending, "ABC"[f], w.lg->buffer_flush_size());
        }
    }

    // ---------------------------------------------------------------------------------------------- script interpreter
    pluto::log_level pick_level(int i)
    {
        static const pluto::log_level l[] = { pluto::log_level::info, pluto::log_level::fatal, pluto::log_level::warning, pluto::log_level::critical, pluto::log_level::notice, pluto::log_level::error };
        return l[i % 6];
    }
    pluto::log_level next_level() { mc::Untracked u; return pick_level(w.n); }
    void step(char c)
    {
        switch (c)
        {
            case 'a': case 'b': case 'c': do_log(c - 'a', 0, next_level()); break;
            case 'f': do_log(0, 1, next_level()); break;
            case 'F': do_log(0, 2, next_level()); break;
            case 's': do_log(0, 3, next_level()); break;
            case 'm': do_log(0, 4, next_level()); break;
            case 'M': do_log(1, 7, next_level()); break;
            case 'v': do_log(0, 0, pluto::log_level::verbose); break;
            case '0': case '1': case '2': case '3': case '4':
            {
                logger& r = w.lg->buffer_flush_size(c - '0'); MC_CHECK(&r == w.lg, "setter does not return the logger"); break;
            }
            case '.': mc::quiesce(); judge_settled(); break;
            case ',': mc::quiesce(); break;
            case 'L': mc::ev(LEVELC, 0); w.lg->level(pluto::log_level::warning); break;
            case 'l': w.lg->level(pluto::log_level::info); break;
            case 'D': w.lg->create_dirs(true); break;
            case 'H': w.lg->write_header(false); break;
            case 'X': { { mc::Untracked u; w.limited = true; } w.lg->buffer_max_size(1); break; }
            case 'x': w.lg->buffer_max_size(0); break;
            case 'R': w.lg->file_rotation_size(100000); break;
            case 'K': w.lg->file_rotation_limit(3); break;
            case 'z': { { mc::Untracked u; w.resets = true; } w.lg->reset_num_discarded_logs(); break; }
            case 'W': mc::ev(SETWC, 0); w.lg->log_writer(writer2); mc::ev(SETW, 0); break;
            case 'G': w.lg->header_writer(header1); break;
            case 'g':
            {
                auto lv = w.lg->level(); (void)w.lg->create_dirs(); (void)w.lg->write_header(); auto fl = w.lg->buffer_flush_size(); auto mx = w.lg->buffer_max_size();
                (void)w.lg->file_rotation_size(); (void)w.lg->file_rotation_limit(); auto nd = w.lg->num_discarded_logs();
                MC_CHECK((lv == pluto::log_level::info || lv == pluto::log_level::warning) && fl <= 4 && mx <= 3 && nd <= 16 && w.lg->is_logging(), "a getter reports nonsense");
                MC_CHECK(w.lg->should_log(pluto::log_level::error) && !w.lg->should_log(pluto::log_level::debug), "should_log is wrong");
                break;
            }
            case 'o':
            {
                auto f = w.lg->log_writer(); auto h = w.lg->header_writer();
                MC_CHECK(f && h, "a writer getter returns nothing");
                break;
            }
            default: mc::fail("internal: letter %c", c);
        }
    }
    void script(const char* s) { for (; *s; ++s) step(*s); }

    void start(int flush, int max)
    {
        begin_world();
        w.lg->buffer_flush_size(flush);
        w.lg->buffer_max_size(max);
        w.limited = max != 0;
    }
    void destroy()
    {
        // the discard count may still change only through calls, and none is running
        w.discarded_end = w.lg->num_discarded_logs();
        delete w.lg; w.lg = nullptr;
        MC_CHECK(mc::live_threads() == 1, "a thread of the logger outlives it");
    }
    void run(int arg)
    {
        Sc& s = table[arg];
        start(s.flush, s.max);
        {
            std::vector<std::thread> ts;
            for (auto& t : s.th) ts.emplace_back([&t] { script(t.c_str()); });
            script(s.main.c_str());
            for (auto& t : ts) t.join();
        }
        script(s.tail.c_str());
        destroy();
        judge(true);
    }
    mc::Opt D(int qd, int td) { mc::Opt o; o.quick.preempt = o.thorough.preempt = 0; o.quick.delay = qd; o.thorough.delay = td; o.quick.max_s = 60; o.quick.max_exec = 5000000; o.thorough.max_s = 200; o.thorough.max_exec = 30000000; return o; }
    // longer scripts: every execution with up to that many deviations from the round-robin schedule, preemptions among them
    mc::Opt E(int qd, int td) { mc::Opt o = D(qd, td); o.quick.preempt = qd; o.thorough.preempt = td; return o; }
    mc::Opt O(int qp, int tp, int spur = 0, double ts = 100)
    {
        if (qp) { qp += 1; tp += 2; }
        mc::Opt o; o.quick.preempt = qp; o.thorough.preempt = tp; o.quick.spurious = spur; o.thorough.spurious = spur; o.quick.time = o.thorough.time = 1;
        o.quick.max_s = 20; o.quick.max_exec = 3000000; o.thorough.max_s = ts; o.thorough.max_exec = 30000000;
        return o;
    }
    void add(const char* prop, mc::Opt o, int flush, const char* main, std::vector<std::string> th, const char* tail = "", int max = 0)
    {
        int i = (int)table.size();
        table.push_back({ flush, max, main, th, tail });
        std::string n = "flush" + std::to_string(flush) + (max ? "-max" + std::to_string(max) : "") + "-" + main;
        for (auto& t : th) n += "-" + t;
        if (*tail) n += std::string("-then-") + tail;
        if (o.quick.spurious) n += "-spurious";
        for (auto& c : n) { if (c == '.') c = '='; if (c == ',') c = '_'; }
        mc::scenario(prop, n.c_str(), o, run, i);
    }

    // ---------------------------------------------------------------------------------------------- L05, settled after every call
    // exact reference: a file's buffer holds what was accepted and not yet flushed
    void limit_model(int arg)
    {
        int steps = arg & 15; bool limits_change = arg & 16;
        int max = limits_change ? arg >> 5 : mc::choose(4, "buffer limit"), flush = mc::choose(5, "flush size");
        start(flush, max);
        int lv = limits_change ? max : mc::choose(6, "level");
        w.limited = true;                              // judge by the count
        long disc = 0; std::vector<int> buf[2], disk[2];
        for (int k = 0; k < steps; ++k)
        {
            int op = mc::choose(limits_change ? 8 : 2, "operation");
            if (op < 2)
            {
                int id = do_log(op, limits_change && mc::choose(2, "form") ? 3 : k % 2, pick_level(limits_change ? lv + k : lv));
                mc::quiesce();
                mc::Untracked u;
                if (max == 0 || (int)buf[op].size() < max)
                {
                    buf[op].push_back(id);
                    if ((int)buf[op].size() >= flush) for (int f = 0; f < 2; ++f) if (!buf[f].empty() && (int)buf[f].size() >= flush) { disk[f].insert(disk[f].end(), buf[f].begin(), buf[f].end()); buf[f].clear(); }
                }
                else { ++disc; w.log[id].filtered = true; }
            }
            else if (op == 2) { max = 1; w.lg->buffer_max_size(1); }
            else if (op == 3) { max = 3; w.lg->buffer_max_size(3); }
            else if (op == 4) { max = 0; w.lg->buffer_max_size(0); }
            else if (op == 5) { disc = 0; w.lg->reset_num_discarded_logs(); }
            else
            {
                flush = op == 6 ? 2 : 4; w.lg->buffer_flush_size(flush); mc::quiesce();
                mc::Untracked u;
                for (int f = 0; f < 2; ++f) if (!buf[f].empty() && (int)buf[f].size() >= flush) { disk[f].insert(disk[f].end(), buf[f].begin(), buf[f].end()); buf[f].clear(); }
            }
            MC_CHECK((long)w.lg->num_discarded_logs() == disc, "%zu discards counted, %ld logs found their buffer full (limit %d, flush size %d)", w.lg->num_discarded_logs(), disc, max, flush);
            for (int f = 0; f < 2; ++f) MC_CHECK(disk_ids(f) == disk[f], "file %c does not hold exactly what has been flushed (limit %d, flush size %d)", "AB"[f], max, flush);
        }
        destroy();
        for (int f = 0; f < 2; ++f)
        {
            mc::Untracked u;
            disk[f].insert(disk[f].end(), buf[f].begin(), buf[f].end());
            MC_CHECK(disk_ids(f) == disk[f], "file %c does not hold exactly the accepted logs after destruction", "AB"[f]);
        }
        w.resets = true;
        judge(true);
    }
    // concurrent: counting, and no discard without a reason, from conservative bounds on the buffer
    void limit_live(int arg)
    {
        Sc& s = table[arg];
        start(s.flush, s.max);
        std::vector<std::thread> ts;
        for (auto& t : s.th) ts.emplace_back([&t] { script(t.c_str()); });
        script(s.main.c_str());
        for (auto& t : ts) t.join();
        script(s.tail.c_str());
        destroy();
        judge(true);
        mc::Untracked u;
        for (int f = 0; f < 3; ++f)
        {
            std::vector<int> got = disk_ids(f);
            std::vector<char> acc(w.n, 0);
            for (int id : got) acc[id] = 1;
            // never more than the limit certainly waiting: accepted and returned, but the writer has not even begun with it
            for (int e = 0; e < mc::ev_count(); ++e)
            {
                int waiting = 0;
                for (int id : got) { int r = find(RET, id), wr = find(WRITE, id); if (r >= 0 && r <= e && (wr < 0 || wr > e)) ++waiting; }
                MC_CHECK(waiting <= s.max, "%d logs of file %c wait although the limit is %d", waiting, "ABC"[f], s.max);
            }
            // a discard needs a full buffer: enough accepted logs that could have been in it
            for (int id = 0; id < w.n; ++id) if (w.log[id].file == f && !acc[id])
            {
                int call = find(CALL, id), ret = find(RET, id), could = 0;
                int q = -1; for (int e = 0; e < call; ++e) if (mc::ev_at(e).kind == QUIET) q = e;
                for (int o : got)
                {
                    if (find(CALL, o) > ret) continue;
                    if (q >= 0 && find(WRITE, o) >= 0 && find(WRITE, o) < q) continue;   // gone for certain
                    ++could;
                }
                MC_CHECK(could >= s.max, "log %d was discarded although at most %d logs of file %c can have been waiting (limit %d)", id, could, "ABC"[f], s.max);
            }
        }
    }
    void addl(mc::Opt o, int flush, int max, const char* main, std::vector<std::string> th, const char* tail = "")
    {
        int i = (int)table.size();
        table.push_back({ flush, max, main, th, tail });
        std::string n = "limit-flush" + std::to_string(flush) + "-max" + std::to_string(max) + "-" + main;
        for (auto& t : th) n += "-" + t;
        if (*tail) n += std::string("-then-") + tail;
        for (auto& c : n) { if (c == '.') c = '='; if (c == ',') c = '_'; }
        mc::scenario("L05", n.c_str(), o, limit_live, i);
    }

    // ---------------------------------------------------------------------------------------------- L04
    int evaluated;
    int touch(int v) { ++evaluated; return v; }
    const char* touch(const char* s) { ++evaluated; return s; }
    const pluto::log_level levels[] = { pluto::log_level::verbose, pluto::log_level::trace, pluto::log_level::debug, pluto::log_level::info, pluto::log_level::notice,
        pluto::log_level::warning, pluto::log_level::error, pluto::log_level::critical, pluto::log_level::fatal, pluto::log_level::off };

    struct Seen { std::string msg, file, func; int line; pluto::log_level level; std::size_t tid; long long t; };
    std::vector<Seen>* seen;
    void capture(std::ostream& os, const pluto::log_entry& e)
    {
        mc::Untracked u;
        seen->push_back({ e.message, e.source.file, e.source.function, e.source.line, e.level, e.thread_id, std::chrono::duration_cast<std::chrono::nanoseconds>(e.time.time_since_epoch()).count() });
        os << e.message;
    }
    // the macros need a literal level
    template<class F> void with_level(int i, F f)
    {
        f(levels[i]);
    }
    #define ALL_LEVELS(X) switch (lvl) { case 0: X(verbose); break; case 1: X(trace); break; case 2: X(debug); break; case 3: X(info); break; case 4: X(notice); break; \
        case 5: X(warning); break; case 6: X(error); break; case 7: X(critical); break; case 8: X(fatal); break; default: X(off); break; }

    // every level of the logger x every level of the log x every form: recorded iff at or above, arguments evaluated iff so, everything faithful
    void levels_forms(int)
    {
        begin_world();
        std::vector<Seen> sv; seen = &sv; evaluated = 0;
        w.lg->log_writer(capture);
        int set = mc::choose(10, "logger level"), lvl = mc::choose(9, "log level"), form = mc::choose(8, "form");
        bool other = mc::choose(2, "thread");
        w.lg->level(levels[set]);
        MC_CHECK(w.lg->level() == levels[set], "the level getter does not return the level");
        MC_CHECK(w.lg->should_log(levels[lvl]) == (lvl >= set), "should_log(%d) at level %d", lvl, set);
        std::string f = path(0); int line = 0; std::size_t tid = 0; long long t0 = 0; bool macro = form >= 4;
        auto act = [&]
        {
            tid = pluto::thread_id(); t0 = mc::real_base_ns() + mc::now();
            logger& L = *w.lg;
            pluto::source_info si{ "some/file.cpp", 42, "a_function" }; line = 42;
            switch (form)
            {
                case 0: L.write(f, levels[lvl], si, "hello 7 w"); break;
                case 1: L.writef(f, levels[lvl], si, "%s %d %c", "hello", 7, 'w'); break;
                case 2: L.format(f, levels[lvl], si, "{} {} {}", "hello", 7, 'w'); break;
                case 3: { auto s = L.stream(f, levels[lvl], si); s << "hello " << 7 << ' ' << 'w'; break; }
                #define X(l) line = __LINE__; PLUTO_LOG_WRITE_WITH(L, f, l, std::string(touch("hello 7 w")))
                case 4: ALL_LEVELS(X) break;
                #undef X
                #define X(l) line = __LINE__; PLUTO_LOG_WRITEF_WITH(L, f, l, "%s %d %c", touch("hello"), 7, 'w')
                case 5: ALL_LEVELS(X) break;
                #undef X
                #define X(l) line = __LINE__; PLUTO_LOG_FORMAT_WITH(L, f, l, "{} {} {}", touch("hello"), 7, 'w')
                case 6: ALL_LEVELS(X) break;
                #undef X
                #define X(l) line = __LINE__; PLUTO_LOG_STREAM_WITH(L, f, l, touch("hello") << ' ' << 7 << " w")
                case 7: ALL_LEVELS(X) break;
                #undef X
            }
        };
        if (other) { std::thread t(act); t.join(); } else act();
        delete w.lg; w.lg = nullptr;
        mc::Untracked u;
        bool rec = lvl >= set;
        MC_CHECK((int)sv.size() == (rec ? 1 : 0), "a log of level %d was recorded %zu times by a logger of level %d (form %d)", lvl, sv.size(), set, form);
        if (macro) MC_CHECK(evaluated == (rec ? 1 : 0), "the arguments were evaluated %d times for a log of level %d and a logger of level %d (form %d)", evaluated, lvl, set, form);
        MC_CHECK(slurp(f) == (rec ? "hello 7 w\n" : ""), "the file holds \"%.60s\" (form %d)", slurp(f).c_str(), form);
        if (!rec) { mc::outcome(set * 100 + lvl * 10 + form); return; }
        Seen& s = sv[0];
        MC_CHECK(s.msg == "hello 7 w" && s.level == levels[lvl] && s.tid == tid && s.t == t0 && s.line == line, "the entry has message \"%s\" level %d thread %zu line %d, expected level %d thread %zu line %d (form %d)",
            s.msg.c_str(), (int)s.level, s.tid, s.line, (int)levels[lvl], tid, line, form);
        MC_CHECK(macro ? (s.file == __FILE__ && s.func == "operator()") : (s.file == "some/file.cpp" && s.func == "a_function"), "the entry has source %s %s (form %d)", s.file.c_str(), s.func.c_str(), form);
        mc::outcome(set * 100 + lvl * 10 + form);
    }
    // messages of every kind in every form
    void messages(int)
    {
        begin_world();
        std::vector<Seen> sv; seen = &sv;
        w.lg->log_writer(capture);
        std::string m; int k = mc::choose(45, "message"), form = mc::choose(7, "form"), n = 1 + mc::choose(2, "repeat");
        {
            static const int lens[] = { 0, 1, 2, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1023, 1024, 1025, 2047, 2048, 2049, 4095, 4096, 4097, 8191, 8192, 8193, 16384, 20000, 32767, 32768, 65535, 65536, 65537, 70000 };
            static_assert(sizeof lens / sizeof *lens == 41, "");
            if (k < 41) for (int i = 0; i < lens[k]; ++i) m += (char)('a' + i % 26);
            else if (k == 41) m = "100% sure %s %n %d";
            else if (k == 42) m = "two\nlines\tand \\ {braces} {}";
            else if (k == 43) m = "\xC3\xA4\xE2\x82\xAC\xF0\x9F\x98\x80\xFF";
            else { m = "zero"; m += '\0'; m += "inside"; }
        }
        bool nul = k == 44; std::string expect = m;
        if (nul && form != 0 && form != 3 && form != 6) expect = "zero";
        std::string f = path(0);
        pluto::source_info si{ "x.cpp", 1, "f" };
        for (int i = 0; i < n; ++i)
        {
            logger& L = *w.lg;
            switch (form)
            {
                case 0: L.write(f, pluto::log_level::info, si, m); break;
                case 1: L.writef(f, pluto::log_level::info, si, "%s", m.c_str()); break;
                case 2: { if (m.empty()) { const char* e = ""; L.writef(f, pluto::log_level::info, si, e); } else if (m.find('%') == std::string::npos) L.writef(f, pluto::log_level::info, si, m.c_str()); else L.writef(f, pluto::log_level::info, si, "%s", m.c_str()); break; }
                case 3: L.stream(f, pluto::log_level::info, si) << m; break;
                case 4: { auto s = L.stream(f, pluto::log_level::info, si); s << m.c_str(); s.end(); s.end(); break; }
                case 5: PLUTO_LOG_WRITEF_WITH(L, f, info, "%s%s", m.substr(0, m.size() / 2).c_str(), m.c_str() + std::min(std::strlen(m.c_str()), m.size() / 2)); break;
                case 6: L.format(f, pluto::log_level::info, si, "{}", m); break;
            }
        }
        delete w.lg; w.lg = nullptr;
        mc::Untracked u;
        MC_CHECK((int)sv.size() == n, "%d logs made, %zu recorded (form %d)", n, sv.size(), form);
        std::string all;
        for (auto& s : sv) { MC_CHECK(s.msg == expect, "a message of %zu bytes \"%.40s\" was recorded as %zu bytes \"%.40s\" (form %d)", expect.size(), expect.c_str(), s.msg.size(), s.msg.c_str(), form); all += expect + "\n"; }
        MC_CHECK(slurp(f) == all, "the file differs from the messages made (form %d)", form);
        mc::outcome(k * 10 + form);
    }
    // printf-style and stream-style arguments denote what vsnprintf and an ostream make of them
    void arguments(int)
    {
        begin_world();
        std::vector<Seen> sv; seen = &sv;
        w.lg->log_writer(capture);
        std::string f = path(0); logger& L = *w.lg; pluto::source_info si{ "x.cpp", 1, "f" };
        int k = mc::choose(12, "arguments"); std::string expect;
        switch (k)
        {
            case 0: L.writef(f, pluto::log_level::error, si, "%d %u %ld %llx", -5, 7u, -123456789012L, 0xabcdefULL); expect = "-5 7 -123456789012 abcdef"; break;
            case 1: L.writef(f, pluto::log_level::error, si, "%5.2f|%-6s|%06d|%%", 3.14159, "ab", 42); expect = " 3.14|ab    |000042|%"; break;
            case 2: L.writef(f, pluto::log_level::error, si, "%*s|%.*s", 5, "x", 2, "abcdef"); expect = "    x|ab"; break;
            case 3: L.writef(f, pluto::log_level::error, si, "%1$s %1$s", "twice"); expect = "twice twice"; break;
            case 4: L.writef(f, pluto::log_level::error, si, "%s%s", "", ""); expect = ""; break;
            case 5: L.writef(f, pluto::log_level::error, si, "%300d", 1); expect = std::string(299, ' ') + "1"; break;
            case 6: L.stream(f, pluto::log_level::error, si) << 1 << ' ' << 2.5 << ' ' << true << ' ' << 'c' << std::string(" s"); expect = "1 2.5 1 c s"; break;
            case 7: { auto s = L.stream(f, pluto::log_level::error, si); expect = ""; break; }
            case 8: L.format(f, pluto::log_level::error, si, "{:>4}|{:x}|{}", 7, 255, std::string("s")); expect = "   7|ff|s"; break;
            case 9: L.format(f, pluto::log_level::error, si, ""); expect = ""; break;
            case 10: { auto s = L.stream(f, pluto::log_level::error, si); s << "a"; s.end(); s << "b"; expect = "a"; break; }
            case 11: L.writef(f, pluto::log_level::error, si, "%c%c", 'x', 'y'); expect = "xy"; break;
        }
        delete w.lg; w.lg = nullptr;
        mc::Untracked u;
        MC_CHECK(sv.size() == 1 && sv[0].msg == expect, "arguments %d: expected one log \"%s\", recorded %zu, first \"%s\"", k, expect.c_str(), sv.size(), sv.empty() ? "" : sv[0].msg.c_str());
        mc::outcome(k);
    }
    // the default writers
    void defaults(int)
    {
        begin_world(true);
        std::string f = path(0); logger& L = *w.lg;
        int lvl = mc::choose(9, "log level"), hdr = mc::choose(2, "header"), fn = mc::choose(3, "file name"), ln = mc::choose(3, "line"), t = mc::choose(2, "time");
        static const char* files[] = { "a.cpp", "dir/some_name_longer_than_twenty.cpp", "c:\\x\\y.cpp" };
        static const char* names[] = { "a.cpp", "some_name_longer_than_twenty.cpp", "y.cpp" };
        static const int lines[] = { 1, 99999, 1234567 };
        L.write_header(hdr != 0);
        mc::quiesce();
        if (t) mc::quiesce_until(1234567000);
        long long now = mc::real_base_ns() + mc::now();
        std::size_t tid = pluto::thread_id();
        L.write(f, levels[lvl], { files[fn], lines[ln], "function" }, "the message");
        delete w.lg; w.lg = nullptr;
        mc::Untracked u;
        std::vector<Line> ls = read_lines(f);
        MC_CHECK(ls.size() == (hdr ? 3u : 1u), "%zu lines in the file", ls.size());
        if (hdr)
        {
            std::ostringstream os; logger::default_header_writer(os); std::string h = os.str();
            MC_CHECK(ls[0].text + "\n" + ls[1].text == h && h.find("Timestamp") == 0 && h.find("Level") != std::string::npos && h.find("|Message") != std::string::npos, "the header is \"%s\"", ls[0].text.c_str());
        }
        // Timestamp|TID|Level|File|Line|Function|Message, each field padded
        std::vector<std::string> fld; std::string cur;
        for (char c : ls.back().text) if (c == '|' && fld.size() < 6) { fld.push_back(cur); cur.clear(); } else cur += c;
        fld.push_back(cur);
        for (auto& x : fld) { while (!x.empty() && x.back() == ' ') x.pop_back(); while (!x.empty() && x[0] == ' ') x.erase(0, 1); }
        std::time_t secs = now / 1000000000; std::tm tmv{}; localtime_r(&secs, &tmv);
        char ts[64], us[16]; std::strftime(ts, sizeof ts, "%Y-%m-%d %H:%M:%S.", &tmv); std::snprintf(us, sizeof us, "%06lld", now / 1000 % 1000000);
        static const char* titles[] = { "Verbose", "Trace", "Debug", "Info", "Notice", "Warning", "Error", "Critical", "Fatal" };
        MC_CHECK(fld.size() == 7 && fld[0] == std::string(ts) + us && fld[1] == std::to_string(tid) && fld[2] == titles[lvl] && fld[3] == std::string(names[fn]).substr(0, 20)
            && fld[4] == std::to_string(lines[ln]) && fld[5] == "function" && fld[6] == "the message", "the line is \"%s\"", ls.back().text.c_str());
        static const char* lower[] = { "verbose", "trace", "debug", "info", "notice", "warning", "error", "critical", "fatal" };
        static const char* shrt[] = { "VRB", "TRC", "DBG", "INF", "NTC", "WRN", "ERR", "CRT", "FTL" };
        MC_CHECK(!strcmp(pluto::log_level_to_c_str(levels[lvl]), lower[lvl]) && !strcmp(pluto::log_level_to_shortened(levels[lvl]), shrt[lvl]) && pluto::log_level_to_char(levels[lvl]) == titles[lvl][0], "names of level %d", lvl);
        mc::outcome(lvl * 100 + hdr * 50 + fn * 9 + ln * 3 + t);
    }
    // the level is judged at the moment of the call: all sequences of settings and logs
    void level_history(int arg)
    {
        begin_world();
        w.lg->level(pluto::log_level::verbose);
        int cur = 0; std::vector<int> want;
        for (int k = 0; k < arg; ++k)
        {
            int op = mc::choose(6, "operation");
            if (op < 3) { static const int lv[] = { 0, 5, 9 }; cur = lv[op]; w.lg->level(levels[cur]); }
            else
            {
                static const int lv[] = { 0, 5, 8 }; int l = lv[op - 3];
                int id = do_log(0, k % 2 ? 3 : 0, levels[l]);
                w.log[id].filtered = l < cur;
                if (l >= cur) want.push_back(id);
            }
        }
        destroy();
        mc::Untracked u;
        MC_CHECK(disk_ids(0) == want, "the file does not hold exactly the logs that passed the level when they were made");
    }

    // ---------------------------------------------------------------------------------------------- many logs
    const int sizes[] = { 15, 16, 17, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 300, 511, 512, 513, 1000 };
    const int flushes[] = { 0, 1, 2, 16, 50, 63, 64, 65, 100, 255, 256, 257, 300, 512, 1000, 1024, 2000 };
    std::string name_of(int f) { mc::Untracked u; return std::string(mc::scratch_dir()) + "/d/many" + std::to_string(f) + ".log"; }
    // L01, L02: hundreds of logs to one or many files at these flush sizes; nothing lost, in order, and never `flush` of them waiting
    void many_logs(int kind)
    {
        int n = sizes[mc::choose(18, "logs")], flush = flushes[mc::choose(17, "flush size")], files = (int[]){ 1, 3, 40 }[mc::choose(3, "files")];
        begin_world(); w.lg->buffer_flush_size(flush);
        std::vector<std::vector<int>> want(files);
        pluto::source_info si{ "x.cpp", 1, "f" };
        w.lg->log_writer([](std::ostream& os, const pluto::log_entry& e) { os << e.message; });
        std::vector<std::string> names; for (int f = 0; f < files; ++f) names.push_back(name_of(f));
        auto settled = [&](bool end)
        {
            mc::Untracked u;
            for (int f = 0; f < files; ++f)
            {
                std::vector<Line> ls = read_lines(names[f]);
                MC_CHECK(ls.size() <= want[f].size(), "file %d holds %zu lines, %zu logs were made", f, ls.size(), want[f].size());
                for (size_t i = 0; i < ls.size(); ++i) MC_CHECK(ls[i].whole && ls[i].text == "m" + std::to_string(want[f][i]), "line %zu of file %d is \"%.40s\" instead of \"m%d\" (%d logs, flush size %d)", i, f, ls[i].text.c_str(), want[f][i], n, flush);
                size_t pend = want[f].size() - ls.size();
                MC_CHECK(pend == 0 || (!end && pend < (size_t)flush), "%zu logs of file %d %s (%d logs in %d files, flush size %d)", pend, f, end ? "are lost" : "wait although nothing else will happen", n, files, flush);
            }
        };
        for (int i = 0; i < n; ++i)
        {
            int f = kind == 0 ? i % files : i * 7 / 3 % files;
            { mc::Untracked u; want[f].push_back(i); }
            if (i % 3 == 2) w.lg->stream(names[f], pluto::log_level::info, si) << "m" << i; else w.lg->write(names[f], pluto::log_level::info, si, "m" + std::to_string(i));
            if (i == n / 2) { mc::quiesce(); settled(false); }
        }
        mc::quiesce(); settled(false);
        delete w.lg; w.lg = nullptr;
        settled(true);
        mc::outcome(n * 100000 + flush * 10 + files);
    }
    // L01: many threads
    void many_threads(int)
    {
        int threads = (int[]){ 4, 8, 20 }[mc::choose(3, "threads")], n = (int[]){ 5, 20 }[mc::choose(2, "logs per thread")], flush = (int[]){ 0, 1, 7, 64, 1000 }[mc::choose(5, "flush size")];
        begin_world(); w.lg->buffer_flush_size(flush);
        w.lg->log_writer([](std::ostream& os, const pluto::log_entry& e) { os << e.message; });
        pluto::source_info si{ "x.cpp", 1, "f" };
        std::string f = name_of(0);
        {
            std::vector<std::thread> ts;
            for (int t = 0; t < threads; ++t) ts.emplace_back([&, t] { for (int i = 0; i < n; ++i) { w.lg->write(f, pluto::log_level::info, si, std::to_string(t) + "/" + std::to_string(i)); mc::point(); } });
            for (auto& t : ts) t.join();
        }
        delete w.lg; w.lg = nullptr;
        mc::Untracked u;
        std::vector<int> next(threads, 0);
        std::vector<Line> ls = read_lines(f);
        MC_CHECK((int)ls.size() == threads * n, "%d logs made, %zu in the file", threads * n, ls.size());
        for (auto& l : ls)
        {
            int t = -1, i = -1; std::sscanf(l.text.c_str(), "%d/%d", &t, &i);
            MC_CHECK(t >= 0 && t < threads && i == next[t]++, "the line \"%.40s\" is out of order", l.text.c_str());
        }
    }
    // L03: destruction with many logs waiting, in many files
    void many_pending(int)
    {
        int n = sizes[mc::choose(18, "logs")], files = (int[]){ 1, 2, 65, 257 }[mc::choose(4, "files")];
        begin_world(); w.lg->buffer_flush_size(5000);
        w.lg->log_writer([](std::ostream& os, const pluto::log_entry& e) { os << e.message; });
        pluto::source_info si{ "x.cpp", 1, "f" };
        for (int i = 0; i < n; ++i) w.lg->write(name_of(i % files), pluto::log_level::info, si, "m" + std::to_string(i));
        delete w.lg; w.lg = nullptr;
        MC_CHECK(mc::live_threads() == 1, "a thread of the logger outlives it");
        mc::Untracked u;
        for (int f = 0; f < files; ++f)
        {
            std::string s; for (int i = f; i < n; i += files) s += "m" + std::to_string(i) + "\n";
            MC_CHECK(slurp(name_of(f)) == s, "file %d of %d does not hold its logs after destruction with %d logs waiting", f, files, n);
        }
        mc::outcome(n * 1000 + files);
    }
    // L05: larger limits: exactly the first `max` of a file are accepted while nothing is flushed
    void many_limits(int)
    {
        int n = sizes[mc::choose(18, "logs")], max = flushes[mc::choose(17, "limit")], files = 1 + mc::choose(2, "files"), big = mc::choose(2, "flush");
        begin_world(); w.lg->buffer_max_size(max).buffer_flush_size(big ? 5000 : max ? max : 3);
        w.lg->log_writer([](std::ostream& os, const pluto::log_entry& e) { os << e.message; });
        pluto::source_info si{ "x.cpp", 1, "f" };
        long disc = 0; std::vector<std::string> want(files); std::vector<int> in(files, 0);
        if (!big) { mc::Untracked u; }
        for (int i = 0; i < n; ++i)
        {
            int f = i % files;
            w.lg->write(name_of(f), pluto::log_level::info, si, "m" + std::to_string(i));
            if (!big) mc::quiesce();
            mc::Untracked u;
            if (max && in[f] >= max) ++disc;
            else
            {
                want[f] += "m" + std::to_string(i) + "\n"; ++in[f];
                if (!big && in[f] >= (max ? max : 3)) in[f] = 0;     // flushed
            }
        }
        MC_CHECK((long)w.lg->num_discarded_logs() == disc, "%zu discards counted, %ld logs found their buffer full (%d logs, limit %d)", w.lg->num_discarded_logs(), disc, n, max);
        delete w.lg; w.lg = nullptr;
        mc::Untracked u;
        for (int f = 0; f < files; ++f) MC_CHECK(slurp(name_of(f)) == want[f], "file %d does not hold exactly the accepted logs (%d logs, limit %d)", f, n, max);
        mc::outcome(n * 10000 + max);
    }
    // more discards than a narrow counter can hold, spread over the files; then the same logs again are all kept
    void many_discards(int n)
    {
        int files = 1 + mc::choose(2, "files");
        begin_world(); w.lg->buffer_max_size(1).buffer_flush_size(2);
        w.lg->log_writer([](std::ostream& os, const pluto::log_entry& e) { os << e.message; });
        pluto::source_info si{ "x.cpp", 1, "f" };
        for (int i = 0; i < n; ++i)
        {
            w.lg->write(name_of(i % files), pluto::log_level::info, si, "m");
            int want = i < files ? 0 : i + 1 - files;
            if ((i & 255) == 0 || i > n - 600) MC_CHECK((long)w.lg->num_discarded_logs() == want, "%zu discards counted, %d logs found their buffer full", w.lg->num_discarded_logs(), want);
        }
        delete w.lg; w.lg = nullptr;
        mc::Untracked u;
        for (int f = 0; f < files; ++f) MC_CHECK(slurp(name_of(f)) == "m\n", "file %d does not hold exactly the accepted log", f);
        mc::outcome(files);
    }
    // settings at the ends of their type
    void extremes(int what)
    {
        static const std::size_t ext[] = { 1u << 31, 0xffffffffu, 1ull << 32, (1ull << 32) + 1, (1ull << 32) + 2, 1ull << 63, ~0ull - 1, ~0ull };
        std::size_t e = ext[mc::choose(8, "setting")]; int n = 1 + mc::choose(5, "logs"), lower = mc::choose(4, "lowered to");
        begin_world();
        std::size_t flush = what == 5 ? (mc::choose(2, "flush size") ? 3 : e) : e, max = what == 5 ? e : mc::choose(2, "limit") ? ~0ull : 0;
        w.lg->buffer_flush_size(flush).buffer_max_size(max);
        w.lg->log_writer([](std::ostream& os, const pluto::log_entry& e) { os << e.message; });
        pluto::source_info si{ "x.cpp", 1, "f" };
        std::string want, got;
        for (int i = 0; i < n; ++i) { w.lg->write(name_of(0), pluto::log_level::info, si, "m"); mc::Untracked u; want += "m\n"; }
        mc::quiesce();
        if (lower)
        {
            w.lg->buffer_flush_size(lower); mc::quiesce();
            mc::Untracked u; got = slurp(name_of(0));
            MC_CHECK(n - (int)got.size() / 2 < lower, "%d of %d logs wait although the flush size was lowered from %zu to %d", n - (int)got.size() / 2, n, flush, lower);
        }
        MC_CHECK(w.lg->num_discarded_logs() == 0, "%zu of %d logs were discarded although a file may hold %zu", w.lg->num_discarded_logs(), n, max);
        delete w.lg; w.lg = nullptr;
        mc::Untracked u;
        MC_CHECK(slurp(name_of(0)) == want, "%d logs were made, the file holds \"%s\"", n, slurp(name_of(0)).c_str());
        mc::outcome(n * 10 + lower);
    }
    // more logs in one buffer than 16 bits can count: what = 1 all written in order, 2 written when the flush size is reached, 3 written by the
    // destructor, 5 accepted up to the limit
    void flood(int what)
    {
        const int N = 66100; int var = mc::choose(2, "variant");
        const int flush = what == 2 ? (var ? 65536 : 66000) : 70000, max = what == 5 ? (var ? 65536 : 66000) : 0;
        begin_world(); w.lg->buffer_flush_size(flush).buffer_max_size(max);
        MC_CHECK((int)w.lg->buffer_flush_size() == flush && (int)w.lg->buffer_max_size() == max, "the sizes set are not the sizes reported");
        w.lg->log_writer([](std::ostream& os, const pluto::log_entry& e) { os << e.message; });
        pluto::source_info si{ "x.cpp", 1, "f" };
        auto lines = [](int want, const char* when)
        {
            mc::Untracked u; std::string s = slurp(name_of(0)); size_t p = 0; int n = 0;
            for (; p < s.size(); ++n) { size_t e = s.find('\n', p); MC_CHECK(e != std::string::npos && s.compare(p, e - p, std::to_string(n)) == 0, "line %d is \"%.20s\"", n, s.c_str() + p); p = e + 1; }
            MC_CHECK(n == want, "the file holds %d lines %s and should hold %d", n, when, want);
        };
        for (int i = 0; i < N; ++i)
        {
            std::string m; { mc::Untracked u; m = std::to_string(i); }
            w.lg->write(name_of(0), pluto::log_level::info, si, m);
            if (what == 2 && (i == flush - 2 || i == flush - 1)) { mc::quiesce(); lines(i + 1 == flush ? flush : 0, "around the flush size"); }
        }
        mc::quiesce();
        if (what != 5) MC_CHECK((int)w.lg->num_discarded_logs() == 0, "logs were discarded");
        else MC_CHECK((int)w.lg->num_discarded_logs() == N - max, "%zu discards counted, %d logs found their buffer full", w.lg->num_discarded_logs(), N - max);
        if (what == 1 && var) { w.lg->buffer_flush_size(1); w.lg->write(name_of(0), pluto::log_level::info, si, "66100"); mc::quiesce(); lines(N + 1, "after the flush size was lowered"); }
        delete w.lg; w.lg = nullptr;
        lines(what == 5 ? max : what == 1 && var ? N + 1 : N, "in the end");
        mc::outcome(var);
    }
    // a writer may itself use the logger: each operation from within the log writer or the header writer, the first time it runs
    bool inner; char inner_op;
    void in_writer(int op)
    {
        begin_world();
        { mc::Untracked u; inner = true; inner_op = (char)op; }
        bool head = mc::choose(2, "writer") == 1; int flush = 1 + mc::choose(2, "flush size");
        w.lg->buffer_flush_size(flush).write_header(head);
        auto once = [] { bool x; { mc::Untracked u; x = inner; inner = false; } if (x) step(inner_op); };
        if (!head) w.lg->log_writer([once](std::ostream& os, const pluto::log_entry& e) { once(); writer1(os, e); });
        w.lg->header_writer([once, head](std::ostream& os) { if (head) once(); header1(os); });
        std::thread t([] { step('a'); });
        step('a'); step('b');
        t.join();
        mc::quiesce(); step('a'); step('b'); mc::quiesce();
        delete w.lg; w.lg = nullptr;
        mc::Untracked u;
        std::vector<int> seen(w.n, 0);
        for (int f = 0; f < 3; ++f) for (auto& l : read_lines(path(f)))
        {
            if (l.text == "HEADER" && head) continue;
            int gen, id = parse(l.text, &gen);
            MC_CHECK(l.whole && id >= 0 && id < w.n && w.log[id].file == f && l.text == std::string(w.log[id].expect) + (gen == 2 ? "#2" : ""), "file %c contains the line \"%.60s\"", "ABC"[f], l.text.c_str());
            ++seen[id];
        }
        for (int i = 0; i < w.n; ++i)
        {
            if (op == 'X' || op == 'L') { MC_CHECK(seen[i] <= 1, "log %d was written %d times", i, seen[i]); continue; }
            MC_CHECK(seen[i] == (w.log[i].filtered ? 0 : 1), "log %d was written %d times", i, seen[i]);
        }
    }
}

void mc_register()
{
    table.reserve(2000);
    setenv("TZ", "UTC", 1);
    // ---- L01
    add("L01", O(3, 5), 1, "aa", {});
    add("L01", O(2, 4), 1, "aaa", {});
    add("L01", O(2, 4), 1, "a", { "a" });
    add("L01", O(2, 3), 1, "aa", { "a" });
    add("L01", O(2, 3), 1, "ab", { "ba" });
    add("L01", O(2, 3), 2, "aa", { "a" });
    add("L01", O(2, 3), 2, "aab", { "b" });
    add("L01", O(2, 3), 3, "aa", { "aa" });
    add("L01", O(2, 3), 0, "aa", { "b" });
    add("L01", O(1, 2), 1, "a", { "a", "a" });
    add("L01", O(1, 2), 1, "ab", { "bc", "a" });
    add("L01", O(1, 2), 2, "aa", { "aa", "b" });
    add("L01", O(2, 3), 1, "fs", { "a" });
    add("L01", O(2, 3), 1, "sm", { "F" });
    add("L01", O(2, 3), 2, "a2a", { "a1" });
    add("L01", O(2, 3), 1, "a,aa", { "b" });
    add("L01", O(2, 3), 1, "a,b", { "c" }, "ab");
    add("L01", O(2, 3), 3, "aaa1", { "a" });
    add("L01", O(1, 2, 1), 1, "aa", { "a" });
    add("L01", O(1, 2, 1), 2, "ab", { "ab" });
    add("L01", O(1, 2), 1, "aaaa", { "bb" });
    add("L01", O(1, 1), 2, "aaaaaa", {});
    mc::scenario("L01", "many-logs", D(0, 1), many_logs, 0); mc::scenario("L01", "many-threads", D(1, 2), many_threads);
    // ---- L02
    mc::scenario("L02", "many-logs", D(0, 1), many_logs, 1);
    add("L02", O(3, 5), 1, "a.", {});
    add("L02", O(3, 4), 0, "a.b.", {});
    add("L02", O(3, 4), 2, "aa.", {});
    add("L02", O(2, 4), 2, "a.a.", {});
    add("L02", O(2, 4), 3, "aa1.", {});
    add("L02", O(3, 4), 2, "a,1.", {});
    add("L02", O(3, 4), 3, "ab1.", {});
    add("L02", O(2, 4), 2, "a", { "1" }, ".");
    add("L02", O(2, 4), 2, "a", { "0" }, ".");
    add("L02", O(2, 3), 3, "aa", { "2" }, ".");
    add("L02", O(2, 3), 3, "ab", { "1" }, ".");
    add("L02", O(2, 3), 2, "a", { "a" }, ".");
    add("L02", O(2, 3), 2, "ab", { "ba" }, ".");
    add("L02", O(2, 3), 1, "a", { "b" }, ".");
    add("L02", O(2, 3), 1, "aa", { "a" }, ".");
    add("L02", O(2, 3), 2, "a", { "3", "a" }, ".2.");
    add("L02", O(1, 2), 3, "a", { "a", "a" }, ".");
    add("L02", O(1, 2), 2, "ab", { "b", "1" }, ".");
    add("L02", O(2, 3), 4, "abc", { "1" }, ".");
    add("L02", O(2, 3), 2, "a", { "41" }, ".");
    add("L02", O(2, 3), 2, "aab", {}, ".1.");
    add("L02", O(1, 2, 1), 2, "a", { "a" }, ".");
    add("L02", O(1, 2, 1), 2, "a", { "1" }, ".");
    add("L02", O(2, 3), 2, "aaa.a.", {});
    add("L02", O(2, 3), 1, "s.f.", { "M" }, ".");
    add("L02", O(1, 2), 3, "aab.b", { "ab" }, ".1.");
    // ---- L03
    add("L03", O(4, 6), 1, "", {});
    add("L03", O(4, 5), 1, "a", {});
    add("L03", O(3, 5), 1, "aa", {});
    add("L03", O(3, 4), 1, "ab", {});
    add("L03", O(3, 4), 2, "a", {});
    add("L03", O(3, 4), 2, "aaa", {});
    add("L03", O(3, 4), 3, "aabc", {});
    add("L03", O(3, 4), 0, "ab", {});
    add("L03", O(2, 4), 1, "a", { "b" });
    add("L03", O(2, 3), 2, "ab", { "ab" });
    add("L03", O(2, 3), 3, "aa", { "aa" });
    add("L03", O(2, 3), 1, "a,a", {});
    add("L03", O(2, 3), 2, "a", { "1" });
    add("L03", O(2, 3), 3, "a1", { "b" });
    add("L03", O(2, 3), 1, "a", {}, ",");
    add("L03", O(2, 3), 2, "a,b", {}, ",");
    add("L03", O(2, 3, 1), 1, "a", {});
    add("L03", O(2, 3, 1), 2, "ab", {});
    add("L03", O(1, 2), 1, "a", { "b", "c" });
    add("L03", O(2, 3), 1, "aL", {});
    mc::scenario("L03", "many-pending", D(0, 1), many_pending);
    // ---- L04
    { mc::Opt o = O(0, 0, 0, 600); o.quick.max_s = 60;
      mc::scenario("L04", "levels-and-forms", o, levels_forms); mc::scenario("L04", "messages", o, messages); mc::scenario("L04", "arguments", O(0, 1), arguments);
      mc::scenario("L04", "default-writers", o, defaults); mc::scenario("L04", "level-history-4", o, level_history, 4); mc::scenario("L04", "level-history-5", o, level_history, 5); }
    add("L04", O(2, 3), 1, "v", { "a" });
    // ---- L05
    { mc::Opt o = O(0, 0, 0, 600); o.quick.max_s = 60;
      mc::scenario("L05", "model-5-logs", o, limit_model, 5); 
      static const char* nm[] = { "model-changing-from-0", "model-changing-from-1", "model-changing-from-2", "model-changing-from-3" }, *nq[] = { "model-changing-4-from-0", "model-changing-4-from-1", "model-changing-4-from-2", "model-changing-4-from-3" };
      for (int m = 0; m < 4; ++m) { mc::scenario("L05", nq[m], o, limit_model, 4 | 16 | m << 5); mc::scenario("L05", nm[m], o, limit_model, 5 | 16 | m << 5); } }
    addl(O(2, 4), 1, 1, "aa", {}); addl(O(2, 3), 1, 1, "a", { "a" }); addl(O(2, 3), 1, 1, "aa", { "a" }); addl(O(2, 3), 2, 2, "aa", { "aa" }); addl(O(2, 3), 1, 2, "aaa", {});
    addl(O(2, 3), 1, 1, "ab", { "ba" }); addl(O(2, 3), 2, 1, "aa", { "ab" }); addl(O(1, 2), 1, 1, "a", { "a", "a" }); addl(O(2, 3), 1, 1, "a,a", { "a" }, ",a");
    addl(O(2, 3), 1, 1, "s", { "f" }); addl(O(2, 3), 2, 3, "aaa", { "aa" }); addl(O(1, 2), 1, 2, "aa", { "ab", "b" }); addl(O(2, 3), 3, 2, "aaa", { "a" }); addl(O(2, 3), 1, 1, "aaa", {}, ",a");
    mc::scenario("L05", "many-limits", D(0, 1), many_limits);
    { mc::Opt o = D(0, 0); o.quick.max_steps = o.thorough.max_steps = 6000000; mc::scenario("L05", "many-discards", o, many_discards, 66100);
        const char* of[] = { "L01", "L02", "L03", "L05" }; for (const char* p : of) mc::scenario(p, "flood", o, flood, p[2] - '0'); }
    for (const char* p : { "L02", "L03", "L05" }) mc::scenario(p, "extremes", O(1, 2), extremes, p[2] - '0');
    // ---- longer scripts
    struct Long { int flush; const char* main; std::vector<std::string> th; };
    for (const Long& l : std::vector<Long>{
        { 2, "aab1b,a3ab", { "aba2", "bcf" } }, { 3, "abcabc,1", { "sFm2M", "cba" } }, { 1, "a,b,c,a", { "ab,c", "a2b1" } }, { 4, "aaaa0b", { "bbbb", "cc1" } }, { 2, "aaaaaa", { "aaa", "bba" } } })
    {
        add("L01", E(3, 4), l.flush, l.main, l.th); add("L02", E(3, 4), l.flush, l.main, l.th, "."); add("L03", E(3, 4), l.flush, l.main, l.th, "");
        std::string t0 = l.th[0], t1 = l.th[1];
        add("L09", E(3, 4), l.flush, ("gW" + std::string(l.main)).c_str(), { t0 + "goH", t1 + "LG" });
    }
    addl(E(3, 4), 2, 2, "aaa,aab", { "aba", "bba" }); addl(E(3, 4), 3, 1, "abab", { "ba", "a,a" });
    // ---- L09: all pairs of operations
    const char ops[] = "afsFm13LDHXRKzWGgo";
    for (int i = 0; ops[i]; ++i) for (int j = i; ops[j]; ++j)
    {
        std::string a(1, ops[i]), b(1, ops[j]);
        mc::Opt o = O(2, 3, 0, 40);
        add("L09", o, 1, a.c_str(), { b }, "a");
    }
    for (int i = 0; ops[i]; ++i) mc::scenario("L09", (std::string("in-writer-") + ops[i]).c_str(), O(1, 2), in_writer, ops[i]);
    for (const char* s : { "a|W|g", "a|1|X", "s|R|K", "a|H|G", "W|o|a", "a|L|W", "2|1|a", "f|F|s" })
    {
        std::string x = s;
        add("L09", O(1, 2), 1, ("a" + x.substr(0, 1)).c_str(), { x.substr(2, 1), x.substr(4, 1) }, "a");
    }
}
