// L11: a logger is configured by its macros and setters, and its getters tell how.
// Variants: defaults, INITIALS=mask (bit by bit the PLUTO_LOGGER_INITIAL_* macros below; all of them is 511), PLUTO_LOGGER_HIDE_SOURCE_INFO=1, SOURCE_ARGS (own source arguments).
#include "mc.hpp"
#include <ostream>
#include <string>
namespace cfg
{
    struct InitWriter { template<class E> void operator()(std::ostream& o, const E& e) const { o << "init:" << e.message; } };
    struct InitHeader { void operator()(std::ostream& o) const { o << "INIT"; } };
}
#ifndef INITIALS
#define INITIALS 0
#endif
#if INITIALS & 1
#define PLUTO_LOGGER_INITIAL_LEVEL warning
#endif
#if INITIALS & 2
#define PLUTO_LOGGER_INITIAL_CREATE_DIRS false
#endif
#if INITIALS & 4
#define PLUTO_LOGGER_INITIAL_WRITE_HEADER false
#endif
#if INITIALS & 8
#define PLUTO_LOGGER_INITIAL_BUFFER_MAX_SIZE 3
#endif
#if INITIALS & 16
#define PLUTO_LOGGER_INITIAL_BUFFER_FLUSH_SIZE 2
#endif
#if INITIALS & 32
#define PLUTO_LOGGER_INITIAL_FILE_ROTATION_SIZE 25
#endif
#if INITIALS & 64
#define PLUTO_LOGGER_INITIAL_FILE_ROTATION_LIMIT 1
#endif
#if INITIALS & 128
#define PLUTO_LOGGER_INITIAL_LOG_WRITER cfg::InitWriter()
#endif
#if INITIALS & 256
#define PLUTO_LOGGER_INITIAL_HEADER_WRITER cfg::InitHeader()
#endif
#ifdef SOURCE_ARGS
#define PLUTO_LOGGER_SOURCE_INFO_ARGS "own/place.cpp", 77, "somewhere"
#endif
#include "logcommon.hpp"
#include <sstream>
#include <thread>
using namespace lc;
namespace
{
    typedef pluto::log_level LV;
    const LV levels[] = { LV::verbose, LV::trace, LV::debug, LV::info, LV::notice, LV::warning, LV::error, LV::critical, LV::fatal, LV::off };
    struct Model { LV level; bool dirs, hdr; std::size_t maxs, flush, rsize, rlimit; int writer, header; };
    Model start()
    {
        const int i = INITIALS;
        return { i & 1 ? LV::warning : LV::verbose, !(i & 2), !(i & 4), i & 8 ? 3u : 0u, i & 16 ? 2u : 1u, i & 32 ? 25u : 0u, i & 64 ? 1u : 0u, i & 128 ? -1 : 0, i & 256 ? -1 : 0 };
    }
    void lw1(std::ostream& o, const pluto::log_entry& e) { o << "1:" << e.message; } void lw2(std::ostream& o, const pluto::log_entry& e) { o << "2:" << e.message; }
    void hw1(std::ostream& o) { o << "H1"; } void hw2(std::ostream& o) { o << "H2"; }
    std::string run_writer(const std::function<void(std::ostream&, const pluto::log_entry&)>& f) { std::ostringstream o; f(o, pluto::log_entry(logger::clock_type::time_point(), 5, LV::info, { "f.cpp", 3, "g" }, "msg")); return o.str(); }
    std::string run_header(const std::function<void(std::ostream&)>& f) { std::ostringstream o; f(o); return o.str(); }
    std::string writer_text(int k) { return k == -1 ? "init:msg" : k == 0 ? run_writer(logger::default_log_writer) : k == 1 ? "1:msg" : "2:msg"; }
    std::string header_text(int k) { return k == -1 ? "INIT" : k == 0 ? run_header(logger::default_header_writer) : k == 1 ? "H1" : "H2"; }
    void compare(const logger& L, const Model& m, const char* when, bool deep)
    {
        mc::Untracked u;
        MC_CHECK(L.is_logging(), "a live logger says it is not logging (%s)", when);
        MC_CHECK(L.num_discarded_logs() == 0, "discarded logs counted without any log (%s)", when);
        MC_CHECK(L.level() == m.level, "level is %d instead of %d (%s)", (int)L.level(), (int)m.level, when);
        MC_CHECK(L.create_dirs() == m.dirs && L.write_header() == m.hdr, "create_dirs %d write_header %d instead of %d %d (%s)", L.create_dirs(), L.write_header(), m.dirs, m.hdr, when);
        MC_CHECK(L.buffer_max_size() == m.maxs && L.buffer_flush_size() == m.flush, "buffer sizes %zu %zu instead of %zu %zu (%s)", L.buffer_max_size(), L.buffer_flush_size(), m.maxs, m.flush, when);
        MC_CHECK(L.file_rotation_size() == m.rsize && L.file_rotation_limit() == m.rlimit, "rotation %zu %zu instead of %zu %zu (%s)", L.file_rotation_size(), L.file_rotation_limit(), m.rsize, m.rlimit, when);
        for (int i = 0; i < 10; ++i) MC_CHECK(L.should_log(levels[i]) == (levels[i] >= m.level), "should_log(%d) at level %d (%s)", (int)levels[i], (int)m.level, when);
        if (deep) MC_CHECK(run_writer(L.log_writer()) == writer_text(m.writer) && run_header(L.header_writer()) == header_text(m.header), "the writers give \"%s\" \"%s\" (%s)", run_writer(L.log_writer()).c_str(), run_header(L.header_writer()).c_str(), when);
    }
    const int NOPS = 24;
    bool apply(logger& L, Model& m, int op)
    {
        logger* r = nullptr; static const std::size_t big = ~(std::size_t)0;
        switch (op)
        {
            case 0: r = &L.level(m.level = LV::off); break; case 1: r = &L.level(m.level = LV::verbose); break; case 2: r = &L.level(m.level = LV::error); break;
            case 3: r = &L.create_dirs(m.dirs = true); break; case 4: r = &L.create_dirs(m.dirs = false); break; case 5: r = &L.write_header(m.hdr = true); break; case 6: r = &L.write_header(m.hdr = false); break;
            case 7: r = &L.buffer_max_size(m.maxs = 0); break; case 8: r = &L.buffer_max_size(m.maxs = 7); break; case 9: r = &L.buffer_max_size(m.maxs = big); break;
            case 10: r = &L.buffer_flush_size(m.flush = 0); break; case 11: r = &L.buffer_flush_size(m.flush = 9); break; case 12: r = &L.buffer_flush_size(m.flush = big); break;
            case 13: r = &L.file_rotation_size(m.rsize = 0); break; case 14: r = &L.file_rotation_size(m.rsize = 5); break; case 15: r = &L.file_rotation_size(m.rsize = big); break;
            case 16: r = &L.file_rotation_limit(m.rlimit = 0); break; case 17: r = &L.file_rotation_limit(m.rlimit = 6); break; case 18: r = &L.file_rotation_limit(m.rlimit = big); break;
            case 19: m.writer = 1; r = &L.log_writer(lw1); break; case 20: m.writer = 2; r = &L.log_writer(lw2); break; case 21: m.header = 1; r = &L.header_writer(hw1); break; case 22: m.header = 2; r = &L.header_writer(hw2); break;
            case 23: r = &L.reset_num_discarded_logs(); break;
        }
        return r == &L;
    }
    // all sequences of setters
    void history(int arg)
    {
        int len = arg % 10, first = arg / 10;
        logger* L = new logger(); Model m = start(); compare(*L, m, "new", true);
        for (int i = 0; i < len; ++i)
        {
            int op = i == 0 ? first : mc::choose(NOPS, "setter");
            MC_CHECK(apply(*L, m, op), "setter %d does not return the logger", op);
            compare(*L, m, "after a setter", i == len - 1);
        }
        mc::outcome(0); delete L;
    }
    // A logger as it comes and one that was set to what the getters of the first say do the same, call by call
    void as_told(int len)
    {
        std::string base; { mc::Untracked u; base = std::string(mc::scratch_dir()); }
        logger* L[2] = { new logger(), new logger() }; Model m = start();
        bool made = mc::choose(2, "directory exists") != 0;
        { mc::Untracked u; for (const char* d : { "/p", "/q" }) { ::mkdir((base + d).c_str(), 0755); if (made) ::mkdir((base + d + "/dir").c_str(), 0755); } }
        L[1]->level(m.level).create_dirs(m.dirs).write_header(m.hdr).buffer_max_size(m.maxs).buffer_flush_size(m.flush).file_rotation_size(m.rsize).file_rotation_limit(m.rlimit);
        if (m.writer < 0) L[1]->log_writer(cfg::InitWriter()); else L[1]->log_writer(logger::default_log_writer);
        if (m.header < 0) L[1]->header_writer(cfg::InitHeader()); else L[1]->header_writer(logger::default_header_writer);
        std::string f[2] = { base + "/p/dir/x.log", base + "/q/dir/x.log" };
        auto look = [&](const char* when)
        {
            mc::Untracked u;
            for (const char* n : { "x.log", "x_1.log", "x_2.log" })
            {
                std::string a = slurp(base + "/p/dir/" + n), b = slurp(base + "/q/dir/" + n); bool ea = ::access((base + "/p/dir/" + n).c_str(), F_OK) == 0, eb = ::access((base + "/q/dir/" + n).c_str(), F_OK) == 0;
                MC_CHECK(a == b && ea == eb, "%s: a new logger leaves \"%.80s\" in %s, one set to the same configuration \"%.80s\"", when, a.c_str(), n, b.c_str());
            }
        };
        int made_logs = 0, early = 0;
        for (int i = 0; i < len; ++i)
        {
            int op = mc::choose(4, "0 warning, 1 info, 2 long fatal, 3 make the directory");
            if (!made && !m.dirs && (op != 1 || m.level <= LV::info) && op != 3 && ++early >= (int)m.flush) op = 3;      // the writer would try for ever
            if (op == 3) { mc::Untracked u; for (const char* d : { "/p/dir", "/q/dir" }) ::mkdir((base + d).c_str(), 0755); made = true; }
            else for (int k = 0; k < 2; ++k) L[k]->write(f[k], op == 0 ? LV::warning : op == 1 ? LV::info : LV::fatal, { "a.cpp", 1, "b" }, op == 2 ? std::string("a rather long message") : "m" + std::to_string(i));
            { mc::quiesce(); look("after a call"); MC_CHECK(L[0]->num_discarded_logs() == L[1]->num_discarded_logs(), "the loggers discarded %zu and %zu logs", L[0]->num_discarded_logs(), L[1]->num_discarded_logs()); }
            if (op != 3) ++made_logs;
        }
        delete L[0]; delete L[1]; look("in the end");
        mc::outcome(made_logs * 2 + made);
    }
    // the source of a log
    struct Seen { std::string file, func, msg; int line; };
    std::vector<Seen>* seen; int evals;
    void capture(std::ostream& o, const pluto::log_entry& e) { { mc::Untracked u; seen->push_back({ e.source.file, e.source.function, e.message, e.source.line }); } o << e.message; }
    const char* touch(const char* s) { ++evals; return s; }
    void source(int)
    {
        std::vector<Seen> sv; seen = &sv; evals = 0; std::string f = path(0), xf, xn; int xl = 0;
        logger* p = new logger(); logger& L = *p; L.create_dirs(true).log_writer(capture).write_header(false).buffer_flush_size(1).buffer_max_size(0).file_rotation_size(0);
        int form = mc::choose(8, "form"), lv = mc::choose(3, "level of the logger"); L.level(lv == 0 ? LV::verbose : lv == 1 ? LV::info : LV::notice); bool rec = lv < 2, macro = form < 4;
        int line = 0;
        switch (form)
        {
            case 0: line = __LINE__; PLUTO_LOG_WRITE_WITH(L, f, info, touch("hello")); break;
            case 1: line = __LINE__; PLUTO_LOG_WRITEF_WITH(L, f, info, "%s", touch("hello")); break;
#if PLUTO_UTILS_HAS_FORMAT
            case 2: line = __LINE__; PLUTO_LOG_FORMAT_WITH(L, f, info, "{}", touch("hello")); break;
#else
            case 2: line = __LINE__; PLUTO_LOG_WRITE_WITH(L, f, info, touch("hello")); break;
#endif
            case 3: line = __LINE__; PLUTO_LOG_STREAM_WITH(L, f, info, touch("hel") << "lo"); break;
#if PLUTO_LOGGER_HIDE_SOURCE_INFO
            // calls without a source
            case 4: L.write(f, LV::info, "hello"); break;
            case 5: L.writef(f, LV::info, "%s%d", "hello", 7); break;
#if PLUTO_UTILS_HAS_FORMAT
            case 6: L.format(f, LV::info, "{}", "hello"); break;
#else
            case 6: L.writef(f, LV::info, "hello"); break;
#endif
            case 7: L.stream(f, LV::info) << "hello"; break;
#elif PLUTO_UTILS_HAS_SOURCE_LOCATION
            // the place of the call is the default source
            case 4: line = __LINE__; L.write(f, LV::info, {}, "hello"); break;
            case 5: line = __LINE__; L.writef(f, LV::info, {}, "hello%d", 7); break;
            case 6: line = __LINE__; L.format(f, LV::info, {}, "{}", "hello"); break;
            case 7: line = __LINE__; L.stream(f, LV::info, {}) << "hello"; break;
#else
            case 4: L.write(f, LV::info, { "z.cpp", 9, "zf" }, "hello"); break;
            case 5: L.writef(f, LV::info, { "z.cpp", 9, "zf" }, "hello%d", 7); break;
            case 6: L.writef(f, LV::info, { "z.cpp", 9, "zf" }, "hello"); break;
            case 7: L.stream(f, LV::info, { "z.cpp", 9, "zf" }) << "hello"; break;
#endif
        }
        delete p;
        mc::Untracked u;
        if (macro) MC_CHECK(evals == (rec ? 1 : 0), "the arguments were evaluated %d times (form %d)", evals, form);
        MC_CHECK((int)sv.size() == (rec ? 1 : 0), "%zu logs recorded (form %d)", sv.size(), form);
        if (!rec) { mc::outcome(form); return; }
        xf = __FILE__; xl = line; xn = "source";
#if PLUTO_LOGGER_HIDE_SOURCE_INFO
        xf = ""; xl = 0; xn = "";
#elif defined(SOURCE_ARGS)
        if (macro) { xf = "own/place.cpp"; xl = 77; xn = "somewhere"; }
#elif !PLUTO_UTILS_HAS_SOURCE_LOCATION
        if (!macro) { xf = "z.cpp"; xl = 9; xn = "zf"; }
#endif
        Seen& s = sv[0];
        MC_CHECK(s.msg == (form == 5 ? "hello7" : "hello"), "the message is \"%s\" (form %d)", s.msg.c_str(), form);
        MC_CHECK(s.file == xf && s.line == xl && (s.func == xn || (!macro && s.func.find(xn) != std::string::npos)), "the source is %s:%d %s instead of %s:%d %s (form %d)", s.file.c_str(), s.line, s.func.c_str(), xf.c_str(), xl, xn.c_str(), form);
        mc::outcome(form * 4 + lv);
    }
}
void mc_register()
{
    auto O = [](int q, int t, double s) { mc::Opt o; o.quick.preempt = q; o.thorough.preempt = t; o.quick.spurious = 0; o.quick.max_s = s; o.quick.max_exec = 100000000; o.thorough.max_s = 300; o.thorough.max_exec = 100000000; return o; };
    if (INITIALS != 0 && INITIALS != 511)       // one macro alone changes its own setting alone
    {
        mc::scenario("L11", "one-macro-setters", O(0, 0, 60), history, 23 * 10 + 2);
        mc::scenario("L11", "one-macro-as-told-2", O(0, 0, 60), as_told, 2); mc::scenario("L11", "one-macro-as-told-3", O(0, 0, 60), as_told, 3);
        return;
    }
    static std::string nm[64];
    for (int i = 0; i < NOPS; ++i) { nm[i] = "setters-3-from-" + std::to_string(i); mc::scenario("L11", nm[i].c_str(), O(0, 0, 60), history, i * 10 + 3); }
    mc::scenario("L11", "two-setters-any-schedule", O(2, 3, 60), history, 12 * 10 + 2); mc::scenario("L11", "two-setters-any-schedule-2", O(2, 3, 60), history, 19 * 10 + 2);
    static const char* as[] = { "as-told-1", "as-told-2", "as-told-3", "as-told-4" };
    for (int n = 1; n <= 4; ++n) mc::scenario("L11", as[n - 1], O(0, 0, 60), as_told, n);
    mc::scenario("L11", "as-told-any-schedule", O(1, 2, 60), as_told, 2);
    mc::scenario("L11", "source", O(0, 1, 60), source);
}
