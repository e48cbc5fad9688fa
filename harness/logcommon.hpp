// shared by logger.cpp and logfs.cpp: the logger under test, its logs and the files it writes
#pragma once
#include <pluto/logger.hpp>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include <fcntl.h>
#include <unistd.h>
#include <sys/stat.h>

namespace lc
{
    typedef pluto::logger logger;
    enum { MAXLOG = 1100 };
    enum Kind { CALL = 1, RET, WRITE, SETWC, SETW, LEVELC, QUIET, HEADER };
    struct Log { int file; bool filtered; char expect[64]; std::size_t tid; };
    struct World
    {
        logger* lg; Log log[MAXLOG]; int n; bool limited, resets; std::size_t discarded_end;
    };
    inline World& world() { static World x; return x; }
    static World& w = world();

    inline int find(int kind, long a) { for (int i = 0; i < mc::ev_count(); ++i) if (mc::ev_at(i).kind == kind && mc::ev_at(i).a == a) return i; return -1; }

    struct Line { std::string text; bool whole; };
    inline std::string slurp(const std::string& p)
    {
        std::string s; int fd = ::open(p.c_str(), O_RDONLY);
        if (fd < 0) return s;
        char b[8192]; ssize_t n;
        while ((n = ::read(fd, b, sizeof b)) > 0) s.append(b, n);
        ::close(fd);
        return s;
    }
    inline std::vector<Line> lines_of(const std::string& s)
    {
        std::vector<Line> v; size_t i = 0;
        while (i < s.size())
        {
            size_t e = s.find('\n', i);
            if (e == std::string::npos) { v.push_back({ s.substr(i), false }); break; }
            v.push_back({ s.substr(i, e - i), true }); i = e + 1;
        }
        return v;
    }
    inline std::vector<Line> read_lines(const std::string& p) { return lines_of(slurp(p)); }
    // "m<id>" with anything after a non-digit; "#2" at the end tells the second writer
    inline int parse(const std::string& s, int* gen)
    {
        if (gen) *gen = s.size() > 2 && s.compare(s.size() - 2, 2, "#2") == 0 ? 2 : 1;
        if (s.size() < 2 || s[0] != 'm' || s[1] < '0' || s[1] > '9') return -1;
        return std::atoi(s.c_str() + 1);
    }
    inline std::string path(int f) { mc::Untracked u; return std::string(mc::scratch_dir()) + "/d/" + "abc"[f] + ".log"; }
    inline std::vector<int> disk_ids(int f) { mc::Untracked u; std::vector<int> v; for (auto& l : read_lines(path(f))) v.push_back(parse(l.text, nullptr)); return v; }
    inline int first_missing(const int* seen) { for (int i = 0; i < w.n; ++i) if (!seen[i] && !w.log[i].filtered) return i; return -1; }

    inline void check_entry(const pluto::log_entry& e, int id)
    {
        mc::Untracked u;
        MC_CHECK(id >= 0 && id < w.n && e.message == w.log[id].expect, "the writer received the message \"%.60s\"", e.message.c_str());
        MC_CHECK(e.thread_id == w.log[id].tid && e.source.line == 100 + id, "the writer received log %d with thread %zu and line %d instead of thread %zu and line %d", id, e.thread_id, e.source.line, w.log[id].tid, 100 + id);
    }
    inline void writer1(std::ostream& os, const pluto::log_entry& e)
    {
        int id = parse(e.message, nullptr); mc::ev(WRITE, id); check_entry(e, id);
        os << e.message;
    }
    inline void writer2(std::ostream& os, const pluto::log_entry& e)
    {
        int id = parse(e.message, nullptr); mc::ev(WRITE, id); check_entry(e, id);
        os << e.message << "#2";
    }
    inline void header1(std::ostream& os) { os << "HEADER"; }

    // one logging call; forms: 0 write, 1 writef, 2 format, 3 stream, 4.. macros
    inline int do_log(int file, int form, pluto::log_level level, int pad = 0)
    {
        int id; std::string f, m;
        {
            mc::Untracked u;
            id = w.n++; if (id >= MAXLOG) mc::fail("internal: too many logs");
            m = "m" + std::to_string(id);
            if (pad) { m += ':'; m.append(pad, 'x'); }
            w.log[id].file = file; w.log[id].tid = pluto::thread_id(); std::snprintf(w.log[id].expect, sizeof w.log[id].expect, "%s", m.c_str());
            if (level < w.lg->level() && find(LEVELC, 0) < 0) w.log[id].filtered = true;
            f = path(file);
        }
        pluto::source_info si{ "harness.cpp", 100 + id, "do_log" };
        mc::ev(CALL, id);
        switch (form)
        {
            case 0: w.lg->write(f, level, si, m); break;
            case 1: w.lg->writef(f, level, si, "m%d%s", id, m.c_str() + m.find_last_of("0123456789") + 1); break;
#if PLUTO_UTILS_HAS_FORMAT
            case 2: w.lg->format(f, level, si, "{}", m); break;
#endif
            case 3: { auto&& s = w.lg->stream(f, level, si); s << m; break; }
            case 4: (w.lg->stream(f, level, si) << "m" << id).end(); break;
            default: w.lg->write(f, level, si, m); break;
        }
        mc::ev(RET, id);
        return id;
    }
    inline void begin_world(bool default_writers = false)
    {
        { mc::Untracked u; std::memset((void*)w.log, 0, sizeof w.log[0] * w.n); w.n = 0; w.limited = w.resets = false; w.discarded_end = 0; mc::scratch_dir(); }
        w.lg = new logger();
        if (!default_writers)
        {
            w.lg->log_writer(writer1).header_writer(header1).write_header(false);
            w.lg->level(pluto::log_level::info);
        }
    }
}
