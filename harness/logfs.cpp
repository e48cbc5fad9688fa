// L06..L08: what the logger leaves in the file system: rotation, crash points, transient failures.
#include "mc.hpp"
#include "logcommon.hpp"
#include <cerrno>
#include <dirent.h>
#include <map>
#include <algorithm>

namespace
{
    using namespace lc;
    typedef std::vector<std::string> Files;            // 0 = current, then _1, _2, ...

    // ---------------------------------------------------------------------------------------------- names and directories
#if PLUTO_FILESYSTEM_IS_EXPERIMENTAL    // there the name of a hidden file is all extension
    const char* stems[] = { "a", "noext", "", "x.y", "sp ace_1" };
    const char* exts[] = { ".log", "", ".hid", ".log", ".txt" };
#else
    const char* stems[] = { "a", "noext", ".hid", "x.y", "sp ace_1" };
    const char* exts[] = { ".log", "", "", ".log", ".txt" };
#endif
    int cur_name;
    std::string dir(const char* sub = "d") { mc::Untracked u; return std::string(mc::scratch_dir()) + "/" + sub; }
    std::string fname(int i, int name = -1) { mc::Untracked u; if (name < 0) name = cur_name; return std::string(stems[name]) + (i ? "_" + std::to_string(i) : "") + exts[name]; }
    void put(const std::string& p, const std::string& s) { int fd = ::open(p.c_str(), O_WRONLY | O_CREAT | O_APPEND, 0644); if (fd < 0) mc::fail("internal: cannot create %s", p.c_str()); if (::write(fd, s.data(), s.size()) < 0) {} ::close(fd); }
    // every regular file of a directory
    std::map<std::string, std::string> listing(const std::string& d)
    {
        std::map<std::string, std::string> m;
        if (DIR* h = ::opendir(d.c_str()))
        {
            while (dirent* e = ::readdir(h)) if (e->d_name[0] != '.' || (e->d_name[1] && e->d_name[1] != '.')) { struct stat st; std::string p = d + "/" + e->d_name; if (::lstat(p.c_str(), &st) == 0 && S_ISREG(st.st_mode)) m[e->d_name] = slurp(p); }
            ::closedir(h);
        }
        return m;
    }
    // the numbered files of one log, whatever the gaps: number -> content
    std::map<int, std::string> series(const std::string& d, int name = -1)
    {
        std::map<int, std::string> r; if (name < 0) name = cur_name;
        auto l = listing(d);
        for (int i = 0; i < 40; ++i) { auto it = l.find(fname(i, name)); if (it != l.end()) r[i] = it->second; }
        return r;
    }
    std::string oldest_first(const std::map<int, std::string>& s) { std::string r; for (auto it = s.rbegin(); it != s.rend(); ++it) r += it->second; return r; }
    std::string show(const std::map<int, std::string>& s) { std::string r; for (auto& x : s) { std::string c = x.second; for (auto& y : c) if (y == '\n') y = '/'; r += " [" + std::to_string(x.first) + "] " + c; } return r; }

    // ---------------------------------------------------------------------------------------------- L06: exact reference for the rotation
    struct Model
    {
        std::map<int, std::string> f; std::size_t size, limit; bool header;
        void touch() { f[0]; }
        void rotate()
        {
            int n = 0; while (f.count(n)) ++n;
            const int keep = (int)std::min<std::size_t>(limit, 1000000);
            for (int i = keep; i < n; ++i) f.erase(i);
            for (int i = std::min(n, keep); i > 0; --i) { f[i] = f[i - 1]; f.erase(i - 1); }
            touch();
        }
        void log(const std::string& m)
        {
            touch();
            if (size && f[0].size() >= size) rotate();
            if (header && f[0].empty()) f[0] += "HEADER\n";
            f[0] += m + "\n";
        }
    };
    // pre existing files: a, a_1, .. with one line each (empty if e)
    void preexisting(Model& md, int n, bool empty_current)
    {
        if (n) { ::mkdir(dir().c_str(), 0755); }
        for (int i = 0; i < n; ++i) { std::string c = i == 0 && empty_current ? "" : "p" + std::to_string(i) + "\n"; put(dir() + "/" + fname(i), c); md.f[i] = c; }
    }
    void compare(const Model& md, const std::map<std::string, std::string>& others)
    {
        mc::Untracked u;
        std::map<std::string, std::string> want = others, got = listing(dir());
        for (auto& x : md.f) want[fname(x.first)] = x.second;
        if (got == want) return;
        std::string d;
        for (auto& x : want) if (!got.count(x.first)) d += " " + x.first + " is missing;"; else if (got[x.first] != x.second) d += " " + x.first + " is \"" + got[x.first] + "\" not \"" + x.second + "\";";
        for (auto& x : got) if (!want.count(x.first)) d += " " + x.first + " should not exist (\"" + x.second + "\");";
        for (auto& c : d) if (c == '\n') c = '/';
        mc::fail("after rotation size %zu limit %zu header %d:%s", md.size, md.limit, md.header, d.c_str());
    }
    std::string fullname(int i = 0) { mc::Untracked u; return dir() + "/" + fname(i); }
    int emit(const std::string& file, int pad)
    {
        int id; std::string m;
        { mc::Untracked u; id = w.n++; m = "m" + std::to_string(id); if (pad) { m += ':'; m.append(pad, 'x'); } std::snprintf(w.log[id].expect, sizeof w.log[id].expect, "%s", m.c_str()); w.log[id].tid = pluto::thread_id(); }
        mc::ev(CALL, id);
        w.lg->write(file, pluto::log_level::info, { "harness.cpp", 100 + id, "emit" }, m);
        mc::ev(RET, id);
        return id;
    }
    void rot(Model& md, std::size_t size, std::size_t limit) { md.size = size; md.limit = limit; w.lg->file_rotation_size(size).file_rotation_limit(limit); }

    // arg: number of logs | variant << 4
    void rotation(int arg)
    {
        int n = arg & 15, variant = arg >> 4 & 15, fixed = arg >> 8;
        cur_name = 0;
        begin_world();
        Model md{}; std::map<std::string, std::string> others;
        static const std::size_t sizes[] = { 0, 1, 8, 16 };
        if (variant == 1) cur_name = mc::choose(5, "name");
        md.header = mc::choose(2, "header");
        rot(md, sizes[fixed ? fixed - 1 : mc::choose(4, "rotation size")], variant == 3 ? 9 + mc::choose(3, "rotation limit") : mc::choose(4, "rotation limit"));
        { mc::Untracked u; preexisting(md, variant == 3 ? 9 + mc::choose(4, "existing files") : mc::choose(6, "existing files"), variant == 0 && mc::choose(2, "empty")); }
        if (variant == 1)
        {
            mc::Untracked u; ::mkdir(dir().c_str(), 0755);
            for (std::string s : { fname(0) + "x", std::string("x") + fname(0), std::string(stems[cur_name]) + "_x" + exts[cur_name], std::string(stems[cur_name]) + "_9" + exts[cur_name] + "y" }) { put(dir() + "/" + s, "other"); others[s] = "other"; }
        }
        w.lg->write_header(md.header);
        mc::quiesce();
        int changes = 0;
        for (int k = 0; k < n; ++k)
        {
            int op = mc::choose(variant == 2 ? 8 : 4, "operation");
            if (op < 4)
            {
                int id = emit(fullname(), op & 1 ? 12 : 0);
                { mc::Untracked u; md.log(w.log[id].expect); }
                if (op & 2) { mc::quiesce(); compare(md, others); }
            }
            else
            {
                ++changes; mc::quiesce();
                if (op == 4) rot(md, 8, md.limit);
                if (op == 5) rot(md, 0, md.limit);
                if (op == 6) rot(md, md.size, 1);
                if (op == 7) rot(md, md.size, 4);
            }
        }
        delete w.lg; w.lg = nullptr;
        compare(md, others);
        mc::Untracked u;
        std::uint64_t h = 5; for (auto& x : md.f) for (char c : x.second) h = h * 131 + (unsigned char)c + x.first;
        mc::outcome(h);
    }
    // two files rotate independently; relative paths; directories that do not exist yet; create_dirs off
    void separate_files(int arg)
    {
        cur_name = 0;
        begin_world();
        Model a{}, b{};
        std::string fa = dir("d") + "/sub/deep/a.log", fb = dir("d") + "/sub/b.log";
        if (arg) { mc::Untracked u; fa = "rel/a.log"; fb = "b.log"; if (::chdir(mc::scratch_dir())) mc::fail("internal: chdir"); }
        a.header = b.header = mc::choose(2, "header");
        std::size_t size = mc::choose(2, "size") ? 8 : 1, limit = mc::choose(3, "limit");
        a.size = b.size = size; a.limit = b.limit = limit;
        w.lg->file_rotation_size(size).file_rotation_limit(limit).write_header(a.header);
        mc::quiesce();
        for (int k = 0; k < 5; ++k)
        {
            int op = mc::choose(4, "operation");
            int id = emit(op & 1 ? fb : fa, 3);
            { mc::Untracked u; (op & 1 ? b : a).log(w.log[id].expect); }
            if (op & 2) mc::quiesce();
        }
        delete w.lg; w.lg = nullptr;
        mc::Untracked u;
        if (arg) { fa = std::string(mc::scratch_dir()) + "/rel/a.log"; fb = std::string(mc::scratch_dir()) + "/b.log"; if (::chdir("/")) {} }
        auto check = [](Model& m, const std::string& f, const char* stem)
        {
            std::string d = f.substr(0, f.rfind('/')); auto got = listing(d); std::map<std::string, std::string> want;
            for (auto& x : m.f) want[std::string(stem) + (x.first ? "_" + std::to_string(x.first) : "") + ".log"] = x.second;
            MC_CHECK(got == want, "the files of %s are not what rotation must leave", stem);
        };
        check(a, fa, "a"); check(b, fb, "b");
    }
    // many logs in large batches, long messages, large limits, many old files
    void rotation_many(int arg)
    {
        cur_name = 0;
        begin_world();
        w.lg->log_writer([](std::ostream& os, const pluto::log_entry& e) { os << e.message; });
        Model md{};
        static const std::size_t sizes[] = { 1, 64, 1000, 5000, 1ull << 32, (1ull << 32) + 1, 1ull << 63, ~0ull }, limits[] = { 0, 1, 9, 10, 99, 100, 1000, 1ull << 32, (1ull << 32) + 1, ~0ull };
        static const int ns[] = { 9, 33, 130 }, fls[] = { 1, 16, 3000 }, pres[] = { 0, 9, 10, 11, 99, 100, 101, 256 };
        int n = 4, pre = 0, flush = 1, pat = 3; std::size_t size = 1, limit;
        if (arg == 0) { n = ns[mc::choose(3, "logs")]; flush = fls[mc::choose(3, "flush size")]; size = sizes[mc::choose(8, "rotation size")]; pat = mc::choose(4, "lengths"); limit = limits[(int[]){ 0, 2, 4, 6, 9 }[mc::choose(5, "limit")]]; }
        else { pre = pres[mc::choose(8, "existing files")]; limit = limits[mc::choose(10, "limit")]; }
        md.header = mc::choose(2, "header"); rot(md, size, limit);
        { mc::Untracked u; preexisting(md, pre, false); }
        w.lg->write_header(md.header).buffer_flush_size(flush);
        mc::quiesce();
        std::string f = fullname();
        for (int i = 0; i < n; ++i)
        {
            std::string m;
            {
                mc::Untracked u;
                m = "m" + std::to_string(i) + ":";
                m.append(pat == 0 ? 0 : pat == 1 ? i % 13 * 3 : pat == 2 ? (i % 5 == 4 ? 9000 : 3) : i % 2 * 40, 'x');
                md.log(m);
            }
            w.lg->write(f, pluto::log_level::info, { "harness.cpp", 1, "many" }, m);
            if (pat == 1 && i == n / 2) mc::quiesce();
        }
        delete w.lg; w.lg = nullptr;
        compare(md, {});
        mc::outcome(md.f.size() * 1000 + n);
    }
    // a relative name goes on meaning the same file when the working directory changes
    void working_directory(int)
    {
        cur_name = 0;
        begin_world();
        { mc::Untracked u; ::mkdir(dir("x").c_str(), 0755); ::mkdir(dir("y").c_str(), 0755); if (::chdir(dir("x").c_str())) mc::fail("internal: chdir"); }
        const char* name = mc::choose(2, "name") ? "sub/a.log" : "a.log";
        Model a{}; std::size_t size = mc::choose(2, "size") ? 8 : 0;
        rot(a, size, 2); w.lg->buffer_flush_size(1 + mc::choose(2, "flush size"));
        int moved = 0, op; bool known = false;
        for (int k = 0; k < 5; ++k)
        {
            op = mc::choose(3, "operation");
            if (op == 2) { mc::Untracked u; if (known) { if (::chdir(dir(++moved % 2 ? "y" : "x").c_str())) mc::fail("internal: chdir"); } continue; }
            int id = emit(name, 3);
            { mc::Untracked u; a.log(w.log[id].expect); }
            if (op || !known) { w.lg->buffer_flush_size(1); mc::quiesce(); known = true; }      // the first one is written before the directory changes
        }
        delete w.lg; w.lg = nullptr;
        mc::Untracked u;
        std::string d = dir("x") + (name[0] == 's' ? "/sub" : "");
        if (::chdir("/")) {}
        if (!a.f.empty())
        {
            auto got = listing(d); std::map<std::string, std::string> want;
            for (auto& x : a.f) want[fname(x.first)] = x.second;
            MC_CHECK(got == want, "the files of %s are not what its logs must leave after the working directory changed", name);
        }
        MC_CHECK(a.f.empty() || (listing(dir("y")).empty() && listing(dir("y") + "/sub").empty()), "logs of %s went to another directory when the working directory changed", name);
    }
    // concurrent loggers with rotation on: nothing may be dropped (high limit), sizes respected, order kept, headers exactly at the top
    void rotation_live(int arg)
    {
        static const char* scripts[][3] = { { "a", "a", "" }, { "aa", "a", "" }, { "aa", "aa", "" }, { "aaa", "", "" }, { "a", "a", "a" }, { "aR", "aa", "" }, { "aH", "aa", "" } };
        cur_name = 0;
        begin_world();
        bool header = arg & 8; std::size_t size = arg & 16 ? 6 : 1;
        w.lg->file_rotation_size(size).file_rotation_limit(20).write_header(header);
        std::string f = fullname(); const char** s = scripts[arg & 7];
        bool resized = false, reheadered = false;
        for (int i = 0; i < 3; ++i) { if (strchr(s[i], 'R')) resized = true; if (strchr(s[i], 'H')) reheadered = true; }
        auto run = [&f](const char* t) { for (; *t; ++t) if (*t == 'a') emit(f, 0); else if (*t == 'R') w.lg->file_rotation_size(9); else w.lg->write_header(true); };
        std::vector<std::thread> ts;
        for (int i = 1; i < 3; ++i) if (*s[i]) ts.emplace_back([&run, s, i] { run(s[i]); });
        run(s[0]);
        for (auto& t : ts) t.join();
        if (arg & 32) mc::quiesce();
        delete w.lg; w.lg = nullptr;
        mc::Untracked u;
        auto ser = series(dir());
        int expectn = 0; std::vector<int> ids;
        for (auto& x : ser) MC_CHECK(x.first == expectn++, "the numbering has a gap:%s", show(ser).c_str());
        for (auto it = ser.rbegin(); it != ser.rend(); ++it)
        {
            auto ls = lines_of(it->second); std::size_t before = 0; int hdr = 0, k = 0;
            for (auto& l : ls)
            {
                MC_CHECK(l.whole, "incomplete line:%s", show(ser).c_str());
                if (l.text == "HEADER") { MC_CHECK(k == 0, "a header inside a file:%s", show(ser).c_str()); ++hdr; }
                else { if (!resized && k > hdr) MC_CHECK(before < size, "a log was appended to a file that had reached %zu bytes:%s", size, show(ser).c_str()); ids.push_back(parse(l.text, nullptr)); }
                before += l.text.size() + 1; ++k;
            }
            if (!reheadered) MC_CHECK(hdr == (header && !ls.empty()), "%d headers in a file:%s", hdr, show(ser).c_str());
        }
        std::vector<int> sorted = ids; std::sort(sorted.begin(), sorted.end());
        MC_CHECK((int)ids.size() == w.n && sorted.front() == 0 && sorted.back() == w.n - 1 && std::unique(sorted.begin(), sorted.end()) == sorted.end(), "logs lost or duplicated:%s", show(ser).c_str());
        for (size_t i = 0; i < ids.size(); ++i) for (size_t j = i + 1; j < ids.size(); ++j)
            MC_CHECK(!(find(RET, ids[j]) < find(CALL, ids[i])), "logs out of order:%s", show(ser).c_str());
        std::uint64_t h = 3; for (int i : ids) h = h * 37 + i; mc::outcome(h);
    }

    // ---------------------------------------------------------------------------------------------- L07: crash points
    struct Crash { bool armed, done, recovering; char before[4096]; int before_n; char stream[4096]; int stream_n; char after[4096]; int after_n; } cr;
    void append(char* b, int& n, const void* p, std::size_t len) { if (n + (int)len > 4096) mc::fail("internal: stream too long"); std::memcpy(b + n, p, len); n += (int)len; }
    // a crash is a copy of the directory as it is at that moment (with the first bytes of a torn write appended); the run then goes on unobserved
    void snapshot(const std::string& torn_file, const void* buf, std::size_t bytes)
    {
        ::mkdir(dir("s").c_str(), 0755);
        for (auto& x : listing(dir())) put(dir("s") + "/" + x.first, x.second);
        if (bytes) put(dir("s") + "/" + torn_file.substr(torn_file.rfind('/') + 1), std::string((const char*)buf, bytes));
        cr.done = true;
    }
    int crash_hook(const mc::FsOp& op)
    {
        bool wr = !strcmp(op.kind, "write");
        if (cr.recovering) { if (wr) append(cr.after, cr.after_n, op.buf, op.len); return 0; }
        if (!cr.armed || cr.done) return 0;
        if (wr)
        {
            std::vector<std::size_t> cuts;
            if (op.len <= 14) for (std::size_t i = 0; i < op.len; ++i) cuts.push_back(i);
            else
            {
                const char* b = (const char*)op.buf;
                for (std::size_t i = 0; i < op.len; ++i) if (i == 0 || i == 1 || i == op.len - 1 || b[i] == '\n' || b[i - 1] == '\n' || (b[i - 1] == 'm' )) cuts.push_back(i);
            }
            int k = mc::choose((int)cuts.size() + 1, "crash");
            if (k) { append(cr.stream, cr.stream_n, op.buf, cuts[k - 1]); snapshot(op.path, op.buf, cuts[k - 1]); return 0; }
            append(cr.stream, cr.stream_n, op.buf, op.len);
        }
        else if (strcmp(op.kind, "stat") && mc::choose(2, "crash")) snapshot("", nullptr, 0);
        return 0;
    }
    // What may be missing from the history (all that was ever written, oldest first) in the files found?
    // Fewer files than the limit asks for: nothing.  Otherwise the newest ones must be the end of the history, and what is
    // found in older ones must be earlier parts of it, in order; unless there were too many files to begin with, what is
    // missing is then a prefix that ends at a line.
    void check_retained(const std::map<int, std::string>& got, const std::string& history, std::size_t limit, std::size_t size, bool at_rest, bool excess, const char* when, const std::vector<std::size_t>& torn_ends = {})
    {
        std::string g = oldest_first(got);
        if (g == history) return;
        std::size_t n = got.size(); bool current_full = !got.count(0) || got.at(0).size() >= size;
        std::size_t need = at_rest || !current_full ? limit + 1 : limit, k = 0;
        auto ends = [](const std::string& h, const std::string& e) { return h.size() >= e.size() && h.compare(h.size() - e.size(), e.size(), e) == 0; };
        MC_CHECK(size && n >= need, "%s logs are missing although only %zu files are left (limit %zu):%s", when, n, limit, show(got).c_str());
        if (!excess)
        {
            MC_CHECK(ends(history, g), "%s the files do not hold the end of what was written, in order:%s", when, show(got).c_str());
            MC_CHECK(history[history.size() - g.size() - 1] == '\n' || std::count(torn_ends.begin(), torn_ends.end(), history.size() - g.size()), "%s a log was cut:%s", when, show(got).c_str());
            return;
        }
        std::string newest, older;
        for (auto& x : got) if (k++ < need) newest = x.second + newest; else older = x.second + older;
        MC_CHECK(ends(history, newest), "%s the newest files do not hold the end of what was written, in order:%s", when, show(got).c_str());
        auto h = lines_of(history.substr(0, history.size() - newest.size())), o = lines_of(older);
        std::size_t i = 0;
        for (auto& l : o) { while (i < h.size() && h[i].text != l.text) ++i; MC_CHECK(i++ < h.size(), "%s the older files do not hold earlier logs in order:%s", when, show(got).c_str()); }
    }
    // leftovers of an earlier crash: which numbers exist, and whether the current file ends in a torn line
    const struct { int mask; bool torn; } leftovers[] = { { 0, false }, { 1, false }, { 3, false }, { 31, false }, { 7, false }, { 5, false }, { 11, false }, { 6, false }, { 4, false }, { 1, true }, { 3, true }, { 2, false } };
    // arg: number of logs | limit << 4 | sizes << 8 | leftovers << 12 | header << 16 | settle << 17
    void crash(int arg)
    {
        int n = arg & 15; std::size_t limit = arg >> 4 & 15; static const std::size_t sizes[] = { 0, 1, 8, 20 }; std::size_t size = sizes[arg >> 8 & 3];
        int pre = arg >> 12 & 15; bool header = arg & 1 << 16, settle = arg & 1 << 17;
        cur_name = 0;
        std::memset(&cr, 0, sizeof cr);
        bool excess = leftovers[pre].mask >> (limit + 1);
        mc::fs_hook(mc::scratch_dir(), crash_hook);
        begin_world();
        Model md{};
        { mc::Untracked u; if (leftovers[pre].mask) ::mkdir(dir().c_str(), 0755);
          for (int i = 0; i < 5; ++i) if (leftovers[pre].mask >> i & 1) { md.f[i] = "p" + std::to_string(i) + (leftovers[pre].torn && !i ? "" : "\n"); put(fullname(i), md.f[i]); }
          std::string h; for (auto it = md.f.rbegin(); it != md.f.rend(); ++it) h += it->second; append(cr.before, cr.before_n, h.data(), h.size()); }
        w.lg->file_rotation_size(size).file_rotation_limit(limit).write_header(header);
        mc::quiesce();
        cr.armed = true;
        for (int i = 0; i < n; ++i) { emit(fullname(), i % 2 ? 2 : 0); if (settle) mc::quiesce(); }
        delete w.lg; w.lg = nullptr;
        int written = w.n;
        cr.armed = false;
        if (!cr.done) { mc::Untracked u; snapshot("", nullptr, 0); }
        {
            mc::Untracked u;
            mc::count_extra(0, 1);
            std::string history = std::string(cr.before, cr.before_n) + std::string(cr.stream, cr.stream_n);
            auto s = series(dir("s"));
            for (auto& x : listing(dir("s"))) { bool known = false; for (auto& y : s) if (fname(y.first) == x.first) known = true; MC_CHECK(known, "after the crash there is an unknown file %s", x.first.c_str()); }
            check_retained(s, history, limit, size, false, excess, "after the crash", { (std::size_t)cr.before_n });
            // what was written is the logs in order
            int expect = 0;
            for (auto& l : lines_of(std::string(cr.stream, cr.stream_n))) if (l.text != "HEADER")
            {
                if (!l.whole) { std::string e = expect < written ? w.log[expect].expect : ""; MC_CHECK(e.compare(0, l.text.size(), l.text) == 0 || std::string("HEADER").compare(0, l.text.size(), l.text) == 0, "unexpected incomplete line \"%s\"", l.text.c_str()); break; }
                MC_CHECK(l.text == w.log[expect].expect, "line \"%s\" instead of log %d", l.text.c_str(), expect); ++expect;
            }
        }
        // recover: a new logger on the surviving files
        std::map<int, std::string> survived; { mc::Untracked u; survived = series(dir("s")); cr.recovering = true; cr.after_n = 0; }
        w.lg = new logger();
        w.lg->log_writer(writer1).header_writer(header1).write_header(header).level(pluto::log_level::info);
        w.lg->file_rotation_size(size).file_rotation_limit(limit);
        mc::quiesce();
        std::string f2; { mc::Untracked u; f2 = dir("s") + "/" + fname(0); }
        int first = w.n;
        emit(f2, 0); if (settle) mc::quiesce(); emit(f2, 2); emit(f2, 0);
        delete w.lg; w.lg = nullptr;
        mc::Untracked u;
        auto now = series(dir("s"));
        std::string after(cr.after, cr.after_n), want;
        for (auto& l : lines_of(after)) if (l.text != "HEADER") want += l.text + "\n";
        std::string all; for (int i = first; i < w.n; ++i) all += std::string(w.log[i].expect) + "\n";
        MC_CHECK(want == all, "the logger started after the crash wrote \"%s\"", want.c_str());
        std::vector<std::size_t> bounds; std::size_t at = 0;
        for (auto it = survived.rbegin(); it != survived.rend(); ++it) bounds.push_back(at += it->second.size());
        check_retained(now, oldest_first(survived) + after, limit, size, true, excess, "after starting again", bounds);
        for (auto& x : now) MC_CHECK(x.first <= (int)std::max(limit, survived.empty() ? 0 : (std::size_t)survived.rbegin()->first), "file number %d exists with limit %zu:%s", x.first, limit, show(now).c_str());
        std::uint64_t h = 5; for (auto& x : survived) for (char c : x.second) h = h * 131 + (unsigned char)c + x.first;
        mc::outcome(h);
    }

    // ---------------------------------------------------------------------------------------------- L08: transient failures
    bool faults_on;
    int fault_hook(const mc::FsOp& op)
    {
        if (!faults_on || !strcmp(op.kind, "write")) return 0;
        if (!mc::choose_fault(op.kind)) return 0;
        mc::count_extra(0, 1);
        return !strcmp(op.kind, "open") ? EMFILE : !strcmp(op.kind, "mkdir") ? ENOSPC : !strcmp(op.kind, "rename") ? EACCES : !strcmp(op.kind, "remove") ? EACCES : EIO;
    }
    // arg: script number | limit << 4 | size << 8 | header << 12 | pre << 13
    void failing(int arg)
    {
        static const char* scripts[] = { "a", "aa", "a.a", "aab", "a.b.a", "aaaa", "a.aa.a", "b.a", "aabb", "aaa" };
        const char* s = scripts[arg & 15]; std::size_t limit = arg >> 4 & 15; static const std::size_t sizes[] = { 0, 1, 8 }; std::size_t size = sizes[arg >> 8 & 3];
        bool header = arg & 1 << 12; int pre = arg >> 13 & 7;
        cur_name = 0; faults_on = false;
        mc::fs_hook(mc::scratch_dir(), fault_hook);
        begin_world();
        Model md{};
        { mc::Untracked u; preexisting(md, pre, false); }
        w.lg->file_rotation_size(size).file_rotation_limit(limit).write_header(header);
        mc::quiesce();
        faults_on = true;
        std::string fa = fullname(), fb; { mc::Untracked u; fb = dir("e") + "/b.log"; }
        for (const char* c = s; *c; ++c) if (*c == '.') mc::quiesce(); else { int id = emit(*c == 'a' ? fa : fb, 0); w.log[id].file = *c - 'a'; }
        mc::quiesce();                                  // the failures have passed: everything must be there without any further call
        faults_on = false;
        for (int round = 0; round < 2; ++round)
        {
            mc::Untracked u;
            std::string history; for (auto it = md.f.rbegin(); it != md.f.rend(); ++it) history += it->second;
            auto sa = series(dir());
            // the lines of file a, without headers
            auto strip = [](const std::string& t) { std::string r; for (auto& l : lines_of(t)) if (l.text != "HEADER") r += l.text + (l.whole ? "\n" : ""); return r; };
            std::string want = history, wantb; for (int i = 0; i < w.n; ++i) (w.log[i].file ? wantb : want) += std::string(w.log[i].expect) + "\n";
            std::map<int, std::string> st; for (auto& x : sa) st[x.first] = strip(x.second);
            int k = 0; for (auto& x : sa) MC_CHECK(x.first == k++ || !size, "the numbering has a gap:%s", show(sa).c_str());
            check_retained(st, want, limit, size, true, false, round ? "after destruction" : "once the failure has passed");
            if (header) for (auto& x : sa) { auto ls = lines_of(x.second); int h = 0; for (auto& l : ls) h += l.text == "HEADER"; MC_CHECK(h <= 1 && (!h || ls[0].text == "HEADER"), "misplaced header:%s", show(sa).c_str()); }
            std::string b = strip(slurp(fb));
            if (size == 0) MC_CHECK(b == wantb, "file b holds \"%s\"", b.c_str());
            else { std::map<int, std::string> sb; auto l = listing(dir("e")); for (int i = 0; i < 20; ++i) { std::string nm = i ? "b_" + std::to_string(i) + ".log" : "b.log"; if (l.count(nm)) sb[i] = strip(l[nm]); } check_retained(sb, wantb, limit, size, true, false, "in file b"); }
            if (!round) { mc_untracked_end(); delete w.lg; w.lg = nullptr; mc_untracked_begin(); }
            else { std::uint64_t h = 5; for (auto& x : sa) for (char c : x.second) h = h * 131 + (unsigned char)c + x.first; mc::outcome(h); }
        }
    }

    // failing writes: what was written before stays where and as it is, and what is logged once they have passed is written
    int write_fault_hook(const mc::FsOp& op)
    {
        if (!faults_on || strcmp(op.kind, "write") || !mc::choose_fault(op.kind)) return 0;
        mc::count_extra(0, 1);
        return ENOSPC;
    }
    void failing_write(int arg)
    {
        int n = arg & 15, pre = arg >> 4 & 15; std::size_t limit = arg >> 8 & 15; bool header = arg & 1 << 12;
        static const int lens[] = { 3, 3000, 9000 };
        int len = lens[mc::choose(3, "length")]; std::size_t size = mc::choose(3, "rotation size"); size = size == 2 ? ~0ull : size * 10000000; bool batch = mc::choose(2, "batch") == 1;
        cur_name = 0; faults_on = false;
        mc::fs_hook(mc::scratch_dir(), write_fault_hook);
        begin_world();
        w.lg->log_writer([](std::ostream& os, const pluto::log_entry& e) { os << e.message; });
        Model md{}; { mc::Untracked u; preexisting(md, pre, false); }
        w.lg->file_rotation_size(size).file_rotation_limit(limit).write_header(header).buffer_flush_size(batch ? n : 1);
        mc::quiesce();
        faults_on = true;
        std::string f = fullname();
        auto text = [len](int i) { mc::Untracked u; return "m" + std::to_string(i) + ":" + std::string((std::size_t)len, 'x'); };
        for (int i = 0; i < n; ++i) { w.lg->write(f, pluto::log_level::info, { "harness.cpp", 1, "many" }, text(i)); if (!batch && i == n / 2) mc::quiesce(); }
        mc::quiesce();
        faults_on = false;
        w.lg->buffer_flush_size(1);
        for (int i = n; i < n + 3; ++i) w.lg->write(f, pluto::log_level::info, { "harness.cpp", 1, "many" }, text(i));
        mc::quiesce();
        for (int round = 0; round < 2; ++round)
        {
            mc::Untracked u;
            auto got = series(dir());
            for (auto& x : md.f) if (x.first) MC_CHECK(got.count(x.first) && got[x.first] == x.second, "a failing write changed file number %d:%s", x.first, show(got).c_str());
            for (auto& x : got) MC_CHECK(!x.first || md.f.count(x.first), "a failing write made the logger start file number %d far below the rotation size:%s", x.first, show(got).c_str());
            std::string cur = got[0], old = md.f.count(0) ? md.f[0] : "";
            MC_CHECK(cur.compare(0, old.size(), old) == 0, "a failing write changed what the file held:%s", show(got).c_str());
            auto ls = lines_of(cur.substr(old.size())); int last = -1, after = 0;
            for (auto& l : ls) for (int i = 0; i < n + 3; ++i) if (l.text == text(i)) { MC_CHECK(i > last, "log %d is written after log %d", i, last); last = i; after += i >= n; }
            MC_CHECK(after >= 2, "only %d of the 3 logs made after the failure are in the file", after);       // the first may share its line with what was cut short
            std::size_t p = cur.find(text(n)); MC_CHECK(p != std::string::npos, "the first log made after the failure is lost");
            if (!round) { mc_untracked_end(); delete w.lg; w.lg = nullptr; mc_untracked_begin(); }
            else mc::outcome((std::uint64_t)cur.size() * 8 + after);
        }
    }

    mc::Opt O(int qp, int tp, int qf = 0, int tf = 0, double qs = 60, double ts = 300)
    {
        mc::Opt o; o.quick.preempt = qp; o.thorough.preempt = tp; o.quick.fault = qf; o.thorough.fault = tf;
        o.quick.max_s = qs; o.quick.max_exec = 5000000; o.thorough.max_s = ts; o.thorough.max_exec = 50000000;
        return o;
    }
    mc::Opt D(int qd, int td) { mc::Opt o = O(0, 0, 0, 0, 100, 300); o.quick.delay = qd; o.thorough.delay = td; return o; }
    std::vector<std::string>* names;
    const char* keep(const std::string& s) { if (!names) { names = new std::vector<std::string>; names->reserve(4000); } names->push_back(s); return names->back().c_str(); }
}

#ifdef FS_LITE      // a second build with another file-system library
const bool LITE = true;
#else
const bool LITE = false;
#endif
void mc_register()
{
    // ---- L06
    mc::scenario("L06", "rotation-3-logs", O(0, 1), rotation, 3);
    mc::scenario("L06", "rotation-4-logs", O(0, 0), rotation, 4);
#ifndef FS_LITE
    for (int z = 1; z <= 4; ++z)
    {
        static const char* sz[] = { "0", "1", "8", "16" };
        mc::scenario("L06", keep(std::string("rotation-5-logs-size") + sz[z - 1]), O(0, 0, 0, 0, 100, 600), rotation, 5 | z << 8);
        mc::scenario("L06", keep(std::string("settings-change-4-size") + sz[z - 1]), O(0, 0, 0, 0, 100, 600), rotation, 4 | 32 | z << 8);
    }
#endif
    mc::scenario("L06", "names-3-logs", O(0, 0), rotation, 3 | 16);
    mc::scenario("L06", "more-than-nine-files", O(0, 0), rotation, 2 | 3 << 4 | 2 << 8);
    mc::scenario("L06", "two-files", O(0, 0), separate_files, 0); mc::scenario("L06", "many-logs", D(0, 1), rotation_many, 0); mc::scenario("L06", "many-files", D(0, 1), rotation_many, 1);
    mc::scenario("L06", "working-directory", O(0, 0), working_directory); mc::scenario("L06", "relative-paths", O(0, 0), separate_files, 1);
    for (int s = 0; s < 7; ++s) for (int b = 0; b < 8; ++b) mc::scenario("L06", keep("live-" + std::to_string(s) + (b & 1 ? "-header" : "") + (b & 2 ? "-size6" : "-size1") + (b & 4 ? "-settled" : "")), O(s == 4 || LITE ? 2 : 3, LITE ? 3 : 4, 0, 0, 25, 60), rotation_live, s | b << 3);
    // ---- L07
    for (int limit = 0; limit < 4; ++limit) for (int size = 0; size < 4; ++size) for (int pre = 0; pre < 12; ++pre) for (int v = 0; v < 4; ++v)
    {
        if ((size == 0 && limit) || (leftovers[pre].torn && leftovers[pre].mask >> (limit + 1))) continue;
        int n = 5;
        mc::scenario("L07", keep("limit" + std::to_string(limit) + "-size" + std::to_string(size) + "-existing" + std::to_string(leftovers[pre].mask) + (leftovers[pre].torn ? "torn" : "") + (v & 1 ? "-header" : "") + (v & 2 ? "-settled" : "")),
            O(1, 2), crash, n | limit << 4 | size << 8 | pre << 12 | v << 16);
    }
    mc::extra_name(0, "crash_states");
    // ---- L08
    for (int n : { 1, 3, 5 }) for (int pre : { 0, 1, 3 }) for (int limit : { 0, 1, 2 }) for (int header = 0; header < 2; ++header)
        mc::scenario("L08", keep("failing-writes-" + std::to_string(n) + "-logs-pre" + std::to_string(pre) + "-limit" + std::to_string(limit) + (header ? "-header" : "")), O(0, 1, 2, 3, 60, 200), failing_write, n | pre << 4 | limit << 8 | header << 12);
    for (int s = 0; s < 10; ++s) for (int v = 0; v < 7; ++v)
    {
        static const int lim[] = { 0, 20, 20, 2, 1, 3, 3 }, siz[] = { 0, 1, 2, 1, 1, 1, 2 }, pre[] = { 0, 0, 1, 3, 2, 4, 4 };
        for (int h = 0; h < 2; ++h)
        mc::scenario("L08", keep("script" + std::to_string(s) + "-limit" + std::to_string(lim[v]) + "-size" + std::to_string(siz[v]) + "-existing" + std::to_string(pre[v]) + (h ? "-header" : "")),
            O(h ? 0 : 1, 2, 2, 3, 30, 60), failing, s | lim[v] << 4 | siz[v] << 8 | h << 12 | pre[v] << 13);
    }
}
