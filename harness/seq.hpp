// Exhaustive enumeration of operation sequences, inputs or failure points on the real code, one process.
//
// A scenario is a function that walks its whole space in a fixed order and calls next() before every case; a case whose
// number belongs to another shard (or, in a replay, is not the one asked for) is skipped.  A case that fails, crashes,
// corrupts memory (the harness is built with ASan and UBSan), lets an exception escape or does not end is a violation;
// it is run again on its own before it is reported.
#pragma once
#include <algorithm>
#include <cerrno>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <exception>
#include <string>
#include <vector>
#include <csignal>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>

namespace seq
{
    typedef std::uint64_t u64;
    struct Scn { std::string prop, name; void (*fn)(int); int arg; int shards; bool thorough; };
    inline std::vector<Scn>& scns() { static std::vector<Scn> v; return v; }
    inline void scenario(const char* prop, const std::string& name, void (*fn)(int), int arg = 0, int shards = 1, bool thoroughOnly = false) { scns().push_back(Scn{ prop, name, fn, arg, shards, thoroughOnly }); }

    struct Shared
    {
        volatile u64 idx, last_tick; volatile int ticks; volatile int done, viol, capped;
        u64 cases, steps, states, outcomes, nontrivial; char msg[1600]; char desc[1600]; int nsamples; char samples[4][400];
    };
    struct Set      // a set of hashes
    {
        std::vector<u64> t; std::size_t n = 0;
        bool add(u64 h)
        {
            if (!h) h = 1;
            if (t.empty()) t.resize(1 << 12);
            if (n * 2 >= t.size())
            {
                if (t.size() >= (1u << 25)) return false;
                std::vector<u64> o; o.swap(t); t.resize(o.size() * 2); n = 0;
                for (u64 x : o) if (x) add(x);
            }
            std::size_t i = (h * 0x9E3779B97F4A7C15ull) >> 20 & (t.size() - 1);
            for (; t[i]; i = (i + 1) & (t.size() - 1)) if (t[i] == h) return false;
            t[i] = h; ++n; return true;
        }
    };
    struct Ctl
    {
        Shared* sh = nullptr; u64 idx = 0; u64 only = ~0ull; int shard = 0, shards = 1; bool thorough = false, verbose = false, sampling = false; double t_end = 1e18; Set states, outs;
    };
    inline Ctl& ctl() { static Ctl c; return c; }
    inline double now() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
    inline bool thorough() { return ctl().thorough; }
    inline bool verbose() { return ctl().verbose; }

    inline void finish() { Ctl& c = ctl(); c.sh->states = c.states.n; c.sh->outcomes = c.outs.n; c.sh->done = 1; }
    inline bool next()
    {
        Ctl& c = ctl(); u64 i = c.idx++;
        if (c.only != ~0ull)
        {
            if (i > c.only) { finish(); _exit(0); }
            if (i != c.only) return false;
            c.sh->idx = i; c.verbose = c.sampling = true; return true;
        }
        if (c.shards > 1 && (int)(i % (u64)c.shards) != c.shard) return false;
        Shared& s = *c.sh;
        s.idx = i; u64 n = ++s.cases;
        c.sampling = s.nsamples < 4 && (n == 2 || n == 97 || n == 3001 || n == 70001);
        if (c.sampling) ++s.nsamples;
        if ((n & 255) == 0 && now() > c.t_end) { s.capped = 1; finish(); _exit(0); }
        return true;
    }
    // describes the current case; the arguments are only evaluated when somebody will read it
#define SEQ_CASE(...) do { if (::seq::ctl().sampling) ::seq::describe(__VA_ARGS__); } while (0)
    inline void describe(const char* f, ...) __attribute__((format(printf, 1, 2)));
    inline void describe(const char* f, ...)
    {
        Ctl& c = ctl(); va_list a; va_start(a, f); char b[1600]; std::vsnprintf(b, sizeof b, f, a); va_end(a);
        std::memcpy(c.sh->desc, b, sizeof b);
        if (c.only == ~0ull && c.sh->nsamples) std::snprintf(c.sh->samples[c.sh->nsamples - 1], sizeof c.sh->samples[0], "%.390s", b);
    }
    [[noreturn]] inline void fail(const char* f, ...) __attribute__((format(printf, 1, 2)));
    [[noreturn]] inline void fail(const char* f, ...)
    {
        va_list a; va_start(a, f); std::vsnprintf(ctl().sh->msg, sizeof ctl().sh->msg, f, a); va_end(a);
        for (char* p = ctl().sh->msg; *p; ++p) if (*p == '\n') *p = ' ';
        ctl().sh->viol = 1; finish(); _exit(50);
    }
#define SEQ_CHECK(cond, ...) do { if (!(cond)) ::seq::fail(__VA_ARGS__); } while (0)
    inline u64 mix(u64 h, u64 v) { h ^= v + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdull; return h ^ (h >> 32); }
    inline void step(u64 n = 1) { ctl().sh->steps += n; }
    inline void state(u64 h) { ctl().states.add(h); }
    inline void outcome(u64 h) { ctl().outs.add(h); }
    inline void nontrivial() { ++ctl().sh->nontrivial; }
    // lengths from nothing to beyond every small buffer, counter width and block size one would choose
    inline const std::vector<std::size_t>& lengths()
    {
        static std::vector<std::size_t> v = [] { std::vector<std::size_t> l; for (std::size_t n = 0; n <= (thorough() ? 140u : 20u); ++n) l.push_back(n);
            for (int k = 6; k <= (thorough() ? 17 : 12); ++k) for (std::size_t n = ((std::size_t)1 << k) - 1; n <= ((std::size_t)1 << k) + 1; ++n) l.push_back(n);
            for (std::size_t n : { 31u, 32u, 33u, 50u, 80u, 100u, 200u, 1000u, 10000u, 65535u, 65536u, 65537u }) if (n != 10000 || thorough()) l.push_back(n);
            return l; }();
        return v;
    }
    // every long list made of one value with a fragment put into it: at every place of the short ones, at the telling places of the long ones, once or also at the end
    template<class V, class F> void long_lists(const V& fill, const std::vector<std::vector<V>>& frags, std::size_t most, F f)
    {
        for (std::size_t n : lengths())
        {
            if (n > most) continue;
            std::vector<V> w(n, fill); f(w);
            for (auto& g : frags)
            {
                auto put = [&](std::size_t at) { std::vector<V> x = w; x.insert(x.begin() + (std::ptrdiff_t)at, g.begin(), g.end()); f(x); if (at < n) { x.insert(x.end(), g.begin(), g.end()); f(x); } };
                if (n > 5000 && !thorough()) { put(n - 1); break; }      // one case with the first fragment will do for the very long ones
                if (n <= (thorough() ? 40u : 17u)) for (std::size_t i = 0; i <= n; ++i) put(i);
                else for (std::size_t i : { (std::size_t)0, (std::size_t)1, n / 2, n - g.size(), n - 1, n }) put(i);
                if (n > 4 && g.size()) { std::vector<V> x; while (x.size() < n) x.insert(x.end(), g.begin(), g.end()); f(x); x.resize(n); f(x); x.push_back(fill); f(x); }
            }
        }
    }
    // printable form of any text
    template<class S> std::string show(const S& s)
    {
        std::string o = "\""; char b[16];
        for (auto ch : s)
        {
            auto v = (unsigned long)ch;
            if (sizeof(ch) == 1) v &= 0xff; else if (sizeof(ch) == 2) v &= 0xffff; else v &= 0xffffffff;
            if (v >= 32 && v < 127 && v != '"' && v != '\\') o += (char)v;
            else { std::snprintf(b, sizeof b, sizeof(ch) == 1 ? "\\x%02lx" : "\\u{%lx}", v); o += b; }
        }
        return o + "\"";
    }

    inline void on_tick(int)
    {
        Shared& s = *ctl().sh;
        if (s.last_tick == s.idx + 1) { s.ticks = s.ticks + 1; if (s.ticks >= 2) { std::snprintf(s.msg, sizeof s.msg, "the call does not return"); s.viol = 1; s.done = 1; _exit(50); } }
        else { s.last_tick = s.idx + 1; s.ticks = 0; }
    }
    inline void child(const Scn& s, int shard, Shared* sh, bool th, u64 only, double secs, int errfd)
    {
        Ctl& c = ctl(); c.sh = sh; c.shard = shard; c.shards = s.shards; c.thorough = th; c.only = only; c.idx = 0; c.t_end = now() + secs;
        if (errfd >= 0) { dup2(errfd, 2); } else { int n = open("/dev/null", O_WRONLY); dup2(n, 2); }
        struct sigaction a; std::memset(&a, 0, sizeof a); a.sa_handler = on_tick; a.sa_flags = SA_RESTART; sigaction(SIGPROF, &a, nullptr);
        int per = only == ~0ull ? 8 : 4; struct itimerval t = { { per, 0 }, { per, 0 } }; setitimer(ITIMER_PROF, &t, nullptr);
        try { s.fn(s.arg); }
        catch (const std::exception& e) { std::snprintf(sh->msg, sizeof sh->msg, "an exception escaped: %.200s", e.what()); sh->viol = 1; finish(); _exit(50); }
        catch (...) { std::snprintf(sh->msg, sizeof sh->msg, "an exception escaped"); sh->viol = 1; finish(); _exit(50); }
        finish(); _exit(0);
    }
    inline Shared* newshm() { void* p = mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); if (p == MAP_FAILED) { perror("mmap"); exit(2); } return (Shared*)p; }
    inline bool failed(int st, Shared* sh) { return !(WIFEXITED(st) && WEXITSTATUS(st) == 0 && sh->done) || sh->viol; }
    // run one case on its own (or, only == ~0, a whole shard again); fills msg
    inline bool confirm(const Scn& s, int shard, bool th, u64 only, double secs, Shared* sh)
    {
        std::memset(sh, 0, sizeof *sh);
        char tn[] = "/tmp/seqerr.XXXXXX"; int fd = mkstemp(tn); if (fd >= 0) unlink(tn);
        std::fflush(stdout);
        pid_t p = fork(); if (!p) child(s, shard, sh, th, only, secs, fd);
        int st = 0; waitpid(p, &st, 0);
        bool bad = failed(st, sh);
        if (bad && !sh->viol)
        {
            std::string e; char b[4096]; ssize_t n; lseek(fd, 0, SEEK_SET);
            while ((n = read(fd, b, sizeof b)) > 0 && e.size() < 100000) e.append(b, (std::size_t)n);
            std::string line; std::size_t q;
            for (const char* k : { "ERROR: AddressSanitizer: ", "runtime error: ", "terminate called", "Assertion" }) if ((q = e.find(k)) != std::string::npos) { line = e.substr(q, e.find('\n', q) - q); break; }
            if (WIFSIGNALED(st)) std::snprintf(sh->msg, sizeof sh->msg, "killed by signal %d %.300s", WTERMSIG(st), line.c_str());
            else std::snprintf(sh->msg, sizeof sh->msg, "crashed (exit %d): %.400s", WEXITSTATUS(st), line.c_str());
        }
        if (const char* d = std::getenv("SEQ_STDERR")) { lseek(fd, 0, SEEK_SET); FILE* o = std::fopen(d, "w"); char b[4096]; ssize_t n; while (o && (n = read(fd, b, sizeof b)) > 0) std::fwrite(b, 1, (std::size_t)n, o); if (o) std::fclose(o); }
        if (fd >= 0) close(fd);
        return bad;
    }
    inline std::string jesc(const char* s) { std::string o; for (; *s; ++s) { if (*s == '"' || *s == '\\') { o += '\\'; o += *s; } else if ((unsigned char)*s < 32 || (unsigned char)*s > 126) o += '?'; else o += *s; } return o; }

    inline int main(int argc, char** argv, void (*reg)())
    {
        const char *prop = "", *tier = "quick", *stats = nullptr, *only = nullptr, *rdir = ".", *rep = nullptr, *tag = "20"; int jobs = 8; double budget = 0; bool list = false;
        for (int i = 1; i < argc; ++i)
        {
            std::string a = argv[i]; auto nx = [&] { return i + 1 < argc ? argv[++i] : (char*)""; };
            if (a == "--prop") prop = nx(); else if (a == "--tier") tier = nx(); else if (a == "--stats") stats = nx(); else if (a == "--only") only = nx();
            else if (a == "--replay-dir") rdir = nx(); else if (a == "--replay") rep = nx(); else if (a == "--tag") tag = nx(); else if (a == "--jobs") jobs = atoi(nx());
            else if (a == "--budget") budget = atof(nx()); else if (a == "--list") list = true;
        }
        reg();
        if (list) { for (auto& s : scns()) std::printf("%s %s\n", s.prop.c_str(), s.name.c_str()); return 0; }
        if (rep)
        {
            FILE* f = std::fopen(rep, "r"); if (!f) { perror(rep); return 2; }
            char l[4096], v[512]; std::string p, n, tr = "quick"; unsigned long long cs = 0; int sh = 0;
            while (std::fgets(l, sizeof l, f))
            {
                if (std::sscanf(l, "property %511s", v) == 1) p = v; else if (std::sscanf(l, "scenario %511s", v) == 1) n = v; else if (std::sscanf(l, "tier %511s", v) == 1) tr = v;
                else if (std::sscanf(l, "case %llu", &cs) == 1) {} else if (std::sscanf(l, "shard %d", &sh) == 1) {}
            }
            std::fclose(f);
            for (auto& s : scns()) if (s.prop == p && s.name == n)
            {
                Shared* m = newshm(); bool bad = confirm(s, sh, tr == "thorough", cs, 1e9, m);
                std::printf("replay: %s\n%s%s\n", m->desc, bad ? "VIOLATED: " : "no violation", bad ? m->msg : "");
                return bad ? 1 : 0;
            }
            std::fprintf(stderr, "no such scenario\n"); return 2;
        }
        bool th = std::strcmp(tier, "thorough") == 0; double secs = th ? 600 : 120; if (budget > 0 && budget < secs) secs = budget;
        struct Job { Scn* s; int shard; Shared* sh; pid_t pid; double t0, t; };
        std::vector<Job> js; double t0 = now(); std::string viol; int bad = 0, nviol = 0, running = 0; std::size_t nextj = 0;
        for (auto& s : scns()) if (s.prop == prop && (th || !s.thorough) && (!only || s.name.find(only) != std::string::npos))
            for (int k = 0; k < s.shards; ++k) js.push_back(Job{ &s, k, newshm(), 0, 0, 0 });
        Shared* cm = newshm();
        while (nextj < js.size() || running)
        {
            while (running < jobs && nextj < js.size() && !nviol)
            {
                Job& j = js[nextj++]; j.t0 = now(); std::fflush(stdout);
                j.pid = fork(); if (!j.pid) child(*j.s, j.shard, j.sh, th, ~0ull, secs, -1);
                ++running;
            }
            if (!running) break;
            int st; pid_t p = waitpid(-1, &st, 0); if (p < 0) break;
            for (auto& j : js) if (j.pid == p)
            {
                --running; j.pid = 0; j.t = now() - j.t0;
                if (!failed(st, j.sh)) break;
                u64 at = j.sh->idx;
                if (!confirm(*j.s, j.shard, th, at, 300, cm))
                {   // the case may depend on those before it
                    if (!confirm(*j.s, j.shard, th, ~0ull, secs, cm) || cm->idx != at)
                    {
                        std::fprintf(stderr, "internal: a failure in %s case %llu was not reproducible: %s\n", j.s->name.c_str(), (unsigned long long)at, j.sh->viol ? j.sh->msg : "crash"); bad = 1; break;
                    }
                    std::snprintf(cm->desc, sizeof cm->desc, "only after the cases before it in the same process"); at = ~0ull;
                }
                if (nviol++ >= 3) break;
                std::string rp = std::string(rdir) + "/" + prop + "-" + tag + "-" + j.s->name + ".replay";
                FILE* f = std::fopen(rp.c_str(), "w");
                if (f) { std::fprintf(f, "property %s\nvariant %s\ntier %s\nscenario %s\nshard %d\ncase %llu\nmessage %s\ndescription %s\n", prop, tag, tier, j.s->name.c_str(), j.shard, (unsigned long long)at, cm->msg, cm->desc); std::fclose(f); }
                std::printf("%s: %s: %s [%s]\nVIOLATION property=%s replay=%s\n", prop, j.s->name.c_str(), cm->msg, cm->desc, prop, rp.c_str());
                std::fflush(stdout);
                break;
            }
        }
        if (stats)
        {
            FILE* f = std::fopen(stats, "w"); if (!f) return 2;
            std::fprintf(f, "{\"wall_s\": %.2f, \"violations\": %d, \"scenarios\": [", now() - t0, nviol);
            bool first = true;
            for (auto& s : scns())
            {
                u64 ex = 0, stp = 0, sta = 0, out = 0, nt = 0; int cap = 0; double t = 0; bool any = false; std::string smp;
                for (auto& j : js) if (j.s == &s)
                {
                    any = true; ex += j.sh->cases; stp += j.sh->steps; sta += j.sh->states; out = std::max<u64>(out, j.sh->outcomes); nt += j.sh->nontrivial; cap |= j.sh->capped; t += j.t;
                    for (int i = 0; i < j.sh->nsamples; ++i) if (j.sh->samples[i][0]) smp += (smp.empty() ? "\"" : ", \"") + jesc(j.sh->samples[i]) + "\"";
                }
                if (!any) continue;
                if (!sta) sta = ex;
                if (!stp) stp = ex;
                std::fprintf(f, "%s{\"name\": \"%s\", \"executions\": %llu, \"steps\": %llu, \"states\": %llu, \"outcomes\": %llu, \"nontrivial\": %llu, \"capped\": %s, \"wall_s\": %.2f, \"samples\": [%s]}", first ? "" : ",\n", jesc(s.name.c_str()).c_str(),
                    (unsigned long long)ex, (unsigned long long)stp, (unsigned long long)sta, (unsigned long long)out, (unsigned long long)nt, cap ? "true" : "false", t, smp.c_str());
                first = false;
            }
            std::fprintf(f, "]}\n"); std::fclose(f);
        }
        return nviol ? 1 : bad ? 2 : 0;
    }
}
