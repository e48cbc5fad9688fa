// L10 (default lines and header of the logger), V04 (calendar breakdown, process and thread ids).
#include "seq.hpp"
#include <chrono>
#ifdef COARSE_CLOCK
// a clock that counts milliseconds from the POSIX epoch
struct coarse_clock
{
    typedef std::chrono::duration<long long, std::milli> duration; typedef duration::rep rep; typedef duration::period period; typedef std::chrono::time_point<coarse_clock> time_point; static constexpr bool is_steady = false;
    static time_point now() noexcept { return time_point(duration(0)); }
    static std::time_t to_time_t(const time_point& t) noexcept { return (std::time_t)(t.time_since_epoch().count() / 1000); }
};
#define PLUTO_LOGGER_CLOCK_TYPE coarse_clock
#endif
#include <cstdarg>
#include <cstdint>
#include <list>
#include <map>
#include <sstream>
#include <pluto/logger.hpp>
#include <thread>

namespace
{
    using seq::u64; typedef long long ll;
    // ------------------------------------------------------------------------ calendar, from the definition of the Gregorian calendar
    struct Cal { ll y; int mo, d, h, mi, s, wd, yd; };
    bool leap(ll y) { return (y % 4 == 0 && y % 100 != 0) || y % 400 == 0; }
    int mdays(ll y, int m) { static const int n[] = { 31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31 }; return n[m] + (m == 1 && leap(y)); }
    // counts years and months one after the other, from a table of the first day of every 400 years
    Cal civil(ll t)
    {
        ll day = t / 86400, sec = t % 86400; if (sec < 0) { sec += 86400; --day; }
        Cal c; c.h = (int)(sec / 3600); c.mi = (int)(sec / 60 % 60); c.s = (int)(sec % 60); c.wd = (int)(((day % 7) + 7 + 4) % 7);
        ll era = day / 146097; if (day % 146097 < 0) --era;
        ll rest = day - era * 146097, y = 1970 + era * 400;
        while (rest >= (leap(y) ? 366 : 365)) { rest -= leap(y) ? 366 : 365; ++y; }
        c.y = y; c.yd = (int)rest; int m = 0;
        while (rest >= mdays(y, m)) { rest -= mdays(y, m); ++m; }
        c.mo = m; c.d = (int)rest + 1; return c;
    }
    ll days_before_year(ll y) { ll n = 0; if (y >= 1970) for (ll k = 1970; k < y; ++k) n += leap(k) ? 366 : 365; else for (ll k = y; k < 1970; ++k) n -= leap(k) ? 366 : 365; return n; }
    // POSIX zones: offset east of Greenwich and optional rule "from the week-th (5: last) Sunday of a month at a local hour"
    struct Rule { int mo, week, sec; };
    struct Zone { const char* tz; int std_off; bool dst; int dst_off; Rule begin, end; const char *n0, *n1; };
    const Zone ZONES[] =
    {
        { "UTC0", 0, false, 0, {}, {}, "UTC", "" },
        { "EST5EDT,M3.2.0,M11.1.0", -5 * 3600, true, -4 * 3600, { 2, 2, 7200 }, { 10, 1, 7200 }, "EST", "EDT" },
        { "CET-1CEST,M3.5.0,M10.5.0/3", 3600, true, 7200, { 2, 5, 7200 }, { 9, 5, 10800 }, "CET", "CEST" },
        { "AEST-10AEDT,M10.1.0,M4.1.0/3", 36000, true, 39600, { 9, 1, 7200 }, { 3, 1, 10800 }, "AEST", "AEDT" },
        { "<+1245>-12:45<+1345>,M9.5.0/2:45,M4.1.0/3:45", 45900, true, 49500, { 8, 5, 9900 }, { 3, 1, 13500 }, "+1245", "+1345" },
        { "<-1130>11:30", -41400, false, 0, {}, {}, "-1130", "" },
        { "<+0545>-5:45", 20700, false, 0, {}, {}, "+0545", "" },
    };
    // local wall clock second (since 1970 as if UTC) at which the rule strikes in a year
    ll strike(const Rule& r, ll y)
    {
        ll d = days_before_year(y); for (int m = 0; m < r.mo; ++m) d += mdays(y, m);
        int wd = (int)(((d % 7) + 7 + 4) % 7), first = (7 - wd) % 7, day = first + 7 * (r.week - 1);
        while (day >= mdays(y, r.mo)) day -= 7;
        return (d + day) * 86400 + r.sec;
    }
    bool is_dst(const Zone& z, ll t)
    {
        if (!z.dst) return false;
        ll y = civil(t + z.std_off).y;
        ll b = strike(z.begin, y) - z.std_off, e = strike(z.end, y) - z.dst_off;
        return b < e ? (t >= b && t < e) : !(t >= e && t < b);
    }
    void use_zone(const Zone& z) { ::setenv("TZ", z.tz, 1); ::tzset(); }
    std::string cal_str(const Cal& c) { char b[96]; std::snprintf(b, sizeof b, "%lld-%02d-%02d %02d:%02d:%02d wday %d yday %d", c.y, c.mo + 1, c.d, c.h, c.mi, c.s, c.wd, c.yd); return b; }
    std::string tm_str(const std::tm& t) { Cal c{ t.tm_year + 1900ll, t.tm_mon, t.tm_mday, t.tm_hour, t.tm_min, t.tm_sec, t.tm_wday, t.tm_yday }; return cal_str(c); }
    void same(const char* what, ll t, const std::tm& g, const Cal& w, int dst)
    {
        SEQ_CHECK(g.tm_year + 1900ll == w.y && g.tm_mon == w.mo && g.tm_mday == w.d && g.tm_hour == w.h && g.tm_min == w.mi && g.tm_sec == w.s && g.tm_wday == w.wd && g.tm_yday == w.yd,
            "%s(%lld) is %s instead of %s", what, t, tm_str(g).c_str(), cal_str(w).c_str());
        SEQ_CHECK(g.tm_isdst == dst, "%s(%lld): daylight saving flag %d instead of %d", what, t, g.tm_isdst, dst);
    }
    // ================================================================================================ V04
    void gm_days(int century)
    {
        ::setenv("TZ", ZONES[4].tz, 1); ::tzset();
        ll from = days_before_year(century), to = days_before_year(century + 100);
        static const int T[] = { 0, 1, 3599, 3600, 43200, 86399 };
        for (ll d = from; d < to; ++d) if (seq::next())
        {
            SEQ_CASE("the day %lld days after 1970-01-01", d);
            for (int s : T) { std::time_t t = (std::time_t)(d * 86400 + s); Cal c = civil(d * 86400 + s); same("gm_time", t, pluto::gm_time(t), c, 0); SEQ_CHECK(t == (std::time_t)(d * 86400 + s), "the argument changed"); seq::step(); if (s == 0) seq::outcome((u64)c.wd * 400 + (u64)c.yd); }
        }
    }
    void gm_far(int)
    {
        std::vector<ll> v;
        for (int b = 0; b < 56; ++b) for (ll d = -1; d <= 1; ++d) { v.push_back((1ll << b) + d); v.push_back(-(1ll << b) + d); }
        for (ll y : { -9999ll, 0ll, 1ll, 4ll, 100ll, 400ll, 1582ll, 1600ll, 1899ll, 1900ll, 9999ll, 10000ll, 1000000ll }) { ll d = days_before_year(y) * 86400; for (ll k = -1; k <= 1; ++k) v.push_back(d + k); }
        for (ll t : v) if (seq::next()) { SEQ_CASE("second %lld", t); same("gm_time", t, pluto::gm_time((std::time_t)t), civil(t), 0); }
    }
    void seconds_of_a_day(int z)
    {
        use_zone(ZONES[z]);
        for (ll day : { -1ll, 0ll, 11016ll, 19782ll }) for (int s = 0; s < 86400; ++s) if (seq::next())
        {
            ll t = day * 86400 + s; SEQ_CASE("%s second %lld", ZONES[z].tz, t);
            bool d = is_dst(ZONES[z], t); Cal c = civil(t + (d ? ZONES[z].dst_off : ZONES[z].std_off));
            same("local_time", t, pluto::local_time((std::time_t)t), c, d); same("gm_time", t, pluto::gm_time((std::time_t)t), civil(t), 0);
        }
    }
    void local_hours(int z)
    {
        const Zone& Z = ZONES[z]; use_zone(Z);
        ll y0 = seq::thorough() ? 1971 : 1998, y1 = seq::thorough() ? 2105 : 2042;
        std::vector<ll> v;
        for (ll y = y0; y < y1; ++y)
        {
            ll b = days_before_year(y) * 86400, e = days_before_year(y + 1) * 86400;
            for (ll t = b; t < e; t += 3600) v.push_back(t);
            if (Z.dst) for (ll k : { strike(Z.begin, y) - Z.std_off, strike(Z.end, y) - Z.dst_off }) for (ll d = -2; d <= 2; ++d) v.push_back(k + d);
        }
        for (ll t : v) if (seq::next())
        {
            SEQ_CASE("%s second %lld", Z.tz, t);
            bool d = is_dst(Z, t); int off = d ? Z.dst_off : Z.std_off;
            std::tm g = pluto::local_time((std::time_t)t); same("local_time", t, g, civil(t + off), d);
            SEQ_CHECK(g.tm_gmtoff == off && std::string(g.tm_zone) == (d ? Z.n1 : Z.n0), "local_time(%lld): offset %ld zone %s", t, g.tm_gmtoff, g.tm_zone);
            std::tm back = g; SEQ_CHECK(std::mktime(&back) == (std::time_t)t, "local_time(%lld) does not convert back", t);
            seq::outcome((u64)(d ? 1 : 0));
        }
    }
    // results are independent of each other and of the zone in force before
    void sequences(int)
    {
        static const ll T[] = { 0, 951782399, 1700000000, 1720000000, -1 };
        for (int a = 0; a < 5; ++a) for (int za = 0; za < 7; ++za) for (int b = 0; b < 5; ++b) for (int zb = 0; zb < 7; ++zb) if (seq::next())
        {
            SEQ_CASE("second %lld in %s, then %lld in %s", T[a], ZONES[za].tz, T[b], ZONES[zb].tz);
            std::time_t ta = (std::time_t)T[a], tb = (std::time_t)T[b];
            use_zone(ZONES[za]); std::tm la = pluto::local_time(ta), ga = pluto::gm_time(ta);
            use_zone(ZONES[zb]); std::tm lb = pluto::local_time(tb), gb = pluto::gm_time(tb);
            auto chk = [](const Zone& z, ll t, const std::tm& l, const std::tm& g) { bool d = is_dst(z, t); same("local_time", t, l, civil(t + (d ? z.dst_off : z.std_off)), d); same("gm_time", t, g, civil(t), 0); };
            chk(ZONES[za], T[a], la, ga); chk(ZONES[zb], T[b], lb, gb);
        }
    }
    // ids in every order of being asked by a process, its threads and its children
    void ids(int)
    {
        int len = seq::thorough() ? 5 : 4; int total = 1; for (int i = 0; i < len; ++i) total *= 4;
        for (int code = 0; code < total; ++code) if (seq::next())
        {
            SEQ_CASE("program %d: 0 ask, 1 in a new thread, 2 in a child process, 3 go on in a child process", code);
            auto ask = []() -> bool { return pluto::process_id() == (int)::getpid() && pluto::thread_id() == (std::size_t)::gettid(); };
            int k = code, left = 0; bool ok = true, inner = false;
            for (; left < len; ++left, k /= 4)
            {
                int op = k % 4;
                if (op == 0) ok = ok && ask();
                else if (op == 1) { bool r = false; std::thread([&] { r = ask(); }).join(); ok = ok && r; }
                else if (op == 2) { pid_t p = ::fork(); if (p == 0) _exit(ask() ? 0 : 1); int st = 0; ::waitpid(p, &st, 0); ok = ok && WIFEXITED(st) && WEXITSTATUS(st) == 0; }
                else { pid_t p = ::fork(); if (p != 0) { int st = 0; ::waitpid(p, &st, 0); ok = ok && WIFEXITED(st) && WEXITSTATUS(st) == 0; break; } inner = true; }
            }
            if (inner) _exit(ok ? 0 : 1);
            SEQ_CHECK(ok, "an id is not that of the process or thread that asks");
        }
    }

    // ================================================================================================ L10
    std::string pad_right(std::string s, std::size_t n) { while (s.size() < n) s += ' '; return s; }
    std::string pad_left(std::string s, std::size_t n) { while (s.size() < n) s = " " + s; return s; }
    const char* title(int l)
    {
        switch (l) { case -1: return "Level"; case 0: return "Verbose"; case 1: return "Trace"; case 2: return "Debug"; case 3: return "Info"; case 4: return "Notice"; case 5: return "Warning"; case 6: return "Error"; case 7: return "Critical"; case 8: return "Fatal"; }
        return "Unknown";
    }
    typedef pluto::logger::clock_type Clock;
    struct Log { ll sec; int frac_ns; std::size_t tid; int level; std::string file; int line; std::string func; std::string msg; };
    std::string last_part(const std::string& s) { std::size_t p = 0; for (std::size_t i = 0; i < s.size(); ++i) if (s[i] == '/' || s[i] == '\\') p = i + 1; return s.substr(p); }
    std::string reference(const Log& l, const Zone& z)
    {
        bool d = is_dst(z, l.sec); Cal c = civil(l.sec + (d ? z.dst_off : z.std_off)); char b[64];
        std::snprintf(b, sizeof b, "%lld-%02d-%02d %02d:%02d:%02d.%06d", c.y, c.mo + 1, c.d, c.h, c.mi, c.s, l.frac_ns / 1000);
        std::string o = b; o += '|'; o += pad_left(std::to_string(l.tid), 7) + '|' + pad_right(title(l.level), 8) + '|';
#if !PLUTO_LOGGER_HIDE_SOURCE_INFO
        o += pad_right(last_part(l.file).substr(0, 20), 20) + '|' + pad_left(std::to_string(l.line), 5) + '|' + pad_right(l.func.substr(0, 20), 20) + '|';
#endif
        return o + l.msg;
    }
    std::string header_reference()
    {
        std::string t = pad_right("Timestamp", 26) + '|' + pad_left("TID", 7) + '|' + pad_right("Level", 8) + '|';
#if !PLUTO_LOGGER_HIDE_SOURCE_INFO
        t += pad_right("File Name", 20) + '|' + pad_left("Line", 5) + '|' + pad_right("Function", 20) + '|';
#endif
        std::string u; for (char ch : t) u += ch == '|' ? '+' : '-';
        return t + "Message\n" + u + "-------";
    }
    pluto::log_entry entry(const Log& l)
    {
        auto since = std::chrono::duration_cast<Clock::duration>(std::chrono::seconds(l.sec) + std::chrono::nanoseconds(l.frac_ns));
        return pluto::log_entry(Clock::time_point(since), l.tid, (pluto::log_level)l.level, pluto::source_info(l.file.c_str(), l.line, l.func.c_str()), l.msg);
    }
    int usable(int ns) { using P = Clock::duration::period; ll per = 1000000000ll * P::num / P::den; return (int)(ns / per * per); }      // what the clock can represent
    void judge(const Log& l, const Zone& z)
    {
        std::ostringstream o; pluto::logger::default_log_writer(o, entry(l)); std::string w = reference(l, z), g = o.str();
        SEQ_CHECK(g == w, "the default line is %s instead of %s", seq::show(g).c_str(), seq::show(w).c_str());
        seq::outcome(seq::mix(w.size(), (u64)(unsigned char)w[20]));
    }
    const Log BASE{ 1700000000, 0, 45336, 3, "dir/log_default.cpp", 27, "main", "Log 0" };
    std::vector<ll> secs()
    {
        std::vector<ll> v{ 0, 1, 59, 60, 3599, 3600, 86399, 86400, 951782399, 951782400, 951868799, 951868800, 999999999, 1000000000, 1709164799, 1709251199, 2147483647, 2147483648ll, 4102444799ll, 9223000000ll };
        for (int m = 0; m < 24; ++m) { ll d = days_before_year(2023 + m / 12); for (int k = 0; k < m % 12; ++k) d += mdays(2023 + m / 12, k); v.push_back(d * 86400); v.push_back(d * 86400 - 1); v.push_back(d * 86400 + 9 * 86400 + 9 * 3600 + 9 * 60 + 9); }
        return v;
    }
    void times(int zi)
    {
        const Zone& z = ZONES[zi]; use_zone(z);
        std::vector<int> fr; for (int p = 1; p <= 1000000000 / 10; p *= 10) for (int d : { 1, 5, 9 }) for (int e : { -1, 0, 1 }) fr.push_back(p * d + e);
        fr.push_back(0); fr.push_back(999999999); fr.push_back(999999000); fr.push_back(100000000); fr.push_back(999000000); fr.push_back(1000000);
        std::sort(fr.begin(), fr.end()); fr.erase(std::unique(fr.begin(), fr.end()), fr.end());
        std::vector<ll> ss = secs();
        if (z.dst) for (ll y : { 2023, 2024 }) for (ll k : { strike(z.begin, y) - z.std_off, strike(z.end, y) - z.dst_off }) for (ll d = -1; d <= 1; ++d) ss.push_back(k + d);
        for (ll s : ss) for (int f : fr)
        {
            if (s + z.std_off < 0 || !seq::next()) continue;
            Log l = BASE; l.sec = s; l.frac_ns = usable(f); SEQ_CASE("%s, %lld s and %d ns", z.tz, s, l.frac_ns); judge(l, z);
        }
    }
    void every_micro(int)
    {
        use_zone(ZONES[2]); int stp = seq::thorough() ? 1 : 7;
        for (int us = 0; us < 1000000; us += stp) if (seq::next()) { Log l = BASE; l.frac_ns = usable(us * 1000); SEQ_CASE("%d us", us); judge(l, ZONES[2]); }
    }
    void numbers(int)
    {
        use_zone(ZONES[0]);
        std::vector<std::size_t> tid{ 0, ~(std::size_t)0 }; for (std::size_t p = 1, i = 0; i < 19; ++i, p *= 10) { tid.push_back(p); tid.push_back(p - 1); tid.push_back(p + 7); }
        std::vector<int> line{ 0, -1, -9999, -10000, 2147483647, -2147483647 - 1 }; for (int p = 1, i = 0; i < 10; ++i, p *= i < 10 ? 10 : 1) { line.push_back(p); line.push_back(p - 1); }
        for (auto t : tid) for (int ln : line) for (int lv : { 0, 7 }) if (seq::next()) { Log l = BASE; l.tid = t; l.line = ln; l.level = lv; SEQ_CASE("thread %zu, line %d", t, ln); judge(l, ZONES[0]); }
        for (int lv = -128; lv < 128; ++lv) if (seq::next()) { Log l = BASE; l.level = lv; SEQ_CASE("level %d", lv); judge(l, ZONES[0]); }
    }
    void names(int)
    {
        use_zone(ZONES[0]);
        static const char* dirs[] = { "", "/", "a/", "\\", "C:\\x\\", "/usr/include/c++/13/bits/", "a\\b/", "a/b\\", "twenty_two_characters_/" };
        for (const char* d : dirs) for (int n = 0; n <= 44; ++n) for (int f = 0; f <= 44; ++f) if (seq::next())
        {
            Log l = BASE; l.file = d; for (int i = 0; i < n; ++i) l.file += (char)('a' + i % 26); l.func.clear(); for (int i = 0; i < f; ++i) l.func += (char)('A' + i % 26);
            SEQ_CASE("file %s, function %s", l.file.c_str(), l.func.c_str()); judge(l, ZONES[0]);
        }
        static const char A[] = { 'a', '/', '\\', ' ', '|', '.', (char)0xc3, '%' };
        for (int len = 0; len <= 4; ++len) { int tot = 1; for (int i = 0; i < len; ++i) tot *= 8; for (int c = 0; c < tot; ++c) if (seq::next()) { Log l = BASE; l.file.clear(); int k = c; for (int i = 0; i < len; ++i, k /= 8) l.file += A[k % 8]; l.func = l.file; SEQ_CASE("file and function %s", seq::show(l.file).c_str()); judge(l, ZONES[0]); } }
    }
    void messages(int)
    {
        use_zone(ZONES[0]);
        static const char A[] = { 'a', ' ', '|', '\0', '\n', (char)0xff, '%', '{', '\r' };
        for (int len = 0; len <= 5; ++len) { int tot = 1; for (int i = 0; i < len; ++i) tot *= 9; for (int c = 0; c < tot; ++c) if (seq::next()) { Log l = BASE; l.msg.clear(); int k = c; for (int i = 0; i < len; ++i, k /= 9) l.msg += A[k % 9]; SEQ_CASE("message %s", seq::show(l.msg).c_str()); judge(l, ZONES[0]); } }
        for (int n : { 100, 255, 256, 257, 1023, 1024, 4095, 4096, 4097, 65535, 65536, 100000 }) if (seq::next()) { Log l = BASE; l.msg.assign((std::size_t)n, 'm'); SEQ_CASE("message of %d", n); judge(l, ZONES[0]); }
        for (int b = 0; b < 256; ++b) if (seq::next()) { Log l = BASE; l.msg = std::string("x") + (char)b + "y"; SEQ_CASE("byte %d", b); judge(l, ZONES[0]); }
    }
    // any order of headers, lines and other writers that leave alignment and fill behind, on one stream
    void streams(int)
    {
        use_zone(ZONES[1]);
        Log a = BASE, b = BASE; a.frac_ns = 5000000; b.tid = 1; b.line = 3; b.level = 7; b.sec = 1720000000; b.msg = "";
        int len = seq::thorough() ? 6 : 5, tot = 1; for (int i = 0; i < len; ++i) tot *= 8;
        for (int c = 0; c < tot; ++c) if (seq::next())
        {
            SEQ_CASE("order %d of 0 header, 1 and 2 lines, 3 left, 4 right, 5 internal, 6 fill with *, 7 fill with 0", c);
            std::ostringstream o; std::string w; int k = c;
            for (int i = 0; i < len; ++i, k /= 8) switch (k % 8)
            {
                case 0: pluto::logger::default_header_writer(o); w += header_reference(); break;
                case 1: pluto::logger::default_log_writer(o, entry(a)); w += reference(a, ZONES[1]); break;
                case 2: pluto::logger::default_log_writer(o, entry(b)); w += reference(b, ZONES[1]); break;
                case 3: o << std::left; break; case 4: o << std::right; break; case 5: o << std::internal; break; case 6: o << std::setfill('*'); break; case 7: o << std::setfill('0'); break;
            }
            SEQ_CHECK(o.str() == w, "on one stream the default writers give %s instead of %s", seq::show(o.str()).c_str(), seq::show(w).c_str());
            seq::outcome(w.size());
        }
    }
    // the columns of the header are those of every line whose values fit
    void columns(int)
    {
        use_zone(ZONES[0]);
        std::ostringstream h; pluto::logger::default_header_writer(h); std::string s = h.str(), t = s.substr(0, s.find('\n')), u = s.substr(s.find('\n') + 1);
        auto bars = [](const std::string& x, char ch, std::size_t lim) { std::vector<std::size_t> v; for (std::size_t i = 0; i < x.size() && i < lim; ++i) if (x[i] == ch) v.push_back(i); return v; };
        if (seq::next()) { SEQ_CASE("header"); SEQ_CHECK(s == header_reference(), "the header is %s", seq::show(s).c_str()); SEQ_CHECK(bars(t, '|', ~(std::size_t)0) == bars(u, '+', ~(std::size_t)0) && t.size() == u.size(), "the two lines of the header do not match"); SEQ_CHECK(u.find_first_not_of("-+") == std::string::npos, "the ruler is %s", u.c_str()); }
        for (std::size_t tid : { 0ul, 9ul, 1234567ul, 9999999ul }) for (int ln : { 0, 1, 99999 }) for (int lv = -1; lv <= 8; ++lv) for (int n = 0; n <= 30; ++n) if (seq::next())
        {
            Log l = BASE; l.tid = tid; l.line = ln; l.level = lv; l.file.assign((std::size_t)n, 'f'); l.func.assign((std::size_t)(30 - n), 'g'); SEQ_CASE("thread %zu line %d level %d names %d", tid, ln, lv, n);
            std::ostringstream o; pluto::logger::default_log_writer(o, entry(l)); std::string g = o.str();
            SEQ_CHECK(bars(g, '|', ~(std::size_t)0) == bars(t, '|', ~(std::size_t)0), "the columns of %s are not those of the header", seq::show(g).c_str());
        }
    }
    void level_names(int)
    {
        static const char* low[] = { "level", "verbose", "trace", "debug", "info", "notice", "warning", "error", "critical", "fatal" }; static const char* shrt[] = { "LVL", "VRB", "TRC", "DBG", "INF", "NTC", "WRN", "ERR", "CRT", "FTL" }; static const char ch[] = "LVTDINWECF";
        for (int lv = -128; lv < 128; ++lv) if (seq::next())
        {
            SEQ_CASE("level %d", lv); auto L = (pluto::log_level)lv; bool k = lv >= -1 && lv <= 8;
            SEQ_CHECK(std::string(pluto::log_level_to_c_str(L)) == (k ? low[lv + 1] : "unknown") && std::string(pluto::log_level_to_title(L)) == title(lv) && std::string(pluto::log_level_to_shortened(L)) == (k ? shrt[lv + 1] : "UNK") && pluto::log_level_to_char(L) == (k ? ch[lv + 1] : '?'),
                "the names of level %d are %s %s %s %c", lv, pluto::log_level_to_c_str(L), pluto::log_level_to_title(L), pluto::log_level_to_shortened(L), pluto::log_level_to_char(L));
        }
        if (seq::next())
        {
            SEQ_CASE("aliases and order"); typedef pluto::log_level P;
            SEQ_CHECK(P::crit == P::critical && P::warn == P::warning && P::note == P::notice && P::verb == P::verbose && P::ftl == P::fatal && P::crt == P::critical && P::err == P::error && P::wrn == P::warning && P::ntc == P::notice && P::inf == P::info && P::dbg == P::debug && P::trc == P::trace && P::vrb == P::verbose, "an alias of a level names another level");
            P o[] = { P::header, P::verbose, P::trace, P::debug, P::info, P::notice, P::warning, P::error, P::critical, P::fatal, P::off }; for (int i = 0; i < 11; ++i) for (int j = 0; j < 11; ++j) SEQ_CHECK((o[i] < o[j]) == (i < j), "levels %d and %d are in the wrong order", i, j);
        }
    }
}
void reg()
{
    for (int y = 1700; y < 2400; y += 100) seq::scenario("V04", "days-from-" + std::to_string(y), gm_days, y);
    for (int y : { 1, 101, 1501, 1601, 2400, 5000, 9900 }) seq::scenario("V04", "days-from-" + std::to_string(y), gm_days, y, 1, y != 1601 && y != 9900);
    seq::scenario("V04", "far-away", gm_far);
    for (int z = 0; z < 7; ++z) { seq::scenario("V04", "every-second-zone-" + std::to_string(z), seconds_of_a_day, z); seq::scenario("V04", "every-hour-zone-" + std::to_string(z), local_hours, z); seq::scenario("L10", "times-zone-" + std::to_string(z), times, z); }
    seq::scenario("V04", "two-calls", sequences); seq::scenario("V04", "ids", ids);
    seq::scenario("L10", "every-microsecond", every_micro, 0, 4); seq::scenario("L10", "numbers-and-levels", numbers); seq::scenario("L10", "names", names, 0, 2); seq::scenario("L10", "messages", messages, 0, 2);
    seq::scenario("L10", "one-stream", streams, 0, 2); seq::scenario("L10", "columns", columns); seq::scenario("L10", "level-names", level_names);
}
int main(int argc, char** argv) { return seq::main(argc, argv, reg); }
