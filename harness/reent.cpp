// P02: free functions and distinct objects do not interfere across threads.  Two threads of an execution run one operation each on
// their own arguments (or on shared constant ones); every pair of operations is enumerated, races are looked for on every one, and
// each result must be what the operation gives alone afterwards.
#include "mc.hpp"
#include <pluto/compare.hpp>
#include <pluto/container.hpp>
#include <pluto/locale.hpp>
#include <pluto/lru_cache.hpp>
#include <pluto/platform.hpp>
#include <pluto/range.hpp>
#include <pluto/scope.hpp>
#include <pluto/stopwatch.hpp>
#include <pluto/string.hpp>
#include <pluto/unicode.hpp>
#include <pluto/value.hpp>
#include <array>
#include <cstdio>
#include <list>
#include <thread>

namespace
{
    // constant data shared by both threads
    struct Shared
    {
        const std::string text = "one, Two;three  FOUR\tfive \xC3\xA9\xF0\x9F\x98\x80 one"; const std::wstring wide = L"One two \x00E9\x0416 ONE"; const std::vector<int> numbers{ 5, 3, -7, 9, 3, 0, 12 }; const std::u16string u16 = u"a\x00E9\xD83D\xDE00z";
        const std::u32string u32 = U"a\x00E9\x20AC\x1F600z"; pluto::lru_cache<int, std::string> cache{ 3 }; pluto::stopwatch watch; const pluto::range<int> ra{ 1, 5 }, rb{ 4, 9 }; const std::locale loc{ PLUTO_LOCALE_DEFAULT_LOCALE };
        Shared() { cache.insert(1, "a"); cache.insert(2, "b"); watch.stop(); }
    };
    const Shared* S;
    std::string join(const std::vector<std::string>& v) { std::string o; for (auto& s : v) o += "<" + s + ">"; return o; }
    template<class T> std::string nums(const T& v) { std::string o; for (auto x : v) o += std::to_string((long long)x) + ","; return o; }
    template<class E> std::string esc(const std::basic_string<E>& s) { return nums(s); }
    std::string own(int who) { return who ? "Left;right,,THIS and that  " : "  alpha BETA,gamma;;Delta"; }
    std::wstring wown(int who) { return who ? L"Left;right,,\x00E9 that  " : L"  alpha BETA,\x0416;;Delta"; }
    std::string tms(const std::tm& t) { char b[80]; std::snprintf(b, sizeof b, "%d-%d-%d %d:%d:%d %d %d %d", t.tm_year, t.tm_mon, t.tm_mday, t.tm_hour, t.tm_min, t.tm_sec, t.tm_wday, t.tm_yday, t.tm_isdst); return b; }
    struct Op { const char* name; std::string (*f)(int who); };
    const Op ops[] =
    {
        { "lower", [](int w) { std::string s = own(w); pluto::lower(s); return s + pluto::lower('Q'); } },
        { "upper", [](int w) { std::string s = own(w); pluto::upper(s); return s + pluto::upper('q'); } },
        { "wide-case", [](int w) { std::wstring s = wown(w), t = s; pluto::lower(s); pluto::upper(t); return esc(s) + esc(t); } },
        { "is-lower-upper", [](int w) { std::string s = own(w); return std::string() + (pluto::is_lower(s) ? '1' : '0') + (pluto::is_upper(s) ? '1' : '0') + (pluto::is_lower('x') ? '1' : '0'); } },
        { "str", [](int w) { return pluto::str(w ? 1.25 : -77.5) + pluto::str(w ? 123456789 : -5) + pluto::str('x'); } },
        { "wstr", [](int w) { return esc(pluto::wstr(w ? 1.25 : -77.5)) + esc(pluto::wstr(w ? 12 : -5)); } },
        { "str_to", [](int w) { std::string s = w ? "42" : "-17.5"; return std::to_string(pluto::str_to<double>(s)) + std::to_string(pluto::str_to<int>(s)) + std::to_string(pluto::str_to<int>(s.c_str(), s.size())); } },
        { "wstr_to", [](int w) { std::wstring s = w ? L"42" : L"-17.5"; return std::to_string(pluto::wstr_to<double>(s)) + std::to_string(pluto::wstr_to<int>(s)); } },
        { "iequals", [](int w) { std::string s = own(w), t = s; pluto::upper(t); return std::to_string(pluto::iequals(s, t)) + std::to_string(pluto::istarts_with(s, std::string(w ? "lEFT" : "  ALpha"))) + std::to_string(pluto::iends_with(s, std::string("DELTA"))); } },
        { "ifind", [](int w) { std::string s = own(w); return std::to_string(pluto::ifind(s, std::string(w ? "THAT" : "delta")) - s.begin()) + std::to_string(pluto::irfind(s, std::string("A")) - s.begin()) + std::to_string(pluto::icontains(s, std::string("beta"))); } },
        { "find", [](int w) { std::string s = own(w); return std::to_string(pluto::find(s, std::string(w ? "that" : "Delta")) - s.begin()) + std::to_string(pluto::rfind(s, std::string("a")) - s.begin()) + std::to_string(pluto::contains(s, std::string("BETA"))) + std::to_string(pluto::starts_with(s, std::string("Left"))) + std::to_string(pluto::ends_with(s, std::string("ta"))); } },
        { "split", [](int w) { return join(pluto::split(own(w), std::string(","))) + join(pluto::split(own(w))); } },
        { "split-any", [](int w) { return join(pluto::split_any_of(own(w), std::string(",; "))); } },
        { "wide-split", [](int w) { std::string o; for (auto& x : pluto::split(wown(w))) o += esc(x) + "|"; return o; } },
        { "join", [](int w) { std::vector<std::string> v{ own(w), "x", own(1 - w) }; return pluto::join(v, std::string("--")) + pluto::join(v, std::string()); } },
        { "map-join", [](int w) { std::vector<int> v{ 1, w, 3 }; return pluto::map_join(v, std::string("+"), [](int x) { return std::to_string(x * 2); }); } },
        { "replace", [](int w) { std::string s = own(w); pluto::replace(s, std::string("a"), std::string(w ? "<>" : "")); pluto::replace_any_of(s, std::string(",;"), std::string("::")); return s; } },
        { "strip", [](int w) { std::string s = own(w), l = s, r = s; pluto::strip(s); pluto::lstrip(l); pluto::rstrip(r); return s + "|" + l + "|" + r; } },
        { "bin-oct-hex", [](int w) { int v = w ? 123456 : -2; return pluto::bin(v) + pluto::oct(v) + pluto::hex(v); } },
        { "utf8-to-16", [](int w) { std::string s = w ? "x\xC3\xA9" : "\xF0\x9F\x98\x80y"; return esc(pluto::u16str(s)) + esc(pluto::wstr(s)); } },
        { "utf8-to-32", [](int w) { std::string s = w ? "x\xC3\xA9" : "\xF0\x9F\x98\x80y"; return esc(pluto::u32str(s)) + esc(pluto::u8str(s)); } },
        { "utf16-to-8", [](int w) { std::u16string s = w ? u"x\x00E9" : u"\xD83D\xDE00y"; return pluto::str(s) + esc(pluto::u32str(s)); } },
        { "utf32-to-8", [](int w) { std::u32string s = w ? U"x\x00E9" : U"\x1F600y"; return pluto::str(s) + esc(pluto::u16str(s)); } },
        { "ill-formed", [](int w) { std::string s = w ? "\xC3(" : "\xF0\x9F\x98"; std::u16string t = w ? u"\xD800z" : u"z\xDC00"; return esc(pluto::u32str(s)) + pluto::str(t); } },
        { "comparators", [](int w) { std::locale l = pluto::default_locale(); pluto::is_iequal<char> e(l); pluto::is_iless<wchar_t> ls(l); return std::to_string(e(w ? 'a' : 'B', w ? 'A' : 'b')) + std::to_string(ls(L'x', w ? L'Y' : L'W')); } },
        { "comparators-default", [](int w) { pluto::is_iequal<char> e; pluto::is_iless<wchar_t> ls; return std::to_string(e(w ? 'a' : 'B', w ? 'A' : 'c')) + std::to_string(ls(L'x', w ? L'Y' : L'W')); } },
        { "locales", [](int) { return pluto::c_locale().name() + pluto::default_locale().name() + (pluto::use_facet<char>(pluto::c_locale()).is(std::ctype_base::space, ' ') ? "1" : "0") + pluto::system_locale().name(); } },
        { "sort-filter", [](int w) { std::vector<int> v = S->numbers; v.push_back(w); pluto::sort(v); pluto::filter(v, [w](int x) { return x != w; }); pluto::reverse(v); return nums(v); } },
        { "map-slice", [](int w) { std::vector<int> v = pluto::map(S->numbers, [w](int x) { return x + w; }); return nums(v) + nums(pluto::slice(v, 1, -1)) + nums(pluto::slice(v, -3)); } },
        { "count-sum", [](int w) { return std::to_string(pluto::count(S->numbers, 3)) + std::to_string(pluto::count_if(S->numbers, [w](int x) { return x > w; })) + std::to_string(pluto::sum(S->numbers)) + std::to_string((pluto::min)(S->numbers)) + std::to_string((pluto::max)(S->numbers)) + std::to_string(pluto::any(S->numbers)) + std::to_string(pluto::all(S->numbers)); } },
        { "search", [](int w) { std::list<int> l(S->numbers.begin(), S->numbers.end()); std::vector<int> p{ 9, 3 }; return std::to_string(std::distance(S->numbers.begin(), pluto::find_sequence(S->numbers, p))) + std::to_string(std::distance(S->numbers.begin(), pluto::rfind_elem(S->numbers, w ? 3 : 5))) + std::to_string(pluto::equals(l, S->numbers)) + std::to_string(pluto::contains_elem(l, 12)); } },
        { "values", [](int w) { int a = w, b = 5; return std::to_string((pluto::min)(a, b)) + std::to_string((pluto::max)(a, b)) + std::to_string(pluto::abs(w ? -3 : 4)) + std::to_string(pluto::is_true()(w)); } },
        { "ranges", [](int w) { pluto::range<int> r{ w, 4 }; return std::to_string(S->ra.is_overlapping(r)) + std::to_string(S->ra < S->rb) + std::to_string(r == S->ra) + std::to_string(S->rb.size()); } },
        { "gm-time", [](int w) { return tms(pluto::gm_time(w ? 951782399 : 1700000000)); } },
        { "local-time", [](int w) { return tms(pluto::local_time(w ? 951782399 : 1700000000)); } },
        { "file-name", [](int w) { return std::string(pluto::file_name(w ? "a/b/c.txt" : "x\\y\\")) + std::to_string(pluto::process_id()); } },
        { "shared-cache-read", [](int w) { const auto& c = S->cache; return std::to_string(c.contains(w)) + std::to_string(c.size()) + std::to_string(c.capacity()) + std::to_string(c.empty()); } },
        { "own-cache", [](int w) { pluto::lru_cache<int, std::string> c{ 2 }; c.insert(w, "x"); c.insert(5, "y"); c.insert(6, "z"); auto c2 = c; return std::to_string(c2.contains(w)) + std::to_string(c2.contains(6)) + std::to_string(c.size()); } },
        { "copied-cache", [](int w) { auto c = S->cache; c.insert(7 + w, "n"); c.insert(9, "m"); return std::to_string(c.contains(1)) + std::to_string(c.contains(2)) + std::to_string(c.contains(7 + w)); } },
        { "shared-watch-read", [](int) { const auto& t = S->watch; return std::to_string(t.is_running()) + std::to_string(t.in_seconds() < 1000000) + std::to_string(t.in_minutes() == t.in_minutes()); } },
        { "own-watch", [](int) { pluto::stopwatch t; t.stop(); t.start(); bool r = t.is_running(); t.reset(); return std::to_string(r); } },
        { "guards", [](int w) { std::string o; { pluto::on_scope_exit g([&] { o += "e"; }); pluto::on_scope_success s([&] { o += "s"; }); pluto::on_scope_fail f([&] { o += "f"; }); try { pluto::on_scope_fail f2([&] { o += "F"; }); if (w) throw 1; } catch (int) { o += "c"; } } return o; } },
    };
    const int N = (int)(sizeof ops / sizeof *ops);
    std::string got[2]; std::size_t ids[3];
    void pair(int i)
    {
        int j = i + mc::choose(N - i, "other operation");
        Shared s;
        { mc::Untracked u; S = &s; got[0].clear(); got[1].clear(); }
        const std::string g0 = std::locale().name();
        {
            std::thread a([i] { std::string r = ops[i].f(0); mc::Untracked u; got[0].assign(r); }), b([j] { std::string r = ops[j].f(1); mc::Untracked u; got[1].assign(r); });
            a.join(); b.join();
        }
        mc::Untracked u;
        MC_CHECK(std::locale().name() == g0, "%s or %s changed the global locale", ops[i].name, ops[j].name);
        std::string e0 = ops[i].f(0), e1 = ops[j].f(1);
        MC_CHECK(got[0] == e0, "%s gives \"%s\" while another thread runs %s, but \"%s\" alone", ops[i].name, got[0].c_str(), ops[j].name, e0.c_str());
        MC_CHECK(got[1] == e1, "%s gives \"%s\" while another thread runs %s, but \"%s\" alone", ops[j].name, got[1].c_str(), ops[i].name, e1.c_str());
        mc::outcome_str((e0 + e1).c_str());
        std::string().swap(got[0]); std::string().swap(got[1]);
    }
    // three threads, the same operation
    void triple(int)
    {
        int i = mc::choose(N, "operation");
        Shared s; { mc::Untracked u; S = &s; }
        std::string r[3];
        { std::thread a([&] { r[0] = ops[i].f(0); }), b([&] { r[1] = ops[i].f(1); }), c([&] { r[2] = ops[i].f(0); }); a.join(); b.join(); c.join(); }
        for (int k = 0; k < 3; ++k) MC_CHECK(r[k] == ops[i].f(k & 1), "%s gives \"%s\" while two other threads run it", ops[i].name, r[k].c_str());
    }
    void thread_ids(int)
    {
        auto note = [](int k) { std::size_t x = pluto::thread_id(); mc::point(); MC_CHECK(x == pluto::thread_id(), "the id of a thread changes"); mc::Untracked u; ids[k] = x; };
        { std::thread a([&] { note(0); mc::flag_set(1); mc::flag_wait(2); }), b([&] { note(1); mc::flag_wait(1); mc::flag_set(2); }); note(2); a.join(); b.join(); }
        MC_CHECK(ids[0] != ids[1] && ids[1] != ids[2] && ids[0] != ids[2], "two live threads have the same id");
        MC_CHECK(ids[2] == (std::size_t)::gettid() && pluto::process_id() == ::getpid(), "the id is not that of the thread or process");
        mc::outcome(1);
    }
}
void mc_register()
{
    mc::Opt o; o.quick.preempt = 2; o.quick.max_s = 100; o.quick.max_exec = 4000000; o.thorough = o.quick; o.thorough.preempt = 4; o.thorough.max_s = 200; o.thorough.max_exec = 40000000;
    for (int i = 0; i < N; ++i) mc::scenario("P02", (std::string(ops[i].name) + "-with-others").c_str(), o, pair, i);
    mc::scenario("P02", "three-threads", o, triple, 0);
    mc::scenario("P02", "thread-ids", o, thread_ids, 0);
}
