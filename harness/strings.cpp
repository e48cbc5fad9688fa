// S01-S06: string utilities against definitions written down independently (over plain vectors of units).
#include "seq.hpp"
#include <pluto/string.hpp>
#include <array>
#include <functional>
#include <iomanip>
#include <limits>
#include <list>
#include <memory>
#include <string>
#include <vector>
#if PLUTO_UTILS_HAS_CXX_17
#include <string_view>
#endif

extern "C" const char* __asan_default_options() { return "detect_stack_use_after_return=0"; }   // variables stay on the real stack (S06)

namespace
{
    using seq::u64;
    // an allocator of our own, so that the generic forms are called and not only those for std::string
    template<class T> struct Al { typedef T value_type; Al() {} template<class U> Al(const Al<U>&) {} T* allocate(std::size_t n) { return std::allocator<T>().allocate(n); } void deallocate(T* p, std::size_t n) { std::allocator<T>().deallocate(p, n); }
        template<class U> bool operator==(const Al<U>&) const { return true; } template<class U> bool operator!=(const Al<U>&) const { return false; } };
    template<class E> using OwnString = std::basic_string<E, std::char_traits<E>, Al<E>>;

    template<class S> S make(const std::vector<std::uint32_t>& u) { S s; for (auto x : u) s.push_back((typename S::value_type)x); s.shrink_to_fit(); return s; }
    // runs f on every string of the given length over the alphabet
    template<class F> void words(const std::vector<std::uint32_t>& a, int len, F f)
    {
        std::vector<std::size_t> ix((std::size_t)len, 0); std::vector<std::uint32_t> w((std::size_t)len, a[0]);
        for (;;)
        {
            f(w); int p = len - 1;
            while (p >= 0) { auto q = (std::size_t)p; if (++ix[q] < a.size()) { w[q] = a[ix[q]]; break; } ix[q] = 0; w[q] = a[0]; --p; }
            if (p < 0) return;
        }
    }
    template<class F> void words_upto(const std::vector<std::uint32_t>& a, int len, F f) { for (int l = 0; l <= len; ++l) words(a, l, f); }
    template<class S> std::string showv(const std::vector<S>& v) { std::string o = "["; for (auto& s : v) o += (o.size() > 1 ? ", " : "") + seq::show(s); return o + "]"; }
    template<class S> u64 hash(const S& s) { u64 h = s.size() + 7; for (auto c : s) h = seq::mix(h, (u64)c); return h; }
    // an exact heap copy, so that reading one unit too far is noticed
    template<class E> struct Exact { std::unique_ptr<E[]> p; std::size_t n; template<class S> explicit Exact(const S& s) : p(new E[s.size()]), n(s.size()) { for (std::size_t i = 0; i < n; ++i) p[i] = (E)s[i]; } const E* get() const { return p.get(); } E* get() { return p.get(); } };

    // a locale in which '_' and only '_' (and, for wide, U+E000) is white space and case pairs are x <-> x + 1 for "mn"
    template<class E> struct OwnCtype;
    template<> struct OwnCtype<char> : std::ctype<char>
    {
        static const mask* table() { static mask t[table_size]; static bool done = false; if (!done) { done = true; t[(int)'_'] = space; t[(int)'n'] = lower; t[(int)'m'] = upper; } return t; }
        OwnCtype() : std::ctype<char>(table()) {}
        char do_toupper(char c) const override { return c == 'n' ? 'm' : c; } char do_tolower(char c) const override { return c == 'm' ? 'n' : c; }
        const char* do_toupper(char* b, const char* e) const override { for (; b != e; ++b) *b = do_toupper(*b); return e; } const char* do_tolower(char* b, const char* e) const override { for (; b != e; ++b) *b = do_tolower(*b); return e; }
    };
    template<> struct OwnCtype<wchar_t> : std::ctype<wchar_t>
    {
        bool do_is(mask m, wchar_t c) const override { return ((m & space) && (c == L'_' || c == 0xE000)) || ((m & lower) && c == L'n') || ((m & upper) && c == L'm'); }
        wchar_t do_toupper(wchar_t c) const override { return c == 'n' ? 'm' : c; } wchar_t do_tolower(wchar_t c) const override { return c == 'm' ? 'n' : c; }
        const wchar_t* do_toupper(wchar_t* b, const wchar_t* e) const override { for (; b != e; ++b) *b = do_toupper(*b); return e; } const wchar_t* do_tolower(wchar_t* b, const wchar_t* e) const override { for (; b != e; ++b) *b = do_tolower(*b); return e; }
    };
    const char* const LN[] = { "C", "en_US.UTF-8", "own", "default" };
    std::locale locale_of(int k)
    {
        if (k == 0) return std::locale::classic();
        if (k == 1) return std::locale("en_US.UTF-8");
        if (k == 2) return std::locale(std::locale(std::locale::classic(), new OwnCtype<char>), new OwnCtype<wchar_t>);
        return std::locale(PLUTO_LOCALE_DEFAULT_LOCALE);
    }

    // ---- S01 -----------------------------------------------------------------------------------------------------------
    template<class S> std::vector<S> ref_split(const S& s, const S& sep)
    {
        std::vector<S> r; S cur;
        if (sep.size() == 0) { for (auto c : s) r.push_back(S(1, c)); return r; }
        for (std::size_t i = 0; i < s.size();)
        {
            bool m = i + sep.size() <= s.size(); for (std::size_t k = 0; m && k < sep.size(); ++k) m = s[i + k] == sep[k];
            if (m) { r.push_back(cur); cur = S(); i += sep.size(); } else cur.push_back(s[i++]);
        }
        r.push_back(cur); return r;
    }
    template<class S, class P> std::vector<S> ref_runs(const S& s, P drop) { std::vector<S> r; S cur; for (auto c : s) { if (drop(c)) { if (cur.size()) r.push_back(cur); cur = S(); } else cur.push_back(c); } if (cur.size()) r.push_back(cur); return r; }
    template<class S> S ref_join(const std::vector<S>& v, const S& sep) { S r; for (std::size_t i = 0; i < v.size(); ++i) { if (i) for (auto c : sep) r.push_back(c); for (auto c : v[i]) r.push_back(c); } return r; }

    template<class S> void s01_separator(const char* ty)
    {
        std::vector<std::uint32_t> a{ 'a', 'b' }, b{ 'a', 'b', 0 };
        auto one = [&](const std::vector<std::uint32_t>& w, const std::vector<std::uint32_t>& q)
        {
            if (!seq::next()) return;
            S s = make<S>(w), sep = make<S>(q);
            SEQ_CASE("%s %s split by %s", ty, seq::show(s).c_str(), seq::show(sep).c_str());
            std::vector<S> got = pluto::split(s, sep), want = ref_split(s, sep); seq::step(3);
            SEQ_CHECK(got == want, "%s: splitting %s by %s gives %s and not %s", ty, seq::show(s).c_str(), seq::show(sep).c_str(), showv(got).c_str(), showv(want).c_str());
            S back = pluto::join(got, sep);
            SEQ_CHECK(back == s, "%s: joining the pieces of %s split by %s gives %s", ty, seq::show(s).c_str(), seq::show(sep).c_str(), seq::show(back).c_str());
            std::vector<S> any = pluto::split_any_of(s, sep), wany = ref_runs(s, [&](typename S::value_type c) { for (auto d : sep) if (c == d) return true; return false; });
            SEQ_CHECK(any == wany, "%s: splitting %s at any of %s gives %s and not %s", ty, seq::show(s).c_str(), seq::show(sep).c_str(), showv(any).c_str(), showv(wany).c_str());
            seq::outcome(seq::mix(got.size(), any.size())); if (got.size() > 1) seq::nontrivial();
        };
        words_upto(a, seq::thorough() ? 14 : 10, [&](const std::vector<std::uint32_t>& w) { words_upto(a, 3, [&](const std::vector<std::uint32_t>& q) { one(w, q); }); });
        words_upto(b, seq::thorough() ? 8 : 6, [&](const std::vector<std::uint32_t>& w) { words_upto(b, 3, [&](const std::vector<std::uint32_t>& q) { one(w, q); }); });
        seq::long_lists<std::uint32_t>('a', { { 'b' }, { 'b', 'b' }, { 'b', 'c', 'b' } }, 70000, [&](const std::vector<std::uint32_t>& w)
        {
            const std::size_t n = w.size(); one(w, { 'b' }); one(w, { 'b', 'b' }); one(w, { 'c' }); if (n <= 5000) { one(w, {}); one(w, { 'a' }); one(w, { 'a', 'b' }); }
            if (n >= 4 && n <= 1100) for (std::size_t m : { n / 2, n - 1, n, n + 1 }) { std::vector<std::uint32_t> q(w.begin(), w.begin() + (std::ptrdiff_t)std::min(m, n)); q.resize(m, 'a'); one(w, q); }
        });
    }
    void s01_sep(int t) { if (t == 0) s01_separator<std::string>("std::string"); else if (t == 1) s01_separator<std::wstring>("std::wstring"); else if (t == 2) s01_separator<OwnString<char>>("own allocator"); else s01_separator<std::u32string>("std::u32string"); }

    template<class S> void s01_space(int loc, const char* ty)
    {
        typedef typename S::value_type E; std::locale l = locale_of(loc); const auto& f = std::use_facet<std::ctype<E>>(l);
        auto drop = [&](E c) { return f.is(std::ctype_base::space, c); };
        auto one = [&](const std::vector<std::uint32_t>& w)
        {
            if (!seq::next()) return;
            S s = make<S>(w);
            SEQ_CASE("%s %s split at white space, locale %s", ty, seq::show(s).c_str(), LN[loc]);
            std::vector<S> got = loc == 3 ? pluto::split(s) : pluto::split(s, l), want = ref_runs(s, drop); seq::step();
            SEQ_CHECK(got == want, "%s: splitting %s at white space (locale %s) gives %s and not %s", ty, seq::show(s).c_str(), LN[loc], showv(got).c_str(), showv(want).c_str());
            seq::outcome(got.size()); if (got.size() > 1) seq::nontrivial();
        };
        std::vector<std::uint32_t> all; for (std::uint32_t c = 0; c < (sizeof(E) == 1 ? 256u : 0x3100u); ++c) all.push_back(c);
        if (sizeof(E) > 1) { all.push_back(0xE000); all.push_back(0xFEFF); all.push_back(0x1F600); }
        for (auto c : all) { one({ c }); one({ 'a', c }); one({ c, 'a' }); one({ 'a', c, 'b' }); one({ ' ', c, ' ' }); one({ c, c, 'a', c, c, 'b', c }); }
        std::vector<std::uint32_t> al{ ' ', '\t', '_', 'a', 0 }; if (sizeof(E) > 1) al.push_back(0x2003); else al.push_back(0xA0);
        words_upto(al, seq::thorough() ? 7 : 6, one);
        std::vector<std::uint32_t> two{ ' ', 'x' }; for (int n = 7; n <= (seq::thorough() ? 14 : 11); ++n) words(two, n, one);
        seq::long_lists<std::uint32_t>('a', { { ' ' }, { '\t', '_' } }, 70000, one); seq::long_lists<std::uint32_t>(' ', { { 'a' }, { '_', 'b' } }, 70000, one);
    }
    void s01_ws(int k) { int l = k / 3; if (k % 3 == 0) s01_space<std::string>(l, "std::string"); else if (k % 3 == 1) s01_space<std::wstring>(l, "std::wstring"); else s01_space<OwnString<char>>(l, "own allocator"); }

    // joining; the pieces of every list are drawn from a small set
    template<class S> void s01_joining(const char* ty)
    {
        typedef typename S::value_type E;
        std::vector<std::vector<std::uint32_t>> P{ {}, { 'a' }, { 'b', 'c' }, { ',' }, { 0 } }, Q{ {}, { ',' }, { ',', ' ' }, { 0 } };
        auto one = [&](const std::vector<std::uint32_t>& w) { for (auto& q : Q)
            {
                if (!seq::next()) continue;
                std::vector<S> v; for (auto i : w) v.push_back(make<S>(P[i])); S sep = make<S>(q), want = ref_join(v, sep);
                SEQ_CASE("%s join %s with %s", ty, showv(v).c_str(), seq::show(sep).c_str());
                auto chk = [&](const S& g, const S& x, const char* how) { seq::step(); SEQ_CHECK(g == x, "%s: %s of %s with %s gives %s and not %s", ty, how, showv(v).c_str(), seq::show(sep).c_str(), seq::show(g).c_str(), seq::show(x).c_str()); };
                chk(pluto::join(v, sep), want, "join(vector)"); chk(pluto::join(v.begin(), v.end(), sep), want, "join(iterators)");
                std::list<S> li(v.begin(), v.end()); chk(pluto::join(li, sep), want, "join(list)"); chk(pluto::join(li.begin(), li.end(), sep), want, "join(list iterators)");
                if (v.size()) { chk(pluto::join(v.data(), v.data() + v.size(), sep), want, "join(pointers)"); }
                if (v.size() == 3) { std::array<S, 3> ar{ { v[0], v[1], v[2] } }; chk(pluto::join(ar, sep), want, "join(array)"); S ca[3] = { v[0], v[1], v[2] }; chk(pluto::join(ca, sep), want, "join(C array)"); }
                bool nul = false; for (auto& s : v) for (auto c : s) if (!c) nul = true;
                if (!nul) { std::vector<const E*> pv; for (auto& s : v) pv.push_back(s.c_str()); chk(pluto::join(pv, sep), want, "join(C strings)"); }
#if PLUTO_UTILS_HAS_CXX_17
                { std::vector<std::basic_string_view<E>> sv; for (auto& s : v) sv.push_back(std::basic_string_view<E>(s.data(), s.size())); chk(pluto::join(sv, sep), want, "join(views)"); }
#endif
                // a mapping that depends on the element and on how often it was called: once per element, in order
                int calls = 0; std::vector<S> img; for (std::size_t i = 0; i < v.size(); ++i) { S x(i + 1, (E)'m'); for (auto c : v[i]) x.push_back(c); img.push_back(x); }
                auto f = [&calls](const S& s) { S x((std::size_t)++calls, (E)'m'); for (auto c : s) x.push_back(c); return x; }; S mw = ref_join(img, sep);
                chk(pluto::map_join(v, sep, f), mw, "map_join(vector)"); SEQ_CHECK(calls == (int)v.size(), "map_join called its function %d times for %zu elements", calls, v.size());
                calls = 0; chk(pluto::map_join(v.begin(), v.end(), sep, f), mw, "map_join(iterators)"); SEQ_CHECK(calls == (int)v.size(), "map_join called its function %d times for %zu elements", calls, v.size());
                calls = 0; chk(pluto::map_join(li, sep, f), mw, "map_join(list)");
                std::vector<int> nums; for (auto i : w) nums.push_back((int)i); std::vector<S> ni; for (auto i : w) ni.push_back(S((std::size_t)i, (E)'k'));
                chk(pluto::map_join(nums, sep, [](int i) { return S((std::size_t)i, (E)'k'); }), ref_join(ni, sep), "map_join(numbers)");
                seq::outcome(hash(want)); if (v.size() > 1) seq::nontrivial();
            } };
        std::vector<std::uint32_t> ids{ 0, 1, 2, 3, 4 };
        for (int n = 0; n <= (seq::thorough() ? 5 : 4); ++n) words(ids, n, one);
        for (std::size_t n : { 15u, 16u, 17u, 40u, 257u, 5000u }) P.push_back(std::vector<std::uint32_t>(n, 'p'));
        Q.push_back(std::vector<std::uint32_t>(40, '-')); for (std::size_t n = 0; n <= 3; ++n) words({ 0, 1, 5, 6, 7, 8, 9, 10 }, (int)n, one);
        for (std::size_t n : seq::lengths()) if (n <= 300) { one(std::vector<std::uint32_t>(n, 0)); one(std::vector<std::uint32_t>(n, 2)); std::vector<std::uint32_t> w; for (std::size_t i = 0; i < n; ++i) w.push_back((std::uint32_t)(i % 7)); one(w); }
    }
    void s01_join(int t) { if (t == 0) s01_joining<std::string>("std::string"); else if (t == 1) s01_joining<std::wstring>("std::wstring"); else if (t == 2) s01_joining<OwnString<wchar_t>>("own allocator"); else s01_joining<std::u16string>("std::u16string"); }

    // ---- S02 -----------------------------------------------------------------------------------------------------------
    template<class S> void s02_replace(const char* ty, bool small)
    {
        std::vector<std::uint32_t> a{ 'a', 'b' }, z{ 'a', 'b', 0 };
        auto one = [&](const std::vector<std::uint32_t>& w, const std::vector<std::uint32_t>& f, const std::vector<std::uint32_t>& r)
        {
            if (!seq::next()) return;
            S s = make<S>(w), find = make<S>(f), rep = make<S>(r), want, wany;
            SEQ_CASE("%s in %s replace %s by %s", ty, seq::show(s).c_str(), seq::show(find).c_str(), seq::show(rep).c_str());
            if (find.empty()) { for (auto c : s) { want += rep; want.push_back(c); } want += rep; }
            else { auto pieces = ref_split(s, find); want = ref_join(pieces, rep); }
            for (auto c : s) { bool in = false; for (auto d : find) in = in || c == d; if (in) for (auto d : rep) wany.push_back(d); else wany.push_back(c); }
            S g = s, h = s; pluto::replace(g, find, rep); pluto::replace_any_of(h, find, rep); seq::step(2);
            SEQ_CHECK(g == want, "%s: replacing %s by %s in %s gives %s and not %s", ty, seq::show(find).c_str(), seq::show(rep).c_str(), seq::show(s).c_str(), seq::show(g).c_str(), seq::show(want).c_str());
            SEQ_CHECK(h == wany, "%s: replacing any of %s by %s in %s gives %s and not %s", ty, seq::show(find).c_str(), seq::show(rep).c_str(), seq::show(s).c_str(), seq::show(h).c_str(), seq::show(wany).c_str());
            seq::outcome(seq::mix(hash(want), hash(wany))); if (want != s) seq::nontrivial();
        };
        int L = seq::thorough() ? 9 : 7; if (small) --L;
        words_upto(a, L, [&](const std::vector<std::uint32_t>& w) { words_upto(a, 3, [&](const std::vector<std::uint32_t>& f) { words_upto(a, 3, [&](const std::vector<std::uint32_t>& r) { one(w, f, r); }); }); });
        words_upto(z, small ? 3 : 4, [&](const std::vector<std::uint32_t>& w) { words_upto(z, 2, [&](const std::vector<std::uint32_t>& f) { words_upto(z, 2, [&](const std::vector<std::uint32_t>& r) { one(w, f, r); }); }); });
        seq::long_lists<std::uint32_t>('a', { { 'b' }, { 'b', 'c' } }, small ? 300 : 5000, [&](const std::vector<std::uint32_t>& w)
        {
            const std::vector<std::uint32_t> big(50, 'r'); one(w, { 'b' }, {}); one(w, { 'b' }, { 'a' }); one(w, { 'b', 'c' }, { 'c', 'b', 'c' }); one(w, { 'b' }, big); one(w, { 'a' }, { 'b' });
            if (w.size() <= 300) { one(w, w, big); one(w, w, w); one(w, {}, { 'b' }); one(w, { 'a', 'a' }, { 'a' }); one(w, { 'b' }, w); auto q = w; q.push_back('a'); one(w, q, {}); one(q, w, { 'b' }); }
        });
        // long texts: growth of the buffer while replacing
        for (std::size_t n : { 15u, 16u, 17u, 31u, 64u, 1000u }) { std::vector<std::uint32_t> w(n, 'a'); for (auto r : { 0, 1, 2, 40 }) one(w, { 'a' }, std::vector<std::uint32_t>((std::size_t)r, 'a')), one(w, { 'a', 'a' }, std::vector<std::uint32_t>((std::size_t)r, 'b')), one(w, {}, std::vector<std::uint32_t>((std::size_t)r, 'b')); }
    }
    void s02(int t)
    {
        switch (t) { case 0: s02_replace<std::string>("std::string", false); break; case 1: s02_replace<std::wstring>("std::wstring", false); break; case 2: s02_replace<OwnString<char>>("own allocator", true); break; case 3: s02_replace<std::u16string>("std::u16string", true); break; case 4: s02_replace<std::u32string>("std::u32string", true); break;
        default: break; }
    }

    // ---- S03 -----------------------------------------------------------------------------------------------------------
    template<class S> void s03_strip(int loc, const char* ty)
    {
        typedef typename S::value_type E; std::locale l = locale_of(loc); const auto& f = std::use_facet<std::ctype<E>>(l);
        auto sp = [&](E c) { return f.is(std::ctype_base::space, c); };
        auto one = [&](const std::vector<std::uint32_t>& w)
        {
            if (!seq::next()) return;
            S s = make<S>(w); std::size_t b = 0, e = s.size();
            SEQ_CASE("%s strip %s, locale %s", ty, seq::show(s).c_str(), LN[loc]);
            while (b < s.size() && sp(s[b])) ++b;
            while (e > 0 && sp(s[e - 1])) --e;
            S wl(s.begin() + (std::ptrdiff_t)b, s.end()), wr(s.begin(), s.begin() + (std::ptrdiff_t)e), wb; if (b < e) wb.assign(s.begin() + (std::ptrdiff_t)b, s.begin() + (std::ptrdiff_t)e);
            for (int twice = 0; twice < 2; ++twice)
            {
                S x = twice ? wl : s, y = twice ? wr : s, z = twice ? wb : s;
                if (loc == 3) { pluto::lstrip(x); pluto::rstrip(y); pluto::strip(z); } else { pluto::lstrip(x, l); pluto::rstrip(y, l); pluto::strip(z, l); }
                seq::step(3);
                SEQ_CHECK(x == wl, "%s: lstrip of %s (locale %s) gives %s", ty, seq::show(twice ? wl : s).c_str(), LN[loc], seq::show(x).c_str());
                SEQ_CHECK(y == wr, "%s: rstrip of %s (locale %s) gives %s", ty, seq::show(twice ? wr : s).c_str(), LN[loc], seq::show(y).c_str());
                SEQ_CHECK(z == wb, "%s: strip of %s (locale %s) gives %s", ty, seq::show(twice ? wb : s).c_str(), LN[loc], seq::show(z).c_str());
            }
            seq::outcome(seq::mix(b, seq::mix(e, s.size()))); if (b || e < s.size()) seq::nontrivial();
        };
        std::vector<std::uint32_t> all; for (std::uint32_t c = 0; c < (sizeof(E) == 1 ? 256u : 0x3100u); ++c) all.push_back(c);
        if (sizeof(E) > 1) { all.push_back(0xE000); all.push_back(0xFEFF); all.push_back(0x1F600); }
        for (auto c : all) { one({ c }); one({ 'a', c }); one({ c, 'a' }); one({ ' ', c, ' ' }); one({ c, c, 'a', c, 'b', c, c }); }
        std::vector<std::uint32_t> al{ ' ', '\n', '_', 'a', 0 }; if (sizeof(E) > 1) al.push_back(0x2003); else al.push_back(0xA0);
        words_upto(al, seq::thorough() ? 7 : 6, one);
        std::vector<std::uint32_t> two{ ' ', 'x' }; for (int n = 7; n <= (seq::thorough() ? 14 : 11); ++n) words(two, n, one);
        seq::long_lists<std::uint32_t>('a', { { ' ' }, { '\t', '_' } }, 70000, one); seq::long_lists<std::uint32_t>(' ', { { 'a' }, { '_', 'b' } }, 70000, one);
    }
    void s03(int k) { int l = k / 3; if (k % 3 == 0) s03_strip<std::string>(l, "std::string"); else if (k % 3 == 1) s03_strip<std::wstring>(l, "std::wstring"); else s03_strip<OwnString<wchar_t>>(l, "own allocator"); }

    // ---- S04 -----------------------------------------------------------------------------------------------------------
    template<class E> std::vector<std::uint32_t> chars() { std::vector<std::uint32_t> v; std::uint32_t n = sizeof(E) == 1 ? 256 : seq::thorough() ? 0x20000 : 0x3000; for (std::uint32_t c = 0; c < n; ++c) v.push_back(c); if (sizeof(E) > 1) for (std::uint32_t c : { 0xFF21u, 0xFF41u, 0x10400u, 0x10428u, 0x1F600u, 0x10FFFFu }) v.push_back(c); return v; }
    template<class S> void s04_case(int loc, const char* ty)
    {
        typedef typename S::value_type E; std::locale l = locale_of(loc); const auto& f = std::use_facet<std::ctype<E>>(l);
        // every character on its own
        for (auto u : chars<E>())
        {
            if (!seq::next()) continue;
            E c = (E)u; SEQ_CASE("%s character %lx, locale %s", ty, (unsigned long)u, LN[loc]);
            E lo = loc == 3 ? pluto::lower(c) : pluto::lower(c, l), up = loc == 3 ? pluto::upper(c) : pluto::upper(c, l); bool il = loc == 3 ? pluto::is_lower(c) : pluto::is_lower(c, l), iu = loc == 3 ? pluto::is_upper(c) : pluto::is_upper(c, l); seq::step(4);
            SEQ_CHECK(lo == f.tolower(c), "lower(%lx) in locale %s is %lx", (unsigned long)u, LN[loc], (unsigned long)lo); SEQ_CHECK(up == f.toupper(c), "upper(%lx) in locale %s is %lx", (unsigned long)u, LN[loc], (unsigned long)up);
            SEQ_CHECK(il == !f.is(std::ctype_base::upper, c), "is_lower(%lx) in locale %s is %d", (unsigned long)u, LN[loc], il); SEQ_CHECK(iu == !f.is(std::ctype_base::lower, c), "is_upper(%lx) in locale %s is %d", (unsigned long)u, LN[loc], iu);
            seq::outcome(seq::mix(il, iu) + (lo != up)); if (lo != up) seq::nontrivial();
        }
        // every short string: in place by string, by array, and the tests
        std::vector<std::uint32_t> al{ 'a', 'B', 'm', 'n', '1', 0 }; if (sizeof(E) > 1) { al.push_back(0xE9); al.push_back(0xC9); al.push_back(0x17F); } else al.push_back(0xE9);
        auto one = [&](const std::vector<std::uint32_t>& w)
        {
            if (!seq::next()) return;
            S s = make<S>(w), wl = s, wu = s; bool anyu = false, anyl = false; for (auto& c : wl) c = f.tolower(c);
            for (auto& c : wu) c = f.toupper(c);
            for (auto c : s) { anyu = anyu || f.is(std::ctype_base::upper, c); anyl = anyl || f.is(std::ctype_base::lower, c); }
            SEQ_CASE("%s %s, locale %s", ty, seq::show(s).c_str(), LN[loc]);
            S x = s, y = s; Exact<E> p(s), q(s); bool a, b, c, d;
            if (loc == 3) { pluto::lower(x); pluto::upper(y); pluto::lower(p.get(), p.n); pluto::upper(q.get(), q.n); Exact<E> r(s); const E* rp = r.get(); a = pluto::is_lower(s); b = pluto::is_upper(s); c = pluto::is_lower(rp, r.n); d = pluto::is_upper(rp, r.n); }
            else { pluto::lower(x, l); pluto::upper(y, l); pluto::lower(p.get(), p.n, l); pluto::upper(q.get(), q.n, l); Exact<E> r(s); const E* rp = r.get(); a = pluto::is_lower(s, l); b = pluto::is_upper(s, l); c = pluto::is_lower(rp, r.n, l); d = pluto::is_upper(rp, r.n, l); }
            seq::step(8); S px(p.get(), p.n), qx(q.get(), q.n);
            SEQ_CHECK(x == wl && px == wl, "%s: lower-casing %s in locale %s gives %s by string and %s by array, not %s", ty, seq::show(s).c_str(), LN[loc], seq::show(x).c_str(), seq::show(px).c_str(), seq::show(wl).c_str());
            SEQ_CHECK(y == wu && qx == wu, "%s: upper-casing %s in locale %s gives %s by string and %s by array, not %s", ty, seq::show(s).c_str(), LN[loc], seq::show(y).c_str(), seq::show(qx).c_str(), seq::show(wu).c_str());
            SEQ_CHECK(a == !anyu && c == !anyu, "%s: is_lower(%s) in locale %s is %d by string and %d by array", ty, seq::show(s).c_str(), LN[loc], a, c);
            SEQ_CHECK(b == !anyl && d == !anyl, "%s: is_upper(%s) in locale %s is %d by string and %d by array", ty, seq::show(s).c_str(), LN[loc], b, d);
            seq::outcome(seq::mix(hash(wl), hash(wu))); if (wl != wu) seq::nontrivial();
        };
        words_upto(al, seq::thorough() ? 6 : 5, one);
        for (std::uint32_t fill : { (std::uint32_t)'a', (std::uint32_t)'1', (std::uint32_t)0, al.back() }) seq::long_lists<std::uint32_t>(fill, { { 'B' }, { 'z', 'm' } }, 5000, one);
    }
    void s04_c(int k) { int l = k / 3; if (k % 3 == 0) s04_case<std::string>(l, "std::string"); else if (k % 3 == 1) s04_case<std::wstring>(l, "std::wstring"); else s04_case<OwnString<char>>(l, "own allocator"); }

    template<class S> void s04_operations(int loc, const char* ty)
    {
        typedef typename S::value_type E; std::locale l = locale_of(loc); const auto& f = std::use_facet<std::ctype<E>>(l);
        std::vector<std::uint32_t> al; if (sizeof(E) == 1) al = { 'a', 'A', 'n', 'm', '_' }; else al = { 's', 'S', 0x17F, 'n', 'm' };     // U+017F upper-cases to S
        std::vector<std::uint32_t> am; if (sizeof(E) == 1) am = { 'k', 'K', 0 }; else am = { 'k', 0x212A, 'K' };                         // U+212A lower-cases to k, but is its own upper case
        auto one = [&](const std::vector<std::uint32_t>& w, const std::vector<std::uint32_t>& v)
        {
            if (!seq::next()) return;
            S s = make<S>(w), t = make<S>(v), us = s, ut = t; for (auto& c : us) c = f.toupper(c);
            for (auto& c : ut) c = f.toupper(c);
            SEQ_CASE("%s %s and %s, locale %s", ty, seq::show(s).c_str(), seq::show(t).c_str(), LN[loc]);
            const std::size_t n = us.size(), m = ut.size();
            auto at = [&](std::size_t i) { for (std::size_t k = 0; k < m; ++k) if (us[i + k] != ut[k]) return false; return true; };
            bool eq = n == m && at(0), st = m <= n && at(0), en = m <= n && at(n - m); std::size_t fi = n, rf = n; bool co = m == 0;
            if (m <= n) { for (std::size_t i = n - m + 1; i-- > 0;) if (at(i)) { fi = i; co = true; } for (std::size_t i = 0; i + m <= n; ++i) if (at(i)) rf = i; }
            Exact<E> p(s), q(t); const E *pp = p.get(), *qq = q.get();
            bool g[8]; std::size_t pos[4] = { fi, fi, rf, rf };
#define L1(name) (loc == 3 ? pluto::name(s, t) : pluto::name(s, t, l))
#define L2(name) (loc == 3 ? pluto::name(pp, n, qq, m) : pluto::name(pp, n, qq, m, l))
            g[0] = L1(iequals); g[1] = L2(iequals); g[2] = L1(istarts_with); g[3] = L2(istarts_with); g[4] = L1(iends_with); g[5] = L2(iends_with); g[6] = L1(icontains); g[7] = L2(icontains);
            pos[0] = (std::size_t)(L1(ifind) - s.cbegin()); pos[1] = (std::size_t)(L2(ifind) - pp);
#if PLUTO_UTILS_HAS_CXX_17
            pos[2] = (std::size_t)(L1(irfind) - s.cbegin()); pos[3] = (std::size_t)(L2(irfind) - pp);
#endif
            seq::step(12);
            bool want[4] = { eq, st, en, co }; static const char* N[] = { "iequals", "istarts_with", "iends_with", "icontains" };
            for (int i = 0; i < 8; ++i) SEQ_CHECK(g[i] == want[i / 2], "%s: %s(%s, %s) by %s in locale %s is %d", ty, N[i / 2], seq::show(s).c_str(), seq::show(t).c_str(), i & 1 ? "array" : "string", LN[loc], g[i]);
            for (int i = 0; i < 4; ++i) SEQ_CHECK(pos[i] == (i < 2 ? fi : rf), "%s: %s(%s, %s) by %s in locale %s finds index %zu and not %zu", ty, i < 2 ? "ifind" : "irfind", seq::show(s).c_str(), seq::show(t).c_str(), i & 1 ? "array" : "string", LN[loc], pos[i], i < 2 ? fi : rf);
            seq::outcome((u64)eq + 2 * (u64)st + 4 * (u64)en + 8 * (u64)co + 16 * fi + 256 * rf); if (co) seq::nontrivial();
        };
        words_upto(al, 4, [&](const std::vector<std::uint32_t>& w) { words_upto(al, seq::thorough() ? 4 : 3, [&](const std::vector<std::uint32_t>& v) { one(w, v); }); });
        words_upto(am, seq::thorough() ? 7 : 6, [&](const std::vector<std::uint32_t>& w) { words_upto(am, 3, [&](const std::vector<std::uint32_t>& v) { one(w, v); }); });
        seq::long_lists<std::uint32_t>('a', { { 'B' }, { 'b', 'n' } }, 300, [&](const std::vector<std::uint32_t>& w)
        {
            std::vector<std::uint32_t> v = w; for (auto& c : v) c = c == 'a' ? 'A' : c == 'B' ? 'b' : c;
            one(w, v); one(w, { 'b' }); one(w, { 'B', 'N' }); one(w, { 'A', 'a', 'a' }); one(w, std::vector<std::uint32_t>(20, 'A')); auto u = v; u.push_back('x'); one(w, u); one(u, v); u = v; u.insert(u.begin(), 'x'); one(w, u); one(u, v);
            if (v.size()) { for (std::size_t i : { (std::size_t)0, v.size() / 2, v.size() - 1 }) { u = v; u[i] = '_'; one(w, u); u.assign(v.begin() + (std::ptrdiff_t)i, v.end()); one(w, u); u.assign(v.begin(), v.begin() + (std::ptrdiff_t)i); one(w, u); } }
        });
    }
    void s04_o(int k) { int l = k / 3; if (k % 3 == 0) s04_operations<std::string>(l, "std::string"); else if (k % 3 == 1) s04_operations<std::wstring>(l, "std::wstring"); else s04_operations<OwnString<char>>(l, "own allocator"); }

    // ---- S05 -----------------------------------------------------------------------------------------------------------
    typedef unsigned __int128 u128;
    std::string ref_digits(u128 bits, int base) { std::string r; if (!bits) r = "0"; while (bits) { r.insert(r.begin(), "0123456789abcdef"[(int)(bits % (unsigned)base)]); bits /= (unsigned)base; } return (base == 2 ? "0b" : base == 8 ? "0o" : "0x") + r; }
    template<class T> void s05_value(u128 bits, const char* ty)
    {
        if (!seq::next()) return;
        T v = (T)bits; u128 b = 0; std::memcpy(&b, &v, sizeof v);
        SEQ_CASE("%s %s", ty, ref_digits(b, 16).c_str());
        struct { std::string got; int base; const char* n; } r[] = { { pluto::bin(v), 2, "bin" }, { pluto::oct(v), 8, "oct" }, { pluto::hex(v), 16, "hex" } }; seq::step(3);
        for (auto& x : r) { std::string w = ref_digits(b, x.base); SEQ_CHECK(x.got == w, "%s of the %s %s is %s and not %s", x.n, ty, ref_digits(b, 16).c_str(), x.got.c_str(), w.c_str()); }
        seq::outcome(seq::mix(r[0].got.size(), r[1].got.size() * 1000 + r[2].got.size())); if (b) seq::nontrivial();
    }
    template<class T> void s05_type(const char* ty)
    {
        const int W = (int)sizeof(T) * 8; auto ones = [](int n) { return n >= 128 ? ~(u128)0 : (((u128)1 << n) - 1); };
        if (W <= 16) { for (u128 b = 0; b <= ones(W); ++b) s05_value<T>(b, ty); return; }
        // every pattern of at most two runs of ones (three for 32 bits, thorough), single digits of every base at every place, and small numbers
        const int runs = W == 32 && seq::thorough() ? 3 : W == 128 ? 1 : 2;
        std::function<void(int, int, u128)> go = [&](int from, int left, u128 acc)
        {
            s05_value<T>(acc, ty); if (!left) return;
            for (int i = from; i < W; ++i) for (int n = 1; i + n <= W; ++n) go(i + n + 1, left - 1, acc | (ones(n) << i));
        };
        go(0, runs, 0);
        for (int i = 0; i < W; ++i) for (u128 d = 1; d < 16; ++d) s05_value<T>(d << i, ty);
        for (u128 k = 0; k < 70000; ++k) { s05_value<T>(k, ty); s05_value<T>(~k, ty); s05_value<T>(k << (W > 17 ? W - 17 : 0), ty); }
        for (u128 b = 0; b < 256; ++b) { u128 x = 0; for (int k = 0; k < W; k += 8) x |= b << k; s05_value<T>(x, ty); }
    }
    void s05(int t)
    {
        switch (t)
        {
        case 0: s05_type<char>("char"); break; case 1: s05_type<signed char>("signed char"); break; case 2: s05_type<unsigned char>("unsigned char"); break; case 3: s05_type<short>("short"); break; case 4: s05_type<unsigned short>("unsigned short"); break;
        case 5: s05_type<int>("int"); break; case 6: s05_type<unsigned>("unsigned"); break; case 7: s05_type<long>("long"); break; case 8: s05_type<unsigned long>("unsigned long"); break; case 9: s05_type<long long>("long long"); break; case 10: s05_type<unsigned long long>("unsigned long long"); break;
        case 11: s05_type<wchar_t>("wchar_t"); break; case 12: s05_type<char16_t>("char16_t"); break; case 13: s05_type<char32_t>("char32_t"); break;
        case 14: for (int b = 0; b < 2; ++b) { if (!seq::next()) continue; bool v = b; SEQ_CASE("bool %d", b); SEQ_CHECK(pluto::bin(v) == (b ? "0b1" : "0b0") && pluto::oct(v) == (b ? "0o1" : "0o0") && pluto::hex(v) == (b ? "0x1" : "0x0"), "bin, oct, hex of the bool %d are %s, %s, %s", b, pluto::bin(v).c_str(), pluto::oct(v).c_str(), pluto::hex(v).c_str()); } break;
        default: s05_type<__int128>("__int128"); break;
        }
    }

    // ---- S06 -----------------------------------------------------------------------------------------------------------
    // leaves a known pattern where the next call's variables will be
    __attribute__((noinline)) __attribute__((no_sanitize_address)) void paint(int b) { volatile unsigned char a[12000]; for (std::size_t i = 0; i < sizeof a; ++i) a[i] = (unsigned char)b; }
    // never inlined, so that their variables are where paint() has been
    template<class V> __attribute__((noinline)) V to1(const std::string& s) { return pluto::str_to<V>(s); } template<class V> __attribute__((noinline)) V to2(const char* p, std::size_t n) { return pluto::str_to<V>(p, n); }
    template<class V> __attribute__((noinline)) V to3(const std::wstring& s) { return pluto::wstr_to<V>(s); } template<class V> __attribute__((noinline)) V to4(const wchar_t* p, std::size_t n) { return pluto::wstr_to<V>(p, n); }
    template<class V> bool same(const V& a, const V& b) { return a == b || (a != a && b != b); }
    template<class V> std::string text(const V& v) { std::ostringstream s; s << std::setprecision(30) << +v; return s.str(); }
    template<class V> void s06_parse(const char* ty, const std::string& s)
    {
        if (!seq::next()) return;
        SEQ_CASE("%s from %s", ty, seq::show(s).c_str());
        std::wstring w(s.begin(), s.end()); V want{}; { std::istringstream is(s); is >> want; } V ww{}; { std::wistringstream is(w); is >> ww; }
        Exact<char> p(s); Exact<wchar_t> q(w); const char* pp = p.get(); const wchar_t* qq = q.get();
        for (int b : { 0x00, 0xFF, 0x5A })
        {
            paint(b); V g1 = to1<V>(s); paint(b); V g2 = to2<V>(pp, p.n); paint(b); V g3 = to3<V>(w); paint(b); V g4 = to4<V>(qq, q.n); seq::step(4);
            SEQ_CHECK(same(g1, want), "str_to<%s>(%s) is %s and not %s (stack filled with %02x before)", ty, seq::show(s).c_str(), text(g1).c_str(), text(want).c_str(), b);
            SEQ_CHECK(same(g2, want), "str_to<%s>(%s) by array is %s and not %s (stack filled with %02x before)", ty, seq::show(s).c_str(), text(g2).c_str(), text(want).c_str(), b);
            SEQ_CHECK(same(g3, ww), "wstr_to<%s>(%s) is %s and not %s (stack filled with %02x before)", ty, seq::show(s).c_str(), text(g3).c_str(), text(ww).c_str(), b);
            SEQ_CHECK(same(g4, ww), "wstr_to<%s>(%s) by array is %s and not %s (stack filled with %02x before)", ty, seq::show(s).c_str(), text(g4).c_str(), text(ww).c_str(), b);
        }
        seq::outcome(std::hash<std::string>()(text(want))); if (!same(want, V{})) seq::nontrivial();
    }
    template<class V> void s06_texts(const char* ty)
    {
        std::vector<std::uint32_t> al{ '0', '1', '9', '-', '+', ' ', 'x', '.' };
        words_upto(al, seq::thorough() ? 6 : 5, [&](const std::vector<std::uint32_t>& w) { s06_parse<V>(ty, std::string(w.begin(), w.end())); });
        for (const char* s : { "\t", "\n7", "\v\f\r", " \t\n", "127", "128", "-128", "-129", "255", "256", "32767", "32768", "-32769", "65535", "65536", "2147483647", "2147483648", "-2147483648", "-2147483649", "4294967295", "4294967296", "9223372036854775807", "9223372036854775808",
            "-9223372036854775808", "-9223372036854775809", "18446744073709551615", "18446744073709551616", "99999999999999999999999999", "-99999999999999999999999999", "1e5", "1e400", "nan", "inf", "0x10", "1,000", "true", "false", "2", "abc def", "1_000", "0b1", "1e", "1e+", ".", "-.", "--1" }) s06_parse<V>(ty, s);
        s06_parse<V>(ty, std::string("\0", 1)); s06_parse<V>(ty, std::string("1\0002", 3)); s06_parse<V>(ty, std::string("\0001", 2)); s06_parse<V>(ty, std::string(300, ' ') + "5"); s06_parse<V>(ty, std::string(300, '0') + "5");
    }
    template<class V> void s06_round(const char* ty, V v)
    {
        if (!seq::next()) return;
        std::ostringstream os; os << v; std::wostringstream ws; ws << v; SEQ_CASE("%s %s", ty, seq::show(os.str()).c_str());
        std::string s = pluto::str(v); std::wstring w = pluto::wstr(v); seq::step(2);
        SEQ_CHECK(s == os.str(), "str of the %s %s is %s", ty, os.str().c_str(), s.c_str()); SEQ_CHECK(w == ws.str(), "wstr of the %s %s is %s", ty, os.str().c_str(), seq::show(w).c_str());
        if (std::is_integral<V>::value && sizeof(V) > 1)
        {
            paint(0x5A); V a = pluto::str_to<V>(s), b = pluto::wstr_to<V>(w); seq::step(2);
            SEQ_CHECK(a == v && b == v, "the %s %s becomes %s by str and str_to, %s by wstr and wstr_to", ty, os.str().c_str(), text(a).c_str(), text(b).c_str());
        }
        seq::outcome(s.size()); seq::nontrivial();
    }
    template<class V> void s06_values(const char* ty)
    {
        typedef std::numeric_limits<V> N;
        if (sizeof(V) == 2) { for (long x = (long)N::min(); x <= (long)N::max(); ++x) s06_round<V>(ty, (V)x); return; }
        for (int i = 0; i < 300; ++i) { s06_round<V>(ty, (V)(N::max() - (V)i)); s06_round<V>(ty, (V)(N::min() + (V)i)); s06_round<V>(ty, (V)i); s06_round<V>(ty, (V)(V(0) - (V)i)); }
        for (int k = 0; k < (int)sizeof(V) * 8; ++k) for (int d = -2; d <= 2; ++d) s06_round<V>(ty, (V)(((u128)1 << k) + (u128)(__int128)d));
        u128 p = 1; for (int k = 0; k < 20; ++k, p *= 10) for (int d = -2; d <= 2; ++d) for (int f = 1; f < 10; ++f) { s06_round<V>(ty, (V)(p * (unsigned)f + (u128)(__int128)d)); s06_round<V>(ty, (V)(0 - (p * (unsigned)f + (u128)(__int128)d))); }
    }
    struct Own { int v; }; std::ostream& operator<<(std::ostream& o, const Own& x) { return o << '<' << x.v << '>'; } std::wostream& operator<<(std::wostream& o, const Own& x) { return o << L'<' << x.v << L'>'; }
    void s06_misc(int)
    {
        for (int b = 0; b < 2; ++b) s06_round<bool>("bool", b);
        for (int c = 0; c < 128; ++c)
        {
            if (!seq::next()) continue;
            SEQ_CASE("character %d", c); char ch = (char)c; wchar_t wc = (wchar_t)c;
            SEQ_CHECK(pluto::str(ch) == std::string(1, ch), "str of the character %d is %s", c, seq::show(pluto::str(ch)).c_str()); SEQ_CHECK(pluto::wstr(wc) == std::wstring(1, wc), "wstr of the character %d is %s", c, seq::show(pluto::wstr(wc)).c_str());
        }
        for (double d : { 0.0, 1.5, -2.25, 1e300, 0.1, 1.0 / 3, 1e-7, 123456789.0, std::numeric_limits<double>::infinity() }) { s06_round<double>("double", d); s06_round<float>("float", (float)d); s06_round<long double>("long double", d); }
        for (const char* t : { "", "a", "abc", " a b ", "x\ny" })
        {
            if (!seq::next()) continue;
            SEQ_CASE("text %s", seq::show(std::string(t)).c_str()); std::string s(t); std::wstring w(s.begin(), s.end());
            SEQ_CHECK(pluto::str(t) == s && pluto::str(s) == s && pluto::str(t, s.size()) == s, "str of the text %s differs", t); SEQ_CHECK(pluto::wstr(w) == w && pluto::wstr(w.c_str()) == w && pluto::wstr(w.c_str(), w.size()) == w, "wstr of the text %s differs", t);
            for (std::size_t n = 0; n <= s.size(); ++n) { Exact<char> p(s.substr(0, n)); const char* pp = p.get(); SEQ_CHECK(pluto::str(pp, n) == s.substr(0, n), "str of the first %zu characters of %s differs", n, t); Exact<wchar_t> q(w.substr(0, n)); const wchar_t* qq = q.get(); SEQ_CHECK(pluto::wstr(qq, n) == w.substr(0, n), "wstr of the first %zu characters of %s differs", n, t); }
            seq::step(5);
        }
        for (int v : { 0, 5, -7 }) { if (!seq::next()) continue; SEQ_CASE("own type %d", v); std::ostringstream e; e << Own{ v }; SEQ_CHECK(pluto::str(Own{ v }) == e.str(), "str of an own type is %s", pluto::str(Own{ v }).c_str()); std::wostringstream f; f << Own{ v }; SEQ_CHECK(pluto::wstr(Own{ v }) == f.str(), "wstr of an own type differs"); }
        seq::long_lists<std::uint32_t>('a', { { ' ' }, { 0 }, { '\n' } }, 70000, [](const std::vector<std::uint32_t>& u)
        {
            if (!seq::next()) return;
            std::string s(u.begin(), u.end()), first; std::wstring w(u.begin(), u.end()), wf; SEQ_CASE("long text %s", seq::show(s).c_str());
            for (char c : s) { if (c == ' ' || c == '\n') { if (first.size()) break; } else first += c; }
            wf.assign(first.begin(), first.end()); Exact<char> p(s); Exact<wchar_t> q(w); const char* pp = p.get(); const wchar_t* qq = q.get();
            SEQ_CHECK(pluto::str(s) == s && pluto::str(pp, p.n) == s && pluto::wstr(w) == w && pluto::wstr(qq, q.n) == w, "str of a text of %zu characters differs", s.size());
            SEQ_CHECK(pluto::str(s.c_str()) == s.c_str() && pluto::wstr(w.c_str()) == w.c_str(), "str of a C string of %zu characters differs", s.size());
            SEQ_CHECK(pluto::str_to<std::string>(s) == first && pluto::str_to<std::string>(pp, p.n) == first, "str_to<std::string> of a text of %zu characters gives %zu of them and not %zu", s.size(), pluto::str_to<std::string>(s).size(), first.size());
            SEQ_CHECK(pluto::wstr_to<std::wstring>(w) == wf && pluto::wstr_to<std::wstring>(qq, q.n) == wf, "wstr_to<std::wstring> of a text of %zu characters gives %zu of them and not %zu", w.size(), pluto::wstr_to<std::wstring>(w).size(), wf.size());
            seq::step(10); seq::outcome(first.size()); if (first != s) seq::nontrivial();
        });
        for (std::size_t n : seq::lengths()) { s06_parse<int>("int", std::string(n, ' ') + "-12"); s06_parse<int>("int", std::string(n, '0') + "12 7"); s06_parse<long long>("long long", "1" + std::string(n, '0')); s06_parse<double>("double", "0." + std::string(n, '0') + "5"); if (n && n < 5000) s06_parse<double>("double", std::string(n, '9')); }
        // words: the first one, or nothing
        std::vector<std::uint32_t> al{ 'a', 'b', ' ', '\n' };
        words_upto(al, 6, [&](const std::vector<std::uint32_t>& w) { std::string s(w.begin(), w.end()); if (!seq::next()) return; SEQ_CASE("word from %s", seq::show(s).c_str()); std::string first; for (char c : s) { if (c == ' ' || c == '\n') { if (first.size()) break; } else first += c; }
            std::wstring ws(s.begin(), s.end()), wf(first.begin(), first.end()); SEQ_CHECK(pluto::str_to<std::string>(s) == first, "str_to<std::string>(%s) is %s", seq::show(s).c_str(), seq::show(pluto::str_to<std::string>(s)).c_str()); SEQ_CHECK(pluto::wstr_to<std::wstring>(ws) == wf, "wstr_to<std::wstring>(%s) differs", seq::show(s).c_str()); seq::outcome(hash(first)); if (first.size()) seq::nontrivial(); });
    }
    // conversions of one type after another: no operator may leave anything behind for the next call, nor a call disturb the one it is made in
    struct Boom { int k; };
    struct Grouped : std::numpunct<char> { char do_thousands_sep() const override { return '\''; } std::string do_grouping() const override { return "\1"; } char do_decimal_point() const override { return ','; } };
    struct Moody { int kind, value; };
    template<class O> O& moody_out(O& o, const Moody& m, bool nested)
    {
        typedef typename O::char_type E; o << m.value << E(' ') << (m.value > 0) << E(' ') << (double)m.value / 7;
        switch (m.kind)
        {
            case 1: o << std::hex << std::showbase << std::uppercase; break; case 2: o << std::boolalpha << std::showpos; break; case 3: o << std::fixed << std::setprecision(2); break;
            case 4: o.width(30); o << std::left; break; case 5: o.fill(E('*')); o.width(20); break; case 6: o.setstate(std::ios::failbit); break; case 7: throw Boom{ m.value };
            case 8: o.imbue(std::locale(std::locale::classic(), new Grouped)); break; case 9: if (nested) o << E('(') << m.value << E(')'); break; case 10: o.exceptions(std::ios::failbit | std::ios::badbit); break; case 11: o.seekp(1); break; case 12: o.setstate(std::ios::eofbit | std::ios::badbit); break;
        }
        return o;
    }
    std::ostream& operator<<(std::ostream& o, const Moody& m) { moody_out(o, m, false); return m.kind == 9 ? o << '(' << pluto::str(Moody{ 1, m.value + 1 }) << ')' << pluto::str(m.value) << m.value : o; }
    std::wostream& operator<<(std::wostream& o, const Moody& m) { moody_out(o, m, false); return m.kind == 9 ? o << L'(' << pluto::wstr(Moody{ 1, m.value + 1 }) << L')' << pluto::wstr(m.value) << m.value : o; }
    // what it is on a stream of its own
    template<class Os> std::basic_string<typename Os::char_type> alone(const Moody& m)
    {
        typedef typename Os::char_type E; Os o; auto plain = [](Moody x) { Os s; moody_out(s, x, false); return s.str(); }; auto num = [](int v) { Os s; s << v; return s.str(); };
        try { moody_out(o, m, false); if (m.kind == 9) o << E('(') << plain(Moody{ 1, m.value + 1 }) << E(')') << num(m.value) << m.value; } catch (const Boom&) { return num(-1); }
        return o.str();
    }
    struct Greedy { int kind; long value = 0; };
    template<int K, class I> I& greedy_in(I& i, Greedy& g)
    {
        typedef typename I::char_type E; i >> g.value;
        switch (K) { case 1: i >> std::hex; break; case 2: i >> std::noskipws; break; case 3: i.setstate(std::ios::failbit); break; case 4: throw Boom{ 1 }; case 5: { E c; while (i.get(c)) {} break; } case 6: i.imbue(std::locale(std::locale::classic(), new Grouped)); break; case 7: i.exceptions(std::ios::failbit | std::ios::badbit); break; case 8: i.unget(); break; }
        g.kind = K; return i;
    }
    template<int K> struct G : Greedy { G() : Greedy{ -1 } {} };
    template<int K> std::istream& operator>>(std::istream& i, G<K>& g) { return greedy_in<K>(i, g); } template<int K> std::wistream& operator>>(std::wistream& i, G<K>& g) { return greedy_in<K>(i, g); }
    template<int K> long parse_moody(const std::string& s) { try { std::wstring w(s.begin(), s.end()); G<K> a = pluto::str_to<G<K>>(s); G<K> b = pluto::wstr_to<G<K>>(w); return a.value == b.value ? a.value : -777; } catch (const Boom&) { return -99; } catch (const std::ios_base::failure&) { return -98; } }
    long parse_moody(int k, const std::string& s) { switch (k) { case 0: return parse_moody<0>(s); case 1: return parse_moody<1>(s); case 2: return parse_moody<2>(s); case 3: return parse_moody<3>(s); case 4: return parse_moody<4>(s); case 5: return parse_moody<5>(s); case 6: return parse_moody<6>(s); case 7: return parse_moody<7>(s); default: return parse_moody<8>(s); } }
    void s06_after(int)
    {
        const int K = 13, LEN = seq::thorough() ? 4 : 3; int total = 1; for (int i = 0; i < LEN; ++i) total *= K;
        for (int c = 0; c < total; ++c)
        {
            if (!seq::next()) continue;
            SEQ_CASE("texts one after another, case %d", c);
            for (int i = 0, x = c; i < LEN; ++i, x /= K)
            {
                Moody m{ x % K, i == 0 ? 255 : i == 1 ? -40 : 123456 }; std::string s; std::wstring w;
                try { s = pluto::str(m); } catch (const Boom&) { s = "-1"; } try { w = pluto::wstr(m); } catch (const Boom&) { w = L"-1"; } seq::step(2);
                std::string e = alone<std::ostringstream>(m); std::wstring f = alone<std::wostringstream>(m);
                SEQ_CHECK(s == e, "conversion %d of the sequence %d gives %s and not %s", i + 1, c, seq::show(s).c_str(), seq::show(e).c_str()); SEQ_CHECK(w == f, "wide conversion %d of the sequence %d gives %s and not %s", i + 1, c, seq::show(w).c_str(), seq::show(f).c_str());
                SEQ_CHECK(pluto::str(255) == "255" && pluto::wstr(255) == L"255" && pluto::str(true) == "1" && pluto::str(1.5) == "1.5", "a conversion changes those of other types (sequence %d)", c);
                seq::outcome(std::hash<std::string>()(s));
            }
            seq::nontrivial();
        }
        // the same the other way round: every kind of reading, twice each, in every order of two kinds
        for (int a = 0; a < 9; ++a) for (int b = 0; b < 9; ++b)
        {
            if (!seq::next()) continue;
            SEQ_CASE("numbers one after another, kinds %d and %d", a, b);
            const char* texts[] = { " 12 x", "7", "", "0x1f", "1'2" }; const long want[] = { 12, 7, 0, 0, 1 };
            for (int i = 0; i < 5; ++i) for (int k : { a, b, a })
            {
                long r = parse_moody(k, texts[i]); seq::step(2); long e = k == 4 ? -99 : k == 7 && i == 2 ? -98 : want[i];
                SEQ_CHECK(r == e, "reading kind %d from %s gives %ld and not %ld", k, seq::show(std::string(texts[i])).c_str(), r, e);
                SEQ_CHECK(pluto::str_to<int>(" 10") == 10 && pluto::wstr_to<int>(L" 10") == 10 && pluto::str_to<int>("x") == 0, "a conversion changes those of other types (kind %d)", k);
            }
            seq::nontrivial();
        }
    }
    void s06_p(int t) { switch (t) { case 0: s06_texts<int>("int"); break; case 1: s06_texts<unsigned>("unsigned"); break; case 2: s06_texts<long long>("long long"); break; case 3: s06_texts<short>("short"); break; case 4: s06_texts<bool>("bool"); break; case 5: s06_texts<double>("double"); break; case 6: s06_texts<unsigned long long>("unsigned long long"); break; case 7: s06_texts<float>("float"); break; case 8: s06_texts<unsigned short>("unsigned short"); break; default: s06_texts<long double>("long double"); break; } }
    void s06_v(int t) { switch (t) { case 0: s06_values<short>("short"); break; case 1: s06_values<unsigned short>("unsigned short"); break; case 2: s06_values<int>("int"); break; case 3: s06_values<unsigned>("unsigned"); break; case 4: s06_values<long>("long"); break; case 5: s06_values<unsigned long>("unsigned long"); break; case 6: s06_values<long long>("long long"); break; default: s06_values<unsigned long long>("unsigned long long"); break; } }
}
void reg()
{
    for (int t = 0; t < 4; ++t) { seq::scenario("S01", "separator-type" + std::to_string(t), s01_sep, t, 4); seq::scenario("S01", "join-type" + std::to_string(t), s01_join, t, 2); }
    for (int k = 0; k < 12; ++k) seq::scenario("S01", std::string("white-space-") + LN[k / 3] + "-type" + std::to_string(k % 3), s01_ws, k, 2);
    for (int t = 0; t < 5; ++t) seq::scenario("S02", "replace-type" + std::to_string(t), s02, t, 4);
    for (int k = 0; k < 12; ++k) seq::scenario("S03", std::string("strip-") + LN[k / 3] + "-type" + std::to_string(k % 3), s03, k, 2);
    for (int k = 0; k < 12; ++k) { seq::scenario("S04", std::string("case-") + LN[k / 3] + "-type" + std::to_string(k % 3), s04_c, k, 2); seq::scenario("S04", std::string("operations-") + LN[k / 3] + "-type" + std::to_string(k % 3), s04_o, k, 4); }
    for (int t = 0; t < 16; ++t) seq::scenario("S05", "type" + std::to_string(t), s05, t, t >= 5 && t != 12 && t != 14 ? 4 : 1);
    for (int t = 0; t < 10; ++t) seq::scenario("S06", "parse-type" + std::to_string(t), s06_p, t, 2);
    for (int t = 0; t < 8; ++t) seq::scenario("S06", "values-type" + std::to_string(t), s06_v, t, 1);
    seq::scenario("S06", "others", s06_misc); seq::scenario("S06", "one-after-another", s06_after);
}
int main(int argc, char** argv) { return seq::main(argc, argv, reg); }
