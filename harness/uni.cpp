// U01, U02, U03: Unicode conversions against an independent reference (Unicode standard, table 3-7 and section 3.9).
#include "seq.hpp"
#include <pluto/string.hpp>
#include <pluto/unicode.hpp>
#include <functional>
#include <memory>
#include <string>
#include <vector>

namespace
{
    using seq::u64;
    typedef std::vector<std::uint32_t> Units;
    const std::uint32_t REPL = 0xFFFD;

    // ---- reference -----------------------------------------------------------------------------------------------------
    // well-formed UTF-8 byte sequences, straight from table 3-7: lowest and highest value of every byte
    const struct { int n; unsigned char lo[4], hi[4]; } T37[] = {
        { 1, { 0x00 }, { 0x7F } }, { 2, { 0xC2, 0x80 }, { 0xDF, 0xBF } }, { 3, { 0xE0, 0xA0, 0x80 }, { 0xE0, 0xBF, 0xBF } }, { 3, { 0xE1, 0x80, 0x80 }, { 0xEC, 0xBF, 0xBF } },
        { 3, { 0xED, 0x80, 0x80 }, { 0xED, 0x9F, 0xBF } }, { 3, { 0xEE, 0x80, 0x80 }, { 0xEF, 0xBF, 0xBF } }, { 4, { 0xF0, 0x90, 0x80, 0x80 }, { 0xF0, 0xBF, 0xBF, 0xBF } },
        { 4, { 0xF1, 0x80, 0x80, 0x80 }, { 0xF3, 0xBF, 0xBF, 0xBF } }, { 4, { 0xF4, 0x80, 0x80, 0x80 }, { 0xF4, 0x8F, 0xBF, 0xBF } } };
    void ref_decode8(const unsigned char* p, std::size_t n, Units& out)
    {
        for (std::size_t i = 0; i < n;)
        {
            int used = 0;
            for (auto& t : T37)
            {
                if (i + (std::size_t)t.n > n) continue;
                bool ok = true; for (int k = 0; k < t.n && ok; ++k) ok = p[i + (std::size_t)k] >= t.lo[k] && p[i + (std::size_t)k] <= t.hi[k];
                if (!ok) continue;
                static const int lead[] = { 0, 0x7F, 0x1F, 0x0F, 0x07 };
                std::uint32_t c = p[i] & (unsigned)lead[t.n]; for (int k = 1; k < t.n; ++k) c = c * 64 + (p[i + (std::size_t)k] - 0x80u);
                out.push_back(c); used = t.n; break;
            }
            if (!used) { out.push_back(REPL); used = 1; }
            i += (std::size_t)used;
        }
    }
    void ref_decode16(const std::uint16_t* p, std::size_t n, Units& out)
    {
        for (std::size_t i = 0; i < n; ++i)
        {
            bool hi = p[i] >= 0xD800 && p[i] <= 0xDBFF, lo = p[i] >= 0xDC00 && p[i] <= 0xDFFF;
            if (!hi && !lo) out.push_back(p[i]);
            else if (hi && i + 1 < n && p[i + 1] >= 0xDC00 && p[i + 1] <= 0xDFFF) { out.push_back(0x10000u + (p[i] - 0xD800u) * 1024u + (p[i + 1] - 0xDC00u)); ++i; }
            else out.push_back(REPL);
        }
    }
    void ref_decode32(const std::uint32_t* p, std::size_t n, Units& out) { for (std::size_t i = 0; i < n; ++i) out.push_back(p[i] > 0x10FFFF || (p[i] >= 0xD800 && p[i] <= 0xDFFF) ? REPL : p[i]); }
    void enc8(std::uint32_t c, Units& o)
    {
        if (c < 0x80) o.push_back(c);
        else if (c < 0x800) { o.push_back(0xC0 + c / 64); o.push_back(0x80 + c % 64); }
        else if (c < 0x10000) { o.push_back(0xE0 + c / 4096); o.push_back(0x80 + c / 64 % 64); o.push_back(0x80 + c % 64); }
        else { o.push_back(0xF0 + c / 262144); o.push_back(0x80 + c / 4096 % 64); o.push_back(0x80 + c / 64 % 64); o.push_back(0x80 + c % 64); }
    }
    void enc16(std::uint32_t c, Units& o) { if (c < 0x10000) o.push_back(c); else { o.push_back(0xD800 + (c - 0x10000) / 1024); o.push_back(0xDC00 + (c - 0x10000) % 1024); } }
    Units encode(const Units& cp, int width) { Units o; for (auto c : cp) { if (width == 8) enc8(c, o); else if (width == 16) enc16(c, o); else o.push_back(c); } return o; }

    std::string show(const Units& u) { std::string s; char b[16]; for (auto x : u) { std::snprintf(b, sizeof b, "%s%X", s.empty() ? "" : " ", x); s += b; } return "<" + s + ">"; }
    template<class E> std::uint32_t unit(E e) { return sizeof(E) == 1 ? (std::uint32_t)(unsigned char)e : sizeof(E) == 2 ? (std::uint32_t)(std::uint16_t)e : (std::uint32_t)e; }
    template<class S> Units units(const S& s) { Units u; for (auto e : s) u.push_back(unit(e)); return u; }
    template<class S> S make(const Units& u) { S s; for (auto x : u) s.push_back((typename S::value_type)x); return s; }

    // ---- one conversion, by its pluto function: From8 etc. are the element types
    template<int FW, int TW> struct cv;
    template<> struct cv<8, 16> { template<class F, class S> static void p(const F* p, std::size_t n, S& o) { pluto::utf8_to_utf16(p, n, o); } template<class I, class S> static void s(const I& i, S& o) { pluto::utf8_to_utf16(i, o); } };
    template<> struct cv<8, 32> { template<class F, class S> static void p(const F* p, std::size_t n, S& o) { pluto::utf8_to_utf32(p, n, o); } template<class I, class S> static void s(const I& i, S& o) { pluto::utf8_to_utf32(i, o); } };
    template<> struct cv<16, 8> { template<class F, class S> static void p(const F* p, std::size_t n, S& o) { pluto::utf16_to_utf8(p, n, o); } template<class I, class S> static void s(const I& i, S& o) { pluto::utf16_to_utf8(i, o); } };
    template<> struct cv<16, 32> { template<class F, class S> static void p(const F* p, std::size_t n, S& o) { pluto::utf16_to_utf32(p, n, o); } template<class I, class S> static void s(const I& i, S& o) { pluto::utf16_to_utf32(i, o); } };
    template<> struct cv<32, 8> { template<class F, class S> static void p(const F* p, std::size_t n, S& o) { pluto::utf32_to_utf8(p, n, o); } template<class I, class S> static void s(const I& i, S& o) { pluto::utf32_to_utf8(i, o); } };
    template<> struct cv<32, 16> { template<class F, class S> static void p(const F* p, std::size_t n, S& o) { pluto::utf32_to_utf16(p, n, o); } template<class I, class S> static void s(const I& i, S& o) { pluto::utf32_to_utf16(i, o); } };

    template<class E> std::unique_ptr<E[]> heap(const Units& in) { std::unique_ptr<E[]> h(new E[in.size()]); for (std::size_t i = 0; i < in.size(); ++i) h[i] = (E)in[i]; return h; }   // exact size: reads outside are caught
    template<class S> void expect(const S& got, const Units& want, const char* what, const Units& in, std::size_t skip = 0)
    {
        bool ok = got.size() == want.size() + skip;
        for (std::size_t i = 0; ok && i < want.size(); ++i) ok = unit(got[i + skip]) == want[i];
        if (!ok) { Units g = units(got); g.erase(g.begin(), g.begin() + (long)std::min(skip, g.size())); seq::fail("%s of %s gave %s instead of %s%s", what, show(in).c_str(), show(g).c_str(), show(want).c_str(), skip ? " after earlier contents" : ""); }
    }
    template<int FW, int TW, class FS, class TS> void all_forms(const Units& in, const Units& want, const char* what)
    {
        typedef typename FS::value_type F; typedef typename TS::value_type T;
        auto h = heap<F>(in); seq::step(3);
        { TS o; cv<FW, TW>::p(h.get(), in.size(), o); expect(o, want, what, in); }
        FS s = make<FS>(in); FS s0 = s;
        { TS o((std::size_t)2, (T)'q'); o[1] = (T)0; cv<FW, TW>::s(s, o); expect(o, want, what, in, 2); SEQ_CHECK(unit(o[0]) == 'q' && unit(o[1]) == 0, "%s of %s disturbed what the output held", what, show(in).c_str()); }
        SEQ_CHECK(s == s0, "%s of %s changed its input", what, show(in).c_str());
    }
#if PLUTO_UTILS_HAS_CXX_20
#define U8T(M) M(std::u8string)
#else
#define U8T(M)
#endif
    void from8(const Units& in, bool types)
    {
        std::vector<unsigned char> b; for (auto x : in) b.push_back((unsigned char)x);
        Units cp; ref_decode8(b.data(), b.size(), cp); Units w16 = encode(cp, 16);
        all_forms<8, 16, std::string, std::u16string>(in, w16, "UTF-8 to UTF-16"); all_forms<8, 32, std::string, std::u32string>(in, cp, "UTF-8 to UTF-32");
        if (types)
        {
            all_forms<8, 32, std::string, std::wstring>(in, cp, "UTF-8 to UTF-32 (wide)");
            all_forms<8, 16, std::basic_string<unsigned char>, std::u16string>(in, w16, "UTF-8 (unsigned char) to UTF-16"); all_forms<8, 32, std::basic_string<unsigned char>, std::u32string>(in, cp, "UTF-8 (unsigned char) to UTF-32");
            all_forms<8, 16, std::basic_string<signed char>, std::u16string>(in, w16, "UTF-8 (signed char) to UTF-16"); all_forms<8, 32, std::basic_string<signed char>, std::wstring>(in, cp, "UTF-8 (signed char) to UTF-32 (wide)");
#define M8(S) all_forms<8, 16, S, std::u16string>(in, w16, "UTF-8 (char8_t) to UTF-16"); all_forms<8, 32, S, std::u32string>(in, cp, "UTF-8 (char8_t) to UTF-32");
            U8T(M8)
        }
        u64 k = 0; for (auto c : cp) k = seq::mix(k, c == REPL ? 1 : 2); seq::outcome(k);
    }
    void from16(const Units& in, bool types)
    {
        std::vector<std::uint16_t> b; for (auto x : in) b.push_back((std::uint16_t)x);
        Units cp; ref_decode16(b.data(), b.size(), cp); Units w8 = encode(cp, 8);
        all_forms<16, 8, std::u16string, std::string>(in, w8, "UTF-16 to UTF-8"); all_forms<16, 32, std::u16string, std::u32string>(in, cp, "UTF-16 to UTF-32");
        if (types)
        {
            all_forms<16, 32, std::u16string, std::wstring>(in, cp, "UTF-16 to UTF-32 (wide)"); all_forms<16, 8, std::u16string, std::basic_string<unsigned char>>(in, w8, "UTF-16 to UTF-8 (unsigned char)");
            all_forms<16, 8, std::basic_string<short>, std::string>(in, w8, "UTF-16 (short) to UTF-8"); all_forms<16, 32, std::basic_string<short>, std::u32string>(in, cp, "UTF-16 (short) to UTF-32");
#define M16(S) all_forms<16, 8, std::u16string, S>(in, w8, "UTF-16 to UTF-8 (char8_t)");
            U8T(M16)
        }
        u64 k = 5; for (auto c : cp) k = seq::mix(k, c == REPL ? 1 : 2); seq::outcome(k);
    }
    void from32(const Units& in, bool types)
    {
        Units cp; ref_decode32(in.data(), in.size(), cp); Units w8 = encode(cp, 8), w16 = encode(cp, 16);
        all_forms<32, 8, std::u32string, std::string>(in, w8, "UTF-32 to UTF-8"); all_forms<32, 16, std::u32string, std::u16string>(in, w16, "UTF-32 to UTF-16");
        if (types)
        {
            all_forms<32, 8, std::wstring, std::string>(in, w8, "UTF-32 (wide) to UTF-8"); all_forms<32, 16, std::wstring, std::u16string>(in, w16, "UTF-32 (wide) to UTF-16");
            all_forms<32, 8, std::basic_string<int>, std::string>(in, w8, "UTF-32 (int) to UTF-8"); all_forms<32, 16, std::basic_string<unsigned>, std::u16string>(in, w16, "UTF-32 (unsigned) to UTF-16");
#define M32(S) all_forms<32, 8, std::u32string, S>(in, w8, "UTF-32 to UTF-8 (char8_t)");
            U8T(M32)
        }
        u64 k = 9; for (auto c : cp) k = seq::mix(k, c == REPL ? 1 : 2); seq::outcome(k);
    }

    // ---- U01 -----------------------------------------------------------------------------------------------------------
    const std::uint32_t EDGES[] = { 0, 1, 0x41, 0x7F, 0x80, 0xFF, 0x7FF, 0x800, 0xFFF, 0x1000, 0xCFFF, 0xD7FF, 0xE000, 0xFFFC, 0xFFFD, 0xFFFF, 0x10000, 0x103FF, 0x10400, 0x3FFFF, 0x40000, 0xFFFFF, 0x100000, 0x10FFFF };
    enum { NEDGES = sizeof EDGES / sizeof *EDGES };
    void six(const Units& cp, bool types)
    {   // the six directions, whose composition is the identity because each is exactly the encoding
        from8(encode(cp, 8), types); from16(encode(cp, 16), types); from32(cp, types);
    }
    void u01_scalars(int ctx)
    {
        for (std::uint32_t c = 0; c < 0x110000; ++c)
        {
            if (c >= 0xD800 && c < 0xE000) continue;
            if (!seq::next()) continue;
            SEQ_CASE("U+%X in context %d", c, ctx);
            static const std::uint32_t before[] = { 0, 0x61, 0x10FFFF, 0, 0x7FF, 0xFFFD }, after[] = { 0, 0x7A, 0x10000, 0, 0xE000, 0x80 };
            Units u; if (ctx) u.push_back(before[ctx]); u.push_back(c); if (ctx) u.push_back(after[ctx]);
            six(u, ctx == 0);
        }
    }
    void u01_sequences(int len)
    {
        std::vector<int> ix((std::size_t)len);
        std::function<void(int)> walk = [&](int pos)
        {
            if (pos < len) { for (int i = 0; i < NEDGES; ++i) { ix[(std::size_t)pos] = i; walk(pos + 1); } return; }
            if (!seq::next()) return;
            Units u; for (int i : ix) u.push_back(EDGES[i]);
            SEQ_CASE("code points %s", show(u).c_str());
            six(u, len <= 2); seq::state(seq::ctl().idx);
        };
        walk(0);
    }

    // long texts: what a length, a buffer or a block size could change
    void u01_long(int which)
    {
        static const std::uint32_t FILL[] = { 0x61, 0x7FF, 0x20AC, 0x10000, 0x10FFFF }; Units last; std::vector<Units> frags;
        for (std::uint32_t c : { 0x0u, 0x41u, 0x80u, 0x800u, 0xFFFDu, 0x1F600u }) frags.push_back(Units{ c });
        frags.push_back(Units{ 0x62, 0xE9, 0x20AC, 0x1F600 }); frags.push_back(Units{ 0x1F600, 0x20AC, 0xE9 });
        seq::long_lists<std::uint32_t>(FILL[which], frags, 5000, [&](const Units& u) { if (!seq::next()) return; SEQ_CASE("%zu code points, mostly U+%X", u.size(), FILL[which]); six(u, false); });
    }

    // ---- U02 -----------------------------------------------------------------------------------------------------------
    // fast paths for the big spaces: reused outputs, pointer and size, exact heap buffers
    struct Buf8
    {
        std::unique_ptr<char[]> p; std::size_t n; std::u16string o16; std::u32string o32; Units cp;
        explicit Buf8(std::size_t k) : p(new char[k]), n(k) {}
        void run(const unsigned char* b)
        {
            for (std::size_t i = 0; i < n; ++i) p[i] = (char)b[i];
            o16.clear(); o32.clear(); cp.clear(); seq::step(2);
            pluto::utf8_to_utf16(p.get(), n, o16); pluto::utf8_to_utf32(p.get(), n, o32); ref_decode8(b, n, cp);
            bool ok = o32.size() == cp.size(); for (std::size_t i = 0; ok && i < cp.size(); ++i) ok = o32[i] == cp[i];
            std::size_t k = 0; bool ok16 = true; for (std::size_t i = 0; i < cp.size() && ok16; ++i) { std::uint32_t c = cp[i]; if (c < 0x10000) ok16 = k < o16.size() && o16[k] == c, ++k; else { ok16 = k + 1 < o16.size() && o16[k] == 0xD800 + (c - 0x10000) / 1024 && o16[k + 1] == 0xDC00 + (c - 0x10000) % 1024; k += 2; } }
            ok16 = ok16 && k == o16.size();
            if (!ok || !ok16) { Units in(b, b + n); from8(in, false); seq::fail("UTF-8 conversion of %s differs from the reference", show(in).c_str()); }
        }
    };
    void u02_bytes(int len)     // all byte strings
    {
        Buf8 f((std::size_t)len); unsigned char b[4];
        u64 total = 1; for (int i = 0; i < len; ++i) total *= 256;
        for (u64 x = 0; x < total; ++x)
        {
            if (!seq::next()) continue;
            for (int i = 0; i < len; ++i) b[i] = (unsigned char)(x >> (8 * (len - 1 - i)));
            SEQ_CASE("bytes %s", show(Units(b, b + len)).c_str());
            f.run(b);
            if (len <= 1) from8(Units(b, b + len), true);
        }
    }
    const unsigned char CLS[] = { 0x00, 0x41, 0x7F, 0x80, 0x8F, 0x90, 0x9F, 0xA0, 0xBF, 0xC0, 0xC1, 0xC2, 0xDF, 0xE0, 0xE1, 0xEC, 0xED, 0xEF, 0xF0, 0xF1, 0xF3, 0xF4, 0xF5, 0xF7, 0xF8, 0xFF };
    const unsigned char CLS6[] = { 0x41, 0x80, 0x8F, 0x90, 0x9F, 0xA0, 0xBF, 0xC1, 0xC2, 0xE0, 0xE1, 0xED, 0xF0, 0xF1, 0xF4, 0xF5 };
    void u02_classes(int arg)
    {
        int len = arg % 10; bool small = arg >= 10; const unsigned char* a = small ? CLS6 : CLS; int n = small ? (int)sizeof CLS6 : (int)sizeof CLS;
        Buf8 f((std::size_t)len); unsigned char b[8];
        u64 total = 1; for (int i = 0; i < len; ++i) total *= (u64)n;
        for (u64 x = 0; x < total; ++x)
        {
            if (!seq::next()) continue;
            u64 y = x; for (int i = len - 1; i >= 0; --i) { b[i] = a[y % (u64)n]; y /= (u64)n; }
            SEQ_CASE("bytes %s", show(Units(b, b + len)).c_str());
            f.run(b); if (len <= 3) from8(Units(b, b + len), true);
        }
    }
    void u02_four_bytes(int)    // every possible lead byte with every continuation class at every place, all low bits
    {
        Buf8 f(4); unsigned char b[4];
        for (int lead = 0xE0; lead < 0x100; ++lead) for (int c2 = 0; c2 < 256; ++c2) for (unsigned char c3 : { 0x00, 0x41, 0x7F, 0x80, 0xBF, 0xC0, 0xE1, 0xFF }) for (int c4 = 0; c4 < 256; ++c4)
        {
            if (!seq::next()) continue;
            b[0] = (unsigned char)lead; b[1] = (unsigned char)c2; b[2] = c3; b[3] = (unsigned char)c4; SEQ_CASE("bytes %s", show(Units(b, b + 4)).c_str()); f.run(b);
        }
    }
    void u02_16(int len)
    {
        static const std::uint16_t A[] = { 0, 0x41, 0x7F, 0x80, 0x7FF, 0x800, 0xD7FF, 0xD800, 0xD801, 0xDBFF, 0xDC00, 0xDC01, 0xDFFF, 0xE000, 0xFFFD, 0xFFFF }; const int n = sizeof A / sizeof *A;
        u64 total = 1; for (int i = 0; i < len; ++i) total *= (u64)n;
        for (u64 x = 0; x < total; ++x)
        {
            if (!seq::next()) continue;
            Units in((std::size_t)len); u64 y = x; for (int i = len - 1; i >= 0; --i) { in[(std::size_t)i] = A[y % (u64)n]; y /= (u64)n; }
            SEQ_CASE("units %s", show(in).c_str());
            from16(in, len <= 3);
        }
    }
    void u02_16_single(int) { for (std::uint32_t c = 0; c < 0x10000; ++c) if (seq::next()) { SEQ_CASE("unit %X", c); from16(Units{ c }, true); from16(Units{ c, 0xDC00 }, false); from16(Units{ 0xD800, c }, false); } }
    void u02_16_pairs(int)      // every pair around and inside the surrogates
    {
        std::unique_ptr<char16_t[]> h(new char16_t[2]); std::string o; std::u32string o32; Units cp;
        for (std::uint32_t a = 0xD7F8; a < 0xE008; ++a) for (std::uint32_t b = 0xD7F8; b < 0xE008; ++b)
        {
            if (!seq::next()) continue;
            SEQ_CASE("units %X %X", a, b); seq::step(2);
            h[0] = (char16_t)a; h[1] = (char16_t)b; o.clear(); o32.clear(); cp.clear();
            pluto::utf16_to_utf8(h.get(), 2, o); pluto::utf16_to_utf32(h.get(), 2, o32);
            std::uint16_t r[2] = { (std::uint16_t)a, (std::uint16_t)b }; ref_decode16(r, 2, cp);
            bool ok = o32.size() == cp.size(); for (std::size_t i = 0; ok && i < cp.size(); ++i) ok = o32[i] == cp[i];
            static Units w; w.clear(); for (auto c : cp) enc8(c, w);
            bool ok8 = o.size() == w.size(); for (std::size_t i = 0; ok8 && i < w.size(); ++i) ok8 = unit(o[i]) == w[i];
            if (!ok || !ok8) { from16(Units{ a, b }, false); seq::fail("UTF-16 conversion of <%X %X> differs from the reference", a, b); }
        }
    }
    void u02_32(int len)
    {
        static const std::uint32_t A[] = { 0, 0x41, 0x7F, 0x80, 0x7FF, 0x800, 0xD7FF, 0xD800, 0xDBFF, 0xDC00, 0xDFFF, 0xE000, 0xFFFD, 0xFFFF, 0x10000, 0x10FFFF, 0x110000, 0x1FFFFF, 0x200000, 0x7FFFFFFF, 0x80000000, 0x80000041, 0xFFFFFFFF }; const int n = sizeof A / sizeof *A;
        u64 total = 1; for (int i = 0; i < len; ++i) total *= (u64)n;
        for (u64 x = 0; x < total; ++x)
        {
            if (!seq::next()) continue;
            Units in((std::size_t)len); u64 y = x; for (int i = len - 1; i >= 0; --i) { in[(std::size_t)i] = A[y % (u64)n]; y /= (u64)n; }
            SEQ_CASE("units %s", show(in).c_str());
            from32(in, len <= 3);
        }
    }
    // 32-bit values beyond Unicode: all surrogates, all around every power of two; in the thorough tier every value there is
    void u02_32_single(int)
    {
        for (std::uint32_t c = 0xD700; c < 0xE100; ++c) if (seq::next()) { SEQ_CASE("unit %X", c); from32(Units{ c }, true); from32(Units{ 0x41, c, 0x10000 }, false); }
        for (int b = 0; b < 32; ++b) for (int d = -300; d <= 300; ++d) if (seq::next()) { std::uint32_t c = (1u << b) + (std::uint32_t)d; SEQ_CASE("unit %X", c); from32(Units{ c }, true); }
        for (u64 c = 0x110000; c < 0x100000000ull; c += 4093) if (seq::next()) { SEQ_CASE("unit %llX", (unsigned long long)c); from32(Units{ (std::uint32_t)c }, false); }
    }
    void u02_32_all(int part)
    {
        std::string o; std::u16string o16; std::unique_ptr<char32_t[]> h(new char32_t[1]);
        for (u64 block = (u64)part << 12; block < (u64)(part + 1) << 12; ++block)
        {
            if (!seq::next()) continue;
            SEQ_CASE("units %llX..", (unsigned long long)(block << 16));
            for (u64 c = block << 16; c < (block + 1) << 16; ++c)
            {
                bool valid = c < 0xD800 || (c > 0xDFFF && c < 0x110000); if (valid) continue;
                h[0] = (char32_t)c; o.clear(); o16.clear();
                pluto::utf32_to_utf8(h.get(), 1, o); pluto::utf32_to_utf16(h.get(), 1, o16);
                if (o != "\xEF\xBF\xBD" || o16.size() != 1 || o16[0] != 0xFFFD) from32(Units{ (std::uint32_t)c }, false);
            }
            seq::step(65536 * 2);
        }
    }
    void u02_empty(int)
    {
        if (!seq::next()) return;
        SEQ_CASE("no input at all"); std::string o; std::u16string o16; std::u32string o32;
        pluto::utf8_to_utf16((const char*)nullptr, 0, o16); pluto::utf8_to_utf32((const char*)nullptr, 0, o32); pluto::utf16_to_utf8((const char16_t*)nullptr, 0, o); pluto::utf16_to_utf32((const char16_t*)nullptr, 0, o32); pluto::utf32_to_utf8((const char32_t*)nullptr, 0, o); pluto::utf32_to_utf16((const char32_t*)nullptr, 0, o16);
        SEQ_CHECK(o.empty() && o16.empty() && o32.empty(), "converting nothing gave something");
        from8(Units(), true); from16(Units(), true); from32(Units(), true);
    }

    // long texts with something ill-formed in them, or nothing else
    void u02_long(int which)
    {
        auto run = [&](int w, std::uint32_t fill, const std::vector<Units>& frags) { seq::long_lists<std::uint32_t>(fill, frags, 5000, [&](const Units& u) { if (!seq::next()) return; SEQ_CASE("%zu %d-bit units, mostly %X", u.size(), w, fill); if (w == 8) from8(u, false); else if (w == 16) from16(u, false); else from32(u, false); }); };
        const std::vector<Units> f8{ Units{ 0x80 }, Units{ 0xC3 }, Units{ 0xE2, 0x82 }, Units{ 0xF0, 0x9F, 0x98 }, Units{ 0xF0, 0x9F, 0x98, 0x80 }, Units{ 0xED, 0xA0, 0x80 }, Units{ 0xC0, 0x80 }, Units{ 0xC3, 0xA9 }, Units{ 0xFF } };
        const std::vector<Units> f16{ Units{ 0xD800 }, Units{ 0xDC00 }, Units{ 0xD83D, 0xDE00 }, Units{ 0xDC00, 0xD800 }, Units{ 0xD800, 0xD83D, 0xDE00 }, Units{ 0xFFFF } };
        const std::vector<Units> f32{ Units{ 0xD800 }, Units{ 0x110000 }, Units{ 0x10FFFF }, Units{ 0xFFFFFFFF }, Units{ 0x41 } };
        switch (which)
        {
        case 0: run(8, 0x61, f8); break; case 1: run(8, 0x80, f8); break; case 2: run(8, 0xC3, f8); break; case 3: run(8, 0xF0, f8); break;
        case 4: run(16, 0x61, f16); break; case 5: run(16, 0xD83D, f16); break; case 6: run(16, 0xDE00, f16); break;
        case 7: run(32, 0x61, f32); break; default: run(32, 0xDFFF, f32); break;
        }
    }

    // ---- U03 -----------------------------------------------------------------------------------------------------------
    Units decode(const Units& in, int w)
    {
        Units cp;
        if (w == 8) { std::vector<unsigned char> b(in.begin(), in.end()); ref_decode8(b.data(), b.size(), cp); }
        else if (w == 16) { std::vector<std::uint16_t> b(in.begin(), in.end()); ref_decode16(b.data(), b.size(), cp); }
        else ref_decode32(in.data(), in.size(), cp);
        return cp;
    }
    template<class FS, class FN1, class FN2> void to(const Units& in, const FS& s, int fw, int tw, const char* what, FN1 byString, FN2 byPointer)
    {
        Units want = fw == tw ? in : encode(decode(in, fw), tw); seq::step(2);
        auto h = heap<typename FS::value_type>(in);
        auto a = byString(s); expect(a, want, what, in);
        auto b = byPointer(h.get(), in.size()); std::string w2 = std::string(what) + " by pointer and size"; expect(b, want, w2.c_str(), in);
        SEQ_CHECK(b.c_str()[b.size()] == 0 && a == b, "%s of %s differs between string and pointer", what, show(in).c_str());
    }
    template<class FS, int W> void all_targets(const Units& in, const std::string& fromName)
    {
        FS s = make<FS>(in);
#define T1(TW, FN) { std::string nm = fromName + " by " #FN; to(in, s, W, TW, nm.c_str(), [](const FS& x) { return pluto::FN(x); }, [](const typename FS::value_type* p, std::size_t n) { return pluto::FN(p, n); }); }
        T1(8, str) T1(32, wstr) T1(16, u16str) T1(32, u32str)
#if PLUTO_UTILS_HAS_CXX_20
        T1(8, u8str)
#endif
        seq::outcome(seq::mix(in.size(), W));
    }
    void u03(int arg)
    {
        int type = arg % 10, len = arg / 10;
        static const Units A8{ 0, 0x41, 0x7F, 0x80, 0xBF, 0xC3, 0xE2, 0xED, 0xA0, 0xF0, 0x9F, 0xF5, 0xFF }, A16{ 0, 0x41, 0x80, 0x800, 0xD7FF, 0xD800, 0xDBFF, 0xDC00, 0xDFFF, 0xFFFD, 0xFFFF }, A32{ 0, 0x41, 0x80, 0x7FF, 0xD7FF, 0xD800, 0xDFFF, 0xFFFF, 0x10000, 0x10FFFF, 0x110000, 0xFFFFFFFF };
        const Units& a = type == 0 || type == 2 ? A8 : type == 3 ? A16 : A32;
        std::vector<std::size_t> ix((std::size_t)len);
        std::function<void(int)> walk = [&](int pos)
        {
            if (pos < len) { for (std::size_t i = 0; i < a.size(); ++i) { ix[(std::size_t)pos] = i; walk(pos + 1); } return; }
            if (!seq::next()) return;
            Units in; for (auto i : ix) in.push_back(a[i]);
            SEQ_CASE("type %d units %s", type, show(in).c_str());
            if (type == 0) all_targets<std::string, 8>(in, "std::string");
            else if (type == 1) all_targets<std::wstring, 32>(in, "std::wstring");
#if PLUTO_UTILS_HAS_CXX_20
            else if (type == 2) all_targets<std::u8string, 8>(in, "std::u8string");
#endif
            else if (type == 3) all_targets<std::u16string, 16>(in, "std::u16string");
            else if (type == 4) all_targets<std::u32string, 32>(in, "std::u32string");
        };
        walk(0);
    }
    void u03_long(int type)
    {
        std::uint32_t fill = type == 3 || type == 1 || type == 4 ? 0x20AC : 0x61; std::vector<Units> frags{ Units{ 0 }, Units{ type == 0 || type == 2 ? 0xC3u : 0xD83Du }, Units{ type == 0 || type == 2 ? 0x80u : 0xDE00u } };
        if (type == 0 || type == 2) frags.push_back(Units{ 0xF0, 0x9F, 0x98, 0x80 }); else if (type == 3) frags.push_back(Units{ 0xD83D, 0xDE00 }); else frags.push_back(Units{ 0x1F600 });
        seq::long_lists<std::uint32_t>(fill, frags, 5000, [&](const Units& in)
        {
            if (!seq::next()) return;
            SEQ_CASE("type %d, %zu units", type, in.size());
            if (type == 0) all_targets<std::string, 8>(in, "std::string");
            else if (type == 1) all_targets<std::wstring, 32>(in, "std::wstring");
#if PLUTO_UTILS_HAS_CXX_20
            else if (type == 2) all_targets<std::u8string, 8>(in, "std::u8string");
#endif
            else if (type == 3) all_targets<std::u16string, 16>(in, "std::u16string");
            else if (type == 4) all_targets<std::u32string, 32>(in, "std::u32string");
        });
    }
}
void reg()
{
    for (int c = 0; c < 6; ++c) seq::scenario("U01", "every-scalar-context" + std::to_string(c), u01_scalars, c, 8, c > 2);
    for (int l = 0; l <= 4; ++l) seq::scenario("U01", "sequences-of-" + std::to_string(l), u01_sequences, l, l >= 4 ? 8 : 1, l >= 4);
    for (int l = 0; l <= 3; ++l) seq::scenario("U02", "every-byte-string-of-" + std::to_string(l), u02_bytes, l, l >= 3 ? 16 : 1);
    for (int l = 3; l <= 5; ++l) seq::scenario("U02", "byte-classes-" + std::to_string(l), u02_classes, l, l >= 5 ? 16 : 1);
    seq::scenario("U02", "byte-classes-6-reduced", u02_classes, 16, 16); seq::scenario("U02", "byte-classes-7-reduced", u02_classes, 17, 16, true);
    seq::scenario("U02", "four-byte-forms", u02_four_bytes, 0, 8);
    for (int l = 0; l <= 5; ++l) { seq::scenario("U02", "16-bit-sequences-of-" + std::to_string(l), u02_16, l, l >= 4 ? 8 : 1, l >= 5); if (l <= 4) seq::scenario("U02", "32-bit-sequences-of-" + std::to_string(l), u02_32, l, l >= 4 ? 8 : 1); }
    seq::scenario("U02", "16-bit-every-unit", u02_16_single, 0, 2); seq::scenario("U02", "16-bit-surrogate-pairs", u02_16_pairs, 0, 8);
    seq::scenario("U02", "32-bit-beyond-unicode", u02_32_single, 0, 8); seq::scenario("U02", "nothing", u02_empty);
    for (int p = 0; p < 16; ++p) seq::scenario("U02", "32-bit-every-value-part" + std::to_string(p), u02_32_all, p, 1, true);
    for (int i = 0; i < 5; ++i) { seq::scenario("U01", "long-" + std::to_string(i), u01_long, i, 2); seq::scenario("U03", "long-type" + std::to_string(i), u03_long, i, 2); }
    for (int i = 0; i < 9; ++i) seq::scenario("U02", "long-" + std::to_string(i), u02_long, i, 2);
    for (int t = 0; t < 5; ++t) for (int l = 0; l <= 5; ++l) seq::scenario("U03", "type" + std::to_string(t) + "-length" + std::to_string(l), u03, t + l * 10, l >= 4 ? 8 : 1, l >= 5);
}
int main(int argc, char** argv) { return seq::main(argc, argv, reg); }
