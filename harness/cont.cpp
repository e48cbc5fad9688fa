// K01-K03: iterator and container utilities against index-based definitions.
#include "seq.hpp"
#include <pluto/container.hpp>
#include <pluto/string.hpp>
#include <array>
#include <climits>
#include <deque>
#include <forward_list>
#include <functional>
#include <list>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <vector>

namespace
{
    using seq::u64;
    typedef std::vector<int> Ints;
    template<class F> void words(int letters, int len, F f)
    {
        Ints w((std::size_t)len, 0);
        for (;;) { f(w); int p = len - 1; while (p >= 0) { auto q = (std::size_t)p; if (++w[q] < letters) break; w[q] = 0; --p; } if (p < 0) return; }
    }
    template<class F> void words_upto(int letters, int len, F f) { for (int l = 0; l <= len; ++l) words(letters, l, f); }
    inline std::string show(const Ints& v) { std::string o = "["; for (int x : v) o += (o.size() > 1 ? " " : "") + std::to_string(x); return o + "]"; }

    // elements of the left and right sequence have different types, so that a predicate sees which is which
    struct L { int v; }; struct R { int v; };
    inline bool operator==(const L& a, const R& b) { return a.v == b.v; } inline bool operator==(const R& a, const L& b) { return a.v == b.v; }
    inline bool operator==(const L& a, const L& b) { return a.v == b.v; }
    const char* const PN[] = { "==", "<", "<=", "!=", "left is right + 1", "left is 0", "right is 0", "always", "never" };
    inline bool rel(int k, int l, int r) { switch (k) { case 0: return l == r; case 1: return l < r; case 2: return l <= r; case 3: return l != r; case 4: return l == r + 1; case 5: return l == 0; case 6: return r == 0; case 7: return true; default: return false; } }
    int g_swapped = 0;
    struct Pred { int k; bool operator()(const L& a, const R& b) const { return rel(k, a.v, b.v); } bool operator()(const R& b, const L& a) const { ++g_swapped; return rel(k, b.v, a.v); } };   // swapped: answers what a symmetric-minded caller would get

    // an iterator that checks every use; Cat is the category it claims
    template<class T, class Cat> struct It
    {
        typedef Cat iterator_category; typedef T value_type; typedef std::ptrdiff_t difference_type; typedef const T* pointer; typedef const T& reference;
        const std::vector<T>* c = nullptr; std::ptrdiff_t i = 0;
        void in(std::ptrdiff_t k) const { if (!c || k < 0 || k > (std::ptrdiff_t)c->size()) seq::fail("an iterator was moved to position %td of a sequence of %zu", k, c ? c->size() : 0); }
        const T& operator*() const { if (!c || i < 0 || i >= (std::ptrdiff_t)c->size()) seq::fail("position %td of a sequence of %zu was read", i, c ? c->size() : 0); return (*c)[(std::size_t)i]; }
        const T* operator->() const { return &**this; } const T& operator[](std::ptrdiff_t n) const { It t = *this; t += n; return *t; }
        It& operator++() { in(i + 1); ++i; return *this; } It operator++(int) { It t = *this; ++*this; return t; } It& operator--() { in(i - 1); --i; return *this; } It operator--(int) { It t = *this; --*this; return t; }
        It& operator+=(std::ptrdiff_t n) { in(i + n); i += n; return *this; } It& operator-=(std::ptrdiff_t n) { return *this += -n; }
        friend It operator+(It a, std::ptrdiff_t n) { return a += n; } friend It operator+(std::ptrdiff_t n, It a) { return a += n; } friend It operator-(It a, std::ptrdiff_t n) { return a -= n; }
        friend std::ptrdiff_t operator-(const It& a, const It& b) { return a.i - b.i; }
        friend bool operator==(const It& a, const It& b) { return a.i == b.i; } friend bool operator!=(const It& a, const It& b) { return a.i != b.i; }
        friend bool operator<(const It& a, const It& b) { return a.i < b.i; } friend bool operator>(const It& a, const It& b) { return a.i > b.i; } friend bool operator<=(const It& a, const It& b) { return a.i <= b.i; } friend bool operator>=(const It& a, const It& b) { return a.i >= b.i; }
    };
    // the same sequence in different containers
    template<class T, class Cat> struct Own { std::vector<T> v; typedef It<T, Cat> const_iterator; typedef T value_type; template<class I> Own(I b, I e) : v(b, e) {} Own(const Own&) = delete; const_iterator begin() const { const_iterator x; x.c = &v; x.i = 0; return x; } const_iterator end() const { const_iterator x; x.c = &v; x.i = (std::ptrdiff_t)v.size(); return x; } };
    template<class T> struct Raw { std::unique_ptr<T[]> p; std::size_t n; template<class I> Raw(I b, I e) : p(new T[(std::size_t)(e - b)]), n((std::size_t)(e - b)) { std::copy(b, e, p.get()); } const T* begin() const { return p.get(); } const T* end() const { return p.get() + n; } };  // exact heap block, plain pointers
    template<class T> struct Tight : std::vector<T> { template<class I> Tight(I b, I e) : std::vector<T>(b, e) {} };
    template<class T> std::vector<T> wrap(const Ints& v) { std::vector<T> r; for (int x : v) r.push_back(T{ x }); return r; }
    template<class C> std::size_t index(const C& c, decltype(std::begin(c)) it) { std::size_t n = 0; for (auto i = std::begin(c); i != it; ++i) { if (i == std::end(c)) return 99999; ++n; } return n; }

#if !defined(ONLY) || ONLY == 1
    // long sequences: prefixes, suffixes, pieces out of the middle, the whole, one more, the same with one element changed, and short patterns
    template<class F> void long_pairs(F one)
    {
        seq::long_lists<int>(0, std::vector<Ints>{ Ints{ 1 }, Ints{ 0, 1, 2 } }, seq::thorough() ? 5000 : 1100, [&](const Ints& l)
        {
            const std::size_t n = l.size(); if (n < 8) return;
            auto piece = [&](std::size_t b, std::size_t e) { return Ints(l.begin() + (std::ptrdiff_t)b, l.begin() + (std::ptrdiff_t)e); };
            std::vector<Ints> rs{ Ints{}, Ints{ 1 }, Ints{ 2 }, Ints{ 0, 1 }, Ints{ 2, 0 }, Ints{ 1, 1 }, l, piece(0, n - 1), piece(1, n) };
            if (n <= (seq::thorough() ? 600u : 140u)) { rs.push_back(piece(0, n / 2)); rs.push_back(piece(n / 2, n)); rs.push_back(piece(n / 3, n / 3 * 2)); }
            { Ints x = l; x.push_back(0); rs.push_back(x); x = l; x.back() = 2 - x.back(); rs.push_back(x); x = l; x.front() = 2 - x.front(); rs.push_back(x); x = piece(1, n); x.back() = 2 - x.back(); rs.push_back(x); }
            for (auto& r : rs) { one(l, r, 0); if (n <= 70) one(l, r, 2); }
        });
    }
    struct Ref { bool eq, st, en, co; std::size_t fi, rf; bool same; };
    Ref reference(const Ints& l, const Ints& r, int k)
    {
        const std::size_t n = l.size(), m = r.size(); auto at = [&](std::size_t i) { for (std::size_t j = 0; j < m; ++j) if (!rel(k, l[i + j], r[j])) return false; return true; };
        Ref x{ n == m && (n != m || at(0)), m <= n && at(0), m <= n && at(n - m), m == 0, n, n, false };
        if (m == 0) { x.fi = 0; x.st = x.en = true; x.eq = n == 0; return x; }
        if (m <= n) for (std::size_t i = 0; i + m <= n; ++i) if (at(i)) { if (x.fi == n) x.fi = i; x.rf = i; x.co = true; }
        return x;
    }
#define K_EQ(got, want, what) do { auto g_ = (got); auto w_ = (want); SEQ_CHECK(g_ == w_, "%s %s, %s with the relation %s: %s gives %ld and not %ld", kn, show(l).c_str(), show(r).c_str(), PN[k], what, (long)g_, (long)w_); } while (0)
    // dispatch on what the iterators can do
    template<class C, class D> void back(const char* kn, const Ints& l, const Ints& r, int k, const C& a, const D& b, const Ref& w, std::true_type)
    {
        K_EQ(pluto::ends_with(a, b, Pred{ k }), w.en, "ends_with(containers)"); K_EQ(pluto::ends_with(std::begin(a), std::end(a), std::begin(b), std::end(b), Pred{ k }), w.en, "ends_with(iterators)");
        if (k == 0) { K_EQ(pluto::ends_with(a, b), w.en, "ends_with(containers, default)"); K_EQ(pluto::ends_with(std::begin(a), std::end(a), std::begin(b), std::end(b)), w.en, "ends_with(iterators, default)"); }
    }
    template<class C, class D> void back(const char*, const Ints&, const Ints&, int, const C&, const D&, const Ref&, std::false_type) {}
    template<class C> using bidi = std::is_base_of<std::bidirectional_iterator_tag, typename std::iterator_traits<decltype(std::begin(std::declval<const C&>()))>::iterator_category>;
    template<class C, class D> void k01_pair(const char* kn, const Ints& l, const Ints& r, int k, const C& a, const D& b, const Ref& w)
    {
        g_swapped = 0; Pred p{ k };
        K_EQ(pluto::equals(a, b, p), w.eq, "equals(containers)"); K_EQ(pluto::equals(std::begin(a), std::end(a), std::begin(b), std::end(b), p), w.eq, "equals(iterators)");
        if (l.size() == r.size()) K_EQ(pluto::equals_same_size(std::begin(a), std::end(a), std::begin(b), p), w.eq, "equals_same_size");
        K_EQ(pluto::starts_with(a, b, p), w.st, "starts_with(containers)"); K_EQ(pluto::starts_with(std::begin(a), std::end(a), std::begin(b), std::end(b), p), w.st, "starts_with(iterators)");
        K_EQ(pluto::contains_sequence(a, b, p), w.co, "contains_sequence"); K_EQ(pluto::contains(std::begin(a), std::end(a), std::begin(b), std::end(b), p), w.co, "contains(iterators)");
        K_EQ(index(a, pluto::find_sequence(a, b, p)), w.fi, "find_sequence"); K_EQ(index(a, pluto::find(std::begin(a), std::end(a), std::begin(b), std::end(b), p)), w.fi, "find(iterators)");
#if PLUTO_UTILS_HAS_CXX_17
        K_EQ(index(a, pluto::rfind_sequence(a, b, p)), w.rf, "rfind_sequence"); K_EQ(index(a, pluto::rfind(std::begin(a), std::end(a), std::begin(b), std::end(b), p)), w.rf, "rfind(iterators)");
#endif
        back(kn, l, r, k, a, b, w, std::integral_constant<bool, bidi<C>::value && bidi<D>::value>());
        SEQ_CHECK(!g_swapped, "%s %s, %s with the relation %s: the predicate got its arguments swapped %d times", kn, show(l).c_str(), show(r).c_str(), PN[k], g_swapped);
        if (k == 0)
        {
            K_EQ(pluto::equals(a, b), w.eq, "equals(containers, default)"); K_EQ(pluto::equals(std::begin(a), std::end(a), std::begin(b), std::end(b)), w.eq, "equals(iterators, default)");
            K_EQ(pluto::starts_with(a, b), w.st, "starts_with(containers, default)"); K_EQ(pluto::contains_sequence(a, b), w.co, "contains_sequence(default)"); K_EQ(index(a, pluto::find_sequence(a, b)), w.fi, "find_sequence(default)");
            K_EQ(pluto::contains(std::begin(a), std::end(a), std::begin(b), std::end(b)), w.co, "contains(iterators, default)"); K_EQ(index(a, pluto::find(std::begin(a), std::end(a), std::begin(b), std::end(b))), w.fi, "find(iterators, default)");
#if PLUTO_UTILS_HAS_CXX_17
            K_EQ(index(a, pluto::rfind_sequence(a, b)), w.rf, "rfind_sequence(default)"); K_EQ(index(a, pluto::rfind(std::begin(a), std::end(a), std::begin(b), std::end(b))), w.rf, "rfind(iterators, default)");
#endif
        }
        seq::step(14);
    }
    typedef std::random_access_iterator_tag Ra; typedef std::bidirectional_iterator_tag Bi; typedef std::forward_iterator_tag Fw;
    std::string k01_kinds_name;
    template<template<class> class C, template<class> class D> void k01_kinds(const char* kn, int big)
    {
        auto one = [&](const Ints& l, const Ints& r, int k)
        {
            if (!seq::next()) return;
            SEQ_CASE("%s %s, %s with the relation %s", kn, show(l).c_str(), show(r).c_str(), PN[k]);
            auto a = wrap<L>(l); auto b = wrap<R>(r); C<L> c(a.begin(), a.end()); D<R> d(b.begin(), b.end()); Ref w = reference(l, r, k);
            k01_pair(kn, l, r, k, c, d, w);
            seq::outcome((u64)w.eq + 2 * (u64)w.st + 4 * (u64)w.en + 8 * (u64)w.co + 16 * w.fi + 256 * w.rf); if (w.co && l.size()) seq::nontrivial();
        };
        if (big) long_pairs(one);
        for (int k = 0; k < 9; ++k)
        {
            words_upto(3, big ? 5 : 4, [&](const Ints& l) { words_upto(3, big ? 4 : 3, [&](const Ints& r) { one(l, r, k); }); });
            words_upto(2, seq::thorough() ? 9 : 7, [&](const Ints& l) { words_upto(2, 4, [&](const Ints& r) { if (l.size() > 4 || r.size() > 3) one(l, r, k); }); });
        }
    }
    template<class T> using Vec = Tight<T>; template<class T> using Deq = std::deque<T>; template<class T> using Lst = std::list<T>; template<class T> using Fwd = std::forward_list<T>; template<class T> using Ptr = Raw<T>;
    template<class T> using ORa = Own<T, Ra>; template<class T> using OBi = Own<T, Bi>; template<class T> using OFw = Own<T, Fw>;
    // every kind with itself, and a selection of mixed pairs that covers every combination of iterator categories
    struct Pair { const char *a, *b; void (*f)(const char*, int); };
    const Pair PAIRS[] = {
        { "vector", "vector", k01_kinds<Vec, Vec> }, { "deque", "deque", k01_kinds<Deq, Deq> }, { "list", "list", k01_kinds<Lst, Lst> }, { "forward_list", "forward_list", k01_kinds<Fwd, Fwd> }, { "pointers", "pointers", k01_kinds<Ptr, Ptr> },
        { "checked-random-access", "checked-random-access", k01_kinds<ORa, ORa> }, { "checked-bidirectional", "checked-bidirectional", k01_kinds<OBi, OBi> }, { "checked-forward", "checked-forward", k01_kinds<OFw, OFw> },
        { "vector", "list", k01_kinds<Vec, Lst> }, { "list", "vector", k01_kinds<Lst, Vec> }, { "vector", "deque", k01_kinds<Vec, Deq> }, { "deque", "pointers", k01_kinds<Deq, Ptr> }, { "pointers", "checked-random-access", k01_kinds<Ptr, ORa> },
        { "checked-random-access", "checked-bidirectional", k01_kinds<ORa, OBi> }, { "checked-bidirectional", "checked-random-access", k01_kinds<OBi, ORa> }, { "checked-forward", "checked-random-access", k01_kinds<OFw, ORa> }, { "checked-random-access", "checked-forward", k01_kinds<ORa, OFw> },
        { "checked-bidirectional", "checked-forward", k01_kinds<OBi, OFw> }, { "forward_list", "list", k01_kinds<Fwd, Lst> } };
    const int NPAIRS = (int)(sizeof PAIRS / sizeof PAIRS[0]);
    void k01_seq(int x) { auto& p = PAIRS[x]; k01_kinds_name = std::string(p.a) + " and " + p.b; p.f(k01_kinds_name.c_str(), seq::thorough() || !std::strcmp(p.a, p.b)); }

    // C arrays and std::array, for every length up to 4
    template<std::size_t N> void fill(L (&a)[N], const Ints& l) { for (std::size_t i = 0; i < N; ++i) a[i].v = l[i]; }
    template<std::size_t N, std::size_t M> void k01_array_pair()
    {
        words(3, (int)N, [&](const Ints& l) { words(3, (int)M, [&](const Ints& r) { for (int k = 0; k < 9; ++k)
        {
            if (!seq::next()) continue;
            SEQ_CASE("arrays %s, %s with the relation %s", show(l).c_str(), show(r).c_str(), PN[k]);
            L a[N]; R b[M]; std::array<L, N> c; std::array<R, M> d; for (std::size_t i = 0; i < N; ++i) { a[i].v = l[i]; c[i].v = l[i]; } for (std::size_t i = 0; i < M; ++i) { b[i].v = r[i]; d[i].v = r[i]; }
            Ref w = reference(l, r, k); k01_pair("C arrays", l, r, k, a, b, w); k01_pair("std::array", l, r, k, c, d, w); k01_pair("C array and std::array", l, r, k, a, d, w);
            SEQ_CHECK(pluto::len(a) == N && pluto::len(c) == N, "len of arrays of %zu is %zu and %zu", N, (std::size_t)pluto::len(a), (std::size_t)pluto::len(c));
            seq::outcome(w.fi * 16 + w.rf); if (w.co) seq::nontrivial();
        } }); });
    }
    void k01_arrays(int) { k01_array_pair<1, 1>(); k01_array_pair<1, 2>(); k01_array_pair<2, 1>(); k01_array_pair<2, 2>(); k01_array_pair<3, 1>(); k01_array_pair<3, 2>(); k01_array_pair<3, 3>(); k01_array_pair<4, 2>(); k01_array_pair<4, 1>(); k01_array_pair<2, 4>(); }

    // strings: by string, by pointer and size, by container form
    template<class S> struct ChPred { int k; typedef typename S::value_type E; bool operator()(E a, E b) const { return rel(k, (int)a - 'a', (int)b - 'a'); } };
    template<class S> void k01_text(const char* kn)
    {
        typedef typename S::value_type E;
        auto one = [&](const Ints& l, const Ints& r, int k)
        {
            if (!seq::next()) return;
            S a, b; for (int x : l) a.push_back((E)('a' + x));
            for (int x : r) b.push_back((E)('a' + x));
            SEQ_CASE("%s %s, %s with the relation %s", kn, show(l).c_str(), show(r).c_str(), PN[k]);
            Raw<E> p(a.begin(), a.end()), q(b.begin(), b.end()); const E *pp = p.p.get(), *qq = q.p.get(); std::size_t n = p.n, m = q.n; Ref w = reference(l, r, k); ChPred<S> f{ k };
            K_EQ(pluto::equals(a, b, f), w.eq, "equals(strings)"); K_EQ(pluto::equals(pp, n, qq, m, f), w.eq, "equals(arrays)"); K_EQ(pluto::starts_with(a, b, f), w.st, "starts_with(strings)"); K_EQ(pluto::starts_with(pp, n, qq, m, f), w.st, "starts_with(arrays)");
            K_EQ(pluto::ends_with(a, b, f), w.en, "ends_with(strings)"); K_EQ(pluto::ends_with(pp, n, qq, m, f), w.en, "ends_with(arrays)"); K_EQ(pluto::contains(a, b, f), w.co, "contains(strings)"); K_EQ(pluto::contains(pp, n, qq, m, f), w.co, "contains(arrays)");
            K_EQ((std::size_t)(pluto::find(a, b, f) - a.cbegin()), w.fi, "find(strings)"); K_EQ((std::size_t)(pluto::find(pp, n, qq, m, f) - pp), w.fi, "find(arrays)");
#if PLUTO_UTILS_HAS_CXX_17
            K_EQ((std::size_t)(pluto::rfind(a, b, f) - a.cbegin()), w.rf, "rfind(strings)"); K_EQ((std::size_t)(pluto::rfind(pp, n, qq, m, f) - pp), w.rf, "rfind(arrays)");
#endif
            if (k == 0)
            {
                K_EQ(pluto::equals(a, b), w.eq, "equals(strings, default)"); K_EQ(pluto::equals(pp, n, qq, m), w.eq, "equals(arrays, default)"); K_EQ(pluto::starts_with(a, b), w.st, "starts_with(strings, default)"); K_EQ(pluto::starts_with(pp, n, qq, m), w.st, "starts_with(arrays, default)");
                K_EQ(pluto::ends_with(a, b), w.en, "ends_with(strings, default)"); K_EQ(pluto::ends_with(pp, n, qq, m), w.en, "ends_with(arrays, default)"); K_EQ(pluto::contains(a, b), w.co, "contains(strings, default)"); K_EQ(pluto::contains(pp, n, qq, m), w.co, "contains(arrays, default)");
                K_EQ((std::size_t)(pluto::find(a, b) - a.cbegin()), w.fi, "find(strings, default)"); K_EQ((std::size_t)(pluto::find(pp, n, qq, m) - pp), w.fi, "find(arrays, default)");
#if PLUTO_UTILS_HAS_CXX_17
                K_EQ((std::size_t)(pluto::rfind(a, b) - a.cbegin()), w.rf, "rfind(strings, default)"); K_EQ((std::size_t)(pluto::rfind(pp, n, qq, m) - pp), w.rf, "rfind(arrays, default)");
#endif
            }
            seq::step(12); seq::outcome((u64)w.eq + 2 * (u64)w.st + 4 * (u64)w.en + 8 * (u64)w.co + 16 * w.fi + 256 * w.rf); if (w.co) seq::nontrivial();
        };
        long_pairs(one);
        for (int k = 0; k < 9; ++k) { words_upto(3, seq::thorough() ? 6 : 5, [&](const Ints& l) { words_upto(3, seq::thorough() ? 4 : 3, [&](const Ints& r) { one(l, r, k); }); }); words_upto(2, seq::thorough() ? 9 : 8, [&](const Ints& l) { words_upto(2, 4, [&](const Ints& r) { if (l.size() > 5 || r.size() > 3) one(l, r, k); }); }); }
    }
    void k01_strings(int t) { if (t == 0) k01_text<std::string>("std::string"); else if (t == 1) k01_text<std::wstring>("std::wstring"); else k01_text<std::u32string>("std::u32string"); }

    // single elements and predicates
    template<class C> void elem_back(const char* kn, const Ints& v, int x, const C& c, std::size_t rf, std::size_t ri, std::size_t rn, unsigned mask, std::true_type)
    {
        auto p = [mask](const L& e) { return ((mask >> e.v) & 1) != 0; };
        auto chk = [&](std::size_t g, std::size_t w, const char* what) { seq::step(); SEQ_CHECK(g == w, "%s %s: %s (element %d, accepted %x) gives index %zu and not %zu", kn, show(v).c_str(), what, x, mask, g, w); };
        chk(index(c, pluto::rfind_elem(c, L{ x })), rf, "rfind_elem"); chk(index(c, pluto::rfind(std::begin(c), std::end(c), L{ x })), rf, "rfind(iterators, element)");
        chk(index(c, pluto::rfind_if(c, p)), ri, "rfind_if"); chk(index(c, pluto::rfind_if(std::begin(c), std::end(c), p)), ri, "rfind_if(iterators)"); chk(index(c, pluto::rfind_if_not(c, p)), rn, "rfind_if_not"); chk(index(c, pluto::rfind_if_not(std::begin(c), std::end(c), p)), rn, "rfind_if_not(iterators)");
    }
    template<class C> void elem_back(const char*, const Ints&, int, const C&, std::size_t, std::size_t, std::size_t, unsigned, std::false_type) {}
    template<class C> void k01_elems(const char* kn)
    {
        auto one = [&](const Ints& v) { for (int x = 0; x < 4; ++x) for (unsigned mask = 0; mask < 8; ++mask)
        {
            if (mask && x) { if (mask & 1) continue; }      // every element and every mask, not every pair
            if (!seq::next()) continue;
            SEQ_CASE("%s %s, element %d, accepted %x", kn, show(v).c_str(), x, mask);
            auto b = wrap<L>(v); C c(b.begin(), b.end()); const std::size_t n = v.size(); std::size_t fi = n, rf = n, pi = n, pr = n, ni = n, nr = n;
            for (std::size_t i = 0; i < n; ++i) { if (v[i] == x) { if (fi == n) fi = i; rf = i; } if ((mask >> v[i]) & 1) { if (pi == n) pi = i; pr = i; } else { if (ni == n) ni = i; nr = i; } }
            auto p = [mask](const L& e) { return ((mask >> e.v) & 1) != 0; };
            auto chk = [&](std::size_t g, std::size_t w, const char* what) { seq::step(); SEQ_CHECK(g == w, "%s %s: %s (element %d, accepted %x) gives %zu and not %zu", kn, show(v).c_str(), what, x, mask, g, w); };
            chk(index(c, pluto::find_elem(c, L{ x })), fi, "find_elem"); chk(index(c, pluto::find(std::begin(c), std::end(c), L{ x })), fi, "find(iterators, element)"); chk(pluto::contains_elem(c, L{ x }), fi < n, "contains_elem"); chk(pluto::contains(std::begin(c), std::end(c), L{ x }), fi < n, "contains(iterators, element)");
            chk(index(c, pluto::find_if(c, p)), pi, "find_if"); chk(index(c, pluto::find_if(std::begin(c), std::end(c), p)), pi, "find_if(iterators)"); chk(index(c, pluto::find_if_not(c, p)), ni, "find_if_not"); chk(index(c, pluto::find_if_not(std::begin(c), std::end(c), p)), ni, "find_if_not(iterators)");
            elem_back(kn, v, x, c, rf, pr, nr, mask, std::integral_constant<bool, bidi<C>::value>());
            seq::outcome(fi + 16 * rf + 256 * pi + 4096 * pr); if (fi < n) seq::nontrivial();
        } };
        words_upto(3, seq::thorough() ? 8 : 7, one); seq::long_lists<int>(0, std::vector<Ints>{ Ints{ 1 }, Ints{ 2, 1 } }, 5000, [&](const Ints& v) { if (v.size() > 8) one(v); });
    }
    void k01_e(int t) { switch (t) { case 0: k01_elems<Tight<L>>("vector"); break; case 1: k01_elems<std::deque<L>>("deque"); break; case 2: k01_elems<std::list<L>>("list"); break; case 3: k01_elems<std::forward_list<L>>("forward_list"); break; case 4: k01_elems<Raw<L>>("pointers"); break; case 5: k01_elems<Own<L, Ra>>("checked random access"); break; case 6: k01_elems<Own<L, Bi>>("checked bidirectional"); break; default: k01_elems<Own<L, Fw>>("checked forward"); } }

#endif
#if !defined(ONLY) || ONLY == 2
    // ---- K02 -----------------------------------------------------------------------------------------------------------
    template<class T> T from(int i) { return (T)i; }
    template<> std::string from<std::string>(int i) { return "element number " + std::to_string(i); }
    template<class C> struct el { typedef typename C::value_type type; }; template<class K, class V> struct el<std::map<K, V>> { typedef std::pair<K, V> type; };
    template<> std::pair<int, int> from<std::pair<int, int>>(int i) { return { i, i * 3 }; }
    template<class C> void k02(const char* kn)
    {
        std::vector<long long> B; for (long long i = -9; i <= 9; ++i) B.push_back(i);
        for (long long x : { LLONG_MIN, LLONG_MIN + 1, LLONG_MIN + 5, (long long)INT_MIN - 1, (long long)INT_MIN, (long long)INT_MAX, (long long)INT_MAX + 1, (long long)UINT_MAX, (long long)UINT_MAX + 1, (long long)UINT_MAX + 3, -(long long)UINT_MAX, -(long long)UINT_MAX - 2, LLONG_MAX - 5, LLONG_MAX - 1, LLONG_MAX, 1ll << 40, -(1ll << 40) }) B.push_back(x);
        std::vector<int> sizes; for (int n = 0; n <= 7; ++n) sizes.push_back(n);
        for (std::size_t n : seq::lengths()) if (n > 7 && (n <= 20 || n >= 63)) sizes.push_back((int)n);
        const std::vector<long long> small = B;
        for (int n : sizes)
        {
            B = small; if (n > 7) { B.clear(); for (long long x : { LLONG_MIN, LLONG_MAX, 0ll, 1ll, 5ll }) B.push_back(x); for (long long d = -2; d <= 2; ++d) { B.push_back(n + d); B.push_back(-n + d); } for (long long x : { (long long)n / 2, -(long long)n / 2, -1ll, -5ll, 255ll, 256ll, -256ll, 2ll * n }) B.push_back(x); }
            if (n > 5000) { B.clear(); for (long long x : { 0ll, 1ll, -1ll, (long long)n / 2, (long long)n, -(long long)n, -(long long)n + 1, LLONG_MAX }) B.push_back(x); }
            std::vector<typename el<C>::type> src; for (int i = 0; i < n; ++i) src.push_back(from<typename el<C>::type>(i + 1));
            const C c(src.begin(), src.end());
            for (long long a : B) for (long long b : B)
            {
                if (!seq::next()) continue;
                SEQ_CASE("%s of %d, slice %lld..%lld", kn, n, a, b);
                typedef __int128 I; auto norm = [&](I x) { if (x < 0) x += n; return x < 0 ? (I)0 : x > n ? (I)n : x; };    // Python: slice.indices
                std::size_t s = (std::size_t)norm(a), e = (std::size_t)norm(b); if (e < s) e = s;
                C got = pluto::slice(c, a, b), want(src.begin() + (std::ptrdiff_t)s, src.begin() + (std::ptrdiff_t)e); seq::step();
                SEQ_CHECK(got == want, "%s of %d elements: slice(%lld, %lld) has %zu elements and should be [%zu, %zu)", kn, n, a, b, (std::size_t)std::distance(got.begin(), got.end()), s, e);
                if (a == 0) { C h = pluto::slice(c, b); SEQ_CHECK(h == want, "%s of %d elements: slice(%lld) has %zu elements and should have %zu", kn, n, b, (std::size_t)std::distance(h.begin(), h.end()), e - s); }
                SEQ_CHECK(c == C(src.begin(), src.end()), "%s of %d elements: slicing changed the source", kn, n);
                SEQ_CHECK((std::size_t)pluto::len(c) == (std::size_t)n, "%s of %d elements: len is %zu", kn, n, (std::size_t)pluto::len(c));
                seq::outcome(s * 16 + e + 1000003 * (u64)n); if (e > s) seq::nontrivial();
            }
        }
    }
    void k02_c(int t) { switch (t) { case 0: k02<std::vector<int>>("vector"); break; case 1: k02<std::list<int>>("list"); break; case 2: k02<std::deque<int>>("deque"); break; case 3: k02<std::string>("std::string"); break; case 4: k02<std::wstring>("std::wstring"); break;
        case 5: k02<std::vector<std::string>>("vector of strings"); break; case 6: k02<std::set<int>>("set"); break; case 7: k02<std::map<int, int>>("map"); break; case 8: k02<std::list<std::string>>("list of strings"); break; default: k02<std::vector<char>>("vector of char"); } }

#endif
#if !defined(ONLY) || ONLY == 3
    typedef std::random_access_iterator_tag Ra;
    // ---- K03 -----------------------------------------------------------------------------------------------------------
    struct T { int v, id; bool operator<(const T& o) const { return v < o.v; } bool operator==(const T& o) const { return v == o.v; } explicit operator bool() const { return v != 0; } };
    std::vector<T> tagged(const Ints& v) { std::vector<T> r; for (std::size_t i = 0; i < v.size(); ++i) r.push_back(T{ v[i], (int)i }); return r; }
    template<class C> std::string showt(const C& c) { std::string o = "["; for (auto& e : c) o += (o.size() > 1 ? " " : "") + std::to_string(e.v) + "#" + std::to_string(e.id); return o + "]"; }
    template<class C> bool sameids(const C& c, const std::vector<T>& w) { std::size_t i = 0; for (auto& e : c) { if (i >= w.size() || e.id != w[i].id || e.v != w[i].v) return false; ++i; } return i == w.size(); }
    template<class C> void sorting(const char* kn, const Ints& v, const std::vector<T>& t, std::true_type)
    {
        for (int k = 0; k < 4; ++k)
        {
            C c(t.begin(), t.end()); auto g = [](const T& a, const T& b) { return b.v < a.v; }; auto o = [](const T& a, const T& b) { return (a.v + 1) % 3 < (b.v + 1) % 3; };
            if (k == 0) { SEQ_CHECK(&pluto::sort(c) == &c, "sort returned something else"); } else if (k == 1) (void)pluto::sort(c, g); else if (k == 2) (void)pluto::sort(c, o); else pluto::sort(c.begin(), c.end()); seq::step();
            Ints key; std::vector<bool> ids(v.size()); for (auto& e : c) { key.push_back(k == 1 ? -e.v : k == 2 ? (e.v + 1) % 3 : e.v); SEQ_CHECK((std::size_t)e.id < v.size() && v[(std::size_t)e.id] == e.v, "sort of %s made up an element", show(v).c_str()); ids[(std::size_t)e.id] = true; }
            SEQ_CHECK(std::is_sorted(key.begin(), key.end()) && std::find(ids.begin(), ids.end(), false) == ids.end() && key.size() == v.size(), "%s: sort %d of %s gives %s", kn, k, show(v).c_str(), showt(c).c_str());
        }
    }
    template<class C> void sorting(const char*, const Ints&, const std::vector<T>&, std::false_type) {}
    template<class C> void k03(const char* kn)
    {
        auto one = [&](const Ints& v)
        {
            const std::vector<T> t = tagged(v); const std::size_t n = v.size();
            for (unsigned mask = 0; mask < 8; ++mask)
            {
                if (!seq::next()) continue;
                SEQ_CASE("%s %s, accepted %x", kn, show(v).c_str(), mask);
                auto p = [mask](const T& e) { return ((mask >> e.v) & 1) != 0; }; std::vector<T> keep; for (auto& e : t) if (p(e)) keep.push_back(e);
                C c(t.begin(), t.end()), d = c; SEQ_CHECK(&pluto::filter(c, p) == &c, "filter returned something else"); SEQ_CHECK(sameids(c, keep), "%s: filtering %s by %x gives %s", kn, show(v).c_str(), mask, showt(c).c_str());
                auto e = pluto::filter(d.begin(), d.end(), p); SEQ_CHECK(sameids(std::vector<T>(d.begin(), e), keep), "%s: filtering %s by iterators gives %s", kn, show(v).c_str(), showt(std::vector<T>(d.begin(), e)).c_str());
                const C s(t.begin(), t.end());
                SEQ_CHECK(pluto::any(s, p) == !keep.empty(), "%s: any(%s) is %d", kn, show(v).c_str(), pluto::any(s, p)); SEQ_CHECK(pluto::all(s, p) == (keep.size() == n), "%s: all(%s) is %d", kn, show(v).c_str(), pluto::all(s, p)); SEQ_CHECK(pluto::count_if(s, p) == keep.size(), "%s: count_if(%s) is %zu", kn, show(v).c_str(), pluto::count_if(s, p));
                seq::step(5); seq::outcome(keep.size() * 16 + n); if (keep.size() && keep.size() < n) seq::nontrivial();
            }
            if (!seq::next()) return;
            SEQ_CASE("%s %s", kn, show(v).c_str());
            const C s(t.begin(), t.end()); int tot = 0, c0 = 0; for (int x : v) { tot += x; c0 += x == 0; }
            for (int x = 0; x < 4; ++x) { std::size_t w = (std::size_t)std::count(v.begin(), v.end(), x); SEQ_CHECK(pluto::count(s, T{ x, 77 }) == w, "%s: count(%s, %d) is %zu", kn, show(v).c_str(), x, pluto::count(s, T{ x, 77 })); }
            SEQ_CHECK(pluto::any(s) == ((std::size_t)c0 < n), "%s: any(%s) is %d", kn, show(v).c_str(), pluto::any(s)); SEQ_CHECK(pluto::all(s) == (c0 == 0), "%s: all(%s) is %d", kn, show(v).c_str(), pluto::all(s));
            // mapping: calls in order, each once, after what the destination held
            int calls = 0; auto f = [&calls](const T& e) { return e.v * 1000 + e.id * 10 + calls++ % 7; }; Ints img; for (std::size_t i = 0; i < n; ++i) img.push_back(v[i] * 1000 + (int)i * 10 + (int)i % 7);
            for (int held = 0; held < 3; ++held)
            {
                Ints want; for (int i = 0; i < held; ++i) want.push_back(-i); want.insert(want.end(), img.begin(), img.end());
                Ints d1; std::list<int> d2; std::deque<int> d3; for (int i = 0; i < held; ++i) { d1.push_back(-i); d2.push_back(-i); d3.push_back(-i); }
                calls = 0; SEQ_CHECK(&pluto::map(s, d1, f) == &d1, "map returned something else"); SEQ_CHECK(d1 == want, "%s: mapping %s onto a vector of %d gives %s", kn, show(v).c_str(), held, show(d1).c_str()); SEQ_CHECK(calls == (int)n, "%s: map called its function %d times for %zu elements", kn, calls, n);
                calls = 0; pluto::map(s, d2, f); SEQ_CHECK(Ints(d2.begin(), d2.end()) == want, "%s: mapping %s onto a list of %d gives %s", kn, show(v).c_str(), held, show(Ints(d2.begin(), d2.end())).c_str()); calls = 0; pluto::map(s, d3, f); SEQ_CHECK(Ints(d3.begin(), d3.end()) == want, "%s: mapping %s onto a deque of %d differs", kn, show(v).c_str(), held);
            }
            calls = 0; Ints m1 = pluto::map<Ints>(s, f); SEQ_CHECK(m1 == img, "%s: map<vector>(%s) gives %s", kn, show(v).c_str(), show(m1).c_str()); calls = 0; std::list<int> m2 = pluto::map<std::list<int>>(s, f); SEQ_CHECK(Ints(m2.begin(), m2.end()) == img, "%s: map<list>(%s) differs", kn, show(v).c_str());
            std::set<int> ms = pluto::map<std::set<int>>(s, [](const T& e) { return e.v; }); SEQ_CHECK(ms == std::set<int>(v.begin(), v.end()), "%s: map<set>(%s) differs", kn, show(v).c_str());
            { Ints out(n, -1); calls = 0; auto e = pluto::map(s.begin(), s.end(), out.begin(), f); SEQ_CHECK(out == img && e == out.end(), "%s: map by iterators of %s gives %s", kn, show(v).c_str(), show(out).c_str()); }
            // visiting
            { C w(t.begin(), t.end()); Ints seen; SEQ_CHECK(&pluto::for_each(w, [&](T& e) { seen.push_back(e.id); e.v += 5; }) == &w, "for_each returned something else"); bool ok = seen.size() == n; std::size_t i = 0; for (auto& e : w) { ok = ok && seen[i] == (int)i && e.v == v[i] + 5; ++i; } SEQ_CHECK(ok, "%s: for_each over %s visited %s", kn, show(v).c_str(), show(seen).c_str()); }
            // reversing and sorting
            { C w(t.begin(), t.end()), x = w; std::vector<T> r(t.rbegin(), t.rend()); SEQ_CHECK(&pluto::reverse(w) == &w, "reverse returned something else"); SEQ_CHECK(sameids(w, r), "%s: reversing %s gives %s", kn, show(v).c_str(), showt(w).c_str()); pluto::reverse(x.begin(), x.end()); SEQ_CHECK(sameids(x, r), "%s: reversing %s by iterators gives %s", kn, show(v).c_str(), showt(x).c_str()); }
            sorting<C>(kn, v, t, std::integral_constant<bool, std::is_base_of<Ra, typename std::iterator_traits<typename C::iterator>::iterator_category>::value>());
            // the first extremal element itself
            if (n)
            {
                std::size_t lo = 0, hi = 0, ml = 0, mh = 0; auto key = [](const T& e) { return (e.v + 1) % 3; }; auto cmp = [key](const T& a, const T& b) { return key(a) < key(b); };
                for (std::size_t i = 1; i < n; ++i) { if (v[i] < v[lo]) lo = i; if (v[i] > v[hi]) hi = i; if (key(t[i]) < key(t[ml])) ml = i; if (key(t[i]) > key(t[mh])) mh = i; }
                auto at = [&](std::size_t i) { auto it = s.begin(); std::advance(it, (std::ptrdiff_t)i); return &*it; };
                SEQ_CHECK(&pluto::min(s) == at(lo), "%s: min(%s) is element #%d and not #%zu", kn, show(v).c_str(), pluto::min(s).id, lo); SEQ_CHECK(&pluto::max(s) == at(hi), "%s: max(%s) is element #%d and not #%zu", kn, show(v).c_str(), pluto::max(s).id, hi);
                SEQ_CHECK(&pluto::min(s, cmp) == at(ml), "%s: min(%s, own order) is element #%d and not #%zu", kn, show(v).c_str(), pluto::min(s, cmp).id, ml); SEQ_CHECK(&pluto::max(s, cmp) == at(mh), "%s: max(%s, own order) is element #%d and not #%zu", kn, show(v).c_str(), pluto::max(s, cmp).id, mh);
            }
            seq::step(20); seq::outcome((u64)tot);
        };
        words_upto(3, seq::thorough() ? 8 : 7, one); for (int f = 0; f < 3; f += 2) seq::long_lists<int>(f, std::vector<Ints>{ Ints{ 0 }, Ints{ 2, 0, 1 } }, 100000, [&](const Ints& v) { if (v.size() > 8) one(v); });
    }
    // sums, and everything on plain numbers, C arrays and template-deduced mapping
    template<class C> void k03_numbers(const char* kn)
    {
        auto one = [&](const Ints& w)
        {
            if (!seq::next()) return;
            Ints v; for (int x : w) v.push_back(x * 3 - 3); SEQ_CASE("%s of numbers %s", kn, show(v).c_str());
            const C c(v.begin(), v.end()); long tot = 0; for (int x : v) tot += x;
            SEQ_CHECK(pluto::sum(c) == tot, "%s: sum(%s) is %ld", kn, show(v).c_str(), (long)pluto::sum(c)); SEQ_CHECK(pluto::sum(c, 100) == tot + 100, "%s: sum(%s, 100) is %ld", kn, show(v).c_str(), (long)pluto::sum(c, 100));
            SEQ_CHECK(pluto::sum(c, 1ll << 40) == tot + (1ll << 40), "%s: sum(%s) in long long is %lld", kn, show(v).c_str(), pluto::sum(c, 1ll << 40)); SEQ_CHECK(pluto::sum(c, 0.5) == (double)tot + 0.5, "%s: sum(%s) in double is %f", kn, show(v).c_str(), pluto::sum(c, 0.5));
            bool nz = false, az = true; for (int x : v) { nz = nz || x; az = az && x; } SEQ_CHECK(pluto::any(c) == nz && pluto::all(c) == az, "%s: any(%s) is %d and all is %d", kn, show(v).c_str(), pluto::any(c), pluto::all(c));
            auto m = pluto::map(c, [](int x) { return std::to_string(x) + "!"; }); std::string j, k; for (auto& x : m) j += x; for (int x : v) k += std::to_string(x) + "!"; SEQ_CHECK(j == k && pluto::sum(m) == k && pluto::sum(m, std::string(">")) == ">" + k, "%s: mapping %s to text gives %s", kn, show(v).c_str(), j.c_str());
            if (v.size()) { SEQ_CHECK(pluto::min(c) == *std::min_element(v.begin(), v.end()) && pluto::max(c) == *std::max_element(v.begin(), v.end()), "%s: min(%s) is %d and max is %d", kn, show(v).c_str(), pluto::min(c), pluto::max(c)); SEQ_CHECK(pluto::min(c, pluto::is_greater{}) == pluto::max(c) && pluto::max(c, pluto::is_greater{}) == pluto::min(c), "%s: min and max of %s with the opposite order differ from max and min", kn, show(v).c_str()); }
            seq::step(12); seq::outcome((u64)(tot + 1000)); if (v.size()) seq::nontrivial();
        };
        words_upto(3, 7, one); for (int f = 0; f < 3; f += 2) seq::long_lists<int>(f, std::vector<Ints>{ Ints{ 0 }, Ints{ 2, 0, 1 } }, 100000, [&](const Ints& v) { if (v.size() > 8) one(v); });
    }
    template<std::size_t N> void k03_array()
    {
        words(3, (int)N, [&](const Ints& v)
        {
            if (!seq::next()) return;
            SEQ_CASE("C array %s", show(v).c_str()); int a[N]; std::array<int, N> b; std::copy(v.begin(), v.end(), a); std::copy(v.begin(), v.end(), b.begin());
            Ints s = v; std::sort(s.begin(), s.end()); int tot = 0; for (int x : v) tot += x;
            std::size_t lo = (std::size_t)(std::min_element(v.begin(), v.end()) - v.begin()), hi = (std::size_t)(std::max_element(v.begin(), v.end()) - v.begin());
            SEQ_CHECK(&pluto::min(a) == a + lo && &pluto::max(a) == a + hi, "C array: min and max of %s", show(v).c_str()); SEQ_CHECK(&pluto::min(b) == &b[lo] && &pluto::max(b) == &b[hi], "std::array: min and max of %s", show(v).c_str()); SEQ_CHECK(pluto::sum(b) == tot, "std::array: sum of %s", show(v).c_str());
            SEQ_CHECK(pluto::count(a, 1) == (std::size_t)std::count(v.begin(), v.end(), 1) && pluto::any(a) == (tot > 0), "C array: count and any of %s", show(v).c_str());
            Ints m = pluto::map<Ints>(a, [](int x) { return x + 1; }); for (auto& x : m) --x; SEQ_CHECK(m == v, "C array: map of %s", show(v).c_str());
            pluto::reverse(a); SEQ_CHECK(std::equal(v.rbegin(), v.rend(), a), "C array: reverse of %s", show(v).c_str()); pluto::sort(a); pluto::sort(b, pluto::is_greater{}); SEQ_CHECK(std::equal(s.begin(), s.end(), a) && std::equal(s.rbegin(), s.rend(), b.begin()), "C array: sort of %s", show(v).c_str());
            seq::step(8); seq::outcome((u64)tot); seq::nontrivial();
        });
    }
    void k03_c(int t) { switch (t) { case 0: k03<std::vector<T>>("vector"); break; case 1: k03<std::list<T>>("list"); break; case 2: k03<std::deque<T>>("deque"); break; case 3: k03_numbers<Ints>("vector"); break; case 4: k03_numbers<std::list<int>>("list"); break; case 5: k03_numbers<std::deque<int>>("deque"); break; default: k03_array<1>(); k03_array<2>(); k03_array<3>(); k03_array<6>(); } }
#endif
}
void reg()
{
#if !defined(ONLY) || ONLY == 1
    static const char* const SN[] = { "vector", "deque", "list", "forward", "pointers", "checkedra", "checkedbi", "checkedfw" };
    for (int x = 0; x < NPAIRS; ++x) seq::scenario("K01", std::string("pairs-") + PAIRS[x].a + "-" + PAIRS[x].b, k01_seq, x, x < 8 ? 2 : 1);
    seq::scenario("K01", "arrays", k01_arrays); for (int t = 0; t < 3; ++t) seq::scenario("K01", "strings-type" + std::to_string(t), k01_strings, t, 2);
    for (int t = 0; t < 8; ++t) seq::scenario("K01", std::string("elements-") + SN[t], k01_e, t);
#endif
#if !defined(ONLY) || ONLY == 2
    for (int t = 0; t < 10; ++t) seq::scenario("K02", "slices-type" + std::to_string(t), k02_c, t);
#endif
#if !defined(ONLY) || ONLY == 3
    for (int t = 0; t < 7; ++t) seq::scenario("K03", "type" + std::to_string(t), k03_c, t);
#endif
}
int main(int argc, char** argv) { return seq::main(argc, argv, reg); }
