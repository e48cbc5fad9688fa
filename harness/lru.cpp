// C01, C02, C03: pluto::lru_cache against a reference model, every operation sequence up to a depth.
#include "seq.hpp"
#include <pluto/lru_cache.hpp>
#include <new>
#include <string>
#include <vector>

// ---- every step that can fail: copies and comparisons of keys, copies of values, allocations -------------------------
static long g_countdown = -1;       // < 0: no injection
static bool g_fired = false;
struct Injected {};
static void fallible() { if (g_countdown >= 0 && g_countdown-- == 0) { g_fired = true; throw Injected(); } }
#ifdef LRU_FAULTS
__attribute__((noinline)) void* operator new(std::size_t n) { fallible(); void* p = std::malloc(n ? n : 1); if (!p) throw std::bad_alloc(); return p; }
__attribute__((noinline)) void operator delete(void* p) noexcept { std::free(p); }
__attribute__((noinline)) void operator delete(void* p, std::size_t) noexcept { std::free(p); }
#endif

namespace
{
    long g_keys = 0, g_vals = 0;    // live objects
    struct Key
    {
        int k; int canary = 0x600d;
        explicit Key(int x) : k(x) { ++g_keys; }
        Key(const Key& o) : k((fallible(), o.k)) { check(o); ++g_keys; }
        Key& operator=(const Key& o) { check(o); fallible(); k = o.k; return *this; }
        ~Key() { check(*this); canary = 0; --g_keys; }
        static void check(const Key& x) { SEQ_CHECK(x.canary == 0x600d, "a dead key was used"); }
        friend bool operator<(const Key& a, const Key& b) { check(a); check(b); fallible(); return a.k < b.k; }
    };
    struct Val
    {
        int v; int canary = 0x600d;
        explicit Val(int x) : v(x) { ++g_vals; }
        Val(const Val& o) : v((fallible(), o.v)) { check(o); ++g_vals; }
        Val& operator=(const Val& o) { check(o); check(*this); fallible(); v = o.v; return *this; }
        ~Val() { check(*this); canary = 0; --g_vals; }
        static void check(const Val& x) { SEQ_CHECK(x.canary == 0x600d, "a dead value was used"); }
    };
    typedef pluto::lru_cache<Key, Val> cache;

    enum { NK = 3 };
    struct Model
    {
        int cap = 0, n = 0; int k[NK + 1] = {}, v[NK + 1] = {};   // front = most recent
        int at(int key) const { for (int i = 0; i < n; ++i) if (k[i] == key) return i; return -1; }
        void erase(int i) { for (; i + 1 < n; ++i) { k[i] = k[i + 1]; v[i] = v[i + 1]; } --n; }
        void push(int key, int val) { for (int i = n; i > 0; --i) { k[i] = k[i - 1]; v[i] = v[i - 1]; } k[0] = key; v[0] = val; ++n; }
        void capacity(int c) { cap = c; while (n > c) --n; }
        bool insert(int key, int val, bool assign)
        {
            int i = at(key);
            if (i < 0) { if (cap) { if (n >= cap) --n; push(key, val); } return true; }
            if (assign) { erase(i); push(key, val); }
            return false;
        }
        int get(int key) { int i = at(key); if (i < 0) return -1; int val = v[i]; erase(i); push(key, val); return val; }
        bool remove(int key) { int i = at(key); if (i < 0) return false; erase(i); return true; }
        seq::u64 hash() const { seq::u64 h = (seq::u64)cap * 7 + (seq::u64)n; for (int i = 0; i < n; ++i) h = seq::mix(h, (seq::u64)(k[i] * 100 + v[i])); return h; }
        bool operator==(const Model& o) const { if (cap != o.cap || n != o.n) return false; for (int i = 0; i < n; ++i) if (k[i] != o.k[i] || v[i] != o.v[i]) return false; return true; }
    };
    // the alphabet: mutators first
    struct Op { char c; int k; };
    const Op OPS[] = { { 'I', 1 }, { 'I', 2 }, { 'I', 3 }, { 'A', 1 }, { 'A', 2 }, { 'A', 3 }, { 'G', 1 }, { 'G', 2 }, { 'G', 3 }, { 'R', 1 }, { 'R', 2 }, { 'R', 3 },
                       { 'P', 0 }, { 'P', 1 }, { 'P', 2 }, { 'P', 3 }, { 'Z', 0 }, { 'C', 1 }, { 'C', 2 }, { 'C', 3 } };
    enum { NOPS = sizeof OPS / sizeof *OPS, NMUT = 17 };
    std::string text(const int* ops, int n) { std::string s; for (int i = 0; i < n; ++i) { if (i) s += ' '; s += OPS[ops[i]].c; s += (char)('0' + OPS[ops[i]].k); } return s; }

    int model_op(Model& m, int o, int val)
    {
        const Op& p = OPS[o];
        switch (p.c)
        {
            case 'I': return m.insert(p.k, val, false);
            case 'A': return m.insert(p.k, val, true);
            case 'G': return m.get(p.k);
            case 'R': return m.remove(p.k);
            case 'P': m.capacity(p.k); return 0;
            case 'Z': m.n = 0; return 0;
            default: return m.at(p.k) >= 0;
        }
    }
    int real_op(cache& c, int o, int val)
    {
        const Op& p = OPS[o];
        const Key key(p.k); Val x(val);
        seq::step();
        switch (p.c)
        {
            case 'I': return c.insert(key, x);
            case 'A': return c.insert_or_assign(key, x);
            case 'G': { Val out(-7); bool r = c.get(key, out); SEQ_CHECK(r || out.v == -7, "get returned false but changed the value"); return r ? out.v : -1; }
            case 'R': return c.remove(key);
            case 'P': c.capacity((std::size_t)p.k); return 0;
            case 'Z': c.clear(); return 0;
            default: return c.contains(key);
        }
    }
    std::string show(const Model& m) { std::string s = "cap " + std::to_string(m.cap) + " {"; for (int i = 0; i < m.n; ++i) s += (i ? " " : "") + std::to_string(m.k[i]) + "=" + std::to_string(m.v[i]); return s + "}"; }

    // observers; they must not disturb anything
    bool look(const cache& c, const Model& m)
    {
        if ((int)c.size() != m.n || (int)c.capacity() != m.cap || c.empty() != (m.n == 0)) return false;
        for (int k = 1; k <= NK; ++k) if (c.contains(Key(k)) != (m.at(k) >= 0)) return false;
        return true;
    }
    // reads the values: from the least recent entry to the most recent, which leaves the order as it was
    bool values(cache& c, const Model& m)
    {
        for (int i = m.n - 1; i >= 0; --i) { Val x(-7); if (!c.get(Key(m.k[i]), x) || x.v != m.v[i]) return false; }
        for (int k = 1; k <= NK; ++k) if (m.at(k) < 0) { Val x(-7); if (c.get(Key(k), x) || x.v != -7) return false; }
        return look(c, m);
    }
    // evicts one by one
    bool drain(cache& c, const Model& m0)
    {
        Model m = m0;
        if (!look(c, m)) return false;
        while (m.n) { m.capacity(m.n - 1); c.capacity((std::size_t)m.n); if (!look(c, m)) return false; }
        return look(c, m);
    }
    void empty_world(const char* what) { SEQ_CHECK(g_keys == 0 && g_vals == 0, "%ld keys and %ld values are still alive after %s", g_keys, g_vals, what); }

    // walks all sequences of exactly len operations
    template<class F> void sequences(int len, int nops, int* ops, int pos, const F& f)
    {
        if (pos == len) { f(); return; }
        for (int o = 0; o < nops; ++o) { ops[pos] = o; sequences(len, nops, ops, pos + 1, f); }
    }

    // ---- C01 ----------------------------------------------------------------------------------------------------------
    // probe: 0 drain, 1 values, 2 observers after every operation and drain
    void run_sequence(int cap, const int* ops, int n, int probe)
    {
        SEQ_CASE("capacity %d: %s; then %s", cap, text(ops, n).c_str(), probe == 1 ? "values" : "evictions");
        {
            cache c((std::size_t)cap); Model m; m.cap = cap;
            for (int i = 0; i < n; ++i)
            {
                int e = model_op(m, ops[i], 10 + i), r = real_op(c, ops[i], 10 + i);
                SEQ_CHECK(e == r, "operation %d of \"%s\" on capacity %d returned %d instead of %d", i + 1, text(ops, n).c_str(), cap, r, e);
                if (probe == 2) SEQ_CHECK(look(c, m), "after operation %d of \"%s\" on capacity %d the cache is not %s", i + 1, text(ops, n).c_str(), cap, show(m).c_str());
            }
            bool ok = probe == 1 ? values(c, m) : drain(c, m);
            SEQ_CHECK(ok, "after \"%s\" on capacity %d the cache is not %s (%s)", text(ops, n).c_str(), cap, show(m).c_str(), probe == 1 ? "values" : "eviction order");
            seq::state(m.hash()); seq::outcome(m.hash());
        }
        empty_world("the cache was destroyed");
    }
    void c01(int arg)
    {
        int cap = arg % 10, len = arg / 10 % 10, probe = arg / 100;
        int ops[12];
        sequences(len, NOPS, ops, 0, [&] { if (seq::next()) run_sequence(cap, ops, len, probe); });
    }
    // deeper: key names are introduced in order (1, then 2, then 3), in both comparison orders
    void deep_walk(int cap, int len, int* ops, int pos, int used, bool mirror, int nops)
    {
        if (pos == len)
        {
            if (!seq::next()) return;
            int o2[12]; for (int i = 0; i < len; ++i) { o2[i] = ops[i]; if (mirror && ops[i] < 12) o2[i] = ops[i] / 3 * 3 + 2 - ops[i] % 3; }
            run_sequence(cap, o2, len, 0); return;
        }
        for (int o = 0; o < nops; ++o)
        {
            int u = used;
            if (o < 12) { int k = OPS[o].k; if (k > used + 1) continue; if (k > used) u = k; }
            ops[pos] = o; deep_walk(cap, len, ops, pos + 1, u, mirror, nops);
        }
    }
    void c01_deep(int arg)
    {
        int ops[12]; int cap = arg % 10;
        int len = seq::thorough() ? 7 : 5;
        deep_walk(cap, len, ops, 0, 0, arg >= 10, NMUT);
    }
    // every transition from every reachable model state, reached by a shortest path
    void c01_states(int)
    {
        struct Node { Model m; std::vector<int> path; int cap; };
        std::vector<Node> q; seq::Set seen;
        auto norm = [](Model m) { for (int i = 0; i < m.n; ++i) m.v[i] = 0; return m.hash(); };
        for (int cap = 0; cap <= 3; ++cap) { Model m; m.cap = cap; if (seen.add(norm(m))) q.push_back(Node{ m, {}, cap }); }
        for (std::size_t i = 0; i < q.size(); ++i)
            for (int o = 0; o < NOPS; ++o)
            {
                Node a = q[i]; a.path.push_back(o);
                for (int probe = 0; probe < 3; ++probe) if (seq::next()) run_sequence(a.cap, a.path.data(), (int)a.path.size(), probe);
                model_op(a.m, o, 10);
                if (seen.add(norm(a.m))) q.push_back(a);
            }
    }
    // other key and value types
    template<class K, class V> void typed(K (*mk)(int), V (*mv)(int), const char* what)
    {
        int ops[8];
        for (int cap = 0; cap <= 3; ++cap)
            for (int len = 0; len <= 4; ++len)
                sequences(len, NMUT, ops, 0, [&]
                {
                    if (!seq::next()) return;
                    SEQ_CASE("%s, capacity %d: %s", what, cap, text(ops, len).c_str());
                    pluto::lru_cache<K, V> c((std::size_t)cap); Model m; m.cap = cap;
                    for (int i = 0; i < len; ++i)
                    {
                        int e = model_op(m, ops[i], 10 + i), r = 0; const Op& p = OPS[ops[i]]; seq::step();
                        switch (p.c)
                        {
                            case 'I': r = c.insert(mk(p.k), mv(10 + i)); break;
                            case 'A': r = c.insert_or_assign(mk(p.k), mv(10 + i)); break;
                            case 'G': { V x = mv(-7); r = c.get(mk(p.k), x); int q = -1; for (int j = 0; j < len; ++j) if (x == mv(10 + j)) q = 10 + j; r = r ? q : -1; break; }
                            case 'R': r = c.remove(mk(p.k)); break;
                            case 'P': c.capacity((std::size_t)p.k); break;
                            default: c.clear();
                        }
                        SEQ_CHECK(e == r, "%s: operation %d of \"%s\" on capacity %d returned %d instead of %d", what, i + 1, text(ops, len).c_str(), cap, r, e);
                    }
                    for (int k = 1; k <= NK; ++k) { V x = mv(-7); int i = m.at(k); bool g = c.get(mk(k), x); SEQ_CHECK(g == (i >= 0) && (!g || x == mv(m.v[i])), "%s: wrong entry %d after \"%s\" on capacity %d", what, k, text(ops, len).c_str(), cap); if (g) m.get(k); }
                    while (m.n)
                    {
                        m.capacity(m.n - 1); c.capacity((std::size_t)m.n);
                        for (int k = 1; k <= NK; ++k) SEQ_CHECK(c.contains(mk(k)) == (m.at(k) >= 0), "%s: wrong eviction after \"%s\" on capacity %d", what, text(ops, len).c_str(), cap);
                    }
                });
    }
    void c01_types(int t)
    {
        if (t == 0) typed<int, int>([](int k) { return k; }, [](int v) { return v; }, "int to int");
        else if (t == 1) typed<std::string, std::string>([](int k) { return std::string(40, (char)('a' + k)); }, [](int v) { return std::to_string(v) + std::string(40, 'v'); }, "string to string");
        else typed<double, std::vector<int>>([](int k) { return -1.5 * k; }, [](int v) { return std::vector<int>((std::size_t)(v < 0 ? 0 : v), v); }, "double to vector");
    }

    // many entries, and capacities far beyond what is stored
    struct Big
    {
        std::size_t cap; std::vector<std::pair<int, int>> e;     // back = most recent
        std::size_t at(int k) const { for (std::size_t i = 0; i < e.size(); ++i) if (e[i].first == k) return i; return e.size(); }
        void capacity(std::size_t c) { cap = c; if (e.size() > c) e.erase(e.begin(), e.begin() + (std::ptrdiff_t)(e.size() - c)); }
        bool insert(int k, int v, bool assign) { std::size_t i = at(k); if (i < e.size()) { if (assign) { e.erase(e.begin() + (std::ptrdiff_t)i); e.push_back({ k, v }); } return false; } if (cap) { if (e.size() >= cap) e.erase(e.begin()); e.push_back({ k, v }); } return true; }
        int get(int k) { std::size_t i = at(k); if (i == e.size()) return -1; auto x = e[i]; e.erase(e.begin() + (std::ptrdiff_t)i); e.push_back(x); return x.second; }
        bool remove(int k) { std::size_t i = at(k); if (i == e.size()) return false; e.erase(e.begin() + (std::ptrdiff_t)i); return true; }
    };
    typedef pluto::lru_cache<int, int> icache;
    void big_same(icache& c, Big& m, const char* what)
    {
        SEQ_CHECK(c.size() == m.e.size() && c.capacity() == m.cap && c.empty() == m.e.empty(), "%s: the cache reports %zu of %zu entries and should report %zu of %zu", what, c.size(), c.capacity(), m.e.size(), m.cap);
        for (auto& x : m.e) SEQ_CHECK(c.contains(x.first), "%s: entry %d is missing", what, x.first);
        for (auto& x : m.e) { int v = -7; SEQ_CHECK(c.get(x.first, v) && v == x.second, "%s: entry %d is %d and not %d", what, x.first, v, x.second); }       // oldest first: leaves the order as it was
        while (m.e.size())
        {
            int oldest = m.e[0].first; std::size_t n = m.e.size() - 1; m.capacity(n); c.capacity(n); seq::step();
            SEQ_CHECK(c.size() == n && !c.contains(oldest) && (!n || c.contains(m.e[0].first)), "%s: with %zu left, entry %d should be the one that went", what, n, oldest);
        }
    }
    void c01_many(int order)
    {
        std::vector<std::size_t> caps; for (std::size_t c = 4; c <= 20; ++c) caps.push_back(c);
        for (std::size_t c : { 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 1000, 1023, 1024, 1025 }) caps.push_back(c);
        if (seq::thorough()) for (std::size_t c : { 4095, 4096, 4097 }) caps.push_back(c);
        for (std::size_t cap : caps)
        {
            bool small = cap <= (seq::thorough() ? 20u : 12u); std::vector<int> fills{ (int)cap - 1, (int)cap, (int)cap + 1, (int)cap * 2 }; if (small) fills.push_back((int)cap * 2 + 3);
            auto key = [&](int i) { return order == 0 ? i : order == 1 ? 100000 - i : i * 7919 % 65537; };
            for (int f : fills)
            {
                std::vector<int> pos; int lo = f > (int)cap ? f - (int)cap : 0; if (small) for (int i = lo - 1; i <= f; ++i) pos.push_back(i); else pos = { lo - 1, lo, lo + 1, (lo + f) / 2, f - 2, f - 1, f };
                for (int p : pos) for (int q : pos) for (char a : { 'I', 'A', 'G', 'R', 'P', 'Z' }) for (char b : { 'I', 'A', 'G', 'R', 'P', 'N' })
                {
                    if (!small && cap > 300 && q != p && b != 'N') continue;
                    if (!seq::next()) continue;
                    SEQ_CASE("capacity %zu filled with %d entries, then %c %d and %c %d", cap, f, a, p, b, q);
                    icache c(cap); Big m{ cap, {} };
                    for (int i = 0; i < f; ++i) { bool x = c.insert(key(i), i), y = m.insert(key(i), i, false); SEQ_CHECK(x == y, "insert %d of %d returned %d", i, f, x); }
                    auto op = [&](char o, int i, int v)
                    {
                        long r = 0, w = 0; seq::step();
                        switch (o)
                        {
                        case 'I': r = c.insert(key(i), v); w = m.insert(key(i), v, false); break; case 'A': r = c.insert_or_assign(key(i), v); w = m.insert(key(i), v, true); break;
                        case 'G': { int x = -1; if (!c.get(key(i), x)) SEQ_CHECK(x == -1, "a failed get changed the value"); r = x; w = m.get(key(i)); break; } case 'R': r = c.remove(key(i)); w = m.remove(key(i)); break;
                        case 'P': { std::size_t n = (std::size_t)(i < 0 ? 0 : i); c.capacity(n); m.capacity(n); break; } case 'Z': c.clear(); m.e.clear(); break;
                        default: for (int k = 0; k < 5; ++k) { c.insert(key(f + 10 + k), k); m.insert(key(f + 10 + k), k, false); }
                        }
                        SEQ_CHECK(r == w, "capacity %zu filled with %d: %c %d returned %ld instead of %ld", cap, f, o, i, r, w);
                    };
                    op(a, p, 7000); op(b, q, 8000);
                    std::string what = "capacity " + std::to_string(cap) + " filled with " + std::to_string(f) + ", then " + a + " " + std::to_string(p) + " and " + b + " " + std::to_string(q); big_same(c, m, what.c_str());
                }
            }
        }
    }
    void c01_huge(int)
    {
        std::vector<std::size_t> caps; for (int k : { 8, 15, 16, 31, 32, 33, 63 }) for (std::size_t d : { (std::size_t)-1, (std::size_t)0, (std::size_t)1, (std::size_t)2 }) caps.push_back(((std::size_t)1 << k) + d);
        caps.push_back(~(std::size_t)0); caps.push_back(~(std::size_t)0 - 1); int ops[4];
        for (std::size_t cap : caps) for (int late = 0; late < 2; ++late) for (int len = 0; len <= 3; ++len)
            sequences(len, 13, ops, 0, [&]
            {
                if (!seq::next()) return;
                SEQ_CASE("capacity %zu%s: %s", cap, late ? " set later" : "", text(ops, len).c_str());
                icache c(late ? 1 : cap); Big m{ cap, {} }; if (late) c.capacity(cap);
                for (int i = 0; i < len; ++i)
                {
                    const Op& o = OPS[ops[i]]; int r = 0, w = 0; seq::step();
                    switch (o.c) { case 'I': r = c.insert(o.k, i); w = m.insert(o.k, i, false); break; case 'A': r = c.insert_or_assign(o.k, i); w = m.insert(o.k, i, true); break; case 'G': { int x = -1; c.get(o.k, x); r = x; w = m.get(o.k); break; } case 'R': r = c.remove(o.k); w = m.remove(o.k); break; default: c.capacity(cap - 1); m.capacity(cap - 1); }
                    SEQ_CHECK(r == w, "capacity %zu: operation %d of \"%s\" returned %d instead of %d", cap, i + 1, text(ops, len).c_str(), r, w);
                }
                icache d(c); Big m2 = m; big_same(c, m, "huge capacity"); big_same(d, m2, "copy of a huge capacity");
            });
    }

    // more entries than 16 bits can count: filled past the capacity, some refreshed, reassigned and removed, then drained one by one
    void c01_flood(int)
    {
        for (int cap : { 65534, 65535, 65536, 65537, 66100, 100000 }) for (int n : { 65535, 65536, 65537, 66200, 131100 }) for (int copy = 0; copy < 4; ++copy)
        {
            if (!seq::next()) continue;
            SEQ_CASE("capacity %d, %d entries%s", cap, n, copy == 1 ? ", copied" : copy == 2 ? ", moved" : copy == 3 ? ", assigned" : "");
            icache c0((std::size_t)cap); std::vector<int> order;                     // oldest first
            for (int i = 0; i < n; ++i) SEQ_CHECK(c0.insert(i, i), "insert %d failed", i);
            icache c1(3); if (copy == 3) { c1.insert(1, 1); c1 = c0; }
            icache c(copy == 1 ? icache(c0) : copy == 3 ? std::move(c1) : std::move(c0)); seq::step();
            int lo = n > cap ? n - cap : 0; std::vector<int> late;
            SEQ_CHECK((int)c.size() == n - lo && (int)c.capacity() == cap && !c.empty(), "%zu of %zu entries reported, %d of %d expected", c.size(), c.capacity(), n - lo, cap);
            for (int i = 0; i < n; ++i) SEQ_CHECK(c.contains(i) == (i >= lo), "entry %d is %s", i, c.contains(i) ? "still there" : "missing");
            std::vector<char> gone((std::size_t)n, 0);
            for (int i = lo; i < n; ++i)
            {
                if (i % 5 == 1) { int v = -7; SEQ_CHECK(c.get(i, v) && v == i, "entry %d is %d", i, v); late.push_back(i); gone[(std::size_t)i] = 1; }
                else if (i % 5 == 2) { SEQ_CHECK(!c.insert_or_assign(i, i + 1), "entry %d was there", i); late.push_back(i); gone[(std::size_t)i] = 1; }
                else if (i % 5 == 3) { SEQ_CHECK(c.remove(i), "removing %d failed", i); gone[(std::size_t)i] = 1; }
            }
            for (int i = lo; i < n; ++i) if (!gone[(std::size_t)i]) order.push_back(i);
            order.insert(order.end(), late.begin(), late.end()); seq::step();
            SEQ_CHECK(c.size() == order.size(), "%zu entries left, %zu expected", c.size(), order.size());
            for (int k : order) { int v = -7; SEQ_CHECK(c.get(k, v) && v == (k % 5 == 2 ? k + 1 : k), "entry %d is %d", k, v); }   // oldest first: leaves the order
            for (std::size_t i = 0; i < order.size(); ++i) { c.capacity(order.size() - i - 1); SEQ_CHECK(c.size() == order.size() - i - 1 && !c.contains(order[i]) && (i + 1 == order.size() || c.contains(order[i + 1])), "shrunk to %zu, entry %d should be the one that went", order.size() - i - 1, order[i]); }
        }
    }

    // ---- C02 ----------------------------------------------------------------------------------------------------------
    // states the cache may be in after operation o failed in state s
    void candidates(const Model& s, int o, int val, std::vector<Model>& out)
    {
        const Op& p = OPS[o]; bool keyed = p.c != 'P' && p.c != 'Z' && p.c != 'C';
        int t = keyed ? s.at(p.k) : -1;
        bool writes = p.c == 'I' || p.c == 'A';
        int others[NK], ov[NK], no = 0;
        for (int i = 0; i < s.n; ++i) if (i != t) { others[no] = s.k[i]; ov[no++] = s.v[i]; }
        auto put = [&](const Model& m) { for (auto& x : out) if (x == m) return; out.push_back(m); };
        for (int mask = 0; mask < 1 << no; ++mask)
            for (int capc = 0; capc < (p.c == 'P' ? 2 : 1); ++capc)
            {
                Model b; b.cap = capc ? p.k : s.cap;
                for (int i = 0; i < no; ++i) if (mask >> i & 1) { b.k[b.n] = others[i]; b.v[b.n++] = ov[i]; }
                if (b.n <= b.cap) put(b);
                if (b.n >= b.cap) continue;
                if (t >= 0)
                {   // the touched entry where it was or at the front, with the old or the new value
                    int before = 0; for (int i = 0; i < t; ++i) for (int j = 0; j < b.n; ++j) if (b.k[j] == s.k[i]) ++before;
                    for (int nv = 0; nv < (p.c == 'A' ? 2 : 1); ++nv)
                        for (int front = 0; front < 2; ++front)
                        {
                            Model m = b; int pos = front ? 0 : before;
                            for (int i = m.n; i > pos; --i) { m.k[i] = m.k[i - 1]; m.v[i] = m.v[i - 1]; }
                            m.k[pos] = p.k; m.v[pos] = nv ? val : s.v[t]; ++m.n; put(m);
                        }
                }
                else if (keyed && writes) { Model m = b; m.push(p.k, val); put(m); }
            }
    }
    void c02(int arg)
    {
        int cap = arg % 10, len = arg / 10 % 10, post = arg / 100 % 10;
        int ops[12];
        sequences(len, NMUT, ops, 0, [&]
        {
            for (int f = 0; f < NOPS; ++f)
                for (int after = 0; after < 2; ++after)          // drain or values after the continuation
                    sequences(post, NMUT, ops + len, 0, [&]
                    {
                        if (!seq::next()) return;
                        for (long at = 0;; ++at)
                        {
                            bool fired;
                            {
                                cache c((std::size_t)cap); Model m; m.cap = cap;
                                for (int i = 0; i < len; ++i) { model_op(m, ops[i], 10 + i); real_op(c, ops[i], 10 + i); }
                                SEQ_CASE("capacity %d: %s, then %c%d failing at its step %ld, then %s", cap, text(ops, len).c_str(), OPS[f].c, OPS[f].k, at, text(ops + len, post).c_str());
                                Model before = m;
                                int r = 0; bool threw = false;
                                {
                                    const Op& p = OPS[f]; const Key key(p.k); Val x(50), out(-7); bool got = false;
                                    g_fired = false; g_countdown = at;
                                    try
                                    {
                                        switch (p.c)
                                        {
                                            case 'I': r = c.insert(key, x); break;
                                            case 'A': r = c.insert_or_assign(key, x); break;
                                            case 'G': got = c.get(key, out); break;
                                            case 'R': r = c.remove(key); break;
                                            case 'P': c.capacity((std::size_t)p.k); break;
                                            case 'Z': c.clear(); break;
                                            default: r = c.contains(key);
                                        }
                                    }
                                    catch (const Injected&) { threw = true; }
                                    g_countdown = -1; fired = g_fired; seq::step();
                                    if (p.c == 'G') r = got ? out.v : -1;
                                }
                                SEQ_CHECK(threw == fired, "the failure of step %ld of %c%d after \"%s\" was swallowed", at, OPS[f].c, OPS[f].k, text(ops, len).c_str());
                                std::vector<Model> cand;
                                if (fired) candidates(before, f, 50, cand);
                                else { int e = model_op(m, f, 50); SEQ_CHECK(e == r, "%c%d returned %d instead of %d", OPS[f].c, OPS[f].k, r, e); cand.push_back(m); }
                                auto bad = [&](const char* what)
                                {
                                    seq::fail("capacity %d, \"%s\", then %c%d failing at its step %ld, then \"%s\": %s fits no state the cache may be in", cap, text(ops, len).c_str(), OPS[f].c, OPS[f].k, at, text(ops + len, post).c_str(), what);
                                };
                                auto filter = [&](const char* what, bool (*)(cache&, const Model&)) { std::vector<Model> k; for (auto& x : cand) if (look(c, x)) k.push_back(x); if (k.empty()) bad(what); cand.swap(k); };
                                filter("what the cache reports", nullptr);
                                for (int i = 0; i < post; ++i)
                                {
                                    int got = real_op(c, ops[len + i], 60 + i); std::vector<Model> k;
                                    for (auto x : cand) if (model_op(x, ops[len + i], 60 + i) == got) { bool dup = false; for (auto& y : k) dup |= y == x; if (!dup) k.push_back(x); }
                                    if (k.empty()) bad("a later result");
                                    cand.swap(k);
                                    filter("what the cache reports later", nullptr);
                                }
                                if (after == 0)
                                {
                                    for (int n = (int)c.size(); n > 0; --n)
                                    {
                                        c.capacity((std::size_t)(n - 1)); std::vector<Model> k;
                                        for (auto x : cand) { x.capacity(n - 1); if (look(c, x)) { bool dup = false; for (auto& y : k) dup |= y == x; if (!dup) k.push_back(x); } }
                                        if (k.empty()) bad("the eviction order");
                                        cand.swap(k);
                                    }
                                }
                                else
                                {
                                    for (int key = 1; key <= NK; ++key)
                                    {
                                        Val x(-7); int got = c.get(Key(key), x) ? x.v : -1; std::vector<Model> k;
                                        for (auto y : cand) if (y.get(key) == got) k.push_back(y);
                                        if (k.empty()) bad("a value");
                                        cand.swap(k);
                                    }
                                }
                                seq::state(cand[0].hash());
                                if (fired) { seq::nontrivial(); seq::outcome(seq::mix(before.hash(), (seq::u64)(f * 100 + at))); }
                            }
                            empty_world("the cache was destroyed");
                            if (!fired) break;
                        }
                    });
        });
    }

    // ---- C03 ----------------------------------------------------------------------------------------------------------
    const char* HOW[] = { "copy construction", "copy assignment", "move construction", "move assignment", "self assignment", "copy of a destroyed source", "swap" };
    // a reduced alphabet for what follows
    const int AFTER[] = { 0, 2, 3, 4, 6, 7, 9, 13, 14, 16 };
    enum { NAFTER = sizeof AFTER / sizeof *AFTER };
    void c03(int arg)
    {
        int cap = arg % 10, how = arg / 10 % 10, len = arg / 100 % 10, len2 = arg / 1000 % 10, post = arg / 10000 % 10;
        int ops[16];
        // operations: len on the source, len2 on the target (assignments only), then post on either object
        sequences(len, NMUT, ops, 0, [&]
        {
            sequences(len2, NAFTER, ops + len, 0, [&]
            {
                sequences(post, NAFTER * 2, ops + len + len2, 0, [&]
                {
                    if (!seq::next()) return;
                    int pre2[8]; for (int i = 0; i < len2; ++i) pre2[i] = AFTER[ops[len + i]];
                    std::string tail;
                    for (int i = 0; i < post; ++i) { int x = ops[len + len2 + i]; tail += (x < NAFTER ? " first." : " second.") + text(&AFTER[x % NAFTER], 1); }
                    SEQ_CASE("%s: capacity %d, \"%s\"%s%s, then%s", HOW[how], cap, text(ops, len).c_str(), len2 ? " into a cache after " : "", len2 ? text(pre2, len2).c_str() : "", tail.c_str());
                    for (int probe = 0; probe < 2; ++probe)
                    {
                        {
                            cache* a = new cache((std::size_t)cap); Model m; m.cap = cap;
                            for (int i = 0; i < len; ++i) { model_op(m, ops[i], 10 + i); real_op(*a, ops[i], 10 + i); }
                            cache* b = nullptr; Model m2 = m; Model ma = m; bool deadA = false, moved = false;
                            if (how == 1 || how == 3 || how == 6)
                            {
                                b = new cache(2); m2 = Model(); m2.cap = 2;
                                for (int i = 0; i < len2; ++i) { model_op(m2, pre2[i], 30 + i); real_op(*b, pre2[i], 30 + i); }
                            }
                            switch (how)
                            {
                                case 0: b = new cache(*a); break;
                                case 1: { cache& r = (*b = *a); SEQ_CHECK(&r == b, "assignment does not return its target"); m2 = m; break; }
                                case 2: b = new cache(std::move(*a)); moved = true; break;
                                case 3: *b = std::move(*a); m2 = m; moved = true; break;
                                case 4: { cache& r = *a; *a = r; break; }
                                case 5: b = new cache(*a); delete a; a = nullptr; deadA = true; break;
                                default: std::swap(*a, *b); std::swap(ma, m2); break;
                            }
                            if (moved)
                            {   // what a moved-from cache holds is its own business, but it can be cleared and used
                                a->clear(); ma = Model(); ma.cap = (int)a->capacity();
                                if (ma.cap < 0 || ma.cap > 3) { a->capacity(2); ma.cap = 2; }
                            }
                            for (int i = 0; i < post; ++i)
                            {
                                int x = ops[len + len2 + i], o = AFTER[x % NAFTER]; bool second = x >= NAFTER;
                                cache* t = second ? b : a; Model& mm = second ? m2 : ma;
                                if (!t) continue;
                                int e = model_op(mm, o, 60 + i), r = real_op(*t, o, 60 + i);
                                SEQ_CHECK(e == r, "%s: capacity %d, \"%s\", then%s: the last result was %d instead of %d", HOW[how], cap, text(ops, len).c_str(), tail.c_str(), r, e);
                            }
                            auto judge = [&](cache* t, const Model& mm, const char* which)
                            {
                                if (!t) return;
                                SEQ_CHECK(probe ? values(*t, mm) : drain(*t, mm), "%s: capacity %d, \"%s\", then%s: the %s cache is not %s", HOW[how], cap, text(ops, len).c_str(), tail.c_str(), which, show(mm).c_str());
                            };
                            if (probe) { judge(a, ma, "first"); delete a; judge(b, m2, "second"); delete b; }
                            else { judge(b, m2, "second"); delete b; judge(a, ma, "first"); delete a; }
                            (void)deadA;
                            seq::state(seq::mix(ma.hash(), m2.hash())); seq::outcome(seq::mix(seq::mix(ma.hash(), m2.hash()), (seq::u64)how));
                        }
                        empty_world("both caches were destroyed");
                    }
                });
            });
        });
    }

    void reg()
    {
        for (int cap = 0; cap <= 3; ++cap)
        {
            for (int len = 0; len <= 5; ++len)
                for (int probe = 0; probe < 3; ++probe)
                {
                    if (len == 5 && probe) continue;
                    seq::scenario("C01", std::string("all-") + std::to_string(len) + "-operations-capacity" + std::to_string(cap) + (probe == 0 ? "-drain" : probe == 1 ? "-values" : "-observed"), c01, cap + len * 10 + probe * 100, len == 5 ? 8 : 1);
                }
            for (int mirror = 0; mirror < 2; ++mirror)
                seq::scenario("C01", std::string("deep-capacity") + std::to_string(cap) + (mirror ? "-mirrored" : ""), c01_deep, cap + mirror * 10, 8);
            for (int len = 0; len <= 3; ++len)
                for (int post = 0; post <= 2; ++post)
                    if (len + post <= 4)
                        seq::scenario("C02", "after-" + std::to_string(len) + "-before-" + std::to_string(post) + "-capacity" + std::to_string(cap), c02, cap + len * 10 + post * 100, len + post >= 3 ? 8 : 1, len + post >= 4);
            for (int how = 0; how < 7; ++how)
                for (int len = 0; len <= 3; ++len)
                    for (int post = 0; post <= 2; ++post)
                    {
                        bool two = how == 1 || how == 3 || how == 6;
                        for (int len2 = 0; len2 <= (two ? 2 : 0); ++len2)
                            if (len + len2 + post <= 4 || (len == 3 && post == 2 && !two))
                                seq::scenario("C03", std::string("kind") + std::to_string(how) + "-after-" + std::to_string(len) + "-into-" + std::to_string(len2) + "-then-" + std::to_string(post) + "-capacity" + std::to_string(cap),
                                    c03, cap + how * 10 + len * 100 + len2 * 1000 + post * 10000, len + len2 + post >= 4 ? 4 : 1, len + len2 + post >= 5);
                    }
        }
        for (int o = 0; o < 3; ++o) seq::scenario("C01", "many-entries-order" + std::to_string(o), c01_many, o, 8);
        seq::scenario("C01", "huge-capacities", c01_huge, 0, 2); seq::scenario("C01", "flood", c01_flood, 0, 4);
        seq::scenario("C01", "every-transition-of-every-state", c01_states);
        for (int t = 0; t < 3; ++t) seq::scenario("C01", t == 0 ? "types-int" : t == 1 ? "types-string" : "types-vector", c01_types, t, 2);
    }
}
int main(int argc, char** argv) { return seq::main(argc, argv, reg); }
