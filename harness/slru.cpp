// C04: pluto::safe_lru_cache, the real header under mcrt.
//
// Which calls each thread makes is an enumerated choice; every interleaving of the calls is executed.  The recorded
// history must have a linearization: an order of the calls, respecting real time, in which a sequential LRU cache returns
// what the calls returned and ends in the state (entries, values, recency) probed afterwards.
#include "mc.hpp"
#include <pluto/safe_lru_cache.hpp>
#include <cstdio>
#include <cstring>
#include <string>
#include <thread>

namespace
{
    struct Val { int a, b; };
    typedef pluto::safe_lru_cache<int, Val> cache;
    enum { NK = 3, CALL = 1, RET = 2, PROBE = 3 };

    // ---- sequential model: at most NK entries, front = most recent -------------------------------------------------
    struct Model
    {
        int cap, n; int k[NK + 1], v[NK + 1];
        int at(int key) const { for (int i = 0; i < n; ++i) if (k[i] == key) return i; return -1; }
        void erase(int i) { for (; i + 1 < n; ++i) { k[i] = k[i + 1]; v[i] = v[i + 1]; } --n; }
        void push(int key, int val) { for (int i = n; i > 0; --i) { k[i] = k[i - 1]; v[i] = v[i - 1]; } k[0] = key; v[0] = val; ++n; }
        void capacity(int c) { cap = c; while (n > c) --n; }
        bool insert(int key, int val, bool assign)
        {
            int i = at(key);
            if (i < 0) { if (cap) { if (n >= cap) --n; push(key, val); } return true; }
            if (assign) { erase(i); push(key, val); }
            return false;
        }
        long get(int key) { int i = at(key); if (i < 0) return -1; int val = v[i]; erase(i); push(key, val); return val; }
        bool remove(int key) { int i = at(key); if (i < 0) return false; erase(i); return true; }
    };

    struct Op { char c; int k; };
    const Op OPS[] = { { 'I', 1 }, { 'I', 2 }, { 'I', 3 }, { 'A', 1 }, { 'A', 2 }, { 'A', 3 }, { 'G', 1 }, { 'G', 2 }, { 'G', 3 }, { 'R', 1 }, { 'R', 2 }, { 'R', 3 },
                       { 'C', 1 }, { 'C', 2 }, { 'C', 3 }, { 'S', 0 }, { 'E', 0 }, { 'K', 0 }, { 'Z', 0 }, { 'P', 0 }, { 'P', 1 }, { 'P', 2 }, { 'P', 3 } };
    const int NOPS = sizeof OPS / sizeof *OPS;
    const int SMALL[] = { 0, 2, 3, 5, 6, 7, 9, 12, 15, 18, 20 };    // a reduced alphabet for the longer scripts
    const int NSMALL = sizeof SMALL / sizeof *SMALL;

    struct Init { int cap; const char* fill; };
    const Init INITS[] = { { 1, "1" }, { 2, "12" }, { 2, "1" }, { 3, "123" }, { 0, "" }, { 3, "21" }, { 2, "" } };
    const char* opname(int o) { static char b[8]; std::snprintf(b, sizeof b, "%c%d", OPS[o].c, OPS[o].k); return b; }

    struct Call { int op, val; long ret; int inv, res; };
    struct World { cache* c; Call call[16]; int n; Model m0; } w;

    long apply_model(Model& m, const Call& c)
    {
        const Op& o = OPS[c.op];
        switch (o.c)
        {
            case 'I': return m.insert(o.k, c.val, false);
            case 'A': m.insert(o.k, c.val, true); return -2;          // what insert_or_assign returns is judged separately
            case 'G': return m.get(o.k);
            case 'R': return m.remove(o.k);
            case 'C': return m.at(o.k) >= 0;
            case 'S': return m.n;
            case 'E': return m.n == 0;
            case 'K': return m.cap;
            case 'Z': m.n = 0; return 0;
            default: m.capacity(o.k); return 0;
        }
    }
    long get_value(cache& c, int k)
    {
        Val x{ -7, -7 };
        if (!c.get(k, x)) { MC_CHECK(x.a == -7 && x.b == -7, "get returned false but changed the value"); return -1; }
        MC_CHECK(x.a == x.b, "get returned a torn value %d/%d", x.a, x.b);
        return x.a;
    }
    void apply_real(int id)
    {
        Call& c = w.call[id]; const Op& o = OPS[c.op]; cache& q = *w.c; long r = 0; Val v{ c.val, c.val };
        mc::ev(CALL, id); { mc::Untracked u; c.inv = mc::ev_count(); }
        switch (o.c)
        {
            case 'I': r = q.insert(o.k, v); break;
            case 'A': r = q.insert_or_assign(o.k, v); break;
            case 'G': r = get_value(q, o.k); break;
            case 'R': r = q.remove(o.k); break;
            case 'C': r = q.contains(o.k); break;
            case 'S': r = (long)q.size(); break;
            case 'E': r = q.empty(); break;
            case 'K': r = (long)q.capacity(); break;
            case 'Z': q.clear(); break;
            default: q.capacity(o.k); break;
        }
        mc::Untracked u;
        c.ret = r; mc::ev(RET, id, r); c.res = mc::ev_count();
    }

    // insert_or_assign: true exactly when the key was absent
    bool ret_ok(const Model& before, const Call& c, long modelRet)
    {
        if (OPS[c.op].c == 'A') return c.ret == (before.at(OPS[c.op].k) < 0);
        return c.ret == modelRet;
    }
    // what was probed after the threads had ended
    struct Probe { int mode; long size, cap; bool has[NK + 1]; long val[NK + 1]; int order[NK]; int norder; } pr;

    bool final_ok(const Model& m)
    {
        if (pr.size != m.n || pr.cap != m.cap) return false;
        for (int k = 1; k <= NK; ++k) if (pr.has[k] != (m.at(k) >= 0)) return false;
        if (pr.mode == 0) { for (int k = 1; k <= NK; ++k) { int i = m.at(k); if (pr.val[k] != (i < 0 ? -1 : m.v[i])) return false; } return true; }
        if (pr.norder != m.n) return false;
        for (int i = 0; i < m.n; ++i) if (pr.order[i] != m.k[m.n - 1 - i]) return false;
        return true;
    }
    bool search(const Model& m, unsigned done)
    {
        if (done == (1u << w.n) - 1) return final_ok(m);
        for (int i = 0; i < w.n; ++i)
        {
            if (done >> i & 1) continue;
            bool first = true;                                   // nobody still outstanding returned before i was called
            for (int j = 0; j < w.n && first; ++j) if (j != i && !(done >> j & 1) && w.call[j].res <= w.call[i].inv) first = false;
            if (!first) continue;
            Model x = m; long r = apply_model(x, w.call[i]);
            if (ret_ok(m, w.call[i], r) && search(x, done | 1u << i)) return true;
        }
        return false;
    }

    void probe()
    {
        cache& c = *w.c;
        pr.mode = mc::choose(2, "probe"); pr.norder = 0;
        pr.size = (long)c.size(); pr.cap = (long)c.capacity();
        MC_CHECK(c.empty() == (pr.size == 0), "empty() disagrees with size()");
        for (int k = 1; k <= NK; ++k) pr.has[k] = c.contains(k);
        if (pr.mode == 0) { for (int k = 1; k <= NK; ++k) pr.val[k] = get_value(c, k); }
        else
            for (long n = pr.size; n > 0; --n)
            {
                bool before[NK + 1]; for (int k = 1; k <= NK; ++k) before[k] = c.contains(k);
                c.capacity((std::size_t)(n - 1));
                MC_CHECK((long)c.size() == n - 1, "shrinking to %ld left %ld entries", n - 1, (long)c.size());
                int gone = 0, cnt = 0; for (int k = 1; k <= NK; ++k) if (before[k] && !c.contains(k)) { gone = k; ++cnt; }
                MC_CHECK(cnt == 1, "shrinking by one removed %d entries", cnt);
                pr.order[pr.norder++] = gone;
            }
    }

    void run(const Init& in, const int* lens, int nthreads, int first, bool small, int stride = 0)
    {
        std::memset(&w, 0, sizeof w); std::memset(&pr, 0, sizeof pr);
        w.c = new cache((std::size_t)in.cap);
        w.m0 = Model{ in.cap, 0, {}, {} };
        for (const char* p = in.fill; *p; ++p) { int k = *p - '0'; w.c->insert(k, Val{ k, k }); w.m0.insert(k, k, false); }
        int base[4], n = 0;
        for (int t = 0; t < nthreads; ++t)
        {
            base[t] = n;
            for (int j = 0; j < lens[t]; ++j, ++n)
            {
                int o = stride ? (first + n * stride) % NOPS : n == 0 && first >= 0 ? first : small ? SMALL[mc::choose(NSMALL, "op")] : mc::choose(NOPS, "op");
                w.call[n].op = o; w.call[n].val = 10 + n;
            }
        }
        w.n = n;
        if (mc::tracing()) for (int i = 0; i < n; ++i) mc::note("call %d is %s", i, opname(w.call[i].op));
        {
            std::thread th[3];
            for (int t = 0; t + 1 < nthreads; ++t) { int b = base[t], l = lens[t]; th[t] = std::thread([b, l] { for (int j = 0; j < l; ++j) apply_real(b + j); }); }
            int t = nthreads - 1;
            for (int j = 0; j < lens[t]; ++j) apply_real(base[t] + j);
            for (t = 0; t + 1 < nthreads; ++t) th[t].join();
        }
        probe();
        {
            mc::Untracked u;
            if (!search(w.m0, 0))
            {
                std::string s;
                for (int i = 0; i < w.n; ++i) { s += opname(w.call[i].op); s += "->" + std::to_string(w.call[i].ret) + (i + 1 < w.n ? ", " : ""); }
                mc::fail("no sequential order of these calls explains their results and the final state: %s", s.c_str());
            }
            std::uint64_t h = 1469598103934665603ull;
            for (int i = 0; i < w.n; ++i) h = (h ^ (std::uint64_t)(w.call[i].op * 131 + w.call[i].ret + 7)) * 1099511628211ull;
            h = (h ^ (std::uint64_t)(pr.size * 7 + pr.cap)) * 1099511628211ull;
            mc::outcome(h);
        }
        delete w.c;
    }
    // arg = shape*1000000 + init*10000 + small*1000 + first
    void body(int arg)
    {
        static const int shapes[][3] = { { 1, 1, 0 }, { 2, 1, 0 }, { 1, 1, 1 }, { 2, 2, 0 }, { 2, 1, 1 } };
        static const int nth[] = { 2, 2, 3, 2, 3 };
        int s = arg / 1000000; arg %= 1000000;
        run(INITS[arg / 10000], shapes[s], nth[s], arg % 1000 == 999 ? -1 : arg % 1000, arg / 1000 % 10);
    }
    // longer scripts: call i is operation (first + i*stride) mod 23, for every first and every stride
    void lengthy(int arg)
    {
        static const int two[] = { 4, 4 }, three[] = { 5, 5, 5 };
        static const int inits[] = { 1, 3, 5, 6 };
        int in = inits[arg / 10], first = mc::choose(NOPS, "first"), stride = 1 + mc::choose(NOPS - 1, "stride");
        if (arg % 10 == 0) run(INITS[in], two, 2, first, false, stride); else run(INITS[in], three, 3, first, false, stride);
    }
    // capacities far beyond what is stored, and many entries
    void huge(int)
    {
        static const std::size_t CAPS[] = { 255, 256, 257, 65535, 65536, 65537, 0x7fffffff, 0x80000000u, 0xffffffffu, 0x100000000ull, 0x100000001ull, 0x100000002ull, 1ull << 63, ~0ull };
        std::size_t cap = CAPS[mc::choose((int)(sizeof CAPS / sizeof *CAPS), "capacity")]; bool late = mc::choose(2, "set later") != 0; int n = (int[]){ 4, 300, 66100 }[mc::choose(3, "entries")]; if (n > 300 && cap < 65535) n = 301;
        cache c(late ? 3 : cap); if (late) c.capacity(cap);
        MC_CHECK(c.capacity() == cap && c.size() == 0 && c.empty(), "a capacity of %zu was set and %zu is reported", cap, (std::size_t)c.capacity());
        for (int i = 0; i < n; ++i) MC_CHECK(c.insert(i, Val{ i, i }), "inserting %d failed", i);
        std::size_t left = (std::size_t)n < cap ? (std::size_t)n : cap;
        MC_CHECK(c.size() == left && !c.empty(), "capacity %zu: %zu entries after %d insertions", cap, (std::size_t)c.size(), n);
        for (int i = 0; i < n; ++i) { bool in = (std::size_t)(n - i) <= left; MC_CHECK(c.contains(i) == in && get_value(c, i) == (in ? i : -1), "capacity %zu: entry %d of %d", cap, i, n); }
        for (std::size_t k = left; k > 0; --k) { c.capacity(k - 1); MC_CHECK(c.size() == k - 1 && !c.contains((int)((std::size_t)n - k)), "capacity %zu: shrunk to %zu", cap, k - 1); }
    }
}
void mc_register();
namespace
{
    struct Register
    {
        static void all()
        {
            static const char* sn[] = { "1+1", "2+1", "1+1+1", "2+2", "2+1+1" };
            for (int s = 0; s < 5; ++s)
                for (int in = 0; in < (int)(sizeof INITS / sizeof *INITS); ++in)
                {
                    bool smallq = s >= 2;
                    if (s == 0)
                    {
                        add(sn[s], s, in, false, -1, true, true, 60);
                        continue;
                    }
                    // every first operation is a scenario of its own, so that they run in parallel
                    for (int f = 0; f < NOPS; ++f)
                    {
                        bool isSmall = false; for (int k : SMALL) isSmall |= k == f;
                        if (!smallq) add(sn[s], s, in, false, f, in < 5, true, 60);
                        else
                        {
                            if (isSmall) add(sn[s], s, in, true, f, s == 3 || (s == 4 && in < 2), s == 4, 60);
                            if (s == 3 || s == 2) add(sn[s], s, in, false, f, s == 2, true, 60);
                        }
                    }
                }
        }
        static void add_huge() { mc::Opt o; o.quick.preempt = o.thorough.preempt = 0; o.quick.max_s = o.thorough.max_s = 120; o.quick.max_steps = o.thorough.max_steps = 6000000; mc::scenario("C04", "huge-capacities", o, huge, 0); }
        static void add_long()
        {
            for (int in = 0; in < 4; ++in) for (int s = 0; s < 2; ++s)
            {
                mc::Opt o; o.quick.preempt = o.quick.delay = s ? 2 : 3; o.thorough.preempt = o.thorough.delay = s ? 3 : 4; o.quick.max_s = 60; o.thorough.max_s = 200; o.quick.max_exec = 3000000; o.thorough.max_exec = 30000000;
                char nm[64]; std::snprintf(nm, sizeof nm, "long-%s-%d", s ? "5+5+5" : "4+4", in); mc::scenario("C04", strdup(nm), o, lengthy, in * 10 + s);
            }
        }
        static void add(const char* shape, int s, int in, bool small, int first, bool quick, bool thorough, double secs)
        {
            mc::Opt o; o.quick.preempt = 3; o.thorough.preempt = 6;
            o.quick.max_s = secs; o.thorough.max_s = secs * 4; o.quick.max_exec = quick ? 3000000 : 0; o.thorough.max_exec = thorough ? 20000000 : 0;
            char nm[96]; std::snprintf(nm, sizeof nm, "%s-cap%d-fill%s%s%s%s", shape, INITS[in].cap, INITS[in].fill, small ? "-reduced" : "", first < 0 ? "" : "-", first < 0 ? "" : opname(first));
            mc::scenario("C04", strdup(nm), o, body, s * 1000000 + in * 10000 + small * 1000 + (first < 0 ? 999 : first));
        }
    };
}
void mc_register() { Register::all(); Register::add_huge(); Register::add_long(); }
