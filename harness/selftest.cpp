// Self-test of mcrt: toy programs whose verdicts and numbers of behaviours are known.
// Scenario names tell what is expected: ok-<name>[-N] must hold (with exactly N distinct outcomes), bad-<name> must be reported.
#include "mc.hpp"
#include <atomic>
#include <barrier>
#include <chrono>
#include <condition_variable>
#include <future>
#include <latch>
#include <list>
#include <map>
#include <mutex>
#include <semaphore>
#include <shared_mutex>
#include <stop_token>
#include <string>
#include <thread>
#include <vector>

namespace
{
    using namespace std::chrono_literals;
    template<class A, class B> void two(A a, B b) { std::thread t(a), u(b); t.join(); u.join(); }
    struct Shared { int x = 0, y = 0; std::mutex m, n; std::condition_variable c; std::shared_mutex s; std::recursive_mutex r; std::timed_mutex t; std::atomic<int> a{ 0 }, b{ 0 }; };
    typedef void (*fn)();

    // ---- data races and memory
    void race_plain() { Shared s; two([&] { s.x = 1; }, [&] { s.x = 2; }); }
    void race_read() { Shared s; int r = 0; two([&] { s.x = 1; }, [&] { r = s.x; }); mc::outcome(r); }
    void locked() { Shared s; two([&] { std::lock_guard<std::mutex> l(s.m); s.x = s.x * 3 + 1; }, [&] { std::lock_guard<std::mutex> l(s.m); s.x = s.x * 5 + 1; }); mc::outcome(s.x); }
    void locks_differ() { Shared s; two([&] { std::lock_guard<std::mutex> l(s.m); ++s.x; }, [&] { std::lock_guard<std::mutex> l(s.n); ++s.x; }); }
    void race_only_if() { Shared s; two([&] { s.a = 1; s.x = 1; }, [&] { if (s.a == 1) s.x = 2; }); }           // needs a preemption between
    void published() { Shared s; two([&] { s.x = 1; s.a.store(1, std::memory_order_release); }, [&] { if (s.a.load(std::memory_order_acquire)) mc::outcome(s.x); else mc::outcome(7); }); }
    void published_relaxed() { Shared s; two([&] { s.x = 1; s.a.store(1, std::memory_order_relaxed); }, [&] { if (s.a.load(std::memory_order_relaxed)) mc::outcome(s.x); }); }
    void shared_readers() { Shared s; two([&] { std::shared_lock<std::shared_mutex> l(s.s); mc::outcome(s.x); }, [&] { std::unique_lock<std::shared_mutex> l(s.s); s.x = 1; }); }
    void shared_write() { Shared s; two([&] { std::shared_lock<std::shared_mutex> l(s.s); ++s.x; }, [&] { std::shared_lock<std::shared_mutex> l(s.s); ++s.x; }); }
    void use_after_free() { int* p = new int(1); std::mutex m; two([&] { std::lock_guard<std::mutex> l(m); delete p; }, [&] { std::lock_guard<std::mutex> l(m); mc::outcome(*p); }); }
    void out_of_bounds() { std::vector<char> v(16); volatile int i = 32; v.data()[i] = 1; }
    void list_race() { std::list<int> l{ 1, 2 }; two([&] { l.push_back(3); }, [&] { l.push_front(0); }); }
    void map_race() { std::map<int, int> l; l[1] = 1; l[5] = 2; two([&] { l[3] = 3; }, [&] { mc::outcome(l.count(5)); }); }
    void string_race() { std::string s(40, 'a'), t; two([&] { s[39] = 'b'; }, [&] { mc::outcome(s == std::string(40, 'a')); }); }
    void detach_race() { std::atomic<bool> go{ false }; std::thread t([&] { while (!go) std::this_thread::yield(); }); two([&] { if (t.joinable()) t.detach(); }, [&] { mc::outcome(t.joinable()); }); go = true; if (t.joinable()) t.join(); mc::quiesce(); }

    // ---- blocking
    void deadlock() { Shared s; two([&] { std::lock_guard<std::mutex> a(s.m), b(s.n); }, [&] { std::lock_guard<std::mutex> a(s.n), b(s.m); }); }
    void scoped() { Shared s; two([&] { std::scoped_lock l(s.m, s.n); ++s.x; }, [&] { std::scoped_lock l(s.n, s.m); ++s.x; }); mc::outcome(s.x); }
    void lost_wakeup() { Shared s; two([&] { if (!s.a) { std::unique_lock<std::mutex> l(s.m); s.c.wait(l); } }, [&] { s.a = 1; s.c.notify_one(); }); }
    void wakeup() { Shared s; two([&] { std::unique_lock<std::mutex> l(s.m); while (!s.x) s.c.wait(l); }, [&] { { std::lock_guard<std::mutex> l(s.m); s.x = 1; } s.c.notify_one(); }); mc::outcome(s.x); }
    void notify_early() { Shared s; two([&] { std::unique_lock<std::mutex> l(s.m); while (!s.x) s.c.wait(l); }, [&] { s.c.notify_one(); std::lock_guard<std::mutex> l(s.m); s.x = 1; }); }
    void notify_one_of_two() { Shared s; auto w = [&] { std::unique_lock<std::mutex> l(s.m); while (!s.x) s.c.wait(l); }; std::thread t(w), u(w); { std::lock_guard<std::mutex> l(s.m); s.x = 1; } s.c.notify_one(); t.join(); u.join(); }
    void if_wait() { Shared s; two([&] { std::unique_lock<std::mutex> l(s.m); if (!s.x) s.c.wait(l); MC_CHECK(s.x, "woken without reason"); }, [&] { mc::point(); { std::lock_guard<std::mutex> l(s.m); s.x = 1; } s.c.notify_all(); }); }
    void timed_wait() { Shared s; two([&] { std::unique_lock<std::mutex> l(s.m); bool ok = s.c.wait_for(l, 10ms, [&] { return s.x != 0; }); mc::outcome(ok); }, [&] { { std::lock_guard<std::mutex> l(s.m); s.x = 1; } s.c.notify_one(); }); }
    void timed_out() { Shared s; std::unique_lock<std::mutex> l(s.m); long long t = mc::now(); bool ok = s.c.wait_for(l, 10ms, [&] { return s.x != 0; }); MC_CHECK(!ok && mc::now() - t == 10000000, "wrong time"); mc::outcome(ok); }
    void sleepers() { std::vector<int> v; std::mutex m; auto f = [&](int ms) { std::this_thread::sleep_for(std::chrono::milliseconds(ms)); std::lock_guard<std::mutex> l(m); v.push_back(ms); }; two([&] { f(10); }, [&] { f(5); }); mc::outcome(v[0] * 100 + v[1]); }
    void self_lock() { std::mutex m; m.lock(); m.lock(); }
    void recursive() { Shared s; two([&] { std::lock_guard<std::recursive_mutex> a(s.r), b(s.r); ++s.x; }, [&] { std::lock_guard<std::recursive_mutex> a(s.r); ++s.x; }); mc::outcome(s.x); }
    void wrong_unlock() { Shared s; s.m.lock(); std::thread t([&] { s.m.unlock(); }); t.join(); }
    void timed_mutex_() { Shared s; two([&] { std::lock_guard<std::timed_mutex> l(s.t); std::this_thread::sleep_for(20ms); }, [&] { bool ok = s.t.try_lock_for(10ms); mc::outcome(ok); if (ok) s.t.unlock(); }); }
    void terminates() { std::thread t([] { throw 1; }); t.join(); }
    void forgotten() { std::thread t([] {}); }
    void spins_for_ever() { Shared s; std::thread t([&] { while (!s.a) std::this_thread::yield(); }); t.join(); }
    void spins() { Shared s; two([&] { while (!s.a) std::this_thread::yield(); }, [&] { s.a = 1; }); mc::outcome(1); }

    // ---- library primitives built on futexes and more
    void promise_() { std::promise<int> p; auto f = p.get_future(); int r = 0; two([&] { p.set_value(42); }, [&] { r = f.get(); }); mc::outcome(r); }
    void promise_lifetime() { int v = 0; auto* p = new std::promise<void>; auto f = p->get_future(); std::thread t([&] { v = 1; p->set_value(); }); f.wait(); MC_CHECK(v == 1, "not visible"); t.join(); delete p; mc::outcome(v); }
    void semaphore_() { std::counting_semaphore<4> q(0); int x = 0; two([&] { x = 5; q.release(); }, [&] { q.acquire(); mc::outcome(x); }); }
    void semaphore_bad() { std::counting_semaphore<4> q(0); two([&] { q.release(); }, [&] { q.acquire(); q.acquire(); }); }
    void latch_() { std::latch l(2); int x = 0, y = 0; two([&] { x = 1; l.arrive_and_wait(); mc::outcome(y); }, [&] { y = 1; l.arrive_and_wait(); mc::outcome(x); }); }
    void barrier_() { std::barrier<> b(2); int x = 0, y = 0, r = 0, q = 0; two([&] { x = 1; b.arrive_and_wait(); r = y; }, [&] { y = 1; b.arrive_and_wait(); q = x; }); mc::outcome(r * 2 + q); }
    void atomic_wait() { std::atomic<int> a{ 0 }; int x = 0; two([&] { x = 1; a = 1; a.notify_one(); }, [&] { a.wait(0); mc::outcome(x); }); }
    void atomic_wait_bad() { std::atomic<int> a{ 0 }; two([&] { a = 1; }, [&] { a.wait(0); }); }
    void any_cv() { std::recursive_mutex m; std::condition_variable_any c; int x = 0; two([&] { std::unique_lock<std::recursive_mutex> l(m); c.wait(l, [&] { return x; }); }, [&] { { std::lock_guard<std::recursive_mutex> l(m); x = 1; } c.notify_all(); }); mc::outcome(x); }
    void jthread_() { int n = 0; { std::jthread t([&](std::stop_token s) { while (!s.stop_requested()) std::this_thread::yield(); n = 1; }); } mc::outcome(n); }
    void stop_cv() { std::mutex m; std::condition_variable_any c; int n = 0; { std::jthread t([&](std::stop_token s) { std::unique_lock<std::mutex> l(m); c.wait(l, s, [&] { return false; }); n = 1; }); } mc::outcome(n); }
    void once() { std::once_flag f; int n = 0; two([&] { std::call_once(f, [&] { ++n; }); mc::outcome(n); }, [&] { std::call_once(f, [&] { ++n; }); mc::outcome(n); }); }
    struct Made { std::string v; Made() { mc::counter_add(1, 1); mc::point(); v = std::string(40, (char)('a' + mc::counter_get(1))); } ~Made() { mc::counter_add(1, 100); mc::outcome_str(v.c_str()); } };
    const Made& instance() { static const Made m; return m; }
    void static_() { two([] { mc::outcome_str(instance().v.c_str()); }, [] { mc::outcome_str(instance().v.c_str()); }); mc::at_end([](int) { MC_CHECK(mc::counter_get(1) == 101, "constructed or destroyed %ld times", mc::counter_get(1)); }, 0); }
    std::string& buffer() { static std::string b; return b; }
    void static_race() { two([] { buffer() = "a"; }, [] { buffer() = "b"; }); }
    void static_thread() { static std::thread t([] {}); (void)t; }
    void static_joined() { static std::jthread t([] { mc::counter_add(1, 1); }); mc::at_end([](int) { mc::outcome(mc::counter_get(1)); }, 0); (void)t; }
    void static_throws() { int n = 0; auto g = [&] { struct T { T(int& n) { if (++n == 1) throw 1; } }; try { static T t(n); (void)t; } catch (int) {} }; std::mutex m; two([&] { std::lock_guard<std::mutex> l(m); g(); }, [&] { std::lock_guard<std::mutex> l(m); g(); }); g(); mc::outcome(n); }
    void static_after() { static std::string s(50, 'x'); std::thread([] { mc::flag_wait(1); for (int i = 0; i < 3; ++i) { mc::point(); volatile char c = s[40]; (void)c; } }).detach(); mc::flag_set(1); mc::point(); }
    void async_() { int n = 0; auto f = std::async(std::launch::async, [&] { n = 3; return 4; }); int r = f.get(); mc::outcome(r * 10 + n); }
    void packaged() { std::packaged_task<int()> t([] { return 5; }); auto f = t.get_future(); std::thread th(std::move(t)); mc::outcome(f.get()); th.join(); }
    void fences() { Shared s; two([&] { s.x = 1; std::atomic_thread_fence(std::memory_order_release); s.a.store(1, std::memory_order_relaxed); },
                                  [&] { int v = s.a.load(std::memory_order_relaxed); std::atomic_thread_fence(std::memory_order_acquire); mc::outcome(v ? s.x : 7); }); }
    void shared_ptr_() { auto p = std::make_shared<std::vector<int>>(3); two([p]() mutable { (*p).size(); p.reset(); }, [p]() mutable { p.reset(); }); mc::outcome(p.use_count()); }
    void locals() { static thread_local int n = 0; int r = 0; two([&] { ++n; ++n; }, [&] { r = ++n; }); mc::outcome(r * 10 + n); }

    // ---- number of behaviours: Dekker's flags under sequential consistency give three results, never both zero
    void dekker() { Shared s; int r = 0, q = 0; two([&] { s.a = 1; r = s.b; }, [&] { s.b = 1; q = s.a; }); MC_CHECK(r || q, "both zero"); mc::outcome(r * 2 + q); }
    void counter_race() { Shared s; two([&] { int v = s.a; s.a = v + 1; }, [&] { int v = s.a; s.a = v + 1; }); mc::outcome(s.a); }
    void orders() { std::atomic<long> v{ 0 }; auto f = [&](int d) { for (int i = 0; i < 3; ++i) { long o = v; while (!v.compare_exchange_weak(o, o * 4 + d)) {} } }; two([&] { f(1); }, [&] { f(2); }); mc::outcome(v); }      // 6 over 3 = 20
    void choices() { int r = 0; for (int i = 0; i < 3; ++i) r = r * 3 + mc::choose(3); mc::outcome(r); }
    void choices_and_schedules() { Shared s; int r = mc::choose(2); two([&] { s.a = s.a * 2 + 1; }, [&] { s.a = s.a * 3 + 5; }); mc::outcome(r * 100 + s.a); }

    fn table[] = { race_plain, race_read, locked, locks_differ, race_only_if, published, published_relaxed, shared_readers, shared_write, use_after_free, out_of_bounds, list_race, map_race, string_race, detach_race,
        deadlock, scoped, lost_wakeup, wakeup, notify_early, notify_one_of_two, if_wait, timed_wait, timed_out, sleepers, self_lock, recursive, wrong_unlock, timed_mutex_, terminates, forgotten, spins_for_ever, spins,
        promise_, promise_lifetime, semaphore_, semaphore_bad, latch_, barrier_, atomic_wait, atomic_wait_bad, any_cv, jthread_, stop_cv, once, async_, packaged, fences, shared_ptr_, locals, static_, static_race, static_thread, static_joined, static_throws, static_after,
        dekker, counter_race, orders, choices, choices_and_schedules };
    void run(int i) { table[i](); }
    void add(const char* name, fn f, int pre = 2, int spur = 0)
    {
        int i = 0; while (table[i] != f) ++i;
        mc::Opt o; o.quick.preempt = pre; o.quick.spurious = spur; o.quick.max_s = 60; o.thorough = o.quick;
        mc::scenario("X00", name, o, run, i);
    }
}
void mc_register()
{
    add("bad-race-plain", race_plain, 0); add("bad-race-read", race_read, 0); add("ok-locked-2", locked); add("bad-locks-differ", locks_differ, 0); add("bad-race-only-if", race_only_if);
    add("ok-published-2", published); add("bad-published-relaxed", published_relaxed); add("ok-shared-readers-2", shared_readers); add("bad-shared-write", shared_write); add("bad-use-after-free", use_after_free);
    add("bad-out-of-bounds", out_of_bounds); add("bad-list-race", list_race); add("bad-map-race", map_race); add("bad-string-race", string_race); add("bad-detach-race", detach_race);
    add("bad-deadlock", deadlock, 1); add("ok-scoped-1", scoped); add("bad-lost-wakeup", lost_wakeup); add("ok-wakeup-1", wakeup, 3, 1); add("bad-notify-early", notify_early); add("bad-notify-one-of-two", notify_one_of_two);
    add("bad-if-wait", if_wait, 0, 1); add("ok-timed-wait-1", timed_wait); add("ok-timed-out-1", timed_out); add("ok-sleepers-1", sleepers); add("bad-self-lock", self_lock); add("ok-recursive-1", recursive);
    add("bad-wrong-unlock", wrong_unlock); add("ok-timed-mutex-2", timed_mutex_); add("bad-terminates", terminates); add("bad-forgotten", forgotten); add("bad-spins-for-ever", spins_for_ever); add("ok-spins-1", spins);
    add("ok-promise-1", promise_); add("ok-promise-lifetime-1", promise_lifetime); add("ok-semaphore-1", semaphore_); add("bad-semaphore", semaphore_bad); add("ok-latch-1", latch_); add("ok-barrier-1", barrier_);
    add("ok-atomic-wait-1", atomic_wait); add("bad-atomic-wait", atomic_wait_bad); add("ok-any-cv-1", any_cv); add("ok-jthread-1", jthread_); add("ok-stop-cv-1", stop_cv); add("ok-once-1", once);
    add("ok-async-1", async_); add("ok-packaged-1", packaged); add("ok-fences-2", fences); add("ok-shared-ptr-1", shared_ptr_); add("ok-locals-1", locals);
    add("ok-static-1", static_); add("bad-static-race", static_race); add("bad-static-thread", static_thread); add("ok-static-joined-1", static_joined); add("ok-static-throws-1", static_throws); add("bad-static-after", static_after, 2);
    add("ok-dekker-3", dekker, 4); add("ok-counter-race-2", counter_race); add("ok-orders-20", orders, 6); add("ok-orders-by-no-preemption-2", orders, 0); add("ok-choices-27", choices); add("ok-choices-and-schedules-8", choices_and_schedules, 4);
}
