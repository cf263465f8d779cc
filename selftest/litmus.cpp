// Self-test of lib/mcrt.cpp: litmus tests whose sets of outcomes are known. Suites named X.ok.* must hold and have the
// number of outcomes given at the end of the name; suites named X.bad.* must report a violation.
#include "../lib/mcapi.hpp"
#include <atomic>
#include <condition_variable>
#include <memory>
#include <mutex>
#include <semaphore>
#include <thread>
using namespace mcapi;
using mo = std::memory_order;
template<class A, class B>
static void two(A a, B b) {
    std::thread t(a), u(b);
    t.join();
    u.join();
}
static void sb(mo s, mo l, bool fence) {
    std::atomic<int> x{ 0 }, y{ 0 };
    int r1 = -1, r2 = -1;
    two(
        [&] {
            x.store(1, s);
            if (fence) std::atomic_thread_fence(mo::seq_cst);
            r1 = y.load(l);
        },
        [&] {
            y.store(1, s);
            if (fence) std::atomic_thread_fence(mo::seq_cst);
            r2 = x.load(l);
        });
    outcome(uint64_t(r1 * 2 + r2 + 1));
}
static void mp(mo s, mo l, bool rf, bool af) {
    std::atomic<int> x{ 0 }, f{ 0 };
    int a = -1, b = -1;
    two(
        [&] {
            x.store(1, mo::relaxed);
            if (rf) std::atomic_thread_fence(mo::release);
            f.store(1, s);
        },
        [&] {
            a = f.load(l);
            if (af) std::atomic_thread_fence(mo::acquire);
            b = x.load(mo::relaxed);
        });
    outcome(uint64_t(a * 2 + b + 1));
}
static void iriw(mo s, mo l) {
    std::atomic<int> x{ 0 }, y{ 0 };
    int r[4];
    std::thread a([&] { x.store(1, s); }), b([&] { y.store(1, s); });
    std::thread c([&] { r[0] = x.load(l); r[1] = y.load(l); }), d([&] { r[2] = y.load(l); r[3] = x.load(l); });
    a.join(), b.join(), c.join(), d.join();
    outcome(uint64_t(r[0] + 2 * r[1] + 4 * r[2] + 8 * r[3] + 1));
}
static void relseq() { // a release sequence continues through a relaxed read-modify-write
    int data = 0;
    std::atomic<int> f{ 0 };
    std::thread a([&] { data = 1; f.store(1, mo::release); });
    std::thread b([&] { f.fetch_add(2, mo::relaxed); });
    std::thread c([&] { int v = f.load(mo::acquire); if (v & 1) { MCHECK(data == 1, "x"); } outcome(uint64_t(v + 1)); });
    a.join(), b.join(), c.join();
}
static void race_mp(mo s, mo l) {
    int data = 0;
    std::atomic<int> f{ 0 };
    two([&] { data = 1; f.store(1, s); }, [&] { if (f.load(l)) outcome(uint64_t(data + 1)); else outcome(99); });
}
static void corr() {
    std::atomic<int> x{ 0 };
    int a = 0, b = 0;
    two([&] { x.store(1, mo::relaxed); x.store(2, mo::relaxed); }, [&] { a = x.load(mo::relaxed); b = x.load(mo::relaxed); });
    MCHECK(b >= a, "coherence");
    outcome(uint64_t(a * 3 + b + 1));
}
int main(int argc, char** argv) {
    using V = std::vector<Bound>;
    V all{ { -1, 0, 0, 0 } }, some{ { 5, 3, 3, 0 } };
    add("X.ok.sb-relaxed.4", [] { sb(mo::relaxed, mo::relaxed, false); }, all, all);
    add("X.ok.sb-acqrel.4", [] { sb(mo::release, mo::acquire, false); }, all, all);
    add("X.ok.sb-sc.3", [] { sb(mo::seq_cst, mo::seq_cst, false); }, all, all);
    add("X.ok.sb-fence.3", [] { sb(mo::relaxed, mo::relaxed, true); }, all, all);
    add("X.ok.mp-relaxed.4", [] { mp(mo::relaxed, mo::relaxed, false, false); }, all, all);
    add("X.ok.mp-relacq.3", [] { mp(mo::release, mo::acquire, false, false); }, all, all);
    add("X.ok.mp-relonly.4", [] { mp(mo::release, mo::relaxed, false, false); }, all, all);
    add("X.ok.mp-fences.3", [] { mp(mo::relaxed, mo::relaxed, true, true); }, all, all);
    add("X.ok.mp-relfence-only.4", [] { mp(mo::relaxed, mo::relaxed, true, false); }, all, all);
    add("X.ok.mp-acqfence.3", [] { mp(mo::release, mo::relaxed, false, true); }, all, all);
    add("X.ok.iriw-acqrel.16", [] { iriw(mo::release, mo::acquire); }, { { 6, 4, 4, 0 } }, all);
    add("X.ok.iriw-sc.15", [] { iriw(mo::seq_cst, mo::seq_cst); }, { { 6, 4, 4, 0 } }, all);
    add("X.ok.relseq.4", [] { relseq(); }, { { 4, 4, 4, 0 } }, all);
    add("X.ok.corr.6", [] { corr(); }, all, all);
    add("X.ok.race-mp-relacq.2", [] { race_mp(mo::release, mo::acquire); }, all, all);
    add("X.bad.race-mp-relaxed", [] { race_mp(mo::relaxed, mo::acquire); }, some, all);
    add("X.bad.race-mp-relaxed2", [] { race_mp(mo::release, mo::relaxed); }, some, all);
    add("X.ok.mutex.1", [] {
        std::mutex m;
        int n = 0;
        auto f = [&] { for (int i = 0; i < 2; ++i) { std::lock_guard l(m); ++n; } };
        two(f, f);
        MCHECK(n == 4, "n");
        outcome(uint64_t(n));
    }, all, all);
    add("X.bad.nomutex", [] {
        int n = 0;
        auto f = [&] { ++n; };
        two(f, f);
    }, some, all);
    add("X.bad.lost-update", [] {
        std::atomic<int> n{ 0 };
        auto f = [&] { n.store(n.load() + 1); };
        two(f, f);
        MCHECK(n == 2, "n");
    }, some, all);
    add("X.bad.deadlock", [] {
        std::mutex m, n;
        two([&] { std::lock_guard a(m); std::lock_guard b(n); }, [&] { std::lock_guard b(n); std::lock_guard a(m); });
    }, some, all);
    add("X.ok.spin.1", [] {
        std::atomic<bool> f{ false };
        two([&] { while (!f.load(mo::acquire)) {} }, [&] { f.store(true, mo::release); });
        outcome(1);
    }, { { 4, 4, 4, 0 } }, { { 6, 6, 6, 0 } });
    add("X.ok.spin-yield-cas.1", [] {
        std::atomic<int> f{ 0 };
        int n = 0;
        auto g = [&] { int e = 0; while (!f.compare_exchange_weak(e, 1, mo::acquire)) { e = 0; std::this_thread::yield(); } ++n; f.store(0, mo::release); };
        two(g, g);
        outcome(uint64_t(n));
    }, { { 4, 4, 4, 0 } }, { { 6, 6, 6, 0 } });
    add("X.bad.livelock", [] {
        std::atomic<bool> f{ false };
        two([&] { while (!f.load(mo::acquire)) {} }, [&] {});
    }, some, all);
    add("X.ok.sem.1", [] {
        std::counting_semaphore<> s{ 0 };
        int d = 0;
        two([&] { s.acquire(); MCHECK(d == 1, "d"); }, [&] { d = 1; s.release(); });
        outcome(1);
    }, all, all);
    add("X.ok.sem-timed.2", [] {
        std::counting_semaphore<> s{ 0 };
        bool got = false;
        two([&] { got = s.try_acquire_for(std::chrono::milliseconds(1)); }, [&] { s.release(); });
        outcome(uint64_t(got) + 1);
    }, all, all);
    add("X.ok.condvar.1", [] {
        std::mutex m;
        std::condition_variable c;
        bool r = false;
        two([&] { std::unique_lock l(m); c.wait(l, [&] { return r; }); }, [&] { { std::lock_guard l(m); r = true; } c.notify_one(); });
        outcome(1);
    }, all, all);
    add("X.bad.condvar-lost", [] {
        std::mutex m;
        std::condition_variable c;
        two([&] { std::unique_lock l(m); c.wait(l); }, [&] { c.notify_one(); });
    }, some, all);
    add("X.ok.atomic-wait.1", [] {
        std::atomic<int> f{ 0 };
        int d = 0;
        two([&] { f.wait(0, mo::acquire); MCHECK(d == 1, "d"); }, [&] { d = 1; f.store(1, mo::release); f.notify_one(); });
        outcome(1);
    }, { { 4, 4, 4, 0 } }, { { 6, 6, 6, 0 } });
    add("X.bad.use-after-free", [] {
        std::atomic<int*> p{ new int(1) };
        two([&] { delete p.exchange(nullptr); }, [&] { if (int* q = p.load()) outcome(uint64_t(*q)); });
    }, some, all);
    add("X.bad.double-free", [] {
        std::atomic<int*> p{ new int(1) };
        auto f = [&] { if (int* q = p.load()) { p.store(nullptr); delete q; } };
        two(f, f);
    }, some, all);
    add("X.ok.static-local.1", [] {
        auto f = [] { static std::unique_ptr<int> p = std::make_unique<int>(3); return *p; };
        int a = 0, b = 0;
        two([&] { a = f(); }, [&] { b = f(); });
        MCHECK(a == 3 && b == 3, "s");
        outcome(1);
    }, all, all);
    add("X.ok.shared-ptr.2", [] {
        int dead = 0;
        struct D { int* p; ~D() { *p = self() + 1; } };
        auto p = std::make_shared<D>(&dead);
        auto q = p;
        two([&] { p.reset(); }, [&] { q.reset(); });
        MCHECK(dead, "d");
        outcome(uint64_t(dead));
    }, { { 4, 4, 4, 0 } }, all);
    add("X.bad.sem-reader-first", [] {
        std::counting_semaphore<> s{ 1 };
        int d = 0;
        two([&] { s.acquire(); d = 1; }, [&] { s.release(); d = 2; });
    }, some, all);
    add("X.bad.dead-thread-local", [] {
        static thread_local int v = 3;
        std::atomic<int*> p{ nullptr };
        two([&] { v = 4; p.store(&v); }, [&] { if (int* q = p.load()) outcome(uint64_t(*q)); });
    }, some, all);
    add("X.ok.thread-local-ctor.1", [] {
        struct C { int v = 5; ~C() { v = 0; } };
        static thread_local C c;
        int a = 0, b = 0;
        two([&] { a = c.v++; }, [&] { b = c.v++; });
        MCHECK(a == 5 && b == 5, "tls");
        outcome(uint64_t(a + b));
    }, all, all);
    return mcapi::main(argc, argv);
}
