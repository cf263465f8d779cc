// C09 reserving, C11 recording commands, C22 shared access, C15 parallel iteration over views: all interleavings.
#include "../lib/mcapi.hpp"
#include <algorithm>
#include <mutex>
#include <condition_variable>
#include <ranges>
#include <semaphore>
#include <set>
#include <thread>
#include <co_ecs/co_ecs.hpp>
#include "../lib/blocks.hpp"
#include <co_ecs/command.hpp>

using namespace co_ecs;
using mcapi::Quiet;

struct A {
    int v = 0;
    A() = default;
    explicit A(int v) : v(v) {}
};
struct B {
    int v = 0;
    B() = default;
    explicit B(int v) : v(v) {}
};
struct Mark {
    int by = 0, seq = 0;
};
// three of these per storage block
struct Big {
    int v = 0;
    char pad[CAP * 5 / 16];
    explicit Big(int v = 0) noexcept : v(v) {}
    Big(const Big& o) noexcept : v(o.v) {}
    Big(Big&& o) noexcept : v(o.v) {}
    Big& operator=(const Big& o) noexcept { v = o.v; return *this; }
    Big& operator=(Big&& o) noexcept { v = o.v; return *this; }
};
static std::string hs(entity e) { return std::to_string(e.id()) + ":" + std::to_string(e.generation()); }

// ---- C09 ------------------------------------------------------------------------------------------------------
// threads reserve concurrently; before the synchronisation some more happens; then every handle is filled
static void reserve(std::vector<int> counts, int main_reserves, int maxfree) {
    registry r, other;
    entity src = r.create<A>(A(77));
    entity keep = r.create<A>(A(78));
    std::vector<entity> issued;
    int nfree = int(mcapi::choose(unsigned(maxfree) + 1));
    {
        std::vector<entity> tmp;
        for (int i = 0; i < nfree; ++i) tmp.push_back(r.create<A>(A(i)));
        issued = tmp;
        for (auto e : tmp) r.destroy(e);
    }
    issued.push_back(src);
    issued.push_back(keep);
    std::vector<std::vector<placeholder_entity>> got(counts.size() + 1);
    auto take = [&](size_t k, int n) {
        for (int i = 0; i < n; ++i) got[k].push_back(r.reserve());
    };
    std::vector<std::thread> th;
    for (size_t k = 0; k < counts.size(); ++k) {
        got[k].reserve(8);
        th.emplace_back([&, k] { take(k, counts[k]); });
    }
    got.back().reserve(8);
    take(counts.size(), main_reserves);
    for (auto& t : th) t.join();

    std::set<entity> all(issued.begin(), issued.end());
    uint64_t h = 3;
    for (auto& v : got)
        for (auto p : v) {
            entity e = p.get_entity();
            MCHECK(e.valid(), "an invalid handle was reserved");
            MCHECK(all.insert(e).second, "handle %s was reserved although it had been issued before", hs(e).c_str());
            h = h * 31 + e.id() * 7 + e.generation();
        }
    mcapi::outcome(h);
    // in between
    entity made, made2;
    switch (mcapi::choose(5)) {
    case 0: break;
    case 1: made = r.create<A>(A(500)); break;
    case 2: r.destroy(keep); break;
    case 3:
        r.destroy(keep);
        made = r.create<A>(A(500));
        break;
    default:
        made = r.create<A>(A(500));
        r.destroy(made);
        made = r.create<A>(A(500));
        made2 = r.get_entity(src).clone();
    }
    for (entity e : { made, made2 })
        if (e.valid()) MCHECK(all.insert(e).second, "handle %s was issued twice", hs(e).c_str());
    r.sync();
    bool by_move = mcapi::choose(2);
    int k = 0;
    for (auto& v : got)
        for (auto p : v) {
            entity e = p.get_entity();
            MCHECK(r.alive(e), "reserved handle %s is not alive after the synchronisation", hs(e).c_str());
            if (by_move) {
                entity o = other.create<A, B>(A(1000 + k), B(k));
                other.get_entity(o).move(r, p);
            } else {
                r.get_entity(src).clone(p);
                r.get_entity(e).set<A>(1000 + k);
                r.get_entity(e).set<B>(k);
            }
            ++k;
        }
    k = 0;
    for (auto& v : got)
        for (auto p : v) {
            entity e = p.get_entity();
            MCHECK(r.alive(e) && r.get_entity(e).get<A>().v == 1000 + k && r.get_entity(e).get<B>().v == k, "the entity filled into reserved handle %s is lost or has wrong values", hs(e).c_str());
            ++k;
        }
    MCHECK(r.get_entity(src).get<A>().v == 77, "an entity changed by filling reserved handles");
    if (r.alive(keep)) MCHECK(r.get_entity(keep).get<A>().v == 78, "an entity changed by filling reserved handles");
    for (entity e : { made, made2 })
        if (e.valid()) MCHECK(r.alive(e), "an entity created before the synchronisation is lost");
    // everything handed out from now on is new
    for (auto& v : got)
        for (auto p : v) r.destroy(p.get_entity());
    for (int i = 0; i < k + nfree + 2; ++i) {
        entity e = r.create<A>(A(i));
        MCHECK(all.insert(e).second, "handle %s was issued before", hs(e).c_str());
    }
    for (auto& v : got)
        for (auto p : v) MCHECK(!r.alive(p.get_entity()), "handle %s is alive again", hs(p.get_entity()).c_str());
}
// reserving in several rounds, synchronised in between, and again from new threads
static void reserve_rounds(int rounds) {
    registry r;
    entity src = r.create<A>(A(77));
    std::set<entity> all{ src };
    std::vector<entity> dead;
    for (int n = 0; n < rounds; ++n) {
        std::vector<placeholder_entity> a, b;
        a.reserve(4), b.reserve(4);
        std::thread t([&] { a.push_back(r.reserve()); });
        b.push_back(r.reserve());
        b.push_back(r.reserve());
        t.join();
        r.sync();
        b.push_back(a[0]);
        for (auto p : b) {
            MCHECK(all.insert(p.get_entity()).second, "handle %s was issued before", hs(p.get_entity()).c_str());
            MCHECK(r.alive(p.get_entity()), "reserved handle %s is not alive after the synchronisation", hs(p.get_entity()).c_str());
            r.get_entity(src).clone(p);
        }
        for (entity e : dead) MCHECK(!r.alive(e), "handle %s is alive again", hs(e).c_str());
        r.destroy(b[mcapi::choose(2)].get_entity());
        r.destroy(b[2].get_entity());
        dead.push_back(b[2].get_entity());
    }
    int n = 0;
    r.each([&](const A& a) { MCHECK(a.v == 77, "wrong value"); ++n; });
    MCHECK(n == rounds + 1, "%d entities are left, expected %d", n, rounds + 1);
    mcapi::outcome(uint64_t(n));
}

// ---- C11 ------------------------------------------------------------------------------------------------------
// one thread's recording and what it must lead to
struct Script {
    const char* ops;
};
struct Expect {
    int marks = 0;   // entities {Mark} with by = thread
    int clones = 0;  // copies of the thread's own entity
    int a = -1;      // final A of the thread's own entity (-1: has none), -2: entity is gone
};
// m: create {Mark}; s: set A; r: remove A; c: clone own entity (counts as one more A holder); d: destroy own entity; n: create, set, destroy again
static void run_script(const char* ops, int who, registry& r, entity own, Expect& x, int& seq) {
    command_writer w(r);
    for (const char* p = ops; *p; ++p) {
        int n = seq++;
        switch (*p) {
        case 'm':
            w.create<Mark>(Mark{ who, n });
            x.marks++;
            break;
        case 's':
            w.get_entity(own).set<A>(n);
            x.a = n;
            break;
        case 'r':
            w.get_entity(own).remove<A>();
            x.a = -1;
            break;
        case 'd':
            w.get_entity(own).destroy();
            x.a = -2;
            break;
        case 'c': {
            auto e = w.get_entity(own).clone();
            e.remove<A>();
            x.clones++;
            break;
        }
        case 'x': // destroys an entity a second time: fails
            w.destroy(own);
            w.destroy(own);
            x.a = -2;
            break;
        case 'n': {
            auto e = w.create<Mark>(Mark{ 99, n });
            e.set<B>(n);
            e.destroy();
            break;
        }
        case 'M': { // create and modify through the handle
            auto e = w.create<>();
            e.set<Mark>(Mark{ 98, n });
            e.set<Mark>(Mark{ who, n });
            x.marks++;
            break;
        }
        }
    }
}
static void verify_scripts(registry& r, const std::vector<entity>& own, const std::vector<Expect>& x, const char* when) {
    std::vector<int> marks(own.size());
    int total = 0;
    std::vector<int> lastseq(own.size(), -1);
    std::set<std::pair<int, int>> seen;
    r.each([&](const Mark& m) {
        MCHECK(m.by >= 0 && m.by < int(own.size()), "%s: an entity with value %d,%d exists that no thread's commands lead to", when, m.by, m.seq);
        MCHECK(seen.insert({ m.by, m.seq }).second, "%s: create command %d of thread %d was applied twice", when, m.seq, m.by);
        marks[size_t(m.by)]++;
        ++total;
    });
    int live = 0;
    std::vector<int> bs(own.size());
    r.each([&](const B& b) {
        MCHECK(b.v >= 0 && b.v < int(own.size()), "%s: an entity with B %d exists that no thread's commands lead to", when, b.v);
        bs[size_t(b.v)]++;
        ++live;
    });
    for (size_t k = 0; k < own.size(); ++k) {
        MCHECK(marks[k] == x[k].marks, "%s: %d create commands of thread %zu took effect, expected %d", when, marks[k], k, x[k].marks);
        bool al = r.alive(own[k]);
        MCHECK(al == (x[k].a != -2), "%s: the entity of thread %zu is %s", when, k, al ? "still alive" : "gone");
        MCHECK(bs[k] == x[k].clones + al, "%s: %d copies of the entity of thread %zu exist, expected %d", when, bs[k] - al, k, x[k].clones);
        if (!al) continue;
        auto e = r.get_entity(own[k]);
        MCHECK(e.has<A>() == (x[k].a >= 0), "%s: the entity of thread %zu %s A", when, k, e.has<A>() ? "has" : "has no");
        if (x[k].a >= 0) MCHECK(e.get<A>().v == x[k].a, "%s: thread %zu set A last to %d, it is %d", when, k, x[k].a, e.get<A>().v);
    }
    MCHECK(int(r.size()) == live + total, "%s: %zu entities, expected %d", when, r.size(), live + total);
}
struct Cmds {
    registry r;
    std::vector<entity> own;
    std::vector<Expect> x;
    std::vector<int> seq;
    explicit Cmds(size_t n) : x(n), seq(n, 1) {
        for (size_t i = 0; i < n; ++i) own.push_back(r.create<B>(B(int(i))));
    }
    void run(size_t k, const char* ops) { run_script(ops, int(k), r, own[k], x[k], seq[k]); }
    void flush(const char* when) {
        command_buffer::flush(r);
        verify_scripts(r, own, x, when);
    }
    void done() {
        uint64_t h = 9;
        r.each([&](const entity& e, const Mark& m) { h = h * 31 + e.id() * 7 + uint64_t(m.by); });
        mcapi::outcome(h);
    }
};
static const char* pick(std::vector<const char*> v) { return v[mcapi::choose(unsigned(v.size()))]; }

// threads record and end; then the main thread, which has recorded as well, flushes, twice
static void record_exit(int n, std::vector<const char*> alphabet, bool main_records) {
    Cmds c(size_t(n) + 1);
    std::vector<const char*> s;
    for (int k = 0; k < n; ++k) s.push_back(pick(alphabet));
    std::vector<std::thread> th;
    for (int k = 0; k < n; ++k) th.emplace_back([&, k] { c.run(size_t(k), s[size_t(k)]); });
    if (main_records) c.run(size_t(n), "ms");
    for (auto& t : th) t.join();
    c.flush("first flush");
    c.flush("second flush");
    c.done();
}
// the threads stay alive over the first flush and record again
static void record_alive(int n, std::vector<const char*> alphabet, bool flush_elsewhere) {
    Cmds c(size_t(n) + 1);
    std::vector<const char*> s;
    for (int k = 0; k < n; ++k) s.push_back(pick(alphabet));
    std::counting_semaphore<> recorded{ 0 }, go{ 0 };
    std::vector<std::thread> th;
    for (int k = 0; k < n; ++k)
        th.emplace_back([&, k] {
            c.run(size_t(k), s[size_t(k)]);
            recorded.release();
            go.acquire();
            c.run(size_t(k), k % 2 ? "m" : "ms");
        });
    for (int k = 0; k < n; ++k) recorded.acquire();
    if (flush_elsewhere) {
        std::thread f([&] { c.flush("first flush"); });
        f.join();
    } else c.flush("first flush");
    for (int k = 0; k < n; ++k) go.release();
    for (auto& t : th) t.join();
    c.flush("second flush");
    c.flush("third flush");
    c.done();
}
// a command of one thread fails: its error is reported, and the commands of all threads are applied all the same, exactly once
static void record_failing(int n, bool exits) {
    Cmds c(size_t(n) + 1);
    static const char* const scripts[] = { "mxm", "smcx", "cms" };
    std::vector<int> s;
    for (int k = 0; k < n; ++k) s.push_back(int(mcapi::choose(3)));
    std::counting_semaphore<> recorded{ 0 }, go{ 0 };
    std::vector<std::thread> th;
    for (int k = 0; k < n; ++k)
        th.emplace_back([&, k] {
            c.run(size_t(k), scripts[s[size_t(k)]]);
            recorded.release();
            if (!exits) go.acquire();
        });
    for (int k = 0; k < n; ++k) recorded.acquire();
    if (exits)
        for (auto& t : th) t.join();
    int failing = 0, failed = 0;
    for (int k : s) failing += k < 2;
    for (int f = 0; f < n + 2; ++f) {
        try {
            command_buffer::flush(c.r);
        } catch (const entity_not_found&) {
            failed++;
        }
    }
    MCHECK(failed == failing, "%d flushes reported an error, %d commands fail", failed, failing);
    c.flush("after the flushes");
    if (!exits) {
        for (int k = 0; k < n; ++k) go.release();
        for (auto& t : th) t.join();
        c.flush("after the threads have ended");
    }
    c.done();
}
// a thread that has recorded ends while another one begins to record
static void handover(int gens, bool flush_between) {
    Cmds c(size_t(gens) + 1);
    std::vector<std::thread> th;
    for (int g = 0; g < gens; ++g) {
        th.emplace_back([&, g] { c.run(size_t(g), g % 2 ? "sm" : "ms"); });
        if (flush_between && g + 1 < gens) {
            th.back().join();
            c.flush("flush between");
        }
    }
    c.run(size_t(gens), "m");
    for (auto& t : th)
        if (t.joinable()) t.join();
    c.flush("flush");
    c.done();
}
// threads that have nothing pending begin and end while a flush runs
static void end_during_flush(int n) {
    Cmds c(size_t(n) + 1);
    c.run(size_t(n), "mms");
    std::vector<std::thread> th;
    std::counting_semaphore<> recorded{ 0 }, flushed{ 0 };
    // half of them have been used before
    for (int k = 0; k < n; ++k)
        th.emplace_back([&, k] {
            if (k % 2 == 0) {
                command_writer w(c.r); // registers this thread's buffer, records nothing
                (void)w;
            } else {
                c.run(size_t(k), "m");
                recorded.release();
                flushed.acquire();
            }
        });
    for (int k = 0; k < n; ++k)
        if (k % 2) recorded.acquire();
    c.flush("flush while threads begin and end");
    for (int k = 0; k < n; ++k)
        if (k % 2) flushed.release();
    c.flush("flush while threads end");
    for (auto& t : th) t.join();
    c.flush("last flush");
    c.done();
}
// inside pool tasks
static void record_in_pool(unsigned workers, int tasks) {
    Cmds c(size_t(tasks) + 1);
    {
        thread_pool p(workers);
        std::vector<task_t*> t;
        task_t* root = p.submit([&] { c.run(0, "ms"); });
        for (int k = 1; k < tasks; ++k) p.submit([&, k] { c.run(size_t(k), "sm"); }, root);
        p.wait(root);
        c.flush("flush after the tasks");
        task_t* again = p.submit([&] { c.run(size_t(tasks), "msr"); });
        p.wait(again);
    }
    c.flush("flush after the pool is gone");
    c.flush("another flush");
    c.done();
}

// ---- C22 ------------------------------------------------------------------------------------------------------
struct Shared {
    registry r;
    std::vector<entity> es;
    int n;
    explicit Shared(int n) : n(n) {
        for (int i = 0; i < n; ++i) {
            if (i % 3 == 0) es.push_back(r.create<A, B>(A(i), B(10 * i)));
            else if (i % 3 == 1) es.push_back(r.create<B, Big, A>(B(10 * i), Big(i), A(i)));
            else es.push_back(r.create<A>(A(i)));
        }
    }
};
// what one thread does; everything it sees must be as if it was alone
static void reader(Shared& s, int kind) {
    const registry& cr = s.r;
    int sum = 0, cnt = 0, want = 0;
    switch (kind) {
    case 0:
        cr.view<const A&>().each([&](const A& a) { sum += a.v, ++cnt; });
        MCHECK(cnt == s.n && sum == s.n * (s.n - 1) / 2, "a reading thread sees %d entities with sum %d", cnt, sum);
        break;
    case 1:
        for (auto [e, a] : cr.view<const entity&, const A&>().each()) {
            MCHECK(s.es[size_t(a.v)] == e, "a reading thread sees a wrong handle");
            ++cnt;
        }
        MCHECK(cnt == s.n, "a reading thread sees %d entities", cnt);
        break;
    case 2:
        for (int i = 0; i < s.n; ++i) {
            auto e = cr.get_entity(s.es[size_t(i)]);
            MCHECK(e.alive() && e.has<A>() && e.get<A>().v == i, "a reading thread reads a wrong value");
            MCHECK(e.has<B>() == (i % 3 != 2), "a reading thread sees a wrong membership");
            int k = 0;
            e.visit([&](const component_meta&, const void*) { ++k; });
            MCHECK(k == (i % 3 == 0 ? 2 : i % 3 == 1 ? 3 : 1), "a reading thread visits %d components", k);
        }
        break;
    case 3: {
        auto o = cr.single<const Big&>();
        MCHECK(o.has_value() == (s.n > 1) && (s.n <= 1 || std::get<0>(*o).v % 3 == 1), "a reading thread does not find the first match");
        for (auto chunk : cr.view<const Big&, const B&>().chunks())
            for (auto [b, x] : chunk) {
                MCHECK(x.v == 10 * b.v, "a reading thread sees components of different entities together");
                ++cnt;
            }
        for (int i = 0; i < s.n; ++i) want += i % 3 == 1;
        MCHECK(cnt == want, "a reading thread sees %d entities, expected %d", cnt, want);
        break;
    }
    case 4:
        cr.each([&](const A& a, const B& b) {
            MCHECK(b.v == 10 * a.v, "a reading thread sees components of different entities together");
            ++cnt;
        });
        for (int i = 0; i < s.n; ++i) want += i % 3 != 2;
        MCHECK(cnt == want, "a reading thread sees %d entities, expected %d", cnt, want);
        break;
    default:
        for (int i = 0; i < s.n; ++i) {
            auto e = cr.get_entity_const(s.es[size_t(i)]);
            if (i % 3 == 1) {
                auto [a, b] = e.get<A, Big>();
                MCHECK(a.v == i && b.v == i, "a reading thread reads wrong values");
            }
            bool none = false;
            try {
                if (i % 3 == 2) (void)e.get<B>();
            } catch (const component_not_found&) {
                none = true;
            }
            MCHECK(none == (i % 3 == 2), "a reading thread finds a component that is not there");
        }
        MCHECK(int(cr.size()) == s.n, "a reading thread sees %zu entities", cr.size());
    }
}
static void readers(int threads, int n, bool main_too) {
    Shared s(n);
    std::vector<int> k;
    for (int i = 0; i < threads + main_too; ++i) k.push_back(int(mcapi::choose(6)));
    std::vector<std::thread> th;
    for (int i = 0; i < threads; ++i) th.emplace_back([&, i] { reader(s, k[size_t(i)]); });
    if (main_too) reader(s, k.back());
    for (auto& t : th) t.join();
    mcapi::outcome(1);
}
// each thread writes one component type, or its own entities, in one of several ways
static void writers(int n, int wa, int wb) {
    Shared s(n);
    auto touch = [&](int how, auto tag) {
        using T = decltype(tag);
        switch (how) {
        case 0: s.r.view<T&>().each([](T& x) { x.v += 1000; }); break;
        case 1:
            for (auto [x] : s.r.view<T&>().each()) x.v += 1000;
            break;
        case 2: s.r.each([](T& x) { x.v += 1000; }); break;
        case 3:
            for (auto chunk : s.r.view<T&, const entity&>().chunks())
                for (auto [x, e] : chunk) x.v += 1000;
            break;
        default:
            for (auto e : s.es)
                if (s.r.get_entity(e).has<T>()) s.r.get_entity(e).get<T>().v += 1000;
        }
    };
    std::thread t1([&] { touch(wa, A{}); });
    std::thread t2([&] { touch(wb, B{}); });
    if (mcapi::choose(2)) { // Big is not written by anybody
        int k = 0;
        std::as_const(s.r).view<const Big&, const entity&>().each([&](const Big& b, const entity& e) {
            MCHECK(s.es[size_t(b.v)] == e, "a reading thread sees a wrong handle");
            ++k;
        });
    }
    t1.join();
    t2.join();
    for (int i = 0; i < n; ++i) {
        auto e = s.r.get_entity(s.es[size_t(i)]);
        MCHECK(e.get<A>().v == i + 1000, "a write of A is lost");
        if (i % 3 != 2) MCHECK(e.get<B>().v == 10 * i + 1000, "a write of B is lost");
    }
    mcapi::outcome(2);
}
// threads that use different registries have nothing to do with each other: each sees what it would see alone
struct Late { // a type that no thread has used before
    int v = 0;
    int w = 0;
    Late() = default;
    explicit Late(int v) : v(v), w(-v) {}
};
static uint64_t own_registry(int kind) {
    uint64_t h = 99;
    auto add = [&](uint64_t x) { h = h * 1000003 + x; };
    registry r, q;
    std::vector<entity> es;
    auto show = [&](registry& g) {
        add(g.size());
        g.view<const entity&, const A&>().each([&](const entity& e, const A& a) { add(e.id() * 64 + e.generation()), add(uint64_t(a.v)); });
        std::as_const(g).view<const B&>().each([&](const B& b) { add(uint64_t(b.v) * 3); });
        for (auto [b] : g.view<Big&>().each()) add(uint64_t(b.v) * 5);
        g.each([&](const Late& l) { add(uint64_t(l.v - l.w)); });
        for (entity e : es)
            if (g.alive(e)) g.get_entity(e).visit([&](const component_meta& m, const void*) { add(m.id); });
    };
    auto expect_error = [&](auto&& f) {
        try {
            f();
        } catch (const entity_not_found&) {
            return add(1);
        } catch (const component_not_found&) {
            return add(2);
        } catch (const std::exception&) {
            return add(3);
        }
        add(4);
    };
    switch (kind) {
    case 0: // several component sets, one after the other
        for (int i = 0; i < 3; ++i) {
            auto e = r.create<A>(A(i));
            es.push_back(e);
            e.set<B>(10 * i);
            if (i) e.set<Late>(i);
            if (i == 2) e.remove<A>();
        }
        es.push_back(r.create<Late, B>(Late(7), B(8)));
        break;
    case 1: // removal and reuse
        for (int i = 0; i < 4; ++i) es.push_back(r.create<Big, A>(Big(i), A(i)));
        r.get_entity(es[1]).destroy();
        r.get_entity(es[3]).destroy();
        es.push_back(r.create<A>(A(9)));
        expect_error([&] { (void)r.get_entity(es[1]).get<A>(); });
        expect_error([&] { (void)r.get_entity(es[0]).get<Late>(); });
        break;
    case 2: // between two registries of this thread
        es.push_back(r.create<A, Late>(A(1), Late(2)));
        es.push_back(r.create<B>(B(3)));
        es.push_back(r.get_entity(es[0]).clone());
        es.push_back(r.get_entity(es[0]).copy(q));
        es.push_back(r.get_entity(es[1]).move(q));
        break;
    case 3: { // reserved handles
        std::vector<placeholder_entity> ph;
        for (int i = 0; i < 3; ++i) ph.push_back(r.reserve());
        r.sync();
        entity o = q.create<A, Big>(A(5), Big(6));
        es.push_back(q.get_entity(o).copy(r, ph[1]));
        es.push_back(q.get_entity(o).move(r, ph[0]));
        es.push_back(r.get_entity(es[0]).clone(ph[2]));
        r.destroy(es[2]);
        add(r.reserve().get_entity().id());
        break;
    }
    default: // reads through every way of looking
        for (int i = 0; i < 3; ++i) es.push_back(r.create<A, B, Big>(A(i), B(i), Big(i)));
        for (entity e : es) {
            add(r.get_entity(e).has<A>() + 2 * r.get_entity(e).has<Late>());
            auto [a, b] = r.get_entity(e).get<A, B>();
            a.v += b.v + 1;
            (void)r.get_entity(e).get_or_insert<Late>(a.v);
        }
        if (auto x = r.single<const A&, const Late&>()) add(uint64_t(std::get<0>(*x).v));
        for (auto chunk : r.view<const A&, const entity&>().chunks())
            for (auto [a, e] : chunk) add(uint64_t(a.v) + e.id());
    }
    show(r);
    show(q);
    return h;
}
static void registries(int threads) {
    std::vector<int> k;
    for (int i = 0; i <= threads; ++i) k.push_back(int(mcapi::choose(5)));
    std::vector<uint64_t> got(size_t(threads) + 1);
    std::vector<std::thread> th;
    for (int i = 0; i < threads; ++i) th.emplace_back([&, i] { got[size_t(i)] = own_registry(k[size_t(i)]); });
    got.back() = own_registry(k.back());
    for (auto& t : th) t.join();
    for (int i = 0; i <= threads; ++i) MCHECK(got[size_t(i)] == own_registry(k[size_t(i)]), "a thread working on its own registry (script %d) does not see what it sees alone", k[size_t(i)]);
    mcapi::outcome(4);
}
// the same component type of different entities
static void disjoint_entities(int n, int threads, int how) {
    Shared s(n);
    std::vector<std::thread> th;
    auto work = [&](int k) {
        if (how == 0) {
            for (int i = k; i < n; i += threads + 1) s.r.get_entity(s.es[size_t(i)]).get<A>().v += 1000;
        } else if (how == 1) {
            int c = 0;
            for (auto chunk : s.r.view<A&>().chunks())
                if (c++ % (threads + 1) == k)
                    for (auto [a] : chunk) a.v += 1000;
        } else {
            int c = 0;
            for (auto [a] : s.r.view<A&>().each())
                if (c++ % (threads + 1) == k) a.v += 1000;
        }
    };
    for (int k = 0; k < threads; ++k) th.emplace_back([&, k] { work(k); });
    work(threads);
    for (auto& t : th) t.join();
    for (int i = 0; i < n; ++i) MCHECK(s.r.get_entity(s.es[size_t(i)]).get<A>().v == i + 1000, "a write to entity %d is lost or happened twice", i);
    mcapi::outcome(3);
}
// several parallel iterations and readers of other types together
static void par_and_read(unsigned workers, int n) {
    Shared s(n);
    thread_pool p(workers);
    task_t* t = p.submit([&] { s.r.view<A&>().par_each([](A& a) { a.v += 1000; }); });
    task_t* u = p.submit([&] { std::as_const(s.r).view<const B&>().par_each([](const B& b) { MCHECK(b.v % 10 == 0, "wrong value"); }); }, t);
    (void)u;
    p.wait(t);
    for (int i = 0; i < n; ++i) MCHECK(s.r.get_entity(s.es[size_t(i)]).get<A>().v == i + 1000, "a write to entity %d is lost or happened twice", i);
    mcapi::outcome(4);
}

// ---- C15 ------------------------------------------------------------------------------------------------------
static void par_each(unsigned workers, int maxn, int step) {
    int n = int(mcapi::choose(unsigned(maxn / step) + 1)) * step;
    registry r;
    std::vector<entity> es;
    for (int i = 0; i < n; ++i) {
        if (i % 5 == 4) es.push_back(r.create<A, Big>(A(i), Big(i)));
        else es.push_back(r.create<Big>(Big(i)));
    }
    entity out = r.create<A>(A(9));
    thread_pool p(workers);
    int how = int(mcapi::choose(2));
    if (how == 0) r.view<Big&>().par_each([](Big& b) { b.v += 1000; });
    else {
        std::vector<int> hits(static_cast<size_t>(n));
        std::as_const(r).view<const Big&, const entity&>().par_each([&](const Big& b, const entity& e) {
            MCHECK(b.v >= 0 && b.v < n && es[size_t(b.v)] == e, "the function got something that is not an element");
            hits[size_t(b.v)]++;
        });
        for (int i = 0; i < n; ++i) MCHECK(hits[size_t(i)] == 1, "the function was applied %d times to element %d of %d", hits[size_t(i)], i, n);
    }
    for (int i = 0; i < n; ++i) MCHECK(r.get_entity(es[size_t(i)]).get<Big>().v == (how ? i : i + 1000), "the function was not applied exactly once to element %d of %d", i, n);
    MCHECK(r.get_entity(out).get<A>().v == 9, "an entity outside of the view changed");
    mcapi::outcome(uint64_t(n) + 1);
}

static void par_each_large() {
    static const unsigned ws[] = { 1, 3, 8 };
    static const int ns[] = { 5000, 70000 };
    unsigned workers = ws[mcapi::choose(3)];
    int n = ns[mcapi::choose(2)];
    registry r;
    {
        mcapi::Quiet q;
        for (int i = 0; i < n; ++i) {
            if (i % 3 == 0) r.create<B>(B(i));
            else if (i % 3 == 1) r.create<A, B>(A(i), B(i));
            else r.create<A>(A(i));
        }
    }
    {
        thread_pool p(workers);
        r.view<B&>().par_each([](B& b) { b.v += 1000000; });
    }
    mcapi::Quiet q;
    int seen = 0;
    for (auto [b] : r.view<const B&>().each()) seen += b.v >= 1000000 && b.v < 1000000 + n && b.v % 3 != (1000000 + 2) % 3;
    MCHECK(seen == (n + 2) / 3 + (n + 1) / 3, "the function was applied exactly once to %d of %d elements", seen, (n + 2) / 3 + (n + 1) / 3);
    mcapi::outcome(uint64_t(n) * 16 + workers);
}

int main(int argc, char** argv) {
    using Bs = std::vector<mcapi::Bound>;
    auto add = [](const char* n, std::function<void()> f, Bs q, Bs t) { mcapi::add(n, f, q, t, 30, 900); };
    Bs d0{ { 0, 0, 0, 0 } }, d1{ { 1, 1, 1, 1 } }, d2{ { 2, 2, 2, 1 } }, d3{ { 3, 3, 3, 1 } }, d4{ { 4, 4, 4, 1 } }, d6{ { 6, 6, 6, 1 } }, all{ { -1, 0, 0, 0 } };
    add("C09.two-threads", [] { reserve({ 1, 1 }, 0, 2); }, d6, all);
    add("C09.two-threads-2", [] { reserve({ 2, 2 }, 0, 3); }, d4, d6);
    add("C09.three-threads", [] { reserve({ 1, 1, 1 }, 0, 3); }, d3, d6);
    add("C09.main-too", [] { reserve({ 2, 1 }, 2, 3); }, d3, d6);
    add("C09.three-threads-uneven", [] { reserve({ 3, 1, 2 }, 0, 4); }, d2, d4);
    add("C09.rounds", [] { reserve_rounds(3); }, d3, d6);

    std::vector<const char*> sm{ "m", "ms", "rs" }, many{ "m", "s", "sr", "d", "n", "M", "ssm", "smd", "cs", "scd" }, lasting{ "m", "s", "sr", "n", "M", "ssm", "cs" };
    add("C11.exit-1", [=] { record_exit(1, many, true); }, d4, d6);
    add("C11.exit-2", [=] { record_exit(2, sm, true); }, d3, d4);
    add("C11.exit-2-many", [=] { record_exit(2, many, false); }, d2, d3);
    add("C11.exit-3", [=] { record_exit(3, sm, false); }, d2, d3);
    add("C11.alive-1", [=] { record_alive(1, lasting, false); }, d4, d6);
    add("C11.alive-2", [=] { record_alive(2, sm, false); }, d2, d4);
    add("C11.alive-2-elsewhere", [=] { record_alive(2, sm, true); }, d2, d3);
    add("C11.alive-3", [=] { record_alive(3, { "m", "s" }, false); }, d1, d3);
    add("C11.handover-2", [] { handover(2, false); }, d3, d6);
    add("C11.handover-3", [] { handover(3, false); }, d2, d4);
    add("C11.handover-flush", [] { handover(3, true); }, d3, d6);
    add("C11.end-during-flush-1", [] { end_during_flush(1); }, d4, d6);
    add("C11.end-during-flush-2", [] { end_during_flush(2); }, d3, d4);
    add("C11.end-during-flush-3", [] { end_during_flush(3); }, d2, d3);
    add("C11.failing-2", [] { record_failing(2, false); }, d2, d4);
    add("C11.failing-exit-2", [] { record_failing(2, true); }, d2, d4);
    add("C11.pool-w2", [] { record_in_pool(2, 2); }, d2, d3);
    add("C11.pool-w3", [] { record_in_pool(3, 3); }, d1, d2);

    add("C22.readers-2", [] { readers(1, 7, true); }, d4, d6);
    add("C22.readers-3", [] { readers(2, 7, true); }, d2, d3);
    add("C22.readers-4", [] { readers(4, 5, false); }, d0, d1);
    add("C22.writers", [] { writers(7, int(mcapi::choose(5)), int(mcapi::choose(5))); }, d3, d6);
    add("C22.entities-2", [] { disjoint_entities(7, 1, int(mcapi::choose(3))); }, d4, d6);
    add("C22.entities-3", [] { disjoint_entities(10, 2, int(mcapi::choose(3))); }, d3, d4);
    add("C22.registries-2", [] { registries(1); }, d2, d4);
    add("C22.registries-3", [] { registries(2); }, d1, d2);
    add("C22.parallel-w2", [] { par_and_read(2, 10); }, d1, d2);
    add("C22.parallel-w3", [] { par_and_read(3, 16); }, d1, d2);

    add("C15.view-large", [] { par_each_large(); }, d0, d0);
    add("C15.view-w1", [] { par_each(1, 12, 1); }, d0, d2);
    add("C15.view-w2", [] { par_each(2, 12, 1); }, d1, d2);
    add("C15.view-w3", [] { par_each(3, 24, 4); }, d1, d1);
    return mcapi::main(argc, argv);
}
