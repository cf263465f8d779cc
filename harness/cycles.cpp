// C24: every cycle of operations that ends where it began, repeated: memory and identifiers in use do not grow.
#include "../lib/explore.hpp"
#include <array>
#include <cassert>
#include <co_ecs/co_ecs.hpp>
#include <co_ecs/command.hpp>
#include <co_ecs/detail/dynamic_bitset.hpp>
#include <co_ecs/detail/hash_map.hpp>
#include <co_ecs/detail/sparse_map.hpp>
#include <co_ecs/detail/work_stealing_queue.hpp>
#include <co_ecs/system/schedule.hpp>
#include <memory>
#include <semaphore>
#include <thread>
#include <set>
#include <stdexcept>

extern "C" size_t __sanitizer_get_current_allocated_bytes();

using namespace co_ecs;

namespace {

void add(std::string name, std::function<void()> f, double cq = 90) {
    mc::Suite s;
    s.name = std::move(name);
    s.body = std::move(f);
    s.quick_cap = cq;
    s.thorough_cap = 1200;
    mc::suites().push_back(s);
}

// A cycle is done REPEAT times. What is in use after each repetition may vary in the first WARM repetitions and stay
// within their maximum from then on (buffers that are used as rings take up varying amounts).
constexpr int WARM = 24, REPEAT = 120;
struct Gauge {
    int n = 0;
    size_t mem = 0;
    uint64_t ids = 0;
    void after(uint64_t id_bound = 0) {
        size_t now = __sanitizer_get_current_allocated_bytes();
        if (n < WARM) {
            mem = std::max(mem, now);
            if (n < 4) ids = std::max(ids, id_bound);
        } else {
            MC_CHECK(now <= mem, "memory in use grows with the number of repetitions: %zu bytes after %d repetitions, at most %zu in the first %d", now, n + 1, mem, WARM);
        }
        MC_CHECK(n < 4 || id_bound <= ids, "identifiers are not used again: up to %llu after %d repetitions, up to %llu in the first 4", (unsigned long long)id_bound, n + 1, (unsigned long long)ids);
        ++n;
    }
};

struct A {
    int v;
};
struct T {
    std::unique_ptr<std::array<int, 12>> p; // owns memory
    T(int x) : p(new std::array<int, 12>{ x }) {
    }
    T(const T& o) : p(new std::array<int, 12>(*o.p)) {
    }
    T(T&&) = default;
    T& operator=(T&&) = default;
    T& operator=(const T& o) {
        return *this = T(o);
    }
};
struct Big {
    Big(int x) : v(x) {
    }
    int v;
    char fill[6000]; // two in a block
};
struct Tag {};
struct NC { // cannot be copied
    std::unique_ptr<int> p;
};
struct Thrower {
    Thrower(int x) : p(new int(x)) {
        if (x < 0) throw std::runtime_error("no");
    }
    Thrower(Thrower&&) = default;
    Thrower& operator=(Thrower&&) = default;
    std::unique_ptr<int> p;
};

enum Op {
    CREATE_A, CREATE_T, CREATE_BIG, CREATE_EMPTY, CREATE_PLACED, // entities
    SET_T, SET_TAG, SET_BIG, SET_AGAIN, INSERT, REMOVE_A, REMOVE_T, REMOVE_BIG, DESTROY, CLONE, CLONE_PLACED, COPY, MOVE, VIEWS,
    CMD_CREATE, CMD_SET, CMD_SET2, CMD_REMOVE, CMD_DESTROY, CMD_CLONE, // recorded and executed
    BAD_DESTROY, BAD_SET, BAD_THROW, BAD_CLONE, BAD_CMD_DESTROY, BAD_CMD_SET, BAD_CMD_CREATE, // operations that fail
    OPS
};
const char* const op_names[] = { "create {A}", "create {A,T}", "create {Big,A}", "create {}", "create {A,T} on a reserved handle", "set T", "set Tag", "set Big", "set T twice", "get_or_insert T",
    "remove A", "remove T", "remove Big", "destroy", "clone", "clone onto a reserved handle", "copy to the other registry", "move to the other registry", "views",
    "command: create {A,T}", "command: set T", "command: set A, set T, remove A", "command: remove T", "command: destroy", "command: clone",
    "destroy of a dead entity", "set on a dead entity", "set with a throwing constructor", "clone of what cannot be copied", "command: destroy of a dead entity", "command: set on a dead entity", "command: create by a throwing constructor" };

struct World {
    registry reg[2];
    struct Ent {
        int r;
        entity e;
    };
    std::vector<Ent> ents;
    entity dead{};
    uint64_t ids = 0;
    int next = 0;
    void made(int r, entity e) {
        ents.push_back({ r, e });
        seen(e);
    }
    void seen(entity e) {
        ids = std::max(ids, uint64_t(e.id()));
    }
    void gone(size_t i) {
        ents.erase(ents.begin() + long(i));
    }
};

template<class F>
void fails(F&& f, const char* what) {
    bool ok = false;
    try {
        f();
    } catch (const std::exception&) {
        ok = true;
    }
    MC_CHECK(ok, "%s did not fail", what);
}

bool possible(const World& w, Op o, size_t target) {
    switch (o) {
    case CREATE_A: case CREATE_T: case CREATE_BIG: case CREATE_EMPTY: case CREATE_PLACED: case CMD_CREATE: case BAD_CLONE:
    case BAD_DESTROY: case BAD_SET: case BAD_CMD_DESTROY: case BAD_CMD_SET: case BAD_CMD_CREATE: case VIEWS: return target == 0;
    default: return target < w.ents.size();
    }
}

void apply(World& w, Op o, size_t i) {
    int v = ++w.next & 1023;
    auto& home = w.reg[0];
    auto with = [&](auto&& f) {
        auto [r, e] = w.ents[i];
        f(r, w.reg[r], w.reg[r].get_entity(e));
    };
    auto flush = [&](registry& r) { command_buffer::flush(r); };
    switch (o) {
    case CREATE_A: w.made(0, home.create<A>({ v })); break;
    case CREATE_T: w.made(0, home.create<A, T>({ v }, T(v))); break;
    case CREATE_BIG: w.made(0, home.create<Big, A>(Big(v), { v })); break;
    case CREATE_EMPTY: w.made(0, home.create<>()); break;
    case CREATE_PLACED: {
        // a component set that is put together in the other registry arrives on the handle reserved here
        auto p = home.reserve();
        home.sync();
        auto s = w.reg[1].create<A, T>({ v }, T(v));
        w.made(0, w.reg[1].get_entity(s).move(home, p));
        break;
    }
    case SET_T: with([&](int, auto&, auto e) { e.template set<T>(v); }); break;
    case SET_TAG: with([&](int, auto&, auto e) { e.template set<Tag>(); }); break;
    case SET_BIG: with([&](int, auto&, auto e) { e.template set<Big>(v); }); break;
    case SET_AGAIN: with([&](int, auto&, auto e) { e.template set<T>(v).template set<T>(v + 1); }); break;
    case INSERT: with([&](int, auto&, auto e) { e.template get_or_insert<T>(v); }); break;
    case REMOVE_A: with([&](int, auto&, auto e) { e.template remove<A>(); }); break;
    case REMOVE_T: with([&](int, auto&, auto e) { e.template remove<T>(); }); break;
    case REMOVE_BIG: with([&](int, auto&, auto e) { e.template remove<Big>(); }); break;
    case DESTROY:
        with([&](int, auto&, auto e) { e.destroy(); });
        w.gone(i);
        break;
    case CLONE: with([&](int r, auto&, auto e) { w.made(r, e.clone()); }); break;
    case CLONE_PLACED:
        with([&](int r, auto& reg, auto e) {
            auto p = reg.reserve();
            reg.sync();
            w.made(r, e.clone(p));
        });
        break;
    case COPY: with([&](int r, auto&, auto e) { w.made(1 - r, e.copy(w.reg[1 - r])); }); break;
    case MOVE:
        with([&](int r, auto&, auto e) { w.ents[i] = { 1 - r, e.move(w.reg[1 - r]) }; });
        w.seen(w.ents[i].e);
        break;
    case VIEWS: {
        int n = 0;
        for (auto& r : w.reg) {
            r.view<A&>().each([&](A& a) { n += a.v; });
            r.view<const T&, const entity&>().each([&](const T& t, const entity&) { n += (*t.p)[0]; });
            for (auto [b] : std::as_const(r).view<const Big&>().each()) n += b.v;
            auto s = r.view<const A&>().single();
            n += s.has_value();
        }
        w.next += n == 42;
        break;
    }
    case CMD_CREATE: {
        auto e = entity(command_writer(home).create<A, T>({ v }, T(v)));
        flush(home);
        w.made(0, e);
        break;
    }
    case CMD_SET:
        with([&](int, auto& r, auto e) {
            command_writer(r).get_entity(e).template set<T>(v);
            flush(r);
        });
        break;
    case CMD_SET2:
        with([&](int, auto& r, auto e) {
            command_writer(r).get_entity(e).template set<A>(v).template set<T>(v).template remove<A>();
            flush(r);
        });
        break;
    case CMD_REMOVE:
        with([&](int, auto& r, auto e) {
            command_writer(r).get_entity(e).template remove<T>();
            flush(r);
        });
        break;
    case CMD_DESTROY:
        with([&](int, auto& r, auto e) {
            command_writer(r).destroy(e);
            flush(r);
        });
        w.gone(i);
        break;
    case CMD_CLONE:
        with([&](int rn, auto& r, auto e) {
            auto c = entity(command_writer(r).get_entity(e).clone());
            flush(r);
            w.made(rn, c);
        });
        break;
    case BAD_DESTROY: fails([&] { home.destroy(w.dead); }, "destroy"); break;
    case BAD_SET: fails([&] { home.get_entity(w.dead).set<T>(v); }, "set"); break;
    case BAD_THROW: with([&](int, auto&, auto e) { fails([&] { e.template set<Thrower>(-1); }, "set"); }); break;
    case BAD_CLONE: {
        auto e = home.create<NC, T>({ std::make_unique<int>(v) }, T(v));
        w.seen(e);
        fails([&] { home.get_entity(e).clone(); }, "clone");
        home.destroy(e);
        break;
    }
    case BAD_CMD_DESTROY:
        command_writer(home).destroy(w.dead);
        fails([&] { flush(home); }, "flush");
        break;
    case BAD_CMD_SET:
        command_writer(home).get_entity(w.dead).set<T>(v);
        fails([&] { flush(home); }, "flush");
        break;
    case BAD_CMD_CREATE:
        fails([&] { command_writer(home).create<A, Thrower>({ v }, Thrower(-1)); }, "create");
        flush(home);
        break;
    case OPS: break;
    }
}

void registry_body(const std::vector<Op>& alphabet, int depth, int prefill) {
    World w;
    w.ents.reserve(64);
    std::vector<World::Ent> kept;
    // what is there all the time
    for (int k = 0; k < prefill; ++k) kept.push_back({ 0, k % 2 ? w.reg[0].create<A, T>({ k }, T(k)) : w.reg[0].create<Big, A>(Big(k), { k }) });
    w.dead = w.reg[0].create<A>({ 0 });
    w.reg[0].destroy(w.dead);
    for (auto& k : kept) w.ids = std::max(w.ids, uint64_t(k.e.id()));
    std::vector<std::pair<Op, size_t>> cycle;
    // the first time round decides what the cycle is
    for (int d = 0; d < depth; ++d) {
        std::vector<std::pair<Op, size_t>> can;
        for (auto o : alphabet)
            for (size_t i : { size_t(0), w.ents.size() - 1 }) {
                if (i && i == size_t(-1)) continue;
                if (i == w.ents.size() - 1 && i == 0 && !can.empty() && can.back() == std::pair<Op, size_t>{ o, 0 }) continue;
                if (possible(w, o, i)) can.push_back({ o, i });
            }
        auto c = can[mc::choose(unsigned(can.size()))];
        mc::step();
        mc::log("  %s (%zu)", op_names[c.first], c.second);
        apply(w, c.first, c.second);
        cycle.push_back(c);
        if (mc::fresh()) {
            uint64_t h = 7;
            for (auto& [o, i] : cycle) h = mc::mix(h, uint64_t(o) * 64 + i);
            mc::state(mc::mix(h, alphabet.size() * 8 + size_t(prefill)));
        }
    }
    int closing = w.ents.empty() ? 0 : int(mc::choose(2));
    auto close = [&] {
        while (!w.ents.empty()) {
            size_t i = closing ? w.ents.size() - 1 : 0;
            w.reg[w.ents[i].r].destroy(w.ents[i].e);
            w.gone(i);
        }
    };
    mc::log("  the rest is destroyed, %s first", closing ? "last" : "oldest");
    close();
    Gauge g;
    g.after(w.ids);
    for (int n = 1; n < REPEAT; ++n) {
        for (auto& [o, i] : cycle) apply(w, o, i);
        close();
        mc::step(cycle.size());
        MC_CHECK(w.reg[0].size() == size_t(prefill) && w.reg[1].size() == 0, "the cycle does not end where it began");
        g.after(w.ids);
    }
}

// the same with many entities at a time
void large_body(int n, int depth) {
    World w;
    w.ents.reserve(size_t(n) * 40);
    auto apply_to_all = [&](int o) {
        size_t had = w.ents.size();
        switch (o) {
        case 0: for (int k = 0; k < n; ++k) apply(w, CREATE_A, 0); break;
        case 1: for (int k = 0; k < n; ++k) apply(w, CREATE_T, 0); break;
        case 2: for (int k = 0; k < n / 16 + 1; ++k) apply(w, CREATE_BIG, 0); break;
        case 3: for (size_t k = 0; k < had; ++k) apply(w, SET_T, k); break;
        case 4: for (size_t k = 0; k < had; ++k) apply(w, REMOVE_A, k); break;
        case 5: for (size_t k = had; k-- > 0;) if (k % 2) apply(w, DESTROY, k); break;
        case 6: for (size_t k = had; k-- > 0;) apply(w, DESTROY, k); break;
        case 7: for (size_t k = 0; k < had; ++k) apply(w, MOVE, k); break;
        case 8: for (size_t k = 0; k < had; ++k) apply(w, CLONE, k); break;
        case 9: {
            std::vector<entity> made;
            command_writer c(w.reg[0]);
            for (int k = 0; k < n; ++k) made.push_back(c.create<A, T>({ k }, T(k)));
            command_buffer::flush(w.reg[0]);
            for (auto e : made) w.made(0, e);
            break;
        }
        case 10:
        case 11:
            for (int r : { 0, 1 }) {
                command_writer c(w.reg[r]);
                for (auto& e : w.ents)
                    if (e.r == r) o == 10 ? c.destroy(e.e) : (void)c.get_entity(e.e).set<T>(n);
                command_buffer::flush(w.reg[r]);
            }
            if (o == 10) w.ents.clear();
            break;
        }
    };
    std::vector<int> ops;
    for (int d = 0; d < depth; ++d) {
        ops.push_back(int(mc::choose(d ? 12 : 4)));
        if (!d && ops[0] == 3) ops[0] = 9;
        static const char* const names[] = { "create many {A}", "create many {A,T}", "create some {Big,A}", "set T on all", "remove A from all", "destroy every second", "destroy all, last first", "move all to the other registry", "clone all", "command: create many {A,T}", "command: destroy all", "command: set T on all" };
        mc::log("  %s", names[ops.back()]);
    }
    bool closing = mc::choose(2);
    mc::log("  the rest is destroyed, %s first", closing ? "last" : "oldest");
    Gauge g;
    for (int k = 0; k < WARM + 16; ++k) {
        for (int o : ops) apply_to_all(o);
        mc::step(ops.size());
        if (closing) std::reverse(w.ents.begin(), w.ents.end());
        for (auto& e : w.ents) w.reg[e.r].destroy(e.e);
        w.ents.clear();
        g.after(w.ids);
    }
    uint64_t h = uint64_t(n);
    for (int o : ops) h = mc::mix(h, uint64_t(o));
    mc::state(mc::mix(h, closing));
}

// several commands are recorded before they are executed, over two registries
void commands_body(int depth) {
    registry reg[2];
    std::vector<int> ops;
    for (int d = 0; d < depth; ++d) {
        ops.push_back(int(mc::choose(9)));
        mc::step();
        static const char* const n[] = { "record create {A,T}", "record create {Big}", "record set T", "record set A", "record remove T", "record clone", "record destroy", "flush", "flush, then create directly" };
        mc::log("  %s", n[ops.back()]);
    }
    int flushed_by = int(mc::choose(2));
    Gauge g;
    std::vector<entity> es;
    es.reserve(64);
    uint64_t ids = 0;
    for (int k = 0; k < REPEAT; ++k) {
        auto& r = reg[flushed_by && k % 2];
        auto flush = [&] { command_buffer::flush(r); };
        es.clear();
        size_t alive = 0;
        es.push_back(r.create<A>({ k }));
        alive = 1;
        (void)alive;
        command_writer c(r);
        auto last = [&] { return es.back(); };
        for (int o : ops) {
            switch (o) {
            case 0: es.push_back(c.create<A, T>({ k }, T(k))); break;
            case 1: es.push_back(c.create<Big>(Big(k))); break;
            case 2: c.get_entity(last()).set<T>(k); break;
            case 3: c.get_entity(last()).set<A>(k); break;
            case 4: c.get_entity(last()).remove<T>(); break;
            case 5: es.push_back(c.get_entity(last()).clone()); break;
            case 6:
                if (es.size() > 1) {
                    c.destroy(last());
                    es.pop_back();
                }
                break;
            case 7: flush(); break;
            case 8:
                flush();
                es.push_back(r.create<T>(T(k)));
                break;
            }
            for (auto e : es) ids = std::max(ids, uint64_t(e.id()));
        }
        flush();
        for (auto e : es) r.destroy(e);
        mc::step(ops.size());
        MC_CHECK(r.size() == 0, "entities are left over");
        g.after(ids);
    }
    uint64_t h = 3;
    for (int o : ops) h = mc::mix(h, uint64_t(o));
    mc::state(mc::mix(h, 1000 + uint64_t(flushed_by)));
}

// a schedule whose systems do things is run again and again
void schedule_body(int systems) {
    thread_pool pool(1);
    registry r;
    auto sc = std::make_unique<schedule>();
    for (int k = 0; k < 5; ++k) r.create<A, T>({ k }, T(k));
    uint64_t ids = 0;
    for (int s = 0; s < systems; ++s) {
        int what = int(mc::choose(6));
        int where = int(mc::choose(2));
        static const char* const n[] = { "creates and destroys by commands", "writes", "par_each", "sets and removes by commands", "clones by commands, destroys directly later", "submits a task" };
        mc::log("  system %d: %s%s", s, n[what], where ? ", main thread, stage of its own" : "");
        auto put = [&](auto&& f) {
            if (where) sc->begin_stage("own").add_system(main_thread_execution_policy, std::forward<decltype(f)>(f));
            else sc->begin_stage("shared").add_system(std::forward<decltype(f)>(f));
        };
        switch (what) {
        case 0:
            put([](command_writer c) {
                auto e = c.create<A, T>({ 1 }, T(1));
                e.set<Big>(3).remove<A>();
                e.destroy();
            });
            break;
        case 1: put([](view<A&, const T&> v) { v.each([](A& a, const T& t) { a.v += (*t.p)[0]; }); }); break;
        case 2: put([](view<T&> v) { v.par_each([](T& t) { ++(*t.p)[1]; }); }); break;
        case 3:
            put([](command_writer c, view<const entity&, const A&> v) {
                v.each([&](const entity& e, const A&) { c.get_entity(e).set<Big>(1).set<T>(4).remove<Big>(); });
            });
            break;
        case 4:
            put([](command_writer c, view<const entity&, const T&, const A&> v) {
                bool first = true;
                v.each([&](const entity& e, const T&, const A&) {
                    if (first) c.get_entity(e).clone().destroy();
                    first = false;
                });
            });
            break;
        case 5:
            put([](view<const A&>) {
                auto& p = thread_pool::get();
                auto* t = p.submit([x = std::make_unique<int>(1).get() != nullptr] { (void)x; });
                p.wait(t);
            });
            break;
        }
    }
    bool fresh_executor = mc::choose(2);
    mc::log("  %s", fresh_executor ? "an executor per pass" : "one executor");
    auto ex = sc->create_executor(r);
    // a task is kept until its slot is used again: go round the ring once
    for (int k = 0; k < 4200; ++k) ex->run_once();
    Gauge g;
    for (int k = 0; k < REPEAT; ++k) {
        if (fresh_executor) ex = sc->create_executor(r);
        ex->run_once();
        mc::step();
        MC_CHECK(r.size() == 5, "the pass does not end where it began");
        auto e = entity(r.create<A>({ 0 }));
        ids = std::max(ids, uint64_t(e.id()));
        r.destroy(e);
        g.after(ids);
    }
    mc::state(mc::mix(uint64_t(systems), ids));
}

// threads that come and go (one at a time, so that the outcome does not depend on the schedule)
void threads_body(int depth) {
    std::vector<unsigned> ops;
    for (int d = 0; d < depth; ++d) {
        ops.push_back(mc::choose(6));
        mc::step();
        static const char* const n[] = { "a thread records a creation and exits", "a thread records nothing and exits", "a thread records, the commands are executed, it exits", "the commands are executed", "a thread records, executes and exits",
            "a pool with one background worker works and goes" };
        mc::log("  %s", n[ops.back()]);
    }
    registry r;
    std::vector<entity> es;
    es.reserve(64);
    auto record = [&] { es.push_back(command_writer(r).create<A, T>({ 1 }, T(1))); };
    auto flush = [&] { command_buffer::flush(r); };
    auto submit = [&](thread_pool& p) {
        auto* t = p.submit([a = std::array<char, 100>{}] { (void)a; });
        p.wait(t);
    };
    if (std::find(ops.begin(), ops.end(), 5u) != ops.end()) {
        thread_pool p(1);
        for (int k = 0; k < 4200; ++k) submit(p); // this thread's task slots
    }
    Gauge g;
    uint64_t ids = 0;
    for (int k = 0; k < REPEAT / 2; ++k) {
        for (auto o : ops) switch (o) {
            case 0: std::thread(record).join(); break;
            case 1: std::thread([&] { command_writer c(r); }).join(); break;
            case 2: {
                std::binary_semaphore recorded(0), go(0);
                std::thread t([&] {
                    record();
                    recorded.release();
                    go.acquire();
                });
                recorded.acquire();
                flush();
                go.release();
                t.join();
                break;
            }
            case 3: flush(); break;
            case 4:
                std::thread([&] {
                    record();
                    flush();
                }).join();
                break;
            case 5: {
                thread_pool p(2);
                for (int i = 0; i < 3; ++i) submit(p);
                break;
            }
            }
        flush();
        for (auto e : es) ids = std::max(ids, uint64_t(e.id())), r.destroy(e);
        es.clear();
        mc::step(ops.size());
        MC_CHECK(r.size() == 0, "entities are left over");
        g.after(ids);
    }
    uint64_t h = 23;
    for (auto o : ops) h = mc::mix(h, o);
    mc::state(h);
}

struct SameHash {
    size_t operator()(int k) const noexcept {
        return size_t(k) / 4;
    }
};
template<class M>
void map_body(M&& make, std::vector<int> keys, int depth) {
    auto m = make();
    std::vector<unsigned> ops;
    unsigned n = unsigned(keys.size());
    std::set<int> in;
    for (int d = 0; d < depth; ++d) {
        ops.push_back(mc::choose(2 * n + 2));
        mc::step();
        mc::log("  %s %d", ops.back() < n ? "insert" : ops.back() < 2 * n ? "erase" : ops.back() == 2 * n ? "clear" : "copy", ops.back() < 2 * n ? keys[ops.back() % n] : 0);
    }
    bool by_clear = mc::choose(2);
    mc::log("  at the end: %s", by_clear ? "clear" : "erase all");
    Gauge g;
    for (int k = 0; k < REPEAT; ++k) {
        for (auto o : ops) {
            if (o < n) m.emplace(keys[o], k);
            else if (o < 2 * n) m.erase(keys[o - n]);
            else if (o == 2 * n) m.clear();
            else {
                auto c = m;
                m = std::move(c);
            }
        }
        if (by_clear) m.clear();
        else
            for (int key : keys) m.erase(key);
        MC_CHECK(m.size() == 0, "not empty after everything was erased");
        mc::step(ops.size());
        g.after();
    }
    uint64_t h = n;
    for (auto o : ops) h = mc::mix(h, o);
    mc::state(mc::mix(h, by_clear));
}

void queue_body(int capacity, int depth) {
    detail::work_stealing_queue<int*> q(capacity);
    static int item;
    std::vector<unsigned> ops;
    for (int d = 0; d < depth; ++d) {
        ops.push_back(mc::choose(3));
        mc::step();
        static const char* const n[] = { "push", "pop", "steal" };
        mc::log("  %s", n[ops.back()]);
    }
    bool by_steal = mc::choose(2);
    mc::log("  then emptied by %s", by_steal ? "steal" : "pop");
    Gauge g;
    for (int k = 0; k < REPEAT; ++k) {
        for (auto o : ops) {
            if (o == 0) q.push(&item);
            else if (o == 1) (void)q.pop();
            else (void)q.steal();
        }
        while (by_steal ? q.steal().has_value() : q.pop().has_value()) {}
        mc::step(ops.size());
        g.after();
    }
    uint64_t h = uint64_t(capacity);
    for (auto o : ops) h = mc::mix(h, o);
    mc::state(mc::mix(h, by_steal));
}

void bits_body(int depth) {
    detail::dynamic_bitset<uint64_t> a(1), b(1);
    std::vector<unsigned> ops;
    for (int d = 0; d < depth; ++d) {
        ops.push_back(mc::choose(8));
        mc::step();
        mc::log("  op %u", ops.back());
    }
    Gauge g;
    static const size_t at[] = { 3, 70, 200 };
    for (int k = 0; k < REPEAT; ++k) {
        for (auto o : ops) {
            if (o < 3) a.set(at[o]);
            else if (o < 6) a.set(at[o - 3], false);
            else if (o == 6) b = a;
            else a = b;
        }
        a.clear();
        b.clear();
        g.after();
    }
    uint64_t h = 11;
    for (auto o : ops) h = mc::mix(h, o);
    mc::state(h);
}

} // namespace

int main(int argc, char** argv) {
    std::vector<Op> all, direct{ CREATE_A, CREATE_T, CREATE_BIG, SET_T, SET_BIG, REMOVE_A, DESTROY, CLONE, MOVE }, cmds{ CREATE_A, CREATE_T, DESTROY, CREATE_PLACED, CLONE_PLACED, CMD_CREATE, CMD_SET, CMD_SET2, CMD_DESTROY, CMD_CLONE };
    for (int o = 0; o < OPS; ++o) all.push_back(Op(o));
    add("C24.cycles", [=] { registry_body(all, mc::quick ? 3 : 4, 0); });
    add("C24.cycles-beside", [=] { registry_body(all, mc::quick ? 2 : 3, 5); });
    add("C24.cycles-direct", [=] { registry_body(direct, mc::quick ? 5 : 6, 3); });
    add("C24.cycles-commands", [=] { registry_body(cmds, mc::quick ? 4 : 5, 0); });
    add("C24.cycles-large", [] { large_body(300, mc::quick ? 3 : 4); });
    add("C24.recorded", [] { commands_body(mc::quick ? 4 : 6); });
    add("C24.schedules", [] { schedule_body(mc::quick ? 2 : 3); });
    add("C24.threads", [] { threads_body(mc::quick ? 3 : 4); });
    add("C24.maps", [] { map_body([] { return detail::hash_map<int, int>(); }, { 0, 1, 2, 3, 4 }, mc::quick ? 4 : 5); });
    add("C24.maps-colliding", [] { map_body([] { return detail::hash_map<int, int, SameHash>(); }, { 0, 1, 2, 3, 9, 10 }, mc::quick ? 4 : 5); });
    add("C24.sparse", [] { map_body([] { return detail::sparse_map<unsigned, int>(); }, { 0, 1, 5, 40 }, mc::quick ? 4 : 5); });
    for (int c : { 2, 4, 8 }) add("C24.queue-" + std::to_string(c), [c] { queue_body(c, mc::quick ? 8 : 11); });
    add("C24.bits", [] { bits_body(mc::quick ? 5 : 6); });
    return mc::main(argc, argv);
}
