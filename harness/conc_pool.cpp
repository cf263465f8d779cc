// C14: task trees on the real thread pool; C15: parallel_for. All schedules within the stated bounds.
#include "../lib/mcapi.hpp"
#include <algorithm>
#include <ranges>
#include <co_ecs/thread_pool/parallel_for.hpp>
#include <co_ecs/thread_pool/thread_pool.hpp>
#include <array>
#include <deque>
#include <functional>
#include <list>
#include <memory>
#include <set>
#include <string>
#include <string_view>
#include <span>
#include <vector>

using co_ecs::task_t;
using co_ecs::thread_pool;
using mcapi::Quiet;

// book-keeping of one execution
struct World {
    static constexpr int N = 16;
    int data[N];        // written by the task, plainly
    int runs[N];        // how often the task ran
    int done[N];        // how often it returned
    std::atomic<task_t*> handle[N];
    unsigned workers;
    World(unsigned w) : workers(w) {
        Quiet q;
        for (int i = 0; i < N; ++i) data[i] = runs[i] = done[i] = 0, handle[i].store(nullptr);
    }
    void begin(int i) {
        Quiet q;
        MCHECK(runs[i]++ == 0, "task %d runs a second time", i);
        auto& w = thread_pool::current_worker();
        MCHECK(w.id() < workers && &thread_pool::get().get_worker_by_id(w.id()) == &w, "task %d runs outside the workers of the pool", i);
        mcapi::log("task %d starts on worker %zu", i, w.id());
    }
    void end(int i) {
        data[i] = 100 + i;
        Quiet q;
        done[i] = 1;
        mcapi::log("task %d ends", i);
    }
    // after waiting for an ancestor of all of these
    void expect(std::initializer_list<int> ids, const char* what) {
        for (int i : ids) {
            {
                Quiet q;
                MCHECK(done[i] == 1, "%s returned although task %d %s", what, i, runs[i] ? "has not finished" : "has not run");
            }
            MCHECK(data[i] == 100 + i, "%s returned but the writes of task %d are not visible", what, i);
        }
    }
    auto task(int i) {
        return [this, i] {
            begin(i);
            end(i);
        };
    }
    void result(int n) {
        uint64_t h = 3;
        Quiet q;
        for (int i = 0; i < n; ++i) h = h * 31 + uint64_t(runs[i]);
        mcapi::outcome(h);
    }
};
static task_t* submit(auto&& f, task_t* parent = nullptr) { return thread_pool::get().submit(f, parent); }
static void wait(task_t* t) { thread_pool::get().wait(t); }

static void one(unsigned n) {
    World w(n);
    {
        thread_pool p(n);
        auto* a = submit(w.task(0));
        wait(a);
        w.expect({ 0 }, "wait");
        MCHECK(a->is_completed() && a->parent() == nullptr, "a finished task does not report completion");
        wait(a); // waiting again returns
    }
    w.expect({ 0 }, "shutdown");
    w.result(1);
}
static void two_waited_in_order(unsigned n) {
    World w(n);
    {
        thread_pool p(n);
        auto* a = submit(w.task(0));
        auto* b = submit(w.task(1));
        if (mcapi::choose(2)) std::swap(a, b);
        bool sw = a->parent() != nullptr;
        (void)sw;
        wait(a);
        wait(b);
        w.expect({ 0, 1 }, "wait");
    }
    w.result(2);
}
// what parallel_for does: later tasks name the first as their parent, which may have finished already
static void flat(unsigned n, int k) {
    World w(n);
    {
        thread_pool p(n);
        auto* root = submit(w.task(0));
        for (int i = 1; i <= k; ++i) {
            auto* c = submit(w.task(i), root);
            MCHECK(c->parent() == root, "parent() does not give the parent");
        }
        wait(root);
        for (int i = 0; i <= k; ++i) w.expect({ i }, "wait for the parent");
    }
    w.result(k + 1);
}
// parent <- child <- grandchild, all submitted by the main thread
static void chain(unsigned n, bool two_grandchildren) {
    World w(n);
    {
        thread_pool p(n);
        auto* a = submit(w.task(0));
        auto* b = submit(w.task(1), a);
        submit(w.task(2), b);
        if (two_grandchildren) submit(w.task(3), b);
        wait(a);
        w.expect({ 0, 1, 2 }, "wait for the grandparent");
        if (two_grandchildren) w.expect({ 3 }, "wait for the grandparent");
    }
    w.result(3);
}
// four levels: the counters of all ancestors must be kept apart
static void deep(unsigned n) {
    World w(n);
    {
        thread_pool p(n);
        auto* a = submit(w.task(0));
        auto* b = submit(w.task(1), a);
        auto* c = submit(w.task(2), b);
        submit(w.task(3), c);
        submit(w.task(4), a);
        wait(a);
        w.expect({ 0, 1, 2, 3, 4 }, "wait for the root");
    }
    w.result(5);
}
// tasks submitted from inside a running task, to an ancestor that is still running
static void inside(unsigned n) {
    World w(n);
    {
        thread_pool p(n);
        auto* root = submit(w.task(0));
        submit(
            [&w, root] {
                w.begin(1);
                submit(w.task(2), root);
                w.end(1);
            },
            root);
        wait(root);
        w.expect({ 0, 1, 2 }, "wait for the root");
    }
    w.result(3);
}
// a task submits children of itself; the grandparent is waited for
static void self_children(unsigned n, int kids) {
    World w(n);
    {
        thread_pool p(n);
        auto* root = submit(w.task(0));
        auto* mid = submit(
            [&w, kids] {
                w.begin(1);
                task_t* me;
                while (!(me = w.handle[1].load(std::memory_order_acquire))) std::this_thread::yield();
                for (int i = 0; i < kids; ++i) submit(w.task(2 + i), me);
                w.end(1);
            },
            root);
        w.handle[1].store(mid, std::memory_order_release);
        wait(root);
        w.expect({ 0, 1, 2 }, "wait for the root");
        if (kids > 1) w.expect({ 3 }, "wait for the root");
    }
    w.result(3);
}
// two subtrees finishing at the same time
static void two_subtrees(unsigned n) {
    World w(n);
    {
        thread_pool p(n);
        auto* root = submit(w.task(0));
        auto* a = submit(w.task(1), root);
        auto* b = submit(w.task(2), root);
        submit(w.task(3), a);
        submit(w.task(4), b);
        wait(root);
        w.expect({ 0, 1, 2, 3, 4 }, "wait for the root");
    }
    w.result(5);
}
// a task waits for a task it submitted itself (what a system using parallel iteration does)
static void nested_wait(unsigned n, int tasks) {
    World w(n);
    {
        thread_pool p(n);
        auto body = [&w](int i, int sub) {
            return [&w, i, sub] {
                w.begin(i);
                auto* c = submit(w.task(sub));
                wait(c);
                w.expect({ sub }, "wait inside a task");
                w.end(i);
            };
        };
        auto* root = submit(body(0, 4));
        for (int i = 1; i < tasks; ++i) submit(body(i, 4 + i), root);
        wait(root);
        for (int i = 0; i < tasks; ++i) w.expect({ i, 4 + i }, "wait for the root");
    }
    w.result(8);
}
// several independent waits one after the other, then shutdown
static void rounds(unsigned n, int k) {
    World w(n);
    {
        thread_pool p(n);
        for (int i = 0; i < k; ++i) {
            auto* t = submit(w.task(2 * i));
            submit(w.task(2 * i + 1), t);
            wait(t);
            w.expect({ 2 * i, 2 * i + 1 }, "wait");
        }
    }
    w.result(2 * k);
}
// starting and stopping pools, one after the other
static void pools(unsigned n) {
    World w(4);
    {
        thread_pool p(n);
    }
    {
        thread_pool p(n);
        MCHECK(p.num_workers() == n && &thread_pool::get() == &p, "the new pool is not in use");
        auto* t = submit([&] {
            Quiet q;
            w.runs[0]++;
        });
        wait(t);
    }
    MCHECK(w.runs[0] == 1, "task ran %d times", w.runs[0]);
    w.result(1);
}
// slots of the task ring are used again
static void ring(unsigned n) {
    mcapi::opts().horizon = 4000000;
    World w(n);
    {
        thread_pool p(n);
        int count = 0;
        for (int r = 0; r < 70; ++r) {
            task_t* root = nullptr;
            for (int i = 0; i < 60; ++i) {
                auto* t = submit([&count] {
                    Quiet q;
                    ++count;
                },
                    root);
                if (!root) root = t;
            }
            wait(root);
            MCHECK(count == (r + 1) * 60, "%d of %d tasks had run when the wait returned", count, (r + 1) * 60);
        }
    }
    w.result(1);
}
// more tasks than the initial capacity of a queue before anything runs
static void many_queued(unsigned n, int k) {
    mcapi::opts().horizon = 4000000;
    World w(n);
    {
        thread_pool p(n);
        std::vector<uint8_t> ran(size_t(k), 0);
        task_t* root = nullptr;
        for (int i = 0; i < k; ++i) {
            auto* t = submit([&ran, i] {
                Quiet q;
                MCHECK(!ran[size_t(i)]++, "task %d of many runs twice", i);
            },
                root);
            if (!root) root = t;
        }
        wait(root);
        for (int i = 0; i < k; ++i) MCHECK(ran[size_t(i)], "task %d of many did not run", i);
    }
    w.result(1);
}

// ---- C15 ------------------------------------------------------------------------------------------------------
template<class C>
static void visit_each_once(C& c, auto&& value) {
    int n = 0;
    for (auto& e : c) {
        MCHECK(value(e) == n * 3 + 1, "element %d of %zu was visited %d times instead of once", n, std::size(c), value(e) - n * 3);
        ++n;
    }
}
// tasks whose function objects have every size, alignment and kind of copying
struct Where { // knows its own address
    const Where* self = this;
    Where() = default;
    Where(const Where&) : self(this) {}
    Where& operator=(const Where&) { return *this; }
};
template<size_t N>
struct Blob {
    unsigned char b[N];
    explicit Blob(int v) { for (size_t i = 0; i < N; ++i) b[i] = (unsigned char)(v + int(i)); }
    bool ok(int v) const { for (size_t i = 0; i < N; ++i) if (b[i] != (unsigned char)(v + int(i))) return false; return true; }
};
struct alignas(64) Line {
    int v;
};
static int plain_runs;
static void plain_function() { ++plain_runs; }
static void callables(unsigned n) {
    {
        World w(n);
        thread_pool p(n);
        plain_runs = 0;
        auto shared = std::make_shared<int>(5);
        Where where;
        Line line{ 11 };
        Blob<1> b1(3);
        Blob<24> b24(4);
        Blob<40> b40(5);
        Blob<72> b72(6);
        Blob<600> b600(7);
        std::string text(40, 'x');
        auto run = [&w](int i, bool ok) {
            w.begin(i);
            MCHECK(ok, "the function object of task %d is not what was submitted", i);
            w.end(i);
        };
        auto kinds = [&](int k, task_t* parent) -> task_t* {
            switch (k) {
            case 0: return submit([run, b1] { run(0, b1.ok(3)); }, parent);
            case 1: return submit([run, b24] { run(1, b24.ok(4)); }, parent);
            case 2: return submit([run, b40] { run(2, b40.ok(5)); }, parent);
            case 3: return submit([run, b72] { run(3, b72.ok(6)); }, parent);
            case 4: return submit([run, b600] { run(4, b600.ok(7)); }, parent);
            case 5: return submit([run, where] { run(5, where.self == &where); }, parent);
            case 6: return submit([run, line] { run(6, line.v == 11 && reinterpret_cast<uintptr_t>(&line) % 64 == 0); }, parent);
            case 7: return submit([run, shared] { run(7, *shared == 5 && shared.use_count() > 1); }, parent);
            case 8: return submit([run, text, count = 0]() mutable { run(8, text == std::string(40, 'x') && ++count == 1); }, parent);
            case 9: { std::function<void()> f = [run] { run(9, true); }; return submit(f, parent); }
            default: return submit(&plain_function, parent);
            }
        };
        int first = int(mcapi::choose(11)), second = int(mcapi::choose(11));
        task_t* a = kinds(first, nullptr);
        if (second != first) kinds(second, a);
        wait(a);
        for (int k : { first, second })
            if (k < 10) w.expect({ k }, "wait");
            else MCHECK(plain_runs == 1, "a plain function ran %d times", plain_runs);
        mcapi::outcome(uint64_t(first * 11 + second) + 1);
    }
}
// ranges of other kinds: what is visited is exactly the range
static void pfor_kinds(unsigned n) {
    int kind = int(mcapi::choose(6)), len = int(mcapi::choose(7));
    std::vector<std::atomic<int>> hits(8);
    {
        thread_pool p(n);
        auto hit = [&](int i) { hits[size_t(i)].fetch_add(1); };
        if (kind == 0) co_ecs::parallel_for(std::views::iota(0, len), [&](int i) { hit(i); });
        else if (kind == 1) {
            std::deque<int> d;
            for (int i = 0; i < len; ++i) d.push_back(i);
            co_ecs::parallel_for(d, [&](const int& i) { hit(i); });
        } else if (kind == 2) {
            std::set<int> d;
            for (int i = 0; i < len; ++i) d.insert(i);
            co_ecs::parallel_for(d, [&](int i) { hit(i); });
        } else if (kind == 3) {
            std::array<int, 6> a{ 0, 1, 2, 3, 4, 5 };
            len = 6;
            co_ecs::parallel_for(std::as_const(a), [&](const int& i) { hit(i); });
        } else if (kind == 4) {
            std::vector<int> v;
            for (int i = 0; i < len; ++i) v.push_back(i * 2);
            co_ecs::parallel_for(v | std::views::transform([](int i) { return i / 2; }), [&](int i) { hit(i); });
        } else {
            std::string s = std::string("0123456").substr(0, size_t(len));
            co_ecs::parallel_for(std::string_view(s), [&](char c) { hit(c - '0'); });
        }
    }
    for (int i = 0; i < 8; ++i) MCHECK(hits[size_t(i)].load() == (i < len), "element %d of a range of kind %d with %d elements was visited %d times", i, kind, len, hits[size_t(i)].load());
    mcapi::outcome(uint64_t(kind * 8 + len) + 1);
}
// len elements in the middle of a larger array, so that touching anything else is noticed
static void pfor_vector(unsigned n, int maxlen, int minlen = 0) {
    int len = minlen + int(mcapi::choose(unsigned(maxlen - minlen + 1)));
    std::vector<int> v(size_t(len) + 4);
    for (size_t i = 0; i < v.size(); ++i) v[i] = (int(i) - 2) * 3;
    {
        thread_pool p(n);
        std::span<int> s(v.data() + 2, size_t(len));
        co_ecs::parallel_for(s, [](int& x) { ++x; });
        visit_each_once(s, [](int x) { return x; });
        co_ecs::parallel_for(s, [](int& x) { --x; }); // and again, with the tasks of the first round still around
    }
    for (size_t i = 0; i < v.size(); ++i) MCHECK(v[i] == (int(i) - 2) * 3, "an element outside the range was changed");
    mcapi::outcome(uint64_t(len) + 1);
}
// lengths around 2^16 and many workers: few schedules, all elements
static void pfor_large() {
    static const unsigned ws[] = { 1, 2, 3, 4, 6, 7 };
    static const int lens[] = { 255, 256, 257, 4096, 65535, 65536, 65537, 70001 };
    unsigned n = ws[mcapi::choose(6)];
    int len = lens[mcapi::choose(8)];
    std::vector<uint8_t> v(size_t(len) + 2);
    {
        thread_pool p(n);
        std::span<uint8_t> s(v.data() + 1, size_t(len));
        co_ecs::parallel_for(s, [](uint8_t& x) { ++x; });
    }
    for (int i = 0; i < len; ++i) MCHECK(v[size_t(i) + 1] == 1, "element %d of %d was visited %d times instead of once", i, len, int(v[size_t(i) + 1]));
    MCHECK(v[0] == 0 && v.back() == 0, "an element outside the range was changed");
    mcapi::outcome(uint64_t(len) * 32 + n);
}
static void pfor_list(unsigned n, int maxlen) {
    int len = int(mcapi::choose(unsigned(maxlen + 1)));
    std::list<int> v;
    for (int i = 0; i < len; ++i) v.push_back(i * 3);
    thread_pool p(n);
    co_ecs::parallel_for(v, [](int& x) { ++x; });
    visit_each_once(v, [](int x) { return x; });
    mcapi::outcome(uint64_t(len) + 1);
}
static void pfor_nested(unsigned n, int outer, int inner) {
    std::vector<std::vector<int>> v(static_cast<size_t>(outer));
    int k = 0;
    for (auto& r : v)
        for (int i = 0; i < inner; ++i) r.push_back(i * 3);
    thread_pool p(n);
    co_ecs::parallel_for(v, [](auto& r) { co_ecs::parallel_for(r, [](int& x) { ++x; }); });
    for (auto& r : v) visit_each_once(r, [](int x) { return x; });
    mcapi::outcome(1);
}

int main(int argc, char** argv) {
    using B = std::vector<mcapi::Bound>;
    auto add = [](const char* n, std::function<void()> f, B q, B t, double cq = 30) { mcapi::add(n, f, q, t, cq, 900); };
    B d1{ { 1, 1, 1, 1 } }, d2{ { 2, 2, 2, 1 } }, d3{ { 3, 3, 2, 1 } }, d4{ { 4, 4, 3, 2 } }, d5{ { 5, 5, 3, 2 } }, d0{ { 0, 0, 0, 0 } };
    add("C14.one-w1", [] { one(1); }, d2, d4);
    add("C14.one-w2", [] { one(2); }, d2, d4);
    add("C14.one-w3", [] { one(3); }, d2, d3);
    add("C14.in-order-w2", [] { two_waited_in_order(2); }, d2, d3);
    add("C14.flat1-w2", [] { flat(2, 1); }, d2, d4);
    add("C14.flat2-w2", [] { flat(2, 2); }, d2, d3);
    add("C14.flat2-w3", [] { flat(3, 2); }, d2, d3);
    add("C14.chain-w2", [] { chain(2, false); }, d3, d4);
    add("C14.chain-two-w2", [] { chain(2, true); }, d2, d3);
    add("C14.chain-w3", [] { chain(3, false); }, d2, d3);
    add("C14.deep-w2", [] { deep(2); }, d2, d3);
    add("C14.two-subtrees-w2", [] { two_subtrees(2); }, d2, d3);
    add("C14.two-subtrees-w3", [] { two_subtrees(3); }, d2, d3);
    add("C14.inside-w1", [] { inside(1); }, d2, d4);
    add("C14.inside-w2", [] { inside(2); }, d2, d3);
    add("C14.inside-w3", [] { inside(3); }, d2, d3);
    add("C14.self-children-w2", [] { self_children(2, 1); }, d3, d4);
    add("C14.self-two-children-w2", [] { self_children(2, 2); }, d2, d3);
    add("C14.nested-wait-w1", [] { nested_wait(1, 2); }, d2, d4);
    add("C14.nested-wait-w2", [] { nested_wait(2, 2); }, d2, d3);
    add("C14.nested-wait-w3", [] { nested_wait(3, 2); }, d2, d3);
    add("C14.rounds-w2", [] { rounds(2, 3); }, d2, d3);
    add("C14.pools-w2", [] { pools(2); }, d2, d3);
    add("C14.pools-w3", [] { pools(3); }, d2, d3);
    add("C14.ring-w1", [] { ring(1); }, d0, d0);
    add("C14.callables-w1", [] { callables(1); }, d1, d2);
    add("C14.callables-w2", [] { callables(2); }, d1, d2);
    add("C14.many-queued-w1", [] { many_queued(1, 1030); }, d0, d0);
    add("C14.many-queued-w2", [] { many_queued(2, 1030); }, d0, d0);

    add("C15.vector-w1", [] { pfor_vector(1, 5); }, d2, d4);
    add("C15.vector-w2", [] { pfor_vector(2, 5); }, d2, d3);
    add("C15.vector-w3", [] { pfor_vector(3, 10); }, d1, d2);
    add("C15.vector-w3-sched", [] { pfor_vector(3, 4, 3); }, d2, d2);
    add("C15.vector-w4", [] { pfor_vector(4, 17); }, d1, d1);
    add("C15.vector-w5", [] { pfor_vector(5, 21); }, d1, d1);
    add("C15.large", [] { pfor_large(); }, d0, d0);
    add("C15.kinds-w2", [] { pfor_kinds(2); }, d1, d2);
    add("C15.kinds-w3", [] { pfor_kinds(3); }, d1, d1);
    add("C15.list-w2", [] { pfor_list(2, 5); }, d2, d3);
    add("C15.list-w3", [] { pfor_list(3, 9); }, d1, d2);
    add("C15.nested-w2", [] { pfor_nested(2, 2, 2); }, d2, d3);
    return mcapi::main(argc, argv);
}
