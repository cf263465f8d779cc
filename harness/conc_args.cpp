// C23: systems are given the data they declare, of the registry and context of their own executor; what a system's function object
// remembers belongs to one executor.
#include "../lib/mcapi.hpp"
#include <algorithm>
#include <ranges>
#include <co_ecs/co_ecs.hpp>
#include <co_ecs/system/named_system.hpp>
#include <co_ecs/system/schedule.hpp>
#include <memory>
#include <set>
#include <string>

using namespace co_ecs;
using mcapi::Quiet;

struct A {
    int v = 0;
};
struct B {
    int v = 0;
};
struct Mark {
    int exec = 0, sys = 0, run = 0;
};
struct Ctx {
    int tag;
};
// a user's own system argument: state made from the registry and the user context
struct UserArg {
    registry* r;
    void* ctx;
    int uses = 0;
};
class user_arg_state {
public:
    explicit user_arg_state(registry& r, void* ctx) : _arg{ &r, ctx } {}
    UserArg& get() noexcept { return _arg; }
    auto access_pattern() const -> access_pattern_t { return access_pattern_t{}; }

private:
    UserArg _arg;
};
namespace co_ecs {
template<>
class system_argument_state_trait<UserArg&> {
public:
    using state_type = user_arg_state;
};
} // namespace co_ecs

struct Rec {
    int world = -1;
    Ctx* ctx = nullptr;
    bool init = false;
    int passes = 0;
    int runs[8] = {};
};
// one registry with what it has to contain
struct World {
    registry r;
    std::vector<entity> ents;
    std::vector<bool> has_b;
    std::vector<int> a, b;
    std::multiset<std::vector<int>> marks; // commands recorded, not yet applied counts as recorded
    int no = 0;
    void add(bool with_b) {
        int v = no * 1000 + int(ents.size()) * 10;
        ents.push_back(with_b ? entity(r.create<A, B>({ v }, { v + 5 })) : entity(r.create<A>({ v })));
        Quiet q;
        a.push_back(v);
        b.push_back(v + 5);
        has_b.push_back(with_b);
    }
};
struct State {
    World* w[2];
    Ctx ctx[2];
    Rec ex[3];
    int cur = -1; // executor that is being created or run
    int nsys = 0;
};
static State* S;
static std::string who(int sys) { return "system " + std::to_string(sys) + " of executor " + std::to_string(S->cur); }

enum Kind { kR, kCR, kVA, kVC, kVAB, kVE, kCW, kU };

template<class X>
static void use(int sys, int run, X&& x, int nth) {
    World& w = *S->w[S->ex[S->cur].world];
    using T = std::remove_cvref_t<X>;
    if constexpr (std::is_same_v<T, registry>) {
        MCHECK(&x == &w.r, "%s was given another registry than its executor's", who(sys).c_str());
    } else if constexpr (std::is_same_v<T, view<A&>>) {
        std::set<const A*> want;
        {
            Quiet q;
            for (size_t i = 0; i < w.ents.size(); ++i) want.insert(&w.r.get_entity_const(w.ents[i]).template get<A>());
        }
        size_t n = 0;
        x.each([&](A& c) {
            MCHECK(want.count(&c) == 1, "%s: the view does not show its executor's registry", who(sys).c_str());
            c.v += 1;
            ++n;
        });
        MCHECK(n == want.size(), "%s: the view shows %zu of %zu entities", who(sys).c_str(), n, want.size());
        Quiet q;
        for (auto& v : w.a) ++v;
    } else if constexpr (std::is_same_v<T, view<const A&>>) {
        std::multiset<int> got, want;
        x.each([&](const A& c) { got.insert(c.v); });
        want.insert(w.a.begin(), w.a.end());
        MCHECK(got == want, "%s: the read-only view does not show its executor's registry as it is", who(sys).c_str());
    } else if constexpr (std::is_same_v<T, view<const A&, B&>>) {
        std::multiset<std::pair<int, int>> got, want;
        x.each([&](const A& c, B& d) {
            got.insert({ c.v, d.v });
            d.v += 2;
        });
        for (size_t i = 0; i < w.ents.size(); ++i)
            if (w.has_b[i]) want.insert({ w.a[i], w.b[i] }), w.b[i] += 2;
        MCHECK(got == want, "%s: the view of two components does not show its executor's registry as it is", who(sys).c_str());
    } else if constexpr (std::is_same_v<T, view<const entity&, const A&>>) {
        std::multiset<std::pair<entity, int>> got, want;
        x.each([&](const entity& e, const A& c) { got.insert({ e, c.v }); });
        for (size_t i = 0; i < w.ents.size(); ++i) want.insert({ w.ents[i], w.a[i] });
        MCHECK(got == want, "%s: the view with handles does not show its executor's registry as it is", who(sys).c_str());
    } else if constexpr (std::is_same_v<T, command_writer>) {
        x.template create<Mark>({ S->cur, sys, run });
        Quiet q;
        w.marks.insert({ S->cur, sys, run });
    } else {
        static_assert(std::is_same_v<T, UserArg>);
        MCHECK(x.r == &w.r, "%s: its argument was made for another registry than its executor's", who(sys).c_str());
        MCHECK(x.ctx == S->ex[S->cur].ctx, "%s: its argument was made from another user context than its executor's", who(sys).c_str());
        // one state per declared argument, kept from run to run
        MCHECK(x.uses == run, "%s: in run %d its argument has been used %d times", who(sys).c_str(), run, x.uses);
        x.uses++;
    }
    (void)nth;
}
// a system function with memory of its own
template<class... Args>
struct Fn {
    int sys;
    int calls = 0;
    std::vector<int> memory{ 42 };
    void operator()(Args... args) {
        MCHECK(S->cur >= 0, "system %d runs although no executor is being created or run", sys);
        Rec& e = S->ex[S->cur];
        MCHECK(calls == e.runs[sys] && int(memory.size()) == calls + 1 && memory[0] == 42, "%s remembers %d earlier calls, there were %d", who(sys).c_str(), calls, e.runs[sys]);
        int run = calls++;
        memory.push_back(run);
        e.runs[sys]++;
        int nth = 0;
        (..., use(sys, run, args, nth++));
    }
};
// a user's own implementation of the system interface
struct custom_executor : system_executor_interface {
    int sys;
    registry& r;
    void* ctx;
    int calls = 0;
    custom_executor(int sys, registry& r, void* ctx) : sys(sys), r(r), ctx(ctx) {}
    void run() override {
        Rec& e = S->ex[S->cur];
        MCHECK(&r == &S->w[e.world]->r, "%s was created for another registry than its executor's", who(sys).c_str());
        MCHECK(ctx == e.ctx, "%s was created with another user context than its executor's", who(sys).c_str());
        MCHECK(calls == e.runs[sys], "%s is shared between executors", who(sys).c_str());
        calls++;
        e.runs[sys]++;
    }
    auto name() const -> std::string_view override { return "custom"; }
    auto type_name() const -> std::string_view override { return "custom"; }
    auto access_pattern() const -> access_pattern_t override { return access_pattern_t{}; }
};
struct custom_system : system_interface {
    int sys;
    explicit custom_system(int sys) : sys(sys) {}
    std::unique_ptr<system_executor_interface> create_executor(registry& r, void* ctx) override { return std::make_unique<custom_executor>(sys, r, ctx); }
};

template<class... Args>
static void sig(auto&& f) {
    int sys;
    {
        Quiet q;
        sys = S->nsys++;
    }
    f(Fn<Args...>{ sys });
}
using R = registry&;
using CR = const registry&;
using VA = view<A&>;
using VC = view<const A&>;
using VAB = view<const A&, B&>;
using VE = view<const entity&, const A&>;
using CW = command_writer;
using U = UserArg&;
template<class F, class... T>
static void pick_type(F&& f, unsigned k, T*...) {
    unsigned i = 0;
    (..., (i++ == k ? f.template operator()<T>() : void()));
}
template<class T>
struct Id {
    using type = T;
};
template<class F>
static void pick(F&& f) { // one of the eight kinds of argument
    unsigned k = mcapi::choose(8);
    unsigned i = 0;
    auto one = [&]<class I>(I) {
        if (i++ == k) f(I{});
    };
    one(Id<R>{}), one(Id<CR>{}), one(Id<VA>{}), one(Id<VC>{}), one(Id<VAB>{}), one(Id<VE>{}), one(Id<CW>{}), one(Id<U>{});
}
static constexpr unsigned NSIG = 4;
// adds a system with a chosen signature through f
static void pick_sig(auto&& f) {
    switch (mcapi::choose(4)) {
    case 0: return pick([&]<class I>(I) { sig<typename I::type>(f); });
    case 1: return pick([&]<class I>(I) { pick([&]<class J>(J) { sig<typename I::type, typename J::type>(f); }); });
    case 2:
        switch (mcapi::choose(6)) {
        case 0: return sig<>(f);
        case 1: return sig<U, VA, CW>(f);
        case 2: return sig<CW, U, R>(f);
        case 3: return sig<VC, VA, VC>(f);
        case 4: return sig<VAB, U, CR, CW, VE>(f);
        default: return sig<CW, CW, U, U, VA, VA>(f);
        }
    default: {
        int sys;
        {
            Quiet q;
            sys = S->nsys++;
        }
        return f(std::unique_ptr<custom_system>(new custom_system(sys)));
    }
    }
}
static void check_world(World& w, const char* when) {
    std::multiset<std::vector<int>> got;
    w.r.each([&](const Mark& m) { got.insert({ m.exec, m.sys, m.run }); });
    Quiet q;
    MCHECK(got == w.marks, "%s: registry %d holds %zu of the entities systems have asked it for by command, expected are %zu", when, w.no, got.size(), w.marks.size());
    for (size_t i = 0; i < w.ents.size(); ++i) {
        MCHECK(w.r.get_entity(w.ents[i]).template get<A>().v == w.a[i], "%s: a component of registry %d has another value than its systems gave it", when, w.no);
        if (w.has_b[i]) MCHECK(w.r.get_entity(w.ents[i]).template get<B>().v == w.b[i], "%s: a component of registry %d has another value than its systems gave it", when, w.no);
    }
    MCHECK(w.r.size() == w.ents.size() + w.marks.size(), "%s: registry %d holds %zu entities, expected are %zu", when, w.no, w.r.size(), w.ents.size() + w.marks.size());
}
struct Setup {
    World w0, w1;
    State s;
    Setup() {
        s.w[0] = &w0;
        s.w[1] = &w1;
        w1.no = 1;
        s.ctx[0].tag = 1;
        s.ctx[1].tag = 2;
        S = &s;
        w0.add(false), w0.add(true);
        w1.add(true);
    }
};
// a schedule of systems, any history of: creating executors on either registry and context, passes, new entities, dropping the schedule
static void histories(unsigned workers, int depth, int place) {
    Setup su;
    State& s = su.s;
    auto sc = std::make_unique<schedule>();
    // the same choice of signature in the places a system can be in
    auto to = [&](int p) {
        return [&, p](auto&& f) {
            if (p == 0) sc->add_init_system(std::forward<decltype(f)>(f));
            else if (p == 1) sc->begin_stage("a").add_system(std::forward<decltype(f)>(f));
            else sc->begin_stage("b").add_system(main_thread_execution_policy, std::forward<decltype(f)>(f));
        };
    };
    unsigned init_systems = 0;
    if (place == 3) { // one of each, fixed signatures
        sig<CW, U, VA>(to(0));
        sig<VAB, U, CW>(to(1));
        sig<U, VC, R>(to(2));
        sig<>(to(1));
        init_systems = 1;
    } else {
        pick_sig(to(place));
        if (place == 0) init_systems = 1;
    }
    thread_pool p(workers);
    std::unique_ptr<schedule_executor> ex[3];
    int nex = 0, pass = 0;
    for (int step = 0; step < depth; ++step) {
        // 0-3: create an executor, 4-6: a pass of one, 7: an entity, 8: the schedule goes, 9: an executor goes
        std::vector<int> ops;
        if (sc && nex < 3)
            for (int k = 0; k < 4; ++k) ops.push_back(k);
        for (int k = 0; k < nex; ++k)
            if (ex[k]) ops.push_back(4 + k);
        if (nex) ops.push_back(7);
        if (sc && nex) ops.push_back(8);
        for (int k = 0; k < nex; ++k)
            if (ex[k]) ops.push_back(10 + k);
        if (ops.empty()) break;
        int op = ops[mcapi::choose(unsigned(ops.size()))];
        if (op < 4) {
            mcapi::log("executor %d is created for registry %d and context %d", nex, op & 1, op >> 1);
            s.cur = nex;
            s.ex[nex] = Rec{ op & 1, op >> 1 ? &s.ctx[op & 1] : nullptr };
            // context 0 is the default argument
            ex[nex] = op >> 1 ? sc->create_executor(s.w[op & 1]->r, s.ex[nex].ctx) : sc->create_executor(s.w[op & 1]->r);
            for (int i = 0; i < s.nsys; ++i) {
                int want = unsigned(i) < init_systems ? 1 : 0;
                MCHECK(s.ex[nex].runs[i] == want, "system %d ran %d times when executor %d was created, expected %d", i, s.ex[nex].runs[i], nex, want);
            }
            ++nex;
        } else if (op < 7) {
            int k = op - 4;
            mcapi::log("a pass of executor %d", k);
            s.cur = k;
            ex[k]->run_once();
            s.ex[k].passes++;
            for (int i = 0; i < s.nsys; ++i) {
                int want = unsigned(i) < init_systems ? 1 : s.ex[k].passes;
                MCHECK(s.ex[k].runs[i] == want, "executor %d: system %d ran %d times in %d passes", k, i, s.ex[k].runs[i], s.ex[k].passes);
            }
            ++pass;
        } else if (op == 7) {
            mcapi::log("new entities");
            su.w0.add(step & 1), su.w1.add(!(step & 1));
        } else if (op == 8) {
            mcapi::log("the schedule is destroyed");
            sc.reset();
        } else {
            mcapi::log("executor %d is destroyed", op - 10);
            ex[op - 10].reset();
        }
        s.cur = -1;
        check_world(su.w0, "afterwards");
        check_world(su.w1, "afterwards");
    }
    mcapi::outcome(uint64_t(nex * 100 + pass));
}
// systems as objects: names, and executors of one system for two registries run in any order
static void plain_function(view<A&>) {}
static void objects(int depth) {
    Setup su;
    State& s = su.s;
    s.nsys = 1;
    std::unique_ptr<system_interface> sys;
    std::string name;
    std::string_view type;
    switch (mcapi::choose(5)) {
    case 0: sys = std::make_unique<co_ecs::system<Fn<U, VA>>>(Fn<U, VA>{ 0 }), type = type_name<Fn<U, VA>>(); break;
    case 1: sys = std::make_unique<named_system<Fn<VC, CW, U>>>(Fn<VC, CW, U>{ 0 }, "Named"), name = "Named", type = type_name<Fn<VC, CW, U>>(); break;
    case 2: sys = std::make_unique<named_system<Fn<R>>>(Fn<R>{ 0 }, "other name"), name = "other name", type = type_name<Fn<R>>(); break;
    case 3: sys = std::make_unique<named_system<Fn<>>>(Fn<>{ 0 }, ""), type = type_name<Fn<>>(); break;
    default:
        auto m = CO_ECS_MAKE_NAMED_SYSTEM(plain_function);
        auto e = m->create_executor(su.w0.r, nullptr);
        m.reset();
        MCHECK(e->name() == "plain_function", "the executor of a named function is called '%s'", std::string(e->name()).c_str());
        return;
    }
    std::unique_ptr<system_executor_interface> ex[2];
    for (int k = 0; k < 2; ++k) {
        s.cur = k;
        s.ex[k] = Rec{ k, &s.ctx[k] };
        ex[k] = sys->create_executor(s.w[k]->r, &s.ctx[k]);
    }
    if (mcapi::choose(2)) sys.reset();
    for (int step = 0; step < depth; ++step) {
        int k = int(mcapi::choose(2));
        s.cur = k;
        MCHECK(ex[k]->name() == name, "the executor of a system named '%s' is called '%s'", name.c_str(), std::string(ex[k]->name()).c_str());
        MCHECK(ex[k]->type_name() == type, "the executor of a system of type %s reports type %s", std::string(type).c_str(), std::string(ex[k]->type_name()).c_str());
        ex[k]->run();
        MCHECK(s.ex[k].runs[0] == ++s.ex[k].passes, "running the executor of a system called its function %d times", s.ex[k].runs[0] - s.ex[k].passes + 1);
        if (mcapi::choose(2)) {
            command_buffer::flush(su.w0.r); // commands of either executor are for the registry played into: keep them apart
            (void)0;
        }
    }
    mcapi::outcome(uint64_t(s.ex[0].passes));
}

int main(int argc, char** argv) {
    using Bs = std::vector<mcapi::Bound>;
    Bs d0{ { 0, 0, 0, 0 } }, d1{ { 1, 1, 0, 0 } };
    auto add = [](const char* n, std::function<void()> f, Bs q, Bs t) { mcapi::add(n, f, q, t, 60, 1500); };
    bool quick = mcapi::quick();
    (void)quick;
    add("C23.worker", [] { histories(1, mcapi::quick() ? 4 : 5, 1); }, d0, d0);
    add("C23.main", [] { histories(1, mcapi::quick() ? 4 : 5, 2); }, d0, d0);
    add("C23.init", [] { histories(1, mcapi::quick() ? 3 : 5, 0); }, d0, d0);
    add("C23.mixed", [] { histories(2, mcapi::quick() ? 6 : 7, 3); }, d0, d0);
    add("C23.objects", [] { objects(mcapi::quick() ? 5 : 8); }, d0, d0);
    return mcapi::main(argc, argv);
}
