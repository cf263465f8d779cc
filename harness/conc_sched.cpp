// C12: systems with conflicting access never overlap. C13: every system runs once per pass, stages are barriers.
#include "../lib/mcapi.hpp"
#include <algorithm>
#include <array>
#include <deque>
#include <string>
#include <utility>
#include <ranges>
#include <co_ecs/co_ecs.hpp>
#include <co_ecs/system/named_system.hpp>
#include <co_ecs/system/schedule.hpp>

using namespace co_ecs;
using mcapi::Quiet;

struct A {
    int v = 0;
};
struct B {
    int v = 0;
};
struct Mark {
    int by = 0;
};

// what a system may do, stated independently of the library's access patterns
struct Access {
    uint64_t read, write; // bit 0: A, bit 1: B
    int all;              // whole registry: 0 no, 1 read, 2 write
    bool cmd;
};
static bool conflict(const Access& a, const Access& b) {
    if ((a.write & (b.read | b.write)) || (b.write & (a.read | a.write))) return true;
    auto touches = [](const Access& x) { return x.read || x.write || x.all || x.cmd; };
    if ((a.all == 2 && touches(b)) || (b.all == 2 && touches(a))) return true;
    return (a.all == 1 && b.write) || (b.all == 1 && a.write);
}

enum Sig { NONE, RA, WA, RB, WB, RAWB, WA_RB, RWA, CMD, REG, CREG, CMD_RA, CMD_REG, NSIG, WRA = NSIG, REG_CMD, REG_RA, CREG_WA, WARB1, E_WA, RB_WA, RAB_RA_WB, NVIEW, CUSTOM_R = NVIEW, CUSTOM_W, CUSTOM_NONE_B, NALL };
static const Access access_of[NALL] = {
    { 0, 0, 0, false },
    { 1, 0, 0, false },
    { 0, 1, 0, false },
    { 2, 0, 0, false },
    { 0, 2, 0, false },
    { 1, 2, 0, false },
    { 2, 1, 0, false },
    { 1, 1, 0, false },
    { 0, 0, 0, true },
    { 3, 3, 2, false },
    { 3, 0, 1, false },
    { 1, 0, 0, true },
    { 3, 3, 2, true },
    { 1, 1, 0, false },
    { 3, 3, 2, true },
    { 3, 3, 2, false },
    { 3, 1, 1, false },
    { 2, 1, 0, false },
    { 0, 1, 0, false },
    { 2, 1, 0, false },
    { 3, 2, 0, false },
    { 3, 0, 1, false },
    { 3, 3, 2, false },
    { 0, 2, 0, false },
};
static const char* const sig_name[NALL] = { "()", "(view<const A>)", "(view<A>)", "(view<const B>)", "(view<B>)", "(view<const A, B>)", "(view<A>, view<const B>)", "(view<const A>, view<A>)", "(command_writer)", "(registry)",
    "(const registry)", "(command_writer, view<const A>)", "(command_writer, registry)", "(view<A>, view<const A>)",
    "(registry, command_writer)", "(registry, view<const A>)", "(const registry, view<A>)", "(view<A, const B>)", "(view<const entity, A>)", "(view<const B>, view<A>)", "(view<const A, const B>, view<const A>, view<B>)", "custom(reads everything)", "custom(writes everything)", "custom(writes B)" };

// many types: the ids of the types used lie on both sides of multiples of 32 and 64
template<int I>
struct Many {
    int v = I;
};
// the first NMANY of them also have systems that take views
constexpr int many_ids[] = { 2, 3, 15, 16, 17, 30, 31, 32, 33, 62, 63, 64, 65, 100, 126, 127, 128, 129, 191, 192, 193, 254, 255, 256, 257, 300, 310, 319,
    4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 110, 111, 112, 113, 114, 115, 116, 117, 118, 119, 120, 301, 302, 303, 304, 305, 306, 307, 308, 309, 311, 312 };
constexpr int NALLMANY = int(std::size(many_ids)), NMANY = 28, MANY = 1000; // signature MANY + 2 * k + (1 if it writes)
constexpr int MANY_ALL = 2000, MANY_MASK = 3000;            // every type of many_ids; MANY_MASK: custom pattern, from masks
struct Mask {
    uint64_t read, write;
};
static_assert(NALLMANY <= 62);
static std::vector<Mask> masks; // the access of signature MANY_MASK + i
static Access get_access(int sig) {
    if (sig >= MANY_MASK) return { masks[size_t(sig - MANY_MASK)].read << 2, masks[size_t(sig - MANY_MASK)].write << 2, 0, false };
    if (sig >= MANY_ALL) return { 0, 0, 0, false };
    if (sig >= MANY) { uint64_t bit = uint64_t(4) << ((sig - MANY) / 2); return sig & 1 ? Access{ 0, bit, 0, false } : Access{ bit, 0, 0, false }; }
    return access_of[sig];
}
static const char* get_name(int sig) {
    static std::deque<std::string> names;
    if (sig < NALL) return sig_name[sig];
    Quiet q;
    if (sig >= MANY_MASK) {
        auto m = masks[size_t(sig - MANY_MASK)];
        names.push_back("custom(reads " + std::to_string(m.read) + ", writes " + std::to_string(m.write) + ")");
    } else names.push_back("(view<" + std::string(sig & 1 ? "" : "const ") + "type with id " + std::to_string(many_ids[(sig - MANY) / 2]) + ">)");
    return names.back().c_str();
}

struct Sys {
    int sig, stage; // stage -1: init
    bool main;
    int runs, running;
    Access access;
    const char* name;
};
struct World {
    std::deque<Sys> s;
    int n = 0;
    int pass = 0; // number of passes that have begun
    bool in_init = false;
    int overlap = 0;
    uint64_t order = 5;
    int cmds_expected = 0;
    int main_thread;
};
static World* W;
static int relaxes = 1;

static void begin(int i) {
    Quiet q;
    Sys& s = W->s[size_t(i)];
    mcapi::log("system %d %s%s of stage %d starts", i, s.name, s.main ? " (main thread)" : "", s.stage);
    s.runs++;
    MCHECK(!s.running, "system %d runs twice at the same time", i);
    MCHECK(!s.main || mcapi::self() == W->main_thread, "main-thread system %d runs on another thread", i);
    int want = s.stage < 0 ? 1 : W->pass;
    MCHECK(s.runs <= want, "system %d %s%s ran %d times in %d pass(es)", i, s.name, s.main ? " (main thread)" : "", s.runs, want);
    MCHECK((s.stage < 0) == W->in_init, "system %d runs %s", i, W->in_init ? "during initialisation" : "as init system during a pass");
    s.running = 1;
    for (int j = 0; j < W->n; ++j) {
        const Sys& o = W->s[size_t(j)];
        if (j == i) continue;
        if (o.running) {
            W->overlap++;
            MCHECK(o.stage == s.stage, "system %d of stage %d runs while system %d of stage %d runs", i, s.stage, j, o.stage);
            MCHECK(!conflict(s.access, o.access), "system %d %s%s and system %d %s%s run at the same time", i, s.name, s.main ? " (main thread)" : "", j, o.name, o.main ? " (main thread)" : "");
        }
        if (!W->in_init && o.stage >= 0) {
            if (o.stage < s.stage) MCHECK(o.runs == W->pass && !o.running, "system %d of stage %d starts before system %d of stage %d has run", i, s.stage, j, o.stage);
            if (o.stage > s.stage) MCHECK(o.runs == W->pass - 1, "system %d of stage %d ran before system %d of stage %d", j, o.stage, i, s.stage);
        }
    }
    W->order = W->order * 31 + uint64_t(i);
}
static void middle() {
    // let the others go on if they can: whatever may overlap with this system starts now
    for (int k = 0; k < relaxes; ++k) mcapi::relax();
    mcapi::point("in a system");
}
static void end(int i) {
    Quiet q;
    mcapi::log("system %d ends", i);
    W->s[size_t(i)].running = 0;
}
struct Scope {
    int i;
    explicit Scope(int i) : i(i) {
        begin(i);
        middle();
    }
    ~Scope() { end(i); }
};

static component_meta many_meta(int k);
static access_pattern_t mask_pattern(Mask m) {
    access_pattern_t p;
    for (int k = 0; k < NALLMANY; ++k) {
        if (m.read >> k & 1) p &= access_pattern_t(access_type::read, many_meta(k));
        if (m.write >> k & 1) p &= access_pattern_t(access_type::write, many_meta(k));
    }
    return p;
}
// a user's own implementation of the interface
struct custom_executor : system_executor_interface {
    int i;
    access_pattern_t p;
    custom_executor(int i, access_pattern_t p) : i(i), p(p) {}
    void run() override { Scope s(i); }
    auto name() const -> std::string_view override { return "custom"; }
    auto type_name() const -> std::string_view override { return "custom"; }
    auto access_pattern() const -> access_pattern_t override { return p; }
};
struct custom_system : system_interface {
    int i, sig;
    custom_system(int i, int sig) : i(i), sig(sig) {}
    std::unique_ptr<system_executor_interface> create_executor(registry&, void*) override {
        access_pattern_t p;
        if (sig == CUSTOM_R) p = access_pattern_t(access_type::read);
        if (sig == CUSTOM_W) p = access_pattern_t(access_type::write);
        if (sig == CUSTOM_NONE_B) p = access_pattern_t(access_type::write, component_meta::of<B>());
        if (sig >= MANY_MASK) p = mask_pattern(masks[size_t(sig - MANY_MASK)]);
        return std::make_unique<custom_executor>(i, p);
    }
};

static void record(command_writer& c, int i) {
    c.create<Mark>({ i });
    Quiet q;
    W->cmds_expected++;
}
static void read_a(view<const A&>& v) {
    int sum = 0;
    v.each([&](const A& a) { sum += a.v; });
    (void)sum;
}
static void write_a(view<A&>& v) {
    v.each([](A& a) { a.v++; });
}
template<int... I>
static void name_types(std::integer_sequence<int, I...>) { // gives Many<I> the id I if nothing else had one
    (void)(0 + ... + int(component_id::value<Many<I>>));
}
template<size_t... K>
static void with_many(int i, int sig, auto&& f, std::index_sequence<K...>) {
    ([&] {
        if (sig == MANY + 2 * int(K)) f([i](view<const Many<many_ids[K]>&> v) { Scope s(i); v.each([](const Many<many_ids[K]>& m) { volatile int x = m.v; (void)x; }); });
        if (sig == MANY + 2 * int(K) + 1) f([i](view<Many<many_ids[K]>&> v) { Scope s(i); v.each([](Many<many_ids[K]>& m) { m.v++; }); });
    }(), ...);
}
static component_meta many_meta(int k) {
    static const auto metas = []<size_t... K>(std::index_sequence<K...>) { return std::array{ component_meta::of<Many<many_ids[K]>>()... }; }(std::make_index_sequence<NALLMANY>());
    return metas[size_t(k)];
}
// adds system i of signature sig through f
static void with_system(int i, int sig, auto&& f) {
    if (sig >= MANY && sig < MANY_ALL) return with_many(i, sig, f, std::make_index_sequence<NMANY>());
    switch (sig) {
    case NONE: return f([i]() { Scope s(i); });
    case RA: return f([i](view<const A&> v) { Scope s(i); read_a(v); });
    case WA: return f([i](view<A&> v) { Scope s(i); write_a(v); });
    case RB: return f([i](view<const B&> v) { Scope s(i); v.each([](const B& b) { volatile int x = b.v; (void)x; }); });
    case WB: return f([i](view<B&> v) { Scope s(i); v.each([](B& b) { b.v++; }); });
    case RAWB: return f([i](view<const A&, B&> v) { Scope s(i); v.each([](const A& a, B& b) { b.v += a.v; }); });
    case WA_RB: return f([i](view<A&> v, view<const B&>) { Scope s(i); write_a(v); });
    case RWA: return f([i](view<const A&>, view<A&> v) { Scope s(i); write_a(v); });
    case CMD: return f([i](command_writer c) { Scope s(i); record(c, i); });
    case REG: return f([i](registry& r) { Scope s(i); r.create<A>({ i }); });
    case CREG: return f([i](const registry& r) { Scope s(i); (void)r.size(); });
    case CMD_RA: return f([i](command_writer c, view<const A&> v) { Scope s(i); read_a(v); record(c, i); });
    case CMD_REG: return f([i](command_writer c, registry& r) { Scope s(i); r.create<B>({ i }); record(c, i); });
    case WRA: return f([i](view<A&> v, view<const A&>) { Scope s(i); write_a(v); });
    case REG_CMD: return f([i](registry& r, command_writer c) { Scope s(i); r.create<B>({ i }); record(c, i); });
    case REG_RA: return f([i](registry& r, view<const A&> v) { Scope s(i); r.create<B>({ i }); read_a(v); });
    case CREG_WA: return f([i](const registry& r, view<A&> v) { Scope s(i); (void)r.size(); write_a(v); });
    case WARB1: return f([i](view<A&, const B&> v) { Scope s(i); v.each([](A& a, const B& b) { a.v += b.v; }); });
    case E_WA: return f([i](view<const entity&, A&> v) { Scope s(i); v.each([](const entity&, A& a) { a.v++; }); });
    case RB_WA: return f([i](view<const B&>, view<A&> v) { Scope s(i); write_a(v); });
    case RAB_RA_WB: return f([i](view<const A&, const B&>, view<const A&> v, view<B&> w) { Scope s(i); read_a(v); w.each([](B& b) { b.v++; }); });
    default: return f(std::unique_ptr<custom_system>(new custom_system(i, sig)));
    }
}
static int add(stage& st, int stageno, int sig, bool main) {
    int i;
    {
        Quiet q;
        i = W->n++;
        W->s.push_back(Sys{ sig, stageno, main, 0, 0, get_access(sig), get_name(sig) });
    }
    with_system(i, sig, [&](auto&& f) {
        if (main) st.add_system(main_thread_execution_policy, std::forward<decltype(f)>(f));
        else st.add_system(std::forward<decltype(f)>(f));
    });
    return i;
}
static void add_init(schedule& sc, int sig) {
    int i;
    {
        Quiet q;
        i = W->n++;
        W->s.push_back(Sys{ sig, -1, false, 0, 0, get_access(sig), get_name(sig) });
    }
    with_system(i, sig, [&](auto&& f) { sc.add_init_system(std::forward<decltype(f)>(f)); });
}
static int marks(registry& r) {
    int n = 0;
    r.each([&](const Mark&) { ++n; });
    return n;
}
static void populate(registry& r) {
    r.create<A>({ 1 });
    r.create<A, B>({ 2 }, { 3 });
    r.create<B>({ 4 });
}
// runs the schedule for some passes and checks counts and commands
static void run_all(schedule& sc, unsigned workers, int executors, int passes) {
    registry r;
    populate(r);
    thread_pool p(workers);
    for (int e = 0; e < executors; ++e) {
        {
            Quiet q;
            for (int i = 0; i < W->n; ++i) W->s[size_t(i)].runs = 0;
            W->pass = 0;
            W->in_init = true;
        }
        auto ex = sc.create_executor(r);
        {
            Quiet q;
            W->in_init = false;
            for (int i = 0; i < W->n; ++i)
                if (W->s[size_t(i)].stage < 0) MCHECK(W->s[size_t(i)].runs == 1, "executor %d: init system %d ran %d times", e, i, W->s[size_t(i)].runs);
        }
        MCHECK(marks(r) == W->cmds_expected, "%d commands were recorded by init systems, %d were applied when the executor had been created", W->cmds_expected, marks(r));
        for (int k = 0; k < passes; ++k) {
            {
                Quiet q;
                W->pass++;
            }
            ex->run_once();
            {
                Quiet q;
                for (int i = 0; i < W->n; ++i) {
                    const Sys& s = W->s[size_t(i)];
                    MCHECK(!s.running, "system %d is still running after the pass", i);
                    if (s.stage >= 0) MCHECK(s.runs == W->pass, "executor %d: system %d %s%s of stage %d ran %d times in %d pass(es)", e, i, s.name, s.main ? " (main thread)" : "", s.stage, s.runs, W->pass);
                }
            }
            MCHECK(marks(r) == W->cmds_expected, "%d commands were recorded, %d were applied when the pass was over", W->cmds_expected, marks(r));
        }
    }
    mcapi::outcome(W->order + uint64_t(W->overlap) * 7919);
}
struct Setup {
    World w;
    Setup() {
        w.main_thread = mcapi::self();
        W = &w;
    }
};
static void pick_system(stage& st, int stageno, const std::vector<int>& alphabet, bool may_main) {
    int sig = alphabet[mcapi::choose(unsigned(alphabet.size()))];
    bool main = may_main && mcapi::choose(2);
    add(st, stageno, sig, main);
}

// one stage of n systems over an alphabet
static void one_stage(unsigned workers, int n, std::vector<int> alphabet, bool may_main, int rel) {
    Setup s;
    relaxes = rel;
    schedule sc;
    auto& st = sc.begin_stage("stage");
    for (int k = 0; k < n; ++k) pick_system(st, 0, alphabet, may_main);
    run_all(sc, workers, 1, 1);
}
// several stages, each empty or with up to n systems, init systems, passes and executors
static void stages(unsigned workers, int nst, int maxsys, std::vector<int> alphabet, int executors, int passes, int rel, bool inits = true) {
    Setup s;
    relaxes = rel;
    schedule sc;
    int init = inits ? int(mcapi::choose(4)) : 0; // none, one, two compatible, two conflicting ones
    if (init >= 1) add_init(sc, init == 3 ? REG : CMD);
    if (init >= 2) add_init(sc, init == 3 ? CMD : RA);
    for (int k = 0; k < nst; ++k) {
        auto& st = sc.begin_stage("stage");
        int n = int(mcapi::choose(unsigned(maxsys) + 1));
        for (int j = 0; j < n; ++j) pick_system(st, k, alphabet, true);
        st.end_stage();
    }
    run_all(sc, workers, executors, passes);
}
// two or three systems over types whose ids are far apart
static void many_types(unsigned workers, int rel) {
    Setup s;
    relaxes = rel;
    name_types(std::make_integer_sequence<int, 320>());
    schedule sc;
    auto& st = sc.begin_stage("stage");
    int a = int(mcapi::choose(2 * NMANY)), b = int(mcapi::choose(2 * NMANY));
    bool main = mcapi::choose(2);
    add(st, 0, MANY + a, false);
    add(st, 0, MANY + b, main);
    run_all(sc, workers, 1, 1);
}
// patterns made of many types each
static void many_masks(unsigned workers, int rel) {
    Setup s;
    relaxes = rel;
    name_types(std::make_integer_sequence<int, 320>());
    schedule sc;
    auto& st = sc.begin_stage("stage");
    {
        Quiet q;
        masks.clear();
    }
    static const int sizes[] = { 2, 15, 16, 17, 31, 32, 33, NALLMANY };
    unsigned size = unsigned(sizes[mcapi::choose(unsigned(std::size(sizes)))]), k = mcapi::choose(size), shape = mcapi::choose(6), order = mcapi::choose(2), main = mcapi::choose(2);
    uint64_t full = (uint64_t(1) << size) - 1, one = uint64_t(1) << k;
    Mask m[6][2] = { { { full, 0 }, { 0, one } }, { { full & ~one, 0 }, { 0, one } }, { { 0, full }, { one, 0 } }, { { 0, full & ~one }, { one, 0 } }, { { full, one }, { full, 0 } }, { { full, 0 }, { full, 0 } } };
    for (unsigned j = 0; j < 2; ++j) {
        {
            Quiet q;
            masks.push_back(m[shape][j ^ order]);
        }
        add(st, 0, MANY_MASK + int(j), main && j);
    }
    run_all(sc, workers, 1, 1);
}
// a batch of many systems of one type each, then one that conflicts with the k-th of them
static void many_members(unsigned workers, int rel) {
    Setup s;
    relaxes = rel;
    name_types(std::make_integer_sequence<int, 320>());
    {
        Quiet q;
        masks.clear();
    }
    schedule sc;
    auto& st = sc.begin_stage("stage");
    int k = int(mcapi::choose(NALLMANY)), shape = int(mcapi::choose(3));
    bool main = mcapi::choose(2);
    for (int j = 0; j <= NALLMANY; ++j) {
        uint64_t bit = uint64_t(1) << (j < NALLMANY ? j : k);
        bool last = j == NALLMANY, writes = shape == 0 || (shape == 1) != last;
        {
            Quiet q;
            masks.push_back(writes ? Mask{ 0, bit } : Mask{ bit, 0 });
        }
        add(st, 0, MANY_MASK + j, main && last);
    }
    run_all(sc, workers, 1, 1);
}
// stages of up to 65 systems, up to 65 stages and init systems
static void many_systems(unsigned workers, int rel) {
    Setup s;
    mcapi::opts().horizon = 4000000;
    relaxes = rel;
    name_types(std::make_integer_sequence<int, 320>());
    static const int sizes[] = { 8, 9, 16, 17, 31, 32, 33, 63, 64, 65 };
    int n = sizes[mcapi::choose(workers == 3 ? 7 : unsigned(std::size(sizes)))];
    unsigned shape = mcapi::choose(5), mains = mcapi::choose(4), what = mcapi::choose(2);
    schedule sc;
    auto sig = [&](int i) {
        switch (shape) {
        case 0: return int(RA);
        case 1: return int(WA);
        case 2: return int(i % 3 ? RA : WA);
        case 3: return MANY + 2 * (i % NMANY) + 1;
        default: return i % 5 == 0 ? int(CMD) : i % 7 == 0 ? int(REG) : MANY + 2 * (i * 7 % NMANY) + (i & 1);
        }
    };
    auto main = [&](int i) { return mains == 0 ? false : mains == 1 ? i % 2 == 1 : mains == 2 ? i % 7 == 0 : i >= n / 2; };
    if (what == 0) {
        for (int i = 0; i < n; ++i) add_init(sc, sig(i));
        auto& st = sc.begin_stage("stage");
        for (int i = 0; i < n; ++i) add(st, 0, sig(i), main(i));
        run_all(sc, workers, 1, 2);
    } else {
        for (int i = 0; i < n; ++i) {
            auto& st = sc.begin_stage("stage");
            for (int j = 0; j <= i % 3; ++j) add(st, i, sig(i * 3 + j), main(i + j));
            st.end_stage();
        }
        run_all(sc, workers, workers == 3 ? 1 : 2, 1);
    }
}
// many passes and many executors
static void many_passes(unsigned workers, int rel) {
    Setup s;
    mcapi::opts().horizon = 4000000;
    relaxes = rel;
    schedule sc;
    unsigned what = mcapi::choose(3);
    add_init(sc, CMD);
    auto& st = sc.begin_stage("stage");
    add(st, 0, CMD, false), add(st, 0, WA, false), add(st, 0, RA, false), add(st, 0, WB, true);
    sc.begin_stage("empty");
    auto& last = sc.begin_stage("last");
    add(last, 2, RAWB, false), add(last, 2, CMD_RA, true);
    run_all(sc, workers, what == 0 ? 1 : what == 1 ? 40 : 8, what == 0 ? 140 : what == 1 ? 2 : 15);
}
static int named_runs;
static void named_function(view<const A&>) {
    Quiet q;
    named_runs++;
}
// named systems, and systems that iterate in parallel or record commands from nested tasks
static void parallel_systems(unsigned workers) {
    Setup s;
    relaxes = 0;
    {
        Quiet q;
        named_runs = 0;
    }
    registry r;
    for (int i = 0; i < 5; ++i) r.create<A>({ i });
    schedule sc;
    auto& st = sc.begin_stage("first");
    st.add_system([](view<A&> v) { v.par_each([](A& a) { a.v += 10; }); });
    st.add_system([](view<A&> v) { v.par_each([](A& a) { a.v *= 2; }); });
    st.add_system(CO_ECS_MAKE_NAMED_SYSTEM(named_function));
    st.end_stage();
    sc.begin_stage("second").add_system([](command_writer c, view<const A&> v) { v.each([&](const A& a) { if (a.v % 2 == 0) c.create<Mark>({ a.v }); }); }).add_system(main_thread_execution_policy, [](view<const A&> v) { read_a(v); });
    thread_pool p(workers);
    auto ex = sc.create_executor(r);
    ex->run_once();
    int n = 0, sum = 0;
    r.each([&](const A& a) { ++n, sum += a.v; });
    int first = 0, second = 0; // (v+10)*2 or v*2+10
    for (int i = 0; i < 5; ++i) first += (i + 10) * 2, second += i * 2 + 10;
    MCHECK(n == 5 && (sum == first || sum == second), "two writers of one component left the sum %d, one after the other gives %d or %d", sum, first, second);
    MCHECK(named_runs == 1, "the named system ran %d times", named_runs);
    MCHECK(marks(r) == 5, "%d of 5 commands were applied", marks(r));
    mcapi::outcome(uint64_t(sum));
}

int main(int argc, char** argv) {
    using Bs = std::vector<mcapi::Bound>;
    auto add = [](const char* n, std::function<void()> f, Bs q, Bs t) { mcapi::add(n, f, q, t, 40, 1500); };
    Bs d0{ { 0, 0, 0, 0 } }, d1{ { 1, 1, 0, 0 } }, d2{ { 2, 2, 0, 0 } }, d2s{ { 2, 2, 1, 1 } }, d3{ { 3, 3, 1, 1 } };
    std::vector<int> every, pairs{ NONE, RA, WA, WB, CMD, REG }, custom{ RA, WB, CMD, CREG, CUSTOM_R, CUSTOM_W, CUSTOM_NONE_B };
    for (int i = 0; i < NSIG; ++i) every.push_back(i);
    std::vector<int> all = every;
    for (int i = NSIG; i < NVIEW; ++i) all.push_back(i);
    all.insert(all.end(), { CUSTOM_R, CUSTOM_W, CUSTOM_NONE_B });
    std::vector<int> mixed{ RA, WB, WRA, REG_CMD, CREG_WA, WARB1, RAB_RA_WB };
    std::vector<int> few{ RA, WA, REG, CMD }, min{ WA, CMD };

    // every stage of this size, under the schedules that overlap as much as the scheduler admits
    add("C12.pairs-w2", [=] { one_stage(2, 2, all, true, 1); }, d1, d3);
    add("C12.triples-mixed-w2", [=] { one_stage(2, 3, mixed, true, 1); }, d0, d1);
    add("C12.triples-w2", [=] { one_stage(2, 3, every, true, 1); }, d0, d1);
    add("C12.triples-w3", [=] { one_stage(3, 3, pairs, true, 1); }, d0, d2);
    add("C12.custom-w2", [=] { one_stage(2, 3, custom, true, 1); }, d0, d1);
    add("C12.quads-w3", [=] { one_stage(3, 4, pairs, true, 2); }, d0, d1);
    add("C12.pairs-sched-w2", [=] { one_stage(2, 2, few, true, 0); }, d2, d3);
    add("C12.parallel-w2", [=] { parallel_systems(2); }, d2, d3);

    add("C12.many-types-w2", [=] { many_types(2, 1); }, d0, d1);
    add("C12.many-masks-w2", [=] { many_masks(2, 1); }, d0, d1);
    add("C12.many-members-w2", [=] { many_members(2, 1); }, d0, d0);
    add("C12.many-members-w3", [=] { many_members(3, 1); }, d0, d0);
    add("C12.many-systems-w3", [=] { many_systems(3, 1); }, d0, d0);
    add("C12.many-systems-w2", [=] { many_systems(2, 1); }, d0, d0);
    add("C13.many-systems-w1", [=] { many_systems(1, 0); }, d0, d0);
    add("C13.many-systems-w2", [=] { many_systems(2, 1); }, d0, d0);
    add("C13.many-passes-w2", [=] { many_passes(2, 1); }, d0, d0);
    add("C13.one-stage-w1", [=] { one_stage(1, 3, every, true, 0); }, d0, d0);
    add("C13.one-stage-w2", [=] { one_stage(2, 2, all, true, 1); }, d1, d3);
    add("C13.stages-w1", [=] { stages(1, 2, 2, few, 2, 2, 0); }, d0, d0);
    add("C13.stages-w2", [=] { stages(2, 2, 2, few, 1, 2, 1); }, d0, d1);
    add("C13.executors-w2", [=] { stages(2, 2, 1, few, 2, 2, 1); }, d0, d1);
    add("C13.three-stages-w2", [=] { stages(2, 3, 1, min, 1, 1, 1); }, d1, d2);
    add("C13.sched-w2", [=] { stages(2, 2, 1, min, 1, 1, 0, false); }, d2, d3);
    add("C13.sched-w3", [=] { stages(3, 1, 2, min, 1, 1, 1); }, d1, d2);
    add("C13.parallel-w2", [=] { parallel_systems(2); }, d1, d2);
    return mcapi::main(argc, argv);
}
