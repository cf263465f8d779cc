// Component types of every category the library has to treat alike (trivially copyable of many sizes, empty, over-aligned, copy-only,
// move-only, self-referential, with initialiser-list, forwarding or overloaded special functions, library types ...): every short
// sequence of operations on two registries and the command buffer, for every type, all bytes compared after every operation.
#include "../lib/explore.hpp"
#include <co_ecs/co_ecs.hpp>
#include "../lib/blocks.hpp"
#include <co_ecs/command.hpp>
#include <co_ecs/detail/hash_map.hpp>
#include <co_ecs/detail/sparse_map.hpp>
#include <algorithm>
#include <map>
#include <array>
#include <functional>
#include <memory>
#include <optional>
#include <string>
#include <variant>
#include <vector>

using namespace co_ecs;

static int g_live; // objects of counting types

// ---- the types -----------------------------------------------------------------------------------------------------
inline unsigned char byte_of(int v, size_t i) { return (unsigned char)(unsigned(v) * 37u + unsigned(i) * 101u + unsigned(i >> 8) * 7u + 1u); }

template<size_t N>
struct Bytes { // trivially copyable
    unsigned char b[N];
};
template<size_t N, size_t Al>
struct alignas(Al) Aligned { // trivially copyable, over-aligned, padding at the end
    unsigned char b[N];
};
struct EmptyTrivial {};
struct EmptyCounted { // no data, but lifetimes
    EmptyCounted() { ++g_live; }
    EmptyCounted(const EmptyCounted&) noexcept { ++g_live; }
    EmptyCounted(EmptyCounted&&) noexcept { ++g_live; }
    EmptyCounted& operator=(const EmptyCounted&) noexcept = default;
    ~EmptyCounted() { --g_live; }
};
struct SelfPtr { // knows where it is
    SelfPtr* self;
    int v;
    explicit SelfPtr(int x) noexcept : self(this), v(x) { ++g_live; }
    SelfPtr(const SelfPtr& o) noexcept : self(this), v(o.v) { ++g_live; }
    SelfPtr(SelfPtr&& o) noexcept : self(this), v(o.v) { o.v = -1, ++g_live; }
    SelfPtr& operator=(const SelfPtr& o) noexcept { v = o.v; return *this; }
    SelfPtr& operator=(SelfPtr&& o) noexcept { int x = o.v; o.v = -1, v = x; return *this; } // self-move keeps the value
    ~SelfPtr() { self = nullptr, --g_live; }
};
struct SelfMoveClears { // like a container: moving to itself loses the value
    int v;
    char more[60];
    explicit SelfMoveClears(int x) noexcept : v(x) { fill(); }
    SelfMoveClears(const SelfMoveClears& o) noexcept : v(o.v) { fill(); }
    SelfMoveClears(SelfMoveClears&& o) noexcept : v(o.v) { o.v = -1, fill(); }
    SelfMoveClears& operator=(const SelfMoveClears& o) noexcept { v = o.v, fill(); return *this; }
    SelfMoveClears& operator=(SelfMoveClears&& o) noexcept { v = o.v, o.v = -1, fill(); return *this; }
    void fill() { for (auto& c : more) c = char(v); }
};
struct CopyOnly { // no move operations: moving copies
    int v;
    explicit CopyOnly(int x) noexcept : v(x) { ++g_live; }
    CopyOnly(const CopyOnly& o) noexcept : v(o.v) { ++g_live; }
    CopyOnly& operator=(const CopyOnly& o) noexcept { v = o.v; return *this; }
    ~CopyOnly() { --g_live; }
};
struct MoveOnly {
    int v, w[5];
    explicit MoveOnly(int x) noexcept : v(x) { for (auto& i : w) i = ~x; ++g_live; }
    MoveOnly(MoveOnly&& o) noexcept : v(o.v) { for (int i = 0; i < 5; ++i) w[i] = o.w[i]; o.v = -1, ++g_live; }
    MoveOnly& operator=(MoveOnly&& o) noexcept { if (this != &o) { v = o.v, o.v = -1; for (int i = 0; i < 5; ++i) w[i] = o.w[i]; } return *this; }
    ~MoveOnly() { --g_live; }
};
struct TrivialDtor { // nothing to destroy, but moving and copying matter
    int v, at;
    static int tag(const void* p) { return int(reinterpret_cast<uintptr_t>(p) >> 2); }
    explicit TrivialDtor(int x) noexcept : v(x), at(tag(this)) {}
    TrivialDtor(const TrivialDtor& o) noexcept : v(o.v), at(tag(this)) {}
    TrivialDtor& operator=(const TrivialDtor& o) noexcept { v = o.v; return *this; }
};
struct Overloads { // overloaded address-of, comma, comparison, allocation and conversion
    int v;
    explicit Overloads(int x) noexcept : v(x) {}
    Overloads* operator&() const { mc::fail("operator& of a component was called"); return nullptr; }
    void operator,(const Overloads&) const { mc::fail("operator, of a component was called"); }
    template<class T> void operator,(T&&) const { mc::fail("operator, of a component was called"); }
    bool operator==(const Overloads&) const { mc::fail("operator== of a component was called"); return true; }
    static void* operator new(size_t) = delete;
    static void* operator new(size_t, void*) = delete;
    static void operator delete(void*) = delete;
    operator bool() const { return false; }
    operator int() const { return -5; }
};
struct Poly { // virtual functions
    int v;
    explicit Poly(int x) noexcept : v(x) { ++g_live; }
    Poly(const Poly& o) noexcept : v(o.v) { ++g_live; }
    Poly& operator=(const Poly&) noexcept = default;
    virtual ~Poly() { --g_live; }
    virtual int get() const { return v; }
};
struct Derived final : Poly {
    int w;
    explicit Derived(int x) noexcept : Poly(x), w(x + 1) {}
    int get() const override { return v + w; }
};
struct InitList { // ( ) and { } construct different values
    int n, x;
    InitList(int n, int x) noexcept : n(n), x(x) {}
    InitList(std::initializer_list<int> l) noexcept : n(int(l.size())), x(-int(l.size())) {}
};
struct Forwarding { // a constructor that takes anything, also a non-const Forwarding
    int v;
    template<class T>
    explicit Forwarding(T&& t) noexcept : v(take(t)) {}
    Forwarding(const Forwarding& o) noexcept : v(o.v) {}
    Forwarding(Forwarding&& o) noexcept : v(o.v) { o.v = -1; }
    Forwarding& operator=(const Forwarding&) noexcept = default;
    Forwarding& operator=(Forwarding&&) noexcept = default;
    static int take(int& i) { return i; }
    static int take(const int& i) { return i; }
    template<class T> static int take(T&) { return -7; }
};
struct CopyCtor2 { // copying a const object and copying a mutable one are different things
    mutable int v;
    explicit CopyCtor2(int x) noexcept : v(x) {}
    CopyCtor2(const CopyCtor2& o) noexcept : v(o.v) {}
    CopyCtor2(CopyCtor2& o) noexcept : v(o.v) { o.v = -9; }
    CopyCtor2(CopyCtor2&& o) noexcept : v(o.v) {}
    CopyCtor2& operator=(const CopyCtor2&) noexcept = default;
};
struct Agg { // aggregate with a string
    int v;
    std::string s;
};
struct Bits {
    unsigned a : 3, b : 13, c : 16;
};
using Str = std::string;
using Vec = std::vector<int>;
using Uptr = std::unique_ptr<int>;
using Sptr = std::shared_ptr<const int>;
using Fun = std::function<int()>;
using Opt = std::optional<std::string>;
using Arr = std::array<std::string, 3>;
using Var = std::variant<int, std::string>;

static std::vector<Sptr> pool; // of the values of shared pointers

template<class T>
struct KT { // types constructed from an int
    static T make(int v) { return T(v); }
    static bool eq(const T& t, int v) { return t.v == v; }
};
template<size_t N>
struct KT<Bytes<N>> {
    static Bytes<N> make(int v) { Bytes<N> r; for (size_t i = 0; i < N; ++i) r.b[i] = byte_of(v, i); return r; }
    static bool eq(const Bytes<N>& t, int v) { for (size_t i = 0; i < N; ++i) if (t.b[i] != byte_of(v, i)) return false; return true; }
};
template<size_t N, size_t Al>
struct KT<Aligned<N, Al>> {
    static Aligned<N, Al> make(int v) { Aligned<N, Al> r; for (size_t i = 0; i < N; ++i) r.b[i] = byte_of(v, i); return r; }
    static bool eq(const Aligned<N, Al>& t, int v) {
        if (reinterpret_cast<uintptr_t>(std::addressof(t)) % Al) return false;
        for (size_t i = 0; i < N; ++i) if (t.b[i] != byte_of(v, i)) return false;
        return true;
    }
};
template<> struct KT<EmptyTrivial> { static EmptyTrivial make(int) { return {}; } static bool eq(const EmptyTrivial&, int) { return true; } };
template<> struct KT<EmptyCounted> { static EmptyCounted make(int) { return {}; } static bool eq(const EmptyCounted&, int) { return true; } };
template<> struct KT<SelfPtr> { static SelfPtr make(int v) { return SelfPtr(v); } static bool eq(const SelfPtr& t, int v) { return t.v == v && t.self == &t; } };
template<> struct KT<SelfMoveClears> {
    static SelfMoveClears make(int v) { return SelfMoveClears(v); }
    static bool eq(const SelfMoveClears& t, int v) { for (auto c : t.more) if (c != char(v)) return false; return t.v == v; }
};
template<> struct KT<TrivialDtor> { static TrivialDtor make(int v) { return TrivialDtor(v); } static bool eq(const TrivialDtor& t, int v) { return t.v == v && t.at == TrivialDtor::tag(&t); } };
template<> struct KT<MoveOnly> {
    static MoveOnly make(int v) { return MoveOnly(v); }
    static bool eq(const MoveOnly& t, int v) { for (int i : t.w) if (i != ~v) return false; return t.v == v; }
};
template<> struct KT<Derived> { static Derived make(int v) { return Derived(v); } static bool eq(const Derived& t, int v) { return t.v == v && static_cast<const Poly&>(t).get() == 2 * v + 1; } };
template<> struct KT<InitList> {
    static InitList make(int v) { return InitList(v, -1000 - v); }
    static bool eq(const InitList& t, int v) { return t.n == v && t.x == -1000 - v; }
    static void args(int v, auto f) { f(v, -1000 - v); }
};
template<> struct KT<Agg> {
    static Agg make(int v) { return Agg{ v, std::string(size_t(v % 3) * 20, 'x') }; }
    static bool eq(const Agg& t, int v) { return t.v == v && t.s == std::string(size_t(v % 3) * 20, 'x'); }
    static void args(int v, auto f) { f(v, std::string(size_t(v % 3) * 20, 'x')); }
};
template<> struct KT<Bits> {
    static Bits make(int v) { return Bits{ unsigned(v) & 7u, unsigned(v) & 8191u, unsigned(~v) & 65535u }; }
    static bool eq(const Bits& t, int v) { return t.a == (unsigned(v) & 7u) && t.b == (unsigned(v) & 8191u) && t.c == (unsigned(~v) & 65535u); }
};
template<> struct KT<Str> {
    static Str make(int v) { return Str(size_t(v % 2 ? 40 + v : 1 + v % 8), char('a' + v % 26)); }
    static bool eq(const Str& t, int v) { return t == make(v); }
    static void args(int v, auto f) { f(size_t(v % 2 ? 40 + v : 1 + v % 8), char('a' + v % 26)); }
};
template<> struct KT<Vec> {
    static Vec make(int v) { return Vec(size_t(1 + v % 5), v); }
    static bool eq(const Vec& t, int v) { return t == make(v); }
    static void args(int v, auto f) { f(1 + v % 5, int(v)); }
};
template<> struct KT<Uptr> { static Uptr make(int v) { return std::make_unique<int>(v); } static bool eq(const Uptr& t, int v) { return t && *t == v; } };
template<> struct KT<Sptr> {
    static Sptr make(int v) {
        while (pool.size() <= size_t(v)) pool.push_back(std::make_shared<const int>(int(pool.size())));
        return pool[size_t(v)];
    }
    static bool eq(const Sptr& t, int v) { return t && *t == v; }
};
template<> struct KT<Fun> { static Fun make(int v) { return [v] { return v; }; } static bool eq(const Fun& t, int v) { return t && t() == v; } };
template<> struct KT<Opt> { static Opt make(int v) { return v % 3 ? Opt(KT<Str>::make(v)) : Opt(); } static bool eq(const Opt& t, int v) { return t == make(v); } };
template<> struct KT<Arr> { static Arr make(int v) { return { KT<Str>::make(v), "", KT<Str>::make(v + 1) }; } static bool eq(const Arr& t, int v) { return t == make(v); } };
template<> struct KT<Var> { static Var make(int v) { return v % 2 ? Var(v) : Var(KT<Str>::make(v + 1)); } static bool eq(const Var& t, int v) { return t == make(v); } };

template<class K>
constexpr bool counted = std::is_same_v<K, EmptyCounted> || std::is_same_v<K, SelfPtr> || std::is_same_v<K, CopyOnly> || std::is_same_v<K, MoveOnly> || std::is_base_of_v<Poly, K>;
template<class K>
constexpr bool copyable = std::is_copy_constructible_v<K>;

struct Mark {
    int v;
};

// ---- operations ----------------------------------------------------------------------------------------------------
enum Kind_ { SET, SET_ARGS, SET_FROM_OTHER, INSERT, ASSIGN, REMOVE, MARK, DESTROY, CREATE, CREATE2, CLONE, COPY, MOVE, WRITE, C_SET, C_ARGS, C_CREATE, C_CLONE, C_DESTROY, C_REMOVE, NKINDS };
static const char* op_names[] = { "set", "set with constructor arguments", "set to another entity's value", "get_or_insert", "assign through reference", "remove", "add or remove a second component", "destroy", "create",
    "create with a second component", "clone", "copy to the other registry", "move to the other registry", "write through iteration", "recorded set", "recorded set with constructor arguments", "recorded create", "recorded clone",
    "recorded destroy", "recorded remove" };

template<class K>
struct World {
    struct E {
        entity h;
        int reg;   // -1: gone
        int v, m;  // -1: absent
    };
    const char* name;
    registry r[2];
    std::vector<E> e;
    int next = 1;
    static constexpr bool has_args = requires { KT<K>::args(1, [](auto&&...) {}); };

    explicit World(const char* n) : name(n) {}

    void create(bool mark, int reg = 0) {
        E x{ {}, reg, next++, -1 };
        if (mark) {
            x.m = next++;
            x.h = r[reg].create<Mark, K>(Mark{ x.m }, KT<K>::make(x.v));
        } else x.h = r[reg].create<K>(KT<K>::make(x.v));
        e.push_back(x);
    }
    bool possible(int op, const E& x) const {
        if (x.reg < 0) return false;
        switch (op) {
        case SET_ARGS: case C_ARGS: return has_args && (op == SET_ARGS || x.reg == 0);
        case SET_FROM_OTHER: return copyable<K>;
        case ASSIGN: case REMOVE: return x.v >= 0;
        case CLONE: case COPY: return copyable<K> || x.v < 0;
        case C_CLONE: return x.reg == 0 && (copyable<K> || x.v < 0);
        case C_SET: case C_DESTROY: case C_REMOVE: return x.reg == 0;
        default: return true;
        }
    }
    void apply(int op, size_t i) {
        mc::log("  %s: %s (entity %zu)", name, op_names[op], i);
        e.reserve(e.size() + 1);
        E& x = e[i];
        registry& reg = r[x.reg < 0 ? 0 : x.reg];
        auto ref = reg.get_entity(x.h);
        command_writer cmd(r[0]);
        switch (op) {
        case SET: x.v = next++, ref.template set<K>(KT<K>::make(x.v)); break;
        case SET_ARGS:
            if constexpr (has_args) x.v = next++, KT<K>::args(x.v, [&](auto&&... a) { ref.template set<K>(std::forward<decltype(a)>(a)...); });
            break;
        case SET_FROM_OTHER:
            if constexpr (copyable<K>)
                for (auto& y : e)
                    if (y.reg >= 0 && y.v >= 0 && &y != &x) {
                        ref.template set<K>(std::as_const(r[y.reg]).get_entity(y.h).template get<K>());
                        x.v = y.v;
                        break;
                    }
            break;
        case INSERT: {
            int v = next++;
            K& k = ref.template get_or_insert<K>(KT<K>::make(v));
            if (x.v < 0) x.v = v;
            MC_CHECK(KT<K>::eq(k, x.v), "%s: get_or_insert returned something else", name);
            break;
        }
        case ASSIGN: x.v = next++, ref.template get<K>() = KT<K>::make(x.v); break;
        case REMOVE: ref.template remove<K>(), x.v = -1; break;
        case MARK:
            if (x.m >= 0) ref.template remove<Mark>(), x.m = -1;
            else x.m = next++, ref.template set<Mark>(x.m);
            break;
        case DESTROY: ref.destroy(), x.reg = -1; break;
        case CREATE: create(false); break;
        case CREATE2: create(true); break;
        case CLONE: { E y = x; y.h = entity(ref.clone()); e.push_back(y); break; }
        case COPY: { E y = x; y.reg = 1 - x.reg; y.h = i % 2 ? entity(std::as_const(reg).get_entity(x.h).copy(r[y.reg])) : entity(ref.copy(r[y.reg])); e.push_back(y); break; }
        case MOVE: x.h = entity(ref.move(r[1 - x.reg])), x.reg = 1 - x.reg; break;
        case WRITE:
            reg.template view<K&, const entity&>().each([&](K& k, const entity& h) {
                for (auto& y : e)
                    if (y.reg == x.reg && y.h == h) k = KT<K>::make(y.v = next++);
            });
            break;
        case C_SET: x.v = next++, cmd.get_entity(x.h).template set<K>(KT<K>::make(x.v)); break;
        case C_ARGS:
            if constexpr (has_args) x.v = next++, KT<K>::args(x.v, [&](auto&&... a) { cmd.get_entity(x.h).template set<K>(std::forward<decltype(a)>(a)...); });
            break;
        case C_CREATE: {
            E y{ {}, 0, next++, -1 };
            if (i % 2) y.m = next++, y.h = entity(cmd.create<K, Mark>(KT<K>::make(y.v), Mark{ y.m }));
            else y.h = entity(cmd.create<K>(KT<K>::make(y.v)));
            e.push_back(y);
            break;
        }
        case C_CLONE: { E y = x; y.h = entity(cmd.get_entity(x.h).clone()); e.push_back(y); break; }
        case C_DESTROY: cmd.destroy(x.h), x.reg = -1; break;
        case C_REMOVE: cmd.get_entity(x.h).template remove<K>(), x.v = -1; break;
        }
        if (op >= C_SET && op <= C_REMOVE) command_buffer::flush(r[0]);
    }
    void check(const char* what) {
        size_t have[2] = {}, all[2] = {};
        for (size_t i = 0; i < e.size(); ++i) {
            auto& x = e[i];
            if (x.reg < 0) continue;
            const registry& reg = r[x.reg];
            MC_CHECK(reg.alive(x.h), "%s: %s: entity %zu is lost", name, what, i);
            auto ref = reg.get_entity(x.h);
            all[x.reg]++;
            MC_CHECK(ref.template has<K>() == (x.v >= 0) && ref.template has<Mark>() == (x.m >= 0), "%s: %s: entity %zu has the wrong components", name, what, i);
            if (x.m >= 0) MC_CHECK(ref.template get<Mark>().v == x.m, "%s: %s: second component of entity %zu reads %d, expected %d", name, what, i, ref.template get<Mark>().v, x.m);
            if (x.v < 0) continue;
            have[x.reg]++;
            const K& k = ref.template get<K>();
            MC_CHECK(KT<K>::eq(k, x.v), "%s: %s: component of entity %zu has the wrong value", name, what, i);
            int seen = 0;
            ref.visit([&](const component_meta& m, const void* p) {
                if (m.id != component_id::value<K>) return;
                ++seen;
                MC_CHECK(p == std::addressof(k), "%s: %s: visit shows the component of entity %zu elsewhere", name, what, i);
            });
            MC_CHECK(seen == 1, "%s: %s: visit shows the component of entity %zu %d times", name, what, i, seen);
        }
        for (int g = 0; g < 2; ++g) {
            MC_CHECK(r[g].size() == all[g], "%s: %s: registry %d has %zu entities, expected %zu", name, what, g, r[g].size(), all[g]);
            size_t n = 0;
            for (auto [h, k] : std::as_const(r[g]).template view<const entity&, const K&>().each()) {
                bool ok = false;
                for (auto& x : e) ok |= x.reg == g && x.h == h && x.v >= 0 && KT<K>::eq(k, x.v);
                MC_CHECK(ok, "%s: %s: iteration over registry %d shows a wrong value for %u:%u", name, what, g, unsigned(h.id()), unsigned(h.generation()));
                ++n;
            }
            MC_CHECK(n == have[g], "%s: %s: iteration over registry %d yields %zu entities, expected %zu", name, what, g, n, have[g]);
        }
        if constexpr (counted<K>) MC_CHECK(g_live == int(have[0] + have[1]), "%s: %s: %d component objects alive, entities hold %zu", name, what, g_live, have[0] + have[1]);
        if constexpr (std::is_same_v<K, Sptr>)
            for (size_t v = 0; v < pool.size(); ++v) {
                long want = 1;
                for (auto& x : e) want += x.reg >= 0 && x.v == int(v);
                MC_CHECK(pool[v].use_count() == want, "%s: %s: value %zu is held by %ld components, expected %ld", name, what, v, pool[v].use_count() - 1, want - 1);
            }
    }
};

template<class K>
static void run(const char* name, int steps, const std::vector<int>& ops, bool spill) {
    {
        pool.clear();
        World<K> w(name);
        w.create(false);
        w.create(true);
        w.create(false);
        if (spill) { // up to the end of the first storage block
            size_t room = 0;
            for (auto& [s, a] : w.r[0].archetypes())
                if (a->template contains<K>() && !a->template contains<Mark>()) room = a->chunks()[0].max_size() - a->chunks()[0].size();
            if (room > 70 || w.e.size() + room < 4) return;
            while (room--) w.create(false);
            w.create(false);
        }
        size_t base = w.e.size();
        w.check("at the start");
        uint64_t h = mc::mix(std::hash<std::string_view>{}(name), spill);
        for (int s = 0; s < steps; ++s) {
            std::vector<std::pair<int, size_t>> can;
            for (int op : ops) {
                if (op == CREATE || op == CREATE2) { can.push_back({ op, 0 }); continue; }
                bool once = false;
                for (size_t i = 0; i < w.e.size(); ++i) {
                    if (spill && i >= 3 && i + 2 < base) continue; // the ends of the blocks
                    if (op == SET_FROM_OTHER && i > 3) continue;
                    if (!w.possible(op, w.e[i])) continue;
                    if ((op == C_CREATE && i > 1) || (op == WRITE && once)) continue;
                    once = true;
                    can.push_back({ op, i });
                }
            }
            if (can.empty()) break;
            auto [op, i] = can[mc::choose(unsigned(can.size()))];
            w.apply(op, i);
            mc::step();
            h = mc::mix(h, uint64_t(op) * 256 + i);
            mc::state(h);
            if (mc::fresh()) w.check(op_names[op]);
        }
    }
    if constexpr (counted<K>) MC_CHECK(g_live == 0, "%s: %d component objects alive after the registries are gone", name, g_live);
}

#if PART <= 4
struct Entry {
    const char* name;
    void (*run)(const char*, int, const std::vector<int>&, bool);
    bool counted;
};
#define K_(...) Entry{ #__VA_ARGS__, run<__VA_ARGS__>, counted<__VA_ARGS__> || std::is_same_v<__VA_ARGS__, Sptr> }
static const Entry entries[] = { // split over several programs, which are compiled in parallel
#if PART == 1
    K_(Bytes<1>), K_(Bytes<3>), K_(Bytes<6>), K_(Bytes<12>), K_(Bytes<20>), K_(EmptyCounted), K_(SelfPtr), K_(InitList), K_(Str)
#elif PART == 2
    K_(Bytes<33>), K_(Bytes<65>), K_(Bytes<129>), K_(Bytes<257>), K_(Bytes<1001>), K_(CopyOnly), K_(MoveOnly), K_(Vec), K_(Uptr), K_(Forwarding)
#elif PART == 3
    K_(Bytes<CAP / 4 + 3>), K_(Bytes<CAP / 2 + 1>), K_(Aligned<33, 32>), K_(Aligned<5, 16>), K_(Poly), K_(Derived), K_(Sptr), K_(Fun), K_(CopyCtor2), K_(Agg)
#elif PART == 4
    K_(Aligned<300, 256>), K_(EmptyTrivial), K_(SelfMoveClears), K_(TrivialDtor), K_(Overloads), K_(Bits), K_(Opt), K_(Arr), K_(Var)
#endif
};

static void body(std::vector<int> ops, int quick, int thorough, bool only_counted) {
    std::vector<const Entry*> es;
    for (auto& x : entries)
        if (!only_counted || x.counted) es.push_back(&x);
    auto& k = *es[mc::choose(unsigned(es.size()))];
    g_live = 0;
    bool spill = mc::choose(2);
    k.run(k.name, (mc::quick ? quick : thorough) - spill, ops, spill);
}

#else
// ---- containers ----------------------------------------------------------------------------------------------------
struct SKey {
    static std::string make(int k) { return k % 2 ? std::string(size_t(30 + k), 'k') : std::string(1, char('a' + k)); }
    static int back(const std::string& s) { return s.size() > 1 ? int(s.size()) - 30 : s[0] - 'a'; }
};
struct IKey {
    static int make(int k) { return k; }
    static int back(int k) { return k; }
};
template<class KeyT>
struct ChosenHash { // 0: spread, 1: all equal, 2: neighbours collide
    int how = 0;
    size_t operator()(const KeyT& k) const { int i = std::is_same_v<KeyT, int> ? *reinterpret_cast<const int*>(&k) : SKey::back(*reinterpret_cast<const std::string*>(&k)); return how == 1 ? 7 : how == 2 ? size_t(i / 2) : size_t(i); }
};
enum { M_EMPLACE, M_INSERT, M_ASSIGN, M_INDEX, M_ERASE, M_ERASE_AT, M_ALIAS, M_CLEAR, M_COPY, M_MOVE, M_SWAP, M_RESERVE };
static const char* m_names[] = { "emplace", "insert", "insert_or_assign", "assign through []", "erase key", "erase iterator", "emplace the value of another element", "clear", "copy-assign the other", "move-assign the other", "copy-construct", "reserve" };

template<class K, class M, class KM, bool Hashed>
static void containers(const char* name, int steps) {
    {
        pool.clear();
        constexpr int NK = 5;
        auto fresh_map = [how = Hashed ? int(mc::choose(3)) : 0, buckets = Hashed ? mc::choose(2) ? size_t(2) : size_t(16) : size_t(0)] {
            if constexpr (Hashed) return M(buckets, ChosenHash<typename M::key_type>{ how });
            else return M();
        };
        M m[2]{ fresh_map(), fresh_map() };
        std::map<int, int> model[2];
        int next = 1;
        auto key = [](int k) { return typename M::key_type(KM::make(Hashed ? k : k == 4 ? 300 : k)); };
        auto back = [](const auto& k) { int i = KM::back(k); return !Hashed && i == 300 ? 4 : i; };
        auto check = [&](const char* what) {
            for (int g = 0; g < 2; ++g) {
                const M& c = m[g];
                MC_CHECK(c.size() == model[g].size(), "%s: %s: table %d has %zu elements, expected %zu", name, what, g, c.size(), model[g].size());
                for (int k = 0; k < NK; ++k) {
                    auto it = model[g].find(k);
                    MC_CHECK(c.contains(key(k)) == (it != model[g].end()), "%s: %s: table %d, key %d: contains says %d", name, what, g, k, int(c.contains(key(k))));
                    if (it != model[g].end()) MC_CHECK(KT<K>::eq(c.at(key(k)), it->second), "%s: %s: table %d, key %d: wrong value", name, what, g, k);
                }
                size_t n = 0;
                for (auto& [k, v] : c) {
                    auto it = model[g].find(back(k));
                    MC_CHECK(it != model[g].end() && KT<K>::eq(v, it->second), "%s: %s: table %d: iteration shows a wrong element", name, what, g);
                    ++n;
                }
                MC_CHECK(n == model[g].size(), "%s: %s: table %d: iteration yields %zu elements, expected %zu", name, what, g, n, model[g].size());
            }
            if constexpr (counted<K>) MC_CHECK(g_live == int(model[0].size() + model[1].size()), "%s: %s: %d objects alive, the tables hold %zu", name, what, g_live, model[0].size() + model[1].size());
            if constexpr (std::is_same_v<K, Sptr>)
                for (size_t v = 0; v < pool.size(); ++v) {
                    long want = 1;
                    for (auto& x : model)
                        for (auto& [k, y] : x) want += y == int(v);
                    MC_CHECK(pool[v].use_count() == want, "%s: %s: value %zu is held %ld times, expected %ld", name, what, v, pool[v].use_count() - 1, want - 1);
                }
        };
        for (int k = 0; k < 3; ++k) m[0].emplace(key(k), KT<K>::make(next)), model[0][k] = next++;
        m[1].emplace(key(4), KT<K>::make(next)), model[1][4] = next++;
        check("at the start");
        uint64_t h = mc::mix(std::hash<std::string_view>{}(name), Hashed);
        for (int s = 0; s < steps; ++s) {
            std::vector<std::pair<int, int>> can;
            for (int k = 0; k < NK; ++k) {
                bool has = model[0].count(k);
                can.push_back({ M_EMPLACE, k });
                bool few = k == 0 || k == 3; // one that is there at the start, one that is not
                if (copyable<K> && few) can.push_back({ M_INSERT, k });
                if (copyable<K> && Hashed && few) can.push_back({ M_ASSIGN, k });
                if (std::is_default_constructible_v<K> && few) can.push_back({ M_INDEX, k });
                can.push_back({ M_ERASE, k });
                if (has && Hashed) can.push_back({ M_ERASE_AT, k });
                if (copyable<K> && has && few) can.push_back({ M_ALIAS, k });
            }
            for (int op : { M_CLEAR, M_COPY, M_MOVE, M_SWAP, M_RESERVE })
                if ((op != M_COPY && op != M_SWAP) || copyable<K>) can.push_back({ op, 0 });
            auto [op, k] = can[mc::choose(unsigned(can.size()))];
            mc::log("  %s: %s (key %d)", name, m_names[op], k);
            int v = next++;
            switch (op) {
            case M_EMPLACE: m[0].emplace(key(k), KT<K>::make(v)), model[0].emplace(k, v); break;
            case M_INSERT:
                if constexpr (copyable<K>) {
                    const typename M::value_type e(key(k), KT<K>::make(v));
                    m[0].insert(e), model[0].emplace(k, v);
                }
                break;
            case M_ASSIGN:
                if constexpr (copyable<K> && Hashed) {
                    const typename M::value_type e(key(k), KT<K>::make(v));
                    m[0].insert_or_assign(e), model[0][k] = v;
                }
                break;
            case M_INDEX:
                if constexpr (std::is_default_constructible_v<K>) m[0][key(k)] = KT<K>::make(v), model[0][k] = v;
                break;
            case M_ERASE: m[0].erase(key(k)), model[0].erase(k); break;
            case M_ERASE_AT:
                if constexpr (Hashed) m[0].erase(m[0].find(key(k))), model[0].erase(k);
                break;
            case M_ALIAS: // a new element from an element of the same table
                if constexpr (copyable<K>)
                    for (int n = 0; n < NK; ++n)
                        if (!model[0].count(n)) {
                            m[0].emplace(key(n), std::as_const(m[0]).at(key(k)));
                            model[0][n] = model[0][k];
                            break;
                        }
                break;
            case M_CLEAR: m[0].clear(), model[0].clear(); break;
            case M_COPY:
                if constexpr (copyable<K>) m[0] = m[1], model[0] = model[1];
                break;
            case M_MOVE: m[0] = std::move(m[1]), model[0] = model[1], m[1] = fresh_map(), model[1].clear(); break;
            case M_SWAP:
                if constexpr (copyable<K>) {
                    M c(m[0]);
                    m[1] = std::move(c), model[1] = model[0];
                }
                break;
            case M_RESERVE:
                if constexpr (Hashed) m[0].reserve(32);
                else m[0].reserve_dense(100), m[0].reserve_sparse(1000);
                break;
            }
            mc::step();
            h = mc::mix(h, uint64_t(op) * 16 + uint64_t(k));
            mc::state(h);
            if (mc::fresh()) check(m_names[op]);
        }
    }
    if constexpr (counted<K>) MC_CHECK(g_live == 0, "%s: %d objects alive after the tables are gone", name, g_live);
}
struct Entry {
    const char* name;
    void (*hash)(const char*, int);
    void (*shash)(const char*, int);
    void (*sparse)(const char*, int);
};
template<class K>
constexpr Entry entry(const char* n) {
    return { n, containers<K, detail::hash_map<int, K, ChosenHash<int>>, IKey, true>, containers<K, detail::hash_map<std::string, K, ChosenHash<std::string>>, SKey, true>,
        containers<K, detail::sparse_map<uint16_t, K>, IKey, false> };
}
#define K_(...) entry<__VA_ARGS__>(#__VA_ARGS__)
static const Entry entries[] = {
#if PART == 5
    K_(Bytes<1>), K_(Bytes<33>), K_(EmptyCounted), K_(SelfPtr), K_(Str), K_(MoveOnly)
#elif PART == 6
    K_(Bytes<129>), K_(Aligned<33, 32>), K_(SelfMoveClears), K_(Uptr), K_(CopyOnly), K_(Arr)
#else
    K_(Bytes<1001>), K_(Sptr), K_(Fun), K_(TrivialDtor), K_(Derived), K_(Overloads)
#endif
};
#endif

int main(int argc, char** argv) {
    auto add = [](std::string n, std::function<void()> f) {
        mc::Suite s;
        s.name = n + "-" + std::to_string(PART);
        s.body = f;
        s.quick_cap = 60;
        s.thorough_cap = 600;
        mc::suites().push_back(s);
    };
#if PART <= 4
    auto comp = [&](const char* n, std::vector<int> ops, int q, int t, bool only_counted = false) { add(n, [=] { body(ops, q, t, only_counted); }); };
    comp("C01.kinds", { SET, SET_ARGS, SET_FROM_OTHER, INSERT, ASSIGN, REMOVE, MARK, DESTROY, CREATE2 }, 3, 4);
    comp("C03.kinds", { REMOVE, MARK, DESTROY, CREATE, CREATE2, MOVE }, 3, 5);
#if PART < 4
    comp("C04.kinds", { SET, INSERT, REMOVE, MARK, DESTROY, CREATE, CLONE, COPY, MOVE, C_SET, C_CREATE, C_REMOVE, C_CLONE }, 3, 4, true);
#endif
    comp("C06.kinds", { WRITE, MARK, REMOVE, DESTROY, CREATE }, 3, 4);
    comp("C07.kinds", { CLONE, COPY, MOVE, MARK, REMOVE, DESTROY, WRITE }, 3, 4);
    comp("C10.kinds", { C_SET, C_ARGS, C_CREATE, C_CLONE, C_DESTROY, C_REMOVE, MARK }, 3, 4);
#else
    auto one = [](auto member, int q) {
        return [member, q] {
            auto& k = entries[mc::choose(unsigned(std::size(entries)))];
            g_live = 0;
            (k.*member)(k.name, mc::quick ? q : q + 1);
        };
    };
    add("C17.kinds", one(&Entry::hash, 3));
    add("C17.kinds-strings", one(&Entry::shash, 2));
    add("C18.kinds", one(&Entry::sparse, 3));
#endif
    return mc::main(argc, argv);
}
