// Large histories: the exhaustive harnesses stay small, this one enumerates patterns of operations at sizes beyond 2^16 (entities,
// storage blocks, reserved handles, commands, table elements, queue items) and hundreds of storage groups and component ids.
#include "../lib/explore.hpp"
#include <co_ecs/co_ecs.hpp>
#include "../lib/blocks.hpp"
#include <algorithm>
#include <map>
#include <set>
#include <thread>
#include <unordered_map>
#include <co_ecs/command.hpp>
#include <co_ecs/detail/allocator/stack_allocator.hpp>
#include <co_ecs/detail/allocator/linear_allocator.hpp>
#include <co_ecs/detail/hash_map.hpp>
#include <co_ecs/detail/sparse_map.hpp>
#include <co_ecs/detail/work_stealing_queue.hpp>
#include <deque>
#include <co_ecs/detail/dynamic_bitset.hpp>

using namespace co_ecs;

struct P {
    int v;
};
struct Q {
    int v;
};
template<size_t N>
struct Fat { // N bytes of which only the ends are used
    int v;
    char rest[N - 8];
    int w;
    Fat(int x) noexcept : v(x), w(~x) {}
    Fat(const Fat& o) noexcept : v(o.v), w(o.w) {}
    Fat(Fat&& o) noexcept : v(o.v), w(o.w) {}
    Fat& operator=(Fat&& o) noexcept { v = o.v, w = o.w; return *this; }
};

#ifdef SCALE_ENTITIES
static const char* patterns[] = { "first half", "second half", "every other", "all but one, newest first", "those around multiples of 256", "all" };
static std::vector<int> pick(int pattern, int n) {
    std::vector<int> r;
    for (int i = 0; i < n; ++i) {
        bool in = pattern == 0 ? i < n / 2 : pattern == 1 ? i >= n / 2 : pattern == 2 ? i & 1 : pattern == 3 ? i != n / 3 : pattern == 4 ? ((i + 1) & 255) < 3 : true;
        if (in) r.push_back(i);
    }
    if (pattern == 3) std::reverse(r.begin(), r.end());
    return r;
}

struct Ent {
    entity h;
    int reg = 0; // -1 dead
    int p = -1, q = -1;
};
template<class PT, class QT>
struct World {
    registry r[2];
    std::vector<Ent> e;
    int next = 0;

    void check(const char* what) {
        std::unordered_map<uint64_t, const Ent*> by[2];
        auto key = [](entity h) { return uint64_t(h.id()) << 32 | h.generation(); };
        for (auto& x : e) {
            for (int k = 0; k < 2; ++k)
                if (k == x.reg) {
                    MC_CHECK(by[k].emplace(key(x.h), &x).second, "%s: handle %u:%u was issued twice", what, x.h.id(), x.h.generation());
                    MC_CHECK(r[k].alive(x.h), "%s: entity %u:%u is lost", what, x.h.id(), x.h.generation());
                    auto ref = std::as_const(r[k]).get_entity(x.h);
                    MC_CHECK(ref.template has<PT>() == (x.p >= 0) && ref.template has<QT>() == (x.q >= 0), "%s: entity %u:%u has the wrong components", what, x.h.id(), x.h.generation());
                    if (x.p >= 0) MC_CHECK(ref.template get<PT>().v == x.p, "%s: entity %u:%u: first component reads %d, expected %d", what, x.h.id(), x.h.generation(), ref.template get<PT>().v, x.p);
                    if (x.q >= 0) MC_CHECK(ref.template get<QT>().v == x.q, "%s: entity %u:%u: second component reads %d, expected %d", what, x.h.id(), x.h.generation(), ref.template get<QT>().v, x.q);
                }
            if (x.reg < 0) MC_CHECK(!r[0].alive(x.h), "%s: handle %u:%u of an entity that is gone is alive", what, x.h.id(), x.h.generation());
        }
        for (int k = 0; k < 2; ++k) {
            MC_CHECK(r[k].size() == by[k].size(), "%s: registry reports %zu entities, expected %zu", what, r[k].size(), by[k].size());
            view_matches<PT>(what, k, by[k], [](const Ent& x) { return x.p; });
            view_matches<QT>(what, k, by[k], [](const Ent& x) { return x.q; });
            size_t both = 0, want = 0;
            for (auto& [h, x] : by[k]) want += x->p >= 0 && x->q >= 0;
            for (auto [p, h, q] : std::as_const(r[k]).template view<const PT&, const entity&, const QT&>().each()) {
                auto it = by[k].find(key(h));
                MC_CHECK(it != by[k].end() && it->second->p == p.v && it->second->q == q.v, "%s: iteration over both components shows %d,%d for %u:%u", what, p.v, q.v, h.id(), h.generation());
                ++both;
            }
            MC_CHECK(both == want, "%s: iteration over both components yields %zu entities, expected %zu", what, both, want);
            size_t total = 0;
            for (auto& [set, arch] : r[k].archetypes()) {
                auto& ch = arch->chunks();
                for (size_t i = 0; i < ch.size(); ++i) {
                    total += ch[i].size();
                    MC_CHECK(i + 1 == ch.size() || ch[i].full(), "%s: storage block %zu of %zu is not full", what, i, ch.size());
                    MC_CHECK(i == 0 || !ch[i].empty(), "%s: storage block %zu of %zu is empty", what, i, ch.size());
                }
            }
            MC_CHECK(total == r[k].size(), "%s: storage blocks hold %zu entities of %zu", what, total, r[k].size());
        }
    }
    template<class T>
    void view_matches(const char* what, int k, auto& by, auto value) {
        size_t want = 0;
        for (auto& [h, x] : by) want += value(*x) >= 0;
        std::vector<bool> seen(e.size());
        size_t n = 0;
        auto one = [&](const entity& h, const T& t) {
            auto it = by.find(uint64_t(h.id()) << 32 | h.generation());
            MC_CHECK(it != by.end() && value(*it->second) == t.v, "%s: iteration shows %d for entity %u:%u", what, t.v, h.id(), h.generation());
            size_t i = size_t(it->second - e.data());
            MC_CHECK(!seen[i], "%s: iteration yields entity %u:%u twice", what, h.id(), h.generation());
            seen[i] = true;
            ++n;
        };
        for (auto [h, t] : r[k].template view<const entity&, T&>().each()) one(h, t);
        MC_CHECK(n == want, "%s: iteration yields %zu entities, expected %zu", what, n, want);
        seen.assign(e.size(), false);
        n = 0;
        std::as_const(r[k]).each(one);
        MC_CHECK(n == want, "%s: callback iteration yields %zu entities, expected %zu", what, n, want);
        n = 0;
        for (auto chunk : r[k].template view<T&>().chunks())
            for ([[maybe_unused]] auto x : chunk) ++n;
        MC_CHECK(n == want, "%s: block iteration yields %zu entities, expected %zu", what, n, want);
    }
    void create(int kind) {
        Ent x;
        if (kind != 1) x.p = next++;
        if (kind != 0) x.q = next++;
        x.h = kind == 0 ? r[0].create<PT>(PT(x.p)) : kind == 1 ? r[0].create<QT>(QT(x.q)) : r[0].create<QT, PT>(QT(x.q), PT(x.p));
        e.push_back(x);
    }
    static constexpr int NOPS = 9;
    void apply(int op, int pattern) {
        static const char* names[] = { "destroy", "set first", "set second", "remove first", "remove second", "clone", "copy", "move", "write" };
        mc::log("  %s: %s", names[op], patterns[pattern]);
        auto chosen = pick(pattern, int(e.size()));
        e.reserve(e.size() + chosen.size());
        for (int i : chosen) {
            auto& x = e[size_t(i)];
            if (x.reg != 0) continue;
            auto ref = r[0].get_entity(x.h);
            switch (op) {
            case 0: r[0].destroy(x.h), x.reg = -1; break;
            case 1: ref.template set<PT>(x.p = next++); break;
            case 2: ref.template set<QT>(x.q = next++); break;
            case 3: ref.template remove<PT>(), x.p = -1; break;
            case 4: ref.template remove<QT>(), x.q = -1; break;
            case 5: {
                Ent y = x;
                y.h = entity(ref.clone());
                e.push_back(y);
                break;
            }
            case 6: {
                Ent y = x;
                y.reg = 1;
                y.h = entity(ref.copy(r[1]));
                e.push_back(y);
                break;
            }
            case 7: {
                Ent y = x;
                y.reg = 1;
                y.h = entity(ref.move(r[1]));
                x.reg = -1;
                e.push_back(y);
                break;
            }
            case 8:
                if (x.p >= 0) ref.template get<PT>().v = x.p = next++;
                break;
            }
        }
    }
};

template<class PT, class QT>
static void entities(int n, bool mixed, int steps, std::vector<int> ops, std::vector<int> pats, bool refill) {
    World<PT, QT> w;
    for (int i = 0; i < n; ++i) w.create(mixed ? i % 7 < 4 ? 0 : i % 7 < 6 ? 2 : 1 : 0);
    if (mc::E.fresh_from == 0) w.check("after creating");
    uint64_t h = uint64_t(n);
    for (int s = 0; s < steps; ++s) {
        int op = ops[mc::choose(unsigned(ops.size()))], pat = pats[mc::choose(unsigned(pats.size()))];
        w.apply(op, pat);
        mc::step();
        h = mc::mix(h, uint64_t(op) * 8 + uint64_t(pat));
        mc::state(h);
        if (mc::fresh()) w.check("after the operation");
    }
    if (!refill) return;
    size_t live = w.e.size();
    for (size_t i = 0; i < live / 2; ++i) w.create(mixed ? int(i % 3) : 0);
    w.check("after creating again");
}

#endif

#ifdef SCALE_GROUPS
// ---- groups: every subset of nine types, each reached along two paths -------------------------------------------------
template<int I>
struct G {
    int v;
};
constexpr int NG = 9;
template<size_t... I>
static void g_set(registry& r, entity e, int t, int v, std::index_sequence<I...>) {
    (..., (int(I) == t ? (void)r.get_entity(e).set<G<I>>(v) : void()));
}
template<size_t... I>
static void g_remove(registry& r, entity e, int t, std::index_sequence<I...>) {
    (..., (int(I) == t ? (void)r.get_entity(e).remove<G<I>>() : void()));
}
template<size_t... I>
static void g_check(const registry& r, entity e, int mask, int base, const char* what, std::index_sequence<I...>) {
    auto one = [&]<int T>() {
        bool has = r.get_entity(e).template has<G<T>>();
        MC_CHECK(has == bool(mask >> T & 1), "%s: entity with the set %x: membership of type %d is %d", what, mask, T, has);
        if (has) MC_CHECK(r.get_entity(e).template get<G<T>>().v == base + T, "%s: entity with the set %x: component %d reads %d, expected %d", what, mask, T, r.get_entity(e).template get<G<T>>().v, base + T);
    };
    (..., one.template operator()<int(I)>());
}
template<size_t... I>
static void g_views(registry& r, const std::vector<std::pair<entity, int>>& es, const char* what, std::index_sequence<I...>) {
    auto one = [&]<int T>() {
        std::set<entity> want;
        for (auto& [e, m] : es)
            if (m >> T & 1 && m >> ((T + 4) % NG) & 1) want.insert(e);
        size_t n = want.size();
        for (auto [e, a, b] : r.view<const entity&, G<T>&, const G<(T + 4) % NG>&>().each()) {
            MC_CHECK(a.v % 16 == T && b.v % 16 == (T + 4) % NG, "%s: iteration over two types shows wrong values", what);
            MC_CHECK(want.erase(e) == 1, "%s: iteration over two types yields an entity that does not match, or one twice", what);
        }
        MC_CHECK(want.empty(), "%s: iteration over two types misses %zu of %zu entities", what, want.size(), n);
    };
    (..., one.template operator()<int(I)>());
}
static void groups() {
    auto seq = std::make_index_sequence<NG>{};
    registry r;
    int order = int(mc::choose(3)); // in which the sets come into being
    int path = int(mc::choose(3));
    std::vector<int> masks;
    for (int m = 0; m < 1 << NG; ++m) masks.push_back(order == 0 ? m : order == 1 ? (1 << NG) - 1 - m : m * 37 % (1 << NG));
    std::vector<std::pair<entity, int>> es;
    std::map<int, const void*> group;
    auto build = [&](int m, int dir) {
        entity e = r.create<>();
        int base = int(es.size()) * 16;
        for (int k = 0; k < NG; ++k) {
            int t = dir == 0 ? k : dir == 1 ? NG - 1 - k : k * 4 % NG;
            if (m >> t & 1 || dir == 2) g_set(r, e, t, base + t, seq);
        }
        if (dir == 2)
            for (int t = 0; t < NG; ++t)
                if (!(m >> t & 1)) g_remove(r, e, t, seq);
        es.push_back({ e, m });
        const void* a = &r.get_entity(e).archetype();
        auto [it, fresh] = group.emplace(m, a);
        MC_CHECK(it->second == a, "entities with the same %d component types are stored in two groups", __builtin_popcount(m));
    };
    for (int m : masks) build(m, path);
    for (int m : masks) build(m, (path + 1) % 3);
    auto check = [&](const char* what) {
        std::set<const void*> distinct;
        for (auto& [m, a] : group) MC_CHECK(distinct.insert(a).second, "%s: entities with different sets share a group", what);
        for (size_t i = 0; i < es.size(); ++i) {
            g_check(r, es[i].first, es[i].second, int(i) * 16, what, seq);
            MC_CHECK(&r.get_entity(es[i].first).archetype() == group[es[i].second], "%s: entities with the same set are stored in two groups", what);
        }
        g_views(r, es, what, seq);
        size_t n = 0;
        for (auto& [set, arch] : r.archetypes()) ++n;
        MC_CHECK(n == group.size() && r.archetypes().size() == n, "%s: iteration finds %zu groups, the registry reports %zu, there are %zu sets", what, n, r.archetypes().size(), group.size());
    };
    check("after building all sets");
    for (size_t i = 0; i < es.size(); i += 3)
        for (int t = 0; t < NG; ++t)
            if ((es[i].second >> t & 1) && (i + size_t(t)) % 2) g_remove(r, es[i].first, t, seq), es[i].second &= ~(1 << t);
    check("after removing components");
    mc::step(uint64_t(es.size()));
    mc::state(mc::mix(uint64_t(order), uint64_t(path)));
}

// ---- hundreds of component ids ---------------------------------------------------------------------------------------------
template<int I>
struct W {
    int v;
};
constexpr int NW = 300;
struct WOps {
    component_id_t id;
    void (*set)(registry&, entity, int);
    void (*remove)(registry&, entity);
    bool (*has)(const registry&, entity);
    int (*get)(const registry&, entity);
};
template<int I>
static WOps wops() {
    return { component_id::value<W<I>>, [](registry& r, entity e, int v) { r.get_entity(e).template set<W<I>>(v); }, [](registry& r, entity e) { r.get_entity(e).template remove<W<I>>(); },
        [](const registry& r, entity e) { return r.get_entity(e).template has<W<I>>(); }, [](const registry& r, entity e) { return r.get_entity(e).template get<W<I>>().v; } };
}
template<size_t... I>
static std::vector<component_id_t> all_ids(std::index_sequence<I...>) {
    return { component_id::value<W<int(I)>>... };
}
constexpr int NU = 36; // those that are used as components
template<size_t... I>
static std::vector<WOps> all_wops(std::index_sequence<I...>) {
    return { wops<int(I < 6 ? I : I < 14 ? 56 + I - 6 : I < 20 ? 124 + I - 14 : I < 32 ? 248 + I - 20 : 295 + I - 32)>()... };
}
static void ids() {
    static auto types = all_ids(std::make_index_sequence<NW>{});
    static auto ops = all_wops(std::make_index_sequence<NU>{});
    std::set<component_id_t> distinct;
    for (auto id : types) MC_CHECK(distinct.insert(id).second, "two component types have the id %u", id);
    int window = 1 + int(mc::choose(3));      // components per entity
    int stride = int(mc::choose(4));
    static const int strides[] = { 1, 12, 19, 25 };
    registry r;
    std::vector<entity> es;
    std::vector<std::set<int>> has;
    for (int i = 0; i < NU; ++i) {
        es.push_back(r.create<>());
        has.emplace_back();
        for (int k = 0; k < window; ++k) {
            int t = (i + k * strides[stride]) % NU;
            ops[size_t(t)].set(r, es.back(), i * 512 + t);
            has.back().insert(t);
        }
    }
    auto check = [&](const char* what) {
        std::map<std::set<int>, const void*> group;
        std::map<const void*, std::set<int>> back;
        for (int i = 0; i < NU; ++i) {
            for (int t = 0; t < NU; ++t) {
                bool h = ops[size_t(t)].has(r, es[size_t(i)]);
                MC_CHECK(h == bool(has[size_t(i)].count(t)), "%s: entity %d: membership of type %d (id %u) is %d", what, i, t, ops[size_t(t)].id, h);
                if (h) MC_CHECK(ops[size_t(t)].get(r, es[size_t(i)]) == i * 512 + t, "%s: entity %d: component %d (id %u) has a wrong value", what, i, t, ops[size_t(t)].id);
            }
            const void* a = &r.get_entity(es[size_t(i)]).archetype();
            MC_CHECK(group.emplace(has[size_t(i)], a).first->second == a && back.emplace(a, has[size_t(i)]).first->second == has[size_t(i)], "%s: entity %d: storage group and component set do not correspond", what, i);
        }
    };
    check("after setting");
    for (int i = 0; i < NU; i += 2) {
        int t = *has[size_t(i)].rbegin();
        ops[size_t(t)].remove(r, es[size_t(i)]);
        has[size_t(i)].erase(t);
    }
    check("after removing");
    mc::step(NU);
    mc::state(mc::mix(uint64_t(window), uint64_t(stride)));
}

#endif

#ifdef SCALE_WIDE
// ---- wide: entities with up to 80 components of mixed sizes and alignments -----------------------------------------------
template<int I>
struct alignas(1 << (I % 5)) Wide {
    unsigned char b[1 + I * 7 % 23];
    explicit Wide(int v) noexcept { for (size_t i = 0; i < sizeof b; ++i) b[i] = (unsigned char)(v * 31 + I * 3 + int(i)); }
    bool is(int v) const { return reinterpret_cast<uintptr_t>(this) % alignof(Wide) == 0 && std::equal(b, b + sizeof b, Wide(v).b); }
};
constexpr int NWIDE = 80;
struct WideOps {
    void (*set)(entity_ref, int);
    void (*remove)(entity_ref);
    bool (*has)(const registry&, entity);
    bool (*is)(const registry&, entity, int);
    component_id_t (*id)();
    int (*count)(const registry&);
};
template<int I>
static constexpr WideOps wide_ops() {
    return { [](entity_ref e, int v) { e.set<Wide<I>>(v); }, [](entity_ref e) { e.remove<Wide<I>>(); }, [](const registry& r, entity e) { return r.get_entity(e).template has<Wide<I>>(); },
        [](const registry& r, entity e, int v) { return r.get_entity(e).template get<Wide<I>>().is(v); }, [] { return component_id_t(component_id::value<Wide<I>>); },
        [](const registry& r) { int n = 0; r.view<const Wide<I>&>().each([&](const Wide<I>&) { ++n; }); return n; } };
}
static const std::vector<WideOps> wideops = []<int... I>(std::integer_sequence<int, I...>) { return std::vector<WideOps>{ wide_ops<I>()... }; }(std::make_integer_sequence<int, NWIDE>());

static void wide(std::vector<int> endings) {
    static const int sizes[] = { 1, 2, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 80 };
    int n = sizes[mc::choose(std::size(sizes))], order = int(mc::choose(3)), ending = endings[mc::choose(unsigned(endings.size()))];
    std::vector<int> types;
    for (int i = 0; i < n; ++i) types.push_back(order == 0 ? i : order == 1 ? NWIDE - 1 - i : (i * 37 + 5) % NWIDE);
    registry r[2];
    struct X { entity h; int reg; int v; std::set<int> has; };
    std::vector<X> es;
    for (int i = 0; i < 30; ++i) {
        X x{ r[0].create<>(), 0, i * 100, {} };
        auto ts = types;
        if (i % 3 == 1) std::reverse(ts.begin(), ts.end());
        for (int t : ts) wideops[size_t(t)].set(r[0].get_entity(x.h), x.v + t), x.has.insert(t);
        es.push_back(x);
    }
    mc::log("  30 entities with %d components, added in order %d, then ending %d", n, order, ending);
    auto check = [&](const char* what) {
        std::vector<std::array<int, 2>> counts(NWIDE);
        std::set<const void*> places;
        for (auto& x : es) {
            if (x.reg < 0) continue;
            for (int t = 0; t < NWIDE; ++t) {
                MC_CHECK(wideops[size_t(t)].has(r[x.reg], x.h) == (x.has.count(t) > 0), "%s: component %d of %d: membership is wrong", what, t, n);
                if (x.has.count(t)) {
                    MC_CHECK(wideops[size_t(t)].is(r[x.reg], x.h, x.v + t), "%s: component %d of an entity with %zu has the wrong value or place", what, t, x.has.size());
                    ++counts[size_t(t)][size_t(x.reg)];
                }
            }
            std::set<component_id_t> seen;
            r[x.reg].get_entity(x.h).visit([&](const component_meta& m, const void* p) {
                MC_CHECK(seen.insert(component_id_t(m.id)).second && places.insert(p).second, "%s: visit shows a component twice", what);
            });
            MC_CHECK(seen.size() == x.has.size(), "%s: visit shows %zu components, expected %zu", what, seen.size(), x.has.size());
            for (int t : x.has) MC_CHECK(seen.count(wideops[size_t(t)].id()), "%s: visit does not show component %d", what, t);
        }
        for (int g = 0; g < 2; ++g)
            for (int t = 0; t < NWIDE; ++t) {
                int c = wideops[size_t(t)].count(r[g]);
                MC_CHECK(c == counts[size_t(t)][size_t(g)], "%s: iteration over component %d of registry %d yields %d entities, expected %d", what, t, g, c, counts[size_t(t)][size_t(g)]);
            }
    };
    check("after adding");
    size_t m = es.size();
    es.reserve(2 * m);
    for (size_t i = 0; i < m; ++i) {
        auto& x = es[i];
        if (ending != 6 && i % 2 == 0) continue;
        auto e = r[0].get_entity(x.h);
        switch (ending) {
        case 0: { X y = x; y.h = entity(e.clone()); es.push_back(y); break; }
        case 1: { X y = x; y.reg = 1; y.h = entity(e.copy(r[1])); es.push_back(y); break; }
        case 2: x.h = entity(e.move(r[1])), x.reg = 1; break;
        case 3: e.destroy(), x.reg = -1; break;
        case 4: wideops[size_t(types[size_t(n / 2)])].remove(e), x.has.erase(types[size_t(n / 2)]); break;
        case 5: { command_writer cmd(r[0]); X y = x; y.h = entity(cmd.get_entity(x.h).clone()); es.push_back(y); command_buffer::flush(r[0]); break; }
        default:
            for (int t : types)
                if (t % 3 != int(i) % 3) wideops[size_t(t)].remove(e), x.has.erase(t);
        }
    }
    mc::step();
    mc::state(mc::mix(uint64_t(n) * 8 + uint64_t(order), uint64_t(ending)));
    check("after the operations");
}
#endif

#ifdef SCALE_COMMANDS
// ---- reserved handles --------------------------------------------------------------------------------------------------------
static void reserve_many() {
    static const int ns[] = { 300, 70000 };
    int n = ns[mc::choose(2)], recycled = int(mc::choose(3)), rounds = 2;
    mc::log("  %d handles reserved, %s recycled before", n, recycled == 0 ? "none" : recycled == 1 ? "half as many" : "more");
    registry r;
    std::set<entity> issued;
    std::vector<entity> es;
    for (int i = 0; i < (recycled == 0 ? 1 : recycled == 1 ? n / 2 : n + 10); ++i) es.push_back(r.create<P>(P{ i }));
    for (auto e : es) issued.insert(e);
    for (auto e : es) r.destroy(e);
    entity src = r.create<P>(P{ -5 });
    MC_CHECK(issued.insert(src).second, "a handle was issued twice");
    std::vector<entity> live{ src };
    for (int k = 0; k < rounds; ++k) {
        std::vector<placeholder_entity> ph;
        for (int i = 0; i < n; ++i) {
            ph.push_back(r.reserve());
            MC_CHECK(issued.insert(ph.back().get_entity()).second, "reserve returned handle %u:%u, which was issued before", ph.back().get_entity().id(), ph.back().get_entity().generation());
        }
        r.sync();
        entity direct = r.create<P>(P{ -6 });
        MC_CHECK(issued.insert(direct).second, "create returned a reserved handle");
        r.destroy(direct);
        for (auto& p : ph) MC_CHECK(r.alive(p.get_entity()), "reserved handle %u:%u is dead after synchronisation", p.get_entity().id(), p.get_entity().generation());
        for (size_t i = 0; i < ph.size(); ++i)
            if (i % 2) live.push_back(entity(r.get_entity(src).clone(ph[i]))), r.get_entity(live.back()).get<P>().v = int(i);
        MC_CHECK(r.size() == live.size(), "%zu entities, expected %zu", r.size(), live.size());
        for (size_t i = 1; i < live.size(); ++i) MC_CHECK(r.get_entity(live[i]).get<P>().v == int(2 * i - 1), "entity %zu made from a reserved handle has a wrong value", i);
        for (size_t i = 1; i < live.size(); ++i) r.destroy(live[i]);
        live.resize(1);
    }
    mc::step(uint64_t(n));
    mc::state(mc::mix(uint64_t(n), uint64_t(recycled)));
}

// ---- commands -------------------------------------------------------------------------------------------------------------------
static void commands_many() {
    static const int ns[] = { 300, 70000 };
    int n = ns[mc::choose(2)], order = int(mc::choose(2)), flushes = 1 + int(mc::choose(2));
    mc::log("  %d entities, commands recorded %s, %d flushes", n, order ? "by kind" : "by entity", flushes);
    registry r;
    std::vector<entity> old;
    for (int i = 0; i < n; ++i) old.push_back(r.create<P>(P{ i }));
    std::map<entity, std::pair<int, int>> want; // -1: absent
    for (int i = 0; i < n; ++i) want[old[size_t(i)]] = { i, -1 };
    for (int f = 0; f < flushes; ++f) {
        {
            command_writer c{ r };
            auto one = [&](int i, int kind) {
                entity e = old[size_t(i)];
                if (kind == 0) {
                    if (want.count(e)) c.get_entity(e).set<Q>(i + f), want[e].second = i + f;
                } else if (kind == 1) {
                    if (i % 3 == 0 && want.count(e)) c.get_entity(e).remove<P>(), want[e].first = -1;
                } else if (kind == 2) {
                    if (i % 5 == f && want.count(e)) c.get_entity(e).destroy(), want.erase(e);
                } else {
                    entity x = c.create<Q, P>(Q{ i }, P{ -i - 9 });
                    MC_CHECK(want.emplace(x, std::pair{ -i - 9, i }).second, "create returned a handle that was issued before");
                }
            };
            if (order)
                for (int k = 0; k < 4; ++k)
                    for (int i = 0; i < n; ++i) one(i, k);
            else
                for (int i = 0; i < n; ++i)
                    for (int k = 0; k < 4; ++k) one(i, k);
        }
        command_buffer::flush(r);
        MC_CHECK(r.size() == want.size(), "after flush %d: %zu entities, expected %zu", f, r.size(), want.size());
        for (auto& [e, v] : want) {
            MC_CHECK(r.alive(e) && r.has<P>(e) == (v.first != -1) && r.has<Q>(e) == (v.second != -1), "after flush %d entity %u:%u is missing or has the wrong components", f, e.id(), e.generation());
            if (v.first != -1) MC_CHECK(r.get_entity(e).get<P>().v == v.first, "after flush %d entity %u:%u reads %d, expected %d", f, e.id(), e.generation(), r.get_entity(e).get<P>().v, v.first);
            if (v.second != -1) MC_CHECK(r.get_entity(e).get<Q>().v == v.second, "after flush %d entity %u:%u reads %d, expected %d", f, e.id(), e.generation(), r.get_entity(e).get<Q>().v, v.second);
        }
    }
    mc::step(uint64_t(n));
    mc::state(mc::mix(uint64_t(n), uint64_t(order) * 4 + uint64_t(flushes)));
}

#endif

#ifdef SCALE_DATA
// ---- tables -----------------------------------------------------------------------------------------------------------------------
struct BigHash {
    int mode;
    size_t operator()(uint64_t k) const {
        switch (mode) {
        case 0: return k;
        case 1: return k * 0x9e3779b97f4a7c15ull;
        case 2: return ~k;
        // the rest collide, too slow for the largest table
        case 3: return k / 4;
        default: return ~size_t(0) - k / 10 * 3; // pairs, the first of them wrapping around
        }
    }
};
static int permuted(int i, int n, int order) {
    return order == 0 ? i : order == 1 ? n - 1 - i : int((uint64_t(i) * 7919) % uint64_t(n));
}
template<class Table>
static void table_history(Table& t, int n, int order, int erase, auto key) {
    auto check = [&](const char* what, auto live, int gen) {
        size_t want = 0;
        for (int i = 0; i < n; ++i) {
            bool l = live(i);
            want += l;
            auto it = t.find(key(i));
            MC_CHECK((it != t.end()) == l && t.contains(key(i)) == l, "%s: element %d is %s", what, i, l ? "lost" : "still there");
            if (l) MC_CHECK(it->first == key(i) && it->second == i * 2 + gen, "%s: element %d has a wrong value", what, i);
        }
        size_t k = 0;
        std::vector<bool> seen(static_cast<size_t>(n));
        for (auto& e : t) {
            int i = e.second / 2;
            MC_CHECK(i >= 0 && i < n && !seen[size_t(i)] && live(i), "%s: iteration yields element %d wrongly", what, i);
            seen[size_t(i)] = true;
            ++k;
        }
        MC_CHECK(k == want && t.size() == want, "%s: iteration yields %zu elements, size is %zu, expected %zu", what, k, t.size(), want);
    };
    for (int i = 0; i < n; ++i) t[key(permuted(i, n, order))] = permuted(i, n, order) * 2;
    check("after inserting", [](int) { return true; }, 0);
    auto gone = [=](int i) { return erase == 0 ? i & 1 : erase == 1 ? i < n / 2 : erase == 2 ? i % 256 < 200 : i != n / 2; };
    for (int k = 0; k < n; ++k) {
        int i = permuted(k, n, (order + erase) % 3);
        if (gone(i)) t.erase(key(i));
    }
    check("after erasing", [&](int i) { return !gone(i); }, 0);
    for (int i = 0; i < n; ++i) t[key(i)] = i * 2 + 1;
    check("after inserting again", [](int) { return true; }, 1);
    Table u = std::move(t);
    t = Table(std::move(u));
    check("after moving", [](int) { return true; }, 1);
    t.clear();
    check("after clear", [](int) { return false; }, 0);
    mc::step(uint64_t(n));
}
static void big_hash() {
    static const int ns[] = { 200, 3000, 70001 };
    int n = ns[mc::choose(3)], order = int(mc::choose(3)), erase = int(mc::choose(4)), mode = int(mc::choose(n > 3000 ? 3 : 5));
    detail::hash_map<uint64_t, int, BigHash> t(16, BigHash{ mode });
    table_history(t, n, order, erase, [&](int i) { return uint64_t(i) * (mode == 0 ? 1 : 5); });
    mc::state(mc::mix(uint64_t(n), uint64_t(order * 16 + erase * 4 + mode)));
}
template<class K>
static void big_sparse() {
    static const int ns[] = { 200, 3000, 65536, 70001 };
    int n = ns[mc::choose(sizeof(K) == 2 ? 3 : 4)], order = int(mc::choose(3)), erase = int(mc::choose(4)), stride = sizeof(K) > 2 ? 1 + 6 * int(mc::choose(2)) : 1;
    detail::sparse_map<K, int> t;
    table_history(t, n, order, erase, [=](int i) { return K(i * stride); });
    mc::state(mc::mix(uint64_t(n), uint64_t(order * 16 + erase * 4 + stride)));
}

// ---- queue ---------------------------------------------------------------------------------------------------------------------------
static void big_queue() {
    static const int ns[] = { 1000, 1024, 1025, 70000 };
    int n = ns[mc::choose(4)], cap = int(mc::choose(3)), style = int(mc::choose(4));
    static const int caps[] = { 2, 64, 1024 };
    detail::work_stealing_queue<intptr_t> q(caps[cap]);
    std::deque<intptr_t> m;
    auto pop = [&] {
        auto x = q.pop();
        MC_CHECK(x.has_value() && *x == m.back(), "the owner obtains the wrong item, or none of %zu", m.size());
        m.pop_back();
    };
    auto steal = [&] {
        auto x = q.steal();
        MC_CHECK(x.has_value() && *x == m.front(), "a lone thief obtains the wrong item, or none of %zu", m.size());
        m.pop_front();
    };
    for (int i = 0; i < n; ++i) {
        q.push(i), m.push_back(i);
        if (style == 1 && i % 3 == 0) steal();
        if (style == 2 && i % 3 == 0) pop();
        if (style == 3 && i > 100) steal();
    }
    MC_CHECK(q.size() == m.size(), "%zu items reported, expected %zu", size_t(q.size()), m.size());
    for (int i = 0; !m.empty(); ++i) i % (style + 2) ? steal() : pop();
    MC_CHECK(!q.pop() && !q.steal() && q.empty(), "an empty queue yields an item");
    mc::step(uint64_t(n));
    mc::state(mc::mix(uint64_t(n), uint64_t(cap * 8 + style)));
}

// ---- bit sets ------------------------------------------------------------------------------------------------------------------------
static void big_bits() {
    static const size_t tops[] = { 255, 256, 4096, 65535, 65536, 70000, 1 << 20 };
    size_t top = tops[mc::choose(7)], low = mc::choose(3) * 63;
    detail::dynamic_bitset<> a, b, c;
    std::hash<detail::dynamic_bitset<>> h;
    a.set(low), b.set(low);
    MC_CHECK(a == b, "equal bit sets compare unequal");
    a.set(top);
    MC_CHECK(a.test(top) && a.test(low) && !a.test(top - 1) && !a.test(top + 1) && !a.test(top + 64) && !a.test(low + 1) && !(a == b) && !b.test(top), "bit %zu is wrong", top);
    c.set(top), c.set(low);
    MC_CHECK(a == c && h(a) == h(c), "the set {%zu,%zu} built in two orders is unequal", low, top);
    for (size_t other : { top ^ 1, top ^ 64, top + 1 }) { // as large as that one, but another one
        detail::dynamic_bitset<> d;
        d.set(other), d.set(low);
        MC_CHECK(!(a == d) && !(d == a), "the sets {%zu,%zu} and {%zu,%zu} compare equal", low, top, low, other);
        d.set(top);
        MC_CHECK(!(a == d) && !(d == a), "the sets {%zu,%zu} and {%zu,%zu,%zu} compare equal", low, top, low, other, top);
        d.set(other, false);
        MC_CHECK(a == d && h(a) == h(d), "the set {%zu,%zu} is unequal to itself after a change", low, top);
    }
    c.set(low, false);
    MC_CHECK(!(a == c) && c.test(top) && !c.test(low), "clearing bit %zu failed", low);
    a.set(top, false);
    MC_CHECK(a == b && h(a) == h(b) && !a.test(top), "clearing bit %zu failed", top);
    c.clear();
    MC_CHECK(!c.test(top) && c == detail::dynamic_bitset<>(), "clear failed");
    mc::step();
    mc::state(mc::mix(top, low));
}

// ---- allocators ----------------------------------------------------------------------------------------------------------------------
template<class Alloc, bool Stack>
static void big_alloc() {
    // address space only: nothing is touched but headers and the ends of each piece
    static const size_t sizes[] = { 1000, 65535, 65536, 65537, 70000, (1ull << 31) - 1, 1ull << 31, (1ull << 32) - 1, 1ull << 32, (1ull << 32) + 5000 };
    static size_t total = 20ull << 30;
    static char* base = static_cast<char*>(mmap(nullptr, total, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
    if (base == MAP_FAILED) mc::internal_error("no address space");
    size_t size = mc::choose(2) ? (9ull << 30) + 3 : 200001;
    Alloc a(base, size);
    struct Piece {
        char *p, *e;
        size_t before;
    };
    std::vector<Piece> pieces;
    char* top = base;
    for (int k = 0; k < 3; ++k) {
        size_t n = sizes[mc::choose(10)], al = size_t(1) << 3 * mc::choose(3);
        size_t before = 0;
        if constexpr (Stack) before = a.remaining();
        auto* p = static_cast<char*>(a.allocate(n, al));
        mc::log("  allocate(%zu, %zu) -> %td", n, al, p ? p - base : -1);
        char* first = reinterpret_cast<char*>((reinterpret_cast<uintptr_t>(top) + Stack + al - 1) / al * al);
        bool fits = first + n <= base + size;
        if (!fits) {
            MC_CHECK(!p, "%zu bytes are handed out although %td are left", n, base + size - top);
            if constexpr (Stack) MC_CHECK(a.remaining() == before, "a failed allocation changes the remaining space");
            continue;
        }
        if (Stack || p) MC_CHECK(p, "%zu bytes are refused although %td are left", n, base + size - top);
        if (!p) mc::fail("%zu bytes are refused although %td are left", n, base + size - top);
        MC_CHECK(reinterpret_cast<uintptr_t>(p) % al == 0 && p >= top && p + n <= base + size, "the memory handed out is misaligned, overlaps or is out of bounds");
        pieces.push_back({ p, p + n, before });
        *p = char(k + 1), p[n - 1] = char(k + 1);
        top = p + n;
        if constexpr (Stack) MC_CHECK(a.remaining() == size_t(base + size - top), "%zu bytes are reported as remaining, expected %td", a.remaining(), base + size - top);
    }
    for (size_t k = 0; k < pieces.size(); ++k) MC_CHECK(*pieces[k].p == pieces[k].e[-1], "a piece was overwritten");
    if constexpr (Stack)
        while (!pieces.empty()) {
            a.deallocate(pieces.back().p);
            MC_CHECK(a.remaining() == pieces.back().before, "releasing %td bytes leaves %zu, before the allocation it was %zu", pieces.back().e - pieces.back().p, a.remaining(), pieces.back().before);
            pieces.pop_back();
        }
    mc::step();
}

#endif

int main(int argc, char** argv) {
    auto add = [](const char* n, std::function<void()> f, double capq = 60, double capt = 600, bool thorough_only = false) {
        mc::Suite s;
        s.name = n;
        s.body = f;
        s.quick_cap = capq;
        s.thorough_cap = capt;
        s.hang_s = 120;
        s.thorough_only = thorough_only;
        mc::suites().push_back(s);
    };
#ifdef SCALE_ENTITIES
    auto ents = [&](const char* n, std::vector<int> ops, std::vector<int> pats, int tsteps = 2) { add(n, [=] { entities<P, Q>(70000, true, mc::quick ? 1 : tsteps, ops, pats, true); }); };
    ents("C01.large", { 1, 2, 3, 4, 8, 0 }, { 0, 2, 3, 4 });
    ents("C02.large", { 0, 7 }, { 0, 1, 2, 3, 4, 5 });
    ents("C03.large", { 0, 2, 3, 7 }, { 0, 1, 3 });
    ents("C06.large", { 0, 2, 4, 5 }, { 1, 2 });
    ents("C07.large", { 5, 6, 7 }, { 1, 2, 4 });
    add("C03.many-blocks", [] { entities<Fat<CAP * 7 / 16>, Q>(1500, false, mc::quick ? 1 : 2, { 0, 2, 3, 7, 5, 6 }, { 0, 1, 2, 3 }, true); });
    add("C03.65536-blocks", [] { entities<Fat<CAP * 15 / 16>, Q>(65800, false, 1, { 0 }, { 4 }, true); });
    add("C01.many-blocks", [] { entities<Fat<CAP * 7 / 16>, Q>(1500, false, mc::quick ? 1 : 2, { 0, 1, 2, 3, 8 }, { 0, 2, 3, 5 }, true); });
    add("C07.many-blocks", [] { entities<Fat<CAP * 7 / 16>, Q>(1500, false, mc::quick ? 1 : 2, { 5, 6, 7 }, { 1, 2, 3, 5 }, true); });
    add("C03.65536-moves", [] { entities<Fat<CAP * 15 / 16>, Q>(65800, false, 1, { 2, 7 }, { 5 }, false); });
    add("C07.65536-blocks", [] { entities<Fat<CAP * 15 / 16>, Q>(65800, false, 1, { 5, 6, 7 }, { 5 }, false); });
#endif
#ifdef SCALE_GROUPS
    add("C01.groups-512", groups);
    add("C19.groups-512", groups);
    add("C06.groups-512", groups);
    add("C19.ids", ids);
    add("C21.ids", ids);
#endif
#ifdef SCALE_WIDE
    add("C01.wide", [] { wide({ 3, 4, 6 }); });
    add("C05.wide", [] { wide({ 0, 4, 6 }); });
    add("C06.wide", [] { wide({ 2, 6 }); });
    add("C07.wide", [] { wide({ 0, 1, 2, 5 }); });
#endif
#ifdef SCALE_COMMANDS
    add("C09.large", reserve_many);
    add("C10.large", commands_many);
#endif
#ifdef SCALE_DATA
    add("C19.bits-large", big_bits);
    add("C17.large", big_hash);
    add("C18.large-16", big_sparse<uint16_t>);
    add("C18.large-32", big_sparse<uint32_t>);
    add("C18.large-64", big_sparse<uint64_t>);
    add("C16.large", big_queue);
    add("C20.large-stack", big_alloc<detail::stack_allocator, true>);
    add("C20.large-linear", big_alloc<detail::linear_allocator, false>);
#endif
    return mc::main(argc, argv);
}
