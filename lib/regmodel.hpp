// Reference model of one registry, typed operations and observers, built on the public API only.
#pragma once
#include "ledger.hpp"
#include "blocks.hpp"
#include <co_ecs/co_ecs.hpp>
#include <array>
#include <map>
#include <memory>
#include <optional>
#include <set>

using A = Comp<0, 0>;
using B = Comp<1, 0>;
using Big = Comp<2, CAP / 2 - 292>; // two entities per storage block
struct Tag {                 // empty component
    bool operator==(const Tag&) const = default;
};
using NC = Comp<4, 0, false>; // move-only
using H1 = Comp<5, CAP * 9 / 16>;     // fits alone, not together with H2
using H2 = Comp<6, CAP * 9 / 16>;
using C3 = Comp<7, CAP * 5 / 16>;     // three entities per block
enum TypeId { tA, tB, tBig, tTag, tNC, tH1, tH2, tC3, NT };
constexpr int ABSENT = -1000000;
constexpr int TAGVAL = 1;

template<class F>
auto with_type(int t, F f) {
    switch (t) {
    case tA: return f.template operator()<A>();
    case tB: return f.template operator()<B>();
    case tBig: return f.template operator()<Big>();
    case tTag: return f.template operator()<Tag>();
    case tNC: return f.template operator()<NC>();
    case tH1: return f.template operator()<H1>();
    case tH2: return f.template operator()<H2>();
    default: return f.template operator()<C3>();
    }
}
template<class T>
constexpr int type_of() {
    if constexpr (std::is_same_v<T, Tag>) return tTag;
    else return T::id == 3 ? tTag : T::id;
}
template<class T>
T make(int v) {
    if constexpr (std::is_same_v<T, Tag>) return Tag{};
    else return T{ v };
}
template<class T>
int val(const T& x) {
    if constexpr (std::is_same_v<T, Tag>) return TAGVAL;
    else return x.intact() ? x.v : -555;
}

struct MEnt {
    co_ecs::entity h;
    bool alive = true;
    std::array<int, NT> v;
    MEnt() { v.fill(ABSENT); }
    bool has(int t) const { return v[t] != ABSENT; }
    unsigned mask() const {
        unsigned m = 0;
        for (int t = 0; t < NT; ++t)
            if (has(t)) m |= 1u << t;
        return m;
    }
};
struct Model {
    std::vector<MEnt> ents; // in order of issue
    int live() const {
        int n = 0;
        for (auto& e : ents) n += e.alive;
        return n;
    }
};

inline std::string hs(co_ecs::entity e) { return std::to_string(e.id()) + ":" + std::to_string(e.generation()); }

// ---- observers ----------------------------------------------------------------------------------------------
template<class T>
std::optional<int> read_get(co_ecs::registry& r, co_ecs::entity e) {
    try {
        return val(r.get_entity(e).template get<T>());
    } catch (const co_ecs::component_not_found&) {
        return std::nullopt;
    }
}
template<class T>
std::optional<int> read_get_cref(co_ecs::registry& r, co_ecs::entity e) {
    try {
        const auto ref = r.get_entity(e);
        return val(ref.template get<T>());
    } catch (const co_ecs::component_not_found&) {
        return std::nullopt;
    }
}
template<class T>
std::optional<int> read_const(const co_ecs::registry& r, co_ecs::entity e) {
    try {
        return val(r.get_entity(e).template get<T>());
    } catch (const co_ecs::component_not_found&) {
        return std::nullopt;
    }
}

template<class T>
void check_one(co_ecs::registry& r, const MEnt& m, const char* where) {
    const co_ecs::registry& cr = r;
    constexpr int t = type_of<T>();
    bool want = m.has(t);
    int wv = std::is_same_v<T, Tag> ? TAGVAL : m.v[t];
    bool h1 = r.get_entity(m.h).template has<T>(), h2 = cr.get_entity(m.h).template has<T>(), h3 = r.has<T>(m.h), h4 = cr.get_entity_const(m.h).template has<T>();
    MC_CHECK(h1 == want && h2 == want && h3 == want && h4 == want, "%s: entity %s: membership of %s is %d/%d/%d/%d, expected %d", where, hs(m.h).c_str(), tname(t), h1, h2, h3, h4, want);
    MC_CHECK(r.get_entity(m.h).archetype().template contains<T>() == want && cr.get_entity(m.h).archetype().template contains<T>() == want, "%s: entity %s: storage group membership of %s wrong", where,
        hs(m.h).c_str(), tname(t));
    // reporting a missing component is slow (exceptions): one reader per entity and type, in rotation
    int miss = t <= tBig ? int(m.h.id() + t + m.h.generation()) % 3 : -1;
    std::optional<int> g[3];
    if (want || miss == 0) g[0] = read_get<T>(r, m.h);
    if (want || miss == 1) g[1] = read_get_cref<T>(r, m.h);
    if (want || miss == 2) g[2] = read_const<T>(cr, m.h);
    for (int k = 0; k < 3; ++k) {
        if (!want && k != miss) continue;
        MC_CHECK(bool(g[k]) == want, "%s: entity %s: reading %s %s, expected the opposite (reader %d)", where, hs(m.h).c_str(), tname(t), g[k] ? "succeeded" : "reported component not found", k);
        MC_CHECK(!want || *g[k] == wv, "%s: entity %s: %s reads %d, expected %d (reader %d)", where, hs(m.h).c_str(), tname(t), *g[k], wv, k);
    }
}
template<class T, class U>
void check_two(co_ecs::registry& r, const MEnt& m, const char* where) {
    const co_ecs::registry& cr = r;
    constexpr int t = type_of<T>(), u = type_of<U>();
    bool want = m.has(t) && m.has(u);
    bool h1 = r.get_entity(m.h).template has<T, U>(), h2 = cr.get_entity(m.h).template has<U, T>();
    MC_CHECK(h1 == want && h2 == want, "%s: entity %s: joint membership of %s,%s wrong", where, hs(m.h).c_str(), tname(t), tname(u));
    auto ref = r.get_entity(m.h);
    const auto cref = r.get_entity(m.h);
    auto kref = cr.get_entity(m.h);
    for (int k = 0; k < 3; ++k) {
        if (!want && (k != int(m.h.id()) % 3 || t > u)) continue;
        bool got = true;
        int a = 0, b = 0;
        try {
            if (k == 0) {
                auto [x, y] = ref.template get<T, U>();
                a = val(x), b = val(y);
            } else if (k == 1) {
                auto [x, y] = cref.template get<T, U>();
                a = val(x), b = val(y);
            } else {
                auto [x, y] = kref.template get<T, U>();
                a = val(x), b = val(y);
            }
        } catch (const co_ecs::component_not_found&) {
            got = false;
        }
        MC_CHECK(got == want, "%s: entity %s: reading %s and %s together %s (reader %d)", where, hs(m.h).c_str(), tname(t), tname(u), got ? "succeeded" : "failed", k);
        int wt = std::is_same_v<T, Tag> ? TAGVAL : m.v[t], wu = std::is_same_v<U, Tag> ? TAGVAL : m.v[u];
        MC_CHECK(!want || (a == wt && b == wu), "%s: entity %s: %s,%s read as %d,%d expected %d,%d (reader %d)", where, hs(m.h).c_str(), tname(t), tname(u), a, b, wt, wu, k);
    }
}

inline int id_to_type(co_ecs::component_id_t id) {
    using co_ecs::component_id;
    if (id == component_id::value<A>) return tA;
    if (id == component_id::value<B>) return tB;
    if (id == component_id::value<Big>) return tBig;
    if (id == component_id::value<Tag>) return tTag;
    if (id == component_id::value<NC>) return tNC;
    if (id == component_id::value<H1>) return tH1;
    if (id == component_id::value<H2>) return tH2;
    if (id == component_id::value<C3>) return tC3;
    return -1;
}

inline void check_visit(co_ecs::registry& r, const MEnt& m, const char* where) {
    const co_ecs::registry& cr = r;
    for (int k = 0; k < 3; ++k) {
        unsigned seen = 0;
        std::string bad;
        auto f = [&](const co_ecs::component_meta& meta, const void* p) {
            int t = id_to_type(meta.id);
            if (t < 0 || (seen & (1u << t))) {
                bad = "visited something that is not a component of the entity, or one twice";
                return;
            }
            seen |= 1u << t;
            if (!m.has(t)) return;
            bool ok = with_type(t, [&]<class T>() { return p == static_cast<const void*>(std::addressof(r.get_entity(m.h).template get<T>())) && meta.type == co_ecs::type_meta::of<T>(); });
            if (!ok) bad = std::string("visit address or type of ") + tname(t) + " differs from get";
        };
        if (k == 0) r.get_entity(m.h).visit(f);
        else if (k == 1) cr.get_entity(m.h).visit(f);
        else {
            const auto c = r.get_entity(m.h);
            c.visit(f);
        }
        MC_CHECK(bad.empty(), "%s: entity %s: %s", where, hs(m.h).c_str(), bad.c_str());
        MC_CHECK(seen == m.mask(), "%s: entity %s: visit saw component mask %x, expected %x (visitor %d)", where, hs(m.h).c_str(), seen, m.mask(), k);
    }
}

inline void check_values(co_ecs::registry& r, const Model& m, const char* where, bool heavy = true) {
    MC_CHECK(int(r.size()) == m.live() && r.empty() == (m.live() == 0), "%s: registry reports %zu live entities (empty=%d), expected %d", where, r.size(), int(r.empty()), m.live());
    for (auto& e : m.ents) {
        bool al = r.alive(e.h);
        MC_CHECK(al == e.alive && r.get_entity(e.h).alive() == al && std::as_const(r).get_entity(e.h).alive() == al, "%s: entity %s alive=%d, expected %d", where, hs(e.h).c_str(), al, e.alive);
        if (!e.alive) continue;
        check_one<A>(r, e, where);
        check_one<B>(r, e, where);
        check_one<Tag>(r, e, where);
        check_one<Big>(r, e, where);
        check_one<C3>(r, e, where);
        check_one<NC>(r, e, where);
        check_one<H1>(r, e, where);
        check_one<H2>(r, e, where);
        if (heavy) {
            check_two<A, B>(r, e, where);
            check_two<B, A>(r, e, where);
            check_two<A, Big>(r, e, where);
            check_visit(r, e, where);
        }
    }
}

// storage: every group holds exactly its entities, all chunks but the last are full, no surplus empty chunk
inline void check_dense(co_ecs::registry& r, const char* where) {
    std::size_t total = 0;
    for (auto& [set, arch] : r.archetypes()) {
        MC_CHECK(arch != nullptr, "%s: a storage group without storage", where);
        auto& ch = arch->chunks();
        for (std::size_t i = 0; i < ch.size(); ++i) {
            total += ch[i].size();
            MC_CHECK(ch[i].size() <= ch[i].max_size(), "%s: storage block overfull", where);
            if (i + 1 < ch.size()) MC_CHECK(ch[i].full(), "%s: storage block %zu of %zu holds %zu of %zu entities: storage is not dense", where, i, ch.size(), ch[i].size(), ch[i].max_size());
            if (i > 0) MC_CHECK(!ch[i].empty(), "%s: empty storage block %zu of %zu kept", where, i, ch.size());
        }
    }
    MC_CHECK(total == r.size(), "%s: storage blocks hold %zu entities, registry has %zu", where, total, r.size());
}

inline uint64_t model_hash(const Model& m, const co_ecs::registry& r) {
    uint64_t h = 17;
    int rank = 0;
    for (auto& e : m.ents) {
        h = mc::mix(h, (uint64_t(e.h.id()) << 32) | e.h.generation());
        h = mc::mix(h, e.alive ? e.mask() + 2 : 1);
        ++rank;
    }
    for (auto& [set, arch] : r.archetypes())
        if (arch) {
            h = mc::mix(h, 99);
            for (auto& c : std::as_const(*arch).chunks()) h = mc::mix(h, c.size());
        }
    return h;
}
