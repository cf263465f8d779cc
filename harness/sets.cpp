// C19: bit sets and component sets against std::set; C20: scratch allocators against a model of the buffer.
#include "../lib/ledger.hpp"
#include <cassert>
#include <co_ecs/co_ecs.hpp>
#include <co_ecs/detail/allocator/linear_allocator.hpp>
#include <co_ecs/detail/allocator/stack_allocator.hpp>
#include <co_ecs/detail/dynamic_bitset.hpp>
#include <map>
#include <memory>
#include <set>

using namespace co_ecs;
using co_ecs::detail::dynamic_bitset;

static void add(std::string name, std::function<void()> f, double cq = 60) {
    mc::Suite s;
    s.name = std::move(name);
    s.body = std::move(f);
    s.quick_cap = cq;
    s.thorough_cap = 900;
    mc::suites().push_back(s);
}

// ---- C19 bit sets ----------------------------------------------------------------------------------------------
static std::string str(const std::set<size_t>& s) {
    std::string r = "{";
    for (auto x : s) r += (r.size() > 1 ? "," : "") + std::to_string(x);
    return r + "}";
}
template<class T>
static void bitset_body(const std::vector<size_t>& pos, int blocks0, int blocks1, int depth) {
    using B = dynamic_bitset<T>;
    B b[2] = { B(blocks0), B(blocks1) };
    std::set<size_t> m[2];
    constexpr size_t W = sizeof(T) * 8;
    for (int d = 0; d < depth; ++d) {
        unsigned n = unsigned(pos.size());
        unsigned per = 2 * n + 2; // set, unset, clear, assign from the other
        unsigned a = mc::choose(2 * per);
        int w = int(a / per);
        a %= per;
        mc::step();
        if (a < 2 * n) {
            mc::log("  b%d.set(%zu, %d)", w, pos[a / 2], int(a % 2 == 0));
            B* r;
            if (a % 2 == 0) r = d % 2 ? &b[w].set(pos[a / 2]) : &b[w].set(pos[a / 2], true);
            else r = &b[w].set(pos[a / 2], false);
            MC_CHECK(r == &b[w], "set does not return the set");
            if (a % 2 == 0) m[w].insert(pos[a / 2]);
            else m[w].erase(pos[a / 2]);
        } else if (a == 2 * n) {
            mc::log("  b%d.clear()", w);
            b[w].clear();
            m[w].clear();
        } else {
            mc::log("  b%d = b%d", w, 1 - w);
            b[w] = b[1 - w];
            m[w] = m[1 - w];
        }
        if (!mc::fresh()) continue;
        uint64_t h = mc::mix(sizeof(T), d);
        for (int k = 0; k < 2; ++k)
            for (auto x : m[k]) h = mc::mix(h, x * 2 + k);
        mc::state(h);
        for (int k = 0; k < 2; ++k) {
            for (size_t p = 0; p < 4 * W + 2; ++p) MC_CHECK(b[k].test(p) == (m[k].count(p) > 0), "test(%zu)=%d but the members are %s", p, int(b[k].test(p)), str(m[k]).c_str());
            MC_CHECK(!b[k].test(100000), "test beyond the end is true");
            // rebuilt from scratch in ascending and descending order, and with extra space
            B up, down, wide(4);
            for (auto x : m[k]) up.set(x), wide.set(x);
            for (auto it = m[k].rbegin(); it != m[k].rend(); ++it) down.set(*it);
            std::hash<B> hs;
            MC_CHECK(b[k] == up && up == b[k] && b[k] == down && b[k] == wide && wide == b[k], "two sets with members %s built in different ways are not equal", str(m[k]).c_str());
            MC_CHECK(hs(b[k]) == hs(up) && hs(up) == hs(down) && hs(wide) == hs(up), "two sets with members %s built in different ways have different hashes", str(m[k]).c_str());
            // one member more is a different set
            for (auto p : pos) {
                B other = b[k];
                other.set(p, !m[k].count(p));
                MC_CHECK(!(other == b[k]) && !(b[k] == other), "sets differing in member %zu are equal", p);
            }
        }
        MC_CHECK((b[0] == b[1]) == (m[0] == m[1]) && (b[1] == b[0]) == (m[0] == m[1]), "sets %s and %s compare %s", str(m[0]).c_str(), str(m[1]).c_str(), b[0] == b[1] ? "equal" : "unequal");
    }
}

// ---- C19 component sets: types whose ids lie on both sides of the word boundaries --------------------------------
template<int N>
struct D {
    int v = N;
};
constexpr int ND = 135;
struct TypeOps {
    component_id_t id;
    component_meta meta;
    void (*set)(registry&, entity);
    void (*remove)(registry&, entity);
    bool (*has)(registry&, entity);
    void (*goi)(registry&, entity);
    entity (*create)(registry&);
    bool (*in)(const archetype&);
    entity (*create2[2])(registry&); // together with the partner type, in either order
};
constexpr int PARTNER = 7;
template<int N, int M>
static entity create_two(registry& r) {
    if constexpr (N == M) return entity(r.create<D<N>>({}));
    else return entity(r.create<D<N>, D<M>>({}, {}));
}
// only for some types, to keep the compiler's work in bounds: those whose ids are likely to be next to word boundaries
template<int N, bool Partner_first>
static auto pair_creator() -> entity (*)(registry&) {
    if constexpr ((N > 4 && N < 56) || (N > 64 && N < 122)) return nullptr;
    else if constexpr (Partner_first) return &create_two<PARTNER, N>;
    else return &create_two<N, PARTNER>;
}
template<int N>
static TypeOps ops_of() {
    return TypeOps{ component_id::value<D<N>>, component_meta::of<D<N>>(), [](registry& r, entity e) { r.get_entity(e).set<D<N>>(); }, [](registry& r, entity e) { r.get_entity(e).remove<D<N>>(); },
        [](registry& r, entity e) { return r.get_entity(e).has<D<N>>(); }, [](registry& r, entity e) { (void)r.get_entity(e).get_or_insert<D<N>>(); },
        [](registry& r) { return entity(r.create<D<N>>({})); }, [](const archetype& a) { return a.contains<D<N>>(); }, { pair_creator<N, false>(), pair_creator<N, true>() } };
}
static std::map<component_id_t, TypeOps>& by_id() {
    static std::map<component_id_t, TypeOps> m = [] {
        std::map<component_id_t, TypeOps> r;
        [&]<int... I>(std::integer_sequence<int, I...>) { (..., r.emplace(component_id::value<D<I>>, ops_of<I>())); }(std::make_integer_sequence<int, ND>{});
        return r;
    }();
    return m;
}
// types by position in the sorted id list, so that ids cross 64 and 128
static std::vector<component_id_t> pick_ids() {
    std::vector<component_id_t> r, all;
    for (auto& [id, o] : by_id()) all.push_back(id);
    for (auto want : std::initializer_list<component_id_t>{ component_id::value<D<PARTNER>>, 63, 64, 128 })
        for (auto id : all)
            if (id >= want) {
                if (r.empty() || r.back() != id) {
                    r.push_back(id);
                    break;
                }
            }
    return r;
}

static void component_set_body(int depth) {
    static auto ids = pick_ids();
    component_set s[2];
    component_meta_set ms[2];
    std::set<size_t> m[2];
    component_set_hasher hs;
    for (int d = 0; d < depth; ++d) {
        unsigned n = unsigned(ids.size()), per = 2 * n + 1;
        unsigned a = mc::choose(2 * per);
        int w = int(a / per);
        a %= per;
        mc::step();
        if (a < n) {
            mc::log("  s%d.insert(%u)", w, ids[a]);
            s[w].insert(ids[a]);
            ms[w].insert(by_id().at(ids[a]).meta);
            m[w].insert(ids[a]);
        } else if (a < 2 * n) {
            mc::log("  s%d.erase(%u)", w, ids[a - n]);
            s[w].erase(ids[a - n]);
            ms[w].erase(ids[a - n]);
            m[w].erase(ids[a - n]);
        } else {
            mc::log("  s%d.clear()", w);
            s[w].clear();
            for (auto id : m[w]) ms[w].erase(component_id_t(id));
            m[w].clear();
        }
        if (!mc::fresh()) continue;
        uint64_t h = d;
        for (int k = 0; k < 2; ++k)
            for (auto x : m[k]) h = mc::mix(h, x * 2 + k);
        mc::state(h);
        for (int k = 0; k < 2; ++k) {
            for (component_id_t id = 0; id < 200; ++id) {
                MC_CHECK(s[k].contains(id) == (m[k].count(id) > 0), "component set contains(%u)=%d, members are %s", id, int(s[k].contains(id)), str(m[k]).c_str());
                MC_CHECK(ms[k].contains(id) == (m[k].count(id) > 0), "component meta set contains(%u) wrong, members are %s", id, str(m[k]).c_str());
            }
            std::set<size_t> seen;
            for (auto& meta : ms[k]) MC_CHECK(m[k].count(meta.id) && seen.insert(meta.id).second, "iteration of a component meta set yields %u wrongly", meta.id);
            MC_CHECK(seen.size() == m[k].size() && ms[k].size() == m[k].size(), "component meta set has %zu members, expected %zu", ms[k].size(), m[k].size());
            MC_CHECK(ms[k].ids() == s[k] && hs(ms[k].ids()) == hs(s[k]), "ids of a component meta set differ from the component set with the same members %s", str(m[k]).c_str());
        }
        bool eq = m[0] == m[1];
        MC_CHECK((s[0] == s[1]) == eq && (ms[0].ids() == ms[1].ids()) == eq, "component sets %s and %s compare %s", str(m[0]).c_str(), str(m[1]).c_str(), eq ? "unequal" : "equal");
        MC_CHECK((ms[0] == ms[1]) == eq, "component meta sets %s and %s compare %s", str(m[0]).c_str(), str(m[1]).c_str(), eq ? "unequal" : "equal");
        MC_CHECK(!eq || hs(s[0]) == hs(s[1]), "equal component sets %s have different hashes", str(m[0]).c_str());
    }
}

// entities reaching component sets by any path share storage exactly when the sets are equal
static void groups_body(int depth, bool two_registries, bool prefilled = true) {
    static auto ids = pick_ids();
    static auto partner = component_id::value<D<PARTNER>>;
    registry r[2];
    struct Ent {
        entity h;
        int reg;
        std::set<size_t> m;
    };
    std::vector<Ent> es;
    std::map<std::set<size_t>, const void*> group[2];
    if (prefilled) es.push_back({ r[0].create<>(), 0, {} });
    if (prefilled) es.push_back({ by_id().at(ids[0]).create(r[0]), 0, { ids[0] } });
    for (int d = 0; d < depth; ++d) {
        struct Alt {
            int k;
            int e;
            component_id_t id;
        };
        std::vector<Alt> alts;
        for (int e = 0; e < int(es.size()); ++e) {
            for (auto id : ids) {
                alts.push_back({ es[e].m.count(id) ? 1 : 0, e, id });
                if (!es[e].m.count(id) && e == 0) alts.push_back({ 2, e, id });
            }
            if (es.size() < 3) alts.push_back({ 3, e, 0 });
            if (es.size() < 3 && two_registries) alts.push_back({ 4, e, 0 });
            if (two_registries) alts.push_back({ 5, e, 0 });
        }
        if (es.size() < 3 || !prefilled) {
            alts.push_back({ 6, 0, ids.back() });
            if (!prefilled) alts.push_back({ 7, 0, 0 });
        }
        if (!prefilled)
            for (auto id : ids) {
                if (id != ids.back()) alts.push_back({ 6, 0, id });
                if (id != partner && by_id().at(id).create2[0]) alts.push_back({ 8, 0, id }), alts.push_back({ 9, 0, id });
            }
        auto a = alts[mc::choose(unsigned(alts.size()))];
        mc::step();
        es.reserve(es.size() + 1);
        static const char* nm[] = { "set", "remove", "get_or_insert", "clone", "copy", "move", "create", "create empty", "create with the partner type", "create with the partner type first" };
        mc::log("  %s entity %d component %u", nm[a.k], a.e, a.id);
        if (a.k >= 7) {
            if (a.k == 7) es.push_back({ r[0].create<>(), 0, {} });
            else es.push_back({ by_id().at(a.id).create2[a.k - 8](r[0]), 0, { a.id, partner } });
        } else {
        static Ent none;
        auto& e = a.k == 6 ? none : es[a.e];
        switch (a.k) {
        case 0:
            by_id().at(a.id).set(r[e.reg], e.h);
            e.m.insert(a.id);
            break;
        case 1:
            by_id().at(a.id).remove(r[e.reg], e.h);
            e.m.erase(a.id);
            break;
        case 2:
            by_id().at(a.id).goi(r[e.reg], e.h);
            e.m.insert(a.id);
            break;
        case 3: {
            auto c = e;
            c.h = entity(r[e.reg].get_entity(e.h).clone());
            es.push_back(c);
            break;
        }
        case 4: {
            auto c = e;
            c.h = entity(r[e.reg].get_entity(e.h).copy(r[1 - e.reg]));
            c.reg = 1 - e.reg;
            es.push_back(c);
            break;
        }
        case 5:
            e.h = entity(r[e.reg].get_entity(e.h).move(r[1 - e.reg]));
            e.reg = 1 - e.reg;
            break;
        case 6: es.push_back({ by_id().at(a.id).create(r[0]), 0, { a.id } }); break;
        }
        }
        if (!mc::fresh()) continue;
        uint64_t h = 5;
        for (auto& x : es) {
            h = mc::mix(h, x.reg + 100);
            for (auto id : x.m) h = mc::mix(h, id);
        }
        mc::state(h);
        for (auto& x : es) {
            const archetype& ar = r[x.reg].get_entity(x.h).archetype();
            for (auto& [id, o] : by_id()) {
                bool want = x.m.count(id) > 0;
                MC_CHECK(o.in(ar) == want, "storage group of an entity with components %s: contains(%u)=%d", str(x.m).c_str(), id, int(o.in(ar)));
            }
            for (auto id : ids) MC_CHECK(by_id().at(id).has(r[x.reg], x.h) == (x.m.count(id) > 0), "an entity with components %s: has(%u) wrong", str(x.m).c_str(), id);
            auto [it, ins] = group[x.reg].emplace(x.m, &ar);
            MC_CHECK(it->second == &ar, "two entities with components %s are in different storage groups", str(x.m).c_str());
            for (auto& [set, g] : group[x.reg]) MC_CHECK(set == x.m || g != &ar, "entities with components %s and %s share a storage group", str(set).c_str(), str(x.m).c_str());
        }
        // one group per component set in the whole registry
        for (int k = 0; k < 2; ++k) {
            std::vector<std::vector<bool>> sets;
            for (auto& [set, arch] : r[k].archetypes()) {
                if (!arch) continue;
                std::vector<bool> v;
                for (auto& [id, o] : by_id()) v.push_back(o.in(*arch));
                for (auto& other : sets) MC_CHECK(other != v, "two storage groups for the same component set");
                sets.push_back(v);
            }
        }
    }
}

// ---- C20 --------------------------------------------------------------------------------------------------------
struct Live {
    unsigned char* p;
    size_t n;
    unsigned char pat;
    size_t before; // remaining before the allocation (stack)
    unsigned char* top;
};
constexpr size_t GUARD = 64;
struct Buf {
    alignas(256) unsigned char raw[1024];
    unsigned char* p;
    size_t size;
    Buf(size_t off, size_t n) : size(n) {
        memset(raw, 0xEE, sizeof raw);
        p = raw + GUARD + off;
    }
    void check(const std::vector<Live>& live, const char* w) {
        for (unsigned char* q = raw; q < p; ++q) MC_CHECK(*q == 0xEE, "%s: memory before the buffer was written", w);
        for (unsigned char* q = p + size; q < raw + sizeof raw; ++q) MC_CHECK(*q == 0xEE, "%s: memory after the buffer was written", w);
        for (size_t i = 0; i < live.size(); ++i)
            for (size_t k = 0; k < live[i].n; ++k) MC_CHECK(live[i].p[k] == live[i].pat, "%s: allocation %zu of %zu was overwritten", w, i, live.size());
    }
    void place(std::vector<Live>& live, void* vp, size_t n, size_t al, int& pat, const char* w, size_t before, unsigned char* top) {
        auto* q = static_cast<unsigned char*>(vp);
        MC_CHECK(reinterpret_cast<uintptr_t>(q) % al == 0, "%s: allocation is not aligned to %zu", w, al);
        MC_CHECK(q >= p && n <= size && q <= p + size - n, "%s: allocation of %zu bytes at offset %td is outside of the buffer of %zu bytes", w, n, q - p, size);
        for (auto& l : live) MC_CHECK(q + n <= l.p || q >= l.p + l.n, "%s: allocation overlaps a live one", w);
        live.push_back({ q, n, (unsigned char)(++pat), before, top });
        memset(q, live.back().pat, n);
    }
};
static bool fits(unsigned char* from, unsigned char* end, size_t n, size_t al) {
    auto a = (reinterpret_cast<uintptr_t>(from) + al - 1) / al * al;
    auto e = reinterpret_cast<uintptr_t>(end);
    return a <= e && n <= e - a;
}
struct Req {
    size_t n, al;
    int rel; // 0 absolute; 1: all that remains minus header etc. + n (as signed)
};
static std::vector<Req> requests(bool few) {
    std::vector<Req> r = { { 1, 1, 0 }, { 8, 8, 0 }, { 3, 2, 0 }, { 24, 16, 0 }, { 1, 64, 0 } };
    if (!few) r.insert(r.end(), { { 5, 1, 0 }, { 16, 16, 0 }, { 2, 128, 0 } });
    // the rest of the buffer, one less, one more, and absurd sizes
    r.insert(r.end(), { { 0, 1, 1 }, { size_t(-1), 1, 1 }, { 1, 1, 1 }, { size_t(-2), 1, 1 }, { 0, 8, 1 }, { ~size_t(0), 1, 0 }, { ~size_t(0) - 8, 8, 0 }, { ~size_t(0) / 2, 16, 0 } });
    return r;
}
static void stack_body(size_t off, size_t size, int depth, bool few) {
    Buf buf(off, size);
    auto a = std::make_unique<detail::stack_allocator>(buf.p, size);
    std::vector<Live> live;
    int pat = 0;
    auto reqs = requests(few);
    MC_CHECK(a->remaining() == size, "a fresh allocator has %zu of %zu bytes", a->remaining(), size);
    for (int d = 0; d < depth; ++d) {
        unsigned c = mc::choose(unsigned(reqs.size()) + 4);
        mc::step();
        char w[128];
        if (c < reqs.size()) {
            auto q = reqs[c];
            size_t before = a->remaining();
            size_t n = q.rel ? before + q.n : q.n;
            if (q.rel && (n == 0 || n > size + 4)) continue;
            unsigned char* top = buf.p + (size - before);
            bool fit = before >= 1 && fits(top + 1, buf.p + size, n, q.al);
            snprintf(w, sizeof w, "allocate(%zu, %zu) with %zu bytes left", n, q.al, before);
            mc::log("  %s", w);
            void* p = a->allocate(n, q.al);
            if (!p) {
                MC_CHECK(!fit, "%s refused although it fits", w);
                MC_CHECK(a->remaining() == before, "%s refused, but %zu bytes are left now", w, a->remaining());
            } else {
                buf.place(live, p, n, q.al, pat, w, before, top);
                MC_CHECK(static_cast<unsigned char*>(p) > top, "%s: no room for bookkeeping", w);
                MC_CHECK(a->remaining() == size_t(buf.p + size - (live.back().p + n)), "%s leaves %zu bytes, expected %td", w, a->remaining(), buf.p + size - (live.back().p + n));
            }
        } else if (c == reqs.size()) {
            if (live.empty()) continue;
            snprintf(w, sizeof w, "deallocate the last of %zu", live.size());
            mc::log("  %s", w);
            auto l = live.back();
            a->deallocate(l.p);
            live.pop_back();
            MC_CHECK(a->remaining() == l.before, "%s: %zu bytes left, before the allocation there were %zu", w, a->remaining(), l.before);
        } else if (c == reqs.size() + 1) {
            snprintf(w, sizeof w, "reset");
            mc::log("  %s", w);
            a->reset();
            live.clear();
            MC_CHECK(a->remaining() == size, "after reset %zu of %zu bytes are left", a->remaining(), size);
        } else {
            size_t before = a->remaining();
            std::unique_ptr<detail::stack_allocator> b;
            if (c == reqs.size() + 2) {
                snprintf(w, sizeof w, "move");
                mc::log("  %s", w);
                b = std::make_unique<detail::stack_allocator>(std::move(*a));
            } else {
                snprintf(w, sizeof w, "move-assign");
                mc::log("  %s", w);
                static unsigned char other[64];
                b = std::make_unique<detail::stack_allocator>(other, sizeof other);
                (void)b->allocate(5, 1);
                *b = std::move(*a);
            }
            MC_CHECK(a->allocate(1, 1) == nullptr, "%s: the moved-from allocator still hands out memory", w);
            a = std::move(b);
            MC_CHECK(a->remaining() == before, "%s: %zu bytes left, before there were %zu", w, a->remaining(), before);
        }
        if (mc::fresh()) {
            mc::state(mc::mix(mc::mix(a->remaining(), live.size()), size * 64 + off));
            buf.check(live, w);
        }
    }
    while (!live.empty()) {
        auto l = live.back();
        a->deallocate(l.p);
        live.pop_back();
        MC_CHECK(a->remaining() == l.before, "unwinding: %zu bytes left, before the allocation there were %zu", a->remaining(), l.before);
        buf.check(live, "unwinding");
    }
}
static void linear_body(size_t off, size_t size, int depth) {
    Buf buf(off, size);
    auto a = std::make_unique<detail::linear_allocator>(buf.p, size);
    std::vector<Live> live;
    unsigned char* head = buf.p;
    int pat = 0;
    auto reqs = requests(false);
    for (int d = 0; d < depth; ++d) {
        unsigned c = mc::choose(unsigned(reqs.size()) + 3);
        mc::step();
        char w[128];
        if (c < reqs.size()) {
            auto q = reqs[c];
            size_t left = size_t(buf.p + size - head);
            size_t n = q.rel ? left + q.n : q.n;
            if (q.rel && (n == 0 || n > size + 4)) continue;
            bool fit = fits(head, buf.p + size, n, q.al);
            snprintf(w, sizeof w, "allocate(%zu, %zu) with %zu bytes left", n, q.al, left);
            mc::log("  %s", w);
            void* p = a->allocate(n, q.al);
            MC_CHECK(bool(p) == fit, "%s %s", w, p ? "succeeded although it does not fit" : "refused although it fits");
            if (p) {
                buf.place(live, p, n, q.al, pat, w, 0, nullptr);
                head = live.back().p + n;
            }
        } else if (c == reqs.size()) {
            snprintf(w, sizeof w, "reset");
            mc::log("  %s", w);
            a->reset();
            live.clear();
            head = buf.p;
        } else {
            std::unique_ptr<detail::linear_allocator> b;
            snprintf(w, sizeof w, "move");
            mc::log("  %s", w);
            if (c == reqs.size() + 1) b = std::make_unique<detail::linear_allocator>(std::move(*a));
            else {
                static unsigned char other[64];
                b = std::make_unique<detail::linear_allocator>(other, sizeof other);
                (void)b->allocate(5, 1);
                *b = std::move(*a);
            }
            a = std::move(b);
        }
        if (mc::fresh()) {
            mc::state(mc::mix(mc::mix(size_t(head - buf.p), live.size()), size * 64 + off + 7));
            buf.check(live, w);
        }
    }
}

int main(int argc, char** argv) {
    // C19
    add("C19.bits.u64", [] { bitset_body<uint64_t>({ 0, 63, 64, 128 }, 1, 1, mc::quick ? 4 : 5); });
    add("C19.bits.u64.sized", [] { bitset_body<uint64_t>({ 1, 64, 191 }, 3, 1, mc::quick ? 4 : 5); });
    add("C19.bits.u64.empty", [] { bitset_body<uint64_t>({ 0, 65, 130 }, 0, 2, mc::quick ? 4 : 5); });
    add("C19.bits.u8", [] { bitset_body<uint8_t>({ 0, 7, 8, 16, 23 }, 1, 2, mc::quick ? 4 : 5); });
    add("C19.component-sets", [] { component_set_body(mc::quick ? 4 : 5); });
    add("C19.groups", [] { groups_body(mc::quick ? 5 : 6, false); });
    add("C19.groups-created", [] { groups_body(mc::quick ? 4 : 5, false, false); });
    add("C19.groups-two-registries", [] { groups_body(mc::quick ? 4 : 5, true); });
    // C20
    for (size_t off : { 0, 1, 8, 15 })
        for (size_t size : { 1, 2, 17, 64, 200 }) {
            auto n = std::to_string(off) + "." + std::to_string(size);
            add("C20.stack." + n, [off, size] { stack_body(off, size, mc::quick ? 4 : 5, true); });
            add("C20.linear." + n, [off, size] { linear_body(off, size, mc::quick ? 4 : 5); });
        }
    add("C20.stack.deep", [] { stack_body(3, 40, mc::quick ? 5 : 6, true); });
    add("C20.stack.wide", [] { stack_body(0, 400, mc::quick ? 4 : 5, false); });
    add("C20.stack.none", [] { stack_body(0, 0, 4, true); });
    return mc::main(argc, argv);
}
