// C05: every ordered combination of component types from a grid of sizes and alignments.
#include "../lib/explore.hpp"
#include <algorithm>
#include <cassert>
#include <co_ecs/co_ecs.hpp>
#include "../lib/blocks.hpp"
#include <cstdlib>
#include <memory>
#include <new>
#include <sanitizer/asan_interface.h>

// Memory with an alignment request comes back aligned to exactly what was asked for and to nothing beyond: with an allocator that is more
// generous than it has to be, a storage block that asks for too little would go unnoticed.
static void* aligned_block(size_t n, size_t al) {
    if (al < 16) al = 16;
    size_t total = n + 3 * al + 16;
    char* raw = static_cast<char*>(malloc(total));
    if (!raw) throw std::bad_alloc();
    uintptr_t p = reinterpret_cast<uintptr_t>(raw) + 16;
    p = (p + al - 1) / al * al;
    if (p % (2 * al) == 0) p += al;
    memcpy(reinterpret_cast<char*>(p) - 8, &raw, 8);
    ASAN_POISON_MEMORY_REGION(raw, p - reinterpret_cast<uintptr_t>(raw));
    ASAN_POISON_MEMORY_REGION(reinterpret_cast<char*>(p) + n, raw + total - (reinterpret_cast<char*>(p) + n));
    return reinterpret_cast<void*>(p);
}
static void free_aligned_block(void* q) {
    if (!q) return;
    char *p = static_cast<char*>(q), *raw;
    ASAN_UNPOISON_MEMORY_REGION(p - 8, 8);
    memcpy(&raw, p - 8, 8);
    free(raw);
}
void* operator new(size_t n, std::align_val_t a) { return aligned_block(n, size_t(a)); }
void* operator new[](size_t n, std::align_val_t a) { return aligned_block(n, size_t(a)); }
void operator delete(void* p, std::align_val_t) noexcept { free_aligned_block(p); }
void operator delete[](void* p, std::align_val_t) noexcept { free_aligned_block(p); }
void operator delete(void* p, size_t, std::align_val_t) noexcept { free_aligned_block(p); }
void operator delete[](void* p, size_t, std::align_val_t) noexcept { free_aligned_block(p); }

using namespace co_ecs;

template<size_t Size, size_t Align>
struct alignas(Align) P {
    unsigned char b[Size];
};

struct Obj {
    uintptr_t p;
    size_t n;
};
struct T {
    size_t size, align;
    void (*set)(registry&, entity, unsigned);
    void (*remove)(registry&, entity);
    unsigned char* (*addr)(registry&, entity);
    bool (*has)(registry&, entity);
    void (*collect)(registry&, std::vector<Obj>&); // through a view
    std::string name;
};
static unsigned char pat(unsigned seed, size_t i) { return (unsigned char)(mc::mix(seed, i >> 3) >> (8 * (i & 7))); }
template<size_t S, size_t A>
static T type() {
    using C = P<S, A>;
    static_assert(alignof(C) == A);
    return T{ sizeof(C), A,
        [](registry& r, entity e, unsigned seed) {
            auto c = std::make_unique<C>();
            for (size_t i = 0; i < S; ++i) c->b[i] = pat(seed, i);
            r.get_entity(e).template set<C>(*c);
        },
        [](registry& r, entity e) { r.get_entity(e).template remove<C>(); },
        [](registry& r, entity e) { return reinterpret_cast<unsigned char*>(&r.get_entity(e).template get<C>()); },
        [](registry& r, entity e) { return r.get_entity(e).template has<C>(); },
        [](registry& r, std::vector<Obj>& o) {
            for (auto&& [c] : r.template view<C&>().each()) o.push_back({ reinterpret_cast<uintptr_t>(&c), sizeof(C) });
        },
        std::to_string(S) + "@" + std::to_string(A) };
}
static std::vector<T>& types() {
    static std::vector<T> t = { type<4, 4>(), type<1, 1>(), type<8, 8>(), type<3, 1>(), type<16, 16>(), type<2, 2>(), type<64, 64>(), type<24, 8>(), type<32, 32>(), type<12, 4>(), type<CAP * 5 / 16 / 8 * 8, 8>(), type<CAP * 9 / 16, 1>(),
        type<128, 128>(), type<CAP - 8, 1>(), type<CAP - 16, 16>(), type<CAP - 7, 1>(), type<7, 1>(), type<CAP / 2 - 32, 32>(),
        type<256, 256>(), type<4096, 4096>() };
    return t;
}

static void check_all(registry& r, const std::vector<entity>& es, const std::vector<std::vector<std::pair<int, unsigned>>>& comps, const char* w) {
    auto& ts = types();
    std::vector<Obj> all;
    for (size_t i = 0; i < es.size(); ++i)
        for (auto& [t, seed] : comps[i]) {
            MC_CHECK(ts[t].has(r, es[i]), "%s: entity %zu lost component %s", w, i, ts[t].name.c_str());
            auto* p = ts[t].addr(r, es[i]);
            MC_CHECK(reinterpret_cast<uintptr_t>(p) % ts[t].align == 0, "%s: component %s of entity %zu is at an address not aligned to %zu", w, ts[t].name.c_str(), i, ts[t].align);
            for (size_t k = 0; k < (ts[t].size > 64 ? 64 : ts[t].size); ++k) {
                MC_CHECK(p[k] == pat(seed, k), "%s: component %s of entity %zu of %zu was overwritten", w, ts[t].name.c_str(), i, es.size());
                size_t q = ts[t].size - 1 - k;
                MC_CHECK(p[q] == pat(seed, q), "%s: component %s of entity %zu of %zu was overwritten", w, ts[t].name.c_str(), i, es.size());
            }
            all.push_back({ reinterpret_cast<uintptr_t>(p), ts[t].size });
        }
    for (auto&& [h] : r.view<const entity&>().each()) {
        MC_CHECK(reinterpret_cast<uintptr_t>(&h) % alignof(entity) == 0, "%s: entity handle is misaligned", w);
        all.push_back({ reinterpret_cast<uintptr_t>(&h), sizeof(entity) });
    }
    std::sort(all.begin(), all.end(), [](auto& a, auto& b) { return a.p < b.p; });
    for (size_t i = 1; i < all.size(); ++i) MC_CHECK(all[i - 1].p + all[i - 1].n <= all[i].p, "%s: two objects overlap", w);
}

static void body(int maxtypes, int ntypes, bool many) {
    auto& ts = types();
    registry r;
    std::vector<entity> es;
    std::vector<std::vector<std::pair<int, unsigned>>> comps;
    es.push_back(r.create<>());
    comps.emplace_back();
    std::string what;
    size_t sum = sizeof(entity), slack = 0;
    std::vector<int> rest;
    for (int i = 0; i < ntypes; ++i) rest.push_back(i);
    unsigned seed = 1;
    int k = 1 + int(mc::choose(unsigned(maxtypes)));
    bool full = false;
    for (int i = 0; i < k; ++i) {
        int c = int(mc::choose(unsigned(rest.size())));
        int t = rest[c];
        rest.erase(rest.begin() + c);
        what += (what.empty() ? "" : ",") + ts[t].name;
        bool ok = true;
        try {
            ts[t].set(r, es[0], ++seed);
        } catch (const insufficient_chunk_size&) {
            ok = false;
        }
        mc::step();
        if (ok) {
            sum += ts[t].size;
            slack += ts[t].align - 1;
            MC_CHECK(sum <= CAP, "{%s}: %zu bytes were accepted into one storage block", what.c_str(), sum);
            comps[0].push_back({ t, seed });
        } else {
            MC_CHECK(sum + ts[t].size + slack + ts[t].align - 1 > CAP, "{%s}: rejected although one entity needs only %zu bytes", what.c_str(), sum + ts[t].size);
            MC_CHECK(!ts[t].has(r, es[0]), "{%s}: rejected component is present", what.c_str());
            full = true;
            check_all(r, es, comps, what.c_str());
            break;
        }
    }
    mc::log("  {%s}%s", what.c_str(), full ? " too large" : "");
    // fill the first block and more
    if (!comps[0].empty()) {
        size_t per = r.get_entity(es[0]).archetype().chunks().front().max_size();
        MC_CHECK(per >= 1, "{%s}: a storage block takes no entity", what.c_str());
        size_t n = many ? per + 2 : std::min<size_t>(per + 2, 40);
        while (es.size() < n) {
            entity c = r.get_entity(es[0]).clone();
            es.push_back(c);
            comps.push_back(comps[0]);
            // own bytes
            for (auto& [t, sd] : comps.back()) {
                sd = ++seed;
                auto* p = ts[t].addr(r, c);
                for (size_t i = 0; i < ts[t].size; ++i) p[i] = pat(sd, i);
            }
        }
        mc::step(n);
        mc::state(mc::mix(mc::mix(per, n), std::hash<std::string>{}(what)));
        check_all(r, es, comps, ("{" + what + "} filled").c_str());
        if (es.size() > 1) {
            // back to smaller sets: the first and the last entity lose a component
            for (size_t i : { size_t(0), es.size() - 1 }) {
                ts[comps[i][0].first].remove(r, es[i]);
                comps[i].erase(comps[i].begin());
            }
            check_all(r, es, comps, ("{" + what + "} after removing a component").c_str());
        }
    }
}
// whole combinations at once
template<class... C>
static void create_case(const char* name) {
    registry r;
    std::vector<std::tuple<const C*...>> ptrs;
    std::vector<Obj> all;
    bool ok = true;
    constexpr size_t sum = sizeof(entity) + (sizeof(C) + ...), slack = ((alignof(C) - 1) + ...);
    mc::log("  create {%s}", name);
    for (int i = 0; i < 300; ++i) {
        try {
            r.create<C...>(C{}...);
        } catch (const insufficient_chunk_size&) {
            ok = false;
            break;
        }
        mc::step();
    }
    MC_CHECK(!ok || sum <= CAP, "{%s}: %zu bytes were accepted into one storage block", name, sum);
    MC_CHECK(ok || sum + slack > CAP, "{%s}: rejected although one entity needs only %zu bytes", name, sum);
    if (!ok) return;
    (..., [&] {
        for (auto&& [c] : r.view<C&>().each()) {
            MC_CHECK(reinterpret_cast<uintptr_t>(&c) % alignof(C) == 0, "{%s}: a component is not aligned to %zu", name, alignof(C));
            all.push_back({ reinterpret_cast<uintptr_t>(&c), sizeof(C) });
            memset(&c, 0x5A, sizeof c);
        }
    }());
    MC_CHECK(all.size() == 300 * sizeof...(C), "{%s}: components are missing", name);
    for (auto&& [h] : r.view<const entity&>().each()) {
        MC_CHECK(r.alive(h), "{%s}: an entity handle was overwritten", name);
        all.push_back({ reinterpret_cast<uintptr_t>(&h), sizeof(entity) });
    }
    std::sort(all.begin(), all.end(), [](auto& a, auto& b) { return a.p < b.p; });
    for (size_t i = 1; i < all.size(); ++i) MC_CHECK(all[i - 1].p + all[i - 1].n <= all[i].p, "{%s}: two objects overlap", name);
    mc::state(mc::mix(sum, slack));
}
static void create_body() {
    using X1 = P<1, 1>;
    using X3 = P<3, 1>;
    using X4 = P<4, 4>;
    using X8 = P<8, 8>;
    using X16 = P<16, 16>;
    using X64 = P<64, 64>;
    using X512 = P<512, 512>;
    using X5k = P<CAP * 5 / 16 / 8 * 8, 8>;
    using X9k = P<CAP * 9 / 16, 1>;
    switch (mc::choose(14)) {
    case 0: return create_case<X1, X8>("1,8");
    case 1: return create_case<X8, X1>("8,1");
    case 2: return create_case<X1, X64, X3>("1,64,3");
    case 3: return create_case<X64, X1, X16>("64,1,16");
    case 4: return create_case<X3, X16, X4, X1>("3,16,4,1");
    case 5: return create_case<X1, X3, X4, X8, X16, X64>("1,3,4,8,16,64");
    case 6: return create_case<X64, X16, X8, X4, X3, X1>("64,16,8,4,3,1");
    case 7: return create_case<X1, X5k, X64>("1,5000,64");
    case 8: return create_case<X9k, X64, X1>("9000,64,1");
    case 9: return create_case<X5k, X9k>("5000,9000");
    case 10: return create_case<X5k, X9k, X3, X16>("5000,9000,3,16");
    case 11: return create_case<X1, X512, X3>("1,512,3");
    case 12: return create_case<X512, X64, X9k>("512,64,9000");
    default: return create_case<X9k, P<CAP * 9 / 16, 2>>("9000,9000");
    }
}

int main(int argc, char** argv) {
    auto add = [](const char* n, std::function<void()> f, bool thorough_only = false) {
        mc::Suite s;
        s.name = n;
        s.body = f;
        s.thorough_only = thorough_only;
        s.thorough_cap = 900;
        mc::suites().push_back(s);
    };
    add("C05.pairs-full", [] { body(2, int(types().size()), true); });
    add("C05.triples", [] { body(4, int(types().size()), false); });
    add("C05.triples-full", [] { body(mc::quick ? 3 : 4, mc::quick ? int(types().size()) : 12, true); });
    add("C05.create", create_body);
    return mc::main(argc, argv);
}
