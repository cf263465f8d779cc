// C17: hash map/set, C18: sparse map/set, against std::map, over all operation histories.
#include "../lib/ledger.hpp"
#include <cassert>
#include <utility>
#include <cstdint>
#include <initializer_list>
#include <co_ecs/detail/hash_map.hpp>
#include <limits>
#include <concepts>
#include <co_ecs/detail/sparse_map.hpp>
#include <map>
#include <memory>
#include <string>

using namespace co_ecs::detail;

// ---- tracked key and value ----------------------------------------------------------------------------------
struct Key {
    int k;
    Key(int x) : k(x) { L.born(this, "key"); }
    Key(const Key& o) : k((L.used(&o, "key", "copied from"), o.k)) { L.born(this, "key"); }
    Key(Key&& o) noexcept : k((L.used(&o, "key", "moved from"), o.k)) {
        L.born(this, "key");
        o.k = -77;
    }
    Key& operator=(const Key& o) {
        L.used(&o, "key", "copied from");
        L.used(this, "key", "assigned");
        k = o.k;
        return *this;
    }
    Key& operator=(Key&& o) noexcept {
        L.used(&o, "key", "moved from");
        L.used(this, "key", "assigned");
        k = o.k;
        if (&o != this) o.k = -77;
        return *this;
    }
    ~Key() { L.dead(this, "key"); }
};
struct Val {
    int v;
    Val(int x = 0) : v(x) { L.born(this, "value"); }
    Val(const Val& o) : v((L.used(&o, "value", "copied from"), o.v)) { L.born(this, "value"); }
    Val(Val&& o) noexcept : v((L.used(&o, "value", "moved from"), o.v)) {
        L.born(this, "value");
        o.v = -77;
    }
    Val& operator=(const Val& o) {
        L.used(&o, "value", "copied from");
        L.used(this, "value", "assigned");
        v = o.v;
        return *this;
    }
    Val& operator=(Val&& o) noexcept {
        L.used(&o, "value", "moved from");
        L.used(this, "value", "assigned");
        v = o.v;
        if (&o != this) o.v = -77;
        return *this;
    }
    ~Val() { L.dead(this, "value"); }
};

// stateful hash: the table has to carry it along
struct Hash {
    int mode = -1;
    size_t operator()(const Key& x) const {
        L.used(&x, "key", "hashed");
        switch (mode) {
        case 0: return size_t(x.k);
        case 1: return 7;                            // all collide
        case 2: return ~size_t(0) - size_t(x.k % 2); // last buckets: probe chains wrap around
        case 3: return size_t(x.k / 2);              // overlapping chains
        case 4: return size_t(x.k) << 60;            // bits that matter are not used by the index
        case 5: return size_t(x.k) * 13 + 11;
        case 6: return ~size_t(0) - size_t(x.k / 2); // descending, wrapping
        }
        mc::fail("the table lost its hash function");
    }
};
struct Equal {
    int mode = -1;
    bool operator()(const Key& a, const Key& b) const {
        MC_CHECK(mode == 1, "the table lost its key comparison");
        L.used(&a, "key", "compared");
        L.used(&b, "key", "compared");
        return a.k == b.k;
    }
};
using Map = hash_map<Key, Val, Hash, Equal>;
using Set = hash_table<Key, Key, false, Hash, Equal, std::allocator<Key>>;
using Model = std::map<int, int>;

template<class T>
static uint64_t order_hash(T& t) { // bucket order
    uint64_t h = 1;
    int n = 0;
    for (auto& e : t) {
        h = mc::mix(h, uint64_t(e.first.k));
        if (++n > 200) break;
    }
    return h;
}
static uint64_t model_hash(const Model& m) {
    uint64_t h = 3;
    for (auto& [k, v] : m) h = mc::mix(h, k); // values are fresh per step
    return h;
}

static void check(Map& t, const Model& m, int nkeys, const char* what, bool deep = true) {
    const Map& ct = t;
    MC_CHECK(t.size() == m.size() && t.empty() == m.empty(), "%s: size %zu (empty=%d), expected %zu", what, t.size(), int(t.empty()), m.size());
    size_t bound = 4 * m.size() + 4, n = 0;
    for (int round = 0; round < 2; ++round) {
        std::map<int, int> seen;
        n = 0;
        auto visit = [&](auto& e) {
            MC_CHECK(++n <= bound, "%s: iteration does not end", what);
            auto it = m.find(e.first.k);
            MC_CHECK(it != m.end(), "%s: iteration yields key %d which is not in the map", what, e.first.k);
            MC_CHECK(it->second == e.second.v, "%s: iteration yields %d for key %d, expected %d", what, e.second.v, e.first.k, it->second);
            MC_CHECK(seen.emplace(e.first.k, 1).second, "%s: iteration yields key %d twice", what, e.first.k);
        };
        if (round == 0)
            for (auto& e : t) visit(e);
        else
            for (auto it = ct.cbegin(); it != ct.cend();) {
                auto old = it++;
                visit(*old);
            }
        MC_CHECK(seen.size() == m.size(), "%s: iteration yields %zu entries, expected %zu", what, seen.size(), m.size());
    }
    if (deep)
        for (int k = 0; k < nkeys; ++k) {
            Key key{ k };
            auto it = m.find(k);
            bool has = it != m.end();
            MC_CHECK(t.contains(key) == has && ct.count(key) == size_t(has), "%s: contains(%d)=%d, expected %d", what, k, int(t.contains(key)), int(has));
            auto f = t.find(key);
            auto cf = ct.find(key);
            MC_CHECK((f != t.end()) == has && (cf != ct.end()) == has, "%s: find(%d) wrong", what, k);
            if (has) {
                MC_CHECK(f->first.k == k && f->second.v == it->second && cf->second.v == it->second, "%s: find(%d) yields %d -> %d, expected %d", what, k, f->first.k, f->second.v, it->second);
                MC_CHECK(t.at(key).v == it->second && ct.at(key).v == it->second, "%s: at(%d) wrong", what, k);
            } else if (k % 4 == 0) {
                int err = 0;
                try {
                    (void)t.at(key);
                } catch (const std::out_of_range&) {
                    ++err;
                }
                try {
                    (void)ct.at(key);
                } catch (const std::out_of_range&) {
                    ++err;
                }
                MC_CHECK(err == 2, "%s: at(%d) of a missing key did not report out of range", what, k);
            }
        }
    MC_CHECK(L.count == int(2 * m.size()), "%s: %d keys and values are alive, expected %zu", what, L.count, 2 * m.size());
}

enum : int { EMPLACE, ERASE, INSERT, INSERT_HINT, INSERT_HINT_RV, ASSIGN, INDEX, INDEX_READ, ERASE_IT, ERASE_CIT, EMPLACE_ALIAS, ASSIGN_ALIAS, CLEAR, COPY, COPYASSIGN, MOVE, MOVEASSIGN, SWAP, RESERVE, RANGE, NFORM };
static const char* form_name(int f) {
    static const char* n[] = { "emplace", "erase", "insert", "insert-hint", "insert-hint-rvalue", "insert_or_assign", "index-assign", "index", "erase-iterator", "erase-const-iterator",
        "emplace-from-own-value", "assign-from-own-value", "clear", "copy", "copy-assign", "move", "move-assign", "swap", "reserve", "range-construct" };
    return n[f];
}
static void step_map(std::unique_ptr<Map>& tp, Model& m, int f, int k, int& next, int mode) {
    auto& t = *tp;
    Hash h{ mode };
    Equal q{ 1 };
    int v = next++;
    switch (f) {
    case EMPLACE: {
        auto [it, ins] = t.emplace(k, v);
        bool mi = m.emplace(k, v).second;
        MC_CHECK(ins == mi && it->first.k == k && it->second.v == m[k], "emplace(%d) returned inserted=%d and %d -> %d", k, ins, it->first.k, it->second.v);
        break;
    }
    case INSERT: {
        std::pair<Key, Val> e{ k, v };
        auto [it, ins] = t.insert(e);
        bool mi = m.emplace(k, v).second;
        MC_CHECK(ins == mi && it->first.k == k && it->second.v == m[k], "insert(%d) returned inserted=%d and %d -> %d", k, ins, it->first.k, it->second.v);
        MC_CHECK(e.first.k == k && e.second.v == v, "insert modified its argument");
        break;
    }
    case INSERT_HINT: {
        std::pair<Key, Val> e{ k, v };
        auto it = t.insert(t.begin(), e);
        m.emplace(k, v);
        MC_CHECK(it->first.k == k && it->second.v == m[k] && e.second.v == v, "insert(hint, %d) returned %d -> %d", k, it->first.k, it->second.v);
        break;
    }
    case INSERT_HINT_RV: {
        auto it = t.insert(t.end(), std::pair<Key, Val>{ k, v });
        m.emplace(k, v);
        MC_CHECK(it->first.k == k && it->second.v == m[k], "insert(hint, rvalue %d) returned %d -> %d", k, it->first.k, it->second.v);
        break;
    }
    case ASSIGN: {
        std::pair<Key, Val> e{ k, v };
        auto [it, ins] = t.insert_or_assign(e);
        bool mi = m.insert_or_assign(k, v).second;
        MC_CHECK(ins == mi && it->first.k == k && it->second.v == v && e.second.v == v && e.first.k == k, "insert_or_assign(%d) returned inserted=%d and %d -> %d", k, ins, it->first.k, it->second.v);
        break;
    }
    case INDEX: {
        Key key{ k };
        t[key] = Val{ v };
        m[k] = v;
        break;
    }
    case INDEX_READ: {
        Key key{ k };
        Val& x = t[key];
        MC_CHECK(x.v == m[k], "operator[](%d) yields %d, expected %d", k, x.v, m[k]);
        break;
    }
    case EMPLACE_ALIAS: { // the argument lives in the table
        if (m.empty()) break;
        int from = m.begin()->first, val = m.begin()->second;
        auto [it, ins] = t.emplace(k, t.at(Key{ from }));
        bool mi = m.emplace(k, val).second;
        MC_CHECK(ins == mi && it->first.k == k && it->second.v == m[k], "emplace(%d, own value) returned inserted=%d and %d -> %d", k, ins, it->first.k, it->second.v);
        break;
    }
    case ASSIGN_ALIAS: {
        if (m.empty()) break;
        auto from = t.find(Key{ m.begin()->first });
        auto [it, ins] = t.insert_or_assign(*from);
        MC_CHECK(!ins && it->first.k == m.begin()->first && it->second.v == m.begin()->second, "insert_or_assign(own entry) changed it");
        break;
    }
    case ERASE: {
        Key key{ k };
        t.erase(std::as_const(key));
        m.erase(k);
        break;
    }
    case ERASE_IT: {
        auto it = t.find(Key{ k });
        if (it != t.end()) t.erase(it);
        m.erase(k);
        break;
    }
    case ERASE_CIT: {
        auto it = std::as_const(t).find(Key{ k });
        if (it != std::as_const(t).end()) t.erase(it);
        m.erase(k);
        break;
    }
    case CLEAR:
        t.clear();
        m.clear();
        break;
    case COPY: {
        Model om = m;
        auto u = std::make_unique<Map>(std::as_const(t));
        { // the copy is independent
            t.clear();
        }
        tp = std::move(u);
        break;
    }
    case COPYASSIGN: {
        auto u = std::make_unique<Map>(16, h, q);
        for (int i = 0; i < k; ++i) u->emplace(i, 5);
        *u = std::as_const(t);
        t.emplace(90, 90);
        t.erase(Key{ 0 });
        tp = std::move(u);
        break;
    }
    case MOVE: {
        auto u = std::make_unique<Map>(std::move(t));
        tp = std::move(u);
        break;
    }
    case MOVEASSIGN: {
        auto u = std::make_unique<Map>(8, h, q);
        for (int i = 0; i < k; ++i) u->emplace(i, 5);
        *u = std::move(t);
        tp = std::move(u);
        break;
    }
    case SWAP: {
        auto u = std::make_unique<Map>(4, h, q);
        u->emplace(k, v);
        u->swap(std::move(t));
        MC_CHECK(t.size() == 1 && t.at(Key{ k }).v == v, "swap lost the other side");
        tp = std::move(u);
        break;
    }
    case RESERVE: t.reserve(k == 0 ? 16 : k == 1 ? 32 : 64); break;
    case RANGE: {
        static const size_t counts[] = { 2, 16, 32 };
        auto u = std::make_unique<Map>(t.begin(), t.end(), counts[k % 3], h, q);
        for (auto& [key, val] : m) {
            auto it = t.find(Key{ key });
            MC_CHECK(it != t.end() && it->second.v == val, "constructing from a range changed the source range at key %d", key);
        }
        MC_CHECK(t.size() == m.size(), "constructing from a range changed the source range");
        tp = std::move(u);
        break;
    }
    }
}

struct Cfg {
    int mode, buckets, nkeys;
    std::vector<int> forms;
    std::vector<int> pre; // keys inserted (>=0) or erased (-k-1) beforehand
    std::vector<int> keys; // keys of operations
};
static std::vector<int> range_keys(int a, int b) {
    std::vector<int> r;
    for (int i = a; i < b; ++i) r.push_back(i);
    return r;
}
static void map_body(const Cfg& c, int depth) {
    L.reset();
    L.strict = true;
    {
        auto t = std::make_unique<Map>(c.buckets, Hash{ c.mode }, Equal{ 1 });
        Model m;
        int next = 100;
        for (int k : c.pre) step_map(t, m, k >= 0 ? EMPLACE : ERASE, k >= 0 ? k : -k - 1, next, c.mode);
        if (mc::E.fresh_from == 0) check(*t, m, c.nkeys, "prefill");
        struct Alt {
            int f, k;
        };
        std::vector<Alt> alts;
        for (int f : c.forms) {
            if (f == CLEAR || f == COPY || f == MOVE || f == ASSIGN_ALIAS) alts.push_back({ f, 0 });
            else if (f == COPYASSIGN || f == MOVEASSIGN || f == SWAP) alts.push_back({ f, 2 });
            else if (f == RESERVE) {
                for (int k = 0; k < 3; ++k) alts.push_back({ f, k });
            } else if (f == RANGE) {
                for (int k = 0; k < 3; ++k) alts.push_back({ f, k });
            } else
                for (int k : c.keys) alts.push_back({ f, k });
        }
        for (int d = 0; d < depth; ++d) {
            auto a = alts[mc::choose(unsigned(alts.size()))];
            // reserving fewer buckets than entries need is not allowed
            if (a.f == RESERVE && m.size() > size_t(a.k == 0 ? 13 : 27)) a.f = INDEX_READ, a.k = c.keys[0];
            if (a.f == RANGE && m.size() > 13) a.k = a.k == 0 ? 2 : a.k;
            mc::log("  %s(%d)", form_name(a.f), a.k);
            mc::step();
            step_map(t, m, a.f, a.k, next, c.mode);
            if (mc::fresh()) {
                mc::state(mc::mix(mc::mix(mc::mix(model_hash(m), c.mode), c.buckets), order_hash(*t)));
                char w[64];
                snprintf(w, sizeof w, "after %s(%d)", form_name(a.f), a.k);
                check(*t, m, c.nkeys, w);
            }
        }
    }
    MC_CHECK(L.count == 0, "after destroying the map %d keys and values are still alive", L.count);
}
// the set form
static void set_body(int mode, int buckets, const std::vector<int>& pre, const std::vector<int>& keys, int depth) {
    L.reset();
    L.strict = true;
    {
        Set t(buckets, Hash{ mode }, Equal{ 1 });
        std::map<int, int> m;
        auto chk = [&] {
            MC_CHECK(t.size() == m.size(), "set size %zu, expected %zu", t.size(), m.size());
            std::map<int, int> seen;
            for (auto& k : t) MC_CHECK(m.count(k.k) && seen.emplace(k.k, 1).second, "set iteration yields %d wrongly", k.k);
            MC_CHECK(seen.size() == m.size(), "set iteration yields %zu entries, expected %zu", seen.size(), m.size());
            for (int k : keys) {
                Key key{ k };
                MC_CHECK(t.contains(key) == (m.count(k) > 0), "set contains(%d) wrong", k);
            }
            MC_CHECK(L.count == int(m.size()), "%d keys are alive, expected %zu", L.count, m.size());
        };
        for (int k : pre) t.emplace(k), m[k] = 1;
        for (int d = 0; d < depth; ++d) {
            unsigned a = mc::choose(unsigned(3 * keys.size() + 2));
            if (a == 3 * keys.size()) {
                mc::log("  clear");
                t.clear();
                m.clear();
            } else if (a == 3 * keys.size() + 1) {
                mc::log("  copy");
                Set u = t;
                t = std::move(u);
            } else {
                int k = keys[a / 3];
                mc::log("  %s(%d)", a % 3 == 0 ? "emplace" : a % 3 == 1 ? "erase" : "insert_or_assign", k);
                if (a % 3 == 0) {
                    auto [it, ins] = t.emplace(k);
                    MC_CHECK(ins == m.emplace(k, 1).second && it->k == k, "set emplace(%d) wrong result", k);
                } else if (a % 3 == 1) t.erase(Key{ k }), m.erase(k);
                else {
                    auto [it, ins] = t.insert_or_assign(Key{ k });
                    MC_CHECK(ins == m.emplace(k, 1).second && it->k == k, "set insert_or_assign(%d) wrong result", k);
                }
            }
            mc::step();
            if (mc::fresh()) mc::state(mc::mix(model_hash(m), mode)), chk();
        }
    }
    MC_CHECK(L.count == 0, "after destroying the set %d keys are still alive", L.count);
}

// ---- sparse map -----------------------------------------------------------------------------------------------
template<class K>
struct SparseSuite {
    using SM = sparse_map<K, Val>;
    using SS = sparse_table<K, K, false, std::allocator<K>>;
    static void check(SM& t, const Model& m, const std::vector<int>& keys, const char* what) {
        const SM& ct = t;
        MC_CHECK(t.size() == m.size() && t.empty() == m.empty(), "%s: size %zu (empty=%d), expected %zu", what, t.size(), int(t.empty()), m.size());
        for (int round = 0; round < 2; ++round) {
            std::map<int, int> seen;
            auto visit = [&](auto& e) {
                auto it = m.find(int(e.first));
                MC_CHECK(it != m.end() && it->second == e.second.v, "%s: iteration yields %d -> %d wrongly", what, int(e.first), e.second.v);
                MC_CHECK(seen.emplace(int(e.first), 1).second, "%s: iteration yields key %d twice", what, int(e.first));
            };
            if (round == 0)
                for (auto& e : t) visit(e);
            else
                for (auto& e : ct) visit(e);
            MC_CHECK(seen.size() == m.size(), "%s: iteration yields %zu entries, expected %zu", what, seen.size(), m.size());
        }
        auto probe = [&](int k) {
            auto it = m.find(k);
            bool has = it != m.end();
            MC_CHECK(ct.contains(K(k)) == has, "%s: contains(%d)=%d", what, k, int(!has));
            MC_CHECK((t.find(K(k)) != t.end()) == has && (ct.find(K(k)) != ct.end()) == has, "%s: find(%d) wrong", what, k);
            if (has) MC_CHECK(t.at(K(k)).v == it->second && ct.at(K(k)).v == it->second && t.find(K(k))->second.v == it->second && int(ct.find(K(k))->first) == k, "%s: value of %d wrong", what, k);
            else {
                int err = 0;
                try {
                    (void)t.at(K(k));
                } catch (const std::out_of_range&) {
                    ++err;
                }
                try {
                    (void)ct.at(K(k));
                } catch (const std::out_of_range&) {
                    ++err;
                }
                MC_CHECK(err == 2, "%s: at(%d) of a missing key did not report out of range", what, k);
            }
        };
        for (int k : keys) probe(k);
        if (sizeof(K) == 1 && m.size() > 200)
            for (auto& [k, v] : m) MC_CHECK(ct.contains(K(k)) && ct.at(K(k)).v == v, "%s: key %d lost", what, k);
        MC_CHECK(L.count == int(m.size()), "%s: %d values are alive, expected %zu", what, L.count, m.size());
    }
    static void body(const std::vector<int>& keys, int prefill, int depth) {
        L.reset();
        L.strict = true;
        {
            auto tp = std::make_unique<SM>();
            Model m;
            int next = 1000;
            if (prefill < 0) {
                // many keys, some erased again: sparse part is stale
                for (int k : keys) tp->emplace(K(k), k);
                for (int k : keys) tp->erase(K(k));
            } else
                for (int k = 0; k < prefill; ++k) tp->emplace(K(k), k), m[k] = k;
            if (mc::E.fresh_from == 0) check(*tp, m, keys, "prefill");
            for (int d = 0; d < depth; ++d) {
                auto& t = *tp;
                unsigned n = unsigned(keys.size());
                unsigned a = mc::choose(5 * n + 8);
                int v = next++;
                mc::step();
                std::string what;
                if (a < 5 * n) {
                    static const char* nm[] = { "emplace", "erase", "insert", "index-assign", "index" };
                    int k = keys[a / 5];
                    what = std::string(nm[a % 5]) + "(" + std::to_string(k) + ")";
                    mc::log("  %s", what.c_str());
                    switch (a % 5) {
                    case 0: {
                        auto [it, ins] = t.emplace(K(k), v);
                        MC_CHECK(ins == m.emplace(k, v).second && int(it->first) == k && it->second.v == m[k], "emplace(%d) returned the wrong result", k);
                        break;
                    }
                    case 1: MC_CHECK(t.erase(K(k)) == m.erase(k), "erase(%d) returned the wrong count", k); break;
                    case 2: {
                        std::pair<K, Val> e{ K(k), v };
                        auto [it, ins] = t.insert(e);
                        MC_CHECK(ins == m.emplace(k, v).second && int(it->first) == k && it->second.v == m[k] && e.second.v == v, "insert(%d) returned the wrong result", k);
                        break;
                    }
                    case 3:
                        t[K(k)] = Val{ v };
                        m[k] = v;
                        break;
                    case 4: {
                        Val& x = t[K(k)];
                        MC_CHECK(x.v == m[k], "operator[](%d) yields %d, expected %d", k, x.v, m[k]);
                    }
                    }
                } else {
                    static const char* nm[] = { "clear", "copy", "copy-assign", "move", "move-assign", "moved-from", "reserve", "moved-from-assign" };
                    what = nm[a - 5 * n];
                    mc::log("  %s", what.c_str());
                    switch (a - 5 * n) {
                    case 0:
                        t.clear();
                        m.clear();
                        break;
                    case 1: {
                        auto u = std::make_unique<SM>(std::as_const(t));
                        t.clear();
                        tp = std::move(u);
                        break;
                    }
                    case 2: {
                        auto u = std::make_unique<SM>();
                        u->emplace(K(keys[0]), 1);
                        *u = std::as_const(t);
                        t.erase(K(keys[0]));
                        tp = std::move(u);
                        break;
                    }
                    case 3: tp = std::make_unique<SM>(std::move(t)); break;
                    case 4: {
                        auto u = std::make_unique<SM>();
                        u->emplace(K(keys[0]), 1);
                        *u = std::move(t);
                        tp = std::move(u);
                        break;
                    }
                    case 5: {
                        SM u(std::move(t));
                        MC_CHECK(u.size() == m.size(), "move construction lost entries");
                        m.clear();
                        break; // continue with the moved-from container
                    }
                    case 6:
                        t.reserve_sparse(70);
                        t.reserve_dense(10);
                        break;
                    case 7: {
                        SM u;
                        u = std::move(t);
                        MC_CHECK(u.size() == m.size(), "move assignment lost entries");
                        m.clear();
                        break;
                    }
                    }
                }
                if (mc::fresh()) {
                    mc::state(mc::mix(model_hash(m), sizeof(K)));
                    check(*tp, m, keys, ("after " + what).c_str());
                }
            }
        }
        MC_CHECK(L.count == 0, "after destroying the map %d values are still alive", L.count);
    }
    static void set_body(const std::vector<int>& keys, int prefill, int depth) {
        SS t;
        std::map<int, int> m;
        for (int k = 0; k < prefill; ++k) t.emplace(K(k)), m[k] = 1;
        for (int d = 0; d < depth; ++d) {
            unsigned a = mc::choose(unsigned(3 * keys.size() + 3));
            mc::step();
            if (a < 3 * keys.size()) {
                int k = keys[a / 3];
                mc::log("  %s(%d)", a % 3 == 0 ? "emplace" : a % 3 == 1 ? "erase" : "insert", k);
                if (a % 3 == 0) {
                    auto [it, ins] = t.emplace(K(k));
                    MC_CHECK(ins == m.emplace(k, 1).second && int(*it) == k, "set emplace(%d) wrong", k);
                } else if (a % 3 == 1) MC_CHECK(t.erase(K(k)) == m.erase(k), "set erase(%d) wrong", k);
                else {
                    K key = K(k);
                    auto [it, ins] = t.insert(key);
                    MC_CHECK(ins == m.emplace(k, 1).second && int(*it) == k, "set insert(%d) wrong", k);
                }
            } else if (a == 3 * keys.size()) t.clear(), m.clear();
            else if (a == 3 * keys.size() + 1) {
                SS u = t;
                t = u;
            } else {
                SS u(std::move(t));
                m.clear();
            }
            if (mc::fresh()) {
                mc::state(mc::mix(model_hash(m), 7));
                MC_CHECK(t.size() == m.size(), "set size %zu, expected %zu", t.size(), m.size());
                size_t n = 0;
                for (auto k : t) n += m.count(int(k));
                MC_CHECK(n == m.size(), "set iteration yields %zu members, expected %zu", n, m.size());
                for (int k : keys) MC_CHECK(std::as_const(t).contains(K(k)) == (m.count(k) > 0), "set contains(%d) wrong", k);
            }
        }
    }
};

static void add(std::string name, std::function<void()> f, double cq = 60) {
    mc::Suite s;
    s.name = std::move(name);
    s.body = std::move(f);
    s.quick_cap = cq;
    s.thorough_cap = 900;
    mc::suites().push_back(s);
}
static void add_map(std::string name, Cfg c, int dq, int dt) {
    add(std::move(name), [c, dq, dt] { map_body(c, mc::quick ? dq : dt); });
}

int main(int argc, char** argv) {
    std::vector<int> core = { EMPLACE, ERASE };
    std::vector<int> api;
    for (int f = 0; f < NFORM; ++f) api.push_back(f);
    for (int mode : { 0, 1, 2, 3, 5 })
        for (int b : { 2, 4, 8 })
            add_map("C17.core.h" + std::to_string(mode) + ".b" + std::to_string(b), { mode, b, 6, core, {}, range_keys(0, 5) }, b == 4 && (mode == 2 || mode == 3) ? 6 : 5, 7);
    // chains that wrap around the end of larger tables
    for (int mode : { 2, 6 })
        for (int b : { 64, 256 }) {
            auto n = ".h" + std::to_string(mode) + ".b" + std::to_string(b);
            add_map("C17.core" + n, { mode, b, 6, core, {}, range_keys(0, 4) }, 6, 7);
            add_map("C17.wrapped" + n, { mode, b, 8, { ERASE, EMPLACE }, range_keys(0, 6), range_keys(0, 6) }, 4, 6);
        }
    for (int mode : { 0, 2, 4 }) {
        auto n = std::to_string(mode);
        add_map("C17.api.h" + n, { mode, 2, 4, api, {}, range_keys(0, 3) }, 3, 4);
    }
    // just below the growth threshold of 16 buckets (grows at the 15th entry) and of 32
    for (int mode : { 0, 1, 2, 3, 6 }) {
        auto n = std::to_string(mode);
        add_map("C17.grow16.h" + n, { mode, 16, 20, { EMPLACE, ERASE, ASSIGN, INDEX, EMPLACE_ALIAS }, range_keys(1, 14), { 0, 1, 7, 13, 16, 17 } }, 3, 4);
        add_map("C17.grow32.h" + n, { mode, 32, 40, { EMPLACE, ERASE, EMPLACE_ALIAS }, range_keys(1, 28), { 0, 2, 15, 27, 33, 34 } }, 3, 4);
    }
    // just above the shrink threshold: 64 buckets shrink below 25 entries, while more than 16
    for (int mode : { 0, 1, 2, 3, 6 }) {
        auto n = std::to_string(mode);
        add_map("C17.shrink64.h" + n, { mode, 64, 40, { EMPLACE, ERASE, ERASE_IT, ERASE_CIT }, range_keys(0, 26), { 0, 3, 12, 25, 31 } }, 3, 4);
        // more entries erased than the table shrinks for
        std::vector<int> pre = range_keys(0, 30);
        for (int k = 0; k < 30; k += 3) pre.push_back(-k - 1);
        add_map("C17.holes.h" + n, { mode, 32, 40, { EMPLACE, ERASE, INSERT_HINT_RV, COPY, MOVE, CLEAR, RANGE }, pre, { 0, 1, 6, 29, 31 } }, 3, 4);
    }
    for (int mode : { 0, 1, 2 }) {
        auto n = std::to_string(mode);
        add("C17.set.h" + n, [mode] { set_body(mode, 4, {}, range_keys(0, 4), mc::quick ? 4 : 6); });
        add("C17.set-grow.h" + n, [mode] { set_body(mode, 16, range_keys(1, 14), { 0, 5, 14, 20 }, mc::quick ? 4 : 5); });
    }
    // C18
    add("C18.u8.boundary", [] { SparseSuite<uint8_t>::body({ 0, 1, 127, 128, 255 }, 0, mc::quick ? 3 : 4); });
    add("C18.u8.stale", [] { SparseSuite<uint8_t>::body({ 0, 3, 255 }, -1, mc::quick ? 4 : 5); });
    add("C18.u8.full", [] { SparseSuite<uint8_t>::body({ 0, 254, 255 }, 256, mc::quick ? 2 : 3); });
    add("C18.u8.almost-full", [] { SparseSuite<uint8_t>::body({ 0, 254, 255 }, 254, mc::quick ? 2 : 3); });
    add("C18.u16.boundary", [] { SparseSuite<uint16_t>::body({ 0, 255, 256, 65535 }, 0, mc::quick ? 2 : 3); });
    add("C18.u16.small", [] { SparseSuite<uint16_t>::body({ 0, 1, 2, 3 }, 3, mc::quick ? 3 : 5); });
    add("C18.u32", [] { SparseSuite<uint32_t>::body({ 0, 1, 2, 64 }, 0, mc::quick ? 4 : 5); });
    add("C18.u64", [] { SparseSuite<uint64_t>::body({ 0, 1, 40 }, 2, mc::quick ? 3 : 4); });
    add("C18.set.u8", [] { SparseSuite<uint8_t>::set_body({ 0, 1, 128, 255 }, 0, mc::quick ? 4 : 6); });
    add("C18.set.u8.full", [] { SparseSuite<uint8_t>::set_body({ 0, 128, 255 }, 256, mc::quick ? 3 : 4); });
    add("C18.set.u32", [] { SparseSuite<uint32_t>::set_body({ 0, 1, 5, 300 }, 2, mc::quick ? 4 : 6); });
    return mc::main(argc, argv);
}
