// C01-C04, C06-C08: exhaustive operation histories over real registries against a reference model.
#include <map>
#include <memory>
#include "../lib/regmodel.hpp"
#include <numeric>

using co_ecs::entity;
using co_ecs::registry;

enum Check : unsigned { VALUES = 1, HANDLES = 2, DENSE = 4, LEDGER = 8, VIEWS = 16, PHANTOM = 32 };
enum OpKind { CREATE, SET, SETLV, ALIAS_SELF, ALIAS_FIELD, ALIAS_OTHER, GOI, GOI_ALIAS, REMOVE, DESTROY, DESTROY_DEAD, WRITE, VISITWRITE, VIEWWRITE, CLONE, CLONE_PH, COPY, COPY_PH, CCOPY, MOVE, MOVE_PH, FAILOPS };

struct Op {
    OpKind k;
    int r = 0;  // registry
    int e = -1; // entity index
    int t = -1; // type or creator
    int o = -1; // other entity
};

struct Profile {
    unsigned checks;
    std::vector<int> creators;
    std::vector<int> types;        // for SET/REMOVE/...
    std::vector<OpKind> kinds;
    int regs = 1;
    int maxents = 3;
    std::function<void(struct World&)> prefill;
    bool faults = false;
    bool catch_errors = false; // operations may legitimately fail
};

struct World {
    registry reg[2];
    Model m[2];
    int next = 100;
    const Profile* p;
    std::string what;
    bool fuzzy_ids = false; // a reserved handle was consumed by the harness without an entity
    std::vector<co_ecs::entity_ref> refs[2]; // references made when the entity came into existence
    std::vector<decltype(std::declval<const registry&>().get_entity(entity{}))> crefs[2];
    bool touch = false; // only use the kept views
    std::map<const void*, std::shared_ptr<void>> views[2]; // views made when the history began, by type
};

static const char* creator_name(int c) {
    static const char* n[] = { "{}", "{A}", "{B}", "{A,B}", "{B,A}", "{Big}", "{A,Big}", "{Big,A}", "{Tag}", "{A,Tag}", "{C3}", "{NC}", "{A,NC}", "{H1}", "{H1,H2}", "{A,B,Tag}", "{C3,B}", "{Big,B,A}" };
    return n[c];
}
template<class... T>
static entity do_create(World& w, int r, MEnt& me) {
    (..., (me.v[type_of<T>()] = std::is_same_v<T, Tag> ? TAGVAL : w.next++));
    return w.reg[r].create<T...>(make<T>(me.v[type_of<T>()])...);
}
static entity create_by(World& w, int r, int c, MEnt& me) {
    switch (c) {
    case 0: return do_create<>(w, r, me);
    case 1: return do_create<A>(w, r, me);
    case 2: return do_create<B>(w, r, me);
    case 3: return do_create<A, B>(w, r, me);
    case 4: return do_create<B, A>(w, r, me);
    case 5: return do_create<Big>(w, r, me);
    case 6: return do_create<A, Big>(w, r, me);
    case 7: return do_create<Big, A>(w, r, me);
    case 8: return do_create<Tag>(w, r, me);
    case 9: return do_create<A, Tag>(w, r, me);
    case 10: return do_create<C3>(w, r, me);
    case 11: return do_create<NC>(w, r, me);
    case 12: return do_create<A, NC>(w, r, me);
    case 13: return do_create<H1>(w, r, me);
    case 14: return do_create<H1, H2>(w, r, me);
    case 15: return do_create<A, B, Tag>(w, r, me);
    case 16: return do_create<C3, B>(w, r, me);
    default: return do_create<Big, B, A>(w, r, me);
    }
}

// ---- handles ------------------------------------------------------------------------------------------------
template<class F>
static bool throws_not_found(F f) {
    try {
        f();
    } catch (const co_ecs::entity_not_found&) {
        return true;
    }
    return false;
}
static void new_handle(World& w, int r, entity h) {
    if (!(w.p->checks & HANDLES)) return;
    MC_CHECK(h.valid(), "%s: new entity has an invalid handle", w.what.c_str());
    for (auto& e : w.m[r].ents) MC_CHECK(e.h != h, "%s: handle %s was issued before by the same registry", w.what.c_str(), hs(h).c_str());
}
static void add_ent(World& w, int r, MEnt me, entity h) {
    new_handle(w, r, h);
    me.h = h;
    w.m[r].ents.push_back(me);
    w.refs[r].push_back(w.reg[r].get_entity(h));
    w.crefs[r].push_back(std::as_const(w.reg[r]).get_entity(h));
}

static void check_dead_ops(World& w, int r, entity h) {
    auto& reg = w.reg[r];
    auto& creg = std::as_const(reg);
    const char* wh = w.what.c_str();
    auto s = hs(h);
    auto n0 = reg.size();
    registry& other = w.reg[1 - r];
    auto on0 = other.size();
#define DEAD(name, expr) MC_CHECK(throws_not_found([&] { (void)(expr); }), "%s: %s through dead handle %s did not report entity not found", wh, name, s.c_str())
    MC_CHECK(!reg.alive(h) && !reg.get_entity(h).alive() && !creg.get_entity(h).alive(), "%s: dead handle %s reported alive", wh, s.c_str());
    DEAD("destroy", reg.destroy(h));
    DEAD("destroy", reg.get_entity(h).destroy());
    DEAD("has", reg.has<A>(h));
    DEAD("has", reg.get_entity(h).has<A>());
    DEAD("has", (creg.get_entity(h).has<A, B>()));
    DEAD("has of nothing", reg.get_entity(h).has<>());
    DEAD("get", reg.get_entity(h).get<A>());
    DEAD("get", (reg.get_entity(h).get<A, B>()));
    DEAD("const get", creg.get_entity(h).get<A>());
    DEAD("const get", (creg.get_entity(h).get<B, A>()));
    DEAD("set", reg.get_entity(h).set<A>(1));
    DEAD("get_or_insert", reg.get_entity(h).get_or_insert<A>(1));
    DEAD("remove", reg.get_entity(h).remove<A>());
    DEAD("visit", reg.get_entity(h).visit([](auto&&, void*) {}));
    DEAD("visit", creg.get_entity(h).visit([](auto&&, const void*) {}));
    DEAD("archetype", &reg.get_entity(h).archetype());
    DEAD("archetype", &creg.get_entity(h).archetype());
    DEAD("clone", reg.get_entity(h).clone());
    DEAD("copy", reg.get_entity(h).copy(other));
    DEAD("copy", creg.get_entity(h).copy(other));
    DEAD("move", reg.get_entity(h).move(other));
#undef DEAD
    MC_CHECK(reg.size() == n0 && other.size() == on0, "%s: operations through dead handle %s changed the number of entities", wh, s.c_str());
}

// ---- views ----------------------------------------------------------------------------------------------------
// what a view must yield, computed from the per-entity observers
template<class... Refs>
static void check_view(World& w, int r) {
    auto& reg = w.reg[r];
    auto& creg = std::as_const(reg);
    const char* wh = w.what.c_str();
    auto addr = [](auto& x) { return static_cast<const void*>(std::addressof(x)); };
    using row = std::array<const void*, sizeof...(Refs)>;
    using view_t = co_ecs::view<Refs...>;
    static const char key = 0;
    auto& slot = w.views[r][&key];
    if (!slot) slot = std::make_shared<view_t>(reg);
    auto& old = *static_cast<view_t*>(slot.get());
    if (w.touch) {
        old.each([](Refs...) {});
        return;
    }
    std::vector<std::pair<entity, row>> want;
    constexpr bool all_const = (std::is_const_v<std::remove_reference_t<Refs>> && ...);
    auto component_addr = [&]<class T>(entity h) -> const void* {
        if constexpr (std::is_same_v<T, entity>) return nullptr;
        else return addr(reg.get_entity(h).template get<T>());
    };
    auto has1 = [&]<class T>(entity h) {
        if constexpr (std::is_same_v<T, entity>) return true;
        else return reg.get_entity(h).template has<T>();
    };
    for (auto& e : w.m[r].ents) {
        if (!reg.alive(e.h)) continue;
        if ((has1.template operator()<std::decay_t<Refs>>(e.h) && ...)) want.push_back({ e.h, row{ component_addr.template operator()<std::decay_t<Refs>>(e.h)... } });
    }
    int form = 0;
    auto compare = [&](auto& got) {
        MC_CHECK(got.size() == want.size(), "%s: view form %d over %zu types yields %zu entities, expected %zu", wh, form, sizeof...(Refs), got.size(), want.size());
        std::vector<bool> used(want.size());
        for (auto& [h, rw] : got) {
            bool ok = false;
            for (size_t i = 0; i < want.size() && !ok; ++i) {
                if (used[i]) continue;
                bool same = !h.valid() || h == want[i].first;
                for (size_t k = 0; k < rw.size(); ++k)
                    if (want[i].second[k] && rw[k] != want[i].second[k]) same = false;
                if (same) used[i] = ok = true;
            }
            MC_CHECK(ok, "%s: view form %d over %zu types yields an entry that is no matching entity, has the wrong handle, another entity's component, or is a repetition (entity %s)", wh, form,
                sizeof...(Refs), hs(h).c_str());
        }
        ++form;
    };
    using got_t = std::vector<std::pair<entity, row>>;
    auto entry = [&](auto&... x) {
        entity h = entity::invalid();
        auto pick = [&](auto& y) {
            if constexpr (std::is_same_v<std::decay_t<decltype(y)>, entity>) h = y;
        };
        (..., pick(x));
        return std::pair<entity, row>{ h, row{ addr(x)... } };
    };
    auto tuple_entry = [&](auto&& t) { return std::apply([&](auto&... x) { return entry(x...); }, t); };
    auto func = [&](got_t& g) { return [&](Refs... x) { g.push_back(entry(x...)); }; };
    auto one_of = [&](std::pair<entity, row> g) {
        for (auto& x : want) {
            bool same = !g.first.valid() || g.first == x.first;
            for (size_t k = 0; k < sizeof...(Refs); ++k)
                if (x.second[k] && x.second[k] != g.second[k]) same = false;
            if (same) return true;
        }
        return false;
    };
    // a view made in the first state of the history, and one used inside another
    {
        form = 100;
        got_t g0, g1, g2;
        for (auto&& t : old.each()) g0.push_back(tuple_entry(t));
        compare(g0);
        old.each(func(g1));
        compare(g1);
        for (auto chunk : old.chunks())
            for (auto&& t : chunk) g2.push_back(tuple_entry(t));
        compare(g2);
        if (auto t = old.single(); bool(t) == want.empty() || (t && !one_of(tuple_entry(*t)))) MC_CHECK(false, "%s: single of a view made earlier is wrong", wh);
        if (want.size() < 6) {
            size_t n = 0;
            view_t other = old;
            old.each([&](Refs...) {
                for (auto&& t : old.each()) n += tuple_entry(t).second.size() == sizeof...(Refs);
                other.each([&](Refs...) { ++n; });
            });
            for (auto chunk : other.chunks())
                for (auto&& x : chunk) {
                    reg.view<Refs...>().each([&](Refs...) { ++n; });
                    n += bool(other.single());
                }
            MC_CHECK(n == want.size() * (3 * want.size() + (want.size() > 0)), "%s: iterations within iterations over %zu types yield %zu entries for %zu entities", wh, sizeof...(Refs), n, want.size());
        }
        form = 0;
    }
    if constexpr (!all_const) {
        auto v = reg.view<Refs...>();
        got_t g0, g1, g2, g3;
        for (auto&& t : v.each()) g0.push_back(tuple_entry(t));
        compare(g0);
        v.each(func(g1));
        compare(g1);
        reg.each(func(g2));
        compare(g2);
        for (auto chunk : v.chunks())
            for (auto&& t : chunk) g3.push_back(tuple_entry(t));
        compare(g3);
        for (auto s : { v.single(), reg.single<Refs...>() }) {
            MC_CHECK(bool(s) == !want.empty(), "%s: single over %zu types %s although %zu entities match", wh, sizeof...(Refs), s ? "found an entity" : "found none", want.size());
            if (s) MC_CHECK(one_of(tuple_entry(*s)), "%s: single yields something that is no matching entity", wh);
        }
        // explicit view object
        co_ecs::view<Refs...> v2{ reg };
        got_t g4;
        for (auto&& t : v2.each()) g4.push_back(tuple_entry(t));
        compare(g4);
    } else {
        const auto v = creg.view<Refs...>();
        got_t g0, g1, g2, g3, g5;
        for (auto&& t : v.each()) g0.push_back(tuple_entry(t));
        compare(g0);
        v.each(func(g1));
        compare(g1);
        creg.each(func(g2));
        compare(g2);
        for (auto chunk : v.chunks())
            for (auto&& t : chunk) g3.push_back(tuple_entry(t));
        compare(g3);
        for (auto s : { v.single(), creg.single<Refs...>() }) {
            MC_CHECK(bool(s) == !want.empty(), "%s: single over %zu types %s although %zu entities match", wh, sizeof...(Refs), s ? "found an entity" : "found none", want.size());
            if (s) MC_CHECK(one_of(tuple_entry(*s)), "%s: single yields something that is no matching entity", wh);
        }
        // a chunk yields its entries through all iterator operations
        for (auto chunk : v.chunks()) {
            auto it = chunk.begin(), e = chunk.end();
            while (it != e) {
                auto old = it++;
                auto t = *old;
                MC_CHECK(old < it && !(it == old), "%s: chunk iterator order", wh);
                g5.push_back(tuple_entry(t));
            }
        }
        compare(g5);
    }
}
static void check_views(World& w, int r) {
#ifdef WITH_VIEWS
    check_view<A&>(w, r);
    check_view<const A&>(w, r);
    check_view<const B&>(w, r);
    check_view<const Big&>(w, r);
    check_view<B&, A&>(w, r);
    check_view<A&, const B&>(w, r);
    check_view<const entity&, A&>(w, r);
    check_view<const A&, const entity&>(w, r);
    check_view<const entity&, const B&, const Tag&>(w, r);
    check_view<const entity&>(w, r);
    check_view<const Tag&>(w, r);
    check_view<const entity&, const Tag&, A&>(w, r);
    check_view<const entity&, const A&, const Big&>(w, r);
    check_view<Big&, const entity&>(w, r);
    check_view<const Big&, const B&, const A&>(w, r);
#endif
}

// ---- operations -----------------------------------------------------------------------------------------------
static std::vector<Op> enabled(World& w) {
    std::vector<Op> ops;
    auto& p = *w.p;
    for (int r = 0; r < p.regs; ++r) {
        auto& m = w.m[r];
        int live = m.live();
        for (auto k : p.kinds) {
            if (k == CREATE) {
                if (live < p.maxents)
                    for (int c : p.creators) ops.push_back({ CREATE, r, -1, c });
                continue;
            }
            if (k == FAILOPS) continue;
            int shown = 0;
            for (int i = 0; i < int(m.ents.size()); ++i) {
                auto& e = m.ents[i];
                if (k == DESTROY_DEAD) {
                    if (!e.alive && shown++ < 2) ops.push_back({ k, r, i });
                    continue;
                }
                if (!e.alive) continue;
                switch (k) {
                case SET:
                case GOI:
                    for (int t : p.types) ops.push_back({ k, r, i, t });
                    break;
                case SETLV:
                    for (int t : p.types)
                        if (t == tA || t == tB) ops.push_back({ k, r, i, t });
                    break;
                case REMOVE:
                    for (int t : p.types) ops.push_back({ k, r, i, t });
                    break;
                case ALIAS_SELF:
                    if (e.has(tA)) ops.push_back({ k, r, i, tA });
                    break;
                case ALIAS_FIELD: // set/insert B from a field of the same entity's A
                case GOI_ALIAS:
                    if (e.has(tA)) ops.push_back({ k, r, i, tB });
                    break;
                case ALIAS_OTHER: // set A from another entity's A (component passed by reference)
                    for (int j = 0; j < int(m.ents.size()); ++j)
                        if (j != i && m.ents[j].alive && m.ents[j].has(tA)) {
                            ops.push_back({ k, r, i, tA, j });
                            break;
                        }
                    break;
                case WRITE:
                case VISITWRITE:
                case VIEWWRITE:
                    for (int t : p.types)
                        if (t != tTag && e.has(t)) ops.push_back({ k, r, i, t });
                    break;
                case CLONE:
                case CLONE_PH:
                    if (live < p.maxents) ops.push_back({ k, r, i });
                    break;
                case COPY:
                case COPY_PH:
                case CCOPY:
                case MOVE:
                case MOVE_PH:
                    if (w.m[1 - r].live() < p.maxents) ops.push_back({ k, r, i });
                    break;
                default: ops.push_back({ k, r, i });
                }
            }
        }
    }
    return ops;
}

static std::string op_str(World& w, const Op& o) {
    static const char* n[] = { "create", "set", "set(lvalue)", "set-from-itself", "set-from-own-field", "set-from-other", "get_or_insert", "get_or_insert-from-own-field", "remove", "destroy", "destroy-dead",
        "write", "visit-write", "view-write", "clone", "clone-into-reserved", "copy", "copy-into-reserved", "const-copy", "move", "move-into-reserved", "failops" };
    std::string s = n[o.k];
    if (o.k == CREATE) s += creator_name(o.t);
    else if (o.t >= 0) s += std::string("<") + tname(o.t) + ">";
    if (o.e >= 0) s += " " + hs(w.m[o.r].ents[o.e].h);
    if (o.o >= 0) s += " from " + hs(w.m[o.r].ents[o.o].h);
    if (w.p->regs > 1) s += " in R" + std::to_string(o.r);
    return s;
}

// destination handle of a clone/copy/move: new or reserved beforehand
template<class F>
static void transfer(World& w, int src, int e, int dst, bool moved, bool reserved, F f) {
    MEnt me = w.m[src].ents[e];
    entity h = f();
    if (moved) w.m[src].ents[e].alive = false;
    me.alive = true;
    add_ent(w, dst, me, h);
    (void)reserved;
}

static void apply(World& w, const Op& o) {
    auto& reg = w.reg[o.r];
    auto& m = w.m[o.r];
    int v = w.next++;
    // entities with even ids are used through the reference kept since they came into existence, the others through a new one
    auto use = [&]() -> co_ecs::entity_ref& {
        auto& ref = w.refs[o.r][size_t(o.e)];
        if (m.ents[size_t(o.e)].h.id() % 2) ref = reg.get_entity(m.ents[size_t(o.e)].h);
        return ref;
    };
    auto cuse = [&]() -> auto& {
        auto& ref = w.crefs[o.r][size_t(o.e)];
        if (m.ents[size_t(o.e)].h.id() % 2) ref = std::as_const(reg).get_entity(m.ents[size_t(o.e)].h);
        return ref;
    };
    switch (o.k) {
    case CREATE: {
        MEnt me;
        entity h = create_by(w, o.r, o.t, me);
        add_ent(w, o.r, me, h);
        break;
    }
    case SET: {
        auto& e = m.ents[o.e];
        with_type(o.t, [&]<class T>() {
            if constexpr (std::is_same_v<T, Tag>) {
                use().template set<T>();
                e.v[o.t] = TAGVAL;
            } else {
                int arg = v;
                auto ref = use().template set<T>(arg);
                e.v[o.t] = v;
                MC_CHECK(!(w.p->checks & VALUES) || (entity(ref) == e.h && &ref.template get<T>() == &use().template get<T>()), "%s: set returned a reference to another entity", w.what.c_str());
            }
        });
        break;
    }
    case SETLV: {
        auto& e = m.ents[o.e];
        if (o.t == tA) {
            A a{ v };
            use().set<A>(a);
            MC_CHECK(a.v == v, "%s: set modified its argument", w.what.c_str());
        } else {
            B b{ v };
            use().set<B>(std::move(b));
        }
        e.v[o.t] = v;
        break;
    }
    case ALIAS_SELF: {
        auto& e = m.ents[o.e];
        use().set<A>(std::as_const(use().get<A>()));
        break;
    }
    case ALIAS_FIELD: {
        auto& e = m.ents[o.e];
        use().set<B>(use().get<A>().v);
        e.v[tB] = e.v[tA];
        break;
    }
    case GOI_ALIAS: {
        auto& e = m.ents[o.e];
        auto& b = use().get_or_insert<B>(use().get<A>().v);
        if (!e.has(tB)) e.v[tB] = e.v[tA];
        MC_CHECK(!(w.p->checks & VALUES) || b.v == e.v[tB], "%s: get_or_insert returned %d, expected %d", w.what.c_str(), b.v, e.v[tB]);
        break;
    }
    case ALIAS_OTHER: {
        auto &e = m.ents[o.e], &s = m.ents[o.o];
        use().set<A>(std::as_const(reg.get_entity(s.h).get<A>()));
        e.v[tA] = s.v[tA];
        break;
    }
    case GOI: {
        auto& e = m.ents[o.e];
        with_type(o.t, [&]<class T>() {
            if constexpr (std::is_same_v<T, Tag>) {
                (void)use().template get_or_insert<T>();
                e.v[o.t] = TAGVAL;
            } else {
                auto& x = use().template get_or_insert<T>(v);
                if (!e.has(o.t)) e.v[o.t] = v;
                MC_CHECK(!(w.p->checks & VALUES) || val(x) == e.v[o.t], "%s: get_or_insert returned %d, expected %d", w.what.c_str(), val(x), e.v[o.t]);
                MC_CHECK(!(w.p->checks & VALUES) || &x == &use().template get<T>(), "%s: get_or_insert returned a reference to something else", w.what.c_str());
            }
        });
        break;
    }
    case REMOVE: {
        auto& e = m.ents[o.e];
        with_type(o.t, [&]<class T>() {
            auto ref = use().template remove<T>();
            MC_CHECK(!(w.p->checks & VALUES) || entity(ref) == e.h, "%s: remove returned another entity", w.what.c_str());
        });
        e.v[o.t] = ABSENT;
        break;
    }
    case DESTROY:
        if (v & 1) reg.destroy(m.ents[o.e].h);
        else use().destroy();
        m.ents[o.e].alive = false;
        break;
    case DESTROY_DEAD:
        MC_CHECK(throws_not_found([&] { reg.destroy(m.ents[o.e].h); }), "%s: destroying a dead entity did not report entity not found", w.what.c_str());
        break;
    case WRITE:
        with_type(o.t, [&]<class T>() {
            if constexpr (!std::is_same_v<T, Tag>) use().template get<T>().v = v;
        });
        m.ents[o.e].v[o.t] = v;
        break;
    case VISITWRITE:
        use().visit([&](const co_ecs::component_meta& meta, void* ptr) {
            if (id_to_type(meta.id) == o.t) with_type(o.t, [&]<class T>() {
                if constexpr (!std::is_same_v<T, Tag>) static_cast<T*>(ptr)->v = v;
            });
        });
        m.ents[o.e].v[o.t] = v;
        break;
    case VIEWWRITE:
        with_type(o.t, [&]<class T>() {
            if constexpr (!std::is_same_v<T, Tag>) {
                if (v & 1)
                    for (auto [h, x] : reg.template view<const entity&, T&>().each()) {
                        if (h == m.ents[o.e].h) x.v = v;
                    }
                else reg.each([&](T& x, const entity& h) {
                    if (h == m.ents[o.e].h) x.v = v;
                });
            }
        });
        m.ents[o.e].v[o.t] = v;
        break;
    case CLONE: transfer(w, o.r, o.e, o.r, false, false, [&] { return entity(use().clone()); }); break;
    case CLONE_PH:
        transfer(w, o.r, o.e, o.r, false, true, [&] {
            auto ph = reg.reserve();
            reg.sync();
            if (L.faults) w.fuzzy_ids = true;
            auto h = entity(use().clone(ph));
            MC_CHECK(h == ph.get_entity(), "%s: result is not the reserved handle", w.what.c_str());
            return h;
        });
        break;
    case COPY: transfer(w, o.r, o.e, 1 - o.r, false, false, [&] { return entity(use().copy(w.reg[1 - o.r])); }); break;
    case CCOPY: transfer(w, o.r, o.e, 1 - o.r, false, false, [&] { return entity(cuse().copy(w.reg[1 - o.r])); }); break;
    case COPY_PH:
        transfer(w, o.r, o.e, 1 - o.r, false, true, [&] {
            auto ph = w.reg[1 - o.r].reserve();
            w.reg[1 - o.r].sync();
            if (L.faults) w.fuzzy_ids = true;
            entity h = v & 1 ? entity(use().copy(w.reg[1 - o.r], ph)) : entity(cuse().copy(w.reg[1 - o.r], ph));
            MC_CHECK(h == ph.get_entity(), "%s: result is not the reserved handle", w.what.c_str());
            return h;
        });
        break;
    case MOVE: transfer(w, o.r, o.e, 1 - o.r, true, false, [&] { return entity(use().move(w.reg[1 - o.r])); }); break;
    case MOVE_PH:
        transfer(w, o.r, o.e, 1 - o.r, true, true, [&] {
            auto ph = w.reg[1 - o.r].reserve();
            w.reg[1 - o.r].sync();
            if (L.faults) w.fuzzy_ids = true;
            entity h = entity(use().move(w.reg[1 - o.r], ph));
            MC_CHECK(h == ph.get_entity(), "%s: result is not the reserved handle", w.what.c_str());
            return h;
        });
        break;
    default: break;
    }
}

// ---- failing operations (C08) ---------------------------------------------------------------------------------
template<class E, class F>
static void must_throw(World& w, const char* what, F f) {
    bool ok = false;
    try {
        f();
    } catch (const E&) {
        ok = true;
    }
    MC_CHECK(ok, "%s: %s did not report the documented error", w.what.c_str(), what);
}
struct TooBig {
    unsigned char x[CAP + 600];
};
static void verify(World& w);
static void fail_ops(World& w, int r) {
    auto& reg = w.reg[r];
    std::string base = w.what;
    auto chk = [&](const char* n) {
        w.what = base + " then failing " + n;
        verify(w);
        w.what = base;
    };
    for (size_t i = 0; i < w.m[r].ents.size(); ++i) {
        auto e = w.m[r].ents[i];
        registry& other = w.reg[1 - r];
        if (!e.alive) {
            must_throw<co_ecs::entity_not_found>(w, "clone of a dead entity", [&] { reg.get_entity(e.h).clone(); });
            chk("clone of dead entity");
            must_throw<co_ecs::entity_not_found>(w, "copy of a dead entity", [&] { reg.get_entity(e.h).copy(other); });
            must_throw<co_ecs::entity_not_found>(w, "copy of a dead entity", [&] { std::as_const(reg).get_entity(e.h).copy(other); });
            chk("copy of dead entity");
            must_throw<co_ecs::entity_not_found>(w, "move of a dead entity", [&] { reg.get_entity(e.h).move(other); });
            chk("move of dead entity");
            must_throw<co_ecs::entity_not_found>(w, "set on a dead entity", [&] { reg.get_entity(e.h).set<B>(1); });
            must_throw<co_ecs::entity_not_found>(w, "get_or_insert on a dead entity", [&] { (void)reg.get_entity(e.h).get_or_insert<B>(1); });
            must_throw<co_ecs::entity_not_found>(w, "remove on a dead entity", [&] { reg.get_entity(e.h).remove<A>(); });
            must_throw<co_ecs::entity_not_found>(w, "destroy of a dead entity", [&] { reg.destroy(e.h); });
            chk("operations on dead entity");
            continue;
        }
        if (!e.has(tA)) must_throw<co_ecs::component_not_found>(w, "get of a missing component", [&] { (void)reg.get_entity(e.h).get<A>(); });
        if (!e.has(tB)) {
            must_throw<co_ecs::component_not_found>(w, "get of a missing component", [&] { (void)std::as_const(reg).get_entity(e.h).get<B>(); });
            must_throw<co_ecs::component_not_found>(w, "get of a missing component", [&] { (void)reg.get_entity(e.h).get<A, B>(); });
        }
        chk("get of missing component");
        if (e.has(tH1) && !e.has(tH2)) {
            must_throw<co_ecs::insufficient_chunk_size>(w, "set making the entity too large", [&] { reg.get_entity(e.h).set<H2>(1); });
            chk("set making the entity too large");
            must_throw<co_ecs::insufficient_chunk_size>(w, "get_or_insert making the entity too large", [&] { (void)reg.get_entity(e.h).get_or_insert<H2>(1); });
            chk("get_or_insert making the entity too large");
        }
        must_throw<co_ecs::insufficient_chunk_size>(w, "set of an oversized component", [&] { reg.get_entity(e.h).set<TooBig>(); });
        chk("set of oversized component");
        if (e.has(tNC)) {
            must_throw<std::invalid_argument>(w, "clone of a move-only component", [&] { reg.get_entity(e.h).clone(); });
            chk("clone of move-only component");
            must_throw<std::invalid_argument>(w, "copy of a move-only component", [&] { reg.get_entity(e.h).copy(other); });
            chk("copy of move-only component");
        }
    }
    must_throw<co_ecs::insufficient_chunk_size>(w, "create of an oversized entity", [&] { reg.create<TooBig>({}); });
    chk("create of oversized entity");
    must_throw<co_ecs::insufficient_chunk_size>(w, "create of an oversized combination", [&] { reg.create<H1, H2>(H1{ 1 }, H2{ 2 }); });
    chk("create of oversized combination");
}

// after an injected fault the property under test says what may have changed; C04 only looks at the ledger
static void resync(World& w) {
    for (int r = 0; r < 2; ++r)
        for (auto& e : w.m[r].ents) {
            e.alive = w.reg[r].alive(e.h);
            if (!e.alive) continue;
            for (int t = 0; t < NT; ++t)
                with_type(t, [&]<class T>() { e.v[t] = w.reg[r].get_entity(e.h).template has<T>() ? val(w.reg[r].get_entity(e.h).template get<T>()) : ABSENT; });
        }
}
static int registry_objects(World& w) {
    int n = 0;
    for (int r = 0; r < 2; ++r)
        for (auto& e : w.m[r].ents)
            if (w.reg[r].alive(e.h))
                for (int t = 0; t < NT; ++t)
                    if (t != tTag) with_type(t, [&]<class T>() { n += w.reg[r].get_entity(e.h).template has<T>(); });
    return n;
}

// references and views kept since the beginning see the present
static void check_kept(World& w, int r) {
    auto& reg = w.reg[r];
    for (size_t i = 0; i < w.refs[r].size(); ++i) {
        auto& e = w.m[r].ents[i];
        auto& ref = w.refs[r][i];
        auto& cref = w.crefs[r][i];
        auto s = hs(e.h);
        const char* wh = w.what.c_str();
        MC_CHECK(ref.alive() == e.alive && cref.alive() == e.alive, "%s: a kept reference to entity %s reports alive=%d", wh, s.c_str(), ref.alive());
        if (!e.alive) {
            MC_CHECK(throws_not_found([&] { (void)ref.has<A>(); }) && throws_not_found([&] { (void)cref.has<A>(); }) && throws_not_found([&] { (void)ref.get<A>(); }) && throws_not_found([&] { (void)cref.get<B>(); })
                    && throws_not_found([&] { ref.set<A>(1); }) && throws_not_found([&] { ref.remove<A>(); }) && throws_not_found([&] { ref.destroy(); }) && throws_not_found([&] { (void)ref.clone(); })
                    && throws_not_found([&] { (void)ref.archetype(); }),
                "%s: an operation through a kept reference to dead entity %s did not report entity not found", wh, s.c_str());
            continue;
        }
        MC_CHECK(entity(ref) == e.h && entity(cref) == e.h && &ref.archetype() == &reg.get_entity(e.h).archetype() && &cref.archetype() == &reg.get_entity(e.h).archetype(), "%s: a kept reference to entity %s denotes another entity or storage group", wh, s.c_str());
        for (int t = 0; t < NT; ++t)
            with_type(t, [&]<class T>() {
                MC_CHECK(ref.template has<T>() == e.has(t) && cref.template has<T>() == e.has(t), "%s: a kept reference to entity %s reports %s present=%d", wh, s.c_str(), tname(t), ref.template has<T>());
                if (e.has(t)) MC_CHECK(&ref.template get<T>() == &reg.get_entity(e.h).template get<T>() && &cref.template get<T>() == &ref.template get<T>(), "%s: a kept reference to entity %s reads %s elsewhere", wh, s.c_str(), tname(t));
            });
    }
}
// uses what is kept, whether or not this state is checked: what it remembers is as old as it can be
static void touch(World& w) {
    bool f = L.faults;
    L.faults = false;
    for (int r = 0; r < w.p->regs; ++r) {
        for (size_t i = 0; i < w.refs[r].size(); ++i) {
            if (!w.m[r].ents[i].alive || !w.reg[r].alive(w.m[r].ents[i].h)) continue;
            if (w.refs[r][i].has<A>()) (void)w.refs[r][i].get<A>();
            if (w.crefs[r][i].has<A>()) (void)w.crefs[r][i].get<A>();
        }
        if (w.p->checks & VIEWS) {
            w.touch = true;
            check_views(w, r);
            w.touch = false;
        }
    }
    L.faults = f;
}
static void verify(World& w) {
    auto& p = *w.p;
    bool f = L.faults;
    L.faults = false;
    for (int r = 0; r < p.regs; ++r) {
        if (p.checks & VALUES) check_values(w.reg[r], w.m[r], w.what.c_str());
        if (p.checks & (VALUES | HANDLES)) check_kept(w, r);
        if (p.checks & DENSE) check_dense(w.reg[r], w.what.c_str());
        if (p.checks & VIEWS) check_views(w, r);
        if (p.checks & PHANTOM) {
            // no handle that was never issued may be alive (slots that were issued and freed are excluded: their next
            // handle is about to be issued)
            std::set<uint32_t> ids;
            decltype(entity::invalid().id()) maxid = 0;
            for (auto& e : w.m[r].ents) ids.insert(e.h.id()), maxid = std::max(maxid, e.h.id() + 1);
            if (!w.fuzzy_ids)
                for (uint32_t id = 0; id < maxid + 3; ++id)
                    if (!ids.count(id)) MC_CHECK(!w.reg[r].alive(entity{ id, 0 }), "%s: a handle that was never returned (%u:0) is alive", w.what.c_str(), id);
        }
        if (p.checks & HANDLES) {
            auto& m = w.m[r];
            MC_CHECK(int(w.reg[r].size()) == m.live() && w.reg[r].empty() == (m.live() == 0), "%s: registry reports %zu live entities, expected %d", w.what.c_str(), w.reg[r].size(), m.live());
            std::set<uint32_t> ids;
            decltype(entity::invalid().id()) maxid = 0;
            for (auto& e : m.ents) {
                MC_CHECK(w.reg[r].alive(e.h) == e.alive && w.reg[r].get_entity(e.h).alive() == e.alive && std::as_const(w.reg[r]).get_entity(e.h).alive() == e.alive, "%s: handle %s alive=%d, expected %d",
                    w.what.c_str(), hs(e.h).c_str(), int(w.reg[r].alive(e.h)), e.alive);
                if (!e.alive) check_dead_ops(w, r, e.h);
                else MC_CHECK(!throws_not_found([&] { (void)w.reg[r].get_entity(e.h).has<A>(); }), "%s: live handle %s not found", w.what.c_str(), hs(e.h).c_str());
                maxid = std::max(maxid, e.h.id());
                ids.insert(e.h.id());
            }
            // never issued handles: one past the end, next generation of every slot, invalid
            check_dead_ops(w, r, entity(decltype(maxid)(maxid + 1), 0));
            check_dead_ops(w, r, entity::invalid());
            for (auto id : ids) {
                decltype(entity::invalid().generation()) g = 0;
                for (auto& e : m.ents)
                    if (e.h.id() == id) g = std::max(g, e.h.generation());
                bool isalive = false;
                for (auto& e : m.ents)
                    if (e.h.id() == id && e.alive) isalive = true;
                // a freed slot is already at its next generation; that handle has not been issued, so it must not be usable
                if (isalive) check_dead_ops(w, r, entity(id, decltype(g)(g + 1)));
            }
        }
    }
    if (p.checks & LEDGER) {
        int n = registry_objects(w);
        MC_CHECK(L.count == n, "%s: %d component objects are alive, but entities hold %d", w.what.c_str(), L.count, n);
    }
    L.faults = f;
}

static void body(const Profile& p, int depth) {
    L.reset();
    L.strict = p.checks & LEDGER;
    {
        World w;
        w.p = &p;
        if (p.prefill) {
            w.what = "prefill";
            p.prefill(w);
            if (mc::E.fresh_from == 0) verify(w);
        }
        touch(w);
        for (int d = 0; d < depth; ++d) {
            auto ops = enabled(w);
            auto& o = ops[mc::choose(unsigned(ops.size()))];
            w.what = op_str(w, o);
            mc::log("  %s", w.what.c_str());
            mc::step();
            int thrown = L.thrown;
            L.faults = p.faults;
            if (p.faults) {
                size_t issued[2] = { w.m[0].ents.size(), w.m[1].ents.size() };
                try {
                    apply(w, o);
                } catch (const Boom&) {
                    if (L.thrown == thrown) throw;
                    w.what += " (constructor threw)";
                    if (p.checks & LEDGER) {
                        L.faults = false;
                        // entities may only be known ones
                        (void)issued;
                        resync(w);
                    }
                }
            } else {
                try {
                    apply(w, o);
                } catch (const std::exception& e) {
                    mc::fail("%s: unexpected error: %s", w.what.c_str(), e.what());
                }
            }
            L.faults = false;
            touch(w);
            if (mc::fresh()) {
                mc::state(mc::mix(model_hash(w.m[0], w.reg[0]), model_hash(w.m[1], w.reg[1])));
                verify(w);
                for (auto k : p.kinds)
                    if (k == FAILOPS) {
                        fail_ops(w, 0);
                        break;
                    }
            }
        }
        w.what = "destroying the registry";
    }
    if (p.checks & LEDGER) MC_CHECK(L.count == 0, "after destroying the registry %d component objects are still alive", L.count);
}

static void create_n(World& w, int r, std::initializer_list<int> cs) {
    for (int c : cs) {
        MEnt me;
        entity h = create_by(w, r, c, me);
        add_ent(w, r, me, h);
    }
}
static void kill_at(World& w, int r, int i) {
    w.reg[r].destroy(w.m[r].ents[i].h);
    w.m[r].ents[i].alive = false;
}

static std::vector<Profile*> keep;
static void suite(const char* name, Profile p, int dq, int dt, double capq = 60, double capt = 900) {
    auto* pp = new Profile(std::move(p));
    keep.push_back(pp);
    mc::Suite s;
    s.name = name;
#ifdef CO_ECS_USE_RANGE_V3 // the other supported range library
    s.name = std::string(s.name).insert(4, "range-v3.");
#endif
    s.body = [pp, dq, dt] { body(*pp, mc::quick ? dq : dt); };
    if (pp->faults) {
        s.quick = { mc::Bounds::dev(1, 0, 0, 1) };
        s.thorough = { mc::Bounds::dev(2, 0, 0, 2) };
    }
    s.quick_cap = capq;
    s.thorough_cap = capt;
    mc::suites().push_back(s);
}

static void churn(World& w) { // a non-initial state: recycled slots, emptied groups, mixed order
    create_n(w, 0, { 1, 3, 2, 4, 9 });
    kill_at(w, 0, 0);
    kill_at(w, 0, 2);
    w.reg[0].get_entity(w.m[0].ents[1].h).remove<A>();
    w.m[0].ents[1].v[tA] = ABSENT;
    create_n(w, 0, { 2 });
}
static void blocks(World& w) { create_n(w, 0, { 5, 5, 5, 6, 7, 5 }); }
static void blocks3(World& w) { create_n(w, 0, { 10, 10, 10, 10, 10, 10, 10 }); }

// one entity in each of the storage groups given by all subsets of n types: the group index grows several times
static void wide(World& w, int n) {
    static const int ts[] = { tA, tB, tTag, tNC, tC3 };
    for (int m = 1; m < 1 << n; ++m) {
        create_n(w, 0, { 0 });
        int e = int(w.m[0].ents.size()) - 1;
        for (int k = 0; k < n; ++k) {
            int b = m & 1 ? k : n - 1 - k; // in both orders
            if (m >> b & 1) apply(w, { SET, 0, e, ts[b] });
        }
    }
}

// ---- histories much longer than the exhaustive ones: one slot reused very often, very many slots ---------------------
static void long_reuse() {
    L.reset();
    static const int counts[] = { 300, 70000 };
    int rounds = counts[mc::choose(2)];
    int slots = 1 + int(mc::choose(3));
    int how = int(mc::choose(4));
    mc::log("  %d slots, one reused %d times, ended by %s", slots, rounds, how == 0 ? "destroy" : how == 1 ? "move" : how == 2 ? "destroying a clone" : "destroying a reserved entity");
    registry reg, other;
    std::vector<entity> keep, dead;
    for (int i = 1; i < slots; ++i) keep.push_back(reg.create<A>(A{ i }));
    entity src = reg.create<A>(A{ 500 });
    std::set<entity> seen(keep.begin(), keep.end());
    seen.insert(src);
    auto check = [&](int n) {
        for (auto d : dead)
            MC_CHECK(!reg.alive(d) && throws_not_found([&] { (void)reg.get_entity(d).get<A>(); }), "after %d reuses handle %s of a destroyed entity is alive again", n, hs(d).c_str());
        for (size_t i = 0; i < keep.size(); ++i) MC_CHECK(reg.alive(keep[i]) && reg.get_entity(keep[i]).get<A>().v == int(i) + 1, "after %d reuses of another slot entity %s is lost", n, hs(keep[i]).c_str());
        MC_CHECK(reg.size() == keep.size() + 1, "after %d reuses %zu entities are reported, expected %zu", n, reg.size(), keep.size() + 1);
    };
    for (int n = 0; n < rounds; ++n) {
        entity h;
        if (how == 2) h = reg.get_entity(src).clone();
        else if (how == 3) {
            auto p = reg.reserve();
            reg.sync();
            h = reg.get_entity(src).clone(p);
        } else h = reg.create<A>(A{ n });
        MC_CHECK(seen.insert(h).second, "handle %s was issued before, %d reuses ago at most", hs(h).c_str(), n);
        MC_CHECK(reg.alive(h) && reg.get_entity(h).get<A>().v == (how >= 2 ? 500 : n), "the entity created in round %d is not found or has a wrong value", n);
        if (how == 1) {
            entity o = reg.get_entity(h).move(other);
            MC_CHECK(other.get_entity(o).get<A>().v == n, "the moved entity has a wrong value");
            other.destroy(o);
        } else reg.destroy(h);
        MC_CHECK(!reg.alive(h), "handle %s is alive after its entity is gone", hs(h).c_str());
        if (dead.size() < 20 || (n & (n + 1)) == 0) dead.push_back(h);
        if (n % 8192 == 0) check(n);
    }
    check(rounds);
    mc::step();
    mc::state(mc::mix(uint64_t(rounds) * 8 + slots, how));
}
struct Plain {
    int v;
};
static void many_slots() {
    L.reset();
    static const int counts[] = { 100, 257, 1364, 1365, 1366, 2048, 2731, 4100 };
    int n = counts[mc::choose(8)];
    int pattern = int(mc::choose(6));
    int kind = int(mc::choose(3));
    static const char* pn[] = { "first half", "second half", "every other", "all but the last", "all, newest first", "all, oldest first" };
    mc::log("  %d entities, %s destroyed%s, then as many created again", n, pn[pattern], kind == 0 ? "" : kind == 1 ? " (re-typed first)" : " (moved to another registry)");
    registry reg, other;
    std::vector<entity> h;
    std::vector<int> val(static_cast<size_t>(n));
    std::set<entity> seen;
    for (int i = 0; i < n; ++i) {
        h.push_back(reg.create<Plain>(Plain{ i }));
        val[size_t(i)] = i;
        MC_CHECK(seen.insert(h.back()).second, "handle %s was issued twice", hs(h.back()).c_str());
    }
    std::vector<int> kill;
    for (int i = 0; i < n; ++i)
        if (pattern == 0 ? i < n / 2 : pattern == 1 ? i >= n / 2 : pattern == 2 ? i % 2 == 0 : pattern == 3 ? i != n - 1 : true) kill.push_back(i);
    if (pattern == 4) std::reverse(kill.begin(), kill.end());
    auto check = [&](const char* when) {
        std::map<entity, int> live;
        for (int i = 0; i < int(h.size()); ++i) {
            bool al = val[size_t(i)] >= 0;
            MC_CHECK(reg.alive(h[size_t(i)]) == al, "%s: handle %s alive=%d, expected %d", when, hs(h[size_t(i)]).c_str(), !al, al);
            if (!al) continue;
            live[h[size_t(i)]] = val[size_t(i)];
            MC_CHECK(reg.get_entity(h[size_t(i)]).get<Plain>().v == val[size_t(i)], "%s: entity %s reads %d, expected %d", when, hs(h[size_t(i)]).c_str(), reg.get_entity(h[size_t(i)]).get<Plain>().v, val[size_t(i)]);
        }
        MC_CHECK(reg.size() == live.size(), "%s: %zu entities reported, expected %zu", when, reg.size(), live.size());
        size_t seenn = 0;
        for (auto [e, a] : reg.view<const entity&, const Plain&>().each()) {
            auto it = live.find(e);
            MC_CHECK(it != live.end(), "%s: iteration yields %s, which is not alive, or yields it twice", when, hs(e).c_str());
            MC_CHECK(a.v == it->second, "%s: iteration shows %d for entity %s, expected %d", when, a.v, hs(e).c_str(), it->second);
            live.erase(it);
            ++seenn;
        }
        MC_CHECK(live.empty(), "%s: iteration does not reach %zu of the live entities", when, live.size());
        check_dense(reg, when);
    };
    check("after creating");
    for (int i : kill) {
        entity e = h[size_t(i)];
        if (kind == 1) reg.get_entity(e).set<Tag>();
        if (kind == 2) {
            entity o = reg.get_entity(e).move(other);
            MC_CHECK(other.get_entity(o).get<Plain>().v == val[size_t(i)], "the moved entity has a wrong value");
        } else reg.destroy(e);
        val[size_t(i)] = -1;
    }
    check("after destroying");
    for (size_t k = 0; k < kill.size() + 3; ++k) {
        h.push_back(reg.create<Plain>(Plain{ 10000 + int(k) }));
        val.push_back(10000 + int(k));
        MC_CHECK(seen.insert(h.back()).second, "handle %s was issued before", hs(h.back()).c_str());
    }
    check("after creating again");
    mc::step();
    mc::state(mc::mix(uint64_t(n) * 8 + pattern, kind));
}

int main(int argc, char** argv) {
    auto plain = [](const char* n, void (*f)()) {
        mc::Suite s;
        s.name = n;
        s.body = f;
        mc::suites().push_back(s);
    };
    std::vector<OpKind> all = { CREATE, SET, REMOVE, DESTROY, GOI, WRITE, ALIAS_FIELD, SETLV, ALIAS_SELF, ALIAS_OTHER, GOI_ALIAS, VISITWRITE, VIEWWRITE };
    // C01
    suite("C01.empty", { VALUES, { 0, 1, 3, 4 }, { tA, tB }, all, 1, 2 }, 4, 5);
    suite("C01.churned", { VALUES, { 9 }, { tA, tTag }, all, 1, 4, churn }, 3, 4);
    suite("C01.blocks", { VALUES, { 5, 7 }, { tA, tBig }, { CREATE, SET, REMOVE, DESTROY, ALIAS_OTHER, GOI_ALIAS }, 1, 7, blocks }, 3, 4);
    suite("C01.deep", { VALUES, { 1, 3 }, { tA, tB }, { CREATE, SET, REMOVE, DESTROY }, 1, 2 }, 6, 7);
    suite("C01.wide", { VALUES, { 3 }, { tA, tTag, tC3 }, { CREATE, SET, REMOVE, DESTROY }, 1, 40, [](World& w) { wide(w, 5); } }, 1, 2);
    suite("C01.wide16", { VALUES, { 9 }, { tB, tTag }, { CREATE, SET, REMOVE, DESTROY }, 1, 20, [](World& w) { wide(w, 4); } }, 2, 3);
    // C02
    plain("C02.long-reuse", long_reuse);
    plain("C02.many-slots", many_slots);
    suite("C02.handles", { HANDLES, { 1 }, {}, { CREATE, DESTROY, CLONE, CLONE_PH, COPY, MOVE, MOVE_PH, DESTROY_DEAD }, 2, 2 }, 5, 6);
    suite("C02.recycle", { HANDLES, { 0, 1 }, {}, { CREATE, DESTROY, DESTROY_DEAD }, 1, 3 }, 8, 9);
    suite("C02.churned", { HANDLES, { 1 }, { tB }, { CREATE, SET, REMOVE, DESTROY, CLONE, MOVE, DESTROY_DEAD }, 1, 5, churn }, 3, 5);
    // C03
    suite("C03.grow-shrink", { VALUES | DENSE, { 5 }, {}, { CREATE, DESTROY }, 1, 7 }, 9, 12);
    suite("C03.retype", { VALUES | DENSE, { 5 }, { tA }, { CREATE, DESTROY, SET, REMOVE }, 1, 7, blocks }, 4, 5);
    suite("C03.three-per-block", { VALUES | DENSE, { 10 }, { tB }, { CREATE, DESTROY, SET, REMOVE }, 1, 8, blocks3 }, 4, 5);
    suite("C03.transfer", { VALUES | DENSE, { 5 }, { tA }, { DESTROY, MOVE, CLONE, COPY, CREATE, SET }, 2, 6, [](World& w) { create_n(w, 0, { 5, 5, 5, 5, 5 }); create_n(w, 1, { 5, 5 }); } }, 3, 4);
    plain("C03.real-blocks", many_slots);
    // C04
    std::vector<OpKind> life = { CREATE, SET, REMOVE, DESTROY, GOI, SETLV, ALIAS_SELF, ALIAS_OTHER, ALIAS_FIELD, CLONE, CLONE_PH, COPY, CCOPY, MOVE, COPY_PH, MOVE_PH };
    suite("C04.histories", { LEDGER, { 1, 3 }, { tA, tB }, life, 2, 2 }, 3, 4);
    suite("C04.deep", { LEDGER, { 3 }, { tA, tB }, { CREATE, SET, REMOVE, DESTROY, CLONE, MOVE }, 1, 3 }, 5, 6);
    suite("C04.faults", { LEDGER, { 3, 4 }, { tA, tB }, life, 2, 2, [](World& w) { create_n(w, 0, { 3 }); }, true }, 3, 4);
    suite("C04.blocks", { LEDGER, { 5, 7 }, { tA, tBig }, { CREATE, SET, REMOVE, DESTROY, CLONE, MOVE }, 1, 7, blocks }, 3, 4);
    suite("C04.fault-blocks", { LEDGER, { 5 }, { tA }, { CREATE, SET, REMOVE, DESTROY, CLONE, GOI }, 1, 7, blocks, true }, 3, 3);
#ifdef WITH_VIEWS
    // C06
    suite("C06.empty", { VIEWS, { 0, 1, 2, 3, 15 }, { tA, tB, tTag }, { CREATE, SET, REMOVE, DESTROY }, 1, 3 }, 4, 5);
    suite("C06.churned", { VIEWS | VALUES, { 1, 9 }, { tA, tB, tTag }, { CREATE, SET, REMOVE, DESTROY, VIEWWRITE }, 1, 5, churn }, 3, 4);
    suite("C06.blocks", { VIEWS, { 5, 17 }, { tA, tB, tBig }, { CREATE, SET, REMOVE, DESTROY }, 1, 8, blocks }, 3, 4);
    suite("C06.blocks3", { VIEWS | VALUES, { 16 }, { tA, tB }, { CREATE, SET, REMOVE, DESTROY, VIEWWRITE }, 1, 9, blocks3 }, 2, 4);
#endif
    // C07
    std::vector<OpKind> xfer = { CREATE, CLONE, CLONE_PH, COPY, CCOPY, COPY_PH, MOVE, MOVE_PH, WRITE, REMOVE, SET, DESTROY };
    suite("C07.histories", { VALUES, { 0, 3, 4 }, { tA, tB }, xfer, 2, 2 }, 3, 4);
    suite("C07.prefilled", { VALUES, { 9 }, { tB }, { CLONE, CLONE_PH, COPY, CCOPY, COPY_PH, MOVE, MOVE_PH, WRITE, REMOVE, DESTROY }, 2, 4, [](World& w) { create_n(w, 0, { 3, 4, 9 }); create_n(w, 1, { 4, 3 }); } }, 3, 4);
    suite("C07.blocks", { VALUES, { 7 }, { tA }, { CLONE, COPY, COPY_PH, MOVE, MOVE_PH, DESTROY, SET }, 2, 6, [](World& w) { create_n(w, 0, { 5, 7, 5, 5, 6 }); create_n(w, 1, { 6, 5, 5 }); } }, 3, 4);
    suite("C07.move-only", { VALUES, { 11, 12 }, { tA, tNC }, { CREATE, MOVE, MOVE_PH, WRITE, REMOVE, DESTROY }, 2, 2 }, 4, 5);
    // C08
    suite("C08.failing-ops", { VALUES | PHANTOM, { 1, 12, 13 }, { tA, tB }, { CREATE, REMOVE, DESTROY, SET, FAILOPS }, 1, 3 }, 3, 4);
    suite("C08.failing-prefilled", { VALUES | PHANTOM, { 12, 13 }, { tB }, { CREATE, REMOVE, DESTROY, SET, FAILOPS }, 1, 7, [](World& w) { create_n(w, 0, { 5, 12, 13, 5, 6 }); kill_at(w, 0, 0); } }, 2, 3);
    std::vector<OpKind> flt = { CREATE, SET, GOI, CLONE, CLONE_PH, COPY, CCOPY, COPY_PH, REMOVE, DESTROY };
    suite("C08.throwing-constructors", { VALUES | PHANTOM, { 3, 4 }, { tA, tB }, flt, 2, 3, [](World& w) { create_n(w, 0, { 3, 1 }); }, true }, 3, 4);
    suite("C08.throwing-blocks", { VALUES | PHANTOM | DENSE, { 5, 7 }, { tA }, { CREATE, SET, GOI, CLONE, COPY, DESTROY }, 2, 7, blocks, true }, 2, 3);
    return mc::main(argc, argv);
}
