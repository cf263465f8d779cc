// C10: deferred commands against direct execution on a reference model; C09 (sequential part): reserved handles.
#include "../lib/regmodel.hpp"
#include <deque>

using co_ecs::entity;
using co_ecs::registry;

namespace {

// ---- C10 ------------------------------------------------------------------------------------------------------
enum Cmd { C_CREATE, C_SET, C_REMOVE, C_DESTROY, C_DESTROY2, C_CLONE, D_CREATE, D_SET, D_DESTROY, FLUSH, CMDS };
struct Pending {
    Cmd k;
    int e = -1;   // index of the target entity
    int t = -1;
    int val = 0;
    int made = -1; // index of the entity the command brings into existence
    MEnt comps;
};
enum St { RESERVED, LIVE, DEAD, NEVER }; // NEVER: its command failed
struct Slot {
    MEnt m;
    St st;
};
struct Cfg {
    std::vector<Cmd> kinds;
    std::vector<int> creators; // 1 {A}, 3 {A,B}, 0 {}, 12 {A,NC}, 7 {Big}
    std::vector<int> types;
    int maxents;
    std::vector<int> prefill; // direct creations before
    bool faults = false;
};

struct CW {
    registry reg;
    std::vector<Slot> s;
    std::deque<Pending> q;
    int next = 100;
    std::string what = "start";

    int staged() const {
        int n = 0;
        for (auto& p : q) {
            if (p.k == C_CREATE)
                for (int t = 0; t < NT; ++t) n += t != tTag && p.comps.has(t);
            if (p.k == C_SET) n += p.t != tTag;
        }
        return n;
    }
    int held() const {
        int n = 0;
        for (auto& e : s)
            if (e.st == LIVE)
                for (int t = 0; t < NT; ++t) n += t != tTag && e.m.has(t);
        return n;
    }
    void verify() {
        Model m;
        for (auto& e : s) {
            if (e.st == RESERVED || e.st == NEVER) continue;
            MEnt x = e.m;
            x.alive = e.st == LIVE;
            m.ents.push_back(x);
        }
        check_values(reg, m, what.c_str(), false);
        MC_CHECK(L.count == held() + staged(), "%s: %d component objects exist, %d belong to entities and %d to commands not yet played", what.c_str(), L.count, held(), staged());
        int live = 0;
        reg.view<const entity&>().each([&](const entity& h) {
            bool ok = false;
            for (auto& e : s) ok |= e.st == LIVE && e.m.h == h;
            MC_CHECK(ok, "%s: iteration yields entity %s which does not exist", what.c_str(), hs(h).c_str());
            ++live;
        });
        MC_CHECK(live == m.live(), "%s: iteration yields %d entities, expected %d", what.c_str(), live, m.live());
    }
    int add(MEnt m, entity h, St st) {
        for (auto& e : s) MC_CHECK(e.m.h != h, "%s: handle %s was given out before", what.c_str(), hs(h).c_str());
        MC_CHECK(h.valid(), "%s: invalid handle given out", what.c_str());
        m.h = h;
        m.alive = st == LIVE;
        s.push_back({ m, st });
        return int(s.size()) - 1;
    }
};

const char* crname(int c) {
    switch (c) {
    case 0: return "{}";
    case 1: return "{A}";
    case 3: return "{A,B}";
    case 7: return "{Big}";
    case 9: return "{A,Tag}";
    default: return "{A,NC}";
    }
}
void fill_model(CW& w, int c, MEnt& m) {
    auto put = [&](int t) { m.v[t] = t == tTag ? TAGVAL : w.next++; };
    if (c == 1 || c == 3 || c == 9 || c == 12) put(tA);
    if (c == 3) put(tB);
    if (c == 7) put(tBig);
    if (c == 9) put(tTag);
    if (c == 12) put(tNC);
}
template<class W>
entity create_with(W& w, int c, const MEnt& m) {
    switch (c) {
    case 0: return w.template create<>();
    case 1: return w.template create<A>(A{ m.v[tA] });
    case 3: return w.template create<A, B>(A{ m.v[tA] }, B{ m.v[tB] });
    case 7: return w.template create<Big>(Big{ m.v[tBig] });
    case 9: return w.template create<A, Tag>(A{ m.v[tA] }, Tag{});
    default: return w.template create<A, NC>(A{ m.v[tA] }, NC{ m.v[tNC] });
    }
}

// plays queued commands on the model as the next flush must; returns the expected outcome
enum Out { OK, NOTFOUND, SOMEERROR };
Out model_flush(CW& w) {
    while (!w.q.empty()) {
        Pending p = w.q.front();
        w.q.pop_front();
        if (p.k == C_CREATE) {
            w.s[p.made].m.v = p.comps.v;
            w.s[p.made].st = LIVE;
            continue;
        }
        auto& e = w.s[p.e];
        if (e.st != LIVE) {
            if (p.k == C_CLONE) w.s[p.made].st = NEVER;
            return e.st == DEAD ? NOTFOUND : SOMEERROR;
        }
        switch (p.k) {
        case C_SET: e.m.v[p.t] = p.val; break;
        case C_REMOVE: e.m.v[p.t] = ABSENT; break;
        case C_DESTROY: e.st = DEAD; break;
        case C_CLONE:
            if (e.m.has(tNC)) {
                w.s[p.made].st = NEVER;
                return SOMEERROR;
            }
            w.s[p.made].m.v = e.m.v;
            w.s[p.made].st = LIVE;
            break;
        default: break;
        }
    }
    return OK;
}
Out real_flush(CW& w, std::string& err) {
    try {
        co_ecs::command_buffer::flush(w.reg);
        return OK;
    } catch (const co_ecs::entity_not_found& e) {
        err = e.what();
        return NOTFOUND;
    } catch (const Boom&) {
        err = "Boom";
        return SOMEERROR;
    } catch (const std::exception& e) {
        err = e.what();
        return SOMEERROR;
    }
}
// a flush during which component construction may throw: commands only copy (clone) or move
void flush_faulty(CW& w) {
    int thrown = L.thrown;
    // which clone commands are in the queue, and how many copies does each make
    L.faults = true;
    std::string err;
    Out r = real_flush(w, err);
    L.faults = false;
    if (L.thrown == thrown) {
        Out want = model_flush(w);
        MC_CHECK((r == OK) == (want == OK) && (want != NOTFOUND || r == NOTFOUND), "%s: flush %s, expected %s", w.what.c_str(), r == OK ? "succeeded" : err.c_str(), want == OK ? "success" : "an error");
        return;
    }
    MC_CHECK(r != OK, "%s: a component constructor threw during the flush but no error was reported", w.what.c_str());
    // only a clone copies components: some clone command failed, everything before it was played, nothing after it.
    // Which one it was shows in the registry.
    std::deque<Pending> copy = w.q;
    std::vector<Slot> before = w.s;
    std::set<std::pair<unsigned, unsigned>> present;
    w.reg.view<const entity&>().each([&](const entity& h) { present.emplace(h.id(), h.generation()); });
    for (size_t at = 0; at < copy.size(); ++at) {
        if (copy[at].k != C_CLONE) continue;
        w.s = before;
        w.q.assign(copy.begin(), copy.begin() + at);
        if (model_flush(w) != OK) break;
        w.s[copy[at].made].st = NEVER;
        bool consistent = true;
        for (auto& e : w.s) {
            bool p = present.count({ e.m.h.id(), e.m.h.generation() });
            consistent &= p == (e.st == LIVE) && w.reg.alive(e.m.h) == (e.st != DEAD);
        }
        if (!consistent) continue;
        w.q.assign(copy.begin() + at + 1, copy.end());
        return;
    }
    mc::fail("%s: a constructor threw, but the registry is not in the state before any of the clones that were to be played", w.what.c_str());
}

void do_flush(CW& w) {
    Out want = model_flush(w);
    std::string err;
    Out got = real_flush(w, err);
    MC_CHECK((got == OK) == (want == OK), "%s: flush %s, expected %s", w.what.c_str(), got == OK ? "succeeded" : ("reported: " + err).c_str(), want == OK ? "success" : "an error");
    MC_CHECK(want != NOTFOUND || got == NOTFOUND, "%s: flush reported \"%s\", expected entity not found", w.what.c_str(), err.c_str());
}

struct Choice {
    Cmd k;
    int e, t;
};

// one writer per execution or a fresh writer per command: both must behave the same
void commands_body(const Cfg& c, int depth) {
    L.reset();
    L.strict = true;
    {
        CW w;
        for (int cr : c.prefill) {
            MEnt m;
            fill_model(w, cr, m);
            w.add(m, create_with(w.reg, cr, m), LIVE);
        }
        co_ecs::command_writer kept{ w.reg };
        std::vector<std::optional<co_ecs::command_entity_ref>> refs; // handle given out at recording, by entity
        refs.resize(64);
        std::vector<Choice> o;
        for (int d = 0; d < depth; ++d) {
            o.clear();
            bool room = int(w.s.size()) < c.maxents;
            for (auto k : c.kinds) switch (k) {
                case C_CREATE:
                case D_CREATE:
                    if (room)
                        for (int cr : c.creators) o.push_back({ k, -1, cr });
                    break;
                case C_SET:
                case C_REMOVE:
                    for (size_t e = 0; e < w.s.size(); ++e)
                        for (int t : c.types) o.push_back({ k, int(e), t });
                    break;
                case C_DESTROY:
                case C_DESTROY2:
                    for (size_t e = 0; e < w.s.size(); ++e) o.push_back({ k, int(e), 0 });
                    break;
                case C_CLONE:
                    if (room)
                        for (size_t e = 0; e < w.s.size(); ++e) o.push_back({ k, int(e), 0 });
                    break;
                case D_SET:
                    for (size_t e = 0; e < w.s.size(); ++e)
                        if (w.s[e].st == LIVE)
                            for (int t : c.types) o.push_back({ k, int(e), t });
                    break;
                case D_DESTROY:
                    for (size_t e = 0; e < w.s.size(); ++e)
                        if (w.s[e].st == LIVE) o.push_back({ k, int(e), 0 });
                    break;
                case FLUSH:
                    if (!w.q.empty()) o.push_back({ k, -1, 0 });
                    break;
                default: break;
                }
            if (o.empty()) break;
            mc::step();
            auto ch = o[mc::choose(unsigned(o.size()))];
            co_ecs::command_writer fresh_writer{ w.reg };
            auto& cmd = d % 2 ? kept : fresh_writer;
            auto target = [&](int e) { return refs[e] ? *refs[e] : cmd.get_entity(w.s[e].m.h); };
            Pending p;
            p.k = ch.k;
            p.e = ch.e;
            p.t = ch.t;
            std::string name = ch.e >= 0 ? hs(w.s[ch.e].m.h) : "";
            switch (ch.k) {
            case C_CREATE: {
                w.what = std::string("record create ") + crname(ch.t);
                MEnt m;
                fill_model(w, ch.t, p.comps);
                try {
                    L.faults = c.faults;
                    std::optional<co_ecs::command_entity_ref> r;
                    switch (ch.t) {
                    case 0: r.emplace(cmd.create<>()); break;
                    case 1: r.emplace(cmd.create<A>(A{ p.comps.v[tA] })); break;
                    case 3: r.emplace(cmd.create<A, B>(A{ p.comps.v[tA] }, B{ p.comps.v[tB] })); break;
                    case 7: r.emplace(cmd.create<Big>(Big{ p.comps.v[tBig] })); break;
                    case 9: r.emplace(cmd.create<A, Tag>(A{ p.comps.v[tA] }, Tag{})); break;
                    default: r.emplace(cmd.create<A, NC>(A{ p.comps.v[tA] }, NC{ p.comps.v[tNC] })); break;
                    }
                    L.faults = false;
                    p.made = w.add(m, *r, RESERVED);
                    refs[p.made].emplace(*r);
                    w.q.push_back(p);
                } catch (const Boom&) {
                    L.faults = false;
                }
                break;
            }
            case C_SET:
                w.what = "record set " + std::string(tname(ch.t)) + " on " + name;
                p.val = ch.t == tTag ? TAGVAL : w.next++;
                try {
                    L.faults = c.faults;
                    auto ref = target(ch.e);
                    with_type(ch.t, [&]<class T>() {
                        if constexpr (std::is_same_v<T, Tag>) ref.template set<Tag>();
                        else ref.template set<T>(p.val);
                    });
                    L.faults = false;
                    w.q.push_back(p);
                } catch (const Boom&) {
                    L.faults = false;
                }
                break;
            case C_REMOVE:
                w.what = "record remove " + std::string(tname(ch.t)) + " of " + name;
                with_type(ch.t, [&]<class T>() { target(ch.e).template remove<T>(); });
                w.q.push_back(p);
                break;
            case C_DESTROY:
                w.what = "record destroy " + name + " (through the reference)";
                target(ch.e).destroy();
                w.q.push_back(p);
                break;
            case C_DESTROY2:
                w.what = "record destroy " + name + " (through the writer)";
                cmd.destroy(w.s[ch.e].m.h);
                p.k = C_DESTROY;
                w.q.push_back(p);
                break;
            case C_CLONE: {
                w.what = "record clone of " + name;
                auto r = target(ch.e).clone();
                p.made = w.add(MEnt{}, r, RESERVED);
                refs[p.made].emplace(r);
                w.q.push_back(p);
                break;
            }
            case D_CREATE: {
                w.what = std::string("direct create ") + crname(ch.t);
                MEnt m;
                fill_model(w, ch.t, m);
                w.add(m, create_with(w.reg, ch.t, m), LIVE);
                break;
            }
            case D_SET: {
                w.what = "direct set " + std::string(tname(ch.t)) + " on " + name;
                int v = ch.t == tTag ? TAGVAL : w.next++;
                with_type(ch.t, [&]<class T>() { w.reg.get_entity(w.s[ch.e].m.h).template set<T>(make<T>(v)); });
                w.s[ch.e].m.v[ch.t] = v;
                break;
            }
            case D_DESTROY:
                w.what = "direct destroy " + name;
                w.reg.destroy(w.s[ch.e].m.h);
                w.s[ch.e].st = DEAD;
                break;
            case FLUSH:
                w.what = "flush of " + std::to_string(w.q.size()) + " commands";
                mc::log("  %s", w.what.c_str());
                if (c.faults) flush_faulty(w);
                else do_flush(w);
                break;
            default: break;
            }
            if (ch.k != FLUSH) mc::log("  %s", w.what.c_str());
            if (mc::fresh()) {
                uint64_t h = w.q.size();
                for (auto& p2 : w.q) h = mc::mix(h, unsigned(p2.k * 64 + p2.t * 8 + p2.e + 1));
                for (auto& e : w.s) h = mc::mix(h, e.st * 1000 + e.m.mask());
                mc::state(h);
                w.verify();
            }
        }
        // whatever is left is played by the following flushes
        w.what = "final flushes";
        for (int i = 0; i <= depth && !w.q.empty(); ++i) do_flush(w);
        do_flush(w);
        w.verify();
        w.what = "destroying the registry";
    }
    MC_CHECK(L.count == 0, "after all commands were played and the registry was destroyed, %d component objects are still alive", L.count);
}

// ---- C09 sequential -----------------------------------------------------------------------------------------
enum HSt { H_RES, H_SYNCED, H_LIVE, H_DEAD };
struct HEnt {
    co_ecs::placeholder_entity ph;
    HSt st;
    bool reserved;
    int v;
};
struct Plain {
    int v;
};
void reserve_body(int depth, int maxh, std::vector<int> script) {
    registry reg, other;
    std::vector<HEnt> hsv;
    std::vector<std::pair<entity, entity>> dummy;
    std::string what;
    int next = 1;
    entity plain[64];
    int nplain = 0;
    auto issued = [&](entity h) {
        MC_CHECK(h.valid(), "%s: invalid handle", what.c_str());
        for (auto& e : hsv) MC_CHECK(e.ph.get_entity() != h, "%s: handle %s was issued before", what.c_str(), hs(h).c_str());
        for (int i = 0; i < nplain; ++i) MC_CHECK(plain[i] != h, "%s: handle %s was issued before", what.c_str(), hs(h).c_str());
    };
    struct PE {
        entity h;
        bool live;
        int v;
    };
    std::vector<PE> pes;
    auto create = [&] {
        entity h = reg.create<Plain>(Plain{ next });
        issued(h);
        plain[nplain++] = h;
        pes.push_back({ h, true, next++ });
    };
    auto kill = [&](size_t i) {
        reg.destroy(pes[i].h);
        pes[i].live = false;
    };
    auto check = [&] {
        size_t live = 0;
        for (auto& e : pes) {
            MC_CHECK(reg.alive(e.h) == e.live, "%s: entity %s alive=%d expected %d", what.c_str(), hs(e.h).c_str(), int(reg.alive(e.h)), int(e.live));
            if (e.live) {
                ++live;
                MC_CHECK(reg.get_entity(e.h).get<Plain>().v == e.v, "%s: entity %s has the wrong value", what.c_str(), hs(e.h).c_str());
            }
        }
        for (auto& e : hsv) {
            entity h = e.ph.get_entity();
            if (e.st == H_DEAD) MC_CHECK(!reg.alive(h), "%s: destroyed entity %s alive", what.c_str(), hs(h).c_str());
            if (e.st == H_SYNCED || e.st == H_LIVE) MC_CHECK(reg.alive(h), "%s: reserved handle %s is not alive after synchronisation", what.c_str(), hs(h).c_str());
            if (e.st == H_LIVE) {
                ++live;
                MC_CHECK(reg.get_entity(h).get<Plain>().v == e.v, "%s: entity %s filled through its reserved handle has the wrong value", what.c_str(), hs(h).c_str());
            }
        }
        MC_CHECK(reg.size() == live, "%s: registry reports %zu live entities, expected %zu", what.c_str(), reg.size(), live);
        size_t seen = 0;
        reg.view<const entity&, const Plain&>().each([&](const entity& h, const Plain& p) {
            ++seen;
            bool ok = false;
            for (auto& e : pes) ok |= e.live && e.h == h && e.v == p.v;
            for (auto& e : hsv) ok |= e.st == H_LIVE && e.ph.get_entity() == h && e.v == p.v;
            MC_CHECK(ok, "%s: iteration yields unknown entity %s", what.c_str(), hs(h).c_str());
        });
        MC_CHECK(seen == live, "%s: iteration yields %zu entities, expected %zu", what.c_str(), seen, live);
    };
    for (int a : script) { // prefill: >0 create that many, <0 destroy index -a-1
        if (a > 0)
            for (int i = 0; i < a; ++i) create();
        else kill(size_t(-a - 1));
    }
    struct Ch {
        int k;
        int i;
    };
    std::vector<Ch> o;
    for (int d = 0; d < depth; ++d) {
        o.clear();
        bool room = int(hsv.size() + pes.size()) < maxh;
        if (room) o.push_back({ 0, 0 }), o.push_back({ 1, 0 });
        bool unsynced = false;
        for (auto& e : hsv) unsynced |= e.st == H_RES;
        if (unsynced) o.push_back({ 2, 0 });
        for (size_t i = 0; i < pes.size(); ++i)
            if (pes[i].live) o.push_back({ 3, int(i) });
        for (size_t i = 0; i < hsv.size(); ++i) {
            if (hsv[i].st == H_LIVE) o.push_back({ 4, int(i) });
            if (hsv[i].st == H_SYNCED) o.push_back({ 5, int(i) }), o.push_back({ 6, int(i) });
        }
        if (o.empty()) break;
        auto c = o[mc::choose(unsigned(o.size()))];
        mc::step();
        switch (c.k) {
        case 0: {
            what = "reserve";
            auto ph = reg.reserve();
            issued(ph.get_entity());
            hsv.push_back({ ph, H_RES, true, 0 });
            break;
        }
        case 1:
            what = "create";
            create();
            break;
        case 2:
            what = "sync";
            reg.sync();
            for (auto& e : hsv)
                if (e.st == H_RES) e.st = H_SYNCED;
            break;
        case 3:
            what = "destroy " + hs(pes[c.i].h);
            kill(size_t(c.i));
            break;
        case 4:
            what = "destroy " + hs(hsv[c.i].ph.get_entity());
            reg.destroy(hsv[c.i].ph.get_entity());
            hsv[c.i].st = H_DEAD;
            break;
        case 5: { // fill by moving an entity in
            what = "fill " + hs(hsv[c.i].ph.get_entity()) + " by transfer";
            entity e = other.create<Plain>(Plain{ next });
            other.get_entity(e).move(reg, hsv[c.i].ph);
            hsv[c.i].v = next++;
            hsv[c.i].st = H_LIVE;
            break;
        }
        default: { // fill by copying
            what = "fill " + hs(hsv[c.i].ph.get_entity()) + " by copy";
            entity e = other.create<Plain>(Plain{ next });
            other.get_entity(e).copy(reg, hsv[c.i].ph);
            hsv[c.i].v = next++;
            hsv[c.i].st = H_LIVE;
        }
        }
        mc::log("  %s", what.c_str());
        if (mc::fresh()) {
            uint64_t h = 5;
            for (auto& e : hsv) h = mc::mix(h, uint64_t(e.ph.get_entity().id()) * 64 + e.ph.get_entity().generation() * 8 + e.st);
            for (auto& e : pes) h = mc::mix(h, uint64_t(e.h.id()) * 64 + e.h.generation() * 2 + e.live);
            mc::state(h);
            check();
        }
    }
    what = "final sync";
    reg.sync();
    for (auto& e : hsv)
        if (e.st == H_RES) e.st = H_SYNCED;
    check();
    for (auto& e : hsv)
        if (e.st == H_SYNCED) {
            entity s = other.create<Plain>(Plain{ next });
            what = "final fill of " + hs(e.ph.get_entity());
            other.get_entity(s).move(reg, e.ph);
            e.v = next++;
            e.st = H_LIVE;
        }
    check();
}

void add(std::string name, std::function<void()> f, std::vector<mc::Bounds> q = { mc::Bounds::none() }, std::vector<mc::Bounds> t = { mc::Bounds::none() }) {
    mc::Suite s;
    s.name = std::move(name);
    s.body = std::move(f);
    s.quick_cap = 60;
    s.thorough_cap = 900;
    s.quick = q;
    s.thorough = t;
    mc::suites().push_back(s);
}
void add_cmd(std::string name, Cfg c, int dq, int dt) {
    std::vector<mc::Bounds> q{ mc::Bounds::none() }, t{ mc::Bounds::none() };
    if (c.faults) q = { mc::Bounds::dev(1, 0, 0, 1) }, t = { mc::Bounds::dev(2, 0, 0, 2) };
    add(std::move(name), [c, dq, dt] { commands_body(c, mc::quick ? dq : dt); }, q, t);
}
} // namespace

int main(int argc, char** argv) {
    std::vector<Cmd> rec = { C_CREATE, C_SET, C_REMOVE, C_DESTROY, C_CLONE, FLUSH };
    add_cmd("C10.empty", { rec, { 1, 3 }, { tA, tB }, 3, {} }, 6, 7);
    add_cmd("C10.prefilled", { { C_CREATE, C_SET, C_REMOVE, C_DESTROY, C_DESTROY2, C_CLONE, FLUSH }, { 3 }, { tB }, 5, { 1, 3 } }, 5, 6);
    add_cmd("C10.direct", { { C_CREATE, C_SET, C_CLONE, C_DESTROY2, D_CREATE, D_SET, D_DESTROY, FLUSH }, { 1 }, { tA }, 4, { 1 } }, 5, 6);
    add_cmd("C10.recycled", { { C_CREATE, C_CLONE, C_DESTROY, D_CREATE, D_DESTROY, FLUSH }, { 1 }, {}, 6, { 1, 1 } }, 5, 6);
    add_cmd("C10.types", { { C_CREATE, C_SET, C_REMOVE, C_CLONE, FLUSH }, { 0, 9, 12 }, { tTag, tNC }, 3, {} }, 5, 6);
    add_cmd("C10.blocks", { { C_CREATE, C_SET, C_CLONE, C_DESTROY, FLUSH }, { 7 }, { tBig, tA }, 7, { 7, 7, 7 } }, 4, 5);
    add_cmd("C10.faults", { { C_CREATE, C_SET, C_CLONE, C_DESTROY, FLUSH }, { 3 }, { tA }, 3, { 3 }, true }, 5, 6);
    add("C09.histories", [] { reserve_body(mc::quick ? 9 : 12, 6, {}); });
    add("C09.recycled", [] { reserve_body(mc::quick ? 9 : 11, 8, { 3, -1, -3 }); });
    add("C09.recycled-live", [] { reserve_body(mc::quick ? 8 : 10, 9, { 5, -2, -4, 1, -1 }); });
    return mc::main(argc, argv);
}
