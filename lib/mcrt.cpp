// Controlled execution of multi-threaded code compiled with -fsanitize=thread: implements the interface the compiler's
// instrumentation calls, and replaces the thread, lock, semaphore and allocation primitives. One thread runs at a time;
// every atomic operation and every synchronisation primitive is a scheduling point; loads may return any value the
// release/acquire/seq_cst rules permit (within a bound); plain accesses are checked for data races with vector clocks
// and for use of freed memory. All choices go through mc::choose (lib/explore.hpp).
#include "explore.hpp"
#include "mcapi.hpp"
#include <cxxabi.h>
#include <dlfcn.h>
#include <errno.h>
#include <linux/futex.h>
#include <malloc.h>
#include <map>
#include <new>
#include <random>
#include <set>
#include <sys/syscall.h>
#include <unordered_map>

namespace {
using u8 = uint8_t;
using u32 = uint32_t;
using u64 = uint64_t;

constexpr int NT = 8;
constexpr u32 MAXLOC = 8192;

// the runtime's own containers bypass operator new
template<class T>
struct Raw {
    using value_type = T;
    Raw() = default;
    template<class U>
    Raw(const Raw<U>&) {}
    T* allocate(size_t n) { return static_cast<T*>(malloc(n * sizeof(T))); }
    void deallocate(T* p, size_t) { free(p); }
    bool operator==(const Raw&) const { return true; }
};
template<class T>
using Vec = std::vector<T, Raw<T>>;
template<class K, class V>
using Map = std::unordered_map<K, V, std::hash<K>, std::equal_to<K>, Raw<std::pair<const K, V>>>;

[[noreturn]] void ierr(const char* m) { mc::internal_error(m); abort(); }

struct Clock {
    u32 vc[NT];
    u32 n; // locations known
    u32 v[MAXLOC];
    void reset() {
        memset(vc, 0, sizeof vc);
        n = 0;
    }
    void copy(const Clock& o) {
        memcpy(vc, o.vc, sizeof vc);
        n = o.n;
        memcpy(v, o.v, n * sizeof(u32));
    }
    void join_view(const Clock& o) {
        if (o.n > n) {
            memset(v + n, 0, (o.n - n) * sizeof(u32));
            n = o.n;
        }
        for (u32 i = 0; i < o.n; ++i)
            if (o.v[i] > v[i]) v[i] = o.v[i];
    }
    void join(const Clock& o) {
        for (int i = 0; i < NT; ++i)
            if (o.vc[i] > vc[i]) vc[i] = o.vc[i];
        join_view(o);
    }
    u32 at(u32 l) const { return l < n ? v[l] : 0; }
    void set(u32 l, u32 x) {
        if (l >= n) {
            memset(v + n, 0, (l + 1 - n) * sizeof(u32));
            n = l + 1;
        }
        if (x > v[l]) v[l] = x;
    }
};

// clocks of messages live until the end of the execution
Vec<Clock*> clock_pool;
size_t clock_used = 0;
Clock* new_clock() {
    if (clock_used == clock_pool.size()) clock_pool.push_back(static_cast<Clock*>(malloc(sizeof(Clock))));
    Clock* c = clock_pool[clock_used++];
    c->reset();
    return c;
}

enum Wait { W_NONE, W_MUTEX, W_SEM, W_JOIN, W_COND, W_FUTEX, W_GUARD, W_RDLOCK, W_WRLOCK };
struct Obj {
    int owner = -1;  // mutex, guard, writer
    int rec = 0;
    int readers = 0;
    int64_t count = 0;
    Clock* clk = nullptr;
};
struct Dtor {
    void (*f)(void*);
    void* p;
};
struct Thread {
    int id;
    pthread_t real{};
    std::atomic<int> go{ 0 };
    bool used = false, done = false, started = false;
    Wait wait = W_NONE;
    Obj* obj = nullptr;
    int target = -1;
    void* addr = nullptr;
    bool woken = false, timed = false, timed_out = false;
    u64 yield_h = 0;
    bool yielded = false;
    u32 last_run = 0;
    int ignore = 0;
    u32 pc_hash = 0;
    Clock cur, acq, rel;
    Clock end;
    void* (*fn)(void*) = nullptr;
    void* arg = nullptr;
    Vec<Dtor> dtors;
    struct Spin {
        const void* pc;
        u32 loc;
        u64 h;
    };
    Vec<Spin> spins;
    u32 rnd = 0;
};
Thread T[NT];
int nthreads = 0;
Thread* cur = nullptr; // the simulated thread that runs
bool multi = false;    // more than one thread has existed
u64 H = 0;             // hash of all atomic values and synchronisation objects
u32 nsteps = 0;
u64 vtime = 0;
mcapi::Opts O;
u32 gen = 0; // execution number
// addresses of guards of function-local statics (constant-initialised: used before our constructors run)
struct GuardSet {
    u64 a[4096];
    void insert(u64 g) {
        for (u64 i = g >> 3;; ++i) {
            u64& x = a[i & 4095];
            if (x == g) return;
            if (!x) {
                x = g;
                return;
            }
        }
    }
    bool count(u64 g) const {
        for (u64 i = g >> 3;; ++i) {
            u64 x = a[i & 4095];
            if (x == g) return true;
            if (!x) return false;
        }
    }
};
constinit GuardSet guard_addrs{};
Map<void*, Obj*> objs;
Vec<Obj*> obj_pool;
size_t obj_used = 0;
Clock SC;
std::atomic<int> finished{ 0 };

inline bool active() { return cur != nullptr && cur->ignore == 0; }

void fwait(std::atomic<int>& w, int v) { syscall(SYS_futex, reinterpret_cast<int*>(&w), FUTEX_WAIT_PRIVATE, v, nullptr, nullptr, 0); }
void fwake(std::atomic<int>& w) { syscall(SYS_futex, reinterpret_cast<int*>(&w), FUTEX_WAKE_PRIVATE, 1, nullptr, nullptr, 0); }

std::string sym(const void* pc) {
    Dl_info i;
    char b[64];
    if (pc && dladdr(pc, &i) && i.dli_sname) {
        int st;
        char* d = abi::__cxa_demangle(i.dli_sname, nullptr, nullptr, &st);
        std::string r = d ? d : i.dli_sname;
        free(d);
        if (r.size() > 300) r = r.substr(0, 300) + "...";
        return r;
    }
    snprintf(b, sizeof b, "pc %p", pc);
    return b;
}

// ---- plain memory ---------------------------------------------------------------------------------------------
constexpr u32 TID_SHIFT = 28, CLK_MASK = (1u << 28) - 1;
constexpr u32 K_SHARED = 15u << 28, K_SPLIT = 14u << 28, K_FREED = 13u << 28;
constexpr u32 KIND = 15u << 28;

struct Page {
    u64 no;
    u32 gen;
    u32 w[512], r[512];
    u8 mask[512];
    u8 atomic[512]; // an atomic location overlaps the granule
    const void* wpc[512];
    const void* rpc[512];
};
constexpr u32 PT = 1 << 16;
u32 npages;
Page* ptab[PT];
Page* pcache[256];
struct Split {
    u32 w[8], r[8];
};
Vec<Split> splits;
Vec<std::array<u32, NT>> rvcs;

// forgets the pages that this execution has not used
void drop_old_pages() {
    static Vec<Page*> keep;
    keep.clear();
    for (auto& p : ptab) {
        if (p && p->gen == gen) keep.push_back(p);
        else free(p);
        p = nullptr;
    }
    memset(pcache, 0, sizeof pcache);
    if (keep.size() >= PT / 2) mc::fail("an execution uses more than %zu MB of memory and goes on", keep.size() * 4096 >> 20);
    npages = u32(keep.size());
    for (Page* p : keep) {
        u64 i = (p->no * 0x9e3779b97f4a7c15ull) >> 48;
        while (ptab[i & (PT - 1)]) ++i;
        ptab[i & (PT - 1)] = p;
    }
}

Page* find_page(u64 no, bool create) {
    Page* c = pcache[no & 255];
    if (c && c->no == no) {
        if (c->gen == gen) return c;
    } else {
        u64 i = (no * 0x9e3779b97f4a7c15ull) >> 48;
        c = nullptr;
        while (Page* q = ptab[i & (PT - 1)]) {
            if (q->no == no) {
                c = q;
                break;
            }
            ++i;
        }
        if (!c) {
            if (!create) return nullptr;
            if (npages >= PT / 4 * 3) {
                drop_old_pages();
                return find_page(no, create);
            }
            ++npages;
            c = static_cast<Page*>(calloc(1, sizeof(Page)));
            c->no = no;
            ptab[i & (PT - 1)] = c;
        }
        pcache[no & 255] = c;
    }
    if (c->gen != gen) {
        if (!create) return nullptr;
        memset(c->w, 0, sizeof c->w);
        memset(c->r, 0, sizeof c->r);
        memset(c->atomic, 0, sizeof c->atomic);
        c->gen = gen;
    }
    return c;
}
void clear_range(u64 a, u64 size) {
    u64 e = (a + size + 7) & ~7ull;
    a &= ~7ull;
    while (a < e) {
        u64 pe = std::min(e, (a | 4095) + 1);
        if (Page* p = find_page(a >> 12, false))
            for (u64 g = (a & 4095) >> 3; g < ((pe - 1) & 4095) / 8 + 1; ++g) p->w[g] = p->r[g] = 0, p->atomic[g] = 0;
        a = pe;
    }
}
void free_range(u64 a, u64 size) {
    u64 e = a + size; // the tail granule may be shared with nothing: allocations are 16-aligned
    bool big = size > 65536;
    while (a < e) {
        u64 pe = std::min(e, (a | 4095) + 1);
        if (Page* p = find_page(a >> 12, !big))
            for (u64 g = (a & 4095) >> 3; g <= ((pe - 1) & 4095) >> 3; ++g) p->w[g] = K_FREED, p->r[g] = 0, p->mask[g] = 0xff, p->atomic[g] = 0;
        a = pe;
    }
}

[[noreturn]] void race(const char* how, u64 addr, const void* pc, const char* how2, int other, const void* pc2) {
    std::string a = sym(pc), b = sym(pc2);
    int me_id = cur->id;
    cur->ignore++;
    mc::fail("data race at %p: thread %d %s in %s, thread %d %s in %s", reinterpret_cast<void*>(addr), me_id, how, a.c_str(), other, how2, b.c_str());
}
inline bool before(u32 e) { return (e & CLK_MASK) <= cur->cur.vc[e >> TID_SHIFT]; }

// one shadow cell (granule or byte)
inline void cell_read(u32& w, u32& r, u64 addr, const void* pc, const void* wpc, u32 me_e) {
    if (w && (w >> TID_SHIFT) != (me_e >> TID_SHIFT) && !before(w)) race("reads", addr, pc, "wrote", int(w >> TID_SHIFT), wpc);
    if (r == me_e) return;
    if (r == 0 || ((r & KIND) != K_SHARED && before(r))) {
        r = me_e;
        return;
    }
    u32 idx;
    if ((r & KIND) == K_SHARED) idx = r & CLK_MASK;
    else {
        idx = u32(rvcs.size());
        rvcs.emplace_back();
        rvcs[idx].fill(0);
        rvcs[idx][r >> TID_SHIFT] = r & CLK_MASK;
        r = K_SHARED | idx;
    }
    rvcs[idx][cur->id] = me_e & CLK_MASK;
}
inline void check_reads(u32 r, u64 addr, const void* pc, const void* rpc, const char* how) {
    if (!r) return;
    if ((r & KIND) == K_SHARED) {
        auto& v = rvcs[r & CLK_MASK];
        for (int i = 0; i < NT; ++i)
            if (v[i] > cur->cur.vc[i]) race(how, addr, pc, "read", i, rpc);
    } else if (!before(r)) race(how, addr, pc, "read", int(r >> TID_SHIFT), rpc);
}
inline void cell_write(u32& w, u32& r, u64 addr, const void* pc, const void* wpc, const void* rpc, u32 me_e) {
    if (w && (w >> TID_SHIFT) != (me_e >> TID_SHIFT) && !before(w)) race("writes", addr, pc, "wrote", int(w >> TID_SHIFT), wpc);
    check_reads(r, addr, pc, rpc, "writes");
    w = me_e;
    r = 0;
}

void plain_over_atomic(u64 addr, u32 size, bool write, const void* pc);

inline void granule(Page* p, u32 g, u8 mask, bool write, u64 addr, const void* pc) {
    u32& w = p->w[g];
    u32& r = p->r[g];
    u32 me_e = (u32(cur->id) << TID_SHIFT) | cur->cur.vc[cur->id];
    if (p->mask[g] == mask && (w & KIND) < K_FREED) {
        if (write ? (w == me_e && r == 0) : (r == me_e || (w == me_e && r == 0))) return;
    }
    if ((w & KIND) == K_FREED) {
        std::string a = sym(pc);
        cur->ignore++;
        mc::fail("thread %d %s freed memory at %p in %s", cur->id, write ? "writes" : "reads", reinterpret_cast<void*>(addr), a.c_str());
    }
    if ((w & KIND) != K_SPLIT) {
        if (w == 0 && r == 0) p->mask[g] = mask;
        if (p->mask[g] == mask) {
            if (write) {
                cell_write(w, r, addr, pc, p->wpc[g], p->rpc[g], me_e);
                p->wpc[g] = pc;
            } else {
                cell_read(w, r, addr, pc, p->wpc[g], me_e);
                p->rpc[g] = pc;
            }
            return;
        }
        Split s;
        for (int b = 0; b < 8; ++b) {
            bool in = p->mask[g] >> b & 1;
            s.w[b] = in ? w : 0;
            u32 rr = in ? r : 0;
            if (rr && (rr & KIND) == K_SHARED) {
                u32 idx = u32(rvcs.size());
                auto copy = rvcs[rr & CLK_MASK];
                rvcs.push_back(copy);
                rr = K_SHARED | idx;
            }
            s.r[b] = rr;
        }
        w = K_SPLIT | u32(splits.size());
        r = 0;
        splits.push_back(s);
    }
    for (int b = 0; b < 8; ++b)
        if (mask >> b & 1) {
            Split& s = splits[w & CLK_MASK];
            if (write) cell_write(s.w[b], s.r[b], addr, pc, p->wpc[g], p->rpc[g], me_e);
            else cell_read(s.w[b], s.r[b], addr, pc, p->wpc[g], me_e);
        }
    if (write) p->wpc[g] = pc;
    else p->rpc[g] = pc;
}

void access(u64 a, u64 size, bool write, const void* pc) {
    if (!active() || !multi || !size) return;
    if (!O.races) return;
    u64 e = a + size;
    u64 start = a;
    bool atom = false;
    while (a < e) {
        Page* p = find_page(a >> 12, true);
        u64 pe = std::min(e, (a | 4095) + 1);
        while (a < pe) {
            u32 g = u32(a & 4095) >> 3;
            u64 ge = std::min(pe, (a | 7) + 1);
            u8 mask = u8(((1u << (ge - a)) - 1) << (a & 7));
            granule(p, g, mask, write, a, pc);
            atom |= p->atomic[g];
            a = ge;
        }
    }
    if (atom) plain_over_atomic(start, u32(size), write, pc);
}
// for atomic accesses: conflicts with earlier plain ones, without recording
void check_atomic_vs_plain(u64 a, u32 size, bool write, const void* pc) {
    if (!multi || !O.races) return;
    Page* p = find_page(a >> 12, true);
    u32 g = u32(a & 4095) >> 3;
    p->atomic[g] = 1;
    u32 w = p->w[g], r = p->r[g];
    if (!w && !r) return;
    if ((w & KIND) == K_FREED) {
        std::string s = sym(pc);
        cur->ignore++;
        mc::fail("thread %d accesses freed memory at %p (atomic) in %s", cur->id, reinterpret_cast<void*>(a), s.c_str());
    }
    u8 mask = u8(((1u << size) - 1) << (a & 7));
    auto one = [&](u32 cw, u32 cr) {
        if (cw && !before(cw)) race("atomically accesses", a, pc, "wrote", int(cw >> TID_SHIFT), p->wpc[g]);
        if (write) check_reads(cr, a, pc, p->rpc[g], "atomically writes");
    };
    if ((w & KIND) == K_SPLIT) {
        for (int b = 0; b < 8; ++b)
            if (mask >> b & 1) one(splits[w & CLK_MASK].w[b], splits[w & CLK_MASK].r[b]);
    } else if (p->mask[g] & mask) one(w, r);
}

// ---- atomic locations -----------------------------------------------------------------------------------------
struct Store {
    u64 val;
    Clock* msg;
    int by;
};
struct Loc {
    u64 addr;
    u32 size;
    u32 idx;
    bool stale; // overwritten by plain code: start over
    Vec<Store> st;
    u32 base;   // index of st[0]
    u32 acc[NT], wr[NT];
    u64 h;
};
Vec<Loc*> loc_pool;
u32 nlocs = 0;
Map<u64, Loc*> locs;

u64 rd(u64 a, u32 size) {
    switch (size) {
    case 1: return __atomic_load_n(reinterpret_cast<u8*>(a), __ATOMIC_RELAXED);
    case 2: return __atomic_load_n(reinterpret_cast<uint16_t*>(a), __ATOMIC_RELAXED);
    case 4: return __atomic_load_n(reinterpret_cast<u32*>(a), __ATOMIC_RELAXED);
    default: return __atomic_load_n(reinterpret_cast<u64*>(a), __ATOMIC_RELAXED);
    }
}
void wr(u64 a, u32 size, u64 v) {
    switch (size) {
    case 1: __atomic_store_n(reinterpret_cast<u8*>(a), u8(v), __ATOMIC_RELAXED); break;
    case 2: __atomic_store_n(reinterpret_cast<uint16_t*>(a), uint16_t(v), __ATOMIC_RELAXED); break;
    case 4: __atomic_store_n(reinterpret_cast<u32*>(a), u32(v), __ATOMIC_RELAXED); break;
    default: __atomic_store_n(reinterpret_cast<u64*>(a), v, __ATOMIC_RELAXED);
    }
}
void rehash(Loc* l, u64 v) {
    H ^= l->h;
    l->h = mc::mix(l->idx + 1, v);
    H ^= l->h;
}
Loc* get_loc(u64 a, u32 size) {
    auto& l = locs[a];
    if (l && l->size == size && !l->stale) return l;
    bool fresh_loc = !l;
    if (!l) {
        if (nlocs == loc_pool.size()) loc_pool.push_back(new (malloc(sizeof(Loc))) Loc);
        l = loc_pool[nlocs];
        l->idx = nlocs++;
        if (nlocs >= MAXLOC) ierr("too many atomic locations");
        l->base = 1;
        l->h = 0;
    } else l->base += u32(l->st.size()) + 1;
    l->addr = a;
    l->size = size;
    l->stale = false;
    l->st.clear();
    l->st.push_back({ rd(a, size), nullptr, -1 });
    memset(l->acc, 0, sizeof l->acc);
    memset(l->wr, 0, sizeof l->wr);
    (void)fresh_loc;
    rehash(l, l->st[0].val);
    return l;
}
void plain_over_atomic(u64 addr, u32 size, bool write, const void* pc) {
    for (u64 a = addr & ~7ull; a < addr + size; ++a) {
        auto it = locs.find(a);
        if (it == locs.end() || it->second->stale) continue;
        Loc* l = it->second;
        if (a + l->size <= addr) continue;
        for (int i = 0; i < NT; ++i) {
            if (write && l->acc[i] > cur->cur.vc[i]) race("writes (plainly)", a, pc, "accessed atomically", i, nullptr);
            if (!write && l->wr[i] > cur->cur.vc[i]) race("reads (plainly)", a, pc, "wrote atomically", i, nullptr);
        }
        if (write) l->stale = true;
    }
}
inline bool is_acq(int mo) { return mo == __ATOMIC_ACQUIRE || mo == __ATOMIC_CONSUME || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }
inline bool is_rel(int mo) { return mo == __ATOMIC_RELEASE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }

inline void bump() { cur->cur.vc[cur->id]++; }

// ---- scheduling -----------------------------------------------------------------------------------------------
bool can_run(Thread& t) {
    if (!t.used || t.done) return false;
    switch (t.wait) {
    case W_NONE: return true;
    case W_MUTEX: return t.obj->owner == -1;
    case W_GUARD: return t.obj->owner == -1;
    case W_SEM: return t.obj->count > 0;
    case W_JOIN: return T[t.target].done;
    case W_COND:
    case W_FUTEX: return t.woken;
    case W_RDLOCK: return t.obj->owner == -1;
    case W_WRLOCK: return t.obj->owner == -1 && t.obj->readers == 0;
    }
    return false;
}

// a spinning thread that would find everything as it left it (unless it has not been looked at for long)
bool stuck(const Thread& t) { return t.yielded && t.yield_h == H && nsteps - t.last_run < 300; }
void oldest_first(Thread** list, int n) {
    std::stable_sort(list, list + n, [](Thread* a, Thread* b) {
        bool sa = stuck(*a), sb = stuck(*b);
        return sa != sb ? sb : a->last_run < b->last_run;
    });
}

void switch_to(Thread& t, Thread* self) {
    if (mc::tracing) mc::log("    -> thread %d%s", t.id, t.timed_out ? " (its wait times out)" : "");
    if (self) self->last_run = nsteps;
    t.last_run = nsteps;
    cur = &t;
    t.go.store(1);
    fwake(t.go);
    if (!self) return;
    while (self->go.load() == 0) fwait(self->go, 0);
    self->go.store(0);
}
void resume(Thread& t, Thread* self) {
    if (!can_run(t)) t.timed_out = true;
    if (&t != self) switch_to(t, self);
}
void dump_deadlock() {
    std::string s;
    static const char* n[] = { "runs", "waits for a mutex", "waits for a semaphore", "waits for a thread to end", "waits for a condition", "waits on a futex", "waits for an initialisation", "waits for a read lock",
        "waits for a write lock" };
    for (int i = 0; i < nthreads; ++i)
        if (!T[i].done) s += " thread " + std::to_string(i) + " " + n[T[i].wait] + ";";
    cur->ignore++;
    mc::fail("deadlock:%s", s.c_str());
}
void count_step() {
    mc::step();
    if (++nsteps > O.horizon) {
        cur->ignore++;
        mc::fail("the execution does not make progress: %u scheduling points under a fair schedule and still not finished", nsteps);
    }
}
void note_state() {
    if (!mc::fresh() || mc::warming) return;
    u64 h = H;
    for (int i = 0; i < nthreads; ++i) h = mc::mix(h, T[i].done ? 1 : (u64(T[i].pc_hash) << 8) | T[i].wait);
    mc::state(h);
}

// the running thread cannot continue (it waits or ended); self is null when it ended
void block(Thread* self) {
    Thread* list[NT];
    int n = 0;
    int from = cur->id;
    for (int k = 1; k <= nthreads; ++k) {
        Thread& t = T[(from + k) % nthreads];
        if (can_run(t)) list[n++] = &t;
    }
    oldest_first(list, n);
    if (n == 0 || !O.free_switch)
        for (int k = 1; k <= nthreads; ++k) {
            Thread& t = T[(from + k) % nthreads];
            if (t.used && !t.done && t.timed && !can_run(t)) list[n++] = &t;
        }
    if (n == 0) {
        bool all = true;
        for (int i = 0; i < nthreads; ++i) all &= T[i].done;
        if (all) {
            cur = nullptr;
            finished.store(1);
            fwake(finished);
            return;
        }
        dump_deadlock();
    }
    count_step();
    unsigned c = mc::choose(unsigned(n), O.free_switch ? mc::FREE : mc::PREEMPT);
    resume(*list[c], self);
}

void sched_point(const void* pc) {
    Thread* self = cur;
    self->pc_hash = u32(reinterpret_cast<u64>(pc)) * 2654435761u;
    if (nthreads == 1) return;
    count_step();
    note_state();
    Thread* list[NT + 1];
    int n = 0;
    list[n++] = self;
    for (int k = 1; k < nthreads; ++k) {
        Thread& t = T[(self->id + k) % nthreads];
        if (can_run(t)) list[n++] = &t;
    }
    for (int k = 1; k < nthreads; ++k) {
        Thread& t = T[(self->id + k) % nthreads];
        if (t.used && !t.done && t.timed && !can_run(t)) list[n++] = &t;
    }
    if (n == 1) return;
    unsigned c = mc::choose(unsigned(n), mc::PREEMPT);
    if (c) resume(*list[c], self);
}

// the running thread does nothing useful until others do something; waiting: until anything at all has changed
void yield_point(bool waiting = true) {
    Thread* self = cur;
    if (nthreads == 1) {
        count_step();
        return;
    }
    self->yielded = waiting;
    self->yield_h = H;
    Thread* list[NT];
    int n = 0;
    // threads that have not yet found out that nothing changed, then waits that may time out, then anything
    for (int k = 1; k < nthreads; ++k) {
        Thread& t = T[(self->id + k) % nthreads];
        if (can_run(t) && !stuck(t)) list[n++] = &t;
    }
    if (n == 0)
        for (int k = 1; k < nthreads; ++k) {
            Thread& t = T[(self->id + k) % nthreads];
            if (t.used && !t.done && t.timed && !can_run(t)) list[n++] = &t;
        }
    if (n == 0)
        for (int k = 1; k < nthreads; ++k) {
            Thread& t = T[(self->id + k) % nthreads];
            if (can_run(t)) list[n++] = &t;
        }
    count_step();
    if (n == 0) return;
    oldest_first(list, n);
    unsigned c = mc::choose(unsigned(n), mc::PREEMPT);
    resume(*list[c], self);
}

// ---- atomic operations ----------------------------------------------------------------------------------------
bool spin_check(const void* pc, u32 loc) {
    for (auto& s : cur->spins)
        if (s.pc == pc && s.loc == loc) {
            bool same = s.h == H;
            s.h = H;
            return same;
        }
    cur->spins.push_back({ pc, loc, H });
    return false;
}

u64 do_load(u64 a, u32 size, int mo, const void* pc) {
    if (size == 1 && guard_addrs.count(a) && rd(a, 1)) {
        auto it = objs.find(reinterpret_cast<void*>(a));
        if (it != objs.end()) cur->cur.join(*it->second->clk);
        return rd(a, 1);
    }
    {
        auto it = locs.find(a);
        if (nthreads > 1 && it != locs.end() && spin_check(pc, it->second->idx)) yield_point();
    }
    sched_point(pc);
    Loc* l = get_loc(a, size);
    Thread& t = *cur;
    check_atomic_vs_plain(a, size, false, pc);
    u32 last = u32(l->st.size()) - 1;
    u32 floor = t.cur.at(l->idx);
    if (mo == __ATOMIC_SEQ_CST) floor = std::max(floor, SC.at(l->idx));
    u32 lo = floor > l->base ? floor - l->base : 0;
    if (last - lo > u32(O.stale_depth)) lo = last - u32(O.stale_depth);
    u32 pick = last;
    if (lo < last && nthreads > 1) {
        unsigned c = mc::choose(last - lo + 1, mc::STALE);
        pick = last - c;
        if (c && mc::tracing) mc::log("    thread %d reads an older value of location %u: %llu instead of %llu", t.id, l->idx, (unsigned long long)l->st[pick].val, (unsigned long long)l->st[last].val);
    }
    Store& s = l->st[pick];
    t.cur.set(l->idx, l->base + pick);
    if (s.msg) {
        if (is_acq(mo)) t.cur.join(*s.msg);
        else t.acq.join(*s.msg);
    }
    if (mo == __ATOMIC_SEQ_CST) SC.set(l->idx, l->base + pick);
    l->acc[t.id] = t.cur.vc[t.id];
    if (mc::tracing) mc::log("  thread %d load  loc%u -> %lld   [%s]", t.id, l->idx, (long long)s.val, sym(pc).substr(0, 90).c_str());
    return s.val;
}
Clock* release_msg(int mo, Clock* inherit) {
    Thread& t = *cur;
    Clock* m = new_clock();
    m->copy(is_rel(mo) ? t.cur : t.rel);
    if (inherit) m->join(*inherit);
    return m;
}
void push_store(Loc* l, u64 v, int mo, Clock* inherit) {
    Thread& t = *cur;
    t.cur.set(l->idx, l->base + u32(l->st.size()));
    if (nthreads == 1) { // later threads start with everything this one has done
        l->base += u32(l->st.size());
        l->st.clear();
        l->st.push_back({ v, nullptr, t.id });
        l->acc[t.id] = l->wr[t.id] = t.cur.vc[t.id];
        wr(l->addr, l->size, v);
        rehash(l, v);
        return;
    }
    l->st.push_back({ v, release_msg(mo, inherit), t.id });
    if (mo == __ATOMIC_SEQ_CST) SC.set(l->idx, l->base + u32(l->st.size()) - 1);
    l->acc[t.id] = l->wr[t.id] = t.cur.vc[t.id];
    if (is_rel(mo)) bump();
    wr(l->addr, l->size, v);
    rehash(l, v);
    t.yielded = false;
}
void do_store(u64 a, u32 size, u64 v, int mo, const void* pc) {
    sched_point(pc);
    Loc* l = get_loc(a, size);
    check_atomic_vs_plain(a, size, true, pc);
    push_store(l, v, mo, nullptr);
    if (mc::tracing) mc::log("  thread %d store loc%u = %lld   [%s]", cur->id, l->idx, (long long)v, sym(pc).substr(0, 90).c_str());
}
template<class F>
u64 do_rmw(u64 a, u32 size, int mo, const void* pc, F f) {
    sched_point(pc);
    Loc* l = get_loc(a, size);
    Thread& t = *cur;
    check_atomic_vs_plain(a, size, true, pc);
    Store s = l->st.back();
    t.cur.set(l->idx, l->base + u32(l->st.size()) - 1);
    if (s.msg) {
        if (is_acq(mo)) t.cur.join(*s.msg);
        else t.acq.join(*s.msg);
    }
    u64 v = f(s.val);
    push_store(l, v, mo, s.msg);
    if (mc::tracing) mc::log("  thread %d rmw   loc%u %lld -> %lld   [%s]", t.id, l->idx, (long long)s.val, (long long)v, sym(pc).substr(0, 90).c_str());
    return s.val;
}
bool do_cas(u64 a, u32 size, u64& expected, u64 desired, int mo, int fmo, const void* pc) {
    {
        auto it = locs.find(a);
        if (nthreads > 1 && it != locs.end() && spin_check(pc, it->second->idx)) yield_point();
    }
    sched_point(pc);
    Loc* l = get_loc(a, size);
    Thread& t = *cur;
    check_atomic_vs_plain(a, size, true, pc);
    // a failing exchange is a load: older values that differ from the expected one may be read
    u32 last = u32(l->st.size()) - 1;
    u32 floor = t.cur.at(l->idx);
    if (fmo == __ATOMIC_SEQ_CST) floor = std::max(floor, SC.at(l->idx));
    u32 lo = floor > l->base ? floor - l->base : 0;
    if (last - lo > u32(O.stale_depth)) lo = last - u32(O.stale_depth);
    u32 cand[16], n = 0;
    cand[n++] = last;
    for (u32 i = last; i-- > lo && n < 16;)
        if (l->st[i].val != expected) cand[n++] = i;
    u32 pick = n > 1 && nthreads > 1 ? cand[mc::choose(n, mc::STALE)] : last;
    Store s = l->st[pick];
    bool ok = pick == last && s.val == expected;
    t.cur.set(l->idx, l->base + pick);
    int m = ok ? mo : fmo;
    if (s.msg) {
        if (is_acq(m)) t.cur.join(*s.msg);
        else t.acq.join(*s.msg);
    }
    if (m == __ATOMIC_SEQ_CST) SC.set(l->idx, l->base + pick);
    l->acc[t.id] = t.cur.vc[t.id];
    if (ok) push_store(l, desired, mo, s.msg);
    else expected = s.val;
    if (mc::tracing) mc::log("  thread %d cas   loc%u %lld %s   [%s]", t.id, l->idx, (long long)s.val, ok ? "succeeds" : "fails", sym(pc).substr(0, 90).c_str());
    return ok;
}
void do_fence(int mo, const void* pc) {
    if (mo == __ATOMIC_RELAXED) return;
    if (mo == __ATOMIC_SEQ_CST) sched_point(pc);
    Thread& t = *cur;
    if (is_acq(mo)) t.cur.join(t.acq);
    if (mo == __ATOMIC_SEQ_CST) {
        t.cur.join_view(SC);
        SC.join_view(t.cur);
    }
    if (is_rel(mo)) {
        t.rel.copy(t.cur);
        bump();
    }
    if (mc::tracing) mc::log("  thread %d fence %d", t.id, mo);
}

// ---- synchronisation objects ----------------------------------------------------------------------------------
Obj* obj(void* p) {
    auto& o = objs[p];
    if (!o) {
        if (obj_used == obj_pool.size()) obj_pool.push_back(new (malloc(sizeof(Obj))) Obj);
        o = obj_pool[obj_used++];
        *o = Obj{};
        o->clk = new_clock();
    }
    return o;
}
void obj_acquire(Obj* o) { cur->cur.join(*o->clk); }
void obj_release(Obj* o) {
    o->clk->join(cur->cur);
    bump();
}
void touch(u64 v) { H ^= mc::mix(0x5151, v); }
void wait_for(Wait w, Obj* o, bool timed = false) {
    Thread* self = cur;
    self->wait = w;
    self->obj = o;
    self->timed = timed;
    self->timed_out = false;
    while (!can_run(*self) && !self->timed_out) block(self);
    self->wait = W_NONE;
    self->timed = false;
}

// ---- memory ---------------------------------------------------------------------------------------------------
struct Hdr {
    u64 magic;
    u64 size;
    void* raw;
    u64 pad;
};
constexpr u64 M_LIVE = 0x6d63616c6c6f6331ull, M_FREED = 0x6d63616c6c6f6332ull;
Vec<Hdr*> quarantine;
Vec<Hdr*> bigcache; // blocks of many megabytes are kept

void* mc_new(size_t n, size_t align) {
    if (align < 16) align = 16;
    Hdr* h = nullptr;
    if (n >= (1u << 20)) {
        for (size_t i = 0; i < bigcache.size(); ++i)
            if (bigcache[i]->size == n && reinterpret_cast<u64>(bigcache[i] + 1) % align == 0) {
                h = bigcache[i];
                bigcache.erase(bigcache.begin() + long(i));
                break;
            }
    }
    if (!h) {
        void* raw = malloc(n + align + sizeof(Hdr) + 16);
        if (!raw) throw std::bad_alloc{};
        u64 u = (reinterpret_cast<u64>(raw) + sizeof(Hdr) + align - 1) / align * align;
        h = reinterpret_cast<Hdr*>(u) - 1;
        h->raw = raw;
        h->size = n;
    }
    h->magic = M_LIVE;
    void* p = h + 1;
    if (cur) {
        clear_range(reinterpret_cast<u64>(p), n);
        if (n <= 65536) memset(p, 0xcd, n);
    }
    return p;
}
void really_free(Hdr* h) {
    if (h->size >= (1u << 20) && bigcache.size() < 16) {
        bigcache.push_back(h);
        return;
    }
    h->magic = 0;
    free(h->raw);
}
void mc_delete(void* p) {
    if (!p) return;
    Hdr* h = static_cast<Hdr*>(p) - 1;
    if (h->magic != M_LIVE) {
        if (cur) cur->ignore++;
        mc::fail(h->magic == M_FREED ? "memory at %p freed twice" : "invalid pointer %p freed", p);
    }
    if (!cur) {
        really_free(h);
        return;
    }
    h->magic = M_FREED;
    u64 a = reinterpret_cast<u64>(p);
    if (active()) {
        // freeing counts as a write
        if (multi && h->size <= 65536) access(a, h->size, true, __builtin_return_address(0));
        auto lo = a & ~7ull;
        if (h->size <= 65536)
            for (u64 x = lo; x < a + h->size; x += 4) {
                auto it = locs.find(x);
                if (it != locs.end()) it->second->stale = true;
            }
    }
    free_range(a, h->size);
    quarantine.push_back(h);
}

// ---- threads --------------------------------------------------------------------------------------------------
int (*real_create)(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*);
int (*real_join)(pthread_t, void**);

void run_dtors(Thread& t) {
    while (!t.dtors.empty()) {
        Dtor d = t.dtors.back();
        t.dtors.pop_back();
        d.f(d.p);
    }
}
void* trampoline(void* p) {
    Thread& t = *static_cast<Thread*>(p);
    while (t.go.load() == 0) fwait(t.go, 0);
    t.go.store(0);
    // stack and thread-local storage may have belonged to another thread
    pthread_attr_t at;
    void* base = nullptr;
    size_t sz = 0;
    if (pthread_getattr_np(pthread_self(), &at) == 0) {
        pthread_attr_getstack(&at, &base, &sz);
        for (u64 pg = reinterpret_cast<u64>(base) >> 12; pg <= (reinterpret_cast<u64>(base) + sz - 1) >> 12; ++pg)
            if (Page* q = find_page(pg, false)) q->gen = gen - 1;
        pthread_attr_destroy(&at);
    }
    if (mc::tracing) mc::log("  thread %d starts", t.id);
    t.fn(t.arg);
    run_dtors(t);
    if (mc::tracing) mc::log("  thread %d ends", t.id);
    // end
    if (nthreads > 1 && active()) sched_point(nullptr);
    t.end.copy(t.cur);
    t.done = true;
    // its stack and thread-local storage are gone (only pages that were accessed are known)
    if (base && t.id) {
        for (u64 pg = reinterpret_cast<u64>(base) >> 12; pg <= (reinterpret_cast<u64>(base) + sz - 1) >> 12; ++pg)
            if (find_page(pg, false)) free_range(pg << 12, 4096);
    }
    H ^= mc::mix(0xd0, u64(t.id));
    block(nullptr);
    return nullptr;
}
int create(pthread_t* out, void* (*fn)(void*), void* arg) {
    if (nthreads >= NT) ierr("too many threads");
    int id = nthreads;
    Thread& t = T[id];
    t.id = id;
    t.used = true;
    t.done = false;
    t.wait = W_NONE;
    t.timed = t.timed_out = t.woken = t.yielded = false;
    t.ignore = 0;
    t.pc_hash = 0;
    t.last_run = 0;
    t.fn = fn;
    t.arg = arg;
    t.go.store(0);
    t.dtors.clear();
    t.spins.clear();
    t.rnd = 0;
    t.acq.reset();
    t.rel.reset();
    t.cur.reset();
    if (cur) {
        t.cur.join(cur->cur);
        bump();
        t.rel.copy(t.cur);
    }
    t.cur.vc[id] = 1;
    pthread_attr_t at;
    pthread_attr_init(&at);
    pthread_attr_setstacksize(&at, 1 << 20);
    nthreads++;
    if (nthreads > 1) multi = true;
    int r = real_create(&t.real, &at, trampoline, &t);
    pthread_attr_destroy(&at);
    if (r) ierr("cannot create a thread");
    if (out) *out = t.real;
    return 0;
}
Thread* by_handle(pthread_t h) {
    for (int i = 0; i < nthreads; ++i)
        if (T[i].used && pthread_equal(T[i].real, h)) return &T[i];
    return nullptr;
}

struct Init {
    Init() {
        real_create = reinterpret_cast<decltype(real_create)>(dlsym(RTLD_NEXT, "pthread_create"));
        real_join = reinterpret_cast<decltype(real_join)>(dlsym(RTLD_NEXT, "pthread_join"));
    }
};
void ensure_init() { static Init i; }

const std::function<void()>* body_fn;
void* body_main(void*) {
    try {
        (*body_fn)();
    } catch (const std::exception& e) {
        cur->ignore++;
        mc::fail("unexpected exception: %s", e.what());
    } catch (...) {
        cur->ignore++;
        mc::fail("unexpected exception");
    }
    return nullptr;
}

void execute(const std::function<void()>& f) {
    ensure_init();
    static bool pinned = false;
    if (!pinned && mc::S && mc::me >= mc::S->slot && mc::me < mc::S->slot + mc::MAXW) {
        cpu_set_t set;
        CPU_ZERO(&set);
        long n = sysconf(_SC_NPROCESSORS_ONLN);
        CPU_SET(size_t(mc::me - mc::S->slot) % size_t(n), &set);
        sched_setaffinity(0, sizeof set, &set);
        pinned = true;
    }
    ++gen;
    if (gen >= 0xfffffff0u) ierr("too many executions");
    nthreads = 0;
    multi = false;
    H = 0;
    nsteps = 0;
    vtime = 0;
    clock_used = 0;
    obj_used = 0;
    objs.clear();
    locs.clear();
    nlocs = 0;
    splits.clear();
    rvcs.clear();
    SC.reset();
    finished.store(0);
    cur = nullptr;
    body_fn = &f;
    O = mcapi::Opts{};
    create(nullptr, body_main, nullptr);
    cur = &T[0];
    T[0].go.store(1);
    fwake(T[0].go);
    while (finished.load() == 0) fwait(finished, 0);
    for (int i = 0; i < nthreads; ++i) real_join(T[i].real, nullptr);
    for (auto* h : quarantine) really_free(h);
    quarantine.clear();
}

struct Ign {
    Ign() {
        if (cur) cur->ignore++;
    }
    ~Ign() {
        if (cur) cur->ignore--;
    }
};
} // namespace

// ---- compiler interface ---------------------------------------------------------------------------------------
extern "C" {
#define PC __builtin_return_address(0)
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
#define RW(n)                                                                                     \
    void __tsan_read##n(void* p) { access(u64(p), n, false, PC); }                                 \
    void __tsan_write##n(void* p) { access(u64(p), n, true, PC); }                                 \
    void __tsan_unaligned_read##n(void* p) { access(u64(p), n, false, PC); }                       \
    void __tsan_unaligned_write##n(void* p) { access(u64(p), n, true, PC); }                       \
    void __tsan_volatile_read##n(void* p) { access(u64(p), n, false, PC); }                        \
    void __tsan_volatile_write##n(void* p) { access(u64(p), n, true, PC); }                        \
    void __tsan_read_write##n(void* p) { access(u64(p), n, true, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* p, unsigned long n) { access(u64(p), n, false, PC); }
void __tsan_write_range(void* p, unsigned long n) { access(u64(p), n, true, PC); }
void __tsan_vptr_update(void** p, void*) { access(u64(p), 8, true, PC); }
void __tsan_vptr_read(void** p) { access(u64(p), 8, false, PC); }

#define ATOMICS(B, T)                                                                                                                              \
    T __tsan_atomic##B##_load(const volatile T* a, int mo) {                                                                                       \
        if (!active()) return __atomic_load_n(a, __ATOMIC_SEQ_CST);                                                                                \
        return T(do_load(u64(a), B / 8, mo, PC));                                                                                                  \
    }                                                                                                                                              \
    void __tsan_atomic##B##_store(volatile T* a, T v, int mo) {                                                                                    \
        if (!active()) {                                                                                                                           \
            __atomic_store_n(a, v, __ATOMIC_SEQ_CST);                                                                                              \
            return;                                                                                                                                \
        }                                                                                                                                          \
        do_store(u64(a), B / 8, u64(v), mo, PC);                                                                                                   \
    }                                                                                                                                              \
    T __tsan_atomic##B##_exchange(volatile T* a, T v, int mo) {                                                                                    \
        if (!active()) return __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST);                                                                         \
        return T(do_rmw(u64(a), B / 8, mo, PC, [&](u64) { return u64(v); }));                                                                      \
    }                                                                                                                                              \
    T __tsan_atomic##B##_fetch_add(volatile T* a, T v, int mo) {                                                                                   \
        if (!active()) return __atomic_fetch_add(a, v, __ATOMIC_SEQ_CST);                                                                          \
        return T(do_rmw(u64(a), B / 8, mo, PC, [&](u64 o) { return u64(T(o + v)); }));                                                             \
    }                                                                                                                                              \
    T __tsan_atomic##B##_fetch_sub(volatile T* a, T v, int mo) {                                                                                   \
        if (!active()) return __atomic_fetch_sub(a, v, __ATOMIC_SEQ_CST);                                                                          \
        return T(do_rmw(u64(a), B / 8, mo, PC, [&](u64 o) { return u64(T(o - v)); }));                                                             \
    }                                                                                                                                              \
    T __tsan_atomic##B##_fetch_and(volatile T* a, T v, int mo) {                                                                                   \
        if (!active()) return __atomic_fetch_and(a, v, __ATOMIC_SEQ_CST);                                                                          \
        return T(do_rmw(u64(a), B / 8, mo, PC, [&](u64 o) { return u64(T(o & v)); }));                                                             \
    }                                                                                                                                              \
    T __tsan_atomic##B##_fetch_or(volatile T* a, T v, int mo) {                                                                                    \
        if (!active()) return __atomic_fetch_or(a, v, __ATOMIC_SEQ_CST);                                                                           \
        return T(do_rmw(u64(a), B / 8, mo, PC, [&](u64 o) { return u64(T(o | v)); }));                                                             \
    }                                                                                                                                              \
    T __tsan_atomic##B##_fetch_xor(volatile T* a, T v, int mo) {                                                                                   \
        if (!active()) return __atomic_fetch_xor(a, v, __ATOMIC_SEQ_CST);                                                                          \
        return T(do_rmw(u64(a), B / 8, mo, PC, [&](u64 o) { return u64(T(o ^ v)); }));                                                             \
    }                                                                                                                                              \
    T __tsan_atomic##B##_fetch_nand(volatile T* a, T v, int mo) {                                                                                  \
        if (!active()) return __atomic_fetch_nand(a, v, __ATOMIC_SEQ_CST);                                                                         \
        return T(do_rmw(u64(a), B / 8, mo, PC, [&](u64 o) { return u64(T(~(o & v))); }));                                                          \
    }                                                                                                                                              \
    bool __tsan_atomic##B##_compare_exchange_strong(volatile T* a, T* e, T v, int mo, int fmo) {                                                   \
        if (!active()) return __atomic_compare_exchange_n(a, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);                                     \
        u64 ex = u64(*e);                                                                                                                          \
        bool ok = do_cas(u64(a), B / 8, ex, u64(v), mo, fmo, PC);                                                                                  \
        if (!ok) *e = T(ex);                                                                                                                       \
        return ok;                                                                                                                                 \
    }                                                                                                                                              \
    bool __tsan_atomic##B##_compare_exchange_weak(volatile T* a, T* e, T v, int mo, int fmo) {                                                     \
        if (!active()) return __atomic_compare_exchange_n(a, e, v, true, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);                                      \
        u64 ex = u64(*e);                                                                                                                          \
        bool ok = do_cas(u64(a), B / 8, ex, u64(v), mo, fmo, PC);                                                                                  \
        if (!ok) *e = T(ex);                                                                                                                       \
        return ok;                                                                                                                                 \
    }                                                                                                                                              \
    T __tsan_atomic##B##_compare_exchange_val(volatile T* a, T e, T v, int mo, int fmo) {                                                          \
        if (!active()) {                                                                                                                           \
            __atomic_compare_exchange_n(a, &e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);                                                      \
            return e;                                                                                                                              \
        }                                                                                                                                          \
        u64 ex = u64(e);                                                                                                                           \
        do_cas(u64(a), B / 8, ex, u64(v), mo, fmo, PC);                                                                                            \
        return T(ex);                                                                                                                              \
    }
ATOMICS(8, uint8_t)
ATOMICS(16, uint16_t)
ATOMICS(32, uint32_t)
ATOMICS(64, uint64_t)
void __tsan_atomic_thread_fence(int mo) {
    if (active()) do_fence(mo, PC);
    else __atomic_thread_fence(__ATOMIC_SEQ_CST);
}
void __tsan_atomic_signal_fence(int) {}

// ---- library calls --------------------------------------------------------------------------------------------
void* mcrt_memcpy(void* d, const void* s, size_t n) {
    access(u64(s), n, false, PC);
    access(u64(d), n, true, PC);
    return memcpy(d, s, n);
}
void* mcrt_memmove(void* d, const void* s, size_t n) {
    access(u64(s), n, false, PC);
    access(u64(d), n, true, PC);
    return memmove(d, s, n);
}
void* mcrt_memset(void* d, int c, size_t n) {
    access(u64(d), n, true, PC);
    return memset(d, c, n);
}
int mcrt_memcmp(const void* a, const void* b, size_t n) {
    access(u64(a), n, false, PC);
    access(u64(b), n, false, PC);
    return memcmp(a, b, n);
}

int pthread_create(pthread_t* out, const pthread_attr_t* at, void* (*fn)(void*), void* arg) {
    ensure_init();
    if (!cur) return real_create(out, at, fn, arg);
    create(out, fn, arg);
    if (active()) sched_point(PC);
    return 0;
}
int pthread_join(pthread_t h, void** ret) {
    ensure_init();
    Thread* t = cur ? by_handle(h) : nullptr;
    if (!t) return real_join(h, ret);
    Thread* self = cur;
    self->target = t->id;
    wait_for(W_JOIN, nullptr);
    self->cur.join(t->end);
    if (ret) *ret = nullptr;
    return 0;
}
int pthread_detach(pthread_t h) {
    if (cur && by_handle(h)) return 0;
    static auto f = reinterpret_cast<int (*)(pthread_t)>(dlsym(RTLD_NEXT, "pthread_detach"));
    return f(h);
}

#define REAL(name, sig, ...)                                                   \
    static auto f_##name = reinterpret_cast<int(*) sig>(dlsym(RTLD_NEXT, #name)); \
    return f_##name(__VA_ARGS__)
static int mtx_lock(void* m, bool recursive, const void* pc) {
    if (cur->ignore) return 0;
    sched_point(pc);
    Obj* o = obj(m);
    if (o->owner == cur->id && recursive) {
        o->rec++;
        return 0;
    }
    wait_for(W_MUTEX, o);
    o->owner = cur->id;
    o->rec = 1;
    touch(u64(cur->id) + 77);
    obj_acquire(o);
    if (mc::tracing) mc::log("  thread %d locks a mutex   [%s]", cur->id, sym(pc).substr(0, 90).c_str());
    return 0;
}
static bool is_recursive(pthread_mutex_t* m) { return (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE; }
int pthread_mutex_lock(pthread_mutex_t* m) {
    if (!cur) { REAL(pthread_mutex_lock, (pthread_mutex_t*), m); }
    return mtx_lock(m, is_recursive(m), PC);
}
int pthread_mutex_trylock(pthread_mutex_t* m) {
    if (!cur) { REAL(pthread_mutex_trylock, (pthread_mutex_t*), m); }
    if (cur->ignore) return 0;
    Obj* o = obj(m);
    if (nthreads > 1 && o->owner != -1 && spin_check(PC, u32(u64(m)))) yield_point();
    sched_point(PC);
    if (o->owner != -1 && !(o->owner == cur->id && is_recursive(m))) return EBUSY;
    if (o->owner == cur->id) o->rec++;
    else {
        o->owner = cur->id;
        o->rec = 1;
        touch(u64(cur->id) + 77);
    }
    obj_acquire(o);
    return 0;
}
int pthread_mutex_unlock(pthread_mutex_t* m) {
    if (!cur) { REAL(pthread_mutex_unlock, (pthread_mutex_t*), m); }
    if (cur->ignore) return 0;
    Obj* o = obj(m);
    if (o->owner != cur->id) {
        cur->ignore++;
        mc::fail("thread %d unlocks a mutex it does not hold", cur->id);
    }
    if (--o->rec == 0) {
        touch(u64(cur->id) + 77);
        obj_release(o);
        o->owner = -1;
    }
    return 0;
}
int pthread_rwlock_rdlock(pthread_rwlock_t* m) {
    if (!cur) { REAL(pthread_rwlock_rdlock, (pthread_rwlock_t*), m); }
    sched_point(PC);
    Obj* o = obj(m);
    wait_for(W_RDLOCK, o);
    o->readers++;
    obj_acquire(o);
    return 0;
}
int pthread_rwlock_wrlock(pthread_rwlock_t* m) {
    if (!cur) { REAL(pthread_rwlock_wrlock, (pthread_rwlock_t*), m); }
    sched_point(PC);
    Obj* o = obj(m);
    wait_for(W_WRLOCK, o);
    o->owner = cur->id;
    obj_acquire(o);
    return 0;
}
int pthread_rwlock_unlock(pthread_rwlock_t* m) {
    if (!cur) { REAL(pthread_rwlock_unlock, (pthread_rwlock_t*), m); }
    Obj* o = obj(m);
    obj_release(o); // readers too: more ordering than promised, a reader's unlock orders only before later writers
    if (o->owner == cur->id) o->owner = -1;
    else o->readers--;
    return 0;
}
static int cond_wait(void* c, pthread_mutex_t* m, bool timed) {
    Thread* self = cur;
    Obj* o = obj(m);
    obj_release(o);
    o->owner = -1;
    self->woken = false;
    self->addr = c;
    wait_for(W_COND, nullptr, timed);
    bool to = self->timed_out && !self->woken;
    self->addr = nullptr;
    wait_for(W_MUTEX, o);
    o->owner = self->id;
    o->rec = 1;
    obj_acquire(o);
    return to ? ETIMEDOUT : 0;
}
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) {
    if (!cur) { REAL(pthread_cond_wait, (pthread_cond_t*, pthread_mutex_t*), c, m); }
    sched_point(PC);
    return cond_wait(c, m, false);
}
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const timespec* t) {
    if (!cur) { REAL(pthread_cond_timedwait, (pthread_cond_t*, pthread_mutex_t*, const timespec*), c, m, t); }
    sched_point(PC);
    return cond_wait(c, m, true);
}
int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t k, const timespec* t) {
    if (!cur) { REAL(pthread_cond_clockwait, (pthread_cond_t*, pthread_mutex_t*, clockid_t, const timespec*), c, m, k, t); }
    sched_point(PC);
    return cond_wait(c, m, true);
}
static void cond_wake(void* c, bool all) {
    for (int k = 1; k <= nthreads; ++k) {
        Thread& t = T[(cur->id + k) % nthreads];
        if (t.used && !t.done && t.wait == W_COND && t.addr == c && !t.woken) {
            t.woken = true;
            if (!all) break;
        }
    }
}
int pthread_cond_signal(pthread_cond_t* c) {
    if (!cur) { REAL(pthread_cond_signal, (pthread_cond_t*), c); }
    sched_point(PC);
    cond_wake(c, false);
    return 0;
}
int pthread_cond_broadcast(pthread_cond_t* c) {
    if (!cur) { REAL(pthread_cond_broadcast, (pthread_cond_t*), c); }
    sched_point(PC);
    cond_wake(c, true);
    return 0;
}
int pthread_once(pthread_once_t* o, void (*f)()) {
    if (!cur) { REAL(pthread_once, (pthread_once_t*, void (*)()), o, f); }
    sched_point(PC);
    Obj* b = obj(o);
    wait_for(W_GUARD, b);
    obj_acquire(b);
    if (*o != 2) {
        b->owner = cur->id;
        try {
            f();
        } catch (...) {
            b->owner = -1;
            throw;
        }
        b->owner = -1;
        *o = 2;
    }
    obj_release(b);
    return 0;
}
int sched_yield() {
    if (active()) yield_point();
    return 0;
}
int nanosleep(const timespec* a, timespec* b) {
    if (!cur) { REAL(nanosleep, (const timespec*, timespec*), a, b); }
    if (active()) yield_point();
    return 0;
}
int clock_nanosleep(clockid_t k, int fl, const timespec* a, timespec* b) {
    if (!cur) { REAL(clock_nanosleep, (clockid_t, int, const timespec*, timespec*), k, fl, a, b); }
    if (active()) yield_point();
    return 0;
}
int clock_gettime(clockid_t k, timespec* t) {
    if (!cur) {
        return int(syscall(SYS_clock_gettime, k, t));
    }
    vtime += 1000;
    t->tv_sec = 1000 + long(vtime / 1000000000);
    t->tv_nsec = long(vtime % 1000000000);
    return 0;
}
// waiting on atomics (std::atomic::wait and friends) goes through syscall(2)
static long futex_model(long a1, long a2, long a3, long a4) {
    int op = int(a2) & 127;
    u64 addr = u64(a1);
    if (op == FUTEX_WAIT || op == FUTEX_WAIT_BITSET) {
        sched_point(PC);
        if (u32(rd(addr, 4)) != u32(a3)) {
            errno = EAGAIN;
            return -1;
        }
        Thread* self = cur;
        self->woken = false;
        self->addr = reinterpret_cast<void*>(addr);
        wait_for(W_FUTEX, nullptr, a4 != 0);
        bool to = self->timed_out && !self->woken;
        self->addr = nullptr;
        if (to) {
            errno = ETIMEDOUT;
            return -1;
        }
        return 0;
    }
    sched_point(PC);
    long n = 0;
    for (int k = 1; k <= nthreads && n < a3; ++k) {
        Thread& t = T[(cur->id + k) % nthreads];
        if (t.used && !t.done && t.wait == W_FUTEX && t.addr == reinterpret_cast<void*>(addr) && !t.woken) t.woken = true, ++n;
    }
    return n;
}
long mcrt_syscall(long no, long a, long b, long c, long d, long e, long f) {
    if (cur && no == SYS_futex) return futex_model(a, b, c, d);
    return syscall(no, a, b, c, d, e, f);
}

// semaphores (lib/mcsem.hpp)
void mcrt_sem_init(void* s, std::ptrdiff_t n) {
    if (!cur) return;
    Obj* o = obj(s);
    o->count = n;
}
void mcrt_sem_destroy(void* s) {
    if (cur) objs.erase(s);
}
void mcrt_sem_release(void* s, std::ptrdiff_t n) {
    if (!active()) return;
    sched_point(PC);
    Obj* o = obj(s);
    auto cap = [&] { return u64(std::min<int64_t>(o->count, nthreads)); };
    touch(1000 + cap());
    o->count += n;
    touch(1000 + cap());
    obj_release(o);
    if (mc::tracing) mc::log("  thread %d releases a semaphore (now %lld)", cur->id, (long long)o->count);
}
static void sem_take(Obj* o) {
    auto cap = [&] { return u64(std::min<int64_t>(o->count, nthreads)); };
    touch(1000 + cap());
    o->count--;
    touch(1000 + cap());
    obj_acquire(o);
}
void mcrt_sem_acquire(void* s) {
    sched_point(PC);
    Obj* o = obj(s);
    wait_for(W_SEM, o);
    sem_take(o);
}
bool mcrt_sem_try_acquire(void* s) {
    Obj* o = obj(s);
    if (nthreads > 1 && spin_check(PC, u32(u64(s)))) yield_point();
    sched_point(PC);
    if (o->count <= 0) return false;
    sem_take(o);
    return true;
}
bool mcrt_sem_acquire_timed(void* s) {
    sched_point(PC);
    Obj* o = obj(s);
    if (mc::tracing && o->count <= 0) mc::log("  thread %d waits for a semaphore", cur->id);
    wait_for(W_SEM, o, true);
    if (o->count <= 0) return false;
    if (cur->timed_out) return false;
    sem_take(o);
    return true;
}

// function-local statics
int __cxa_guard_acquire(long long* g) {
    auto* b = reinterpret_cast<u8*>(g);
    if (b[0]) return 0;
    if (!cur) {
        guard_addrs.insert(u64(g));
        b[1] = 1;
        return 1;
    }
    Ign i;
    Obj* o = obj(g);
    wait_for(W_GUARD, o);
    obj_acquire(o);
    if (b[0]) return 0;
    o->owner = cur->id;
    return 1;
}
void __cxa_guard_release(long long* g) {
    auto* b = reinterpret_cast<u8*>(g);
    guard_addrs.insert(u64(g));
    if (cur) {
        Ign i;
        Obj* o = obj(g);
        Loc* l = get_loc(u64(g), 1);
        push_store(l, 1, __ATOMIC_RELEASE, nullptr);
        obj_release(o);
        o->owner = -1;
    }
    b[0] = 1;
}
void __cxa_guard_abort(long long* g) {
    auto* b = reinterpret_cast<u8*>(g);
    b[1] = 0;
    if (cur) {
        Ign i;
        obj(g)->owner = -1;
    }
}
int __cxa_thread_atexit_impl(void (*)(void*), void*, void*);
int __cxa_thread_atexit(void (*f)(void*), void* p, void* dso) {
    if (!cur) return __cxa_thread_atexit_impl(f, p, dso);
    cur->dtors.push_back({ f, p });
    return 0;
}
void* __cxa_allocate_exception(size_t n) noexcept {
    static auto f = reinterpret_cast<void* (*)(size_t)>(dlsym(RTLD_NEXT, "__cxa_allocate_exception"));
    void* p = f(n);
    if (cur) clear_range(u64(p), n);
    return p;
}
} // extern "C"

namespace std {
void random_device::_M_init(const std::string&) {}
void random_device::_M_init_pretr1(const std::string&) {}
void random_device::_M_fini() {}
random_device::result_type random_device::_M_getval() {
    // the first output of the default engine for these seeds lies in the 1st, 2nd, .. part of its range
    static const unsigned two[] = { 1, 2147483646 }, three[] = { 1, 64000, 2147483646 };
    if (!active()) return 1;
    int n = O.random_alts;
    unsigned base = cur->rnd++;
    if (n <= 1) return two[base % 2];
    unsigned c = mc::choose(unsigned(n), mc::ENV);
    return n == 2 ? two[(base + c) % 2] : three[(base + c) % 3];
}
} // namespace std

void* operator new(size_t n) { return mc_new(n, 16); }
void* operator new[](size_t n) { return mc_new(n, 16); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return mc_new(n, 16); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return mc_new(n, 16); }
void* operator new(size_t n, std::align_val_t a) { return mc_new(n, size_t(a)); }
void* operator new[](size_t n, std::align_val_t a) { return mc_new(n, size_t(a)); }
void operator delete(void* p) noexcept { mc_delete(p); }
void operator delete[](void* p) noexcept { mc_delete(p); }
void operator delete(void* p, size_t) noexcept { mc_delete(p); }
void operator delete[](void* p, size_t) noexcept { mc_delete(p); }
void operator delete(void* p, std::align_val_t) noexcept { mc_delete(p); }
void operator delete[](void* p, std::align_val_t) noexcept { mc_delete(p); }
void operator delete(void* p, size_t, std::align_val_t) noexcept { mc_delete(p); }
void operator delete[](void* p, size_t, std::align_val_t) noexcept { mc_delete(p); }

// ---- harness interface ----------------------------------------------------------------------------------------
namespace mcapi {
unsigned choose(unsigned n) {
    Ign i;
    return mc::choose(n);
}
void fail(const char* fmt, ...) {
    if (cur) cur->ignore++;
    va_list ap;
    va_start(ap, fmt);
    char b[2048];
    vsnprintf(b, sizeof b, fmt, ap);
    va_end(ap);
    mc::fail("%s", b);
}
void log(const char* fmt, ...) {
    if (!mc::tracing) return;
    Ign i;
    va_list ap;
    va_start(ap, fmt);
    char b[1024];
    vsnprintf(b, sizeof b, fmt, ap);
    va_end(ap);
    mc::log("  [thread %d] %s", cur ? cur->id : -1, b);
}
void outcome(uint64_t h) {
    Ign i;
    mc::outcome(h);
    if (!mc::warming) mc::state(mc::mix(h, 0xabcdef));
}
bool quick() { return mc::quick; }
void point(const char*) {
    if (active()) sched_point(PC);
}
void relax() {
    if (active()) yield_point(false);
}
bool fault() {
    Ign i;
    return mc::choose(2, mc::ENV) == 1;
}
int self() { return cur ? cur->id : -1; }
Quiet::Quiet() {
    if (cur) cur->ignore++;
}
Quiet::~Quiet() {
    if (cur) cur->ignore--;
}
Opts& opts() { return O; }
void add(const char* name, std::function<void()> body, std::vector<Bound> quick, std::vector<Bound> thorough, double capq, double capt) {
    mc::Suite s;
    s.name = name;
    auto* f = new std::function<void()>(std::move(body));
    s.body = [f] { execute(*f); };
    auto conv = [](const std::vector<Bound>& v) {
        std::vector<mc::Bounds> r;
        for (auto& b : v) r.push_back(b.total < 0 ? mc::Bounds::none() : mc::Bounds::dev(b.total, b.preempt, b.stale, b.env));
        return r;
    };
    s.quick = conv(quick);
    s.thorough = conv(thorough);
    s.quick_cap = capq;
    s.thorough_cap = capt;
    mc::suites().push_back(s);
}
int main(int argc, char** argv) {
    mc::before_suite = [](const mc::Suite& s) {
        mc::warming = true;
        s.body();
        mc::warming = false;
    };
    return mc::main(argc, argv);
}
} // namespace mcapi
