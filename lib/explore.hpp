// Bounded exhaustive exploration by stateless depth-first search over choice sequences.
//
// A suite is a function that builds a fresh system under test, asks mc::choose() for every decision and checks
// properties with MC_CHECK. It must be deterministic given the choices. The driver runs it for every choice
// sequence within the deviation bounds, on several worker processes, and replays a failing sequence in a fresh
// process before it is reported.
#pragma once
#include <algorithm>
#include <atomic>
#include <cinttypes>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <string>
#include <vector>
#include <ctime>
#include <fcntl.h>
#include <pthread.h>
#include <sched.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>

#if defined(__SANITIZE_ADDRESS__)
extern "C" inline __attribute__((used)) const char* __asan_default_options() { return "detect_leaks=0:exitcode=76:abort_on_error=0:detect_stack_use_after_return=0:quarantine_size_mb=16:malloc_context_size=4:allocator_may_return_null=1"; }
extern "C" inline __attribute__((used)) const char* __ubsan_default_options() { return "print_stacktrace=1"; }
#endif

namespace mc {

// FREE alternatives are all explored; the others are deviations from the default (alternative 0), each costing 1.
enum Kind : uint8_t { FREE = 0, PREEMPT = 1, STALE = 2, ENV = 3, KINDS = 4 };

struct Bounds {
    int total = 1 << 20;
    int per[KINDS] = { 1 << 20, 1 << 20, 1 << 20, 1 << 20 };
    static Bounds none() { return {}; }
    static Bounds dev(int total_, int pre, int stale, int env) {
        Bounds b;
        b.total = total_;
        b.per[PREEMPT] = pre;
        b.per[STALE] = stale;
        b.per[ENV] = env;
        return b;
    }
};

struct Suite {
    std::string name;
    std::function<void()> body;
    std::vector<Bounds> quick{ Bounds::none() };    // explored in order; the last one completed is the coverage
    std::vector<Bounds> thorough{ Bounds::none() };
    double quick_cap = 60, thorough_cap = 600;      // seconds
    double hang_s = 30;                             // one execution longer than this is a hang (confirmed alone)
    bool thorough_only = false;
};

constexpr uint32_t MAXLEN = 1 << 15;
struct Seq {
    uint32_t len = 0;
    uint8_t c[MAXLEN];
    uint8_t n[MAXLEN];
};

constexpr int MAXW = 16;
constexpr int QCAP = 512;
constexpr size_t TAB = size_t(1) << 23;

struct Slot {
    std::atomic<uint64_t> beat;
    std::atomic<int> running;
    std::atomic<uint64_t> execs, steps, points;
    std::atomic<uint32_t> maxdepth;
    Seq cur;
    uint8_t kind[MAXLEN];
    std::atomic<int> failed;
    char msg[4096];
};

struct Shared {
    pthread_mutex_t mu;
    std::atomic<int> idle, stop, nworkers;
    std::atomic<int> qsize; // mirrors qn
    int qn;
    Seq q[QCAP];
    Slot slot[MAXW];
    std::atomic<uint64_t> states, outcomes;
    std::atomic<int> saturated;
    Seq sample[3];
    std::atomic<int> nsample;
    alignas(4096) std::atomic<uint64_t> tab[TAB];
    alignas(4096) std::atomic<uint64_t> otab[1 << 16];
};

inline Shared* S;
inline Slot* me;
inline bool replaying = false, tracing = false;
inline FILE* trace_out = nullptr;
inline bool quick = true; // tier

struct Frame {
    uint8_t cur, n, lim, kind; // alternatives [cur, lim) still ours
};

struct Engine {
    std::vector<Frame> st;
    size_t fixed = 0;  // donated prefix length
    size_t pos = 0;
    size_t fresh_from = 0;
    Bounds b;
};
inline Engine E;
// true when the current point of the execution was not already passed (with the same history) by an earlier execution
inline bool fresh();

inline void log(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
inline void log(const char* fmt, ...) {
    if (!tracing) return;
    va_list ap;
    va_start(ap, fmt);
    vfprintf(trace_out, fmt, ap);
    va_end(ap);
    fputc('\n', trace_out);
    fflush(trace_out);
}

[[noreturn]] inline void fail(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
[[noreturn]] inline void fail(const char* fmt, ...) {
    va_list ap;
    va_start(ap, fmt);
    char buf[2048];
    vsnprintf(buf, sizeof buf, fmt, ap);
    va_end(ap);
    if (me) {
        snprintf(me->msg, sizeof me->msg, "%s", buf);
        me->failed.store(1);
    }
    if (replaying) {
        if (tracing) fprintf(trace_out, "FAIL: %s\n", buf), fflush(trace_out);
    }
    _exit(77);
}

inline void internal_error(const char* m) {
    fprintf(stderr, "mc internal error: %s\n", m);
    _exit(78);
}

#define MC_STR2(x) #x
#define MC_STR(x) MC_STR2(x)
#define MC_CHECK(cond, ...)                \
    do {                                   \
        if (!(cond)) ::mc::fail(__VA_ARGS__); \
    } while (0)

inline bool warming = false; // a first execution that only initialises function-local statics and the like
inline void (*before_suite)(const Suite&) = nullptr;

inline unsigned choose(unsigned n, Kind kind = FREE) {
    if (n <= 1 || warming) return 0;
    if (n > 255) internal_error("choose: too many alternatives");
    size_t i = E.pos++;
    if (i >= MAXLEN) internal_error("choice sequence too long");
    uint8_t c;
    if (i < E.st.size()) {
        if (E.st[i].n != n) {
            fprintf(stderr, "replay diverged at choice %zu: had %u alternatives, now %u\n", i, E.st[i].n, n);
            _exit(79);
        }
        c = E.st[i].cur;
        E.st[i].kind = kind;
    } else {
        E.st.push_back(Frame{ 0, uint8_t(n), uint8_t(n), uint8_t(kind) });
        c = 0;
    }
    me->cur.c[i] = c;
    me->cur.n[i] = uint8_t(n);
    me->cur.len = uint32_t(i + 1);
    me->kind[i] = uint8_t(kind);
    return c;
}

inline bool fresh() { return E.pos >= E.fresh_from || replaying; }

inline uint64_t mix(uint64_t h, uint64_t v) {
    h ^= v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2);
    h *= 0xff51afd7ed558ccdull;
    h ^= h >> 32;
    return h;
}

template<size_t N>
inline bool table_insert(std::atomic<uint64_t> (&t)[N], uint64_t h) {
    if (!h) h = 1;
    size_t i = (h * 0x9e3779b97f4a7c15ull) >> 20;
    for (int probe = 0; probe < 64; ++probe) {
        auto& e = t[(i + probe) & (N - 1)];
        uint64_t v = e.load(std::memory_order_relaxed);
        if (v == h) return false;
        if (v == 0) {
            if (e.compare_exchange_strong(v, h)) return true;
            if (v == h) return false;
        }
    }
    S->saturated.store(1);
    return false;
}
// count a distinct state of the (model, implementation) pair
inline void state(uint64_t h) {
    if (replaying) return;
    if (table_insert(S->tab, h)) S->states.fetch_add(1, std::memory_order_relaxed);
}
inline void outcome(uint64_t h) {
    if (replaying) return;
    if (table_insert(S->otab, h)) S->outcomes.fetch_add(1, std::memory_order_relaxed);
}
inline void step(uint64_t k = 1) {
    me->steps.store(me->steps.load(std::memory_order_relaxed) + k, std::memory_order_relaxed);
}

inline double now() {
    timespec ts;
    clock_gettime(CLOCK_MONOTONIC, &ts);
    return double(ts.tv_sec) + 1e-9 * double(ts.tv_nsec);
}

// ---- worker -----------------------------------------------------------------------------------------------
inline void load_prefix(const Seq& s) {
    E.st.clear();
    for (uint32_t i = 0; i < s.len; ++i) E.st.push_back(Frame{ s.c[i], s.n[i], uint8_t(s.c[i] + 1), 0 });
    E.fixed = s.len;
}

// admissible(i, used): may position i deviate, given what the prefix has used
inline bool next_path() {
    // recompute costs used before each position
    int used[KINDS] = {}, total = 0;
    static std::vector<int> ok;
    ok.assign(E.st.size(), 0);
    for (size_t i = 0; i < E.st.size(); ++i) {
        auto& f = E.st[i];
        bool admissible = f.kind == FREE || (total + 1 <= E.b.total && used[f.kind] + 1 <= E.b.per[f.kind]);
        ok[i] = admissible && f.cur + 1 < f.lim;
        if (f.kind != FREE && f.cur) used[f.kind]++, total++;
    }
    // donate the shallowest alternatives when others are idle
    if (S->idle.load(std::memory_order_relaxed) > 0 && S->qsize.load(std::memory_order_relaxed) < MAXW) {
        for (size_t i = E.fixed; i < E.st.size(); ++i) {
            if (!ok[i]) continue;
            pthread_mutex_lock(&S->mu);
            auto& f = E.st[i];
            bool all = true;
            int a = f.lim - 1;
            for (; a > f.cur; --a) {
                if (S->qn >= QCAP) {
                    all = false;
                    break;
                }
                Seq& q = S->q[S->qn++];
                q.len = uint32_t(i + 1);
                for (size_t k = 0; k < i; ++k) q.c[k] = E.st[k].cur, q.n[k] = E.st[k].n;
                q.c[i] = uint8_t(a);
                q.n[i] = f.n;
            }
            f.lim = uint8_t(a + 1);
            ok[i] = f.cur + 1 < f.lim;
            S->qsize.store(S->qn);
            pthread_mutex_unlock(&S->mu);
            (void)all;
            break;
        }
    }
    for (size_t i = E.st.size(); i-- > E.fixed;) {
        if (ok[i]) {
            E.st[i].cur++;
            E.st.resize(i + 1);
            return true;
        }
    }
    return false;
}

inline void run_one(const Suite& s) {
    E.pos = 0;
    E.fresh_from = E.st.size();
    me->cur.len = 0;
    me->beat.store(me->beat.load(std::memory_order_relaxed) + 1, std::memory_order_relaxed);
    s.body();
    if (E.pos < E.st.size()) {
        fprintf(stderr, "replay diverged: execution ended after %zu of %zu choices\n", E.pos, E.st.size());
        _exit(79);
    }
    me->execs.store(me->execs.load(std::memory_order_relaxed) + 1, std::memory_order_relaxed);
    me->points.store(me->points.load(std::memory_order_relaxed) + E.pos, std::memory_order_relaxed);
    if (E.pos > me->maxdepth.load()) me->maxdepth.store(uint32_t(E.pos));
}

// Every execution in a process of its own, for code whose executions influence each other (a cache in a global, say). Used for
// a suite only after executions in one process have turned out not to be reproducible.
inline bool isolate = false;
inline void run_isolated(const Suite& s) {
    fflush(nullptr);
    pid_t pid = fork();
    if (pid < 0) internal_error("fork");
    if (!pid) {
        prctl(PR_SET_PDEATHSIG, SIGKILL);
        run_one(s);
        fflush(nullptr);
        _exit(0);
    }
    int st;
    while (waitpid(pid, &st, 0) < 0) {}
    if (WIFSIGNALED(st)) {
        signal(WTERMSIG(st), SIG_DFL);
        raise(WTERMSIG(st));
        _exit(76);
    }
    if (WEXITSTATUS(st)) _exit(WEXITSTATUS(st));
    for (size_t i = 0; i < me->cur.len; ++i) {
        if (i >= E.st.size()) E.st.push_back(Frame{ me->cur.c[i], me->cur.n[i], me->cur.n[i], 0 });
        E.st[i].kind = me->kind[i];
    }
}

inline void worker(const Suite& s, const Bounds& b, int id) {
    me = &S->slot[id];
    E.b = b;
    bool idle = false;
    if (before_suite) {
        me->running.store(1);
        before_suite(s);
    }
    while (!S->stop.load(std::memory_order_relaxed)) {
        static Seq p;
        bool got = false;
        pthread_mutex_lock(&S->mu);
        if (S->qn > 0) {
            Seq& q = S->q[--S->qn];
            p.len = q.len;
            memcpy(p.c, q.c, q.len);
            memcpy(p.n, q.n, q.len);
            S->qsize.store(S->qn);
            if (idle) S->idle.fetch_sub(1), idle = false;
            got = true;
        } else {
            if (!idle) S->idle.fetch_add(1), idle = true;
            if (S->idle.load() == S->nworkers.load()) {
                pthread_mutex_unlock(&S->mu);
                break;
            }
        }
        pthread_mutex_unlock(&S->mu);
        if (!got) {
            usleep(500);
            continue;
        }
        load_prefix(p);
        me->running.store(1);
        do {
            if (isolate) run_isolated(s);
            else run_one(s);
            uint64_t ex = me->execs.load(std::memory_order_relaxed);
            if ((ex == 1 || ex == 500 || ex == 5000) && S->nsample.load() < 3) {
                int k = S->nsample.fetch_add(1);
                if (k < 3) {
                    S->sample[k].len = uint32_t(E.st.size());
                    for (size_t i = 0; i < E.st.size(); ++i) S->sample[k].c[i] = E.st[i].cur, S->sample[k].n[i] = E.st[i].n;
                }
            }
        } while (!S->stop.load(std::memory_order_relaxed) && next_path());
        me->running.store(0);
    }
    fflush(nullptr);
    _exit(0);
}

// ---- driver -----------------------------------------------------------------------------------------------
struct Result {
    std::string suite;
    uint64_t execs = 0, steps = 0, points = 0, states = 0, outcomes = 0;
    uint32_t maxdepth = 0;
    bool complete = true;
    std::string bound;
    double wall = 0;
    std::vector<std::string> samples;
    int violated = 0, unconfirmed = 0;
    std::string replay, message;
};

inline std::string bounds_str(const Bounds& b) {
    if (b.total >= (1 << 20)) return "unbounded choices (all alternatives)";
    char buf[160];
    snprintf(buf, sizeof buf, "deviations<=%d (preemptions<=%d stale-reads<=%d environment<=%d)", b.total,
        std::min(b.per[PREEMPT], b.total), std::min(b.per[STALE], b.total), std::min(b.per[ENV], b.total));
    return buf;
}

inline std::string seq_str(const Seq& s) {
    std::string r;
    for (uint32_t i = 0; i < s.len; ++i) r += (i ? "," : "") + std::to_string(s.c[i]) + "/" + std::to_string(s.n[i]);
    return r;
}

inline std::string self_exe() {
    char b[4096];
    ssize_t n = readlink("/proc/self/exe", b, sizeof b - 1);
    b[n > 0 ? n : 0] = 0;
    return b;
}

// run the replay file in a fresh process; returns exit status (or 1000+signal, 2000 = timeout), output appended
inline int run_replay(const std::string& file, double limit, std::string& out) {
    int p[2];
    if (pipe(p)) return -1;
    pid_t pid = fork();
    if (!pid) {
        setpgid(0, 0);
        dup2(p[1], 1);
        dup2(p[1], 2);
        close(p[0]);
        close(p[1]);
        execl(self_exe().c_str(), "harness", "--replay", file.c_str(), (char*)nullptr);
        _exit(127);
    }
    close(p[1]);
    fcntl(p[0], F_SETFL, O_NONBLOCK);
    double t0 = now();
    int st = 0;
    bool timeout = false;
    char buf[8192];
    auto drain = [&] {
        ssize_t n;
        while ((n = read(p[0], buf, sizeof buf)) > 0)
            if (out.size() < 200000) out.append(buf, size_t(n));
    };
    while (true) {
        drain();
        pid_t r = waitpid(pid, &st, WNOHANG);
        if (r == pid) break;
        if (now() - t0 > limit) {
            kill(pid, SIGKILL);
            waitpid(pid, &st, 0);
            timeout = true;
            break;
        }
        usleep(5000);
    }
    drain();
    close(p[0]);
    if (timeout) return 2000;
    if (WIFSIGNALED(st)) return 1000 + WTERMSIG(st);
    return WEXITSTATUS(st);
}

inline std::string outdir = ".";
inline std::string property_id = "C00";
inline std::string jesc(const std::string& s) {
    std::string r;
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') r += '\\', r += char(c);
        else if (c == '\n') r += "\\n";
        else if (c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); r += b; }
        else r += char(c);
    }
    return r;
}

inline std::string write_replay(const Suite& s, const Seq& q, const Bounds& b, const char* tag) {
    std::string f = outdir + "/" + property_id + "-" + s.name + "-" + tag + ".replay";
    FILE* o = fopen(f.c_str(), "w");
    if (!o) return f;
    fprintf(o, "property %s\nsuite %s\ntier %s\nbounds %s\nchoices %s\n", property_id.c_str(), s.name.c_str(), quick ? "quick" : "thorough",
        bounds_str(b).c_str(), seq_str(q).c_str());
    fclose(o);
    return f;
}

inline Result explore(const Suite& s, const Bounds& b, double cap, int nw) {
    Result r;
    r.suite = s.name;
    r.bound = bounds_str(b);
    // reset
    S->idle = 0;
    S->stop = 0;
    S->nworkers = nw;
    S->qn = 1;
    S->qsize = 1;
    S->q[0].len = 0;
    for (int i = 0; i < MAXW; ++i) {
        auto& sl = S->slot[i];
        sl.beat = 0; sl.running = 0; sl.execs = 0; sl.steps = 0; sl.points = 0; sl.maxdepth = 0; sl.failed = 0; sl.msg[0] = 0; sl.cur.len = 0;
    }
    S->states = 0;
    S->outcomes = 0;
    S->nsample = 0;
    madvise((void*)S->tab, sizeof S->tab, MADV_REMOVE);
    madvise((void*)S->otab, sizeof S->otab, MADV_REMOVE);
    pthread_mutexattr_t a;
    pthread_mutexattr_init(&a);
    pthread_mutexattr_setpshared(&a, PTHREAD_PROCESS_SHARED);
    pthread_mutexattr_setrobust(&a, PTHREAD_MUTEX_ROBUST);
    pthread_mutex_init(&S->mu, &a);

    double t0 = now();
    std::vector<pid_t> pid(nw);
    fflush(nullptr);
    for (int i = 0; i < nw; ++i) {
        pid[i] = fork();
        if (!pid[i]) {
            int fd = open((outdir + "/worker-" + std::to_string(i) + ".log").c_str(), O_CREAT | O_WRONLY | O_TRUNC, 0644);
            dup2(fd, 1);
            dup2(fd, 2);
            worker(s, b, i);
        }
    }
    std::vector<uint64_t> lastbeat(nw, 0);
    std::vector<double> lastchange(nw, now());
    int alive = nw;
    int bad = -1;
    bool badhang = false;
    std::string err;
    while (alive > 0 && bad < 0) {
        for (int i = 0; i < nw; ++i) {
            if (pid[i] <= 0) continue;
            int st;
            if (waitpid(pid[i], &st, WNOHANG) == pid[i]) {
                pid[i] = 0;
                alive--;
                if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) {
                    bad = i;
                    if (WIFEXITED(st) && WEXITSTATUS(st) == 77) err = S->slot[i].msg;
                    else if (WIFEXITED(st)) err = "process exited with status " + std::to_string(WEXITSTATUS(st));
                    else err = std::string("killed by signal ") + std::to_string(WTERMSIG(st)) + " (" + strsignal(WTERMSIG(st)) + ")";
                    break;
                }
            } else {
                uint64_t bt = S->slot[i].beat.load();
                if (bt != lastbeat[i] || !S->slot[i].running.load()) lastbeat[i] = bt, lastchange[i] = now();
                else if (now() - lastchange[i] > s.hang_s) {
                    bad = i;
                    badhang = true;
                    err = "execution does not terminate";
                    break;
                }
            }
        }
        if (bad < 0 && now() - t0 > cap && !S->stop.load()) {
            S->stop = 1;
            r.complete = false;
        }
        if (alive > 0 && bad < 0) usleep(3000);
    }
    Seq* fq = nullptr;
    if (bad >= 0) {
        fq = new Seq;
        fq->len = S->slot[bad].cur.len;
        memcpy(fq->c, S->slot[bad].cur.c, fq->len);
        memcpy(fq->n, S->slot[bad].cur.n, fq->len);
        for (int i = 0; i < nw; ++i)
            if (pid[i] > 0) {
                kill(pid[i], SIGKILL);
                int st;
                waitpid(pid[i], &st, 0);
            }
        r.complete = false;
    }
    for (int i = 0; i < nw; ++i) {
        auto& sl = S->slot[i];
        r.execs += sl.execs;
        r.steps += sl.steps;
        r.points += sl.points;
        r.maxdepth = std::max(r.maxdepth, sl.maxdepth.load());
    }
    r.states = S->states;
    r.outcomes = S->outcomes;
    r.wall = now() - t0;
    if (bad >= 0) {
        std::string f = write_replay(s, *fq, b, "violation");
        std::string out;
        int confirmed = 0;
        for (int k = 0; k < 3 && !confirmed; ++k) {
            out.clear();
            int st = run_replay(f, badhang ? 2 * s.hang_s : s.hang_s * 2, out);
            if (st == 79 || st == 78 || st == 127) continue; // divergence or internal error: not a verdict
            if (st != 0) {
                confirmed = 1;
                if (st == 2000) out += "\n(execution did not terminate)\n";
            }
        }
        if (confirmed) {
            r.violated = 1;
            r.replay = f;
            r.message = err;
            FILE* o = fopen(f.c_str(), "a");
            if (o) {
                fprintf(o, "message %s\n--- trace of the confirming replay ---\n%s\n", jesc(err).c_str(), out.c_str());
                fclose(o);
            }
            printf("suite %s: %s\n", s.name.c_str(), err.c_str());
            size_t cut = out.size() > 6000 ? out.size() - 6000 : 0;
            printf("%s\n", out.substr(cut).c_str());
        } else {
            r.unconfirmed = 1;
            printf("suite %s: unconfirmed failure (%s), worker log:\n", s.name.c_str(), err.c_str());
            fflush(stdout);
            if (FILE* l = fopen((outdir + "/worker-" + std::to_string(bad) + ".log").c_str(), "r")) {
                char buf[4096];
                size_t n = fread(buf, 1, sizeof buf, l);
                fwrite(buf, 1, n, stdout);
                fclose(l);
            }
            printf("%s\n", out.substr(0, 4000).c_str());
        }
    }
    // samples: replay with tracing
    if (bad < 0)
        for (int k = 0; k < std::min(3, S->nsample.load()); ++k) {
            std::string f = write_replay(s, S->sample[k], b, "sample");
            std::string out;
            run_replay(f, s.hang_s * 2, out);
            if (out.size() > 1500) out = out.substr(0, 1500) + "...";
            r.samples.push_back(s.name + ": " + out);
            unlink(f.c_str());
        }
    delete fq;
    return r;
}

inline std::vector<Suite>& suites() {
    static std::vector<Suite> v;
    return v;
}
struct Reg {
    Reg(Suite s) { suites().push_back(std::move(s)); }
};

inline int replay(const char* file) {
    FILE* f = fopen(file, "r");
    if (!f) return 127;
    char* line = nullptr;
    size_t cap = 0;
    std::string suite, choices, tier;
    while (getline(&line, &cap, f) > 0) {
        if (!strncmp(line, "suite ", 6)) suite = std::string(line + 6), suite.erase(suite.find_last_not_of("\r\n") + 1);
        if (!strncmp(line, "tier ", 5)) tier = std::string(line + 5), tier.erase(tier.find_last_not_of("\r\n") + 1);
        if (!strncmp(line, "choices ", 8)) choices = line + 8;
        if (!strncmp(line, "message", 7)) break;
    }
    fclose(f);
    quick = tier != "thorough";
    replaying = tracing = true;
    trace_out = stdout;
    me = new Slot;
    const char* p = choices.c_str();
    while (*p && *p != '\n') {
        unsigned c, n;
        int used = 0;
        if (sscanf(p, "%u/%u%n", &c, &n, &used) != 2) break;
        E.st.push_back(Frame{ uint8_t(c), uint8_t(n), uint8_t(n), 0 });
        p += used;
        if (*p == ',') p++;
    }
    for (auto& s : suites())
        if (s.name == suite) {
            if (before_suite) {
                tracing = E.st.empty();
                before_suite(s);
                tracing = true;
            }
            run_one(s);
            printf("execution passed\n");
            fflush(stdout);
            _exit(0);
        }
    fprintf(stderr, "no suite %s\n", suite.c_str());
    return 127;
}

// usage: harness --property ID --tier quick|thorough --out DIR --json FILE [--suite NAME] [--jobs N]
inline int main(int argc, char** argv) {
    std::string json, only, known;
    int nw = 8;
    double capscale = 1;
    // deterministic addresses
    int pers = personality(0xffffffff);
    if (pers != -1 && !(pers & ADDR_NO_RANDOMIZE) && !getenv("MC_NOREEXEC")) {
        if (personality(unsigned(pers) | ADDR_NO_RANDOMIZE) != -1) {
            setenv("MC_NOREEXEC", "1", 1);
            execv(self_exe().c_str(), argv);
        }
    }
    struct rlimit rl = { 0, 0 };
    setrlimit(RLIMIT_CORE, &rl);
    for (int i = 1; i < argc; ++i) {
        std::string a = argv[i];
        auto val = [&] { return i + 1 < argc ? argv[++i] : (char*)""; };
        if (a == "--replay") return replay(val());
        else if (a == "--property") property_id = val();
        else if (a == "--tier") quick = std::string(val()) != "thorough";
        else if (a == "--out") outdir = val();
        else if (a == "--json") json = val();
        else if (a == "--suite") only = val();
        else if (a == "--known") known = "," + std::string(val()) + ","; // suites with a known finding: go on after them
        else if (a == "--jobs") nw = atoi(val());
        else if (a == "--cap-scale") capscale = atof(val());
        else if (a == "--list") {
            for (auto& s : suites()) printf("%s\n", s.name.c_str());
            return 0;
        }
    }
    nw = std::min(nw, MAXW);
    S = static_cast<Shared*>(mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
    if (S == MAP_FAILED) {
        perror("mmap");
        return 2;
    }
    std::vector<Result> all;
    double isolated_left = quick ? 200 : 3000;
    int rc = 0;
    for (auto& s : suites()) {
        if (!only.empty() && s.name.find(only) == std::string::npos) continue;
        if (quick && s.thorough_only && only.empty()) continue;
        double left = (quick ? s.quick_cap : s.thorough_cap) * capscale;
        auto& bs = quick ? s.quick : s.thorough;
        for (auto& b : bs) {
            if (left <= 0) break;
            Result r = explore(s, b, left, nw);
            if (r.unconfirmed && isolated_left > 0) {
                double t0 = now();
                isolate = true;
                r = explore(s, b, std::min(left, isolated_left), nw);
                isolate = false;
                isolated_left -= now() - t0;
            }
            left -= r.wall;
            printf("suite %-28s %-60s %s execs=%" PRIu64 " steps=%" PRIu64 " states=%" PRIu64 " outcomes=%" PRIu64 " maxchoices=%u %.1fs\n", s.name.c_str(),
                r.bound.c_str(), r.violated ? "VIOLATED" : r.complete ? "complete" : "capped", r.execs, r.steps, r.states, r.outcomes, r.maxdepth, r.wall);
            fflush(stdout);
            all.push_back(r);
            if (r.violated) {
                if (known.find("," + s.name + ",") == std::string::npos) rc = 1;
                break;
            }
            if (r.unconfirmed) {
                rc = 2;
                break;
            }
        }
        if (rc) break;
    }
    if (!json.empty()) {
        FILE* o = fopen(json.c_str(), "w");
        if (o) {
            fprintf(o, "{\"rc\":%d,\"suites\":[", rc);
            for (size_t i = 0; i < all.size(); ++i) {
                auto& r = all[i];
                fprintf(o,
                    "%s{\"suite\":\"%s\",\"bound\":\"%s\",\"complete\":%s,\"executions\":%" PRIu64 ",\"steps\":%" PRIu64 ",\"choice_points\":%" PRIu64 ",\"states\":%" PRIu64
                    ",\"outcomes\":%" PRIu64 ",\"max_choices\":%u,\"wall_s\":%.2f,\"violated\":%d,\"message\":\"%s\",\"replay\":\"%s\",\"samples\":[",
                    i ? "," : "", jesc(r.suite).c_str(), jesc(r.bound).c_str(), r.complete ? "true" : "false", r.execs, r.steps, r.points, r.states, r.outcomes, r.maxdepth, r.wall,
                    r.violated, jesc(r.message).c_str(), jesc(r.replay).c_str());
                for (size_t k = 0; k < r.samples.size(); ++k) fprintf(o, "%s\"%s\"", k ? "," : "", jesc(r.samples[k]).c_str());
                fprintf(o, "]}");
            }
            fprintf(o, "]}\n");
            fclose(o);
        }
    }
    return rc;
}

} // namespace mc

#define MC_SUITE(ident) static ::mc::Reg mc_reg_##ident = ::mc::Suite
