// Scheduler, clock, decisions, thread primitives.
#include "internal.h"
#include <cstdio>
#include <cstdarg>
#include <cstring>
#include <cstdlib>
#include <cerrno>
#include <ctime>
#include <climits>
#include <algorithm>
#include <unordered_map>
#include <dlfcn.h>
#include <unistd.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <linux/futex.h>
#include <sched.h>
#include <poll.h>

extern "C" {
void __tsan_acquire(void*) __attribute__((weak));
void __tsan_release(void*) __attribute__((weak));
void __tsan_write_range(void*, unsigned long) __attribute__((weak));
void __tsan_read_range(void*, unsigned long) __attribute__((weak));
void AnnotateIgnoreReadsBegin(const char*, int) __attribute__((weak));
void AnnotateIgnoreReadsEnd(const char*, int) __attribute__((weak));
void AnnotateIgnoreWritesBegin(const char*, int) __attribute__((weak));
void AnnotateIgnoreWritesEnd(const char*, int) __attribute__((weak));
void AnnotateIgnoreSyncBegin(const char*, int) __attribute__((weak));
void AnnotateIgnoreSyncEnd(const char*, int) __attribute__((weak));
}

namespace sim {

Rates rates{};
Shared* sh = nullptr;
const RunSpec* spec = nullptr;
bool verbose = false;
bool running = false;
__thread Thr* me = nullptr;
uint64_t now_ = 0;
uint32_t max_delay_level = 12;

static std::vector<std::unique_ptr<Thr>> thrs;
static std::vector<std::unique_ptr<Node>> nodes;
static Rng prng(1);
static bool faults = true;
static uint32_t sched_mode = 0, step_cost = 1000;
static int64_t real_jump = 0;
static std::unordered_map<uint32_t, Decision> replay_map;
static std::multimap<std::pair<uint64_t, uint64_t>, std::function<void()>> events;
static uint64_t ev_seq = 0;
static uint64_t step_limit = 1500000;
static std::unordered_map<pthread_t, Thr*> by_real;

const char* kind_name(int k) {
    static const char* n[] = {
#define X(n) #n,
        SIM_KINDS(X)
#undef X
    };
    return k >= 0 && k < K_COUNT ? n[k] : "?";
}

HB::HB() {
    if (AnnotateIgnoreReadsBegin) { AnnotateIgnoreReadsBegin("", 0); AnnotateIgnoreWritesBegin("", 0); AnnotateIgnoreSyncBegin("", 0); }
}
HB::~HB() {
    if (AnnotateIgnoreReadsBegin) { AnnotateIgnoreSyncEnd("", 0); AnnotateIgnoreWritesEnd("", 0); AnnotateIgnoreReadsEnd("", 0); }
}
void hb_release(void* p) { if (__tsan_release) __tsan_release(p); }
void hb_acquire(void* p) { if (__tsan_acquire) __tsan_acquire(p); }

void hb_write(void* p, size_t n) { if (__tsan_write_range) __tsan_write_range(p, n); }
void hb_read(const void* p, size_t n) { if (__tsan_read_range) __tsan_read_range((void*)p, n); }

static inline long rsys(long n, long a, long b, long c, long d, long e, long f) {
    long ret;
    register long r10 __asm__("r10") = d;
    register long r8 __asm__("r8") = e;
    register long r9 __asm__("r9") = f;
    __asm__ volatile("syscall" : "=a"(ret) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
    return ret;
}

[[noreturn]] void die(int status) {
    if (verbose) fflush(stderr);
    sh->sim_ns = now_;
    __atomic_store_n(&sh->status, status, __ATOMIC_SEQ_CST);
    rsys(SYS_exit_group, 0, 0, 0, 0, 0, 0);
    __builtin_unreachable();
}

void finish_ok() {
    if (verbose) fprintf(stderr, "[%12.6f] end of run, hash %016lx\n", now_ / 1e9, sh->hash);
    die(1);
}

bool deciding(const char* prop) { return spec->prop == prop; }

void violation(const char* prop, const char* sig, const char* fmt, ...) {
    static bool once = false;
    if (once) die(2);
    once = true;
    snprintf(sh->prop, sizeof sh->prop, "%s", prop);
    snprintf(sh->sig, sizeof sh->sig, "%s", sig);
    va_list ap; va_start(ap, fmt);
    vsnprintf(sh->msg, sizeof sh->msg, fmt, ap);
    va_end(ap);
    if (verbose) fprintf(stderr, "[%12.6f] VIOLATION %s %s: %s\n", now_ / 1e9, prop, sig, sh->msg);
    die(2);
}

// ---- log -----------------------------------------------------------------------------------------
static inline void mix(uint64_t v) { sh->hash = (sh->hash ^ v) * 0x100000001B3ull; sh->hash ^= sh->hash >> 29; }
void ev(uint32_t code, uint64_t a, uint64_t b, uint64_t c) {
    mix(code | (uint64_t(me ? me->id : 0xffff) << 32)); mix(now_); mix(a); mix(b); mix(c);
}
void evbytes(uint32_t code, const void* p, size_t n) {
    uint64_t h = 1469598103934665603ull;
    const unsigned char* q = (const unsigned char*)p;
    for (size_t i = 0; i < n; i++) h = (h ^ q[i]) * 0x100000001B3ull;
    ev(code, n, h);
}
void tr(const char* fmt, ...) {
    if (!verbose) return;
    fprintf(stderr, "[%12.6f] %-10s ", now_ / 1e9, me ? me->name.c_str() : "-");
    va_list ap; va_start(ap, fmt); vfprintf(stderr, fmt, ap); va_end(ap);
    fputc('\n', stderr);
}

// ---- decisions -------------------------------------------------------------------------------------
uint32_t choose(Kind k, uint32_t n) {
    if (n <= 1) return 0;
    if (!faults && k != K_SCHED && k != K_APP && k != K_WAKE_ORDER) return 0;
    uint32_t idx = sh->nchoices++;
    sh->asked[k]++;
    uint32_t v = 0;
    if (spec->is_replay) {
        auto it = replay_map.find(idx);
        if (it != replay_map.end() && it->second.kind == k) v = it->second.val < n ? it->second.val : n - 1;
    } else {
        uint64_t r = prng.next();
        if (rates.ppm[k] && (r % 1000000) < rates.ppm[k]) v = 1 + (uint32_t)((r >> 24) % (n - 1));
    }
    if (v) {
        sh->fired[k]++;
        if (sh->ndec < Shared::MAXDEC) sh->dec[sh->ndec++] = Decision{idx, (uint16_t)k, (uint16_t)v};
        if (verbose && k != K_SCHED) tr("  fault %s=%u (choice %u)", kind_name(k), v, idx);
    }
    return v;
}
void set_faults(bool on) { faults = on; ev(2, on); tr("faults %s", on ? "on" : "off"); }
bool faults_on() { return faults; }
bool op_enabled(uint32_t i) { return i >= spec->opmask.size() || !spec->opmask[i]; }
void set_sched(uint32_t mode, uint32_t step_ns) { sched_mode = mode; step_cost = step_ns; }
uint32_t step_ns() { return step_cost; }

// ---- basics -----------------------------------------------------------------------------------------
Thr* thr(int id) { return thrs[id].get(); }
Node* node(int id) { return nodes[id].get(); }
int nnodes() { return (int)nodes.size(); }
int self() { return me ? me->id : -1; }
int self_node() { return me ? me->node : -1; }
uint64_t now() { return now_; }
uint64_t mono_now() { return 1000000000000ull + now_; }
int64_t real_now() { return 1700000000000000000ll + (int64_t)now_ + real_jump; }
void realtime_jump(int64_t ns) { real_jump += ns; ev(3, (uint64_t)ns); tr("wall clock jumps by %.3f s", ns / 1e9); }
std::string node_ip(int n) { return "10.0.0." + std::to_string(n + 1); }

int node_new(const char* name) {
    auto n = std::make_unique<Node>();
    n->id = (int)nodes.size(); n->name = name;
    nodes.push_back(std::move(n));
    return (int)nodes.size() - 1;
}

void at(uint64_t when, std::function<void()> fn) { events.emplace(std::make_pair(std::max(when, now_), ev_seq++), std::move(fn)); }

uint64_t delay_level(uint32_t v) {
    static const uint64_t t[] = {0, 30000, 300000, 1000000, 10000000, 50000000, 200000000, 700000000, 1500000000, 1950000000,
                                 2050000000, 2900000000ull, 3100000000ull, 5000000000ull, 9000000000ull};
    return t[std::min<uint32_t>(v, 14)];
}

void attach(const RunSpec& rs, Shared* shared, bool v) {
    spec = &rs; sh = shared; verbose = v;
    sh->hash = 1469598103934665603ull ^ rs.seed;
    prng = Rng(rs.seed ^ 0xD15EA5Eull);
    replay_map.clear();
    for (auto& d : rs.replay) replay_map[d.idx] = d;
}

void start() {
    if (nodes.empty()) node_new("director");
    auto t = std::make_unique<Thr>();
    t->id = 0; t->name = "director"; t->turn = 1; t->real = pthread_self();
    me = t.get();
    by_real[t->real] = t.get();
    thrs.push_back(std::move(t));
    running = true;
}

// ---- scheduler -----------------------------------------------------------------------------------------
static void baton_wait(Thr* t) {
    while (__atomic_load_n(&t->turn, __ATOMIC_ACQUIRE) == 0)
        rsys(SYS_futex, (long)&t->turn, FUTEX_WAIT | FUTEX_PRIVATE_FLAG, 0, 0, 0, 0);
}
static void baton_give(Thr* t) {
    __atomic_store_n(&t->turn, 1, __ATOMIC_RELEASE);
    rsys(SYS_futex, (long)&t->turn, FUTEX_WAKE | FUTEX_PRIVATE_FLAG, 1, 0, 0, 0);
}

static void fire_events() {
    while (!events.empty() && events.begin()->first.first <= now_) {
        auto fn = std::move(events.begin()->second);
        events.erase(events.begin());
        fn();
    }
}

[[noreturn]] static void deadlock() {
    std::string s;
    for (auto& t : thrs) if (t->st == T_BLOCKED) { s += t->name + " waits for " + t->why + "; "; }
    violation(spec->prop.c_str(), "deadlock", "all threads wait forever: %s", s.c_str());
}

// pick the next thread to run; the caller holds the baton and its own state is up to date
static Thr* pick0() {
    static std::vector<Thr*> r;
    for (;;) {
        fire_events();
        r.clear();
        for (auto& up : thrs) {
            Thr* t = up.get();
            if (t->stall_until > now_) continue;
            if (t->st == T_RUN || (t->st == T_BLOCKED && ((t->pred && (*t->pred)()) || t->deadline <= now_))) r.push_back(t);
        }
        if (!r.empty()) break;
        uint64_t nx = ~0ull;
        if (!events.empty()) nx = events.begin()->first.first;
        for (auto& t : thrs) {
            if (t->st == T_BLOCKED) {
                uint64_t d = t->deadline;
                if (t->stall_until > now_) { if (d != ~0ull) d = std::max(d, t->stall_until); else d = t->stall_until; }
                nx = std::min(nx, d);
            }
            if (t->st == T_RUN && t->stall_until > now_) nx = std::min(nx, t->stall_until);
        }
        if (nx == ~0ull) deadlock();
        now_ = std::max(nx, now_ + 1);
    }
    if (r.size() == 1) return r[0];
    // order: the default choice first
    if (sched_mode == 1) {
        std::stable_sort(r.begin(), r.end(), [](Thr* a, Thr* b) { return a->prio > b->prio; });
        if (me && me->streak > 150 && r[0] == me) std::rotate(r.begin(), r.begin() + 1, r.end());
    } else {
        auto it = std::find(r.begin(), r.end(), me);
        if (it != r.end()) std::rotate(r.begin(), it, r.end());
        if (it != r.end() && me->streak > 150) std::rotate(r.begin(), r.begin() + 1, r.end());
    }
    return r[choose(K_SCHED, (uint32_t)r.size())];
}

static Thr* pick() {
    Thr* t = pick0();
    if (t->st == T_BLOCKED) { t->timed_out = !(t->pred && (*t->pred)()); t->st = T_RUN; }   // its condition holds when it runs
    return t;
}

static void switch_to(Thr* n, bool wait_back) {
    Thr* self = me;
    if (n == self) { self->streak++; return; }
    sh->switches++;
    sh->sched_hash = (sh->sched_hash ^ (uint64_t)(n->id + 1)) * 0x100000001B3ull;
    n->streak = 0;
    __atomic_store_n(&self->turn, 0, __ATOMIC_RELEASE);
    baton_give(n);
    if (wait_back) baton_wait(self);
}

void point(uint32_t code, uint64_t a, uint64_t b) {
    if (!me || !running) return;
    HB hb;
    sh->steps++;
    me->points++;
    now_ += step_cost;
    ev(code, a, b);
    if (sh->steps > step_limit) violation(spec->prop.c_str(), "no-progress", "the run made %lu steps without coming to an end (thread %s, node %d)", sh->steps, me->name.c_str(), me->node);
    if (me->id != 0 && me->node != 0) {
        uint32_t s = choose(K_STALL, 13);
        if (s) { me->stall_until = now_ + delay_level(s); me->stalled += delay_level(s); }
    }
    switch_to(pick(), true);
}

bool block(const std::function<bool()>& pred, uint64_t deadline, const char* why) {
    HB hb;
    sh->steps++;
    me->points++;
    now_ += step_cost;
    me->st = T_BLOCKED; me->pred = &pred; me->deadline = deadline; me->why = why;
    switch_to(pick(), true);
    me->pred = nullptr; me->deadline = ~0ull; me->why = "";
    ev(4, me->timed_out);
    return !me->timed_out;
}

void sleep_ns(uint64_t ns) { static const std::function<bool()> never = [] { return false; }; me->spin_n = 0; block(never, now_ + ns, "sleep"); }
void yield() { point(5); }
// an application that waits for its own threads is synchronised with them
static void hb_joined() {
    if (!__tsan_acquire) return;
    for (auto& t : thrs) if (t->user && t->st == T_DONE) hb_acquire(t.get());
}
bool wait_until(const std::function<bool()>& pred, uint64_t timeout, const char* why) {
    bool ok = pred() || block(pred, timeout == ~0ull ? ~0ull : now_ + timeout, why);
    hb_joined();
    return ok;
}

void spin_note(bool useless) {
    if (!useless) { me->spin_n = 0; return; }
    if (me->spin_n == 0 || now_ - me->spin_t0 > 200000000ull * (1 + me->spin_n / 500)) { me->spin_t0 = now_; me->spin_n = 0; }
    if (++me->spin_n >= 500) {
        if (me->spin_n == 500) { node(me->node)->spin++; tr("thread spins"); }
        now_ += 1000000;                       // do not burn real time on it
    }
}
uint64_t spin_hits(int n) { return nodes[n]->spin; }
uint64_t stalled_ns(int n) { uint64_t c = 0; for (auto& t : thrs) if (t->node == n) c += t->stalled; return c; }
uint64_t thread_cpu_points(int t) { return thrs[t]->points; }
const char* waiting_in(int t) { return thrs[t]->st == T_BLOCKED ? thrs[t]->why : ""; }

static void* trampoline(void* p) {
    Thr* t = (Thr*)p;
    me = t;
    baton_wait(t);
    void* r = nullptr;
    if (t->app) t->app();
    else r = t->fn(t->arg);
    if (t->user) hb_release(t);
    HB* hb = new HB;
    t->ret = r;
    t->st = T_DONE;
    ev(6, t->id);
    tr("thread ends");
    Thr* n = pick();
    sh->switches++;
    n->streak = 0;
    delete hb;
    me = nullptr;
    baton_give(n);
    return r;
}

typedef int (*pc_t)(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*);
static pc_t real_pthread_create() { static pc_t f = (pc_t)dlsym(RTLD_NEXT, "pthread_create"); return f; }

int sim_pthread_create(pthread_t* pt, const pthread_attr_t* attr, void* (*fn)(void*), void* arg, bool lib, const char* name, int nd, std::function<void()> app) {
    Thr* t;
    {
        HB hb;
        auto up = std::make_unique<Thr>();
        t = up.get();
        t->id = (int)thrs.size(); t->node = nd; t->fn = fn; t->arg = arg; t->lib = lib; t->user = app && !pt; t->app = std::move(app);
        t->name = name ? name : (nodes[nd]->name + ".t" + std::to_string(t->id));
        Rng r(spec->seed * 1000003 + t->id);
        t->prio = (uint32_t)r.below(1000000);
        thrs.push_back(std::move(up));
        if (attr) { int ds = 0; pthread_attr_getdetachstate(attr, &ds); t->detached = ds == PTHREAD_CREATE_DETACHED; }
    }
    int rc = real_pthread_create()(&t->real, attr, &trampoline, t);
    if (rc) { fprintf(stderr, "sim: real pthread_create failed %d\n", rc); die(3); }
    {
        HB hb;
        by_real[t->real] = t;
        if (pt) *pt = t->real;
        tr("starts thread %s", t->name.c_str());
    }
    point(7, t->id);
    return 0;
}

int spawn(int nd, const char* name, std::function<void()> fn) {
    int id = (int)thrs.size();
    sim_pthread_create(nullptr, nullptr, nullptr, nullptr, false, name, nd, std::move(fn));
    return id;
}
bool finished(int t) { return thrs[t]->st == T_DONE || thrs[t]->st == T_FROZEN; }
void join(int t) { block([t] { return finished(t); }, ~0ull, "app thread"); hb_joined(); }
int live_threads(int n) {
    int c = 0;
    for (auto& t : thrs) if (t->node == n && t->lib && (t->st == T_RUN || t->st == T_BLOCKED)) c++;
    return c;
}
std::vector<int> node_threads(int n) { std::vector<int> v; for (auto& t : thrs) if (t->node == n) v.push_back(t->id); return v; }

void crash_node(int n, bool rst) {
    sh->crashes++;
    ev(8, n, rst);
    tr("node %s crashes", nodes[n]->name.c_str());
    nodes[n]->alive = false;
    for (auto& t : thrs) if (t->node == n && t->st != T_DONE) t->st = T_FROZEN;
    net_crash_node(n, rst);
    nats_crash_node(n);
    if (me && me->node == n) { switch_to(pick(), true); }
}

// ---- partitions ----
static std::map<std::pair<int, int>, bool> parts;
void partition(int a, int b, bool on) { parts[{std::min(a, b), std::max(a, b)}] = on; if (on) sh->partitions++; ev(9, a, b, on); tr("partition %d %d %s", a, b, on ? "on" : "off"); }
void heal() { parts.clear(); ev(10); tr("partitions healed"); }
bool partitioned(int a, int b) {
    if (parts.empty()) return false;
    auto q = [](int x, int y) { auto it = parts.find({std::min(x, y), std::max(x, y)}); return it != parts.end() && it->second; };
    return q(a, b) || q(-1, a) || q(-1, b);
}

static Thr* find_real(pthread_t p) { auto it = by_real.find(p); return it == by_real.end() ? nullptr : it->second; }

// ---- mutex: the state lives in the object itself (0 = unlocked), so static and trivially destroyed ones work --------
static int mx_lock(pthread_mutex_t* m, uint64_t deadline, bool try_only) {
    auto& d = m->__data;
    point(20, (uint64_t)0);
    HB hb;
    if (d.__lock && d.__owner == me->id + 1) {
        if ((d.__kind & 3) == PTHREAD_MUTEX_RECURSIVE_NP) { d.__count++; return 0; }
        if (try_only) return EBUSY;
        if ((d.__kind & 3) == PTHREAD_MUTEX_ERRORCHECK_NP) return EDEADLK;
    }
    if (d.__lock) {
        if (try_only) return EBUSY;
        bool ok = block([&d] { return d.__lock == 0; }, deadline, "mutex");
        if (!ok) return ETIMEDOUT;
    }
    d.__lock = 1; d.__owner = me->id + 1; d.__count = 1;
    return 0;
}
static int mx_unlock(pthread_mutex_t* m) {
    auto& d = m->__data;
    {
        HB hb;
        if (!d.__lock || d.__owner != me->id + 1) {
            if (verbose) tr("unlock of a mutex not owned");
            violation(spec->prop.c_str(), "bad-unlock", "thread %s unlocks a mutex it does not own", me->name.c_str());
        }
        if ((d.__kind & 3) == PTHREAD_MUTEX_RECURSIVE_NP && --d.__count > 0) return 0;
        d.__lock = 0; d.__owner = 0; d.__count = 0;
    }
    point(21);
    return 0;
}

static uint64_t to_deadline(clockid_t c, const timespec* ts) {
    if (!ts) return ~0ull;
    __int128 t = (__int128)ts->tv_sec * 1000000000 + ts->tv_nsec;
    __int128 n = c == CLOCK_REALTIME ? (__int128)real_now() : (__int128)mono_now();
    __int128 d = t - n;
    if (d <= 0) return now_;
    if (d > (__int128)1000000000000000000ll) return ~0ull - 1;
    return now_ + (uint64_t)d;
}

static int cond_wait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t clk, const timespec* ts) {
    HB* hb = new HB;
    me->wobj = c; me->woken = false;
    uint64_t dl = to_deadline(clk, ts);
    auto& d = m->__data;
    if (!d.__lock || d.__owner != me->id + 1) violation(spec->prop.c_str(), "cond-without-lock", "thread %s waits on a condition without holding the mutex", me->name.c_str());
    delete hb;
    hb_release(m);
    hb = new HB;
    d.__lock = 0; d.__owner = 0; d.__count = 0;
    uint64_t spur = ~0ull;
    if (uint32_t s = choose(K_SPURIOUS, 10)) spur = now_ + delay_level(s);
    Thr* t = me;
    bool ok = block([t, spur] { return t->woken || now_ >= spur; }, std::min(dl, spur), "condition");
    (void)ok;
    bool timed = !t->woken && now_ >= dl;
    t->wobj = nullptr;
    if (d.__lock) block([&d] { return d.__lock == 0; }, ~0ull, "mutex (after condition)");
    d.__lock = 1; d.__owner = me->id + 1; d.__count = 1;
    delete hb;
    hb_acquire(m);
    return timed ? ETIMEDOUT : 0;
}
static void cond_wake(pthread_cond_t* c, bool all) {
    HB hb;
    std::vector<Thr*> w;
    for (auto& t : thrs) if (t->wobj == c && !t->woken && t->st == T_BLOCKED) w.push_back(t.get());
    if (!w.empty()) {
        if (all) for (auto* t : w) t->woken = true;
        else w[choose(K_WAKE_ORDER, (uint32_t)w.size())]->woken = true;
    }
}

static long futex(uint32_t* addr, int op, uint32_t val, const timespec* ts, uint32_t) {
    int cmd = op & FUTEX_CMD_MASK;
    if (cmd == FUTEX_WAIT || cmd == FUTEX_WAIT_BITSET) {
        point(22);
        HB hb;
        if (__atomic_load_n(addr, __ATOMIC_SEQ_CST) != val) { errno = EAGAIN; return -1; }
        uint64_t dl = ~0ull;
        if (ts) {
            if (cmd == FUTEX_WAIT) dl = now_ + (uint64_t)ts->tv_sec * 1000000000ull + ts->tv_nsec;
            else dl = to_deadline((op & FUTEX_CLOCK_REALTIME) ? CLOCK_REALTIME : CLOCK_MONOTONIC, ts);
        }
        me->wobj = addr; me->woken = false;
        Thr* t = me;
        block([t] { return t->woken; }, dl, "futex");
        t->wobj = nullptr;
        if (!t->woken) { errno = ETIMEDOUT; return -1; }
        return 0;
    }
    if (cmd == FUTEX_WAKE || cmd == FUTEX_WAKE_BITSET) {
        long n = 0;
        {
            HB hb;
            for (auto& t : thrs) {
                if (n >= (long)(int)val) break;
                if (t->wobj == addr && !t->woken && t->st == T_BLOCKED) { t->woken = true; n++; }
            }
        }
        point(23);
        return n;
    }
    errno = ENOSYS;
    return -1;
}

} // namespace sim

// =====================================================================================================
// interposed libc / pthread symbols.  Threads that are not simulated pass through.
using namespace sim;
#define REAL(name) ((decltype(&name))dlsym(RTLD_NEXT, #name))
#define SIM (me != nullptr && running)
#define EXP extern "C" __attribute__((visibility("default")))

EXP int pthread_create(pthread_t* t, const pthread_attr_t* a, void* (*fn)(void*), void* arg) {
    if (!SIM) return real_pthread_create()(t, a, fn, arg);
    if (choose(K_THREAD_FAIL, 2)) { point(30); return EAGAIN; }
    return sim_pthread_create(t, a, fn, arg, true, nullptr, me->node, {});
}
EXP int pthread_join(pthread_t p, void** ret) {
    static auto f = REAL(pthread_join);
    if (!SIM) return f(p, ret);
    Thr* t;
    { HB hb; t = find_real(p); }
    if (!t) return f(p, ret);
    if (t == me) return EDEADLK;
    point(31, t->id);
    if (t->st != T_DONE) { HB hb; block([t] { return t->st == T_DONE; }, ~0ull, "thread join"); }
    t->joined = true;
    return f(p, ret);
}
EXP int pthread_detach(pthread_t p) {
    static auto f = REAL(pthread_detach);
    if (SIM) { HB hb; if (Thr* t = find_real(p)) t->detached = true; }
    return f(p);
}
EXP int pthread_mutex_init(pthread_mutex_t* m, const pthread_mutexattr_t* a) {
    static auto f = REAL(pthread_mutex_init);
    return f(m, a);
}
EXP int pthread_mutex_destroy(pthread_mutex_t* m) {
    static auto f = REAL(pthread_mutex_destroy);
    if (!SIM) return f(m);
    if (m->__data.__lock) violation(spec->prop.c_str(), "destroy-locked-mutex", "a locked mutex is destroyed");
    return 0;
}
EXP int pthread_mutex_lock(pthread_mutex_t* m) {
    static auto f = REAL(pthread_mutex_lock);
    if (!SIM) return f(m);
    int r = mx_lock(m, ~0ull, false);
    if (!r) hb_acquire(m);
    return r;
}
EXP int pthread_mutex_trylock(pthread_mutex_t* m) {
    static auto f = REAL(pthread_mutex_trylock);
    if (!SIM) return f(m);
    int r = mx_lock(m, ~0ull, true);
    if (!r) hb_acquire(m);
    return r;
}
EXP int pthread_mutex_timedlock(pthread_mutex_t* m, const timespec* ts) {
    static auto f = REAL(pthread_mutex_timedlock);
    if (!SIM) return f(m, ts);
    int r = mx_lock(m, to_deadline(CLOCK_REALTIME, ts), false);
    if (!r) hb_acquire(m);
    return r;
}
EXP int pthread_mutex_clocklock(pthread_mutex_t* m, clockid_t c, const timespec* ts) {
    static auto f = REAL(pthread_mutex_clocklock);
    if (!SIM) return f(m, c, ts);
    int r = mx_lock(m, to_deadline(c, ts), false);
    if (!r) hb_acquire(m);
    return r;
}
EXP int pthread_mutex_unlock(pthread_mutex_t* m) {
    static auto f = REAL(pthread_mutex_unlock);
    if (!SIM) return f(m);
    hb_release(m);
    return mx_unlock(m);
}
// read-write locks (std::shared_mutex): the state is kept in the object itself, all zero when free
static int rw_lock(pthread_rwlock_t* l, bool write, uint64_t deadline, bool try_only) {
    auto& d = l->__data;
    point(20, (uint64_t)1);
    {
        HB hb;
        auto free_ = [&d, write] { return d.__writers == 0 && (!write || d.__readers == 0); };
        if (!free_()) {
            if (try_only) return EBUSY;
            if (d.__writers && d.__cur_writer == (int)me->id + 1) return EDEADLK;
            if (!block(free_, deadline, "read-write lock")) return ETIMEDOUT;
        }
        if (write) { d.__writers = 1; d.__cur_writer = (int)me->id + 1; } else d.__readers++;
    }
    hb_acquire(l);
    return 0;
}
EXP int pthread_rwlock_destroy(pthread_rwlock_t* l) {
    static auto f = REAL(pthread_rwlock_destroy);
    if (!SIM) return f(l);
    if (l->__data.__readers || l->__data.__writers) violation(spec->prop.c_str(), "destroy-locked-rwlock", "a locked read-write lock is destroyed");
    return 0;
}
EXP int pthread_rwlock_rdlock(pthread_rwlock_t* l) { static auto f = REAL(pthread_rwlock_rdlock); return SIM ? rw_lock(l, false, ~0ull, false) : f(l); }
EXP int pthread_rwlock_wrlock(pthread_rwlock_t* l) { static auto f = REAL(pthread_rwlock_wrlock); return SIM ? rw_lock(l, true, ~0ull, false) : f(l); }
EXP int pthread_rwlock_tryrdlock(pthread_rwlock_t* l) { static auto f = REAL(pthread_rwlock_tryrdlock); return SIM ? rw_lock(l, false, ~0ull, true) : f(l); }
EXP int pthread_rwlock_trywrlock(pthread_rwlock_t* l) { static auto f = REAL(pthread_rwlock_trywrlock); return SIM ? rw_lock(l, true, ~0ull, true) : f(l); }
EXP int pthread_rwlock_timedrdlock(pthread_rwlock_t* l, const timespec* t) { static auto f = REAL(pthread_rwlock_timedrdlock); return SIM ? rw_lock(l, false, to_deadline(CLOCK_REALTIME, t), false) : f(l, t); }
EXP int pthread_rwlock_timedwrlock(pthread_rwlock_t* l, const timespec* t) { static auto f = REAL(pthread_rwlock_timedwrlock); return SIM ? rw_lock(l, true, to_deadline(CLOCK_REALTIME, t), false) : f(l, t); }
EXP int pthread_rwlock_clockrdlock(pthread_rwlock_t* l, clockid_t c, const timespec* t) { static auto f = REAL(pthread_rwlock_clockrdlock); return SIM ? rw_lock(l, false, to_deadline(c, t), false) : f(l, c, t); }
EXP int pthread_rwlock_clockwrlock(pthread_rwlock_t* l, clockid_t c, const timespec* t) { static auto f = REAL(pthread_rwlock_clockwrlock); return SIM ? rw_lock(l, true, to_deadline(c, t), false) : f(l, c, t); }
EXP int pthread_rwlock_unlock(pthread_rwlock_t* l) {
    static auto f = REAL(pthread_rwlock_unlock);
    if (!SIM) return f(l);
    hb_release(l);
    {
        HB hb;
        auto& d = l->__data;
        if (d.__writers) {
            if (d.__cur_writer != (int)me->id + 1) violation(spec->prop.c_str(), "bad-unlock", "thread %s unlocks a read-write lock it does not own", me->name.c_str());
            d.__writers = 0; d.__cur_writer = 0;
        } else if (d.__readers) d.__readers--;
        else violation(spec->prop.c_str(), "bad-unlock", "thread %s unlocks a read-write lock nobody holds", me->name.c_str());
    }
    point(21);
    return 0;
}
EXP int pthread_cond_init(pthread_cond_t* c, const pthread_condattr_t* a) { static auto f = REAL(pthread_cond_init); return f(c, a); }
EXP int pthread_cond_destroy(pthread_cond_t* c) { static auto f = REAL(pthread_cond_destroy); if (!SIM) return f(c); return 0; }
EXP int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) {
    static auto f = REAL(pthread_cond_wait);
    if (!SIM) return f(c, m);
    return cond_wait(c, m, CLOCK_MONOTONIC, nullptr);
}
EXP int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const timespec* ts) {
    static auto f = REAL(pthread_cond_timedwait);
    if (!SIM) return f(c, m, ts);
    return cond_wait(c, m, CLOCK_REALTIME, ts);
}
EXP int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t k, const timespec* ts) {
    static auto f = REAL(pthread_cond_clockwait);
    if (!SIM) return f(c, m, k, ts);
    return cond_wait(c, m, k, ts);
}
EXP int pthread_cond_signal(pthread_cond_t* c) {
    static auto f = REAL(pthread_cond_signal);
    if (!SIM) return f(c);
    point(24); cond_wake(c, false); point(25);
    return 0;
}
EXP int pthread_cond_broadcast(pthread_cond_t* c) {
    static auto f = REAL(pthread_cond_broadcast);
    if (!SIM) return f(c);
    point(24); cond_wake(c, true); point(25);
    return 0;
}
EXP int pthread_once(pthread_once_t* o, void (*fn)(void)) {
    static auto f = REAL(pthread_once);
    if (!SIM) return f(o, fn);
    for (;;) {
        int v = __atomic_load_n(o, __ATOMIC_ACQUIRE);
        if (v == 2) { hb_acquire(o); return 0; }
        if (v == 0) {
            __atomic_store_n(o, 1, __ATOMIC_RELEASE);
            try { fn(); }
            catch (...) { __atomic_store_n(o, 0, __ATOMIC_RELEASE); throw; }
            hb_release(o);
            __atomic_store_n(o, 2, __ATOMIC_RELEASE);
            point(26);
            return 0;
        }
        HB hb;
        block([o] { return *(volatile int*)o != 1; }, ~0ull, "once");
    }
}
// fixed arguments instead of "...": the registers are simply passed on
EXP long vsim_syscall(long n, long a0, long a1, long a2, long a3, long a4, long a5) noexcept __asm__("syscall");
EXP long vsim_syscall(long n, long a0, long a1, long a2, long a3, long a4, long a5) noexcept {
    long a[6] = {a0, a1, a2, a3, a4, a5};
    if (SIM) {
        if (n == SYS_futex) return futex((uint32_t*)a[0], (int)a[1], (uint32_t)a[2], (const timespec*)a[3], (uint32_t)a[5]);
        if (n == SYS_clock_gettime) return clock_gettime((clockid_t)a[0], (timespec*)a[1]);
    }
    long r = rsys(n, a[0], a[1], a[2], a[3], a[4], a[5]);
    if (r < 0 && r > -4096) { errno = (int)-r; return -1; }
    return r;
}

EXP int clock_gettime(clockid_t c, timespec* ts) noexcept {
    if (!SIM) {
        if (!sim::sh) { // static initialisation and set-up: a fixed time, so that runs do not depend on it
            if (c == CLOCK_REALTIME || c == CLOCK_MONOTONIC) { ts->tv_sec = 1600000000; ts->tv_nsec = 42; return 0; }
        }
        long r = rsys(SYS_clock_gettime, c, (long)ts, 0, 0, 0, 0);
        if (r < 0) { errno = (int)-r; return -1; }
        return 0;
    }
    now_ += 20;
    if (c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE) {
        int64_t t = real_now();
        ts->tv_sec = t / 1000000000; ts->tv_nsec = t % 1000000000;
    } else {
        uint64_t t = mono_now();
        ts->tv_sec = t / 1000000000; ts->tv_nsec = t % 1000000000;
    }
    return 0;
}
EXP int gettimeofday(struct timeval* tv, void*) noexcept {
    timespec ts; clock_gettime(CLOCK_REALTIME, &ts);
    tv->tv_sec = ts.tv_sec; tv->tv_usec = ts.tv_nsec / 1000;
    return 0;
}
EXP time_t time(time_t* t) noexcept {
    timespec ts; clock_gettime(CLOCK_REALTIME, &ts);
    if (t) *t = ts.tv_sec;
    return ts.tv_sec;
}
EXP int nanosleep(const timespec* r, timespec* rem) {
    static auto f = REAL(nanosleep);
    if (!SIM) return f(r, rem);
    sleep_ns((uint64_t)r->tv_sec * 1000000000ull + r->tv_nsec);
    return 0;
}
EXP int clock_nanosleep(clockid_t c, int flags, const timespec* r, timespec* rem) {
    static auto f = REAL(clock_nanosleep);
    if (!SIM) return f(c, flags, r, rem);
    if (flags & TIMER_ABSTIME) { uint64_t d = to_deadline(c, r); sleep_ns(d > now_ ? d - now_ : 0); }
    else sleep_ns((uint64_t)r->tv_sec * 1000000000ull + r->tv_nsec);
    return 0;
}
EXP int usleep(useconds_t u) { if (!SIM) { static auto f = REAL(usleep); return f(u); } sleep_ns((uint64_t)u * 1000); return 0; }
EXP unsigned sleep(unsigned s) { if (!SIM) { static auto f = REAL(sleep); return f(s); } sleep_ns((uint64_t)s * 1000000000ull); return 0; }
EXP int sched_yield() noexcept { if (!SIM) { rsys(SYS_sched_yield, 0, 0, 0, 0, 0, 0); return 0; } point(27); spin_note(true); return 0; }
