// Deterministic simulation runtime.  Real OS threads are parked and released one
// at a time; every synchronisation call of the code under test comes through here.
#include "rt.h"

#include <algorithm>
#include <atomic>
#include <cerrno>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cxxabi.h>
#include <dlfcn.h>
#include <exception>
#include <link.h>
#include <linux/futex.h>
#include <map>
#include <pthread.h>
#include <semaphore.h>
#include <sched.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/random.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <time.h>
#include <typeinfo>
#include <ucontext.h>
#include <unistd.h>
#include <unordered_map>

extern "C" char __data_start[], _end[];
extern "C" void* __libc_malloc(size_t);
extern "C" void __libc_free(void*);
extern "C" void* __libc_calloc(size_t, size_t);
extern "C" void* __libc_realloc(void*, size_t);
extern "C" void* __libc_memalign(size_t, size_t);

namespace rt {

const char* const fault_names[F_NCLASS] = {
    "open_error", "write_error", "short_write", "write_eintr", "mkdir_error", "stat_error",
    "unlink_error", "readdir_error", "alloc_failure", "thread_create_failure", "compress_failure",
    "s3_request_error", "s3_response_lost", "s3_connection_dead", "disk_full", "spurious_wakeup", "process_crash", "lost_or_torn_file"
};
const char* const counter_names[C_NCOUNTER] = {
    "steps", "context_switches", "decisions", "threads", "mutex_ops", "cond_ops", "futex_ops", "atomic_ops",
    "fs_ops", "s3_requests", "log_lines", "allocations", "memory_accesses", "simulated_us", "appends",
    "appends_failed", "creates", "creates_failed", "chunks_checked", "crash_points_checked",
    "small_blocks_failed", "out_of_memory_ends"
};

Result* R = nullptr;
Cfg cfg;
bool tracing = false;
static FILE* trace_file = nullptr;
std::function<void()> on_crash;

enum { MAXT = 64 };
static const uptr HEAP = 0x200000000000ull;
static const uptr HEAP_SIZE = 64ull << 30;
static const uptr STACKS = 0x300000000000ull;
static const uptr STACK_SIZE = 2ull << 20;
static const uptr STACKS_SIZE = STACK_SIZE * MAXT;
static const uptr SH_ADDR = 0x310000000000ull;  // heap addressability, 1 byte per 8
static const uptr SH_RACE_H = 0x400000000000ull; // race cells, 48 bytes per 8
static const uptr SH_RACE_S = 0x480000000000ull;
static const uptr SH_RACE_G = 0x490000000000ull;

struct VC
{
    uint32_t c[MAXT] = {};
    void join(const VC& o)
    {
        for (int i = 0; i < MAXT; ++i)
            if (o.c[i] > c[i]) c[i] = o.c[i];
    }
};

enum TState { T_RUN, T_BLOCKED, T_DONE };

struct Thr
{
    int tid;
    int rt;      // >0: harness or runtime code
    TState state;
    int wait_kind;
    uptr wait_obj;
    uint64_t deadline; // 0 none
    bool timed_out;
    bool signalled;
    std::atomic<int> token;
    VC vc, acq_pending, rel_fence;
    bool have_rel_fence;
    uptr stack_lo, stack_hi, parked_sp;
    pthread_t handle;
    bool joined, detached;
    int64_t prio;
    void* (*fn)(void*);
    void* arg;
    void* ret;
    int depth;
    uptr pcs[512];
    void* altstack;
};

__thread Thr* self __attribute__((tls_model("initial-exec"))) = nullptr;

static Thr* threads[MAXT];
static int nthreads = 0;
static Thr* current = nullptr;
static uint64_t g_steps, g_now, g_decisions, g_runlen;
static uint64_t g_accesses;
static int g_nopreempt;
static int g_phase = -1;
static bool g_race, g_memcheck;
static Rng r_sched, r_fault, r_data, r_misc;
static uint64_t h_event, h_ileave;
static size_t rdev_pos;
static std::vector<uint32_t> pct_points;
static int64_t pct_low;
static uint64_t occ[F_NCLASS];
static std::map<std::pair<int, uint32_t>, FaultRec> rfault_map;
// preemption between plain memory accesses; positions count the accesses seen
static uint64_t plain_countdown = 1ull << 62, plain_set = 1ull << 62, plain_done;
static size_t rplain_pos;
static const uint32_t PLAIN_FLAG = 0x80000000u;
static bool ended = false;
static uptr g_lo, g_hi;

struct PlanState { uint32_t seen = 0; };
static std::vector<PlanState> plan_state;

// ------------------------------------------------------------------ utilities
void* real_sym(const char* name)
{
    void* p = dlsym(RTLD_NEXT, name);
    if (!p) {
        fprintf(stderr, "no symbol %s\n", name);
        _exit(99);
    }
    return p;
}
#define REAL(ret, name, ...)                                                                       \
    static ret (*real_##name)(__VA_ARGS__) = nullptr;                                              \
    if (!real_##name) *(void**)&real_##name = real_sym(#name)

static long raw_syscall(long n, long a, long b, long c, long d, long e, long f)
{
    long r;
    register long r10 __asm__("r10") = d;
    register long r8 __asm__("r8") = e;
    register long r9 __asm__("r9") = f;
    __asm__ volatile("syscall" : "=a"(r) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
    return r;
}
static void raw_exit(int code)
{
    raw_syscall(SYS_exit_group, code, 0, 0, 0, 0, 0);
    __builtin_unreachable();
}

static void hmix(uint64_t& h, uint64_t v)
{
    h ^= v + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2);
    h *= 0xff51afd7ed558ccdull;
    h ^= h >> 32;
}
void event(uint64_t a, uint64_t b, uint64_t c)
{
    hmix(h_event, a);
    hmix(h_event, b);
    hmix(h_event, c);
}
void event_bytes(const void* p, size_t n)
{
    uint64_t h = 1469598103934665603ull;
    const unsigned char* q = (const unsigned char*)p;
    size_t i = 0;
    for (; i + 8 <= n; i += 8) {
        uint64_t v;
        memcpy(&v, q + i, 8);
        h = (h ^ v) * 1099511628211ull;
        h ^= h >> 29;
    }
    for (; i < n; ++i) h = (h ^ q[i]) * 1099511628211ull;
    hmix(h_event, h);
    hmix(h_event, n);
}
void trace(const char* fmt, ...)
{
    if (!tracing || !trace_file) return;
    va_list ap;
    va_start(ap, fmt);
    fprintf(trace_file, "%8llu T%d  ", (unsigned long long)g_steps, self ? self->tid : -1);
    vfprintf(trace_file, fmt, ap);
    fputc('\n', trace_file);
    fflush(trace_file);
    va_end(ap);
}
void enter_rt() { if (self) ++self->rt; }
void leave_rt() { if (self) --self->rt; }
int push_sut()
{
    int s = self->rt;
    self->rt = 0;
    return s;
}
void pop_sut(int s) { self->rt = s; }
bool in_sut() { return self && self->rt == 0; }
void no_preempt(int d) { g_nopreempt += d; }
uint64_t now_us() { return g_now; }
uint64_t steps() { return g_steps; }
void advance_us(uint64_t us) { g_now += us; }
Rng& data_rng() { return r_data; }
int tid() { return self ? self->tid : -1; }
void set_phase(int p)
{
    g_phase = p;
    for (auto& s : plan_state) s.seen = 0;
}
int phase() { return g_phase; }
void count(int c, uint64_t n) { R->counters[c] += n; }
void probe(int i) { R->probe[i]++; }
bool harness_spawns = false;
void note_fault(int cls) { R->faults[cls]++; }
void set_race(bool on) { g_race = on; }
int live_threads()
{
    int n = 0;
    for (int i = 1; i < nthreads; ++i)
        if (threads[i]->state != T_DONE) ++n;
    return n;
}

static void flush_counters()
{
    R->counters[C_STEPS] = g_steps;
    R->counters[C_DECISIONS] = g_decisions;
    R->counters[C_ACCESSES] = g_accesses;
    R->counters[C_SIMTIME_US] = g_now > cfg.clock0 ? g_now - cfg.clock0 : 0;
    R->counters[C_THREADS] = nthreads;
    R->event_hash = h_event;
    R->ileave_hash = h_ileave;
}

static std::string thread_dump()
{
    static const char* kn[] = { "?", "mutex_lock", "mutex_unlock", "cond_wait", "cond_signal", "futex_wait", "futex_wake",
                                "atomic", "create", "join", "exit", "fs", "s3", "log", "blosc", "yield", "sleep", "user", "plain" };
    std::string s;
    char b[256];
    for (int i = 0; i < nthreads; ++i) {
        Thr* t = threads[i];
        if (t->state == T_DONE) continue;
        snprintf(b, sizeof b, "\n  T%d %s", t->tid, t->state == T_RUN ? "runnable" : "blocked in ");
        s += b;
        if (t->state == T_BLOCKED) s += kn[t->wait_kind];
        s += " stack:";
        int d = t->depth > 512 ? 512 : t->depth;
        for (int k = d - 1, n = 0; k >= 0 && n < 8; --k, ++n) {
            snprintf(b, sizeof b, " @0x%lx", (unsigned long)t->pcs[k]);
            s += b;
        }
    }
    return s;
}
std::string stack_of_self()
{
    std::string s;
    if (!self) return s;
    char b[64];
    int d = self->depth > 512 ? 512 : self->depth;
    for (int k = d - 1, n = 0; k >= 0 && n < 10; --k, ++n) {
        snprintf(b, sizeof b, " @0x%lx", (unsigned long)self->pcs[k]);
        s += b;
    }
    return s;
}

static void end_run(int status, const char* cls, const char* msg)
{
    if (ended) raw_exit(3);
    ended = true;
    flush_counters();
    snprintf(R->cls, sizeof R->cls, "%s", cls);
    snprintf(R->msg, sizeof R->msg, "%s", msg);
    if (tracing && trace_file) {
        fprintf(trace_file, "END status=%d class=%s %s\n", status, cls, msg);
        fflush(trace_file);
    }
    __atomic_store_n((int*)&R->status, status, __ATOMIC_SEQ_CST);
    raw_exit(0);
}
void violation(const char* cls, const char* fmt, ...)
{
    if (self) ++self->rt;
    static char buf[8192];
    va_list ap;
    va_start(ap, fmt);
    vsnprintf(buf, sizeof buf, fmt, ap);
    va_end(ap);
    end_run(ST_VIOLATION, cls, buf);
    __builtin_unreachable();
}
void internal_error(const char* fmt, ...)
{
    if (self) ++self->rt;
    static char buf[4096];
    va_list ap;
    va_start(ap, fmt);
    vsnprintf(buf, sizeof buf, fmt, ap);
    va_end(ap);
    end_run(ST_INTERNAL, "internal", buf);
    __builtin_unreachable();
}
void finish_ok()
{
    end_run(ST_OK, "", "");
    __builtin_unreachable();
}

// ------------------------------------------------------------------ scheduler
static void park(Thr* t)
{
    while (t->token.load(std::memory_order_acquire) == 0)
        raw_syscall(SYS_futex, (long)&t->token, FUTEX_WAIT_PRIVATE, 0, 0, 0, 0);
    t->token.store(0, std::memory_order_relaxed);
}
static void unpark(Thr* t)
{
    t->token.store(1, std::memory_order_release);
    raw_syscall(SYS_futex, (long)&t->token, FUTEX_WAKE_PRIVATE, 1, 0, 0, 0);
}
static int runnable(Thr** out)
{
    int n = 0;
    for (int i = 0; i < nthreads; ++i)
        if (threads[i]->state == T_RUN) out[n++] = threads[i];
    return n;
}
static void record_dev(uint32_t k, uint32_t v)
{
    if (R->ndev < MAX_DEV) R->dev[R->ndev++] = { k, v };
    else R->dev_overflow = 1;
}
// generic recorded choice among n alternatives, default 0
static uint32_t choose(uint32_t n, bool random)
{
    if (n < 2) return 0;
    uint32_t k = (uint32_t)g_decisions++;
    uint32_t v = 0;
    if (cfg.replay) {
        while (rdev_pos < cfg.rdev.size() && cfg.rdev[rdev_pos].k < k) ++rdev_pos;
        if (rdev_pos < cfg.rdev.size() && cfg.rdev[rdev_pos].k == k) v = cfg.rdev[rdev_pos++].v;
        if (v >= n) v = 0;
    } else if (random) {
        v = (uint32_t)r_sched.below(n);
    }
    if (v) record_dev(k, v);
    return v;
}
static void transfer(Thr* me, Thr* to)
{
    if (me == to) return;
    R->counters[C_SWITCHES]++;
    g_runlen = 0;
    hmix(h_ileave, to->tid);
    if (me->depth > 0 && me->depth <= 512 && to->depth > 0 && to->depth <= 512) {
        uint64_t e = me->pcs[me->depth - 1] * 31 + to->pcs[to->depth - 1];
        Rng::mix(e);
        e = (e ^ (e >> 31)) * 0xff51afd7ed558ccdull;
        e >>= 48;
        R->edge_bits[e >> 6] |= 1ull << (e & 63);
    }
    me->parked_sp = (uptr)__builtin_frame_address(0);
    current = to;
    unpark(to);
    if (me->state != T_DONE) park(me);
}
static void fire_timers()
{
    for (int i = 0; i < nthreads; ++i) {
        Thr* t = threads[i];
        if (t->state == T_BLOCKED && t->deadline && t->deadline <= g_now) {
            t->timed_out = true;
            t->state = T_RUN;
        }
    }
}
static int n_timers()
{
    int n = 0;
    for (int i = 0; i < nthreads; ++i)
        if (threads[i]->state == T_BLOCKED && threads[i]->deadline) ++n;
    return n;
}
static Thr* by_strategy(Thr* me, Thr** rs, int n, bool yield, bool me_ok, Thr* def)
{
    Thr* choice = def;
    switch (cfg.sched.mode) {
        case 1: { // PCT
            while (!pct_points.empty() && pct_points.back() <= g_steps) {
                pct_points.pop_back();
                me->prio = --pct_low;
            }
            if (yield || g_runlen >= 5000) me->prio = --pct_low;
            Thr* b = nullptr;
            for (int i = 0; i < n; ++i)
                if (!b || rs[i]->prio > b->prio) b = rs[i];
            choice = b;
            break;
        }
        case 2: { // starve one thread
            int s = cfg.sched.starve;
            if (me_ok && me->tid != s && !r_sched.chance(cfg.sched.p)) {
                choice = me;
                break;
            }
            Thr* cand[MAXT];
            int m = 0;
            for (int i = 0; i < n; ++i)
                if (rs[i]->tid != s && !(yield && rs[i] == me)) cand[m++] = rs[i];
            choice = m ? cand[r_sched.below(m)] : def;
            break;
        }
        default: {
            if (me_ok && !r_sched.chance(cfg.sched.p)) {
                choice = me;
                break;
            }
            Thr* cand[MAXT];
            int m = 0;
            for (int i = 0; i < n; ++i)
                if (rs[i] != me) cand[m++] = rs[i];
            choice = m ? cand[r_sched.below(m)] : def;
        }
    }
    return choice;
}
static Thr* pick(Thr* me, Thr** rs, int n, bool yield)
{
    bool me_ok = me->state == T_RUN && !yield && g_runlen < 5000;
    Thr* def = nullptr;
    if (me_ok) def = me;
    else {
        for (int i = 0; i < n; ++i)
            if (rs[i]->tid > me->tid) { def = rs[i]; break; }
        if (!def) def = rs[0];
    }
    if (n == 1) return rs[0];
    uint32_t k = (uint32_t)g_decisions++;
    Thr* choice = def;
    if (cfg.replay) {
        while (rdev_pos < cfg.rdev.size() && cfg.rdev[rdev_pos].k < k) ++rdev_pos;
        if (rdev_pos < cfg.rdev.size() && cfg.rdev[rdev_pos].k == k) {
            uint32_t v = cfg.rdev[rdev_pos++].v;
            for (int i = 0; i < n; ++i)
                if ((uint32_t)rs[i]->tid == v) choice = rs[i];
        }
    } else {
        choice = by_strategy(me, rs, n, yield, me_ok, def);
    }
    if (choice != def) record_dev(k, choice->tid);
    if (tracing && choice != me) trace("SWITCH decision %u, access %llu: T%d -> T%d", k, (unsigned long long)g_accesses, me->tid, choice->tid);
    return choice;
}
static void do_crash()
{
    R->faults[F_CRASH]++;
    if (tracing) trace("CRASH");
    std::function<void()> f = on_crash;
    if (self) ++self->rt;
    g_nopreempt += 1000;
    if (f) f();
    finish_ok();
}
static void tick()
{
    ++g_steps;
    ++g_now;
    ++g_runlen;
    if (g_steps > cfg.max_steps) {
        std::string d = thread_dump();
        violation("livelock", "no progress: more than %llu scheduling steps in API call %d%s", (unsigned long long)cfg.max_steps, g_phase, d.c_str());
    }
    if (cfg.crash_step && g_steps == cfg.crash_step) do_crash();
}
void sched_point(int kind, uint64_t detail)
{
    Thr* me = self;
    if (!me || ended) return;
    tick();
    hmix(h_event, ((uint64_t)kind << 56) ^ ((uint64_t)me->tid << 48) ^ detail);
    hmix(h_ileave, (uint64_t)kind * 64 + me->tid);
    if (n_timers()) fire_timers();
    if (g_nopreempt) return;
    Thr* rs[MAXT];
    int n = runnable(rs);
    if (n <= 1) return;
    Thr* to = pick(me, rs, n, kind == K_YIELD);
    transfer(me, to);
}
static void arm_plain()
{
    plain_done += plain_set - plain_countdown;
    plain_set = 1ull << 62;
    if (cfg.replay) {
        while (rplain_pos < cfg.rplain.size() && cfg.rplain[rplain_pos].k <= plain_done) ++rplain_pos;
        if (rplain_pos < cfg.rplain.size()) plain_set = cfg.rplain[rplain_pos].k - plain_done;
    } else if (cfg.sched.plain > 0)
        plain_set = 1 + r_sched.below((uint64_t)(2 / cfg.sched.plain));
    plain_countdown = plain_set;
}
// a point between two plain accesses: it leaves a trace only where it preempts
static void plain_point(Thr* me)
{
    uint64_t at = plain_done + plain_set;
    uint32_t want = cfg.replay && rplain_pos < cfg.rplain.size() && cfg.rplain[rplain_pos].k == at ? cfg.rplain[rplain_pos].v : 0xffffffff;
    arm_plain();
    if (g_nopreempt || ended) return;
    Thr* rs[MAXT];
    int n = runnable(rs);
    if (n <= 1) return;
    Thr* to = me;
    if (cfg.replay) {
        for (int i = 0; i < n; ++i)
            if ((uint32_t)rs[i]->tid == want) to = rs[i];
    } else
        to = by_strategy(me, rs, n, false, true, me);
    if (to == me) return;
    if (at < PLAIN_FLAG) record_dev((uint32_t)at | PLAIN_FLAG, to->tid);
    else R->dev_overflow = 1;
    if (tracing) trace("SWITCH between accesses, %llu: T%d -> T%d", (unsigned long long)at, me->tid, to->tid);
    tick();
    hmix(h_event, ((uint64_t)K_PLAIN << 56) ^ ((uint64_t)me->tid << 48));
    hmix(h_ileave, (uint64_t)K_PLAIN * 64 + me->tid);
    transfer(me, to);
}
static void reschedule_blocked(Thr* me)
{
    Thr* rs[MAXT];
    int n = runnable(rs);
    while (n == 0) {
        uint64_t d = 0;
        for (int i = 0; i < nthreads; ++i) {
            Thr* t = threads[i];
            if (t->state == T_BLOCKED && t->deadline && (!d || t->deadline < d)) d = t->deadline;
        }
        if (!d) {
            if (me->state == T_DONE && me->tid == 0) return;
            std::string dump = thread_dump();
            violation("deadlock", "no thread can run in API call %d%s", g_phase, dump.c_str());
        }
        if (g_now < d) g_now = d;
        fire_timers();
        n = runnable(rs);
    }
    Thr* to = pick(me, rs, n, false);
    transfer(me, to);
}
static void block(int kind, uptr obj, uint64_t deadline)
{
    Thr* me = self;
    me->state = T_BLOCKED;
    me->wait_kind = kind;
    me->wait_obj = obj;
    me->deadline = deadline;
    me->timed_out = false;
    tick();
    hmix(h_event, ((uint64_t)kind << 56) ^ ((uint64_t)me->tid << 48) ^ 0xb10c);
    int np = g_nopreempt;
    g_nopreempt = 0;
    reschedule_blocked(me);
    g_nopreempt = np;
    me->deadline = 0;
    me->wait_kind = 0;
    me->wait_obj = 0;
}
static void wake(Thr* t)
{
    if (t->state == T_BLOCKED) t->state = T_RUN;
}
static void bump(Thr* t) { t->vc.c[t->tid]++; }

// ------------------------------------------------------------------ faults
int fault(int cls, const char* path, const int* codes, int ncodes, uint64_t* arg, uint64_t argmax)
{
    uint32_t o = (uint32_t)occ[cls]++;
    int code = 0;
    uint64_t a = 0;
    if (cfg.replay) {
        auto it = rfault_map.find({ cls, o });
        if (it != rfault_map.end()) {
            code = it->second.code;
            a = it->second.arg;
            if (argmax && a >= argmax) a = argmax > 1 ? argmax - 1 : 0;
            if (argmax && a == 0 && cls == F_SHORT) code = 0;
        }
    } else {
        for (size_t i = 0; i < cfg.plan.size(); ++i) {
            auto& e = cfg.plan[i];
            if (e.cls != cls) continue;
            if (e.phase >= 0 && e.phase != g_phase) continue;
            if (!e.match.empty() && (!path || !strstr(path, e.match.c_str()))) continue;
            uint32_t n = ++plan_state[i].seen;
            bool hit = e.rate > 0 ? r_fault.chance(e.rate) : (n >= e.nth && (e.count == 0 || n < e.nth + e.count));
            if (!hit) continue;
            code = e.code ? e.code : (ncodes ? codes[r_fault.below(ncodes)] : 1);
            if (argmax) {
                if (argmax < 2) { code = 0; continue; }
                a = 1 + r_fault.below(argmax - 1);
            }
        }
    }
    if (code) {
        R->faults[cls]++;
        if (R->nfrec < MAX_FREC) R->frec[R->nfrec++] = { (uint16_t)cls, (uint16_t)code, o, a };
        event(0xfa017, cls, ((uint64_t)o << 16) | code);
        if (tracing) trace("FAULT %s #%u code=%d arg=%llu %s", fault_names[cls], o, code, (unsigned long long)a, path ? path : "");
        if (arg) *arg = a;
    }
    return code;
}
static bool spurious()
{
    uint32_t o = (uint32_t)occ[F_SPURIOUS]++;
    bool hit = false;
    if (cfg.replay) hit = rfault_map.count({ F_SPURIOUS, o }) > 0;
    else if (cfg.sched.spurious > 0) hit = r_fault.chance(cfg.sched.spurious);
    if (hit) {
        R->faults[F_SPURIOUS]++;
        if (R->nfrec < MAX_FREC) R->frec[R->nfrec++] = { F_SPURIOUS, 1, o, 0 };
    }
    return hit;
}

// ------------------------------------------------------------------ memory monitor
struct Cell
{
    uint32_t epoch;
    uint32_t pc;
    uint8_t tid1; // tid + 1, 0 = empty
    uint8_t mask;
    uint8_t flags; // 1 write, 2 atomic
    uint8_t pad;
};
static_assert(sizeof(Cell) == 12, "");
enum { NCELL = 4 };

static inline Cell* cells(uptr a)
{
    if (a - HEAP < HEAP_SIZE) return (Cell*)(SH_RACE_H + ((a - HEAP) >> 3) * (sizeof(Cell) * NCELL));
    if (a - STACKS < STACKS_SIZE) return (Cell*)(SH_RACE_S + ((a - STACKS) >> 3) * (sizeof(Cell) * NCELL));
    if (a - g_lo < g_hi - g_lo) return (Cell*)(SH_RACE_G + ((a - g_lo) >> 3) * (sizeof(Cell) * NCELL));
    return nullptr;
}
static void race_report(uptr a, unsigned n, bool w, bool at, uptr pc, const Cell& c)
{
    ++self->rt;
    std::string st = stack_of_self();
    violation("data-race",
              "T%d %s%s of %u bytes at %s+0x%lx by @0x%lx is concurrent with a %s%s by T%d at @0x%lx; stack:%s",
              self->tid, at ? "atomic " : "", w ? "write" : "read", n,
              a - HEAP < HEAP_SIZE ? "heap" : a - STACKS < STACKS_SIZE ? "stack" : "global",
              (unsigned long)(a - HEAP < HEAP_SIZE ? a - HEAP : a - STACKS < STACKS_SIZE ? a - STACKS : a - g_lo),
              (unsigned long)pc, (c.flags & 2) ? "atomic " : "", (c.flags & 1) ? "write" : "read", c.tid1 - 1, (unsigned long)c.pc,
              st.c_str());
}
static inline void race_granule(Cell* cs, uptr base, uint8_t mask, bool w, bool at, uptr pc, Thr* t)
{
    uint32_t ep = t->vc.c[t->tid];
    uint8_t fl = (w ? 1 : 0) | (at ? 2 : 0);
    int slot = -1, empty = -1;
    for (int i = 0; i < NCELL; ++i) {
        Cell& c = cs[i];
        if (!c.tid1) {
            if (empty < 0) empty = i;
            continue;
        }
        if (c.tid1 == t->tid + 1) {
            if (c.epoch == ep && (c.mask & mask) == mask && (c.flags & 1) >= (fl & 1) && !(c.flags & 2)) return; // subsumed
            if ((c.mask & ~mask) == 0 && ((fl & 1) || !(c.flags & 1)) && (!at || (c.flags & 2))) slot = i;
            continue;
        }
        if (!(c.mask & mask)) continue;
        if (!((c.flags & 1) || w)) continue;
        if ((c.flags & 2) && at) continue;
        if (c.epoch > t->vc.c[c.tid1 - 1]) race_report(base, __builtin_popcount(mask), w, at, pc, c);
        else if (w && !at && (c.mask & ~mask) == 0) slot = i; // ordered before and covered
    }
    if (slot < 0) slot = empty;
    if (slot < 0) slot = (int)((base >> 3) + g_accesses) & (NCELL - 1);
    cs[slot] = { ep, (uint32_t)pc, (uint8_t)(t->tid + 1), mask, fl, 0 };
}
static inline void race_range(uptr a, size_t n, bool w, bool at, uptr pc, Thr* t)
{
    uptr e = a + n;
    while (a < e) {
        uptr g = a & ~7ull;
        unsigned lo = a - g, hi = e - g > 8 ? 8 : e - g;
        uint8_t mask = (uint8_t)(((1u << hi) - 1) & ~((1u << lo) - 1));
        Cell* c = cells(g);
        if (c) race_granule(c, a, mask, w, at, pc, t);
        a = g + 8;
    }
}
static void bad_access(const char* what, uptr a, size_t n, bool w, uptr pc)
{
    ++self->rt;
    std::string st = stack_of_self();
    violation("invalid-memory", "T%d %s of %zu bytes at 0x%lx by @0x%lx: %s; stack:%s", self->tid, w ? "write" : "read", n,
              (unsigned long)(a - HEAP < HEAP_SIZE ? a - HEAP : a), (unsigned long)pc, what, st.c_str());
}
static inline void addr_check(uptr a, size_t n, bool w, uptr pc, Thr* t)
{
    if (a - HEAP < HEAP_SIZE) {
        const uint8_t* s = (const uint8_t*)(SH_ADDR + ((a - HEAP) >> 3));
        uptr e = a + n;
        uptr g = a & ~7ull;
        for (; g < e; g += 8, ++s) {
            uint8_t v = *s;
            if (v == 8) continue;
            unsigned hi = e - g > 8 ? 8 : (unsigned)(e - g);
            if (v == 0xFD) bad_access("freed memory", a, n, w, pc);
            if (v > 8 || hi > v) bad_access("outside any live heap object", a, n, w, pc);
        }
    } else if (a - STACKS < STACKS_SIZE) {
        unsigned ix = (a - STACKS) / STACK_SIZE;
        if (ix != (unsigned)t->tid && ix < (unsigned)nthreads) {
            Thr* o = threads[ix];
            if (o->state == T_DONE) bad_access("stack of a finished thread", a, n, w, pc);
            if (a < o->parked_sp) bad_access("dead stack frame of another thread", a, n, w, pc);
        }
    } else if (a < 4096) {
        bad_access("null pointer", a, n, w, pc);
    }
}
static void too_many_accesses()
{
    ++self->rt;
    std::string d = thread_dump();
    violation("livelock", "more than %llu memory accesses without returning in API call %d%s", (unsigned long long)cfg.max_accesses, g_phase, d.c_str());
}
static inline __attribute__((always_inline)) void access(uptr a, unsigned n, bool w, bool at, uptr pc)
{
    Thr* t = self;
    if (__builtin_expect(!t || t->rt, 0)) return;
    if (__builtin_expect(++g_accesses > cfg.max_accesses, 0)) too_many_accesses();
    if (g_memcheck) addr_check(a, n, w, pc, t);
    if (g_race) {
        uptr g = a & ~7ull;
        if (__builtin_expect((a - g) + n <= 8, 1)) {
            Cell* c = cells(g);
            if (c) race_granule(c, a, (uint8_t)(((1u << n) - 1) << (a - g)), w, at, pc, t);
        } else {
            race_range(a, n, w, at, pc, t);
        }
    }
    if (__builtin_expect(--plain_countdown == 0, 0)) {
        ++t->rt;
        plain_point(t);
        --t->rt;
    }
}
static void access_range(uptr a, size_t n, bool w, uptr pc)
{
    Thr* t = self;
    if (!t || t->rt || !n) return;
    g_accesses += 1 + n / 64;
    if (g_accesses > cfg.max_accesses) too_many_accesses();
    if (g_memcheck) addr_check(a, n, w, pc, t);
    if (g_race) race_range(a, n, w, false, pc, t);
}
void check_range(const void* p, size_t n, bool w, const char* what)
{
    Thr* t = self;
    if (!t || !n) return;
    uptr pc = t->depth > 0 && t->depth <= 512 ? t->pcs[t->depth - 1] : 0;
    (void)what;
    if (g_memcheck) addr_check((uptr)p, n, w, pc, t);
    if (g_race) race_range((uptr)p, n, w, false, pc, t);
}

// ------------------------------------------------------------------ heap
struct Block
{
    uptr p;
    uint64_t size;
    uint32_t freed;
    uint32_t tid;
    uint32_t pcs[5];
};
static Block* blocks = nullptr;
static uint64_t nblocks = 0;
enum { MAXBLOCKS = 8 << 20 };
static uptr bump_ptr;
static uint64_t g_live;
static uint64_t g_sut_bytes, g_sut_blocks; // live blocks of the code under test
static const uint64_t HDR_MAGIC = 0x51a11dea110c0000ull;
struct Hdr
{
    uint64_t magic;
    uint64_t index;
};

static inline bool in_heap(const void* p) { return (uptr)p - HEAP < HEAP_SIZE; }

static void* arena_alloc(size_t n, size_t align, bool zero, bool harness)
{
    if (align < 16) align = 16;
    size_t rz = n / 4;
    rz = rz < 32 ? 32 : rz > 2048 ? 2048 : rz;
    if (n > (16ull << 30) || g_live + n > (3ull << 29) || nblocks >= MAXBLOCKS) return nullptr;
    uptr p = bump_ptr + rz + sizeof(Hdr);
    p = (p + align - 1) & ~(uptr)(align - 1);
    if (p + n + rz > HEAP + HEAP_SIZE) return nullptr;
    bump_ptr = (p + n + rz + 15) & ~15ull;
    Hdr* h = (Hdr*)(p - sizeof(Hdr));
    h->magic = HDR_MAGIC;
    h->index = nblocks;
    Block& b = blocks[nblocks++];
    b.p = p;
    b.size = n;
    b.freed = harness ? 2 : 0;
    b.tid = self ? self->tid : 99;
    for (int i = 0; i < 5; ++i) b.pcs[i] = 0;
    if (self) {
        int d = self->depth > 512 ? 512 : self->depth;
        for (int i = 0; i < 5 && d - 1 - i >= 0; ++i) b.pcs[i] = (uint32_t)self->pcs[d - 1 - i];
    }
    g_live += n;
    if (!harness) g_sut_bytes += n, ++g_sut_blocks;
    uint8_t* s = (uint8_t*)(SH_ADDR + ((p - HEAP) >> 3));
    memset(s, 8, n / 8);
    if (n & 7) s[n / 8] = n & 7;
    if (!zero && cfg.pattern) {
        size_t head = n < 65536 ? n : 65536;
        if (cfg.pattern == 256) {
            uint64_t x = p * 0x9E3779B97F4A7C15ull ^ cfg.seed;
            unsigned char* q = (unsigned char*)p;
            for (size_t i = 0; i < head; ++i) {
                x ^= x << 13;
                x ^= x >> 7;
                x ^= x << 17;
                q[i] = (unsigned char)x;
            }
        } else {
            memset((void*)p, cfg.pattern, head);
        }
        if (n > 65536) {
            size_t tail = n - 65536 < 4096 ? n - 65536 : 4096;
            memset((char*)p + n - tail, cfg.pattern & 255, tail);
        }
    }
    return (void*)p;
}
static void arena_free(void* q)
{
    uptr p = (uptr)q;
    Hdr* h = (Hdr*)(p - sizeof(Hdr));
    bool sut = in_sut();
    if ((p & 15) || h->magic != HDR_MAGIC || h->index >= nblocks || blocks[h->index].p != p) {
        if (self && !ended) violation("invalid-free", "T%d frees a pointer that is not a heap block; stack:%s", tid(), stack_of_self().c_str());
        return;
    }
    Block& b = blocks[h->index];
    if (b.freed == 1) {
        if (self && !ended) violation("double-free", "T%d frees a block of %llu bytes twice; stack:%s", tid(), (unsigned long long)b.size, stack_of_self().c_str());
        return;
    }
    if (sut && g_race && b.size) race_range(p, b.size < 65536 ? b.size : 65536, true, false, self->depth > 0 && self->depth <= 512 ? self->pcs[self->depth - 1] : 0, self);
    if (!b.freed) g_sut_bytes -= b.size, --g_sut_blocks;
    b.freed = 1;
    g_live -= b.size;
    memset((void*)(SH_ADDR + ((p - HEAP) >> 3)), 0xFD, (b.size + 7) / 8);
    if (b.size >= 1 << 20) {
        uptr lo = (p + 4095) & ~4095ull, hi = (p + b.size) & ~4095ull;
        if (hi > lo) raw_syscall(SYS_madvise, lo, hi - lo, MADV_DONTNEED, 0, 0, 0);
    } else if (!g_memcheck) {
        memset((void*)p, 0xDB, b.size < 4096 ? b.size : 4096); // make stale reads visible
    }
}
void* sim_alloc(size_t n) { return arena_alloc(n, 16, false, true); }
void sim_free(void* p) { if (p) arena_free(p); }
uint64_t live_bytes() { return g_sut_bytes; }
uint64_t live_blocks() { return g_sut_blocks; }
// the allocation site with the most live blocks among those numbered from..to
std::string busiest_site(uint64_t from, uint64_t to)
{
    std::map<std::vector<uint32_t>, std::pair<uint64_t, uint64_t>> m;
    for (uint64_t i = from; i < to && i < nblocks; ++i)
        if (!blocks[i].freed) {
            auto& q = m[std::vector<uint32_t>(blocks[i].pcs, blocks[i].pcs + 5)];
            ++q.first;
            q.second += blocks[i].size;
        }
    std::string r;
    uint64_t best = 0;
    for (auto& [k, v] : m)
        if (v.first > best) {
            best = v.first;
            char b[200];
            snprintf(b, sizeof b, "%llu blocks, %llu bytes allocated at", (unsigned long long)v.first, (unsigned long long)v.second);
            r = b;
            for (auto p : k) {
                snprintf(b, sizeof b, " @0x%x", p);
                r += b;
            }
        }
    return r;
}
uint64_t alloc_mark() { return nblocks; }

static void scan_words(uptr lo, uptr hi, std::vector<uint64_t>& work, std::vector<uint8_t>& seen)
{
    lo = (lo + 7) & ~7ull;
    for (uptr a = lo; a + 8 <= hi; a += 8) {
        uptr v = *(uptr*)a;
        if (v - HEAP >= HEAP_SIZE) continue;
        // find the block containing v (blocks are in address order)
        uint64_t l = 0, r = nblocks;
        while (l < r) {
            uint64_t m = (l + r) / 2;
            if (blocks[m].p <= v) l = m + 1;
            else r = m;
        }
        if (!l) continue;
        Block& b = blocks[l - 1];
        if (v > b.p + b.size || b.freed == 1) continue;
        if (!seen[l - 1]) {
            seen[l - 1] = 1;
            work.push_back(l - 1);
        }
    }
}
struct ScanCtx { std::vector<uint64_t>* w; std::vector<uint8_t>* s; };
static int scan_module(struct dl_phdr_info* info, size_t, void* p)
{
    ScanCtx* c = (ScanCtx*)p;
    for (int i = 0; i < info->dlpi_phnum; ++i) {
        auto& ph = info->dlpi_phdr[i];
        if (ph.p_type == PT_LOAD && (ph.p_flags & PF_W)) {
            uptr lo = info->dlpi_addr + ph.p_vaddr;
            scan_words(lo, lo + ph.p_memsz, *c->w, *c->s);
        }
    }
    return 0;
}
bool find_leak(uint64_t mark, std::string& what)
{
    bool any = false;
    for (uint64_t i = mark; i < nblocks; ++i)
        if (!blocks[i].freed) any = true;
    if (!any) return false;
    std::vector<uint64_t> work;
    std::vector<uint8_t> seen(nblocks, 0);
    ScanCtx c{ &work, &seen };
    dl_iterate_phdr(scan_module, &c);
    uptr tp = (uptr)__builtin_thread_pointer();
    scan_words(tp - 2048, tp + 2048, work, seen);
    while (!work.empty()) {
        uint64_t i = work.back();
        work.pop_back();
        scan_words(blocks[i].p, blocks[i].p + (blocks[i].size & ~7ull), work, seen);
    }
    uint64_t total = 0, n = 0;
    uint64_t first = 0;
    for (uint64_t i = mark; i < nblocks; ++i)
        if (!blocks[i].freed && !seen[i]) {
            if (!n || blocks[i].size > blocks[first].size) first = i;
            ++n;
            total += blocks[i].size;
        }
    if (!n) return false;
    char b[512];
    snprintf(b, sizeof b, "%llu blocks, %llu bytes never freed; largest %llu bytes allocated by T%u at @0x%x @0x%x @0x%x @0x%x @0x%x",
             (unsigned long long)n, (unsigned long long)total, (unsigned long long)blocks[first].size, blocks[first].tid,
             blocks[first].pcs[0], blocks[first].pcs[1], blocks[first].pcs[2], blocks[first].pcs[3], blocks[first].pcs[4]);
    what = b;
    return true;
}

// ------------------------------------------------------------------ process / run
static void map_at(uptr a, uptr n)
{
    void* p = mmap((void*)a, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
    if (p != (void*)a) {
        fprintf(stderr, "cannot map simulator region %lx: %s\n", (unsigned long)a, strerror(errno));
        _exit(98);
    }
    madvise(p, n, MADV_NOHUGEPAGE);
}

// nlohmann::json allocates in destructors that must not throw, and asserts what a failed allocation
// has kept from being: once small blocks fail, the end of the process is not the library's doing
static void out_of_memory_end()
{
    if (!R->counters[C_SMALL_FAILED]) return;
    R->counters[C_OOM_ENDS]++;
    end_run(ST_OK, "", "");
}
static void on_signal(int sig, siginfo_t* si, void* uc_)
{
    ucontext_t* uc = (ucontext_t*)uc_;
    if (ended) raw_exit(3);
    static char b[2048];
    unsigned long pc = (unsigned long)uc->uc_mcontext.gregs[REG_RIP];
    bool sut = self && self->rt == 0;
    if (self) ++self->rt;
    std::string st;
    int d = self ? (self->depth > 512 ? 512 : self->depth) : 0;
    int o = snprintf(b, sizeof b, "signal %d (%s) address %p pc=@0x%lx in API call %d; stack:", sig, strsignal(sig), si->si_addr, pc, g_phase);
    for (int k = d - 1, n = 0; k >= 0 && n < 10 && o < 1900; --k, ++n) o += snprintf(b + o, sizeof b - o, " @0x%lx", (unsigned long)self->pcs[k]);
    (void)sut;
    if (self && sig == SIGABRT) out_of_memory_end();
    end_run(self ? ST_VIOLATION : ST_INTERNAL, "crash", b);
}
static void on_terminate()
{
    if (ended) raw_exit(3);
    if (self) ++self->rt;
    out_of_memory_end();
    std::string what = "no active exception";
    if (auto t = abi::__cxa_current_exception_type()) {
        int st = 0;
        char* dn = abi::__cxa_demangle(t->name(), nullptr, nullptr, &st);
        what = dn ? dn : t->name();
        try {
            throw;
        } catch (const std::exception& e) {
            what += ": ";
            what += e.what();
        } catch (...) {
        }
    }
    std::string s = stack_of_self();
    violation("terminate", "std::terminate in API call %d: %s; stack:%s", g_phase, what.c_str(), s.c_str());
}

static void install_altstack()
{
    stack_t ss;
    memset(&ss, 0, sizeof ss);
    ss.ss_size = 64 << 10;
    ss.ss_sp = __libc_malloc(ss.ss_size);
    sigaltstack(&ss, nullptr);
}

void init_process()
{
    setenv("TZ", "UTC", 1);
    tzset();
    g_lo = (uptr)__data_start & ~7ull;
    g_hi = (uptr)_end;
    map_at(HEAP, HEAP_SIZE);
    map_at(SH_ADDR, HEAP_SIZE / 8);
    map_at(STACKS, STACKS_SIZE);
    map_at(SH_RACE_H, HEAP_SIZE / 8 * sizeof(Cell) * NCELL);
    map_at(SH_RACE_S, STACKS_SIZE / 8 * sizeof(Cell) * NCELL);
    map_at(SH_RACE_G, ((g_hi - g_lo + 4096) / 8 + 1) * sizeof(Cell) * NCELL);
    blocks = (Block*)mmap(nullptr, sizeof(Block) * (size_t)MAXBLOCKS, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    R = (Result*)mmap(nullptr, sizeof(Result), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    bump_ptr = HEAP + 65536;
}

static void reset_rngs(const Cfg& c)
{
    r_sched.reseed(c.seed ^ 0x5ced);
    r_fault.reseed(c.seed ^ 0xfa017);
    r_data.reseed(c.seed ^ 0xda7a);
    r_misc.reseed(c.seed ^ 0x315c);
}
static void apply_cfg(const Cfg& c)
{
    cfg = c;
    g_race = c.race;
    g_memcheck = c.memcheck;
    plan_state.assign(cfg.plan.size(), PlanState());
    pct_points.clear();
    pct_low = 0;
    if (c.sched.mode == 1) {
        Rng r(c.seed ^ 0x9c7);
        for (int i = 0; i < c.sched.depth; ++i) pct_points.push_back((uint32_t)(g_steps + 1 + r.below(c.sched.horizon)));
        std::sort(pct_points.rbegin(), pct_points.rend());
    }
    arm_plain();
    rfault_map.clear();
    if (c.replay)
        for (auto& f : c.rfaults) rfault_map[{ f.cls, f.occ }] = f;
}
void reconfigure(const Cfg& c)
{
    uint64_t now = g_now;
    apply_cfg(c);
    g_now = std::max(now, c.clock0);
    if (c.sched.mode == 1)
        for (int i = 0; i < nthreads; ++i) threads[i]->prio = 1000 + (int64_t)r_sched.below(1000000);
}

static Thr* new_thr()
{
    if (nthreads >= MAXT) return nullptr;
    Thr* t = (Thr*)__libc_calloc(1, sizeof(Thr));
    new (&t->token) std::atomic<int>(0);
    t->tid = nthreads;
    t->state = T_RUN;
    t->stack_lo = STACKS + STACK_SIZE * t->tid;
    t->stack_hi = t->stack_lo + STACK_SIZE;
    t->parked_sp = t->stack_lo;
    t->vc.c[t->tid] = 1;
    t->prio = cfg.sched.mode == 1 && !cfg.replay ? 1000 + (int64_t)r_sched.below(1000000) : 0;
    threads[nthreads++] = t;
    return t;
}
static const std::function<void()>* g_workload;

static void* main_tramp(void* p)
{
    Thr* t = (Thr*)p;
    self = t;
    t->rt = 1;
    install_altstack();
    current = t;
    (*g_workload)();
    finish_ok();
    return nullptr;
}
static int make_real_thread(Thr* t, void* (*fn)(void*))
{
    REAL(int, pthread_create, pthread_t*, const pthread_attr_t*, void* (*)(void*), void*);
    pthread_attr_t at;
    pthread_attr_init(&at);
    pthread_attr_setstack(&at, (void*)t->stack_lo, STACK_SIZE);
    int saved = 0;
    Thr* s = self;
    if (s) { saved = s->rt; s->rt = 1; }
    int rc = real_pthread_create(&t->handle, &at, fn, t);
    if (s) s->rt = saved;
    pthread_attr_destroy(&at);
    return rc;
}
void run(const Cfg& c, const std::function<void()>& workload)
{
    g_now = c.clock0;
    reset_rngs(c);
    apply_cfg(c);
    memset((void*)R, 0, offsetof(Result, dev));
    struct sigaction sa;
    memset(&sa, 0, sizeof sa);
    sa.sa_sigaction = on_signal;
    sa.sa_flags = SA_SIGINFO | SA_ONSTACK | SA_NODEFER;
    for (int s : { SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT, SIGTRAP, SIGSYS }) sigaction(s, &sa, nullptr);
    std::set_terminate(on_terminate);
    if (const char* f = getenv("SIM_TRACE")) {
        tracing = true;
        trace_file = !strcmp(f, "-") ? stderr : fopen(f, "w");
    }
    g_workload = &workload;
    Thr* t = new_thr();
    if (make_real_thread(t, main_tramp)) {
        R->status = ST_INTERNAL;
        snprintf(R->msg, sizeof R->msg, "cannot start the simulation thread");
        _exit(0);
    }
    for (;;) pause();
}

// ------------------------------------------------------------------ primitives state
struct Mtx
{
    Thr* owner = nullptr;
    int depth = 0;
    std::vector<Thr*> waiters;
    VC vc;
};
struct Cond
{
    std::vector<Thr*> waiters;
};
struct Rw
{
    Thr* writer = nullptr;
    int readers = 0;
    std::vector<Thr*> waiters;
    VC vc, rvc;
};
static std::unordered_map<uptr, Mtx>* mtxs;
static std::unordered_map<uptr, Cond>* conds;
static std::unordered_map<uptr, Rw>* rws;
static std::unordered_map<uptr, std::vector<Thr*>>* futexes;
static std::unordered_map<uptr, VC>* syncs;
static std::unordered_map<uptr, Mtx>* guards;
static std::unordered_map<uptr, Mtx>* spins;
struct Sem
{
    int64_t v = 0;
    std::vector<Thr*> waiters;
    VC vc;
};
static std::unordered_map<uptr, Sem>* sems;
static std::unordered_map<uptr, int>* onces;
template<typename M>
static auto& slot(M*& m, uptr a)
{
    if (!m) m = new M();
    return (*m)[a];
}
static void touch_sync(const void* p, size_t n)
{
    if (g_memcheck) addr_check((uptr)p, n, true, self->depth > 0 && self->depth <= 512 ? self->pcs[self->depth - 1] : 0, self);
}

struct Ctx  // in an interposed call made by the code under test
{
    Ctx() { ++self->rt; }
    ~Ctx() { --self->rt; }
};
#define SIMCTX (self && self->rt == 0 && !ended)

static void mutex_lock_body(Mtx& m, uptr a)
{
    Thr* me = self;
    while (m.owner) {
        m.waiters.push_back(me);
        block(K_MUTEX_LOCK, a, 0);
        auto it = std::find(m.waiters.begin(), m.waiters.end(), me);
        if (it != m.waiters.end()) m.waiters.erase(it);
    }
    m.owner = me;
    m.depth = 1;
    me->vc.join(m.vc);
}
static void mutex_unlock_body(Mtx& m)
{
    Thr* me = self;
    m.vc = me->vc;
    bump(me);
    m.owner = nullptr;
    m.depth = 0;
    for (auto* w : m.waiters) wake(w);
    m.waiters.clear();
}

static void finish_thread(Thr* t)
{
    t->state = T_DONE;
    bump(t);
    for (int i = 0; i < nthreads; ++i)
        if (threads[i]->state == T_BLOCKED && threads[i]->wait_kind == K_JOIN && threads[i]->wait_obj == (uptr)t) wake(threads[i]);
    hmix(h_event, ((uint64_t)K_EXIT << 56) ^ t->tid);
    tick();
    reschedule_blocked(t);
}
static void* thread_tramp(void* p)
{
    Thr* t = (Thr*)p;
    self = t;
    t->rt = 1;
    install_altstack();
    park(t);
    t->rt = 0;
    t->ret = t->fn(t->arg);
    t->rt = 1;
    finish_thread(t); // hands the token on
    self = nullptr;
    return t->ret;
}

void sleep_us(uint64_t us)
{
    if (!self) return;
    block(K_SLEEP, 0, g_now + (us ? us : 1));
}

} // namespace rt
using namespace rt;

// ====================================================================== interposed libc: threads
extern "C" {

int pthread_create(pthread_t* th, const pthread_attr_t* attr, void* (*fn)(void*), void* arg)
{
    if (!SIMCTX) {
        REAL(int, pthread_create, pthread_t*, const pthread_attr_t*, void* (*)(void*), void*);
        return real_pthread_create(th, attr, fn, arg);
    }
    Ctx c;
    sched_point(K_CREATE);
    static const int codes[] = { EAGAIN };
    if (!harness_spawns && fault(F_THREAD, nullptr, codes, 1)) return EAGAIN;
    Thr* t = new_thr();
    if (!t) return EAGAIN;
    t->fn = fn;
    t->arg = arg;
    t->vc.join(self->vc);
    t->vc.c[t->tid] = 1;
    bump(self);
    // make_real_thread clobbers rt; we are inside Ctx
    int rc = make_real_thread(t, thread_tramp);
    if (rc) internal_error("pthread_create failed: %d", rc);
    *th = t->handle;
    sched_point(K_CREATE, t->tid);
    return 0;
}
static Thr* find_thr(pthread_t th)
{
    for (int i = nthreads - 1; i >= 0; --i)
        if (threads[i]->handle == th && !threads[i]->joined) return threads[i];
    return nullptr;
}
int pthread_join(pthread_t th, void** ret)
{
    REAL(int, pthread_join, pthread_t, void**);
    if (!SIMCTX) return real_pthread_join(th, ret);
    Ctx c;
    sched_point(K_JOIN);
    Thr* t = find_thr(th);
    if (!t) violation("invalid-join", "join of a thread that does not exist or was joined already; stack:%s", stack_of_self().c_str());
    if (t == self) return EDEADLK;
    while (t->state != T_DONE) block(K_JOIN, (uptr)t, 0);
    t->joined = true;
    self->vc.join(t->vc);
    return real_pthread_join(th, ret);
}
int pthread_detach(pthread_t th)
{
    REAL(int, pthread_detach, pthread_t);
    if (SIMCTX) {
        Ctx c;
        if (Thr* t = find_thr(th)) t->detached = true;
        return real_pthread_detach(th);
    }
    return real_pthread_detach(th);
}
int pthread_mutex_init(pthread_mutex_t* m, const pthread_mutexattr_t* a)
{
    REAL(int, pthread_mutex_init, pthread_mutex_t*, const pthread_mutexattr_t*);
    if (SIMCTX) {
        Ctx c;
        if (mtxs) mtxs->erase((uptr)m);
    }
    return real_pthread_mutex_init(m, a);
}
int pthread_mutex_destroy(pthread_mutex_t* m)
{
    if (!SIMCTX) {
        REAL(int, pthread_mutex_destroy, pthread_mutex_t*);
        return real_pthread_mutex_destroy(m);
    }
    Ctx c;
    Mtx& x = slot(mtxs, (uptr)m);
    if (x.owner || !x.waiters.empty()) return EBUSY;
    mtxs->erase((uptr)m);
    return 0;
}
static int sim_mutex_lock(pthread_mutex_t* m, bool tryonly)
{
    Ctx c;
    R->counters[C_MUTEX]++;
    touch_sync(m, 4);
    sched_point(K_MUTEX_LOCK);
    touch_sync(m, 4);
    Mtx& x = slot(mtxs, (uptr)m);
    int kind = m->__data.__kind & 3;
    if (x.owner == self && x.depth > 0) {
        if (kind == PTHREAD_MUTEX_RECURSIVE_NP) {
            x.depth++;
            return 0;
        }
        if (tryonly) return EBUSY;
        if (kind == PTHREAD_MUTEX_ERRORCHECK_NP) return EDEADLK;
    }
    if (tryonly) {
        if (x.owner) return EBUSY;
    }
    mutex_lock_body(x, (uptr)m);
    return 0;
}
int pthread_mutex_lock(pthread_mutex_t* m)
{
    if (!SIMCTX) {
        REAL(int, pthread_mutex_lock, pthread_mutex_t*);
        return real_pthread_mutex_lock(m);
    }
    return sim_mutex_lock(m, false);
}
int pthread_mutex_trylock(pthread_mutex_t* m)
{
    if (!SIMCTX) {
        REAL(int, pthread_mutex_trylock, pthread_mutex_t*);
        return real_pthread_mutex_trylock(m);
    }
    return sim_mutex_lock(m, true);
}
int pthread_mutex_timedlock(pthread_mutex_t* m, const struct timespec* ts)
{
    if (!SIMCTX) {
        REAL(int, pthread_mutex_timedlock, pthread_mutex_t*, const struct timespec*);
        return real_pthread_mutex_timedlock(m, ts);
    }
    Ctx c;
    sched_point(K_MUTEX_LOCK);
    Mtx& x = slot(mtxs, (uptr)m);
    uint64_t d = ts->tv_sec * 1000000ull + ts->tv_nsec / 1000;
    while (x.owner) {
        if (g_now >= d) return ETIMEDOUT;
        x.waiters.push_back(self);
        block(K_MUTEX_LOCK, (uptr)m, d);
        auto it = std::find(x.waiters.begin(), x.waiters.end(), self);
        if (it != x.waiters.end()) x.waiters.erase(it);
    }
    mutex_lock_body(x, (uptr)m);
    return 0;
}
int pthread_mutex_clocklock(pthread_mutex_t* m, clockid_t, const struct timespec* ts) { return pthread_mutex_timedlock(m, ts); }
int pthread_mutex_unlock(pthread_mutex_t* m)
{
    if (!SIMCTX) {
        REAL(int, pthread_mutex_unlock, pthread_mutex_t*);
        return real_pthread_mutex_unlock(m);
    }
    Ctx c;
    touch_sync(m, 4);
    Mtx& x = slot(mtxs, (uptr)m);
    if (x.owner != self) violation("bad-unlock", "T%d unlocks a mutex it does not hold; stack:%s", self->tid, stack_of_self().c_str());
    if (--x.depth > 0) return 0;
    mutex_unlock_body(x);
    sched_point(K_MUTEX_UNLOCK);
    return 0;
}

int pthread_cond_init(pthread_cond_t* cv, const pthread_condattr_t* a)
{
    REAL(int, pthread_cond_init, pthread_cond_t*, const pthread_condattr_t*);
    if (SIMCTX) {
        Ctx c;
        if (conds) conds->erase((uptr)cv);
        memset(cv, 0, sizeof *cv);
        return 0;
    }
    return real_pthread_cond_init(cv, a);
}
int pthread_cond_destroy(pthread_cond_t* cv)
{
    if (!SIMCTX) {
        REAL(int, pthread_cond_destroy, pthread_cond_t*);
        return real_pthread_cond_destroy(cv);
    }
    Ctx c;
    Cond& x = slot(conds, (uptr)cv);
    if (!x.waiters.empty())
        violation("cond-destroyed", "a condition variable is destroyed while T%d waits on it; stack:%s", x.waiters[0]->tid, stack_of_self().c_str());
    conds->erase((uptr)cv);
    return 0;
}
static int sim_cond_wait(pthread_cond_t* cv, pthread_mutex_t* m, uint64_t deadline)
{
    Ctx c;
    R->counters[C_COND]++;
    touch_sync(cv, 4);
    Mtx& x = slot(mtxs, (uptr)m);
    Cond& q = slot(conds, (uptr)cv);
    if (x.owner != self) violation("bad-wait", "T%d waits on a condition variable without holding its mutex; stack:%s", self->tid, stack_of_self().c_str());
    int d = x.depth;
    bool sp = spurious();
    mutex_unlock_body(x);
    int rc = 0;
    if (sp) {
        sched_point(K_COND_WAIT, 7);
    } else {
        q.waiters.push_back(self);
        self->signalled = false;
        block(K_COND_WAIT, (uptr)cv, deadline);
        Cond& q2 = slot(conds, (uptr)cv);
        auto it = std::find(q2.waiters.begin(), q2.waiters.end(), self);
        if (it != q2.waiters.end()) q2.waiters.erase(it);
        if (self->timed_out && !self->signalled) rc = ETIMEDOUT;
    }
    Mtx& x2 = slot(mtxs, (uptr)m);
    touch_sync(m, 4);
    mutex_lock_body(x2, (uptr)m);
    x2.depth = d;
    return rc;
}
int pthread_cond_wait(pthread_cond_t* cv, pthread_mutex_t* m)
{
    if (!SIMCTX) {
        REAL(int, pthread_cond_wait, pthread_cond_t*, pthread_mutex_t*);
        return real_pthread_cond_wait(cv, m);
    }
    return sim_cond_wait(cv, m, 0);
}
int pthread_cond_timedwait(pthread_cond_t* cv, pthread_mutex_t* m, const struct timespec* ts)
{
    if (!SIMCTX) {
        REAL(int, pthread_cond_timedwait, pthread_cond_t*, pthread_mutex_t*, const struct timespec*);
        return real_pthread_cond_timedwait(cv, m, ts);
    }
    return sim_cond_wait(cv, m, std::max<uint64_t>(1, ts->tv_sec * 1000000ull + ts->tv_nsec / 1000));
}
int pthread_cond_clockwait(pthread_cond_t* cv, pthread_mutex_t* m, clockid_t, const struct timespec* ts)
{
    return pthread_cond_timedwait(cv, m, ts);
}
int pthread_cond_signal(pthread_cond_t* cv)
{
    if (!SIMCTX) {
        REAL(int, pthread_cond_signal, pthread_cond_t*);
        return real_pthread_cond_signal(cv);
    }
    Ctx c;
    R->counters[C_COND]++;
    touch_sync(cv, 4);
    sched_point(K_COND_SIGNAL);
    touch_sync(cv, 4);
    Cond& q = slot(conds, (uptr)cv);
    if (!q.waiters.empty()) {
        uint32_t i = choose((uint32_t)q.waiters.size(), cfg.sched.p > 0 || cfg.sched.mode);
        Thr* t = q.waiters[i];
        q.waiters.erase(q.waiters.begin() + i);
        t->signalled = true;
        wake(t);
    }
    return 0;
}
int pthread_cond_broadcast(pthread_cond_t* cv)
{
    if (!SIMCTX) {
        REAL(int, pthread_cond_broadcast, pthread_cond_t*);
        return real_pthread_cond_broadcast(cv);
    }
    Ctx c;
    R->counters[C_COND]++;
    touch_sync(cv, 4);
    sched_point(K_COND_SIGNAL, 1);
    touch_sync(cv, 4);
    Cond& q = slot(conds, (uptr)cv);
    for (auto* t : q.waiters) {
        t->signalled = true;
        wake(t);
    }
    q.waiters.clear();
    return 0;
}

int pthread_rwlock_rdlock(pthread_rwlock_t* l)
{
    if (!SIMCTX) {
        REAL(int, pthread_rwlock_rdlock, pthread_rwlock_t*);
        return real_pthread_rwlock_rdlock(l);
    }
    Ctx c;
    R->counters[C_MUTEX]++;
    sched_point(K_MUTEX_LOCK, 2);
    Rw& x = slot(rws, (uptr)l);
    while (x.writer) {
        x.waiters.push_back(self);
        block(K_MUTEX_LOCK, (uptr)l, 0);
    }
    x.readers++;
    self->vc.join(x.vc);
    return 0;
}
int pthread_rwlock_wrlock(pthread_rwlock_t* l)
{
    if (!SIMCTX) {
        REAL(int, pthread_rwlock_wrlock, pthread_rwlock_t*);
        return real_pthread_rwlock_wrlock(l);
    }
    Ctx c;
    R->counters[C_MUTEX]++;
    sched_point(K_MUTEX_LOCK, 3);
    Rw& x = slot(rws, (uptr)l);
    while (x.writer || x.readers) {
        x.waiters.push_back(self);
        block(K_MUTEX_LOCK, (uptr)l, 0);
    }
    x.writer = self;
    self->vc.join(x.vc);
    self->vc.join(x.rvc);
    return 0;
}
int pthread_rwlock_tryrdlock(pthread_rwlock_t* l)
{
    if (!SIMCTX) {
        REAL(int, pthread_rwlock_tryrdlock, pthread_rwlock_t*);
        return real_pthread_rwlock_tryrdlock(l);
    }
    Ctx c;
    sched_point(K_MUTEX_LOCK, 4);
    Rw& x = slot(rws, (uptr)l);
    if (x.writer) return EBUSY;
    x.readers++;
    self->vc.join(x.vc);
    return 0;
}
int pthread_rwlock_trywrlock(pthread_rwlock_t* l)
{
    if (!SIMCTX) {
        REAL(int, pthread_rwlock_trywrlock, pthread_rwlock_t*);
        return real_pthread_rwlock_trywrlock(l);
    }
    Ctx c;
    sched_point(K_MUTEX_LOCK, 5);
    Rw& x = slot(rws, (uptr)l);
    if (x.writer || x.readers) return EBUSY;
    x.writer = self;
    self->vc.join(x.vc);
    self->vc.join(x.rvc);
    return 0;
}
int pthread_rwlock_unlock(pthread_rwlock_t* l)
{
    if (!SIMCTX) {
        REAL(int, pthread_rwlock_unlock, pthread_rwlock_t*);
        return real_pthread_rwlock_unlock(l);
    }
    Ctx c;
    Rw& x = slot(rws, (uptr)l);
    if (x.writer == self) {
        x.writer = nullptr;
        x.vc.join(self->vc);
    } else if (x.readers > 0) {
        x.readers--;
        x.rvc.join(self->vc);
    } else
        violation("bad-unlock", "T%d unlocks a read-write lock it does not hold", self->tid);
    bump(self);
    for (auto* t : x.waiters) wake(t);
    x.waiters.clear();
    sched_point(K_MUTEX_UNLOCK, 2);
    return 0;
}
int pthread_rwlock_init(pthread_rwlock_t* l, const pthread_rwlockattr_t* a)
{
    REAL(int, pthread_rwlock_init, pthread_rwlock_t*, const pthread_rwlockattr_t*);
    if (SIMCTX) {
        Ctx c;
        if (rws) rws->erase((uptr)l);
    }
    return real_pthread_rwlock_init(l, a);
}
int pthread_rwlock_destroy(pthread_rwlock_t* l)
{
    REAL(int, pthread_rwlock_destroy, pthread_rwlock_t*);
    if (SIMCTX) {
        Ctx c;
        if (rws) rws->erase((uptr)l);
        return 0;
    }
    return real_pthread_rwlock_destroy(l);
}
// POSIX semaphores and spin locks
static int sem_take(sem_t* s, bool tryonly, uint64_t deadline)
{
    Ctx c;
    touch_sync(s, 4);
    sched_point(K_FUTEX_WAIT, 8);
    touch_sync(s, 4);
    Sem& x = slot(sems, (uptr)s);
    while (x.v <= 0) {
        if (tryonly || (deadline && g_now >= deadline)) {
            errno = tryonly ? EAGAIN : ETIMEDOUT;
            return -1;
        }
        x.waiters.push_back(self);
        block(K_FUTEX_WAIT, (uptr)s, deadline);
        auto it = std::find(x.waiters.begin(), x.waiters.end(), self);
        if (it != x.waiters.end()) x.waiters.erase(it);
    }
    x.v--;
    self->vc.join(x.vc);
    return 0;
}
int sem_init(sem_t* s, int shared, unsigned v)
{
    REAL(int, sem_init, sem_t*, int, unsigned);
    if (SIMCTX) {
        Ctx c;
        Sem& x = slot(sems, (uptr)s);
        x = Sem();
        x.v = v;
        return 0;
    }
    return real_sem_init(s, shared, v);
}
int sem_destroy(sem_t* s)
{
    REAL(int, sem_destroy, sem_t*);
    if (SIMCTX) {
        Ctx c;
        if (sems) sems->erase((uptr)s);
        return 0;
    }
    return real_sem_destroy(s);
}
int sem_wait(sem_t* s)
{
    REAL(int, sem_wait, sem_t*);
    return SIMCTX ? sem_take(s, false, 0) : real_sem_wait(s);
}
int sem_trywait(sem_t* s)
{
    REAL(int, sem_trywait, sem_t*);
    return SIMCTX ? sem_take(s, true, 0) : real_sem_trywait(s);
}
int sem_timedwait(sem_t* s, const struct timespec* ts)
{
    REAL(int, sem_timedwait, sem_t*, const struct timespec*);
    return SIMCTX ? sem_take(s, false, ts->tv_sec * 1000000ull + ts->tv_nsec / 1000 + 1) : real_sem_timedwait(s, ts);
}
int sem_clockwait(sem_t* s, clockid_t k, const struct timespec* ts)
{
    REAL(int, sem_clockwait, sem_t*, clockid_t, const struct timespec*);
    return SIMCTX ? sem_timedwait(s, ts) : real_sem_clockwait(s, k, ts);
}
int sem_post(sem_t* s)
{
    REAL(int, sem_post, sem_t*);
    if (!SIMCTX) return real_sem_post(s);
    Ctx c;
    touch_sync(s, 4);
    Sem& x = slot(sems, (uptr)s);
    x.v++;
    x.vc.join(self->vc);
    bump(self);
    if (!x.waiters.empty()) {
        uint32_t i = choose((uint32_t)x.waiters.size(), cfg.sched.p > 0 || cfg.sched.mode);
        Thr* t = x.waiters[i];
        x.waiters.erase(x.waiters.begin() + i);
        wake(t);
    }
    sched_point(K_FUTEX_WAKE, 8);
    return 0;
}
int sem_getvalue(sem_t* s, int* v)
{
    REAL(int, sem_getvalue, sem_t*, int*);
    if (!SIMCTX) return real_sem_getvalue(s, v);
    Ctx c;
    *v = (int)slot(sems, (uptr)s).v;
    return 0;
}
int pthread_spin_init(pthread_spinlock_t* l, int)
{
    *l = 0;
    if (SIMCTX) {
        Ctx c;
        if (spins) spins->erase((uptr)l);
    }
    return 0;
}
int pthread_spin_destroy(pthread_spinlock_t*) { return 0; }
static int spin_take(pthread_spinlock_t* l, bool tryonly)
{
    if (!SIMCTX) {
        while (__atomic_exchange_n(l, 1, __ATOMIC_ACQUIRE))
            if (tryonly) return EBUSY;
        return 0;
    }
    Ctx c;
    touch_sync((void*)l, 4);
    sched_point(K_MUTEX_LOCK, 6);
    touch_sync((void*)l, 4);
    Mtx& x = slot(spins, (uptr)l);
    if (tryonly && x.owner) return EBUSY;
    mutex_lock_body(x, (uptr)l);
    return 0;
}
int pthread_spin_lock(pthread_spinlock_t* l) { return spin_take(l, false); }
int pthread_spin_trylock(pthread_spinlock_t* l) { return spin_take(l, true); }
int pthread_spin_unlock(pthread_spinlock_t* l)
{
    if (!SIMCTX) {
        __atomic_store_n(l, 0, __ATOMIC_RELEASE);
        return 0;
    }
    Ctx c;
    Mtx& x = slot(spins, (uptr)l);
    if (x.owner != self) violation("bad-unlock", "T%d unlocks a spin lock it does not hold", self->tid);
    mutex_unlock_body(x);
    sched_point(K_MUTEX_UNLOCK, 6);
    return 0;
}
int pthread_once(pthread_once_t* o, void (*fn)(void))
{
    if (!SIMCTX) {
        REAL(int, pthread_once, pthread_once_t*, void (*)(void));
        return real_pthread_once(o, fn);
    }
    Mtx* g;
    {
        Ctx c;
        sched_point(K_MUTEX_LOCK, 6);
        g = &slot(guards, (uptr)o);
        while (g->owner) {
            g->waiters.push_back(self);
            block(K_MUTEX_LOCK, (uptr)o, 0);
        }
        if (slot(onces, (uptr)o) || *o == 2) {
            self->vc.join(g->vc);
            return 0;
        }
        g->owner = self;
    }
    fn();
    {
        Ctx c;
        slot(onces, (uptr)o) = 1;
        *o = 2;
        mutex_unlock_body(*g);
    }
    return 0;
}

// function-local statics
int __cxa_guard_acquire(__cxxabiv1::__guard* g)
{
    REAL(int, __cxa_guard_acquire, __cxxabiv1::__guard*);
    if (!SIMCTX) return real___cxa_guard_acquire(g);
    Ctx c;
    sched_point(K_MUTEX_LOCK, 8);
    Mtx& x = slot(guards, (uptr)g);
    while (x.owner) {
        if (x.owner == self) violation("recursive-init", "recursive initialisation of a static");
        x.waiters.push_back(self);
        block(K_MUTEX_LOCK, (uptr)g, 0);
    }
    self->vc.join(x.vc);
    if (*(char*)g) return 0;
    x.owner = self;
    return 1;
}
void __cxa_guard_release(__cxxabiv1::__guard* g) noexcept
{
    REAL(void, __cxa_guard_release, __cxxabiv1::__guard*);
    if (!SIMCTX) return real___cxa_guard_release(g);
    Ctx c;
    *(char*)g = 1;
    Mtx& x = slot(guards, (uptr)g);
    slot(syncs, (uptr)g).join(self->vc);
    mutex_unlock_body(x);
}
void __cxa_guard_abort(__cxxabiv1::__guard* g) noexcept
{
    REAL(void, __cxa_guard_abort, __cxxabiv1::__guard*);
    if (!SIMCTX) return real___cxa_guard_abort(g);
    Ctx c;
    Mtx& x = slot(guards, (uptr)g);
    mutex_unlock_body(x);
}

// futex based waiting (std::latch, std::atomic::wait, semaphores, barriers)
long syscall(long n, ...)
{
    va_list ap;
    va_start(ap, n);
    long a = va_arg(ap, long), b = va_arg(ap, long), cc = va_arg(ap, long), d = va_arg(ap, long), e = va_arg(ap, long), f = va_arg(ap, long);
    va_end(ap);
    if (!SIMCTX || n != SYS_futex) {
        if (SIMCTX && n == SYS_sched_yield) {
            Ctx c;
            sched_point(K_YIELD);
            return 0;
        }
        long r = raw_syscall(n, a, b, cc, d, e, f);
        if (r < 0 && r > -4096) {
            errno = (int)-r;
            return -1;
        }
        return r;
    }
    Ctx c;
    R->counters[C_FUTEX]++;
    int op = (int)b & FUTEX_CMD_MASK;
    if (op == FUTEX_WAIT || op == FUTEX_WAIT_BITSET) {
        touch_sync((void*)a, 4);
        sched_point(K_FUTEX_WAIT);
        touch_sync((void*)a, 4);
        if (*(volatile int*)a != (int)cc) {
            errno = EAGAIN;
            return -1;
        }
        if (spurious()) {
            errno = EINTR;
            return -1;
        }
        uint64_t dl = 0;
        if (d) {
            const struct timespec* ts = (const struct timespec*)d;
            dl = ts->tv_sec * 1000000ull + ts->tv_nsec / 1000;
            if (op == FUTEX_WAIT) dl += g_now;
            if (!dl) dl = 1;
        }
        slot(futexes, (uptr)a).push_back(self);
        block(K_FUTEX_WAIT, (uptr)a, dl);
        auto& v = slot(futexes, (uptr)a);
        auto it = std::find(v.begin(), v.end(), self);
        if (it != v.end()) v.erase(it);
        if (self->timed_out) {
            errno = ETIMEDOUT;
            return -1;
        }
        return 0;
    }
    if (op == FUTEX_WAKE || op == FUTEX_WAKE_BITSET) {
        sched_point(K_FUTEX_WAKE);
        auto& v = slot(futexes, (uptr)a);
        long woken = 0;
        while (!v.empty() && woken < (long)(int)cc) {
            uint32_t i = (int)cc == 1 ? choose((uint32_t)v.size(), cfg.sched.p > 0 || cfg.sched.mode) : 0;
            Thr* t = v[i];
            v.erase(v.begin() + i);
            wake(t);
            ++woken;
        }
        return woken;
    }
    internal_error("unsupported futex operation %d", op);
}
int sched_yield(void)
{
    if (!SIMCTX) return (int)raw_syscall(SYS_sched_yield, 0, 0, 0, 0, 0, 0);
    Ctx c;
    sched_point(K_YIELD);
    return 0;
}

// clocks
static uint64_t ts_us(const struct timespec* t) { return t->tv_sec * 1000000ull + t->tv_nsec / 1000; }
int clock_gettime(clockid_t id, struct timespec* ts)
{
    if (!SIMCTX) {
        REAL(int, clock_gettime, clockid_t, struct timespec*);
        return real_clock_gettime(id, ts);
    }
    g_now += 1;
    ts->tv_sec = g_now / 1000000;
    ts->tv_nsec = (g_now % 1000000) * 1000;
    return 0;
}
int gettimeofday(struct timeval* tv, void* tz)
{
    if (!SIMCTX) {
        REAL(int, gettimeofday, struct timeval*, void*);
        return real_gettimeofday(tv, tz);
    }
    g_now += 1;
    tv->tv_sec = g_now / 1000000;
    tv->tv_usec = g_now % 1000000;
    return 0;
}
time_t time(time_t* t)
{
    time_t v;
    if (!SIMCTX) {
        struct timespec ts;
        REAL(int, clock_gettime, clockid_t, struct timespec*);
        real_clock_gettime(CLOCK_REALTIME, &ts);
        v = ts.tv_sec;
    } else
        v = g_now / 1000000;
    if (t) *t = v;
    return v;
}
int nanosleep(const struct timespec* rq, struct timespec* rm)
{
    if (!SIMCTX) {
        REAL(int, nanosleep, const struct timespec*, struct timespec*);
        return real_nanosleep(rq, rm);
    }
    Ctx c;
    block(K_SLEEP, 0, g_now + std::max<uint64_t>(1, ts_us(rq)));
    return 0;
}
int clock_nanosleep(clockid_t id, int flags, const struct timespec* rq, struct timespec* rm)
{
    if (!SIMCTX) {
        REAL(int, clock_nanosleep, clockid_t, int, const struct timespec*, struct timespec*);
        return real_clock_nanosleep(id, flags, rq, rm);
    }
    Ctx c;
    block(K_SLEEP, 0, (flags & TIMER_ABSTIME) ? ts_us(rq) : g_now + std::max<uint64_t>(1, ts_us(rq)));
    return 0;
}
int usleep(useconds_t us)
{
    if (!SIMCTX) {
        REAL(int, usleep, useconds_t);
        return real_usleep(us);
    }
    Ctx c;
    block(K_SLEEP, 0, g_now + std::max<uint64_t>(1, us));
    return 0;
}
unsigned sleep(unsigned s)
{
    if (!SIMCTX) {
        REAL(unsigned, sleep, unsigned);
        return real_sleep(s);
    }
    Ctx c;
    block(K_SLEEP, 0, g_now + std::max<uint64_t>(1, s * 1000000ull));
    return 0;
}

// environment
int get_nprocs(void)
{
    if (!self) {
        REAL(int, get_nprocs, void);
        return real_get_nprocs();
    }
    return cfg.nproc;
}
pid_t getpid(void)
{
    if (!SIMCTX) return (pid_t)raw_syscall(SYS_getpid, 0, 0, 0, 0, 0, 0);
    return cfg.pid;
}
ssize_t getrandom(void* p, size_t n, unsigned fl)
{
    if (!SIMCTX) {
        long r = raw_syscall(SYS_getrandom, (long)p, n, fl, 0, 0, 0);
        return r;
    }
    for (size_t i = 0; i < n; ++i) ((unsigned char*)p)[i] = (unsigned char)r_misc.next();
    return n;
}
int getentropy(void* p, size_t n)
{
    getrandom(p, n, 0);
    return 0;
}
uint32_t arc4random(void)
{
    if (!SIMCTX) {
        REAL(uint32_t, arc4random, void);
        return real_arc4random();
    }
    return (uint32_t)r_misc.next();
}
int rand(void)
{
    if (!SIMCTX) {
        REAL(int, rand, void);
        return real_rand();
    }
    return (int)(r_misc.next() & 0x7fffffff);
}
void exit(int code)
{
    if (SIMCTX) violation("process-exit", "exit(%d) called by the code under test", code);
    REAL(void, exit, int);
    real_exit(code);
    __builtin_unreachable();
}
void abort(void)
{
    if (self && !ended) {
        ++self->rt;
        std::string s = stack_of_self();
        violation("abort", "abort() in API call %d; stack:%s", g_phase, s.c_str());
    }
    raw_exit(134);
    __builtin_unreachable();
}

// ====================================================================== interposed libc: heap
static void* sim_malloc(size_t n, size_t align, bool zero)
{
    Ctx c;
    R->counters[C_ALLOCS]++;
    if (n >= cfg.alloc_min) {
        static const int codes[] = { ENOMEM };
        if (fault(F_MALLOC, nullptr, codes, 1)) {
            if (n < 1024) R->counters[C_SMALL_FAILED]++;
            errno = ENOMEM;
            return nullptr;
        }
    }
    void* p = arena_alloc(n, align, zero, false);
    if (!p) errno = ENOMEM;
    return p;
}
void* malloc(size_t n)
{
    if (!SIMCTX) return __libc_malloc(n);
    return sim_malloc(n, 16, false);
}
void free(void* p)
{
    if (!p) return;
    if (in_heap(p)) {
        if (SIMCTX) R->counters[C_ALLOCS] += 0;
        arena_free(p);
        return;
    }
    __libc_free(p);
}
void* calloc(size_t a, size_t b)
{
    if (!SIMCTX) return __libc_calloc(a, b);
    size_t n;
    if (__builtin_mul_overflow(a, b, &n)) return nullptr;
    return sim_malloc(n, 16, true);
}
void* realloc(void* p, size_t n)
{
    if (p && in_heap(p)) {
        Hdr* h = (Hdr*)((uptr)p - sizeof(Hdr));
        size_t old = h->magic == HDR_MAGIC && h->index < nblocks ? blocks[h->index].size : 0;
        void* q = SIMCTX ? sim_malloc(n, 16, false) : __libc_malloc(n);
        if (!q) return nullptr;
        memcpy(q, p, old < n ? old : n);
        arena_free(p);
        return q;
    }
    if (!SIMCTX) return __libc_realloc(p, n);
    if (!p) return sim_malloc(n, 16, false);
    return __libc_realloc(p, n);
}
void* reallocarray(void* p, size_t a, size_t b)
{
    size_t n;
    if (__builtin_mul_overflow(a, b, &n)) return nullptr;
    return realloc(p, n);
}
void* memalign(size_t al, size_t n)
{
    if (!SIMCTX) return __libc_memalign(al, n);
    return sim_malloc(n, al, false);
}
void* aligned_alloc(size_t al, size_t n) { return memalign(al, n); }
int posix_memalign(void** out, size_t al, size_t n)
{
    void* p = memalign(al, n);
    if (!p) return ENOMEM;
    *out = p;
    return 0;
}
size_t malloc_usable_size(void* p)
{
    if (p && in_heap(p)) {
        Hdr* h = (Hdr*)((uptr)p - sizeof(Hdr));
        return blocks[h->index].size;
    }
    REAL(size_t, malloc_usable_size, void*);
    return real_malloc_usable_size(p);
}

// ====================================================================== instrumentation callbacks
#define PC ((uptr)__builtin_return_address(0))
void __tsan_init() {}
void __tsan_func_entry(void*)
{
    Thr* t = self;
    if (!t || t->rt) return;
    if (t->depth < 512) t->pcs[t->depth] = PC;
    t->depth++;
}
void __tsan_func_exit()
{
    Thr* t = self;
    if (!t || t->rt) return;
    if (t->depth > 0) t->depth--;
}
#define ACC(N)                                                                                     \
    void __tsan_read##N(void* a) { access((uptr)a, N, false, false, PC); }                          \
    void __tsan_write##N(void* a) { access((uptr)a, N, true, false, PC); }                          \
    void __tsan_unaligned_read##N(void* a) { access((uptr)a, N, false, false, PC); }                \
    void __tsan_unaligned_write##N(void* a) { access((uptr)a, N, true, false, PC); }                \
    void __tsan_read_write##N(void* a) { access((uptr)a, N, true, false, PC); }                     \
    void __tsan_unaligned_read_write##N(void* a) { access((uptr)a, N, true, false, PC); }
ACC(1) ACC(2) ACC(4) ACC(8) ACC(16)
#undef ACC
void __tsan_read_range(void* a, unsigned long n) { access_range((uptr)a, n, false, PC); }
void __tsan_write_range(void* a, unsigned long n) { access_range((uptr)a, n, true, PC); }
void __tsan_vptr_read(void** a) { access((uptr)a, 8, false, false, PC); }
void __tsan_vptr_update(void** a, void* v)
{
    // re-writing the same vptr is benign, so counts as a read; it is an access in any case,
    // because what was there before may be stale stack contents
    access((uptr)a, 8, *a != v, false, PC);
}
void __tsan_ignore_thread_begin() {}
void __tsan_ignore_thread_end() {}
void* __tsan_memcpy(void* d, const void* s, size_t n)
{
    access_range((uptr)s, n, false, PC);
    access_range((uptr)d, n, true, PC);
    return memcpy(d, s, n);
}
void* __tsan_memmove(void* d, const void* s, size_t n)
{
    access_range((uptr)s, n, false, PC);
    access_range((uptr)d, n, true, PC);
    return memmove(d, s, n);
}
void* __tsan_memset(void* d, int v, size_t n)
{
    access_range((uptr)d, n, true, PC);
    return memset(d, v, n);
}
} // extern "C"

namespace rt {
// acquire/release bookkeeping for atomics (memory orders as in <atomic>)
static inline bool is_acq(int mo) { return mo == __ATOMIC_ACQUIRE || mo == __ATOMIC_CONSUME || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }
static inline bool is_rel(int mo) { return mo == __ATOMIC_RELEASE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }
static void atomic_pre(uptr a, unsigned n, bool w, uptr pc)
{
    // called with rt == 0
    Thr* t = self;
    ++t->rt;
    R->counters[C_ATOMIC]++;
    sched_point(K_ATOMIC);
    --t->rt;
    access(a, n, w, true, pc);
}
static void atomic_acq(uptr a, int mo)
{
    if (!g_race) return;
    Thr* t = self;
    ++t->rt;
    if (syncs) {
        auto it = syncs->find(a);
        if (it != syncs->end()) {
            if (is_acq(mo)) t->vc.join(it->second);
            else t->acq_pending.join(it->second);
        }
    }
    --t->rt;
}
static void atomic_rel(uptr a, int mo)
{
    if (!g_race) return;
    Thr* t = self;
    ++t->rt;
    if (is_rel(mo)) {
        slot(syncs, a).join(t->vc);
        bump(t);
    } else if (t->have_rel_fence) {
        slot(syncs, a).join(t->rel_fence);
    }
    --t->rt;
}
} // namespace rt

#define ASIM (self && self->rt == 0 && !ended)
#define ATOMICS(BITS, T)                                                                            \
    extern "C" T __tsan_atomic##BITS##_load(const volatile T* a, int mo)                            \
    {                                                                                              \
        if (ASIM) atomic_pre((uptr)a, sizeof(T), false, PC);                                        \
        T v = __atomic_load_n(a, __ATOMIC_SEQ_CST);                                                 \
        if (ASIM) atomic_acq((uptr)a, mo);                                                          \
        return v;                                                                                  \
    }                                                                                              \
    extern "C" void __tsan_atomic##BITS##_store(volatile T* a, T v, int mo)                         \
    {                                                                                              \
        if (ASIM) {                                                                                \
            atomic_pre((uptr)a, sizeof(T), true, PC);                                               \
            atomic_rel((uptr)a, mo);                                                                \
        }                                                                                          \
        __atomic_store_n(a, v, __ATOMIC_SEQ_CST);                                                   \
    }                                                                                              \
    extern "C" T __tsan_atomic##BITS##_exchange(volatile T* a, T v, int mo)                         \
    {                                                                                              \
        if (ASIM) {                                                                                \
            atomic_pre((uptr)a, sizeof(T), true, PC);                                               \
            atomic_acq((uptr)a, mo);                                                                \
            atomic_rel((uptr)a, mo);                                                                \
        }                                                                                          \
        return __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST);                                         \
    }                                                                                              \
    ATOMIC_RMW(BITS, T, fetch_add)                                                                  \
    ATOMIC_RMW(BITS, T, fetch_sub)                                                                  \
    ATOMIC_RMW(BITS, T, fetch_and)                                                                  \
    ATOMIC_RMW(BITS, T, fetch_or)                                                                   \
    ATOMIC_RMW(BITS, T, fetch_xor)                                                                  \
    ATOMIC_RMW(BITS, T, fetch_nand)                                                                 \
    extern "C" T __tsan_atomic##BITS##_compare_exchange_val(volatile T* a, T c, T v, int mo, int fmo) \
    {                                                                                              \
        bool sim = ASIM;                                                                           \
        if (sim) atomic_pre((uptr)a, sizeof(T), true, PC);                                          \
        T cur = c;                                                                                 \
        bool ok = __atomic_compare_exchange_n(a, &cur, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); \
        if (sim) {                                                                                 \
            atomic_acq((uptr)a, ok ? mo : fmo);                                                     \
            if (ok) atomic_rel((uptr)a, mo);                                                        \
        }                                                                                          \
        return ok ? c : cur;                                                                       \
    }                                                                                              \
    extern "C" int __tsan_atomic##BITS##_compare_exchange_strong(volatile T* a, T* c, T v, int mo, int fmo) \
    {                                                                                              \
        T exp = *c;                                                                                \
        T got = __tsan_atomic##BITS##_compare_exchange_val(a, exp, v, mo, fmo);                     \
        if (got == exp) return 1;                                                                  \
        *c = got;                                                                                  \
        return 0;                                                                                  \
    }                                                                                              \
    extern "C" int __tsan_atomic##BITS##_compare_exchange_weak(volatile T* a, T* c, T v, int mo, int fmo) \
    {                                                                                              \
        return __tsan_atomic##BITS##_compare_exchange_strong(a, c, v, mo, fmo);                     \
    }
#define ATOMIC_RMW(BITS, T, OP)                                                                     \
    extern "C" T __tsan_atomic##BITS##_##OP(volatile T* a, T v, int mo)                             \
    {                                                                                              \
        if (ASIM) {                                                                                \
            atomic_pre((uptr)a, sizeof(T), true, PC);                                               \
            atomic_acq((uptr)a, mo);                                                                \
            atomic_rel((uptr)a, mo);                                                                \
        }                                                                                          \
        return __atomic_##OP(a, v, __ATOMIC_SEQ_CST);                                               \
    }
ATOMICS(8, uint8_t)
ATOMICS(16, uint16_t)
ATOMICS(32, uint32_t)
ATOMICS(64, uint64_t)

extern "C" void __tsan_atomic_thread_fence(int mo)
{
    if (ASIM && g_race) {
        Thr* t = self;
        if (is_acq(mo)) t->vc.join(t->acq_pending);
        if (is_rel(mo)) {
            t->rel_fence = t->vc;
            t->have_rel_fence = true;
            bump(t);
        }
    }
    __atomic_thread_fence(__ATOMIC_SEQ_CST);
}
extern "C" void __tsan_atomic_signal_fence(int) {}

// std::thread::hardware_concurrency in libstdc++ reads get_nprocs(); bind it directly as well
extern "C" unsigned _ZNSt6thread20hardware_concurrencyEv() noexcept
{
    if (rt::self) return (unsigned)rt::cfg.nproc;
    return 8;
}
