// Deterministic simulation runtime: one simulated process, its threads, clock,
// heap, memory-access monitor and fault plan.  See DESIGN.md.
#pragma once
#include <cstdarg>
#include <cstddef>
#include <cstdint>
#include <functional>
#include <string>
#include <vector>

namespace rt {

typedef uintptr_t uptr;

// ---------------------------------------------------------------- PRNG
struct Rng
{
    uint64_t s[2];
    explicit Rng(uint64_t seed = 1) { reseed(seed); }
    static uint64_t mix(uint64_t& x)
    {
        uint64_t z = (x += 0x9E3779B97F4A7C15ull);
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
        return z ^ (z >> 31);
    }
    void reseed(uint64_t seed)
    {
        s[0] = mix(seed);
        s[1] = mix(seed);
    }
    uint64_t next()
    {
        uint64_t a = s[0], b = s[1], r = a + b;
        b ^= a;
        s[0] = ((a << 24) | (a >> 40)) ^ b ^ (b << 16);
        s[1] = (b << 37) | (b >> 27);
        return r;
    }
    uint64_t below(uint64_t n) { return n ? next() % n : 0; }
    int64_t range(int64_t lo, int64_t hi) { return lo + (int64_t)below(hi - lo + 1); }
    bool chance(double p) { return (double)(next() >> 11) * 0x1.0p-53 < p; }
};

// ---------------------------------------------------------------- faults
enum FaultClass
{
    F_OPEN = 0,   // open(2)/fopen of a file for writing
    F_WRITE,      // write/writev/pwrite/pwritev fails
    F_SHORT,      // write transfers fewer bytes
    F_EINTR,      // write interrupted before any byte
    F_MKDIR,
    F_STAT,
    F_UNLINK,     // unlink/rmdir/rename
    F_READDIR,    // opendir/readdir
    F_MALLOC,     // allocation of at least alloc_min bytes
    F_THREAD,     // pthread_create
    F_BLOSC,      // blosc_compress_ctx
    F_S3_PRE,     // request fails without effect
    F_S3_POST,    // request takes effect, response lost
    F_S3_DEAD,    // a connection that cannot be established
    F_DISKFULL,   // disk capacity reached (consequence of capacity, not drawn)
    F_SPURIOUS,   // spurious condition-variable / futex wake-up
    F_CRASH,      // process killed at a step
    F_TORN,       // file lost, cut or holed when the machine went down
    F_NCLASS
};
extern const char* const fault_names[F_NCLASS];

// ---------------------------------------------------------------- counters
enum Counter
{
    C_STEPS = 0,
    C_SWITCHES,
    C_DECISIONS,
    C_THREADS,
    C_MUTEX,
    C_COND,
    C_FUTEX,
    C_ATOMIC,
    C_FSOPS,
    C_S3OPS,
    C_LOGLINES,
    C_ALLOCS,
    C_ACCESSES,
    C_SIMTIME_US,
    C_APPENDS,
    C_APPENDS_FAILED,
    C_CREATES,
    C_CREATES_FAILED,
    C_CHUNKS_CHECKED,
    C_CRASHPOINTS,
    C_SMALL_FAILED, // allocations of less than 1 KiB that were made to fail
    C_OOM_ENDS,     // runs that ended in std::terminate or abort after such a failure
    C_NCOUNTER
};
extern const char* const counter_names[C_NCOUNTER];

struct Dev  // a scheduling decision that deviates from the default
{
    uint32_t k;
    uint32_t v;
};
struct FaultRec
{
    uint16_t cls;
    uint16_t code;
    uint32_t occ;
    uint64_t arg;
};

enum { MAX_DEV = 400000, MAX_FREC = 20000, MAX_PROBE = 64 };

enum Status
{
    ST_NONE = 0,
    ST_OK = 1,
    ST_VIOLATION = 2,
    ST_INTERNAL = 3,
    ST_HANG = 4,
    ST_SKIP = 5
};

struct Result  // lives in memory shared between the driver and the run
{
    volatile int status;
    char cls[64];
    char msg[8192];
    uint64_t event_hash;
    uint64_t ileave_hash;
    uint64_t content_hash;
    uint64_t counters[C_NCOUNTER];
    uint64_t faults[F_NCLASS];
    uint64_t fault_sites;
    uint64_t edge_bits[1024];   // distinct (function, function) preemption edges
    uint64_t probe[MAX_PROBE];
    uint32_t finding_mask;      // known-finding style notes raised by oracles
    uint32_t dev_overflow;
    uint32_t ndev;
    uint32_t nfrec;
    Dev dev[MAX_DEV];
    FaultRec frec[MAX_FREC];
};
extern Result* R;

// ---------------------------------------------------------------- configuration
struct SchedCfg
{
    int mode = 0;        // 0 random walk, 1 PCT, 2 starve
    double p = 0.1;      // switch probability (random walk)
    int depth = 3;       // PCT change points
    uint32_t horizon = 2000; // PCT step horizon
    int starve = 0;      // starved thread ordinal
    double spurious = 0; // spurious wake-up probability
    double plain = 0;    // switch probability at plain memory accesses
};

struct PlanEntry
{
    int cls = 0;
    int phase = -1;  // API call number, -1 any
    uint32_t nth = 1; // n-th eligible operation of that phase
    uint32_t count = 1; // consecutive operations that fail (0 = for ever)
    int code = 0;
    double rate = 0; // if > 0, probability instead of nth/count
    std::string match; // substring of path, empty = any
};

struct Cfg
{
    uint64_t seed = 1;
    int nproc = 2;
    int pattern = 0; // heap fill: 0..255 byte, 256 random
    bool race = false;
    bool memcheck = false;
    SchedCfg sched;
    std::vector<PlanEntry> plan;
    uint64_t alloc_min = 2048;
    int64_t disk_blocks = -1; // 4 KiB blocks, -1 = unlimited
    uint64_t max_steps = 3000000;
    uint64_t max_accesses = 1500000000ull;
    uint64_t crash_step = 0;
    uint64_t clock0 = 1700000000000000ull; // us
    int pid = 4242;
    int dir_order = 0; // readdir order
    // replay
    bool replay = false;
    std::vector<Dev> rdev, rplain;
    std::vector<FaultRec> rfaults;
};
extern Cfg cfg;

void init_process();            // once, in the driver, before any fork
void run(const Cfg& c, const std::function<void()>& workload); // in the child; does not return
void reconfigure(const Cfg& c); // between the two legs of a differential run

// ---------------------------------------------------------------- services for the harness
struct Thr;
extern __thread Thr* self;

void enter_rt();
void leave_rt();
extern bool harness_spawns; // threads created now are the harness's own: creating them never fails
struct Guard  // harness / runtime code inside a simulated thread
{
    Guard() { enter_rt(); }
    ~Guard() { leave_rt(); }
};
int push_sut(); // run code under test: runtime depth becomes 0
void pop_sut(int saved);
struct Sut
{
    int saved;
    Sut() : saved(push_sut()) {}
    ~Sut() { pop_sut(saved); }
};
bool in_sut();

enum Kind
{
    K_MUTEX_LOCK = 1, K_MUTEX_UNLOCK, K_COND_WAIT, K_COND_SIGNAL, K_FUTEX_WAIT, K_FUTEX_WAKE,
    K_ATOMIC, K_CREATE, K_JOIN, K_EXIT, K_FS, K_S3, K_LOG, K_BLOSC, K_YIELD, K_SLEEP, K_USER, K_PLAIN
};
void sched_point(int kind, uint64_t detail = 0);
void no_preempt(int delta);
void event(uint64_t a, uint64_t b = 0, uint64_t c = 0); // into the event hash
void event_bytes(const void* p, size_t n);
void trace(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
extern bool tracing;
[[noreturn]] void violation(const char* cls, const char* fmt, ...) __attribute__((format(printf, 2, 3)));
[[noreturn]] void internal_error(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
[[noreturn]] void finish_ok();
int fault(int cls, const char* path, const int* codes, int ncodes, uint64_t* arg = nullptr, uint64_t argmax = 0);
void note_fault(int cls); // count a fault that follows from the configuration
void set_phase(int ph);
int phase();
uint64_t now_us();
uint64_t steps();
void advance_us(uint64_t us);
Rng& data_rng();
int tid();
int live_threads(); // simulated threads other than the caller not yet finished
std::string stack_of_self();
void count(int c, uint64_t n = 1);
void probe(int i);

// range checks of buffers handed to interposed functions
void check_range(const void* p, size_t n, bool write, const char* what);

// heap
void* sim_alloc(size_t n);          // exact-size caller-owned buffer with red zones
void sim_free(void* p);
uint64_t live_bytes();  // blocks of the code under test
uint64_t live_blocks();
std::string busiest_site(uint64_t from, uint64_t to);
uint64_t alloc_mark();              // allocation sequence number
bool find_leak(uint64_t mark, std::string& what); // unreachable-by-owner live blocks since mark
void set_race(bool on);

// blocking primitives for harness-side seams (S3 latency etc.)
void sleep_us(uint64_t us);

// called by run() on a simulated crash / crash_step
extern std::function<void()> on_crash;
// raw libc access for the harness
void* real_sym(const char* name);
} // namespace rt
