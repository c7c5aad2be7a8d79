#pragma once
#include "model.h"
#include "rt.h"
#include "simfs.h"
#include "sims3.h"
#include <functional>
#include <memory>
#include <set>

extern "C" {
#include "acquire.zarr.h"
}

// ---- log capture
struct LogLine
{
    int stream; // 1 stdout, 2 stderr
    int tid;
    bool mixed;
    std::string text;
};
extern std::vector<LogLine> log_lines;
void log_install();
std::string log_partial(int stream);
uint64_t log_errors(); // [ERROR] lines on stderr so far

// ---- one stream under test together with its reference model
enum Monitor
{
    M_FINAL = 1, M_INDEX = 2, M_META = 4, M_CRASH = 8, M_ACK = 16, M_STOP = 32, M_FROZEN = 64, M_LEAK = 128,
    M_SCOPE = 256, M_SCALE = 512, M_READY = 1024, M_DECODE = 2048, M_BOUND = 8192, M_BORROW = 16384, M_LOG = 32768, M_QUIET = 4096 // M_QUIET: no fault is injected
};
struct StreamRun
{
    StreamSpec s;
    Source src;
    unsigned mon;
    bool phases; // announce API calls as phases
    ZarrStream* h = nullptr;
    uint64_t accepted = 0, offered = 0;
    bool failed = false, created = false, destroyed = false;
    uint64_t units = 0;         // complete units acknowledged
    uint64_t units_checked = 0;
    size_t next_call = 0;
    std::vector<std::pair<int, uint64_t>> results;
    uint64_t err0 = 0;
    uint64_t close_errors = 0;
    std::map<std::string, std::string> frozen; // key -> content
    StreamRun(const StreamSpec& sp, unsigned m, bool ph) : s(sp), src(&s), mon(m), phases(ph), ref{ &s, &src, {} } {}
    bool create();
    void append_next();
    void append(uint64_t n);
    void destroy();
    void all();
    Files files() const;
    uint64_t frames() const { return accepted / s.frame_bytes(); }
    struct Lvl
    {
        Arr a;
        bool known = false;
        uint64_t units = 0;
    };
    std::vector<Lvl> lvl; // multiscale levels, 0 unused
    LevelRef ref;
    uint64_t levels_at = 0; // frames at the last look
    void check_units();
    void check_levels();
    struct Use
    {
        uint64_t call, bytes, blocks, files, threads, clients, mark;
    };
    std::vector<Use> use;
    char* lent = nullptr; // the caller's one buffer, used for every call
    uint64_t lent_size = 0;
    void check_bounded();
    void check_final();
    void on_fs(simfs::Op op, const std::string& path, simfs::Node* n);
    void on_s3(const sims3::Req& q);
    void crash_check(const char* when);
    std::string abs(const std::string& key) const { return s.root + "/" + key; }
};
extern std::vector<StreamRun*> active_streams;
void install_hooks();
void viol(const std::string& cls, const std::string& what);
std::string describe(const StreamSpec& s);

// ---- specification level
json gen(const std::string& prop, uint64_t seed);
rt::Cfg cfg_of(const json& spec);
void run_spec(const json& spec); // on the main simulated thread
void run_first_incarnation(const json& spec); // of a restart run; leaves the disk behind
void init_handover();

// ---- workloads in the instrumented unit (unit.cpp)
void unit_pool(const json& x);
void unit_vector_writer(const json& x);
void unit_logger(const json& x);
void unit_s3sink(const json& x);
void unit_filesink(const json& x);
void unit_connections(const json& x);
void spawn_and_join(std::vector<std::function<void()>> bodies); // simulated caller threads
void relay(const std::vector<int>& who, const std::function<void(size_t)>& body);
