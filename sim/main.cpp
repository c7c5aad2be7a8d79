// Driver: seeds -> runs, each in its own forked process.
#include "harness.h"
#include <csignal>
#include <cstdio>
#include <cstring>
#include <fstream>
#include <iostream>
#include <sys/mman.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <unordered_set>

static pid_t child;
static volatile bool timed_out;
static int watchdog_s = 30;
static void on_alarm(int)
{
    timed_out = true;
    if (child > 0) kill(child, SIGKILL);
}
static double now()
{
    timespec t;
    clock_gettime(CLOCK_MONOTONIC, &t);
    return (double)t.tv_sec + (double)t.tv_nsec * 1e-9;
}
static std::string hex(uint64_t v)
{
    char b[20];
    snprintf(b, sizeof b, "%016llx", (unsigned long long)v);
    return b;
}
// decisions of the first incarnation, for runs that restart after a crash
static json dev1, frec1;
static void one_process(const json& spec, const json* dec, int stage)
{
    rt::R->status = rt::ST_NONE;
    rt::R->ndev = rt::R->nfrec = 0;
    rt::R->msg[0] = 0;
    timed_out = false;
    fflush(stdout);
    child = fork();
    if (!child) {
        signal(SIGALRM, SIG_DFL);
        rt::Cfg c = cfg_of(spec);
        if (dec) {
            c.replay = true;
            for (auto& d : (*dec)["dev"]) { // the top bit marks a preemption between plain accesses
                if ((d.size() > 2) != (stage == 1)) continue;
                uint32_t k = d[0], v = d[1];
                if (k >> 31) c.rplain.push_back({ k & 0x7fffffffu, v });
                else c.rdev.push_back({ k, v });
            }
            for (auto& f : (*dec)["frec"])
                if ((f.size() > 4) == (stage == 1)) c.rfaults.push_back({ f[0], f[2], f[1], f[3] });
        }
        rt::run(c, [&] {
            if (stage == 1) run_first_incarnation(spec);
            else run_spec(spec);
        });
        _exit(0);
    }
    itimerval it{ { 0, 0 }, { watchdog_s, 0 } };
    setitimer(ITIMER_REAL, &it, nullptr);
    int st = 0;
    while (waitpid(child, &st, 0) < 0 && errno == EINTR) {}
    itimerval z{};
    setitimer(ITIMER_REAL, &z, nullptr);
    child = 0;
    if (timed_out) {
        rt::R->status = rt::ST_HANG;
        snprintf(rt::R->cls, sizeof rt::R->cls, "hang");
        snprintf(rt::R->msg, sizeof rt::R->msg, "the run made no progress for %d s of real time (a loop without any scheduling point)", watchdog_s);
    } else if (rt::R->status == rt::ST_NONE) {
        rt::R->status = rt::ST_INTERNAL;
        snprintf(rt::R->cls, sizeof rt::R->cls, "internal");
        snprintf(rt::R->msg, sizeof rt::R->msg, "the run ended without a result, wait status %x", st);
    }
}
static void decisions_of(json& d, json& f, bool first)
{
    auto* R = rt::R;
    for (uint32_t i = 0; i < R->ndev; ++i) {
        d.push_back({ R->dev[i].k, R->dev[i].v });
        if (first) d.back().push_back(1);
    }
    for (uint32_t i = 0; i < R->nfrec; ++i) {
        f.push_back({ R->frec[i].cls, R->frec[i].occ, R->frec[i].code, R->frec[i].arg });
        if (first) f.back().push_back(1);
    }
}
// one run; the result is in rt::R
static void run_one(const json& raw, const json* dec)
{
    // the same value representation whether the spec was generated or read from a file
    const json spec = json::parse(raw.dump());
    dev1 = frec1 = json::array();
    if (spec["kind"] != "restart" && spec["kind"] != "sequence") return one_process(spec, dec, 0);
    one_process(spec, dec, 1);
    if (rt::R->status != rt::ST_OK) {
        decisions_of(dev1, frec1, true);
        rt::R->ndev = rt::R->nfrec = 0;
        return;
    }
    decisions_of(dev1, frec1, true);
    static rt::Result keep;
    memcpy((void*)&keep, (void*)rt::R, offsetof(rt::Result, dev));
    one_process(spec, dec, 2);
    auto* R = rt::R;
    for (int i = 0; i < rt::C_NCOUNTER; ++i)
        if (i == rt::C_THREADS) R->counters[i] = std::max(R->counters[i], keep.counters[i]);
        else R->counters[i] += keep.counters[i];
    for (int i = 0; i < rt::F_NCLASS; ++i) R->faults[i] += keep.faults[i];
    for (int i = 0; i < rt::MAX_PROBE; ++i) R->probe[i] += keep.probe[i];
    for (int i = 0; i < 1024; ++i) R->edge_bits[i] |= keep.edge_bits[i];
    R->event_hash = R->event_hash * 1099511628211ull ^ keep.event_hash;
    R->ileave_hash = R->ileave_hash * 1099511628211ull ^ keep.ileave_hash;
    R->dev_overflow |= keep.dev_overflow;
}
static json result(bool decisions)
{
    json j;
    auto* R = rt::R;
    j["status"] = (int)R->status;
    j["cls"] = R->status == rt::ST_OK ? "" : std::string(R->cls);
    j["msg"] = R->status == rt::ST_OK ? "" : std::string(R->msg);
    j["event_hash"] = hex(R->event_hash);
    j["ileave_hash"] = hex(R->ileave_hash);
    j["overflow"] = R->dev_overflow;
    for (int i = 0; i < rt::C_NCOUNTER; ++i) j["counters"][rt::counter_names[i]] = R->counters[i];
    for (int i = 0; i < rt::F_NCLASS; ++i)
        if (R->faults[i]) j["faults"][rt::fault_names[i]] = R->faults[i];
    if (decisions) {
        json d = dev1, f = frec1;
        decisions_of(d, f, false);
        j["dev"] = d;
        j["frec"] = f;
    }
    return j;
}

static int batch(const std::string& prop, uint64_t from, uint64_t step, double until, uint64_t max, const std::string& out, bool keep_going)
{
    double t0 = now();
    uint64_t runs = 0, nontrivial = 0, viols = 0;
    std::vector<uint64_t> counters(rt::C_NCOUNTER), faults(rt::F_NCLASS), fruns(rt::F_NCLASS), probes(rt::MAX_PROBE);
    std::vector<uint64_t> edges(1024);
    std::unordered_set<uint64_t> events, leaves;
    std::map<std::string, uint64_t> classes, kinds;
    json first;
    json samples = json::array();
    uint64_t seed = from;
    double slow = 0;
    uint64_t slow_seed = 0;
    for (; runs < max && now() - t0 < until; seed += step) {
        json spec = gen(prop, seed);
        double a = now();
        run_one(spec, nullptr);
        double d = now() - a;
        if (d > slow) slow = d, slow_seed = seed;
        ++runs;
        auto* R = rt::R;
        kinds[spec["kind"].get<std::string>() + (spec["plan"].empty() ? "" : "+faults")]++;
        for (int i = 0; i < rt::C_NCOUNTER; ++i) counters[i] += R->counters[i];
        for (int i = 0; i < rt::F_NCLASS; ++i) {
            faults[i] += R->faults[i];
            fruns[i] += R->faults[i] > 0;
        }
        for (int i = 0; i < rt::MAX_PROBE; ++i) probes[i] += R->probe[i];
        for (int i = 0; i < 1024; ++i) edges[i] |= R->edge_bits[i];
        bool nt = R->counters[rt::C_SWITCHES] > 0 && (R->counters[rt::C_FSOPS] + R->counters[rt::C_S3OPS] + R->counters[rt::C_LOGLINES] + R->counters[rt::C_COND] + R->counters[rt::C_FUTEX]) > 0;
        nontrivial += nt;
        if (nt) events.insert(R->event_hash);
        leaves.insert(R->ileave_hash);
        if (samples.size() < 3) {
            json s = result(false);
            s["seed"] = seed;
            s["spec"] = spec;
            samples.push_back(s);
        }
        if (R->status != rt::ST_OK) {
            ++viols;
            classes[std::string(R->cls) + (R->status == rt::ST_INTERNAL ? " (internal)" : "")]++;
            if (keep_going) {
                printf("seed %llu %s: %.400s\n", (unsigned long long)seed, R->cls, R->msg);
                fflush(stdout);
            }
            if (first.is_null()) {
                first = result(true);
                first["spec"] = spec;
                first["seed"] = seed;
            }
            if (!keep_going) break;
        }
    }
    json j;
    j["runs"] = runs;
    j["nontrivial"] = nontrivial;
    j["seconds"] = now() - t0;
    j["next_seed"] = seed;
    for (int i = 0; i < rt::C_NCOUNTER; ++i) j["counters"][rt::counter_names[i]] = counters[i];
    for (int i = 0; i < rt::F_NCLASS; ++i) {
        j["faults"][rt::fault_names[i]] = faults[i];
        j["fault_runs"][rt::fault_names[i]] = fruns[i];
    }
    j["probes"] = probes;
    j["edges"] = edges;
    j["kinds"] = kinds;
    j["classes"] = classes;
    j["violations"] = viols;
    j["samples"] = samples;
    j["slowest"] = { slow, slow_seed };
    if (!first.is_null()) j["first"] = first;
    json ev = json::array(), le = json::array();
    for (auto e : events) ev.push_back(e);
    for (auto e : leaves) le.push_back(e);
    j["events"] = ev;
    j["leaves"] = le;
    if (out.size()) std::ofstream(out) << j.dump();
    if (keep_going) printf("%llu runs, %llu violations, %.1f s; %s\n", (unsigned long long)runs, (unsigned long long)viols, now() - t0, json(classes).dump().c_str());
    return viols ? 1 : 0;
}

int main(int argc, char** argv)
{
    std::vector<std::string> a(argv + 1, argv + argc);
    auto opt = [&](const char* n, const std::string& d) {
        for (size_t i = 0; i + 1 < a.size(); ++i)
            if (a[i] == n) return a[i + 1];
        return d;
    };
    auto has = [&](const char* n) {
        for (auto& s : a)
            if (s == n) return true;
        return false;
    };
    if (a.empty()) return 2;
    rt::init_process();
    init_handover();
    struct sigaction sa;
    memset(&sa, 0, sizeof sa);
    sa.sa_handler = on_alarm;
    sigaction(SIGALRM, &sa, nullptr);
    watchdog_s = atoi(opt("--watchdog", "30").c_str());
    if (a[0] == "names") {
        json j;
        for (int i = 0; i < rt::F_NCLASS; ++i) j["faults"].push_back(rt::fault_names[i]);
        std::cout << j.dump() << "\n";
        return 0;
    }
    if (a[0] == "gen") {
        std::cout << gen(a[1], strtoull(a[2].c_str(), nullptr, 10)).dump(1) << "\n";
        return 0;
    }
    if (a[0] == "batch")
        return batch(opt("--prop", ""), strtoull(opt("--from", "1").c_str(), nullptr, 10), strtoull(opt("--step", "1").c_str(), nullptr, 10), atof(opt("--time", "1e9").c_str()),
                     strtoull(opt("--max", "1000000000").c_str(), nullptr, 10), opt("--out", ""), has("--keep-going"));
    if (a[0] == "run") {
        json spec = gen(a[1], strtoull(a[2].c_str(), nullptr, 10));
        run_one(spec, nullptr);
        json r = result(true);
        r["spec"] = spec;
        std::string o = opt("--out", "");
        if (o.size()) std::ofstream(o) << r.dump();
        r.erase("dev");
        r.erase("spec");
        std::cout << r.dump(1) << "\n";
        return rt::R->status == rt::ST_OK ? 0 : 1;
    }
    if (a[0] == "replay") {
        json f = json::parse(std::ifstream(a[1]));
        run_one(f["spec"], f.contains("dev") ? &f : nullptr);
        json r = result(false);
        std::cout << r.dump(1) << "\n";
        return rt::R->status == rt::ST_OK ? 0 : 1;
    }
    if (a[0] == "serve") { // one JSON request per line: {"spec", optional "dev", "frec"}
        std::string line;
        while (std::getline(std::cin, line)) {
            json f = json::parse(line);
            run_one(f["spec"], f.contains("dev") ? &f : nullptr);
            std::cout << result(f.value("decisions", false)).dump() << std::endl;
        }
        return 0;
    }
    return 2;
}
