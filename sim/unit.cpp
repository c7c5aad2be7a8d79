// Workloads that use the library's internal classes directly.  Compiled with the same
// instrumentation as the library; bookkeeping runs under rt::Guard.
#include "harness.h"
#include "logger.hh"
#include "s3.connection.hh"
#include "s3.sink.hh"
#include "sink.hh"
#include "thread.pool.hh"
#include "vectorized.file.writer.hh"
#include <atomic>
#include <condition_variable>
#include <latch>
#include <mutex>
#include <thread>

void spawn_and_join(std::vector<std::function<void()>> bodies)
{
    std::vector<std::thread> th;
    th.reserve(bodies.size());
    rt::harness_spawns = true;
    for (auto& b : bodies) th.emplace_back([&b] { b(); });
    rt::harness_spawns = false;
    for (auto& t : th) t.join();
}

// step i is made by caller who[i]: 0 the main thread, -1 a thread made for it, k > 0 a thread that stays
void relay(const std::vector<int>& who, const std::function<void(size_t)>& body)
{
    std::mutex m;
    std::condition_variable cv;
    size_t turn = 0;
    int n = 0;
    for (int w : who) n = std::max(n, w);
    auto loop = [&](int me) {
        for (;;) {
            size_t t;
            {
                std::unique_lock<std::mutex> l(m);
                cv.wait(l, [&] { return turn >= who.size() || std::max(who[turn], 0) == me; });
                if (turn >= who.size()) return;
                t = turn;
            }
            if (who[t] < 0) spawn_and_join({ [&] { body(t); } });
            else body(t);
            std::unique_lock<std::mutex> l(m);
            turn = t + 1;
            cv.notify_all();
        }
    };
    std::vector<std::thread> th;
    th.reserve(n);
    rt::harness_spawns = true;
    for (int i = 1; i <= n; ++i) th.emplace_back([&loop, i] { loop(i); });
    rt::harness_spawns = false;
    loop(0);
    for (auto& t : th) t.join();
}

static std::string num(uint64_t v) { return std::to_string(v); }

// ================================================================ thread pool (C11)
namespace {
struct PoolBook
{
    std::vector<int> accepted, ran, finished, cb, cb_done, fail;
    std::vector<int> bad_msg;
    bool stopped = false, destroyed = false;
    int late = 0;
};
}
void unit_pool(const json& x)
{
    PoolBook* b;
    int nthreads, njobs, nprod, errs_len;
    bool same; // every failing job reports the same message
    std::string mode;
    std::vector<int> kinds, work, nested;
    {
        rt::Guard g;
        b = new PoolBook;
        nthreads = x["threads"];
        nprod = x["producers"];
        mode = x["mode"];
        kinds = x["kinds"].get<std::vector<int>>(); // 0 ok, 1 fail, 2 throw
        work = x["work"].get<std::vector<int>>();
        nested = x["nested"].get<std::vector<int>>(); // index of a job pushed by this one or -1
        njobs = (int)kinds.size();
        errs_len = x.value("msglen", 3);
        same = x.value("same", false);
        for (auto* v : { &b->accepted, &b->ran, &b->finished, &b->cb, &b->cb_done, &b->fail, &b->bad_msg }) v->assign(njobs, 0);
    }
    auto msg_of = [errs_len, same](int id) { return (same ? std::string("job failed") : "job-" + std::to_string(id)) + ":" + std::string(errs_len, 'x'); };
    auto cb = [b, msg_of, njobs, same](const std::string& m) {
        int id = -1;
        {
            rt::Guard g;
            if (!same) {
                for (int i = 0; i < njobs; ++i)
                    if (m == msg_of(i)) id = i;
            } else if (m == msg_of(0)) {
                // any job that has failed and whose callback is still due
                for (int i = 0; i < njobs && id < 0; ++i)
                    if (b->fail[i] == 1 && !b->cb[i]) id = i;
                if (id < 0) viol("callback-twice", "more error callbacks than failed jobs");
            }
            // jobs that throw have no message of their own
            if (id < 0) {
                size_t p = m.find("thrown-");
                if (p != std::string::npos) id = atoi(m.c_str() + p + 7);
            }
            if (id < 0 || id >= njobs) {
                if (m.empty()) viol("callback-wrong-message", "error callback called with an empty message");
                viol("callback-wrong-message", "error callback called with '" + m.substr(0, 100) + "', no job's message");
            }
            if (b->stopped) viol("callback-after-stop", "error callback of job " + num(id) + " began after the pool had stopped");
            if (!b->fail[id]) viol("callback-for-success", "error callback called for job " + num(id) + ", which reported no failure");
            if (++b->cb[id] > 1) viol("callback-twice", "error callback called twice for job " + num(id));
        }
        {
            rt::Guard g;
            rt::sched_point(rt::K_USER, 7);
            rt::sched_point(rt::K_USER, 8);
            b->cb_done[id]++;
        }
    };
    zarr::ThreadPool* pool = nullptr;
    try {
        pool = new zarr::ThreadPool((unsigned)nthreads, cb);
    } catch (const std::exception&) {
        rt::Guard g;
        if (!rt::R->faults[rt::F_THREAD] && !rt::R->faults[rt::F_MALLOC]) viol("pool-refused", "the pool cannot be constructed although nothing failed");
        return;
    }
    std::function<bool(int)> push;
    std::mutex done_m;
    std::condition_variable done_cv;
    int outstanding = 0;
    auto job = [&, b](int id, std::string& err) -> bool {
        int kind, w, nx;
        {
            rt::Guard g;
            if (++b->ran[id] > 1) viol("job-twice", "job " + num(id) + " ran twice");
            if (b->stopped) viol("job-after-stop", "job " + num(id) + " ran after the pool had stopped");
            kind = kinds[id];
            w = work[id];
            nx = nested[id];
            for (int i = 0; i < w; ++i) rt::sched_point(rt::K_USER, id);
        }
        if (nx >= 0) push(nx);
        {
            rt::Guard g;
            b->finished[id]++;
            if (kind) b->fail[id] = kind;
        }
        if (mode == "idle") {
            std::scoped_lock lk(done_m);
            --outstanding;
            done_cv.notify_all();
        }
        if (kind == 1) {
            err = msg_of(id);
            return false;
        }
        if (kind == 2) throw std::runtime_error("thrown-" + std::to_string(id));
        return true;
    };
    push = [&, b](int id) -> bool {
        if (mode == "idle") {
            std::scoped_lock lk(done_m);
            ++outstanding;
        }
        bool ok = pool->push_job([&job, id](std::string& e) { return job(id, e); });
        {
            rt::Guard g;
            if (ok) b->accepted[id]++;
        }
        if (!ok && mode == "idle") {
            std::scoped_lock lk(done_m);
            --outstanding;
        }
        return ok;
    };
    std::vector<int> roots;
    {
        rt::Guard g;
        std::vector<char> is_nested(njobs, 0);
        for (int n : nested)
            if (n >= 0) is_nested[n] = 1;
        for (int i = 0; i < njobs; ++i)
            if (!is_nested[i]) roots.push_back(i);
    }
    std::vector<std::thread> prod;
    prod.reserve(8);
    std::atomic<int> pushed{ 0 };
    rt::harness_spawns = true;
    for (int p = 0; p < nprod; ++p)
        prod.emplace_back([&, p] {
            for (size_t k = p; k < roots.size(); k += nprod) {
                push(roots[k]);
                pushed.fetch_add(1);
            }
        });
    rt::harness_spawns = false;
    if (mode == "await") {
        for (auto& t : prod) t.join();
        pool->await_stop();
    } else if (mode == "concurrent") {
        pool->await_stop();
        for (auto& t : prod) t.join();
    } else if (mode == "idle") {
        for (auto& t : prod) t.join();
        {
            std::unique_lock lk(done_m);
            done_cv.wait(lk, [&] { return outstanding == 0; });
        }
        pool->await_stop();
    } else { // destroy
        for (auto& t : prod) t.join();
    }
    auto check = [&](const char* when, bool all_ran) {
        rt::Guard g;
        for (int i = 0; i < njobs; ++i) {
            if (b->ran[i] && !b->accepted[i]) viol("refused-job-ran", "job " + num(i) + " ran although it was refused");
            if (b->ran[i] != b->finished[i]) viol("job-unfinished", "job " + num(i) + " is still running " + when);
            if (b->accepted[i] && !b->ran[i] && all_ran) viol("job-lost", "job " + num(i) + " was accepted but has not run " + when);
            if (b->fail[i] && b->cb[i] != 1) viol("callback-missing", "job " + num(i) + " failed but the error callback was called " + num(b->cb[i]) + " times " + when);
            if (b->cb[i] != b->cb_done[i]) viol("callback-unfinished", "the error callback of job " + num(i) + " is still running " + when);
        }
    };
    if (mode != "destroy") {
        check("when await_stop returned", true);
        {
            rt::Guard g;
            b->stopped = true;
        }
        bool late = pool->push_job([&](std::string&) {
            rt::Guard g;
            viol("job-after-stop", "a job pushed after the stop ran");
            return true;
        });
        if (late) {
            rt::Guard g;
            viol("accepted-after-stop", "the pool accepted a job after it had stopped");
        }
        if (x.value("twice", false)) pool->await_stop();
    }
    delete pool;
    {
        rt::Guard g;
        b->destroyed = true;
        if (int n = rt::live_threads()) viol("thread-leak", num(n) + " pool threads still run after the pool is gone");
    }
    check("after the pool was destroyed", mode != "destroy");
}

// ================================================================ vectored writes (C17)
namespace {
struct VOp
{
    uint64_t off;
    std::vector<uint64_t> sizes;
    int status = -1;
    std::string data;
};
}
void unit_vector_writer(const json& x)
{
    std::string path, pre;
    std::vector<std::vector<VOp>>* per;
    bool shared;
    {
        rt::Guard g;
        path = "/simfs/w/vec.bin";
        pre.assign(x["pre"].get<uint64_t>(), 'P');
        for (size_t i = 0; i < pre.size(); ++i) pre[i] = (char)(i * 7 + 3);
        if (pre.size()) simfs::put(path, pre);
        shared = x["shared"];
        per = new std::vector<std::vector<VOp>>;
        for (auto& t : x["threads"]) {
            per->emplace_back();
            for (auto& o : t) {
                VOp v;
                v.off = o["off"];
                v.sizes = o["sizes"].get<std::vector<uint64_t>>();
                per->back().push_back(v);
            }
        }
    }
    auto do_ops = [per](zarr::VectorizedFileWriter& w, size_t t) {
        for (auto& op : (*per)[t]) {
            std::vector<std::span<std::byte>> bufs;
            std::vector<void*> mem;
            {
                rt::Guard g;
                rt::Rng r(op.off * 31 + 5);
                for (auto n : op.sizes) {
                    char* p = (char*)rt::sim_alloc(n);
                    for (uint64_t i = 0; i < n; ++i) p[i] = (char)r.next();
                    op.data.append(p, n);
                    mem.push_back(p);
                }
            }
            for (size_t i = 0; i < mem.size(); ++i) bufs.emplace_back((std::byte*)mem[i], op.sizes[i]);
            int st;
            try {
                st = w.write_vectors(bufs, op.off) ? 1 : 0;
            } catch (const std::exception&) {
                st = 0;
            }
            {
                rt::Guard g;
                op.status = st;
                for (void* p : mem) rt::sim_free(p);
                if (st == 1) {
                    auto* n = simfs::find("/simfs/w/vec.bin");
                    std::string got = n ? simfs::read_range(n, op.off, op.data.size()) : std::string();
                    if (got != op.data) {
                        size_t k = 0;
                        while (k < got.size() && got[k] == op.data[k]) ++k;
                        viol("write-incomplete", "write of " + num(op.data.size()) + " bytes in " + num(op.sizes.size()) + " buffers at offset " + num(op.off) +
                                                   " returned true but the file differs from byte " + num(k) + " on");
                    }
                } else if (!rt::R->faults[rt::F_WRITE] && !rt::R->faults[rt::F_SHORT] && !rt::R->faults[rt::F_EINTR] && !rt::R->faults[rt::F_DISKFULL] && !rt::R->faults[rt::F_MALLOC])
                    viol("write-refused", "write of " + num(op.data.size()) + " bytes in " + num(op.sizes.size()) + " buffers at offset " + num(op.off) + " failed although nothing failed underneath");
            }
        }
    };
    try {
        if (shared) {
            zarr::VectorizedFileWriter w(path);
            std::vector<std::function<void()>> bodies;
            for (size_t t = 0; t < per->size(); ++t) bodies.push_back([&, t] { do_ops(w, t); });
            spawn_and_join(bodies);
        } else {
            std::vector<std::function<void()>> bodies;
            for (size_t t = 0; t < per->size(); ++t)
                bodies.push_back([&, t] {
                    try {
                        zarr::VectorizedFileWriter w(path);
                        do_ops(w, t);
                    } catch (const std::exception&) {
                    }
                });
            spawn_and_join(bodies);
        }
    } catch (const std::exception&) {
        rt::Guard g;
        if (!rt::R->faults[rt::F_OPEN] && !rt::R->faults[rt::F_THREAD]) viol("open-refused", "the writer cannot be constructed although nothing failed");
    }
    rt::Guard g;
    auto* n = simfs::find(path);
    uint64_t size = n ? n->size : 0, end = pre.size();
    // all intervals that may have been written, in order (they are disjoint)
    std::map<uint64_t, VOp*> iv;
    for (auto& t : *per)
        for (auto& op : t)
            if (op.status >= 0 && op.data.size()) {
                iv[op.off] = &op;
                if (op.status == 1 || op.off < size) end = std::max(end, std::min(op.off + op.data.size(), op.status == 1 ? UINT64_MAX : std::max(size, (uint64_t)pre.size())));
            }
    if (size > end) viol("stray-bytes", "the file has " + num(size) + " bytes, nothing was written beyond " + num(end));
    if (size < pre.size()) viol("stray-bytes", "the file was shortened to " + num(size) + " bytes");
    for (auto& [o, op] : iv)
        if (op->status == 1 && simfs::read_range(n, o, op->data.size()) != op->data) viol("write-lost", "the write at offset " + num(o) + " was damaged by another write");
    // everything between the intervals: as before
    uint64_t pos = 0;
    auto untouched = [&](uint64_t lo, uint64_t hi) {
        if (hi > size) hi = size;
        while (lo < hi) {
            uint64_t k = std::min<uint64_t>(hi - lo, 65536);
            bool far = lo >= pre.size() && hi - lo > (16u << 20);
            if (far) { // sparse hole: look only at pages that exist
                for (auto& [pg, data] : n->pages) {
                    uint64_t a = pg * 65536, b = a + 65536;
                    if (b <= lo || a >= hi) continue;
                    std::string s = simfs::read_range(n, std::max(a, lo), std::min(b, hi) - std::max(a, lo));
                    for (char c : s)
                        if (c) viol("stray-bytes", "bytes outside all requested ranges changed near offset " + num(std::max(a, lo)));
                }
                return;
            }
            std::string s = simfs::read_range(n, lo, k);
            for (uint64_t i = 0; i < k; ++i) {
                char want = lo + i < pre.size() ? pre[lo + i] : 0;
                if (s[i] != want) viol("stray-bytes", "byte " + num(lo + i) + " outside all requested ranges changed");
            }
            lo += k;
        }
    };
    if (n) {
        for (auto& [o, op] : iv) {
            if (o > pos) untouched(pos, o);
            pos = std::max(pos, o + op->data.size());
        }
        untouched(pos, size);
    }
    if (simfs::open_count()) viol("file-leak", "files still open: " + simfs::open_list());
}

// ================================================================ logging (C18)
namespace {
struct LMsg
{
    int level, thread;
    uint64_t begin, end;
    std::string payload;
    std::string returned;
};
struct LSet
{
    int level;
    uint64_t begin, end;
};
}
void unit_logger(const json& x)
{
    std::vector<LMsg>* msgs;
    std::vector<LSet>* sets;
    uint64_t* seq;
    size_t nt;
    {
        rt::Guard g;
        msgs = new std::vector<LMsg>;
        sets = new std::vector<LSet>;
        msgs->reserve(10000);
        sets->reserve(10000);
        seq = new uint64_t(1);
        nt = x["threads"].size();
        sets->push_back({ x["level0"], 0, 0 });
    }
    int l0;
    {
        rt::Guard g;
        l0 = x["level0"];
        rt::no_preempt(1);
    }
    Zarr_set_log_level((ZarrLogLevel)l0);
    {
        rt::Guard g;
        rt::no_preempt(-1);
        log_lines.clear();
    }
    std::vector<std::function<void()>> bodies;
    for (size_t t = 0; t < nt; ++t)
        bodies.push_back([&, t] {
            size_t n;
            {
                rt::Guard g;
                n = x["threads"][t].size();
            }
            for (size_t i = 0; i < n; ++i) {
                int op, arg, len;
                std::string payload;
                size_t k;
                {
                    rt::Guard g;
                    auto& o = x["threads"][t][i];
                    op = o[0];
                    arg = o[1];
                    len = o[2];
                    if (op == 0) {
                        payload = "<<T" + num(t) + "M" + num(i) + ":" + std::string(len, (char)('a' + (t + i) % 26)) + ">>";
                        k = msgs->size();
                        msgs->push_back({ arg, (int)t, ++*seq, 0, payload, "" });
                    } else {
                        k = sets->size();
                        if (op == 1) sets->push_back({ arg, ++*seq, 0 });
                    }
                }
                if (op == 0) {
                    std::string r;
                    switch (arg) {
                        case 0: r = LOG_DEBUG(payload, (int)i, ' ', 1.5); break;
                        case 1: r = LOG_INFO(payload, (int)i, ' ', 1.5); break;
                        case 2: r = LOG_WARNING(payload, (int)i, ' ', 1.5); break;
                        default: r = LOG_ERROR(payload, (int)i, ' ', 1.5); break;
                    }
                    rt::Guard g;
                    (*msgs)[k].end = ++*seq;
                    (*msgs)[k].payload = payload + num(i) + " 1.5";
                    (*msgs)[k].returned = r;
                } else if (op == 1) {
                    ZarrStatusCode c = Zarr_set_log_level((ZarrLogLevel)arg);
                    rt::Guard g;
                    (*sets)[k].end = ++*seq;
                    if (c != ZarrStatusCode_Success) viol("level-refused", "valid level " + num(arg) + " refused with status " + num(c));
                } else {
                    bool others;
                    {
                        rt::Guard g;
                        others = x.value("setters", 0) > 0;
                    }
                    ZarrLogLevel a = Zarr_get_log_level();
                    ZarrStatusCode c = Zarr_set_log_level((ZarrLogLevel)arg);
                    ZarrLogLevel bq = Zarr_get_log_level();
                    rt::Guard g;
                    if (c == ZarrStatusCode_Success) viol("invalid-level-accepted", "level " + std::to_string(arg) + " accepted");
                    if (!others && a != bq) viol("invalid-level-changed", "refused level " + std::to_string(arg) + " changed the level from " + num(a) + " to " + num(bq));
                }
            }
        });
    spawn_and_join(bodies);
    rt::Guard g;
    std::map<std::string, std::vector<const LogLine*>> found;
    for (auto& l : log_lines) {
        if (l.mixed) viol("line-interrupted", "two threads wrote into one line: '" + l.text.substr(0, 200) + "'");
        size_t p = l.text.find("<<T");
        if (p == std::string::npos) {
            if (l.text.find("nvalid") != std::string::npos) continue; // refusals
            viol("stray-line", "unexpected line '" + l.text.substr(0, 200) + "'");
        }
        size_t q = l.text.find(':', p);
        found[l.text.substr(p, q - p)].push_back(&l);
    }
    if (log_partial(1).size() || log_partial(2).size()) viol("line-interrupted", "a line was never finished");
    static const char* const prefix[] = { "[DEBUG] ", "[INFO] ", "[WARNING] ", "[ERROR] " };
    for (auto& m : *msgs) {
        std::string tok = m.payload.substr(0, m.payload.find(':'));
        // levels possibly in force while the call ran
        int lo = 99, hi = -1;
        for (auto& s : *sets) {
            if (s.begin >= m.end) continue;
            bool over = false; // certainly replaced by another level before the message
            for (auto& o : *sets)
                if (&o != &s && o.end && o.end < m.begin && (s.begin == 0 || s.end) && s.end < o.begin) over = true;
            if (over) continue;
            lo = std::min(lo, s.level);
            hi = std::max(hi, s.level);
        }
        auto i = found.find(tok);
        size_t n = i == found.end() ? 0 : i->second.size();
        if (n > 1) viol("line-repeated", "message " + tok + " was emitted " + num(n) + " times");
        if (n == 0 && m.level >= hi) viol("line-lost", "message " + tok + " of level " + num(m.level) + " was not emitted although the level in force was at most " + std::to_string(hi));
        if (n == 1 && m.level < lo) viol("line-not-filtered", "message " + tok + " of level " + num(m.level) + " was emitted although the level in force was at least " + num(lo));
        if (!n) continue;
        const LogLine& l = *i->second[0];
        int want = m.level >= 3 ? 2 : 1;
        if (l.stream != want) viol("wrong-stream", "message " + tok + " of level " + num(m.level) + " went to " + (l.stream == 1 ? "standard output" : "standard error"));
        if (l.text.size() < m.payload.size() || l.text.compare(l.text.size() - m.payload.size(), m.payload.size(), m.payload))
            viol("line-damaged", "message " + tok + " is not whole: '" + l.text.substr(0, 200) + "'");
        if (l.text.find(prefix[m.level]) == std::string::npos || l.text.find(prefix[m.level]) > l.text.find(tok)) viol("line-damaged", "message " + tok + " carries the wrong level: '" + l.text.substr(0, 120) + "'");
    }
}

// ================================================================ S3 sinks and connections (C15, C19)
namespace {
struct SinkJob
{
    std::string key;
    std::vector<uint64_t> sizes;
    bool go_on, rewrite;
    std::string want;   // all bytes in offset order
    bool reported = false;
};
void fill(char* p, uint64_t n, uint64_t seed)
{
    rt::Rng r(seed);
    uint64_t i = 0;
    for (; i + 8 <= n; i += 8) {
        uint64_t v = r.next();
        memcpy(p + i, &v, 8);
    }
    for (; i < n; ++i) p[i] = (char)r.next();
}
std::shared_ptr<zarr::S3ConnectionPool> make_pool(int n, int& established)
{
    std::shared_ptr<zarr::S3ConnectionPool> p;
    try {
        p = std::make_shared<zarr::S3ConnectionPool>((size_t)n, "http://localhost:9000", "key", "secret");
    } catch (const std::exception&) {
    }
    rt::Guard g;
    established = sims3::stats.established;
    if (!p && established) viol("pool-refused", "the connection pool refuses although " + num(established) + " connections were established");
    if (p && !established) viol("pool-empty", "the connection pool exists although no connection could be established");
    return p;
}
void all_available(std::shared_ptr<zarr::S3ConnectionPool>& pool, int established)
{
    std::vector<std::unique_ptr<zarr::S3Connection>> c;
    for (int i = 0; i < established; ++i) {
        c.push_back(pool->get_connection()); // a leaked connection shows as a deadlock here
        if (!c.back()) {
            rt::Guard g;
            viol("connection-lost", "only " + num(i) + " of " + num(established) + " connections are available after all tasks are done");
        }
    }
    for (auto& x : c) pool->return_connection(std::move(x));
}
void protocol_clean(const char* only)
{
    rt::Guard g;
    for (auto& s : sims3::protocol)
        if (!only || s.find(only) != std::string::npos) viol("protocol", s);
}
}
void unit_s3sink(const json& x)
{
    std::vector<SinkJob>* jobs;
    int nconn;
    bool assemble; // C15 oracle, otherwise only connection conservation
    {
        rt::Guard g;
        jobs = new std::vector<SinkJob>;
        nconn = x["conns"];
        assemble = x.value("assemble", true);
        for (auto& j : x["sinks"]) {
            SinkJob s;
            s.key = j["key"];
            s.sizes = j["sizes"].get<std::vector<uint64_t>>();
            s.go_on = j["go_on"];
            s.rewrite = j["rewrite"];
            jobs->push_back(s);
        }
    }
    int established = 0;
    auto pool = make_pool(nconn, established);
    if (!pool) return;
    std::vector<std::function<void()>> bodies;
    for (size_t t = 0; t < jobs->size(); ++t)
        bodies.push_back([&, t] {
            SinkJob& j = (*jobs)[t];
            try {
                std::unique_ptr<zarr::Sink> sink = std::make_unique<zarr::S3Sink>("bucket-one", j.key, pool);
                uint64_t off = 0;
                bool bad = false;
                for (size_t i = 0; i < j.sizes.size(); ++i) {
                    char* p;
                    uint64_t n = j.sizes[i];
                    {
                        rt::Guard g;
                        p = (char*)rt::sim_alloc(n);
                        fill(p, n, t * 1000 + i);
                        if (j.rewrite) j.want = std::string(p, n);
                        else j.want.append(p, n);
                    }
                    bool ok = false;
                    try {
                        ok = sink->write(j.rewrite ? 0 : off, { (const std::byte*)p, n });
                    } catch (const std::exception&) {
                    }
                    off += n;
                    rt::Guard g;
                    rt::sim_free(p);
                    if (!ok) {
                        bad = j.reported = true;
                        if (!j.go_on) break;
                    }
                }
                bool ok = false;
                try {
                    ok = zarr::finalize_sink(std::move(sink));
                } catch (const std::exception&) {
                }
                if (!ok) j.reported = true;
                (void)bad;
            } catch (const std::exception&) {
                j.reported = true;
            }
        });
    spawn_and_join(bodies);
    {
        rt::Guard g;
        if (sims3::stats.max_inflight > established) viol("too-many-requests", num(sims3::stats.max_inflight) + " requests in flight, " + num(established) + " connections established");
        if (assemble)
            for (auto& j : *jobs) {
                auto* o = sims3::get("bucket-one", j.key);
                rt::count(rt::C_CHUNKS_CHECKED);
                if (!j.reported && sims3::pending("bucket-one", j.key)) viol("upload-left", "a multipart upload of object " + j.key + " was begun and neither completed nor aborted, but no failure was reported");
                if (!o) {
                    if (!j.reported && j.want.size()) viol("object-lost", "object " + j.key + " of " + num(j.want.size()) + " bytes is absent but no write reported a failure");
                } else if (*o != j.want) {
                    size_t k = 0;
                    while (k < o->size() && k < j.want.size() && (*o)[k] == j.want[k]) ++k;
                    viol("object-damaged", "object " + j.key + " has " + num(o->size()) + " bytes, " + num(j.want.size()) + " were written; first difference at " + num(k) +
                                             (j.reported ? " (a failure was reported)" : " (no failure was reported)"));
                }
            }
    }
    protocol_clean(assemble ? nullptr : "connection");
    all_available(pool, established);
}
void unit_connections(const json& x)
{
    int nconn, ntask;
    std::vector<std::vector<int>>* plan;
    {
        rt::Guard g;
        nconn = x["conns"];
        plan = new std::vector<std::vector<int>>(x["tasks"].get<std::vector<std::vector<int>>>());
        ntask = (int)plan->size();
    }
    int established = 0;
    auto pool = make_pool(nconn, established);
    if (!pool) return;
    int* held = nullptr;
    {
        rt::Guard g;
        held = new int(0);
    }
    std::vector<std::function<void()>> bodies;
    for (int t = 0; t < ntask; ++t)
        bodies.push_back([&, t] {
            for (int op : (*plan)[t]) {
                auto c = pool->get_connection();
                {
                    rt::Guard g;
                    if (!c) viol("no-connection", "a waiting task got no connection although the pool is open");
                    if (++*held > established) viol("too-many-connections", num(*held) + " connections handed out, " + num(established) + " established");
                }
                try {
                    if (op == 0) c->bucket_exists("bucket-one");
                    else if (op == 1) {
                        char body[16] = "0123456789";
                        (void)c->put_object("bucket-one", "k" + std::to_string(t), { (uint8_t*)body, 10 });
                    } else if (op == 2) c->object_exists("bucket-one", "k0");
                    else {
                        std::string id = c->create_multipart_object("bucket-one", "m" + std::to_string(t));
                        (void)id;
                    }
                } catch (const std::exception&) {
                }
                {
                    rt::Guard g;
                    --*held;
                }
                pool->return_connection(std::move(c));
            }
        });
    spawn_and_join(bodies);
    {
        rt::Guard g;
        if (sims3::stats.max_inflight > established) viol("too-many-requests", num(sims3::stats.max_inflight) + " requests in flight, " + num(established) + " connections established");
    }
    protocol_clean("connection");
    all_available(pool, established);
}
void unit_filesink(const json&) {}
