// Seed -> specification of one simulated run.  Everything a run does follows
// from the JSON produced here (and from the recorded decisions on replay).
#include "harness.h"
#include <algorithm>
#include <cmath>

using rt::Rng;

namespace {
typedef std::vector<std::pair<int, int>> Weights; // value, weight
int pick(Rng& r, const Weights& w)
{
    int t = 0;
    for (auto& p : w) t += p.second;
    int64_t k = (int64_t)r.below(t);
    for (auto& p : w) {
        k -= p.second;
        if (k < 0) return p.first;
    }
    return w[0].first;
}
uint64_t logu(Rng& r, double lo, double hi)
{
    double u = (double)(r.next() >> 11) * 0x1.0p-53;
    return (uint64_t)std::llround(lo * std::pow(hi / lo, u));
}

json sim_cfg(Rng& r)
{
    json s;
    s["nproc"] = pick(r, { { 1, 12 }, { 2, 30 }, { 3, 25 }, { 4, 20 }, { 8, 13 } });
    s["pattern"] = pick(r, { { 0, 20 }, { 255, 25 }, { 256, 40 }, { 1, 15 } });
    s["alloc_min"] = pick(r, { { 1024, 40 }, { 2048, 30 }, { 4096, 30 } });
    s["dir_order"] = (int)r.below(3);
    s["clock0"] = 1000000000000000ull + r.below(1000000000000000ull);
    s["pid"] = 2 + (int)r.below(30000);
    s["log"] = pick(r, { { 3, 70 }, { 0, 10 }, { 1, 10 }, { 2, 10 } });
    s["s3_latency"] = pick(r, { { 0, 50 }, { 5, 25 }, { 50, 15 }, { 2000, 10 } });
    json c;
    int mode = pick(r, { { 0, 50 }, { 1, 30 }, { 2, 20 } });
    c["mode"] = mode;
    c["p"] = pick(r, { { 2, 20 }, { 10, 35 }, { 30, 30 }, { 70, 15 } }) / 100.0;
    c["depth"] = 1 + (int)r.below(5);
    c["horizon"] = logu(r, 100, 20000);
    c["starve"] = (int)r.below(s["nproc"].get<int>() + 1);
    c["spurious"] = r.chance(0.3) ? 0.02 : 0.0;
    // preemption between plain memory accesses, in part of the runs
    static const double plain[] = { 0.0005, 0.002, 0.01, 0.05 };
    c["plain"] = r.chance(0.2) ? plain[r.below(4)] : 0.0;
    s["sched"] = c;
    return s;
}

struct GeomOpt
{
    bool s3 = false, ms = false;
    int version = 0; // 0 any
    int max_files = 24, max_frames = 48;
    bool big_chunks = false;
    bool partial_tail = true;
    int shape = 0; // 1 many layers, 5 very many calls, 2 frames above 64 KiB, 3 shards that never fill up, 4 hardly any frames
};
uint64_t cdiv(uint64_t a, uint64_t b) { return (a + b - 1) / b; }

const char* const word[] = { "t", "z", "c", "y", "x", "time", "Pos", "plane", "wave length", "height", "width", "a/b", "\xc2\xb5m", "q\"uote" };
std::vector<uint64_t> cut(Rng& r, uint64_t total, uint64_t fb, int style, size_t max_calls = 150)
{
    std::vector<uint64_t> v;
    uint64_t done = 0;
    auto put = [&](uint64_t n) {
        n = std::min(n, total - done);
        v.push_back(n);
        done += n;
    };
    while (done < total) {
        if (v.size() > max_calls) {
            put(total - done);
            break;
        }
        switch (style) {
            case 0: put(fb); break;                             // frame by frame
            case 1: put(total); break;                          // everything at once
            case 2: put(1 + r.below(2 * fb)); break;            // anything
            case 3: put(fb * (1 + r.below(4))); break;          // several frames
            case 4: put(fb * r.below(3) + 1 + r.below(fb)); break; // several and a bit
            case 5: put(r.chance(0.5) ? fb - std::min(fb - 1, (uint64_t)1) : fb + 1); break;
            default: put(std::max<uint64_t>(1, fb / (2 + r.below(4)))); break;
        }
        if (r.chance(0.04)) v.push_back(0);
    }
    if (r.chance(0.1)) v.insert(v.begin() + r.below(v.size() + 1), 0);
    return v;
}
StreamSpec geom(Rng& r, const GeomOpt& o, const std::string& prop)
{
    StreamSpec s;
    s.version = o.version ? o.version : (r.chance(0.5) ? 2 : 3);
    s.s3 = o.s3;
    s.ms = o.ms;
    s.dtype = (int)r.below(10);
    int nd = pick(r, { { 3, o.ms ? 75 : 55 }, { 4, 30 }, { 5, 12 }, { 6, o.ms ? 0 : 3 } });
    int files = o.max_files;
    auto px = [&]() -> uint64_t {
        int k = pick(r, { { 0, 10 }, { 1, 50 }, { 2, 30 }, { 3, 10 } });
        if (o.ms) return k == 0 ? 1 + r.below(3) : 2 + r.below(k == 3 ? 40 : 20);
        return k == 0 ? 1 : k == 1 ? 1 + r.below(8) : k == 2 ? 1 + r.below(20) : 16 + r.below(50);
    };
    uint64_t y = px(), x = px();
    if (o.shape == 5) y = 1 + r.below(o.ms ? 9 : 5), x = 1 + r.below(o.ms ? 9 : 5);
    if (o.shape == 1 || o.shape == 3) y = 1 + r.below(5 - o.shape), x = 1 + r.below(5 - o.shape);
    if (o.shape == 2) {
        y = 150 + r.below(250);
        x = 150 + r.below(250);
    }
    if (o.big_chunks) {
        y = 16 + r.below(40);
        x = 16 + r.below(40);
    }
    auto chunk_for = [&](uint64_t n, int& budget) -> uint64_t {
        uint64_t c;
        int k = pick(r, { { 0, 15 }, { 1, 15 }, { 2, 60 }, { 3, 10 } });
        if (k == 0) c = n;
        else if (k == 1) c = cdiv(n, 2);
        else if (k == 2) c = 1 + r.below(n);
        else c = n + 1 + r.below(3);
        if (o.ms && r.chance(0.4)) c = std::max<uint64_t>(1, cdiv(n, 2 + r.below(3)));
        while ((int)cdiv(n, c) > budget) ++c;
        budget /= std::max<int>(1, (int)cdiv(n, c));
        if (budget < 1) budget = 1;
        return c;
    };
    auto shard_for = [&](uint64_t nch) -> uint64_t {
        if (s.version == 2) return r.below(3);
        int k = pick(r, { { 0, 30 }, { 1, 25 }, { 2, 35 }, { 3, 10 } });
        if (k == 0) return 1;
        if (k == 1) return nch;
        if (k == 2) return 1 + r.below(nch);
        return nch + 1 + r.below(2);
    };
    // names are unique within a stream
    std::vector<std::string> names;
    while ((int)names.size() < nd) {
        std::string n = word[r.below(sizeof word / sizeof *word)];
        if (std::find(names.begin(), names.end(), n) == names.end()) names.push_back(n);
    }
    DimSpec app{ names[0], (int)pick(r, { { ZarrDimensionType_Time, 70 }, { ZarrDimensionType_Space, 15 }, { ZarrDimensionType_Channel, o.ms ? 0 : 8 }, { ZarrDimensionType_Other, 7 } }), 0, 1, 1 };
    app.array = r.chance(0.75) ? 0 : 1 + r.below(12);
    app.chunk = pick(r, { { 1, 35 }, { 2, 30 }, { 3, 15 }, { 4, 10 }, { 5, 10 } });
    app.shard = s.version == 3 ? pick(r, { { 1, 35 }, { 2, 35 }, { 3, 20 }, { 4, 10 } }) : (int)r.below(3);
    if (o.shape == 1) app.chunk = 1, app.shard = 1 + r.below(4), files = 2;
    if (o.shape == 2) files = 6;
    if (o.shape == 5) files = o.s3 ? 2 : 4, app.chunk = 1 + r.below(3), app.shard = 1 + r.below(3);
    if (o.shape == 3 && s.version == 3) { // chunk times shard is beyond 32 bits
        static const uint64_t c[][2] = { { 65536, 65536 }, { 65536, 131072 }, { 32768, 131072 }, { 32513, 132100 } }; // 2^32, 2^33, 2^32, 2^32 + 4
        int k = (int)r.below(4);
        app.chunk = c[k][0];
        app.shard = c[k][1];
        files = 2;
    }
    s.dims.push_back(app);
    for (int i = 1; i < nd - 2; ++i) {
        DimSpec d{ names[i], (int)pick(r, { { ZarrDimensionType_Channel, 40 }, { ZarrDimensionType_Space, 35 }, { ZarrDimensionType_Time, 10 }, { ZarrDimensionType_Other, 15 } }), 1, 1, 1 };
        d.array = o.ms ? 1 : 1 + r.below(nd > 4 ? 3 : 4);
        d.chunk = chunk_for(d.array, files);
        if (o.ms) d.chunk = 1;
        d.shard = shard_for(cdiv(d.array, d.chunk));
        s.dims.push_back(d);
    }
    uint64_t cy = chunk_for(y, files), cx = chunk_for(x, files);
    s.dims.push_back({ names[nd - 2], ZarrDimensionType_Space, y, cy, shard_for(cdiv(y, cy)) });
    s.dims.push_back({ names[nd - 1], ZarrDimensionType_Space, x, cx, shard_for(cdiv(x, cx)) });
    if (o.ms && r.chance(0.6)) { // levels exist only where a chunk can shrink
        for (int i = nd - 2; i < nd; ++i)
            if (s.dims[i].array > 2 && s.dims[i].chunk == s.dims[i].array && r.chance(0.5)) s.dims[i].chunk = cdiv(s.dims[i].array, 2);
    }
    int ck = pick(r, { { 0, 50 }, { 1, 42 }, { 2, 5 }, { 3, 3 } });
    if (ck == 1) s.comp = CompSpec{ ZarrCompressor_Blosc1, r.chance(0.5) ? ZarrCompressionCodec_BloscLZ4 : ZarrCompressionCodec_BloscZstd, (int)r.below(10), (int)r.below(3) };
    else if (ck == 2) s.comp = CompSpec{ ZarrCompressor_None, ZarrCompressionCodec_None, (int)r.below(10), (int)r.below(3) };
    else if (ck == 3) s.comp = CompSpec{ ZarrCompressor_None, ZarrCompressionCodec_BloscLZ4, (int)r.below(10), (int)r.below(3) };
    int mk = pick(r, { { 0, 40 }, { 1, 15 }, { 2, 15 }, { 3, 10 }, { 4, 10 }, { 5, 5 }, { 6, 5 } });
    if (mk == 1) s.custom = "";
    else if (mk == 2) s.custom = "{}";
    else if (mk == 3) s.custom = "{\"a\": 1, \"nested\": {\"b\": [1, 2.5, null, true, \"\\u00b5\"]}}";
    else if (mk == 4) s.custom = "  {\"who\": \"me\"}\n ";
    else if (mk == 5) s.custom = "{/* note */ \"k\": \"v\" // tail\n}";
    else if (mk == 6) s.custom = "[1, 2, \"" + std::string(5000, 'm') + "\"]";
    if (s.s3) {
        s.path = pick(r, { { 0, 70 }, { 1, 30 } }) ? "pfx/deep/a.zarr" : "a.zarr";
        s.bucket = r.chance(0.7) ? "bucket-one" : "bucket-two";
        s.root = s.path;
    } else {
        static const char* const paths[] = { "/simfs/w/a.zarr", "a.zarr", "./b.zarr", " a.zarr ", "/simfs/w/deep/dir/x.zarr", "/simfs/w/noext", "/simfs/w/deep/../a.zarr", "deep/./dir//x.zarr", "../w/a.zarr", "/simfs/w/a.zarr/", "a.zarr/./", "deep/x.zarr//." };
        s.path = paths[pick(r, { { 0, 55 }, { 1, 12 }, { 2, 7 }, { 3, 4 }, { 4, 11 }, { 5, 4 }, { 6, 3 }, { 7, 2 }, { 8, 2 }, { 9, 2 }, { 10, 1 }, { 11, 1 } })];
        s.root = s.path;
    }
    // number of frames
    uint64_t L = s.layer_frames(), U = s.unit_frames(), F;
    uint64_t cap = o.max_frames;
    switch (pick(r, { { 0, 5 }, { 1, 15 }, { 2, 25 }, { 3, 20 }, { 4, 35 } })) {
        case 0: F = 0; break;
        case 1: F = 1 + r.below(L); break;
        case 2: F = L * (1 + r.below(4)); break;
        case 3: F = U * (1 + r.below(3)) + (r.chance(0.4) ? r.below(U) : 0); break;
        default: F = 1 + r.below(std::max<uint64_t>(2, std::min(cap, 5 * L))); break;
    }
    if (o.shape == 1) F = L * (200 + r.below(400)) + r.below(L), cap = 700;
    if (o.shape == 5) { // several periods, of all levels together, in every quarter of the run
        uint64_t m = std::max(y, x), p = s.version == 3 ? U : L;
        if (o.ms)
            for (uint64_t c = std::max(cy, cx); m > c || m > 1; m = (m + 1) / 2) p *= 2;
        F = std::min<uint64_t>(std::max<uint64_t>(8 * p, 160 + r.below(200)), 1200);
        cap = 1300;
    }
    if (o.shape == 2 || o.shape == 3) cap = 8;
    if (o.shape == 4) F = r.below(2);
    if (o.shape == 3) F = 1 + r.below(12), cap = 12;
    F = std::min(F, std::max(cap, L + r.below(L + 1)));
    uint64_t fb = s.frame_bytes();
    uint64_t total = F * fb;
    bool odd = prop == "C02" || r.chance(0.35);
    int style = prop == "C02" ? pick(r, { { 1, 10 }, { 2, 30 }, { 3, 10 }, { 4, 20 }, { 5, 15 }, { 6, 15 } })
                              : odd ? pick(r, { { 1, 15 }, { 2, 30 }, { 3, 20 }, { 4, 20 }, { 5, 8 }, { 6, 7 } }) : 0;
    if (o.partial_tail && odd && fb > 1 && r.chance(0.5)) total += 1 + r.below(fb - 1);
    if (o.shape == 5) style = pick(r, { { 0, 60 }, { 5, 20 }, { 2, 20 } });
    s.calls = cut(r, total, fb, style, o.shape == 5 ? 1500 : 150);
    s.dseed = r.next() % 1000000007;
    static const char* const kinds[] = { "rand", "small", "zero", "mixed", "bits" };
    s.data = kinds[o.ms ? pick(r, { { 0, 60 }, { 1, 40 } }) : pick(r, { { 0, 45 }, { 1, 15 }, { 2, 5 }, { 3, 15 }, { 4, 20 } })];
    return s;
}

// fault plans
json entry(Rng& r, const std::string& cls, int lastphase, bool create)
{
    json e;
    e["cls"] = cls;
    if (create) e["phase"] = 0;
    else if (r.chance(0.25)) e["phase"] = -1;
    else if (r.chance(0.2)) e["phase"] = lastphase;
    else e["phase"] = 1 + (int)r.below(std::max(1, lastphase));
    if (r.chance(0.3)) e["rate"] = pick(r, { { 2, 20 }, { 10, 30 }, { 50, 30 }, { 200, 10 }, { 500, 10 } }) / 1000.0;
    else {
        e["nth"] = logu(r, 1, 40);
        e["count"] = pick(r, { { 1, 60 }, { 2, 10 }, { 5, 10 }, { 0, 20 } });
    }
    return e;
}
json plan_for(Rng& r, const StreamSpec& s, bool create, bool threads, json& sim, bool no_short = false)
{
    json p = json::array();
    int n = pick(r, { { 1, 55 }, { 2, 30 }, { 3, 15 } });
    int last = (int)s.calls.size() + 1;
    for (int i = 0; i < n; ++i) {
        std::vector<std::string> c;
        if (s.s3) c = { "s3_request_error", "s3_request_error", "s3_response_lost", "s3_connection_dead", "alloc_failure" };
        else {
            c = { "open_error", "write_error", "write_error", "mkdir_error", "stat_error", "alloc_failure" };
            if (!no_short) {
                c.push_back("short_write");
                c.push_back("write_eintr");
            }
            if (create) {
                c.push_back("unlink_error");
                c.push_back("readdir_error");
            }
        }
        if (s.compressed()) c.push_back("compress_failure");
        if (threads && create) c.push_back("thread_create_failure");
        p.push_back(entry(r, c[r.below(c.size())], last, create));
    }
    if (!s.s3 && !create && r.chance(0.15)) {
        sim["disk"] = (int64_t)logu(r, 4, 300);
        if (r.chance(0.5)) p = json::array();
    }
    return p;
}
// memory so short that blocks of any size can't be had
void small_blocks(Rng& r, json& j, const StreamSpec& s)
{
    if (!r.chance(0.12)) return;
    j["sim"]["alloc_min"] = pick(r, { { 16, 50 }, { 64, 30 }, { 256, 20 } });
    if (r.chance(0.5)) j["plan"] = json::array();
    json e = entry(r, "alloc_failure", (int)s.calls.size() + 1, false);
    if (!e.contains("rate")) e["nth"] = logu(r, 1, 300);
    j["plan"].push_back(e);
}
json stream_spec(const std::string& prop, uint64_t seed, const json& sim, const StreamSpec& s)
{
    json j;
    j["prop"] = prop;
    j["seed"] = seed;
    j["kind"] = "stream";
    j["sim"] = sim;
    j["plan"] = json::array();
    j["streams"] = json::array({ to_json(s) });
    return j;
}
void old_store(Rng& r, json& pre, const std::string& root)
{
    int k = (int)r.below(7);
    if (k == 0) return;
    if (k == 1) {
        pre[root] = "a plain file in the way";
        return;
    }
    if (k == 6) { // the store's own name is a link to something else: the link goes, what it names stays
        static const char* const to[] = { "/simfs/other", "/simfs/w/neighbour.txt", "/simfs/w/deep/dir" };
        pre[root] = { { "link", to[r.below(3)] } };
        return;
    }
    pre[root + "/.zgroup"] = "{\"old\": true}";
    pre[root + "/0/0/0/0"] = "old chunk";
    pre[root + "/0/.zarray"] = "{}";
    pre[root + "/stale/more/file"] = "stale";
    pre[root + "/data/root/0/c99/0/0"] = "old shard";
    pre[root + "/empty/dir"] = nullptr;
    if (k >= 4) {
        pre[root + "/escape"] = { { "link", "/simfs/other" } };
        pre[root + "/dangling"] = { { "link", "/simfs/nowhere" } };
    }
    if (k == 5) pre[root + "/neigh"] = { { "link", "/simfs/w/neighbour.txt" } };
}
// a directory can also be named with a slash at the end
void slash(Rng& r, json& j)
{
    StreamSpec s = stream_from_json(j["streams"][0]);
    if (!s.s3 && s.path[0] != ' ' && s.path.back() != '/' && s.path.back() != '.' && r.chance(0.12)) j["streams"][0]["path"] = s.path + (r.chance(0.7) ? "/" : "/.");
}
}

json gen(const std::string& prop, uint64_t seed)
{
    uint64_t h = seed * 0x9E3779B97F4A7C15ull;
    for (char c : prop) h = (h ^ (uint64_t)c) * 0x100000001b3ull;
    Rng r(h);
    json sim = sim_cfg(r);
    GeomOpt o;
    auto unit = [&](const char* kind, json x) {
        json j;
        j["prop"] = prop;
        j["seed"] = seed;
        j["kind"] = kind;
        j["sim"] = sim;
        j["plan"] = json::array();
        j["x"] = x;
        return j;
    };
    auto s3_limits = [&]() {
        o.max_files = r.chance(0.15) ? 40 : 6; // every object needs a part buffer
        o.max_frames = o.max_files > 6 ? 6 : 20;
    };

    if (prop == "C11" || (prop == "C08" && r.chance(0.15))) {
        json x;
        sim["log"] = 3;
        x["threads"] = pick(r, { { 1, 25 }, { 2, 30 }, { 3, 20 }, { 4, 15 }, { 8, 10 } });
        x["producers"] = pick(r, { { 1, 45 }, { 2, 30 }, { 3, 15 }, { 4, 10 } });
        static const char* const modes[] = { "await", "concurrent", "idle", "destroy" };
        x["mode"] = modes[r.below(4)];
        int n = (int)(r.chance(0.1) ? 0 : r.chance(0.15) ? 20 + r.below(60) : 1 + r.below(12));
        json kinds = json::array(), work = json::array(), nested = json::array();
        double pf = pick(r, { { 0, 30 }, { 20, 40 }, { 60, 20 }, { 100, 10 } }) / 100.0;
        bool thr = r.chance(0.4);
        for (int i = 0; i < n; ++i) {
            kinds.push_back(r.chance(pf) ? (thr && r.chance(0.5) ? 2 : 1) : 0);
            work.push_back((int)r.below(5));
            nested.push_back(-1);
        }
        if (r.chance(0.3) && n > 1)
            for (int i = n - 1; i > 0; --i)
                if (r.chance(0.3)) { // job i is pushed by an earlier job without a child of its own
                    int p = (int)r.below(i);
                    if (nested[p] == -1) nested[p] = i;
                }
        x["kinds"] = kinds;
        x["work"] = work;
        x["nested"] = nested;
        x["msglen"] = pick(r, { { 0, 30 }, { 3, 40 }, { 100, 20 }, { 3000, 10 } });
        x["twice"] = r.chance(0.3);
        x["same"] = r.chance(0.25);
        if (r.chance(0.4)) sim["sched"]["plain"] = pick(r, { { 20, 1 }, { 50, 1 }, { 200, 1 }, { 400, 1 } }) / 1000.0;
        if (r.chance(0.4)) sim["sched"]["spurious"] = 0.05;
        json j = unit("pool", x);
        if (r.chance(0.15)) j["plan"].push_back({ { "cls", "thread_create_failure" }, { "nth", 1 + r.below(4) }, { "count", pick(r, { { 1, 60 }, { 0, 40 } }) } });
        return j;
    }
    if (prop == "C17") {
        json x;
        int nt = pick(r, { { 1, 40 }, { 2, 35 }, { 3, 25 } });
        x["shared"] = r.chance(0.5);
        x["pre"] = r.chance(0.4) ? 0 : logu(r, 1, 200000);
        // disjoint ranges laid out along the file, then dealt to the threads
        std::vector<json> ops;
        uint64_t off = r.chance(0.5) ? 0 : logu(r, 1, 100000);
        if (r.chance(0.35)) off = pick(r, { { 0, 1 }, { 1, 1 }, { 2, 1 } }) * 0x40000000ull + 0x7ffff000ull + r.below(8192);
        if (r.chance(0.1)) off = (1ull << 40) + r.below(100000);
        int nops = 1 + (int)r.below(6);
        for (int i = 0; i < nops; ++i) {
            json sz = json::array();
            int nb = pick(r, { { 0, 5 }, { 1, 25 }, { 2, 40 }, { 3, 22 }, { 4, 8 } });
            uint64_t k = nb == 0 ? 0 : nb == 1 ? 1 : nb == 2 ? 1 + r.below(12) : nb == 3 ? 10 + r.below(100) : 1000 + r.below(1500);
            uint64_t tot = 0;
            for (uint64_t b = 0; b < k; ++b) {
                uint64_t n = r.chance(0.1) ? 0 : k > 500 ? r.below(64) : logu(r, 1, r.chance(0.1) ? 100000 : 5000);
                sz.push_back(n);
                tot += n;
            }
            ops.push_back({ { "off", off }, { "sizes", sz } });
            off += tot + (r.chance(0.6) ? 0 : r.chance(0.2) ? 0x100000000ull : r.below(9000));
        }
        json th = json::array();
        for (int t = 0; t < nt; ++t) th.push_back(json::array());
        for (size_t i = ops.size(); i > 1; --i) std::swap(ops[i - 1], ops[r.below(i)]);
        for (auto& q : ops) th[r.below(nt)].push_back(q);
        x["threads"] = th;
        json j = unit("vfw", x);
        if (r.chance(0.65)) {
            static const char* const c[] = { "short_write", "short_write", "write_eintr", "write_error", "open_error" };
            int n = 1 + (int)r.below(3);
            for (int i = 0; i < n; ++i) {
                json e;
                e["cls"] = c[r.below(5)];
                if (r.chance(0.5)) e["rate"] = pick(r, { { 5, 30 }, { 30, 40 }, { 70, 30 } }) / 100.0;
                else {
                    e["nth"] = 1 + r.below(6);
                    e["count"] = pick(r, { { 1, 60 }, { 2, 20 }, { 5, 20 } });
                }
                j["plan"].push_back(e);
            }
        }
        if (r.chance(0.1)) j["sim"]["disk"] = (int64_t)logu(r, 1, 100);
        return j;
    }
    bool log_stream = prop == "C18" && r.chance(0.08); // what a whole stream prints while things fail
    if (log_stream) sim["log"] = (int)r.below(5);
    if (prop == "C18" && !log_stream) {
        json x;
        x["level0"] = (int)r.below(5);
        int nt = pick(r, { { 1, 15 }, { 2, 35 }, { 3, 30 }, { 4, 20 } });
        bool change = r.chance(0.6);
        int setters = 0;
        json th = json::array();
        for (int t = 0; t < nt; ++t) {
            json ops = json::array();
            bool sets = change && r.chance(0.5);
            setters += sets;
            int n = 1 + (int)r.below(8);
            for (int i = 0; i < n; ++i) {
                if (sets && r.chance(0.4)) ops.push_back({ 1, (int)r.below(5), 0 });
                else if (r.chance(0.1)) ops.push_back({ 2, pick(r, { { 5, 40 }, { 6, 20 }, { 77, 20 }, { -1, 20 } }), 0 });
                else ops.push_back({ 0, (int)r.below(4), pick(r, { { 0, 20 }, { 5, 50 }, { 200, 20 }, { 3000, 10 } }) });
            }
            th.push_back(ops);
        }
        x["threads"] = th;
        x["setters"] = setters;
        return unit("logger", x);
    }
    if (prop == "C15" || (prop == "C19" && r.chance(0.5))) {
        json x;
        x["conns"] = pick(r, { { 1, 30 }, { 2, 35 }, { 3, 20 }, { 8, 15 } });
        x["assemble"] = prop == "C15";
        json sinks = json::array();
        int n = pick(r, { { 1, 35 }, { 2, 35 }, { 3, 20 }, { 4, 10 } });
        const uint64_t P = 5u << 20;
        for (int i = 0; i < n; ++i) {
            json s;
            s["key"] = "obj-" + std::to_string(i);
            bool rewrite = r.chance(0.12);
            json sz = json::array();
            if (rewrite) { // metadata-like: the same small object written again from the start
                uint64_t n0 = 1 + r.below(3000);
                sz.push_back(n0);
                int extra = (int)r.below(3);
                for (int k = 0; k < extra; ++k) sz.push_back(n0 = n0 + r.below(50));
            } else {
                int kind = pick(r, { { 0, 20 }, { 1, 25 }, { 2, 35 }, { 3, 20 } });
                if (kind == 0)
                    for (int k = 0, m = 1 + (int)r.below(5); k < m; ++k) sz.push_back(r.below(4000));
                else if (kind == 1) { // around the part size
                    uint64_t t = P * (1 + r.below(3)) + r.below(5) - 2;
                    int m = 1 + (int)r.below(4);
                    for (int k = 0; k < m - 1; ++k) {
                        uint64_t a = r.below(t + 1);
                        sz.push_back(a);
                        t -= a;
                    }
                    sz.push_back(t);
                } else if (kind == 2) {
                    uint64_t t = 0;
                    int m = 1 + (int)r.below(8);
                    for (int k = 0; k < m && t < 4 * P; ++k) {
                        uint64_t a = r.chance(0.2) ? r.below(100) : r.chance(0.2) ? P : r.chance(0.1) ? 2 * P + r.below(1000) : logu(r, 1000, 6e6);
                        sz.push_back(a);
                        t += a;
                    }
                } else
                    for (int k = 0, m = 2 + (int)r.below(4); k < m; ++k) sz.push_back(P);
            }
            s["sizes"] = sz;
            s["rewrite"] = rewrite;
            s["go_on"] = r.chance(0.4);
            sinks.push_back(s);
        }
        x["sinks"] = sinks;
        json j = unit("s3sink", x);
        if (r.chance(0.65)) {
            static const char* const c[] = { "s3_request_error", "s3_request_error", "s3_response_lost", "s3_connection_dead" };
            int m = 1 + (int)r.below(3);
            for (int i = 0; i < m; ++i) {
                json e;
                e["cls"] = c[r.below(4)];
                if (r.chance(0.4)) e["rate"] = pick(r, { { 5, 40 }, { 20, 40 }, { 60, 20 } }) / 100.0;
                else {
                    e["nth"] = logu(r, 1, 20);
                    e["count"] = pick(r, { { 1, 60 }, { 2, 20 }, { 0, 20 } });
                }
                j["plan"].push_back(e);
            }
        }
        return j;
    }
    if (prop == "C19") {
        json x;
        x["conns"] = pick(r, { { 1, 30 }, { 2, 35 }, { 3, 20 }, { 6, 15 } });
        json tasks = json::array();
        int n = 1 + (int)r.below(7);
        for (int i = 0; i < n; ++i) {
            json t = json::array();
            for (int k = 0, m = 1 + (int)r.below(5); k < m; ++k) t.push_back((int)r.below(4));
            tasks.push_back(t);
        }
        x["tasks"] = tasks;
        if (r.chance(0.4)) sim["sched"]["spurious"] = 0.05;
        json j = unit("conns", x);
        if (r.chance(0.5)) {
            static const char* const c[] = { "s3_request_error", "s3_response_lost", "s3_connection_dead" };
            j["plan"].push_back({ { "cls", c[r.below(3)] }, { "rate", 0.2 } });
        }
        return j;
    }

    if (prop == "C26" && r.chance(0.05)) {
        json x;
        x["settings"] = 1 + (int)r.below(3);
        json ops = json::array();
        for (int i = 0, n = 1 + (int)r.below(20); i < n; ++i) {
            int k = pick(r, { { 0, 15 }, { 1, 10 }, { 2, 45 }, { 3, 30 } });
            ops.push_back({ r.below(x["settings"].get<int>()), k == 0 ? 0 : k == 1 ? r.below(3) : k == 2 ? 3 + r.below(8) : logu(r, 10, 2000), k == 0 ? 1 : 0 });
        }
        x["ops"] = ops;
        sim["alloc_min"] = 1024;
        sim["memcheck"] = true;
        json j = unit("dims", x);
        if (r.chance(0.7)) j["plan"].push_back({ { "cls", "alloc_failure" }, { "rate", 0.3 } });
        return j;
    }
    // ---- whole streams
    double ps3 = 0.12;
    if (prop == "C05") ps3 = 0.15;
    if (prop == "C08" || prop == "C06" || prop == "C10" || prop == "C16" || prop == "C20" || prop == "C07") ps3 = 0.25;
    if (prop == "C13" || prop == "C12") ps3 = 0.1;
    o.s3 = r.chance(ps3);
    if (prop == "C25") o.s3 = false;
    if (prop == "C27") o.s3 = true; // sizes that suit both
    double pms = prop == "C14" ? 1.0 : prop == "C04" ? 0.3 : prop == "C01" ? 0.1 : prop == "C05" ? 0.15 : 0.2;
    o.ms = r.chance(pms);
    if (o.s3) s3_limits();
    if (prop == "C03") o.version = r.chance(0.93) ? 3 : 2;
    if (prop == "C14") {
        o.max_frames = 40;
        o.max_files = 30;
    }
    if (o.ms && o.s3) o.max_files = 4;
    bool faulty = prop == "C06" || prop == "C07" || prop == "C08" || prop == "C09" || prop == "C10" || prop == "C26";
    if (faulty && r.chance(0.5)) {
        o.big_chunks = true;
        o.max_files = std::min(o.max_files, 8);
        o.max_frames = 16;
    }
    if (prop == "C24") o.shape = 5;
    if ((prop == "C08" && r.chance(0.3)) || (faulty && r.chance(0.03))) {
        o.shape = 4;
        o.big_chunks = false;
    }
    if (prop == "C13" || prop == "C12") {
        o.max_frames = 24;
        o.max_files = std::min(o.max_files, 12);
    }

    if (prop == "C12" || prop == "C30") {
        bool braid = prop == "C30";
        int n = braid ? pick(r, { { 1, 15 }, { 2, 60 }, { 3, 25 } }) : pick(r, { { 2, 70 }, { 3, 30 } });
        json j;
        j["prop"] = prop;
        j["seed"] = seed;
        j["kind"] = braid ? "braid" : "multi";
        sim["nproc"] = pick(r, { { 1, 30 }, { 2, 50 }, { 3, 20 } });
        sim["log"] = 3;
        j["plan"] = json::array();
        if (r.chance(0.35)) sim["sched"]["plain"] = pick(r, { { 2, 1 }, { 10, 1 }, { 50, 1 } }) / 1000.0;
        json ss = json::array();
        int victim = n > 1 && r.chance(0.4) ? (int)r.below(n) : -1;
        double on_s3 = braid && r.chance(0.15) ? 0.8 : 0.1;
        StreamSpec s0;
        for (int i = 0; i < n; ++i) {
            GeomOpt q = o;
            q.s3 = r.chance(on_s3) && i != victim;
            q.ms = r.chance(0.2);
            q.max_files = q.s3 ? 4 : 8;
            q.max_frames = q.s3 ? 10 : 20;
            StreamSpec s = geom(r, q, prop);
            if (braid && i && i != victim && r.chance(0.3)) s = s0, s.dseed += i; // twins
            if (!i) s0 = s;
            s.path = s.s3 ? "multi-" + std::to_string(i) + ".zarr" : "/simfs/w/multi-" + std::to_string(i) + ".zarr";
            if (s.calls.size() > 40) s.calls.resize(40);
            ss.push_back(to_json(s));
        }
        j["streams"] = ss;
        j["victim"] = victim;
        if (braid) { // [stream, caller]: 0 main thread, -1 a new thread, k a thread that stays
            std::vector<int> left;
            size_t total = 0;
            for (auto& q : ss) left.push_back((int)q["calls"].size() + 2), total += left.back();
            int threads = (int)r.below(4), cur = 0, style = (int)r.below(3);
            double hop = pick(r, { { 0, 20 }, { 20, 30 }, { 100, 50 } }) / 100.0, fresh = r.chance(0.5) ? 0.3 : 0;
            j["steps"] = json::array();
            int i = 0;
            while (total) {
                if (style == 0 || !left[i] || r.chance(0.3)) do i = (int)r.below(n); while (!left[i]);
                if (r.chance(hop)) cur = r.chance(fresh) ? -1 : (int)r.below(threads + 1);
                j["steps"].push_back({ i, cur });
                --left[i], --total;
                if (style == 1) { // strictly in turn
                    int k = 0;
                    do i = (i + 1) % n; while (!left[i] && ++k < n);
                }
            }
        }
        if (victim >= 0) {
            static const char* const c[] = { "open_error", "write_error", "mkdir_error", "short_write" };
            int m = 1 + (int)r.below(2);
            for (int i = 0; i < m; ++i) {
                json e = { { "cls", c[r.below(4)] }, { "match", "/multi-" + std::to_string(victim) + ".zarr" } };
                if (r.chance(0.5)) e["rate"] = 0.1;
                else {
                    e["nth"] = logu(r, 1, 30);
                    e["count"] = pick(r, { { 1, 50 }, { 0, 50 } });
                }
                j["plan"].push_back(e);
            }
        }
        j["sim"] = sim;
        return j;
    }

    if (prop == "C28") {
        json j;
        j["prop"] = prop;
        j["seed"] = seed;
        j["kind"] = "sequence";
        json ss = json::array();
        int n = pick(r, { { 2, 50 }, { 3, 30 }, { 4, 20 } });
        double on_s3 = r.chance(0.15) ? 0.9 : 0.1;
        StreamSpec s0;
        for (int i = 0; i < n; ++i) {
            GeomOpt q;
            q.s3 = r.chance(on_s3);
            q.ms = r.chance(0.25);
            q.max_files = q.s3 ? 4 : 10;
            q.max_frames = q.s3 ? 12 : 24;
            StreamSpec s = i && r.chance(0.3) ? s0 : geom(r, q, prop); // often the same settings again, with other data
            if (r.chance(0.5)) s.dseed += i;
            if (!s.s3) s.path = r.chance(0.5) ? "/simfs/w/a.zarr" : "/simfs/w/seq-" + std::to_string(i) + ".zarr";
            else s.path = "seq-" + std::to_string(i) + ".zarr"; // objects of earlier stores are not removed
            if (i + 1 < n && r.chance(0.3) && s.calls.size() > 1) s.calls.resize(r.below(s.calls.size()));
            if (!i) s0 = s;
            ss.push_back(to_json(s));
        }
        j["streams"] = ss;
        j["plan"] = json::array();
        if (r.chance(0.5)) {
            StreamSpec t = stream_from_json(ss[r.below(n - 1)]);
            j["plan"] = plan_for(r, t, r.chance(0.3), true, sim);
            for (auto& e : j["plan"]) e.erase("phase"); // any time, in any of the earlier streams
            if (r.chance(0.5) && !t.s3) j["plan"].push_back({ { "cls", "mkdir_error" }, { "rate", 0.05 } });
        }
        j["sim"] = sim;
        return j;
    }
    if (!o.s3 && !o.ms && !o.shape && !o.big_chunks) {
        int k = (int)r.below(1000);
        if (k < 6) o.shape = 1;
        else if (k < 10) o.shape = 2;
        else if (k < 12) o.shape = 3;
        if (o.shape == 3) o.version = 3;
    }
    StreamSpec s = geom(r, o, prop);
    if (prop == "C25") {
        // the process dies (or fails, or finishes), perhaps with the machine, and another one starts over at the same path
        json j = stream_spec(prop, seed, sim, s);
        j["kind"] = "restart";
        StreamSpec t = s;
        if (r.chance(0.6)) {
            GeomOpt q = o;
            q.shape = 0;
            q.version = 0;
            q.ms = r.chance(0.2);
            t = geom(r, q, prop);
            t.path = s.path;
        } else if (r.chance(0.5)) { // the same geometry, other data, fewer or more frames
            t.dseed++;
            t.calls = cut(r, r.below(s.total() + 1) + (r.chance(0.3) ? s.frame_bytes() : 0), s.frame_bytes(), (int)r.below(7));
        }
        j["streams"].push_back(to_json(t));
        if (r.chance(0.8)) j["sim"]["crash_step"] = logu(r, 20, 20000);
        if (r.chance(0.25)) j["plan"] = plan_for(r, s, r.chance(0.2), true, j["sim"]);
        if (r.chance(0.3)) { // not the first one to die here
            json pre = json::object();
            old_store(r, pre, stream_from_json(to_json(s)).root);
            if (!pre.empty()) j["pre"] = pre;
        }
        if (r.chance(0.3)) j["again"] = true;
        if (r.chance(0.4)) j["tear"] = pick(r, { { 5, 1 }, { 30, 2 }, { 90, 1 } }) / 100.0;
        return j;
    }
    if (prop == "C29") {
        json j = stream_spec(prop, seed, sim, s);
        j["kind"] = "legs";
        json a = { { "sim", sim_cfg(r) } }, b = { { "sim", sim_cfg(r) } };
        a["sim"]["log"] = b["sim"]["log"] = 3;
        a["sim"]["s3_latency"] = 0;
        b["sim"]["sched"]["spurious"] = r.chance(0.5) ? 0.1 : 0.0;
        json p = json::array();
        static const char* const c[] = { "short_write", "write_eintr" };
        for (int i = 0, n = 1 + (int)r.below(2); i < n; ++i) {
            json e = { { "cls", c[r.below(2)] } };
            if (r.chance(0.7)) e["rate"] = pick(r, { { 3, 30 }, { 20, 40 }, { 60, 30 } }) / 100.0;
            else e["nth"] = logu(r, 1, 60), e["count"] = 1 + r.below(4);
            p.push_back(e);
        }
        b["plan"] = p;
        j["legs"] = json::array({ a, b });
        return j;
    }
    if (prop == "C27") {
        json j = stream_spec(prop, seed, sim, s);
        j["kind"] = "legs";
        json a = { { "sim", sim_cfg(r) } }, b = { { "sim", sim_cfg(r) } };
        a["sim"]["log"] = b["sim"]["log"] = 3;
        b["stream"] = { { "s3", false }, { "path", "/simfs/w/a.zarr" } };
        j["legs"] = json::array({ a, b });
        return j;
    }
    if (prop == "C13" || (prop == "C02" && r.chance(0.4))) {
        json j = stream_spec(prop, seed, sim, s);
        j["kind"] = "legs";
        json legs = json::array();
        int n = pick(r, { { 2, 75 }, { 3, 25 } });
        for (int i = 0; i < n; ++i) {
            json l = { { "sim", sim_cfg(r) } };
            l["sim"]["log"] = prop == "C13" && r.chance(0.4) ? (int)r.below(5) : 3; // what is logged is not part of the input
            if (prop == "C02") {
                static const int st[] = { 0, 1, 2, 3, 4, 5, 6 };
                l["calls"] = cut(r, s.total(), s.frame_bytes(), st[r.below(7)]);
            }
            legs.push_back(l);
        }
        j["legs"] = legs;
        return j;
    }
    json j = stream_spec(prop, seed, sim, s);
    if (prop == "C05") {
        if (r.chance(0.7)) j["sim"]["crash_step"] = logu(r, 50, 20000);
        if (r.chance(0.2)) { // the process has died before, over the same path
            if (!s.s3) {
                json pre = json::object();
                old_store(r, pre, stream_from_json(to_json(s)).root);
                if (!pre.empty()) j["pre"] = pre;
                slash(r, j);
            }
        }
        return j;
    }
    if (prop == "C24") {
        if (r.chance(0.35)) { // faults that do not fail an operation, or ones after which the stream refuses
            static const char* const c[] = { "short_write", "write_eintr", "write_error", "open_error", "mkdir_error", "alloc_failure" };
            json e = { { "cls", s.s3 ? "s3_request_error" : c[r.below(6)] } };
            if (r.chance(0.5)) e["rate"] = 0.02;
            else e["nth"] = 1 + r.below(200), e["count"] = 1;
            j["plan"].push_back(e);
        }
        return j;
    }
    if (prop == "C26") {
        if (r.chance(0.4)) j["plan"] = plan_for(r, s, r.chance(0.1), true, j["sim"]);
        return j;
    }
    if (prop == "C06" || prop == "C07") {
        bool create = r.chance(0.06);
        j["plan"] = plan_for(r, s, create, true, j["sim"]);
        if (prop == "C07") small_blocks(r, j, s);
        return j;
    }
    if (prop == "C08" || prop == "C10") {
        if (r.chance(0.8)) {
            bool create = r.chance(0.3);
            j["plan"] = plan_for(r, s, create, true, j["sim"]);
        }
        small_blocks(r, j, s);
        if (prop == "C08") j["sim"]["sched"]["spurious"] = r.chance(0.5) ? 0.03 : 0.0;
        return j;
    }
    if (prop == "C09") {
        int k = (int)r.below(10);
        j["sim"]["race"] = true;
        j["sim"]["memcheck"] = true;
        if (r.chance(0.5)) j["sim"]["sched"]["plain"] = pick(r, { { 1, 1 }, { 5, 1 }, { 20, 1 } }) / 1000.0;
        if (k < 5) j["plan"] = plan_for(r, s, r.chance(0.2), true, j["sim"]);
        small_blocks(r, j, s);
        return j;
    }
    if (prop == "C18") {
        if (r.chance(0.7)) j["plan"] = plan_for(r, s, r.chance(0.3), true, j["sim"]);
        return j;
    }
    if (prop == "C16") {
        json pre = json::object();
        std::string root = stream_from_json(to_json(s)).root;
        if (!s.s3) old_store(r, pre, root);
        else {
            pre["s3:bucket-one/a.zarr.bak/x"] = "neighbour";
            pre["s3:bucket-one/pfx/other"] = "neighbour";
            pre["s3:bucket-two/a.zarr/0/0"] = "other bucket";
        }
        pre["/simfs/w/a.zarr2/keep"] = "similar name";
        pre["/simfs/w/a.zar"] = "prefix";
        pre["/simfs/w/a.zarr.tmp"] = "tmp";
        j["pre"] = pre;
        slash(r, j);
        int k = (int)r.below(10);
        if (k < 3) {
            static const char* const rj[] = { "ndims", "chunk0", "array0", "version", "json", "dtype", "lasttype", "name", "nodims", "shard0", "level", "shuffle", "codec", "bucket", "endpoint" };
            size_t n = 10;
            std::vector<std::string> c(rj, rj + n);
            if (s.comp) c.insert(c.end(), { "level", "shuffle", "codec" });
            if (s.s3) c.insert(c.end(), { "bucket", "endpoint" });
            j["reject"] = c[r.below(c.size())];
        } else if (k < 7)
            j["plan"] = plan_for(r, s, r.chance(0.5), true, j["sim"]);
        return j;
    }
    if (prop == "C20") {
        json pre = json::object();
        std::string root = stream_from_json(to_json(s)).root;
        if (!s.s3 && r.chance(0.4)) {
            old_store(r, pre, root);
            if (!pre.empty()) j["pre"] = pre;
        }
        if (s.s3 && r.chance(0.15)) {
            j["missing_bucket"] = true;
            j["buckets"] = json::array({ "bucket-three" });
        } else if (r.chance(0.85)) {
            j["plan"] = plan_for(r, s, true, true, j["sim"]);
            if (!s.s3 && r.chance(0.1)) j["sim"]["disk"] = (int64_t)r.below(6);
        }
        return j;
    }
    return j;
}
