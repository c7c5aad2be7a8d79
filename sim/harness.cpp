#include "harness.h"
#include <sys/mman.h>
#include <blosc.h>
#include <cstring>
#include <iostream>
#include <unistd.h>

// ================================================================ log capture
std::vector<LogLine> log_lines;
static LogLine cur[3];
static uint64_t n_err;
static void log_piece(int stream, const char* p, size_t n)
{
    int me = rt::tid();
    while (n) {
        const char* e = (const char*)memchr(p, '\n', n);
        size_t k = e ? e - p : n;
        LogLine& c = cur[stream];
        if (k || e) {
            if (c.tid >= 0 && c.tid != me) c.mixed = true;
            if (c.tid < 0) c.tid = me;
            c.text.append(p, k);
        }
        p += k;
        n -= k;
        if (e) {
            ++p;
            --n;
            if (stream == 2 && c.text.find("[ERROR]") != std::string::npos) ++n_err;
            if (rt::tracing) rt::trace("log%d: %s", stream, c.text.c_str());
            rt::count(rt::C_LOGLINES);
            if (log_lines.size() < 20000) log_lines.push_back(std::move(c));
            c = LogLine{ stream, -1, false, "" };
        }
    }
}
struct Cap : std::streambuf
{
    int id;
    explicit Cap(int i) : id(i) {}
    int overflow(int c) override
    {
        rt::Guard g;
        char ch = (char)c;
        if (c != EOF) log_piece(id, &ch, 1);
        rt::sched_point(rt::K_LOG, id);
        return 0;
    }
    std::streamsize xsputn(const char* p, std::streamsize n) override
    {
        rt::Guard g;
        log_piece(id, p, (size_t)n);
        rt::sched_point(rt::K_LOG, id);
        return n;
    }
    int sync() override
    {
        rt::Guard g;
        rt::sched_point(rt::K_LOG, 16 + id);
        return 0;
    }
};
void log_install()
{
    static Cap *o = new Cap(1), *e = new Cap(2);
    std::cout.rdbuf(o);
    std::cerr.rdbuf(e);
    std::clog.rdbuf(e);
    log_lines.clear();
    cur[1] = LogLine{ 1, -1, false, "" };
    cur[2] = LogLine{ 2, -1, false, "" };
    n_err = 0;
}
std::string log_partial(int s) { return cur[s].text; }
uint64_t log_errors() { return n_err; }
void sim_capture_fd(int fd, const char* p, size_t n)
{
    if (fd == 1 || fd == 2) log_piece(fd, p, n);
}

// ================================================================ compression seam
extern "C" int blosc_compress_ctx(int clevel, int doshuffle, size_t typesize, size_t nbytes, const void* src, void* dest, size_t destsize,
                                  const char* compressor, size_t blocksize, int nthreads)
{
    typedef int (*fn)(int, int, size_t, size_t, const void*, void*, size_t, const char*, size_t, int);
    static fn real = (fn)rt::real_sym("blosc_compress_ctx");
    if (!rt::self) return real(clevel, doshuffle, typesize, nbytes, src, dest, destsize, compressor, blocksize, nthreads);
    rt::Guard g;
    rt::sched_point(rt::K_BLOSC, nbytes);
    rt::check_range(src, nbytes, false, "blosc source");
    static const int codes[] = { 1, 2 }; // 1: error, 2: does not fit
    if (int c = rt::fault(rt::F_BLOSC, nullptr, codes, 2)) return c == 1 ? -1 : 0;
    rt::check_range(compressor, strlen(compressor) + 1, false, "blosc codec name");
    rt::no_preempt(1);
    int rc = real(clevel, doshuffle, typesize, nbytes, src, dest, destsize, compressor, blocksize, 1);
    rt::no_preempt(-1);
    if (rc > 0) rt::check_range(dest, (size_t)rc, true, "blosc destination");
    rt::sched_point(rt::K_BLOSC, 1);
    return rc;
}

// ================================================================ helpers
std::vector<StreamRun*> active_streams;
static std::string g_prop;
void viol(const std::string& cls, const std::string& what) { rt::violation(cls.c_str(), "%s", what.c_str()); }
std::string describe(const StreamSpec& s) { return to_json(s).dump(); }

void install_hooks()
{
    simfs::set_hook([](simfs::Op op, const std::string& path, simfs::Node* n) {
        rt::Guard g;
        std::string p = path; // keep alive
        for (auto* s : active_streams) s->on_fs(op, p, n);
    });
    sims3::set_hook([](const sims3::Req& q) {
        for (auto* s : active_streams) s->on_s3(q);
    });
}

static char* dup_exact(const std::string& v)
{
    char* p = (char*)rt::sim_alloc(v.size() + 1);
    memcpy(p, v.c_str(), v.size() + 1);
    return p;
}

// settings in exactly sized blocks that are freed as soon as creation returns
struct Settings
{
    ZarrStreamSettings st{};
    ZarrS3Settings s3{};
    ZarrCompressionSettings cs{};
    std::vector<void*> mem;
    std::vector<size_t> size;
    char* str(const std::string& v)
    {
        char* p = dup_exact(v);
        keep(p, v.size() + 1);
        return p;
    }
    void keep(void* p, size_t n)
    {
        mem.push_back(p);
        size.push_back(n);
    }
    std::string image() const
    {
        std::string r;
        for (size_t i = 0; i < mem.size(); ++i) r.append((const char*)mem[i], size[i]);
        return r;
    }
    void scribble()
    {
        for (size_t i = 0; i < mem.size(); ++i) memset(mem[i], 0xA7, size[i]);
    }
    ZarrStreamSettings* make(const StreamSpec& s, const std::string& reject)
    {
        ZarrStreamSettings* r = (ZarrStreamSettings*)rt::sim_alloc(sizeof st);
        keep(r, sizeof st);
        memset((void*)r, 0, sizeof *r);
        r->store_path = str(s.path);
        r->custom_metadata = s.custom ? str(*s.custom) : nullptr;
        if (s.s3) {
            auto* p = (ZarrS3Settings*)rt::sim_alloc(sizeof(ZarrS3Settings));
            keep(p, sizeof *p);
            p->endpoint = str("http://localhost:9000");
            p->bucket_name = str(s.bucket);
            p->access_key_id = str("key");
            p->secret_access_key = str("secret");
            r->s3_settings = p;
        }
        if (s.comp) {
            auto* p = (ZarrCompressionSettings*)rt::sim_alloc(sizeof(ZarrCompressionSettings));
            keep(p, sizeof *p);
            memset((void*)p, 0, sizeof *p);
            p->compressor = (ZarrCompressor)s.comp->compressor;
            p->codec = (ZarrCompressionCodec)s.comp->codec;
            p->level = (uint8_t)s.comp->level;
            p->shuffle = (uint8_t)s.comp->shuffle;
            r->compression_settings = p;
        }
        size_t nd = s.dims.size();
        auto* d = (ZarrDimensionProperties*)rt::sim_alloc(sizeof(ZarrDimensionProperties) * nd);
        keep(d, sizeof(ZarrDimensionProperties) * nd);
        for (size_t i = 0; i < nd; ++i) {
            memset((void*)&d[i], 0, sizeof d[i]);
            d[i].name = str(s.dims[i].name);
            d[i].type = (ZarrDimensionType)s.dims[i].type;
            d[i].array_size_px = (uint32_t)s.dims[i].array;
            d[i].chunk_size_px = (uint32_t)s.dims[i].chunk;
            d[i].shard_size_chunks = (uint32_t)s.dims[i].shard;
        }
        r->dimensions = d;
        r->dimension_count = nd;
        r->multiscale = s.ms;
        r->data_type = (ZarrDataType)s.dtype;
        r->version = (ZarrVersion)s.version;
        if (reject == "ndims") r->dimension_count = 2;
        else if (reject == "chunk0") d[nd - 1].chunk_size_px = 0;
        else if (reject == "array0") d[nd - 1].array_size_px = 0;
        else if (reject == "version") r->version = (ZarrVersion)7;
        else if (reject == "json") r->custom_metadata = str("{\"a\": ");
        else if (reject == "dtype") r->data_type = ZarrDataTypeCount;
        else if (reject == "lasttype") d[nd - 1].type = ZarrDimensionType_Time;
        else if (reject == "name") d[0].name = str("");
        else if (reject == "nodims") r->dimensions = nullptr;
        else if (reject == "level" && r->compression_settings) r->compression_settings->level = 12;
        else if (reject == "shuffle" && r->compression_settings) r->compression_settings->shuffle = 9;
        else if (reject == "codec" && r->compression_settings) {
            r->compression_settings->compressor = ZarrCompressor_Blosc1;
            r->compression_settings->codec = ZarrCompressionCodec_None;
        } else if (reject == "bucket" && r->s3_settings) r->s3_settings->bucket_name = str("x");
        else if (reject == "endpoint" && r->s3_settings) r->s3_settings->endpoint = str("");
        else if (reject == "shard0") {
            r->version = ZarrVersion_3;
            d[nd - 1].shard_size_chunks = 0;
        } else if (reject.size()) r->dimension_count = 2;
        return r;
    }
    ~Settings()
    {
        for (void* p : mem) rt::sim_free(p);
    }
};
static std::string g_reject;

// ================================================================ stream under test
bool StreamRun::create()
{
    if (phases) rt::set_phase(0);
    rt::count(rt::C_CREATES);
    err0 = log_errors();
    ZarrStream* r;
    {
        Settings st;
        auto* p = st.make(s, g_reject);
        std::string before = st.image();
        {
            rt::Sut t;
            r = ZarrStream_create(p);
        }
        if (mon & M_BORROW) {
            if (st.image() != before) viol("caller-memory", "creation changed the settings the caller passed in");
            st.scribble();
        }
    }
    h = r;
    created = r != nullptr;
    rt::event(0xc4ea7e, created);
    if (!created) rt::count(rt::C_CREATES_FAILED);
    if (!created && (mon & M_QUIET) && g_reject.empty())
        viol("create-refused", "creation failed although nothing failed underneath: " + (log_lines.empty() ? std::string() : log_lines.back().text));
    if (created && (mon & M_CRASH)) crash_check("when creation returned");
    return created;
}
void StreamRun::append_next()
{
    if (next_call < s.calls.size()) append(s.calls[next_call++]);
}
void StreamRun::append(uint64_t n)
{
    if (phases) rt::set_phase((int)next_call);
    rt::count(rt::C_APPENDS);
    // the caller's buffer: a block of its own for every call, or one that is used again and again
    bool borrow = mon & M_BORROW;
    if (borrow && (!lent || n > lent_size)) {
        if (lent) rt::sim_free(lent);
        lent_size = std::max<uint64_t>(n, 1);
        for (uint64_t c : s.calls) lent_size = std::max(lent_size, c);
        lent = (char*)rt::sim_alloc(lent_size);
    }
    char* buf = borrow ? lent : (char*)rt::sim_alloc(n);
    if (n) src.bytes(accepted, n, buf);
    std::string given;
    if (borrow) given.assign(buf, n);
    size_t* out = (size_t*)rt::sim_alloc(sizeof(size_t));
    *out = 0x5a5a5a5a;
    int st;
    {
        rt::Sut t;
        st = ZarrStream_append(h, buf, n, out);
    }
    uint64_t o = *out;
    if (borrow) {
        if (memcmp(given.data(), buf, n)) viol("caller-memory", "append " + std::to_string(next_call) + " changed the bytes the caller passed in");
        memset(buf, 0xA7, lent_size);
    } else
        rt::sim_free(buf);
    rt::sim_free(out);
    rt::event(0xa99e4d, st, o);
    if (mon & M_BOUND) use.push_back({ next_call, rt::live_bytes(), rt::live_blocks(), (uint64_t)simfs::open_count(), (uint64_t)rt::live_threads(), (uint64_t)sims3::stats.clients_alive, rt::alloc_mark() });
    results.push_back({ st, st == ZarrStatusCode_Success ? o : 0 });
    if (st < 0 || st >= ZarrStatusCodeCount) viol("bad-status", "append returned " + std::to_string(st));
    bool ok = st == ZarrStatusCode_Success && o == n;
    if (st == ZarrStatusCode_Success && o != n && ((mon & M_QUIET) || o > n || (mon & M_ACK)))
        viol("short-append", "append of " + std::to_string(n) + " bytes returned success but reported " + std::to_string(o) + " bytes");
    if (!ok) rt::count(rt::C_APPENDS_FAILED);
    if (!ok && (mon & M_QUIET))
        viol("append-failed", "append " + std::to_string(next_call) + " of " + std::to_string(n) + " bytes failed with status " + std::to_string(st) + " although nothing failed underneath: " +
                                (log_lines.empty() ? std::string() : log_lines.back().text));
    if (ok && n && failed && (mon & M_STOP))
        viol("append-after-failure", "append " + std::to_string(next_call) + " reported success for " + std::to_string(n) + " bytes after an earlier append had reported a failure");
    if (!ok) failed = true;
    if (ok && !failed) {
        accepted += n;
        units = s.unit_frames() ? frames() / s.unit_frames() : 0;
        check_units();
    }
    if ((mon & M_CRASH) && ok) crash_check("when an append returned");
}
Files StreamRun::files() const
{
    Files f;
    if (s.s3) {
        for (auto& [k, v] : sims3::snapshot(s.bucket, s.root + "/")) f[k] = v;
    } else {
        for (auto& [k, v] : simfs::snapshot(s.root)) {
            if (v.empty() || v[0] != 'F') continue;
            std::string r = k;
            if (r.compare(0, s.root.size(), s.root) == 0) r = r.substr(s.root.size());
            while (r.size() && r[0] == '/') r = r.substr(1);
            f[r] = v.substr(1);
        }
    }
    return f;
}
static void freeze_keys(StreamRun& r, const std::vector<std::string>& keys)
{
    for (auto& k : keys) {
        if (r.s.s3) {
            auto* o = sims3::get(r.s.bucket, r.abs(k));
            if (o) r.frozen[r.abs(k)] = *o;
        } else if (auto* n = simfs::find(r.abs(k))) {
            r.frozen[r.abs(k)] = simfs::read_range(n, 0, n->size);
            simfs::freeze(r.abs(k));
        }
    }
}
// multiscale levels: a chunk of a level is complete when the slices it covers have been averaged from accepted frames
void StreamRun::check_levels()
{
    if (!s.ms || !(mon & (M_ACK | M_CRASH | M_FROZEN)) || s.inner() != 1) return;
    uint64_t F = frames();
    // nothing is new before the number of slices of level 1 changes
    if (F / 2 == levels_at / 2) return;
    levels_at = F;
    Files f;
    bool have = false;
    if (lvl.empty()) {
        json ms;
        if (!s.s3) {
            f = files();
            have = true;
            if (parse_group(f, s.version, ms).size()) return; // judged elsewhere
            lvl.resize(ms[0]["datasets"].size());
        } else
            return; // documents appear on closing
    }
    for (size_t l = 1; l < lvl.size(); ++l) {
        uint64_t n = F >> l;
        if (!n) break;
        std::string what = "append " + std::to_string(next_call) + " returned success (" + std::to_string(F) + " frames accepted) but ";
        if (!lvl[l].known) {
            if (!have) f = files(), have = true;
            std::string e = parse_array(f, s.version, (int)l, lvl[l].a);
            if (e.size()) {
                // no unit of a level is larger than one of the full resolution
                if (n >= s.unit_frames() && (mon & (M_ACK | M_CRASH))) viol("array-metadata", what + "level " + std::to_string(l) + ", which has a complete chunk, has no valid metadata: " + e);
                continue;
            }
            lvl[l].known = true;
        }
        uint64_t u = n / level_unit_slices(s, lvl[l].a);
        if (u <= lvl[l].units) continue;
        if (mon & (M_ACK | M_CRASH)) {
            if (!have) f = files(), have = true;
            std::string e = check_level_units(f, s, (int)l, lvl[l].a, lvl[l].units, u, ref);
            if (e.size()) viol("completed-chunk-missing", what + e);
        }
        for (uint64_t k = lvl[l].units; k < u; ++k) freeze_keys(*this, level_unit_keys(s, lvl[l].a, k));
        lvl[l].units = u;
    }
}
void StreamRun::check_units()
{
    check_levels();
    if (units <= units_checked) return;
    if (mon & (M_ACK | M_CRASH)) {
        Files f = files();
        std::string e = check_complete_units(f, s, units_checked, units, src, nullptr);
        if (e.size()) viol("completed-chunk-missing", "append " + std::to_string(next_call) + " returned success (" + std::to_string(frames()) + " frames accepted) but " + e);
    }
    if (mon & (M_FROZEN | M_CRASH | M_ACK)) {
        for (uint64_t u = units_checked; u < units; ++u) freeze_keys(*this, unit_keys(s, u));
    }
    units_checked = units;
}
static bool is_doc(const std::string& p)
{
    size_t q = p.rfind('/');
    std::string b = q == std::string::npos ? p : p.substr(q + 1);
    return b.size() && (b[0] == '.' || (b.size() > 5 && b.compare(b.size() - 5, 5, ".json") == 0));
}
void StreamRun::on_fs(simfs::Op op, const std::string& path, simfs::Node*)
{
    if (mon & M_SCOPE) {
        bool inside = !s.s3 && (path == s.root || path.compare(0, s.root.size() + 1, s.root + "/") == 0);
        if (!inside) viol("outside-store", std::string(simfs::op_names[op]) + " of " + path + " while the store is " + (s.s3 ? "on S3" : s.root));
    }
    if (s.s3 || frozen.empty() || !(mon & (M_FROZEN | M_CRASH | M_ACK))) {
    } else {
        auto i = frozen.find(path);
        if (i != frozen.end()) {
            auto* n = simfs::find(path);
            if (!n || n->type != simfs::FILE_T || n->size != i->second.size() || simfs::read_range(n, 0, n->size) != i->second)
                viol("completed-chunk-changed", std::string(simfs::op_names[op]) + " changed " + path + ", which an earlier successful append had completed; stack:" + rt::stack_of_self());
        } else if (op == simfs::RENAME || op == simfs::RMDIR || op == simfs::UNLINK) {
            for (auto& [k, v] : frozen)
                if (k.size() > path.size() && k.compare(0, path.size() + 1, path + "/") == 0 && !simfs::exists(k))
                    viol("completed-chunk-changed", std::string(simfs::op_names[op]) + " of " + path + " removed the completed " + k);
        }
    }
    if ((mon & M_CRASH) && created && !s.s3 && path.compare(0, s.root.size(), s.root) == 0 && (is_doc(path) || op == simfs::RENAME || op == simfs::RMDIR))
        crash_check((std::string("right after ") + simfs::op_names[op] + " of " + path).c_str());
}
void StreamRun::on_s3(const sims3::Req& q)
{
    if (!q.applied) return;
    bool mut = q.op == sims3::PUT || q.op == sims3::REMOVE || q.op == sims3::CREATE_MP || q.op == sims3::COMPLETE || q.op == sims3::UPLOAD;
    if (!mut) return;
    if (mon & M_SCOPE) {
        if (!s.s3 || q.bucket != s.bucket || q.key.compare(0, s.root.size() + 1, s.root + "/"))
            viol("outside-store", std::string(sims3::op_names[q.op]) + " of " + q.bucket + "/" + q.key + " while the store is " + s.bucket + "/" + s.root);
    }
    if (s.s3 && q.bucket == s.bucket && !frozen.empty()) {
        auto i = frozen.find(q.key);
        if (i != frozen.end()) {
            auto* o = sims3::get(q.bucket, q.key);
            if (!o || *o != i->second) viol("completed-chunk-changed", std::string(sims3::op_names[q.op]) + " changed " + q.key + ", which an earlier successful append had completed");
        }
    }
}
// what a reader finds if the process dies now
void StreamRun::crash_check(const char* when)
{
    rt::count(rt::C_CRASHPOINTS);
    if (s.s3) return;
    Files f;
    auto load = [&](const std::string& k) {
        if (auto* n = simfs::find(abs(k)))
            if (n->type == simfs::FILE_T) f[k] = simfs::read_range(n, 0, n->size);
    };
    load(group_meta_key(s.version));
    load(base_meta_key(s.version));
    load(array_meta_key(s.version, 0));
    json ms;
    std::string e = parse_group(f, s.version, ms);
    if (e.size()) viol("group-metadata", std::string("if the process dies ") + when + ": " + e);
    if (!units) return;
    Arr a;
    e = parse_array(f, s.version, 0, a);
    if (e.size()) viol("array-metadata", std::string("if the process dies ") + when + ": " + e);
    uint64_t need = units * s.dims[0].chunk * (s.version == 3 ? s.dims[0].shard : 1);
    if (a.shape[0] < need)
        viol("array-metadata", std::string("if the process dies ") + when + ": array shape covers " + std::to_string(a.shape[0]) + " slices, completed chunks reach to " + std::to_string(need));
    for (size_t i = 0; i < s.dims.size(); ++i)
        if (a.chunk[i] != s.dims[i].chunk || (i && a.shape[i] != s.dims[i].array) || (s.version == 3 && a.cps[i] != s.dims[i].shard) || a.dtype != s.dtype || a.comp != s.compressed())
            viol("array-metadata", std::string("if the process dies ") + when + ": array metadata contradict the settings");
    for (size_t l = 1; l < lvl.size(); ++l) {
        if (!lvl[l].units) continue;
        load(array_meta_key(s.version, (int)l));
        Arr b;
        e = parse_array(f, s.version, (int)l, b);
        if (e.size()) viol("array-metadata", std::string("if the process dies ") + when + ": " + e);
        if (b.shape[0] < lvl[l].units * level_unit_slices(s, lvl[l].a))
            viol("array-metadata", std::string("if the process dies ") + when + ": shape of level " + std::to_string(l) + " covers " + std::to_string(b.shape[0]) + " slices, completed chunks reach to " +
                                     std::to_string(lvl[l].units * level_unit_slices(s, lvl[l].a)));
    }
}
// what is held after each append must not grow with the number of appends
void StreamRun::check_bounded()
{
    // a failed stream holds whatever it held when it failed: then only what follows is looked at
    size_t k0 = 0;
    while (failed && k0 < use.size() && results[k0].first == ZarrStatusCode_Success) ++k0;
    use.erase(use.begin(), use.begin() + k0);
    size_t n = use.size();
    if (n < 60) return;
    struct
    {
        const char* what;
        uint64_t Use::*m;
        uint64_t slack;
    } const q[] = { { "bytes of memory", &Use::bytes, 1024 }, { "memory blocks", &Use::blocks, 6 }, { "open files", &Use::files, 0 }, { "threads", &Use::threads, 0 }, { "S3 clients", &Use::clients, 0 } };
    for (auto& k : q) {
        uint64_t lo[2] = { UINT64_MAX, UINT64_MAX }, hi[2] = { 0, 0 };
        for (int h = 0; h < 2; ++h)
            for (size_t i = h ? 3 * n / 4 : n / 4; i < (h ? n : n / 2); ++i) {
                lo[h] = std::min(lo[h], use[i].*k.m);
                hi[h] = std::max(hi[h], use[i].*k.m);
            }
        if (getenv("SIM_BOUND")) fprintf(stderr, "BOUND %s %lld %lld\n", k.what, (long long)(lo[1] - lo[0]), (long long)(hi[1] - hi[0]));
        if (lo[1] > lo[0] + k.slack || hi[1] > hi[0] + k.slack)
            viol("unbounded-resources", std::string(k.what) + " held after an append grow with the number of appends: between " + std::to_string(lo[0]) + " and " + std::to_string(hi[0]) + " after appends " +
                                          std::to_string(k0 + n / 4 + 1) + " to " + std::to_string(k0 + n / 2) + ", between " + std::to_string(lo[1]) + " and " + std::to_string(hi[1]) + " after appends " +
                                          std::to_string(k0 + 3 * n / 4 + 1) + " to " + std::to_string(k0 + n) + "; new since then: " + rt::busiest_site(use[n / 4].mark, use[n - 1].mark));
    }
}
void StreamRun::destroy()
{
    if (mon & M_BOUND) check_bounded();
    if (phases) rt::set_phase((int)s.calls.size() + 1);
    uint64_t e0 = log_errors();
    {
        rt::Sut t;
        ZarrStream_destroy(h);
    }
    h = nullptr;
    if (lent) rt::sim_free(lent);
    lent = nullptr;
    destroyed = true;
    close_errors = log_errors() - e0;
    rt::event(0xde57, close_errors ? 1 : 0);
    if (close_errors && (mon & M_QUIET)) {
        std::string t;
        for (auto& l : log_lines)
            if (l.text.find("[ERROR]") != std::string::npos) t = l.text;
        viol("close-failed", "closing logged an error although nothing failed underneath: " + t);
    }
    check_final();
}
void StreamRun::check_final()
{
    if (!(mon & (M_FINAL | M_INDEX | M_META | M_ACK | M_CRASH | M_SCALE | M_DECODE))) return;
    Files f = files();
    std::string e;
    bool clean = !failed && close_errors == 0 && !rt::R->counters[rt::C_SMALL_FAILED]; // a failure could not be logged
    if (mon & (M_ACK | M_CRASH)) {
        for (size_t l = 1; l < lvl.size() && e.empty(); ++l)
            if (lvl[l].known) e = check_level_units(f, s, (int)l, lvl[l].a, 0, lvl[l].units, ref);
        if (e.empty()) e = check_complete_units(f, s, 0, units, src, nullptr);
        if (e.size()) viol("completed-chunk-missing", "after close, of " + std::to_string(frames()) + " accepted frames: " + e);
        if ((mon & M_CRASH)) crash_check("after the close");
    }
    if (!clean) return;
    unsigned m = mon;
    if (m & M_ACK) m |= M_FINAL | M_META | M_INDEX | (s.ms ? M_SCALE : 0);
    uint64_t n = frames();
    if (m & M_META) {
        e = check_settings_meta(f, s, n);
        if (e.size()) viol("metadata", "closed after " + std::to_string(n) + " frames: " + e);
    }
    Arr a;
    if (m & (M_FINAL | M_INDEX | M_DECODE)) {
        e = parse_array(f, s.version, 0, a);
        if (e.size()) viol("metadata", "closed after " + std::to_string(n) + " frames: " + e);
    }
    if (m & M_INDEX && s.version == 3) {
        e = check_shards(f, s, a, 0, n, true);
        if (e.size()) viol("shard-index", "closed after " + std::to_string(n) + " frames: " + e);
        json ms;
        if (s.ms && parse_group(f, s.version, ms).empty())
            for (size_t l = 1; l < ms[0]["datasets"].size(); ++l) {
                Arr b;
                e = parse_array(f, s.version, (int)l, b);
                if (e.size()) viol("metadata", e);
                e = check_shards(f, s, b, (int)l, n, false);
                if (e.size()) viol("shard-index", "closed after " + std::to_string(n) + " frames: " + e);
            }
    }
    if (m & M_FINAL) {
        e = check_data(f, s, a, n, src);
        if (e.size()) viol("data", "closed after " + std::to_string(n) + " frames (" + std::to_string(accepted) + " bytes): " + e);
    }
    if (m & M_DECODE) {
        // every chunk decodes with the compressor the metadata name
        StreamSpec t = s;
        e = check_data(f, s, a, n, src);
        if (e.find("wrong bytes") == std::string::npos && e.find("is missing") == std::string::npos && e.size()) viol("metadata", e);
        (void)t;
    }
    if (m & M_SCALE) {
        e = check_multiscale(f, s, {});
        if (e.size()) viol("multiscale", "closed after " + std::to_string(n) + " frames: " + e);
        if (s.ms && !(m & M_META)) {
            Arr b;
            e = parse_array(f, s.version, 0, b);
            if (e.size()) viol("metadata", e);
        }
    }
    if (rt::tracing) rt::trace("final check ok: %llu frames, %zu files", (unsigned long long)n, f.size());
}
void StreamRun::all()
{
    active_streams.push_back(this);
    if (create()) {
        while (next_call < s.calls.size()) append_next();
        destroy();
    }
    for (size_t i = 0; i < active_streams.size(); ++i)
        if (active_streams[i] == this) {
            active_streams.erase(active_streams.begin() + i);
            break;
        }
}

// ================================================================ specification -> run
rt::Cfg cfg_of(const json& spec)
{
    rt::Cfg c;
    const json& m = spec["sim"];
    c.seed = spec["seed"];
    c.nproc = m.value("nproc", 2);
    c.pattern = m.value("pattern", 0);
    c.race = m.value("race", false);
    c.memcheck = m.value("memcheck", false);
    c.alloc_min = m.value("alloc_min", (uint64_t)2048);
    c.disk_blocks = m.value("disk", (int64_t)-1);
    c.dir_order = m.value("dir_order", 0);
    c.clock0 = m.value("clock0", (uint64_t)1700000000000000ull);
    c.pid = m.value("pid", 4242);
    c.crash_step = m.value("crash_step", (uint64_t)0);
    c.max_steps = m.value("max_steps", (uint64_t)3000000);
    if (m.contains("sched")) {
        auto& s = m["sched"];
        c.sched.mode = s.value("mode", 0);
        c.sched.p = s.value("p", 0.1);
        c.sched.depth = s.value("depth", 3);
        c.sched.horizon = s.value("horizon", 2000u);
        c.sched.starve = s.value("starve", 0);
        c.sched.spurious = s.value("spurious", 0.0);
        c.sched.plain = s.value("plain", 0.0);
    }
    if (spec.contains("plan"))
        for (auto& e : spec["plan"]) {
            rt::PlanEntry p;
            std::string cl = e["cls"];
            p.cls = -1;
            for (int i = 0; i < rt::F_NCLASS; ++i)
                if (cl == rt::fault_names[i]) p.cls = i;
            p.phase = e.value("phase", -1);
            p.nth = e.value("nth", 1u);
            p.count = e.value("count", 1u);
            p.code = e.value("code", 0);
            p.rate = e.value("rate", 0.0);
            p.match = e.value("match", "");
            c.plan.push_back(p);
        }
    return c;
}
static void setup_world(const json& spec)
{
    simfs::reset();
    sims3::reset(spec["seed"].get<uint64_t>());
    simfs::mkdirs("/simfs/w");
    simfs::mkdirs("/simfs/w/deep/dir");
    simfs::put("/simfs/w/neighbour.txt", "neighbour");
    simfs::put("/simfs/other/file", "other");
    sims3::max_latency_us = spec["sim"].value("s3_latency", (uint64_t)0);
    for (auto& b : spec.value("buckets", json::array({ "bucket-one", "bucket-two" }))) sims3::add_bucket(b);
    if (spec.contains("pre"))
        for (auto& [k, v] : spec["pre"].items()) {
            if (k.compare(0, 3, "s3:") == 0) {
                std::string r = k.substr(3);
                size_t q = r.find('/');
                sims3::put(r.substr(0, q), r.substr(q + 1), v);
            } else if (v.is_null())
                simfs::mkdirs(k);
            else if (v.is_object()) {
                if (v.contains("link")) simfs::link_to(k, v["link"]);
                if (v.contains("mode")) simfs::set_mode(k, v["mode"]);
            } else {
                size_t q = k.rfind('/');
                simfs::mkdirs(k.substr(0, q));
                simfs::put(k, v);
            }
        }
    log_install();
    active_streams.clear();
    install_hooks();
    int lvl = spec["sim"].value("log", 3);
    rt::Sut t;
    Zarr_set_log_level((ZarrLogLevel)lvl);
}
static unsigned monitors(const std::string& p)
{
    static const std::map<std::string, unsigned> m = {
        { "C01", M_FINAL | M_QUIET }, { "C02", M_FINAL | M_QUIET }, { "C03", M_FINAL | M_INDEX | M_QUIET }, { "C04", M_META | M_DECODE | M_QUIET },
        { "C05", M_CRASH }, { "C06", M_ACK }, { "C07", M_STOP | M_FROZEN }, { "C08", 0 }, { "C09", 0 }, { "C10", M_LEAK },
        { "C12", 0 }, { "C30", 0 }, { "C18", M_LOG }, { "C13", M_QUIET }, { "C14", M_SCALE | M_QUIET }, { "C16", M_SCOPE }, { "C20", M_READY }, { "C24", M_BOUND | M_QUIET },
        { "C26", M_BORROW | M_ACK | M_FINAL | M_META | M_QUIET }, { "C27", M_QUIET | M_META }, { "C29", M_QUIET | M_FINAL },
    };
    auto i = m.find(p);
    return i == m.end() ? 0 : i->second;
}
static std::map<std::string, std::string> world()
{
    std::map<std::string, std::string> r = simfs::snapshot("/simfs");
    for (auto& [k, v] : sims3::snapshot_all()) r["s3:" + k] = v;
    return r;
}
static std::string diff(const std::map<std::string, std::string>& a, const std::map<std::string, std::string>& b)
{
    for (auto& [k, v] : a) {
        auto i = b.find(k);
        if (i == b.end()) return k + " is gone";
        if (i->second != v) {
            size_t n = 0;
            while (n < v.size() && n < i->second.size() && v[n] == i->second[n]) ++n;
            return k + " differs at byte " + std::to_string(n ? n - 1 : 0) + " (sizes " + std::to_string(v.size()) + ", " + std::to_string(i->second.size()) + ")";
        }
    }
    for (auto& [k, v] : b)
        if (!a.count(k)) return k + " is new";
    return "";
}
static bool under(const std::string& k, const StreamSpec& s)
{
    std::string r = s.s3 ? "s3:" + s.bucket + "/" + s.root : s.root;
    return k == r || k.compare(0, r.size() + 1, r + "/") == 0;
}

// the decisions being replayed stay in force
static rt::Cfg keep_replay(rt::Cfg c)
{
    c.replay = rt::cfg.replay;
    c.rdev = rt::cfg.rdev;
    c.rplain = rt::cfg.rplain;
    c.rfaults = rt::cfg.rfaults;
    return c;
}
static void check_released(uint64_t mark, int open0, const char* when)
{
    if (int n = rt::live_threads()) viol("thread-leak", std::to_string(n) + " worker threads still exist " + when);
    if (simfs::open_count() != open0) viol("file-leak", std::string("files still open ") + when + ": " + simfs::open_list());
    if (sims3::stats.clients_alive) viol("connection-leak", std::to_string(sims3::stats.clients_alive) + " S3 clients still exist " + when);
    std::string w;
    if (rt::find_leak(mark, w)) viol("memory-leak", w + " (" + when + ")");
}

// everything the library prints is a whole line of at least the level in force, on the right stream
static void check_log(int level)
{
    static const char* const tag[] = { " [DEBUG] ", " [INFO] ", " [WARNING] ", " [ERROR] " };
    bool some = false;
    for (auto& l : log_lines) {
        std::string t = l.text.substr(0, 200);
        if (l.mixed) viol("line-interrupted", "two threads wrote into one line: '" + t + "'");
        int k = 0;
        size_t at = std::string::npos;
        for (int i = 0; i < 4; ++i)
            if (l.text.find(tag[i]) < at) at = l.text.find(tag[i]), k = i;
        if (at == std::string::npos) { // the rest of a message of several lines
            if (level > 3 || !some) viol("stray-line", "a line without a level: '" + t + "'");
            continue;
        }
        some = true;
        if (k < level) viol("line-not-filtered", "a line of level " + std::to_string(k) + " was emitted although the level in force was " + std::to_string(level) + ": '" + t + "'");
        if (l.stream != (k >= 3 ? 2 : 1)) viol("wrong-stream", std::string("a line of level ") + std::to_string(k) + " went to " + (l.stream == 1 ? "standard output" : "standard error") + ": '" + t + "'");
    }
    if (log_partial(1).size() || log_partial(2).size()) viol("line-interrupted", "a line was never finished");
}

static void run_stream(const json& spec)
{
    std::string prop = spec["prop"];
    unsigned mon = monitors(prop);
    if (spec.contains("plan") && (spec["plan"].size() || spec["sim"].value("disk", (int64_t)-1) >= 0)) mon &= ~M_QUIET;
    StreamSpec sp = stream_from_json(spec["streams"][0]);
    g_reject = spec.value("reject", "");
    std::map<std::string, std::string> before;
    if (mon & M_SCOPE) before = world();
    uint64_t mark = rt::alloc_mark();
    int open0 = simfs::open_count();
    {
        StreamRun* r = new StreamRun(sp, mon, true);
        active_streams.push_back(r);
        static StreamRun* cr;
        cr = r;
        rt::on_crash = [] {
            Files f = cr->files();
            if (cr->mon & M_CRASH) {
                std::string e = check_complete_units(f, cr->s, 0, cr->units, cr->src, nullptr);
                for (size_t l = 1; l < cr->lvl.size() && e.empty(); ++l)
                    if (cr->lvl[l].known) e = check_level_units(f, cr->s, (int)l, cr->lvl[l].a, 0, cr->lvl[l].units, cr->ref);
                if (e.size()) viol("completed-chunk-missing", "process killed at step " + std::to_string(rt::steps()) + ": " + e);
                if (cr->created) cr->crash_check("at that step");
            }
        };
        bool ok = r->create();
        if ((mon & M_SCOPE)) {
            auto now = world();
            if (!ok && g_reject.size()) {
                std::string d = diff(before, now);
                if (d.size()) viol("rejected-settings-changed-store", "creation with rejected settings (" + g_reject + "): " + d);
            }
            if (ok && !sp.s3) {
                for (auto& [k, v] : before)
                    if (k != sp.root && under(k, sp) && v.size() && v[0] != 'D') {
                        auto i = now.find(k);
                        if (i != now.end() && i->second == v) viol("old-store-remains", k + " of the old store is still there after creation");
                    }
            }
        }
        if (!ok && (mon & M_READY)) {
            // a later creation without failures succeeds
            rt::Cfg c = rt::cfg;
            c.plan.clear();
            c.disk_blocks = -1;
            rt::reconfigure(c);
            if (spec.contains("missing_bucket")) sims3::add_bucket(sp.bucket);
            g_reject = "";
            active_streams.clear();
            StreamRun* r2 = new StreamRun(sp, M_QUIET | M_FINAL | M_META, false);
            active_streams.push_back(r2);
            if (!r2->create()) viol("create-refused", "creation over the path of a failed creation fails although nothing fails any more");
            while (r2->next_call < sp.calls.size()) r2->append_next();
            r2->destroy();
            return;
        }
        if (ok && (mon & M_READY)) {
            bool faults = !rt::cfg.plan.empty() || rt::cfg.disk_blocks >= 0;
            if (!sp.s3) {
                std::string e = check_group_docs(r->files(), sp, true);
                if (e.size()) viol("not-ready", "creation reported success but " + e);
            }
            rt::Cfg c = rt::cfg;
            c.plan.clear();
            c.disk_blocks = -1;
            rt::reconfigure(c);
            r->mon |= M_QUIET | M_FINAL | M_META;
            (void)faults;
        }
        if (ok) {
            while (r->next_call < sp.calls.size()) r->append_next();
            r->destroy();
        }
        active_streams.clear();
        if (mon & M_SCOPE) {
            auto now = world();
            for (auto& m : { &before, &now })
                for (auto it = m->begin(); it != m->end();)
                    if (under(it->first, sp)) it = m->erase(it);
                    else ++it;
            std::string d = diff(before, now);
            if (d.size()) viol("outside-store", d + " after creating, feeding and destroying the stream at " + sp.root);
        }
    }
    if (mon & M_LEAK) check_released(mark, open0, "after the stream is gone");
    if (mon & M_LOG) check_log(spec["sim"].value("log", 3));
}


// the same input under different schedules, thread counts, heap contents
static void run_legs(const json& spec)
{
    std::string prop = spec["prop"];
    unsigned mon = monitors(prop);
    std::map<std::string, std::string> first;
    std::vector<std::pair<int, uint64_t>> res0;
    size_t n = spec["legs"].size();
    for (size_t i = 0; i < n; ++i) {
        const json& leg = spec["legs"][i];
        json sp = spec;
        sp["sim"].merge_patch(leg["sim"]);
        sp["seed"] = spec["seed"].get<uint64_t>() * 31 + i;
        if (leg.contains("plan")) sp["plan"] = leg["plan"];
        setup_world(sp);
        if (i) {
            rt::reconfigure(keep_replay(cfg_of(sp)));
        }
        json st = spec["streams"][0];
        if (leg.contains("calls")) st["calls"] = leg["calls"];
        if (leg.contains("stream")) st.merge_patch(leg["stream"]);
        StreamSpec s = stream_from_json(st);
        StreamRun* r = new StreamRun(s, mon, false);
        r->all();
        std::map<std::string, std::string> w;
        if (prop == "C27")
            for (auto& [k, v] : r->files()) w[k] = v; // the names within the store
        else
            w = world();
        if (!i) {
            first = w;
            res0 = r->results;
        } else {
            std::string d = diff(first, w);
            if (d.size()) viol(prop == "C27" ? "back-ends-differ" : prop == "C29" ? "interruption-visible" : "outputs-differ", "run " + std::to_string(i) + " of the same input stored something else than run 0: " + d);
        }
    }
}

// ---- crash and restart: the disk of the first process is handed to the second in shared memory
static char* handover;
static const size_t HANDOVER = 256u << 20;
void init_handover() { handover = (char*)mmap(nullptr, HANDOVER, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); }
typedef std::map<std::string, std::string> World;
static void hand_over(const World& w)
{
    char* p = handover + 8;
    auto put = [&](const std::string& v) {
        if (p + v.size() + 16 > handover + HANDOVER) rt::internal_error("disk too large to hand over");
        uint64_t n = v.size();
        memcpy(p, &n, 8);
        memcpy(p + 8, v.data(), n);
        p += 8 + n;
    };
    uint64_t n = 0;
    for (auto& [k, v] : w) {
        put(k);
        put(v);
        ++n;
    }
    memcpy(handover, &n, 8);
}
static World handed_over()
{
    World w;
    uint64_t n;
    memcpy(&n, handover, 8);
    const char* p = handover + 8;
    auto get = [&] {
        uint64_t l;
        memcpy(&l, p, 8);
        std::string v(p + 8, l);
        p += 8 + l;
        return v;
    };
    for (uint64_t i = 0; i < n; ++i) {
        std::string k = get();
        w[k] = get();
    }
    return w;
}
static void import_disk(const json& spec)
{
    // what the disk loses when the whole machine goes down
    double tear = spec.value("tear", 0.0);
    rt::Rng r(spec["seed"].get<uint64_t>() * 77 + 3);
    std::string root = stream_from_json(spec["streams"][0]).root;
    for (auto& [k, full] : handed_over()) {
        std::string v = full;
        bool mine = k.size() > root.size() && k.compare(0, root.size() + 1, root + "/") == 0;
        if (v[0] == 'F') {
            v = v.substr(1);
            if (mine && r.chance(tear)) {
                int how = (int)r.below(4);
                rt::R->faults[rt::F_TORN]++;
                if (how == 0) continue;
                if (how == 1) v.resize(r.below(v.size() + 1));
                if (how == 2) v.clear();
                if (how == 3)
                    for (size_t b = r.below(4096); b < v.size(); b += 4096 + r.below(8192)) memset(&v[b], 0, std::min<size_t>(512, v.size() - b));
            }
            size_t q = k.rfind('/');
            simfs::mkdirs(k.substr(0, q));
            simfs::put(k, v);
        } else if (v[0] == 'D')
            simfs::mkdirs(k);
        else
            simfs::link_to(k, v.substr(1));
    }
}
void run_first_incarnation(const json& spec)
{
    g_prop = spec["prop"];
    if (spec["kind"] == "sequence") { // the last stream alone
        json sp = spec;
        sp["plan"] = json::array();
        sp["sim"].erase("disk");
        sp["seed"] = spec["seed"].get<uint64_t>() * 31 + 11;
        setup_world(sp);
        rt::reconfigure(keep_replay(cfg_of(sp)));
        StreamSpec s = stream_from_json(spec["streams"].back());
        StreamRun* r = new StreamRun(s, M_QUIET, false);
        r->all();
        World w;
        for (auto& [k, v] : world())
            if (under(k, s)) w[k] = v;
        hand_over(w);
        return;
    }
    setup_world(spec);
    StreamRun* r = new StreamRun(stream_from_json(spec["streams"][0]), 0, true);
    rt::on_crash = [] { hand_over(simfs::snapshot("/simfs")); };
    r->all();
    rt::on_crash = nullptr;
    hand_over(simfs::snapshot("/simfs"));
}
// several streams one after another in one process
static void run_sequence(const json& spec)
{
    size_t n = spec["streams"].size();
    StreamSpec last = stream_from_json(spec["streams"].back());
    for (size_t i = 0; i < n; ++i) {
        if (i + 1 == n) { // nothing fails any more
            rt::Cfg c = rt::cfg;
            c.plan.clear();
            c.disk_blocks = -1;
            rt::reconfigure(c);
        }
        StreamRun* r = new StreamRun(stream_from_json(spec["streams"][i]), i + 1 == n ? M_QUIET | M_FINAL | M_META | M_INDEX : 0, false);
        r->all();
    }
    World now, alone = handed_over();
    for (auto& [k, v] : world())
        if (under(k, last)) now[k] = v;
    std::string d = diff(alone, now);
    if (d.size()) viol("depends-on-history", "after " + std::to_string(n - 1) + " earlier streams in the same process the store differs from one made in a new process: " + d);
}
static void run_restart(const json& spec)
{
    StreamSpec s = stream_from_json(spec["streams"][1]);
    std::map<std::string, std::string> w[2];
    for (int i = 0; i < 2; ++i) {
        json sp = spec;
        sp["plan"] = json::array();
        sp["sim"].erase("crash_step");
        sp["sim"].erase("disk");
        sp.erase("pre"); // is on the disk that was handed over, or has been dealt with
        if (i) {
            sp["seed"] = spec["seed"].get<uint64_t>() * 31 + 7;
        }
        setup_world(sp);
        if (!i) import_disk(spec);
        rt::reconfigure(keep_replay(cfg_of(sp)));
        if (!i && spec.value("again", false)) { // the restarted process writes the same store first
            StreamRun* a = new StreamRun(stream_from_json(spec["streams"][0]), M_QUIET, false);
            a->all();
        }
        StreamRun* r = new StreamRun(s, M_QUIET | M_FINAL | M_META | M_INDEX, false);
        r->all();
        for (auto& [k, v] : world())
            if (under(k, s)) w[i][k] = v;
    }
    std::string d = diff(w[1], w[0]);
    if (d.size()) viol("restart-differs", "over the remains of a process that died the store differs from one made on an empty path: " + d);
}

// streams used concurrently from different threads
static void run_multi(const json& spec)
{
    size_t n = spec["streams"].size();
    std::vector<std::map<std::string, std::string>> alone(n), together(n);
    std::vector<std::vector<std::pair<int, uint64_t>>> res(n);
    std::vector<StreamSpec> sp;
    for (auto& j : spec["streams"]) sp.push_back(stream_from_json(j));
    int victim = spec.value("victim", -1);
    auto part = [&](size_t i) {
        std::map<std::string, std::string> m;
        for (auto& [k, v] : world())
            if (under(k, sp[i])) m[k] = v;
        return m;
    };
    std::vector<char> cr(n), ce(n);
    rt::Cfg full = rt::cfg;
    for (size_t i = 0; i < n; ++i) {
        if ((int)i == victim) continue;
        rt::Cfg c = full;
        c.plan.clear();
        c.disk_blocks = -1;
        c.seed = full.seed + 1 + i;
        rt::reconfigure(c);
        StreamRun* r = new StreamRun(sp[i], M_QUIET, false);
        r->all();
        alone[i] = part(i);
        res[i] = r->results;
        cr[i] = r->created;
    }
    // again, all at once, in a fresh world
    setup_world(spec);
    full.replay = rt::cfg.replay;
    rt::reconfigure(full);
    std::vector<StreamRun*> runs;
    std::vector<std::function<void()>> bodies;
    bool braid = spec["kind"] == "braid";
    for (size_t i = 0; i < n; ++i) {
        StreamRun* r = new StreamRun(sp[i], 0, false);
        runs.push_back(r);
        bodies.push_back([r] {
            rt::Guard g;
            r->all();
        });
    }
    if (braid) { // one call at a time, from any thread, in any order among the streams
        std::vector<int> caller, stream;
        for (auto& q : spec["steps"]) {
            if (q[0].get<size_t>() >= n) continue;
            stream.push_back(q[0]);
            caller.push_back(q[1]);
        }
        for (size_t i = 0; i < n; ++i)
            for (size_t k = 0; k < sp[i].calls.size() + 2; ++k) { // what the steps leave over
                stream.push_back((int)i);
                caller.push_back(0);
            }
        std::vector<char> begun(n);
        auto step = [&](size_t t) {
            rt::Guard g;
            size_t i = stream[t];
            StreamRun* r = runs[i];
            if (!begun[i]) {
                begun[i] = 1;
                active_streams.push_back(r);
                r->create();
            } else if (r->created && r->next_call < sp[i].calls.size()) r->append_next();
            else if (r->created && !r->destroyed) r->destroy();
        };
        rt::Sut t;
        relay(caller, step);
    } else {
        rt::Sut t;
        spawn_and_join(std::move(bodies));
    }
    active_streams.clear();
    for (size_t i = 0; i < n; ++i) {
        if ((int)i == victim) continue;
        std::string who = "stream " + std::to_string(i) + " at " + sp[i].root;
        if (runs[i]->created != (bool)cr[i]) viol("not-independent", who + " could " + (cr[i] ? "" : "not ") + "be created alone, but " + (cr[i] ? "not " : "") + "together with the others");
        if (runs[i]->results != res[i]) {
            size_t k = 0;
            while (k < res[i].size() && k < runs[i]->results.size() && res[i][k] == runs[i]->results[k]) ++k;
            viol("not-independent", who + ": append " + std::to_string(k + 1) + " returned something else than alone");
        }
        auto now = part(i);
        std::string d = diff(alone[i], now);
        if (d.empty() && victim < 0 && runs[i]->close_errors) d = "closing it logged an error";
        if (d.size()) viol("not-independent", who + " stored something else than alone: " + d);
    }
}

// dimension arrays made and released by the library
static void unit_dims(const json& spec)
{
    uint64_t mark = rt::alloc_mark();
    const json& x = spec["x"];
    int n = x["settings"];
    std::vector<ZarrStreamSettings*> st;
    std::vector<std::string> content(n);
    auto bytes = [](ZarrStreamSettings* p) { return std::string((const char*)p->dimensions, sizeof(ZarrDimensionProperties) * p->dimension_count); };
    for (int i = 0; i < n; ++i) {
        st.push_back((ZarrStreamSettings*)rt::sim_alloc(sizeof(ZarrStreamSettings)));
        memset((void*)st[i], 0, sizeof(ZarrStreamSettings));
    }
    rt::Rng r(spec["seed"].get<uint64_t>());
    for (auto& op : x["ops"]) {
        int i = op[0];
        size_t c = op[1];
        ZarrStreamSettings* p = st[i];
        ZarrStreamSettings old = *p;
        std::string what = "create_dimension_array(" + std::to_string(c) + ")";
        rt::count(rt::C_APPENDS);
        if (c == 0 && op[2] == 1) {
            {
                rt::Sut t;
                ZarrStreamSettings_destroy_dimension_array(p);
            }
            if (p->dimensions || p->dimension_count) viol("dimension-array", "destroying a dimension array leaves a pointer or a count behind");
            content[i].clear();
        } else {
            uint64_t f0 = rt::R->faults[rt::F_MALLOC];
            int rc;
            {
                rt::Sut t;
                rc = ZarrStreamSettings_create_dimension_array(p, c);
            }
            bool fault = rt::R->faults[rt::F_MALLOC] != f0;
            rt::event(0xd1d1, rc);
            if (rc == ZarrStatusCode_Success) {
                if (c < 3) viol("dimension-array", what + " returned success");
                if (!p->dimensions || p->dimension_count != c) viol("dimension-array", what + " returned success with " + std::to_string(p->dimension_count) + " dimensions");
                for (int k = 0; k < n; ++k)
                    if (k != i && st[k]->dimensions == p->dimensions) viol("dimension-array", what + " returned an array that is in use");
                rt::check_range(p->dimensions, c * sizeof(ZarrDimensionProperties), true, "dimension array");
                for (size_t k = 0; k < c * sizeof(ZarrDimensionProperties); ++k) ((char*)p->dimensions)[k] = (char)r.next();
                content[i] = bytes(p);
            } else {
                rt::count(rt::C_APPENDS_FAILED);
                if (c >= 3 && !fault) viol("dimension-array", what + " failed with status " + std::to_string(rc) + " although nothing failed underneath");
                if (fault && c >= 3 && rc != ZarrStatusCode_OutOfMemory) viol("dimension-array", what + " reported status " + std::to_string(rc) + " when memory ran out");
                if (p->dimensions != old.dimensions || p->dimension_count != old.dimension_count) viol("dimension-array", what + " failed but changed the settings");
            }
        }
        for (int k = 0; k < n; ++k) {
            rt::check_range(st[k]->dimensions, st[k]->dimension_count * sizeof(ZarrDimensionProperties), false, "dimension array");
            if (bytes(st[k]) != content[k]) viol("dimension-array", what + " changed the contents of a dimension array that stays");
        }
    }
    for (int i = 0; i < n; ++i) {
        {
            rt::Sut t;
            ZarrStreamSettings_destroy_dimension_array(st[i]);
        }
        rt::sim_free(st[i]);
    }
    std::string w;
    if (rt::find_leak(mark, w)) viol("memory-leak", w + " (after all dimension arrays have been destroyed)");
}

void run_spec(const json& spec)
{
    g_prop = spec["prop"];
    setup_world(spec);
    std::string kind = spec["kind"];
    if (kind == "stream") run_stream(spec);
    else if (kind == "legs") run_legs(spec);
    else if (kind == "multi" || kind == "braid") run_multi(spec);
    else if (kind == "restart") run_restart(spec);
    else if (kind == "sequence") run_sequence(spec);
    else if (kind == "dims") unit_dims(spec);
    else {
        rt::Sut t;
        if (kind == "pool") unit_pool(spec["x"]);
        else if (kind == "vfw") unit_vector_writer(spec["x"]);
        else if (kind == "logger") unit_logger(spec["x"]);
        else if (kind == "s3sink") unit_s3sink(spec["x"]);
        else if (kind == "filesink") unit_filesink(spec["x"]);
        else if (kind == "conns") unit_connections(spec["x"]);
        else rt::internal_error("unknown kind %s", kind.c_str());
    }
}
