#include "sims3.h"
#include "include/miniocpp/client.h"
#include "rt.h"
#include <algorithm>
#include <cstring>

namespace sims3 {
const char* const op_names[] = { "ListBuckets", "BucketExists", "StatObject", "PutObject", "RemoveObject",
                                 "CreateMultipartUpload", "UploadPart", "CompleteMultipartUpload", "AbortMultipartUpload" };
Stats stats;
std::vector<std::string> protocol;
uint64_t max_latency_us = 0;
static std::map<std::string, std::map<std::string, std::string>> buckets;
struct Upload
{
    std::string bucket, key;
    std::map<unsigned, std::pair<std::string, std::string>> parts; // number -> etag, data
};
static std::map<std::string, Upload> uploads;
static std::function<void(const Req&)> hook;
static rt::Rng rng;
static uint64_t next_upload, next_etag;
static int next_client;
static std::map<int, int> busy;
static const size_t MIN_PART = 5 << 20;

void reset(uint64_t seed)
{
    stats = Stats();
    protocol.clear();
    buckets.clear();
    uploads.clear();
    hook = nullptr;
    rng.reseed(seed ^ 0x53);
    next_upload = next_etag = 0;
    next_client = 0;
    busy.clear();
    max_latency_us = 0;
}
void add_bucket(const std::string& n) { buckets[n]; }
void put(const std::string& b, const std::string& k, const std::string& d) { buckets[b][k] = d; }
void set_hook(std::function<void(const Req&)> h) { hook = std::move(h); }
const std::string* get(const std::string& b, const std::string& k)
{
    auto i = buckets.find(b);
    if (i == buckets.end()) return nullptr;
    auto j = i->second.find(k);
    return j == i->second.end() ? nullptr : &j->second;
}
std::map<std::string, std::string> snapshot(const std::string& b, const std::string& prefix)
{
    std::map<std::string, std::string> r;
    auto i = buckets.find(b);
    if (i == buckets.end()) return r;
    for (auto& [k, v] : i->second)
        if (k.compare(0, prefix.size(), prefix) == 0) r[k.substr(prefix.size())] = v;
    return r;
}
size_t pending(const std::string& bucket, const std::string& key)
{
    size_t n = 0;
    for (auto& [id, u] : uploads) n += u.bucket == bucket && u.key == key;
    return n;
}
std::map<std::string, std::string> snapshot_all()
{
    std::map<std::string, std::string> r;
    for (auto& [b, m] : buckets)
        for (auto& [k, v] : m) r[b + "/" + k] = v;
    return r;
}

static uint64_t hash_str(const std::string& s)
{
    uint64_t h = 1469598103934665603ull;
    for (unsigned char c : s) h = (h ^ c) * 1099511628211ull;
    return h & 0xffffffffffull;
}

// One request: exclusive use of the client, latency, faults before and after the effect.
// effect() returns an error text or "".
static std::string request(int client, Req& q, const std::function<std::string()>& effect)
{
    rt::count(rt::C_S3OPS);
    rt::sched_point(rt::K_S3, hash_str(q.key) ^ q.op);
    ++stats.requests;
    if (busy[client]++)
        protocol.push_back("connection " + std::to_string(client) + " carries two requests at once: " + op_names[q.op] + " " + q.key);
    if (++stats.inflight > stats.max_inflight) stats.max_inflight = stats.inflight;
    q.client = client;
    static const int dead[] = { 1 };
    static const int pre[] = { 1, 2 }; // 1: transport error, 2: 503
    uint64_t lat = max_latency_us ? rng.below(max_latency_us + 1) : 0;
    if (lat) rt::sleep_us(lat / 2 + 1);
    std::string err;
    std::string site = std::string(op_names[q.op]) + " " + q.bucket + "/" + q.key;
    if (q.op == LIST && rt::fault(rt::F_S3_DEAD, site.c_str(), dead, 1)) err = "simulated: connection refused";
    else if (rt::fault(rt::F_S3_PRE, site.c_str(), pre, 2)) err = "simulated: request failed";
    else {
        err = effect();
        q.applied = err.empty();
        if (q.applied && (q.op == PUT || q.op == REMOVE || q.op >= CREATE_MP) && rt::fault(rt::F_S3_POST, site.c_str(), dead, 1))
            err = "simulated: response lost";
    }
    if (lat) rt::sleep_us(lat - lat / 2 + 1);
    else rt::sched_point(rt::K_S3, 1);
    q.ok = err.empty();
    if (!q.ok) ++stats.failed;
    --busy[client];
    --stats.inflight;
    rt::trace("s3 client %d %s %s part %u size %zu -> %s", client, op_names[q.op], q.key.c_str(), q.part, q.size, q.ok ? "ok" : err.c_str());
    rt::event(0x53000 + q.op, hash_str(q.key), q.size * 2 + q.ok);
    if (hook) hook(q);
    return err;
}
static void bad(const Req& q, const std::string& what)
{
    protocol.push_back(std::string(op_names[q.op]) + " " + q.bucket + "/" + q.key + ": " + what);
}
} // namespace sims3

using namespace sims3;
namespace minio::s3 {
Client::Client(BaseUrl&, creds::Provider*)
{
    rt::Guard g;
    id_ = next_client++;
    ++stats.clients_alive;
}
Client::~Client()
{
    rt::Guard g;
    --stats.clients_alive;
    if (busy[id_]) protocol.push_back("connection " + std::to_string(id_) + " destroyed while a request is in flight");
}
#define SELF_CHECK rt::Guard g; rt::check_range(this, sizeof *this, false, "S3 client object")
ListBucketsResponse Client::ListBuckets()
{
    SELF_CHECK;
    Req q{ LIST };
    ListBucketsResponse r;
    r.err = request(id_, q, [] { return std::string(); });
    if (r.err.empty()) ++stats.established;
    else ++stats.dead;
    return r;
}
BucketExistsResponse Client::BucketExists(BucketExistsArgs a)
{
    SELF_CHECK;
    Req q{ EXISTS, a.bucket };
    BucketExistsResponse r;
    r.err = request(id_, q, [&] {
        r.exist = buckets.count(a.bucket) > 0;
        return std::string();
    });
    if (!r.err.empty()) r.exist = false;
    return r;
}
StatObjectResponse Client::StatObject(StatObjectArgs a)
{
    SELF_CHECK;
    Req q{ STAT, a.bucket, a.object };
    StatObjectResponse r;
    r.err = request(id_, q, [&] {
        auto* o = sims3::get(a.bucket, a.object);
        if (!o) return std::string("NoSuchKey");
        r.size = o->size();
        return std::string();
    });
    return r;
}
PutObjectResponse Client::PutObject(PutObjectArgs a)
{
    SELF_CHECK;
    Req q{ PUT, a.bucket, a.object, 0, (size_t)a.object_size };
    PutObjectResponse r;
    r.err = request(id_, q, [&] {
        std::string data;
        if (auto* cb = dynamic_cast<utils::CharBuffer*>(a.stream.rdbuf())) {
            size_t n = std::min(cb->sim_size(), (size_t)std::max(0l, a.object_size));
            rt::check_range(cb->sim_data(), n, false, "PutObject body");
            data.assign(cb->sim_data(), n);
        } else {
            data.resize((size_t)std::max(0l, a.object_size));
            a.stream.read(data.data(), (std::streamsize)data.size());
            data.resize((size_t)a.stream.gcount());
        }
        if ((long)data.size() != a.object_size) {
            bad(q, "body shorter than the declared size");
            return std::string("IncompleteBody");
        }
        if (!buckets.count(a.bucket)) return std::string("NoSuchBucket");
        buckets[a.bucket][a.object] = std::move(data);
        return std::string();
    });
    if (r.err.empty()) r.etag = "e" + std::to_string(++next_etag);
    return r;
}
RemoveObjectResponse Client::RemoveObject(RemoveObjectArgs a)
{
    SELF_CHECK;
    Req q{ REMOVE, a.bucket, a.object };
    RemoveObjectResponse r;
    r.err = request(id_, q, [&] {
        if (!buckets.count(a.bucket)) return std::string("NoSuchBucket");
        buckets[a.bucket].erase(a.object);
        return std::string();
    });
    return r;
}
CreateMultipartUploadResponse Client::CreateMultipartUpload(CreateMultipartUploadArgs a)
{
    SELF_CHECK;
    Req q{ CREATE_MP, a.bucket, a.object };
    CreateMultipartUploadResponse r;
    std::string id;
    r.err = request(id_, q, [&] {
        if (!buckets.count(a.bucket)) return std::string("NoSuchBucket");
        id = "u" + std::to_string(++next_upload);
        uploads[id] = Upload{ a.bucket, a.object, {} };
        return std::string();
    });
    if (r.err.empty()) r.upload_id = id;
    return r;
}
UploadPartResponse Client::UploadPart(UploadPartArgs a)
{
    SELF_CHECK;
    Req q{ UPLOAD, a.bucket, a.object, a.part_number, a.data.size() };
    ++stats.uploads;
    UploadPartResponse r;
    std::string etag;
    r.err = request(id_, q, [&] {
        rt::check_range(a.data.data(), a.data.size(), false, "UploadPart body");
        auto i = uploads.find(a.upload_id);
        if (i == uploads.end() || i->second.bucket != a.bucket || i->second.key != a.object) {
            bad(q, "unknown upload id '" + a.upload_id + "'");
            return std::string("NoSuchUpload");
        }
        if (a.part_number < 1 || a.part_number > 10000) {
            bad(q, "part number out of range");
            return std::string("InvalidArgument");
        }
        etag = "p" + std::to_string(++next_etag);
        i->second.parts[a.part_number] = { etag, std::string(a.data) };
        return std::string();
    });
    if (r.err.empty()) r.etag = etag;
    return r;
}
CompleteMultipartUploadResponse Client::CompleteMultipartUpload(CompleteMultipartUploadArgs a)
{
    SELF_CHECK;
    Req q{ COMPLETE, a.bucket, a.object };
    CompleteMultipartUploadResponse r;
    r.err = request(id_, q, [&] {
        auto i = uploads.find(a.upload_id);
        if (i == uploads.end() || i->second.bucket != a.bucket || i->second.key != a.object) {
            bad(q, "unknown upload id '" + a.upload_id + "'");
            return std::string("NoSuchUpload");
        }
        std::string data;
        unsigned last = 0;
        size_t k = 0;
        if (a.parts.empty()) {
            bad(q, "empty part list");
            return std::string("MalformedXML");
        }
        for (auto& p : a.parts) {
            ++k;
            if (p.number <= last) {
                bad(q, "parts not in ascending order");
                return std::string("InvalidPartOrder");
            }
            last = p.number;
            auto j = i->second.parts.find(p.number);
            if (j == i->second.parts.end() || j->second.first != p.etag) {
                bad(q, "part " + std::to_string(p.number) + " unknown or wrong etag");
                return std::string("InvalidPart");
            }
            if (k < a.parts.size() && j->second.second.size() < MIN_PART) {
                bad(q, "part " + std::to_string(p.number) + " of " + std::to_string(j->second.second.size()) + " bytes is below the minimum");
                return std::string("EntityTooSmall");
            }
            data += j->second.second;
        }
        q.size = data.size();
        buckets[a.bucket][a.object] = std::move(data);
        uploads.erase(i);
        return std::string();
    });
    if (r.err.empty()) r.etag = "c" + std::to_string(++next_etag);
    return r;
}
AbortMultipartUploadResponse Client::AbortMultipartUpload(AbortMultipartUploadArgs a)
{
    SELF_CHECK;
    Req q{ ABORT_MP, a.bucket, a.object };
    AbortMultipartUploadResponse r;
    r.err = request(id_, q, [&] {
        if (!uploads.erase(a.upload_id)) return std::string("NoSuchUpload");
        return std::string();
    });
    return r;
}
} // namespace minio::s3
