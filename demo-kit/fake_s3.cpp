#include "fake_s3.h"
#include <miniocpp/client.h>
namespace fake_s3 { Store& store() { static Store s; return s; } }
using fake_s3::store;
using namespace minio::s3;
static bool failing(const std::string& op, const std::string& key)
{
    std::function<bool(const std::string&, const std::string&)> f;
    {
        std::scoped_lock l(store().m);
        store().calls[op]++;
        f = store().fail;
    }
    return f && f(op, key);
}
#define FAIL(op, key) if (failing(op, key)) { r.err = "request failed"; return r; }
Client::Client(BaseUrl&, minio::creds::Provider*) : id_(0) { std::scoped_lock l(store().m); store().clients++; }
Client::~Client() { std::scoped_lock l(store().m); store().clients--; }
ListBucketsResponse Client::ListBuckets() { ListBucketsResponse r; FAIL("list", ""); return r; }
BucketExistsResponse Client::BucketExists(BucketExistsArgs a)
{
    BucketExistsResponse r; FAIL("bucket", a.bucket);
    std::scoped_lock l(store().m); r.exist = store().buckets.count(a.bucket) > 0; return r;
}
StatObjectResponse Client::StatObject(StatObjectArgs a)
{
    StatObjectResponse r; FAIL("stat", a.object);
    std::scoped_lock l(store().m); auto& b = store().buckets[a.bucket]; auto it = b.find(a.object);
    if (it == b.end()) r.err = "NoSuchKey"; else r.size = it->second.size();
    return r;
}
PutObjectResponse Client::PutObject(PutObjectArgs a)
{
    PutObjectResponse r; FAIL("put", a.object);
    std::string d((size_t)a.object_size, 0); a.stream.read(d.data(), d.size());
    std::scoped_lock l(store().m); store().buckets[a.bucket][a.object] = d; r.etag = "etag"; return r;
}
RemoveObjectResponse Client::RemoveObject(RemoveObjectArgs a)
{
    RemoveObjectResponse r; FAIL("remove", a.object);
    std::scoped_lock l(store().m); store().buckets[a.bucket].erase(a.object); return r;
}
CreateMultipartUploadResponse Client::CreateMultipartUpload(CreateMultipartUploadArgs a)
{
    CreateMultipartUploadResponse r; FAIL("create", a.object);
    std::scoped_lock l(store().m); r.upload_id = "u" + std::to_string(++store().next_id);
    store().uploads[r.upload_id] = { a.bucket, a.object, {} }; return r;
}
UploadPartResponse Client::UploadPart(UploadPartArgs a)
{
    UploadPartResponse r; FAIL("part", a.object);
    std::scoped_lock l(store().m); store().uploads[a.upload_id].parts[a.part_number] = std::string(a.data);
    r.etag = "p" + std::to_string(a.part_number); return r;
}
CompleteMultipartUploadResponse Client::CompleteMultipartUpload(CompleteMultipartUploadArgs a)
{
    CompleteMultipartUploadResponse r; FAIL("complete", a.object);
    std::scoped_lock l(store().m); auto u = store().uploads[a.upload_id]; std::string d;
    unsigned last = 0;
    for (auto& p : a.parts) {
        if (p.number <= last || !u.parts.count(p.number) || p.etag != "p" + std::to_string(p.number)) { r.err = "InvalidPart"; return r; }
        last = p.number;
        d += u.parts[p.number];
    }
    store().buckets[u.bucket][u.key] = d; store().uploads.erase(a.upload_id); r.etag = "etag"; return r;
}
AbortMultipartUploadResponse Client::AbortMultipartUpload(AbortMultipartUploadArgs a)
{
    AbortMultipartUploadResponse r; FAIL("abort", a.object);
    std::scoped_lock l(store().m); store().uploads.erase(a.upload_id); return r;
}
