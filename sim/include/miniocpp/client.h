// Stand-in for minio-cpp: same names, backed by the simulated object store.
#pragma once
#include <istream>
#include <list>
#include <map>
#include <streambuf>
#include <string>
#include <string_view>
#include <vector>

namespace minio {
namespace error {
class Error
{
    std::string msg_;

  public:
    Error() = default;
    explicit Error(std::string m) : msg_(std::move(m)) {}
    explicit operator bool() const { return !msg_.empty(); }
    std::string String() const { return msg_; }
};
} // namespace error
namespace creds {
class Provider
{
  public:
    virtual ~Provider() = default;
};
class StaticProvider : public Provider
{
    std::string key_, secret_;

  public:
    StaticProvider(std::string key, std::string secret, std::string = {})
      : key_(std::move(key)), secret_(std::move(secret)) {}
};
} // namespace creds
namespace utils {
class CharBuffer : public std::streambuf
{
    char* p_;
    size_t n_;

  public:
    CharBuffer(char* p, size_t n) : p_(p), n_(n) { setg(p, p, p + n); }
    char* sim_data() const { return p_; }
    size_t sim_size() const { return n_; }
};
} // namespace utils
namespace s3 {
struct BaseUrl
{
    bool https = true;
    std::string host;
    BaseUrl() = default;
    explicit BaseUrl(std::string h, bool https_ = true, std::string = {}) : https(https_), host(std::move(h)) {}
};
struct Part
{
    unsigned int number = 0;
    std::string etag;
    size_t size = 0;
    Part() = default;
    Part(unsigned int n, std::string e) : number(n), etag(std::move(e)) {}
};
struct Response
{
    std::string err;
    int status_code = 200;
    explicit operator bool() const { return err.empty(); }
    error::Error Error() const { return error::Error(err); }
};
struct ListBucketsResponse : Response {};
struct BucketExistsResponse : Response { bool exist = false; };
struct StatObjectResponse : Response { size_t size = 0; std::string etag; };
struct PutObjectResponse : Response { std::string etag; std::string version_id; };
using UploadPartResponse = PutObjectResponse;
struct RemoveObjectResponse : Response {};
struct CreateMultipartUploadResponse : Response { std::string upload_id; };
using CompleteMultipartUploadResponse = PutObjectResponse;
struct AbortMultipartUploadResponse : Response {};

struct BucketArgs { std::string bucket; std::string region; };
struct ObjectArgs : BucketArgs { std::string object; };
using BucketExistsArgs = BucketArgs;
using StatObjectArgs = ObjectArgs;
using RemoveObjectArgs = ObjectArgs;
using CreateMultipartUploadArgs = ObjectArgs;
struct AbortMultipartUploadArgs : ObjectArgs { std::string upload_id; };
struct UploadPartArgs : ObjectArgs
{
    std::string upload_id;
    unsigned int part_number = 0;
    std::string_view data;
};
struct CompleteMultipartUploadArgs : ObjectArgs
{
    std::string upload_id;
    std::list<Part> parts;
};
struct PutObjectArgs : ObjectArgs
{
    std::istream& stream;
    long object_size;
    long part_size;
    PutObjectArgs(std::istream& s, long n, long p) : stream(s), object_size(n), part_size(p) {}
};

class Client
{
    int id_;

  public:
    explicit Client(BaseUrl& url, creds::Provider* provider = nullptr);
    ~Client();
    Client(const Client&) = delete;
    Client& operator=(const Client&) = delete;
    ListBucketsResponse ListBuckets();
    BucketExistsResponse BucketExists(BucketExistsArgs args);
    StatObjectResponse StatObject(StatObjectArgs args);
    PutObjectResponse PutObject(PutObjectArgs args);
    RemoveObjectResponse RemoveObject(RemoveObjectArgs args);
    CreateMultipartUploadResponse CreateMultipartUpload(CreateMultipartUploadArgs args);
    UploadPartResponse UploadPart(UploadPartArgs args);
    CompleteMultipartUploadResponse CompleteMultipartUpload(CompleteMultipartUploadArgs args);
    AbortMultipartUploadResponse AbortMultipartUpload(AbortMultipartUploadArgs args);
};
} // namespace s3
} // namespace minio
