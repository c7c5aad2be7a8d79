// In-memory S3 behind the minio-cpp names, for demonstrations (no network).
#pragma once
#include <functional>
#include <map>
#include <mutex>
#include <string>
#include <vector>
namespace fake_s3 {
struct Store
{
    std::mutex m;
    std::map<std::string, std::map<std::string, std::string>> buckets;
    struct Upload { std::string bucket, key; std::map<unsigned, std::string> parts; };
    std::map<std::string, Upload> uploads;
    int next_id = 0;
    std::map<std::string, int> calls;
    // called before each request with its name and key; true: the request fails
    std::function<bool(const std::string& op, const std::string& key)> fail;
    int clients = 0;
};
Store& store();
}
