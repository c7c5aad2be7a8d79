// Simulated S3 endpoint.
#pragma once
#include <cstdint>
#include <functional>
#include <map>
#include <string>
#include <vector>

namespace sims3 {
enum Op { LIST, EXISTS, STAT, PUT, REMOVE, CREATE_MP, UPLOAD, COMPLETE, ABORT_MP };
extern const char* const op_names[];
struct Req
{
    Op op;
    std::string bucket, key;
    unsigned part = 0;
    size_t size = 0;
    bool applied = false; // the endpoint performed it
    bool ok = false;      // the client was told so
    int client = 0;
};
struct Stats
{
    int established = 0;  // connections validated successfully
    int dead = 0;
    int inflight = 0, max_inflight = 0;
    uint64_t requests = 0, failed = 0, uploads = 0;
    int clients_alive = 0;
};
extern Stats stats;
extern std::vector<std::string> protocol; // requests a real endpoint would have rejected
extern uint64_t max_latency_us;
void reset(uint64_t seed);
void add_bucket(const std::string& name);
void put(const std::string& bucket, const std::string& key, const std::string& data);
void set_hook(std::function<void(const Req&)> h); // after every request
const std::string* get(const std::string& bucket, const std::string& key);
std::map<std::string, std::string> snapshot(const std::string& bucket, const std::string& prefix);
size_t pending(const std::string& bucket, const std::string& key); // multipart uploads begun, neither completed nor aborted
std::map<std::string, std::string> snapshot_all(); // bucket/key -> content
} // namespace sims3
