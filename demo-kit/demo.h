// demo.h: helpers for demonstrations: scratch directories, streams, and a reader of stores
#pragma once
#include "acquire.zarr.h"
#include "fake_s3.h"
#include <blosc.h>
#include <nlohmann/json.hpp>
#include <unistd.h>
#include <chrono>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <filesystem>
#include <fstream>
#include <functional>
#include <optional>
#include <sstream>
#include <string>
#include <thread>
#include <vector>

namespace demo {
namespace fs = std::filesystem;
using json = nlohmann::json;
using Bytes = std::vector<uint8_t>;

inline int failures = 0;
#define DEMO_CHECK(c, ...)                                                                                             \
    do {                                                                                                               \
        if (!(c)) {                                                                                                    \
            std::fprintf(stderr, "demo: line %d: %s: ", __LINE__, #c);                                                 \
            std::fprintf(stderr, "" __VA_ARGS__);                                                                      \
            std::fprintf(stderr, "\n");                                                                                \
            ++demo::failures;                                                                                          \
        }                                                                                                              \
    } while (0)

struct Scratch
{
    fs::path dir;
    Scratch()
    {
        char t[] = "/tmp/acquire-demo-XXXXXX";
        if (!mkdtemp(t)) {
            std::perror("mkdtemp");
            std::_Exit(3);
        }
        dir = t;
    }
    ~Scratch()
    {
        std::error_code ec;
        fs::remove_all(dir, ec);
    }
    std::string operator/(const std::string& s) const { return (dir / s).string(); }
};

// ends the process with status 1 if it is still running after so many seconds
inline void
deadline(int seconds)
{
    std::thread([seconds] {
        std::this_thread::sleep_for(std::chrono::seconds(seconds));
        std::fprintf(stderr, "demo: still running after %d s\n", seconds);
        std::_Exit(1);
    }).detach();
}

struct Dim
{
    std::string name;
    ZarrDimensionType type;
    uint32_t array, chunk, shard;
};

struct Spec
{
    std::string path;
    int version = 2;
    ZarrDataType dtype = ZarrDataType_uint8;
    std::vector<Dim> dims;
    int codec = 0; // 0: uncompressed, 1: lz4, 2: zstd
    bool multiscale = false;
    std::string bucket; // S3 if not empty
    std::string custom;
};

inline ZarrStream*
create(const Spec& s)
{
    std::vector<ZarrDimensionProperties> d;
    for (auto& x : s.dims)
        d.push_back({ x.name.c_str(), x.type, x.array, x.chunk, x.shard });
    ZarrCompressionSettings comp{ ZarrCompressor_Blosc1, (ZarrCompressionCodec)s.codec, 1, 1 };
    ZarrS3Settings s3{ "http://localhost:9000", s.bucket.c_str(), "key", "secret" };
    ZarrStreamSettings z{};
    z.store_path = s.path.c_str();
    z.custom_metadata = s.custom.empty() ? nullptr : s.custom.c_str();
    z.s3_settings = s.bucket.empty() ? nullptr : &s3;
    z.compression_settings = s.codec ? &comp : nullptr;
    z.dimensions = d.data();
    z.dimension_count = d.size();
    z.multiscale = s.multiscale;
    z.data_type = s.dtype;
    z.version = (ZarrVersion)s.version;
    return ZarrStream_create(&z);
}

inline bool
append(ZarrStream* st, const void* p, size_t n)
{
    size_t out = 0;
    return ZarrStream_append(st, p, n, &out) == ZarrStatusCode_Success && out == n;
}

inline std::optional<std::string>
slurp(const std::string& path)
{
    std::ifstream f(path, std::ios::binary);
    if (!f)
        return std::nullopt;
    std::ostringstream ss;
    ss << f.rdbuf();
    return ss.str();
}

using Get = std::function<std::optional<std::string>(const std::string& key)>;

inline Get
on_disk(const std::string& root)
{
    return [root](const std::string& k) { return slurp(root + "/" + k); };
}

inline Get
on_s3(const std::string& bucket, const std::string& root)
{
    return [=](const std::string& k) -> std::optional<std::string> {
        auto& b = fake_s3::store().buckets[bucket];
        auto it = b.find(root + "/" + k);
        if (it == b.end())
            return std::nullopt;
        return it->second;
    };
}

struct Array
{
    bool ok = false;
    std::string why;
    std::vector<size_t> shape, chunk;
    Bytes data;
    size_t missing = 0; // chunks that are absent
};

// reads an array as its metadata describe it
inline Array
read_array(const Get& get, int version, int level, size_t px)
{
    Array a;
    auto L = std::to_string(level);
    auto m = get(version == 2 ? L + "/.zarray" : "meta/root/" + L + ".array.json");
    if (!m) {
        a.why = "no metadata";
        return a;
    }
    json j = json::parse(*m, nullptr, false);
    if (j.is_discarded()) {
        a.why = "metadata is not JSON";
        return a;
    }
    a.shape = j["shape"].get<std::vector<size_t>>();
    std::vector<size_t> per(a.shape.size(), 1);
    if (version == 2)
        a.chunk = j["chunks"].get<std::vector<size_t>>();
    else {
        a.chunk = j["chunk_grid"]["chunk_shape"].get<std::vector<size_t>>();
        per = j["storage_transformers"][0]["configuration"]["chunks_per_shard"].get<std::vector<size_t>>();
    }
    bool compressed = !j["compressor"].is_null();
    size_t n = px, nchunk = px, nd = a.shape.size(), slots = 1;
    for (size_t i = 0; i < nd; ++i)
        n *= a.shape[i], nchunk *= a.chunk[i], slots *= per[i];
    a.data.assign(n, 0);
    std::vector<size_t> grid(nd), c(nd, 0);
    for (size_t i = 0; i < nd; ++i)
        grid[i] = (a.shape[i] + a.chunk[i] - 1) / a.chunk[i];
    if (!n) {
        a.ok = true;
        return a;
    }
    for (;;) {
        std::string key = version == 2 ? L : "data/root/" + L;
        size_t slot = 0;
        for (size_t i = 0; i < nd; ++i) {
            key += (i == 0 && version == 3 ? "/c" : "/") + std::to_string(c[i] / per[i]);
            slot = slot * per[i] + c[i] % per[i];
        }
        auto obj = get(key);
        std::string raw;
        bool here = obj.has_value();
        if (here && version == 3) {
            if (obj->size() < slots * 16) {
                a.why = key + " is too short";
                return a;
            }
            uint64_t e[2];
            std::memcpy(e, obj->data() + obj->size() - slots * 16 + slot * 16, 16);
            if (e[0] == UINT64_MAX && e[1] == UINT64_MAX)
                here = false;
            else if (e[0] + e[1] > obj->size() - slots * 16) {
                a.why = key + ": an index entry reaches beyond the data";
                return a;
            } else
                raw = obj->substr(e[0], e[1]);
        } else if (here)
            raw = *obj;
        if (!here)
            ++a.missing;
        else {
            std::string chunk(nchunk, 0);
            if (compressed) {
                if (blosc_decompress_ctx(raw.data(), chunk.data(), nchunk, 1) != (int)nchunk) {
                    a.why = key + " does not decompress";
                    return a;
                }
            } else if (raw.size() != nchunk) {
                a.why = key + " has " + std::to_string(raw.size()) + " bytes, not " + std::to_string(nchunk);
                return a;
            } else
                chunk = raw;
            std::vector<size_t> p(nd, 0);
            for (size_t k = 0; k < nchunk / px; ++k) {
                size_t at = 0;
                bool in = true;
                for (size_t i = 0; i < nd; ++i) {
                    size_t x = c[i] * a.chunk[i] + p[i];
                    in &= x < a.shape[i];
                    at = at * a.shape[i] + x;
                }
                if (in)
                    std::memcpy(a.data.data() + at * px, chunk.data() + k * px, px);
                for (size_t i = nd; i-- > 0;) {
                    if (++p[i] < a.chunk[i])
                        break;
                    p[i] = 0;
                }
            }
        }
        size_t i = nd;
        while (i-- > 0) {
            if (++c[i] < grid[i])
                break;
            c[i] = 0;
        }
        if (i == (size_t)-1)
            break;
    }
    a.ok = true;
    return a;
}

inline Bytes
noise(size_t n, uint64_t seed)
{
    Bytes b(n);
    uint64_t x = seed * 0x9E3779B97F4A7C15ull + 1;
    for (auto& v : b) {
        x ^= x << 13, x ^= x >> 7, x ^= x << 17;
        v = (uint8_t)(x >> 32) | 1; // never the fill value
    }
    return b;
}

inline int
result()
{
    std::fprintf(stderr, failures ? "demo: %d checks failed\n" : "demo: ok\n", failures);
    return failures ? 1 : 0;
}
} // namespace demo
