// Workload specification, reference model of a stream and independent store reader.
#pragma once
#include "rt.h"
#include <nlohmann/json.hpp>
#include <map>
#include <optional>
#include <string>
#include <vector>

using json = nlohmann::json;
typedef std::map<std::string, std::string> Files; // key relative to the store root -> content

struct DimSpec
{
    std::string name;
    int type;
    uint64_t array, chunk, shard;
};
struct CompSpec
{
    int compressor, codec, level, shuffle;
};
struct StreamSpec
{
    int version = 2;
    std::string path = "/simfs/w/a.zarr"; // as given to the API
    std::string root;                     // resolved location
    bool s3 = false;
    std::string bucket = "bucket-one";
    std::optional<std::string> custom;
    std::optional<CompSpec> comp;
    std::vector<DimSpec> dims;
    bool ms = false;
    int dtype = 0;
    std::vector<uint64_t> calls;
    uint64_t dseed = 1;
    std::string data = "rand";

    size_t es() const;
    uint64_t frame_bytes() const;
    uint64_t inner() const;       // frames per index of the append dimension
    bool compressed() const { return comp && comp->compressor != 0; }
    uint64_t layer_frames() const; // frames per chunk layer
    uint64_t shard_frames() const; // frames per shard layer
    uint64_t unit_frames() const { return version == 2 ? layer_frames() : shard_frames(); }
    uint64_t total() const
    {
        uint64_t t = 0;
        for (auto c : calls) t += c;
        return t;
    }
};
json to_json(const StreamSpec&);
StreamSpec stream_from_json(const json&);

// frame contents
struct Source
{
    const StreamSpec* s;
    std::vector<std::string> frames;
    explicit Source(const StreamSpec* s_) : s(s_) {}
    const std::string& frame(uint64_t f);
    void bytes(uint64_t off, uint64_t n, char* out);
};

// array metadata as found in a store
struct Arr
{
    int version = 0;
    std::vector<uint64_t> shape, chunk, cps;
    int dtype = 0;
    size_t es = 1;
    bool comp = false;
    std::string cname;
    int clevel = 0, shuffle = 0;
    std::string prefix; // of chunk keys
    uint64_t chunk_bytes() const
    {
        uint64_t n = es;
        for (auto c : chunk) n *= c;
        return n;
    }
};
Arr arr_from_spec(const StreamSpec&, uint64_t nslices); // level 0 according to the settings
std::string array_meta_key(int version, int level);
std::string group_meta_key(int version);
std::string base_meta_key(int version);
std::string custom_meta_key(int version);
// all return "" when fine, otherwise what is wrong
std::string parse_array(const Files&, int version, int level, Arr&);
std::string parse_group(const Files&, int version, json& multiscales);
std::string check_settings_meta(const Files&, const StreamSpec&, uint64_t nframes, bool zero_ok = false);
std::string check_group_docs(const Files&, const StreamSpec&, bool with_custom);
bool custom_equal(const std::optional<std::string>& given, const std::string* stored, std::string& why);
// decoded chunk, nullopt = absent; err set when damaged
std::optional<std::string> get_chunk(const Files&, const Arr&, const std::vector<uint64_t>& idx, std::string& err);
std::string chunk_key(const Arr&, const std::vector<uint64_t>& idx); // file holding the chunk
// compare everything the array claims with the first nframes frames
std::string check_data(const Files&, const StreamSpec&, const Arr&, uint64_t nframes, Source&);
std::string check_complete_units(const Files&, const StreamSpec&, uint64_t from_unit, uint64_t to_unit, Source&, std::vector<std::string>* keys);
std::string check_shards(const Files&, const StreamSpec& s, const Arr& a, int level, uint64_t nframes, bool level0);
std::string check_multiscale(const Files&, const StreamSpec&, const std::vector<std::string>& dirs);
std::string check_all_docs_are_json(const Files&, int version);
std::vector<std::string> unit_keys(const StreamSpec&, uint64_t unit);

// multiscale levels while the stream is running (inner dimensions of extent 1)
struct LevelRef
{
    struct Slice
    {
        uint64_t h = 0, w = 0;
        std::vector<long double> v, mag;
    };
    const StreamSpec* s;
    Source* src;
    std::map<std::pair<int, uint64_t>, Slice> memo;
    const Slice& get(int level, uint64_t t); // exact mean
};
uint64_t level_unit_slices(const StreamSpec&, const Arr&);
std::vector<std::string> level_unit_keys(const StreamSpec&, const Arr&, uint64_t unit);
std::string check_level_units(const Files&, const StreamSpec&, int level, const Arr&, uint64_t from, uint64_t to, LevelRef&);
