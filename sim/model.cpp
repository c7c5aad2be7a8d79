#include "model.h"
#include <blosc.h>
#include <cmath>
#include <cstring>
#include <set>

static const size_t ES[10] = { 1, 2, 4, 8, 1, 2, 4, 8, 4, 8 };
static const char* const V2T[10] = { "<u1", "<u2", "<u4", "<u8", "<i1", "<i2", "<i4", "<i8", "<f4", "<f8" };
static const char* const V3T[10] = { "uint8", "uint16", "uint32", "uint64", "int8", "int16", "int32", "int64", "float32", "float64" };
static const char* const TYPES[4] = { "space", "channel", "time", "other" };

size_t StreamSpec::es() const { return ES[dtype]; }
uint64_t StreamSpec::frame_bytes() const { return es() * dims[dims.size() - 1].array * dims[dims.size() - 2].array; }
uint64_t StreamSpec::inner() const
{
    uint64_t n = 1;
    for (size_t i = 1; i + 2 < dims.size(); ++i) n *= dims[i].array;
    return n;
}
uint64_t StreamSpec::layer_frames() const { return dims[0].chunk * inner(); }
uint64_t StreamSpec::shard_frames() const { return dims[0].chunk * dims[0].shard * inner(); }

json to_json(const StreamSpec& s)
{
    json j;
    j["version"] = s.version;
    j["path"] = s.path;
    j["s3"] = s.s3;
    j["bucket"] = s.bucket;
    if (s.custom) j["custom"] = *s.custom;
    else j["custom"] = nullptr;
    if (s.comp) j["comp"] = { s.comp->compressor, s.comp->codec, s.comp->level, s.comp->shuffle };
    else j["comp"] = nullptr;
    j["dims"] = json::array();
    for (auto& d : s.dims) j["dims"].push_back({ d.name, d.type, d.array, d.chunk, d.shard });
    j["ms"] = s.ms;
    j["dtype"] = s.dtype;
    j["calls"] = s.calls;
    j["dseed"] = s.dseed;
    j["data"] = s.data;
    return j;
}
static std::string resolve(const std::string& p)
{
    size_t a = p.find_first_not_of(" \t\n"), b = p.find_last_not_of(" \t\n");
    std::string t = a == std::string::npos ? "" : p.substr(a, b - a + 1);
    if (!(t.size() && t[0] == '/')) t = "/simfs/w/" + t;
    std::vector<std::string> c; // "..", "." and repeated or trailing slashes name the same directory
    for (size_t i = 0; i < t.size();) {
        size_t e = std::min(t.find('/', i), t.size());
        std::string w = t.substr(i, e - i);
        if (w == "..") { if (c.size()) c.pop_back(); }
        else if (w.size() && w != ".") c.push_back(w);
        i = e + 1;
    }
    t.clear();
    for (auto& w : c) t += "/" + w;
    return t;
}
StreamSpec stream_from_json(const json& j)
{
    StreamSpec s;
    s.version = j["version"];
    s.path = j["path"];
    s.s3 = j["s3"];
    s.bucket = j["bucket"];
    if (!j["custom"].is_null()) s.custom = j["custom"].get<std::string>();
    if (!j["comp"].is_null()) s.comp = CompSpec{ j["comp"][0], j["comp"][1], j["comp"][2], j["comp"][3] };
    for (auto& d : j["dims"]) s.dims.push_back({ d[0], d[1], d[2], d[3], d[4] });
    s.ms = j["ms"];
    s.dtype = j["dtype"];
    s.calls = j["calls"].get<std::vector<uint64_t>>();
    s.dseed = j["dseed"];
    s.data = j["data"];
    if (s.s3) {
        size_t a = s.path.find_first_not_of(' '), b = s.path.find_last_not_of(' ');
        s.root = s.path.substr(a, b - a + 1);
    } else
        s.root = resolve(s.path);
    return s;
}

const std::string& Source::frame(uint64_t f)
{
    while (frames.size() <= f) {
        uint64_t k = frames.size();
        rt::Rng r(s->dseed * 1000003 + k * 7919 + 17);
        std::string d(s->frame_bytes(), '\0');
        size_t n = d.size(), es = s->es();
        bool smooth = s->data == "small" || (s->data == "mixed" && k % 3 == 1);
        bool zero = s->data == "zero" || (s->data == "mixed" && k % 3 == 2);
        if (zero) {
        } else if (s->dtype >= 8) {
            for (size_t i = 0; i + es <= n; i += es) {
                double v = smooth ? (double)((i / es + k) % 50) : ((double)(int64_t)(r.next() >> 12) / 1e9) * (r.chance(0.5) ? -1 : 1);
                if (es == 4) {
                    float q = (float)v;
                    memcpy(&d[i], &q, 4);
                } else
                    memcpy(&d[i], &v, 8);
            }
            if (s->data == "bits" ) // any bit pattern, NaNs included
                for (size_t i = 0; i < n; ++i) d[i] = (char)r.next();
        } else if (smooth) {
            for (size_t i = 0; i + es <= n; i += es) {
                uint64_t v = (i / es) / 3 + k + 1;
                memcpy(&d[i], &v, es);
            }
        } else {
            for (size_t i = 0; i < n; i += 8) {
                uint64_t v = r.next();
                memcpy(&d[i], &v, n - i < 8 ? n - i : 8);
            }
        }
        frames.push_back(std::move(d));
    }
    return frames[f];
}
void Source::bytes(uint64_t off, uint64_t n, char* out)
{
    uint64_t fb = s->frame_bytes();
    while (n) {
        uint64_t f = off / fb, o = off % fb, k = std::min(n, fb - o);
        memcpy(out, frame(f).data() + o, k);
        out += k;
        off += k;
        n -= k;
    }
}

// ---------------------------------------------------------------- keys and parsing
std::string array_meta_key(int v, int l)
{
    return v == 2 ? std::to_string(l) + "/.zarray" : "meta/root/" + std::to_string(l) + ".array.json";
}
std::string group_meta_key(int v) { return v == 2 ? ".zgroup" : "meta/root.group.json"; }
std::string base_meta_key(int v) { return v == 2 ? ".zattrs" : "zarr.json"; }
std::string custom_meta_key(int v) { return v == 2 ? "acquire.json" : "meta/acquire.json"; }

static std::string S(uint64_t v) { return std::to_string(v); }
static std::string SV(const std::vector<uint64_t>& v)
{
    std::string s = "[";
    for (auto x : v) s += (s.size() > 1 ? "," : "") + S(x);
    return s + "]";
}
static const std::string* file(const Files& f, const std::string& k)
{
    auto i = f.find(k);
    return i == f.end() ? nullptr : &i->second;
}
static std::string doc(const Files& f, const std::string& k, json& j)
{
    auto* p = file(f, k);
    if (!p) return k + " is missing";
    j = json::parse(*p, nullptr, false);
    if (j.is_discarded()) return k + " is not well-formed JSON: '" + p->substr(0, 200) + "'";
    return "";
}
static bool uints(const json& j, std::vector<uint64_t>& v)
{
    if (!j.is_array()) return false;
    v.clear();
    for (auto& x : j) {
        if (!x.is_number_integer() || x.get<int64_t>() < 0) return false;
        v.push_back(x.get<uint64_t>());
    }
    return true;
}

Arr arr_from_spec(const StreamSpec& s, uint64_t nslices)
{
    Arr a;
    a.version = s.version;
    for (size_t i = 0; i < s.dims.size(); ++i) {
        a.shape.push_back(i ? s.dims[i].array : nslices);
        a.chunk.push_back(s.dims[i].chunk);
        a.cps.push_back(s.version == 3 ? s.dims[i].shard : 1);
    }
    a.dtype = s.dtype;
    a.es = s.es();
    a.comp = s.compressed();
    if (a.comp) {
        a.cname = s.comp->codec == 1 ? "lz4" : "zstd";
        a.clevel = s.comp->level;
        a.shuffle = s.comp->shuffle;
    }
    a.prefix = s.version == 2 ? "0/" : "data/root/0/c";
    return a;
}

std::string parse_array(const Files& f, int version, int level, Arr& a)
{
    a = Arr();
    a.version = version;
    std::string k = array_meta_key(version, level);
    json j;
    std::string e = doc(f, k, j);
    if (e.size()) return e;
    if (!j.is_object()) return k + " is not an object";
    auto bad = [&](const std::string& w) { return k + ": " + w; };
    if (version == 2) {
        if (!j.contains("zarr_format") || j["zarr_format"] != 2) return bad("zarr_format is not 2");
        for (const char* n : { "shape", "chunks", "dtype", "compressor", "fill_value", "order", "filters" })
            if (!j.contains(n)) return bad(std::string(n) + " is missing");
        if (!uints(j["shape"], a.shape) || !uints(j["chunks"], a.chunk)) return bad("shape or chunks malformed");
        if (j["order"] != "C") return bad("order is not C");
        if (!j["filters"].is_null()) return bad("filters present");
        if (!j["fill_value"].is_number() || j["fill_value"].get<double>() != 0) return bad("fill_value is not 0");
        if (!j.contains("dimension_separator") || j["dimension_separator"] != "/") return bad("dimension_separator is not /");
        a.dtype = -1;
        for (int i = 0; i < 10; ++i)
            if (j["dtype"] == V2T[i]) a.dtype = i;
        if (a.dtype < 0 && j["dtype"] == "|u1") a.dtype = 0;
        if (a.dtype < 0 && j["dtype"] == "|i1") a.dtype = 4;
        a.cps.assign(a.shape.size(), 1);
        a.prefix = S(level) + "/";
        auto& c = j["compressor"];
        if (!c.is_null()) {
            if (!c.is_object() || !c.contains("id") || c["id"] != "blosc" || !c.contains("cname") || !c["cname"].is_string() ||
                !c.contains("clevel") || !c["clevel"].is_number_integer() || !c.contains("shuffle") || !c["shuffle"].is_number_integer())
                return bad("compressor malformed: " + c.dump());
            a.comp = true;
            a.cname = c["cname"];
            a.clevel = c["clevel"];
            a.shuffle = c["shuffle"];
        }
    } else {
        for (const char* n : { "shape", "chunk_grid", "data_type", "chunk_memory_layout", "fill_value", "storage_transformers", "extensions", "attributes" })
            if (!j.contains(n)) return bad(std::string(n) + " is missing");
        if (!uints(j["shape"], a.shape)) return bad("shape malformed");
        auto& g = j["chunk_grid"];
        if (!g.is_object() || !g.contains("chunk_shape") || !uints(g["chunk_shape"], a.chunk) || !g.contains("separator") || g["separator"] != "/" ||
            !g.contains("type") || g["type"] != "regular")
            return bad("chunk_grid malformed: " + g.dump());
        if (j["chunk_memory_layout"] != "C") return bad("chunk_memory_layout is not C");
        if (!j["fill_value"].is_number() || j["fill_value"].get<double>() != 0) return bad("fill_value is not 0");
        a.dtype = -1;
        for (int i = 0; i < 10; ++i)
            if (j["data_type"] == V3T[i]) a.dtype = i;
        auto& t = j["storage_transformers"];
        if (!t.is_array() || t.size() != 1 || !t[0].is_object() || !t[0].contains("configuration") ||
            !t[0]["configuration"].contains("chunks_per_shard") || !uints(t[0]["configuration"]["chunks_per_shard"], a.cps) ||
            !t[0].contains("type") || t[0]["type"] != "indexed")
            return bad("storage_transformers malformed: " + t.dump());
        a.prefix = "data/root/" + S(level) + "/c";
        if (j.contains("compressor") && !j["compressor"].is_null()) {
            auto& c = j["compressor"];
            if (!c.is_object() || !c.contains("codec") || c["codec"] != "https://purl.org/zarr/spec/codec/blosc/1.0" || !c.contains("configuration"))
                return bad("compressor malformed: " + c.dump());
            auto& q = c["configuration"];
            if (!q.contains("cname") || !q["cname"].is_string() || !q.contains("clevel") || !q["clevel"].is_number_integer() ||
                !q.contains("shuffle") || !q["shuffle"].is_number_integer())
                return bad("compressor malformed: " + c.dump());
            a.comp = true;
            a.cname = q["cname"];
            a.clevel = q["clevel"];
            a.shuffle = q["shuffle"];
        }
    }
    if (a.dtype < 0) return bad("unknown data type");
    if (a.comp && a.cname != "lz4" && a.cname != "zstd") return bad("unknown compressor name '" + a.cname + "'");
    a.es = ES[a.dtype];
    if (a.shape.size() < 3 || a.chunk.size() != a.shape.size() || a.cps.size() != a.shape.size()) return bad("ranks disagree");
    for (size_t i = 0; i < a.chunk.size(); ++i)
        if (!a.chunk[i] || !a.cps[i]) return bad("zero chunk or shard extent");
    return "";
}

std::string parse_group(const Files& f, int version, json& ms)
{
    json j;
    std::string e;
    if (version == 2) {
        e = doc(f, ".zgroup", j);
        if (e.size()) return e;
        if (!j.is_object() || !j.contains("zarr_format") || j["zarr_format"] != 2) return ".zgroup does not say zarr_format 2";
        e = doc(f, ".zattrs", j);
        if (e.size()) return e;
        if (!j.is_object() || !j.contains("multiscales")) return ".zattrs has no multiscales";
        ms = j["multiscales"];
    } else {
        e = doc(f, "zarr.json", j);
        if (e.size()) return e;
        if (!j.is_object() || !j.contains("zarr_format") || !j.contains("metadata_encoding") || !j.contains("metadata_key_suffix") ||
            j["metadata_key_suffix"] != ".json" || j["zarr_format"] != "https://purl.org/zarr/spec/protocol/core/3.0")
            return "zarr.json is incomplete: " + j.dump().substr(0, 200);
        e = doc(f, "meta/root.group.json", j);
        if (e.size()) return e;
        if (!j.is_object() || !j.contains("attributes") || !j["attributes"].contains("multiscales")) return "meta/root.group.json has no multiscales";
        ms = j["attributes"]["multiscales"];
    }
    if (!ms.is_array() || ms.size() != 1 || !ms[0].is_object() || !ms[0].contains("axes") || !ms[0]["axes"].is_array() || !ms[0].contains("datasets") ||
        !ms[0]["datasets"].is_array() || ms[0]["datasets"].empty())
        return "multiscales malformed: " + ms.dump().substr(0, 300);
    for (auto& d : ms[0]["datasets"]) {
        if (!d.is_object() || !d.contains("path") || !d["path"].is_string() || !d.contains("coordinateTransformations")) return "dataset entry malformed: " + d.dump();
        auto& ct = d["coordinateTransformations"];
        if (!ct.is_array() || ct.empty() || !ct[0].is_object() || !ct[0].contains("type") || ct[0]["type"] != "scale" || !ct[0].contains("scale") || !ct[0]["scale"].is_array())
            return "coordinateTransformations malformed: " + d.dump();
    }
    return "";
}

bool custom_equal(const std::optional<std::string>& given, const std::string* stored, std::string& why)
{
    if (!stored) {
        if (!given || given->empty()) return true;
        why = "custom metadata are missing";
        return false;
    }
    json b = json::parse(*stored, nullptr, false);
    if (b.is_discarded()) {
        why = "custom metadata document is not well-formed JSON: '" + stored->substr(0, 200) + "'";
        return false;
    }
    if (!given || given->empty()) {
        if (b.empty()) return true;
        why = "custom metadata present though none were given: " + b.dump();
        return false;
    }
    json a = json::parse(*given, nullptr, false, true);
    if (a != b) {
        why = "custom metadata differ: given " + a.dump() + ", stored " + b.dump();
        return false;
    }
    return true;
}

std::string check_all_docs_are_json(const Files& f, int version)
{
    for (auto& [k, v] : f) {
        size_t sl = k.rfind('/');
        std::string base = sl == std::string::npos ? k : k.substr(sl + 1);
        bool is_doc = base.size() && (base[0] == '.' || (base.size() > 5 && base.compare(base.size() - 5, 5, ".json") == 0));
        if (!is_doc) continue;
        if (json::parse(v, nullptr, false).is_discarded()) return k + " is not well-formed JSON: '" + v.substr(0, 200) + "'";
    }
    (void)version;
    return "";
}

std::string check_group_docs(const Files& f, const StreamSpec& s, bool with_custom)
{
    json ms;
    std::string e = parse_group(f, s.version, ms);
    if (e.size()) return e;
    auto& ax = ms[0]["axes"];
    if (ax.size() != s.dims.size()) return "axes count " + S(ax.size()) + " instead of " + S(s.dims.size());
    for (size_t i = 0; i < s.dims.size(); ++i) {
        if (!ax[i].is_object() || !ax[i].contains("name") || ax[i]["name"] != s.dims[i].name) return "axis " + S(i) + " has the wrong name: " + ax[i].dump();
        if (!ax[i].contains("type") || ax[i]["type"] != TYPES[s.dims[i].type]) return "axis " + S(i) + " has the wrong type: " + ax[i].dump();
    }
    if (!s.ms && ms[0]["datasets"].size() != 1) return "datasets lists levels though multiscale is off";
    if (ms[0]["datasets"][0]["path"] != "0") return "first dataset is not 0";
    if (with_custom) {
        std::string why;
        if (!custom_equal(s.custom, file(f, custom_meta_key(s.version)), why)) return why;
    }
    return "";
}

std::string check_settings_meta(const Files& f, const StreamSpec& s, uint64_t nframes, bool)
{
    std::string e = check_all_docs_are_json(f, s.version);
    if (e.size()) return e;
    e = check_group_docs(f, s, true);
    if (e.size()) return e;
    json ms;
    parse_group(f, s.version, ms);
    for (auto& d : ms[0]["datasets"]) {
        std::string p = d["path"];
        if (p.find_first_not_of("0123456789") != std::string::npos) return "dataset path " + p;
        Arr a;
        e = parse_array(f, s.version, std::stoi(p), a);
        if (e.size()) return "array " + p + " named by the group: " + e;
        if (a.dtype != s.dtype) return "array " + p + " has the wrong data type";
        if (a.comp != s.compressed()) return "array " + p + ": compressor " + (a.comp ? "present" : "missing") + " but settings say otherwise";
        if (p == "0") {
            Arr x = arr_from_spec(s, (nframes + s.inner() - 1) / s.inner());
            if (a.shape != x.shape) return "array 0 shape " + SV(a.shape) + ", true shape " + SV(x.shape);
            if (a.chunk != x.chunk) return "array 0 chunk shape " + SV(a.chunk) + ", true " + SV(x.chunk);
            if (s.version == 3 && a.cps != x.cps) return "array 0 chunks per shard " + SV(a.cps) + ", true " + SV(x.cps);
        }
        if (a.comp) {
            std::string cn = s.comp->codec == 1 ? "lz4" : "zstd";
            if (a.cname != cn || a.clevel != s.comp->level || a.shuffle != s.comp->shuffle)
                return "array " + p + " compressor " + a.cname + "/" + S(a.clevel) + "/" + S(a.shuffle) + " differs from the settings";
        }
    }
    return "";
}

// ---------------------------------------------------------------- chunks
std::string chunk_key(const Arr& a, const std::vector<uint64_t>& idx)
{
    std::string k = a.prefix;
    for (size_t i = 0; i < idx.size(); ++i) k += (i ? "/" : "") + S(a.version == 3 ? idx[i] / a.cps[i] : idx[i]);
    return k;
}
static std::string decode(const Arr& a, const char* p, size_t n, std::string& err)
{
    size_t want = a.chunk_bytes();
    if (!a.comp) {
        if (n != want) {
            err = "holds " + S(n) + " bytes instead of " + S(want);
            return "";
        }
        return std::string(p, n);
    }
    size_t nb = 0, cb = 0, bs = 0;
    if (n < BLOSC_MIN_HEADER_LENGTH) {
        err = "too short for a blosc buffer (" + S(n) + " bytes)";
        return "";
    }
    blosc_cbuffer_sizes(p, &nb, &cb, &bs);
    if (nb != want || cb != n) {
        err = "blosc header says " + S(nb) + "/" + S(cb) + " bytes, expected " + S(want) + "/" + S(n);
        return "";
    }
    size_t ts = 0;
    int fl = 0;
    blosc_cbuffer_metainfo(p, &ts, &fl);
    if (!(fl & BLOSC_MEMCPYED)) {
        const char* lib = blosc_cbuffer_complib(p);
        std::string l = lib ? lib : "";
        if ((a.cname == "lz4" && l != "LZ4") || (a.cname == "zstd" && l != "Zstd")) {
            err = "compressed with " + l + " but metadata say " + a.cname;
            return "";
        }
    }
    std::string out(want, '\0');
    int rc = blosc_decompress_ctx(p, out.data(), want, 1);
    if (rc < 0 || (size_t)rc != want) {
        err = "does not decompress (" + std::to_string(rc) + ")";
        return "";
    }
    return out;
}
static std::string shard_table(const Arr& a, const std::string& f, std::vector<uint64_t>& t)
{
    uint64_t n = 1;
    for (auto c : a.cps) n *= c;
    if (f.size() < n * 16) return "shorter (" + S(f.size()) + " bytes) than its index (" + S(n * 16) + ")";
    t.resize(2 * n);
    memcpy(t.data(), f.data() + f.size() - n * 16, n * 16);
    return "";
}
std::optional<std::string> get_chunk(const Files& f, const Arr& a, const std::vector<uint64_t>& idx, std::string& err)
{
    err.clear();
    std::string k = chunk_key(a, idx);
    auto* p = file(f, k);
    if (!p) return std::nullopt;
    std::string e;
    if (a.version == 2) {
        std::string d = decode(a, p->data(), p->size(), e);
        if (e.size()) {
            err = "chunk " + k + " " + e;
            return std::nullopt;
        }
        return d;
    }
    std::vector<uint64_t> t;
    e = shard_table(a, *p, t);
    if (e.size()) {
        err = "shard " + k + " " + e;
        return std::nullopt;
    }
    uint64_t in = 0;
    for (size_t i = 0; i < idx.size(); ++i) in = in * a.cps[i] + idx[i] % a.cps[i];
    uint64_t o = t[2 * in], n = t[2 * in + 1];
    if (o == UINT64_MAX && n == UINT64_MAX) return std::nullopt;
    uint64_t end = p->size() - t.size() * 8;
    if (o > end || n > end - o) {
        err = "shard " + k + " index entry " + S(in) + " (" + S(o) + "+" + S(n) + ") is outside the data (" + S(end) + ")";
        return std::nullopt;
    }
    std::string d = decode(a, p->data() + o, n, e);
    if (e.size()) {
        err = "chunk " + SV(idx) + " in shard " + k + " " + e;
        return std::nullopt;
    }
    return d;
}

// compare one chunk with the frames
static std::string compare_chunk(const StreamSpec& s, const Arr& a, const std::vector<uint64_t>& idx, const std::optional<std::string>& d, uint64_t nframes, Source& src)
{
    size_t nd = a.chunk.size();
    uint64_t W = a.shape[nd - 1], H = a.shape[nd - 2], cw = a.chunk[nd - 1], ch = a.chunk[nd - 2];
    uint64_t x0 = idx[nd - 1] * cw, y0 = idx[nd - 2] * ch;
    if (x0 >= W || y0 >= H) return "";
    uint64_t w = std::min(cw, W - x0), h = std::min(ch, H - y0);
    std::vector<uint64_t> pos(nd - 2, 0);
    std::string zeros(w * a.es, '\0');
    size_t plane = 0;
    for (;; ++plane) {
        uint64_t f = 0;
        bool in = true;
        for (size_t i = 0; i < nd - 2; ++i) {
            uint64_t g = idx[i] * a.chunk[i] + pos[i];
            if (g >= a.shape[i]) in = false;
            f = f * (i ? a.shape[i] : 1) + g;
        }
        if (in) {
            const std::string* fr = f < nframes ? &src.frame(f) : nullptr;
            for (uint64_t y = 0; y < h; ++y) {
                const char* want = fr ? fr->data() + ((y0 + y) * W + x0) * a.es : zeros.data();
                const char* got = d ? d->data() + ((plane * ch + y) * cw) * a.es : zeros.data();
                if (memcmp(want, got, w * a.es)) {
                    uint64_t b = 0;
                    while (want[b] == got[b]) ++b;
                    std::string m = fr ? "frame " + S(f) + " of " + S(nframes) : "position after the last frame";
                    return m + " row " + S(y0 + y) + " column " + S(x0 + b / a.es) + " in chunk " + SV(idx) + " (" + chunk_key(a, idx) + "): " +
                           (d ? "wrong bytes, got " + S((unsigned char)got[b]) + " want " + S((unsigned char)want[b]) : "chunk is missing");
                }
            }
        }
        size_t i = nd - 2;
        while (i > 0) {
            if (++pos[i - 1] < a.chunk[i - 1]) break;
            pos[i - 1] = 0;
            --i;
        }
        if (!i) break;
    }
    (void)s;
    return "";
}
template<class F>
static std::string for_chunks(const std::vector<uint64_t>& lo, const std::vector<uint64_t>& hi, F f)
{
    for (size_t i = 0; i < lo.size(); ++i)
        if (lo[i] >= hi[i]) return "";
    std::vector<uint64_t> idx = lo;
    for (;;) {
        std::string e = f(idx);
        if (e.size()) return e;
        size_t i = idx.size();
        while (i > 0) {
            if (++idx[i - 1] < hi[i - 1]) break;
            idx[i - 1] = lo[i - 1];
            --i;
        }
        if (!i) return "";
    }
}
static std::vector<uint64_t> lattice(const Arr& a)
{
    std::vector<uint64_t> n;
    for (size_t i = 0; i < a.shape.size(); ++i) n.push_back((a.shape[i] + a.chunk[i] - 1) / a.chunk[i]);
    return n;
}

std::string check_data(const Files& f, const StreamSpec& s, const Arr& a, uint64_t nframes, Source& src)
{
    uint64_t slices = (nframes + s.inner() - 1) / s.inner();
    if (a.shape[0] < slices) return "shape " + SV(a.shape) + " does not cover " + S(nframes) + " frames";
    for (size_t i = 1; i < a.shape.size(); ++i)
        if (a.shape[i] != s.dims[i].array) return "shape " + SV(a.shape) + " contradicts the settings";
    if (a.es != s.es()) return "element size " + S(a.es) + " contradicts the settings";
    if (a.dtype != s.dtype) return "data type contradicts the settings";
    return for_chunks(std::vector<uint64_t>(a.shape.size(), 0), lattice(a), [&](const std::vector<uint64_t>& idx) -> std::string {
        std::string err;
        auto d = get_chunk(f, a, idx, err);
        if (err.size()) return err;
        rt::count(rt::C_CHUNKS_CHECKED);
        return compare_chunk(s, a, idx, d, nframes, src);
    });
}

std::vector<std::string> unit_keys(const StreamSpec& s, uint64_t unit)
{
    Arr a = arr_from_spec(s, (unit + 1) * s.dims[0].chunk * (s.version == 3 ? s.dims[0].shard : 1));
    std::vector<std::string> r;
    auto hi = lattice(a);
    std::vector<uint64_t> lo(hi.size(), 0);
    uint64_t per = s.version == 3 ? s.dims[0].shard : 1;
    lo[0] = unit * per;
    hi[0] = lo[0] + 1;
    std::set<std::string> seen;
    for_chunks(lo, hi, [&](const std::vector<uint64_t>& idx) {
        seen.insert(chunk_key(a, idx));
        return std::string();
    });
    return { seen.begin(), seen.end() };
}

// units = chunk layers (version 2) or shard layers (version 3) all of whose frames were accepted
std::string check_complete_units(const Files& f, const StreamSpec& s, uint64_t from, uint64_t to, Source& src, std::vector<std::string>*)
{
    if (from >= to) return "";
    uint64_t per = s.version == 3 ? s.dims[0].shard : 1;
    uint64_t nslices = to * per * s.dims[0].chunk;
    Arr a = arr_from_spec(s, nslices);
    auto hi = lattice(a);
    std::vector<uint64_t> lo(hi.size(), 0);
    lo[0] = from * per;
    return for_chunks(lo, hi, [&](const std::vector<uint64_t>& idx) -> std::string {
        std::string err;
        auto d = get_chunk(f, a, idx, err);
        if (err.size()) return err;
        rt::count(rt::C_CHUNKS_CHECKED);
        return compare_chunk(s, a, idx, d, nslices * s.inner(), src);
    });
}

// every shard file: index exact
std::string check_shards(const Files& f, const StreamSpec& s, const Arr& a, int level, uint64_t nframes, bool level0)
{
    auto lat = lattice(a);
    size_t nd = lat.size();
    for (auto& [k, v] : f) {
        if (k.compare(0, a.prefix.size(), a.prefix)) continue;
        std::vector<uint64_t> si;
        std::string rest = k.substr(a.prefix.size());
        size_t p = 0;
        while (p <= rest.size()) {
            size_t q = rest.find('/', p);
            std::string w = rest.substr(p, q == std::string::npos ? q : q - p);
            if (w.empty() || w.find_first_not_of("0123456789") != std::string::npos) return "unexpected object " + k;
            si.push_back(std::stoull(w));
            if (q == std::string::npos) break;
            p = q + 1;
        }
        if (si.size() != nd) return "unexpected object " + k;
        for (size_t i = 0; i < nd; ++i)
            if (si[i] * a.cps[i] >= lat[i]) return "shard " + k + " lies outside the array (lattice " + SV(lat) + ")";
        std::vector<uint64_t> t;
        std::string e = shard_table(a, v, t);
        if (e.size()) return "shard " + k + " is " + e;
        uint64_t end = v.size() - t.size() * 8;
        std::map<uint64_t, uint64_t> ext;
        size_t n = t.size() / 2;
        uint64_t covered = 0;
        for (size_t c = 0; c < n; ++c) {
            std::vector<uint64_t> idx(nd);
            uint64_t r = c;
            bool in = true;
            for (size_t i = nd; i-- > 0;) {
                idx[i] = si[i] * a.cps[i] + r % a.cps[i];
                r /= a.cps[i];
                if (idx[i] >= lat[i]) in = false;
            }
            uint64_t o = t[2 * c], l = t[2 * c + 1];
            bool missing = o == UINT64_MAX && l == UINT64_MAX;
            if (missing) continue;
            if (!in) return "shard " + k + " lists a chunk at position " + S(c) + " " + SV(idx) + " outside the array (lattice " + SV(lat) + ")";
            if (o > end || l > end - o || !l) return "shard " + k + " entry " + S(c) + " extent " + S(o) + "+" + S(l) + " is not inside the data part of " + S(end) + " bytes";
            if (!ext.emplace(o, l).second) return "shard " + k + " lists two chunks at offset " + S(o);
            std::string err;
            auto d = get_chunk(f, a, idx, err);
            if (err.size()) return err;
            covered += l;
        }
        uint64_t pos = 0;
        for (auto& [o, l] : ext) {
            if (o < pos) return "shard " + k + ": listed extents overlap at " + S(o);
            pos = o + l;
        }
        if (covered > end) return "shard " + k + ": extents exceed the data part";
    }
    (void)s; (void)level; (void)nframes; (void)level0;
    return "";
}

// ---------------------------------------------------------------- multiscale
static long double px(const std::string& d, size_t i, int dtype)
{
    const char* p = d.data() + i * ES[dtype];
    switch (dtype) {
#define C(n, T) case n: { T v; memcpy(&v, p, sizeof v); return (long double)v; }
        C(0, uint8_t) C(1, uint16_t) C(2, uint32_t) C(3, uint64_t) C(4, int8_t) C(5, int16_t) C(6, int32_t) C(7, int64_t) C(8, float) C(9, double)
#undef C
    }
    return 0;
}
// whole array, slices of the append dimension, inner dimensions flattened
static std::string load_array(const Files& f, const Arr& a, std::vector<std::string>& slices)
{
    size_t nd = a.shape.size();
    uint64_t W = a.shape[nd - 1], H = a.shape[nd - 2], inner = 1;
    for (size_t i = 1; i + 2 < nd; ++i) inner *= a.shape[i];
    slices.assign(a.shape[0], std::string());
    for (auto& s : slices) s.assign(inner * H * W * a.es, '\0');
    return for_chunks(std::vector<uint64_t>(nd, 0), lattice(a), [&](const std::vector<uint64_t>& idx) -> std::string {
        std::string err;
        auto d = get_chunk(f, a, idx, err);
        if (err.size()) return err;
        rt::count(rt::C_CHUNKS_CHECKED);
        if (!d) return "";
        std::vector<uint64_t> pos(nd - 1, 0);
        size_t row = 0;
        uint64_t x0 = idx[nd - 1] * a.chunk[nd - 1], w = std::min(a.chunk[nd - 1], W - x0);
        for (;; ++row) {
            bool in = true;
            uint64_t lin = 0, t = 0;
            for (size_t i = 0; i < nd - 1; ++i) {
                uint64_t g = idx[i] * a.chunk[i] + pos[i];
                if (g >= a.shape[i]) in = false;
                if (!i) t = g;
                else lin = lin * a.shape[i] + g;
            }
            if (in) memcpy(&slices[t][(lin * W + x0) * a.es], d->data() + row * a.chunk[nd - 1] * a.es, w * a.es);
            size_t i = nd - 1;
            while (i > 0) {
                if (++pos[i - 1] < a.chunk[i - 1]) break;
                pos[i - 1] = 0;
                --i;
            }
            if (!i) break;
        }
        return "";
    });
}
// ---- levels while the stream is running
uint64_t level_unit_slices(const StreamSpec& s, const Arr& a) { return a.chunk[0] * (s.version == 3 ? a.cps[0] : 1); }
static void level_lohi(const StreamSpec& s, const Arr& a, uint64_t from, uint64_t to, std::vector<uint64_t>& lo, std::vector<uint64_t>& hi)
{
    Arr b = a;
    b.shape[0] = to * level_unit_slices(s, a);
    hi = lattice(b);
    lo.assign(hi.size(), 0);
    lo[0] = from * (s.version == 3 ? a.cps[0] : 1);
}
std::vector<std::string> level_unit_keys(const StreamSpec& s, const Arr& a, uint64_t unit)
{
    std::vector<uint64_t> lo, hi;
    level_lohi(s, a, unit, unit + 1, lo, hi);
    std::set<std::string> seen;
    for_chunks(lo, hi, [&](const std::vector<uint64_t>& idx) {
        seen.insert(chunk_key(a, idx));
        return std::string();
    });
    return { seen.begin(), seen.end() };
}
const LevelRef::Slice& LevelRef::get(int level, uint64_t t)
{
    auto it = memo.find({ level, t });
    if (it != memo.end()) return it->second;
    Slice r;
    size_t nd = s->dims.size();
    uint64_t H = s->dims[nd - 2].array, W = s->dims[nd - 1].array;
    for (int i = 0; i < level; ++i) H = (H + 1) / 2, W = (W + 1) / 2;
    r.h = H;
    r.w = W;
    r.v.resize(H * W);
    r.mag.resize(H * W);
    if (!level) {
        const std::string& f = src->frame(t);
        for (uint64_t i = 0; i < H * W; ++i) {
            r.v[i] = px(f, i, s->dtype);
            r.mag[i] = std::abs(r.v[i]);
        }
    } else {
        Slice a = get(level - 1, 2 * t), b = get(level - 1, 2 * t + 1);
        for (uint64_t y = 0; y < H; ++y)
            for (uint64_t x = 0; x < W; ++x) {
                long double sum = 0, mag = 0;
                int n = 0;
                for (auto* q : { &a, &b })
                    for (uint64_t yy = 2 * y; yy < std::min(2 * y + 2, q->h); ++yy)
                        for (uint64_t xx = 2 * x; xx < std::min(2 * x + 2, q->w); ++xx) {
                            sum += q->v[yy * q->w + xx];
                            mag = std::max(mag, q->mag[yy * q->w + xx]);
                            ++n;
                        }
                r.v[y * W + x] = sum / n;
                r.mag[y * W + x] = mag;
            }
    }
    return memo[{ level, t }] = std::move(r);
}
std::string check_level_units(const Files& f, const StreamSpec& s, int level, const Arr& a, uint64_t from, uint64_t to, LevelRef& ref)
{
    if (from >= to) return "";
    std::vector<uint64_t> lo, hi;
    level_lohi(s, a, from, to, lo, hi);
    size_t nd = hi.size();
    return for_chunks(lo, hi, [&](const std::vector<uint64_t>& idx) -> std::string {
        std::string err;
        auto d = get_chunk(f, a, idx, err);
        if (err.size()) return "level " + S(level) + ": " + err;
        rt::count(rt::C_CHUNKS_CHECKED);
        uint64_t ch = a.chunk[nd - 2], cw = a.chunk[nd - 1];
        for (uint64_t t = 0; t < a.chunk[0]; ++t) {
            auto& q = ref.get(level, idx[0] * a.chunk[0] + t);
            for (uint64_t y = 0; y < ch && idx[nd - 2] * ch + y < q.h; ++y)
                for (uint64_t x = 0; x < cw && idx[nd - 1] * cw + x < q.w; ++x) {
                    size_t k = (idx[nd - 2] * ch + y) * q.w + idx[nd - 1] * cw + x;
                    long double got = d ? px(*d, (t * ch + y) * cw + x, a.dtype) : 0;
                    long double tol = level * (a.dtype == 8 ? q.mag[k] * 1e-6L : a.dtype == 9 ? q.mag[k] * 1e-13L : 2.0L + (a.es == 8 ? q.mag[k] * 0x1.0p-50L : 0));
                    if (!(std::abs(got - q.v[k]) <= tol)) {
                        char b[200];
                        snprintf(b, sizeof b, "%.10Lg instead of the mean %.10Lg", got, q.v[k]);
                        return "level " + S(level) + " chunk " + chunk_key(a, idx) + " slice " + S(idx[0] * a.chunk[0] + t) + " pixel " + S(k) + (d ? ": " : ", chunk missing: ") + b;
                    }
                }
        }
        return "";
    });
}

std::string check_multiscale(const Files& f, const StreamSpec& s, const std::vector<std::string>&)
{
    json ms;
    std::string e = parse_group(f, s.version, ms);
    if (e.size()) return e;
    auto& ds = ms[0]["datasets"];
    // levels stored
    std::set<std::string> stored, listed;
    std::string pre = s.version == 2 ? "" : "data/root/";
    for (auto& [k, v] : f) {
        std::string l;
        if (k.compare(0, pre.size(), pre) == 0) {
            std::string r = k.substr(pre.size());
            size_t q = r.find('/');
            if (q != std::string::npos) l = r.substr(0, q);
        }
        if (s.version == 3 && k.compare(0, 10, "meta/root/") == 0) {
            std::string r = k.substr(10);
            size_t q = r.find(".array.json");
            if (q != std::string::npos) l = r.substr(0, q);
        }
        if (l.size() && l.find_first_not_of("0123456789") == std::string::npos) stored.insert(l);
    }
    for (size_t i = 0; i < ds.size(); ++i) {
        if (ds[i]["path"] != S(i)) return "dataset " + S(i) + " has path " + ds[i]["path"].dump();
        listed.insert(S(i));
    }
    if (stored != listed) {
        std::string a, b;
        for (auto& x : stored) a += x + " ";
        for (auto& x : listed) b += x + " ";
        return "levels stored { " + a + "}, levels listed { " + b + "}";
    }
    if (s.ms && ds.size() < 2) return "multiscale requested but only one level listed";
    Arr prev;
    std::vector<std::string> pd;
    for (size_t i = 0; i < ds.size(); ++i) {
        Arr a;
        e = parse_array(f, s.version, (int)i, a);
        if (e.size()) return e;
        size_t nd = a.shape.size();
        if (nd != s.dims.size() || a.dtype != s.dtype) return "level " + S(i) + " has another rank or data type";
        std::vector<std::string> cd;
        e = load_array(f, a, cd);
        if (e.size()) return "level " + S(i) + ": " + e;
        auto& sc = ds[i]["coordinateTransformations"][0]["scale"];
        if (sc.size() != nd) return "level " + S(i) + " scale has rank " + S(sc.size());
        if (i) {
            uint64_t W = prev.shape[nd - 1], H = prev.shape[nd - 2], w = a.shape[nd - 1], h = a.shape[nd - 2];
            if (w != (W + 1) / 2 || h != (H + 1) / 2) return "level " + S(i) + " plane " + S(h) + "x" + S(w) + " is not half of " + S(H) + "x" + S(W);
            for (size_t d = 1; d + 2 < nd; ++d)
                if (a.shape[d] != prev.shape[d]) return "level " + S(i) + " extent of dimension " + S(d) + " is " + S(a.shape[d]) + ", below " + S(prev.shape[d]);
            uint64_t T = prev.shape[0], t = a.shape[0];
            if (t != T / 2 && t != (T + 1) / 2) return "level " + S(i) + " has " + S(t) + " slices, level below " + S(T);
            uint64_t inner = 1;
            for (size_t d = 1; d + 2 < nd; ++d) inner *= a.shape[d];
            auto& p0 = ds[i - 1]["coordinateTransformations"][0]["scale"];
            for (size_t d = 0; d < nd; ++d) {
                double want = (d == 0 || d + 2 >= nd) ? 2.0 : 1.0;
                if (!sc[d].is_number() || std::abs(sc[d].get<double>() / p0[d].get<double>() - want) > 1e-9)
                    return "level " + S(i) + " scale " + sc.dump() + " relative to " + p0.dump() + " should be " + (want == 2 ? "2" : "1") + " in dimension " + S(d);
            }
            for (uint64_t z = 0; z < t; ++z)
                for (uint64_t c = 0; c < inner; ++c)
                    for (uint64_t y = 0; y < h; ++y)
                        for (uint64_t x = 0; x < w; ++x) {
                            long double sum = 0, mag = 0;
                            int n = 0;
                            for (uint64_t zz = 2 * z; zz < std::min(2 * z + 2, T); ++zz)
                                for (uint64_t yy = 2 * y; yy < std::min(2 * y + 2, H); ++yy)
                                    for (uint64_t xx = 2 * x; xx < std::min(2 * x + 2, W); ++xx) {
                                        long double v = px(pd[zz], (c * H + yy) * W + xx, a.dtype);
                                        sum += v;
                                        mag = std::max(mag, std::abs(v));
                                        ++n;
                                    }
                            long double mean = sum / n, got = px(cd[z], (c * h + y) * w + x, a.dtype);
                            long double tol = a.dtype == 8 ? mag * 1e-6L : a.dtype == 9 ? mag * 1e-13L : 2.0L + (a.es == 8 ? mag * 0x1.0p-50L : 0);
                            if (!(std::abs(got - mean) <= tol)) {
                                char b[256];
                                snprintf(b, sizeof b, "level %zu slice %llu row %llu column %llu: %.10Lg, mean of the level below %.10Lg", i, (unsigned long long)z,
                                         (unsigned long long)y, (unsigned long long)x, got, mean);
                                return b;
                            }
                        }
        } else {
            for (size_t d = 0; d < nd; ++d)
                if (!sc[d].is_number() || sc[d].get<double>() <= 0) return "level 0 scale " + sc.dump();
        }
        prev = a;
        pd = std::move(cd);
    }
    return "";
}
