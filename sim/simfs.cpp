#include "simfs.h"
#include "rt.h"

#include <algorithm>
#include <cerrno>
#include <climits>
#include <cstdarg>
#include <cstdio>
#include <cstring>
#include <dirent.h>
#include <fcntl.h>
#include <set>
#include <sys/stat.h>
#include <sys/statvfs.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <unistd.h>

using namespace rt;
namespace simfs {

const char* const op_names[] = { "create", "truncate", "write", "unlink", "rmdir", "mkdir", "rename", "symlink", "chmod", "escape" };
static const char* ROOT = "/simfs";
static const uint64_t PAGE = 65536;
enum { FD_BASE = 1 << 20 };

struct Open
{
    std::shared_ptr<Node> n;
    uint64_t pos = 0;
    int flags = 0;
    bool used = false;
    FILE* fp = nullptr;
    std::string path;
};
struct Dir
{
    uint64_t magic;
    int fd;
    std::vector<std::pair<std::string, std::shared_ptr<Node>>> ents;
    size_t pos;
    struct dirent de;
};
static const uint64_t DIR_MAGIC = 0xd1d1d1d1d1d1d1d1ull;

static std::shared_ptr<Node> root;
static std::shared_ptr<Node> cwd;
static std::vector<Open> fds;
static std::set<Dir*> dirs;
static Hook hook;
static uint64_t next_ino = 1000;
static int64_t blocks_used = 0;

static std::shared_ptr<Node> mk(Type t, unsigned mode)
{
    auto n = std::make_shared<Node>();
    n->type = t;
    n->ino = next_ino++;
    n->mode = mode;
    return n;
}
void reset()
{
    root = mk(DIR_T, 0755);
    cwd = mk(DIR_T, 0755);
    cwd->parent = root.get();
    cwd->name = "w";
    root->kids["w"] = cwd;
    fds.clear();
    for (auto* d : dirs) delete d;
    dirs.clear();
    blocks_used = 0;
}
void set_hook(Hook h) { hook = std::move(h); }
std::string path_of(Node* n)
{
    if (n == root.get()) return ROOT;
    std::string s;
    while (n && n != root.get()) {
        s = "/" + n->name + s;
        n = n->parent;
    }
    return ROOT + s;
}
static void fire(Op op, const std::string& path, Node* n)
{
    if (tracing) trace("fs %s %s", op_names[op], path.c_str());
    event(0xf5, op);
    event_bytes(path.data(), path.size());
    if (hook) hook(op, path, n);
}
static int64_t page_blocks(const std::string& p) { return (int64_t)((p.size() + 4095) / 4096); }
static int64_t node_blocks(Node* n)
{
    int64_t b = 0;
    for (auto& p : n->pages) b += page_blocks(p.second);
    return b;
}
uint64_t used_blocks() { return blocks_used; }

// ---------------------------------------------------------------- resolution
struct Res
{
    std::shared_ptr<Node> parent, node;
    std::string name;
    int err = 0;
    bool escaped = false;
};
static bool is_sim_abs(const char* p)
{
    size_t l = strlen(ROOT);
    return !strncmp(p, ROOT, l) && (p[l] == 0 || p[l] == '/');
}
static Res walk(std::shared_ptr<Node> start, const std::string& path, bool follow, int depth = 0)
{
    Res r;
    if (depth > 20) {
        r.err = ELOOP;
        return r;
    }
    std::shared_ptr<Node> cur = start;
    std::vector<std::string> parts;
    bool trailing = !path.empty() && path.back() == '/';
    size_t i = 0;
    while (i < path.size()) {
        size_t j = path.find('/', i);
        if (j == std::string::npos) j = path.size();
        if (j > i) parts.push_back(path.substr(i, j - i));
        i = j + 1;
    }
    if (path.empty()) {
        r.err = ENOENT;
        return r;
    }
    auto shared = [](Node* n) -> std::shared_ptr<Node> {
        if (n == root.get()) return root;
        auto it = n->parent->kids.find(n->name);
        return it == n->parent->kids.end() ? nullptr : it->second;
    };
    r.parent = nullptr;
    r.node = cur;
    r.name = "";
    for (size_t k = 0; k < parts.size(); ++k) {
        bool last = k + 1 == parts.size();
        const std::string& c = parts[k];
        if (cur->type != DIR_T) {
            r.err = ENOTDIR;
            r.node = nullptr;
            return r;
        }
        if (c.size() > 255) {
            r.err = ENAMETOOLONG;
            r.node = nullptr;
            return r;
        }
        if (c == ".") {
            r.node = cur;
            r.parent = cur->parent ? shared(cur->parent) : nullptr;
            r.name = cur->name;
            continue;
        }
        if (c == "..") {
            if (!cur->parent) {
                r.err = EACCES;
                r.escaped = true;
                r.node = nullptr;
                return r;
            }
            cur = shared(cur->parent);
            r.node = cur;
            r.parent = cur->parent ? shared(cur->parent) : nullptr;
            r.name = cur->name;
            continue;
        }
        auto it = cur->kids.find(c);
        if (it == cur->kids.end()) {
            r.node = nullptr;
            r.err = ENOENT;
            r.name = c;
            r.parent = last ? cur : nullptr;
            return r;
        }
        auto n = it->second;
        if (n->type == LINK_T && (!last || follow || trailing)) {
            Res t;
            if (!n->target.empty() && n->target[0] == '/') {
                if (!is_sim_abs(n->target.c_str())) {
                    r.err = ENOENT;
                    r.escaped = true;
                    r.node = nullptr;
                    return r;
                }
                t = walk(root, n->target.size() > strlen(ROOT) ? n->target.substr(strlen(ROOT) + 1) : std::string("."), true, depth + 1);
            } else {
                t = walk(cur, n->target, true, depth + 1);
            }
            if (t.err) {
                t.parent = last ? t.parent : nullptr;
                return t;
            }
            if (last) return t;
            cur = t.node;
            continue;
        }
        r.parent = cur;
        r.name = c;
        r.node = n;
        cur = n;
    }
    if (trailing && r.node && r.node->type == FILE_T) {
        r.err = ENOTDIR;
        r.node = nullptr;
    }
    return r;
}
static Open* get_fd(int fd)
{
    int i = fd - FD_BASE;
    if (i < 0 || i >= (int)fds.size() || !fds[i].used) return nullptr;
    return &fds[i];
}
static bool sim_fd(int fd) { return fd >= FD_BASE; }
// is this path, used by the code under test, inside the simulated file system?
static bool sim_path(int dfd, const char* p)
{
    if (!p) return false;
    if (p[0] == '/') return is_sim_abs(p);
    if (dfd == AT_FDCWD) return true;
    return sim_fd(dfd);
}
static Res lookup(int dfd, const char* p, bool follow)
{
    if (p[0] == '/') {
        const char* q = p + strlen(ROOT);
        while (*q == '/') ++q;
        return walk(root, *q ? q : ".", follow);
    }
    if (dfd == AT_FDCWD) return walk(cwd, p, follow);
    Open* o = get_fd(dfd);
    if (!o) {
        Res r;
        r.err = EBADF;
        return r;
    }
    return walk(o->n, p, follow);
}
static std::string full(const Res& r)
{
    if (r.node && !r.parent) return path_of(r.node.get());
    if (!r.parent) return "?";
    return path_of(r.parent.get()) + "/" + r.name;
}

// ---------------------------------------------------------------- harness interface
void mkdirs(const std::string& path)
{
    std::shared_ptr<Node> cur = root;
    std::string rest = path.substr(strlen(ROOT));
    size_t i = 0;
    while (i < rest.size()) {
        size_t j = rest.find('/', i);
        if (j == std::string::npos) j = rest.size();
        if (j > i) {
            std::string c = rest.substr(i, j - i);
            auto& k = cur->kids[c];
            if (!k) {
                k = mk(DIR_T, 0755);
                k->parent = cur.get();
                k->name = c;
            }
            cur = k;
        }
        i = j + 1;
    }
}
static void node_write(Node* n, uint64_t off, const char* p, uint64_t len)
{
    while (len) {
        uint64_t pg = off / PAGE, in = off % PAGE, k = std::min(len, PAGE - in);
        auto& s = n->pages[pg];
        int64_t b0 = page_blocks(s);
        if (s.size() < in + k) s.resize(in + k, '\0');
        memcpy(&s[in], p, k);
        blocks_used += page_blocks(s) - b0;
        off += k;
        p += k;
        len -= k;
    }
    if (off > n->size) n->size = off;
}
static void node_trunc(Node* n, uint64_t size)
{
    int64_t b0 = node_blocks(n);
    if (size < n->size) {
        for (auto it = n->pages.begin(); it != n->pages.end();) {
            uint64_t base = it->first * PAGE;
            if (base >= size) it = n->pages.erase(it);
            else {
                if (base + it->second.size() > size) it->second.resize(size - base);
                ++it;
            }
        }
    }
    n->size = size;
    blocks_used += node_blocks(n) - b0;
}
std::string read_range(Node* n, uint64_t off, uint64_t len)
{
    if (off >= n->size) return {};
    len = std::min(len, n->size - off);
    std::string out(len, '\0');
    for (auto& p : n->pages) {
        uint64_t base = p.first * PAGE, end = base + p.second.size();
        uint64_t a = std::max(base, off), b = std::min(end, off + len);
        if (a < b) memcpy(&out[a - off], &p.second[a - base], b - a);
    }
    return out;
}
void put(const std::string& path, const std::string& data)
{
    size_t s = path.rfind('/');
    mkdirs(path.substr(0, s));
    Res r = lookup(AT_FDCWD, path.c_str(), false);
    std::shared_ptr<Node> n = r.node;
    if (!n) {
        n = mk(FILE_T, 0644);
        n->parent = r.parent.get();
        n->name = r.name;
        r.parent->kids[r.name] = n;
    }
    node_trunc(n.get(), 0);
    node_write(n.get(), 0, data.data(), data.size());
}
void link_to(const std::string& path, const std::string& target)
{
    size_t s = path.rfind('/');
    mkdirs(path.substr(0, s));
    Res r = lookup(AT_FDCWD, path.c_str(), false);
    auto n = mk(LINK_T, 0777);
    n->parent = r.parent.get();
    n->name = r.name;
    n->target = target;
    r.parent->kids[r.name] = n;
}
void set_mode(const std::string& path, unsigned mode)
{
    if (Node* n = find(path)) n->mode = mode;
}
Node* find(const std::string& path)
{
    Res r = lookup(AT_FDCWD, path.c_str(), false);
    return r.err ? nullptr : r.node.get();
}
bool exists(const std::string& path) { return find(path) != nullptr; }
std::optional<std::string> get(const std::string& path)
{
    Node* n = find(path);
    if (!n || n->type != FILE_T) return std::nullopt;
    return read_range(n, 0, n->size);
}
static void snap(Node* n, const std::string& path, std::map<std::string, std::string>& out)
{
    if (n->type == FILE_T) out[path] = "F" + read_range(n, 0, n->size);
    else if (n->type == LINK_T) out[path] = "L" + n->target;
    else {
        out[path] = "D";
        for (auto& k : n->kids) snap(k.second.get(), path + "/" + k.first, out);
    }
}
std::map<std::string, std::string> snapshot(const std::string& prefix)
{
    std::map<std::string, std::string> m;
    if (Node* n = find(prefix)) snap(n, prefix, m);
    return m;
}
int open_count()
{
    int c = 0;
    for (auto& f : fds) c += f.used;
    return c;
}
std::string open_list()
{
    std::string s;
    for (auto& f : fds)
        if (f.used) s += " " + f.path;
    return s;
}
bool freeze(const std::string& path)
{
    Node* n = find(path);
    if (!n || n->type != FILE_T) return false;
    n->frozen = true;
    return true;
}
void close_all()
{
    for (auto& f : fds) f = Open();
}

// ---------------------------------------------------------------- operations (called inside Guard)
static int alloc_fd(std::shared_ptr<Node> n, int flags, const std::string& path)
{
    size_t i = 0;
    while (i < fds.size() && fds[i].used) ++i;
    if (i == fds.size()) fds.emplace_back();
    fds[i].n = n;
    fds[i].pos = 0;
    fds[i].flags = flags;
    fds[i].used = true;
    fds[i].fp = nullptr;
    fds[i].path = path;
    return FD_BASE + (int)i;
}
static void fs_op(const char* what, const char* path)
{
    count(C_FSOPS);
    sched_point(K_FS);
    if (tracing) trace("%s %s", what, path ? path : "");
}
static int fail(int e)
{
    errno = e;
    return -1;
}
static void escape(const char* what, const char* path)
{
    if (tracing) trace("ESCAPE %s %s", what, path);
    if (hook) hook(ESCAPE, std::string(what) + " " + path, nullptr);
}
static int do_open(int dfd, const char* path, int flags, unsigned mode)
{
    fs_op("open", path);
    bool wr = (flags & O_ACCMODE) != O_RDONLY;
    bool mutating = wr || (flags & (O_CREAT | O_TRUNC));
    if (mutating) {
        static const int codes[] = { EIO, EMFILE, ENOSPC, EACCES };
        if (int e = fault(F_OPEN, path, codes, 4)) return fail(e);
    } else {
        static const int codes[] = { EIO, EMFILE };
        if (int e = fault(F_READDIR, path, codes, 2)) return fail(e);
    }
    Res r = lookup(dfd, path, !(flags & O_NOFOLLOW));
    if (r.escaped) {
        if (mutating) escape("open", path);
        return fail(EACCES);
    }
    if (!r.err && (flags & O_CREAT) && (flags & O_EXCL)) return fail(EEXIST);
    if (r.err == ENOENT && r.parent && (flags & O_CREAT)) {
        if (path[strlen(path) - 1] == '/') return fail(EISDIR);
        auto n = mk(FILE_T, mode & 0777 & ~022u);
        n->parent = r.parent.get();
        n->name = r.name;
        r.parent->kids[r.name] = n;
        r.node = n;
        r.err = 0;
        fire(CREATE, full(r), n.get());
    }
    if (r.err) return fail(r.err);
    if (r.node->type == LINK_T) return fail(ELOOP);
    if ((flags & O_DIRECTORY) && r.node->type != DIR_T) return fail(ENOTDIR);
    if (r.node->type == DIR_T && wr) return fail(EISDIR);
    if ((flags & O_TRUNC) && wr && r.node->type == FILE_T) {
        bool had = r.node->size > 0;
        node_trunc(r.node.get(), 0);
        if (had) fire(TRUNC, full(r), r.node.get());
    }
    if (wr) r.node->writers++;
    return alloc_fd(r.node, flags, full(r));
}
static int do_close(int fd)
{
    Open* o = get_fd(fd);
    if (!o) return fail(EBADF);
    fs_op("close", o->path.c_str());
    o = get_fd(fd);
    if (!o) return fail(EBADF);
    if ((o->flags & O_ACCMODE) != O_RDONLY) o->n->writers--;
    if (!o->n->linked && o->n.use_count() == 1) blocks_used -= node_blocks(o->n.get());
    *o = Open();
    return 0;
}
static int eintr_fd = -1, eintr_run = 0;
static ssize_t do_writev(int fd, const struct iovec* iov, int cnt, int64_t off /* -1: current position */)
{
    Open* o = get_fd(fd);
    if (!o || (o->flags & O_ACCMODE) == O_RDONLY) return fail(EBADF);
    if (cnt < 0 || cnt > IOV_MAX) return fail(EINVAL);
    fs_op("write", o->path.c_str());
    o = get_fd(fd);
    if (!o) return fail(EBADF);
    uint64_t total = 0;
    for (int i = 0; i < cnt; ++i) {
        if ((ssize_t)iov[i].iov_len < 0) return fail(EINVAL);
        total += iov[i].iov_len;
    }
    if (total > 0x7ffff000) total = 0x7ffff000;
    for (int i = 0; i < cnt; ++i) check_range(iov[i].iov_base, iov[i].iov_len, false, "write");
    if (total == 0) return 0;
    static const int intr[] = { EINTR };
    // a signal storm is not for ever: at most four interruptions in a row
    if (eintr_fd != fd) eintr_fd = fd, eintr_run = 0;
    if (eintr_run < 4 && fault(F_EINTR, o->path.c_str(), intr, 1)) {
        ++eintr_run;
        return fail(EINTR);
    }
    eintr_run = 0;
    static const int codes[] = { EIO, ENOSPC };
    if (int e = fault(F_WRITE, o->path.c_str(), codes, 2)) return fail(e);
    uint64_t want = total, part = 0;
    static const int one[] = { 1 };
    if (total > 1 && fault(F_SHORT, o->path.c_str(), one, 1, &part, total) && part) want = std::min(want, part);
    // Linux: O_APPEND wins even over the offset given to pwrite()
    uint64_t pos = (o->flags & O_APPEND) ? o->n->size : off >= 0 ? (uint64_t)off : o->pos;
    if (cfg.disk_blocks >= 0) {
        // blocks needed for [pos, pos + want): count blocks not yet allocated
        uint64_t ok = 0;
        int64_t avail = cfg.disk_blocks - blocks_used;
        uint64_t p = pos;
        while (p < pos + want) {
            uint64_t bl = p / 4096, nx = std::min(pos + want, (bl + 1) * 4096);
            auto it = o->n->pages.find(p / PAGE);
            bool have = it != o->n->pages.end() && it->second.size() > (bl * 4096) % PAGE;
            if (!have && it != o->n->pages.end()) {
                // earlier blocks of the page are allocated implicitly
                uint64_t cur = (it->second.size() + 4095) / 4096;
                uint64_t needb = (bl * 4096 % PAGE) / 4096 + 1;
                if (p == pos && needb > cur + 1) avail -= (int64_t)(needb - cur - 1);
            } else if (!have && p == pos) {
                avail -= (int64_t)((bl * 4096 % PAGE) / 4096);
            }
            if (!have) {
                if (avail <= 0) break;
                --avail;
            }
            ok += nx - p;
            p = nx;
        }
        if (ok < want) {
            note_fault(F_DISKFULL);
            if (ok == 0) return fail(ENOSPC);
            want = ok;
        }
    }
    if (pos + want > (1ull << 44)) return fail(EFBIG);
    uint64_t left = want, p = pos;
    for (int i = 0; i < cnt && left; ++i) {
        uint64_t k = std::min<uint64_t>(left, iov[i].iov_len);
        if (k) node_write(o->n.get(), p, (const char*)iov[i].iov_base, k);
        event_bytes(iov[i].iov_base, std::min<uint64_t>(k, 65536));
        p += k;
        left -= k;
    }
    o->n->writes++;
    event(0xf6, pos, want);
    if (tracing) trace("   wrote %llu bytes at %llu", (unsigned long long)want, (unsigned long long)pos);
    if (off < 0) o->pos = pos + want;
    fire(WRITE, o->n->linked ? path_of(o->n.get()) : o->path, o->n.get());
    return (ssize_t)want;
}
static void fill_stat(Node* n, struct stat* st)
{
    memset(st, 0, sizeof *st);
    st->st_ino = n->ino;
    st->st_dev = 77;
    st->st_nlink = n->type == DIR_T ? 2 : 1;
    st->st_mode = n->mode | (n->type == DIR_T ? S_IFDIR : n->type == LINK_T ? S_IFLNK : S_IFREG);
    st->st_size = n->type == DIR_T ? 4096 : n->type == LINK_T ? n->target.size() : n->size;
    st->st_blksize = 4096;
    st->st_blocks = node_blocks(n) * 8;
    st->st_mtime = st->st_ctime = st->st_atime = now_us() / 1000000;
}
static int do_stat(int dfd, const char* path, struct stat* st, bool follow)
{
    fs_op("stat", path);
    static const int codes[] = { EIO };
    if (int e = fault(F_STAT, path, codes, 1)) return fail(e);
    Res r = lookup(dfd, path, follow);
    if (r.err) return fail(r.err);
    fill_stat(r.node.get(), st);
    return 0;
}
static int do_mkdir(int dfd, const char* path, unsigned mode)
{
    fs_op("mkdir", path);
    Res r = lookup(dfd, path, false);
    if (r.escaped) {
        escape("mkdir", path);
        return fail(EACCES);
    }
    if (!r.err) return fail(EEXIST);
    if (r.err != ENOENT || !r.parent) return fail(r.err);
    static const int codes[] = { EIO, ENOSPC };
    if (int e = fault(F_MKDIR, path, codes, 2)) return fail(e);
    if (cfg.disk_blocks >= 0) {
        if (blocks_used >= cfg.disk_blocks) {
            note_fault(F_DISKFULL);
            return fail(ENOSPC);
        }
        blocks_used++;
    }
    auto n = mk(DIR_T, mode & 0777 & ~022u);
    n->parent = r.parent.get();
    n->name = r.name;
    r.parent->kids[r.name] = n;
    r.node = n;
    fire(MKDIR, full(r), n.get());
    return 0;
}
static int do_unlink(int dfd, const char* path, bool dir)
{
    fs_op(dir ? "rmdir" : "unlink", path);
    if (dir) { // as the kernel does, by the last component of the name
        size_t n = strlen(path);
        while (n > 1 && path[n - 1] == '/') n--;
        std::string_view v(path, n);
        v = v.substr(v.rfind('/') == v.npos ? 0 : v.rfind('/') + 1);
        if (v == ".") return fail(EINVAL);
        if (v == "..") return fail(ENOTEMPTY);
    }
    Res r = lookup(dfd, path, false);
    if (r.escaped) {
        escape("unlink", path);
        return fail(EACCES);
    }
    if (r.err) return fail(r.err);
    if (dir && r.node->type != DIR_T) return fail(ENOTDIR);
    if (!dir && r.node->type == DIR_T) return fail(EISDIR);
    if (dir && !r.node->kids.empty()) return fail(ENOTEMPTY);
    if (!r.parent) return fail(EBUSY);
    static const int codes[] = { EIO, EBUSY };
    if (int e = fault(F_UNLINK, path, codes, 2)) return fail(e);
    std::string p = full(r);
    r.node->linked = false;
    r.parent->kids.erase(r.name);
    if (r.node.use_count() == 1) blocks_used -= node_blocks(r.node.get());
    fire(dir ? RMDIR : UNLINK, p, r.node.get());
    return 0;
}
static bool any_frozen(Node* n)
{
    if (n->frozen) return true;
    for (auto& k : n->kids)
        if (any_frozen(k.second.get())) return true;
    return false;
}
static int do_rename(int d1, const char* p1, int d2, const char* p2)
{
    fs_op("rename", p1);
    Res a = lookup(d1, p1, false), b = lookup(d2, p2, false);
    if (a.escaped || b.escaped) {
        escape("rename", p2);
        return fail(EACCES);
    }
    if (a.err) return fail(a.err);
    if (b.err && !(b.err == ENOENT && b.parent)) return fail(b.err);
    if (b.node && b.node->type == DIR_T && a.node->type != DIR_T) return fail(EISDIR);
    if (b.node && b.node->type != DIR_T && a.node->type == DIR_T) return fail(ENOTDIR);
    if (b.node && b.node->type == DIR_T && !b.node->kids.empty()) return fail(ENOTEMPTY);
    static const int codes[] = { EIO };
    if (int e = fault(F_UNLINK, p1, codes, 1)) return fail(e);
    if (a.node == b.node) return 0;
    std::string from = full(a);
    bool fz = any_frozen(a.node.get());
    if (b.node) {
        b.node->linked = false;
        fire(UNLINK, full(b), b.node.get());
    }
    a.parent->kids.erase(a.name);
    a.node->parent = b.parent.get();
    a.node->name = b.name;
    b.parent->kids[b.name] = a.node;
    Node tmp;
    tmp.frozen = fz;
    fire(RENAME, from, &tmp);
    fire(CREATE, full(b), a.node.get());
    return 0;
}
static ssize_t do_read(int fd, void* buf, size_t n, int64_t off)
{
    Open* o = get_fd(fd);
    if (!o) return fail(EBADF);
    if (o->n->type == DIR_T) return fail(EISDIR);
    fs_op("read", o->path.c_str());
    std::string s = read_range(o->n.get(), off >= 0 ? off : o->pos, n);
    check_range(buf, s.size(), true, "read");
    memcpy(buf, s.data(), s.size());
    if (off < 0) o->pos += s.size();
    return s.size();
}
static int64_t do_lseek(int fd, int64_t off, int wh)
{
    Open* o = get_fd(fd);
    if (!o) return fail(EBADF);
    int64_t base = wh == SEEK_SET ? 0 : wh == SEEK_CUR ? (int64_t)o->pos : (int64_t)o->n->size;
    if (base + off < 0) return fail(EINVAL);
    o->pos = base + off;
    return o->pos;
}
static Dir* do_opendir(int fd)
{
    Open* o = get_fd(fd);
    if (!o || o->n->type != DIR_T) {
        errno = ENOTDIR;
        return nullptr;
    }
    Dir* d = new Dir();
    d->magic = DIR_MAGIC;
    d->fd = fd;
    d->pos = 0;
    d->ents.push_back({ ".", o->n });
    d->ents.push_back({ "..", o->n });
    for (auto& k : o->n->kids) d->ents.push_back(k);
    if (cfg.dir_order == 1) std::reverse(d->ents.begin(), d->ents.end());
    else if (cfg.dir_order > 1) {
        Rng r(cfg.dir_order);
        for (size_t i = d->ents.size(); i > 1; --i) std::swap(d->ents[i - 1], d->ents[r.below(i)]);
    }
    dirs.insert(d);
    return d;
}

// stdio cookies
struct Cookie { int fd; };
static ssize_t ck_write(void* c, const char* b, size_t n)
{
    struct iovec v = { (void*)b, n };
    Guard g;
    no_preempt(1);
    ssize_t r = do_writev(((Cookie*)c)->fd, &v, 1, -1);
    no_preempt(-1);
    return r < 0 ? 0 : r;
}
static ssize_t ck_read(void* c, char* b, size_t n)
{
    Guard g;
    no_preempt(1);
    ssize_t r = do_read(((Cookie*)c)->fd, b, n, -1);
    no_preempt(-1);
    return r;
}
static int ck_seek(void* c, off64_t* o, int wh)
{
    Guard g;
    int64_t r = do_lseek(((Cookie*)c)->fd, *o, wh);
    if (r < 0) return -1;
    *o = r;
    return 0;
}
static int ck_close(void* c)
{
    Guard g;
    no_preempt(1);
    int r = do_close(((Cookie*)c)->fd);
    no_preempt(-1);
    delete (Cookie*)c;
    return r;
}
static FILE* wrap_file(int fd, const char* mode)
{
    cookie_io_functions_t f = { ck_read, ck_write, ck_seek, ck_close };
    Cookie* c = new Cookie{ fd };
    FILE* fp = fopencookie(c, mode, f);
    if (!fp) {
        delete c;
        return nullptr;
    }
    get_fd(fd)->fp = fp;
    return fp;
}
static Open* by_file(FILE* fp, int* fd = nullptr)
{
    for (size_t i = 0; i < fds.size(); ++i)
        if (fds[i].used && fds[i].fp == fp) {
            if (fd) *fd = FD_BASE + (int)i;
            return &fds[i];
        }
    return nullptr;
}
} // namespace simfs
using namespace simfs;

// ====================================================================== interposed libc: files
#define REAL(ret, name, ...)                                                                       \
    static ret (*real_##name)(__VA_ARGS__) = nullptr;                                              \
    if (!real_##name) *(void**)&real_##name = rt::real_sym(#name)
#define SIM in_sut()
// a path of the code under test that leaves the simulated file system
#define OUTSIDE(what, p)                                                                           \
    do {                                                                                           \
        Guard g_;                                                                                  \
        escape(what, p ? p : "(null)");                                                            \
        errno = EACCES;                                                                            \
    } while (0)

void sim_capture_fd(int fd, const char* p, size_t n); // log capture, in harness.cpp

extern "C" {

static int open_impl(int dfd, const char* path, int flags, unsigned mode)
{
    if (sim_path(dfd, path)) {
        Guard g;
        return do_open(dfd, path, flags, mode);
    }
    if ((flags & O_ACCMODE) != O_RDONLY || (flags & (O_CREAT | O_TRUNC))) {
        OUTSIDE("open", path);
        return -1;
    }
    REAL(int, openat, int, const char*, int, ...);
    return real_openat(dfd, path, flags, mode);
}
#define GETMODE                                                                                    \
    unsigned mode = 0;                                                                             \
    if (flags & (O_CREAT | O_TMPFILE)) {                                                           \
        va_list ap;                                                                                \
        va_start(ap, flags);                                                                       \
        mode = va_arg(ap, unsigned);                                                               \
        va_end(ap);                                                                                \
    }
int open(const char* path, int flags, ...)
{
    GETMODE
    if (SIM) return open_impl(AT_FDCWD, path, flags, mode);
    REAL(int, open, const char*, int, ...);
    return real_open(path, flags, mode);
}
int open64(const char* path, int flags, ...)
{
    GETMODE
    if (SIM) return open_impl(AT_FDCWD, path, flags, mode);
    REAL(int, open64, const char*, int, ...);
    return real_open64(path, flags, mode);
}
int openat(int dfd, const char* path, int flags, ...)
{
    GETMODE
    if (SIM) return open_impl(dfd, path, flags, mode);
    REAL(int, openat, int, const char*, int, ...);
    return real_openat(dfd, path, flags, mode);
}
int openat64(int dfd, const char* path, int flags, ...)
{
    GETMODE
    if (SIM) return open_impl(dfd, path, flags, mode);
    REAL(int, openat64, int, const char*, int, ...);
    return real_openat64(dfd, path, flags, mode);
}
int __open_2(const char* path, int flags) { return open(path, flags); }
int __open64_2(const char* path, int flags) { return open(path, flags); }
int __openat_2(int d, const char* path, int flags) { return openat(d, path, flags); }
int creat(const char* path, mode_t m) { return open(path, O_CREAT | O_WRONLY | O_TRUNC, m); }

int close(int fd)
{
    if (sim_fd(fd) && self) {
        Guard g;
        return do_close(fd);
    }
    REAL(int, close, int);
    return real_close(fd);
}
ssize_t read(int fd, void* b, size_t n)
{
    if (sim_fd(fd) && self) {
        Guard g;
        return do_read(fd, b, n, -1);
    }
    REAL(ssize_t, read, int, void*, size_t);
    return real_read(fd, b, n);
}
ssize_t __read_chk(int fd, void* b, size_t n, size_t) { return read(fd, b, n); }
ssize_t pread(int fd, void* b, size_t n, off_t o)
{
    if (sim_fd(fd) && self) {
        Guard g;
        return do_read(fd, b, n, o);
    }
    REAL(ssize_t, pread, int, void*, size_t, off_t);
    return real_pread(fd, b, n, o);
}
ssize_t pread64(int fd, void* b, size_t n, off_t o) { return pread(fd, b, n, o); }
ssize_t write(int fd, const void* b, size_t n)
{
    if (sim_fd(fd) && self) {
        Guard g;
        struct iovec v = { (void*)b, n };
        return do_writev(fd, &v, 1, -1);
    }
    if (SIM && (fd == 1 || fd == 2)) {
        Guard g;
        sim_capture_fd(fd, (const char*)b, n);
        return n;
    }
    REAL(ssize_t, write, int, const void*, size_t);
    return real_write(fd, b, n);
}
ssize_t pwrite(int fd, const void* b, size_t n, off_t o)
{
    if (sim_fd(fd) && self) {
        Guard g;
        struct iovec v = { (void*)b, n };
        if (o < 0) return simfs::fail(EINVAL);
        return do_writev(fd, &v, 1, o);
    }
    REAL(ssize_t, pwrite, int, const void*, size_t, off_t);
    return real_pwrite(fd, b, n, o);
}
ssize_t pwrite64(int fd, const void* b, size_t n, off_t o) { return pwrite(fd, b, n, o); }
ssize_t writev(int fd, const struct iovec* v, int c)
{
    if (sim_fd(fd) && self) {
        Guard g;
        return do_writev(fd, v, c, -1);
    }
    REAL(ssize_t, writev, int, const struct iovec*, int);
    return real_writev(fd, v, c);
}
ssize_t pwritev(int fd, const struct iovec* v, int c, off_t o)
{
    if (sim_fd(fd) && self) {
        Guard g;
        if (o < 0) return simfs::fail(EINVAL);
        return do_writev(fd, v, c, o);
    }
    REAL(ssize_t, pwritev, int, const struct iovec*, int, off_t);
    return real_pwritev(fd, v, c, o);
}
ssize_t pwritev64(int fd, const struct iovec* v, int c, off_t o) { return pwritev(fd, v, c, o); }
ssize_t pwritev2(int fd, const struct iovec* v, int c, off_t o, int) { return o == -1 ? writev(fd, v, c) : pwritev(fd, v, c, o); }
ssize_t readv(int fd, const struct iovec* v, int c)
{
    if (sim_fd(fd) && self) {
        Guard g;
        ssize_t t = 0;
        for (int i = 0; i < c; ++i) {
            ssize_t r = do_read(fd, v[i].iov_base, v[i].iov_len, -1);
            if (r < 0) return t ? t : r;
            t += r;
            if ((size_t)r < v[i].iov_len) break;
        }
        return t;
    }
    REAL(ssize_t, readv, int, const struct iovec*, int);
    return real_readv(fd, v, c);
}
// copying inside the kernel: at most 64 KiB a call, through the same reads and writes
static ssize_t kcopy(int out, off_t* oo, int in, off_t* io, size_t n)
{
    static char buf[65536];
    Guard g;
    if (!n) return 0;
    ssize_t r = do_read(in, buf, n < sizeof buf ? n : sizeof buf, io ? *io : -1);
    if (r <= 0) return r;
    struct iovec v = { buf, (size_t)r };
    ssize_t w = do_writev(out, &v, 1, oo ? *oo : -1);
    ssize_t k = w < 0 ? 0 : w;
    if (io)
        *io += k;
    else if (k < r)
        if (Open* o = get_fd(in)) o->pos -= r - k;
    if (oo) *oo += k;
    return w;
}
ssize_t sendfile(int out, int in, off_t* off, size_t n)
{
    if (sim_fd(out) && sim_fd(in) && self) return kcopy(out, nullptr, in, off, n);
    if (sim_fd(out) || sim_fd(in)) return simfs::fail(EINVAL);
    REAL(ssize_t, sendfile, int, int, off_t*, size_t);
    return real_sendfile(out, in, off, n);
}
ssize_t sendfile64(int out, int in, off_t* off, size_t n) { return sendfile(out, in, off, n); }
ssize_t copy_file_range(int in, off64_t* io, int out, off64_t* oo, size_t n, unsigned fl)
{
    if (sim_fd(out) && sim_fd(in) && self) return fl ? simfs::fail(EINVAL) : kcopy(out, oo, in, io, n);
    if (sim_fd(out) || sim_fd(in)) return simfs::fail(EXDEV);
    REAL(ssize_t, copy_file_range, int, off64_t*, int, off64_t*, size_t, unsigned);
    return real_copy_file_range(in, io, out, oo, n, fl);
}
off_t lseek(int fd, off_t o, int wh)
{
    if (sim_fd(fd) && self) {
        Guard g;
        return do_lseek(fd, o, wh);
    }
    REAL(off_t, lseek, int, off_t, int);
    return real_lseek(fd, o, wh);
}
off_t lseek64(int fd, off_t o, int wh) { return lseek(fd, o, wh); }
int ftruncate(int fd, off_t n)
{
    if (sim_fd(fd) && self) {
        Guard g;
        Open* o = get_fd(fd);
        if (!o) return simfs::fail(EBADF);
        fs_op("ftruncate", o->path.c_str());
        static const int codes[] = { EIO };
        if (int e = fault(F_WRITE, o->path.c_str(), codes, 1)) return simfs::fail(e);
        uint64_t old = o->n->size;
        node_trunc(o->n.get(), n);
        fire((uint64_t)n < old ? TRUNC : WRITE, path_of(o->n.get()), o->n.get());
        return 0;
    }
    REAL(int, ftruncate, int, off_t);
    return real_ftruncate(fd, n);
}
int ftruncate64(int fd, off_t n) { return ftruncate(fd, n); }
int truncate(const char* p, off_t n)
{
    if (SIM) {
        if (!sim_path(AT_FDCWD, p)) {
            OUTSIDE("truncate", p);
            return -1;
        }
        Guard g;
        fs_op("truncate", p);
        Res r = lookup(AT_FDCWD, p, true);
        if (r.err) return simfs::fail(r.err);
        node_trunc(r.node.get(), n);
        fire(TRUNC, full(r), r.node.get());
        return 0;
    }
    REAL(int, truncate, const char*, off_t);
    return real_truncate(p, n);
}
int truncate64(const char* p, off_t n) { return truncate(p, n); }
int fallocate(int fd, int mode, off_t o, off_t n)
{
    if (sim_fd(fd) && self) {
        Guard g;
        Open* f = get_fd(fd);
        if (!f) return simfs::fail(EBADF);
        if (mode == 0 && (uint64_t)(o + n) > f->n->size) {
            node_trunc(f->n.get(), o + n);
            fire(WRITE, path_of(f->n.get()), f->n.get());
        }
        return 0;
    }
    REAL(int, fallocate, int, int, off_t, off_t);
    return real_fallocate(fd, mode, o, n);
}
int posix_fallocate(int fd, off_t o, off_t n)
{
    if (sim_fd(fd) && self) return fallocate(fd, 0, o, n) ? errno : 0;
    REAL(int, posix_fallocate, int, off_t, off_t);
    return real_posix_fallocate(fd, o, n);
}
int fsync(int fd)
{
    if (sim_fd(fd) && self) {
        Guard g;
        fs_op("fsync", "");
        return get_fd(fd) ? 0 : simfs::fail(EBADF);
    }
    REAL(int, fsync, int);
    return real_fsync(fd);
}
int fdatasync(int fd) { return fsync(fd); }
int syncfs(int fd)
{
    if (sim_fd(fd) && self) return fsync(fd);
    REAL(int, syncfs, int);
    return real_syncfs(fd);
}
int sync_file_range(int fd, off64_t o, off64_t n, unsigned fl)
{
    if (sim_fd(fd) && self) return fsync(fd);
    REAL(int, sync_file_range, int, off64_t, off64_t, unsigned);
    return real_sync_file_range(fd, o, n, fl);
}
int posix_fadvise(int fd, off_t o, off_t n, int a)
{
    if (sim_fd(fd)) return 0;
    REAL(int, posix_fadvise, int, off_t, off_t, int);
    return real_posix_fadvise(fd, o, n, a);
}
int posix_fadvise64(int fd, off_t o, off_t n, int a) { return posix_fadvise(fd, o, n, a); }
static int mktmp(char* t, int sfx, int kind, int fl)
{
    int n = (int)strlen(t) - sfx - 6;
    if (n < 0 || strncmp(t + n, "XXXXXX", 6)) return simfs::fail(EINVAL);
    static const char az[] = "abcdefghijklmnopqrstuvwxyz0123456789";
    for (int tries = 0; tries < 100; ++tries) {
        for (int i = 0; i < 6; ++i) t[n + i] = az[rand() % 36];
        int r = kind ? mkdir(t, 0700) : open(t, O_RDWR | O_CREAT | O_EXCL | fl, 0600);
        if (r >= 0 || errno != EEXIST) return r;
    }
    return simfs::fail(EEXIST);
}
int mkostemps(char* t, int sfx, int fl) { return mktmp(t, sfx, 0, fl); }
int mkostemp(char* t, int fl) { return mktmp(t, 0, 0, fl); }
int mkstemps(char* t, int sfx) { return mktmp(t, sfx, 0, 0); }
int mkstemp(char* t) { return mktmp(t, 0, 0, 0); }
int mkstemp64(char* t) { return mktmp(t, 0, 0, 0); }
char* mkdtemp(char* t) { return mktmp(t, 0, 1, 0) ? nullptr : t; }
int fcntl(int fd, int cmd, ...)
{
    va_list ap;
    va_start(ap, cmd);
    long a = va_arg(ap, long);
    va_end(ap);
    if (sim_fd(fd) && self) {
        Guard g;
        Open* o = get_fd(fd);
        if (!o) return simfs::fail(EBADF);
        if (cmd == F_GETFL) return o->flags;
        if (cmd == F_DUPFD || cmd == F_DUPFD_CLOEXEC) {
            auto n = o->n;
            auto fl = o->flags;
            auto p = o->path;
            if ((fl & O_ACCMODE) != O_RDONLY) n->writers++;
            return alloc_fd(n, fl, p);
        }
        return 0;
    }
    REAL(int, fcntl, int, int, ...);
    return real_fcntl(fd, cmd, a);
}
int fcntl64(int fd, int cmd, ...)
{
    va_list ap;
    va_start(ap, cmd);
    long a = va_arg(ap, long);
    va_end(ap);
    return fcntl(fd, cmd, a);
}
int dup(int fd)
{
    if (sim_fd(fd) && self) return fcntl(fd, F_DUPFD, 0L);
    REAL(int, dup, int);
    return real_dup(fd);
}
int flock(int fd, int op)
{
    if (sim_fd(fd)) return 0;
    REAL(int, flock, int, int);
    return real_flock(fd, op);
}
int ioctl(int fd, unsigned long rq, ...)
{
    va_list ap;
    va_start(ap, rq);
    long a = va_arg(ap, long);
    va_end(ap);
    if (sim_fd(fd)) return simfs::fail(ENOTTY);
    REAL(int, ioctl, int, unsigned long, ...);
    return real_ioctl(fd, rq, a);
}

int fstatat(int dfd, const char* p, struct stat* st, int fl)
{
    if (SIM && (fl & AT_EMPTY_PATH) && p && !*p && sim_fd(dfd)) {
        Guard g;
        Open* o = get_fd(dfd);
        if (!o) return simfs::fail(EBADF);
        fill_stat(o->n.get(), st);
        return 0;
    }
    if (SIM && sim_path(dfd, p)) {
        Guard g;
        return do_stat(dfd, p, st, !(fl & AT_SYMLINK_NOFOLLOW));
    }
    REAL(int, fstatat, int, const char*, struct stat*, int);
    return real_fstatat(dfd, p, st, fl);
}
int fstatat64(int dfd, const char* p, struct stat64* st, int fl) { return fstatat(dfd, p, (struct stat*)st, fl); }
int stat(const char* p, struct stat* st)
{
    if (SIM && sim_path(AT_FDCWD, p)) {
        Guard g;
        return do_stat(AT_FDCWD, p, st, true);
    }
    REAL(int, stat, const char*, struct stat*);
    return real_stat(p, st);
}
int stat64(const char* p, struct stat64* st) { return stat(p, (struct stat*)st); }
int lstat(const char* p, struct stat* st)
{
    if (SIM && sim_path(AT_FDCWD, p)) {
        Guard g;
        return do_stat(AT_FDCWD, p, st, false);
    }
    REAL(int, lstat, const char*, struct stat*);
    return real_lstat(p, st);
}
int lstat64(const char* p, struct stat64* st) { return lstat(p, (struct stat*)st); }
int fstat(int fd, struct stat* st)
{
    if (sim_fd(fd) && self) {
        Guard g;
        Open* o = get_fd(fd);
        if (!o) return simfs::fail(EBADF);
        fill_stat(o->n.get(), st);
        return 0;
    }
    REAL(int, fstat, int, struct stat*);
    return real_fstat(fd, st);
}
int fstat64(int fd, struct stat64* st) { return fstat(fd, (struct stat*)st); }
int statx(int dfd, const char* p, int fl, unsigned mask, struct statx* x)
{
    bool e = (fl & AT_EMPTY_PATH) && p && !*p;
    if (SIM && (e ? sim_fd(dfd) : sim_path(dfd, p))) {
        struct stat st;
        if (fstatat(dfd, p, &st, fl & (AT_EMPTY_PATH | AT_SYMLINK_NOFOLLOW))) return -1;
        memset(x, 0, sizeof *x);
        x->stx_mask = STATX_BASIC_STATS;
        x->stx_blksize = st.st_blksize;
        x->stx_nlink = st.st_nlink;
        x->stx_mode = st.st_mode;
        x->stx_ino = st.st_ino;
        x->stx_size = st.st_size;
        x->stx_blocks = st.st_blocks;
        x->stx_mtime.tv_sec = st.st_mtim.tv_sec;
        x->stx_mtime.tv_nsec = st.st_mtim.tv_nsec;
        x->stx_ctime = x->stx_atime = x->stx_mtime;
        return 0;
    }
    REAL(int, statx, int, const char*, int, unsigned, struct statx*);
    return real_statx(dfd, p, fl, mask, x);
}
int faccessat(int dfd, const char* p, int m, int fl)
{
    if (SIM && sim_path(dfd, p)) {
        Guard g;
        struct stat st;
        return do_stat(dfd, p, &st, true);
    }
    REAL(int, faccessat, int, const char*, int, int);
    return real_faccessat(dfd, p, m, fl);
}
int access(const char* p, int m) { return faccessat(AT_FDCWD, p, m, 0); }

int mkdirat(int dfd, const char* p, mode_t m)
{
    if (SIM) {
        if (sim_path(dfd, p)) {
            Guard g;
            return do_mkdir(dfd, p, m);
        }
        OUTSIDE("mkdir", p);
        return -1;
    }
    REAL(int, mkdirat, int, const char*, mode_t);
    return real_mkdirat(dfd, p, m);
}
int mkdir(const char* p, mode_t m) { return mkdirat(AT_FDCWD, p, m); }
int unlinkat(int dfd, const char* p, int fl)
{
    if (SIM) {
        if (sim_path(dfd, p)) {
            Guard g;
            return do_unlink(dfd, p, fl & AT_REMOVEDIR);
        }
        OUTSIDE("unlink", p);
        return -1;
    }
    REAL(int, unlinkat, int, const char*, int);
    return real_unlinkat(dfd, p, fl);
}
int unlink(const char* p) { return unlinkat(AT_FDCWD, p, 0); }
int rmdir(const char* p) { return unlinkat(AT_FDCWD, p, AT_REMOVEDIR); }
int remove(const char* p)
{
    if (unlink(p) == 0) return 0;
    if (errno == EISDIR) return rmdir(p);
    return -1;
}
int renameat(int d1, const char* p1, int d2, const char* p2)
{
    if (SIM) {
        if (sim_path(d1, p1) && sim_path(d2, p2)) {
            Guard g;
            return do_rename(d1, p1, d2, p2);
        }
        OUTSIDE("rename", p2);
        return -1;
    }
    REAL(int, renameat, int, const char*, int, const char*);
    return real_renameat(d1, p1, d2, p2);
}
int rename(const char* a, const char* b) { return renameat(AT_FDCWD, a, AT_FDCWD, b); }
int renameat2(int d1, const char* p1, int d2, const char* p2, unsigned) { return renameat(d1, p1, d2, p2); }
int linkat(int d1, const char* p1, int d2, const char* p2, int fl)
{
    if (SIM) {
        if (!sim_path(d2, p2)) OUTSIDE("link", p2);
        errno = EPERM;
        return -1;
    }
    REAL(int, linkat, int, const char*, int, const char*, int);
    return real_linkat(d1, p1, d2, p2, fl);
}
int link(const char* a, const char* b) { return linkat(AT_FDCWD, a, AT_FDCWD, b, 0); }
int symlink(const char* t, const char* p)
{
    if (SIM) {
        if (!sim_path(AT_FDCWD, p)) {
            OUTSIDE("symlink", p);
            return -1;
        }
        Guard g;
        fs_op("symlink", p);
        Res r = lookup(AT_FDCWD, p, false);
        if (!r.err) return simfs::fail(EEXIST);
        if (!r.parent) return simfs::fail(r.err);
        auto n = mk(LINK_T, 0777);
        n->parent = r.parent.get();
        n->name = r.name;
        n->target = t;
        r.parent->kids[r.name] = n;
        r.node = n;
        fire(SYMLINK, full(r), n.get());
        return 0;
    }
    REAL(int, symlink, const char*, const char*);
    return real_symlink(t, p);
}
ssize_t readlinkat(int dfd, const char* p, char* b, size_t n)
{
    if (SIM && sim_path(dfd, p)) {
        Guard g;
        Res r = lookup(dfd, p, false);
        if (r.err) return simfs::fail(r.err);
        if (r.node->type != LINK_T) return simfs::fail(EINVAL);
        size_t k = std::min(n, r.node->target.size());
        memcpy(b, r.node->target.data(), k);
        return k;
    }
    REAL(ssize_t, readlinkat, int, const char*, char*, size_t);
    return real_readlinkat(dfd, p, b, n);
}
ssize_t readlink(const char* p, char* b, size_t n) { return readlinkat(AT_FDCWD, p, b, n); }
char* realpath(const char* p, char* out)
{
    if (SIM && sim_path(AT_FDCWD, p)) {
        std::string s;
        {
            Guard g;
            Res r = lookup(AT_FDCWD, p, true);
            if (r.err) {
                errno = r.err;
                return nullptr;
            }
            s = path_of(r.node.get());
        }
        char* o = out ? out : (char*)malloc(s.size() + 1);
        memcpy(o, s.c_str(), s.size() + 1);
        return o;
    }
    REAL(char*, realpath, const char*, char*);
    return real_realpath(p, out);
}
int fchmodat(int dfd, const char* p, mode_t m, int fl)
{
    if (SIM) {
        if (!sim_path(dfd, p)) {
            OUTSIDE("chmod", p);
            return -1;
        }
        Guard g;
        Res r = lookup(dfd, p, true);
        if (r.err) return simfs::fail(r.err);
        r.node->mode = m & 07777;
        fire(CHMOD, full(r), r.node.get());
        return 0;
    }
    REAL(int, fchmodat, int, const char*, mode_t, int);
    return real_fchmodat(dfd, p, m, fl);
}
int chmod(const char* p, mode_t m) { return fchmodat(AT_FDCWD, p, m, 0); }
int fchmod(int fd, mode_t m)
{
    if (sim_fd(fd) && self) {
        Guard g;
        if (Open* o = get_fd(fd)) o->n->mode = m & 07777;
        return 0;
    }
    REAL(int, fchmod, int, mode_t);
    return real_fchmod(fd, m);
}
int utimensat(int dfd, const char* p, const struct timespec t[2], int fl)
{
    if (SIM && (p == nullptr ? sim_fd(dfd) : sim_path(dfd, p))) return 0;
    REAL(int, utimensat, int, const char*, const struct timespec*, int);
    return real_utimensat(dfd, p, t, fl);
}
int statvfs(const char* p, struct statvfs* s)
{
    if (SIM && sim_path(AT_FDCWD, p)) {
        memset(s, 0, sizeof *s);
        s->f_bsize = s->f_frsize = 4096;
        s->f_blocks = 1 << 30;
        s->f_bfree = s->f_bavail = cfg.disk_blocks >= 0 ? std::max<int64_t>(0, cfg.disk_blocks - blocks_used) : 1 << 29;
        return 0;
    }
    REAL(int, statvfs, const char*, struct statvfs*);
    return real_statvfs(p, s);
}
int chdir(const char* p)
{
    if (SIM) {
        if (!sim_path(AT_FDCWD, p)) return simfs::fail(EACCES);
        Guard g;
        Res r = lookup(AT_FDCWD, p, true);
        if (r.err) return simfs::fail(r.err);
        cwd = r.node;
        return 0;
    }
    REAL(int, chdir, const char*);
    return real_chdir(p);
}
char* getcwd(char* b, size_t n)
{
    if (SIM) {
        std::string s;
        {
            Guard g;
            s = path_of(cwd.get());
        }
        if (!b) b = (char*)malloc(s.size() + 1);
        else if (s.size() + 1 > n) {
            errno = ERANGE;
            return nullptr;
        }
        memcpy(b, s.c_str(), s.size() + 1);
        return b;
    }
    REAL(char*, getcwd, char*, size_t);
    return real_getcwd(b, n);
}

// directories
DIR* fdopendir(int fd)
{
    if (sim_fd(fd) && self) {
        Guard g;
        return (DIR*)do_opendir(fd);
    }
    REAL(DIR*, fdopendir, int);
    return real_fdopendir(fd);
}
DIR* opendir(const char* p)
{
    if (SIM && sim_path(AT_FDCWD, p)) {
        Guard g;
        int fd = do_open(AT_FDCWD, p, O_RDONLY | O_DIRECTORY, 0);
        if (fd < 0) return nullptr;
        Dir* d = do_opendir(fd);
        if (!d) do_close(fd);
        return (DIR*)d;
    }
    REAL(DIR*, opendir, const char*);
    return real_opendir(p);
}
static Dir* simdir(DIR* d)
{
    if (!self) return nullptr;
    auto it = dirs.find((Dir*)d);
    return it == dirs.end() ? nullptr : *it;
}
struct dirent* readdir(DIR* dp)
{
    Dir* d;
    {
        Guard g;
        d = simdir(dp);
        if (d) {
            static const int codes[] = { EIO };
            if (int e = fault(F_READDIR, nullptr, codes, 1)) {
                errno = e;
                return nullptr;
            }
            if (d->pos >= d->ents.size()) return nullptr;
            auto& e = d->ents[d->pos++];
            memset(&d->de, 0, sizeof d->de);
            d->de.d_ino = e.second->ino;
            d->de.d_type = e.second->type == DIR_T ? DT_DIR : e.second->type == LINK_T ? DT_LNK : DT_REG;
            d->de.d_reclen = sizeof(struct dirent);
            snprintf(d->de.d_name, sizeof d->de.d_name, "%s", e.first.c_str());
            return &d->de;
        }
    }
    REAL(struct dirent*, readdir, DIR*);
    return real_readdir(dp);
}
struct dirent64* readdir64(DIR* d) { return (struct dirent64*)readdir(d); }
int closedir(DIR* dp)
{
    {
        Guard g;
        Dir* d = simdir(dp);
        if (d) {
            int fd = d->fd;
            dirs.erase(d);
            delete d;
            return do_close(fd);
        }
    }
    REAL(int, closedir, DIR*);
    return real_closedir(dp);
}
int dirfd(DIR* dp)
{
    {
        Guard g;
        if (Dir* d = simdir(dp)) return d->fd;
    }
    REAL(int, dirfd, DIR*);
    return real_dirfd(dp);
}
void rewinddir(DIR* dp)
{
    {
        Guard g;
        if (Dir* d = simdir(dp)) {
            d->pos = 0;
            return;
        }
    }
    REAL(void, rewinddir, DIR*);
    real_rewinddir(dp);
}

// stdio
static int mode_flags(const char* m)
{
    int fl = m[0] == 'r' ? O_RDONLY : m[0] == 'w' ? O_WRONLY | O_CREAT | O_TRUNC : O_WRONLY | O_CREAT | O_APPEND;
    if (strchr(m, '+')) fl = (fl & ~O_ACCMODE) | O_RDWR;
    if (strchr(m, 'x')) fl |= O_EXCL;
    return fl;
}
FILE* fopen(const char* p, const char* m)
{
    if (SIM) {
        if (sim_path(AT_FDCWD, p)) {
            Guard g;
            int fd = do_open(AT_FDCWD, p, mode_flags(m), 0666);
            if (fd < 0) return nullptr;
            return wrap_file(fd, m);
        }
        if (mode_flags(m) != O_RDONLY) {
            OUTSIDE("fopen", p);
            return nullptr;
        }
    }
    REAL(FILE*, fopen, const char*, const char*);
    return real_fopen(p, m);
}
FILE* fopen64(const char* p, const char* m) { return fopen(p, m); }
FILE* fdopen(int fd, const char* m)
{
    if (sim_fd(fd) && self) {
        Guard g;
        return wrap_file(fd, m);
    }
    REAL(FILE*, fdopen, int, const char*);
    return real_fdopen(fd, m);
}
int fileno(FILE* fp)
{
    if (self) {
        Guard g;
        int fd;
        if (by_file(fp, &fd)) return fd;
    }
    REAL(int, fileno, FILE*);
    return real_fileno(fp);
}
} // extern "C"
