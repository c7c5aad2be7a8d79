// In-memory file system behind the interposed libc file calls.
#pragma once
#include <cstdint>
#include <functional>
#include <map>
#include <memory>
#include <optional>
#include <string>
#include <vector>

namespace simfs {
enum Type { FILE_T, DIR_T, LINK_T };
struct Node
{
    Type type = FILE_T;
    uint64_t ino = 0;
    unsigned mode = 0;
    std::map<std::string, std::shared_ptr<Node>> kids;
    Node* parent = nullptr;
    std::string name;
    std::map<uint64_t, std::string> pages; // 64 KiB pages, missing = zeros
    uint64_t size = 0;
    std::string target;
    bool linked = true;
    bool frozen = false;
    int writers = 0;
    uint64_t writes = 0;
};
enum Op { CREATE, TRUNC, WRITE, UNLINK, RMDIR, MKDIR, RENAME, SYMLINK, CHMOD, ESCAPE };
extern const char* const op_names[];
typedef std::function<void(Op, const std::string&, Node*)> Hook;

void reset();
void set_hook(Hook h);          // after every applied mutation made by the code under test
void mkdirs(const std::string& path);
void put(const std::string& path, const std::string& data);
void link_to(const std::string& path, const std::string& target);
void set_mode(const std::string& path, unsigned mode);
Node* find(const std::string& path); // no symlink following on the last component
bool exists(const std::string& path);
std::optional<std::string> get(const std::string& path);
std::string read_range(Node* n, uint64_t off, uint64_t len);
std::map<std::string, std::string> snapshot(const std::string& prefix); // path -> type-tagged content
int open_count();
std::string open_list();
bool freeze(const std::string& path);
std::string path_of(Node* n);
uint64_t used_blocks();
void close_all(); // what the kernel does when a process dies
} // namespace simfs
