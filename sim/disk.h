#pragma once
#include "sim.h"
#include <string>
#include <vector>
// Simulated disk: every path below /sim/ lives here. open/read/write/lseek/close of the code under test (through libstdc++'s
// filebuf or through stdio) arrive one system call at a time, and each may be cut short, interrupted, delayed or fail.
namespace sim {
struct Stream { std::string path, bytes; bool eof = false, failed = false, opened = false; };   // what one pass over a file was shown
void disk_reset();
void disk_put(const std::string& path, const std::string& bytes);
bool disk_get(const std::string& path, std::string* bytes);
void disk_alternative(const std::string& path, const std::string& bytes);   // what the file becomes when F_SWAP strikes
void disk_capacity(long long bytes);      // -1: unlimited; beyond it writes fail with ENOSPC
std::vector<Stream>& disk_streams();
unsigned disk_write_errors();             // errors the writing side was told: open, write, close
unsigned disk_open_handles();
unsigned disk_ops();
// relative paths are simulated as well, with directories; what disk_foreign() puts there belongs to somebody else: touching it is a violation
void disk_cwd(bool on);
void disk_foreign(const std::string& path, const std::string& bytes);   // a path ending in '/' is a directory
void disk_shared(const std::string& dir);                               // a directory (with all below it) anybody may add files to
std::vector<std::string> disk_list(bool foreign);                       // every relative path; directories end in '/'
bool disk_is_dir(const std::string& path);
bool disk_crashed();                      // the machine died at a write: nothing later reached the file
}
