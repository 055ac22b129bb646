// Simulated disk behind fopen/open/read/write/writev/lseek/close; see disk.h.
#include "core.h"
#include "disk.h"
#include <cerrno>
#include <cstdio>
#include <cstring>
#include <map>
#include <set>
#include <dirent.h>
#include <fcntl.h>
#include <sys/stat.h>
#include <sys/uio.h>
#include <unistd.h>
#include <dlfcn.h>
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
namespace sim {
struct File { std::string bytes, alt; bool has_alt = false; };
struct Handle { File* f = nullptr; size_t pos = 0; bool open = false, rd = false, wr = false, app = false; int stream = -1; std::string path; FILE* fp = nullptr; bool dir = false; };
static std::map<std::string, File*>* g_files; static std::vector<Handle>* g_h; static std::vector<Stream>* g_str; static long long g_cap = -1; static unsigned g_werr, g_ops; static bool g_crash; static u64 g_tmp;
static bool g_cwd; static std::set<std::string>*g_dirs, *g_foreign, *g_shared; static std::set<void*>* g_dirp; static u64 g_listings;
static const int BASE = 1 << 20;
static void init() { if (!g_files) { g_files = new std::map<std::string, File*>; g_h = new std::vector<Handle>; g_str = new std::vector<Stream>; g_dirs = new std::set<std::string>; g_foreign = new std::set<std::string>; g_shared = new std::set<std::string>; g_dirp = new std::set<void*>; } }
void disk_reset() { init(); g_files->clear(); g_h->clear(); g_str->clear(); g_cap = -1; g_werr = g_ops = 0; g_crash = false; g_tmp = 0; g_cwd = false; g_dirs->clear(); g_foreign->clear(); g_shared->clear(); g_listings = 0; }
void disk_put(const std::string& p, const std::string& b) { init(); auto*& f = (*g_files)[p]; if (!f) f = new File; f->bytes = b; f->has_alt = false; }
bool disk_get(const std::string& p, std::string* b) { init(); auto it = g_files->find(p); if (it == g_files->end()) return false; if (b) *b = it->second->bytes; return true; }
void disk_alternative(const std::string& p, const std::string& b) { init(); auto it = g_files->find(p); if (it != g_files->end()) { it->second->alt = b; it->second->has_alt = true; } }
void disk_capacity(long long n) { g_cap = n; }
std::vector<Stream>& disk_streams() { init(); return *g_str; }
unsigned disk_write_errors() { return g_werr; }
unsigned disk_open_handles() { unsigned n = 0; init(); for (auto& h : *g_h) n += h.open; return n; }
unsigned disk_ops() { return g_ops; }
bool disk_crashed() { return g_crash; }
static bool mine(const char* p) { return g_active && p && (!strncmp(p, "/sim/", 5) || !strncmp(p, "/tmp/gnuploti", 13) || (g_cwd && *p && *p != '/')); }
__attribute__((weak)) bool plotter_path(const char*) { return false; }
__attribute__((weak)) int plotter_access(const char*, int) { return -1; }
static Handle* of(int fd) { if (fd < BASE || !g_h || (size_t)(fd - BASE) >= g_h->size()) return nullptr; return &(*g_h)[(size_t)(fd - BASE)]; }
// the runtime's own bookkeeping is not the code under test: no simulated time, no allocation faults, no coverage
struct Inside { bool a; u32 s; Inside() : a(g_active), s(t_scope) { t_scope = 0; g_active = false; } ~Inside() { g_active = a; t_scope = s; } };
static void op() { g_ops++; step(50); advance_ns(50000); }
static void new_stream(Handle* h) { if (!h->rd) return; Inside in; g_str->push_back(Stream{h->path, "", false, false, true}); h->stream = (int)g_str->size() - 1; }
static std::string norm(const std::string& p) { std::string r; for (size_t i = 0; i < p.size(); i++) { if (p[i] == '/' && !r.empty() && r.back() == '/') continue; r += p[i]; } while (r.compare(0, 2, "./") == 0) r.erase(0, 2); while (r.size() > 1 && r.back() == '/') r.pop_back(); return r; }
static std::string parent(const std::string& k) { size_t s = k.rfind('/'); return s == std::string::npos ? "" : k.substr(0, s); }
static bool shared(const std::string& k) { for (auto& d : *g_shared) if (k == d || !k.compare(0, d.size() + 1, d + "/")) return true; return false; }
static int parent_error(const std::string& p, const std::string& k) { if (!g_cwd || p[0] == '/') return 0; for (size_t s = k.find('/'); s != std::string::npos; s = k.find('/', s + 1)) { std::string up = k.substr(0, s); if (g_files->count(up)) return ENOTDIR; if (!g_dirs->count(up)) return ENOENT; } if (p.size() > 1 && p.back() == '/' && g_files->count(k)) return ENOTDIR; return 0; }
void disk_cwd(bool on) { init(); g_cwd = on; }
void disk_foreign(const std::string& p, const std::string& b) { init(); std::string k = norm(p); g_foreign->insert(k); if (!p.empty() && p.back() == '/') g_dirs->insert(k); else { disk_put(k, b); } }
void disk_shared(const std::string& d) { init(); g_shared->insert(norm(d)); }
bool disk_is_dir(const std::string& p) { init(); return g_dirs->count(norm(p)); }
std::vector<std::string> disk_list(bool foreign) { init(); std::vector<std::string> r; for (auto& d : *g_dirs) if (g_foreign->count(d) == foreign) r.push_back(d + "/"); for (auto& f : *g_files) if (f.first[0] != '/' && g_foreign->count(f.first) == foreign) r.push_back(f.first); return r; }
static int s_open(const char* path, bool rd, bool wr, bool creat, bool trunc, bool app, bool excl = false) {
    op(); init(); static const int errs[] = {EACCES, EMFILE, EIO, EINTR};
    if (u64 v = fault(F_OPEN, 4, 0.12)) { fault_fired(F_OPEN); log("t=%.6f open %s fails: %s", now_ns() / 1e9, path, strerror(errs[v - 1])); if (wr) g_werr++; errno = errs[v - 1]; return -1; }
    Inside in; std::string key = norm(path); if (int e = parent_error(path, key)) { errno = e; return -1; } if (g_cwd && g_dirs->count(key)) { errno = EISDIR; return -1; }
    if (wr && path[0] != '/') { std::string up = parent(key); bool fr = g_foreign->count(key), fp = !up.empty() && g_foreign->count(up) && !shared(up); if (fr || (fp && creat)) { g_active = in.a; violate("foreign", "%s %s, which belongs to somebody else", fr ? "overwrites" : "puts a file into", fr ? key.c_str() : up.c_str()); } }
    path = key.c_str(); auto it = g_files->find(path); if (it == g_files->end()) { if (!creat) { errno = ENOENT; return -1; } it = g_files->emplace(path, new File).first; } else if (excl) { errno = EEXIST; return -1; } else if (trunc) it->second->bytes.clear();
    g_h->push_back(Handle{}); Handle* h = &g_h->back(); h->f = it->second; h->open = true; h->rd = rd; h->wr = wr; h->app = app; h->path = key; int fd = BASE + (int)g_h->size() - 1; new_stream(h); return fd;
}
static ssize_t s_read(int fd, char* b, size_t n) {
    Handle* h = of(fd); if (!h || !h->open || !h->rd || h->dir) { errno = h && h->dir ? EISDIR : EBADF; return -1; } op();
    if (fault(F_EINTR, 1, 0.08)) { fault_fired(F_EINTR); log("t=%.6f read of %s is interrupted", now_ns() / 1e9, h->path.c_str()); errno = EINTR; return -1; }
    if (u64 v = fault(F_READ_ERR, 2, 0.1)) { fault_fired(F_READ_ERR); (*g_str)[(size_t)h->stream].failed = true; log("t=%.6f read of %s at %zu fails", now_ns() / 1e9, h->path.c_str(), h->pos); errno = v == 1 ? EIO : ESTALE; return -1; }
    if (h->f->has_alt) if (fault(F_SWAP, 1, 0.3)) { fault_fired(F_SWAP); Inside in; h->f->bytes = h->f->alt; h->f->has_alt = false; g_active = in.a; log("t=%.6f somebody rewrites %s (now %zu bytes)", now_ns() / 1e9, h->path.c_str(), h->f->bytes.size()); g_active = false; }
    if (h->f->bytes.size() > 1) if (u64 v = fault(F_TRUNC, 64, 0.06)) { fault_fired(F_TRUNC); Inside in; h->f->bytes.resize(h->f->bytes.size() * (v - 1) / 64); g_active = in.a; log("t=%.6f somebody truncates %s to %zu bytes", now_ns() / 1e9, h->path.c_str(), h->f->bytes.size()); g_active = false; }
    size_t av = h->pos < h->f->bytes.size() ? h->f->bytes.size() - h->pos : 0, k = n < av ? n : av;
    if (k > 1) if (u64 v = fault(F_READ_SHORT, 16, 0.35)) { size_t m = v <= 8 ? (size_t)v : k * (size_t)(v - 8) / 9; if (m < 1) m = 1; if (m < k) { k = m; fault_fired(F_READ_SHORT); } }
    if (k) memcpy(b, h->f->bytes.data() + h->pos, k); { Inside in; Stream& s = (*g_str)[(size_t)h->stream]; s.bytes.append(b, k); if (n && !k) s.eof = true; } h->pos += k; mix(R->hash, 0xD15C0000ull + k); return (ssize_t)k;
}
static ssize_t s_write(int fd, const char* b, size_t n) {
    Handle* h = of(fd); if (!h || !h->open || !h->wr) { errno = EBADF; return -1; } op(); if (!n) return 0;
    if (g_crash) return (ssize_t)n;
    if (fault(F_EINTR, 1, 0.08)) { fault_fired(F_EINTR); log("t=%.6f write to %s is interrupted", now_ns() / 1e9, h->path.c_str()); errno = EINTR; return -1; }
    if (u64 v = fault(F_WRITE_ERR, 2, 0.1)) { fault_fired(F_WRITE_ERR); g_werr++; log("t=%.6f write to %s fails", now_ns() / 1e9, h->path.c_str()); errno = v == 1 ? EIO : EDQUOT; return -1; }
    if (g_cap < 0) if (u64 v = fault(F_WRITE_FULL, 16, 0.1)) { fault_fired(F_WRITE_FULL); g_cap = (long long)(h->f->bytes.size() + n * (v - 1) / 16); log("t=%.6f the disk fills up at %lld bytes of %s", now_ns() / 1e9, g_cap, h->path.c_str()); }
    if (h->app) h->pos = h->f->bytes.size(); size_t k = n;
    if (g_cap >= 0 && (long long)(h->pos + k) > g_cap) { if ((long long)h->pos >= g_cap) { g_werr++; log("t=%.6f write to %s: no space left", now_ns() / 1e9, h->path.c_str()); errno = ENOSPC; return -1; } k = (size_t)(g_cap - (long long)h->pos); }
    if (k > 1) if (u64 v = fault(F_WRITE_SHORT, 16, 0.3)) { size_t m = v <= 8 ? (size_t)v : k * (size_t)(v - 8) / 9; if (m < 1) m = 1; if (m < k) { k = m; fault_fired(F_WRITE_SHORT); } }
    u64 crash = fault(F_CRASH, 64, 0.15); size_t keep = k; if (crash) { keep = k * (size_t)(crash - 1) / 64; g_crash = true; fault_fired(F_CRASH); log("t=%.6f crash: only %zu of the %zu bytes being written to %s survive", now_ns() / 1e9, keep, k, h->path.c_str()); }
    { Inside in; if (h->f->bytes.size() < h->pos) h->f->bytes.resize(h->pos, '\0'); h->f->bytes.replace(h->pos, keep, b, keep); } h->pos += k; mix(R->hash, 0xD15D0000ull + k); return (ssize_t)k;
}
static off_t s_seek(int fd, off_t o, int wh) { Handle* h = of(fd); if (!h || !h->open) { errno = EBADF; return -1; } op(); long long p = wh == SEEK_SET ? o : wh == SEEK_CUR ? (long long)h->pos + o : (long long)h->f->bytes.size() + o; if (p < 0) { errno = EINVAL; return -1; } if ((size_t)p != h->pos || (*g_str).size() == 0 || (h->rd && wh == SEEK_SET && p == 0)) { h->pos = (size_t)p; if (p == 0) new_stream(h); else if (h->stream >= 0 && wh != SEEK_CUR) new_stream(h); } return (off_t)p; }
static int s_close(int fd) {
    Handle* h = of(fd); if (!h || !h->open) { errno = EBADF; return -1; } op(); h->open = false;
    if (h->wr && !g_crash) if (u64 v = fault(F_CLOSE_ERR, 2, 0.08)) { fault_fired(F_CLOSE_ERR); g_werr++; Inside in; if (v == 2 && !h->f->bytes.empty()) h->f->bytes.resize(h->f->bytes.size() / 2); g_active = in.a; log("t=%.6f closing %s fails", now_ns() / 1e9, h->path.c_str()); g_active = false; errno = v == 1 ? EIO : ENOSPC; return -1; }
    return 0;
}
static ssize_t c_read(void* c, char* b, size_t n) { return s_read((int)(long)c, b, n); }
static ssize_t c_write(void* c, const char* b, size_t n) { ssize_t r = s_write((int)(long)c, b, n); return r < 0 ? 0 : r; }
static int c_seek(void* c, off64_t* o, int wh) { off_t r = s_seek((int)(long)c, *o, wh); if (r < 0) return -1; *o = r; return 0; }
static int c_close(void* c) { int fd = (int)(long)c; Handle* h = of(fd); if (h) h->fp = nullptr; return s_close(fd); }
template <class F> static F real(const char* n) { return (F)real_sym(n); }
#define REAL(name) static auto r_##name = real<decltype(&::name)>(#name)
}
using namespace sim;
extern "C" {
FILE* fopen(const char* p, const char* m) {
    if (!mine(p)) { REAL(fopen); return r_fopen(p, m); }
    bool plus = strchr(m, '+'), r = m[0] == 'r', w = m[0] == 'w', a = m[0] == 'a'; int fd = s_open(p, r || plus, w || a || plus, w || a, w, a, strchr(m, 'x')); if (fd < 0) return nullptr;
    int e = errno; Inside in; cookie_io_functions_t io = {c_read, c_write, c_seek, c_close}; FILE* f = fopencookie((void*)(long)fd, m, io); of(fd)->fp = f; errno = e; return f;
}
FILE* fopen64(const char* p, const char* m) { return fopen(p, m); }
int fileno(FILE* f) noexcept { if (g_h) for (size_t i = 0; i < g_h->size(); i++) if ((*g_h)[i].fp == f && f && (*g_h)[i].open) return BASE + (int)i; REAL(fileno); return r_fileno(f); }
int open(const char* p, int fl, ...) { va_list ap; va_start(ap, fl); int mode = (fl & (O_CREAT | O_TMPFILE)) ? va_arg(ap, int) : 0; va_end(ap); if (!mine(p)) { static auto r = (int (*)(const char*, int, ...))real_sym("open"); return r(p, fl, mode); } int acc = fl & O_ACCMODE; return s_open(p, acc != O_WRONLY, acc != O_RDONLY, fl & O_CREAT, fl & O_TRUNC, fl & O_APPEND, fl & O_EXCL); }
int open64(const char* p, int fl, ...) { va_list ap; va_start(ap, fl); int mode = (fl & (O_CREAT | O_TMPFILE)) ? va_arg(ap, int) : 0; va_end(ap); return open(p, fl, mode); }
ssize_t read(int fd, void* b, size_t n) { if (of(fd)) return s_read(fd, (char*)b, n); REAL(read); return r_read(fd, b, n); }
ssize_t write(int fd, const void* b, size_t n) { if (of(fd)) return s_write(fd, (const char*)b, n); REAL(write); return r_write(fd, b, n); }
ssize_t writev(int fd, const struct iovec* v, int n) { if (!of(fd)) { REAL(writev); return r_writev(fd, v, n); } std::string s; { Inside in; for (int i = 0; i < n; i++) s.append((const char*)v[i].iov_base, v[i].iov_len); } ssize_t r = s_write(fd, s.data(), s.size()); { Inside in; std::string().swap(s); } return r; }
off_t lseek(int fd, off_t o, int w) noexcept { if (of(fd)) return s_seek(fd, o, w); REAL(lseek); return r_lseek(fd, o, w); }
off64_t lseek64(int fd, off64_t o, int w) noexcept { return lseek(fd, o, w); }
int close(int fd) { if (of(fd)) return s_close(fd); REAL(close); return r_close(fd); }
int fsync(int fd) { if (of(fd)) { op(); return 0; } REAL(fsync); return r_fsync(fd); }
int fstat(int fd, struct stat* st) noexcept { if (Handle* h = of(fd)) { memset(st, 0, sizeof *st); if (h->dir) { st->st_mode = S_IFDIR | 0755; return 0; } st->st_mode = S_IFREG | 0644; st->st_size = (off_t)h->f->bytes.size(); return 0; } static auto r = (int (*)(int, struct stat*))real_sym("fstat"); return r(fd, st); }
int mkdir(const char* p, mode_t m) noexcept {
    if (!mine(p)) { REAL(mkdir); return r_mkdir(p, m); } op(); static const int errs[] = {EACCES, ENOSPC, EIO, EROFS}; std::string k; { Inside in; k = norm(p); }
    if (u64 v = fault(F_MKDIR, 4, 0.1)) { fault_fired(F_MKDIR); g_werr++; log("t=%.6f mkdir %s fails: %s", now_ns() / 1e9, p, strerror(errs[v - 1])); errno = errs[v - 1]; return -1; }
    { Inside in; if (int e = parent_error(p, k)) { errno = e == ENOTDIR && g_files->count(k) ? EEXIST : e; return -1; } if (g_dirs->count(k) || g_files->count(k)) { errno = EEXIST; return -1; } }
    if (u64 v = fault(F_FOREIGN, 3, 0.15)) { fault_fired(F_FOREIGN); log("t=%.6f another process creates %s just before", now_ns() / 1e9, k.c_str()); Inside in; if (v == 3) disk_foreign(k, "theirs\n"); else { disk_foreign(k + "/", ""); if (v == 2) disk_foreign(k + "/theirs.plt", "1 2 3\n"); } errno = EEXIST; return -1; }
    Inside in; g_dirs->insert(k); return 0;
}
static int s_stat(const char* p, struct stat* st) {
    op(); if (u64 v = fault(F_STAT, 2, 0.04)) { fault_fired(F_STAT); log("t=%.6f stat %s fails", now_ns() / 1e9, p); errno = v == 1 ? EACCES : EIO; return -1; }
    Inside in; std::string k = norm(p); memset(st, 0, sizeof *st); if (g_cwd && *p != '/') { if (int e = parent_error(p, k)) { errno = e; return -1; } if (k == "." || g_dirs->count(k)) { st->st_mode = S_IFDIR | 0755; st->st_nlink = 2; return 0; } } auto it = g_files->find(k); if (it == g_files->end()) { errno = ENOENT; return -1; } st->st_mode = S_IFREG | 0644; st->st_nlink = 1; st->st_size = (off_t)it->second->bytes.size(); return 0;
}
int stat(const char* p, struct stat* st) noexcept { if (!mine(p)) { static auto r = (int (*)(const char*, struct stat*))real_sym("stat"); return r(p, st); } return s_stat(p, st); }
int lstat(const char* p, struct stat* st) noexcept { if (!mine(p)) { static auto r = (int (*)(const char*, struct stat*))real_sym("lstat"); return r(p, st); } return s_stat(p, st); }
static bool joined(int dfd, const char* p, std::string* out) { Handle* h = dfd == AT_FDCWD ? nullptr : of(dfd); if (dfd == AT_FDCWD) { if (!mine(p)) return false; *out = p; return true; } if (!h) return false; Inside in; *out = *p == '/' ? p : h->path + "/" + p; return true; }
int fstatat(int dfd, const char* p, struct stat* st, int fl) noexcept { std::string s; if (!joined(dfd, p, &s)) { static auto r = (int (*)(int, const char*, struct stat*, int))real_sym("fstatat"); return r(dfd, p, st, fl); } return s_stat(s.c_str(), st); }
// what is about to disappear or to be renamed must not be somebody else's
static void ours(const std::string& k, const char* how) { if (g_foreign->count(k)) violate("foreign", "%s %s, which belongs to somebody else", how, k.c_str()); }
static void name_free(const std::string& k) { if (k.find('/') != std::string::npos) return; if (u64 v = fault(F_FOREIGN, 2, 0.25)) { fault_fired(F_FOREIGN); log("t=%.6f another process creates %s, now that the name is free", now_ns() / 1e9, k.c_str()); Inside in; disk_foreign(k + "/", ""); if (v == 2) disk_foreign(k + "/theirs.plt", "1 2 3\n"); } }
static int s_unlink(const char* p, bool dir) {
    op(); std::string k; { Inside in; k = norm(p); if (int e = parent_error(p, k)) { errno = e; return -1; } }
    if (dir) { Inside in; if (g_files->count(k)) { errno = ENOTDIR; return -1; } if (!g_dirs->count(k)) { errno = ENOENT; return -1; } } else { Inside in; if (g_cwd && g_dirs->count(k)) { errno = EISDIR; return -1; } if (!g_files->count(k)) { errno = ENOENT; return -1; } }
    if (g_cwd && *p != '/') { ours(k, "removes"); static const int errs[] = {EACCES, EBUSY, EIO}; if (u64 v = fault(F_UNLINK, 3, 0.08)) { fault_fired(F_UNLINK); log("t=%.6f removing %s fails: %s", now_ns() / 1e9, k.c_str(), strerror(errs[v - 1])); errno = errs[v - 1]; return -1; } }
    if (dir) { { Inside in; auto it = g_dirs->upper_bound(k); bool full = it != g_dirs->end() && it->compare(0, k.size() + 1, k + "/") == 0; auto f = g_files->lower_bound(k + "/"); if (f != g_files->end() && f->first.compare(0, k.size() + 1, k + "/") == 0) full = true; if (full) { errno = ENOTEMPTY; return -1; } g_dirs->erase(k); } name_free(k); return 0; }
    Inside in; g_files->erase(k); return 0;
}
int rmdir(const char* p) noexcept { if (!mine(p)) { REAL(rmdir); return r_rmdir(p); } return s_unlink(p, true); }
int remove(const char* p) noexcept { if (!mine(p)) { REAL(remove); return r_remove(p); } bool d; { Inside in; d = g_cwd && g_dirs->count(norm(p)); } return s_unlink(p, d); }
int unlink(const char* p) noexcept { if (!mine(p)) { REAL(unlink); return r_unlink(p); } return s_unlink(p, false); }
int unlinkat(int dfd, const char* p, int fl) noexcept { std::string s; if (!joined(dfd, p, &s)) { REAL(unlinkat); return r_unlinkat(dfd, p, fl); } return s_unlink(s.c_str(), fl & AT_REMOVEDIR); }
int rename(const char* a, const char* b) noexcept {
    if (!mine(a) || !mine(b)) { REAL(rename); return r_rename(a, b); } op(); std::string x, y; { Inside in; x = norm(a); y = norm(b); if (int e = parent_error(a, x)) { errno = e; return -1; } if (int e = parent_error(b, y)) { errno = e; return -1; } if (!g_dirs->count(x) && !g_files->count(x)) { errno = ENOENT; return -1; } }
    ours(x, "renames"); static const int errs[] = {EACCES, ENOSPC, EIO}; if (u64 v = fault(F_RENAME, 3, 0.15)) { fault_fired(F_RENAME); log("t=%.6f renaming %s to %s fails: %s", now_ns() / 1e9, a, b, strerror(errs[v - 1])); errno = errs[v - 1]; return -1; }
    bool exists; { Inside in; exists = g_dirs->count(y) || g_files->count(y); } if (!exists) if (fault(F_FOREIGN, 1, 0.1)) { fault_fired(F_FOREIGN); log("t=%.6f another process creates %s just before", now_ns() / 1e9, y.c_str()); Inside in; disk_foreign(y + "/", ""); disk_foreign(y + "/theirs.plt", "1 2 3\n"); }
    { Inside in; bool dx = g_dirs->count(x), dy = g_dirs->count(y), fy = g_files->count(y); if (dx && fy) { errno = ENOTDIR; return -1; } if (!dx && dy) { errno = EISDIR; return -1; } if (dy) { auto f = g_files->lower_bound(y + "/"); if (f != g_files->end() && f->first.compare(0, y.size() + 1, y + "/") == 0) { errno = ENOTEMPTY; return -1; } } }
    if (g_dirs->count(y) || g_files->count(y)) ours(y, "replaces");
    { Inside in; std::string pre = x + "/"; if (g_dirs->erase(x)) { g_dirs->insert(y); std::vector<std::string> mv; for (auto& d : *g_dirs) if (!d.compare(0, pre.size(), pre)) mv.push_back(d); for (auto& d : mv) { g_dirs->erase(d); g_dirs->insert(y + d.substr(x.size())); } mv.clear(); for (auto& f : *g_files) if (!f.first.compare(0, pre.size(), pre)) mv.push_back(f.first); for (auto& f : mv) { (*g_files)[y + f.substr(x.size())] = (*g_files)[f]; g_files->erase(f); } } else { (*g_files)[y] = (*g_files)[x]; g_files->erase(x); } }
    name_free(x); return 0;
}
// directory listings: a snapshot in an order of the file system's choosing
struct SimDir { int fd; std::vector<struct dirent> e; size_t pos = 0; };
static int dir_open(const char* p, int fl) {
    op(); static const int errs[] = {EMFILE, EACCES, EIO}; if (u64 v = fault(F_LIST, 3, 0.08)) { fault_fired(F_LIST); log("t=%.6f opening the folder %s fails: %s", now_ns() / 1e9, p, strerror(errs[v - 1])); errno = errs[v - 1]; return -1; }
    Inside in; std::string k = norm(p); if (int e = parent_error(p, k)) { errno = e; return -1; } if (!g_dirs->count(k)) { errno = g_files->count(k) ? ENOTDIR : ENOENT; return -1; } g_h->push_back(Handle{}); Handle* h = &g_h->back(); h->open = h->rd = h->dir = true; h->path = k; (void)fl; return BASE + (int)g_h->size() - 1;
}
static DIR* dir_stream(int fd) {
    u64 order = fault(F_DIRORDER, 256, 0.6); if (order) fault_fired(F_DIRORDER); Inside in; std::string k = of(fd)->path, pre = k + "/"; auto* d = new SimDir; d->fd = fd; std::vector<std::pair<std::string, bool>> v; v.push_back({".", true}); v.push_back({"..", true});
    for (auto& f : *g_files) if (!f.first.compare(0, pre.size(), pre) && f.first.find('/', pre.size()) == std::string::npos) v.push_back({f.first.substr(pre.size()), false}); for (auto& f : *g_dirs) if (!f.compare(0, pre.size(), pre) && f.find('/', pre.size()) == std::string::npos) v.push_back({f.substr(pre.size()), true});
    u64 x = order * 77; if (order) for (size_t i = v.size() - 1; i > 0; i--) { mix(x, i); std::swap(v[i], v[x % (i + 1)]); } for (auto& n : v) { struct dirent e; memset(&e, 0, sizeof e); e.d_ino = 1 + d->e.size(); e.d_type = order && (order & 1) ? DT_UNKNOWN : n.second ? DT_DIR : DT_REG; snprintf(e.d_name, sizeof e.d_name, "%s", n.first.c_str()); d->e.push_back(e); }
    g_dirp->insert(d); return (DIR*)d;
}
DIR* opendir(const char* p) { if (!p || !mine(p)) { if (g_active && g_cwd && p && !*p) { errno = ENOENT; return nullptr; } REAL(opendir); return r_opendir(p); } int fd = dir_open(p, 0); return fd < 0 ? nullptr : dir_stream(fd); }
DIR* fdopendir(int fd) { Handle* h = of(fd); if (!h) { REAL(fdopendir); return r_fdopendir(fd); } if (!h->open || !h->dir) { errno = ENOTDIR; return nullptr; } return dir_stream(fd); }
struct dirent* readdir(DIR* d) { if (!g_dirp || !g_dirp->count(d)) { REAL(readdir); return r_readdir(d); } op(); auto* s = (SimDir*)d; if (fault(F_LIST, 1, 0.02)) { fault_fired(F_LIST); log("t=%.6f listing %s fails after %zu entries", now_ns() / 1e9, of(s->fd)->path.c_str(), s->pos); errno = EIO; return nullptr; } return s->pos < s->e.size() ? &s->e[s->pos++] : nullptr; }
struct dirent64* readdir64(DIR* d) { if (!g_dirp || !g_dirp->count(d)) { REAL(readdir64); return r_readdir64(d); } return (struct dirent64*)readdir(d); }
int closedir(DIR* d) { if (!d) { errno = EINVAL; return -1; } if (!g_dirp || !g_dirp->count(d)) { REAL(closedir); return r_closedir(d); } op(); Inside in; auto* s = (SimDir*)d; of(s->fd)->open = false; g_dirp->erase(d); delete s; return 0; }
int dirfd(DIR* d) noexcept { if (!g_dirp || !g_dirp->count(d)) { REAL(dirfd); return r_dirfd(d); } return ((SimDir*)d)->fd; }
int openat(int dfd, const char* p, int fl, ...) { va_list ap; va_start(ap, fl); int mode = (fl & (O_CREAT | O_TMPFILE)) ? va_arg(ap, int) : 0; va_end(ap); std::string s; if (!joined(dfd, p, &s)) { static auto r = (int (*)(int, const char*, int, ...))real_sym("openat"); return r(dfd, p, fl, mode); } bool d; { Inside in; d = (fl & O_DIRECTORY) || g_dirs->count(norm(s)); } if (d) return dir_open(s.c_str(), fl); return open(s.c_str(), fl, mode); }
int openat64(int dfd, const char* p, int fl, ...) { va_list ap; va_start(ap, fl); int mode = (fl & (O_CREAT | O_TMPFILE)) ? va_arg(ap, int) : 0; va_end(ap); return openat(dfd, p, fl, mode); }
int __openat_2(int dfd, const char* p, int fl) { return openat(dfd, p, fl, 0); }
int access(const char* p, int m) noexcept { if (plotter_path(p)) return plotter_access(p, m); if (!mine(p)) { REAL(access); return r_access(p, m); } Inside in; if (disk_get(p, nullptr)) return 0; errno = ENOENT; return -1; }
int mkstemp(char* t) {
    size_t n = t ? strlen(t) : 0; if (!mine(t) || n < 6) { REAL(mkstemp); return r_mkstemp(t); } static const int errs[] = {ENOSPC, EACCES, EMFILE};
    if (u64 v = fault(F_TMP, 3, 0.15)) { fault_fired(F_TMP); g_werr++; log("t=%.6f mkstemp fails: %s", now_ns() / 1e9, strerror(errs[v - 1])); errno = errs[v - 1]; return -1; }
    for (;;) { u64 h = 99; mix(h, run_seed()); mix(h, ++g_tmp); for (size_t i = 0; i < 6; i++) { t[n - 6 + i] = "abcdefghijklmnopqrstuvwxyz0123456789"[h % 36]; h /= 36; } Inside in; if (!disk_get(t, nullptr)) break; }
    op(); Inside in; init(); File* f = new File; g_files->emplace(t, f); g_h->push_back(Handle{}); Handle* h = &g_h->back(); h->f = f; h->open = h->rd = h->wr = true; h->path = t; int fd = BASE + (int)g_h->size() - 1; new_stream(h); return fd;
}
int mkstemp64(char* t) { return mkstemp(t); }
}
