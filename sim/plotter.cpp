// Simulated plotter process behind popen/pclose, getenv and access; see plotter.h.
#include "core.h"
#include "plotter.h"
#include "disk.h"
#include <cerrno>
#include <csignal>
#include <cstdio>
#include <cstring>
#include <map>
#include <pthread.h>
#include <unistd.h>
namespace sim {
struct PInside { bool a; u32 s; PInside() : a(g_active), s(t_scope) { t_scope = 0; g_active = false; } ~PInside() { g_active = a; t_scope = s; } };
struct Pipe { int session; FILE* fp; };
static std::vector<Session>* g_s; static std::map<FILE*, int>* g_fp; static std::map<std::string, int>* g_bin; static bool g_disp, g_haspath, g_on, g_refused; static std::string* g_path;
void plotter_reset() { if (!g_s) { g_s = new std::vector<Session>; g_fp = new std::map<FILE*, int>; g_bin = new std::map<std::string, int>; g_path = new std::string; } g_s->clear(); g_fp->clear(); g_bin->clear(); g_disp = g_haspath = true; *g_path = "/usr/bin"; g_on = true; g_refused = false; }
void plotter_env(bool d, const char* p) { g_disp = d; g_haspath = p != nullptr; *g_path = p ? p : ""; }
void plotter_install(const std::string& e, int m) { (*g_bin)[e] = m; }
std::vector<Session>& plotter_sessions() { return *g_s; }
bool plotter_refused() { return g_refused; }
void plotter_clear_refused() { g_refused = false; }
static void op(i64 ns) { step(50); advance_ns(ns); }
static std::string squeeze(const std::string& p) { std::string r; for (char c : p) if (c != '/' || r.empty() || r.back() != '/') r += c; return r; }
int plotter_access(const char* p, int m) { PInside in; for (auto& b : *g_bin) if (squeeze(b.first) == squeeze(p)) { if (m == 1 && !b.second) { errno = EACCES; return -1; } return 0; } errno = ENOENT; return -1; }
bool plotter_path(const char* p) { if (!g_active || !g_on || !p) return false; size_t n = strlen(p); return n >= 8 && !strcmp(p + n - 8, "/gnuplot"); }
// the first word of a shell command, as the shell would find it; empty when the shell would do something else with it
static std::string first_word(const std::string& c) {
    std::string w; size_t i = 0; while (i < c.size() && (c[i] == ' ' || c[i] == '\t')) i++; if (c.compare(i, 5, "exec ") == 0) i += 5;
    for (; i < c.size(); i++) {
        if (c[i] == ' ' || c[i] == '\t' || c[i] == '\n') break;
        if (c[i] == '\'') { size_t e = c.find('\'', i + 1); if (e == std::string::npos) return ""; w += c.substr(i + 1, e - i - 1); i = e; continue; }
        if (c[i] == '"') { i++; for (; i < c.size() && c[i] != '"'; i++) { if (c[i] == '$' || c[i] == '`') return ""; if (c[i] == '\\' && i + 1 < c.size() && strchr("\\\"$`", c[i + 1])) i++; w += c[i]; } if (i >= c.size()) return ""; continue; }
        if (c[i] == '\\' && i + 1 < c.size()) { w += c[++i]; continue; }
        if (strchr(";&|<>()$`#*?[]{}!~", c[i])) return "";
        w += c[i];
    }
    return w;
}
// a write to a pipe nobody reads: what the kernel does to the calling thread
static void broken_pipe() {
    struct sigaction sa; sigaction(SIGPIPE, nullptr, &sa); sigset_t m; pthread_sigmask(SIG_BLOCK, nullptr, &m); bool blocked = sigismember(&m, SIGPIPE);
    if (!blocked && sa.sa_handler == SIG_DFL) violate("killed-by-sigpipe", "the plotter is dead: writing to its pipe kills the process with SIGPIPE");
    if (sa.sa_handler != SIG_IGN || blocked) pthread_kill(pthread_self(), SIGPIPE);
}
static void arrived(Session& s, size_t from) {
    for (size_t nl; (nl = s.bytes.find('\n', from)) != std::string::npos; from = nl + 1) {
        size_t b = s.bytes.rfind('\n', nl ? nl - 1 : 0); b = (b == std::string::npos || nl == 0) ? 0 : b + 1; std::string line = s.bytes.substr(b, nl - b);
        for (size_t q = 0; (q = line.find_first_of("\"'", q)) != std::string::npos;) { char c = line[q]; size_t e = line.find(c, q + 1); if (e == std::string::npos) break; std::string name = line.substr(q + 1, e - q - 1); if (!name.compare(0, 13, "/tmp/gnuploti") || !name.compare(0, 8, "plottemp") || !name.compare(0, 7, "output/")) { Seen x; x.file = name; x.there = disk_get(name, &x.bytes); s.seen.push_back(x); } q = e + 1; }
    }
}
static ssize_t p_write(void* c, const char* b, size_t n) {
    size_t id = (size_t)(long)c; op(20000); if (!n) return 0;
    { Session& s = (*g_s)[id]; size_t k = n; int err = 0;
      if (!s.dead && s.dies_after < 0) if (u64 v = fault(F_PIPE, 8, 0.05)) { s.dies_after = (long long)(s.bytes.size() + (v == 1 ? 0 : v == 2 ? n : n * (v - 2) / 7)); }
      if (s.dead) { k = 0; err = EPIPE; }
      else if (s.dies_after >= 0 && (long long)(s.bytes.size() + n) > s.dies_after) { k = (long long)s.bytes.size() >= s.dies_after ? 0 : (size_t)(s.dies_after - (long long)s.bytes.size()); s.dead = true; fault_fired(F_PIPE); err = EPIPE; log("t=%.6f the plotter of session %zu dies: %zu of %zu bytes taken", now_ns() / 1e9, id, k, n); }
      else if (u64 v = fault(F_EINTR, 4, 0.04)) { k = v == 1 ? 0 : n * (v - 1) / 4; fault_fired(F_EINTR); err = EINTR; log("t=%.6f the write to session %zu is interrupted after %zu of %zu bytes", now_ns() / 1e9, id, k, n); }
      if (k) { PInside in; size_t from = s.bytes.size(); s.bytes.append(b, k); arrived(s, from); }
      mix(R->hash, 0xF1B0000ull + k);
      if (!err) return (ssize_t)n;
      s.told = true; if (err == EPIPE) broken_pipe(); errno = err; return 0; }
}
static int p_close(void*) { return 0; }
}
using namespace sim;
extern char** environ;
extern "C" {
char* getenv(const char* n) noexcept {
    if (g_active && g_on && n) { if (!strcmp(n, "DISPLAY")) return g_disp ? (char*)":0" : nullptr; if (!strcmp(n, "PATH")) return g_haspath ? (char*)g_path->c_str() : nullptr; }
    if (!environ || !n) return nullptr; size_t l = strlen(n); for (char** e = environ; *e; e++) if (!strncmp(*e, n, l) && (*e)[l] == '=') return *e + l + 1; return nullptr;
}
FILE* popen(const char* c, const char* m) {
    if (!g_active || !g_on) { static auto r = (FILE * (*)(const char*, const char*)) real_sym("popen"); return r(c, m); }
    op(800000); static const int errs[] = {EAGAIN, EMFILE, ENOMEM}; u64 v = fault(F_SPAWN, 4, 0.12);
    if (v && v < 4) { fault_fired(F_SPAWN); g_refused = true; log("t=%.6f popen fails: %s", now_ns() / 1e9, strerror(errs[v - 1])); errno = errs[v - 1]; return nullptr; }
    PInside in; Session s; s.command = c; s.program = first_word(c); if (m[0] != 'w') s.dies_after = 0; if (v == 4) { s.dies_after = 0; { g_active = in.a; fault_fired(F_SPAWN); log("t=%.6f the plotter cannot be executed any more", now_ns() / 1e9); g_active = false; } }
    g_s->push_back(s); long id = (long)g_s->size() - 1; cookie_io_functions_t io = {nullptr, p_write, nullptr, p_close}; FILE* f = fopencookie((void*)id, "w", io); (*g_fp)[f] = (int)id; return f;
}
int pclose(FILE* f) {
    if (!g_active || !g_on) { static auto r = (int (*)(FILE*))real_sym("pclose"); return r(f); }
    if (!f) violate("close", "pclose of a stream that was never opened"); auto it = g_fp->find(f); if (it == g_fp->end()) violate("close", "pclose of a stream that is not an open session");
    int id = it->second; op(300000); int fr = fclose(f); { PInside in; g_fp->erase(it); } Session& s = (*g_s)[(size_t)id]; s.open = false; s.closes++;
    if (fault(F_CLOSE_CHILD, 1, 0.15)) { fault_fired(F_CLOSE_CHILD); log("t=%.6f pclose of session %d fails: no child", now_ns() / 1e9, id); errno = ECHILD; return -1; }
    if (fr) return -1; return s.dead ? 127 << 8 : 0;
}
}
