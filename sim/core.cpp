// Run control: choice streams, results, zygote/fork per run, replay, minimisation.
#include "core.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include <algorithm>
#include <map>
#include <set>
#include <new>
#include <exception>
#include <csignal>
#include <cerrno>
#include <dlfcn.h>
#include <ctime>
#include <sched.h>
#include <unistd.h>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/time.h>
#include <sys/resource.h>
#include <sys/syscall.h>
#include <sys/personality.h>
#include <sys/prctl.h>

namespace sim {
const char* const fault_names[F_NKINDS] = {"thread_stall", "alloc_failure", "thread_creation_failure", "spurious_wakeup",
    "oversleep", "clock_stall", "wall_clock_step", "adversarial_entropy", "open_failure", "read_error", "short_read",
    "write_error", "short_write", "disk_full", "close_error", "eintr", "truncated_file", "file_changed_between_passes",
    "crash", "spawn_failure", "broken_pipe", "child_close_failure", "missing_environment", "tmpfile_failure",
    "mkdir_failure", "directory_listing_failure", "removal_failure", "rename_failure", "stat_failure", "another_process_takes_the_name", "directory_order",
    "training_failure"};

Result* R; bool g_active = false, g_replay = false, g_injecting = true; static bool g_verbose = false; static FILE* g_log = nullptr;
u64 g_maxsteps = 20000000; i64 g_maxns = 600LL * 1000000000LL;
static std::vector<Scenario>& scns() { static std::vector<Scenario> v; return v; }
void add_scenario(const char* p, const char* n, void (*f)(), u32 w) { scns().push_back({p, n, f, w}); }

long raw_syscall(long n, long a, long b, long c, long d, long e, long f) {
    long ret; register long r10 __asm__("r10") = d; register long r8 __asm__("r8") = e; register long r9 __asm__("r9") = f;
    __asm__ volatile("syscall" : "=a"(ret) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
    return ret;
}
void* real_sym(const char* n) { void* p = dlsym(RTLD_NEXT, n); if (!p) { if (write(2, n, strlen(n))) {} _exit(97); } return p; }

// ---- PRNG: one xoshiro-like state per stream, all derived from the run seed -----------------
static u64 g_rng[4][2]; static u64 g_seed;
static u64 splitmix(u64& x) { u64 z = (x += 0x9e3779b97f4a7c15ull); z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull; z = (z ^ (z >> 27)) * 0x94d049bb133111ebull; return z ^ (z >> 31); }
static void seed_all(u64 s) { u64 x = s; for (auto& st : g_rng) { st[0] = splitmix(x); st[1] = splitmix(x) | 1; } }
u64 rng(int k) { u64 s1 = g_rng[k][0], s0 = g_rng[k][1]; u64 r = s0 + s1; g_rng[k][0] = s0; s1 ^= s1 << 23; g_rng[k][1] = s1 ^ s0 ^ (s1 >> 18) ^ (s0 >> 5); return r; }
double rngd(int k) { return (double)(rng(k) >> 11) * (1.0 / 9007199254740992.0); }

static Streams g_in; // replay input
static u32 g_scur, g_fidx[F_NKINDS]; static bool g_fon[F_NKINDS];
static std::map<std::pair<u32, u32>, u64>* g_fmap;

u64 run_seed() { return g_seed; }
bool verbose() { return g_verbose; }
void set_limits(u64 s, double t) { g_maxsteps = s; g_maxns = (i64)(t * 1e9); }

u64 wl(u64 n) {
    if (n <= 1) return 0;
    u64 v; u32 i = R->nW;
    if (g_replay) { v = i < g_in.nW ? g_in.W[i] : 0; if (v >= n) v %= n; }
    else v = rng(0) % n;
    if (i < MAXW) { R->W[i] = v; R->nW = i + 1; } else R->overflow = 1;
    return v;
}
bool wl_p(u64 num, u64 den) { u64 v = wl(den); return v >= den - num; }

u64 fault(FaultKind k, u64 nv, double p) {
    if (!g_injecting || !g_fon[k]) return 0;
    u32 i = g_fidx[k]++; u64 v = 0;
    if (g_replay) { auto it = g_fmap->find({(u32)k, i}); if (it != g_fmap->end()) v = 1 + (it->second - 1) % nv; }
    else if (rngd(2) < p) v = 1 + rng(2) % nv;
    if (v) { if (R->nF < MAXF) R->F[R->nF++] = FEnt{(u32)k, i, v}; else R->overflow = 1; mix(R->hash, 0xF0000 + k * 1000003ull + v); }
    return v;
}
void fault_fired(FaultKind k) { R->faults[k]++; }
void enable_fault(FaultKind k, bool on) { g_fon[k] = on; }
bool fault_enabled(FaultKind k) { return g_fon[k] && g_injecting; }
void faults_stop() { g_injecting = false; }

u32 sched_lookup(u64 idx) {
    while (g_scur < g_in.nS && g_in.S[g_scur].idx < idx) g_scur++;
    return (g_scur < g_in.nS && g_in.S[g_scur].idx == idx) ? g_in.S[g_scur].v : 0;
}
void sched_record(u64 idx, u32 v) { if (R->nS < MAXS) R->S[R->nS++] = SEnt{idx, v, 0}; else R->overflow = 1; }

void die(int code) { raw_syscall(SYS_exit_group, code); __builtin_unreachable(); }
void violate(const char* cls, const char* fmt, ...) {
    g_active = false;
    if (R->status == ST_RUNNING) {
        va_list ap; va_start(ap, fmt); vsnprintf(R->msg, sizeof R->msg, fmt, ap); va_end(ap);
        snprintf(R->cls, sizeof R->cls, "%s", cls);
        for (const char* c = R->cls; *c; c++) mix(R->hash, (u64)*c);
        R->simns = now_ns(); R->clockreads = clock_reads();
        R->status = ST_VIOLATION;
        if (g_log) { fprintf(g_log, "VIOLATION %s: %s\n", R->cls, R->msg); fflush(g_log); }
    }
    die(3);
}
void internal_error(const char* fmt, ...) {
    g_active = false; va_list ap; va_start(ap, fmt); vsnprintf(R->msg, sizeof R->msg, fmt, ap); va_end(ap);
    snprintf(R->cls, sizeof R->cls, "internal"); R->status = ST_INTERNAL; die(4);
}
void finish_ok() { R->simns = now_ns(); R->clockreads = clock_reads(); R->status = ST_OK; die(0); }
bool g_calm = false;
// past half the step bound no fault is injected any more and scheduling becomes fair: what is left must finish
void step(u64 n) { R->steps += n; if (__builtin_expect(!g_calm && R->steps > g_maxsteps / 2, 0) && g_active) { g_calm = true; faults_stop(); log("t=%.6f faults stop, scheduling is fair from here on", now_ns() / 1e9); } if (__builtin_expect(R->steps > g_maxsteps, 0) && g_active) violate("no-progress", "still running after %llu steps (%.3f simulated s), phase: %s", (unsigned long long)g_maxsteps, now_ns() / 1e9, R->ph); }
void check_time() {
    if (__builtin_expect(!g_calm && now_ns() > g_maxns / 2, 0) && g_active) { g_calm = true; faults_stop(); log("t=%.6f faults stop, scheduling is fair from here on", now_ns() / 1e9); }
    if (now_ns() > g_maxns && g_active) violate("no-progress", "still running after %.3f simulated s (%llu steps), phase: %s", now_ns() / 1e9, (unsigned long long)R->steps, R->ph);
}
void probe(const char* name, u64 n) {
    for (u32 i = 0; i < R->nprobe; i++) if (!strcmp(R->probes[i].name, name)) { R->probes[i].n += n; return; }
    if (R->nprobe < MAXP) { snprintf(R->probes[R->nprobe].name, 48, "%s", name); R->probes[R->nprobe++].n = n; }
}
void note(u64 x) { mix(R->hash, x); mix(R->obshash, x); }
void note_d(double x) { u64 b; memcpy(&b, &x, 8); if (x == 0) b = 0; if (x != x) b = 0x7ff8; note(b); }
void log(const char* fmt, ...) { if (!g_log) return; bool a = g_active; g_active = false; va_list ap; va_start(ap, fmt); vfprintf(g_log, fmt, ap); va_end(ap); fputc('\n', g_log); g_active = a; }
void phase(const char* w) { snprintf(R->ph, sizeof R->ph, "%s", w); if (g_log) log("-- %s", w); }

static void on_signal(int sig) {
    if (R->status != ST_RUNNING) die(5);
    g_active = false;
    const char* n = sig == SIGSEGV ? "SIGSEGV" : sig == SIGABRT ? "SIGABRT" : sig == SIGFPE ? "SIGFPE" : sig == SIGBUS ? "SIGBUS" : sig == SIGPIPE ? "SIGPIPE" : sig == SIGVTALRM || sig == SIGALRM ? "hang" : "SIGILL";
    if (!strcmp(n, "hang")) violate("hang", "the run made no progress (real CPU limit), phase: %s", R->ph);
    char m[32]; snprintf(m, sizeof m, "crash-%s", n);
    violate(m, "process killed by %s in phase: %s", n, R->ph);
}
static void on_terminate() {
    const char* what = "no exception";
    static char buf[512];
    if (auto e = std::current_exception()) { try { std::rethrow_exception(e); } catch (std::exception& x) { snprintf(buf, sizeof buf, "exception %s", x.what()); what = buf; } catch (...) { what = "unknown exception"; } }
    violate("terminate", "std::terminate called (%s) in phase: %s", what, R->ph);
}

static void child_main(const Scenario& sc, u64 seed, const Streams* in, bool verb, const char* logpath) {
    g_seed = seed; seed_all(seed); g_replay = in != nullptr; g_verbose = verb;
    if (in) { g_in = *in; g_fmap = new std::map<std::pair<u32, u32>, u64>; for (u32 i = 0; i < in->nF; i++) (*g_fmap)[{in->F[i].kind, in->F[i].idx}] = in->F[i].v; }
    if (verb) { g_log = logpath ? fopen(logpath, "w") : stderr; if (g_log) setvbuf(g_log, (char*)malloc(1 << 16), _IOFBF, 1 << 16); }
    static char alt[65536]; stack_t ss{}; ss.ss_sp = alt; ss.ss_size = sizeof alt; sigaltstack(&ss, nullptr);
    struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = on_signal; sa.sa_flags = SA_ONSTACK | SA_NODEFER;
    for (int s : {SIGSEGV, SIGABRT, SIGFPE, SIGBUS, SIGILL, SIGVTALRM, SIGPIPE}) sigaction(s, &sa, nullptr);
    std::set_terminate(on_terminate);
    struct itimerval tv{}; tv.it_value.tv_sec = 40; setitimer(ITIMER_VIRTUAL, &tv, nullptr);
    struct rlimit rl{0, 0}; setrlimit(RLIMIT_CORE, &rl);
    int devnull = open("/dev/null", O_RDWR); if (devnull >= 0) { dup2(devnull, 1); if (!getenv("SIM_STDERR")) dup2(devnull, 2); dup2(devnull, 0); }
    memset(g_fidx, 0, sizeof g_fidx); for (auto& b : g_fon) b = false; g_scur = 0;
    env_reset(); rt_init();
    g_active = true;
    sc.run();
    rt_fini();
    g_active = false;
    if (g_log) fflush(g_log);
    finish_ok();
}

// fork one run; returns the child's verdict in *R
static bool run_one(const Scenario& sc, int scidx, u64 seed, const Streams* in, bool verb = false, const char* lp = nullptr) {
    memset((void*)R, 0, offsetof(Result, W)); R->scenario = scidx;
    fflush(nullptr);
    pid_t p = fork();
    if (p < 0) { perror("fork"); exit(2); }
    if (p == 0) { prctl(PR_SET_PDEATHSIG, SIGKILL); child_main(sc, seed, in, verb, lp); }
    int st; struct timespec t0; clock_gettime(CLOCK_MONOTONIC, &t0);
    // real-time watchdog: only reached if the run neither burns CPU nor finishes
    for (long spin = 0;; spin++) {
        pid_t q = waitpid(p, &st, spin < 50 ? WNOHANG : WNOHANG);
        if (q == p) break;
        if (q < 0 && errno != EINTR) break;
        struct timespec t1; clock_gettime(CLOCK_MONOTONIC, &t1);
        double el = (t1.tv_sec - t0.tv_sec) + (t1.tv_nsec - t0.tv_nsec) * 1e-9;
        if (el > 150) { kill(p, SIGKILL); waitpid(p, &st, 0); snprintf(R->msg, sizeof R->msg, "watchdog"); R->status = ST_INTERNAL; break; }
        if (el > 0.002) { struct timespec d{0, el > 0.1 ? 2000000 : 100000}; nanosleep(&d, nullptr); } else sched_yield();
    }
    if (R->status == ST_RUNNING) {
        R->status = ST_VIOLATION;
        if (WIFSIGNALED(st)) { snprintf(R->cls, 64, "crash-signal-%d", WTERMSIG(st)); snprintf(R->msg, sizeof R->msg, "process killed by signal %d in phase: %s", WTERMSIG(st), R->ph); }
        else if (WEXITSTATUS(st) == 86) { snprintf(R->cls, 64, "memory-error"); snprintf(R->msg, sizeof R->msg, "AddressSanitizer report in phase: %s", R->ph); }
        else { snprintf(R->cls, 64, "exit-%d", WEXITSTATUS(st)); snprintf(R->msg, sizeof R->msg, "process exited with status %d in phase: %s", WEXITSTATUS(st), R->ph); }
        for (const char* c = R->cls; *c; c++) mix(R->hash, (u64)*c);
    }
    return R->status == ST_OK;
}

// ---- replay files ----------------------------------------------------------------------------
struct Case { std::string prop, scen; u64 seed = 0; std::vector<u64> W; std::vector<SEnt> S; std::vector<FEnt> F; std::string cls; u64 hash = 0;
    Streams st() { return Streams{seed, W.data(), (u32)W.size(), S.data(), (u32)S.size(), F.data(), (u32)F.size()}; } };
static Case from_result(const Scenario& s, u64 seed) { Case c; c.prop = s.prop; c.scen = s.name; c.seed = seed; c.W.assign(R->W, R->W + R->nW); c.S.assign(R->S, R->S + R->nS); c.F.assign(R->F, R->F + R->nF); c.cls = R->cls; c.hash = R->hash; return c; }
static void save_case(const Case& c, const char* path, const char* msg, const char* logp) {
    FILE* f = fopen(path, "w"); if (!f) { perror(path); exit(2); }
    fprintf(f, "# deterministic simulation replay; run: ./check --replay <this file>\nproperty %s\nscenario %s\nseed %llu\nclass %s\nhash %016llx\n", c.prop.c_str(), c.scen.c_str(), (unsigned long long)c.seed, c.cls.c_str(), (unsigned long long)c.hash);
    fprintf(f, "message %s\n", msg);
    fprintf(f, "workload %zu", c.W.size()); for (u64 v : c.W) fprintf(f, " %llu", (unsigned long long)v);
    fprintf(f, "\nschedule %zu", c.S.size()); for (auto& e : c.S) fprintf(f, " %llu:%u", (unsigned long long)e.idx, e.v);
    fprintf(f, "\nfaults %zu", c.F.size()); for (auto& e : c.F) fprintf(f, " %s:%u:%llu", fault_names[e.kind], e.idx, (unsigned long long)e.v);
    fprintf(f, "\n");
    if (logp) if (FILE* g = fopen(logp, "r")) { fprintf(f, "# ---- event log of the minimised run ----\n"); char line[4096]; long n = 0; while (fgets(line, sizeof line, g) && n++ < 4000) fprintf(f, "# %s", line); fclose(g); }
    fclose(f);
}
static bool load_case(Case& c, const char* path) {
    FILE* f = fopen(path, "r"); if (!f) return false; char key[64];
    while (fscanf(f, "%63s", key) == 1) {
        if (key[0] == '#' || !strcmp(key, "message")) { int ch; while ((ch = fgetc(f)) != EOF && ch != '\n'); continue; }
        char buf[256]; unsigned long long n;
        if (!strcmp(key, "property")) { if (fscanf(f, "%255s", buf) == 1) c.prop = buf; }
        else if (!strcmp(key, "scenario")) { if (fscanf(f, "%255s", buf) == 1) c.scen = buf; }
        else if (!strcmp(key, "class")) { if (fscanf(f, "%255s", buf) == 1) c.cls = buf; }
        else if (!strcmp(key, "seed")) { if (fscanf(f, "%llu", &n) == 1) c.seed = n; }
        else if (!strcmp(key, "hash")) { if (fscanf(f, "%llx", &n) == 1) c.hash = n; }
        else if (!strcmp(key, "workload")) { if (fscanf(f, "%llu", &n) != 1) return false; for (unsigned long long i = 0; i < n; i++) { unsigned long long v; if (fscanf(f, "%llu", &v) != 1) return false; c.W.push_back(v); } }
        else if (!strcmp(key, "schedule")) { if (fscanf(f, "%llu", &n) != 1) return false; for (unsigned long long i = 0; i < n; i++) { unsigned long long a; unsigned b; if (fscanf(f, " %llu:%u", &a, &b) != 2) return false; c.S.push_back(SEnt{a, b, 0}); } }
        else if (!strcmp(key, "faults")) { if (fscanf(f, "%llu", &n) != 1) return false; for (unsigned long long i = 0; i < n; i++) { unsigned b; unsigned long long v; if (fscanf(f, " %255[^:]:%u:%llu", buf, &b, &v) != 3) return false; u32 k = 0; while (k < F_NKINDS && strcmp(fault_names[k], buf)) k++; if (k == F_NKINDS) return false; c.F.push_back(FEnt{k, b, v}); } }
    }
    fclose(f); return true;
}
static int find_scn(const std::string& p, const std::string& n) { auto& v = scns(); for (size_t i = 0; i < v.size(); i++) if (p == v[i].prop && n == v[i].name) return (int)i; return -1; }

static double real_now() { struct timespec t; raw_syscall(SYS_clock_gettime, CLOCK_MONOTONIC, (long)&t); return t.tv_sec + t.tv_nsec * 1e-9; }

static bool still_fails(Case& c, int si) { Streams s = c.st(); run_one(scns()[si], si, c.seed, &s); return R->status == ST_VIOLATION && c.cls == R->cls; }

template <class V> static void ddmin(Case& c, int si, V Case::*mem, double deadline, long& tests) {
    size_t n = (c.*mem).size(); if (!n) return;
    { Case t = c; (t.*mem).clear(); tests++; if (still_fails(t, si)) { c = t; return; } }
    size_t chunk = (n + 1) / 2;
    while (chunk >= 1) {
        bool any = false;
        for (size_t i = 0; i < (c.*mem).size();) {
            if (real_now() > deadline) return;
            Case t = c; auto& v = t.*mem; v.erase(v.begin() + i, v.begin() + std::min(i + chunk, v.size()));
            tests++;
            if (still_fails(t, si)) { c = t; any = true; } else i += chunk;
        }
        if (chunk == 1 && !any) break;
        if (chunk > 1) chunk /= 2; else if (!any) break;
    }
}
static long minimise(Case& c, int si, double secs) {
    double deadline = real_now() + secs; long tests = 0;
    for (int round = 0; round < 3 && real_now() < deadline; round++) {
        size_t before = c.W.size() + c.S.size() + c.F.size(); u64 sum = 0; for (u64 v : c.W) sum += v;
        ddmin(c, si, &Case::F, deadline, tests);
        ddmin(c, si, &Case::S, deadline, tests);
        // workload: drop the tail, zero chunks, then shrink values
        for (size_t keep : {c.W.size() / 4, c.W.size() / 2, c.W.size() * 3 / 4}) { if (real_now() > deadline) break; Case t = c; if (keep < t.W.size()) { t.W.resize(keep); tests++; if (still_fails(t, si)) c = t; } }
        for (size_t chunk = std::max<size_t>(1, c.W.size() / 2); chunk >= 1; chunk /= 2) {
            for (size_t i = 0; i < c.W.size() && real_now() < deadline; i += chunk) {
                Case t = c; bool nz = false; for (size_t j = i; j < std::min(i + chunk, t.W.size()); j++) { nz |= t.W[j] != 0; t.W[j] = 0; }
                if (!nz) continue; tests++; if (still_fails(t, si)) c = t;
            }
            if (chunk == 1) break;
        }
        for (size_t i = 0; i < c.W.size() && real_now() < deadline; i++) {
            for (int k = 0; k < 4 && c.W[i] > 1; k++) { Case t = c; t.W[i] = k & 1 ? t.W[i] - 1 : t.W[i] / 2; tests++; if (still_fails(t, si)) c = t; else if (k & 1) break; }
        }
        while (!c.W.empty() && c.W.back() == 0) c.W.pop_back();
        u64 sum2 = 0; for (u64 v : c.W) sum2 += v;
        if (c.W.size() + c.S.size() + c.F.size() >= before && sum2 >= sum) break;
    }
    return tests;
}

static void jstr(FILE* f, const char* s) { fputc('"', f); for (; *s; s++) { unsigned char ch = *s; if (ch == '"' || ch == '\\') { fputc('\\', f); fputc(ch, f); } else if (ch < 32 || ch > 126) fprintf(f, "\\u%04x", ch); else fputc(ch, f); } fputc('"', f); }

static u64 mixseed(u64 base, const char* prop, u64 i) { u64 h = base * 0x9e3779b97f4a7c15ull; for (; *prop; prop++) mix(h, (u64)*prop); mix(h, i); mix(h, i ^ 0xabcdef); return h; }

static int real_main(int argc, char** argv) {
    std::map<std::string, std::string> a;
    for (int i = 1; i + 1 < argc; i += 2) a[argv[i]] = argv[i + 1];
    R = (Result*)mmap(nullptr, sizeof(Result), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    auto num = [&](const char* k, u64 d) { return a.count(k) ? strtoull(a[k].c_str(), nullptr, 0) : d; };
    if (a.count("--list")) { for (auto& s : scns()) printf("%s %s\n", s.prop, s.name); return 0; }
    if (a.count("--replay") || a.count("--minimise")) {
        Case c; const char* path = a.count("--replay") ? a["--replay"].c_str() : a["--minimise"].c_str();
        if (!load_case(c, path)) { fprintf(stderr, "cannot read %s\n", path); return 2; }
        int si = find_scn(c.prop, c.scen); if (si < 0) { fprintf(stderr, "unknown scenario %s/%s\n", c.prop.c_str(), c.scen.c_str()); return 2; }
        long tests = 0; u64 orig = c.W.size() + c.S.size() + c.F.size();
        if (a.count("--minimise")) {
            if (!still_fails(c, si)) { fprintf(stderr, "not reproduced: status %d class %s\n", R->status, R->cls); return 4; }
            tests = minimise(c, si, (double)num("--secs", 25));
        }
        std::string logp = std::string(a.count("--out") ? a["--out"] : std::string(path)) + ".log.tmp";
        Streams s = c.st(); run_one(scns()[si], si, c.seed, &s, a.count("--out") > 0 || a.count("--verbose") > 0, a.count("--out") ? logp.c_str() : nullptr);
        int st = R->status; std::string cls = R->cls, msg = R->msg; u64 h = R->hash;
        for (auto& ch : msg) if (ch == '\n') ch = ' ';
        if (a.count("--out")) { c.cls = cls; c.hash = h; save_case(c, a["--out"].c_str(), msg.c_str(), logp.c_str()); unlink(logp.c_str()); }
        printf("{\"status\":%d,\"class\":", st); jstr(stdout, cls.c_str()); printf(",\"msg\":"); jstr(stdout, msg.c_str());
        printf(",\"hash\":\"%016llx\",\"expect_class\":", (unsigned long long)h); jstr(stdout, c.cls.c_str());
        printf(",\"expect_hash\":\"%016llx\",\"tests\":%ld,\"choices_before\":%llu,\"choices_after\":%zu,\"schedule\":%zu,\"faults\":%zu}\n", (unsigned long long)c.hash, tests, (unsigned long long)orig, c.W.size() + c.S.size() + c.F.size(), c.S.size(), c.F.size());
        return 0;
    }
    // batch: --prop P --base SEED --from i --count n --shard j --shards k --out DIR [--hashes 1]
    std::string prop = a["--prop"]; u64 base = num("--base", 1), from = num("--from", 0), count = num("--count", 1), shard = num("--shard", 0), shards = num("--shards", 1);
    double secs = (double)num("--secs", 300); u64 maxv = num("--maxviol", 12); bool hashes = num("--hashes", 0); const std::string only = a.count("--scenario") ? a["--scenario"] : "";
    std::vector<int> mine; for (size_t i = 0; i < scns().size(); i++) if (prop == scns()[i].prop && (only.empty() || only == scns()[i].name)) for (u32 w = 0; w < (only.empty() ? (u32)scns()[i].weight : std::max<u32>(1, (u32)scns()[i].weight)); w++) mine.push_back((int)i);
    if (mine.empty()) { fprintf(stderr, "no scenario for %s\n", prop.c_str()); return 2; }
    u64 runs = 0, steps = 0, sw = 0, nviol = 0, creads = 0, maxthr = 0; double simsec = 0; u64 faults[F_NKINDS] = {0}, frun[F_NKINDS] = {0}; std::map<std::string, u64> probes, per; std::map<std::string, u64> vcls;
    std::vector<u64> hs, obs; std::set<u64> sset, tset, oset; double t0 = real_now(); u64 faulty = 0; bool capped = false; std::vector<std::string> samples; u64 internal = 0; std::string imsg;
    for (u64 i = from + shard; i < from + count; i += shards) {
        if (real_now() - t0 > secs) { capped = true; break; }
        u64 seed = mixseed(base, prop.c_str(), i); u64 pick = seed; int si = mine[splitmix(pick) % mine.size()]; const Scenario& sc = scns()[si];
        run_one(sc, si, seed, nullptr); runs++; steps += R->steps; sw += R->switches; simsec += R->simns / 1e9; creads += R->clockreads; if (R->nthreads > maxthr) maxthr = R->nthreads; per[sc.name]++;
        bool ff = false; for (u32 k = 0; k < F_NKINDS; k++) { faults[k] += R->faults[k]; if (R->faults[k]) { frun[k]++; ff = true; } } faulty += ff;
        for (u32 k = 0; k < R->nprobe; k++) probes[R->probes[k].name] += R->probes[k].n;
        sset.insert(R->schedhash); tset.insert(R->hash); oset.insert(R->obshash);
        if (hashes) printf("H %llu %016llx %d\n", (unsigned long long)i, (unsigned long long)R->hash, R->status);
        if (samples.size() < 3) { char b[512]; std::string fs; for (u32 k = 0; k < R->nF && k < 6; k++) { char t[96]; snprintf(t, sizeof t, " %s#%u=%llu", fault_names[R->F[k].kind], R->F[k].idx, (unsigned long long)R->F[k].v); fs += t; }
            std::string ws; for (u32 k = 0; k < R->nW && k < 12; k++) ws += " " + std::to_string(R->W[k]);
            snprintf(b, sizeof b, "run %llu seed %llu scenario %s: %u threads, %llu steps, %llu context switches, %.6f simulated s, workload choices [%s ...], faults [%s ], trace %016llx", (unsigned long long)i, (unsigned long long)seed, sc.name, R->nthreads, (unsigned long long)R->steps, (unsigned long long)R->switches, R->simns / 1e9, ws.c_str(), fs.c_str(), (unsigned long long)R->hash); samples.push_back(b); }
        if (R->status == ST_INTERNAL) { internal++; imsg = R->msg; continue; }
        if (R->status == ST_VIOLATION) {
            nviol++; std::string key = std::string(R->cls);
            if (vcls[key]++ < 3 && a.count("--out")) {
                Case c = from_result(sc, seed); std::string msg = R->msg; u64 ov = R->overflow;
                for (auto& ch : msg) if (ch == '\n') ch = ' ';
                u64 h1 = R->hash; run_one(sc, si, seed, nullptr); bool same = R->status == ST_VIOLATION && R->hash == h1;
                char p[600]; snprintf(p, sizeof p, "%s/%s-s%llu-%llu.raw", a["--out"].c_str(), prop.c_str(), (unsigned long long)base, (unsigned long long)i);
                save_case(c, p, msg.c_str(), nullptr);
                printf("V %s %d %llu ", p, same ? 1 : 0, (unsigned long long)ov); jstr(stdout, c.cls.c_str()); printf(" "); jstr(stdout, msg.c_str()); printf("\n");
            }
            if (nviol >= maxv) break;
        }
    }
    printf("S {\"runs\":%llu,\"steps\":%llu,\"switches\":%llu,\"sim_s\":%.6f,\"clock_reads\":%llu,\"max_threads\":%llu,\"violations\":%llu,\"faulty_runs\":%llu,\"capped\":%s,\"internal\":%llu,\"imsg\":", (unsigned long long)runs, (unsigned long long)steps, (unsigned long long)sw, simsec, (unsigned long long)creads, (unsigned long long)maxthr, (unsigned long long)nviol, (unsigned long long)faulty, capped ? "true" : "false", (unsigned long long)internal);
    jstr(stdout, imsg.c_str()); printf(",\"wall\":%.3f,\"faults\":{", real_now() - t0);
    bool first = true; for (u32 k = 0; k < F_NKINDS; k++) if (faults[k]) { printf("%s\"%s\":[%llu,%llu]", first ? "" : ",", fault_names[k], (unsigned long long)faults[k], (unsigned long long)frun[k]); first = false; }
    printf("},\"probes\":{"); first = true; for (auto& p : probes) { printf("%s", first ? "" : ","); jstr(stdout, p.first.c_str()); printf(":%llu", (unsigned long long)p.second); first = false; }
    printf("},\"scenarios\":{"); first = true; for (auto& p : per) { printf("%s", first ? "" : ","); jstr(stdout, p.first.c_str()); printf(":%llu", (unsigned long long)p.second); first = false; }
    printf("},\"samples\":["); first = true; for (auto& p : samples) { printf("%s", first ? "" : ","); jstr(stdout, p.c_str()); first = false; }
    printf("]}\n");
    printf("D"); for (u64 x : sset) printf(" %llx", (unsigned long long)x); printf("\nT"); for (u64 x : tset) printf(" %llx", (unsigned long long)x); printf("\nO"); for (u64 x : oset) printf(" %llx", (unsigned long long)x); printf("\n");
    return 0;
}
} // namespace sim

int main(int argc, char** argv) {
    int pers = personality(0xffffffff);
    if (!(pers & ADDR_NO_RANDOMIZE) && !getenv("SIM_NOREEXEC")) { setenv("SIM_NOREEXEC", "1", 1); if (personality(pers | ADDR_NO_RANDOMIZE) != -1) execv("/proc/self/exe", argv); }
    setvbuf(stdout, nullptr, _IOFBF, 1 << 16);
    return sim::real_main(argc, argv);
}
