// Single-threaded build: simulated CPU time. The code under test is compiled with -fsanitize-coverage=trace-pc, so every
// basic block it executes passes here: blocks cost simulated time, bound the run, and are where the process may stall.
#include "core.h"
#include "steps.h"
#include <cstring>
#include <cstdio>
#include <cstdlib>
namespace sim {
static bool g_cpu = false; static u64 g_blk = 0, g_gran = 64; static i64 g_psb = 0, g_psacc = 0; static double g_stallp = 0;
static i64 g_dl = INT64_MAX; static u64 g_dlblk = 0; static bool g_dlhit = false, g_dlown = false;
static u64 g_wblk = 0; static void (*g_wfn)() = nullptr;
static unsigned char g_fill = 0xbe;
void cpu_start(i64 ps_per_block) { g_cpu = true; g_psb = ps_per_block; g_psacc = 0; }
void cpu_stop() { g_cpu = false; }
bool cpu_running() { return g_cpu; }
void cpu_stalls(double p) { g_stallp = p; }
u64 cpu_blocks() { return g_blk; }
void cpu_deadline(i64 t, bool own) { g_dl = t; g_dlown = own; g_dlhit = false; g_dlblk = 0; }
bool cpu_deadline_hit(u64* at) { if (at) *at = g_dlblk; return g_dlhit; }
void cpu_after(u64 blocks, void (*fn)()) { g_wblk = g_blk + blocks; g_wfn = fn; }
void heap_fill(unsigned char c) { g_fill = c; }
void rt_time_moved() { if (__builtin_expect(now_ns() - (g_dlown ? stalled_ns() : 0) >= g_dl && !g_dlhit, 0)) { g_dlhit = true; g_dlblk = g_blk; log("t=%.6f the deadline passes at block %llu", now_ns() / 1e9, (unsigned long long)g_blk); } }
static void slow() {
    g_cpu = false;
    if (g_psb) { g_psacc += g_psb * (i64)g_gran; i64 ns = g_psacc / 1000; g_psacc %= 1000; if (ns) advance_ns(ns); }
    if (g_stallp > 0) {
        static const i64 st[] = {100000, 1000000, 5000000, 60000000, 300000000, 5000000000LL};
        if (u64 v = fault(F_STALL, 6, g_stallp)) { fault_fired(F_STALL); log("t=%.6f the process stalls for %.6f s", now_ns() / 1e9, st[v - 1] / 1e9); stall_ns(st[v - 1]); }
    }
    step(g_gran);
    if (g_wfn && g_blk >= g_wblk) { void (*f)() = g_wfn; g_wfn = nullptr; f(); }
    g_cpu = true;
}
void* rt_alloc(size_t n, size_t al) {
    void* p = nullptr; if (al) { if (posix_memalign(&p, al, n ? n : 1)) return nullptr; } else p = malloc(n ? n : 1);
    if (p && g_cpu && n < (1u << 20)) memset(p, g_fill, n);
    return p;
}
void rt_init() { R->nthreads = 1; }
void rt_fini() { g_cpu = false; mix(R->hash, R->steps); }
static void copy_report(const char* s) {
    if (R->status != ST_RUNNING) return;
    static char line[400]; const char* e = strstr(s, "ERROR: AddressSanitizer"); snprintf(line, sizeof line, "%s", e ? e + 7 : s); if (char* n = strchr(line, '\n')) *n = 0;
    static char pcs[300]; size_t k = 0; pcs[0] = 0; const char* f = s; int cnt = 0;
    while (cnt < 12 && (f = strstr(f, "    #"))) { const char* x = strstr(f, "(/verif"); const char* nl = strchr(f, '\n'); if (!x) x = strstr(f, "/build/"); if (const char* a = strstr(f, " 0x")) { if (x && nl && x < nl && k < 200) { k += (size_t)snprintf(pcs + k, sizeof pcs - k, "%.*s ", 14, a + 1); } } f += 4; cnt++; if (strstr(s, "\n\n") && f > strstr(s, "\n\n")) break; }
    for (char* c = pcs; *c; c++) if (*c == 'x' && c > pcs && c[-1] == '0') { memmove(c - 1, c + 1, strlen(c + 1) + 1); c -= 1; }
    // addresses inside the message are not stable identifiers of a finding: keep the kind only
    char kind[80]; unsigned i = 0; for (const char* c = line; *c && i < 79; c++) { if (!strncmp(c, " on ", 4) || !strncmp(c, " (pc", 4)) break; kind[i++] = *c; } kind[i] = 0;
    violate("memory-error", "%s in phase: %s [pc %s]", kind, R->ph, pcs);
}
}
using namespace sim;
extern "C" {
void __sanitizer_cov_trace_pc() { if (!g_cpu) return; if ((++g_blk & 63) == 0) slow(); }
void __asan_set_error_report_callback(void (*)(const char*)) __attribute__((weak));
const char* __asan_default_options() { return "detect_leaks=0:exitcode=86:handle_segv=0:handle_sigbus=0:handle_abort=0:handle_sigfpe=0:handle_sigill=0:symbolize=0:quarantine_size_mb=2:malloc_context_size=0:fast_unwind_on_fatal=1:allocator_may_return_null=1:detect_stack_use_after_return=0:max_malloc_fill_size=0:allow_user_segv_handler=1:use_sigaltstack=0:intercept_tls_get_addr=0:detect_odr_violation=0:alloc_dealloc_mismatch=0:check_initialization_order=0"; }
}
static struct AsanInit { AsanInit() { if (__asan_set_error_report_callback) __asan_set_error_report_callback(sim::copy_report); } } g_asan_init;
namespace std { [[noreturn]] void __glibcxx_assert_fail(const char* file, int line, const char* func, const char* cond) noexcept; }
void std::__glibcxx_assert_fail(const char* file, int line, const char* func, const char* cond) noexcept {
    const char* b = strrchr(file, '/'); sim::violate("assertion", "libstdc++ assertion '%s' failed in %.160s (%s) in phase: %s", cond, func, b ? b + 1 : file, sim::R->ph);
}
