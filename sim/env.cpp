// Simulated environment common to both builds: clocks, entropy, allocation.
#include "core.h"
#include <cerrno>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <new>
#include <string>
#include <sys/syscall.h>
#include <sys/time.h>
#include <unistd.h>

namespace sim {
static i64 g_now, g_wall, g_step, g_stalled; static u64 g_reads, g_ent; 
__thread u32 t_scope = 0;
static const i64 EPOCH0 = 1700000000LL * 1000000000LL, MONO0 = 5000LL * 1000000000LL;
void env_reset() { g_now = 0; g_wall = 0; g_stalled = 0; g_step = 100; g_reads = 0; g_ent = 0; }
i64 now_ns() { return g_now; }
void rt_time_moved();
void advance_ns(i64 d) { g_now += d; rt_time_moved(); check_time(); }
i64 stalled_ns() { return g_stalled; }
void stall_ns(i64 d) { g_stalled += d; advance_ns(d); }
void set_clock_step(i64 ns) { g_step = ns; }
i64 wall_offset_ns() { return g_wall; }
void step_wall(i64 d) { g_wall += d; }
u64 clock_reads() { return g_reads; }
void rt_set_now(i64 t) { g_now = t; }
FaultScope::FaultScope(u32 m) : saved(t_scope) { t_scope = m; }
FaultScope::~FaultScope() { t_scope = saved; }

__attribute__((weak)) void rt_clock_yield() {}
__attribute__((weak)) void rt_time_moved() {}
__attribute__((weak)) void rt_sleep_until(i64 t) { if (t > g_now) g_now = t; step(1); check_time(); }
__attribute__((weak)) void rt_on_alloc(void*, size_t) {}
__attribute__((weak)) bool rt_on_free(void*) { return false; }
__attribute__((weak)) void* rt_alloc(size_t n, size_t al) { if (al) { void* p = nullptr; return posix_memalign(&p, al, n ? n : 1) ? nullptr : p; } return malloc(n ? n : 1); }

static void tick() {
    g_reads++; step(1); g_now += g_step;
    static const i64 stalls[] = {1000, 500000, 5000000, 60000000, 200000000, 5000000000LL};
    if (u64 v = fault(F_CLOCK_STALL, 6, 0.03)) { g_now += stalls[v - 1]; g_stalled += stalls[v - 1]; fault_fired(F_CLOCK_STALL); log("t=%.6f clock stalls %.6f s", g_now / 1e9, stalls[v - 1] / 1e9); }
    static const i64 steps[] = {-3600LL * 1000000000, -50000000, -1000000, 1000000, 50000000, 3600LL * 1000000000};
    if (u64 v = fault(F_WALL_STEP, 6, 0.03)) { g_wall += steps[v - 1]; fault_fired(F_WALL_STEP); log("t=%.6f wall clock steps %.6f s", g_now / 1e9, steps[v - 1] / 1e9); }
    rt_time_moved(); check_time();
    rt_clock_yield();
}
static i64 read_clock(clockid_t id) { tick(); switch (id) { case CLOCK_REALTIME: case CLOCK_REALTIME_COARSE: return EPOCH0 + g_now + g_wall; case CLOCK_PROCESS_CPUTIME_ID: case CLOCK_THREAD_CPUTIME_ID: return g_now; default: return MONO0 + g_now; } }
i64 rt_abs_to_now(clockid_t id, const struct timespec* ts) { i64 t = ts->tv_sec * 1000000000LL + ts->tv_nsec; if (id == CLOCK_REALTIME) return t - EPOCH0 - g_wall; return t - MONO0; }
}
using namespace sim;
extern "C" {
int clock_gettime(clockid_t id, struct timespec* ts) noexcept { if (!g_active) return (int)raw_syscall(SYS_clock_gettime, id, (long)ts); i64 t = read_clock(id); ts->tv_sec = t / 1000000000LL; ts->tv_nsec = t % 1000000000LL; return 0; }
int gettimeofday(struct timeval* tv, void*) noexcept { struct timespec ts; clock_gettime(CLOCK_REALTIME, &ts); if (tv) { tv->tv_sec = ts.tv_sec; tv->tv_usec = ts.tv_nsec / 1000; } return 0; }
time_t time(time_t* t) noexcept { struct timespec ts; clock_gettime(CLOCK_REALTIME, &ts); if (t) *t = ts.tv_sec; return ts.tv_sec; }
clock_t clock() noexcept { struct timespec ts; clock_gettime(CLOCK_PROCESS_CPUTIME_ID, &ts); return ts.tv_sec * 1000000 + ts.tv_nsec / 1000; }
int timespec_get(struct timespec* ts, int b) noexcept { clock_gettime(CLOCK_REALTIME, ts); return b; }
int nanosleep(const struct timespec* r, struct timespec* m) { if (!g_active) return (int)raw_syscall(SYS_nanosleep, (long)r, (long)m); sim::rt_sleep_until(now_ns() + r->tv_sec * 1000000000LL + r->tv_nsec); return 0; }
int clock_nanosleep(clockid_t id, int fl, const struct timespec* r, struct timespec*) { if (!g_active) return (int)-raw_syscall(SYS_clock_nanosleep, id, fl, (long)r, 0); if (fl & 1) sim::rt_sleep_until(rt_abs_to_now(id, r)); else sim::rt_sleep_until(now_ns() + r->tv_sec * 1000000000LL + r->tv_nsec); return 0; }
int usleep(useconds_t u) { struct timespec t{(time_t)(u / 1000000), (long)(u % 1000000) * 1000}; return nanosleep(&t, nullptr); }
unsigned sleep(unsigned s) { struct timespec t{(time_t)s, 0}; nanosleep(&t, nullptr); return 0; }
// std::random_device
void rd_init(void*, const void*) __asm__("_ZNSt13random_device7_M_initERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE");
void rd_init(void*, const void*) {}
void rd_fini(void*) __asm__("_ZNSt13random_device7_M_finiEv");
void rd_fini(void*) {}
unsigned rd_get(void*) __asm__("_ZNSt13random_device9_M_getvalEv");
unsigned rd_get(void*) {
    if (!g_active) return 20240229u;
    step(1);
    static const unsigned adv[] = {0u, 0xffffffffu, 1u, 42u};
    if (u64 v = fault(F_ENTROPY, 4, 0.35)) { fault_fired(F_ENTROPY); return adv[v - 1]; }
    u64 h = run_seed(); mix(h, ++g_ent); return (unsigned)(h >> 16);
}
ssize_t getrandom(void* b, size_t n, unsigned) { static u64 c; u64 h = g_active ? run_seed() : 7; for (size_t i = 0; i < n; i++) { mix(h, ++c); ((char*)b)[i] = (char)h; } return (ssize_t)n; }
}
// allocation
static void* do_new(size_t n, size_t al, bool thr) {
    if (g_active && (t_scope & SC_ALLOC) && fault(F_ALLOC, 1, 0.08)) { fault_fired(F_ALLOC); sim::log("t=%.6f allocation of %zu bytes fails", now_ns() / 1e9, n); if (thr) throw std::bad_alloc(); return nullptr; }
    void* p = sim::rt_alloc(n, al); if (!p) { if (thr) throw std::bad_alloc(); return nullptr; }
    return p;
}
static void do_del(void* p) { if (!p) return; if (sim::rt_on_free(p)) return; free(p); }
void* operator new(size_t n) { return do_new(n, 0, true); }
void* operator new[](size_t n) { return do_new(n, 0, true); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return do_new(n, 0, false); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return do_new(n, 0, false); }
void* operator new(size_t n, std::align_val_t a) { return do_new(n, (size_t)a, true); }
void* operator new[](size_t n, std::align_val_t a) { return do_new(n, (size_t)a, true); }
void operator delete(void* p) noexcept { do_del(p); }
void operator delete[](void* p) noexcept { do_del(p); }
void operator delete(void* p, size_t) noexcept { do_del(p); }
void operator delete[](void* p, size_t) noexcept { do_del(p); }
void operator delete(void* p, std::align_val_t) noexcept { do_del(p); }
void operator delete[](void* p, std::align_val_t) noexcept { do_del(p); }
void operator delete(void* p, size_t, std::align_val_t) noexcept { do_del(p); }
void operator delete[](void* p, size_t, std::align_val_t) noexcept { do_del(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { do_del(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { do_del(p); }
