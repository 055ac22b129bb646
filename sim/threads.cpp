// Thread simulator: real OS threads, released one at a time by a seeded scheduler. Compiled WITHOUT instrumentation;
// the code under test is compiled with -fsanitize=thread and linked against the __tsan_* entry points below, so every
// memory access and atomic of the code under test reaches this file.
#include "core.h"
#include <cerrno>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <new>
#include <pthread.h>
#include <semaphore.h>
#include <sched.h>
#include <linux/futex.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <unistd.h>
#include <malloc.h>

namespace sim {
void rt_set_now(i64 t);
i64 rt_abs_to_now(clockid_t id, const struct timespec* ts);
static const int MAXT = 96;
enum TState { T_FREE, T_RUN, T_BLOCK, T_SLEEP, T_DONE };
struct Thr {
    int id; volatile int go; TState st; i64 wake; bool timed_out, has_wake, signalled; const void* obj; u64 seq; int prio; int quiet;
    void* (*fn)(void*); void* arg; void* ret; bool detached; pthread_t real; u32 vc[MAXT]; u32 frel[MAXT]; u32 facq[MAXT]; bool has_frel;
    char what[32];
};
static Thr* T; static int g_nt; static __thread Thr* self;
static u64 g_y, g_run_len, g_seq, g_spin; static unsigned g_hw = 4;
// per-run tuning
static int c_strategy; static double c_pswitch, c_pminor, c_pstall; static i64 c_step; static u64 c_pct[8]; static int c_npct, c_pctlow;

static void fwait(volatile int* a) { while (__atomic_load_n(a, __ATOMIC_ACQUIRE) == 0) raw_syscall(SYS_futex, (long)a, FUTEX_WAIT_PRIVATE, 0, 0); __atomic_store_n(a, 0, __ATOMIC_RELEASE); }
static void fgo(Thr* t) { __atomic_store_n(&t->go, 1, __ATOMIC_RELEASE); raw_syscall(SYS_futex, (long)&t->go, FUTEX_WAKE_PRIVATE, 1, 0); }

int tid() { return self ? self->id : -1; }
int live_threads() { int n = 0; for (int i = 0; i < g_nt; i++) n += T[i].st != T_DONE; return n; }
int threads_created() { return g_nt; }
void hw_concurrency(unsigned n) { g_hw = n; }
unsigned hw_concurrency_value() { return g_hw; }
void quiet_begin() { if (self) self->quiet++; }
void quiet_end() { if (self) self->quiet--; }
static inline bool on() { return g_active && self && self->quiet == 0; }

static void describe(char* b, size_t n) { size_t o = 0; b[0] = 0; for (int i = 0; i < g_nt && o + 64 < n; i++) { static const char* sn[] = {"free", "runnable", "blocked", "sleeping", "done"}; o += snprintf(b + o, n - o, "%sT%d %s(%s)", i ? ", " : "", i, sn[T[i].st], T[i].what); } }

// choose the next thread; cur may continue if it is runnable. `must` = cur yields voluntarily
static Thr* pick(Thr* cur, bool yielding, bool minor) {
    int cand[MAXT], n = 0;
    for (;;) {
        n = 0; i64 mn = -1; i64 now = now_ns();
        for (int i = 0; i < g_nt; i++) { Thr& t = T[i];
            if ((t.st == T_SLEEP || (t.st == T_BLOCK && t.has_wake)) && t.wake <= now) { g_spin = 0; t.timed_out = true; t.st = T_RUN; t.has_wake = false; t.obj = nullptr; }
            if (t.st == T_RUN) cand[n++] = i; else if ((t.st == T_SLEEP || (t.st == T_BLOCK && t.has_wake)) && (mn < 0 || t.wake < mn)) mn = t.wake; }
        if (n) break;
        if (mn < 0) { char b[1500]; describe(b, sizeof b); violate("deadlock", "no thread can run and nothing is pending, phase: %s; %s", R->ph, b); }
        rt_set_now(mn); check_time();
    }
    u64 idx = g_y++;
    // default policy: continue, unless the thread yields/blocks -> next runnable in id order
    int def; bool curok = cur->st == T_RUN;
    if (curok && !yielding) def = cur->id; else { def = cand[0]; for (int k = 0; k < n; k++) if (cand[k] > cur->id) { def = cand[k]; break; } }
    if (curok && !yielding && n > 1 && g_run_len > (g_calm ? 40 : 20000)) { def = cand[0]; for (int k = 0; k < n; k++) if (cand[k] > cur->id) { def = cand[k]; break; } g_run_len = 0; }
    int ch = def;
    if (n > 1 && !g_calm) {
        if (g_replay) { u32 v = sched_lookup(idx); if (v) { for (int k = 0; k < n; k++) if (cand[k] == (int)v - 1) ch = cand[k]; } }
        else if (minor) { if (rngd(1) < c_pminor) ch = cand[rng(1) % n]; }
        else if (c_strategy <= 1) { if (!curok || yielding ? (c_strategy == 0 || rng(1) % 4 != 0) : rngd(1) < c_pswitch) ch = cand[rng(1) % n]; }
        else { // PCT
            if (yielding) T[cur->id].prio = --c_pctlow;
            for (int k = 0; k < c_npct; k++) if (c_pct[k] == idx) T[cur->id].prio = --c_pctlow;
            int best = cand[0]; for (int k = 1; k < n; k++) if (T[cand[k]].prio > T[best].prio) best = cand[k];
            if (g_run_len > 20000) { T[best].prio = --c_pctlow; best = def; }
            ch = best;
        }
        if (ch != def) sched_record(idx, (u32)ch + 1);
    }
    return &T[ch];
}
static void switch_to(Thr* nx) {
    Thr* me = self; if (nx == me) { g_run_len++; return; }
    R->switches++; g_run_len = 0; mix(R->schedhash, (u64)nx->id); mix(R->hash, 0x5117C4 + nx->id);
    fgo(nx);
    if (me->st == T_DONE) return;      // caller parks forever
    fwait(&me->go);
}
static void resched(bool yielding, bool minor = false) { switch_to(pick(self, yielding, minor)); }
static const i64 stall_len[] = {2000, 200000, 1100000, 4000000, 30000000, 1000000000};

static void maybe_stall() {
    if (!fault_enabled(F_STALL)) return;
    if (u64 v = fault(F_STALL, 12, c_pstall)) {
        i64 d = stall_len[v <= 6 ? (v - 1) % 4 : (v - 1) % 6 == 5 ? (v == 12 ? 5 : 3) : (v - 1) % 5]; fault_fired(F_STALL); log("t=%.6f T%d stalls for %.6f s", now_ns() / 1e9, self->id, d / 1e9);
        self->st = T_SLEEP; self->wake = now_ns() + d; self->has_wake = true; resched(false);
    }
}
// a major scheduling point
static void yp(const char* what, u64 code) {
    step(1); advance_ns(c_step); memcpy(self->what, what, strnlen(what, 30) + 1); self->what[31] = 0;
    mix(R->schedhash, (u64)self->id * 64 + code); mix(R->hash, (u64)self->id * 64 + code);
    maybe_stall();
    resched(false);
}
void yield_point() { if (on()) yp("harness", 1); }
void rt_clock_yield() { if (on()) yp("clock", 2); }
static void block_on(const void* o, const char* what, i64 wake = -1) { memcpy(self->what, what, strnlen(what, 30) + 1); self->obj = o; self->st = T_BLOCK; self->timed_out = false; self->signalled = false; self->has_wake = wake >= 0; self->wake = wake; self->seq = ++g_seq; resched(false); }
static int wake_on(const void* o, int n) { // wake up to n, in an order chosen by the scheduler
    int woken = 0; while (woken < n) { int c[MAXT], k = 0; for (int i = 0; i < g_nt; i++) if (T[i].st == T_BLOCK && T[i].obj == o) c[k++] = i; if (!k) break; int w = c[0]; for (int j = 1; j < k; j++) if (T[c[j]].seq < T[w].seq) w = c[j]; T[w].st = T_RUN; T[w].obj = nullptr; T[w].has_wake = false; T[w].signalled = true; woken++; } return woken; }
void rt_sleep_until(i64 t) {
    if (!self) { if (t > now_ns()) rt_set_now(t); return; }
    step(1); memcpy(self->what, "sleep", 6); mix(R->schedhash, (u64)self->id * 64 + 3);
    if (u64 v = fault(F_OVERSLEEP, 4, 0.02)) { static const i64 d[] = {50000, 1000000, 10000000, 100000000}; t += d[v - 1]; fault_fired(F_OVERSLEEP); }
    t += 50000;      // timer slack of an ordinary thread
    self->st = T_SLEEP; self->wake = t; self->has_wake = true; resched(false);
    check_time();
}

// ---- happens-before ---------------------------------------------------------------------------
struct Sync { u64 key; u32 vc[MAXT]; };
static Sync* g_sync; static const u32 NSYNC = 1u << 13; static u32 g_nsync;
struct Cell { u32 clk; unsigned short tid; unsigned char mask, fl; };      // fl: 1 write, 2 atomic
struct Gran { u64 key; unsigned char n, flags, hassync, pad; u32 pc; Cell c[6]; }; // flags: 1 freed, 2 redzone
static Gran* g_gr; static const u32 NGR = 1u << 19; static u32 g_ngr;
static inline u32 hsh(u64 k) { k *= 0x9e3779b97f4a7c15ull; return (u32)(k >> 33); }
static Sync* sync_find(const void* a, bool create) {
    u64 k = (u64)a; for (u32 i = hsh(k) & (NSYNC - 1);; i = (i + 1) & (NSYNC - 1)) { if (g_sync[i].key == k) return &g_sync[i]; if (!g_sync[i].key) { if (!create) return nullptr; if (++g_nsync > NSYNC * 3 / 4) internal_error("sync table full"); g_sync[i].key = k; return &g_sync[i]; } }
}
static Gran* gr_find(u64 k, bool create) {
    for (u32 i = ((hsh(k >> 6) << 6) | (u32)(k & 63)) & (NGR - 1);; i = (i + 1) & (NGR - 1)) { if (g_gr[i].key == k) return &g_gr[i]; if (!g_gr[i].key) { if (!create) return nullptr; if (++g_ngr > NGR * 7 / 8) internal_error("shadow table full"); g_gr[i].key = k; return &g_gr[i]; } }
}
static void join(u32* a, const u32* b) { for (int i = 0; i < g_nt; i++) if (b[i] > a[i]) a[i] = b[i]; }
static void hb_acquire(const void* o) { if (Sync* s = sync_find(o, false)) join(self->vc, s->vc); }
static void mark_sync(const void* o) { gr_find((u64)o >> 3, true)->hassync = 1; }
static void hb_release(const void* o, bool store) { Sync* s = sync_find(o, true); mark_sync(o); if (store) memcpy(s->vc, self->vc, sizeof s->vc); else join(s->vc, self->vc); self->vc[self->id]++; }

// ---- heap: never reuse memory inside a run, so stale accesses are seen --------------------------
static const size_t RZ = 16;
void* rt_alloc(size_t n, size_t al) {
    if (!g_active) { if (al) { void* p = nullptr; return posix_memalign(&p, al, n ? n : 1) ? nullptr : p; } return malloc(n ? n : 1); }
    size_t a = al > 16 ? al : 16; size_t body = (n + 15) & ~(size_t)15; if (!body) body = 16;
    char* base = nullptr; if (posix_memalign((void**)&base, a < 16 ? 16 : a, a + body + RZ)) return nullptr;
    char* p = base + a; *(u64*)(p - 8) = n; *(u64*)(p - 16) = 0x51AA10C8ull;
    if (self) { // red zones around the block
        for (u64 k = (u64)(p - 16) >> 3; k < (u64)p >> 3; k++) gr_find(k, true)->flags = 2;
        for (u64 k = ((u64)p + n + 7) >> 3; k < (u64)(p + body + RZ) >> 3; k++) gr_find(k, true)->flags = 2;
    }
    return p;
}
bool rt_on_free(void* p) {
    if (*(u64*)((char*)p - 16) != 0x51AA10C8ull) { if (g_active && *(u64*)((char*)p - 16) == 0xDEADF4EEull) violate("double-free", "a block is freed twice, phase: %s", R->ph); return !g_active ? false : true; }
    size_t n = *(u64*)((char*)p - 8); *(u64*)((char*)p - 16) = 0xDEADF4EEull;
    if (self && g_active) { size_t m = n > 4096 ? 4096 : n; for (u64 k = (u64)p >> 3; k < ((u64)p + m + 7) >> 3; k++) { Gran* g = gr_find(k, true); g->flags = 1; g->n = 0; } memset(p, 0xDD, n); }
    return true;
}
static const char* kindname(const Cell& c) { return c.fl & 2 ? (c.fl & 1 ? "atomic write" : "atomic read") : (c.fl & 1 ? "write" : "read"); }
static void access1(u64 gk, unsigned mask, unsigned fl, u32 pc) {
    Gran* g = gr_find(gk, true); Thr* me = self;
    if (__builtin_expect(g->flags != 0, 0)) { violate(g->flags == 1 ? "use-after-free" : "heap-overflow", "T%d accesses %s, phase: %s [pc %x]", me->id, g->flags == 1 ? "freed memory" : "memory outside its heap block", R->ph, pc); }
    int slot = -1;
    for (int i = 0; i < g->n; i++) { Cell& c = g->c[i];
        if (c.tid == me->id) { if (c.fl == fl && (c.mask & ~mask) == 0 && slot < 0) slot = i; continue; }
        if (!(c.mask & mask)) continue; if (!((c.fl | fl) & 1)) continue; if ((c.fl & 2) && (fl & 2)) continue;
        if (c.clk > me->vc[c.tid]) { Cell cur; cur.fl = fl; violate("data-race", "unsynchronized %s by T%d and %s by T%d of the same memory, phase: %s [pc %x %x]", kindname(c), c.tid, kindname(cur), me->id, R->ph, g->pc, pc); }
    }
    if (slot < 0) { if (g->n < 6) slot = g->n++; else { slot = (int)(me->vc[me->id] % 6); for (int i = 0; i < 6; i++) if (g->c[i].clk <= me->vc[g->c[i].tid] && !(g->c[i].fl & 2)) { slot = i; break; } } }
    g->c[slot] = Cell{me->vc[me->id], (unsigned short)me->id, (unsigned char)mask, (unsigned char)fl}; g->pc = pc;
}
static inline void acc(const void* p, size_t n, unsigned fl, void* ra) {
    u64 a = (u64)p; u32 pc = (u32)(u64)ra; step(1);
    while (n) { u64 off = a & 7; size_t m = 8 - off < n ? 8 - off : n; access1(a >> 3, ((1u << m) - 1) << off, fl, pc); a += m; n -= m; }
}
static void plain(const void* p, size_t n, unsigned fl, void* ra) {
    if (!on()) return;
    acc(p, n, fl, ra);
    if (c_pminor > 0) resched(false, true);
}
// ---- atomics ------------------------------------------------------------------------------------
static void at_pre(const void* p, size_t n, unsigned fl, void* ra) { yp("atomic", 4); acc(p, n, fl | 2, ra); }
static inline bool is_acq(int mo) { return mo == __ATOMIC_ACQUIRE || mo == __ATOMIC_CONSUME || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }
static inline bool is_rel(int mo) { return mo == __ATOMIC_RELEASE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }
static void hb_load(const void* p, int mo) { if (is_acq(mo)) hb_acquire(p); else if (Sync* s = sync_find(p, false)) join(self->facq, s->vc); }
static void hb_store(const void* p, int mo) { if (is_rel(mo)) hb_release(p, true); else { Sync* s = sync_find(p, true); mark_sync(p); if (self->has_frel) memcpy(s->vc, self->frel, sizeof s->vc); else memset(s->vc, 0, sizeof s->vc); } }
static void hb_rmw(const void* p, int mo) { hb_load(p, mo); if (is_rel(mo)) hb_release(p, false); else if (self->has_frel) { Sync* s = sync_find(p, true); mark_sync(p); join(s->vc, self->frel); } }

// ---- thread lifecycle -----------------------------------------------------------------------------
static void* tramp(void* a) {
    Thr* t = (Thr*)a; self = t; fwait(&t->go);
    t->ret = t->fn(t->arg);
    if (!g_active) for (;;) raw_syscall(SYS_pause);
    self->quiet = 0; yp("thread exit", 5);
    hb_release(t, false); t->st = T_DONE; wake_on(t, MAXT); mix(R->schedhash, 7);
    memcpy(t->what, "done", 5);
    switch_to(pick(t, true, false));
    for (;;) raw_syscall(SYS_pause);        // never really exits: keeps libc teardown out of the simulation
}
static Thr* find_thr(pthread_t h) { for (int i = 0; i < g_nt; i++) if (pthread_equal(T[i].real, h)) return &T[i]; return nullptr; }

void rt_init() {
    mallopt(M_ARENA_MAX, 1); mallopt(M_MMAP_THRESHOLD, 1 << 30); mallopt(M_TRIM_THRESHOLD, 1 << 30);
    T = (Thr*)mmap(nullptr, sizeof(Thr) * MAXT, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    g_sync = (Sync*)mmap(nullptr, sizeof(Sync) * NSYNC, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    g_gr = (Gran*)mmap(nullptr, sizeof(Gran) * NGR, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    cpu_set_t cs; CPU_ZERO(&cs); if (sched_getaffinity(0, sizeof cs, &cs) == 0) { int cpu = sched_getcpu(); if (cpu >= 0 && CPU_ISSET(cpu, &cs)) { CPU_ZERO(&cs); CPU_SET(cpu, &cs); sched_setaffinity(0, sizeof cs, &cs); } }
    g_nt = 1; T[0].id = 0; T[0].st = T_RUN; T[0].real = pthread_self(); T[0].vc[0] = 1; self = &T[0];
    g_y = g_run_len = g_seq = g_spin = 0; g_hw = 4;
    // tuning is part of the workload stream so that a replay sees the same time base
    u64 s = wl(6); static const double sw[] = {0.5, 0.2, 0.06, 0.015}; static const i64 st[] = {100, 20, 1000, 25000};
    c_strategy = s < 3 ? 0 : s < 4 ? 1 : 2; c_pswitch = sw[wl(4)]; c_step = st[wl(4)]; c_pminor = wl(4) == 3 ? 0.01 : 0; c_pstall = wl(2) ? 0.004 : 0.03;
    set_clock_step(0);
    c_npct = c_strategy == 2 ? 1 + (int)(rng(1) % 5) : 0; u64 span = 50u << (rng(1) % 6); for (int i = 0; i < c_npct; i++) c_pct[i] = rng(1) % span; c_pctlow = 0; T[0].prio = (int)(rng(1) % 1000);
}
void rt_fini() { R->nthreads = g_nt; }
} // namespace sim
using namespace sim;
#define REAL(name) ((decltype(&name))real_sym(#name))
struct MState { int lock; unsigned count; int owner; unsigned nusers; int kind; };
static MState* MS(pthread_mutex_t* m) { return (MState*)m; }
static int mutex_lock(pthread_mutex_t* m, bool tryl, i64 until) {
    MState* s = MS(m);
    if (!g_active || !self) { s->count++; return 0; }
    if (self->quiet) { if (s->owner && s->owner != self->id + 1) internal_error("mutex contended in a quiet section"); s->owner = self->id + 1; s->count++; return 0; }
    yp("mutex", 6);
    if (s->owner == self->id + 1) { if ((s->kind & 3) == PTHREAD_MUTEX_RECURSIVE) { s->count++; return 0; } if (tryl) return EBUSY; if ((s->kind & 3) == PTHREAD_MUTEX_ERRORCHECK) return EDEADLK; }
    while (s->owner) { if (tryl) return EBUSY; block_on(m, "mutex wait", until); if (s->owner && self->timed_out) return ETIMEDOUT; }
    s->owner = self->id + 1; s->count = 1; hb_acquire(m); return 0;
}
static void mutex_release(pthread_mutex_t* m) { MState* s = MS(m); hb_release(m, false); s->owner = 0; s->count = 0; wake_on(m, MAXT); }
static int mutex_unlock(pthread_mutex_t* m) {
    MState* s = MS(m);
    if (!g_active || !self) { if (s->count) s->count--; return 0; }
    if (self->quiet) { s->owner = 0; s->count = 0; return 0; }
    if (s->owner != self->id + 1) violate("bad-unlock", "T%d unlocks a mutex it does not hold, phase: %s", self->id, R->ph);
    if (--s->count) return 0;
    mutex_release(m); yp("unlock", 7); return 0;
}
static int cond_wait(pthread_cond_t* c, pthread_mutex_t* m, i64 until) {
    if (!g_active || !self) return 0;
    yp("cond", 8); MState* s = MS(m); if (s->owner != self->id + 1) violate("bad-unlock", "T%d waits on a condition without holding its mutex", self->id);
    unsigned cnt = s->count; bool to = false;
    if (fault(F_SPURIOUS, 1, 0.05)) { fault_fired(F_SPURIOUS); mutex_release(m); resched(true); }
    else { mutex_release(m); block_on(c, "condition wait", until); to = self->timed_out && !self->signalled; }
    while (s->owner) block_on(m, "mutex wait"); s->owner = self->id + 1; s->count = cnt; hb_acquire(m);
    return to ? ETIMEDOUT : 0;
}
extern "C" {
int pthread_create(pthread_t* h, const pthread_attr_t*, void* (*fn)(void*), void* arg) {
    if (!g_active || !self) { static auto real = REAL(pthread_create); return real(h, nullptr, fn, arg); }
    yp("create", 9);
    if ((t_scope & SC_THREAD) && fault(F_THREAD, 1, 0.15)) { fault_fired(F_THREAD); sim::log("t=%.6f thread creation fails (EAGAIN)", now_ns() / 1e9); return EAGAIN; }
    if (g_nt >= MAXT) internal_error("more than %d threads in one run", MAXT);
    Thr* t = &T[g_nt]; t->id = g_nt; t->fn = fn; t->arg = arg; t->st = T_RUN; t->prio = g_replay ? 0 : (int)(rng(1) % 1000); memcpy(t->vc, self->vc, sizeof t->vc); t->vc[t->id] = 1; self->vc[self->id]++; memcpy(t->what, "new", 4);
    static auto real = REAL(pthread_create); pthread_attr_t a; pthread_attr_init(&a); pthread_attr_setstacksize(&a, 256 * 1024);
    if (real(h, &a, tramp, t)) internal_error("real pthread_create failed");
    t->real = *h; g_nt++; sim::log("t=%.6f T%d starts T%d", now_ns() / 1e9, self->id, t->id);
    resched(false); return 0;
}
int pthread_join(pthread_t h, void** r) {
    if (!g_active || !self) return 0;
    Thr* t = find_thr(h); if (!t) return ESRCH; yp("join", 10); if (t == self) return EDEADLK;
    while (t->st != T_DONE) block_on(t, "join"); hb_acquire(t); if (r) *r = t->ret; return 0;
}
int pthread_detach(pthread_t h) { if (Thr* t = T ? find_thr(h) : nullptr) t->detached = true; return 0; }
int pthread_mutex_lock(pthread_mutex_t* m) noexcept { return mutex_lock(m, false, -1); }
int pthread_mutex_trylock(pthread_mutex_t* m) noexcept { return mutex_lock(m, true, -1); }
int pthread_mutex_timedlock(pthread_mutex_t* m, const struct timespec* ts) noexcept { return mutex_lock(m, false, rt_abs_to_now(CLOCK_REALTIME, ts)); }
int pthread_mutex_clocklock(pthread_mutex_t* m, clockid_t id, const struct timespec* ts) noexcept { return mutex_lock(m, false, rt_abs_to_now(id, ts)); }
int pthread_mutex_unlock(pthread_mutex_t* m) noexcept { return mutex_unlock(m); }
int pthread_cond_init(pthread_cond_t* c, const pthread_condattr_t*) noexcept { memset(c, 0, sizeof *c); return 0; }
int pthread_cond_destroy(pthread_cond_t*) noexcept { return 0; }
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) { return cond_wait(c, m, -1); }
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec* ts) { return cond_wait(c, m, rt_abs_to_now(CLOCK_REALTIME, ts)); }
int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t id, const struct timespec* ts) { return cond_wait(c, m, rt_abs_to_now(id, ts)); }
int pthread_cond_signal(pthread_cond_t* c) noexcept { if (on()) { yp("signal", 11); wake_on(c, 1); } return 0; }
int pthread_cond_broadcast(pthread_cond_t* c) noexcept { if (on()) { yp("broadcast", 12); wake_on(c, MAXT); } return 0; }
int sched_yield() noexcept { if (on()) { step(1); advance_ns(c_step + (2000LL << (g_spin / 64 < 9 ? g_spin / 64 : 9))); g_spin++; /* spinning passes time, so that sleepers wake */ memcpy(self->what, "yield", 6); mix(R->schedhash, (u64)self->id * 64 + 13); maybe_stall(); resched(true); } else raw_syscall(SYS_sched_yield); return 0; }
int pthread_once(pthread_once_t* o, void (*f)()) {
    if (!g_active || !self) { if (*o != 2) { *o = 2; f(); } return 0; }
    yp("once", 14);
    for (;;) { if (*o == 2) { hb_acquire(o); return 0; } if (*o == 1) { block_on(o, "once"); continue; }
        *o = 1; try { f(); } catch (...) { *o = 0; wake_on(o, MAXT); throw; } hb_release(o, false); *o = 2; wake_on(o, MAXT); yp("once done", 14); return 0; }
}
// reader/writer locks: state kept in the object itself (zero-initialised = free)
struct RW { int writer, readers; };
int pthread_rwlock_init(pthread_rwlock_t* l, const pthread_rwlockattr_t*) noexcept { memset(l, 0, sizeof *l); return 0; }
int pthread_rwlock_destroy(pthread_rwlock_t*) noexcept { return 0; }
static int rwl(pthread_rwlock_t* l, bool wr, bool tr) { RW* s = (RW*)l; if (!on()) return 0; yp("rwlock", 15); while (s->writer || (wr && s->readers)) { if (tr) return EBUSY; block_on(l, "rwlock wait"); } if (wr) s->writer = self->id + 1; else s->readers++; hb_acquire(l); return 0; }
int pthread_rwlock_rdlock(pthread_rwlock_t* l) noexcept { return rwl(l, false, false); }
int pthread_rwlock_wrlock(pthread_rwlock_t* l) noexcept { return rwl(l, true, false); }
int pthread_rwlock_tryrdlock(pthread_rwlock_t* l) noexcept { return rwl(l, false, true); }
int pthread_rwlock_trywrlock(pthread_rwlock_t* l) noexcept { return rwl(l, true, true); }
int pthread_rwlock_unlock(pthread_rwlock_t* l) noexcept { RW* s = (RW*)l; if (!on()) return 0; hb_release(l, false); if (s->writer == self->id + 1) s->writer = 0; else s->readers--; wake_on(l, MAXT); yp("rwunlock", 15); return 0; }
// semaphores
int sem_init(sem_t* s, int, unsigned v) noexcept { *(int*)s = (int)v; return 0; }
int sem_destroy(sem_t*) noexcept { return 0; }
int sem_post(sem_t* s) noexcept { if (!on()) { ++*(int*)s; return 0; } yp("sem_post", 16); hb_release(s, false); ++*(int*)s; wake_on(s, MAXT); return 0; }
static int semw(sem_t* s, bool tr, i64 until) { if (!on()) { --*(int*)s; return 0; } yp("sem_wait", 17); while (*(int*)s == 0) { if (tr) { errno = EAGAIN; return -1; } block_on(s, "semaphore", until); if (*(int*)s == 0 && self->timed_out) { errno = ETIMEDOUT; return -1; } } --*(int*)s; hb_acquire(s); return 0; }
int sem_wait(sem_t* s) { return semw(s, false, -1); }
int sem_trywait(sem_t* s) noexcept { return semw(s, true, -1); }
int sem_timedwait(sem_t* s, const struct timespec* ts) { return semw(s, false, rt_abs_to_now(CLOCK_REALTIME, ts)); }
int sem_clockwait(sem_t* s, clockid_t id, const struct timespec* ts) { return semw(s, false, rt_abs_to_now(id, ts)); }
// futex (std::future, std::atomic::wait)
long syscall(long n, ...) noexcept {
    va_list ap; va_start(ap, n); long a = va_arg(ap, long), b = va_arg(ap, long), c = va_arg(ap, long), d = va_arg(ap, long), e = va_arg(ap, long), f = va_arg(ap, long); va_end(ap);
    if (n == SYS_futex && on()) {
        int op = (int)b & FUTEX_CMD_MASK; int* w = (int*)a;
        if (op == FUTEX_WAIT || op == FUTEX_WAIT_BITSET) {
            yp("futex", 18); if (__atomic_load_n(w, __ATOMIC_RELAXED) != (int)c) { errno = EAGAIN; return -1; }
            if (fault(F_SPURIOUS, 1, 0.05)) { fault_fired(F_SPURIOUS); resched(true); errno = EINTR; return -1; }
            i64 until = -1; if (d) { const struct timespec* ts = (const struct timespec*)d; until = op == FUTEX_WAIT ? now_ns() + ts->tv_sec * 1000000000LL + ts->tv_nsec : rt_abs_to_now((b & FUTEX_CLOCK_REALTIME) ? CLOCK_REALTIME : CLOCK_MONOTONIC, ts); }
            block_on(w, "futex wait", until); if (self->timed_out && !self->signalled) { errno = ETIMEDOUT; return -1; } return 0;
        }
        if (op == FUTEX_WAKE || op == FUTEX_WAKE_BITSET) { yp("futex wake", 19); return wake_on(w, (int)c < 0 || (int)c > MAXT ? MAXT : (int)c); }
        internal_error("futex op %d not simulated", op);
    }
    long r = raw_syscall(n, a, b, c, d, e, f); if (r < 0 && r > -4096) { errno = (int)-r; return -1; } return r;
}
int __cxa_guard_acquire(long long* g) { char* b = (char*)g; if (!on()) { if (b[0]) return 0; b[1] = 1; return 1; } yp("guard", 20); for (;;) { if (b[0]) { hb_acquire(b); return 0; } if (b[1]) { block_on(g, "static init"); continue; } b[1] = 1; return 1; } }
void __cxa_guard_release(long long* g) noexcept { char* b = (char*)g; b[1] = 0; if (on()) hb_release(b, false); b[0] = 1; if (on()) wake_on(g, MAXT); }
void __cxa_guard_abort(long long* g) noexcept { char* b = (char*)g; b[1] = 0; if (on()) wake_on(g, MAXT); }
void* __cxa_allocate_exception(size_t n) noexcept { static auto real = (void* (*)(size_t))real_sym("__cxa_allocate_exception"); void* p = real(n); if (on()) for (u64 k = (u64)p >> 3; k <= ((u64)p + n) >> 3; k++) if (Gran* g = gr_find(k, false)) { g->n = 0; g->flags = 0; } return p; }
unsigned hwc() __asm__("_ZNSt6thread20hardware_concurrencyEv");
unsigned hwc() { return g_active ? g_hw : 4; }

// ---- instrumentation entry points -----------------------------------------------------------------
#define RA __builtin_return_address(0)
void __tsan_init() {} void __tsan_func_entry(void*) {} void __tsan_func_exit(void) {}
#define RW_N(n) void __tsan_read##n(void* p) { plain(p, n, 0, RA); } void __tsan_write##n(void* p) { plain(p, n, 1, RA); } void __tsan_unaligned_read##n(void* p) { plain(p, n, 0, RA); } void __tsan_unaligned_write##n(void* p) { plain(p, n, 1, RA); } void __tsan_volatile_read##n(void* p) { plain(p, n, 0, RA); } void __tsan_volatile_write##n(void* p) { plain(p, n, 1, RA); } void __tsan_unaligned_volatile_read##n(void* p) { plain(p, n, 0, RA); } void __tsan_unaligned_volatile_write##n(void* p) { plain(p, n, 1, RA); }
RW_N(1) RW_N(2) RW_N(4) RW_N(8) RW_N(16)
void __tsan_read_range(void* p, size_t n) { plain(p, n, 0, RA); }
void __tsan_write_range(void* p, size_t n) { plain(p, n, 1, RA); }
void __tsan_vptr_update(void** p, void* v) { if (*p != v) plain(p, 8, 1, RA); }
void __tsan_vptr_read(void** p) { plain(p, 8, 0, RA); }
void __tsan_atomic_thread_fence(int mo) { if (!on()) return; yp("fence", 21); if (is_acq(mo)) join(self->vc, self->facq); if (is_rel(mo)) { memcpy(self->frel, self->vc, sizeof self->frel); self->has_frel = true; self->vc[self->id]++; } }
void __tsan_atomic_signal_fence(int) {}
#define AT(B, TY) \
TY __tsan_atomic##B##_load(const volatile TY* p, int mo) { if (!on()) return __atomic_load_n(p, __ATOMIC_SEQ_CST); at_pre((const void*)p, sizeof(TY), 0, RA); TY v = *p; hb_load((const void*)p, mo); return v; } \
void __tsan_atomic##B##_store(volatile TY* p, TY v, int mo) { if (!on()) { __atomic_store_n(p, v, __ATOMIC_SEQ_CST); return; } at_pre((const void*)p, sizeof(TY), 1, RA); *p = v; hb_store((const void*)p, mo); } \
TY __tsan_atomic##B##_exchange(volatile TY* p, TY v, int mo) { if (!on()) return __atomic_exchange_n(p, v, __ATOMIC_SEQ_CST); at_pre((const void*)p, sizeof(TY), 1, RA); TY o = *p; *p = v; hb_rmw((const void*)p, mo); return o; } \
TY __tsan_atomic##B##_fetch_add(volatile TY* p, TY v, int mo) { if (!on()) return __atomic_fetch_add(p, v, __ATOMIC_SEQ_CST); at_pre((const void*)p, sizeof(TY), 1, RA); TY o = *p; *p = (TY)(o + v); hb_rmw((const void*)p, mo); return o; } \
TY __tsan_atomic##B##_fetch_sub(volatile TY* p, TY v, int mo) { if (!on()) return __atomic_fetch_sub(p, v, __ATOMIC_SEQ_CST); at_pre((const void*)p, sizeof(TY), 1, RA); TY o = *p; *p = (TY)(o - v); hb_rmw((const void*)p, mo); return o; } \
TY __tsan_atomic##B##_fetch_and(volatile TY* p, TY v, int mo) { if (!on()) return __atomic_fetch_and(p, v, __ATOMIC_SEQ_CST); at_pre((const void*)p, sizeof(TY), 1, RA); TY o = *p; *p = (TY)(o & v); hb_rmw((const void*)p, mo); return o; } \
TY __tsan_atomic##B##_fetch_or(volatile TY* p, TY v, int mo) { if (!on()) return __atomic_fetch_or(p, v, __ATOMIC_SEQ_CST); at_pre((const void*)p, sizeof(TY), 1, RA); TY o = *p; *p = (TY)(o | v); hb_rmw((const void*)p, mo); return o; } \
TY __tsan_atomic##B##_fetch_xor(volatile TY* p, TY v, int mo) { if (!on()) return __atomic_fetch_xor(p, v, __ATOMIC_SEQ_CST); at_pre((const void*)p, sizeof(TY), 1, RA); TY o = *p; *p = (TY)(o ^ v); hb_rmw((const void*)p, mo); return o; } \
TY __tsan_atomic##B##_fetch_nand(volatile TY* p, TY v, int mo) { if (!on()) return __atomic_fetch_nand(p, v, __ATOMIC_SEQ_CST); at_pre((const void*)p, sizeof(TY), 1, RA); TY o = *p; *p = (TY)~(o & v); hb_rmw((const void*)p, mo); return o; } \
int __tsan_atomic##B##_compare_exchange_strong(volatile TY* p, TY* e, TY v, int mo, int fmo) { if (!on()) return __atomic_compare_exchange_n(p, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); at_pre((const void*)p, sizeof(TY), 1, RA); if (*p == *e) { *p = v; hb_rmw((const void*)p, mo); return 1; } *e = *p; hb_load((const void*)p, fmo); return 0; } \
int __tsan_atomic##B##_compare_exchange_weak(volatile TY* p, TY* e, TY v, int mo, int fmo) { if (!on()) return __atomic_compare_exchange_n(p, e, v, true, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); at_pre((const void*)p, sizeof(TY), 1, RA); if (*p == *e && !fault(F_SPURIOUS, 1, 0.05)) { *p = v; hb_rmw((const void*)p, mo); return 1; } *e = *p; hb_load((const void*)p, fmo); return 0; } \
TY __tsan_atomic##B##_compare_exchange_val(volatile TY* p, TY e, TY v, int mo, int fmo) { __tsan_atomic##B##_compare_exchange_strong(p, &e, v, mo, fmo); return e; }
AT(8, unsigned char) AT(16, unsigned short) AT(32, unsigned int) AT(64, unsigned long)
}
