// Deterministic simulation runtime: public interface used by the scenarios.
#pragma once
#include <cstdint>
#include <cstddef>
#include <cstdarg>

namespace sim {
typedef uint64_t u64; typedef uint32_t u32; typedef int64_t i64;

// ---- one run = one pure function of three choice streams ---------------------------------
// W: workload (dense), S: schedule (sparse, index = yield point), F: faults (sparse, per kind)
enum FaultKind : u32 {
    F_STALL = 0,      // the running thread is frozen for a simulated duration
    F_ALLOC,          // operator new throws std::bad_alloc
    F_THREAD,         // pthread_create returns EAGAIN
    F_SPURIOUS,       // spurious wake-up of a condition wait / futex wait
    F_OVERSLEEP,      // a sleep returns late
    F_CLOCK_STALL,    // monotonic time leaps forward at a clock read
    F_WALL_STEP,      // wall clock is stepped forwards or backwards
    F_ENTROPY,        // random_device returns an adversarial constant
    F_OPEN, F_READ_ERR, F_READ_SHORT, F_WRITE_ERR, F_WRITE_SHORT, F_WRITE_FULL, F_CLOSE_ERR, F_EINTR,
    F_TRUNC, F_SWAP, F_CRASH,
    F_SPAWN, F_PIPE, F_CLOSE_CHILD, F_NOENV, F_TMP,
    F_MKDIR, F_LIST, F_UNLINK, F_RENAME, F_STAT, F_FOREIGN, F_DIRORDER,
    F_TRAIN,
    F_NKINDS
};
extern const char* const fault_names[F_NKINDS];

u64  wl(u64 n);                                   // workload choice in [0,n)
inline i64 wl_range(i64 lo, i64 hi) { return lo + (i64)wl((u64)(hi - lo + 1)); }
inline bool wl_bool() { return wl(2) != 0; }
bool wl_p(u64 num, u64 den);                      // true with probability num/den; 0 is "false"
u64  fault(FaultKind k, u64 nvals, double p);     // 0 = no fault, else 1..nvals
void fault_fired(FaultKind k);                    // count a fault that actually took effect
void enable_fault(FaultKind k, bool on);          // swarm: which kinds are live in this run
bool fault_enabled(FaultKind k);
void faults_stop();                               // from now on no fault of any kind is injected

[[noreturn]] void violate(const char* cls, const char* fmt, ...) __attribute__((format(printf, 2, 3)));
[[noreturn]] void internal_error(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
#define SIM_CHECK(cond, cls, ...) do { if (!(cond)) ::sim::violate(cls, __VA_ARGS__); } while (0)

void probe(const char* name, u64 n = 1);          // "rare condition was hit" counter
void note(u64 x);                                 // mix an observation into the run's trace hash
void note_d(double x);
void log(const char* fmt, ...) __attribute__((format(printf, 1, 2)));   // only when replaying verbosely
void phase(const char* what);                     // reported in crash messages
bool verbose();
u64  run_seed();
void set_limits(u64 max_steps, double max_sim_seconds);

// ---- simulated time ------------------------------------------------------------------------
i64  now_ns();                                    // monotonic simulated time
void advance_ns(i64 d);                           // explicit passage of time (a slow operation)
i64 stalled_ns(); void stall_ns(i64 d);   // time that passed while the process was not running
void set_clock_step(i64 ns_per_read);             // how much each clock read advances time
i64  wall_offset_ns();
void step_wall(i64 d);
u64  clock_reads();

// ---- allocation / resource faults: only inside such a scope on this thread -------------------
struct FaultScope { u32 saved; explicit FaultScope(u32 mask); ~FaultScope(); };
enum { SC_ALLOC = 1, SC_THREAD = 2 };

struct Scenario { const char* prop; const char* name; void (*run)(); u32 weight; };
void add_scenario(const char* prop, const char* name, void (*run)(), u32 weight = 1);
struct Reg { Reg(const char* p, const char* n, void (*f)(), u32 w = 1) { add_scenario(p, n, f, w); } };
#define SCENARIO(prop, name, weight) \
    static void prop##_##name(); static ::sim::Reg reg_##prop##_##name(#prop, #name, prop##_##name, weight); static void prop##_##name()

// ---- thread build only -----------------------------------------------------------------------
int  tid();
void yield_point();                               // a scheduling point inside harness code
int  live_threads();
void quiet_begin(); void quiet_end();             // no scheduling inside (harness bookkeeping)
int  threads_created();
void hw_concurrency(unsigned n);
unsigned hw_concurrency_value();
struct Quiet { Quiet() { quiet_begin(); } ~Quiet() { quiet_end(); } };
}
