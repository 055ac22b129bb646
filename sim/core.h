// Internal interface between the runtime's parts.
#pragma once
#include "sim.h"
namespace sim {
struct SEnt { u64 idx; u32 v; u32 pad; };
struct FEnt { u32 kind; u32 idx; u64 v; };
struct ProbeEnt { char name[48]; u64 n; };
enum { ST_RUNNING = 0, ST_OK = 1, ST_VIOLATION = 2, ST_INTERNAL = 3 };
static const u32 MAXW = 1u << 17, MAXS = 1u << 20, MAXF = 1u << 16, MAXP = 96;
struct Result {
    int status; char cls[64]; char msg[2048]; char ph[128];
    u64 steps, switches, hash, schedhash, obshash; i64 simns; u64 clockreads;
    u64 faults[F_NKINDS]; u32 nprobe; ProbeEnt probes[MAXP];
    u32 nthreads; u32 nW, nS, nF; u32 overflow; int scenario;
    u64 W[MAXW]; SEnt S[MAXS]; FEnt F[MAXF];
};
struct Streams { u64 seed; u64* W; u32 nW; SEnt* S; u32 nS; FEnt* F; u32 nF; };
extern Result* R;
extern bool g_calm;            // faults over, fair scheduling
extern bool g_active;          // inside a run
extern bool g_replay;
u64 rng(int stream);           // raw draw (random mode)
double rngd(int stream);
u32 sched_lookup(u64 idx);     // replay: override value at yield point idx (0 none)
void sched_record(u64 idx, u32 v);
inline void mix(u64& h, u64 x) { h ^= x + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdull; h ^= h >> 32; }
[[noreturn]] void finish_ok();
[[noreturn]] void die(int code);
void step(u64 n);              // count work against the step bound
void rt_init();                // build-specific, called in the child before the scenario
void rt_fini();                // build-specific, at the end of the scenario
extern u64 g_maxsteps; extern i64 g_maxns;
void check_time();
long raw_syscall(long n, long a = 0, long b = 0, long c = 0, long d = 0, long e = 0, long f = 0);
extern __thread u32 t_scope;
void on_time_read(bool wall);  // env -> build
void env_reset();
void* real_sym(const char* n);
extern bool g_injecting;
}
