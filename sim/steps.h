#pragma once
#include "sim.h"
namespace sim {
void cpu_start(i64 ps_per_block);         // from here on executed blocks are counted and cost this many simulated picoseconds
void cpu_stop(); bool cpu_running();
void cpu_stalls(double p);                // probability of a process stall, per 64 blocks (fault kind thread_stall)
u64  cpu_blocks();
void cpu_deadline(i64 t, bool own = false); // watch: at which block does simulated time reach t (own: stalls do not count)
bool cpu_deadline_hit(u64* at_block);
void cpu_after(u64 blocks, void (*fn)()); // call fn once that many further blocks have been executed
void heap_fill(unsigned char c);          // contents of fresh heap memory
struct Cpu { Cpu(i64 ps) { cpu_start(ps); } ~Cpu() { cpu_stop(); } };
}
