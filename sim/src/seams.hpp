// Seams owned by the simulator: memory, clock, file output.
#pragma once
#include <cstdint>
#include <cstddef>
namespace sim::seam {
// --- memory (global operator new/delete are replaced) ---
void fresh_memory(unsigned char b);          // what never-initialised heap memory holds
void fresh_stack(unsigned char b);           // and the stack below the caller
void heap_layout(int mode, uint64_t seed);   // order in which addresses are handed out: 0 ascending, 1 descending, 2 shuffled
void alloc_reset();                 // counters to zero, no failure armed
void alloc_arm(int64_t nth);        // the nth allocation from now (1-based) throws std::bad_alloc; <0 disarms
int64_t alloc_count();              // allocations since alloc_reset
bool alloc_fired();
void alloc_pause(int d);            // +1: allocations of the harness itself do not count, -1: they do again
struct Pause { Pause() { alloc_pause(1); } ~Pause() { alloc_pause(-1); } };
int64_t alloc_live();               // live blocks (process wide)
bool heap_corrupted();              // a freed block was written to
const char* heap_problem();
// --- clock (std::chrono::steady_clock / system_clock now) ---
void clock_sim(bool on);            // simulated or real time
void clock_set_ns(int64_t ns);
void clock_advance_ns(int64_t ns);
int64_t clock_ns();
uint64_t clock_reads();
void clock_step_per_read_ns(int64_t ns);
void clock_wall_jump_ns(int64_t ns);  // only the wall clock (system_clock) jumps
double real_seconds();
}
