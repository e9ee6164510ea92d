#include "seams.hpp"
#include <chrono>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <new>
#include <time.h>
#include <malloc.h>
#include <sys/mman.h>

namespace {
// Header in front of every block: lets us poison contents and detect writes after free.
struct Head { uint64_t magic; uint64_t size; };
constexpr uint64_t LIVE = 0x51AB1E0A110CA7EDull, DEAD = 0xDEADF4EEDB10C5A1ull;
constexpr size_t Q = 512, QMAX = 4096;
Head* quarantine[Q];
size_t qpos = 0;
int64_t n_alloc = 0, arm_at = -1, n_live = 0;
bool fired = false;
int paused = 0;
const char* problem = nullptr;

// Slots come from an arena at a fixed address, in an order the simulator chooses, so that addresses
// (and with them any order derived from pointers) are decided by the simulator, not by the kernel.
constexpr size_t GRAN = 32, CLASSES = QMAX / GRAN + 2, CHUNK = 32;
struct Slots { void** v = nullptr; size_t n = 0, cap = 0; } slots[CLASSES];
unsigned char *arena = nullptr, *arena_end = nullptr;
int heap_mode = 0;
unsigned char fresh_byte = 0xA7;
uint64_t heap_rng = 1;

void push_slot(Slots& s, void* p)
{
    if (s.n == s.cap) {
        s.cap = s.cap ? s.cap * 2 : 256;
        s.v = static_cast<void**>(std::realloc(s.v, s.cap * sizeof(void*)));
    }
    s.v[s.n++] = p;
}
void* raw_alloc(size_t total)
{
    if (total > QMAX) return std::malloc(total);
    size_t c = (total + GRAN - 1) / GRAN;
    Slots& s = slots[c];
    if (s.n == 0) {
        if (!arena) {
            size_t sz = size_t(2) << 30;
            void* p = mmap(reinterpret_cast<void*>(0x100000000000ull), sz, PROT_READ | PROT_WRITE,
                           MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
            if (p == MAP_FAILED) { std::fprintf(stderr, "SIM: no arena\n"); std::abort(); }
            arena = static_cast<unsigned char*>(p);
            arena_end = arena + sz;
        }
        if (arena + c * GRAN * CHUNK > arena_end) return nullptr;
        for (size_t i = 0; i < CHUNK; i++) {
            size_t k = heap_mode == 0 ? CHUNK - 1 - i : heap_mode == 1 ? i : (i * 13 + 5) % CHUNK;   // the last one is handed out first
            push_slot(s, arena + k * c * GRAN);
        }
        arena += c * GRAN * CHUNK;
    }
    if (heap_mode == 2 && s.n > 1) {
        heap_rng = heap_rng * 6364136223846793005ull + 1442695040888963407ull;
        size_t k = (heap_rng >> 33) % s.n;
        void* t = s.v[k]; s.v[k] = s.v[s.n - 1]; s.v[s.n - 1] = t;
    }
    return s.v[--s.n];
}
void raw_free(void* p, size_t total)
{
    if (total > QMAX) { std::free(p); return; }
    push_slot(slots[(total + GRAN - 1) / GRAN], p);
}

void check_dead(Head* h)
{
    if (h->magic != DEAD) { problem = "freed block header overwritten"; return; }
    auto* p = reinterpret_cast<unsigned char*>(h + 1);
    for (size_t i = 0; i < h->size; i++)
        if (p[i] != 0xDD) { problem = "write to freed memory"; return; }
}

void* sim_alloc(size_t n, bool nothrow)
{
    if (!paused) n_alloc++;
    if (!paused && arm_at >= 0 && n_alloc >= arm_at && !fired) {
        fired = true;
        if (nothrow) return nullptr;
        throw std::bad_alloc();
    }
    auto* h = static_cast<Head*>(raw_alloc(sizeof(Head) + (n ? n : 1)));
    if (!h) { if (nothrow) return nullptr; throw std::bad_alloc(); }
    h->magic = LIVE;
    h->size = n;
    if (n <= QMAX) std::memset(h + 1, fresh_byte, n);   // never-initialised memory is visible and repeatable
    n_live++;
    return h + 1;
}
void sim_free(void* p)
{
    if (!p) return;
    auto* h = static_cast<Head*>(p) - 1;
    if (h->magic != LIVE) {
        std::fprintf(stderr, "SIM: invalid or double free\n");
        std::abort();
    }
    n_live--;
    if (h->size > QMAX) { h->magic = DEAD; raw_free(h, sizeof(Head) + h->size); return; }
    h->magic = DEAD;
    std::memset(h + 1, 0xDD, h->size);
    Head*& slot = quarantine[qpos];
    qpos = (qpos + 1) % Q;
    if (slot) { check_dead(slot); raw_free(slot, sizeof(Head) + (slot->size ? slot->size : 1)); }
    slot = h;
}
bool sim_clock = false;
int64_t now_ns = 1'000'000'000, step_ns = 0, wall_ns = 0;
uint64_t reads = 0;
}  // namespace

void* operator new(size_t n) { return sim_alloc(n, false); }
void* operator new[](size_t n) { return sim_alloc(n, false); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return sim_alloc(n, true); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return sim_alloc(n, true); }
void operator delete(void* p) noexcept { sim_free(p); }
void operator delete[](void* p) noexcept { sim_free(p); }
void operator delete(void* p, size_t) noexcept { sim_free(p); }
void operator delete[](void* p, size_t) noexcept { sim_free(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { sim_free(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { sim_free(p); }

namespace sim::seam {
void fresh_memory(unsigned char b) { fresh_byte = b; }
__attribute__((noinline)) void fresh_stack(unsigned char b)
{
    volatile unsigned char junk[192 << 10];
    for (size_t i = 0; i < sizeof junk; i++) junk[i] = b;
}
void heap_layout(int mode, uint64_t seed) { heap_mode = mode; heap_rng = seed | 1; }
void alloc_reset() { n_alloc = 0; arm_at = -1; fired = false; }
void alloc_arm(int64_t nth) { arm_at = nth < 0 ? -1 : n_alloc + nth; fired = false; }
int64_t alloc_count() { return n_alloc; }
void alloc_pause(int d) { paused += d; }
bool alloc_fired() { return fired; }
int64_t alloc_live() { return n_live; }
bool heap_corrupted()
{
    for (auto* h : quarantine) if (h) check_dead(h);
    return problem != nullptr;
}
const char* heap_problem() { return problem ? problem : ""; }
void clock_sim(bool on) { sim_clock = on; reads = 0; step_ns = 0; wall_ns = 0; }
void clock_wall_jump_ns(int64_t ns) { wall_ns += ns; }
void clock_set_ns(int64_t ns) { now_ns = ns; }
void clock_advance_ns(int64_t ns) { now_ns += ns; }
int64_t clock_ns() { return now_ns; }
uint64_t clock_reads() { return reads; }
void clock_step_per_read_ns(int64_t ns) { step_ns = ns; }
double real_seconds()
{
    timespec t;
    clock_gettime(CLOCK_MONOTONIC, &t);
    return double(t.tv_sec) + double(t.tv_nsec) * 1e-9;
}
static int64_t real_ns(clockid_t c)
{
    timespec t;
    clock_gettime(c, &t);
    return int64_t(t.tv_sec) * 1'000'000'000 + t.tv_nsec;
}
int64_t read_clock(clockid_t c)
{
    reads++;
    if (!sim_clock) return real_ns(c);
    now_ns += step_ns;
    return c == CLOCK_REALTIME ? now_ns + wall_ns : now_ns;
}
}  // namespace sim::seam

// The standard library's clocks, seen by every part of the program.
namespace std::chrono {
inline namespace _V2 {
steady_clock::time_point steady_clock::now() noexcept
{
    return time_point(duration(sim::seam::read_clock(CLOCK_MONOTONIC)));
}
system_clock::time_point system_clock::now() noexcept
{
    return time_point(duration(sim::seam::read_clock(CLOCK_REALTIME)));
}
}  // namespace _V2
}  // namespace std::chrono
