// Public interface of the deterministic simulator (see DESIGN.md).
#pragma once
#include <cstdint>
#include <cstddef>
#include <string>
#include <vector>
#include <functional>

namespace sim {

// ---------------------------------------------------------------- random choices
// A splitmix64 stream; scenario choices, schedule choices and fault choices use separate streams of one seed.
struct Rng {
    uint64_t s;
    explicit Rng(uint64_t seed = 0) : s(seed) {}
    uint64_t next();
    uint64_t below(uint64_t n);                 // [0,n)
    int64_t range(int64_t lo, int64_t hi);      // [lo,hi]
    bool chance(double p);
    double unit();
    template <class T> const T &pick(const std::vector<T> &v) { return v[below(v.size())]; }
    Rng fork(uint64_t salt);
};
uint64_t mix(uint64_t a, uint64_t b);

// ---------------------------------------------------------------- one run
enum Strategy { SCHED_RANDOM = 0, SCHED_PCT = 1, SCHED_STALL = 2, SCHED_NONE = 3 };

struct Options {                 // set by the scenario before it starts threads
    bool race_detect = true;
    uint64_t max_steps = 60000000;   // instrumented accesses before the scheduler turns fair; x2 is a hang
    double spurious = 0.0;       // chance of a spurious condition wakeup per wait
    double mean_preempt = 0;     // mean number of accesses between preemptions; 0: chosen by seed
    int omp_procs = 2;           // omp_get_num_procs()
};
Options &opt();

uint64_t seed();
Rng &rng();                      // scenario stream
bool op_enabled(int index);      // replay files may switch operations off
void op_mark(int index);         // tells the driver how many operations there were

// choose schedule parameters from the seed (call once, before the concurrent phase)
void schedule_from_seed();
const char *schedule_name();

[[noreturn]] void violation(const char *kind, const char *fmt, ...) __attribute__((format(printf, 2, 3)));
void note(const char *fmt, ...) __attribute__((format(printf, 1, 2)));   // into the trace of the run
void event(uint64_t h);          // goes into the execution hash
void cover(uint64_t h);          // distinct-state measure
void tag(const char *name, uint64_t n = 1);   // named counter (faults injected, operations, ...)
bool verbose();

#define SIM_CHECK(cond, kind, ...) do { if (!(cond)) ::sim::violation(kind, __VA_ARGS__); } while (0)

// Oracle code: no preemption, no race recording, no faults for the current thread.
struct Quiet { Quiet(); ~Quiet(); };

// Whether fn(i) ends normally for i in [0,n): executed one after the other in a forked copy of this run, which does not
// influence it (only while no other simulated thread is alive). Used to leave out inputs the library does not accept.
struct Probed { bool ok = false; std::string value; };
std::vector<Probed> probe(int n, const std::function<std::string(int)> &fn);

// ---------------------------------------------------------------- threads
int self_id();
int live_threads();
void yield_point();
bool in_team();                  // inside an OpenMP team with >1 members

// ---------------------------------------------------------------- heap
struct HeapStat { uint64_t live_blocks, live_bytes, total_allocs; };
HeapStat heap_stat();
uint64_t heap_mark();                            // id of the next allocation
// live blocks allocated (outside Quiet) since mark; description of the first few
size_t heap_live_since(uint64_t mark, std::string *desc);
bool heap_valid(const void *p, size_t n);        // completely inside a live block
// Allocation failures. The counter counts eligible allocations since arm().
struct AllocFault {
    bool enabled = false;
    bool device_only = false;     // only allocations made by a device allocator (see device_alloc_enter)
    size_t min_size = 0;
    uint64_t fail_at = 0;         // 1-based index of the eligible allocation to fail; 0: only count
    uint64_t fail_count = 1;      // number of consecutive eligible allocations that fail
    int thread = -1;
};
void alloc_fault_arm(const AllocFault &f);
uint64_t alloc_fault_disarm(uint64_t *fired = nullptr);   // returns eligible allocations seen
struct DeviceAlloc { DeviceAlloc(); ~DeviceAlloc(); };    // marks "inside a device allocator"

// ---------------------------------------------------------------- simulated disk: every path below /sim/
enum IoFault { IO_NONE = 0, IO_SHORT, IO_EINTR, IO_EIO, IO_ENOSPC };
struct DiskPlan {
    // the fault applied to the n-th (1-based) data write / read / close since arming; -1: never
    int64_t write_at = -1; int write_kind = IO_NONE; uint64_t write_len = 0; bool write_sticky = false;
    int64_t read_at = -1;  int read_kind = IO_NONE;  uint64_t read_len = 0;  bool read_sticky = false;
    int64_t close_at = -1;
    int64_t open_at = -1;
    int64_t capacity = -1;        // bytes available on the disk
    double p_short = 0, p_eintr = 0;   // transient faults that must be invisible
};
void disk_arm(const DiskPlan &p);
struct DiskSeen { uint64_t writes, reads, closes, opens, fired; };
DiskSeen disk_disarm();
DiskSeen disk_seen();
bool disk_get(const std::string &path, std::string &out);
void disk_put(const std::string &path, const std::string &data);
void disk_remove(const std::string &path);
// the bytes on disk after each write call since arm() (crash points); state i = after i-th write
size_t disk_history(const std::string &path, std::vector<std::string> &out);
size_t disk_open_handles();

// ---------------------------------------------------------------- clock
uint64_t now_ns();
void clock_jump(int64_t delta_ns);
uint64_t simulated_ns();
uint64_t steps();                // instrumented accesses so far

// ---------------------------------------------------------------- scenarios
using ScenarioFn = void (*)();
struct ScenarioReg { ScenarioReg(const char *name, ScenarioFn fn, const char *property); };
#define SCENARIO(name, property) \
    static void scenario_##name(); \
    static ::sim::ScenarioReg scenario_reg_##name(#name, &scenario_##name, property); \
    static void scenario_##name()

using InitFn = void (*)();
struct InitReg { InitReg(InitFn fn); };          // runs once in the parent process before any fork
}
