"""What each check runs, and what its evidence and MANIFEST entry say."""
FAULT_PREFIXES = ("disk_", "alloc_fail", "spurious", "preemptions", "clock_", "stream_", "memory_limit", "crash_", "throw_", "device_fail", "stall", "fault_")
REAL = ["all of /repo/src/{api,backend,board,compiler,core,encryption,engine,frontend,global,memory,module,runtime,utils,kernels/common,kernels/cpu} (instrumented)",
        "libstdc++ (uninstrumented)"]
STUB = ["thread scheduler, mutexes, condition variables, once, thread creation and joining (simulated, one runnable thread at a time)",
        "OpenMP teams (GOMP_parallel, omp_*)", "heap (fixed addresses, red zones, quarantine, injected failures)", "disk below /sim/ (in-memory files with faults)", "clock (discrete-event)"]
ASSUMPTIONS = ["sequentially consistent interleavings of instrumented memory accesses; weaker orders are covered only by the happens-before race detector",
               "seeded sampling: absence of a violation is evidence over the explored seeds, not a proof"]
SAMPLED = " Assurance: no violation on any of the seeds explored; trusts the simulator's model of threads, disk and heap, assumes sequential consistency between instrumented accesses."
PLAN = {
 "P01": dict(technique="seeded save and load histories over simulated disk and user streams that deliver data in pieces, complete dump and run comparison", note="Real module, tensor and stream code, C++ and C API routes, over an in-memory disk with short and interrupted system calls." + SAMPLED, quick_s=35),
 "P02": dict(technique="seeded truncation points and read failures over simulated disk and user streams, refusal and leak oracles", note="Real loaders, C++ and C API routes; files cut at structural and random points, streams that end, fail or throw." + SAMPLED, quick_s=35),
 "P03": dict(technique="seeded disk faults (write errors, full disk, failing close and open, short writes) during saving, durability oracle: reported success implies the stored bytes load as the same object", note="Real module, tensor and stream code over an in-memory disk." + SAMPLED, quick_s=35),
 "P04": dict(technique="seeded keys, piece sizes, disk faults, truncation and damage of encrypted files, round trip, refusal and memory bound oracles", note="Real AES and encrypted stream code over an in-memory disk and a simulated heap with red zones." + SAMPLED, quick_s=35),
 "P05": dict(technique="seeded schedules of readers and writers, exclusion and progress oracles", note="Real rwmutex code under a simulated scheduler, with spurious wakeups and stalled threads." + SAMPLED),
 "P06": dict(technique="seeded schedules of submitters, workers, joins and destruction, exactly-once oracle and hang detection", note="Real ThreadPool and Thread code under a simulated scheduler, with spurious wakeups, stalls and destruction at arbitrary points." + SAMPLED),
 "P07": dict(technique="seeded schedules over pool-backed loops, exact index coverage oracle", note="Real parallel_run and range splitting under a simulated scheduler." + SAMPLED),
 "P08": dict(technique="seeded schedules of threads viewing shared synchronised memory over simulated devices, failing copies and allocations injected, one-copy, content, liveness and leak oracles", note="Real SyncBlock, SyncMemory and controllers over simulated devices (accounted allocator and converters that can fail half-way), under a simulated scheduler." + SAMPLED, quick_s=40),
 "P09": dict(technique="seeded schedules of threads copying, viewing, handing over and releasing tensors, content and liveness oracles over the simulated heap, happens-before race detection", note="Real tensor, memory and controller code and real workbenches whose outputs are released in other threads." + SAMPLED, quick_s=40),
 "P10": dict(technique="seeded schedules of several threads driving workbenches that share a program or a model, every result compared with the same calls alone, happens-before race detection", note="Real workbench, compiler, program, operators and kernels over randomly generated models under a simulated scheduler." + SAMPLED, quick_s=45),
 "P11": dict(technique="seeded operation histories over one workbench, each run compared with a fresh workbench", note="Real workbench over randomly generated models: reconfiguration, failing runs, refused inputs, changed thread counts, clones, program switches, inner-node inspection." + SAMPLED, quick_s=40),
 "P12": dict(technique="seeded operation histories with an injected allocation failure at a seeded point of each operation, error, recovery and leak oracles", note="Real loading, compiling, cloning, running and filtering over randomly generated models; tensor memory of the CPU device fails at chosen allocations." + SAMPLED, quick_s=45),
 "P13": dict(technique="seeded operation histories with outputs held across them and random teardown orders, content, liveness and leak oracles over the simulated heap", note="Real workbench over randomly generated models; every block is a simulated heap block with red zones and quarantine." + SAMPLED, quick_s=40),
 "P14": dict(technique="seeded allocation histories with injected device failures, overlap, content, size, recovery and leak oracles against a reference model of live blocks", note="Real memory controllers, pool and blocks over simulated devices." + SAMPLED, quick_s=35),
 "P15": dict(technique="seeded call histories from one or several threads with invalid arguments, failing storage, streams and allocations, escape/return-value/message/leak oracles", note="Real C interface over randomly generated models; heap, files and threads are simulated." + SAMPLED, quick_s=45),
 "P16": dict(technique="seeded nestings of bindings, throws, failing operators and allocations in several threads against a model of the bindings; a probing operator checks what the library binds for it", note="Real context, workbench, program, filter and stand-alone operator code; a test operator inside the models inspects the bindings while it is created, inferred, run, cloned and nested." + SAMPLED, quick_s=35),
 "P18": dict(technique="seeded schedules of the OpenMP teams of every CPU kernel and thread count, bitwise comparison with one thread, happens-before race detection and heap bounds", note="Real kernels over randomly generated models under simulated OpenMP teams whose members are scheduled access by access." + SAMPLED, quick_s=45),
 "P19": dict(technique="seeded operation histories, snapshots of the caller's tensors, the module and sibling workbenches compared after every operation", note="Real workbench over randomly generated models." + SAMPLED, quick_s=40),
 "P20": dict(technique="seeded schedules and clock jumps over hooked, profiled and plain runs with failing operators, event history checked against the execution order", note="Real hook, profiler and instruction code over randomly generated models under a simulated scheduler and clock." + SAMPLED, quick_s=40),
}
NA = {
 "P90": "agreement of each operator's arithmetic with its mathematical definition: a pure sequential function of its inputs, no schedule, time, I/O or fault can change it; deterministic simulation has nothing to decide",
 "P91": "equivalence of models under compile options: a sequential rewriting of a graph, the deciding dimension is the input program, not schedules or faults",
 "P92": "agreement of inferred and computed shapes: a sequential relation over programs and inputs, no schedule, time, I/O or fault can change it",
}
