#!/usr/bin/env python3
"""Source of properties.jsonl (one dict per property)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None, state=None, hook=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]))
    if state: d["anchors"]["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    if observe: d["anchors"]["observe_at"] = observe
    d["anchors"]["hook_needed"] = hook
    P.append(d)

p("P01", "Saved models reload to the same model, however the reads are split",
  "Saving any buildable model and loading it back, through a file or a user stream that delivers or accepts data in pieces of any size, gives a model with the same nodes, parameters, data types, connections and input and output order, which computes identical results. The same holds for a single tensor saved and loaded on its own.",
  ["programs", "fault_sequences"], "all graphs, parameter types and shapes, and all ways a stream may split reads and writes",
  "test/serialization and test/stream write one fixed graph to one file and never split a read; no stable test uses a user stream.",
  ["src/module/module.cpp", "src/module/graph.cpp", "src/module/bubble.cpp", "src/module/header.cpp", "src/core/tensor.cpp", "src/module/serialization.cpp", "include/module/io/stream.h", "src/api/module.cpp", "src/api/declare_module.h"],
  [("length-prefixed little-endian binary fields, read back in the same order", "src/module/serialization.cpp"), ("node-index tables for inputs and outputs", "src/module/module.cpp")],
  ["ts_Module_Save*/ts_Module_Load*", "ts_Tensor_save/ts_Tensor_load"])

p("P02", "A truncated or failing model stream is always reported, never half-loaded",
  "If a model or tensor stream ends or starts failing anywhere before its full length, loading reports failure: it never returns an object, crashes, hangs, leaks or touches memory it does not own. The same process can still load the intact data afterwards.",
  ["crash_points", "fault_sequences", "programs"], "every truncation point and read-fault point of every saved model, and every crash during a save that leaves a torn file",
  "No test loads a damaged file; the torn prefixes left by a crash are one per byte of every model.",
  ["src/module/module.cpp", "src/module/loaders/open.cpp", "src/module/graph.cpp", "src/module/bubble.cpp", "src/module/header.cpp", "src/core/tensor.cpp", "src/module/serialization.cpp"],
  [("format magic and length checks while reading", "src/module/module.cpp"), ("exceptions turned into NULL plus a message at the C boundary", "src/api/declaration.h")],
  ["ts_Module_Load, ts_Module_LoadFromStream, ts_Module_LoadV2, ts_Tensor_load"])

p("P03", "Save reports success only when the complete data reached storage",
  "When saving a model or a tensor returns success, every byte of it is on the storage and loading it back succeeds with the same content. When the storage refuses, shortens or fails any part of the write, including the final flush at close, saving reports failure and the process stays usable.",
  ["fault_sequences", "crash_points", "programs"], "every position and kind of write fault (full disk, I/O error, short write, failing flush, refusing user stream) for every model",
  "No test injects a storage error; the failing write can be any of the writes of a save.",
  ["src/module/module.cpp", "src/module/io/fstream.cpp", "src/core/tensor_builder.cpp", "src/api/module.cpp", "src/module/graph.cpp", "src/module/bubble.cpp", "src/core/tensor.cpp"],
  [("written sizes are returned by every serialize step", "src/module/serialization.cpp"), ("stream state checked by the file writer", "src/module/io/fstream.cpp")],
  ["ts_Module_Save, ts_Module_SaveToStream, ts_Tensor_save, storage content"])

p("P04", "Encrypted streams return exactly what was written, or report failure",
  "Data written through an encrypted file stream and read back with the same key is identical byte for byte, however the writes and reads are split, for every length. A wrong key, a truncated or corrupted file or failing storage never crashes, never reads outside the buffers, never yields more data than was stored, and a failing write or flush is not reported as a success.",
  ["inputs", "fault_sequences", "crash_points"], "all contents, lengths, keys and splits of writes and reads; every truncation, corruption and storage-fault point",
  "No stable test touches the encrypted streams; block-boundary and chunk-split combinations are unbounded.",
  ["src/encryption/aes_fstream.cpp", "src/encryption/encrypted_fstream.cpp", "src/encryption/aes.cpp", "include/encryption/encrypted_fstream.h"],
  [("block buffering with padding of the last block", "src/encryption/aes_fstream.cpp")],
  ["EncryptedFileStreamReader/Writer"])

p("P05", "The reader-writer lock excludes, never loses a wakeup and always makes progress",
  "While a thread holds the lock for writing no other thread holds it in any way, and readers never overlap a writer. Every thread that asks for the lock eventually gets it once the others release it, for any number of readers and writers and any interleaving, including spurious wakeups.",
  ["schedules", "histories"], "all interleavings and wakeup orders of any mix of readers and writers",
  "test/mutex runs one timing-dependent schedule and asserts nothing; lost wakeups need one specific interleaving.",
  ["include/utils/mutex.h"],
  [("counters under one mutex, two condition variables, writer preference", "include/utils/mutex.h")],
  ["entry and exit of critical sections"])

p("P06", "The thread pool runs each task exactly once; join and destruction terminate",
  "Every task given to a thread pool runs exactly once, no two tasks run at the same time under the same worker number, and its completion callback runs after it. Join returns only after every task submitted before it has finished, and destroying the pool finishes the accepted tasks and always terminates.",
  ["schedules", "histories"], "all interleavings of submitters, workers, joins and destruction, with spurious wakeups and stalled threads",
  "test/parallel and test/threadsafe run a handful of native schedules; the shutdown race needs a preemption between two adjacent instructions.",
  ["src/runtime/inside/thread_pool.cpp", "include/runtime/inside/thread_pool.h"],
  [("per-worker mutex and condition variable handshake, free list of workers", "src/runtime/inside/thread_pool.cpp")],
  ["task bodies, ThreadPool::join, destructor"])

p("P07", "Parallel loops visit every index exactly once and finish before they return",
  "A parallel loop over any range, with any pool size, calls its body so that every index of the range is covered exactly once and nothing outside it is covered. When it is joined, all bodies have finished and their writes are visible to the caller, and the result equals the serial loop.",
  ["schedules", "inputs", "configurations"], "all ranges, pool sizes and interleavings of the workers",
  "test/parallel checks one range and pool size natively.",
  ["include/runtime/inside/parallel.h", "src/utils/box.cpp", "src/runtime/inside/thread_pool.cpp"],
  [("range split into bins, one task per bin, join", "include/runtime/inside/parallel.h")],
  ["loop bodies"])

p("P08", "Synchronised memory shared by threads is converted once and stays coherent",
  "When several threads ask for views of one lockable synchronised memory on any devices, each device copy is created once, every view shows the content the memory had, and all views of one device share one storage. No interleaving, failing allocation or failing copy leaves a half-made copy visible, deadlocks, leaks or frees storage still in use.",
  ["schedules", "fault_sequences", "configurations"], "all interleavings of views over several memory devices with allocation and copy failures",
  "test/sync_controller is single-threaded with CPU only; conversions never race there.",
  ["include/core/sync/sync_block.h", "include/core/sync/sync_memory.h", "include/core/sync/sync_controller.h", "include/utils/mutex.h"],
  [("double-checked lookup under a reader-writer lock", "include/core/sync/sync_block.h")],
  ["SyncMemory::view, data"])

p("P09", "Tensor storage lives while referenced and is freed exactly once, across threads",
  "Tensors that share storage or structure can be copied, viewed, reshaped, cloned and released by different threads in any order. The storage stays valid and unchanged while any reference exists and is released exactly once when the last one goes, with no leak, early release or data race.",
  ["schedules", "histories"], "all interleavings and orders of copying and releasing tensors that share storage",
  "No test shares a tensor between threads under a controlled schedule; a lost reference count update needs one preemption inside an increment.",
  ["include/core/threadsafe/smart.h", "src/core/tensor.cpp", "include/core/memory.h", "src/core/memory.cpp", "src/core/hard_memory.cpp"],
  [("reference-counted handles", "include/core/threadsafe/smart.h"), ("weak and strong memory", "src/core/memory.cpp")],
  ["ts_Tensor_* and ts::Tensor from several threads; allocator calls"])

p("P10", "Concurrent workbenches give exactly the results of running alone",
  "Threads that each use their own workbench, cloned from a common one, built from a shared compiled program or loaded from the same model, may clone, load, run, filter, reconfigure and destroy them in any interleaving. Each run returns exactly the result the same calls give when executed alone, with no crash, deadlock, leak or data race.",
  ["schedules", "programs", "histories"], "all interleavings of several threads driving workbenches that share model data",
  "test/threadsafe checks a few native schedules of one program; which memory accesses interleave is up to the machine.",
  ["src/runtime/workbench.cpp", "src/runtime/program.cpp", "src/runtime/instruction.cpp", "src/api/workbench.cpp", "src/api/program.cpp", "src/global/operator_factory.cpp", "src/memory/flow.cpp", "include/core/threadsafe/smart.h", "src/utils/ctxmgr_lite.cpp"],
  [("clone gives each bench its own operators, shared read-only constants, thread-local contexts", "src/runtime/program.cpp")],
  ["ts_Workbench_* in several threads"])

p("P11", "A reused workbench behaves like a fresh one, whatever ran before",
  "The outputs of a run depend only on the model, its current parameters and settings and the inputs given for that run, never on earlier runs with other inputs or shapes, earlier failed runs, changed thread counts, attached filters since replaced, inner-node inspection or program switches. A sequence of operations on one workbench gives the results a fresh workbench would give at each step.",
  ["histories", "inputs", "fault_sequences"], "all sequences of operations on one workbench, including failing ones",
  "Tests run each bench once or repeat the same input; the space of histories is unbounded.",
  ["src/runtime/workbench.cpp", "src/runtime/stack.cpp", "src/runtime/program.cpp", "src/api/workbench.cpp", "src/memory/flow.cpp"],
  [("stack and data segment reset at each launch", "src/runtime/workbench.cpp")],
  ["ts_Workbench_input/run/output/run_hook/setup"])

p("P12", "A failed memory allocation is an ordinary error, at whatever point it strikes",
  "If allocating memory for tensor data fails at any point of loading, compiling, cloning, running, filtering or reading results, the call reports an error; it does not crash, hang, leak, double-release or corrupt other objects. Once memory is available again the same objects can be used, and repeating the call gives the correct result.",
  ["fault_sequences", "programs", "histories"], "every allocation of every operation, alone and in sequences",
  "No test makes an allocation fail; every run has dozens of points to fail at.",
  ["src/core/hard_memory.cpp", "src/core/memory.cpp", "src/kernels/cpu/memory_cpu.cpp", "src/memory/flow.cpp", "src/memory/orz", "src/runtime/workbench.cpp", "src/api/declaration.h"],
  [("allocator failure raised as an exception, RAII unwinding", "src/core/hard_memory.cpp")],
  ["return values and last error of the C API; allocator accounting"])

p("P13", "Outputs stay valid and unchanged after later runs and after teardown",
  "A tensor obtained from a workbench keeps its content while the caller holds it, through later runs of the same workbench, reconfiguration and the destruction of the workbench, its program and its model. Releasing everything in any order frees all memory exactly once.",
  ["histories", "programs"], "all programs and all later histories and teardown orders",
  "Tests read outputs immediately after a run.",
  ["src/runtime/workbench.cpp", "src/api/workbench.cpp", "src/memory/flow.cpp", "src/core/tensor.cpp", "src/core/memory.cpp"],
  [("reference-counted flow memory, strong copies of outputs", "src/runtime/workbench.cpp")],
  ["ts_Workbench_output, ts_Tensor_data after later operations"])

p("P14", "Memory pools hand out disjoint live blocks and recover what is released",
  "Blocks obtained from any memory controller (including the pooling one that running programs use) never overlap while alive, keep their content through any sequence of other allocations, resizes and releases, and are usable to their full size. Released memory is reused or returned, a failing underlying allocation leaves the pool consistent, and destroying everything returns every byte exactly once.",
  ["histories", "fault_sequences"], "all sequences of allocate, resize and release with failures of the underlying allocator",
  "test/mem and test/controller allocate a few blocks once.",
  ["src/memory/flow.cpp", "src/memory/orz/vat.h", "src/memory/orz/pot.h", "src/core/controller.cpp", "src/core/hard_memory.cpp"],
  [("best-fit free list over chunks", "src/memory/orz/vat.h")],
  ["MemoryController::alloc, Memory"])

p("P15", "No failure escapes the C interface; each thread sees its own last error",
  "Every call of the C interface that fails returns its documented failure value and leaves a non-empty error message for the calling thread, for invalid arguments, failing operators, failing storage, failing user callbacks and failing allocations alike; no exception or signal reaches the caller. A failure in one thread never changes the last error seen in another thread.",
  ["inputs", "fault_sequences", "schedules"], "every call, every failing argument or environment, every interleaving of failing and succeeding threads",
  "Tests only call the interface successfully.",
  ["src/api/declaration.h", "src/api/errno.cpp", "src/api/workbench.cpp", "src/api/tensor.cpp", "src/api/module.cpp", "src/api/program.cpp"],
  [("catch-all wrappers around each entry point", "src/api/declaration.h"), ("thread-local last error string", "src/api/errno.cpp")],
  ["return values, ts_last_error_message"])

p("P16", "Context bindings nest, restore on every exit and stay inside their thread",
  "The innermost binding of a context made by a thread is the one its calls see; leaving a scope, normally or by an error, restores exactly the binding that was there before. Bindings made in one thread are never visible to another, and using a context that is not bound is reported as an error.",
  ["schedules", "histories", "fault_sequences"], "all nestings, exits by error and interleavings of threads",
  "Contexts are bound once per test; nested bindings under exceptions and other threads are never checked.",
  ["include/utils/ctxmgr_lite.h", "include/utils/ctxmgr_lite_support.h", "src/runtime/workbench.cpp", "src/engine/context.cpp", "src/core/device_context.cpp"],
  [("thread-local current pointer with saved predecessor", "include/utils/ctxmgr_lite_support.h")],
  ["ctx::get/ref, ts_Workbench_setup_context and context-dependent calls"])

p("P17", "Custom operators: created, initialised, run and freed exactly as documented",
  "For every custom operator object the system creates, it is initialised with its parameters before it runs, receives the inputs its node has, and is freed exactly once with every tensor handed to or taken from it. If creation, initialisation or running fails by any documented way, the surrounding call fails with the operator's message, nothing leaks or is freed twice, and the workbench works on the next run.",
  ["fault_sequences", "histories", "schedules"], "every point at which a custom operator callback fails, in all operation sequences and from several threads",
  "test/customop runs one operator that never fails.",
  ["src/api/operator.cpp", "src/api/declare_operator.h", "src/runtime/instruction.cpp", "src/runtime/program.cpp"],
  [("adapter owning the user object", "src/api/operator.cpp")],
  ["user callbacks, call results"])

p("P18", "Results do not depend on the number or timing of computing threads",
  "For every operator and model, the outputs are bit for bit the same for any computing-thread count and any interleaving of the computing threads, and the computing threads never access the same data without synchronisation or outside their buffers. Changing the thread count of a workbench changes only how it computes.",
  ["schedules", "configurations", "inputs"], "all thread counts, worker interleavings, operator parameters and shapes",
  "Tests run with the machine's thread count and timing; sizes where the last thread gets a partial or empty share are rarely hit.",
  ["src/kernels/cpu", "src/kernels/common", "src/runtime/runtime.cpp", "src/runtime/workbench.cpp", "include/kernels/common/openmp.h"],
  [("OpenMP loops over disjoint index ranges", "src/kernels/cpu"), ("thread number held in the runtime context", "src/runtime/runtime.cpp")],
  ["ts_Workbench_output for thread counts 1..n"])

p("P19", "Running never changes the caller's tensors, the model or another workbench",
  "Running, filtering, compiling or cloning leaves the tensors the caller passed in, the loaded model and any other workbench's parameters and results unchanged. Setting an operator parameter on one workbench changes only that workbench.",
  ["programs", "histories", "schedules"], "all models, operation sequences and interleavings of workbenches that share data",
  "Tests do not compare inputs or sibling workbenches after a run.",
  ["src/runtime/workbench.cpp", "src/runtime/program.cpp", "src/runtime/instruction.cpp", "src/kernels/cpu", "src/compiler/compiler.cpp"],
  [("operators write to newly allocated outputs; clone re-creates operators", "src/runtime/instruction.cpp")],
  ["input tensors, saved model bytes, sibling outputs"])

p("P20", "Hooks and profiling see every operator run exactly once and never alter results",
  "While a hook is bound, its before and after callbacks fire exactly once per executed operator, in execution order, with that operator's inputs and outputs, in the thread that bound it only; while a profiler is bound each executed operator is timed exactly once. Neither a failing operator, nor clock jumps, nor other threads change the results or leave the next run miscounted.",
  ["schedules", "fault_sequences", "histories"], "all programs, failing points, clock behaviours and interleavings with unhooked threads",
  "test/board runs one program once and prints.",
  ["include/board/hook.h", "src/board/profiler.cpp", "src/runtime/instruction.cpp", "include/board/board.h"],
  [("thread-local hook and profiler contexts consulted around each operator", "src/runtime/instruction.cpp")],
  ["hook callbacks, profiler board"])

# ---- not decided by this family -------------------------------------------------
p("P90", "Every operator computes its reference function",
  "For every supported operator, data type, shape and attribute, the output equals the mathematical definition of the operator within rounding.",
  ["inputs"], "all inputs, shapes and attributes of every operator",
  "test/operator and test/kernel_cpu compare a few shapes against recorded values.",
  ["src/kernels/cpu", "src/backend/base"], [("reference loops and SIMD kernels", "src/kernels/cpu")], ["operator outputs"])
p("P91", "Model compilation options preserve the computed function",
  "Translating and optimising a model (fused, packed, winograd or reduced-precision variants) gives the same outputs as the untranslated model within the precision of the option.",
  ["programs", "inputs"], "all models and options", "test/winograd compares a few convolutions.",
  ["src/compiler", "src/kernels/cpu/conv2d_winograd.cpp"], [("graph rewriting options", "src/compiler/option")], ["model outputs"])
p("P92", "Shape inference agrees with execution",
  "For every operator the inferred output types and shapes equal those of the tensors the operator actually produces.",
  ["inputs"], "all operators, attributes and input shapes", "No test compares inferred and produced shapes systematically.",
  ["src/backend/base", "src/runtime/inferer"], [("per-operator infer functions", "src/backend/base")], ["InferOperator, RunOperator"])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for d in P:
        assert len(d["title"]) <= 80, d["id"] + " title"
        f.write(json.dumps(d) + "\n")
print(len(P))
