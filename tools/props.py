#!/usr/bin/env python3
"""Source of /verif/properties.jsonl and /verif/MANIFEST.json.
   props.py           rewrite both files"""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, tests, files, mech, level="exploration", technique="", note=""):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=" ".join(statement.split()),
                  quantifier=dict(over=over, text=" ".join(text.split())), why_tests_cant=" ".join(tests.split()),
                  anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech]),
                  _level=level, _technique=technique or "TLA+ specification, TLC trace validation", _note=" ".join(note.split())))


GEN = ("The upstream tests that exercise this need the nanothread submodule and LLVM, which the pinned build does not "
       "include (only test_half runs), and they sample a handful of fixed inputs. ")

prop("C01", "Integer and boolean operations are exact for every operand and operand form",
     """Every arithmetic, comparison, bit-level, shift and selection operation on integers and booleans of any width returns the
     two's-complement/boolean result defined for that operation. The result is the same whether each operand is a literal, a
     size-1 array, an evaluated array, or computed within the same kernel, and with constant propagation and optimizations on
     or off. Integer division or remainder by zero yields an unspecified value but never terminates the process.""",
     ["inputs", "programs", "configurations"],
     "all operations x all integer types and bool x operand values (incl. 0, +-1, extrema, powers of two) x literal/array operand forms",
     GEN + "Operand pairs x literal forms are a product space no fixed test covers; each algebraic rewrite is a separate code path.",
     ["src/op.cpp", "src/llvm_eval.cpp"],
     [("literal folding and algebraic simplification", "src/op.cpp: jitc_var_* (eval_literal, per-op rewrites, division/modulo by power of two)"),
      ("code generation", "src/llvm_eval.cpp: jitc_llvm_render")],
     note="""Ops.tla defines every operation bit-exactly over words (Word.tla); TLC judges each recorded evaluation of the real library.
     Assumes shift amounts below the width; trusts TLC and the driver's use of the public API.""")
prop("C02", "Floating point operations follow IEEE-754 for every operand and operand form",
     """Every half/single/double arithmetic, rounding, minimum/maximum, sign, comparison, selection, fused multiply-add, square root and
     reciprocal operation returns the correctly rounded IEEE-754 result (NaN payload and sign aside), for literal and array operands
     alike. Without fast-math, simplification never changes a result: signed zeros, infinities, NaNs and subnormals are preserved.""",
     ["inputs", "programs", "configurations"],
     "all float operations x f16/f32/f64 x operand values including NaN, +-inf, +-0, subnormals, ties x literal/array forms x FastMath on/off",
     GEN + "The special-value x literal-form product is where simplifications go wrong.",
     ["src/op.cpp", "src/llvm_eval.cpp", "include/drjit-core/half.h"],
     [("literal folding and algebraic simplification", "src/op.cpp: jitc_var_*"), ("code generation", "src/llvm_eval.cpp: jitc_llvm_render"),
      ("half precision arithmetic of literals", "include/drjit-core/half.h")],
     note="""IEEE.tla implements binary16/32/64 round-to-nearest-even arithmetic exactly on words; NaN payloads unspecified; rcp checked to the
     accuracy of the correctly rounded quotient where the implementation divides; transcendental intrinsics are out of scope.""")
prop("C03", "Conversions between types preserve values; bitcasts preserve bits",
     """Converting between any two arithmetic types yields the C conversion of the value (wrapping for integers, round-to-nearest-even
     for floats, truncation toward zero for float to integer, nonzero test for bool), for literals and arrays and also when a rounding
     operation is fused into the conversion. Reinterpreting between types of equal size preserves the bit pattern.""",
     ["inputs", "programs"],
     "all ordered pairs of 12 types x values (extrema, ties, subnormals, NaN/inf where defined) x literal/array form",
     GEN + "test_half covers only scalar half<->float conversion of half.h.",
     ["src/op.cpp", "src/llvm_eval.cpp", "include/drjit-core/half.h"],
     [("cast folding", "src/op.cpp: jitc_var_cast"), ("cast code generation", "src/llvm_eval.cpp: jitc_llvm_render (VarKind::Cast, Bitcast)")],
     note="Bit-exact conversion rules in Ops.tla/IEEE.tla, judged by TLC; float-to-integer conversions are checked for representable values only.")

prop("C04", "Lazy evaluation is unobservable: results equal eager step-by-step execution",
     """A program of array operations (arithmetic, gathers, scatters, reductions, copies, element reads and writes) observed through
     evaluation, data access, element reads or printing yields exactly the values that executing each call immediately, in program
     order, would yield. It does not matter when, in which order, or how often variables are scheduled and evaluated, which handles
     share subexpressions (deduplication), or which variables are freed meanwhile.""",
     ["programs", "schedules", "histories"],
     "all programs over array values x placements of schedule/eval/read calls x freeing order x symbolic/evaluated mode",
     GEN + "Evaluation timing and expression sharing multiply: a fixed test picks one schedule.",
     ["src/eval.cpp", "src/var.cpp", "src/op.cpp", "src/llvm_eval.cpp", "src/llvm_ts.cpp"],
     [("scheduling, traversal, kernel grouping by size", "src/eval.cpp: jitc_eval_impl, jitc_var_traverse, jitc_assemble"),
      ("local value numbering", "src/var.cpp: jitc_var_new, jitc_lvn_drop, src/internal.h: VariableKey"),
      ("pending side effects (dirty variables)", "src/var.cpp: jitc_var_new_node_*, jitc_var_eval, jitc_var_data")],
     note="""VarStore.tla is the eager reference store (handle -> array value); TLC replays every public call recorded from random programs and
     compares each observation. Values are bounded integers so that summation order cannot matter.""")
prop("C05", "Writes never leak between handles: copy-on-write isolation",
     """A scatter, atomic update or element write changes only the handle through which it was requested. Every other handle keeps the
     value it had: copies, views and resized versions, handles holding extra references to the same variable, expressions computed
     from the old value but not yet evaluated, and literals. Memory mapped from the user is changed only by writes to the
     mapping handle.""",
     ["programs", "histories"],
     "all histories of sharing (references, copies, shrink/resize views, pending expressions) x writes (scatter, packet scatter, atomics, jit_var_write)",
     GEN + "Isolation depends on reference counts and pending work at the instant of the write.",
     ["src/op.cpp", "src/var.cpp", "src/eval.cpp"],
     [("copy-on-write decision", "src/op.cpp: jitc_var_scatter*, src/var.cpp: jitc_var_write, jitc_var_copy, jitc_var_shrink, jitc_var_resize"),
      ("flushing before conflicting writes", "src/op.cpp: jitc_var_scatter (is_dirty handling)")],
     note="Same specification as C04; programs biased toward sharing, views, writes and reading back every alias.")
prop("C06", "Gathers read exactly the selected elements; masked lanes read nothing",
     """A gather returns source[index] for every active lane and zero for lanes disabled by the mask argument, for every element type,
     index type, source form (literal, unevaluated, evaluated, mapped) and packet size, and scalar/array combination. Lanes disabled by
     the mask argument or the mask stack never access memory, whatever their index. In debug mode out-of-bounds lanes are
     suppressed.""",
     ["inputs", "programs", "configurations"],
     "all element types x index types x masks (literal/array/mask stack) x sizes incl. non-multiples of the vector width x packet sizes x debug mode",
     GEN + "Gather has many elided and re-indexed forms depending on how operands were built.",
     ["src/op.cpp", "src/llvm_eval.cpp", "src/llvm_packet.cpp"],
     [("gather construction, elision and re-indexing", "src/op.cpp: jitc_var_gather, jitc_var_gather_packet, jitc_var_check_bounds"),
      ("code generation", "src/llvm_eval.cpp (VarKind::Gather), src/llvm_packet.cpp"), ("mask stack", "src/var.cpp: jitc_var_mask_apply")],
     note="VarStore.tla defines gathers lane by lane; masked lanes carry wild indices in the generated programs.")
prop("C07", "Scatters and scatter-reductions apply every active lane exactly once",
     """A scatter writes, and a scatter-reduction (add, min, max, and, or) combines, the value of every active lane into the addressed
     element exactly once, for every type, reduction mode, index type, packet size, conflict pattern and target size. Atomic
     increment, exchange and compare-exchange return prior values consistent with some serial order of the lanes. Inactive lanes
     have no effect.""",
     ["inputs", "programs", "schedules"],
     "all types x reductions x modes (auto/direct/local/no-conflicts/expand/permute) x conflicts between lanes, SIMD packets and worker threads x masks",
     GEN + "Conflicts across lanes, packets and threads depend on data and scheduling.",
     ["src/op.cpp", "src/llvm_scatter.cpp", "src/llvm_packet.cpp", "src/llvm_ts.cpp", "src/var.cpp"],
     [("mode selection and expansion", "src/op.cpp: jitc_var_scatter, jitc_var_infer_reduce_mode, src/var.cpp: jitc_var_expand, jitc_var_reduce_expanded"),
      ("generated reductions", "src/llvm_scatter.cpp"), ("final reduction of expanded targets", "src/llvm_ts.cpp: reduce_expanded"),
      ("atomics", "src/op.cpp: jitc_var_scatter_inc/exch/cas")],
     note="""Reductions are commutative over the generated integers, so the specified result is schedule independent; atomic results are
     accepted iff TLC finds a serial order explaining them.""")
prop("C08", "Horizontal operations return the mathematically defined result at every size",
     """Full and block reductions (sum, product, min, max, and, or), dot products, inclusive/exclusive and reversed (block) prefix
     reductions, compression, key permutation, all/any tests, block copies and element-wise aggregation return the result
     defined by the corresponding sequential loop, for every supported type, input form and size, including sizes that
     are not multiples of the block, vector or work-unit size.""",
     ["inputs", "schedules"],
     "all types x operations x sizes x block sizes x literal/array inputs x inclusive/exclusive/reverse x worker scheduling",
     GEN + "Work splitting depends on size and thread count; partial last blocks are separate paths.",
     ["src/llvm_ts.cpp", "src/var.cpp", "src/llvm_red.h"],
     [("parallel reductions, scans, compression, permutation", "src/llvm_ts.cpp"),
      ("entry points and literal shortcuts", "src/var.cpp: jitc_var_reduce, jitc_var_block_reduce, jitc_var_block_prefix_reduce, jitc_var_compress, jitc_var_reduce_dot")],
     note="Sequential definitions in VarStore.tla; integer-valued data keeps floating point sums exact. Permutations are accepted if they stably partition.")

PNOTE = """Prog.tla defines every lane as a sequential interpreter; TLC computes the result of each generated program and compares all recorded
     outcomes (symbolic and evaluated modes, flag sets, evaluation points, scheduling). No variable may remain alive afterwards."""
PSTATE = ("The programs are random: nesting, state variables, masks, types and sizes form an unbounded space of programs. ")

prop("C09", "Loops give every lane the result of running it sequentially",
     """A loop, traced symbolically or executed step by step (evaluated mode, with or without compression), leaves each lane's state
     variables with the values that running the loop for this lane alone would produce, and performs its side effects once per
     iteration in which the lane is active. This holds under nesting, for lanes that never enter, for loop-invariant or
     unused state, differing sizes, and with loop optimizations on or off.""",
     ["inputs", "programs", "configurations"],
     "all loop nests x state variables (types, sizes, invariants) x per-lane trip counts x enclosing control flow x symbolic/evaluated x flags",
     GEN + PSTATE, ["src/loop.cpp", "src/llvm_eval.cpp", "src/eval.cpp", "src/var.cpp"],
     [("loop tracing and simplification", "src/loop.cpp: jitc_var_loop_start, jitc_var_loop_cond, jitc_var_loop_end"),
      ("code generation", "src/llvm_eval.cpp (LoopStart/LoopPhi/LoopEnd)"), ("scheduling of loop state", "src/eval.cpp: jitc_var_traverse")], note=PNOTE)
prop("C10", "Conditionals merge both branches lane by lane",
     """A symbolic conditional, and the equivalent evaluated execution of both branches under masks, gives each lane the values and
     side effects of exactly the branch its condition selects. This holds under nesting with loops and calls, for uniform and
     literal conditions, outputs of differing sizes, branches returning literals, inputs or variables with pending writes, and
     unused outputs.""",
     ["inputs", "programs", "configurations"],
     "all conditionals x outputs (literal, input, computed, dirty; any size) x per-lane conditions x enclosing control flow x flags",
     GEN + PSTATE, ["src/cond.cpp", "src/llvm_eval.cpp", "src/eval.cpp", "src/var.cpp"],
     [("merging of branch outputs", "src/cond.cpp: jitc_var_cond_start, jitc_var_cond_append, jitc_var_cond_end"),
      ("mask stack", "src/var.cpp: jitc_var_mask_push, jitc_var_mask_apply"), ("code generation", "src/llvm_eval.cpp (CondStart/CondMid/CondEnd/CondOutput)")], note=PNOTE)
prop("C11", "Indirect calls dispatch every lane to its own callee",
     """An indirect call to a set of callables, indexed per lane, returns for each active lane what the selected callable computes from
     that lane's arguments, and performs its side effects; lanes that are masked, or have index 0, get zeros and no side
     effects. Getter-style calls, nested calls, calls inside loops and conditionals, evaluated dispatch, devirtualization, merging
     of identical functions, and per-instance data do not change this.""",
     ["inputs", "programs", "configurations"],
     "all sets of callables x instance ids (gaps, single) x per-lane indices x masks x arguments/outputs x nesting x flags",
     GEN + PSTATE, ["src/call.cpp", "src/eval.cpp", "src/llvm_eval.cpp", "src/llvm_core.cpp"],
     [("call construction, devirtualization", "src/call.cpp: jitc_var_call, jitc_var_call_getter, jitc_var_call_reduce, jitc_var_call_analyze"),
      ("assembly and merging of callables", "src/eval.cpp: jitc_assemble_func"), ("code generation", "src/llvm_eval.cpp (Call, CallOutput, CallGetter)")], note=PNOTE)
prop("C12", "Optimization flags and evaluation modes never change results",
     """A program yields the same values with every combination of optimization and debugging flags (constant propagation, value
     numbering, loop/call optimization, merged functions, packet operations, scatter strategies, debug mode, kernel history, launch
     blocking), with symbolic or evaluated control flow, with literals made opaque, and wherever evaluation is forced in between.""",
     ["programs", "configurations", "schedules"],
     "all programs x all sets of flags x evaluation points x literal/opaque scalars x worker scheduling",
     GEN + "The flags form 2^20 combinations; each program x combination pair is its own path through the tracer.",
     ["src/op.cpp", "src/var.cpp", "src/loop.cpp", "src/cond.cpp", "src/call.cpp", "src/eval.cpp"],
     [("flag handling", "src/op.cpp, src/var.cpp, src/loop.cpp, src/call.cpp (jitc_flags() & JitFlag::*)"),
      ("value numbering", "src/var.cpp: jitc_var_new, jitc_lvn_put, jitc_lvn_drop")], note=PNOTE)
prop("C22", "Local variable arrays behave like a private array per lane",
     """A variable array holds, per lane, the last value written to each element by an active write, or its initial value. Reads return
     the current element, and a read or write through one version of the array is not affected by writes to other versions.
     This holds for uniform and per-lane indices, masked accesses, and arrays carried through loops.""",
     ["inputs", "programs"],
     "all sequences of array initializations, reads and writes x indices (literal/uniform/per lane) x masks x control flow x element types",
     GEN + "Whether a copy is made depends on the whole access history of the array.",
     ["src/array.cpp", "src/llvm_array.cpp", "src/loop.cpp", "src/cond.cpp"],
     [("array construction", "src/array.cpp: jitc_array_init, jitc_array_read, jitc_array_write"), ("copy elision", "src/array.cpp: jitc_process_array_op"),
      ("code generation", "src/llvm_array.cpp")],
     note=PNOTE + " Known finding: writes within a conditional to a previously written array are lost. Arrays within callables are unsupported.")

prop("C18", "Replaying a frozen function is equivalent to executing it",
     """Between jit_freeze_start and jit_freeze_stop, operations execute as usual while kernel launches and other operations on memory are
     recorded. jit_freeze_replay with other inputs of the same types yields the outputs and side effects that tracing the function with these
     inputs would have produced (when jit_freeze_dry_run accepts them), also after the kernel cache was cleared or flags have changed, and for inputs
     of a different width. Pausing, resuming and aborting a recording affect no result, and no variables or memory leak.""",
     ["inputs", "programs", "configurations", "schedules"],
     "all programs (kernels, reductions, scans, scatter-reductions, compression, side effects) x recorded inputs x sequences of replays x inputs x widths",
     GEN + "A replay bypasses tracing: sizes, allocation, expansion and in-place updates are re-derived by heuristics from the recorded history.",
     ["src/record_ts.cpp", "src/record_ts.h", "src/eval.cpp"],
     [("recording", "src/record_ts.cpp: RecordThreadState, jitc_freeze_start, jitc_freeze_stop, jitc_freeze_abort"),
      ("replay", "src/record_ts.cpp: Recording::replay, replay_launch, replay_expand"), ("specification", "spec/Freeze.tla, spec/FreezeTrace.tla")], note=PNOTE)

prop("C14", "Allocations never overlap and their memory is never recycled too early",
     """Live allocations never overlap, are aligned and at least as large as requested, and keep their contents until they are freed, also while
     memory is freed and recycled with operations still queued. Host and shared allocations may be written by the host at once; no queued operation
     touches them. Migration preserves contents. Freed memory is returned when the cache is flushed, whichever thread freed it; the peak usage covers
     the live allocations; unknown addresses and exhausted memory raise errors that change nothing.""",
     ["histories", "schedules"],
     "all histories of allocation, release, migration, flushing and asynchronous operations x sizes x backends x shared/ordinary x threads x order of execution",
     GEN + "Premature recycling corrupts data only if an operation that is still queued runs after the memory was reused.",
     ["src/malloc.cpp", "src/malloc.h", "src/llvm_ts.cpp"],
     [("allocation cache", "src/malloc.cpp: jitc_malloc, jitc_free, jitc_flush_malloc_cache, jitc_malloc_migrate"),
      ("deferred release", "src/llvm_ts.cpp: LLVMThreadState::flush_deferred_free, barrier")],
     note="""Mem.tla: blocks with addresses and contents, eager semantics; AllocMC.tla: exhaustive model of deferred release. A simulated scheduler postpones
     queued work. Allocation sizes and caching policy are not specified.""")
prop("C15", "Queued operations take effect in issue order; waiting waits for all of them",
     """Kernels, asynchronous copies and fills, aggregation and host callbacks of a thread take effect in the order in which they were issued.
     Synchronization (jit_sync_thread, jit_sync_device, jit_sync_all_devices, jit_memcpy, jit_event_wait) returns only after everything issued before has finished,
     an event reports completion only then, and host callbacks run exactly once, when the preceding work is complete.""",
     ["histories", "schedules"],
     "all sequences of queued operations, callbacks, events and synchronization x threads x order in which the pool executes tasks",
     GEN + "A missing dependency is visible only for particular task orders, which a thread pool rarely produces.",
     ["src/llvm_ts.cpp", "src/init.cpp", "src/eval.cpp", "src/util.cpp"],
     [("task graph", "src/llvm_ts.cpp: submit_cpu, LLVMThreadState::barrier, launch, memset_async, memcpy_async, aggregate, enqueue_host_func"),
      ("synchronization", "src/init.cpp: jitc_sync_thread, jitc_sync_device, jitc_sync_all_devices"), ("events", "src/llvm_ts.cpp: jitc_llvm_event_*")],
     note="""Mem.tla executes operations at issue; contents read by the host or by callbacks must agree. The simulated scheduler runs ready tasks in random
     order and postpones them until something waits.""")
prop("C16", "The registry assigns unique, compact ids that map back to the pointer",
     """A registered pointer has exactly one id, unique within its (variant, domain) and as low as possible: the smallest unused one. Looking up
     an id returns the pointer, looking up the pointer returns the id, and the bound is the largest id in use. Removed ids are reused. Clearing the
     registry or shutting down disables the registered pointers (id 0) until they are removed. Null, duplicate and unknown pointers raise errors that change nothing.""",
     ["histories"],
     "all histories of registration, removal, lookup, clearing and shutdown x pointers x variants x domains",
     GEN + "Reuse of ids depends on the whole history of removals.",
     ["src/registry.cpp", "src/registry.h", "src/free_slots.h"],
     [("forward and reverse maps", "src/registry.cpp: jitc_registry_put, jitc_registry_remove, jitc_registry_clear, jitc_registry_shutdown"),
      ("free list", "src/free_slots.h: FreeSlots")],
     note="Registry.tla is the complete state machine; RegistryMC explores it exhaustively, RegistryTrace judges recorded histories.")

prop("C17", "The kernel cache never affects results; damaged entries are replaced",
     """A kernel is compiled when it is neither in memory nor on disk, loaded from disk when a valid entry exists, and reused from memory otherwise; the launch statistics and the kernel
     history report this truthfully, and equal kernels have equal hashes, also in other processes. Whatever the cache directory contains
     (entries that are truncated, modified, exchanged, or unreadable), results are correct and unusable entries are replaced. Entries appear atomically: a crash or I/O
     error at any point leaves no entry or a valid one. The periodic sweep removes the least recently used entries until the cache fits the configured size, and nothing else.
     Flushing the kernel cache affects the memory only.""",
     ["histories", "crash points", "faults", "inputs"],
     "all histories of sessions, program executions, flushes, restarts, damage x crash or I/O error at each file system operation x cache sizes and ages of entries",
     GEN + "The outcome depends on the history of the directory and on the exact point at which a process dies.",
     ["src/io.cpp", "src/eval.cpp", "src/init.cpp"],
     [("disk cache", "src/io.cpp: jitc_kernel_load, jitc_kernel_write, jitc_cache_init"), ("eviction", "src/io.cpp: jitc_cache_sweep"),
      ("memory cache, statistics", "src/eval.cpp: jitc_run; src/io.cpp: jitc_flush_kernel_cache"), ("specification", "spec/Cache.tla, spec/CacheTrace.tla, spec/CacheMC.tla")],
     note="""Cache.tla: per session memory, disk entries with their state, results by Prog. CacheMC explores the publication protocol at the granularity
     of file system operations exhaustively. The driver injects crashes and errors by interposing the C library's file operations within a scratch directory.""")

prop("C19", "Concurrent threads do not affect each other's results",
     """Threads may use the library at the same time. Every program that a thread executes yields the results and side effects that it yields when executed alone, and a variable
     shared between threads keeps its value: any thread may evaluate it, compute with it, or write to its own copy. This also holds while
     another thread compiles, launches, synchronizes, allocates, or flushes caches (also on behalf of all threads). No thread blocks forever, queued work is never lost, and
     in the end no variables remain.""",
     ["inputs", "programs", "interleavings"],
     "all programs x interleavings of the threads at the points where the library releases its lock x shared variables x flags",
     GEN + "The library opens its global lock in the middle of compilation, launches, allocation and synchronization; what goes wrong in these windows depends on the interleaving.",
     ["src/init.cpp", "src/eval.cpp", "src/malloc.cpp", "src/llvm_ts.cpp", "src/var.cpp"],
     [("global lock and the windows in which it is released", "src/internal.h: State::lock, unlock_guard; src/eval.cpp: jitc_eval, jitc_run"),
      ("operations on behalf of all threads", "src/init.cpp: jitc_sync_device, jitc_sync_all_devices; src/malloc.cpp: jitc_flush_malloc_cache; src/io.cpp: jitc_flush_kernel_cache"),
      ("task queue shared by all threads", "src/llvm_ts.cpp: submit_cpu, jitc_task"), ("specification", "spec/Threads.tla, spec/ThreadsTrace.tla")],
     note="""The driver intercepts the lock operations of the library (built with DRJIT_USE_STD_MUTEX) and runs one thread at a time; a seeded scheduler picks the next
     thread whenever the lock is released. Interleavings below that granularity (data races) are not explored.""")

prop("C13", "Variables live exactly as long as something refers to them",
     """A variable exists while the user, another variable, the mask stack, or pending work refers to it, and is released, together with everything that only it referred to, when the last
     reference disappears. Requests neither lose nor retain references, whether they succeed or fail, and neither do recordings (loops, conditionals, function calls) that are abandoned.
     A callback attached to a variable is invoked when the variable is evaluated, and exactly once when it is freed. A variable is dirty exactly while pending work writes to it, and
     evaluation leaves nothing pending. When all references are gone and nothing is pending, no variable and no memory remains in use.""",
     ["histories"],
     "all histories of requests (operations, scatters, atomics, reductions, copies, views, evaluation, callbacks, masks, abandoned recordings) x sharing of operands x flags",
     GEN + "A lost or leaked reference depends on which operands are shared, literal, evaluated or dirty, and shows only much later.",
     ["src/var.cpp", "src/op.cpp", "src/eval.cpp", "src/loop.cpp", "src/cond.cpp", "src/api.cpp"],
     [("reference counting", "src/var.cpp: jitc_var_inc_ref, jitc_var_dec_ref, jitc_var_free"), ("ownership of operands, results, targets of scatters", "src/op.cpp, src/var.cpp: jitc_var_new"),
      ("side effects and evaluation", "src/eval.cpp: jitc_eval; src/var.cpp: jitc_var_mark_side_effect"), ("recordings", "src/loop.cpp, src/cond.cpp, src/record.cpp"),
      ("specification", "spec/Life.tla, spec/LifeTrace.tla")],
     note="""The driver records the whole variable graph (jit_var_graphviz) after each request; Life.tla accounts for every reference: user, edges of the graph, mask stack, queue of side effects.""")

prop("C20", "Invalid requests are refused with an exception and change nothing",
     """A request with operands of incompatible sizes, missing (empty) or unsuitable operands, types or positions that do not match, an unsupported reduction, an invalid label,
     or that requires the contents of a symbolic variable raises an exception. It creates no variable, no memory and no pending work, and every variable keeps its contents, type, size and references;
     the library remains usable. Valid requests are not refused, and their results have the specified type and size. A recording can be abandoned at any point without a trace.""",
     ["inputs", "histories"],
     "all requests x sizes, types and states of the operands (empty, literal, unevaluated, evaluated, dirty, symbolic) x histories that precede and follow",
     GEN + "Errors are raised in the middle of operations that already own references, memory or queue entries.",
     ["src/op.cpp", "src/var.cpp", "src/api.cpp", "src/loop.cpp", "src/cond.cpp"],
     [("size checks", "src/op.cpp: jitc_var_check"), ("checks of gathers, scatters and atomics", "src/op.cpp: jitc_var_gather*, jitc_var_scatter*"),
      ("checks of array operations", "src/var.cpp: jitc_var_resize, jitc_var_shrink, jitc_var_read, jitc_var_write, jitc_var_reduce, jitc_var_reduce_dot, jitc_var_block_reduce, jitc_var_any, jitc_var_mask_apply"),
      ("recordings", "src/loop.cpp, src/cond.cpp, src/record.cpp"), ("specification", "spec/Life.tla: Valid, Refused, Res")],
     note="""Life.tla decides for each request whether it is valid, and what a refused one may change (nothing); the driver records the whole variable graph, the contents of the operands and the memory in use.""")

NA = []


def na(id, title, statement, over, text, tests, files, mech, reason):
    prop(id, title, statement, over, text, tests, files, mech)
    p = P.pop()
    p["_reason"] = " ".join(reason.split())
    NA.append(p)


na("C90", "GPU backends (CUDA, OptiX, Metal) agree with the LLVM backend",
   """Every operation yields the same results on the CUDA and Metal backends as on the LLVM backend, up to documented precision
   differences, and textures and ray tracing behave as specified.""",
   ["inputs", "programs", "configurations"], "all programs x all backends", "Needs GPUs.",
   ["src/cuda_eval.cpp", "src/metal_eval.cpp", "src/cuda_tex.cpp"],
   [("PTX code generation", "src/cuda_eval.cpp"), ("MSL code generation", "src/metal_eval.cpp")],
   "No NVIDIA or Apple GPU, driver or PTX/MSL executor exists in the sandbox, so no behaviour of these backends can be observed.")
