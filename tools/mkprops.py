import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=None,observe=None):
    assert len(title)<=80,(id,len(title))
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=None
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})

p("C01","Quantized products equal the documented integer formula bit for bit",
"For 8-bit operands (signed or unsigned), on every code path the library can select on x86-64, each destination entry of a multiplication equals saturate(zero_point + rescale(bias + sum over depth of (lhs - lhs_zero_point) * (rhs - rhs_zero_point))) clamped to the requested range, where rescale rounds accumulator * multiplier * 2^(exponent-31) to nearest with ties upwards (the vector paths may do so in two successive roundings, to 32 bits and then by the negative exponent); with a 32-bit destination it equals the raw accumulator. This holds for every entry value, zero point, bias, multiplier, clamp bound and shape for which the intermediate values fit in 32 bits.",
["inputs","configurations"],
"Every value of every operand entry, zero point, bias, multiplier mantissa/exponent and clamp bound (all symbolic); portable, AVX, AVX2+FMA and AVX-512 paths; shapes over all tile remainders of the kernels within stated bounds.",
"The suite multiplies a few hundred pseudo-random matrices per path and compares paths with each other on the same values; it never covers all values, and rounding or saturation corner cases and remainder lanes are reached only by luck.",
["ruy/kernel_avx.cc","ruy/kernel_avx2_fma.cc","ruy/kernel_avx512.cc","ruy/kernel.h","ruy/kernel_common.h","ruy/kernel_x86.h","ruy/pack.h","ruy/pack_x86.h","ruy/pack_avx.cc","ruy/pack_avx2_fma.cc","ruy/pack_avx512.cc","ruy/create_trmul_params.h","ruy/frontend.h"],
[("8-bit kernels","ruy/kernel_avx2_fma.cc"),("packing with zero-point padding and column sums","ruy/pack_avx2_fma.cc"),("kernel parameter block","ruy/kernel_common.h")],
observe=["destination matrix after ruy::Mul"])

p("C02","Floating-point products accumulate exactly the dot-product terms",
"For floating-point operands, on every code path selectable on x86-64, each destination entry is the sum of the products of the matching left row and right column entries, each product taken exactly once, plus the matching bias once if there is one, clamped to the requested range; only the order of additions and intermediate rounding may vary between paths.",
["inputs","configurations"],
"Every operand entry, bias and clamp bound as a real number; portable, AVX, AVX2+FMA and AVX-512 paths; shapes over all tile remainders within stated bounds; all storage orders.",
"Float tests compare with a tolerance on random data, so a dropped, duplicated or misplaced small term in a remainder lane can stay within tolerance and only sampled shapes are run.",
["ruy/kernel_avx.cc","ruy/kernel_avx2_fma.cc","ruy/kernel_avx512.cc","ruy/kernel.h","ruy/kernel_x86.h","ruy/pack.h","ruy/pack_common.h","ruy/pack_x86.h","ruy/pack_avx.cc","ruy/pack_avx2_fma.cc","ruy/pack_avx512.cc"],
[("float kernels","ruy/kernel_avx512.cc"),("float packing","ruy/pack_avx512.cc")],
observe=["destination matrix after ruy::Mul"])

p("C03","Fixed-point rescaling rounds to nearest for every representable input",
"Rescaling a 32-bit accumulator by a fixed-point multiplier and exponent yields floor(accumulator * multiplier * 2^(exponent-31) + 1/2) whenever that value fits in 32 bits, for every accumulator, every non-negative multiplier and every exponent in the supported range; no intermediate overflow or undefined shift occurs.",
["inputs"],
"All 2^32 accumulators, all 2^31 multipliers and every exponent from -31 to 7.",
"The existing test probes a handful of constants; the 2^69 input triples cannot be enumerated.",
["ruy/apply_multiplier.cc","ruy/apply_multiplier.h"],
[("single rounding 64-bit shift","ruy/apply_multiplier.cc")],
observe=["value written to the accumulator by the rescaling entry point"])

p("C04","A multiplication touches no memory outside its declared operands",
"A multiplication writes only the rows x cols destination entries and reads only entries of the operands and elements of the per-channel bias and multiplier buffers that exist according to the declared shapes and strides; the gaps of strided matrices and the source operands are left unchanged. Scratch memory used inside the library is likewise only accessed within its own allocations, and while it is live.",
["inputs","configurations"],
"Every operand value, all storage orders and strides, bias/multiplier buffers of exactly the declared length, every x86-64 path, shapes over all tile remainders within stated bounds.",
"Tests allocate generously padded buffers and check only destination values, so a stray vector read or a write into a stride gap is invisible unless it crosses a page.",
["ruy/pack_x86.h","ruy/pack_avx.cc","ruy/pack_avx2_fma.cc","ruy/pack_avx512.cc","ruy/kernel_avx.cc","ruy/kernel_avx2_fma.cc","ruy/kernel_avx512.cc","ruy/create_trmul_params.h","ruy/mat.h"],
[("tail loops and masked loads/stores","ruy/kernel_avx2_fma.cc"),("per-channel buffer growth","ruy/create_trmul_params.h")],
observe=["all memory accesses during ruy::Mul"])

p("C05","Work tiling covers the destination exactly once for every shape",
"For every destination shape, depth, kernel tile size, scalar size, thread count and cache geometry, the planned tiling assigns each destination entry to exactly one block, every block index maps to a distinct valid block, all inner block edges are multiples of the kernel tile, and no more threads are planned than requested or than there are blocks. Planning never overflows, divides by zero or fails an internal check.",
["inputs","configurations"],
"All row/column/depth values up to the limits of addressable operands, all power-of-two kernel tiles up to 64 that need not be equal on both sides, all scalar sizes, thread counts and positive cache sizes; every traversal order and block index.",
"The existing test checks a list of a few dozen square and rectangular sizes with one cache geometry.",
["ruy/block_map.cc","ruy/block_map.h","ruy/size_util.h","ruy/side_pair.h"],
[("block size scoring and subdivision","ruy/block_map.cc"),("traversal decoding","ruy/block_map.cc")],
observe=["block coordinates handed to packing and kernels"])

p("C06","Threads compute each block once, from fully packed inputs, without races",
"When a multiplication runs on several threads, under every interleaving permitted by the C++ memory model each destination block is computed by exactly one thread exactly once, each operand block is packed exactly once, and the packing of both operand blocks happens-before every computation that reads them. No two conflicting accesses to shared memory race, and no thread spins forever while the others make progress.",
["schedules","configurations"],
"All interleavings and all reads-from choices allowed by the C++ memory model for 2 and 3 threads over small block grids, with either, both or none of the sides pre-packed.",
"Tests run whatever schedule the OS gives on strongly ordered x86, where a missing acquire/release or a rarely lost compare-exchange never shows up.",
["ruy/trmul.cc","ruy/thread_pool.cc","ruy/block_map.cc"],
[("per-block packing status compare-exchange/release store","ruy/trmul.cc"),("atomic next-block counter","ruy/trmul.cc"),("packing ahead while waiting","ruy/trmul.cc")],
state=[("packing status","per-side per-block tri-state","ruy/trmul.cc")],
observe=["packing and kernel invocations per thread"])

p("C07","Parallel task execution runs every task once and never hangs",
"Executing a batch of tasks runs every task exactly once and returns only after all of them have finished, with all their effects visible to the caller; this remains true for repeated batches of changing size and for destruction of the pool right after a batch. No interleaving, spurious wake-up or spin-timeout outcome loses a wake-up, deadlocks or races.",
["schedules","histories"],
"All interleavings of the caller and 1-2 workers over one or two consecutive batches followed by destruction, with the spin/sleep time-out outcomes and spurious wake-ups chosen by the solver.",
"Lost wake-ups need one specific interleaving between a spin time-out and a notification; stress tests hit it with negligible probability.",
["ruy/thread_pool.cc","ruy/thread_pool.h","ruy/blocking_counter.cc","ruy/wait.cc","ruy/wait.h"],
[("worker state machine","ruy/thread_pool.cc"),("spin then condition-variable wait","ruy/wait.cc"),("completion counter","ruy/blocking_counter.cc")],
observe=["task runs, return of Execute"])

p("C08","Scratch allocations are aligned, disjoint and live until released",
"Every buffer handed out by the scratch allocator is aligned to the documented boundary, large enough, and disjoint from every other buffer handed out since the last release-all; buffers stay valid until then. After a release-all all memory of the previous round is reusable without growth: repeating the same requests performs no further system allocation, and destroying the allocator frees everything it took from the system.",
["histories","inputs"],
"All sequences of up to a stated number of allocate / allocate-avoiding-aliasing / release-all calls with arbitrary sizes and arbitrary system block addresses.",
"Existing tests replay a few fixed size patterns; overlap or misalignment depends on size arithmetic and on addresses the system happens to return.",
["ruy/allocator.cc","ruy/allocator.h","ruy/system_aligned_alloc.cc"],
[("bump pointer with fallback blocks consolidated at release","ruy/allocator.cc"),("aliasing-avoidance offset","ruy/allocator.cc")],
observe=["pointers returned, system allocation calls"])

p("C09","The packed-operand cache finds exactly what was stored and stays in budget",
"Looking up an operand in the packed-operand cache reports a hit exactly when an entry for the same data pointer, source layout, packed geometry and zero point is held, and then returns the very buffer packed for it. The recorded byte total equals the sum of the bytes of the entries held, an insertion makes room by evicting least-recently-used entries first, the total never exceeds the configured budget unless a single entry is itself larger, and every evicted buffer is freed exactly once.",
["histories","inputs"],
"All histories of a stated number of lookups over operands with symbolic choice of identity, size, scalar type and zero point and a symbolic budget.",
"Existing tests use fixed 8-bit operands and one budget; mixed scalar types, re-use after eviction and tight budgets are not reached.",
["ruy/prepacked_cache.cc","ruy/prepacked_cache.h"],
[("keyed map with time stamps","ruy/prepacked_cache.cc"),("eviction loop","ruy/prepacked_cache.cc")],
observe=["action returned by the lookup, buffer pointers, total bytes"])

p("C10","Caching of constant operands never changes a product",
"For every cache policy on either or both operands, and for every sequence of multiplications sharing constant operand data, each multiplication produces the result it would produce without caching; operands whose policy or shape does not ask for caching are never kept. Clearing the cache or exceeding its budget between or during multiplications does not change results either.",
["histories","configurations","inputs"],
"All cache policies on both sides, sequences of up to a stated number of multiplications re-using the same data with different shapes, zero points, layouts or partners; all operand values.",
"The existing tests repeat one multiplication with identical arguments and compare once.",
["ruy/prepare_packed_matrices.cc","ruy/prepacked_cache.cc","ruy/create_trmul_params.h","ruy/mat.h"],
[("cache key","ruy/prepacked_cache.h"),("policy decision","ruy/prepare_packed_matrices.cc")],
observe=["destination matrices, cache content"])

p("C11","Only a built, enabled and CPU-supported code path is ever selected",
"The path used for a multiplication is always the most capable one among those compiled in that are enabled at run time; by default the enabled set is exactly the portable path plus the paths the CPU supports, and an explicit restriction is honoured until reset. Whatever the restriction, CPU features and environment override, a valid path is always selected.",
["configurations","histories"],
"Every subset of detected CPU features, every explicit path set, every value of the environment override and every sequence of up to three set/reset calls.",
"Tests run on one CPU with one feature set.",
["ruy/ctx.cc","ruy/ctx.h","ruy/path.h","ruy/cpuinfo.cc","ruy/context.cc"],
[("runtime path detection and selection","ruy/ctx.cc")],
observe=["last used path reported by the context"])

p("C12","Storage order, strides and channel orientation do not change the product",
"The mathematical product delivered does not depend on the storage orders or strides of the three matrices, and per-channel bias and multipliers are applied along the row or column dimension that was requested, in all combinations, on every x86-64 path. Each destination entry lands at the position its own layout prescribes.",
["inputs","configurations"],
"All 8 storage-order combinations, contiguous and padded strides, both channel dimensions, with and without bias and per-channel multipliers, for every operand value and bounded shapes covering square and non-square cases.",
"Tests sample random combinations of these options; the interaction of transposed destinations with per-column channels is rarely hit.",
["ruy/create_trmul_params.h","ruy/mat.h","ruy/matrix.h","ruy/pack.h","ruy/mul_params.h","ruy/kernel_common.h"],
[("destination transposition","ruy/create_trmul_params.h"),("channel-dimension flags","ruy/kernel_common.h")],
observe=["destination matrix after ruy::Mul"])

p("C13","Floating-point environment is restored after every multiplication",
"For every control-register state in which a multiplication is called, the caller's floating-point control state is the same after it returns as before, while flush-to-zero and denormals-are-zero are in force in every thread during the computation of every block.",
["inputs","configurations"],
"All 2^32 control-register values, simple and blocked code paths, calling thread and worker thread.",
"Tests never look at the control register.",
["ruy/denormal.cc","ruy/denormal.h","ruy/trmul.cc","ruy/thread_pool.cc"],
[("scoped denormal suppression","ruy/denormal.cc")],
observe=["MXCSR at kernel invocations and at return"])

p("C14","A reused context carries nothing over from one multiplication to the next",
"Multiplications performed one after another on the same context give the same results as on fresh contexts, whatever their order, shapes, types and parameters; scratch memory is all released between them, the caller's parameters and matrices are not modified, performance advisories reflect only the latest multiplication, and destroying the context releases all memory.",
["histories","inputs"],
"All values of all operands over histories of two to three multiplications with changing shape, type, bias/multiplier configuration and path on one context.",
"Tests mostly use one long-lived context but never compare against a fresh one nor account for memory.",
["ruy/ctx.cc","ruy/frontend.cc","ruy/frontend.h","ruy/allocator.cc","ruy/create_trmul_params.h","ruy/context.cc"],
[("release of scratch memory at end of Mul","ruy/frontend.cc"),("advisory reset","ruy/frontend.cc")],
observe=["destination matrices, heap balance, advisories"])

p("C15","Thread planning respects the configured limits for every problem size",
"A multiplication never uses more worker threads than the configured maximum, uses a single thread for small problems, uses the maximum allowed by the tiling when that is forced, and hands the packing and compute routines only ranges inside the (kernel-rounded) operands, for every shape whose operands are addressable. The choice between the simple and the blocked execution never changes which ranges are packed and computed overall.",
["inputs","configurations"],
"All shapes up to the addressing limit, all scalar sizes, thread limits and cache sizes; blocked executions expanded up to a stated number of blocks.",
"Large shapes are too slow or too big to run; only small sizes and a few thread counts are tested.",
["ruy/trmul.cc","ruy/block_map.cc","ruy/ctx.cc"],
[("tentative thread count","ruy/trmul.cc"),("simple-loop decision","ruy/trmul.cc")],
observe=["number of tasks, ranges passed to pack and kernel routines"])

p("C16","Size and rounding helpers are exact over their whole domain",
"The integer helpers for floor/ceiling logarithms, power-of-two tests, rounding and ceiling quotients return the mathematically exact result for every argument in their documented domain, for 32-bit and 64-bit, signed and unsigned types, without overflow.",
["inputs"],
"All 2^32 / 2^64 argument values in the documented domain.",
"Tests sample small ranges and a few powers of two.",
["ruy/size_util.h"],
[("bit-twiddling helpers","ruy/size_util.h")],
observe=["return values"])

p("C17","Hardware description falls back safely whatever the platform reports",
"Whatever processor topology, failures or cache sizes (not decreasing with the level) the platform library reports, the cache parameters exposed are strictly positive with the local size not exceeding the last-level size, equal the minimum over all processors of the sizes actually reported when detection succeeds, and fixed defaults otherwise. CPU features are reported only when detection succeeded and every required instruction subset is present.",
["configurations","fault_sequences"],
"All topologies up to a stated number of processors with every combination of missing cache levels, sharing, sizes and detection failures, and all CPU feature subsets.",
"Tests see one machine.",
["ruy/cpuinfo.cc","ruy/cpuinfo.h","ruy/cpu_cache_params.h"],
[("topology query","ruy/cpuinfo.cc")],
observe=["cache parameters, feature predicates"])

p("C18","Tuning resolution honours overrides and expires its cache",
"An explicitly set tuning is returned unchanged; otherwise the tuning detected for the current CPU is returned, and a previously detected value is re-used only while it is younger than the expiry period, after which detection is performed again. The auto placeholder is never returned.",
["histories","inputs"],
"All sequences of up to a stated number of set/resolve calls with arbitrary clock readings and arbitrary detection outcomes.",
"The test only resolves on the current machine and sleeps once.",
["ruy/tune.cc","ruy/tune.h","ruy/time.h"],
[("cached resolution with time stamp","ruy/tune.cc")],
observe=["tuning returned, number of detections"])

p("C19","Profiles account for every sample exactly once",
"Serializing a label stack and reading it back reproduces it exactly; a profile tree built from a sequence of samples gives every thread root the number of its samples, every node the number of samples passing through it, and children weights that sum to at most their parent's, with the remainder shown as an explicit other entry. Collapsing a tree keeps the weights of the nodes it keeps.",
["inputs","histories"],
"All sample sequences up to a stated number of samples and depth with symbolic labels, arguments and thread ids.",
"The test profiles one running program and checks approximate proportions.",
["ruy/profiler/instrumentation.cc","ruy/profiler/instrumentation.h","ruy/profiler/treeview.cc","ruy/profiler/treeview.h","ruy/profiler/profiler.cc"],
[("sample buffer","ruy/profiler/instrumentation.cc"),("tree population","ruy/profiler/treeview.cc")],
observe=["treeview nodes"])

p("C20","Mixed 8/16-bit integer products equal the integer formula",
"For operands of which one is 8-bit and the other 16-bit, or both 16-bit, each destination entry equals saturate(rescale(bias + sum over depth of lhs * rhs)) clamped to the requested range, with the rounding to nearest documented for 8-bit operands, on every code path selectable on x86-64; with a 32-bit destination it equals the raw accumulator.",
["inputs","configurations"],
"Every operand value, bias, multiplier and clamp (zero points are zero, as 16-bit operands require); every x86-64 path; bounded shapes covering tile remainders.",
"Only a few random cases per type combination are run.",
["ruy/kernel_x86.h","ruy/kernel_avx512.cc","ruy/pack_avx512.cc","ruy/pack_x86.h","ruy/kernel.h","ruy/pack.h"],
[("16-bit packing and kernels","ruy/pack_avx512.cc")],
observe=["destination matrix after ruy::Mul"])

p("C21","NEON kernels equal the integer formula and the float dot product",
"On 32-bit and 64-bit ARM, every selectable code path produces the documented integer formula bit for bit and the floating-point dot product up to rounding, without accessing memory outside its operands.",
["inputs","configurations"],
"All operand values and bounded shapes on the ARM code paths.",
"No ARM hardware or emulator runs in this suite.",
["ruy/kernel_arm64.cc","ruy/kernel_arm32.cc","ruy/pack_arm.cc","ruy/kernel_arm.h","ruy/pack_arm.h"],
[("inline-assembly kernels","ruy/kernel_arm64.cc")],
observe=["destination matrix after ruy::Mul"])

p("C22","Entries of large strided operands are found at their right addresses",
"The entry in row r and column c of an operand or destination lies at the data pointer plus r times stride plus c (row-major) or r plus c times stride (column-major) entries, for every row, column and stride a matrix can have, also when that offset exceeds 2^31. Consequently the part of a product computed for any block of rows and columns is the same as if these rows and columns were the first ones, on every code path selectable on x86-64, and no other memory is accessed.",
["inputs","configurations"],
"Any row, column and stride for single entries; one kernel tile at any position up to 2^20 with strides up to 2^24, or up to 2^30 with short strides, in both storage orders, with every operand value, on every x86-64 path.",
"An operand with more than 2^31 entries needs gigabytes of memory, so no test has one.",
["ruy/mat.h","ruy/matrix.h","ruy/pack.h","ruy/pack_x86.h","ruy/pack_common.h","ruy/kernel_common.h","ruy/kernel.h","ruy/kernel_x86.h"],
[("offset of an entry","ruy/mat.h"),("addresses of packed blocks","ruy/pack_x86.h"),("addresses in the kernel parameter block","ruy/kernel_common.h")],
observe=["addresses read and written by packing and kernels"])

with open("/verif/properties.jsonl","w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
print(len(P))
