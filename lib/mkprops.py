#!/usr/bin/env python3
"""Writes properties.jsonl (kept as code for readability)."""
import json
import os
P = []


def p(id, title, statement, over, text, why, files, mech, observe, state=()):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(
        id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
                     state=[dict(zip(("name", "meaning", "where"), s))
                            for s in state],
                     mechanism=[dict(name=a, where=b) for a, b in mech],
                     observe_at=observe, hook_needed=None)))


p("C01", "t1ha2 at-once hashing always returns the specified 64/128-bit value",
  "For every buffer, length (0 up to beyond 4 GiB), seed and address, t1ha2_atonce() returns exactly the 64-bit value, "
  "and t1ha2_atonce128() exactly the 128-bit value (returned half and the half stored via extra_result), which the t1ha2 "
  "algorithm defines. The value depends on nothing except the bytes, the length and the seed, and is the same for 32-bit "
  "and 64-bit builds, every compiler, optimization level and code path.",
  ["inputs", "configurations"],
  "all data, lengths, seeds, alignments, distances to page ends; x86 32/64-bit builds and the code paths which the preprocessor can select",
  "The tests compare 81 fixed vectors per function (lengths up to 247, one data pattern, a few alignments) and never look at the "
  "second half of a 128-bit result; any other length, seed, data, address or build is not reached.",
  ["src/t1ha2.c", "src/t1ha_bits.h", "t1ha.h"],
  [("4-lane block loop, squash, tails AB/ABCD, final128", "src/t1ha2.c"),
   ("fetch/tail readers for every alignment strategy, mul_64x64_128, mux64, final64", "src/t1ha_bits.h")],
  ["return value of t1ha2_atonce", "return value and *extra_result of t1ha2_atonce128"],
  [("state.n.{a,b,c,d}", "256-bit accumulator", "src/t1ha2.c")])

p("C02", "t1ha1_le and t1ha1_be always return the specified 64-bit value",
  "For every buffer, length (0 up to beyond 4 GiB), seed and address, t1ha1_le() and t1ha1_be() return exactly the values which the "
  "t1ha1 algorithm defines over little-endian, respectively big-endian, words. The values depend on nothing except the bytes, the "
  "length and the seed, and are the same for 32-bit and 64-bit builds, every compiler, optimization level and code path.",
  ["inputs", "configurations"],
  "all data, lengths, seeds, alignments, distances to page ends; x86 32/64-bit builds and the code paths which the preprocessor can select",
  "81 fixed vectors per function, lengths up to 247, few seeds; byte-swapping and tail readers are exercised on one data pattern only.",
  ["src/t1ha1.c", "src/t1ha_bits.h"],
  [("T1HA1_BODY loop and tail", "src/t1ha1.c"),
   ("fetch64_be_*, tail64_be_*, bswap64, mux64", "src/t1ha_bits.h")],
  ["return values of t1ha1_le and t1ha1_be"])

p("C03", "Streaming t1ha2 depends only on the concatenated data, for any history",
  "For every pair of seeds and every sequence of updates (any sizes including zero with a NULL pointer, any addresses, any number of "
  "calls, totals beyond 4 GiB) t1ha2_final() returns exactly the 64-bit value (extra_result NULL) or the 128-bit value (extra_result "
  "given) which the algorithm defines for the concatenation of the chunks, so two segmentations of the same data always agree. A context "
  "may be copied or moved between calls, any number of contexts may be interleaved, the chunks' memory may be reused after each update, "
  "and t1ha2_init() makes any memory, including a used or finalized context, a fresh context.",
  ["histories", "inputs"],
  "all histories of init/update/final/copy over any number of contexts, all segmentations, seeds, data, addresses",
  "The tests hash each vector with at most a couple of fixed segmentations of up to 247 bytes, on one fresh context at a time, and only "
  "check the low half; totals, partial-block states, interleavings and reuse are unbounded.",
  ["src/t1ha2.c", "t1ha.h"],
  [("t1ha2_update partial buffer, t1ha2_final bit count", "src/t1ha2.c")],
  ["return value and *extra_result of t1ha2_final", "contents of the context"],
  [("ctx->partial", "bytes pending in the block buffer, 0..31", "t1ha.h"),
   ("ctx->total", "total number of bytes", "t1ha.h"),
   ("ctx->buffer", "pending bytes", "t1ha.h")])

p("C04", "Every t1ha0 variant always returns its specified 64-bit value",
  "For every buffer, length, seed and address, t1ha0_32le(), t1ha0_32be(), t1ha0_ia32aes_noavx(), t1ha0_ia32aes_avx() and "
  "t1ha0_ia32aes_avx2() return exactly the values which their algorithms define, with noavx and avx always equal to each other. "
  "t1ha0() and the function returned by t1ha0_resolve() always return the same value as the variant that was selected; the values "
  "depend only on the bytes, the length and the seed and do not depend on compiler, optimization level, 32/64-bit mode or code path.",
  ["inputs", "configurations"],
  "all data, lengths (up to beyond 4 GiB), seeds, alignments; x86 32/64-bit builds, with and without AES-NI/AVX/AVX2",
  "81 fixed vectors per variant; the 128-byte main loops of the AES variants run at most once or twice in them, and most combinations "
  "of remaining 16/32/64-byte blocks and tails are never reached.",
  ["src/t1ha0.c", "src/t1ha0_ia32aes_a.h", "src/t1ha0_ia32aes_b.h", "src/t1ha_bits.h"],
  [("T1HA0_BODY, final32", "src/t1ha0.c"),
   ("AES main loop, 64/32/16-byte steps, tail", "src/t1ha0_ia32aes_a.h, src/t1ha0_ia32aes_b.h")],
  ["return values of all variants"])

p("C05", "t1ha0 dispatch selects a runnable, documented variant on any CPU and OS",
  "On every combination of CPU and OS features, t1ha0_resolve() and t1ha0() select the variant that the documentation assigns (AES-NI "
  "with AVX2, AES-NI with AVX, AES-NI only, else the portable one for the word size), and no instruction outside the features that both "
  "the CPU reports and the OS has enabled is ever executed by the selection or by the selected code. t1ha0() works from the first "
  "possible moment (static constructors, before main, via dlopen) and in every link mode and instrumented build, with IFUNC or function "
  "pointers, and the selection is always the same within a machine.",
  ["configurations", "inputs", "schedules"],
  "all CPUID/XGETBV answers (AES, OSXSAVE, AVX, AVX2, XCR0, maximum leaf, unrelated bits), link modes, moments of the first call",
  "The tests run on one machine with one feature set, after start-up, in one link mode; a wrong bit mask or missing OS check is invisible there.",
  ["src/t1ha0.c", "src/t1ha_selfcheck.h", "src/t1ha0_selfcheck.c", "t1ha.h", "Makefile"],
  [("t1ha_ia32cpu_features, t1ha_ia32_*_avail, t1ha0_resolve", "src/t1ha0.c, src/t1ha_selfcheck.h"),
   ("IFUNC / t1ha0_funcptr with constructor", "src/t1ha0.c"),
   ("per-file -m flags", "Makefile")],
  ["result of t1ha0_resolve", "executed instructions", "CPUID/XGETBV executions", "t1ha0 calls at start-up"],
  [("t1ha0_funcptr", "selected implementation when IFUNC is off", "src/t1ha0.c")])

p("C06", "No memory outside the input's pages is touched; only outputs are written",
  "For every function, buffer, length and address, reading never goes beyond the memory pages that hold the input (a buffer may start or "
  "end at an unmapped page), and with length zero the data pointer is not dereferenced at all. The input is never written, nothing is "
  "written except the context and extra_result (which is always stored when given), and nothing beyond the context object is touched by the "
  "streaming functions.",
  ["inputs", "histories"],
  "all functions, lengths, alignments and positions of the buffer, context and extra_result relative to inaccessible and read-only pages",
  "The tests' buffers lie inside larger arrays, so an access beyond the input never faults there.",
  ["src/t1ha_bits.h", "src/t1ha0.c", "src/t1ha1.c", "src/t1ha2.c", "src/t1ha0_ia32aes_a.h", "src/t1ha0_ia32aes_b.h"],
  [("can_read_underside() oneshot reads within a page", "src/t1ha_bits.h"),
   ("tail64_*/tail32_* readers, detent loops", "src/t1ha_bits.h, src/t1ha0.c")],
  ["SIGSEGV at guard pages", "contents of guarded canaries around outputs"])

p("C07", "With oneshot reads off or under ASan, exactly the given bytes are read",
  "When T1HA_USE_FAST_ONESHOT_READ is 0, and in builds with AddressSanitizer, no function ever reads a byte outside of the input "
  "[data, data+length), for every length, alignment and code path, so memory-checking tools stay quiet on correct callers. Every byte of the "
  "input is actually read.",
  ["inputs", "configurations"],
  "all functions, lengths, alignments, with T1HA_USE_FAST_ONESHOT_READ=0 (32/64-bit, all unaligned-access settings) or ASan (gcc, clang)",
  "The tests are not run with a byte-exact memory monitor, and the alternative tail readers are not even compiled in the default build.",
  ["src/t1ha_bits.h", "src/t1ha0.c", "src/t1ha2.c"],
  [("switch-based tail readers", "src/t1ha_bits.h, src/t1ha0.c"),
   ("__SANITIZE_ADDRESS__ tests", "src/t1ha_bits.h")],
  ["ASan reports", "valgrind reports with byte-granular NOACCESS"])

p("C08", "Results never depend on uninitialised or surrounding memory",
  "The result of every function is determined by the input bytes, length and seeds alone: it does not change with the bytes before or after "
  "the buffer, the buffer's address or alignment, the previous contents of the context before t1ha2_init(), of extra_result, of the stack or "
  "of registers. No control flow or result may depend on an uninitialised or out-of-range byte, even if such bytes are loaded by an "
  "oneshot read.",
  ["inputs", "histories", "configurations"],
  "all inputs, all contents of the surrounding memory, prior contexts, stacks",
  "Tests compare fixed vectors in fixed surroundings; a dependence on neighbouring bytes may stay hidden when those bytes happen to be the same.",
  ["src/t1ha_bits.h", "src/t1ha0.c", "src/t1ha2.c"],
  [("masks and shifts of the oneshot readers", "src/t1ha_bits.h, src/t1ha0.c"),
   ("init_ab/init_cd, context set-up", "src/t1ha_bits.h, src/t1ha2.c")],
  ["MSan and valgrind definedness of results and branches", "differential executions"])

p("C09", "No undefined behaviour or failed assertion for any valid call",
  "For every valid call of the public functions (including NULL data with zero length, any alignment of the data, any history of a "
  "context) no undefined behaviour occurs: no misaligned access where the platform settings forbid it, no invalid shift, overflow of signed types "
  "or pointers, out-of-bounds index, NULL passed to a nonnull parameter or unreachable point; and no assertion ever fails.",
  ["inputs", "histories", "configurations"],
  "all valid calls; all settings of unaligned access, oneshot reading, 128-bit integers, endianness-dependent helpers reachable natively",
  "The tests run without UBSan and with assertions off; misaligned or NULL corner cases work by luck on x86.",
  ["src/t1ha_bits.h", "src/t1ha0.c", "src/t1ha1.c", "src/t1ha2.c", "src/t1ha_selfcheck.c"],
  [("typed loads in fetch*_aligned/unaligned", "src/t1ha_bits.h"),
   ("unreachable() in tail switches, assert() in t1ha2_update", "src/t1ha_bits.h, src/t1ha2.c")],
  ["UBSan reports", "assertion failures"])

p("C10", "All functions are thread-safe, reentrant and free of hidden state",
  "Any number of threads may call any functions at the same time on shared input and on separate contexts without data races and with the same "
  "results as sequentially; a call may be interrupted at any instruction by a signal handler that calls any functions, without affecting "
  "either result. There is no hidden mutable state: calls do not influence later calls, and no locks, heap or thread-local state are needed.",
  ["schedules", "histories"],
  "all interleavings of threads and of nested calls at every instruction boundary, all orders of calls",
  "The tests are single-threaded and have no signal handlers.",
  ["src/t1ha0.c", "src/t1ha1.c", "src/t1ha2.c", "t1ha.h"],
  [("pure functions over arguments, contexts owned by the caller", "src/t1ha*.c"),
   ("immutable selection in t1ha0", "src/t1ha0.c")],
  ["TSan reports", "results under concurrency", "results with a nested call at every instruction boundary",
   "writable static data before and after calls"])

p("C11", "The built-in self-checks detect every deviation on their vectors",
  "Each t1ha_selfcheck__*() returns 0 when the functions it covers reproduce the published reference values, and -1 (never 0) when any covered "
  "function returns a wrong value for any of its reference vectors, wherever in the vector list it is and however many bits differ, in release "
  "builds too. The aggregate self-checks report a fault of any enabled function they cover, including each streaming mode and the selected "
  "variant of t1ha0.",
  ["fault_sequences", "configurations"],
  "every function, every reference vector, every kind of wrong result; 32/64-bit release builds",
  "The tests only run the self-checks over correct implementations, so a self-check that ignores a result would pass them.",
  ["src/t1ha_selfcheck.c", "src/t1ha0_selfcheck.c", "src/t1ha1_selfcheck.c", "src/t1ha2_selfcheck.c", "src/t1ha_selfcheck_all.c",
   "src/t1ha_selfcheck.h"],
  [("t1ha_selfcheck() vector walk and accumulation of failures", "src/t1ha_selfcheck.c"),
   ("reference tables, thunks for 128-bit and streaming", "src/t1ha2_selfcheck.c, src/t1ha1_selfcheck.c, src/t1ha0_selfcheck.c")],
  ["return values of all t1ha_selfcheck__* under injected faults"])

p("C12", "Every documented configuration builds and yields the same hashes",
  "With any combination of the documented macros (T1HA0/1/2_DISABLED, T1HA_USE_FAST_ONESHOT_READ, T1HA_SYS_UNALIGNED_ACCESS, "
  "T1HA0_AESNI_AVAILABLE, T1HA0_RUNTIME_SELECT, T1HA_USE_INDIRECT_FUNCTIONS, T1HA0_USE_DEFINE), as C or from C++, static or shared, gcc or clang, 32 or 64 bits, with or "
  "without assertions, the library compiles and links, its self-check passes, and every function that is enabled returns the same "
  "values as in the default configuration; t1ha0() maps to the variant documented for that configuration.",
  ["configurations", "inputs"],
  "all combinations of the macros, compilers, word sizes and link forms; all inputs",
  "The tests build only the default configuration, natively and with -m32.",
  ["t1ha.h", "src/t1ha_bits.h", "src/t1ha0.c", "src/t1ha0_selfcheck.c", "src/t1ha_selfcheck_all.c", "Makefile"],
  [("preprocessor selection", "t1ha.h, src/t1ha_bits.h"), ("t1ha0 mapping", "t1ha.h, src/t1ha0.c")],
  ["compiler and linker results", "self-check results", "return values"])

p("C13", "Hashes are the same on foreign platforms: any byte order and strict alignment",
  "On big-endian and little-endian, 32-bit and 64-bit platforms, including those that trap on misaligned access, and whether the compiler itself tells byte order and "
  "unaligned access ability or only the system's headers or the names of the architecture do, all portable functions (t1ha0 32le/32be, t1ha1 "
  "le/be, t1ha2 at-once and streaming) return the same values as on x86 for every input and address, t1ha0() selects the native-endian variant, "
  "no misaligned load or store is executed, and no memory outside of the input's pages (or outside of the input, with oneshot reads off) "
  "is touched.",
  ["configurations", "inputs"],
  "big/little endian x 32/64-bit x oneshot on/off x unaligned-access settings; all inputs, alignments, segmentations",
  "The tests run only on x86: the big-endian, byte-swapping and aligned-only paths are never executed.",
  ["src/t1ha_bits.h", "src/t1ha0.c", "src/t1ha1.c", "src/t1ha2.c", "t1ha.h"],
  [("__BYTE_ORDER__ paths, bswap, aligned/unaligned readers", "src/t1ha_bits.h"),
   ("bit count byte order in t1ha2_final", "src/t1ha2.c")],
  ["return values computed by an interpreter of the foreign machine code", "its loads and stores"])

p("C14", "All input and seed bits influence all result bits (avalanche, no collapse)",
  "For every length and position, flipping any bit of the data changes each bit of the result with a probability close to one half, for "
  "t1ha1, t1ha2 (64-bit results and both halves of the 128-bit ones, at-once and streaming) and t1ha0. The bits of the seeds, and "
  "appending, removing or moving bytes, zero ones included, influence the results likewise for t1ha2 and t1ha0; t1ha1, which is documented "
  "to fail the strict criterion, still changes half of the result's bits on average. Distinct inputs of structured families (sparse, "
  "periodic, counting, repeated) don't collide in 64 bits (t1ha1, t1ha2, AES t1ha0; the portable t1ha0_32 variants, documented as of lower "
  "quality, at most one per thousand keys), nor much more often in 32 bits than random values would.",
  ["inputs"],
  "all lengths, bit positions, seeds, both result halves; structured families of keys",
  "The tests contain no statistical quality check: they compare 81 values with constants.",
  ["src/t1ha2.c", "src/t1ha1.c", "src/t1ha0.c", "src/t1ha_bits.h"],
  [("mixup64, mux64, final64, final128, squash", "src/t1ha_bits.h, src/t1ha2.c")],
  ["distribution of result differences", "collisions within key families"])

p("C15", "Bounded resources: linear time, constant stack, no heap, no system calls",
  "Each call terminates within a number of instructions that is linear in the length with a small fixed factor and independent of the data, seed and address, uses a "
  "small constant amount of stack independent of the length, allocates nothing on the heap and makes no system call. Calls leave the floating-point, vector-control "
  "and direction-flag state of the caller unchanged, so MMX/x87 code of the caller keeps working.",
  ["inputs", "histories"],
  "all functions, lengths, data, seeds, addresses, segmentations",
  "The tests measure results only; a slow path, a growing stack or an allocation would pass.",
  ["src/t1ha0.c", "src/t1ha1.c", "src/t1ha2.c", "src/t1ha0_ia32aes_a.h", "src/t1ha0_ia32aes_b.h"],
  [("single pass block loops", "src/t1ha*.c"), ("zeroupper/no MMX usage", "src/t1ha0_ia32aes_*.h")],
  ["executed instruction counts", "stack high-water mark", "system calls", "allocator calls", "MXCSR, x87 control/tag words"])

p("C16", "Applications and library builds made separately work together",
  "An application that includes t1ha.h and links with the library (statically, dynamically, as PIE or not, or loaded with dlopen, unloaded and loaded again, in any "
  "thread or child process) gets the specified values from every function it calls by name or by pointer, whatever compiler, language standard (C since gnu89, C++ since C++98), "
  "optimization, instruction set, NDEBUG or sanitizer options the application and the library were each built with. All of them agree on size and alignment of "
  "t1ha_context_t; a context may be begun by one build of the library and continued and finished by others. Including t1ha.h does not change the meaning of the "
  "application's own code. A copy of the library embedded in a plugin is not disturbed by other copies, or foreign symbols of the same names, in the process. "
  "(T1HA0_RUNTIME_SELECT, T1HA_USE_INDIRECT_FUNCTIONS, T1HA0_AESNI_AVAILABLE and T1HA0_USE_DEFINE, on which the header depends, are the same on both sides.)",
  ["inputs", "histories", "configurations"],
  "all pairs of application and library builds for one ABI, all ways of linking, all inputs and segmentations",
  "The tests are compiled together with the library, by one compiler with the same options, and linked in one way.",
  ["t1ha.h", "src/t1ha0.c", "src/t1ha2.c", "src/t1ha_bits.h"],
  [("t1ha_context_t, T1HA_ALIGN_SUFFIX, T1HA_API, visibility push/pop, t1ha0 facade", "t1ha.h"),
   ("t1ha0_funcptr, constructor, IFUNC", "src/t1ha0.c"),
   ("the contents of a context between calls", "src/t1ha2.c")],
  ["values which applications get", "size and alignment they see", "memory around their contexts", "dlopen, link and symbol resolution results"])

p("C17", "Hashes are the same whichever compiler and platform the library is built for",
  "The library compiles with every family of compilers that its sources provide for (GCC back to 3.4, clang, clang-cl, Visual C++ for x86, x64, ARM and ARM64, LCC for "
  "Elbrus, MinGW, and compilers that are none of these), with and without 128-bit integers, and for the types and predefined macros of Linux, the BSDs, macOS and "
  "Windows (where long has 32 bits). Built so, all functions, at-once and streaming, return the specified values for every input, those of 4 GiB and more included; "
  "the self-checks return 0; t1ha0() selects a variant that the CPU supports, the one documented for it; nothing outside of the pages of the input (of the input itself, with oneshot reads "
  "off) is accessed, and compiler hints such as __assume or __builtin_expect promise nothing that may fail.",
  ["configurations", "inputs"],
  "compiler families and versions x platforms x switches; all inputs, alignments, segmentations, CPU features",
  "The tests are built with one GCC on Linux: the sources' code for other compilers and data models is never compiled.",
  ["src/t1ha_bits.h", "t1ha.h", "src/t1ha0.c", "src/t1ha0_ia32aes_b.h", "src/t1ha0_ia32aes_a.h", "src/t1ha1.c", "src/t1ha2.c"],
  [("_MSC_VER, __e2k__, __GNUC_PREREQ, unknown-compiler branches: bswap, rot, mul_64x64_128, fetch, cpuid", "src/t1ha_bits.h, src/t1ha0.c"),
   ("masks and lengths in types narrower than size_t", "src/t1ha*.c, src/t1ha0_ia32aes_*.h")],
  ["compile results", "return values", "results of self-checks", "faults at guard pages", "the selected variant under emulated CPUID"])

with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl"), "w") as f:
    for x in P:
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
