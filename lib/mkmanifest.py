#!/usr/bin/env python3
import json
import os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
C = {
 "C01": ("runtime differential monitoring against an executable model, comparison-guided", "exploration"),
 "C02": ("runtime differential monitoring against an executable model, comparison-guided", "exploration"),
 "C04": ("runtime differential monitoring against an executable model, comparison-guided", "exploration"),
 "C03": ("history generation with an online model-based monitor", "exploration"),
 "C05": ("instruction-level runtime monitor with emulated CPUID/XGETBV; start-up matrix", "exploration"),
 "C06": ("guard-page and canary monitors", "exploration"),
 "C07": ("AddressSanitizer and valgrind, byte-exact", "exploration"),
 "C08": ("MemorySanitizer, valgrind definedness, differential monitoring", "exploration"),
 "C09": ("UndefinedBehaviorSanitizer and live assertions", "exploration"),
 "C10": ("ThreadSanitizer; nested calls at every instruction boundary; state monitors", "exploration"),
 "C11": ("run-time fault injection into the hash functions, enumerated", "fault_enumeration"),
 "C12": ("configuration matrix monitored by the model", "exploration"),
 "C13": ("interpreter of foreign machine code as memory/alignment/value monitor", "exploration"),
 "C14": ("statistical monitors of executions (avalanche, collisions)", "exploration"),
 "C16": ("matrix of separately built applications, libraries and plugins monitored by the model", "exploration"),
 "C17": ("compiler personas and retargeted foreign front ends, executed and monitored by the model", "exploration"),
 "C15": ("instruction counting, stack, syscall and allocator monitors", "exploration"),
}
N = {
 "C01": "Every call made is compared with an independent model in 17+ builds; assurance is for the inputs explored (millions, directed by harvested constants and input-to-state substitution); trusts the model, validated against frozen vectors.",
 "C02": "As C01, for t1ha1_le/be.",
 "C16": "Executed pairs of about 30 application builds and up to 17 library builds per word size, with seven ways of linking, and plugins; x86 ELF with the compilers of the sandbox only.",
 "C17": "Other compilers are imitated by clang (predefined macros, and intrinsics implemented to their documentation); their own code generators are not run.  Foreign platforms: clang's front end for them, code generated for x86-64.",
 "C04": "As C01, for the t1ha0 family; needs a CPU with AES-NI/AVX2 for these variants (noted when absent).",
}
try:
    N.update(json.load(open(os.path.join(V, "lib", "notes.json"))))
except FileNotFoundError:
    pass
done = [c for c in sorted(C) if os.path.exists(os.path.join(V, "lib", "chk_%s.py" % c.lower()))]
doc = dict(version=1, setup_cmd="bash bin/setup",
           checks=[dict(property=c, quick_cmd="bin/check %s" % c,
                        thorough_cmd="bin/check %s thorough" % c,
                        technique=C[c][0], level=C[c][1], level_note=N.get(c, "See DESIGN.md."))
                   for c in done],
           not_applicable=[dict(property=c, reason="check under construction") for c in sorted(C) if c not in done],
           notes="No hooks are needed: the library is observed through its public API and through sanitizers, guard pages, single-stepping and emulation. /repo carries fix: commits only.")
json.dump(doc, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
