import itertools
import os
import random
import re
import subprocess

import cfgs
from engine import Cfg, BuildFailed, HarnessError, sh, H, REPO

# the documented switches; None: not given
AX = [
    ("dis", [0, 1, 2, 4, 3, 5, 6, 7]),          # T1HA<i>_DISABLED, bit mask
    ("oneshot", [None, 0, 1]),
    ("ua", [None, 0, 1, 2]),
    ("aes", [None, 0, 1]),
    ("sel", [None, 0, 1]),
    ("ind", [None, 0, 1]),
    ("usedef", [None, 0, 1]),
    ("assert", [0, 1]),
    ("lang", ["c", "c++"]),
    ("link", ["static", "shared"]),
    ("cc", ["gcc", "clang"]),
    ("bits", [64, 32]),
    ("opt", ["-O1", "-O0", "-O2", "-O3", "-Os"]),
    ("x", [None, "-flto", "-funsigned-char", "-fno-builtin", "-march=native",
           "-std=gnu17", "-std=c99", "-fstack-protector-strong",
           "-fcf-protection=full", "-fno-strict-aliasing"]),
]
NAMES = [a for a, _ in AX]
# options that each compiler is given apart from these, one at a time
OTHER = {
    "gcc clang": [
        "-std=gnu99", "-std=gnu2x", "-ffast-math", "-Og", "-fPIE",
        "-D_FORTIFY_SOURCE=3", "-fwrapv", "-ftrapv", "-fno-inline",
        "-fshort-enums", "-fvisibility=default", "-D_GNU_SOURCE",
        "-D_XOPEN_SOURCE=700", "-D_POSIX_C_SOURCE=200809L", "-fexceptions",
        "-ffreestanding", "-march=x86-64-v2", "-march=x86-64-v3",
        "-mtune=atom", "-funroll-loops", "-fno-omit-frame-pointer",
        "-mbmi2 -mbmi -madx", "-mno-red-zone", "-mno-sse3",
        "-fno-delete-null-pointer-checks", "-ftrivial-auto-var-init=pattern",
        "-fzero-call-used-regs=all", "-fstack-clash-protection",
        "-ffunction-sections -fdata-sections", "-fno-plt", "-fshort-wchar",
        "-fno-jump-tables", "-mavx", "-msse4.2", "-fno-semantic-interposition",
        "-DDEBUG", "-D_DEBUG", "-D_FILE_OFFSET_BITS=64", "-mmmx -msse2",
        "-mgeneral-regs-only",
        "-mcmodel=large", "-mcmodel=medium",
        "-march=i386 -fcf-protection=none",
        "-march=i586 -fcf-protection=none", "-march=pentium3", "-march=pentium4"],
    "gcc": ["-fsanitize=undefined -fno-sanitize=alignment "
            "-fsanitize-undefined-trap-on-error",
            "-fstack-check", "-mindirect-branch=thunk -fcf-protection=none", "-fipa-pta",
            "-fharden-compares -fharden-conditional-branches",
            "-fno-toplevel-reorder", "-funroll-all-loops -fpeel-loops",
            "-fkeep-inline-functions", "-fno-ipa-sra -fno-ipa-cp",
            "-minline-all-stringops", "-fno-builtin-memcpy",
            "-fconserve-stack", "-mstackrealign", "-fprofile-arcs -lgcov"],
    "clang": ["-Oz", "-mretpoline", "-fno-integrated-as",
              "-fsanitize=undefined -fno-sanitize=alignment "
              "-fsanitize-trap=undefined",
              "-fsanitize=kcfi", "-fsanitize=local-bounds "
              "-fsanitize-trap=local-bounds", "-fsanitize=safe-stack",
              "-flto -fvisibility=hidden -fsanitize=cfi -fuse-ld=lld",
              "-mspeculative-load-hardening", "-mstackrealign",
              "-fprofile-instr-generate", "-fms-extensions -fdeclspec",
              "-fblocks", "-fno-vectorize -fno-slp-vectorize"],
}
ONLY64 = re.compile("mcmodel|x86-64|zero-call|red-zone|safe-stack|speculative|"
                    "retpoline|kcfi|cfi")
ONLY32 = re.compile("=i[35]86|pentium")


def others(e):
    """rows with one of the other options, the rest at random"""
    rng = random.Random(30 + e.seed)
    out = []
    for ccs, opts in sorted(OTHER.items()):
        some = []
        for x in opts:
            f = [(x, cc, bits) for cc in ccs.split() for bits in (64, 32)
                 if not (ONLY64 if bits == 32 else ONLY32).search(x)]
            some += f if e.thorough else [rng.choice(f)]
        for x, cc, bits in some:
            d = dict(zip(NAMES, [rng.choice(a) for _, a in AX]))
            d.update(dis=0, ind=None, usedef=None, cc=cc, bits=bits, x=x)
            if rng.random() < .6:
                d.update(aes=None, sel=None, ua=None, oneshot=None)
            if "general" in x:
                d.update(aes=0)
            if re.search("PIE|mcmodel|safe-stack", x):
                d.update(link="static")
            if x.startswith("-O"):
                d.update(opt="-O2")
            out.append(tuple(d[n] for n in NAMES))
    return out


def name_of(v):
    return "-".join("%s%s" % (n if n not in ("cc", "link", "lang", "opt", "x")
                              else "", x)
                    for n, x in zip(NAMES, v) if x is not None and
                    not (n in ("dis", "assert") and x == 0)).replace("--", "-").replace(
                        " ", "")


def cover(rng, strength, limit, tries=40):
    """a covering array, greedy"""
    idx = range(len(AX))
    need = set()
    for c in itertools.combinations(idx, strength):
        for t in itertools.product(*[range(len(AX[i][1])) for i in c]):
            need.add((c, t))
    out = []
    while need and len(out) < limit:
        best, bg = None, -1
        for _ in range(tries):
            c0, t0 = rng.choice(tuple(need)) if len(need) < 4000 else \
                next(iter(need))
            row = [rng.randrange(len(a[1])) for a in AX]
            for i, x in zip(c0, t0):
                row[i] = x
            if strength == 2 or len(need) < 3000:
                g = sum(1 for (c, t) in need
                        if all(row[i] == x for i, x in zip(c, t)))
            else:
                g = 1
            if g > bg:
                best, bg = row, g
            if strength > 2 and len(need) > 3000:
                break
        out.append(tuple(AX[i][1][x] for i, x in enumerate(best)))
        need = {(c, t) for (c, t) in need
                if not all(best[i] == x for i, x in zip(c, t))}
    return out


def cover3(rng, rows, without, tries=60):
    """rows more, so that all the triples of values of the documented
    switches, the language, the linkage, the compiler and the word size are
    met"""
    idx = [i for i, n in enumerate(NAMES)
           if n not in without]
    cs = list(itertools.combinations(idx, 3))
    need = {(i, j, k, a, b, c) for i, j, k in cs for a in AX[i][1]
            for b in AX[j][1] for c in AX[k][1]}

    def of(v):
        return [(i, j, k, v[i], v[j], v[k]) for i, j, k in cs]
    for v in rows:
        need.difference_update(of(v))
    total = sum(len(AX[i][1]) * len(AX[j][1]) * len(AX[k][1])
                for i, j, k in cs)
    out = []
    order = sorted(need, key=str)
    rng.shuffle(order)
    for t in order:
        if t not in need:
            continue
        best, bg = None, -1
        for _ in range(tries):
            v = [rng.choice(a) for _, a in AX]
            for i, x in zip(t[:3], t[3:]):
                v[i] = x
            g = sum(1 for y in of(v) if y in need)
            if g > bg:
                best, bg = tuple(v), g
        out.append(best)
        need.difference_update(of(best))
    return out, total


def cfg_of(v):
    d = dict(zip(NAMES, v))
    defs = ["-DT1HA%d_DISABLED" % i for i in range(3) if d["dis"] >> i & 1]
    for k, m in (("oneshot", "T1HA_USE_FAST_ONESHOT_READ"),
                 ("ua", "T1HA_SYS_UNALIGNED_ACCESS"),
                 ("aes", "T1HA0_AESNI_AVAILABLE"),
                 ("sel", "T1HA0_RUNTIME_SELECT"),
                 ("ind", "T1HA_USE_INDIRECT_FUNCTIONS"),
                 ("usedef", "T1HA0_USE_DEFINE")):
        if d[k] is not None:
            defs.append("-D%s=%d" % (m, d[k]))
    c = Cfg(name_of(v), cc=d["cc"], m32=d["bits"] == 32, opt=d["opt"],
            defs=defs, ndebug=not d["assert"], hopt="-O1",
            extra=d["x"].split() if d["x"] else [],
            link=["-flto"] + (["-fuse-ld=lld"] if d["cc"] == "clang" else [])
            if d["x"] == "-flto" else [o for o in (d["x"] or "").split() if
                                       re.match("-f(lto|san|prof|use)|-l", o)])
    c.d = d
    return c


def build(e, c):
    """as a user does: the library, static or shared, and a program which
    includes t1ha.h as C or C++"""
    d = c.d
    objs = e.lib(c)
    shared = d["link"] == "shared"
    glue_defs = ["-DGLUE_SELFCHECK"]
    if shared:
        glue_defs += ["-DGLUE_API", "-Dt1ha_IMPORTS"]
    out = os.path.join(e.tmp, "cfg." + c.name)
    glue = out + ".glue.o"
    cxx = {"gcc": "g++", "clang": "clang++"}[c.cc]
    fl = ["-g1", "-O1", "-w", "-I", H, "-I", REPO] + c.defs + glue_defs + \
        (["-m32"] if c.m32 else [])
    if d["lang"] == "c++":
        std = "-std=c++11" if len(c.name) & 1 else "-std=c++17"
        cmd = [cxx, "-x", "c++", std] + fl
    else:
        std = ["-std=c99", "-std=gnu11", "-std=c11", "-std=c17"][
            len(c.name) & 3]
        cmd = [c.cc, std] + fl
    if c.m32 and d["ind"] == 1 and not shared:
        cmd.append("-fno-pie")
    cmd += ["-c", os.path.join(H, "glue.c"), "-o", glue]
    with e.sem:
        r = sh(cmd)
    if r.returncode:
        raise BuildFailed(c, cmd, r.stdout)
    lk = [c.cc] + c.base() + c.link
    # ld of i386 can't call a hidden IFUNC from position-independent code
    nopie = ["-no-pie"] if c.m32 and d["ind"] == 1 and not shared else []
    if shared:
        so = os.path.join(e.tmp, "lib%s.so" % c.name)
        cmd = lk + ["-shared", "-o", so] + objs
        with e.sem:
            r = sh(cmd)
        if r.returncode:
            raise BuildFailed(c, cmd, r.stdout)
        libs = [so]
    else:
        libs = objs
    cmd = lk + nopie + ["-o", out, e.hobj(c, "drv_config.c"), glue,
                e.hobj(c, "model.c")] + libs + \
        ["-Wl,-rpath," + e.tmp, "-lpthread"]
    with e.sem:
        r = sh(cmd)
    if r.returncode:
        raise BuildFailed(c, cmd, r.stdout)
    return out


def check(e):
    th = e.thorough
    rng = random.Random(20)          # the base is the same in every run
    rows = cover(rng, 2, 200)
    more, triples = cover3(rng, rows, () if th else ("opt", "x"))
    rows += more
    base = len(rows)
    r2 = random.Random(e.seed)
    extra = 1200 if th else 40
    seen = set(rows)
    while len(rows) < base + extra:
        v = tuple(r2.choice(a) for _, a in AX)
        if v not in seen:
            seen.add(v)
            rows.append(v)

    rows += others(e)

    # sanity: the toolchain itself is usable in all the modes
    def probe(cc, m):
        p = os.path.join(e.tmp, "probe%s%s" % (cc, m))
        with open(p + ".c", "w") as f:
            f.write("int main(void){return 0;}\n")
        r = sh([cc] + (["-m32"] if m else []) + [p + ".c", "-o", p])
        return r.returncode == 0
    ok = {(cc, m): probe(cc, m) for cc in ("gcc", "clang") for m in (0, 1)}
    done = []

    def one(v):
        c = cfg_of(v)
        if not ok[(c.cc, int(c.m32))]:
            e.notes.append("no toolchain: %s m32=%s" % (c.cc, c.m32))
            return
        if e.stopping:
            return
        try:
            x = build(e, c)
        except BuildFailed as y:
            m = re.search(r"(error: .{0,80}|undefined reference to .{0,60}|"
                          r"hidden symbol .{0,60})", y.log)
            key = re.sub(r"[^\w]+", "_", m.group(1) if m else "error")
            e.violation("build:" + key, "the configuration %s doesn't "
                        "build: %s" % (c.name, y.log[-1200:]),
                        dict(config=c.describe(), cmd=y.cmd))
            return
        e.stat("configurations_built", 1)
        want = 7 & ~c.d["dis"]
        e.run(c, x, [12 if th else 5, want, int(c.d["link"] == "shared")],
              cpu_s=60)
        done.append(v)
        for p in (x, x + ".glue.o"):
            try:
                os.unlink(p)
            except OSError:
                pass
    e.parallel([lambda v=v: one(v) for v in rows])
    pairs = set()
    for v in done:
        for i, j in itertools.combinations(range(len(AX)), 2):
            if v[i] in AX[i][1] and v[j] in AX[j][1]:
                pairs.add((i, j, v[i], v[j]))
    total = sum(len(AX[i][1]) * len(AX[j][1])
                for i, j in itertools.combinations(range(len(AX)), 2))
    e.coverage_extra = dict(pairs_of_options_covered=len(pairs),
                            pairs_of_options=total,
                            triples_of_options=triples)
    st = e.stats
    return e.finish(st.get("values", 0), len(done),
                    "one evaluation = one value compared with the model; "
                    "distinct_nontrivial = configurations built, linked and "
                    "run (all the pairs of option values, all the triples of the "
                    "documented switches, language, linkage, compiler and "
                    "word size, plus random ones)")
