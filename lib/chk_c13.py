import os
import re
import shutil
import cfgs
from engine import Cfg, BuildFailed, HarnessError, H, REPO, sh

T = {"mips32be": "mips-linux-gnu", "mips32le": "mipsel-linux-gnu",
     "mips64be": "mips64-linux-gnuabi64", "mips64le": "mips64el-linux-gnuabi64"}
LD = next((p for p in ("/usr/lib/llvm-18/bin/ld.lld", "/usr/bin/ld.lld-18",
                       "/usr/bin/ld.lld") if os.path.exists(p)), "ld.lld")
IF0 = "-DT1HA_USE_INDIRECT_FUNCTIONS=0"
TRAP = ["-fsanitize=undefined", "-fsanitize-trap=undefined"]
ALL = 0x8FF


class Guest:
    """One build of the library for a foreign platform."""

    def __init__(self, plat, name, opt="-O2", defs=(), extra=(), strict=True,
                 shot=True, want=ALL, ndebug=True, inc=None, n=0):
        self.plat, self.opt, self.defs = plat, opt, list(defs)
        self.name = "%s-%s" % (plat, name)
        self.extra, self.strict, self.shot = list(extra), strict, shot
        self.want, self.ndebug, self.cc = want, ndebug, "clang"
        self.inc, self.n = inc, n

    def env(self):
        return {}

    def flags(self, res):
        return ["--target=" + T[self.plat], "-nostdinc", "-isystem",
                self.inc or os.path.join(H, "guest"), "-isystem",
                res + "/include",
                "-ffreestanding", "-fno-pic", "-mno-abicalls", "-msoft-float",
                "-G0", "-mno-gpopt", "-w", "-Dt1ha_EXPORTS", "-I", REPO,
                "-fno-stack-protector"] + self.extra

    def libflags(self, res):
        return self.flags(res) + [self.opt] + self.defs + \
            (["-DNDEBUG"] if self.ndebug else [])

    def describe(self):
        return {"name": self.name, "cc": "clang, run by harness/mips.c",
                "flags": " ".join([T[self.plat], self.opt] + self.defs +
                                  self.extra)}


# t1ha.h has to find the byte order itself where the compiler doesn't tell it
# (gcc before 4.6, clang before 3.2, vendors' compilers): from the headers of
# the system, else from the macros which name the architecture.
UNTOLD = ["-U" + m for m in ("__BYTE_ORDER__", "__ORDER_LITTLE_ENDIAN__",
                             "__ORDER_BIG_ENDIAN__", "__ORDER_PDP_ENDIAN__",
                             "__BIG_ENDIAN__", "__LITTLE_ENDIAN__")]
UNNAMED = ["-U" + m + e for m in ("_MIPSE", "__MIPSE", "MIPSE")
           for e in ("B", "L")] + ["-U__MIPSEB__", "-U__MIPSEL__"]
ARCH = {"be": "__BIG_ENDIAN__ _BIG_ENDIAN __ARMEB__ __THUMBEB__ "
              "__AARCH64EB__ __MIPSEB__ _MIPSEB __MIPSEB __m68k__ M68000 "
              "__hppa__ __hppa __HPPA__ __sparc__ __sparc __370__ "
              "__THW_370__ __s390__ __s390x__ __SYSC_ZARCH__",
        "le": "__LITTLE_ENDIAN__ _LITTLE_ENDIAN __ARMEL__ __THUMBEL__ "
              "__AARCH64EL__ __MIPSEL__ _MIPSEL __MIPSEL _M_ARM _M_ARM64 "
              "__bfin__ __BFIN__ __ia64__ _IA64 __IA64__ __ia64 _M_IA64 "
              "__itanium__"}
VALUES = """#define %(u)sLITTLE_ENDIAN 1234
#define %(u)sBIG_ENDIAN 4321
#ifdef GUEST_BE
#define %(u)sBYTE_ORDER %(u)sBIG_ENDIAN
#else
#define %(u)sBYTE_ORDER %(u)sLITTLE_ENDIAN
#endif
"""
SUN = """#ifdef GUEST_BE
#define _BIG_ENDIAN
#else
#define _LITTLE_ENDIAN
#endif
"""
# the system -> the header which tells, its text, further text of sys/types.h
SYSTEMS = {
    "none": (None, ""),
    "glibc": ("endian.h", VALUES % {"u": "__"}),
    "openbsd": ("machine/endian.h", VALUES % {"u": "_"}),
    "solaris": ("sys/isa_defs.h", SUN),
    "bsd": ("sys/endian.h", VALUES % {"u": "_"}),
    "param": ("sys/param.h", VALUES % {"u": "_"}),
}


def systems(e):
    """Include directories which differ in the header with the byte order."""
    out = {}
    for k, (name, text) in SYSTEMS.items():
        d = out[k] = os.path.join(e.tmp, "inc." + k)
        shutil.copytree(os.path.join(H, "guest"), d)
        os.unlink(os.path.join(d, "endian.h"))
        with open(os.path.join(d, "sys/param.h"), "w") as f:
            f.write("#include <limits.h>\n")
        if name:
            os.makedirs(os.path.dirname(os.path.join(d, name)), exist_ok=True)
            with open(os.path.join(d, name), "w") as f:
                f.write(text)
    return out


def untold(inc, th):
    out = []
    for p in T:
        for k, d in inc.items():
            x = UNTOLD + ([] if k == "none" else UNNAMED) + \
                (["-DGUEST_BE=1"] if "be" in p else [])
            out.append(Guest(p, "untold-" + k, defs=x, inc=d, n=1))
        for i, m in enumerate(ARCH[p[-2:]].split()):
            if not th and (i + ("64" in p)) % 2:
                continue        # each one in 32 or in 64 bits
            out.append(Guest(p, "named-" + m, defs=UNTOLD + UNNAMED + ["-D" + m],
                             inc=inc["none"], n=1))
        # and the ability for unaligned access follows from the macros too
        out.append(Guest(p, "unaligned-arm", opt="-O3", strict=False,
                         defs=["-D__ARM_FEATURE_UNALIGNED=1"], n=1))
        for m in ("__aarch64__", "__arm__", "__sparc__", "__alpha__",
                  "__hppa__"):
            out.append(Guest(p, "as-" + m, opt="-O3", defs=["-D" + m], n=1))
    return out


def guests(th):
    out = []
    for p in T:
        def add(*a, **k):
            out.append(Guest(p, *a, **k))
        m64 = "64" in p
        old = ["-march=mips3" if m64 else "-march=mips2"]
        r1 = ["-march=mips64" if m64 else "-march=mips32"]
        add("O2")
        add("O0-noshot", opt="-O0", defs=[cfgs.NOSHOT], shot=False)
        add("O3-ua2", opt="-O3", defs=[cfgs.UA % 2], strict=False)
        add("Os-ua1-noshot", opt="-Os", defs=[cfgs.UA % 1, cfgs.NOSHOT],
            strict=False, shot=False)
        add("O1-ubsan", opt="-O1", extra=TRAP, ndebug=False)
        add("O1-ubsan-noshot", opt="-O1", extra=TRAP, ndebug=False,
            defs=[cfgs.NOSHOT], shot=False)
        add("O2-old", extra=old)
        add("O2-r1-noshot", extra=r1, defs=[cfgs.NOSHOT], shot=False)
        add("O2-eff", defs=["-DCONFIG_HAVE_EFFICIENT_UNALIGNED_ACCESS=1"],
            strict=False)
        add("O2-select", defs=["-DT1HA0_RUNTIME_SELECT=1", IF0],
            want=ALL | 0x1000)
        add("O2-no1", defs=["-DT1HA1_DISABLED"], want=ALL & ~0x30)
        add("O2-no12-select", defs=["-DT1HA1_DISABLED", "-DT1HA2_DISABLED",
                                    "-DT1HA0_RUNTIME_SELECT=1", IF0],
            want=0x18C0)
        if m64:
            add("O2-noint128", defs=[cfgs.NOINT128])
        if th:
            add("O2-no2", defs=["-DT1HA2_DISABLED"], want=ALL & ~0xF)
            add("O2-no0", defs=["-DT1HA0_DISABLED"], want=0x3F)
            add("O2-no1-select", defs=["-DT1HA1_DISABLED", IF0,
                                       "-DT1HA0_RUNTIME_SELECT=1"],
                want=(ALL & ~0x30) | 0x1000)
            for opt in ("-O0", "-O1", "-O2", "-O3", "-Os"):
                for ua in (0, 1, 2):
                    for ns in (False, True):
                        for ex in ([], old, TRAP):
                            if ex is TRAP and ua:
                                ex = TRAP + ["-fno-sanitize=alignment"]
                            add("x%s-ua%d%s%s" % (
                                opt, ua, "-noshot" if ns else "",
                                "-ubsan" if ex[:1] == TRAP[:1] else
                                "-old" if ex else ""),
                                opt=opt, extra=ex, strict=not ua, shot=not ns,
                                ndebug=ex[:1] != TRAP[:1],
                                defs=[cfgs.UA % ua] +
                                ([cfgs.NOSHOT] if ns else []))
    return out


def check(e):
    th = e.thorough
    res = sh(["clang", "-print-resource-dir"]).stdout.strip()
    host = Cfg("host", opt="-O2")
    objs = [e.hobj(host, s) for s in ("drv_mips.c", "mips.c", "model.c")]
    drv = os.path.join(e.tmp, "drv_mips")
    r = sh(["gcc", "-o", drv] + objs)
    if r.returncode:
        raise HarnessError(r.stdout[-1500:])
    rt = {}

    def guest_rt(p):
        g = Guest(p, "rt")
        for s, x in (("guest.c", []), ("rt.c", ["-fno-builtin"])):
            rt[p, s] = e.cc(g, g.flags(res) + ["-O2"] + x,
                            os.path.join(H, "guest", s),
                            os.path.join(e.tmp, "%s.%s.o" % (p, s)))
    e.parallel([lambda p=p: guest_rt(p) for p in T])

    def one(g):
        d = os.path.join(e.tmp, "g." + g.name)
        os.makedirs(d, exist_ok=True)
        try:
            o = [e.cc(g, g.libflags(res), s, os.path.join(
                d, os.path.basename(s)[:-2] + ".o")) for s in e.sources()]
        except BuildFailed as y:
            m = re.search(r"error: (.{0,80})", y.log)
            if not m or "file not found" in y.log:
                raise    # a header of libc which the guests haven't
            e.violation("build:" + re.sub(r"[^\w]+", "_", m.group(1)),
                        "doesn't compile for %s: %s" % (g.name,
                                                        y.log[-1200:]),
                        dict(config=g.describe(), cmd=y.cmd))
            return
        o.append(e.cc(g, g.flags(res) + ["-O2", "-DGLUE_SELFCHECK"] + g.defs,
                      os.path.join(H, "glue.c"), os.path.join(d, "glue.o")))
        elf = os.path.join(d, "guest.elf")
        cmd = [LD, "-static", "--image-base=0x100000", "-e", "guest_main",
               "-o", elf] + o + [rt[g.plat, "guest.c"], rt[g.plat, "rt.c"]]
        r = sh(cmd)
        if r.returncode:
            raise BuildFailed(g, cmd, r.stdout)
        with e.lock:
            e.configs[g.name] = g.describe()
        e.stat("guest_images", 1)
        n = g.n or (8 if th else 2)
        e.run(g, drv, [elf, int(g.strict), int(g.shot), g.want, "a", n],
              cpu_s=600, label=g.name)
    e.parallel([lambda g=g: one(g) for g in guests(th) + untold(systems(e), th)])
    st = e.stats
    e.assumptions += [
        "foreign platforms are represented by MIPS32 and MIPS64 in both byte "
        "orders, compiled by clang and executed by the interpreter "
        "harness/mips.c",
        "the interpreter implements the integer instructions of release 2; "
        "an instruction beyond these is an error of the check, not a verdict",
    ]
    return e.finish(
        st.get("judged_operations", 0), st.get("judged_operations", 0),
        "one evaluation = one call executed by the interpreter: each load and "
        "store checked against the permitted bytes and for alignment, the "
        "value compared with the model; inputs are drawn afresh per call "
        "(grid of lengths x alignments x page placements, steered operands, "
        "random segmentations)")
