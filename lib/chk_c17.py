import os
import re
import cfgs
from engine import Cfg, BuildFailed, H, sh

PERS = ["-I", os.path.join(H, "persona"), "-include",
        os.path.join(H, "persona.h"), "-fms-extensions", "-fdeclspec"]
UB = ["-fsanitize=undefined", "-fno-sanitize-recover=all",
      "-fno-sanitize=alignment"]
SOME = [cfgs.UA % 0, cfgs.UA % 1, cfgs.UA % 2, cfgs.NOSHOT]


def msc(ver, arch):
    return ["-DPERSONA_MSC=%d" % ver, "-DPERSONA_ARCH=%d" % arch]


def personas():
    """name -> (defines, 32 bits, x86: may be told that there's no AES)"""
    out = {
        "msvc-x64": (msc(1916, 1), False, True),
        "msvc-x64-2013": (msc(1800, 1), False, True),
        "msvc-x86": (msc(1916, 2), True, True),
        "msvc-x86-2015": (msc(1900, 2), True, True),
        "msvc-x86-2013": (msc(1800, 2), True, False),
        "msvc-arm64": (msc(1930, 3), False, False),
        "msvc-arm": (msc(1930, 4), True, False),
    }
    for i in (2, 3, 5):
        out["e2k-v%d" % i] = (["-DPERSONA_E2K=%d" % i], False, False)
        out["e2k-v%d-noint128" % i] = (["-DPERSONA_E2K=%d" % i,
                                        "-DPERSONA_NO128"], False, False)
    # a version whose 128-bit integers aren't used
    out["e2k-v4-lcc124"] = (["-DPERSONA_E2K=4", "-DPERSONA_LCC=124"], False,
                            False)
    for n, d in (("gcc3.4", ["-DPERSONA_OLD=3"]),
                 ("gcc4.4", ["-DPERSONA_OLD=4"]),
                 ("unknown", ["-DPERSONA_NONE"]),
                 ("unknown-noint128", ["-DPERSONA_NONE", "-DPERSONA_NO128"])):
        out[n] = (d, False, False)
        out[n + "-32"] = (d, True, False)
        if n == "gcc4.4":      # the first with intrinsics for AES
            out[n + "-x64"] = (d + ["-DPERSONA_ARCH=1"], False, True)
            out[n + "-x86"] = (d + ["-DPERSONA_ARCH=2"], True, True)
    return out


# 64-bit and little-endian platforms, whose intermediate code this machine's
# back end accepts: what the front end made of the sources for them is run here
PLATFORMS = ["aarch64-linux-gnu", "riscv64-linux-gnu", "powerpc64le-linux-gnu",
             "loongarch64-linux-gnu", "arm64-apple-macos", "aarch64-freebsd",
             "mips64el-linux-gnuabi64", "x86_64-pc-windows-msvc",
             "x86_64-w64-mingw32", "aarch64-pc-windows-msvc",
             "x86_64-apple-macos", "x86_64-unknown-openbsd"]
TRAP = ["-fsanitize=undefined", "-fsanitize-trap=undefined"]
EDITS = [(r"(?m)^target triple.*$", 'target triple = "x86_64-pc-linux-gnu"'),
         (r"(?m)^target datalayout.*$", ""), (r" dllexport ", " "),
         (r" dso_local ", " "), (r'section "__TEXT,[^"]*"', ""),
         (r'section "text.unlikely"', ""),
         (r'"(target-cpu|tune-cpu|no-[a-z-]*)"="[^"]*"', ""),
         (r'"probe-stack"="[^"]*"', ""), (r'"stack-probe-size"="[^"]*"', "")]


class Foreign(Cfg):
    """Compiled for another platform as far as to intermediate code."""

    def __init__(self, plat, suffix, res, e, **k):
        self.plat, self.res, self.e = plat, res, e
        self.x86 = plat.startswith("x86_64")
        self.bare = k.pop("bare", ())
        k["defs"] = list(k.get("defs", ()))
        if self.x86:
            k["defs"].append("-DT1HA_USE_INDIRECT_FUNCTIONS=0")
        Cfg.__init__(self, "for-%s%s" % (plat, suffix), cc="clang",
                     portable=not self.x86, **k)

    def libflags(self, src=None):
        f = ["--target=" + self.plat, "-nostdinc", "-isystem",
             os.path.join(H, "guest"), "-isystem", self.res + "/include",
             "-ffreestanding", "-w", "-DNDEBUG", "-Dt1ha_EXPORTS", self.opt,
             "-fno-stack-protector", "-Xclang", "-disable-llvm-passes"]
        b = os.path.basename(src or "")
        if self.x86 and "aes" in b:
            f += ["-maes", "-mavx2" if "avx2" in b else "-mno-avx"
                  if "noavx" in b else "-mavx"]
        return f + list(self.bare) + self.defs

    def compile(self, cfg, flags, src, out):
        ir = out[:-2] + ".ll"
        cmd = ["clang"] + flags + ["-S", "-emit-llvm", src, "-o", ir]
        with self.e.sem:
            r = sh(cmd)
        if r.returncode:
            raise BuildFailed(self, cmd, r.stdout)
        with open(ir, encoding="latin1") as f:
            t = f.read()
        for a, b in EDITS:
            t = re.sub(a, b, t)
        if not self.x86:
            t = re.sub(r'"target-features"="[^"]*"', "", t)
        with open(ir, "w", encoding="latin1") as f:
            f.write(t)
        return self.e.cc(self, ["-w", "-fPIC", "-O0" if self.opt == "-O0"
                                else "-O2"], ir, out)


class Win32(Cfg):
    """32-bit Windows, as ELF objects."""

    def __init__(self, env, suffix, res, **k):
        self.env_, self.res = env, res
        k["defs"] = ["-DT1HA_USE_INDIRECT_FUNCTIONS=0"] + k.get("defs", [])
        Cfg.__init__(self, "for-i686-windows-%s%s" % (env, suffix), cc="clang",
                     m32=True, link=["-no-pie", "-Wl,-z,notext"], **k)

    def libflags(self, src=None):
        f = ["--target=i686-pc-windows-%s-elf" % self.env_, "-nostdinc",
             "-isystem", os.path.join(H, "guest"), "-isystem",
             self.res + "/include", "-ffreestanding", "-w", "-DNDEBUG",
             "-Dt1ha_EXPORTS", self.opt, "-fno-stack-protector", "-msse2",
             "-mstackrealign"]
        b = os.path.basename(src or "")
        if "aes" in b:
            f += ["-maes", "-mavx2" if "avx2" in b else "-mno-avx"
                  if "noavx" in b else "-mavx"]
        return f + self.defs


def foreign(e, th):
    res = sh(["clang", "-print-resource-dir"]).stdout.strip()
    out = []
    for v in ("msvc", "gnu"):
        out += [Win32(v, "", res),
                Win32(v, "-noshot", res, opt="-O1", defs=[cfgs.NOSHOT]),
                Win32(v, "-nosel", res, opt="-Os",
                      defs=["-DT1HA0_RUNTIME_SELECT=0"])]
    for p in PLATFORMS:
        def add(suffix="", **k):
            out.append(Foreign(p, suffix, res, e, **k))
        add()
        add("-O0-noshot", opt="-O0", defs=[cfgs.NOSHOT])
        if th:
            for i in (0, 1, 2):
                add("-ua%d" % i, defs=[cfgs.UA % i], opt="-O3")
                add("-no%d" % i, defs=["-DT1HA%d_DISABLED" % i])
        if p.startswith("aarch64"):
            add("-strict", bare=["-mstrict-align"])
            add("-strict-ub", bare=["-mstrict-align"] + TRAP, opt="-O1")
        elif p[:5] in ("riscv", "loong", "mips6"):
            add("-ub", bare=TRAP, opt="-O1")
        elif p[:6] == "x86_64":
            add("-nosel", defs=["-DT1HA0_RUNTIME_SELECT=0"])
            add("-noaes", defs=["-DT1HA0_AESNI_AVAILABLE=0"])
    return out


def configs(th):
    out = []
    for n, (d, m, x86) in personas().items():
        def add(suffix="", **k):
            k.setdefault("defs", [])
            out.append(Cfg("as-" + n + suffix, cc="clang", m32=m,
                           pre=PERS + d, **k))
        add()
        add("-O0-assert", opt="-O0", ndebug=False)
        add("-ub", opt="-O1", san=UB, hsan=[], ndebug=False)
        i = len(out) // 3
        for j, x in enumerate(SOME):
            if th or (i + j) % 4 == 0:
                add("-%d" % j, opt="-O3", defs=[x])
                if th:
                    add("-%d-noshot-Os" % j, opt="-Os",
                        defs=sorted({x, cfgs.NOSHOT}))
        if x86:
            add("-noselect", defs=["-DT1HA0_RUNTIME_SELECT=0"])
            add("-noaes", defs=["-DT1HA0_AESNI_AVAILABLE=0"])
        if th:
            for k in (0, 1, 2):
                add("-no%d" % k, defs=["-DT1HA%d_DISABLED" % k])
    return out


def check(e):
    th = e.thorough
    k = 8 if th else 1
    fns = []

    def prep(c):
        dis = sum(1 << i for i in range(3) if "-DT1HA%d_DISABLED" % i in c.defs)
        try:
            xs = {d: e.exe(c, d + ".c", glue_defs=["-DGLUE_SELFCHECK"])
                  for d in ("drv_config", "drv_value", "drv_stream",
                            "drv_contain")}
        except BuildFailed as y:
            m = re.search(r"(error: .{0,80}|undefined reference to .{0,60})",
                          y.log)
            key = re.sub(r"[^\w]+", "_", m.group(1) if m else "error")
            e.violation("build:" + key, "doesn't build as %s: %s" % (
                c.name, y.log[-1200:]), dict(config=c.describe(), cmd=y.cmd))
            return
        e.stat("personas_built", 1)

        def job(d, *a):
            fns.append(lambda: e.run(c, xs[d], list(a), cpu_s=600))
        slow = 3 if c.san or c.opt == "-O0" else 1
        job("drv_config", 12 if th else 5, 7 & ~dis)
        tl = "0,1,4,5,6,7,8,9,10,11,12"
        job("drv_value", "grid", tl, 2 * k, 0, 1)
        job("drv_value", "steer", tl, 24000 * k // slow, 0, 1)
        job("drv_value", "random", tl, 12000 * k // slow, 0, 1)
        if not dis & 4:
            job("drv_stream", "hist", 3000 * k // slow, 0, 1)
        job("drv_contain", "guard", k, 0, 1)
        job("drv_contain", "page", k, 0, 2)
        if c.name == "for-x86_64-pc-windows-msvc":
            # there, unsigned long is narrower than size_t
            for t in (0, 1, 4, 5, 6, 7, 8, 9, 10):
                fns.insert(0, lambda t=t: e.run(
                    c, xs["drv_value"], ["huge", str(t), k, t, 99],
                    cpu_s=800))
            fns.insert(0, lambda: e.run(c, xs["drv_stream"],
                                        ["hugechunk", 1, 0, 1], cpu_s=800))
        if re.match("as-msvc-x|for-x86_64", c.name) and "-no" not in c.name and not c.san and \
                "x86-2013" not in c.name:
            x = e.exe(c, "drv_cpu.c", glue_defs=["-DGLUE_SELFCHECK"])
            for s in range(4):    # every kind of CPU, as CPUID tells
                fns.append(lambda s=s: e.run(c, x, ["static", s, 4, 0],
                                             cpu_s=400))
    e.parallel([lambda c=c: prep(c) for c in configs(th) + foreign(e, th)])
    e.parallel(fns)
    st = e.stats
    e.assumptions += [
        "the compilers themselves (Visual C++, LCC, old GCC) can't be run "
        "here: clang compiles the sources as these would see them after "
        "preprocessing (harness/persona.h), with their intrinsics written "
        "from documentation (harness/persona/*.h)",
    ]
    n = st.get("comparisons", 0) + st.get("values", 0)
    return e.finish(
        n, n, "one evaluation = one value, computed by code that was "
        "preprocessed for another compiler, compared with the model; inputs "
        "are drawn afresh")
