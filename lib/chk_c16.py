import os
import random
import re

import cfgs
from engine import Cfg, BuildFailed, HarnessError, sh, H, REPO, NCPU

# how applications are compiled: (compiler, options)
APPS = [
    ("gcc", "-std=gnu89 -O0"),
    ("gcc", "-std=c99 -O2"),
    ("gcc", "-std=c11 -O3 -march=native"),
    ("gcc", "-std=c17 -Os -DNDEBUG"),
    ("gcc", "-std=c2x -O2 -mavx2 -ffast-math"),
    ("gcc", "-std=gnu11 -O2 -funsigned-char -fshort-enums -fno-common"),
    ("gcc", "-O1 -fstack-protector-all -D_FORTIFY_SOURCE=2 -DABI_FIRST"),
    ("gcc", "-O2 -fno-plt -fvisibility=hidden -DABI_HIDDEN -DNDEBUG"),
    ("gcc", "-O2 -mno-avx -fno-strict-aliasing -DABI_FIRST"),
    ("gcc", "-Og -fcf-protection=full -D_FILE_OFFSET_BITS=64"),
    ("clang", "-std=gnu89 -O2"),
    ("clang", "-std=c11 -O0 -DABI_FIRST"),
    ("clang", "-std=c17 -O3 -mavx512f -DNDEBUG"),
    ("clang", "-O2 -mno-avx -funsigned-char"),
    ("g++", "-std=c++98 -O2"),
    ("g++", "-std=c++11 -O0 -DABI_FIRST"),
    ("g++", "-std=c++17 -O3 -march=native -DNDEBUG"),
    ("g++", "-std=c++20 -Os -fno-exceptions"),
    ("g++", "-std=gnu++23 -O1 -fno-rtti"),
    ("clang++", "-std=c++98 -O1 -DABI_FIRST"),
    ("clang++", "-std=c++14 -O2 -mavx2"),
    ("clang++", "-std=c++20 -O3 -DNDEBUG"),
    # what concerns the library only
    ("gcc", "-O2 -DT1HA_USE_FAST_ONESHOT_READ=0"),
    ("gcc", "-O2 -DT1HA_USE_FAST_ONESHOT_READ=1 "
            "-DT1HA_SYS_UNALIGNED_ACCESS=0"),
    ("clang", "-O2 -DT1HA_SYS_UNALIGNED_ACCESS=1"),
    ("g++", "-O2 -DT1HA_SYS_UNALIGNED_ACCESS=2 -UNDEBUG"),
    # an application may leave parts of the library alone
    ("gcc", "-O2 -DT1HA0_DISABLED"),
    ("gcc", "-O2 -DT1HA2_DISABLED"),
    ("clang++", "-O2 -DT1HA0_DISABLED -DT1HA1_DISABLED"),
]
SWITCHES = [[], ["-DT1HA_USE_INDIRECT_FUNCTIONS=0"],
            ["-DT1HA0_RUNTIME_SELECT=0"], ["-DT1HA0_AESNI_AVAILABLE=0"],
            ["-DT1HA0_RUNTIME_SELECT=0", "-DT1HA0_USE_DEFINE=1"]]
SW = ["", "-ind0", "-sel0", "-aes0", "-define"]


def libs(m32, sw, th):
    """how the library is compiled; the switches which its header depends on
    are given to the applications as well"""
    d = SWITCHES[sw]
    n = ("m32" if m32 else "gcc64") + SW[sw]
    k = dict(m32=m32)
    if sw and not th:
        return [Cfg(n, opt="-O2", defs=d, **k),
                Cfg(n + "-clang-assert", cc="clang", opt="-O0", defs=d,
                    ndebug=False, **k)]
    c = [Cfg(n, opt="-O2", defs=d, **k),
         Cfg(n + "-O0-assert", opt="-O0", defs=d, ndebug=False, **k),
         Cfg(n + "-native", opt="-O3", extra=["-march=native"], defs=d, **k),
         Cfg(n + "-clang", cc="clang", opt="-O2", defs=d, **k),
         Cfg(n + "-clang-assert", cc="clang", opt="-O1", defs=d,
             ndebug=False, **k),
         Cfg(n + "-ua0-noshot", opt="-O2", defs=d + [cfgs.UA % 0,
                                                     cfgs.NOSHOT], **k),
         Cfg(n + "-ua1", cc="clang", opt="-O2", defs=d + [cfgs.UA % 1], **k),
         Cfg(n + "-chars", opt="-Os", extra=["-funsigned-char",
                                             "-fshort-enums"], defs=d, **k)]
    if not m32:
        c.append(Cfg(n + "-noint128", opt="-O2", extra=[cfgs.NOINT128],
                     defs=d, **k))
    return c


def check(e):
    th = e.thorough
    n = 1500 if th else 220
    jobs = []

    def app_obj(i, m32, d, pic, san=()):
        cc, opts = APPS[i]
        name = "app%d_%s" % (i, cc.replace("+", "p"))

        def build():
            out = os.path.join(e.tmp, "%s.%s.o" % (name, abs(hash(
                (m32, tuple(d), pic, tuple(san))))))
            cmd = [cc] + (["-x", "c++"] if "++" in cc else []) + \
                opts.split() + ["-g1", "-w", "-I", REPO, "-I", H, pic,
                                "-DAPP=" + name, '-DAPP_OPTIONS="%s"' % opts,
                                "-Dt1ha_IMPORTS"] + list(d) + list(san) + \
                (["-m32"] if m32 else []) + \
                (["-DABI_PLUGIN"] if pic == "-fPIC" else []) + \
                ["-c", os.path.join(H, "abi_app.c"), "-o", out]
            with e.sem:
                r = sh(cmd)
            if r.returncode:
                e.violation("header:%s" % re.sub(r"\W+", "_", opts)[:60],
                            "t1ha.h can't be used by an application compiled "
                            "with %s %s: %s" % (cc, opts, r.stdout[-800:]),
                            dict(cmd=cmd))
                return None
            return out
        return name, e._memo(("app", i, m32, tuple(d), pic, tuple(san)),
                             build)

    def link(cmd, c, what):
        with e.sem:
            r = sh(cmd)
        if r.returncode:
            e.violation("link:%s:%s" % (c.name, what),
                        "%s doesn't link with the library [%s]: %s" %
                        (what, c.name, r.stdout[-1000:]),
                        dict(config=c.describe(), cmd=cmd))
            return False
        return True

    def shared(c):
        so = os.path.join(e.tmp, "libt1ha-%s.so" % c.name)

        def build():
            return so if link(
                [c.cc] + c.base() + ["-shared", "-Wl,-soname," +
                                     os.path.basename(so), "-o", so] +
                e.lib(c), c, "the shared library") else None
        return e._memo(("so", c.name), build)

    def linked(c, sw, kind, ids, san=()):
        """an executable of several applications"""
        pic = {"nopie": "-fno-pie", "static": "-fno-pie"}.get(kind, "-fPIE")
        objs, names = [], []
        for i in ids:
            nm, o = app_obj(i, c.m32, SWITCHES[sw], pic, san)
            if o:
                objs.append(o)
                names.append(nm)
        if not objs:
            return
        base = os.path.join(e.tmp, "abi-%s-%s%s" % (
            c.name, kind, "".join(san).replace("=", "_")))
        with open(base + ".c", "w") as f:
            f.write('#include "abi.h"\n' + "".join(
                "extern const abi_app %s;\n" % x for x in names) +
                "extern const abi_app *const abi_linked[];\n"
                "const abi_app *const abi_linked[] = {%s0};\n" %
                "".join("&%s, " % x for x in names))
        if kind.startswith("so"):
            lb = shared(c)
            if not lb:
                return
            lb = [lb, "-Wl,-rpath," + e.tmp]
        else:
            lb = e.lib(c)
        flags = {"nopie": ["-no-pie"], "so-nopie": ["-no-pie"],
                 "static": ["-static"], "static-pie": ["-static-pie"],
                 "so-now": ["-Wl,-z,now", "-pie"]}.get(kind, ["-pie"])
        m = ["-m32"] if c.m32 else []
        drv = e._memo(("drv", c.m32, pic), lambda: e.cc(
            c, ["-std=gnu11", "-O1", "-g1", "-w", "-DLINKED", pic, "-I", H] +
            m, os.path.join(H, "drv_abi.c"),
            os.path.join(e.tmp, "drv%d%s.o" % (c.m32, pic))))
        mod = e._memo(("mod", c.m32, pic), lambda: e.cc(
            c, ["-std=gnu11", "-O2", "-w", pic, "-I", H] + m,
            os.path.join(H, "model.c"),
            os.path.join(e.tmp, "mod%d%s.o" % (c.m32, pic))))
        e.cc(c, ["-I", H, "-w", pic] + m, base + ".c", base + ".o")
        cmd = ["g++"] + m + flags + list(san) + \
            ["-o", base, base + ".o", drv, mod] + objs + lb + \
            ["-lpthread", "-ldl"]
        if not link(cmd, c, "an application (%s)" % kind):
            return
        e.stat("executables", 1)
        e.run(c, base, ["link", n], cpu_s=300, label=kind)

    def plugin(c, sw, i, form):
        nm, o = app_obj(i, c.m32, SWITCHES[sw], "-fPIC")
        if not o:
            return None
        out = os.path.join(e.tmp, "plug-%s-%s-%s.so" % (c.name, form, nm))
        if form == "so":
            lb = shared(c)
            if not lb:
                return None
            lb = [lb, "-Wl,-rpath," + e.tmp]
        else:
            lb = e.lib(c)
        cmd = ["g++"] + (["-m32"] if c.m32 else []) + \
            ["-shared", "-o", out, o] + lb
        return out if link(cmd, c, "a plugin (%s)" % form) else None

    def host(m32, hostile):
        m = ["-m32"] if m32 else []
        out = os.path.join(e.tmp, "host%d%d" % (m32, hostile))

        def build():
            cmd = ["gcc", "-std=gnu11", "-O1", "-g1", "-w", "-I", H] + m + \
                (["-DHOSTILE", "-rdynamic"] if hostile else []) + \
                ["-o", out, os.path.join(H, "drv_abi.c"),
                 os.path.join(H, "model.c"), "-lpthread", "-ldl"]
            with e.sem:
                r = sh(cmd)
            if r.returncode:
                raise HarnessError(r.stdout[-1500:])
            return out
        return e._memo(("host", m32, hostile), build)

    def plugins(cs, sw, form, seed):
        """every application is met by several libraries, all in one
        process"""
        rng = random.Random(seed)
        files = []
        m32 = cs[0].m32
        for c in cs:
            ids = usable(sw)
            if not th:
                ids = rng.sample(ids, 5 if sw else 7)
            for i in ids:
                p = plugin(c, sw, i, form)
                if p:
                    files.append(p)
        rng.shuffle(files)
        files = files[:380]
        if files:
            e.stat("plugins", len(files))
            e.run(cs[0], host(m32, form == "inside"),
                  ["plug", max(60, n // 4)] + files, cpu_s=300,
                  label="plug-" + form)

    def usable(sw):
        # without a dispatcher t1ha0 is defined by the header, so it depends
        # on which parts are disabled there: nothing to compare
        return [i for i, (cc, o) in enumerate(APPS)]

    kinds = ["static-objs", "nopie", "static", "static-pie", "so", "so-nopie",
             "so-now"]
    for m32 in (False, True):
        for sw in range(len(SWITCHES)):
            cs = libs(m32, sw, th)
            for k, c in enumerate(cs):
                mine = kinds if th or (k == 0 and not sw) else \
                    [kinds[k % 4], kinds[4 + k % 3]]
                for kd in mine:
                    jobs.append(lambda c=c, sw=sw, kd=kd:
                                linked(c, sw, kd, usable(sw)))
            emb = [Cfg(c.name + "-inside", cc=c.cc, m32=c.m32, opt=c.opt,
                       defs=c.defs, ndebug=c.ndebug,
                       extra=c.extra + ["-Ut1ha_EXPORTS",
                                        "-fvisibility=default"])
                   for c in cs[:: 1 if th else 3]]
            jobs.append(lambda cs=cs, sw=sw: plugins(cs, sw, "so", e.seed))
            jobs.append(lambda cs=emb, sw=sw: plugins(cs, sw, "inside",
                                                      e.seed + 1))
    # an instrumented application and a library which isn't
    plain = [i for i, (cc, o) in enumerate(APPS) if cc in ("gcc", "g++") and
             "fast-math" not in o and "-mno-avx" not in o]
    for m32 in (False, True):
        c = libs(m32, 0, th)[0]
        for s in (["-fsanitize=address"], ["-fsanitize=undefined"]) + \
                (() if m32 else (["-fsanitize=thread"],)):
            for kd in ("pie", "so"):
                jobs.append(lambda c=c, s=s, kd=kd:
                            linked(c, 0, kd, plain, s))
    e.parallel(jobs)
    st = e.stats
    return e.finish(
        st.get("values", 0) + st.get("streams", 0) +
        st.get("stream_steps_in_a_foreign_context", 0),
        st.get("executables", 0) + st.get("plugins", 0),
        "one evaluation = one call or stream step of an application that was "
        "built separately; distinct_nontrivial = executables and plugins, "
        "i.e. (library build, application builds, way of linking)")
