import os
from engine import Cfg, BuildFailed, H, HarnessError, sh
import cfgs

IF0 = "-DT1HA_USE_INDIRECT_FUNCTIONS=0"


def shlib(e, cfg):
    """a shared library of this configuration"""
    def build():
        out = os.path.join(e.tmp, "libt1ha.%s.so" % cfg.name)
        cmd = [cfg.cc] + cfg.base() + ["-shared", "-Wl,-z,now", "-o", out] + \
            e.lib(cfg)
        with e.sem:
            r = sh(cmd)
        if r.returncode:
            raise BuildFailed(cfg, cmd, r.stdout)
        return out
    return e._memo(("so", cfg.name), build)


def start_exe(e, cfg, mode, defs=(), link=(), cflags=()):
    """the start-up driver in one link mode"""
    def build():
        out = os.path.join(e.tmp, "st.%s.%s" % (cfg.name, mode))
        objs = [e.hobj(cfg, "model.c"),
                e.hobj(cfg, "startcall.c",
                       (["-DNO_T1HA0"] if "dlopen" in mode else []) +
                       (["-Dt1ha_IMPORTS"] if "shared" in mode else []) +
                       list(cflags), lib_abi=True),
                e.hobj(cfg, "drv_start.c", list(defs) + list(cflags))]
        ln = list(link)
        if mode.startswith("shared"):
            ln += [shlib(e, cfg), "-Wl,-rpath," + e.tmp]
        elif "dlopen" not in mode:
            objs += e.lib(cfg)
        cmd = [cfg.cc] + cfg.base() + ["-o", out] + objs + ln + \
            ["-lpthread", "-ldl"]
        with e.sem:
            r = sh(cmd)
        if r.returncode:
            raise BuildFailed(cfg, cmd, r.stdout)
        return out
    return e._memo(("st", cfg.name, mode), build)


def check(e):
    th = e.thorough
    todo = []

    def step(c):
        x = e.exe(c, "drv_cpu.c", glue_defs=["-DGLUE_SELFCHECK"])
        n = 4
        for s in range(n):
            todo.append(lambda s=s: e.run(c, x, ["static", s, n, int(th)],
                                          cpu_s=900 if th else 200))

    def stepso(c, ifunc):
        x = e.exe(Cfg(c.name + "-host", m32=c.m32), "drv_cpu.c")
        so = shlib(e, c)
        n = 4
        for s in range(n):
            todo.append(lambda s=s: e.run(
                c, x, ["so", so, ifunc, int(th), s, n],
                cpu_s=900 if th else 200, label="dlopen " + c.name))

    def start(c, mode, defs=(), link=(), cflags=(), env=None):
        x = start_exe(e, c, mode, defs, link, cflags)
        en = {"UBSAN_OPTIONS": "halt_on_error=0:print_stacktrace=0"}
        en.update(env or {})
        todo.append(lambda: e.run(c, x, [], env=en, label="start " + mode,
                                  crash_key="start-" + mode, cpu_s=30))

    E = ["-DEARLY", "-DPREINIT"]
    S = ["-DEARLY"]

    def modes(c, san=False, few=False):
        p = []
        p.append(lambda: start(c, "pie", E if not san else [], ["-pie"]))
        p.append(lambda: start(c, "shared", S if not san else []))
        if few:
            return p
        p.append(lambda: start(c, "nopie", E if not san else [],
                               ["-no-pie"], ["-fno-pie"]))
        p.append(lambda: start(c, "pie-now", E if not san else [],
                               ["-pie", "-Wl,-z,now"]))
        p.append(lambda: start(c, "pie-lazy", E if not san else [],
                               ["-pie", "-Wl,-z,lazy"]))
        p.append(lambda: start(c, "shared-lazy", S if not san else [],
                               ["-Wl,-z,lazy"]))
        if not san:
            p.append(lambda: start(c, "static", E, ["-static"]))
            p.append(lambda: start(c, "static-pie", E, ["-static-pie"]))
            for lazy in (0, 1):
                p.append(lambda lazy=lazy: start(
                    c, "dlopen%d" % lazy, ["-DUSE_DLOPEN"],
                    env={"T1HA_SO": shlib(e, c), "T1HA_LAZY": str(lazy)}))
        return p
    IF1 = "-DT1HA_USE_INDIRECT_FUNCTIONS=1"
    full = [Cfg("s-gcc64"), Cfg("s-gcc64-if0", defs=[IF0]),
            Cfg("s-m32", m32=True), Cfg("s-m32-if0", m32=True, defs=[IF0]),
            Cfg("s-clang64", cc="clang"),
            Cfg("s-clang64-if0", cc="clang", defs=[IF0]),
            Cfg("s-ssp", opt="-O0", extra=["-fstack-protector-all"]),
            Cfg("s-clang-ssp", cc="clang", opt="-O0",
                extra=["-fstack-protector-all"]),
            Cfg("s-m32-ssp", m32=True, opt="-O1",
                extra=["-fstack-protector-all"]),
            # the indirect functions are off by default for 32 bits, but can
            # be enabled (documented in t1ha.h)
            Cfg("s-m32-if1", m32=True, defs=[IF1]),
            Cfg("s-m32-ssp-if1", m32=True, opt="-O0", defs=[IF1],
                extra=["-fstack-protector-all"]),
            Cfg("s-clang32-ssp-if1", cc="clang", m32=True, opt="-O0",
                defs=[IF1], extra=["-fstack-protector-all"])]
    few = [Cfg("s-O0", opt="-O0"), Cfg("s-m32-O0", m32=True, opt="-O0"),
           Cfg("s-clang-O0", cc="clang", opt="-O0"),
           Cfg("s-native", opt="-O3", extra=["-march=native"]),
           Cfg("s-clang32", cc="clang", m32=True),
           Cfg("s-clang32-if0", cc="clang", m32=True, defs=[IF0]),
           Cfg("s-ssp-if0", opt="-O0", defs=[IF0],
               extra=["-fstack-protector-all"]),
           Cfg("s-t1off", defs=["-DT1HA1_DISABLED"]),
           Cfg("s-t12off", defs=["-DT1HA1_DISABLED", "-DT1HA2_DISABLED"]),
           Cfg("s-noaes", defs=["-DT1HA0_AESNI_AVAILABLE=0",
                                "-DT1HA0_RUNTIME_SELECT=1"]),
           Cfg("s-nosel", defs=["-DT1HA0_RUNTIME_SELECT=0"])]
    sanit = []
    for cc in ("gcc", "clang"):
        for o in ("-O0", "-O2"):
            for if0 in ([], [IF0]):
                for s in ("thread", "address", "undefined", "memory"):
                    if s == "memory" and cc == "gcc":
                        continue
                    sanit.append(Cfg("s-%s-%s%s%s" % (
                        cc, s, o, "-if0" if if0 else ""), cc=cc, opt=o,
                        defs=if0, san=["-fsanitize=" + s]))
    preps = []
    for c in full:
        preps += modes(c)
    for c in few:
        preps += modes(c, few=not th)
    for c in sanit:
        preps += modes(c, san=True, few=not th)
    cpu = [cfgs.gcc64(), cfgs.m32(), Cfg("clang64", cc="clang", opt="-O3"),
           Cfg("gcc64-O0", opt="-O0")]
    if th:
        cpu += [Cfg("clang32", cc="clang", m32=True),
                Cfg("m32-O0", m32=True, opt="-O0"),
                Cfg("gcc64-if0", defs=[IF0]),
                Cfg("gcc64-Os", opt="-Os"),
                Cfg("gcc64-Ofast", opt="-Ofast")]
    sos = [(cfgs.gcc64(), 1), (Cfg("so-gcc64-if0", defs=[IF0]), 0),
           (Cfg("so-m32", m32=True), 0),
           (Cfg("so-m32-if0", m32=True, defs=[IF0]), 0)]

    def wrap(fn):
        def g():
            try:
                fn()
            except BuildFailed as y:
                e.notes.append("not built: %s" % str(y)[:400])
                e.stat("start_builds_failed", 1)
        return g
    e.parallel([lambda c=c: step(c) for c in cpu] +
               [lambda c=c, i=i: stepso(c, i) for c, i in sos] +
               [wrap(p) for p in preps])
    e.parallel(todo)
    st = e.stats
    if not e.violations and st.get("start_builds_failed", 0) > 20:
        raise HarnessError("most start-up programs don't build: %s" %
                           e.notes[:2])
    return e.finish(
        st.get("selections", 0) + st.get("executions", 0) +
        st.get("start_values", 0),
        st.get("selections", 0) + st.get("moments", 0),
        "one evaluation = one selection on an emulated CPU/OS, one stepped "
        "execution of the selected code, or one value at start-up; "
        "distinct_nontrivial = emulated machines x noise x builds, plus the "
        "moments (preinit, constructor, main, thread) x link modes")
