import cfgs
from engine import Cfg, BuildFailed

UB = ["-fsanitize=undefined", "-fno-sanitize-recover=all"]
GUB = UB + ["-fsanitize=float-divide-by-zero"]
NOALIGN = ["-fno-sanitize=alignment"]


def configs(th):
    out = []

    def add(name, cc="gcc", m32=False, ua=None, port=False, defs=(), extra=(),
            opt="-O1", asan=False):
        # misaligned typed loads are the documented meaning of "efficient"
        # and "slow" unaligned access; elsewhere they are a violation
        eff = ua if ua is not None else (0 if port else 2)
        san = UB + ([] if eff == 0 else NOALIGN)
        if asan:
            san = san + ["-fsanitize=address"]
        out.append(Cfg("ub-" + name, cc=cc, m32=m32, opt=opt, san=san,
                       portable=port, extra=extra, ndebug=False, hsan=[],
                       defs=([cfgs.UA % ua] if ua is not None else []) +
                       list(defs)))
    add("gcc64")
    add("clang64", cc="clang")
    add("gcc32", m32=True)
    add("clang32", cc="clang", m32=True)
    add("gcc64-ua0", ua=0)
    add("clang64-ua0", cc="clang", ua=0)
    add("clang32-ua0", cc="clang", m32=True, ua=0)
    add("gcc32-ua0-noshot", m32=True, ua=0, defs=[cfgs.NOSHOT])
    add("clang64-ua1", cc="clang", ua=1)
    add("clang64-noshot", cc="clang", defs=[cfgs.NOSHOT])
    add("clang64-port", cc="clang", port=True)
    add("clang64-port-noshot", cc="clang", port=True, defs=[cfgs.NOSHOT])
    add("gcc64-port-ua2-noint128", port=True, ua=2, extra=[cfgs.NOINT128])
    add("clang32-port", cc="clang", m32=True, port=True)
    add("gcc32-port-ua2", m32=True, port=True, ua=2)
    add("gcc64-asan", asan=True)
    add("clang64-asan-ua0", cc="clang", ua=0, asan=True)
    if th:
        for cc in ("gcc", "clang"):
            for m in (False, True):
                for port in (False, True):
                    for ua in (0, 1, 2):
                        for ns in ((), (cfgs.NOSHOT,)):
                            for opt in ("-O0", "-O3"):
                                add("x-%s%s%s-ua%d%s%s" % (
                                    cc, "32" if m else "64",
                                    "-port" if port else "", ua,
                                    "-ns" if ns else "", opt),
                                    cc=cc, m32=m, ua=ua, port=port, defs=ns,
                                    opt=opt)
    return out


def check(e):
    th = e.thorough
    fns, huge = [], []
    k = 3 if th else 1
    env = dict(VERIF_NOFAIL="1")
    tl = ",".join(str(i) for i in range(13))

    def prep(c):
        try:
            v = e.exe(c, "drv_value.c", glue_defs=["-DGLUE_SELFCHECK"])
            s = e.exe(c, "drv_stream.c")
            z = e.exe(c, "drv_contain.c")
        except BuildFailed as y:
            e.notes.append("not built: %s" % str(y)[:300])
            return
        for ph, am in (("grid", 2 * k), ("seeds", k), ("steer", 20000 * k),
                       ("random", 30000 * k)):
            for i in range(k):
                fns.append(lambda ph=ph, am=am, i=i: e.run(
                    c, v, [ph, tl, am, i, 2 * k if ph in ("grid", "seeds")
                           else k], env=env))
        fns.append(lambda: e.run(c, v, ["selfcheck", tl, 1, 0, 1], env=env))
        fns.append(lambda: e.run(c, v, ["long", tl, 10 * k, 0, 6], env=env))
        fns.append(lambda: e.run(c, v, ["pow", tl, 30 if th else 26, 0, 1],
                                 env=env))
        fns.append(lambda: e.run(c, s, ["pow", 30 if th else 27, 0, 1],
                                 env=env))
        for ph, am in (("split", 1), ("pxc", 3 * k), ("hist", 60000 * k),
                       ("long", 2)):
            fns.append(lambda ph=ph, am=am: e.run(c, s, [ph, am, 0, 1],
                                                  env=env))
        fns.append(lambda: e.run(c, z, ["zero", 30, 0, 1], env=env))
        if c.name in ("ub-gcc64", "ub-clang64", "ub-clang64-ua0", "ub-gcc32",
                      "ub-clang32", "ub-clang64-port"):
            for t in range(11):
                huge.append(lambda t=t: e.run(c, v, ["huge", t, 4 if th else 1,
                                                     t, 99], env=env,
                                              cpu_s=900))
            huge.append(lambda: e.run(c, s, ["hugechunk", 3 if th else 1, 0,
                                             1], env=env, cpu_s=900))
        e.stat("builds", 1)
    e.parallel([lambda c=c: prep(c) for c in configs(th)])
    e.parallel(huge + fns)
    e.assumptions += [
        "misaligned typed loads are allowed only where the configuration "
        "declares unaligned access to be available "
        "(T1HA_SYS_UNALIGNED_ACCESS 1 or 2); with 0 they are a violation",
        "violations of the aliasing rules are not observable by UBSan"]
    st = e.stats
    ev = st.get("comparisons", 0) + st.get("updates", 0) + \
        st.get("finals_compared", 0) + st.get("calls", 0)
    return e.finish(
        ev, ev - st.get("comparisons_grid", 0),
        "one evaluation = one call in a build with UBSan (any report is "
        "fatal) and live assertions; distinct_nontrivial leaves out the grid "
        "phase, which repeats an input at many addresses")
