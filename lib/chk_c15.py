import cfgs
import value
from engine import Cfg, BuildFailed

NOW = ["-Wl,-z,now"]
COV = ["-fsanitize-coverage=trace-cmp,trace-pc-guard"]


def check(e):
    th = e.thorough
    # (configuration, scale of the limits in percent)
    cs = [(cfgs.gcc64(), 200), (cfgs.m32(), 500),
          (Cfg("clang64", cc="clang", opt="-O3"), 200),
          (Cfg("gcc64-if0", defs=["-DT1HA_USE_INDIRECT_FUNCTIONS=0"]), 200),
          (Cfg("gcc64-O0", opt="-O0"), 1200),
          (Cfg("port64", portable=True), 300),
          (Cfg("gcc64-ua0-noshot", defs=[cfgs.UA % 0, cfgs.NOSHOT]), 300)]
    if th:
        cs += [(Cfg("clang32", cc="clang", m32=True), 500),
               (Cfg("port32", portable=True, m32=True), 600),
               (Cfg("gcc64-Os", opt="-Os"), 300),
               (Cfg("m32-ua0-noshot", m32=True,
                    defs=[cfgs.UA % 0, cfgs.NOSHOT]), 700),
               (Cfg("gcc64-native", opt="-Ofast", extra=["-march=native"]),
                200)]
    cov = [(Cfg("clang64-work", cc="clang", opt="-O1", extra=COV), 40),
           (Cfg("clang32-work", cc="clang", opt="-O1", m32=True, extra=COV),
            40),
           (Cfg("clang64-port-work", cc="clang", opt="-O1", portable=True,
                extra=COV), 40)]
    fns = []

    def prep(c, sc, iscov):
        try:
            if iscov:
                x = e.exe(c, "drv_res.c", defs=["-DWITH_COV"], link=NOW,
                          extra_objs=[e.hobj(c, "cmpcov.c")])
            else:
                x = e.exe(c, "drv_res.c", link=NOW,
                          glue_defs=["-DGLUE_SELFCHECK"])
        except BuildFailed as y:
            if c.name in ("gcc64", "m32"):
                raise
            e.notes.append("not built: %s" % str(y)[:300])
            return

        def add(ph, am, n):
            for s in range(n):
                fns.append(lambda s=s: e.run(c, x, [ph, am, s, n, sc],
                                             cpu_s=1500 if th else 200))
        if iscov:
            add("work", 2000000 if th else 150000, 6 if th else 2)
            return
        main = c.name in ("gcc64", "m32")
        add("step", 3000 if th else 100 if main else 25, 8 if th else 4)
        add("stack", 4000 if th else 250, 1)
        add("fp", 3000000 if th else 200000, 1)
        add("syscall", 5000000 if th else 300000, 1)
    e.parallel([lambda c=c, s=s: prep(c, s, False) for c, s in cs] +
               [lambda c=c, s=s: prep(c, s, True) for c, s in cov])
    e.parallel(fns)
    st = e.stats
    e.assumptions += [
        "limits, per call: 800 + 5 instructions per byte for optimized "
        "64-bit builds (big-endian variants 7 per byte), more for 32-bit, "
        "unoptimized and portable ones (see DESIGN.md); 4 KiB of stack "
        "(more at -O0), within 256 bytes the same for long inputs as for "
        "short ones; 48 + 0.5 basic blocks per byte",
        "the x87 register stack is empty at calls, as the ABI demands"]
    return e.finish(
        st.get("calls", 0), st.get("calls", 0) - st.get("calls_stack", 0),
        "one evaluation = one call observed: instruction by instruction, on "
        "a painted stack above a guard page, under a seccomp filter with "
        "counted allocator calls, with the floating-point state compared, or "
        "with its basic blocks counted; distinct_nontrivial leaves out the "
        "stack phase, which repeats the same data")
