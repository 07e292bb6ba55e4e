import cfgs
from engine import Cfg, BuildFailed

# passing an uninitialised value on is not yet a use of it
MSAN = ["-fsanitize=memory", "-fno-sanitize-recover=all",
        "-fno-sanitize-memory-param-retval"]


def check(e):
    th = e.thorough
    slow, fast = [], []
    k = 8 if th else 1

    def soft(f, c):
        try:
            f(c)
        except BuildFailed as y:
            if c.name in ("gcc64", "m32"):
                raise
            e.notes.append("not built: %s" % str(y)[:300])

    def diff(c):
        x = e.exe(c, "drv_def.c")
        n = 2
        for s in range(n):
            fast.append(lambda s=s: e.run(c, x, [4 * k, s, n]))

    def msan(c):
        x = e.exe(c, "drv_def.c")
        n = 2
        for s in range(n):
            fast.append(lambda s=s: e.run(c, x, [2 * k, s, n]))

    def vg(c):
        x = e.exe(c, "drv_def.c", defs=["-DWITH_VG"],
                  link=["-static"] if c.m32 else [])
        n = 4
        for s in range(n):
            slow.append(lambda s=s: e.run(
                c, x, [6 if th else 1, s, n],
                wrap=["valgrind", "--tool=memcheck", "-q",
                      "--leak-check=no", "--error-limit=no",
                      "--log-file=/dev/null"],
                cpu_s=1800 if th else 240))
    M = [Cfg("msan64-O1", cc="clang", san=MSAN, opt="-O1"),
         Cfg("msan64-O2-ua0", cc="clang", san=MSAN, opt="-O2",
             defs=[cfgs.UA % 0]),
         Cfg("msan64-O0", cc="clang", san=MSAN, opt="-O0"),
         Cfg("msan64-port", cc="clang", san=MSAN, opt="-O1", portable=True),
         Cfg("msan64-port-ua2-noint128", cc="clang", san=MSAN, opt="-O1",
             portable=True, defs=[cfgs.UA % 2], extra=[cfgs.NOINT128]),
         Cfg("msan64-noshot", cc="clang", san=MSAN, opt="-O1",
             defs=[cfgs.NOSHOT])]
    V = [Cfg("vg-gcc64", opt="-O2"),
         Cfg("vg-gcc64-ua0", opt="-O2", defs=[cfgs.UA % 0]),
         Cfg("vg-m32", opt="-O2", m32=True),
         Cfg("vg-m32-ua0", opt="-O2", m32=True, defs=[cfgs.UA % 0]),
         Cfg("vg-m32-port", opt="-O2", m32=True, portable=True)]
    preps = [lambda c=c: soft(diff, c) for c in cfgs.value_cfgs(th)]
    preps += [lambda c=c: soft(msan, c) for c in M]
    preps += [lambda c=c: soft(vg, c) for c in V]
    e.parallel(preps)
    e.parallel(slow + fast)
    e.samples += ["one group = the same input at 24 places (page ends, page "
                  "starts, across, anywhere) with other surroundings"]
    st = e.stats
    return e.finish(
        st.get("calls", 0), st.get("groups", 0),
        "one evaluation = one call whose result is checked for definedness "
        "(MSan, valgrind: the bytes around the input, the memory of the "
        "context before init and of extra_result are undefined) and compared "
        "with the other calls of its group; distinct_nontrivial counts the "
        "groups, each a new (function, length, seed, data) or history")
