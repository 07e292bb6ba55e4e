import cfgs
from engine import Cfg, BuildFailed


def check(e):
    e.level = "exploration"
    th = e.thorough
    todo = []
    D = "-DT1HA%d_DISABLED"
    C = [cfgs.gcc64(), cfgs.m32(), Cfg("clang64", cc="clang", opt="-O3"),
         Cfg("gcc64-O0", opt="-O0"), Cfg("gcc64-Os", opt="-Os"),
         Cfg("m32-O1", m32=True, opt="-O1"),
         Cfg("gcc64-no1", defs=[D % 1]), Cfg("gcc64-no2", defs=[D % 2]),
         Cfg("gcc64-no0", defs=[D % 0]), Cfg("gcc64-no12", defs=[D % 1, D % 2]),
         Cfg("gcc64-no01", defs=[D % 0, D % 1]),
         Cfg("gcc64-no02", defs=[D % 0, D % 2]),
         Cfg("m32-no1", m32=True, defs=[D % 1]),
         Cfg("m32-no2", m32=True, defs=[D % 2]),
         Cfg("gcc64-noaes", defs=["-DT1HA0_AESNI_AVAILABLE=0"]),
         Cfg("gcc64-nosel", defs=["-DT1HA0_RUNTIME_SELECT=0"]),
         Cfg("gcc64-if0", defs=["-DT1HA_USE_INDIRECT_FUNCTIONS=0"])]
    if th:
        C += [Cfg("clang32", cc="clang", m32=True),
              Cfg("clang64-O0", cc="clang", opt="-O0"),
              Cfg("gcc64-Ofast", opt="-Ofast", extra=["-march=native"]),
              Cfg("m32-noaes", m32=True, defs=["-DT1HA0_AESNI_AVAILABLE=0"]),
              Cfg("port64", portable=True), Cfg("port32", portable=True,
                                                m32=True)]

    def prep(c):
        try:
            x = e.exe(c, "drv_selfcheck.c", glue_defs=["-DGLUE_SELFCHECK"])
        except BuildFailed as y:
            if c.name in ("gcc64", "m32"):
                raise
            e.notes.append("not built: %s" % str(y)[:300])
            return
        n = 2 if c.name in ("gcc64", "m32") or th else 1
        for s in range(n):
            todo.append(lambda s=s: e.run(c, x, [s, n, int(th)], cpu_s=800))
    e.parallel([lambda c=c: prep(c) for c in C])
    e.parallel(todo)
    st = e.stats
    return e.finish(
        st.get("selfcheck_runs", 0), st.get("injections", 0),
        "one evaluation = one run of a real self-check function with a fault "
        "injected at the entry of the hash functions; distinct_nontrivial = "
        "injected faults: each function x each of the 81 vectors x each bit "
        "(and other differences), differences that cancel out, all subsets of "
        "wrong functions")
