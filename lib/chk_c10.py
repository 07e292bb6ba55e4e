import cfgs
from engine import Cfg, BuildFailed

TSAN = ["-fsanitize=thread"]
IF0 = "-DT1HA_USE_INDIRECT_FUNCTIONS=0"
SC = ["-DGLUE_SELFCHECK"]


def check(e):
    th = e.thorough
    todo = []

    def soft(f, c):
        try:
            f(c)
        except BuildFailed as y:
            if c.name in ("gcc64", "m32"):
                raise
            e.notes.append("not built: %s" % str(y)[:300])

    def tsan(c):
        x = e.exe(c, "drv_thread.c", defs=["-DNO_FLIP"], glue_defs=SC)
        for k in range(6 if th else 1):
            todo.append(lambda k=k: e.run(
                c, x, ["threads", 60 if th else 16, [8, 4, 16, 3, 32, 8][k]],
                cpu_s=900, env={"VERIF_SEED": str(e.seed * 10 + k)}))

    def plain(c):
        x = e.exe(c, "drv_thread.c", glue_defs=SC)
        todo.append(lambda: e.run(c, x, ["threads", 400 if th else 40, 16],
                                  cpu_s=600))

    def step(c):
        x = e.exe(c, "drv_thread.c", defs=["-DWITH_MARKS"],
                  glue_defs=SC + ["-DGLUE_T0PTR"], marks=True)
        n = 3
        for s in range(n):
            todo.append(lambda s=s: e.run(
                c, x, ["nested", s, n, 12 if th else 3], cpu_s=900))
        todo.append(lambda: e.run(c, x, ["first", 300 if th else 40],
                                  cpu_s=600))
        todo.append(lambda: e.run(c, x, ["state", 3000000 if th else 120000],
                                  cpu_s=600))

    def drd(c):
        x = e.exe(c, "drv_thread.c", defs=["-DNO_FLIP"], glue_defs=SC)
        for tool in ("drd", "helgrind"):
            todo.append(lambda tool=tool: e.run(
                c, x, ["threads", 2, 4],
                wrap=["valgrind", "--tool=" + tool, "-q", "--error-exitcode=77"],
                cpu_s=1800, crash_key="valgrind-" + tool))
    T = [Cfg("tsan-clang", cc="clang", san=TSAN, opt="-O1"),
         Cfg("tsan-gcc", san=TSAN, opt="-O2"),
         Cfg("tsan-clang-O0-if0", cc="clang", san=TSAN, opt="-O0",
             defs=[IF0]),
         Cfg("tsan-gcc-port", san=TSAN, opt="-O1", portable=True)]
    S = [cfgs.gcc64(), cfgs.m32(), Cfg("clang64", cc="clang"),
         Cfg("gcc64-if0", defs=[IF0]), Cfg("m32-if0", m32=True, defs=[IF0]),
         Cfg("gcc64-nosel", defs=["-DT1HA0_RUNTIME_SELECT=0"]),
         Cfg("m32-ua0-noshot", m32=True, defs=[cfgs.UA % 0, cfgs.NOSHOT]),
         Cfg("port64-noint128", portable=True, extra=[cfgs.NOINT128])]
    if th:
        S += [Cfg("gcc64-O0", opt="-O0"), Cfg("clang32", cc="clang", m32=True),
              Cfg("port32", portable=True, m32=True),
              Cfg("gcc64-native", opt="-Ofast", extra=["-march=native"])]
    preps = [lambda c=c: soft(tsan, c) for c in T]
    preps += [lambda c=c: soft(plain, c) for c in S]
    preps += [lambda c=c: soft(step, c) for c in S]
    if th:
        preps.append(lambda: soft(drd, Cfg("vg-gcc64")))
    e.parallel(preps)
    e.parallel(todo)
    st = e.stats
    return e.finish(
        sum(st.get(k, 0) for k in ("threaded_results", "nested_calls",
                                   "sequential_calls", "calls_next_to_writes",
                                   "interrupted_calls")),
        st.get("interruption_points", 0) + st.get("interrupted_calls", 0),
        "one evaluation = one result checked against the model: in one of the "
        "threads (ThreadSanitizer on), in a signal handler at an instruction "
        "boundary of another call, of an interrupted call, of a long "
        "sequential history, or next to memory another thread writes; "
        "distinct_nontrivial = the instruction boundaries at which another "
        "call was made, plus the interrupted calls")
