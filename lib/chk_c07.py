import cfgs
import exact
from engine import Cfg, BuildFailed

ASAN = ["-fsanitize=address"]


def check(e):
    th = e.thorough
    fns = []
    am = 6 if th else 1
    preps = exact.trace_jobs(e, "bytes", True, fns, am)

    def asan(c):
        x = e.exe(c, "drv_exact.c")
        n = 2
        for s in range(n):
            fns.append(lambda s=s: e.run(c, x, ["bytes", 2 * am, s, n]))

    def soft(f, c):
        try:
            f(c)
        except BuildFailed as y:
            e.notes.append("not built: %s" % str(y)[:300])
    A = [Cfg("asan-gcc64", san=ASAN, opt="-O1"),
         Cfg("asan-gcc64-ua0", san=ASAN, opt="-O2", defs=[cfgs.UA % 0]),
         Cfg("asan-gcc32", san=ASAN, opt="-O1", m32=True),
         Cfg("asan-clang64", cc="clang", san=ASAN, opt="-O1"),
         Cfg("asan-clang32-ua0", cc="clang", san=ASAN, opt="-O1", m32=True,
             defs=[cfgs.UA % 0]),
         Cfg("asan-gcc64-port", san=ASAN, opt="-O1", portable=True),
         Cfg("asan-clang64-port-ua1", cc="clang", san=ASAN, opt="-O1",
             portable=True, defs=[cfgs.UA % 1])]
    preps += [lambda c=c: soft(asan, c) for c in A]

    def vg(c):
        x = e.exe(c, "drv_exact.c", defs=["-DWITH_VG"],
                  link=["-static"] if c.m32 else [])
        n = 4
        for s in range(n):
            fns.append(lambda s=s: e.run(
                c, x, ["bytes", 4 if th else 1, s, n],
                wrap=["valgrind", "--tool=memcheck", "-q",
                      "--leak-check=no", "--error-limit=no",
                      "--undef-value-errors=no", "--log-file=/dev/null"],
                cpu_s=1500 if th else 240))
    V = [Cfg("vg-gcc64-noshot", opt="-O2", defs=[cfgs.NOSHOT]),
         Cfg("vg-gcc64-ua0-noshot", opt="-O2",
             defs=[cfgs.NOSHOT, cfgs.UA % 0]),
         Cfg("vg-m32-noshot", opt="-O2", m32=True, defs=[cfgs.NOSHOT])]
    preps += [lambda c=c: soft(vg, c) for c in V]
    e.parallel(preps)
    # the slow ones first
    fns.sort(key=lambda f: 0)
    e.parallel(fns[::-1])
    e.samples += ["lengths 0..300 and 16 longer ones, each at 16 alignments "
                  "mid-page, across and up to page boundaries, all functions; "
                  "streaming chunks at random places"]
    e.assumptions += [
        "AddressSanitizer cannot see a read before a buffer within the same "
        "8-byte granule; the trace and valgrind monitors can",
        "the load trace comes from clang's instrumentation at -O1/-O2: 32-byte "
        "vector loads are not traced (ASan and valgrind cover them)"]
    st = e.stats
    if not st.get("loads_observed") and not e.violations:
        from engine import HarnessError
        raise HarnessError("no loads were observed")
    return e.finish(
        st.get("calls", 0) + st.get("byte_flips", 0), st.get("placements", 0)
        + st.get("stream_chunks", 0),
        "one evaluation = one call under a byte-exact monitor (every load "
        "logged and compared with the input range and the whole range "
        "required to be read; or ASan; or valgrind with NOACCESS around), or "
        "one flip of a single byte that must change the result; "
        "distinct_nontrivial counts the distinct (length, placement, build) "
        "combinations and streaming chunks")
