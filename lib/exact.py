"""Byte-exact memory monitors shared by C06 (pages) and C07 (bytes)."""
import cfgs
from engine import Cfg, BuildFailed

TRACE = ["-fsanitize-coverage=trace-pc-guard,trace-loads,trace-stores"]
WRAP = ["-Wl,--wrap=memcpy,--wrap=memmove,--wrap=memset"]


def trace_exe(e, c):
    return e.exe(c, "drv_exact.c", defs=["-DWITH_TRACE"], link=WRAP,
                 extra_objs=[e.hobj(c, "memtrace.c")])


def trace_cfgs(noshot, th):
    d = [cfgs.NOSHOT] if noshot else []
    t = "-noshot" if noshot else ""
    out = []
    for m in (False, True):
        for port in (False, True):
            for ua in (0, 1, 2):
                if ua == 1 and not th and port:
                    continue
                out.append(Cfg("trace%s%s-ua%d%s" % (
                    "32" if m else "64", "-port" if port else "", ua, t),
                    cc="clang", m32=m, opt="-O1", portable=port,
                    defs=d + [cfgs.UA % ua], extra=TRACE))
    if th:
        out.append(Cfg("trace64-O2-noint128" + t, cc="clang", opt="-O2",
                       defs=d, extra=TRACE + [cfgs.NOINT128]))
    return out


def trace_jobs(e, rule, noshot, fns, amount, shards=2):
    def prep(c):
        try:
            x = trace_exe(e, c)
        except BuildFailed as y:
            e.notes.append("not built: %s" % str(y)[:300])
            return
        for s in range(shards):
            fns.append(lambda s=s: e.run(c, x, [rule, amount, s, shards]))
    return [lambda c=c: prep(c) for c in trace_cfgs(noshot, e.thorough)]
