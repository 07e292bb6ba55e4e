"""The build configurations which the checks share."""
from engine import Cfg

UA = "-DT1HA_SYS_UNALIGNED_ACCESS=%d"
NOSHOT = "-DT1HA_USE_FAST_ONESHOT_READ=0"
NOINT128 = "-U__SIZEOF_INT128__"
NATIVE = ["-mtune=native", "-Wall"]


def gcc64(**k):
    return Cfg("gcc64", opt="-O3", extra=NATIVE, **k)


def m32(**k):
    return Cfg("m32", opt="-O3", m32=True, extra=NATIVE, **k)


def value_cfgs(thorough):
    """differential checks: all the code paths the preprocessor can choose"""
    c = [
        gcc64(), m32(),
        Cfg("clang64", cc="clang", opt="-O3"),
        Cfg("clang32", cc="clang", opt="-O2", m32=True),
        Cfg("gcc64-O0", opt="-O0"),
        Cfg("gcc64-native", opt="-Ofast", extra=["-march=native"]),
        Cfg("gcc64-assert-ua0", opt="-O1", defs=[UA % 0], ndebug=False),
        Cfg("gcc64-ua0-noshot", defs=[UA % 0, NOSHOT]),
        Cfg("gcc64-ua1", defs=[UA % 1]),
        Cfg("gcc64-noshot", defs=[NOSHOT]),
        Cfg("gcc64-noint128", extra=[NOINT128]),
        Cfg("m32-ua0", m32=True, defs=[UA % 0]),
        Cfg("m32-ua1-noshot", m32=True, defs=[UA % 1, NOSHOT]),
        Cfg("m32-noshot", m32=True, defs=[NOSHOT], opt="-Os"),
        Cfg("port64", portable=True),
        Cfg("port64-ua2-noint128", portable=True, defs=[UA % 2],
            extra=[NOINT128]),
        Cfg("port32", portable=True, m32=True),
    ]
    if thorough:
        for cc in ("gcc", "clang"):
            for m in (False, True):
                for ua in (0, 1, 2):
                    for ns in ((), (NOSHOT,)):
                        for port in (False, True):
                            for opt in ("-O1", "-O3"):
                                c.append(Cfg("x-%s%s-ua%d%s%s%s" % (
                                    cc, "32" if m else "64", ua,
                                    "-noshot" if ns else "",
                                    "-port" if port else "", opt),
                                    cc=cc, m32=m, opt=opt, portable=port,
                                    defs=[UA % ua, *ns]))
        c += [Cfg("clang64-noint128", cc="clang", extra=[NOINT128]),
              Cfg("clang64-native", cc="clang", extra=["-march=native"]),
              Cfg("gcc64-Og", opt="-Og"),
              Cfg("gcc64-noavx-build", extra=["-mno-avx"]),
              Cfg("m32-native", m32=True, extra=["-march=native"])]
    return c


def cov_cfg():
    return Cfg("clang64-cov", cc="clang", opt="-O1",
               extra=["-fsanitize-coverage=trace-cmp,inline-8bit-counters"])


def cov_cfg32():
    return Cfg("clang32-cov", cc="clang", opt="-O1", m32=True,
               extra=["-fsanitize-coverage=trace-cmp,inline-8bit-counters"])


def cov_port():
    return Cfg("clang64-port-cov", cc="clang", opt="-O1", portable=True,
               extra=["-fsanitize-coverage=trace-cmp,inline-8bit-counters"])
