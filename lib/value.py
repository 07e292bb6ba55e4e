"""C01, C02, C04: the value of the functions against the executable model."""
import os
import cfgs
from engine import BuildFailed


def harvester(e, tl, env={}):
    """the dictionary of the constants that the code compares with"""
    cov = [cfgs.cov_cfg(), cfgs.cov_cfg32(), cfgs.cov_port()]
    dicts = {}

    def covexe(c):
        return e.exe(c, "drv_value.c", defs=["-DWITH_COV"],
                     extra_objs=[e.hobj(c, "cmpcov.c")])

    def harvest(c):
        d = os.path.join(e.tmp, "dict." + c.name)
        try:
            r = e.run(c, covexe(c), ["harvest", tl, 20000, 0, 1],
                      env=dict(env, VERIF_DICT_OUT=d))
            if r is not None and os.path.exists(d):
                dicts[c.name] = d
        except BuildFailed as x:
            e.notes.append("not built: %s" % str(x)[:300])
    return cov, dicts, harvest, covexe


def merge(e, dicts):
    allconst = set()
    for d in dicts.values():
        allconst |= set(open(d).read().split())
    dd = os.path.join(e.tmp, "dict.all")
    with open(dd, "w") as f:
        f.write("\n".join(sorted(allconst)) + "\n")
    e.coverage_extra["constants_compared_by_the_code"] = len(allconst)
    return dd


def run(e, targets):
    th = e.thorough
    tl = ",".join(str(t) for t in targets)
    jobs = []

    def job(cfg, ph, amount, shard, shards, env=None, exe=None):
        jobs.append((cfg, ph, amount, shard, shards, env, exe))

    cov, dicts, harvest, covexe = harvester(e, tl)
    skipped = []

    def prep(c):
        try:
            e.exe(c, "drv_value.c")
        except BuildFailed as x:
            if c.name in ("gcc64", "m32"):
                raise
            # judged by C12; here the other configurations still count
            skipped.append(c.name)
            e.notes.append("not built: %s" % str(x)[:300])
    cs = cfgs.value_cfgs(th)
    e.parallel([lambda c=c: harvest(c) for c in cov] +
               [lambda c=c: prep(c) for c in cs])
    env = dict(VERIF_DICT=merge(e, dicts))

    big = []
    for c in cs:
        if c.name in skipped:
            continue
        main = c.name in ("gcc64", "m32")
        k = (8 if th else 2) if main else (2 if th else 1)
        n = 4
        for s in range(n):
            job(c, "grid", (12 if th else 4) * k, s, n)
            job(c, "steer", (150000 if th else 25000) * k, s, n)
        job(c, "seeds", 4 if th else 1, 0, 1)
        job(c, "random", (400000 if th else 60000) * k, 0, 1)
        job(c, "long", (400 if th else 30) * k, 0, 1 if main or th else 4)
        job(c, "pow", (30 if main else 27) if th else 26 if main else 25, 0, 1)
        for s in range(2):
            job(c, "dict", 6 if th else 2, s, 2, env)
        if c.name in ("gcc64", "m32", "clang64", "port64", "gcc64-ua0-noshot",
                      "gcc64-noint128") and (th or main):
            for t in targets:
                big.append((c, t))
    for c in cov:
        if c.name in dicts:
            n = 8 if th else 3
            for s in range(n):
                job(c, "rq", 400000 if th else 30000, s, n, None, covexe(c))
    fns = []
    for c, t in big:
        n = (8 if c.name == "gcc64" else 3) if th else 1
        x = e.exe(c, "drv_value.c", link=["-no-pie"] if c.m32 else [])
        fns.append(lambda c=c, t=t, x=x, n=n: e.run(
            c, x, ["huge", t, n, t, 99], cpu_s=2400 if th else 200,
            label="huge %s" % t))
    for c, ph, amount, s, n, ev, exe in jobs:
        x = exe or e.exe(c, "drv_value.c")
        fns.append(lambda c=c, x=x, ph=ph, amount=amount, s=s, n=n, ev=ev:
                   e.run(c, x, [ph, tl, amount, s, n], env=ev))
    e.parallel(fns)
    st = e.stats
    distinct = st.get("comparisons", 0) - st.get("comparisons_grid", 0)
    e.assumptions += [
        "the reference is the model in harness/model.c: an independent "
        "bytewise implementation, validated at the start of each process "
        "against reference vectors frozen from the pinned commit",
        "platforms other than x86 are represented here by builds with the "
        "x86 macros undefined; foreign byte order is the subject of C13",
    ]
    return e.finish(
        st.get("comparisons", 0), distinct,
        "one evaluation = one call of a function compared with the model "
        "(all 64 or 128 bits); distinct_nontrivial leaves out the grid phase, "
        "in which the same input is repeated at many addresses, and counts "
        "the calls whose (length, seed, data) was generated anew: random, "
        "special and steered operands, lengths up to 2^33, the constants "
        "which the code itself compares with (harvested by instrumentation) "
        "and input-to-state substitutions")
