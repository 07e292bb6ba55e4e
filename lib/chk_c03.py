import os
import cfgs
from engine import BuildFailed


def check(e):
    th = e.thorough
    cs = cfgs.value_cfgs(th)
    skipped = set()
    cov = [cfgs.cov_cfg(), cfgs.cov_cfg32(), cfgs.cov_port()]
    dicts = []

    def prep(c):
        try:
            e.exe(c, "drv_stream.c")
        except BuildFailed as x:
            if c.name in ("gcc64", "m32"):
                raise
            skipped.add(c.name)
            e.notes.append("not built: %s" % str(x)[:300])

    def harvest(c):
        d = os.path.join(e.tmp, "dict." + c.name)
        try:
            x = e.exe(c, "drv_stream.c", defs=["-DWITH_COV"],
                      extra_objs=[e.hobj(c, "cmpcov.c")])
        except BuildFailed as y:
            e.notes.append("not built: %s" % str(y)[:300])
            return
        r = e.run(c, x, ["hist", 60000, 0, 1], env=dict(VERIF_DICT_OUT=d))
        if r is not None and os.path.exists(d):
            dicts.append(d)
    e.parallel([lambda c=c: harvest(c) for c in cov] +
               [lambda c=c: prep(c) for c in cs])
    consts = set()
    for d in dicts:
        consts |= set(open(d).read().split())
    dd = os.path.join(e.tmp, "dict.all")
    with open(dd, "w") as f:
        f.write("\n".join(sorted(consts)) + "\n")
    e.coverage_extra["constants_compared_by_the_code"] = len(consts)
    fns = []

    def job(c, ph, amount, s=0, n=1, env=None, link=(), cpu=None):
        x = e.exe(c, "drv_stream.c", link=link)
        fns.append(lambda: e.run(c, x, [ph, amount, s, n], env=env,
                                 cpu_s=cpu))
    for c in cs:
        if c.name not in skipped and (c.name in ("gcc64", "m32") or (
                th and c.name in ("clang64", "port32", "m32-ua0",
                                  "gcc64-ua0-noshot"))):
            job(c, "total", 5 if th else 4, cpu=1500 if th else 200)
            job(c, "hugechunk", 6 if th else 1,
                link=["-no-pie"] if c.m32 else [], cpu=1500 if th else 200)
    for c in cs:
        if c.name in skipped:
            continue
        k = 4 if c.name in ("gcc64", "m32") else 1
        for s in range(2):
            job(c, "split", 8 if th else 1, s, 2)
            job(c, "pxc", (100 if th else 6) * k, s, 2)
        for s in range(8 if th else 2):
            job(c, "hist", (1500000 if th else 200000) * k, s, 8)
        for s in range(6 if th else 1):
            job(c, "long", (20 if th else 4) * k, s, 6)
        job(c, "pow", 30 if th else 26)
        job(c, "forge", 1000000 if th else 60000, env=dict(VERIF_DICT=dd))
        job(c, "dict", 4 if th else 1, env=dict(VERIF_DICT=dd))
    e.parallel(fns)
    e.assumptions += [
        "the reference is the incremental model in harness/model.c, "
        "validated against frozen vectors at the start of each process",
        "totals beyond 2^34 bytes are reached by advancing the count in the "
        "context, after this is shown to be right for small totals; 2^61 "
        "bytes and more (overflow of the bit count) are left out"]
    st = e.stats
    return e.finish(
        st.get("finals_compared", 0),
        st.get("histories", 0) + st.get("context_copies", 0),
        "one evaluation = one t1ha2_final() compared with the model of the "
        "context's history (64 or 128 bits); distinct_nontrivial counts the "
        "separate generated histories (each init with new random seeds and "
        "new segmentation) and the branches made by copying a context")
