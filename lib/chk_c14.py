import cfgs
import value
from engine import Cfg, BuildFailed

TL = "0,1,2,3,4,5,6,7,8,9,10"


def check(e):
    th = e.thorough
    cov, dicts, harvest, _ = value.harvester(e, TL, dict(VERIF_NOFAIL="1"))
    cs = [cfgs.gcc64(), cfgs.m32(), Cfg("port64-noint128", portable=True,
                                        extra=[cfgs.NOINT128]),
          Cfg("clang64-ua0-noshot", cc="clang",
              defs=[cfgs.UA % 0, cfgs.NOSHOT])]
    ok = []

    def prep(c):
        try:
            e.exe(c, "drv_stat.c")
            ok.append(c)
        except BuildFailed as x:
            if c.name in ("gcc64", "m32"):
                raise
            e.notes.append("not built: %s" % str(x)[:300])
    e.parallel([lambda c=c: harvest(c) for c in cov] +
               [lambda c=c: prep(c) for c in cs])
    env = dict(VERIF_DICT=value.merge(e, dicts), VERIF_DMIN="4" if th else "5")
    fns = []

    def add(c, ph, am, shards):
        x = e.exe(c, "drv_stat.c")
        for s in range(shards):
            fns.append(
                lambda s=s: e.run(c, x, [ph, TL, am, s, shards], env=env,
                                  cpu_s=2400 if th else 200))
    for c in sorted(ok, key=lambda c: cs.index(c)):
        main = c.name == "gcc64"
        add(c, "sac", (6000 if main else 1500) if th else
            700 if main else 200, 8)
        add(c, "collide", (12 if main else 4) if th else
            (3 if main else 1), 8 if main else 4)
        add(c, "touch", (6000000 if main else 2000000) if th else
            (150000 if main else 60000), 4)
        add(c, "relate", (120 if main else 40) if th else (3 if main else 1),
            8 if main else 4)
        add(c, "long", (24 if main else 21) if th else (21 if main else 18),
            8 if main else 3)
    e.parallel(fns)
    st = e.stats
    e.assumptions += [
        "statistical limits are nine standard deviations (cells), 5..59 "
        "changed bits of 64 (single pairs), zero 64-bit collisions and 1.5 "
        "times the expected 32-bit ones plus ten standard deviations "
        "(families): a random function exceeds none of them in practice",
        "t1ha1 is documented to fail the strict avalanche criterion in some "
        "cases; for its seed and for length changes only the mean and the "
        "distance of each pair are judged"]
    ev = st.get("pairs_compared", 0) + st.get("pairs_related", 0) + st.get("keys_in_families", 0)
    return e.finish(
        ev, ev,
        "one evaluation = one pair of results of different inputs whose "
        "distance was judged (each also counts in the frequencies of its "
        "cell), or one key of a family searched for collisions; all inputs "
        "are drawn or enumerated without repetition")
