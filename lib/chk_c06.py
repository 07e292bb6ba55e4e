import cfgs
import exact
from engine import BuildFailed


def check(e):
    th = e.thorough
    cs = cfgs.value_cfgs(th)
    fns = []

    def go(c):
        try:
            x = e.exe(c, "drv_contain.c")
        except BuildFailed as y:
            if c.name in ("gcc64", "m32"):
                raise
            e.notes.append("not built: %s" % str(y)[:300])
            return
        k = 6 if th else 1
        for ph, amount, n in (("guard", 4 * k, 2), ("page", k, 1),
                              ("zero", 20 * k, 1), ("extra", 6 * k, 1),
                              ("ctx", 30000 * k, 1),
                              ("pow", 24 if th else 22, 1)):
            for s in range(n):
                fns.append(lambda ph=ph, amount=amount, s=s, n=n:
                           e.run(c, x, [ph, amount, s, n]))
    preps = exact.trace_jobs(e, "pages", False, fns, 4 if th else 1)
    e.parallel([lambda c=c: go(c) for c in cs] + preps)
    e.parallel(fns)
    e.samples += ["every length 0..339 and 32 longer ones, with the input "
                  "ending 0..63 bytes before, and starting 0..63 bytes after "
                  "1 MiB of inaccessible pages; lengths 0..8 at each of the "
                  "4096 offsets of a lone page"]
    e.assumptions += ["pages are of 4096 bytes; an access beyond the pages of "
                      "the input is observed as a fault when it lands within "
                      "1 MiB before or after it, or in unmapped memory"]
    st = e.stats
    return e.finish(
        st.get("calls", 0), st.get("placements", 0),
        "one evaluation = one call with its input in read-only pages beside "
        "inaccessible ones (a fault is a violation) with "
        "scanned canaries around the output, or with all its loads and "
        "stores logged; distinct_nontrivial counts the distinct (length, "
        "placement, build) combinations, each tried with every function")
