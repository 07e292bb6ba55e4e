"""Common machinery of the checks: builds /repo's sources per configuration,
runs the drivers under monitors, judges the outcome, writes the evidence.

Outcomes: exit 0 (held on everything explored), exit 1 with a line
"VIOLATION property=<id> replay=<path>", anything else: an error of the check.
"""
import concurrent.futures as cf
import fnmatch
import glob
import hashlib
import json
import os
import re
import resource
import shutil
import signal
import subprocess
import sys
import tempfile
import threading
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
H = os.path.join(VERIF, "harness")
KNOWN = os.path.join(VERIF, "known_findings.txt")
NCPU = min(8, os.cpu_count() or 4)


class HarnessError(Exception):
    pass


class BuildFailed(Exception):
    def __init__(self, cfg, cmd, log):
        super().__init__("%s: %s\n%s" % (cfg.name, " ".join(cmd), log[-1500:]))
        self.cfg, self.cmd, self.log = cfg, cmd, log


class Cfg:
    """One build configuration of the library."""

    def __init__(self, name, cc="gcc", m32=False, opt="-O2", defs=(), san=(),
                 extra=(), ndebug=True, portable=False, link=(), noaes=False,
                 hopt="-O2", hsan=None, pre=()):
        self.name, self.cc, self.m32, self.opt = name, cc, m32, opt
        self.defs, self.san, self.extra = list(defs), list(san), list(extra)
        self.ndebug, self.portable, self.link = ndebug, portable, list(link)
        self.noaes, self.hopt, self.pre = noaes, hopt, list(pre)
        self.hsan = self.san if hsan is None else list(hsan)

    def base(self, san=None):
        f = ["-g", "-fno-omit-frame-pointer"] if self.san else ["-g1"]
        if self.m32:
            f.append("-m32")
        return f + (self.san if san is None else san)

    def libflags(self, src=None):
        f = ["-std=c11", "-D_DEFAULT_SOURCE", "-Dt1ha_EXPORTS", self.opt,
             "-fvisibility=hidden", "-ffunction-sections", "-fPIC",
             "-Wno-attributes", "-Wno-unknown-pragmas"] + self.base()
        if "-fno-stack-protector" not in f:
            f.append("-fno-stack-protector")
        f += self.extra
        if self.ndebug:
            f.append("-DNDEBUG")
        f += self.defs + self.pre
        if self.portable:
            f += ["-include", os.path.join(H, "portable.h")]
        elif src and not self.noaes:
            b = os.path.basename(src)
            if "noavx" in b:
                f += ["-mno-avx2", "-mno-avx", "-maes"]
            elif "avx2" in b:
                f += ["-mavx2", "-mavx", "-maes"]
            elif "avx" in b:
                f += ["-mno-avx2", "-mavx", "-maes"]
        return f

    def harnflags(self):
        return ["-std=gnu11", self.hopt, "-I", H, "-I", REPO,
                "-w"] + self.base(self.hsan)

    def env(self):
        e = {
            "ASAN_OPTIONS": "exitcode=77:abort_on_error=0:detect_leaks=0:"
                            "detect_stack_use_after_return=0:"
                            "allocator_may_return_null=1:symbolize=1",
            "UBSAN_OPTIONS": "print_stacktrace=0:halt_on_error=1:exitcode=77",
            "MSAN_OPTIONS": "exitcode=77:halt_on_error=1",
            "TSAN_OPTIONS": "exitcode=77:halt_on_error=1",
        }
        return e

    def describe(self):
        return {"name": self.name, "cc": self.cc,
                "flags": " ".join(self.libflags()[1:])}


def sh(cmd, cwd=None, timeout=600):
    return subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE,
                          stderr=subprocess.STDOUT, timeout=timeout,
                          text=True, errors="replace")


class Run:
    """The result of one driver process."""

    def __init__(self):
        self.fails, self.stats, self.samples, self.notes = [], {}, [], []
        self.out, self.err, self.rc, self.rec = "", "", None, None
        self.cpu_out = False


class Engine:
    def __init__(self, prop, tier=None, seed=None):
        self.prop = prop
        self.tier = tier or os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"):
            self.tier = "quick"
        self.seed = int(seed if seed is not None
                        else os.environ.get("VERIF_SEED", "1") or 1)
        self.thorough = self.tier == "thorough"
        self.t0 = time.time()
        self.tmp = tempfile.mkdtemp(prefix="verif.%s." % prop)
        self.lock = threading.Lock()
        self.sem = threading.Semaphore(NCPU)     # compilers
        self.rsem = threading.Semaphore(NCPU)    # drivers
        self.violations = {}      # key -> dict
        self.stats, self.samples, self.notes = {}, [], []
        self.configs = {}
        self.runs = 0
        self.assumptions = []
        self.stopping = False
        self._libs, self._once = {}, {}
        self.coverage_extra = {}
        self.known, self.said = self._load_known(), set()
        self.level = "exploration"

    # ------------------------------------------------------------ building
    def sources(self):
        s = sorted(glob.glob(os.path.join(REPO, "src", "*.c")))
        if not s:
            raise HarnessError("no sources in %s/src" % REPO)
        return s

    def _memo(self, key, fn):
        """run fn once per key; other callers wait for it"""
        with self.lock:
            fut = self._once.get(key)
            mine = fut is None
            if mine:
                fut = self._once[key] = cf.Future()
        if mine:
            try:
                fut.set_result(fn())
            except BaseException as e:
                fut.set_exception(e)
        return fut.result()

    def cc(self, cfg, flags, src, out):
        cmd = [cfg.cc] + flags + ["-c", src, "-o", out]
        with self.sem:
            r = sh(cmd)
        if r.returncode:
            raise BuildFailed(cfg, cmd, r.stdout)
        return out

    def parallel(self, fns):
        """Run callables on threads of their own (they may wait for others);
        the amount of concurrent processes is bounded by the semaphores
        in run() and cc()."""
        with cf.ThreadPoolExecutor(max_workers=3 * NCPU) as ex:
            return [f.result() for f in [ex.submit(fn) for fn in fns]]

    def lib(self, cfg, full=True):
        """objects of the library in this configuration; full=False leaves
        the self-check sources out"""
        def build():
            d = os.path.join(self.tmp, "lib." + cfg.name)
            os.makedirs(d, exist_ok=True)
            with self.lock:
                self.configs[cfg.name] = cfg.describe()

            cc = getattr(cfg, "compile", None) or self.cc

            def one(s):
                return cc(cfg, cfg.libflags(s) + ["-I", REPO], s,
                          os.path.join(d, os.path.basename(s)[:-2] + ".o"))
            srcs = [s for s in self.sources()
                    if full or "selfcheck" not in os.path.basename(s)]
            with cf.ThreadPoolExecutor(4) as ex:
                return list(ex.map(one, srcs))
        return self._memo(("lib", cfg.name, full), build)

    def hobj(self, cfg, src, defs=(), lib_abi=False):
        """an object of the harness; lib_abi: compiled with the library's
        defines (glue.c only)"""
        key = ("h", cfg.name if lib_abi else
               (cfg.cc, tuple(cfg.base(cfg.hsan)), cfg.hopt), src, tuple(defs))

        def build():
            h = hashlib.sha1(repr(key).encode()).hexdigest()[:12]
            out = os.path.join(self.tmp, "h.%s.%s.o" % (
                os.path.basename(src)[:-2], h))
            fl = cfg.harnflags() + list(defs)
            cc = getattr(cfg, "compile", None)
            if lib_abi and cc:
                return cc(cfg, [x for x in cfg.libflags() if x !=
                                "-Dt1ha_EXPORTS"] + list(defs) +
                          ["-I", REPO, "-I", H], os.path.join(H, src), out)
            if lib_abi:
                fl += cfg.defs + cfg.pre
                fl += [x for x in cfg.extra if x.startswith(("-U", "-D"))]
                if cfg.portable:
                    fl += ["-include", os.path.join(H, "portable.h")]
            return self.cc(cfg, fl, os.path.join(H, src), out)
        return self._memo(key, build)

    def exe(self, cfg, driver, defs=(), link=(), extra_objs=(), glue_defs=(),
            marks=False):
        key = ("exe", cfg.name, driver, tuple(defs), tuple(link),
               tuple(glue_defs), marks)
        full = "-DGLUE_SELFCHECK" in glue_defs

        def build():
            try:
                return build1(full)
            except BuildFailed:
                if full:
                    raise
                return build1(True)

        def build1(full):
            objs = list(self.lib(cfg, full))
            if marks:     # around the library's data
                objs = [self.hobj(cfg, "mark.c", ["-DMARK=mark_a"])] + objs + \
                    [self.hobj(cfg, "mark.c", ["-DMARK=mark_b"])]
            objs += [self.hobj(cfg, "glue.c", glue_defs, lib_abi=True),
                     self.hobj(cfg, "model.c"),
                     self.hobj(cfg, driver, defs)] + list(extra_objs)
            out = os.path.join(self.tmp, "x.%s.%s.%s" % (
                driver[:-2], cfg.name,
                hashlib.sha1(repr(key).encode()).hexdigest()[:6]))
            cmd = [cfg.cc] + cfg.base() + cfg.link + list(link) + \
                ["-o", out] + objs + ["-lpthread", "-ldl", "-lm"]
            with self.sem:
                r = sh(cmd)
            if r.returncode:
                raise BuildFailed(cfg, cmd, r.stdout)
            return out
        return self._memo(key, build)

    # ------------------------------------------------------------- running
    def spawn(self, cmd, env, cpu_s, stdin=None, wall=850):
        rec = tempfile.mktemp(prefix="rec.", dir=self.tmp)
        e = {k: v for k, v in os.environ.items()
             if not k.startswith(("LD_", "ASAN", "UBSAN", "TSAN", "MSAN"))}
        e.update(VERIF_SEED=str(self.seed), VERIF_REC=rec, LC_ALL="C",
                 VERIF_TIER=self.tier)
        e.update(env)

        def limit():
            resource.setrlimit(resource.RLIMIT_CPU, (cpu_s, cpu_s + 5))
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
            os.setpgrp()
        r = Run()
        p = subprocess.Popen(cmd, stdin=subprocess.DEVNULL,
                             stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                             env=e, preexec_fn=limit, cwd=self.tmp)
        try:
            out, err = p.communicate(timeout=wall)
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL)
            out, err = p.communicate()
            raise HarnessError("wall-clock watchdog (%ds): %s" %
                               (wall, " ".join(cmd)))
        r.out, r.err, r.rc = (out.decode(errors="replace"),
                              err.decode(errors="replace"), p.returncode)
        if os.path.exists(rec):
            r.rec = self._read_rec(rec)
            os.unlink(rec)
        for ln in r.out.splitlines():
            m = re.match(r"(FAIL|STAT|SAMPLE|NOTE) (.*)", ln)
            if not m:
                continue
            k, v = m.groups()
            if k == "FAIL":
                key, _, det = v.partition(" | ")
                r.fails.append((key.strip(), det))
            elif k == "STAT":
                n, x = v.split()
                r.stats[n] = r.stats.get(n, 0) + int(x)
            elif k == "SAMPLE":
                r.samples.append(v)
            else:
                r.notes.append(v)
        r.cpu_out = r.rc in (-signal.SIGXCPU,)
        return r

    @staticmethod
    def _read_rec(path):
        try:
            import struct
            b = open(path, "rb").read()
            seq, ln, seed, seed2, addr = struct.unpack_from("<5Q", b, 0)
            tgt = b[40:88].split(b"\0")[0].decode(errors="replace")
            what = b[88:248].split(b"\0")[0].decode(errors="replace")
            return dict(seq=seq, len=ln, seed=hex(seed), seed2=hex(seed2),
                        addr=hex(addr), target=tgt, what=what)
        except Exception:
            return None

    def run(self, cfg, exe, args, env=None, cpu_s=None, wrap=(), label=None,
            crash_key=None, crash_is="violation"):
        """Run a driver; violations are collected. Returns the Run or None
        when skipped since violations were already found."""
        if self.stopping:
            return None
        cpu_s = cpu_s or (240 if self.thorough else 90)
        full = dict(cfg.env())
        full.update(env or {})
        cmd = list(wrap) + [exe] + [str(a) for a in args]
        label = label or " ".join(str(a) for a in args)
        with self.rsem:
            if self.stopping:
                return None
            r = self.spawn(cmd, full, cpu_s)
        if r.rc == -signal.SIGKILL or r.cpu_out:
            r = self.spawn(cmd, full, cpu_s * 2)   # once more
            if r.rc == -signal.SIGKILL and not r.cpu_out:
                raise HarnessError("killed (out of memory?): %s" % label)
        with self.lock:
            self.runs += 1
            for k, v in r.stats.items():
                if k.startswith("max_"):
                    self.stats[k] = max(self.stats.get(k, 0), v)
                else:
                    self.stats[k] = self.stats.get(k, 0) + v
            for s in r.samples[:4]:
                if len(self.samples) < 24:
                    self.samples.append("[%s] %s" % (cfg.name, s[:400]))
            for s in r.notes:
                t = "[%s] %s" % (cfg.name, s[:400])
                if len(self.notes) < 60 and t not in self.notes:
                    self.notes.append(t)
        replay = dict(config=cfg.describe(), driver=os.path.basename(exe),
                      args=[str(a) for a in args], env=env or {},
                      wrap=list(wrap))
        for key, det in r.fails:
            self.violation("%s:%s" % (cfg.name, key), det, replay)
        if r.rc == 2 and not r.fails:
            raise HarnessError("%s %s: %s" % (cfg.name, label,
                                              (r.err or r.out)[-1500:]))
        if r.rc not in (0, 2) and not (r.fails and r.rc == 1):
            tgt = (r.rec or {}).get("target") or "?"
            if (not (r.rec or {}).get("seq") and crash_key is None and
                    not re.search("runtime error|Sanitizer:", r.err)):
                raise HarnessError("%s %s: died (%s) before the first case: %s"
                                   % (cfg.name, label, r.rc, r.err[-1500:]))
            kind = crash_key or ("hang" if r.cpu_out else self._crash_kind(r))
            self.violation("%s:%s:%s" % (cfg.name, kind, tgt),
                           "exit %s; case %s; %s" % (
                               r.rc, json.dumps(r.rec), self._tail(r.err)),
                           replay)
        if r.rc == 0 and not r.fails and not r.stats:
            raise HarnessError("%s %s: nothing was observed" %
                               (cfg.name, label))
        return r

    @staticmethod
    def _tail(err):
        lines = [x for x in err.splitlines() if x.strip()]
        keep = [x for x in lines if re.search(
            r"runtime error|ERROR:|WARNING:|SUMMARY|Assertion|#[0-4] |==\d+==",
            x)]
        return " / ".join((keep or lines)[:14])[:1600]

    @staticmethod
    def _crash_kind(r):
        m = re.search(r"(AddressSanitizer|MemorySanitizer|ThreadSanitizer): "
                      r"([\w-]+)", r.err)
        if m:
            return "%s-%s" % (m.group(1), m.group(2))
        if "runtime error" in r.err:
            m = re.search(r"([\w.]+):(\d+):\d+: runtime error: (.{0,60})",
                          r.err)
            return "UB-" + (re.sub(r"[^\w.]+", "_", m.group(1) + "_" +
                                   re.sub(r"0x\w+|\d+", "N", m.group(3)))
                            if m else "report")
        if "Assertion" in r.err:
            return "assertion"
        if r.rc is not None and r.rc < 0:
            return "signal%d" % -r.rc
        return "exit%s" % r.rc

    # ---------------------------------------------------------- judgements
    def _load_known(self):
        out = []
        try:
            for ln in open(KNOWN):
                ln = ln.strip()
                m = re.match(r"KNOWN-FINDING: property=(\S+) key=(\S+) (.*)",
                             ln)
                if m and m.group(1) == self.prop:
                    out.append((m.group(2), m.group(3)))
        except FileNotFoundError:
            pass
        return out

    def violation(self, key, details, replay):
        key = re.sub(r"\s+", "_", key)
        with self.lock:
            for k, text in self.known:
                if fnmatch.fnmatchcase(key, k):
                    self.stats["recorded_finding_seen"] = \
                        self.stats.get("recorded_finding_seen", 0) + 1
                    if text not in self.said:
                        self.said.add(text)
                        print("KNOWN-FINDING: property=%s %s" % (self.prop,
                                                                 text))
                    return
            if key not in self.violations:
                self.violations[key] = dict(key=key, details=details,
                                            replay=replay)
            if len(self.violations) >= 3:
                self.stopping = True
            if "hang" in key:
                self.stopping = True

    def stat(self, name, v):
        with self.lock:
            self.stats[name] = self.stats.get(name, 0) + v

    def finish(self, evaluations, distinct, rule):
        ev, dn = int(evaluations), int(distinct)
        if not self.violations and (ev <= 0 or dn <= 0):
            raise HarnessError("nothing was observed: %d/%d" % (ev, dn))
        cov = dict(evaluations=ev, distinct_nontrivial=dn, rule=rule,
                   samples=self.samples or ["(none)"],
                   monitor_counts=dict(sorted(self.stats.items())),
                   driver_processes=self.runs,
                   configurations=sorted(self.configs.values(),
                                         key=lambda c: c["name"]),
                   notes=self.notes)
        cov.update(self.coverage_extra)
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        doc = dict(property=self.prop, tier=self.tier, seed=self.seed,
                   level=self.level, coverage=cov,
                   assumptions=self.assumptions,
                   wall_s=round(time.time() - self.t0, 2),
                   violations=len(self.violations))
        path = os.path.join(VERIF, "evidence", self.prop + ".json")
        with open(path + ".tmp", "w") as f:
            json.dump(doc, f, indent=1)
        os.replace(path + ".tmp", path)
        for i, v in enumerate(self.violations.values()):
            d = os.path.join(VERIF, "evidence", "replay")
            os.makedirs(d, exist_ok=True)
            p = os.path.join(d, "%s-%d.json" % (self.prop, i))
            with open(p, "w") as f:
                json.dump(dict(property=self.prop, tier=self.tier,
                               seed=self.seed, **v), f, indent=1)
            if i >= 10:
                continue
            print("  %s: %s" % (v["key"], v["details"][:700]))
            print("VIOLATION property=%s replay=%s" % (self.prop, p))
        if not self.violations:
            print("%s %s seed=%d: held; %d evaluations, %d distinct, %.1fs" % (
                self.prop, self.tier, self.seed, ev, dn,
                time.time() - self.t0))
        return 1 if self.violations else 0

    def cleanup(self):
        if self.tmp.startswith(tempfile.gettempdir() + "/verif."):
            if not os.environ.get("VERIF_KEEP"):
                shutil.rmtree(self.tmp, ignore_errors=True)


def main(prop, fn):
    e = Engine(prop)
    rc = 3
    try:
        rc = fn(e)
    except BuildFailed as x:
        print("ERROR: the build failed: %s" % x, file=sys.stderr)
    except HarnessError as x:
        print("ERROR: %s" % x, file=sys.stderr)
        # a violation that was already established stands
        if e.violations:
            rc = e.finish(max(1, sum(e.stats.values())), 1,
                          "stopped by an error after a violation")
    finally:
        e.cleanup()
    sys.stdout.flush()
    return rc
