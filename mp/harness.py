"""Build, run, observe, judge.

A check hands over cases (C++ fragments that execute library code and log what
happened) grouped by configuration; the harness compiles them against /repo's
working tree, runs them, and gives the parsed event log back to the check's
oracle.  Violations are collected, matched with known_findings.json, written
out as replayable programs, and the evidence file is rewritten.
"""
import concurrent.futures as cf
import hashlib
import json
import os
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("MP_REPO", "/repo")
INC = os.path.join(REPO, "include")
CPP = os.path.join(VERIF, "cpp")
JOBS = int(os.environ.get("MP_JOBS", "8"))

SAN = ["-fsanitize=address,undefined", "-fno-sanitize-recover=all"]
RUN_ENV = dict(
    os.environ,
    ASAN_OPTIONS="abort_on_error=1:detect_leaks=0:detect_stack_use_after_return=1",
    UBSAN_OPTIONS="print_stacktrace=1:halt_on_error=1",
    LC_ALL="C")
RUN_ENV.pop("GCC_COLORS", None)

COMPILE_TIMEOUT = 160
SINGLE_TIMEOUT = 100     # one case on its own normally needs a few seconds
RUN_TIMEOUT = 60
QUICK_DEADLINE = 560     # what has not begun by then is left out
COMPILE_MEM = 8 << 30


class Infra(Exception):
    """the check itself (not the code under test) could not do its work"""


class Config:
    def __init__(self, name, cxx, std, fam, extra=(), san=True, depth=3000):
        self.name = name
        self.cxx = cxx
        self.std = std
        self.fam = fam          # '98' or '11': which implementation is used
        self.extra = list(extra)
        self.san = san
        self.depth = depth

    def flags(self):
        f = ["-std=" + self.std, "-O0", "-w", "-g0", "-I" + INC, "-I" + CPP,
             "-ftemplate-depth=%d" % self.depth]
        if self.cxx == "clang++":
            f += ["-fbracket-depth=4096"]
        if self.san:
            f += SAN
        return f + self.extra

    def derive(self, name, extra):
        return Config(name, self.cxx, self.std, self.fam,
                      self.extra + list(extra), self.san, self.depth)


CONFIGS = {c.name: c for c in [
    Config("g98", "g++", "c++98", "98"),
    Config("g11", "g++", "c++11", "11"),
    Config("g14", "g++", "c++14", "11"),
    Config("g17", "g++", "c++17", "11"),
    Config("g20", "g++", "c++20", "11"),
    Config("c98", "clang++", "c++98", "98"),
    Config("c11", "clang++", "c++11", "11"),
    Config("c14", "clang++", "c++14", "11"),
    Config("c17", "clang++", "c++17", "11"),
    # the C++98 implementation selected by hand on a modern compiler
    Config("g17as98", "g++", "c++17", "98", ["-DBOOST_METAPARSE_STD=1998"]),
    Config("g14as11", "g++", "c++14", "11", ["-DBOOST_METAPARSE_STD=2011"]),
]}


INFRA_RE = re.compile(
    r"internal compiler error|Killed|virtual memory exhausted|"
    r"out of memory|No space left|cannot allocate memory|Segmentation fault|"
    r"PLEASE submit a bug report", re.I)


def run_cmd(cmd, timeout, env=None, cwd=None, stdin=None, mem=None):
    """(rc or None on timeout, stdout bytes, stderr bytes).  The limit is one
    of the time the command gets to work: a busy machine extends it."""
    if mem:
        cmd = ["prlimit", "--as=%d" % mem] + cmd
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                         stdin=subprocess.DEVNULL, env=env or RUN_ENV,
                         cwd=cwd, start_new_session=True)
    for n in range(5):
        try:
            out, err = p.communicate(timeout=timeout)
            return p.returncode, out, err
        except subprocess.TimeoutExpired:
            starved = cpu_of_group(p.pid) < 0.6 * timeout
            if not starved:
                break
    try:
        os.killpg(p.pid, signal.SIGKILL)
    except ProcessLookupError:
        pass
    out, err = p.communicate()
    if starved:
        raise Infra("no time to run " + " ".join(cmd))
    return None, out, err


def cpu_of_group(pgid):
    """seconds of processor time the processes of a group have used"""
    t = 0
    for d in os.listdir("/proc"):
        if d.isdigit():
            try:
                with open("/proc/%s/stat" % d) as f:
                    f = f.read().rsplit(")", 1)[1].split()
                if int(f[2]) == pgid:
                    t += sum(int(x) for x in f[11:15])
            except (OSError, IndexError, ValueError):
                pass
    return t / os.sysconf("SC_CLK_TCK")


class Unusable(Exception):
    """the library's headers do not compile in a configuration"""


class Harness:
    def __init__(self, prop, tier, seed):
        self.prop = prop
        self.tier = tier
        self.seed = seed
        self.t0 = time.time()
        self.dir = tempfile.mkdtemp(prefix="mpverif.%s." % prop)
        self.pch = {}
        self.violations = []     # dicts
        self.notes = []
        self.stats = {}          # counters for the evidence file
        self.samples = []
        self.distinct = set()
        self.evaluations = 0
        self.pool = cf.ThreadPoolExecutor(JOBS)
        with open(os.path.join(VERIF, "known_findings.json")) as f:
            self.known = [k for k in json.load(f)["findings"]
                          if k["property"] == prop and k["status"] == "known"]
        self.known_hit = {}
        self.bad_batches = 0
        self.slowest = 0.0
        self.hang = False        # a case was found the compiler can not do
        self.unusable = {}

    # ------------------------------------------------------------ bookkeeping
    def count(self, key, n=1):
        self.stats[key] = self.stats.get(key, 0) + n

    def note(self, s):
        if s not in self.notes:
            self.notes.append(s)

    def sample(self, s, cap=12):
        if len(self.samples) < cap:
            self.samples.append(s)

    def eval(self, key, nontrivial=True):
        """one evaluation; key identifies the case for distinctness"""
        self.evaluations += 1
        if nontrivial:
            self.distinct.add(hashlib.sha1(repr(key).encode()).digest()[:10])

    # ------------------------------------------------------------ compilation
    def precompile(self, cfg, header="reify.hpp"):
        """PCH of the reification layer, once per configuration and run"""
        key = (cfg.name, header)
        if key in self.pch:
            return self.pch[key]
        d = os.path.join(self.dir, "pch_%s_%s" % (cfg.name, header))
        os.makedirs(d, exist_ok=True)
        src = os.path.join(CPP, header)
        shutil.copy(src, os.path.join(d, header))
        dep = os.path.join(d, "deps")
        if cfg.cxx == "g++":
            out = os.path.join(d, header + ".gch")
            use = ["-I" + d, "-include", os.path.join(d, header)]
        else:
            out = os.path.join(d, header + ".pch")
            use = ["-include-pch", out]
        cmd = [cfg.cxx] + cfg.flags() + ["-x", "c++-header",
                                        os.path.join(d, header), "-o", out,
                                        "-MD", "-MF", dep]
        if cfg.name in self.unusable:
            raise Unusable(cfg.name)
        rc, _, err = run_cmd(cmd, COMPILE_TIMEOUT)
        if rc is None or rc < 0:
            rc, _, err = run_cmd(cmd, COMPILE_TIMEOUT)
        if rc != 0:
            err = err.decode(errors="replace")
            if rc is None or rc < 0 or INFRA_RE.search(err):
                raise Infra("can not precompile in %s:\n%s"
                            % (cfg.name, err[:3000]))
            # the library itself can not be included in this configuration:
            # a matter for C15, the others go on with the rest
            self.unusable[cfg.name] = (cfg, err[:3000])
            self.note("configuration %s is unusable: %s"
                      % (cfg.name, err[:300]))
            raise Unusable(cfg.name)
        deps = open(dep).read()
        bad = re.findall(r"/usr/include/boost/metaparse\S*", deps)
        if bad or INC + "/boost/metaparse" not in deps:
            raise Infra("headers of the installed Boost are used: %s" % bad[:3])
        self.pch[key] = use
        return use

    def precompile_all(self, cfgs, header="reify.hpp"):
        fs = [self.pool.submit(self.precompile, c, header) for c in cfgs]
        ok = 0
        for f in fs:
            try:
                f.result()
                ok += 1
            except Unusable:
                pass
        if fs and not ok:
            raise Infra("the library can not be included in any of the "
                        "configurations: %s" % list(self.unusable.values())[:1])

    def usable(self, cfg, header="reify.hpp"):
        try:
            self.precompile(cfg, header)
            return True
        except Unusable:
            return False

    def compile(self, cfg, src, out, pch=None, extra=(), timeout=None,
                link=True):
        cmd = [cfg.cxx] + cfg.flags() + list(extra) + (pch or [])
        if not link:
            cmd += ["-c"]
        cmd += ["-x", "c++", src, "-o", out]
        t = time.time()
        rc, so, err = run_cmd(cmd, timeout or COMPILE_TIMEOUT, mem=COMPILE_MEM)
        self.slowest = max(self.slowest, time.time() - t)
        err = err.decode(errors="replace")
        if rc is None:
            return "timeout", err
        if rc != 0:
            if rc < 0 or INFRA_RE.search(err):
                return "infra", err
            return "error", err
        return "ok", err

    def compile_retry(self, cfg, src, out, **kw):
        st, err = self.compile(cfg, src, out, **kw)
        if st in ("timeout", "infra"):
            st, err = self.compile(cfg, src, out, **kw)
            if st in ("timeout", "infra"):
                raise Infra("%s compiling %s in %s:\n%s"
                            % (st, src, cfg.name, err[-2000:]))
        return st, err

    def execute(self, exe, args=(), expect_rc=0):
        """(status, stdout, stderr); status 'ok' | 'crash' """
        rc, so, se = run_cmd([exe] + list(args), RUN_TIMEOUT)
        if rc is None:
            rc, so, se = run_cmd([exe] + list(args), RUN_TIMEOUT * 2)
            if rc is None:
                raise Infra("run timed out: " + exe)
        return ("ok" if rc == expect_rc else "crash"), so, \
            se.decode(errors="replace") + ("" if rc == expect_rc
                                           else "\n[exit status %s]" % rc)

    # ------------------------------------------------------------ case batches
    def tu(self, cases, pre=""):
        """cases: list of (id, typedefs, statements)"""
        o = ['#include "reify.hpp"', pre]
        for cid, decl, stm in cases:
            o.append("namespace k%d\n{\n%s\n}" % (cid, decl))
        for cid, decl, stm in cases:
            o.append("void f%d()\n{\n  using namespace k%d;\n%s\n}"
                     % (cid, cid, stm))
        o.append("int main()\n{")
        for cid, decl, stm in cases:
            o.append("  f%d();" % cid)
        o.append("}\n")
        return "\n".join(o)

    def run_batch(self, cfg, cases, pre="", tag="", header="reify.hpp",
                  extra=(), quiet=False):
        """Returns {case id: observation}; observation is
        ('log', [lines]) | ('nocompile', stderr) | ('crash', stderr)."""
        pch = None
        if self.hang:
            return {c[0]: ("skip", "") for c in cases}
        if self.tier == "quick" and time.time() - self.t0 > QUICK_DEADLINE:
            self.note("the rest of the workload was left out after %d s"
                      % QUICK_DEADLINE)
            return {c[0]: ("skip", "") for c in cases}
        if not extra:
            try:
                pch = self.precompile(cfg, header)
            except Unusable:
                return {c[0]: ("skip", "") for c in cases}
        base = os.path.join(self.dir, "b%s_%s_%d" % (tag, cfg.name,
                                                     cases[0][0]))
        obs = self._run_cases(cfg, cases, pre, base, pch, extra)
        if isinstance(obs, dict):
            return obs
        # something is wrong with the batch: look at each case on its own
        if quiet:
            return {c[0]: obs for c in cases}
        self.bad_batches += 1
        if self.bad_batches > 6:
            return {c[0]: ("skip", "") for c in cases}
        if len(cases) == 1:
            return {cases[0][0]: obs}
        res = {}
        for c in cases:
            if self.hang:
                res[c[0]] = ("skip", "")
                continue
            r = self._run_cases(cfg, [c], pre, base + "_s%d" % c[0], pch,
                                extra)
            res[c[0]] = r if not isinstance(r, dict) else r[c[0]]
        if obs[0] != "unfinished" and \
                all(r[0] == "log" for r in res.values()):
            # only the combination fails
            for c in cases:
                res[c[0]] = obs
        return res

    def _run_cases(self, cfg, cases, pre, base, pch, extra=()):
        src = base + ".cpp"
        with open(src, "w") as f:
            f.write(self.tu(cases, pre))
        one = len(cases) == 1
        st, err = self.compile(cfg, src, base, pch=pch, extra=extra,
                               timeout=SINGLE_TIMEOUT if one else None)
        if st == "infra" and one:
            st, err = self.compile(cfg, src, base, pch=pch, extra=extra,
                                   timeout=SINGLE_TIMEOUT)
        if st in ("timeout", "infra") and not one:
            return ("unfinished", err)
        if st in ("timeout", "infra"):
            # is it the compiler or the case?
            with open(base + "_ctl.cpp", "w") as f:
                f.write(self.tu([], pre))
            cst, cerr = self.compile(cfg, base + "_ctl.cpp", base, pch=pch,
                                     extra=extra, timeout=SINGLE_TIMEOUT)
            if cst != "ok":
                raise Infra("%s compiling %s in %s:\n%s"
                            % (st, src, cfg.name, err[-2000:]))
            self.hang = True
            return ("nocompile", "the compiler does not get to an end (%s)\n%s"
                    % (st, err[:3000]))
        if st == "error":
            return ("nocompile", err)
        st, so, se = self.execute(base)
        os.unlink(base)
        os.unlink(src)
        if st == "crash":
            return ("crash", se[:6000])
        logs = {c[0]: [] for c in cases}
        for line in so.decode("latin-1").split("\n"):
            if not line:
                continue
            f = line.split(" ")
            try:
                cid = int(f[1])
                logs[cid].append(f)
            except (ValueError, KeyError, IndexError):
                raise Infra("unreadable log line %r" % line)
        return {k: ("log", v) for k, v in logs.items()}

    def map(self, fn, items):
        return list(self.pool.map(fn, items))

    # --------------------------------------------------------------- verdicts
    def violation(self, what, cfg=None, source=None, expected=None,
                  observed=None, key=None, extra_files=None):
        """key: what known_findings.json is matched with"""
        for k in self.known:
            if key is not None and k["key"] == key:
                self.known_hit.setdefault(k["id"], k)
                return
        self.violations.append(dict(
            what=what, cfg=cfg, source=source, expected=expected,
            observed=observed, key=key, extra_files=extra_files or {}))

    def write_replay(self, n, v):
        d = os.path.join(VERIF, "replays", self.prop, str(n))
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        cfg = v["cfg"]
        with open(os.path.join(d, "what.txt"), "w") as f:
            f.write("%s\nconfig: %s\nexpected: %s\nobserved: %s\nseed: %d "
                    "tier: %s\n" % (v["what"], cfg.name if cfg else "-",
                                    v["expected"], v["observed"], self.seed,
                                    self.tier))
        for name, text in v["extra_files"].items():
            with open(os.path.join(d, name), "w") as f:
                f.write(text)
        if v["source"] is not None:
            with open(os.path.join(d, "case.cpp"), "w") as f:
                f.write(v["source"])
        path = os.path.join(d, "replay.sh")
        with open(path, "w") as f:
            f.write("#!/bin/bash\n# %s\ncd \"$(dirname \"$0\")\"\n"
                    "cat what.txt\n" % v["what"].split("\n")[0])
            if v["source"] is not None and cfg:
                f.write("%s %s case.cpp -o /tmp/mpverif.replay.$$ && "
                        "ASAN_OPTIONS=detect_leaks=0 "
                        "/tmp/mpverif.replay.$$; rm -f /tmp/mpverif.replay.$$\n"
                        % (cfg.cxx, " ".join(cfg.flags())))
        os.chmod(path, 0o755)
        return path

    def finish(self, rule, assumptions, level="exploration", min_eval=1,
               extra_cov=None):
        viol = 0
        shown = 0
        seen = set()
        for v in self.violations:
            viol += 1
            sig = v["what"].split("\n")[0][:160]
            if sig in seen and shown >= 1:
                continue
            seen.add(sig)
            if shown < 5:
                path = self.write_replay(shown, v)
                print("VIOLATION property=%s replay=%s" % (self.prop, path))
                print("  what: %s" % v["what"].replace("\n", "\n  ")[:1500])
                if v["cfg"]:
                    print("  config: %s" % v["cfg"].name)
                print("  expected: %s" % str(v["expected"])[:600])
                print("  observed: %s" % str(v["observed"])[:600])
                shown += 1
        for k in self.known_hit.values():
            print("KNOWN-FINDING: property=%s %s" % (self.prop, k["what"]))
        cov = dict(evaluations=self.evaluations,
                   distinct_nontrivial=len(self.distinct), rule=rule,
                   samples=self.samples)
        cov["observed"] = self.stats
        cov["slowest_compilation_s"] = round(self.slowest, 1)
        if self.notes:
            cov["notes"] = self.notes
        if extra_cov:
            cov.update(extra_cov)
        ev = dict(property=self.prop, tier=self.tier, seed=self.seed,
                  level=level, coverage=cov, assumptions=assumptions,
                  wall_s=round(time.time() - self.t0, 2), violations=viol)
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        p = os.path.join(VERIF, "evidence", self.prop + ".json")
        with open(p + ".tmp", "w") as f:
            json.dump(ev, f, indent=1, sort_keys=True)
        os.replace(p + ".tmp", p)
        if viol:
            print("%s: %d violating observations in %d evaluations (%.1fs)"
                  % (self.prop, viol, self.evaluations, time.time() - self.t0))
            return 1
        if self.evaluations < min_eval:
            print("%s: inconclusive, only %d observations"
                  % (self.prop, self.evaluations))
            return 2
        print("%s: held on %d evaluations, %d distinct non-trivial (%.1fs)"
              % (self.prop, self.evaluations, len(self.distinct),
                 time.time() - self.t0))
        return 0

    def close(self):
        self.pool.shutdown(wait=False, cancel_futures=True)
        shutil.rmtree(self.dir, ignore_errors=True)


def main(checks):
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument("property", nargs="?")
    ap.add_argument("--selftest", action="store_true")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int,
                    default=int(os.environ.get("VERIF_SEED", "1")))
    a = ap.parse_args()
    sys.setrecursionlimit(20000)
    if a.selftest:
        for tool in ("g++", "clang++"):
            if shutil.which(tool) is None:
                print("missing: " + tool)
                return 2
        print("checks: " + " ".join(sorted(checks)))
        return 0
    h = Harness(a.property, a.tier, a.seed)
    try:
        from . import docex
        docex.run(h)
        rc = checks[a.property](h)
    except (Infra, Unusable) as e:
        print("%s: ERROR of the check: %s" % (a.property, e))
        rc = 2
        if h.violations:
            rc = h.finish("stopped early", [])
    finally:
        h.close()
    sys.stdout.flush()
    return rc
