"""Workspace, dumps, job pool, findings, evidence: what every check shares."""
import atexit
import json
import multiprocessing as mp
import os
import shutil
import subprocess
import sys
import tempfile
import signal
import time

sys.setrecursionlimit(20000)
HERE = os.path.dirname(os.path.abspath(__file__))
HOME = os.path.dirname(HERE)
REPO = os.environ.get("VP_REPO", "/repo")
T0 = time.time()
TIER = os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
CPUS = min(8, os.cpu_count() or 2)

CONFIGS = {
    # every header and MIME
    "A": "mime,content-disposition,unrecognized-headers,headers",
    # the default build: every header, no MIME
    "B": "headers",
    # MIME with the compatibility relaxations
    "C": "mime,content-disposition,unrecognized-headers,headers,compatibility-fixes",
}
HEADERS = ["to", "cc", "bcc", "date", "from", "sender", "reply-to", "message-id", "in-reply-to", "references", "subject", "comments", "keywords", "trace"]
# the configurations of C25: nothing, MIME only, and every header left out once
VARIANTS = {"none": "", "mime": "mime", "mime-all": "mime,content-disposition,unrecognized-headers"}
for _h in HEADERS:
    VARIANTS["no-" + _h] = ",".join(x for x in HEADERS if x != _h)


def note(*a):
    print(*a, flush=True)


class Work:
    """scratch directory of one run, with a copy of /repo's working tree"""

    def __init__(self):
        self.dir = tempfile.mkdtemp(prefix="vpcheck")
        self.pid = os.getpid()
        atexit.register(self.close)
        self.repo = os.path.join(self.dir, "repo")
        shutil.copytree(REPO, self.repo, symlinks=True, ignore=shutil.ignore_patterns("target", ".git"))
        self.spec = os.path.join(self.dir, "spec")
        shutil.copytree(os.path.join(HOME, "spec"), self.spec, ignore=shutil.ignore_patterns("target"))
        self.programs = {}

    def close(self):
        if os.getpid() == self.pid:
            shutil.rmtree(self.dir, ignore_errors=True)

    def driver(self):
        exe = os.path.join(HOME, "driver/target/debug/mirdump")
        if os.path.exists(exe):
            return
        r = subprocess.run(["cargo", "+nightly", "build", "--offline", "-q"], cwd=os.path.join(HOME, "driver"), capture_output=True, text=True)
        if r.returncode:
            raise SystemExit("cannot build the MIR driver:\n" + r.stderr[-3000:])

    def dump(self, what, config):
        """path of the MIR dump of the crate (`impl`) or of the reference (`spec`) in a configuration"""
        out = os.path.join(self.dir, "%s-%s.json" % (what, config))
        if os.path.exists(out):
            return out
        self.driver()
        env = dict(os.environ)
        src = self.repo
        if what == "spec":
            env["MIRDUMP_CRATE"] = "spec"
            src = self.spec
        else:
            env.pop("MIRDUMP_CRATE", None)
        feats = CONFIGS[config] if config in CONFIGS else VARIANTS[config]
        cmd = [os.path.join(HOME, "tools/dump.sh"), src, out, os.path.join(self.dir, "target-" + what + ("" if config in CONFIGS else config))]
        if what == "impl":
            cmd.append("--no-default-features")
        if feats:
            cmd += ["--features", feats]
        r = subprocess.run(cmd, env=env, capture_output=True, text=True)
        if r.returncode:
            raise SystemExit("cannot compile %s in configuration %s:\n%s" % (what, config, (r.stdout + r.stderr)[-3000:]))
        return out

    def program(self, what, config):
        import mir
        k = (what, config)
        if k not in self.programs:
            self.programs[k] = mir.Program(self.dump(what, config))
        return self.programs[k]


# ---------------------------------------------------------------- pool
_fn = None


class OutOfTime(BaseException):
    pass


def _alarm(*a):
    raise OutOfTime()


START = time.time()
JOB_SECONDS = 240      # one job
RUN_SECONDS = 720      # all jobs of a check


def _call(a):
    i, x = a
    t = time.time()
    signal.signal(signal.SIGALRM, _alarm)
    try:
        signal.alarm(max(5, int(min(JOB_SECONDS, START + RUN_SECONDS - t))))
        r = _fn(x)
        signal.alarm(0)
    except OutOfTime:
        r = {"status": "undecided", "detail": "out of time after %d s" % (time.time() - t)}
    except Exception as e:
        signal.alarm(0)
        import traceback
        tb = traceback.extract_tb(e.__traceback__)[-1]
        r = {"status": "undecided", "detail": "internal: %s %s (%s:%d)" % (type(e).__name__, str(e)[:200], os.path.basename(tb.filename), tb.lineno)}
    r["wall"] = round(time.time() - t, 2)
    return i, r


def pool(fn, jobs):
    """fn over the jobs in forked processes; results in the order of the jobs"""
    global _fn
    _fn = fn
    out = [None] * len(jobs)
    if not jobs:
        return out
    ctx = mp.get_context("fork")
    with ctx.Pool(min(CPUS, len(jobs))) as p:
        for i, r in p.imap_unordered(_call, list(enumerate(jobs))):
            out[i] = r
    return out


# ---------------------------------------------------------------- results
def known_findings():
    out = []
    p = os.path.join(HOME, "known-findings.txt")
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith("known:"):
                _, _, r = l.partition("property=")
                pid, _, r = r.partition(" ")
                key, _, text = r.partition(" -- ")
                out.append((pid, key.strip(), text.strip()))
    return out


def finish(pid, level, coverage, violations, assumptions=()):
    """violations: list of dict(key, where, what, detail). Writes the evidence, prints the verdict, exits."""
    known = {k: t for p, k, t in known_findings() if p == pid}
    fresh = []
    for v in violations:
        if v["key"] in known:
            note("KNOWN-FINDING: property=%s %s" % (pid, known[v["key"]]))
        else:
            fresh.append(v)
    ev = {"property": pid, "tier": TIER if TIER in ("quick", "thorough") else "quick", "seed": SEED, "level": level, "coverage": coverage,
          "assumptions": list(assumptions), "wall_s": round(time.time() - T0, 2), "violations": len(fresh)}
    os.makedirs(os.path.join(HOME, "evidence"), exist_ok=True)
    p = os.path.join(HOME, "evidence", pid + ".json")
    with open(p, "w") as f:
        json.dump(ev, f, indent=1, default=str)
        f.write("\n")
    if fresh:
        rp = os.path.join(HOME, "evidence", pid + ".violations.txt")
        with open(rp, "w") as f:
            for v in fresh:
                f.write("%s\n  where: %s\n  rule broken: %s\n%s\n\n" % (v["key"], v["where"], v["what"], v.get("detail", "")))
        for v in fresh:
            note("%s: %s [%s]" % (v["where"], v["what"], v["key"]))
        note("VIOLATION property=%s replay=%s" % (pid, rp))
        sys.exit(1)
    note("ok property=%s %.0fs" % (pid, time.time() - T0))
    sys.exit(0)
