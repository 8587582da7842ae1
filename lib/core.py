"""Runs the jobs of a check, aggregates what their monitors report, decides."""
import fcntl
import json
import os
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import threading
import time

from vbuild import VERIF, WORK, REPO, PY, NCPU, BuildError, Graph

FINDINGS = os.path.join(VERIF, "known_findings.txt")


class Harness(Exception):
    """The check itself failed (exit 2): neither held nor violated."""


class Job:
    def __init__(self, name, cmd, timeout=240, env=None, stdin=None, weight=1.0, sanitizer=None, post=None, cwd=None, only=None):
        self.only = only   # report only the violations whose key starts with this
        self.name, self.cmd, self.timeout, self.env = name, cmd, timeout, dict(env or {})
        self.weight, self.sanitizer, self.cwd = weight, sanitizer, cwd
        self.out = self.err = None
        self.result = None
        self.problem = None


SAN_PAT = re.compile(r"(ERROR: AddressSanitizer: ([\w-]+)|runtime error: (.*)|WARNING: ThreadSanitizer: ([\w -]+)|"
                     r"ERROR: LeakSanitizer: (.*)|==\d+== (Invalid (?:read|write|free)|Mismatched free|Conditional jump|"
                     r"Use of uninitialised|Syscall param|Source and destination overlap|Argument).*)")


def san_key(text):
    """One stable key per report: its kind and the first frame inside the project."""
    m = SAN_PAT.search(text)
    kind = next((x for x in m.groups()[1:] if x), "report") if m else "report"
    kind = re.sub(r"0x[0-9a-f]+|\b\d+\b", "N", kind)[:80]
    fr = re.search(r"(?:in|by 0x[0-9A-F]+:|at 0x[0-9A-F]+:) (distributions::[\w:~]+|std_wrapper::\w+)", text)
    fn = fr.group(1) if fr else ""
    return (kind.strip().replace(" ", "-") + (":" + fn if fn else ""))


class Check:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.t0 = time.time()
        self.graph = Graph()
        self.jobs = []
        self.assumptions = []
        self.rule = ""
        self.thorough = tier == "thorough"
        self.scratch = tempfile.mkdtemp(prefix="verif-%s-" % pid)
        self.violations = {}   # key -> record
        self.evaluations = 0
        self.distinct = 0
        self.samples = []
        self.events = {}
        self.jobinfo = {}
        self.min_events = {}

    def scale(self, quick, thorough):
        return thorough if self.thorough else quick

    def build(self):
        os.makedirs(WORK, exist_ok=True)
        with open(os.path.join(WORK, "lock"), "w") as lk:
            fcntl.flock(lk, fcntl.LOCK_EX)
            t = time.time()
            self.graph.run()
            self.build_s = time.time() - t

    def job(self, *a, **kw):
        j = Job(*a, **kw)
        self.jobs.append(j)
        return j

    # ---------------------------------------------------------------- running
    def _run_once(self, j, tag):
        rep = os.path.join(self.scratch, "%s.%s.json" % (j.name, tag))
        prog = rep + ".progress"
        env = dict(os.environ)
        env.update({"VH_REPORT": rep, "VH_PROGRESS": prog, "VERIF_SEED": str(self.seed), "VERIF_TIER": self.tier,
                    "OMP_NUM_THREADS": "1", "OPENBLAS_NUM_THREADS": "1", "PYTHONDONTWRITEBYTECODE": "1",
                    "PYTHONHASHSEED": "0", "NUMPY_EXPERIMENTAL_DTYPE_API": "1", "VH_SCRATCH": self.scratch})
        if not j.sanitizer:
            env["MALLOC_PERTURB_"] = "129"  # heap memory starts as 0x7e.. : uninitialised reads show
        env.update(j.env)
        p = subprocess.Popen(j.cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env,
                             cwd=j.cwd or self.scratch, start_new_session=True)
        to = False
        try:
            out, err = p.communicate(timeout=j.timeout)
        except subprocess.TimeoutExpired:
            to = True
            os.killpg(p.pid, signal.SIGKILL)
            out, err = p.communicate()
        res = None
        if os.path.exists(rep):
            try:
                res = json.load(open(rep))
            except ValueError:
                res = None
        progress = ""
        if os.path.exists(prog):
            progress = open(prog, errors="replace").read().strip()
        return p.returncode, to, out.decode(errors="replace"), err.decode(errors="replace"), res, progress

    def _run(self, j):
        t = time.time()
        rc, to, out, err, res, prog = self._run_once(j, "0")
        if to or rc == -9:   # an overloaded machine: once more
            rc, to, out, err, res, prog = self._run_once(j, "1")
            if to:
                j.problem = ("hang", "hang:%s:%s" % (j.name, phase(prog)),
                             "no result in %ds, twice; at: %s" % (j.timeout, prog))
        if not j.problem:
            done = res is not None and res.get("done")
            text = err + out
            if done and rc == 0:
                pass
            elif j.sanitizer and SAN_PAT.search(text):
                j.problem = ("sanitizer", "san:" + san_key(text), "at: %s\n%s" % (prog, text[-6000:]))
            elif rc < 0 or rc in (134, 139, 136):
                j.problem = ("crash", "crash:%s:%s" % (j.name, phase(prog)),
                             "signal/exit %s; at: %s\n%s" % (rc, prog, text[-3000:]))
            else:
                j.problem = ("harness", "", "job %s exit %s; at: %s\n%s" % (j.name, rc, prog, text[-3000:]))
        j.result, j.wall = res, time.time() - t
        j.stderr = err

    def run_jobs(self):
        todo = sorted(self.jobs, key=lambda j: -j.weight)
        lock = threading.Lock()

        def work():
            while True:
                with lock:
                    if not todo:
                        return
                    j = todo.pop(0)
                self._run(j)
        ts = [threading.Thread(target=work) for _ in range(min(NCPU, len(todo)))]
        for x in ts:
            x.start()
        for x in ts:
            x.join()
        broken = None
        for j in self.jobs:
            r = j.result or {}
            self.evaluations += r.get("evaluations", 0)
            self.distinct += r.get("distinct", 0)
            for s in r.get("samples", [])[:3]:
                if len(self.samples) < 24:
                    self.samples.append({"job": j.name, "case": s})
            for k, v in r.get("events", {}).items():
                self.events[k] = self.events.get(k, 0) + v
            self.jobinfo[j.name] = {"wall_s": round(j.wall, 2), "evaluations": r.get("evaluations", 0)}
            for v in r.get("violations", []):
                if not j.only or v["key"].startswith(j.only):
                    self.violation(v["key"], v.get("detail", ""), j, v.get("case"))
            if j.problem:
                kind, key, text = j.problem
                if kind == "harness":
                    broken = broken or text
                else:
                    self.violation(key, text, j, None)
        known = self.known()
        fresh = [k for k in self.violations if k not in known]
        if broken and not fresh:
            raise Harness(broken)
        if self.evaluations == 0 and not fresh:
            raise Harness("nothing was observed")
        for k, n in self.min_events.items():
            if self.events.get(k, 0) < n and not fresh:
                raise Harness("monitor %r observed only %d events (expected >= %d)" % (k, self.events.get(k, 0), n))

    def violation(self, key, detail, job=None, case=None):
        if key in self.violations:
            self.violations[key]["count"] += 1
            return
        self.violations[key] = dict(key=key, detail=str(detail)[:6000], job=job.name if job else None, case=case,
                                    cmd=job.cmd if job else None, env=job.env if job else None, count=1)

    # ---------------------------------------------------------------- verdict
    def known(self):
        out = {}
        if os.path.exists(FINDINGS):
            for line in open(FINDINGS):
                m = re.match(r"finding: property=(\S+) key=(\S+) (.*)", line)
                if m and m.group(1) == self.pid:
                    out[m.group(2)] = m.group(3).strip()
        return out

    def finish(self):
        known = self.known()
        fresh = []
        rdir = os.path.join(VERIF, "evidence", "replay")
        for key, v in sorted(self.violations.items()):
            if key not in known:
                fresh.append((key, v))
        for key, text in known.items():
            seen = self.violations.get(key)
            if seen:
                print("KNOWN-FINDING: property=%s %s (key %s)" % (self.pid, text, key))
        ev = dict(property=self.pid, tier=self.tier, seed=self.seed, level="exploration",
                  coverage=dict(evaluations=self.evaluations, distinct_nontrivial=self.distinct, rule=self.rule,
                                samples=self.samples or ["none"], events=self.events, jobs=self.jobinfo,
                                known_findings_seen=sorted(k for k in self.violations if k in known)),
                  assumptions=self.assumptions, wall_s=round(time.time() - self.t0, 2), violations=len(fresh))
        write_json(os.path.join(VERIF, "evidence", self.pid + ".json"), ev)
        for i, (key, v) in enumerate(fresh[:10]):
            os.makedirs(rdir, exist_ok=True)
            path = os.path.join(rdir, "%s-%s-%d.json" % (self.pid, self.tier, i))
            write_json(path, dict(property=self.pid, seed=self.seed, tier=self.tier,
                                  replay="VERIF_SEED=%d python3 /verif/run.py %s %s" % (self.seed, self.pid, self.tier), **v))
            print("VIOLATION property=%s replay=%s" % (self.pid, path))
            print("  key=%s count=%d\n  %s" % (key, v["count"], v["detail"][:1500].replace("\n", "\n  ")))
        shutil.rmtree(self.scratch, ignore_errors=True)
        return 1 if fresh else 0


def phase(p):
    return re.sub(r"\s.*", "", p or "start")


def write_json(path, obj):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path + ".tmp", "w") as f:
        json.dump(obj, f, indent=1, default=str)
    os.replace(path + ".tmp", path)
