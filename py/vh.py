"""Harness runtime for the Python monitors: workload RNG, reporter, case driver. The report has the form of cpp/vh.hpp's."""
import hashlib
import json
import math
import os
import random
import signal
import sys
import traceback

import numpy
import scipy.stats

TREE = os.environ.get("VH_TREE", "/repo/_build/tree")
SEED = int(os.environ.get("VERIF_SEED", "1"))
SCRATCH = os.environ.get("VH_SCRATCH", "/tmp")
HERE = os.path.dirname(os.path.abspath(__file__))


class Stop(Exception):
    """Ends a case after its violation was reported."""


class Reporter(object):
    def __init__(self):
        self.evaluations = 0
        self.distinct = set()
        self.events = {}
        self.samples = []
        self.violations = {}
        self.mon = self.cas = ""
        self.failed_case = False
        self.prog = os.environ.get("VH_PROGRESS")

    def progress(self, s):
        if self.prog:
            with open(self.prog, "w") as f:
                f.write(s)

    def event(self, k, n=1):
        self.events[k] = self.events.get(k, 0) + int(n)

    def seen(self, s):
        if len(self.distinct) < 2000000:
            self.distinct.add(hashlib.md5(repr(s).encode()).digest()[:8])

    def sample(self, s):
        if len(self.samples) < 4:
            self.samples.append("%s: %s" % (self.mon, str(s)[:500]))

    def violation(self, key, detail):
        self.failed_case = True
        v = self.violations.get(key)
        if v:
            v["count"] += 1
        else:
            self.violations[key] = dict(key=key, detail=str(detail)[:4000], case=self.cas, count=1)

    def write(self, done):
        path = os.environ.get("VH_REPORT")
        data = dict(done=done, evaluations=self.evaluations, distinct=len(self.distinct), events=self.events,
                    samples=self.samples, violations=list(self.violations.values()))
        if path:
            with open(path, "w") as f:
                json.dump(data, f)
        return data


R = Reporter()
MONS = {}


def monitor(name):
    def deco(f):
        MONS[name] = f
        return f
    return deco


class Rng(random.Random):
    def below(self, n):
        return self.randrange(n) if n > 0 else 0

    def logunif(self, a, b):
        return math.exp(self.uniform(math.log(a), math.log(b)))

    def chance(self, p):
        return self.random() < p

    def pick(self, xs):
        return xs[self.randrange(len(xs))]


def isnum(x):
    return isinstance(x, (int, float, numpy.integer, numpy.floating)) and not isinstance(x, bool)


def close(a, b, tol):
    try:
        a, b = float(a), float(b)
    except (TypeError, ValueError):
        return False
    if math.isnan(a) or math.isnan(b):
        return False
    return a == b or abs(a - b) <= tol


def need_close(key, got, want, tol, detail=""):
    """Reports and ends the case unless got is within tol of want."""
    if not close(got, want, tol):
        R.violation(key, "%s : got %r expected %r tol %.3g" % (detail, got, want, tol))
        raise Stop()


def need(key, cond, detail=""):
    if not cond:
        R.violation(key, detail)
        raise Stop()


def raises(f, *kinds):
    try:
        f()
    except (kinds or Exception):
        return True
    return False


def refused(key, f, detail="", kinds=(Exception,)):
    try:
        out = f()
    except kinds:
        return
    R.violation(key, "%s : accepted, returned %r" % (detail, out))
    raise Stop()


# ---------------------------------------------------------------- statistics
def chisq_p(observed, probs):
    """Cells with small expectation are pooled; impossible cells must be empty."""
    n = float(sum(observed))
    pool_o = pool_e = 0.0
    stat, cells = 0.0, 0
    for o, p in sorted(zip(observed, probs), key=lambda x: x[1]):
        if p <= 0:
            if o > 0:
                return 0.0
            continue
        pool_o += o
        pool_e += n * p
        if pool_e >= 8:
            stat += (pool_o - pool_e) ** 2 / pool_e
            cells += 1
            pool_o = pool_e = 0.0
    if pool_e > 0 and cells:
        stat += (pool_o - pool_e) ** 2 / max(pool_e, 1.0)
    return float(scipy.stats.chi2.sf(stat, cells - 1)) if cells > 1 else 1.0


def ks_p(u):
    """Against uniform(0,1)."""
    u = numpy.sort(numpy.asarray(u, dtype=float))
    n = len(u)
    if n == 0 or not numpy.isfinite(u).all():
        return 0.0
    i = numpy.arange(n)
    d = max((u - i / n).max(), ((i + 1) / n - u).max())
    return float(scipy.stats.kstwo.sf(d, n)) if d > 0 else 1.0


def believable(p):
    """Two-stage test: p(scale) draws a sample of size proportional to scale and returns a p-value; a small one only
    counts if larger fresh samples repeat it."""
    q = p(1)
    if q > 1e-3:
        return True, q
    q = p(3)
    if q > 1e-5:
        return True, q
    q = p(6)
    return q > 1e-8, q


def need_law(key, p, detail=""):
    ok, q = believable(p)
    R.event("laws")
    need(key, ok, "%s : p-value %.3g, repeated" % (detail, q))


# ---------------------------------------------------------------- driver
def seed_all(n):
    numpy.random.seed(n & 0x7fffffff)
    try:
        import distributions.hp.random
        distributions.hp.random.seed(n & 0x7fffffff)
    except ImportError:
        pass


class Alarm(Exception):
    pass


def _alarm(*a):
    raise Alarm()


def run_case(name, idx):
    R.cas = "%s:%d seed=%d" % (name, idx, SEED)
    R.failed_case = False
    h = int(hashlib.md5(("%s:%d:%d" % (name, idx, SEED)).encode()).hexdigest()[:15], 16)
    r = Rng(h)
    seed_all(h % 1000003 + 1)
    try:
        MONS[name](r)
    except Stop:
        pass
    except Alarm:
        R.violation("hang:" + name, "case did not end within 60 s")
    except (ImportError, MemoryError):
        raise
    except Exception as e:
        tb = traceback.extract_tb(sys.exc_info()[2])
        inner = [f for f in tb if not f.filename.startswith(HERE)]
        lib = [f for f in tb if "distributions/" in f.filename.replace(HERE, "")]
        where = (lib or inner or tb)[-1]
        R.violation("%s:exception:%s:%s" % (name.split("-")[0], type(e).__name__, where.name),
                    "%s\n%s" % (e, "".join(traceback.format_tb(sys.exc_info()[2]))[-3000:]))
    R.evaluations += 1


def main():
    args = sys.argv[1:]
    if "--only" in args:
        name, idx = args[args.index("--only") + 1].rsplit(":", 1)
        plan = [(name, [int(idx)])]
    else:
        plan = [(a.split("=")[0], range(int(a.split("=")[1]))) for a in args]
    signal.signal(signal.SIGALRM, _alarm)
    k = 0
    for name, cases in plan:
        R.mon = name
        for i in cases:
            if k % 20 == 0:
                R.progress("%s %d" % (name, i))
            k += 1
            signal.alarm(60)
            run_case(name, i)
            signal.alarm(0)
    data = R.write(True)
    if not os.environ.get("VH_REPORT"):
        for v in data["violations"]:
            print("V", v["key"], "x%d" % v["count"], v["case"], "\n   ", v["detail"][:1500])
        print("evaluations", data["evaluations"], "distinct", data["distinct"], data["events"])
    sys.stdout.flush()
    os._exit(0)
