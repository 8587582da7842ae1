"""P18, P19, P21 of the Python layers: shared DPD weights, reproducibility, refused arguments and memory."""
import gc
import json
import math
import os
import random
import subprocess
import sys

import numpy

from vh import R, Stop, isnum, main, monitor, need, need_close, need_law, ks_p, refused, raises, seed_all
import ref
from ref import MODELS, OTHER, copy_stats, show, same_dump, plain, gen_data, gen_size
from m_models import Ctx, PAIRS, bad_values
from m_mixture import Driver, walk

import distributions.dbg.random as dr
import distributions.hp.random as hr
import distributions.lp.random as lr
import distributions.lp.clustering as lc
import distributions.dbg.clustering as dc
import distributions.lp.mixture as lm


# ------------------------------------------------------------------ P18
class Weights(object):
    """Shared DPD state of one flavour next to plain dictionaries."""
    MIN = 1e-6

    def __init__(self, r, fl):
        self.r, self.fl = r, fl
        raw = ref.DPD.gen_shared(r) if r.chance(0.6) else {"gamma": 1.0, "alpha": 1.0, "betas": {}, "counts": {}}
        raw["gamma"] = ref.f32(r.logunif(0.3, 60))
        self.c = Ctx(r, ref.DPD, fl, raw)
        self.sh = self.c.shared
        self.betas = dict(self.c.h["betas"])
        self.counts = dict(raw["counts"])
        self.lp = fl == "lp"
        self.drift = (2e-6 if self.lp else 1e-12) + max(0.0, sum(self.betas.values()) - 1)
        self.log = []

    def key(self, s):
        return "P18:%s:%s" % (self.fl, s)

    def ctx(self):
        t = " ".join(self.log)
        return "%s gamma %g : %s" % (self.fl, self.sh.dump()["gamma"], t if len(t) < 700 else "..." + t[-700:])

    def remainder(self):
        """The weight of unseen values, as the predictive score of OTHER in an empty group shows it."""
        if not self.lp:
            return self.sh.beta0
        return math.exp(self.c.group().score_value(self.sh, OTHER))

    def check(self):
        d = self.sh.dump()
        b, n = d["betas"], d["counts"]
        ctx = self.ctx()
        need(self.key("known"), set(b) == set(self.betas), "%s knows %s expected %s" % (ctx, sorted(b), sorted(self.betas)))
        need(self.key("counts"), {k: v for k, v in n.items() if v} == self.counts, "%s counts %s expected %s" % (ctx, show(n), show(self.counts)))
        for k, w in b.items():
            need(self.key("weight"), w == self.betas[k], "%s weight of %s is %r was %r" % (ctx, k, w, self.betas[k]))
            need(self.key("weight-range"), 0 < w <= 1 + 1e-6, "%s weight of %s is %r" % (ctx, k, w))
        total = sum(b.values())
        r0 = self.remainder()
        need(self.key("remainder-range"), 0 <= r0 <= 1 + 1e-4, "%s remainder %r" % (ctx, r0))
        need_close(self.key("mass"), total + r0, 1.0, self.drift + (1e-4 * r0 if self.lp else 0), ctx)
        R.event("states")

    def grow(self):
        if self.lp:
            self.drift += 4e-7

    def add(self, v):
        fresh = v not in self.betas
        before = self.remainder()
        self.sh.add_value(v)
        self.log.append("+%s" % v)
        self.grow()
        self.counts[v] = self.counts.get(v, 0) + 1
        if not fresh:
            return
        d = self.sh.dump()["betas"]
        need(self.key("new-value"), v in d, "%s %s is not known" % (self.ctx(), v))
        w = self.betas[v] = d[v]
        if self.lp:
            self.drift += 1e-6 * (before - w < 1e-5)
        need_close(self.key("remainder-after-add"), self.remainder(), max(0.0, before - w),
                   (2e-4 * before + self.drift) if self.lp else 1e-12, self.ctx())
        R.event("new_values")

    def remove(self, v):
        before, w = self.remainder(), self.betas[v]
        self.sh.remove_value(v)
        self.log.append("-%s" % v)
        self.grow()
        self.counts[v] -= 1
        if self.counts[v] == 0:
            del self.counts[v], self.betas[v]
            want = before + w
            R.event("dropped_values")
        else:
            want = before
        need_close(self.key("remainder-after-remove"), self.remainder(), want, (4e-4 * want + self.drift) if self.lp else 1e-12, self.ctx())


@monitor("P18")
def P18(r):
    w = Weights(r, r.pick(["lp", "dbg"]))
    small = r.chance(0.7)
    p_add = r.uniform(0.35, 0.85)
    for _ in range(r.pick([5, 20, 60, 60])):
        w.check()
        u = r.random()
        if u < 0.05:
            before = plain(w.sh.dump())
            refused(w.key("other-added"), lambda: w.sh.add_value(OTHER if not w.lp else -1), w.ctx())
            refused(w.key("other-removed"), lambda: w.sh.remove_value(OTHER if not w.lp else -1), w.ctx())
            absent = 3000000 + r.below(1000)
            refused(w.key("unknown-removed"), lambda: w.sh.remove_value(absent), w.ctx())
            need(w.key("refused-changed"), plain(w.sh.dump()) == before, w.ctx())
            R.event("refusals", 3)
        elif u < 0.10 and sum(w.betas.values()) <= 1:
            d = w.sh.dump()
            w.log.append("reload")
            if r.chance(0.5):
                w.sh.load(d)
            else:
                w.sh = type(w.sh).from_dict(d)
        elif u < 0.12 and small and w.sh.dump()["gamma"] < 20:
            known = dict(w.betas)
            left = w.remainder()
            other = type(w.sh).from_dict(w.sh.dump())
            other.realize()
            d = other.dump()
            cx = w.ctx() + " realize"
            for k, b in known.items():
                if left > 1e-3:
                    need(w.key("realize-changed"), d["betas"].get(k) == b, "%s weight of %s %r was %r" % (cx, k, d["betas"].get(k), b))
            need(w.key("realize-positive"), min(d["betas"].values()) > 0 or not w.lp, cx)
            need_close(w.key("realize-mass"), sum(d["betas"].values()), 1.0, w.drift + (2e-6 * len(d["betas"]) if w.lp else 1e-9), cx)
            for k, n in d["counts"].items():
                need(w.key("realize-count"), n == w.counts.get(k, 1), "%s count of %s is %d" % (cx, k, n))
            if left > 1e-3:
                need(w.key("realize-adds"), len(d["betas"]) > len(known), cx)
            R.event("realized")
        elif not w.betas or r.chance(p_add):
            v = r.pick(sorted(w.betas)) if w.betas and r.chance(0.4) else r.below(40) if small else r.below(0x7fffffff)
            if v in w.betas or w.remainder() > 1e-4:
                w.add(v)
        else:
            w.remove(r.pick(sorted(w.betas)))
    w.check()
    R.seen(w.ctx())
    R.sample(w.ctx())


@monitor("P18-law")
def P18_law(r):
    """Each new value takes a Beta(1, gamma) share of the remainder."""
    fl = r.pick(["lp", "dbg"])
    gamma = ref.f32(r.logunif(0.7, 30))
    c = Ctx(r, ref.DPD, fl, {"gamma": gamma, "alpha": 1.0, "betas": {3: 0.125} if r.chance(0.5) else {}, "counts": {3: 1}})
    deep = r.randint(1, 3)
    start = dict(c.h["betas"])
    ctx = "%s gamma %g %s depth %d" % (fl, gamma, start, deep)
    R.seen(ctx)
    R.sample(ctx)

    def p(scale):
        us = []
        for _ in range(150 * scale):
            sh = c.M.Shared.from_dict(dict(gamma=gamma, alpha=1.0, betas=dict(start), counts={k: 1 for k in start}))
            left = 1.0 - sum(start.values())
            for k in range(deep):
                sh.add_value(100 + k)
                b = sh.dump()["betas"][100 + k]
                if left < 0.02:
                    break
                us.append(1 - (1 - min(1.0, b / left)) ** gamma)
                left -= b
            R.event("shares", deep)
        return ks_p(us)
    need_law("P18:%s:law" % fl, p, ctx)


# ------------------------------------------------------------------ P19
def frozen(x):
    if isinstance(x, float):
        return x.hex() if math.isfinite(x) else str(x)
    if isinstance(x, numpy.ndarray):
        return frozen(x.tolist())
    if isinstance(x, numpy.generic):
        return frozen(x.item())
    if isinstance(x, (list, tuple)):
        return [frozen(i) for i in x]
    if isinstance(x, dict):
        return {str(k): frozen(v) for k, v in x.items()}
    return x


class PyWorld(object):
    """A seeded script over one model in one flavour, the clusterings and the samplers of that flavour's stream."""
    def __init__(self, seed, T, fl):
        self.r = r = ref_rng(seed)
        raw = T.gen_shared(r)
        if T is ref.BNB:
            raw["alpha"], raw["beta"] = max(raw["alpha"], 1.5), min(raw["beta"], 30.0)
        if T is ref.NICH:
            raw["nu"] = max(raw["nu"], 0.5)
        self.c = c = Ctx(r, T, fl, raw)
        self.T, self.fl = T, fl
        self.groups = [c.group(gen_data(r, T, c.h, r.below(6))) for _ in range(2)]
        self.mix = None
        if fl == "lp" and T.mix:
            self.mix = c.M.Mixture()
            for g in self.groups:
                self.mix.append(g)
            self.mix.append(c.group())
            self.mix.init(c.shared)
        self.log = []

    def out(self, what, x):
        self.log.append((what, frozen(x)))
        R.event("results")

    def step(self):
        r, c, T = self.r, self.c, self.T
        g = r.pick(self.groups)
        u = r.below(13)
        v = T.gen_value(r, c.h)
        if u == 0:
            self.out("sample", g.sample_value(c.shared))
        elif u == 1:
            s = c.M.Sampler()
            s.init(c.shared, g)
            self.out("sampler", [s.eval(c.shared) for _ in range(r.randint(1, 3))])
        elif u == 2:
            self.out("sample_group", c.M.sample_group(c.shared, r.below(4)))
        elif u == 3:
            g.add_value(c.shared, v)
        elif u == 4:
            self.out("score", g.score_value(c.shared, v))
        elif u == 5:
            self.out("data", g.score_data(c.shared))
        elif u == 6:
            self.out("dump", g.dump())
        elif u == 7:
            g.merge(c.shared, c.group([v]))
        elif u == 8 and self.mix is not None:
            a = numpy.zeros(len(self.mix), dtype=numpy.float32)
            self.mix.score_value(c.shared, v, a)
            self.out("mixture", a)
            self.out("mixture data", self.mix.score_data(c.shared))
            self.mix.add_value(c.shared, r.below(len(self.mix)), v)
        elif u == 9 and self.T is ref.DPD:
            if ref.DPD.beta0(c.shared.dump()) > 1e-3:
                c.shared.add_value(r.below(40))
            self.out("shared", c.shared.dump())
        elif u == 10:
            self.base()
        elif u == 11:
            self.out("copy", type(g).from_dict(g.dump()).dump())
        else:
            self.out("sample", g.sample_value(c.shared))

    def base(self):
        r, n = self.r, self.r.randint(1, 12)
        if self.fl == "dbg":
            k = r.below(9)
            p = [r.logunif(0.1, 3) for _ in range(n)]
            if k == 0:
                self.out("discrete", dr.sample_discrete(p, sum(p)))
            elif k == 1:
                self.out("log", dr.sample_discrete_log([math.log(x) for x in p]))
            elif k == 2:
                self.out("normal", dr.sample_normal(1.0, p[0]))
            elif k == 3:
                self.out("partition", dr.sample_partition_from_counts(list(range(n)), [1] * n))
            elif k == 4:
                self.out("stick", dr.sample_stick(p[0]))
            elif k == 5:
                self.out("niw", dr.sample_normal_inverse_wishart(numpy.zeros(2), 1.0, numpy.eye(2), 5.0))
            elif k == 6:
                self.out("bernoulli", [dr.sample_bernoulli(0.5) for _ in range(4)])
            elif k == 7:
                self.out("assignments", dc.LowEntropy.from_dict({"dataset_size": n}).sample_assignments(n))
            else:
                self.out("nb", dr.sample_negative_binomial(0.3, 3))
        elif self.fl == "hp" or r.chance(0.3):
            self.out("hp", [hr.random(), hr.sample_normal(0, 2), hr.sample_chisq(3), hr.sample_gamma(2, 1), hr.sample_poisson(4)])
        else:
            k = r.below(5)
            s = [r.uniform(-3, 3) for _ in range(n)]
            if k == 0:
                self.out("scores", lr.sample_prob_from_scores(s))
            elif k == 1:
                p = numpy.exp(numpy.array(s, dtype=numpy.float32))
                self.out("discrete", lr.sample_discrete(p / p.sum()))
            elif k == 2:
                self.out("urn", lr.sample_pair_from_urn(list(range(n + 1))))
            elif k == 3:
                self.out("py", lc.PitmanYor.from_dict({"alpha": 1.0, "d": 0.25}).sample_assignments(n))
            else:
                self.out("le", lc.LowEntropy.from_dict({"dataset_size": n + 3}).sample_assignments(n))


def ref_rng(seed):
    from vh import Rng
    return Rng(seed)


def reads(w, n):
    """Calls which must not draw."""
    r = n
    c = w.c
    for g in w.groups:
        g.score_data(c.shared)
        v = w.T.gen_value(r, c.h)
        g.score_value(c.shared, v)
        g.dump()
        c.shared.dump()
        x = type(g).from_dict(g.dump())
        x.merge(c.shared, g)
    if w.mix is not None:
        a = numpy.zeros(len(w.mix), dtype=numpy.float32)
        w.mix.score_value(c.shared, w.T.gen_value(r, c.h), a)
        w.mix.score_data(c.shared)
        len(w.mix)
    lr.log_sum_exp([1.0, 2.0])
    m = lc.PitmanYor.from_dict({"alpha": 1.0, "d": 0.5})
    m.score_counts([2, 1])
    d = m.Mixture()
    d.init(m, [2, 1, 0])
    d.score_value(m, numpy.zeros(3, dtype=numpy.float32))
    lc.count_assignments({0: 0, 1: 0})
    t = lm.MixtureIdTracker()
    t.init(3)
    t.add_group()
    R.event("reads")


def foreign(w, n):
    """Draws from every stream but this world's."""
    rng = lr.RNG()
    rng.seed(n.below(1000) + 1)
    for _ in range(n.below(5)):
        rng()
    random.random()
    if w.fl == "dbg":
        hr.random()
        hr.sample_normal(0, 1)
        lr.sample_prob_from_scores([0.0, 1.0])
        lc.PitmanYor.from_dict({"alpha": 1.0, "d": 0.25}).sample_assignments(4)
    else:
        numpy.random.rand(3)
        dr.sample_normal(0.0, 1.0)
        dr.sample_discrete([0.5, 0.5])
    R.event("foreign_draws")


@monitor("P19")
def P19(r):
    T, fl = r.pick(PAIRS)
    seed, stream, steps = r.getrandbits(60), r.randint(1, 10 ** 6), r.randint(3, 30)

    def run(extra=None):
        seed_all(stream)
        n = ref_rng(seed ^ 0x5555)
        w = PyWorld(seed, T, fl)
        for _ in range(steps):
            if extra:
                extra(w, n)
            w.step()
        w.out("last", hr.random() if fl != "dbg" else float(numpy.random.rand()))
        return w.log

    a = run()
    ctx = "%s %s seed %d steps %d" % (fl, T.name, seed, steps)
    R.seen(ctx)
    R.sample(ctx)

    def same(key, b):
        for i, (x, y) in enumerate(zip(a, b)):
            need("P19:%s-%s:%s" % (fl, T.name, key), x == y, "%s result %d : %s vs %s" % (ctx, i, str(x)[:400], str(y)[:400]))
        need("P19:%s-%s:%s" % (fl, T.name, key), len(a) == len(b), ctx)
        R.event(key + "_runs")
    same("repeat", run())
    same("read", run(reads))
    same("foreign", run(foreign))
    # interleaved with another script of the other stream
    other = "lp" if fl == "dbg" else "dbg"
    T2 = r.pick([m for m in MODELS.values() if other in m.flavours])
    box = []

    def beside(w, n):
        if not box:
            box.append(PyWorld(seed + 1, T2, other))
        box[0].step()
    same("interleaved", run(beside))
    # another seed gives other draws
    R.event("scripts")


def fresh(worlds, before):
    """In a process of its own: the logs of these worlds, after `before` unrelated steps."""
    out = []
    if before:
        w = PyWorld(before, MODELS["dd"], "lp")
        for _ in range(before % 40):
            w.step()
    for name, fl, seed, stream, steps in worlds:
        seed_all(stream)
        w = PyWorld(seed, MODELS[name], fl)
        for _ in range(steps):
            w.step()
        out.append([str(x) for x in w.log])
    return out


@monitor("P19-process")
def P19_process(r):
    """Processes whose string hashes, heap contents and earlier work differ give the same results."""
    worlds = []
    for _ in range(60):
        T, fl = r.pick(PAIRS)
        worlds.append((T.name.lower(), fl, r.getrandbits(60), r.randint(1, 10 ** 6), r.randint(3, 15)))
        R.seen(worlds[-1])
    got = []
    for k in range(2):
        env = dict(os.environ, PYTHONHASHSEED=str(r.randint(1, 10 ** 6)), MALLOC_PERTURB_=str(r.randint(1, 255)))
        env.pop("VH_REPORT", None)
        p = subprocess.run([sys.executable, os.path.abspath(__file__), "--fresh", json.dumps([worlds, k * r.randint(1, 10 ** 6)])],
                           env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=50)
        line = [x for x in p.stdout.decode().splitlines() if x.startswith("FRESH ")]
        if p.returncode or not line:
            raise RuntimeError("child failed: %s" % p.stderr.decode()[-500:])
        got.append(json.loads(line[0][6:]))
    for w, a, b in zip(worlds, *got):
        key = "P19:%s-%s:process" % (w[1], w[0])
        for i, (x, y) in enumerate(zip(a, b)):
            need(key, x == y, "%s result %d : %s vs %s" % (w, i, x[:400], y[:400]))
        need(key, len(a) == len(b), str(w))
        R.event("python_process_results", len(a))


@monitor("P19-rng")
def P19_rng(r):
    """lp.random.RNG objects are independent streams."""
    n = r.randint(2, 5)
    seeds = [r.randint(1, 2 ** 31 - 2) for _ in range(n)]

    def one(s, k):
        g = lr.RNG()
        g.seed(s)
        return [g() for _ in range(k)]
    lens = [r.randint(1, 40) for _ in range(n)]
    want = [one(s, k) for s, k in zip(seeds, lens)]
    R.seen(seeds)
    gs = [lr.RNG() for _ in seeds]
    for g, s in zip(gs, seeds):
        g.seed(s)
    got = [[] for _ in seeds]
    while any(len(g) < k for g, k in zip(got, lens)):
        i = r.below(n)
        if len(got[i]) < lens[i]:
            if r.chance(0.2):   # go on with a copy; the original is used up
                c = gs[i].copy()
                ahead = [gs[i]() for _ in range(r.below(4))]
                again = c.copy()
                need("P19:rng:copy", [again() for _ in ahead] == ahead, "seed %d" % seeds[i])
                gs[i] = c
                R.event("rng_copies")
            got[i].append(gs[i]())
        if r.chance(0.1):
            hr.random()
            numpy.random.rand()
    need("P19:rng:interleaved", got == want, "seeds %s lengths %s" % (seeds, lens))
    long = [s for s, k in zip(seeds, lens) if k > 5]
    for i in range(n):
        for j in range(i):
            if seeds[i] != seeds[j] and min(lens[i], lens[j]) > 5:
                need("P19:rng:distinct", want[i][:6] != want[j][:6], "seeds %d and %d" % (seeds[i], seeds[j]))
    R.event("rng_streams", n)
    # seeding the high precision stream
    hr.seed(seeds[0])
    a = [hr.random() for _ in range(5)]
    lr.RNG().seed(3)
    hr.seed(seeds[0])
    need("P19:rng:global", [hr.random() for _ in range(5)] == a, "seed %d" % seeds[0])


# ------------------------------------------------------------------ P21
def wrong_kind(r, T):
    """Values no model of this kind takes."""
    out = ["x", None, [1, 2, 3, 4, 5, 6, 7]]
    if T in (ref.DD, ref.DPD, ref.GP, ref.BNB):
        out.append(2 ** 40)
    if T is ref.NIW:
        out += [1.0, numpy.array(1.0), numpy.zeros((2, 2)), numpy.zeros((1, 1, 1)), numpy.zeros(9)]
    return out


@monitor("P21")
def P21(r):
    if r.chance(0.05):
        d = Driver(r, "P21", [0] * r.randint(1, 60) + [r.randint(1, 4) for _ in range(r.below(20))])
        R.seen(str(d))
        return walk(d, "P21")
    T, fl = r.pick([p for p in PAIRS if p[1] == "lp"])
    c = Ctx(r, T, fl)
    sh = c.shared
    g = c.group(gen_data(r, T, c.h, gen_size(r, 20)))
    ctx = "%s group %s" % (c, show(g.dump()))
    R.seen(ctx)
    R.sample(ctx)
    m = None
    if T.mix:
        m = c.M.Mixture()
        for _ in range(r.randint(1, 3)):
            m.append(c.group(gen_data(r, T, c.h, r.below(4))))
        m.init(sh)

    def snap():
        v = ref_rng(5)
        x = T.gen_value(v, c.h)
        out = [plain(g.dump()), plain(sh.dump()), g.score_value(sh, x), g.score_data(sh)]
        if m is not None:
            a = numpy.zeros(len(m), dtype=numpy.float32)
            m.score_value(sh, x, a)
            out += [a.tolist(), m.score_data(sh), len(m)]
        return repr(out)
    before = snap()
    bad = [(v, "kind") for v in wrong_kind(r, T)] + [(v, "value") for v in bad_values(r, T, c.h)]
    for v, what in bad:
        if T is ref.BB and isinstance(v, (str, list, type(None))):
            continue     # any object has a truth value
        calls = [("group.add_value", lambda: g.add_value(sh, v)), ("group.remove_value", lambda: g.remove_value(sh, v)),
                 ("group.score_value", lambda: g.score_value(sh, v))]
        if T is not ref.NIW:
            calls.append(("group.add_repeated_value", lambda: g.add_repeated_value(sh, v, 2)))
        if m is not None:
            i = r.below(len(m))
            calls += [("mixture.add_value", lambda: m.add_value(sh, i, v)), ("mixture.remove_value", lambda: m.remove_value(sh, i, v)),
                      ("mixture.score_value_group", lambda: m.score_value_group(sh, i, v)),
                      ("mixture.score_value", lambda: m.score_value(sh, v, numpy.zeros(len(m), dtype=numpy.float32)))]
        for name, f in calls:
            cx = "%s %s of %s" % (ctx, name, show(v))
            refused("P21:%s:accepted:%s" % (c.key, name), f, cx)
            need("P21:%s:changed:%s" % (c.key, name), snap() == before, "%s was refused but changed the object" % cx)
            R.event("refusals")
    if m is not None:
        n = len(m)
        v = T.gen_value(r, c.h)
        for i in (-1, n, n + r.below(5), 2 ** 31 - 1, -2 ** 31, 2 ** 40):
            for name, f in (("add_value", lambda: m.add_value(sh, i, v)), ("remove_value", lambda: m.remove_value(sh, i, v)),
                            ("score_value_group", lambda: m.score_value_group(sh, i, v)), ("remove_group", lambda: m.remove_group(sh, i)),
                            ("getitem", lambda: m[i])):
                cx = "%s mixture.%s(%d) of %d" % (ctx, name, i, n)
                refused("P21:%s:accepted-group:%s" % (c.key, name), f, cx)
                need("P21:%s:changed-group:%s" % (c.key, name), snap() == before, cx)
                R.event("refusals")
        for a in (numpy.zeros(n + 1, numpy.float32), numpy.zeros(n - 1, numpy.float32), numpy.zeros(n, float), numpy.zeros((n, 2), numpy.float32), [0.0] * n, None):
            refused("P21:%s:accepted-array" % c.key, lambda: m.score_value(sh, v, a), "%s into %s" % (ctx, show(a)))
            need("P21:%s:changed-array" % c.key, snap() == before, ctx)
            R.event("refusals")
    # still usable
    v = T.gen_value(r, c.h)
    h2 = c.group()
    h2.merge(sh, g)
    if isinstance(h2.dump(), dict) and T not in (ref.NICH, ref.NIW, ref.GP):
        need("P21:%s:unusable" % c.key, same_dump(h2.dump(), g.dump()), ctx)
    g.add_value(sh, v)


def rss():
    with open("/proc/self/statm") as f:
        return int(f.read().split()[1]) * 4096


def heap():
    """Bytes the C heap has handed out."""
    import ctypes

    class Info(ctypes.Structure):
        _fields_ = [(k, ctypes.c_size_t) for k in ("arena", "ordblks", "smblks", "hblks", "hblkhd", "usmblks", "fsmblks", "uordblks", "fordblks", "keepcost")]
    f = ctypes.CDLL(None).mallinfo2
    f.restype = Info
    i = f()
    return i.uordblks + i.hblkhd


def life(r, T, fl):
    """Makes, uses and drops an object of every class that owns memory outside Python, in several states."""
    raw = T.gen_shared(r)
    if T is ref.BNB:
        raw["alpha"], raw["beta"] = max(raw["alpha"], 1.5), min(raw["beta"], 30.0)
    c = Ctx(r, T, fl, raw)
    sh = c.shared
    g = c.group(gen_data(r, T, c.h, 8))
    g2 = type(g).from_dict(g.dump())
    g2.merge(sh, g)
    g.sample_value(sh)
    c.M.sample_group(sh, 3)
    s = c.M.Sampler()
    s.init(sh, g)
    s.eval(sh)
    for f in (lambda: g.add_value(sh, "x"), lambda: c.M.Shared.from_dict({}), lambda: c.M.Group.from_dict({})):
        raises(f)
    if fl == "lp" and T.mix:
        m = c.M.Mixture()
        for _ in range(3):
            m.append(g)
        m.init(sh)
        m.add_group(sh)
        a = numpy.zeros(len(m), dtype=numpy.float32)
        v = T.gen_value(r, c.h)
        m.score_value(sh, v, a)
        m.add_value(sh, 0, v)
        m[1]
        m.remove_group(sh, 1)
        raises(lambda: m.remove_group(sh, 99))
        raises(lambda: m.score_value(sh, v, a[:1]))
        m.clear()
        c.M.Mixture()
        full = c.M.Mixture()
        full.append(g)
        full.init(sh)
        raises(lambda: full.score_value(sh, "x", a))
    c.M.Group(), c.M.Shared(), c.M.Sampler()
    lc.PitmanYor(), lc.LowEntropy(), lm.MixtureIdTracker(), lr.RNG()
    p = lc.PitmanYor.from_dict({"alpha": 1.0, "d": 0.25})
    d = p.Mixture()
    d.init(p, [2, 1, 0])
    d.add_value(p, 0)
    d.remove_value(p, 0)
    a = numpy.zeros(len(d), dtype=numpy.float32)
    d.score_value(p, a)
    p.sample_assignments(9)
    p.Mixture()
    e = lc.LowEntropy.from_dict({"dataset_size": 20})
    d2 = e.Mixture()
    d2.init(e, [2, 0])
    d2.score_value(e, a[:2])
    e.sample_assignments(9)
    e.score_counts([3, 1])
    e.Mixture()
    raises(lambda: d.add_value(p, 77))
    lc.count_assignments({0: 0, 1: 1})
    q = lr.RNG()
    q.seed(4)
    q.copy()()
    lr.log_sum_exp([1.0, 2.0])
    lr.sample_prob_from_scores([1.0, 2.0])
    lr.sample_pair_from_urn([object(), object(), object()])
    raises(lambda: lr.sample_prob_from_scores([]))
    raises(lambda: lr.sample_discrete(numpy.zeros(0, numpy.float32)))
    t = lm.MixtureIdTracker()
    t.init(2)
    t.add_group()
    t.remove_group(0)
    raises(lambda: t.remove_group(44))


@monitor("P21-memory")
def P21_memory(r):
    for T, fl in PAIRS:
        if fl == "dbg":
            continue
        seed = r.getrandbits(50)
        R.seen(seed)

        def block(n):
            for _ in range(n):
                life(ref_rng(seed), T, fl)
            gc.collect()
        block(3)
        least = None
        for _ in range(5):
            a = heap()
            block(3)
            grown = heap() - a
            least = grown if least is None else min(least, grown)
            if least <= 0:
                break
        R.event("memory_rounds", 6)
        need("P21:python-leak:%s-%s" % (fl, T.name), least <= 0, "the C heap grew by at least %d bytes in every 3 repetitions, seed %d" % (least, seed))


if __name__ == "__main__":
    if sys.argv[1:2] == ["--fresh"]:
        print("FRESH " + json.dumps(fresh(*json.loads(sys.argv[2]))))
        sys.stdout.flush()
        os._exit(0)
    main()
