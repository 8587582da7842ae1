"""P04-P08 over the Python mixtures: lp feature mixtures, lp clustering drivers and the id tracker, singly and driven
together by the protocol of examples/mixture."""
import math

import numpy
from scipy.special import gammaln

from vh import R, Stop, main, monitor, need, need_close, need_law, chisq_p, refused
import ref
from ref import MODELS, TOLS, stats_of, logpred, show, erase_one, eqv, plain
from m_models import Ctx, stat_close, stat_tol, magn, bad_values

MIX = [T for T in MODELS.values() if T.mix and "lp" in T.flavours]


def f32z(n):
    return numpy.zeros(n, dtype=numpy.float32)


class Feature(object):
    """One lp feature mixture next to a list of the rows of every group."""
    def __init__(self, r, pid, T=None):
        self.pid, self.r = pid, r
        self.c = Ctx(r, T or r.pick(MIX), "lp")
        self.T, self.t, self.sh = self.c.T, self.c.t, self.c.shared
        self.m = self.c.M.Mixture()
        self.rows = []
        self.peak = []
        self.K, self.M = 0, 0.0
        self.dyn = self.T is ref.DPD

    @property
    def h(self):
        return self.sh.dump() if self.dyn else self.c.h

    def dump(self, g):
        """A mixture hands out its C level group class, which has no dump; an empty public group takes it over."""
        p = self.c.group()
        p.merge(self.sh, g)
        return plainkeys(p.dump())

    def stats(self, i):
        return self.dump(self.m[i])

    def key(self, s):
        return "%s:lp-%s:%s" % (self.pid, self.T.name, s)

    def value(self):
        r = self.r
        full = [d for d in self.rows if d]
        if full and r.chance(0.3):
            return r.pick(r.pick(full))
        if self.dyn:
            h = self.h
            if r.chance(0.25) and ref.DPD.beta0(h) > 1e-3:
                return r.below(30)
            return self.T.gen_value(r, h)
        return self.T.gen_value(r, self.c.h)

    def populate(self, groups):
        """groups: rows of every group; uses append and init."""
        self.m.clear()
        for d in groups:
            g = self.c.M.Group()
            g.init(self.sh)
            for v in d:
                if self.dyn:
                    self.sh.add_value(v)
                g.add_value(self.sh, v)
                self.M = max(self.M, magn(v))
            self.m.append(g)
        self.m.init(self.sh)
        self.rows = [list(d) for d in groups]
        self.peak = [len(d) for d in groups]

    def move(self):
        """New hyperparameters, all or some of them, for the groups there are."""
        r, old = self.r, self.c.h
        if self.dyn:
            h = self.sh.dump()
            h["alpha"] = ref.f32(h["alpha"] * r.pick([0.3, 2.5] if h["alpha"] < 30 else [0.3]))
        else:
            h = self.T.gen_shared(r)
            if self.T.name == "dd":
                h["alphas"] = [h["alphas"][i % len(h["alphas"])] for i in range(len(old["alphas"]))]
            for k in h:
                if r.chance(0.4):
                    h[k] = old[k]
        self.sh.load(h)
        self.c.h = self.sh.dump()
        self.m.init(self.sh)
        R.event("hyperparameter_moves")

    def add_group(self):
        self.m.add_group(self.sh)
        self.rows.append([])
        self.peak.append(0)

    def remove_group(self, i):
        if self.dyn:
            for v in list(self.rows[i]):
                self.remove(i, v)
        self.m.remove_group(self.sh, i)
        self.rows[i] = self.rows[-1]
        self.rows.pop()
        self.peak[i] = self.peak[-1]
        self.peak.pop()

    def add(self, i, v):
        if self.dyn:
            self.sh.add_value(v)
        self.m.add_value(self.sh, i, v)
        self.rows[i].append(v)
        self.peak[i] = max(self.peak[i], len(self.rows[i]))
        self.M = max(self.M, magn(v))
        self.K += 1

    def remove(self, i, v):
        self.m.remove_value(self.sh, i, v)
        need("harness", erase_one(self.rows[i], v), "no such row")
        if self.dyn:
            self.sh.remove_value(v)
        self.K += 1

    def check_groups(self, ctx):
        need(self.key("group-count"), len(self.m) == len(self.rows), "%s has %d groups, expected %d" % (ctx, len(self.m), len(self.rows)))
        for i, d in enumerate(self.rows):
            want = stats_of(self.T, self.c.h, d)
            stat_close(self.T, self.t, self.stats(i), want, stat_tol(self.T, self.t, want, self.M, self.K + len(d), self.peak[i] + 1),
                       self.key("group-stats"), "%s group %d" % (ctx, i))

    def tol(self, h, st, v):
        return self.T.tol_pred(self.t, h, st, v)

    def expect(self, h, i, v):
        """Exact score of v in group i and its tolerance, from the statistics the group holds."""
        st = self.stats(i)
        if st.get("count_times_variance", 0) < 0:
            return None
        return logpred(self.T, h, st, v), self.T.tol_pred(self.t, h, st, v)

    def check_value(self, v, ctx):
        h, n = self.h, len(self.rows)
        acc = numpy.array([self.r.uniform(-5, 5) for _ in range(n)], dtype=numpy.float32)
        start = acc.astype(float)
        self.m.score_value(self.sh, v, acc)
        need(self.key("vector-length"), len(acc) == n, ctx)
        rebuilt = self.c.M.Mixture()
        for i in range(n):
            rebuilt.append(self.m[i])
        rebuilt.init(self.sh)
        for i in range(n):
            e = self.expect(h, i, v)
            if e is None:
                R.event("nich_negative_ctv")
                continue
            want, tol = e
            cx = "%s value %s group %d of %d %s" % (ctx, show(v), i, n, show(self.stats(i)))
            need_close(self.key("group-score"), self.m.score_value_group(self.sh, i, v), want, tol, cx)
            need_close(self.key("vector-score"), float(acc[i]) - start[i], want, tol + 1e-6 + 1.2e-7 * (abs(want) + 5), cx)
            need_close(self.key("direct-score"), self.m[i].score_value(self.sh, v), want, tol, cx)
            need_close(self.key("rebuilt-score"), rebuilt.score_value_group(self.sh, i, v), want, tol, cx)
            R.event("score_comparisons")

    def check_arrays(self, v, ctx):
        """An accumulator in a form that cannot be filled is refused, not ignored."""
        n = len(self.rows)
        if n < 2:
            return
        ok = f32z(n)
        self.m.score_value(self.sh, v, ok)
        for name, a in (("strided", f32z(2 * n)[::2]), ("reversed", f32z(n)[::-1]), ("slice", f32z(2 * n)[1:n + 1])):
            try:
                self.m.score_value(self.sh, v, a)
            except Exception:
                R.event("arrays_refused")
                continue
            need(self.key("%s-array" % name), numpy.array_equal(a, ok), "%s value %s: %s left in a %s array, expected %s" % (ctx, show(v), a, name, ok))
            R.event("arrays_filled")

    def check_data(self, ctx):
        h = self.h
        want = tol = 0.0
        direct = 0.0
        for i in range(len(self.rows)):
            g = self.m[i]
            st = self.dump(g)
            if st.get("count_times_variance", 0) < 0:
                return R.event("nich_negative_ctv")
            want += self.T.logmarg(h, st)
            tol += self.T.tol_data(self.t, h, st) + 2e-7 * abs(want)
            direct += g.score_data(self.sh)
        got = self.m.score_data(self.sh)
        need_close(self.key("data-score"), got, want, tol + 1e-4, "%s groups %s" % (ctx, show([self.stats(k) for k in range(len(self.m))])))
        need_close(self.key("data-score-sum"), got, direct, tol + 1e-4, ctx)
        R.event("data_scores")
        return got, tol + 1e-4


def plainkeys(d):
    c = d.get("counts")
    if isinstance(c, dict):
        d = dict(d, counts={int(k): v for k, v in c.items() if v})
    return d


# ------------------------------------------------------------------ P04 / P05: one feature
def history(r, pid):
    f = Feature(r, pid)
    n0 = 0 if r.chance(0.1) else r.randint(1, 8)
    if r.chance(0.01) and f.T.name != "dd" or r.chance(0.002):
        n0 = r.randint(40, 140)
        R.event("crowded_mixtures")
    f.populate([[f.value() for _ in range(0 if r.chance(0.3) else r.randint(300, 2000) if r.chance(0.001) else r.randint(1, 6))] for _ in range(n0)])
    log = ["init(%d)" % n0]
    yield f, log, None
    for _ in range(r.randint(3, 20)):
        u, n, v = r.random(), len(f.rows), None
        if u < 0.14 or n == 0:
            f.add_group()
            log.append("add_group")
        elif u < 0.52:
            i, v = r.below(n), f.value()
            f.add(i, v)
            log.append("+%d:%s" % (i, show(v)))
        elif u < 0.78:
            i = r.below(n)
            if not f.rows[i]:
                continue
            v = r.pick(f.rows[i])
            f.remove(i, v)
            log.append("-%d:%s" % (i, show(v)))
        elif u < 0.88:
            i = r.below(n)
            f.remove_group(i)
            log.append("remove_group(%d)" % i)
        elif u < 0.905:
            f.move()
            log.append("move to %s" % show(f.c.h))
        elif u < 0.94:
            # rebuild the same object from other groups
            groups = [f.m[i] for i in range(n)]
            order = list(range(n))
            r.shuffle(order)
            f.m.clear()
            for i in order:
                f.m.append(groups[i])
            f.m.init(f.sh)
            f.rows = [f.rows[i] for i in order]
            f.peak = [f.peak[i] for i in order]
            log.append("clear+append+init")
        else:
            # refused group ids leave everything as it was
            v = f.value() if not f.dyn else f.T.gen_value(r, f.h)
            before = [plain(f.stats(i)) for i in range(n)]
            for bad in (-1, n, n + r.randint(1, 1000), -r.randint(2, 1 << 30), (1 << 31) - 1):
                for what, call in (("add_value", lambda: f.m.add_value(f.sh, bad, v)),
                                   ("remove_value", lambda: f.m.remove_value(f.sh, bad, v)),
                                   ("score_value_group", lambda: f.m.score_value_group(f.sh, bad, v)),
                                   ("remove_group", lambda: f.m.remove_group(f.sh, bad)),
                                   ("getitem", lambda: f.m[bad])):
                    refused("%s:%s-bad-group" % (pid, what), call, "%s %s(%d) of %d groups" % (f.c, what, bad, n))
            for bad in (n + 1, n + r.randint(2, 99), 0 if n else 1):
                refused("%s:score_value-bad-length" % pid, lambda: f.m.score_value(f.sh, v, f32z(bad)), "%s %d groups %d scores" % (f.c, n, bad))
            need("%s:refused-changed-state" % pid, len(f.m) == n and before == [plain(f.stats(i)) for i in range(n)], str(f.c))
            R.event("bad_groups_refused")
            continue
        yield f, log, v


@monitor("P04")
def P04(r):
    for f, log, v in history(r, "P04"):
        ctx = "%s history: %s" % (f.c, " ".join(log)[-700:])
        R.seen(ctx)
        R.event("ops")
        f.check_groups(ctx)
        if v is not None and (not f.dyn or v in f.h["betas"]):
            f.check_value(v, ctx)
        f.check_value(f.T.gen_value(r, f.h), ctx)
    f.check_arrays(f.T.gen_value(r, f.h), ctx)
    R.sample(ctx)


@monitor("P05")
def P05(r):
    for f, log, v in history(r, "P05"):
        if r.chance(0.5):
            ctx = "%s history: %s" % (f.c, " ".join(log)[-700:])
            R.seen(ctx)
            f.check_data(ctx)
    if len(f.rows) >= 2:
        # merged groups: the score of the union
        i, j = r.sample(range(len(f.rows)), 2)
        g, s = f.m[i], f.m[j]
        g.merge(f.sh, s)
        groups = [f.m[k] for k in range(len(f.rows)) if k not in (i, j)] + [g]
        m = f.c.M.Mixture()
        for x in groups:
            m.append(x)
        m.init(f.sh)
        st = [f.dump(x) for x in groups]
        if all(x.get("count_times_variance", 0) >= 0 for x in st):
            h = f.h
            tol = 1e-4 + sum(f.T.tol_data(f.t, h, x) for x in st)
            want = sum(f.T.logmarg(h, x) for x in st)
            need_close(f.key("merged-data-score"), m.score_data(f.sh), want, tol + 1e-6 * abs(want), str(f.c))
            R.event("merged_scores")
    R.sample(str(f.c))


# ------------------------------------------------------------------ P06: clustering drivers
class Driver(object):
    def __init__(self, r, pid, counts, kind=None, room=400):
        import distributions.lp.clustering as lpc
        self.pid, self.r = pid, r
        self.kind = kind or r.pick(["PitmanYor", "LowEntropy"])
        C = getattr(lpc, self.kind)
        if self.kind == "PitmanYor":
            d = 0.0 if r.chance(0.25) else r.uniform(0.01, 0.95)
            self.model = C.from_dict({"alpha": ref.f32(r.logunif(0.05, 50)), "d": ref.f32(d)})
        else:
            self.model = C.from_dict({"dataset_size": sum(counts) + room + r.below(50)})
        self.p = self.model.dump()
        self.m = C.Mixture()
        self.m.init(self.model, list(counts))
        self.counts = list(counts)
        self.E = counts.count(0)

    def __str__(self):
        return "%s %s" % (self.kind, show(self.p))

    def move(self, r):
        p = dict(self.p)
        if self.kind == "LowEntropy":
            p["dataset_size"] += r.below(100)
        else:
            u = r.random()
            if u < 0.7:
                p["alpha"] = ref.f32(r.logunif(0.05, 50))
            if u > 0.4:
                p["d"] = ref.f32(0.0 if r.chance(0.25) else r.uniform(0.01, 0.95))
        self.model.load(p)
        self.p = self.model.dump()
        R.event("hyperparameter_moves")

    def add(self, i):
        want = self.counts[i] == 0
        got = self.m.add_value(self.model, i)
        self.counts[i] += 1
        if want:
            self.counts.append(0)
        need("%s:%s:add-report" % (self.pid, self.kind), bool(got) == want, "%s add_value(%d) returned %r, counts now %s" % (self, i, got, self.counts))
        return got

    def remove(self, i):
        got = self.m.remove_value(self.model, i)
        self.counts[i] -= 1
        want = self.counts[i] == 0
        if want:
            self.counts[i] = self.counts[-1]
            self.counts.pop()
        need("%s:%s:remove-report" % (self.pid, self.kind), bool(got) == want, "%s remove_value(%d) returned %r, counts now %s" % (self, i, got, self.counts))
        return got

    def exact(self, i):
        n, K, N = self.counts[i], len(self.counts) - self.E, sum(self.counts)
        if self.kind == "PitmanYor":
            a, d = self.p["alpha"], self.p["d"]
            return (math.log(n - d) if n else math.log((a + d * K) / self.E)) - math.log(N + a)
        if n:
            return (n + 1) * math.log(n + 1) - n * math.log(n)
        s, D = -math.log(self.E), self.p["dataset_size"]
        if N + 1 < D:
            s += math.log(D / (N + 1.0)) * (0.45 - 0.1 / (N + 1) - 0.1 / D)
        return s

    def check(self, ctx):
        k = "%s:%s:" % (self.pid, self.kind)
        need(k + "size", len(self.m) == len(self.counts), "%s %d groups, expected %s" % (ctx, len(self.m), self.counts))
        want = [i for i, n in enumerate(self.counts) if n == 0]
        need(k + "empty-groups", sorted(self.m.empty_groupids) == want, "%s %s expected %s, counts %s" % (ctx, sorted(self.m.empty_groupids), want, self.counts))
        need(k + "empty-count", len(want) == self.E, "%s %s began with %d" % (ctx, want, self.E))
        if self.kind == "LowEntropy" and sum(self.counts) >= self.p["dataset_size"]:
            return
        s = f32z(len(self.counts))
        self.m.score_value(self.model, s)
        need(k + "score-length", len(s) == len(self.counts), "%s %d scores for %d groups" % (ctx, len(s), len(self.counts)))
        K, N = len(self.counts) - self.E, sum(self.counts)
        for i, n in enumerate(self.counts):
            own = self.model.score_add_value(n, K, N, self.E)
            # two ways to spell the same logarithms, each from a table
            tol = 3e-4 + (2e-4 * n if self.kind == "LowEntropy" else 4e-6 * (1 + abs(own)))
            need_close(k + "own-score", float(s[i]), own, tol, "%s group %d of %s" % (ctx, i, self.counts))
            if self.kind == "PitmanYor" and n:
                tol += 2e-7 * n / max(1e-3, n - self.p["d"])
            need_close(k + "score", float(s[i]), self.exact(i), tol, "%s group %d of %s" % (ctx, i, self.counts))
            R.event("score_checks")
        if self.kind == "PitmanYor":
            need_close(k + "sum-to-one", float(numpy.exp(s.astype(float)).sum()), 1.0, 3e-4, "%s %s" % (ctx, self.counts))
        R.event("states")


def gen_counts(r, most=9):
    if r.chance(0.02):
        R.event("crowds")
        c = [0] * r.randint(1, 40) + [int(r.logunif(100, 3e6)) if r.chance(0.1) else r.randint(1, 5) for _ in range(r.randint(10, 200))]
        r.shuffle(c)
        return c
    if r.chance(0.02):
        R.event("heavy_groups")
        c = [0] * r.randint(1, 3) + [int(r.logunif(100, 3e6)) if r.chance(0.5) else r.randint(1, 4) for _ in range(r.randint(1, 6))]
        r.shuffle(c)
        return c
    c = [0] * r.randint(1, 3) + [r.randint(1, 40) if r.chance(0.3) else r.randint(1, 4) for _ in range(r.below(most))]
    r.shuffle(c)
    return c


def walk(d, pid):
    """the empty groups may be visited while they are being filled"""
    want = [i for i, n in enumerate(d.counts) if n == 0]
    if d.kind == "LowEntropy" and sum(d.counts) + len(want) > d.p["dataset_size"]:
        return
    got = []
    for i in d.m.empty_groupids:
        got.append(i)
        if len(got) > len(want) or i not in want:
            break
        d.add(i)
    need("%s:%s:visit-empty-groups" % (pid, d.kind), sorted(got) == want, "%s groups seen while filling the empty ones %s: %s" % (d, want, got))
    R.event("empty_groups_filled_while_iterating", len(got))


@monitor("P06")
def P06(r):
    d = Driver(r, "P06", gen_counts(r))
    log = ["init(%s)" % d.counts]
    d.check("%s %s" % (d, log))
    for _ in range(r.randint(3, 40)):
        full = [i for i, n in enumerate(d.counts) if n]
        u = r.random()
        if u < 0.5 or not full:
            i = r.below(len(d.counts))
            R.event("groups_created", d.add(i))
            log.append("+%d" % i)
        elif u < 0.95:
            i = r.pick(full)
            if r.chance(0.3):
                i = min(full, key=lambda j: d.counts[j])
            R.event("groups_deleted", d.remove(i))
            log.append("-%d" % i)
        elif u < 0.97:
            if r.chance(0.5):
                d.move(r)   # the hyperparameters have moved; the groups may stay what they were
            c = gen_counts(r) if r.chance(0.6) else d.counts
            if d.kind == "LowEntropy" and sum(c) + 50 > d.p["dataset_size"]:
                break
            d.counts, d.E = c, c.count(0)
            d.m.init(d.model, list(d.counts))
            log.append("init(%s)" % d.counts)
        else:
            n = len(d.counts)
            for bad in (-1, n, n + r.below(1000), -r.randint(2, 1 << 30)):
                refused("P06:bad-group-added", lambda: d.m.add_value(d.model, bad), "%s %d of %d" % (d, bad, n))
                refused("P06:bad-group-removed", lambda: d.m.remove_value(d.model, bad), "%s %d of %d" % (d, bad, n))
            e = r.pick([i for i, c in enumerate(d.counts) if c == 0])
            refused("P06:removed-from-empty", lambda: d.m.remove_value(d.model, e), "%s group %d of %s" % (d, e, d.counts))
            R.event("bad_groups_refused")
        ctx = "%s %s" % (d, " ".join(log)[-500:])
        R.seen(ctx)
        d.check(ctx)
    walk(d, "P06")
    refused("P06:no-empty-group", lambda: type(d.m)().init(d.model, [r.randint(1, 5) for _ in range(r.randint(0, 4))]), str(d))


# ------------------------------------------------------------------ P07: id tracker
class Ids(object):
    def __init__(self, pid, n):
        from distributions.lp.mixture import MixtureIdTracker
        self.pid = pid
        self.t = MixtureIdTracker()
        self.init(n)

    def init(self, n):
        self.t.init(n)
        self.live = list(range(n))
        self.next = n
        self.dead = []

    def add(self):
        self.t.add_group()
        self.live.append(self.next)
        self.next += 1

    def remove(self, i):
        self.t.remove_group(i)
        self.dead.append(self.live[i])
        self.live[i] = self.live[-1]
        self.live.pop()

    def check(self, ctx, r=None):
        for i, g in enumerate(self.live):
            need(self.pid + ":packed-to-global", self.t.packed_to_global(i) == g, "%s packed %d -> %d, expected %d" % (ctx, i, self.t.packed_to_global(i), g))
            need(self.pid + ":global-to-packed", self.t.global_to_packed(g) == i, "%s global %d -> %d, expected %d" % (ctx, g, self.t.global_to_packed(g), i))
            R.event("conversions", 2)
        if r:
            n = len(self.live)
            for p in (n, n + r.below(1000), -1, -r.randint(2, 1 << 30)):
                refused(self.pid + ":bad-packed", lambda: self.t.packed_to_global(p), "%s packed %d of %d" % (ctx, p, n))
                refused(self.pid + ":bad-removed", lambda: self.t.remove_group(p), "%s packed %d of %d" % (ctx, p, n))
            for g in self.dead[-3:] + [self.next, self.next + r.below(1000), -1]:
                refused(self.pid + ":stale-global", lambda: self.t.global_to_packed(g), "%s global %d" % (ctx, g))
                R.event("stale_refused")


@monitor("P07")
def P07(r):
    ids = Ids("P07", r.below(8))
    log = ["init(%d)" % len(ids.live)]
    for _ in range(r.randint(3, 50)):
        u = r.random()
        if u < 0.5 or not ids.live:
            ids.add()
            log.append("+")
        elif u < 0.97:
            i = r.pick([0, len(ids.live) - 1, r.below(len(ids.live))])
            ids.remove(i)
            log.append("-%d" % i)
        else:
            n = r.below(6)
            ids.init(n)
            log.append("init(%d)" % n)
        ctx = " ".join(log)[-500:]
        R.seen(ctx)
        ids.check(ctx, r if r.chance(0.2) else None)


# ------------------------------------------------------------------ P08: all of them together
class Cross(object):
    """The mixture of examples/mixture: a clustering driver, feature mixtures and an id tracker."""
    def __init__(self, r, pid, features, groups, empty, kind=None):
        self.r, self.pid = r, pid
        self.fs = features
        order = list(groups) + [[] for _ in range(empty)]
        r.shuffle(order)
        self.d = Driver(r, pid, [len(g) for g in order], kind)
        self.ids = Ids(pid, len(order))
        for k, f in enumerate(features):
            f.populate([[row[k] for row in g] for g in order])
        self.rows = [list(g) for g in order]
        self.where = {}
        for i, g in enumerate(order):
            for row in g:
                self.where[id(row)] = self.ids.t.packed_to_global(i)

    def scores(self, row):
        s = f32z(1)
        s.resize(len(self.d.m))
        self.d.m.score_value(self.d.model, s)
        for f, v in zip(self.fs, row):
            f.m.score_value(f.sh, v, s)
        return s

    def add(self, i, row):
        self.where[id(row)] = self.ids.t.packed_to_global(i)
        added = self.d.add(i)
        for f, v in zip(self.fs, row):
            f.add(i, v)
        self.rows[i].append(row)
        if added:
            for f in self.fs:
                f.add_group()
            self.ids.add()
            self.rows.append([])

    def remove(self, row):
        i = self.ids.t.global_to_packed(self.where.pop(id(row)))
        mine = [k for k, x in enumerate(self.rows[i]) if x is row]
        need(self.pid + ":assignment-lost", len(mine) == 1, "row %s not in group %d" % (show(row), i))
        removed = self.d.remove(i)
        for f, v in zip(self.fs, row):
            f.remove(i, v)
        del self.rows[i][mine[0]]
        if removed:
            for f in self.fs:
                f.remove_group(i)
            self.ids.remove(i)
            self.rows[i] = self.rows[-1]
            self.rows.pop()

    def check(self, ctx):
        self.d.check(ctx)
        self.ids.check(ctx)
        need(self.pid + ":driver-sizes", self.d.counts == [len(g) for g in self.rows], "%s %s" % (ctx, self.d.counts))
        for k, f in enumerate(self.fs):
            need(self.pid + ":aligned", [len(g) for g in f.rows] == self.d.counts, ctx)
            f.check_groups(ctx)
        for i, g in enumerate(self.rows):
            for row in g:
                need(self.pid + ":assigned", self.where[id(row)] == self.ids.t.packed_to_global(i), ctx)
        R.event("states")

    def check_scores(self, row, ctx):
        got = self.scores(row)
        need(self.pid + ":score-length", len(got) == len(self.rows), ctx)
        for i in range(len(self.rows)):
            want, tol = self.d.exact(i), 4e-4 + 2e-4 * self.d.counts[i]
            for f, v in zip(self.fs, row):
                e = f.expect(f.h, i, v)
                if e is None:
                    break
                want += e[0]
                tol += e[1] + 2e-7 * abs(e[0])
            else:
                need_close(self.pid + ":assignment-score", float(got[i]), want, tol, "%s row %s group %d" % (ctx, show(row), i))
                R.event("score_checks")

    def check_total(self, ctx):
        """The score of the whole state, from scratch."""
        got = want = tol = 0.0
        for f in self.fs:
            x = f.check_data(ctx)
            if x is None:
                return
            got += x[0]
            tol += x[1]
            h = f.h
            for d in f.rows:
                s = stats_of(f.T, f.c.h, d)
                want += f.T.logmarg(h, s)
                tol += (0.02 + 1e-3 * abs(f.T.logmarg(h, s))) if f.T.real or f.T is ref.GP else 1e-6
        need_close(self.pid + ":total-score", got, want, tol, ctx)
        c = [n for n in self.d.counts if n]
        own = self.d.model.score_counts(list(self.d.counts))
        if self.d.kind == "PitmanYor":
            need_close(self.pid + ":partition-score", own, py_logprob(self.d.p, c), 1e-3 + 1e-4 * sum(c) + 1e-5 * abs(own), "%s %s" % (ctx, c))
        R.event("total_scores")

    def scorable(self, row):
        """Values of the dynamic model that nobody holds have no score."""
        return all(not f.dyn or v in f.h["betas"] for f, v in zip(self.fs, row))

    def draw(self, row):
        from distributions.lp.random import sample_prob_from_scores
        from distributions.dbg.random import sample_discrete_log
        s = self.scores(row)
        if self.r.chance(0.5):
            return sample_discrete_log(s)
        return sample_prob_from_scores([float(x) for x in s])[0]


def py_logprob(p, counts):
    a, d = p["alpha"], p["d"]
    x, n = 0.0, 0
    for k, c in enumerate(counts):
        x += math.log(a + d * k)
        x += float(gammaln(c - d) - gammaln(1 - d))
        n += c
    return x - float(gammaln(a + n) - gammaln(a))


def new_row(fs):
    return [f.value() for f in fs]


@monitor("P08")
def P08(r):
    fs = [Feature(r, "P08") for _ in range(r.randint(1, 3))]
    groups = [[new_row(fs) for _ in range(r.randint(1, 4))] for _ in range(r.randint(20, 60) if r.chance(0.01) else r.below(5))]
    x = Cross(r, "P08", fs, groups, r.randint(1, 4))
    name = "%s; %s" % (x.d, "; ".join(str(f.c) for f in fs))
    rows = [row for g in x.rows for row in g]
    log = ["init(%s)" % x.d.counts]
    x.check("%s %s" % (name, log))
    for step in range(r.randint(4, 25)):
        if rows and r.chance(0.45):
            k = r.below(len(rows))
            row = rows.pop(k)
            x.remove(row)
            log.append("-")
            if r.chance(0.5) and x.scorable(row):
                i = x.draw(row)
                x.add(i, row)
                rows.append(row)
                R.event("moves")
                log.append("+%d" % i)
        else:
            row = new_row(fs)
            i = x.draw(row) if x.scorable(row) and r.chance(0.7) else r.below(len(x.rows))
            x.add(i, row)
            rows.append(row)
            log.append("+%d" % i)
        if r.chance(0.08):
            f = r.pick(fs + [None])
            if f:
                f.move()
            else:
                x.d.move(r)
                x.d.m.init(x.d.model, list(x.d.counts))
            name = "%s; %s" % (x.d, "; ".join(str(f.c) for f in fs))
            log.append("hyperparameters")
        ctx = "%s history: %s" % (name, " ".join(log)[-300:])
        R.seen(ctx)
        x.check(ctx)
        if r.chance(0.3):
            probe = [f.T.gen_value(r, f.h) for f in fs]
            x.check_scores(probe, ctx)
        if r.chance(0.2):
            x.check_total(ctx)
    R.sample(ctx)


def partitions(n):
    """Restricted growth strings of length n."""
    out = [[0]]
    for _ in range(n - 1):
        out = [s + [k] for s in out for k in range(max(s) + 2)]
    return out


@monitor("P08-gibbs")
def P08_gibbs(r):
    """Started from the exact posterior over partitions, Gibbs sweeps must stay there."""
    n = r.randint(3, 4)
    kinds = [T for T in MIX if T is not ref.BNB]
    proto = [Feature(r, "P08", r.pick(kinds)) for _ in range(r.randint(1, 2))]
    for f in proto:
        f.c.h
    rows = []
    for _ in range(n):
        row = []
        for f in proto:
            v = f.T.gen_value(r, f.c.h)
            if f.T is ref.NICH:
                v = max(-4.0, min(4.0, v))
            row.append(v)
        rows.append(row)
    states = partitions(n)
    empty = r.randint(1, 3)
    d0 = Driver(r, "P08", [0], "PitmanYor")
    lp = []
    for s in states:
        gs = [[rows[i] for i in range(n) if s[i] == k] for k in range(max(s) + 1)]
        x = py_logprob(d0.p, [len(g) for g in gs])
        for k, f in enumerate(proto):
            for g in gs:
                x += f.T.logmarg(f.c.h, stats_of(f.T, f.c.h, [row[k] for row in g]))
        lp.append(x)
    lp = numpy.array(lp)
    p = numpy.exp(lp - lp.max())
    p /= p.sum()
    name = "%s; %s; rows %s" % (d0, "; ".join(str(f.c) for f in proto), show(rows))
    R.seen(name)
    R.sample(name)
    for f in proto:
        f.dyn = False      # no value is ever dropped: the rows' values are known throughout

    def pvalue(scale):
        counts = numpy.zeros(len(states))
        m = int(250 * scale)
        starts = numpy.random.choice(len(states), size=m, p=p)
        for s0 in starts:
            s = states[s0]
            gs = [[rows[i] for i in range(n) if s[i] == k] for k in range(max(s) + 1)]
            for f in proto:
                f.m, f.rows, f.peak, f.K = f.c.M.Mixture(), [], [], 0
            x = Cross(r, "P08", proto, gs, empty, "PitmanYor")
            x.d.model.load(d0.p)
            x.d.p = d0.p
            x.d.m.init(x.d.model, list(x.d.counts))
            for _ in range(2):
                for row in rows:
                    x.remove(row)
                    x.add(x.draw(row), row)
                    R.event("gibbs_moves")
            label, out = {}, []
            for row in rows:
                out.append(label.setdefault(x.where[id(row)], len(label)))
            counts[states.index(out)] += 1
        return chisq_p(counts, p)

    need_law("P08:gibbs-frequencies", pvalue, name)


if __name__ == "__main__":
    main()
