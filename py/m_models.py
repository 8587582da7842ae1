"""P01, P02, P03, P13, P16, P22 over every model in every Python flavour."""
import json
import math
import warnings

import numpy
import scipy.stats
from scipy.special import gammaln

from vh import R, Stop, close, main, monitor, need, need_close, need_law, ks_p, chisq_p, refused, raises, seed_all
import ref
from ref import MODELS, TOLS, OTHER, copy_stats, stats_of, logpred, show, same_dump, plain, gen_data, gen_size, eqv, erase_one

# (model, flavour) pairs; the flavours whose arithmetic only exists in Python come up more often
PAIRS = []
for _T in MODELS.values():
    for _f in _T.flavours:
        PAIRS += [(_T, _f)] * (2 if _f != "lp" else 1)


class Ctx(object):
    """One model in one flavour with hyperparameters loaded and read back."""
    def __init__(self, r, T=None, fl=None, raw=None):
        if T is None:
            T, fl = r.pick(PAIRS)
        self.T, self.fl, self.t = T, fl, TOLS[fl]
        self.M = ref.module(T, fl)
        raw = raw or T.gen_shared(r)
        self.shared = self.M.Shared.from_dict(raw)
        self.h = self.shared.dump()
        self.key = "%s-%s" % (fl, T.name)
        self.raw = raw

    def group(self, data=()):
        return self.M.Group.from_values(self.shared, data)

    def __str__(self):
        return "%s %s" % (self.key, show(self.h))


def stat_close(T, t, got, want, tol, key, ctx):
    """Compares two exported statistics; integers exactly."""
    need(key, set(got) == set(want), "%s fields %s vs %s" % (ctx, sorted(got), sorted(want)))
    for k in want:
        if k in ("mean", "count_times_variance", "log_prod"):
            need_close(key, got[k], want[k], tol[k], "%s statistic %s of %s" % (ctx, k, show(got)))
        elif k in ("sum_x", "sum_xxT"):
            g, w = numpy.asarray(got[k], dtype=float), numpy.asarray(want[k], dtype=float)
            need(key, g.shape == w.shape and (numpy.abs(g - w) <= tol[k]).all(),
                 "%s statistic %s %s expected %s tol %.3g" % (ctx, k, show(g), show(w), tol[k]))
        elif k == "counts":
            g, w = got[k], want[k]
            if isinstance(w, dict):
                need(key, isinstance(g, dict) and {int(a): int(b) for a, b in g.items()} == {a: b for a, b in w.items() if b},
                     "%s counts %s expected %s" % (ctx, show(g), show(w)))
            else:
                need(key, list(map(int, g)) == list(w), "%s counts %s expected %s" % (ctx, show(g), show(w)))
        else:
            need(key, got[k] == want[k], "%s %s = %r expected %r" % (ctx, k, got[k], want[k]))


def stat_tol(T, t, s, M, K, Nmax):
    n = ref.size(T, s)
    E = t.EPS
    return {
        "log_prod": (1e-3 if t.lp else 1e-9) + K * (t.LGT(M + 1) + E * Nmax * float(gammaln(M + 2)) * 2),
        "mean": 4 * E * (M + 1e-3) * (K + 2) * (2 + Nmax / max(1.0, n)),
        "count_times_variance": 16 * E * (M * M + 1e-3) * (K + 4) * (Nmax + 2),
        "sum_x": 8 * E * (M * M + M + 1e-3) * (Nmax + 2) * (K + 2),
        "sum_xxT": 8 * E * (M * M + M + 1e-3) * (Nmax + 2) * (K + 2),
    }


def magn(v):
    return float(numpy.max(numpy.abs(numpy.asarray(v, dtype=float))))


def nonneg(T, s):
    c = s.get("counts")
    if c is None:
        return True
    return all(x >= 0 for x in (c.values() if isinstance(c, dict) else c))


# ------------------------------------------------------------------ P01
def history(r, c, H, nops, debt, depth):
    T, h, sh = c.T, c.h, c.shared
    for _ in range(nops):
        u = r.random()
        H["K"] += 1
        g, data = H["g"], H["data"]
        if u < 0.45:
            v = r.pick(data) if data and r.chance(0.4) else T.gen_value(r, h)
            g.add_value(sh, v)
            data.append(v)
            T.add(H["net"], v)
            H["M"] = max(H["M"], magn(v))
            H["log"].append("+%s" % show(v))
        elif u < 0.58:
            v = r.pick(data) if data and r.chance(0.4) else T.gen_value(r, h)
            k = r.randint(6, 40) if r.chance(0.1) else r.randint(1, 5)
            g.add_repeated_value(sh, v, count=k)
            data.extend([v] * k)
            T.add(H["net"], v, k)
            H["M"] = max(H["M"], magn(v))
            H["K"] += k  # the rounding of one is multiplied
            H["ops"].add("r")
            H["log"].append("+%s*%d" % (show(v), k))
        elif u < 0.85:
            if debt and r.chance(0.4):
                v = T.gen_value(r, h)
                g.remove_value(sh, v)
                T.add(H["net"], v, -1)
                if not erase_one(data, v):
                    H["ops"].add("d")
                H["log"].append("-%s!" % show(v))
            elif data:
                v = r.pick(data)
                g.remove_value(sh, v)
                erase_one(data, v)
                T.add(H["net"], v, -1)
                if not data:
                    H["ops"].add("e")
                H["log"].append("-%s" % show(v))
        elif u < 0.95 and depth:
            S = new_hist(c)
            H["log"].append("merge{")
            history(r, c, S, 0 if r.chance(0.25) else r.randint(1, 8), debt, 0)
            H["log"] += S["log"] + ["}"]
            before = plain(S["g"].dump())
            g.merge(sh, S["g"])
            need("P01:%s:merge-changes-source" % c.key, plain(S["g"].dump()) == before,
                 "%s source %s became %s" % (c, show(before), show(S["g"].dump())))
            data.extend(S["data"])
            if "counts" in H["net"]:
                n2 = S["net"]["counts"]
                for v, k in (n2.items() if isinstance(n2, dict) else enumerate(n2)):
                    T.add(H["net"], v, k)
            else:
                for v in S["data"]:
                    T.add(H["net"], v)
            H["M"] = max(H["M"], S["M"])
            H["K"] += S["K"]
            H["ops"] |= S["ops"] | {"m"}
        elif depth:
            # go on with a copy made through the dump; the original must not follow
            copy = c.M.Group.from_dict(g.dump())
            before = plain(g.dump())
            v = T.gen_value(r, h)
            copy.add_value(sh, v)
            need("P01:%s:copy-linked" % c.key, plain(g.dump()) == before,
                 "%s original %s became %s after a change to its copy" % (c, show(before), show(g.dump())))
            copy.remove_value(sh, v)
            H["M"] = max(H["M"], magn(v))
            H["g"] = copy
            H["ops"].add("c")
            H["log"].append("copy")
        H["N"] = max(H["N"], len(H["data"]))
        R.event("ops")


def new_hist(c):
    g = c.M.Group()
    g.init(c.shared)
    return dict(g=g, data=[], net=c.T.zero(c.h), M=0.0, K=0, N=0, ops=set(), log=[])


def net_data(T, s, data):
    c = s.get("counts")
    if c is None:
        return list(data)
    return [v for v, k in (c.items() if isinstance(c, dict) else enumerate(c)) for _ in range(k)]


@monitor("P01")
def P01(r):
    ref.BIG[0] = r.chance(0.05)
    c = Ctx(r)
    T, t, h, sh = c.T, c.t, c.h, c.shared
    H = new_hist(c)
    debt = T.debt and r.chance(0.3)
    for _ in range(r.randint(1, 3)):
        history(r, c, H, r.randint(25, 90) if r.chance(0.07) else r.randint(1, 18), debt, 1)
        ctx = "%s history %s" % (c, " ".join(H["log"])[:1500])
        tag = "".join(sorted(H["ops"])) or "add-remove"
        got = H["g"].dump()
        indebt = not nonneg(T, H["net"])
        want = H["net"] if "counts" in H["net"] else stats_of(T, h, H["data"])
        tol = stat_tol(T, t, want, H["M"], H["K"], H["N"])
        stat_close(T, t, got, want, tol, "P01:%s:stats:%s" % (c.key, tag), ctx)
        R.event("states")
        R.seen(ctx)
        if indebt:
            R.event("debt_states")
            continue
        data = net_data(T, want, H["data"])
        r.shuffle(data)
        f = c.group(data)
        fs = f.dump()
        stat_close(T, t, got, fs, tol, "P01:%s:stats-vs-fresh:%s" % (c.key, tag), ctx)
        if got.get("count_times_variance", 0) < 0:
            R.event("nich_negative_ctv")
            continue
        drift = abs(T.logmarg(h, got) - T.logmarg(h, fs))
        need_close("P01:%s:score_data:%s" % (c.key, tag), H["g"].score_data(sh), f.score_data(sh), drift + 2 * T.tol_data(t, h, fs), ctx)
        for _ in range(2):
            v = r.pick(data) if data and r.chance(0.4) else T.gen_value(r, h)
            dr = abs(logpred(T, h, got, v) - logpred(T, h, fs, v))
            need_close("P01:%s:score_value:%s" % (c.key, tag), H["g"].score_value(sh, v), f.score_value(sh, v),
                       dr + 2 * T.tol_pred(t, h, fs, v), "%s value %s" % (ctx, show(v)))
            R.event("score_comparisons")
        R.sample(ctx)
    if debt:
        # debt is repaid: adding what is owed gives the group of the remaining observations
        cur = H["g"].dump()["counts"]
        for v, k in list(cur.items() if isinstance(cur, dict) else enumerate(cur)):
            for _ in range(-k):
                H["g"].add_value(sh, v)
                T.add(H["net"], v)
        got = H["g"].dump()
        ctx = "%s debt history %s" % (c, " ".join(H["log"])[:1500])
        stat_close(T, t, got, H["net"], {}, "P01:%s:debt-stats" % c.key, ctx)
        need_close("P01:%s:debt-score_data" % c.key, H["g"].score_data(sh), T.logmarg(h, H["net"]), 2 * T.tol_data(t, h, H["net"]), ctx)
        v = T.gen_value(r, h)
        need_close("P01:%s:debt-score_value" % c.key, H["g"].score_value(sh, v), logpred(T, h, H["net"], v),
                   2 * T.tol_pred(t, h, H["net"], v), ctx)
        R.event("debt_repaid")


# Very large multiplicities and merges of very large groups, which no loop over single observations reaches.
@monitor("P01-offset")
def P01_offset(r):
    """Data far from zero compared with their spread: the variance may not drown in the rounding of squares."""
    T = MODELS["nich"]
    c = Ctx(r, T, r.pick(T.flavours))
    eps = 1.2e-7 if c.t.lp else 2.3e-16
    unit = 1.0 if r.chance(0.5) else r.logunif(1e-3, 1e3)
    mean = unit * r.logunif(30, 3000 if c.t.lp else 1e7) * r.pick([1, -1])

    def draw():
        v = mean + unit * max(-4.0, min(4.0, r.gauss(0, 1)))
        return float(numpy.float32(v)) if c.t.lp else v

    groups, datas, log, K, peak = [], [], [], 4, 1
    for q in range(r.randint(1, 2)):
        g, data = c.group(), []
        groups.append(g)
        datas.append(data)
        for _ in range(r.randint(20, 100) if r.chance(0.1) else r.randint(2, 15)):
            K += 1
            if data and r.chance(0.3):
                v = data.pop(r.randrange(len(data)))
                g.remove_value(c.shared, v)
                log.append("%s-%r" % ("ab"[q], v))
            else:
                v, k = draw(), 1 if not data or r.chance(0.8) else r.randint(2, 4)
                if k == 1:
                    g.add_value(c.shared, v)
                else:
                    g.add_repeated_value(c.shared, v, count=k)
                data += [v] * k
                log.append("%s+%r*%d" % ("ab"[q], v, k))
            peak = max(peak, sum(map(len, datas)))
    g, data = groups[0], datas[0]
    if len(groups) == 2 and datas[1]:
        g.merge(c.shared, groups[1])
        data += datas[1]
        log.append("merged")
        R.event("offset_merges")
        for _ in range(min(len(data), r.randint(0, 3))):
            v = data.pop(r.randrange(len(data)))
            g.remove_value(c.shared, v)
            log.append("-%r" % v)
            K += 1
    ctx = "%s offset history (mean %r spread %r) %s" % (c.key, mean, unit, " ".join(log))
    R.seen(ctx)
    R.sample(ctx)
    got, n = g.dump(), len(data)
    need("P01:%s:offset-count" % c.key, got["count"] == n, "%s count %r expected %d" % (ctx, got["count"], n))
    m = math.fsum(data) / n if n else 0.0
    ctv = math.fsum((v - m) ** 2 for v in data)
    off = eps * (abs(mean) + 4 * unit) * math.sqrt(K) * peak / max(1.0, n)
    need_close("P01:%s:offset-mean" % c.key, got["mean"], m, 8 * off, ctx)
    need_close("P01:%s:offset-variance" % c.key, got["count_times_variance"], ctv, 8 * off * unit * math.sqrt(K * peak), ctx)
    if n > 1:
        R.event("offset_states")


@monitor("P01-bulk")
def P01_bulk(r):
    ref.BIG[0] = r.chance(0.05)
    c = Ctx(r)
    T, t, h, sh = c.T, c.t, c.h, c.shared
    pairs, log, M, n, K = [], [], 0.0, 0, 1
    groups = []
    for q in range(r.randint(1, 2)):
        g = c.M.Group()
        g.init(sh)
        for _ in range(r.randint(1, 3)):
            v = r.pick(pairs)[0] if pairs and r.chance(0.4) else T.gen_value(r, h)
            k = (1 << r.randint(5, 16)) + r.randint(-1, 1) if r.chance(0.3) else int(r.logunif(40, 70000))
            if not T.real:
                k = max(1, min(k, int(4e8 / (1 + magn(v)))))  # sums are 32-bit
            g.add_repeated_value(sh, v, count=k)
            pairs.append((v, k))
            log.append("%s+%s*%d" % ("ab"[q], show(v), k))
            M, n, K = max(M, magn(v)), n + k, K + 1
        groups.append(g)
    g = groups[0]
    if len(groups) == 2:
        g.merge(sh, groups[1])
        log.append("merged")
        R.event("bulk_merges")
    v = pairs[0][0]
    g.remove_value(sh, v)
    pairs.append((v, -1))
    net = T.zero(h)
    for v, k in pairs:
        T.add(net, v, k)
    ctx = "%s bulk history %s" % (c, " ".join(log))
    R.seen(ctx)
    R.sample(ctx)
    got = g.dump()
    tol = stat_tol(T, t, net, M, K, n)
    tol["log_prod"] = 1e-3 + (n + K) * t.LGT(M + 1) + t.EPS * n * K * float(gammaln(M + 2)) * 2
    stat_close(T, t, got, net, tol, "P01:%s:bulk-stats" % c.key, ctx)
    R.event("bulk_states")
    if T.name == "niw" or got.get("count_times_variance", 0) < 0:
        return
    ulp = 4e-15 * (n + 100) * math.log(n + 100)  # the marginals are of this order
    need_close("P01:%s:bulk-score_data" % c.key, g.score_data(sh), T.logmarg(h, got), 2 * T.tol_data(t, h, got) + ulp, ctx)
    v = r.pick(pairs)[0]
    need_close("P01:%s:bulk-score_value" % c.key, g.score_value(sh, v), logpred(T, h, got, v), 2 * T.tol_pred(t, h, got, v) + ulp, "%s value %s" % (ctx, show(v)))


# ------------------------------------------------------------------ P02
@monitor("P02")
def P02(r):
    ref.BIG[0] = r.chance(0.05)
    c = Ctx(r)
    T, t, h, sh = c.T, c.t, c.h, c.shared
    d = gen_data(r, T, h, gen_size(r))
    g = c.group(d)
    st = g.dump()
    before = plain(st)
    raw = stats_of(T, h, d)
    ctx = "%s data %s" % (c, show(d))
    R.seen(ctx)
    R.sample(ctx)
    for _ in range(4):
        v = r.pick(d) if d and r.chance(0.4) else T.gen_value(r, h)
        cx = "%s value %s" % (ctx, show(v))
        got = g.score_value(sh, v)
        kern, tol = logpred(T, h, st, v), T.tol_pred(t, h, st, v)
        want = kern
        if T is ref.BNB:
            want = kern + T.log_base(h, v)
            if not close(got, want, tol) and close(got, kern, tol):
                R.violation("P02:bnb:missing-binomial-coefficient", cx)
                R.failed_case = False
                want = kern
        need_close("P02:%s:score_value" % c.key, got, want, tol, cx)
        need_close("P02:%s:score_value-raw" % c.key, kern, logpred(T, h, raw, v),
                   (0.02 + 0.02 * abs(kern) if c.fl == "lp" and (T.real or T is ref.GP) else 1e-6 * (1 + abs(kern))), cx)
        if c.fl == "lp" and T.mix:
            m = c.M.Mixture()
            m.append(g)
            m.init(sh)
            need_close("P02:%s:mixture-group" % c.key, m.score_value_group(sh, 0, v), want, tol, cx)
            acc = numpy.zeros(1, dtype=numpy.float32)
            m.score_value(sh, v, acc)
            need_close("P02:%s:mixture-vector" % c.key, acc[0], want, tol, cx)
        if hasattr(c.M.Shared, "plus_group"):
            # the posterior as hyperparameters: an empty group under it scores the same
            post = sh.plus_group(g)
            e = c.M.Group()
            e.init(post)
            need_close("P02:%s:plus_group" % c.key, e.score_value(post, v), want, 2 * tol + 1e-9, cx)
        R.event("predictive_comparisons")
    need("P02:%s:scoring-changed-group" % c.key, plain(g.dump()) == before, ctx)
    if T.discrete:
        s = sum(math.exp(g.score_value(sh, v)) for v in T.support(h))
        need_close("P02:%s:sum-to-one" % c.key, s, 1.0, 4e-4 if c.fl == "lp" else 1e-5, ctx)
        R.event("normalisations")


# ------------------------------------------------------------------ P03
@monitor("P03")
def P03(r):
    ref.BIG[0] = r.chance(0.05)
    c = Ctx(r)
    T, t, h, sh = c.T, c.t, c.h, c.shared
    d = gen_data(r, T, h, gen_size(r, 40))
    ctx = "%s data %s" % (c, show(d))
    R.seen(ctx)
    R.sample(ctx)
    e = c.group()
    need_close("P03:%s:empty-score" % c.key, e.score_data(sh), 0.0, T.tol_data(t, h, T.zero(h)), ctx)
    first = None
    for perm in range(2):
        g = c.group()
        chain = tol = 0.0
        for v in d:
            s = g.dump()
            chain += g.score_value(sh, v)
            tol += T.tol_pred(t, h, s, v)
            g.add_value(sh, v)
            R.event("chain_terms")
        st = g.dump()
        td, got = T.tol_data(t, h, st), g.score_data(sh)
        need_close("P03:%s:closed-form" % c.key, got, T.logmarg(h, st), td, ctx)
        need_close("P03:%s:chain-rule" % c.key, got, chain, td + tol, ctx)
        wr = T.logmarg(h, stats_of(T, h, d))
        need_close("P03:%s:closed-form-raw" % c.key, got, wr,
                   td + (0.02 + 1e-3 * abs(wr) if c.fl == "lp" and (T.real or T is ref.GP) else 1e-7 * (1 + abs(wr))), ctx)
        if perm:
            need_close("P03:%s:order" % c.key, got, first, 2 * td + (1e-3 if t.lp else 1e-9) * (1 + abs(got)), ctx)
        first = got
        r.shuffle(d)
        R.event("joint_scores")
    bad = bad_values(r, T, h)
    for v in bad:
        st = plain(g.dump())
        refused("P03:%s:bad-value-scored" % c.key, lambda: g.score_value(sh, v), "%s value %s" % (ctx, show(v)))
        refused("P03:%s:bad-value-added" % c.key, lambda: g.add_value(sh, v), "%s value %s" % (ctx, show(v)))
        need("P03:%s:bad-value-changed-group" % c.key, plain(g.dump()) == st, "%s value %s" % (ctx, show(v)))
        R.event("bad_values_refused")


def bad_values(r, T, h):
    if T is ref.DD:
        n = len(h["alphas"])
        return [n, -1, n + r.randint(1, 1000), -r.randint(2, 300)]
    if T is ref.DPD:
        v = r.below(0x7fffffff)
        return [x for x in (v, max(h["betas"]) + 1 if max(h["betas"]) < 0x7ffffffe else v) if x not in h["betas"]]
    return []


# ------------------------------------------------------------------ P13
def cdf(T, h, s, x, u):
    """Randomised probability integral transform of one value under the exact predictive; None if outside the support."""
    if T is ref.BB:
        a, b = h["alpha"] + s["heads"], h["beta"] + s["tails"]
        p = a / (a + b)
        return 1 - p + u * p if x else u * (1 - p)
    if T is ref.DD:
        w = numpy.array(h["alphas"], dtype=float) + numpy.array(s["counts"])
        w /= w.sum()
        return float(w[:x].sum() + u * w[x])
    if T is ref.DPD:
        n = h["alpha"] + sum(s["counts"].values())
        lo = 0.0
        for v in sorted(h["betas"]):
            p = (h["alpha"] * h["betas"][v] + s["counts"].get(v, 0)) / n
            if v == x:
                return lo + u * p
            lo += p
        return lo + u * (1 - lo)
    if T is ref.GP:
        A, B = h["alpha"] + s["sum"], h["inv_beta"] + s["count"]
        D = scipy.stats.nbinom
        lo = D.cdf(x - 1, A, B / (B + 1)) if x > 0 else 0.0
        return float(lo + u * D.pmf(x, A, B / (B + 1)))
    if T is ref.BNB:
        A, B, q = h["alpha"] + h["r"] * s["count"], h["beta"] + s["sum"], h["r"]
        k = numpy.arange(0, min(x, 200000) + 1, dtype=float)
        lp = (gammaln(k + q) - gammaln(q) - gammaln(k + 1) + gammaln(A + q) + gammaln(B + k) - gammaln(A + B + q + k)
              - gammaln(A) - gammaln(B) + gammaln(A + B))
        p = numpy.exp(lp)
        if x >= 200000:
            return float(p.sum())
        return float(p[:-1].sum() + u * p[-1])
    if T is ref.NICH:
        mu, ka, ss, nu = T.post(h, s)
        return float(scipy.stats.t.cdf((x - mu) / math.sqrt(ss * (1 + ka) / ka), nu))
    raise AssertionError(T)


def niw_post(h, s):
    d, n = len(h["mu"]), s["count"]
    ka, nu = h["kappa"] + n, h["nu"] + n
    mu = (h["kappa"] * h["mu"] + s["sum_x"]) / ka
    dof = nu - d + 1
    return mu, ref.NIW.psi_post(h, s) * (ka + 1) / (ka * dof), dof


def valid(T, h, x):
    if T is ref.BB:
        return x in (True, False)
    if T is ref.DD:
        return isinstance(x, (int, numpy.integer)) and 0 <= x < len(h["alphas"])
    if T is ref.DPD:
        return x in h["betas"] or (x in (OTHER, -1) and T.beta0(h) > 0)
    if T in (ref.GP, ref.BNB):
        return isinstance(x, (int, numpy.integer)) and x >= 0
    return bool(numpy.isfinite(x).all())


P13_PAIRS = [(T, f) for T, f in PAIRS]


def transform(c, r, s, x, a=None):
    T, h = c.T, c.h
    need("P13:%s:support" % c.key, valid(T, h, x), "%s drew %r" % (c, x))
    if T is ref.NIW:
        mu, S, dof = niw_post(h, s)
        x = numpy.asarray(x, dtype=float)
        z = x - mu
        if a is None:  # Mahalanobis distance
            d = len(mu)
            return float(scipy.stats.f.cdf(float(z.dot(numpy.linalg.solve(S, z))) / d, d, dof))
        return float(scipy.stats.t.cdf(float(a.dot(z)) / math.sqrt(float(a.dot(S).dot(a))), dof))
    return cdf(T, h, s, x, r.random())


def singular(c, draw):
    """Draws, again when (rarely) single precision cannot factorise the covariance drawn on the way."""
    if c.T is not ref.NIW or c.fl != "lp":
        return draw()
    while True:
        try:
            xs = draw()
            if all(numpy.isfinite(x).all() for x in (xs if isinstance(xs, list) else [xs])):
                return xs
        except RuntimeError:
            xs = None
        c.singular = getattr(c, "singular", 0) + 1
        if c.singular > 2:
            return xs
        failed = R.failed_case
        R.violation("P13:niw:singular-draw", "%s drew %r" % (c, xs))
        R.failed_case = failed
        R.event("singular_draws")


@monitor("P13")
def P13(r):
    T, fl = r.pick(P13_PAIRS)
    raw = T.gen_shared(r)
    if T is ref.BNB:
        raw["alpha"], raw["beta"] = max(raw["alpha"], 1.5), min(raw["beta"], 30.0)
    if T is ref.NICH:
        raw["nu"] = max(raw["nu"], 0.5)
    if T is ref.DD and len(raw["alphas"]) > 40:
        raw["alphas"] = raw["alphas"][:40]
    c = Ctx(r, T, fl, raw)
    h, sh = c.h, c.shared
    data = gen_data(r, T, h, r.pick([0, 0, 1, 3, 8, 20]))
    st0 = stats_of(T, h, data)
    g = c.group(data)
    before = plain(g.dump())
    ctx = "%s data %s" % (c, show(data))
    R.seen(ctx)
    R.sample(ctx)
    mode = r.pick(["fresh", "fresh", "sampler", "prior", "group"])
    n0 = 150
    direction = numpy.array([r.gauss(0, 1) for _ in h["mu"]]) if T is ref.NIW and r.chance(0.6) else None
    if mode == "fresh":
        def p(scale):
            us = [transform(c, r, st0, singular(c, lambda: g.sample_value(sh)), direction) for _ in range(n0 * scale)]
            R.event("fresh_draws", n0 * scale)
            return ks_p(us)
    else:
        # sequences from one sampler (or one sampled group): exchangeable with the marginal likelihood as joint law
        L = 3 if T is not ref.DD else 4
        start = copy_stats(T.zero(h) if mode in ("prior", "group") else st0)

        def draw():
            if mode == "group":
                return c.M.sample_group(sh, L)
            s = c.M.Sampler()
            if mode == "prior" and fl != "lp":
                s.init(sh)
            else:
                s.init(sh, c.group() if mode == "prior" else g)
            return [s.eval(sh) for _ in range(L)]

        def p(scale):
            us = []
            for _ in range(60 * scale):
                xs = singular(c, draw)
                need("P13:%s:length" % c.key, len(xs) == L, "%s asked for %d got %d" % (ctx, L, len(xs)))
                s = copy_stats(start)
                for x in xs:
                    us.append(transform(c, r, s, x, direction))
                    if T is ref.DPD and x in (OTHER, -1):
                        break
                    T.add(s, x)
            R.event("sequence_draws", len(us))
            return ks_p(us)
    need_law("P13:%s:%s" % (c.key, mode), p, ctx)
    if mode == "group":
        need("P13:%s:empty-group" % c.key, list(c.M.sample_group(sh, 0)) == [], ctx)
    need("P13:%s:sampling-changed-group" % c.key, plain(g.dump()) == before, ctx)


# ------------------------------------------------------------------ P16
def message(T, kind):
    from distributions.io import schema_pb2
    return getattr(getattr(schema_pb2, T.NAME), kind)()


def np_arrays(T, d):
    """JSON gives lists and string keys back; turn them into what load takes."""
    d = dict(d)
    for k in ("mu", "psi", "sum_x", "sum_xxT"):
        if k in d and T is ref.NIW:
            d[k] = numpy.array(d[k])
    for k in ("betas", "counts"):
        if k in d and T is ref.DPD:
            d[k] = {int(a): b for a, b in d[k].items()}
    return d


def check_same(r, c, key, sh2, g2, g, ctx, exact):
    """A reloaded (shared, group) is the original one."""
    T, h, t = c.T, c.h, c.t
    need(key + ":shared-dump", same_dump(sh2.dump(), c.shared.dump()) if exact else dump_close(T, sh2.dump(), c.shared.dump()),
         "%s : %s vs %s" % (ctx, show(sh2.dump()), show(c.shared.dump())))
    need(key + ":group-dump", same_dump(g2.dump(), g.dump()) if exact else dump_close(T, g2.dump(), g.dump()),
         "%s : %s vs %s" % (ctx, show(g2.dump()), show(g.dump())))
    s = g.dump()
    # the score is a difference of terms of the order n log n, and not always summed in the same order
    n = max(abs(float(ref.size(T, s))) * (h["r"] if T is ref.BNB else 1), float(s.get("sum", 0)))
    td = 2e-6 * (1 + abs(g.score_data(c.shared))) + 8 * t.EPS * n * math.log(n + 3) if exact else T.tol_data(TOLS["lp"], h, s)
    def same(k, got, want, tol, detail):
        if math.isnan(got) and math.isnan(want) or T is ref.NIW and not tol < 1e6:
            return R.event("beyond_float")   # data beyond the reach of single precision
        need_close(k, got, want, tol, detail)
    same(key + ":score_data", g2.score_data(sh2), g.score_data(c.shared), td + 1e-12, ctx)
    for _ in range(2):
        v = T.gen_value(r, h)
        tp = 0.0 if exact else T.tol_pred(TOLS["lp"], h, s, v)
        same(key + ":score_value", g2.score_value(sh2, v), g.score_value(c.shared, v), tp + 1e-12, "%s value %s" % (ctx, show(v)))
    R.event("reloads")


def dump_close(T, a, b):
    """Equal up to single-precision storage."""
    a, b = plain(a), plain(b)
    if set(a) != set(b):
        return False

    def cl(x, y):
        if isinstance(x, dict):
            return set(x) == set(y) and all(cl(x[k], y[k]) for k in x)
        if isinstance(x, list):
            return len(x) == len(y) and all(cl(i, j) for i, j in zip(x, y))
        return abs(x - y) <= 3e-7 * abs(y) + 1e-37
    return all(cl(a[k], b[k]) for k in a)


def other_contents(r, c):
    """A shared and a group of the same class with quite different contents."""
    raw = c.T.gen_shared(r)
    sh = c.M.Shared.from_dict(raw)
    g = c.M.Group.from_values(sh, gen_data(r, c.T, sh.dump(), r.randint(0, 12)))
    return sh, g


def aliases(r, c, key, x, m, m2, y, ctx):
    """The deprecated names do what the new ones do, and warn."""
    if not hasattr(x, "dump_protobuf"):
        return
    with warnings.catch_warnings(record=True) as caught:
        warnings.simplefilter("always")
        x.dump_protobuf(m)
        x.protobuf_dump(m2)
        y.load_protobuf(m2)
    need(key + ":dump_protobuf", m == m2 or dump_close(c.T, type(x).from_protobuf(m), x.dump()), ctx)
    need(key + ":load_protobuf", dump_close(c.T, y.dump(), x.dump()), "%s : %s" % (ctx, show(y.dump())))
    need(key + ":deprecation", [w for w in caught if "dump_protobuf" in str(w.message)] and
         [w for w in caught if "load_protobuf" in str(w.message)], ctx)
    R.event("deprecated_aliases")


def scramble(raw):
    """changes in place everything inside a dumped dictionary"""
    for k in list(raw):
        v = raw[k]
        if isinstance(v, dict):
            v[12345] = 1
        elif isinstance(v, list):
            v.append(1)
        elif isinstance(v, numpy.ndarray):
            v.fill(-7)
        raw[k] = None


@monitor("P16")
def P16(r):
    c = Ctx(r)
    T, fl = c.T, c.fl
    h, sh = c.h, c.shared
    ref.BIG[0] = r.chance(0.05)
    g = c.group(gen_data(r, T, h, gen_size(r, 30)))
    if r.chance(0.1):
        v = T.gen_value(r, h)
        g.add_repeated_value(sh, v, count=max(1, int(min(r.logunif(30, 70000), 4e8 / (1 + (0 if T.real else magn(v)))))))
        R.event("bulk_groups")
    if g.dump().get("count_times_variance", 0) < 0:
        return
    ctx = "%s group %s" % (c, show(g.dump()))
    R.seen(ctx)
    R.sample(ctx)
    key = "P16:%s" % c.key
    # dictionaries, into new objects and into used ones
    check_same(r, c, key + ":dict", c.M.Shared.from_dict(sh.dump()), c.M.Group.from_dict(g.dump()), g, ctx, True)
    sh2, g2 = other_contents(r, c)
    sh2.load(sh.dump())
    g2.load(g.dump())
    check_same(r, c, key + ":dict-reload", sh2, g2, g, ctx, True)
    # through JSON text
    js, jg = json.loads(json.dumps(plain(sh.dump()))), json.loads(json.dumps(plain(g.dump())))
    check_same(r, c, key + ":json", c.M.Shared.from_dict(np_arrays(T, js)), c.M.Group.from_dict(np_arrays(T, jg)), g, ctx, True)
    # the dump is a snapshot
    d1 = g.dump()
    snap = plain(d1)
    v = T.gen_value(r, h)
    g.add_value(sh, v)
    need(key + ":dump-is-live", plain(d1) == snap, "%s the dumped dictionary followed the group" % ctx)
    g3 = c.M.Group.from_dict(d1)
    g3.add_value(sh, v)
    need(key + ":continues", dump_close(T, g3.dump(), g.dump()) or T.real or T is ref.GP, "%s : %s vs %s" % (ctx, show(g3.dump()), show(g.dump())))
    need(key + ":load-keeps-reference", plain(d1) == snap, "%s a loaded group changed the dictionary it came from" % ctx)
    # neither object lives on in the dictionaries it was dumped to or loaded from
    for what, o, cls in (("group", g, c.M.Group), ("shared", sh, c.M.Shared)):
        before = plain(o.dump())
        scramble(o.dump())
        need(key + ":dump-shares-%s" % what, plain(o.dump()) == before, "%s : the %s changed with the dictionary it was dumped to, %s before, %s after" % (ctx, what, before, show(o.dump())))
        raw = o.dump()
        o2 = cls.from_dict(raw)
        before = plain(o2.dump())
        scramble(raw)
        need(key + ":load-shares-%s" % what, plain(o2.dump()) == before, "%s : the %s changed with the dictionary it was loaded from, %s before, %s after" % (ctx, what, before, show(o2.dump())))
    # protobuf
    if hasattr(c.M.Shared, "protobuf_dump"):
        m = message(T, "Shared")
        sh.protobuf_dump(m)
        need(key + ":message-incomplete", m.IsInitialized(), "%s %s" % (ctx, m))
        m = type(m).FromString(m.SerializeToString())
        sh2, g2 = other_contents(r, c)
        sh2.protobuf_load(m)
        g2.load(g.dump())
        check_same(r, c, key + ":protobuf-shared", sh2, g2, g, ctx, fl == "lp")
        # dumping replaces what the message held, and the class-level converters agree
        m2 = message(T, "Shared")
        other_contents(r, c)[0].protobuf_dump(m2)
        m2 = m2 if hasattr(m2, "Clear") else m2
        sh.protobuf_dump(m2)
        need(key + ":protobuf-dump-keeps-old", dump_close(T, c.M.Shared.from_protobuf(m2), sh.dump()),
             "%s : message %s" % (ctx, str(m2)[:500]))
        m3 = message(T, "Shared")
        c.M.Shared.to_protobuf(sh.dump(), m3)
        need(key + ":to_protobuf", m3 == m2 or dump_close(T, c.M.Shared.from_protobuf(m3), sh.dump()), ctx)
        aliases(r, c, key + ":shared", sh, message(T, "Shared"), message(T, "Shared"), other_contents(r, c)[0], ctx)
        R.event("protobuf_shared")
    if hasattr(c.M.Group, "protobuf_dump"):
        m = message(T, "Group")
        g.protobuf_dump(m)
        need(key + ":message-incomplete", m.IsInitialized(), "%s %s" % (ctx, m))
        m = type(m).FromString(m.SerializeToString())
        g2 = other_contents(r, c)[1]
        g2.protobuf_load(m)
        need(key + ":protobuf-group", dump_close(T, g2.dump(), g.dump()), "%s : %s vs %s" % (ctx, show(g2.dump()), show(g.dump())))
        v = T.gen_value(r, h)
        need_close(key + ":protobuf-group-score", g2.score_value(sh, v), g.score_value(sh, v), T.tol_pred(TOLS["lp"], h, g.dump(), v), ctx)
        m2 = message(T, "Group")
        c.M.Group.to_protobuf(g.dump(), m2)
        need(key + ":group-to_protobuf", dump_close(T, c.M.Group.from_protobuf(m2), g.dump()), ctx)
        aliases(r, c, key + ":group", g, message(T, "Group"), message(T, "Group"), other_contents(r, c)[1], ctx)
        R.event("protobuf_group")
    # other flavours read what this one writes
    for o in T.flavours:
        if o == fl:
            continue
        M2 = ref.module(T, o)
        sh2, g2 = M2.Shared.from_dict(sh.dump()), M2.Group.from_dict(g.dump())
        check_same(r, c, key + ":to-" + o, sh2, g2, g, ctx, False) if ok_scores(c, g) else None
        if hasattr(M2.Shared, "protobuf_load") and hasattr(c.M.Shared, "protobuf_dump"):
            m = message(T, "Shared")
            sh.protobuf_dump(m)
            sh3 = M2.Shared()
            sh3.protobuf_load(m)
            need(key + ":protobuf-to-" + o, dump_close(T, sh3.dump(), sh.dump()), "%s : %s" % (ctx, show(sh3.dump())))
        R.event("interchanges")
    malformed(r, c, sh, g, key, ctx)


def ok_scores(c, g):
    return g.dump().get("count_times_variance", 0) >= 0


def malformed(r, c, sh, g, key, ctx):
    """Messages and dictionaries which do not describe an object are refused."""
    T = c.T
    d = sh.dump()
    k = r.pick(sorted(d))
    bad = {a: b for a, b in d.items() if a != k}
    refused(key + ":missing-field", lambda: c.M.Shared.from_dict(bad), "%s without %s" % (ctx, k))
    gd = g.dump()
    k2 = r.pick(sorted(gd))
    refused(key + ":missing-group-field", lambda: c.M.Group.from_dict({a: b for a, b in gd.items() if a != k2}), "%s without %s" % (ctx, k2))
    if T is ref.DD and c.fl != "dbg":
        refused(key + ":too-many-dimensions", lambda: c.M.Shared.from_dict({"alphas": [1.0] * 257}), ctx)
        refused(key + ":too-many-dimensions-group", lambda: c.M.Group.from_dict({"counts": [1] * 257}), ctx)
        s, h2, many = c.M.Shared.from_dict(d), c.M.Group.from_dict(gd), r.randint(257, 600)
        refused(key + ":too-many-dimensions", lambda: s.load({"alphas": [1.0] * many}), ctx)
        refused(key + ":too-many-dimensions-group", lambda: h2.load({"counts": [1] * many}), ctx)
        need(key + ":unusable-after-refusal", len(s.dump()["alphas"]) <= 256 and len(h2.dump()["counts"]) <= 256, "%s after a refused load of %d dimensions: %d, %d" % (ctx, many, len(s.dump()["alphas"]), len(h2.dump()["counts"])))
    if T is ref.DPD:
        m = message(T, "Shared")
        sh.protobuf_dump(m)
        field = r.pick(["values", "betas", "counts"])
        if len(m.values) and r.chance(0.5):
            del getattr(m, field)[-1]
        else:
            getattr(m, field).append({"values": 77, "betas": 0.0, "counts": 1}[field])
        refused(key + ":mismatched-lengths", lambda: c.M.Shared().protobuf_load(m), "%s after changing the length of %s" % (ctx, field))
        m = message(T, "Group")
        if hasattr(g, "protobuf_dump"):
            g.protobuf_dump(m)
            field = r.pick(["keys", "values"])
            if len(m.keys) and r.chance(0.5):
                del getattr(m, field)[-1]
            else:
                getattr(m, field).append(5)
            refused(key + ":mismatched-group-lengths", lambda: c.M.Group().protobuf_load(m), "%s after changing the length of %s" % (ctx, field))
    if T is ref.DPD and c.fl == "dbg":
        m = message(T, "Shared")
        sh.protobuf_dump(m)
        m.betas[0] = -0.25
        refused(key + ":negative-weight", lambda: c.M.Shared().protobuf_load(m), ctx)
    if T is ref.NIW:
        bad = dict(sh.dump())
        n = len(bad["mu"])
        if c.fl == "dbg":
            bad["psi"] = numpy.eye(n + 1)
            refused(key + ":wrong-matrix-size", lambda: c.M.Shared.from_dict(bad), ctx)
        m = message(T, "Shared")
        sh.protobuf_dump(m)
        m.psi.append(1.0)
        refused(key + ":wrong-matrix-size-message", lambda: c.M.Shared().protobuf_load(m), ctx)
        if hasattr(g, "protobuf_dump"):
            m = message(T, "Group")
            g.protobuf_dump(m)
            m.sum_xxT.append(1.0)
            refused(key + ":wrong-group-matrix-size-message", lambda: c.M.Group().protobuf_load(m), ctx)
    R.event("malformed_refused")


# ------------------------------------------------------------------ P22
SHARED_API = ["from_dict", "load", "dump", "add_value", "remove_value", "realize"]
GROUP_API = ["from_dict", "from_values", "init", "load", "dump", "add_value", "add_repeated_value", "remove_value", "merge",
             "score_value", "score_data", "sample_value"]


def interface(T):
    mods = [(f, ref.module(T, f)) for f in T.flavours]
    names = {m.NAME for _, m in mods}
    need("P22:%s:NAME" % T.name, names == {T.NAME}, "%s" % names)
    for f, m in mods:
        for a in ("NAME", "EXAMPLES", "Value", "Shared", "Group", "Sampler", "sample_group"):
            need("P22:%s-%s:interface" % (f, T.name), hasattr(m, a), "no attribute %s" % a)
        for cls, api in ((m.Shared, SHARED_API), (m.Group, GROUP_API), (m.Sampler, ["init", "eval"])):
            for a in api:
                need("P22:%s-%s:interface" % (f, T.name), callable(getattr(cls, a, None)), "%s lacks %s" % (cls, a))
    need("P22:%s:Value" % T.name, len({m.Value for _, m in mods}) == 1, "%s" % [m.Value for _, m in mods])
    R.event("interfaces")


@monitor("P22")
def P22(r):
    ref.BIG[0] = r.chance(0.05)
    T = r.pick(list(MODELS.values()))
    interface(T)
    fls = list(T.flavours)
    r.shuffle(fls)
    c = Ctx(r, T, fls[0])
    C = [c] + [Ctx(r, T, f, c.raw) for f in fls[1:]]
    ctx = "%s %s" % (T.name, show(c.raw))
    for o in C[1:]:
        need("P22:%s:shared-dump" % T.name, dump_close(T, o.shared.dump(), c.shared.dump()),
             "%s : %s %s vs %s %s" % (ctx, o.fl, show(o.shared.dump()), c.fl, show(c.shared.dump())))
    G = [x.group() for x in C]
    data, log, Mx, K = [], [], 0.0, 0
    for _ in range(r.randint(1, 25)):
        u = r.random()
        K += 1
        if u < 0.5 or not data:
            v, k = T.gen_value(r, c.h), 1
            for x, g in zip(C, G):
                g.add_value(x.shared, v)
            data.append(v)
            log.append("+%s" % show(v))
        elif u < 0.65:
            v, k = T.gen_value(r, c.h), r.randint(1, 6)
            if r.chance(0.02) and T.name not in ("niw", "bnb"):
                k = int(r.logunif(100, 30000))
                R.event("heavy_groups")
            for x, g in zip(C, G):
                g.add_repeated_value(x.shared, v, k)
            data += [v] * k
            log.append("+%s*%d" % (show(v), k))
        elif u < 0.85:
            v = r.pick(data)
            for x, g in zip(C, G):
                g.remove_value(x.shared, v)
            erase_one(data, v)
            log.append("-%s" % show(v))
        elif u < 0.95:
            d = gen_data(r, T, c.h, r.below(5))
            for x, g in zip(C, G):
                g.merge(x.shared, x.group(d))
            data += d
            v = d[0] if d else 0
            for y in d:
                Mx = max(Mx, magn(y))
            log.append("merge%s" % show(d))
        else:
            # statistics change flavour
            d = [g.dump() for g in G]
            r.shuffle(d)
            if all(i.get("count_times_variance", 0) >= 0 for i in d):
                G = [x.M.Group.from_dict(i) for x, i in zip(C, d)]
            log.append("swap")
            v = 0
        Mx = max(Mx, magn(v))
    hist = "%s history %s" % (ctx, " ".join(log)[:1500])
    R.seen(hist)
    R.sample(hist)
    st = [g.dump() for g in G]
    want = stats_of(T, c.h, data)
    tol = stat_tol(T, TOLS["lp"], want, Mx, K + len(data), len(data) + 5)
    for x, s in zip(C, st):
        stat_close(T, TOLS["lp"], s, want, tol, "P22:%s:stats" % x.key, hist)
    if any(s.get("count_times_variance", 0) < 0 for s in st):
        return
    R.event("histories")
    # scores: each flavour at its own statistics, so that only its formula counts, then against one another
    vals = [T.gen_value(r, c.h) for _ in range(3)]
    if T is ref.DPD and T.beta0(c.h) > 1e-3:
        vals.append(OTHER)
    for v in vals:
        sc = [g.score_value(x.shared, v) for x, g in zip(C, G)]
        for i in range(1, len(C)):
            drift = abs(logpred(T, C[i].h, st[i], v) - logpred(T, c.h, st[0], v))
            tol = T.tol_pred(C[i].t, C[i].h, st[i], v) + T.tol_pred(c.t, c.h, st[0], v)
            need_close("P22:%s:score_value:%s-%s" % ((T.name,) + tuple(sorted((c.fl, C[i].fl)))), sc[i], sc[0], tol + drift + 1e-12,
                       "%s value %s" % (hist, show(v)))
        R.event("score_comparisons")
    sd = [g.score_data(x.shared) for x, g in zip(C, G)]
    for i in range(1, len(C)):
        drift = abs(T.logmarg(C[i].h, st[i]) - T.logmarg(c.h, st[0]))
        tol = T.tol_data(C[i].t, C[i].h, st[i]) + T.tol_data(c.t, c.h, st[0])
        need_close("P22:%s:score_data:%s-%s" % ((T.name,) + tuple(sorted((c.fl, C[i].fl)))), sd[i], sd[0], tol + drift + 1e-12, hist)
    if len([f for f in fls if f != "lp"]) > 1:
        # the double-precision flavours agree to rounding
        a, b = [i for i, f in enumerate(fls) if f != "lp"][:2]
        if same_dump(st[a], st[b]):
            need_close("P22:%s:score_data-double" % T.name, sd[a], sd[b], 1e-9 * (1 + abs(sd[a])) + T.tol_data(TOLS["dbg"], c.h, st[a]), hist)
    for v in bad_values(r, T, c.h):
        acc = []
        for x, g in zip(C, G):
            acc.append(not raises(lambda: g.score_value(x.shared, v)))
        need("P22:%s:accepts" % T.name, len(set(acc)) == 1, "%s value %s accepted by %s" % (hist, show(v), [x.fl for x, a in zip(C, acc) if a]))
        R.event("bad_values")
    # plus_group where offered
    pg = [(x, plain(x.shared.plus_group(g).dump())) for x, g in zip(C, G) if hasattr(x.M.Shared, "plus_group")]
    for x, d in pg[1:]:
        need("P22:%s:plus_group" % T.name, dump_close(T, d, pg[0][1]), "%s : %s %s vs %s %s" % (hist, x.fl, show(d), pg[0][0].fl, show(pg[0][1])))


if __name__ == "__main__":
    main()
