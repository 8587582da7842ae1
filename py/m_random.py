"""P11, P12, P14 over the Python layers: dbg.random, hp.random, lp.random, lp.special."""
import itertools
import logging
import math
from math import exp, log

import numpy
import scipy.special
import scipy.stats
from scipy.special import gammaln

from vh import R, main, monitor, need, need_close, need_law, refused, chisq_p, ks_p, seed_all
from ref import f32

import distributions.dbg.random as dbg
import distributions.hp.random as hp
import distributions.lp.random as lp
import distributions.lp.special as lps
from distributions.dbg.models.nich import score_student_t as nich_student_t

logging.disable(logging.CRITICAL)
M = 2147483647
INV = pow(16807, M - 2, M)


def state_before(target, calls=1):
    """A seed whose calls-th next stream output is target."""
    return target * pow(INV, calls, M) % M


def f32s(xs):
    return [f32(x) for x in xs]


# ------------------------------------------------------------------ P11
def gen_scores(r, single):
    if single and r.chance(0.02):   # one leader, and a crowd that counts only together
        R.event("crowded_vectors")
        behind, n = r.uniform(8, 13.4), int(r.logunif(1500, 20000))
        s = [f32(-behind + r.uniform(-0.1, 0.1)) for _ in range(n)]
        s[r.below(n)] = 0.0
        return s
    n = 1 if r.chance(0.1) else r.randint(2, 12) if r.chance(0.8) else r.randint(13, 300)
    style = r.below(5)
    shift = 0 if r.chance(0.5) else r.uniform(-200, 200) if r.chance(0.6) else r.uniform(-1, 1) * r.logunif(1e3, 1e6)
    s = []
    for i in range(n):
        x = (0, r.uniform(-3, 3), r.uniform(-30, 0), -0.3 * i, r.pick([-1e6, 0, -1, -60]))[style]
        s.append(f32(x + shift) if single else x + shift)
    return s


def exact(s):
    m = max(s)
    w = [exp(x - m) for x in s]
    return m + log(sum(w)), [x / sum(w) for x in w]


def brief(xs):
    return "%s%s" % (["%.6g" % x for x in xs[:14]], "... %d" % len(xs) if len(xs) > 14 else "")


def frequencies(r, key, draw, p, ctx, n=1500):
    def law(scale):
        obs = [0] * len(p)
        for i in range(n * scale):
            if i % 500 == 0:
                seed_all(r.randint(1, 10 ** 9))
            k = draw()
            if not 0 <= k < len(p):
                return 0.0
            obs[k] += 1
        return chisq_p(obs, p)
    need_law(key, law, ctx)
    R.event("frequency_tests")


class Forced(object):
    """numpy.random.rand() gives one chosen value first."""
    def __init__(self, value):
        self.value = value

    def __enter__(self):
        self.rand = numpy.random.rand
        numpy.random.rand = self

    def __exit__(self, *a):
        numpy.random.rand = self.rand

    def __call__(self, *shape):
        if self.value is None or shape:
            return self.rand(*shape)
        v, self.value = self.value, None
        return v


@monitor("P11")
def P11(r):
    # lp: scores
    s = gen_scores(r, True)
    n = len(s)
    lse, p = exact(s)
    ctx = "scores " + brief(s)
    R.seen(ctx)
    R.sample(ctx)
    big = max(abs(x) for x in s)
    tol = 2e-4 + 3e-7 * n + 1.5e-7 * big
    arg = list(s)
    need_close("P11:lp:log_sum_exp", lp.log_sum_exp(arg), lse, tol, ctx)
    for i in r.sample(range(n), min(n, 5)):
        need_close("P11:lp:prob_from_scores", lp.prob_from_scores(i, arg), p[i], (2e-4 + 1e-6 * n) * p[i] + 1e-30, "%s at %d" % (ctx, i))
    need("P11:lp:argument-changed", arg == s, ctx)
    for i in (n, n + r.below(50), -1, -r.randint(1, 1000)):
        refused("P11:lp:prob_from_scores-index", lambda: lp.prob_from_scores(i, arg), "%s at %d" % (ctx, i))
    R.event("value_checks", 6)
    for _ in range(6):
        hp.seed(state_before(r.pick([1 + r.below(40), M - 1 - r.below(200), 1 + r.below(M - 1)]), r.pick([1, 1, 2])))
        out = lp.sample_prob_from_scores(arg)
        need("P11:lp:sample_prob_from_scores:index", 0 <= out[0] < n and int(out[0]) == out[0], "%s drew %r" % (ctx, out))
        need_close("P11:lp:sample_prob_from_scores:prob", out[1], p[out[0]], (2e-4 + 1e-6 * n) * p[out[0]] + 1e-30, "%s drew %r" % (ctx, out))
        R.event("forced_states")
    need("P11:lp:argument-changed", arg == s, ctx)
    if n <= 1000 and r.chance(0.3):
        frequencies(r, "P11:lp:sample_prob_from_scores:frequencies", lambda: lp.sample_prob_from_scores(arg)[0], p, ctx, 4000)
    refused("P11:lp:empty", lambda: lp.sample_prob_from_scores([]))
    refused("P11:lp:empty", lambda: lp.prob_from_scores(0, []))

    # lp: probabilities, any memory layout
    w = [0.0 if r.chance(0.25) else exp(r.uniform(-20, 0)) if r.chance(0.3) else r.uniform(0.01, 5) for _ in range(n)]
    if not any(w):
        w[r.below(n)] = 1.0
    q = numpy.array(w, dtype=numpy.float64) / sum(w)
    base = q.astype(numpy.float32)
    layout = r.pick(["plain", "strided", "reversed", "readonly", "offset"])
    if layout == "strided":
        wide = numpy.full((n, r.randint(2, 4)), r.pick([0.0, 1.0, 0.5]), dtype=numpy.float32)
        wide[:, 0] = base
        arr = wide[:, 0]
    elif layout == "reversed":
        arr = base[::-1].copy()[::-1]
    elif layout == "offset":
        arr = numpy.concatenate([numpy.ones(3, numpy.float32), base, numpy.ones(3, numpy.float32)])[3:-3]
    else:
        arr = base.copy()
        if layout == "readonly" and r.chance(0.5):
            arr = arr.copy()
    ctx = "%s probs %s" % (layout, brief(list(q)))
    R.seen(ctx)
    for _ in range(12):
        cut = sum(q[:r.below(n + 1)])
        t = r.pick([1 + r.below(40), M - 1 - r.below(200), 1 + r.below(M - 1), min(M - 1, max(1, int(cut * (M - 2)) + r.randint(-300, 300)))])
        hp.seed(state_before(t))
        k = lp.sample_discrete(arr)
        need("P11:lp:sample_discrete:index", 0 <= k < n, "%s drew %r, stream output %d" % (ctx, k, t))
        need("P11:lp:sample_discrete:impossible", base[k] > 0, "%s drew %r, stream output %d" % (ctx, k, t))
        R.event("forced_states")
    need("P11:lp:argument-changed", numpy.array_equal(arr, base), ctx)
    if r.chance(0.3):
        frequencies(r, "P11:lp:sample_discrete:frequencies", lambda: lp.sample_discrete(arr), list(q), ctx, 4000)
    refused("P11:lp:empty", lambda: lp.sample_discrete(numpy.zeros(0, numpy.float32)))
    refused("P11:lp:wrong-type", lambda: lp.sample_discrete(q), "float64 probabilities")

    # dbg
    d = gen_scores(r, False)
    m = len(d)
    _, dp = exact(d)
    arg = list(d)
    ctx = "dbg scores " + brief(d)
    for u in (0.0, 1 - 2.0 ** -53, r.random(), sum(dp[:r.below(m + 1)]), numpy.nextafter(min(1.0, sum(dp[:r.below(m + 1)])), 0)):
        if not 0 <= u < 1:
            continue
        with Forced(float(u)):
            k = dbg.sample_discrete_log(arg)
        need("P11:dbg:sample_discrete_log:index", 0 <= k < m and dp[k] >= 0, "%s drew %r at %r" % (ctx, k, u))
        need("P11:dbg:sample_discrete_log:impossible", dp[k] > 0, "%s drew %r at %r" % (ctx, k, u))
        R.event("forced_states")
    need("P11:dbg:argument-changed", arg == d, ctx)
    scale = r.pick([1.0, 1.0, 0.001, 7.0])
    dw = [x * scale for x in w]
    form = r.pick([list, tuple, numpy.array])
    total = None if r.chance(0.5) else sum(dw)
    ctx2 = "dbg weights %s total %r" % (brief(dw), total)
    for u in (0.0, 1 - 2.0 ** -53, r.random(), sum(dw[:r.below(n + 1)]) / sum(dw)):
        if not 0 <= u < 1:
            continue
        with Forced(float(u)):
            k = dbg.sample_discrete(form(dw), total)
        need("P11:dbg:sample_discrete:index", 0 <= k < n, "%s drew %r at %r" % (ctx2, k, u))
        need("P11:dbg:sample_discrete:impossible", dw[k] > 0, "%s drew %r at %r" % (ctx2, k, u))
        R.event("forced_states")
    u = r.random()
    if r.chance(0.15):
        frequencies(r, "P11:dbg:sample_discrete_log:frequencies", lambda: dbg.sample_discrete_log(d), dp, ctx)
    if r.chance(0.15):
        frequencies(r, "P11:dbg:sample_discrete:frequencies", lambda: dbg.sample_discrete(dw, total), list(q), ctx2)
    refused("P11:dbg:empty", lambda: dbg.sample_discrete([]))
    refused("P11:dbg:empty", lambda: dbg.sample_discrete_log([]))
    refused("P11:dbg:all-zero", lambda: dbg.sample_discrete([0.0] * r.randint(1, 4)))

    # urns of any objects
    k = r.randint(0, 9)
    urn = [r.pick([object(), i, "s%d" % i, (i,), [i], None, 10 ** 30 + i, float(i)]) for i in range(k)]
    if k < 2:
        refused("P11:lp:urn-too-small", lambda: lp.sample_pair_from_urn(urn))
    else:
        pos = {}
        urn = [x if x is not None else object() for x in urn]
        for i, x in enumerate(urn):
            pos[id(x)] = i
        if len(pos) == k:
            def pair():
                a, b = lp.sample_pair_from_urn(urn)
                need("P11:lp:urn:foreign", id(a) in pos and id(b) in pos and a is not b, "urn %r drew %r %r" % (urn, a, b))
                return pos[id(a)] * k + pos[id(b)]
            pp = [0.0 if i == j else 1.0 / (k * (k - 1)) for i in range(k) for j in range(k)]
            if r.chance(0.3):
                frequencies(r, "P11:lp:urn:frequencies", pair, pp, "urn of %d" % k, 3000)
            else:
                for _ in range(20):
                    pair()
            R.event("urns")


# ------------------------------------------------------------------ P12
def law(r, key, ctx, one, n=1500, close=0):
    """one(push) draws once and pushes uniform transforms; with `close`, now and then that many draws."""
    if close and r.chance(0.04):
        n = close
        R.event("close_looks")
    def p(scale):
        u = []
        for i in range(n * scale):
            if i % 500 == 0:
                seed_all(r.randint(1, 10 ** 9))
            one(u.append)
        R.event("draws", len(u))
        return ks_p(u)
    R.seen(key + ctx)
    R.sample(key + " " + ctx)
    need_law(key + ":law", p, ctx)


def spd(r, n):
    a = numpy.random.randn(n, n)
    return (a.dot(a.T) + 0.7 * numpy.eye(n)) * r.logunif(0.2, 5)


def push_wishart(key, w, scale, nu, push, ctx, inverse=False, only=None):
    """Bartlett's decomposition: chi-square diagonals of falling degrees, normals below; `only` one of its rows, or all."""
    top = abs(w).max()
    need(key + ":spd", numpy.allclose(w, w.T, rtol=1e-9, atol=1e-9 * top) and numpy.linalg.eigvalsh((w + w.T) / 2).min() > -1e-9 * top,
         "%s drew %s" % (ctx, w.tolist()))
    if numpy.linalg.cond(w) > 1e7:
        R.event("ill_conditioned")
        return
    if inverse:
        w = numpy.linalg.inv((w + w.T) / 2)
    L = numpy.linalg.cholesky(scale)
    Y = numpy.linalg.solve(L, w)
    A = numpy.linalg.solve(L, Y.T)
    T = numpy.linalg.cholesky((A + A.T) / 2)
    for i in range(len(T)) if only is None else [only]:
        push(scipy.stats.chi2.cdf(T[i, i] ** 2, nu - i))
        if only is not None and only % 2 == 0:
            continue
        for j in range(i):
            push(scipy.special.ndtr(T[i, j]))


def push_normal(x, mu, cov, push):
    z = numpy.linalg.solve(numpy.linalg.cholesky(cov), x - mu)
    for v in z:
        push(scipy.special.ndtr(v))


def discrete_pit(r, dist, k, push):
    lo, hi = (dist.cdf(k - 1) if k > 0 else 0.0), dist.cdf(k)
    push(lo + (hi - lo) * r.random())


class Table(object):
    """Distribution function of a counting law, cached."""
    def __init__(self, dist):
        self.dist, self.c = dist, {}

    def cdf(self, k):
        if k not in self.c:
            self.c[k] = float(self.dist.cdf(k))
        return self.c[k]


def c_normal(r):
    mu, var = r.uniform(-1, 1) * r.logunif(0.1, 100), r.logunif(1e-3, 1e3)
    fl = r.pick(["hp", "dbg"])
    f = hp.sample_normal if fl == "hp" else dbg.sample_normal
    sd = math.sqrt(var)
    law(r, "P12:%s:normal" % fl, "mean %r variance %r" % (mu, var), lambda push: push(scipy.special.ndtr((f(mu, var) - mu) / sd)),
        2000 if fl == "hp" else 300, 60000)


def c_chisq(r):
    nu = r.logunif(0.2, 200)
    fl = r.pick(["hp", "dbg"])
    f = hp.sample_chisq if fl == "hp" else dbg.sample_chi2

    def one(push):
        x = f(nu)
        need("P12:%s:chisq:sign" % fl, x >= 0, x)
        push(scipy.special.gammainc(nu / 2, x / 2))
    law(r, "P12:%s:chisq" % fl, "nu %r" % nu, one, 2000 if fl == "hp" else 300, 60000)


def c_gamma(r):
    a, b = r.logunif(0.1, 200), r.logunif(1e-2, 1e2)
    fl = r.pick(["hp", "dbg"])
    f = hp.sample_gamma if fl == "hp" else dbg.sample_gamma

    def one(push):
        x = f(a, b)
        need("P12:%s:gamma:sign" % fl, x >= 0, x)
        push(scipy.special.gammainc(a, x / b))
    law(r, "P12:%s:gamma" % fl, "shape %r scale %r" % (a, b), one, 2000, 60000)


def c_poisson(r):
    mean = r.logunif(1e-2, 3e4)
    fl = r.pick(["hp", "dbg"])
    f = hp.sample_poisson if fl == "hp" else dbg.sample_poisson
    t = Table(scipy.stats.poisson(mean))

    def one(push):
        k = f(mean)
        need("P12:%s:poisson:range" % fl, k >= 0 and k == int(k), k)
        discrete_pit(r, t, int(k), push)
    law(r, "P12:%s:poisson" % fl, "mean %r" % mean, one, close=60000)


def c_nb(r):
    p, n = r.uniform(0.05, 0.98), r.randint(1, 40)
    t = Table(scipy.stats.nbinom(n, p))

    def one(push):
        k = dbg.sample_negative_binomial(p, n)
        need("P12:dbg:negative_binomial:range", isinstance(k, int) and k >= 0, repr(k))
        discrete_pit(r, t, k, push)
    law(r, "P12:dbg:negative_binomial", "p %r r %r" % (p, n), one, 400, 60000)


def c_bernoulli(r):
    p = r.pick([0, 1, 0.0, 1.0]) if r.chance(0.3) else r.random()

    def one(push):
        k = dbg.sample_bernoulli(p)
        need("P12:dbg:bernoulli:value", k is True or k is False, repr(k))
        need("P12:dbg:bernoulli:certain", not (p == 0 and k) and not (p == 1 and not k), "p %r drew %r" % (p, k))
        push(1 - p + p * r.random() if k else (1 - p) * r.random())
    law(r, "P12:dbg:bernoulli", "p %r" % p, one, 400)


def c_beta(r):
    a, b = r.logunif(0.1, 100), r.logunif(0.1, 100)

    def one(push):
        x = dbg.sample_beta(a, b)
        need("P12:dbg:beta:range", 0 <= x <= 1, x)
        push(scipy.special.betainc(a, b, x))
    law(r, "P12:dbg:beta", "alpha %r beta %r" % (a, b), one)


def c_dirichlet(r):
    n = r.randint(2, 10)
    a = [r.logunif(0.1, 20) for _ in range(n)]
    sub = r.sample(range(n), r.randint(1, n - 1))
    sa = sum(a[i] for i in sub)

    def one(push):
        x = dbg.sample_dirichlet(a)
        need("P12:dbg:dirichlet:simplex", len(x) == n and min(x) >= 0 and abs(sum(x) - 1) < 1e-9, list(x))
        R.event("simplexes")
        push(scipy.special.betainc(sa, sum(a) - sa, min(1.0, sum(x[i] for i in sub))))
    law(r, "P12:dbg:dirichlet", "alphas %s subset %s" % (brief(a), sub), one, 600)


def c_student(r):
    n = r.randint(1, 4)
    nu, mu, S = r.logunif(0.5, 60), numpy.random.randn(n) * 3, spd(r, n)
    which = r.pick(["radius", "direction"])
    L = numpy.linalg.cholesky(S)

    def one(push):
        x = dbg.sample_student_t(nu, mu, S)
        need("P12:dbg:student_t:shape", numpy.shape(x) == (n,), repr(x))
        z = numpy.linalg.solve(L, x - mu)
        if which == "radius":   # z.z / n follows F(n, nu)
            push(scipy.special.fdtr(n, nu, z.dot(z) / n))
        else:                   # every coordinate follows Student's t
            push(scipy.special.stdtr(nu, z[r.below(n)]))
    law(r, "P12:dbg:student_t", "nu %r mu %s sigma %s %s" % (nu, mu.tolist(), S.tolist(), which), one, 500)


def c_wishart(r):
    n = r.randint(1, 5)
    S = spd(r, n)
    only = None if r.chance(0.4) else r.chance(0.5) and n - 1 or r.below(n)
    kind = r.pick(["sample_wishart", "sample_wishart_v2", "sample_wishart_naive", "sample_inverse_wishart"])
    nu = n + r.randint(0, 20) if kind == "sample_wishart_naive" or r.chance(0.3) else n - 1 + r.logunif(0.5, r.pick([5, 100]))
    nu = max(nu, n)
    ctx = "%s dim %d nu %r scale %s" % (kind, n, nu, S.tolist())
    Sinv = numpy.linalg.inv(S)
    keep = S.copy()

    def one(push):
        w = getattr(dbg, kind)(nu, S)
        need("P12:dbg:%s:shape" % kind, numpy.shape(w) == (n, n), repr(w))
        if kind == "sample_inverse_wishart":
            push_wishart("P12:dbg:" + kind, w, Sinv, nu, push, ctx, True, only)
        else:
            push_wishart("P12:dbg:" + kind, w, S, nu, push, ctx, False, only)
    law(r, "P12:dbg:" + kind, ctx + " row %s" % only, one, 200 if only is None else 500)
    need("P12:dbg:%s:argument" % kind, numpy.array_equal(S, keep), ctx)


def c_niw(r):
    n = r.randint(1, 3)
    S, mu0 = spd(r, n), numpy.random.randn(n) * 3
    lam, nu = r.logunif(0.1, 20), n + r.logunif(0.5, 30)
    which = r.pick(["mean", "cov"])
    ctx = "dim %d mu0 %s lambda %r psi %s nu %r %s" % (n, mu0.tolist(), lam, S.tolist(), nu, which)
    Sinv = numpy.linalg.inv(S)

    def one(push):
        mu, cov = dbg.sample_normal_inverse_wishart(mu0, lam, S, nu)
        need("P12:dbg:niw:shape", numpy.shape(mu) == (n,) and numpy.shape(cov) == (n, n), ctx)
        if numpy.linalg.cond(cov) > 1e7:
            return
        if which == "mean":
            push_normal(mu, mu0, cov / lam, push)
        else:
            push_wishart("P12:dbg:niw", cov, Sinv, nu, push, ctx, True)
    law(r, "P12:dbg:normal_inverse_wishart", ctx, one, 200)
    for bad in (lambda: dbg.sample_normal_inverse_wishart(mu0, 0.0, S, nu), lambda: dbg.sample_normal_inverse_wishart(mu0, -1.0, S, nu),
                lambda: dbg.sample_normal_inverse_wishart(mu0, lam, S, n - 1.0), lambda: dbg.sample_normal_inverse_wishart(numpy.zeros(n + 1), lam, S, nu + 1)):
        refused("P12:dbg:niw:bad-arguments", bad, ctx)


def c_stick(r):
    g = r.logunif(0.3, 15)
    tol = r.pick([1e-6, 1e-7])
    which = r.below(3)
    ctx = "gamma %r tol %r stick %d" % (g, tol, which)

    def one(push):
        b = dbg.sample_stick(g, tol)
        xs = [b[i] for i in range(len(b))]
        need("P12:dbg:stick:simplex", len(xs) == len(b) and min(xs) >= 0 and abs(sum(xs) - 1) < 1e-9, "%s drew %s" % (ctx, brief(xs)))
        R.event("simplexes")
        rest = 1.0
        for i in range(which):
            rest -= xs[i] if i < len(xs) else 0
        if which == 0 or rest > 300 * tol:
            need("P12:dbg:stick:stopped-early", which < len(xs), "%s drew %s" % (ctx, brief(xs)))
            if which == len(xs) - 1:   # the last stick stands for everything up to the tolerance
                push(1 - (tol / rest) ** g * r.random())
            else:
                push(1 - (1 - min(1.0, xs[which] / rest)) ** g)
    law(r, "P12:dbg:stick", ctx, one, 250)
    default = dbg.sample_stick(g)
    need("P12:dbg:stick:default", sorted(default) == list(range(len(default))) and abs(sum(default.values()) - 1) < 1e-9 and min(default.values()) >= 0, ctx)


def c_partition(r):
    n = r.randint(1, 6)
    c, left = [], n
    while left:
        c.append(r.randint(0 if r.chance(0.2) else 1, left))
        left -= c[-1]
    items = [("x", i) for i in range(n)]
    ctx = "counts %s" % c
    cells = {}
    for perm in itertools.permutations(range(n)):
        i, key = 0, []
        for k in c:
            key.append(tuple(sorted(perm[i:i + k])))
            i += k
        cells.setdefault(tuple(key), len(cells))

    def p(scale):
        obs = [0] * len(cells)
        for i in range(max(400, 12 * len(cells)) * scale):
            out = dbg.sample_partition_from_counts(items, c)
            need("P12:dbg:partition:sizes", [len(g) for g in out] == c, "%s drew %r" % (ctx, out))
            key = tuple(tuple(sorted(x[1] for x in g)) for g in out)
            need("P12:dbg:partition:items", key in cells, "%s drew %r" % (ctx, out))
            obs[cells[key]] += 1
        return chisq_p(obs, [1.0 / len(cells)] * len(cells))
    need_law("P12:dbg:partition:law", p, ctx)
    refused("P12:dbg:partition:total", lambda: dbg.sample_partition_from_counts(items, c + [1]), ctx)


def c_stream(r):
    law(r, "P12:hp:random", "", lambda push: push((hp.random() - 1 + r.random()) / (M - 1.0)), 2000)


CONT = [c_normal, c_chisq, c_gamma, c_gamma, c_poisson, c_poisson, c_nb, c_bernoulli, c_beta, c_dirichlet, c_student, c_student,
        c_wishart, c_wishart, c_wishart, c_niw, c_niw, c_stick, c_stick, c_partition, c_stream]


@monitor("P12")
def P12(r):
    numpy.random.seed(r.below(2 ** 31))
    r.pick(CONT)(r)


# ------------------------------------------------------------------ P14
def tol_lgamma(x):
    return 3e-6 + 3e-7 * abs(float(gammaln(x))) if x < 2.5 else 4e-5 + (7.5e-6 if x < 1e6 else 9e-6) * x


def tol_nu(x):
    return 3e-6 if x < 0.0625 else 0.0175


def student_const(nu):
    if nu > 1e6:
        return 0.5 * log(nu / 2) - 1 / (4.0 * nu)
    return float(gammaln(nu / 2 + 0.5) - gammaln(nu / 2))


def pick_pos(r, lo, hi):
    u = r.random()
    if u < 0.5:
        x = r.logunif(lo, hi)
    elif u < 0.7:
        b = numpy.float32(2.0 ** math.floor(math.log(r.logunif(lo, hi), 2)))
        x = r.pick([b, numpy.nextafter(b, numpy.float32(0)), numpy.nextafter(b, numpy.float32(1e38))])
    elif u < 0.8:
        x = r.randint(max(1, int(lo)), int(min(hi, 1e6)))
    elif u < 0.9:
        x = r.pick([numpy.float32(2.5), numpy.nextafter(numpy.float32(2.5), numpy.float32(0))])
    else:
        x = r.uniform(lo, min(hi, 100.0))
    return f32(min(hi, max(lo, float(x))))


_ROWS = [[0.0]]


def stirling_row(n):
    while len(_ROWS) <= n:
        m = len(_ROWS)
        prev = _ROWS[-1] + [float("-inf")]
        row = [float("-inf")]
        for k in range(1, m + 1):
            a = (log(m - 1) if m > 1 else float("-inf")) + prev[k]
            b = prev[k - 1]
            hi, lo = max(a, b), min(a, b)
            row.append(hi if lo == float("-inf") else hi + math.log1p(exp(lo - hi)))
        _ROWS.append(row)
    return _ROWS[n]


@monitor("P14")
def P14(r):
    for _ in range(30):
        x = pick_pos(r, 1.2e-38, 3e38)
        need_close("P14:lp:fast_log", lps.fast_log(x), log(x), 7e-5, "fast_log(%r)" % x)
        g = pick_pos(r, 1e-4, 4.2e9)
        need_close("P14:lp:fast_lgamma", lps.fast_lgamma(g), float(gammaln(g)), tol_lgamma(g), "fast_lgamma(%r)" % g)
        nu = pick_pos(r, 1e-3, 4.2e9)
        need_close("P14:lp:fast_lgamma_nu", lps.fast_lgamma_nu(nu), student_const(nu), tol_nu(nu), "fast_lgamma_nu(%r)" % nu)
        R.seen((x, g, nu))
        R.event("points", 3)
    R.sample("fast_log(%r) fast_lgamma(%r) fast_lgamma_nu(%r)" % (x, g, nu))
    for _ in range(2):
        n = r.below(32) if r.chance(0.6) else r.randint(30, 70) if r.chance(0.6) else r.randint(64, 300)
        row = lps.log_stirling1_row(n)
        ex = stirling_row(n)
        need("P14:lp:stirling-length", len(row) == n + 1, "row %d has %d" % (n, len(row)))
        need("P14:lp:stirling-endpoint", row[n] == 0 and (n == 0 or row[0] < -1e30), "row %d: %r" % (n, row[:3]))
        for k in range(1, n):
            tol = 2e-6 + 4e-7 * abs(ex[k]) if n < 32 else 0.75 + 0.045 * abs(ex[k])
            need_close("P14:lp:stirling", row[k], ex[k], tol, "row %d k %d" % (n, k))
        R.event("stirling_rows")
    # Student-t densities
    for _ in range(4):
        n = r.randint(1, 4)
        nu = f32(r.logunif(0.5, 300))
        mu = numpy.array(f32s(numpy.random.randn(n) * 3))
        S = spd(r, n).astype(numpy.float32).astype(float)
        S = (S + S.T) / 2
        v = numpy.array(f32s(mu + numpy.linalg.cholesky(S).dot(numpy.random.randn(n)) * r.pick([0.1, 1, 5, 100])))
        z = v - mu
        q = z.dot(numpy.linalg.solve(S, z))
        want = float(gammaln((nu + n) / 2) - gammaln(nu / 2) - 0.5 * (n * log(nu * math.pi) + numpy.linalg.slogdet(S)[1] + (nu + n) * math.log1p(q / nu)))
        ctx = "v %s nu %r mu %s sigma %s" % (v.tolist(), nu, mu.tolist(), S.tolist())
        need_close("P14:dbg:score_student_t", dbg.score_student_t(v, nu, mu, S), want, 1e-8 * (1 + abs(want)), ctx)
        cond = numpy.linalg.cond(S)
        lt = (8e-5 * (1 + n + (nu + n) / 2) + tol_lgamma((nu + n) / 2) + tol_lgamma(nu / 2) + 1e-6 * abs(want) + 4e-7 * cond * n * (nu + n + 1))
        need_close("P14:lp:score_student_t", lp.score_student_t(v.astype(numpy.float32), nu, mu.astype(numpy.float32), S.astype(numpy.float32)),
                   want, lt, ctx)
        # one dimension: the precision form used by the normal model
        lam, x, m0 = r.logunif(1e-3, 1e3), float(v[0]), float(mu[0])
        want = float(gammaln(nu / 2 + 0.5) - gammaln(nu / 2) + 0.5 * log(lam / (math.pi * nu)) - (nu + 1) / 2 * math.log1p(lam * (x - m0) ** 2 / nu))
        need_close("P14:dbg:nich-student_t", nich_student_t(x, nu, m0, 1 / lam), want, 1e-8 * (1 + abs(want)), "x %r nu %r mu %r sigmasq %r" % (x, nu, m0, 1 / lam))
        R.event("densities", 3)


if __name__ == "__main__":
    main()
