"""P24: the goodness-of-fit utilities, binning and score conversion of distributions.util."""
import contextlib
import io
import math

import numpy
import scipy.stats

from vh import R, main, monitor, need, need_close, need_law, refused

import distributions.util as util


def quiet(f, *args, **kw):
    with contextlib.redirect_stdout(io.StringIO()):
        return f(*args, **kw)


def uniform_p(ps, slack):
    """Kolmogorov-Smirnov against the uniform law, forgiving deviations of the distribution function up to slack."""
    u = numpy.sort(numpy.asarray(ps, dtype=float))
    n = len(u)
    if not (numpy.isfinite(u).all() and u[0] >= 0 and u[-1] <= 1):
        return 0.0
    i = numpy.arange(n)
    d = max((u - i / n).max(), ((i + 1) / n - u).max()) - slack
    return float(scipy.stats.kstwo.sf(d, n)) if d > 0 else 1.0


def gen_probs(r, K, floor):
    while True:
        p = numpy.random.dirichlet([r.pick([0.5, 1, 5, 100])] * K) if r.chance(0.6) else numpy.ones(K) / K
        if p.min() > floor:
            return p


@monitor("P24-calibration")
def calibration(r):
    K = 2 if r.chance(0.2) else r.randint(2, 8) if r.chance(0.5) else r.randint(2, 24)
    n = int(r.logunif(3e5, 3e7))
    p = gen_probs(r, K, 2000.0 / n)
    kind = r.pick(["full", "truncated", "truncated-rare", "zeros"]) if K > 2 else r.pick(["full", "zeros", "truncated"])
    keep = r.randint(1, K - 1)
    if kind == "truncated-rare":     # the left-out outcomes hardly ever happen
        keep = K - 1
        p = numpy.append(p[:-1] / p[:-1].sum() * (1 - 0.01 / n), 0.01 / n)
    ctx = "%s probs %s of %d, n %d" % (kind, [round(float(x), 5) for x in p], keep, n)
    R.seen(ctx)
    R.sample(ctx)

    def pvalue(counts):
        if kind == "zeros":
            pp, cc = list(p), list(counts)
            at = r.randint(0, K)
            pp.insert(at, 0.0)
            cc.insert(at, 0)
            return quiet(util.multinomial_goodness_of_fit, pp, cc, n)
        if kind.startswith("truncated"):
            return quiet(util.multinomial_goodness_of_fit, p[:keep], counts[:keep], n, truncated=True)
        return quiet(util.multinomial_goodness_of_fit, p, counts, n)

    def law(scale):
        out = [pvalue(numpy.random.multinomial(n, p)) for _ in range(500 * scale)]
        R.event("calibrated_pvalues", len(out))
        return uniform_p(out, 0.02)

    need_law("P24:multinomial:%s" % kind, law, ctx)
    if kind == "full":
        c = numpy.random.multinomial(n, p)
        need_close("P24:multinomial:pearson", pvalue(c), scipy.stats.chi2.sf(((c - n * p) ** 2 / (n * p)).sum(), K - 1), 1e-6,
                   "%s counts %s" % (ctx, list(c)))
    # and has power: a probability off by twenty standard deviations
    q = p.copy()
    i, j = r.below(keep), (keep if kind.startswith("truncated") else r.below(K))
    if i != j and kind != "truncated-rare":
        d = 20 * math.sqrt(2 * max(p[i], p[j]) / n)
        if q[j] > 2 * d:
            q[i] += d
            q[j] -= d
            bad = pvalue(numpy.random.multinomial(n, q))
            need("P24:multinomial:no-power", 0 <= bad < 1e-6, "%s moved %.3g from %d to %d, p-value %r" % (ctx, d, j, i, bad))
            R.event("rejections")
    # impossible or inconsistent input
    c = numpy.random.multinomial(n, p)
    if kind == "truncated-rare":
        p, c, K = p[:-1] / p[:-1].sum(), c[:-1] + (numpy.arange(K - 1) == 0) * c[-1], K - 1
    if K < 2:
        return
    got = quiet(util.multinomial_goodness_of_fit, list(p) + [0.0], list(c - (numpy.arange(K) == c.argmax())) + [1], n)
    need("P24:multinomial:impossible", 0 <= got < 1e-9, "%s with an impossible outcome, p-value %r" % (ctx, got))
    need("P24:multinomial:certain", quiet(util.multinomial_goodness_of_fit, [1.0], [n], n) == 1
         and quiet(util.multinomial_goodness_of_fit, [1.0, 0.0], [n - 1, 1], n) == 0, ctx)
    refused("P24:multinomial:total", lambda: quiet(util.multinomial_goodness_of_fit, p, c, n + 1), ctx)
    refused("P24:multinomial:length", lambda: quiet(util.multinomial_goodness_of_fit, p, c[:-1], n), ctx)
    refused("P24:multinomial:too-few", lambda: quiet(util.multinomial_goodness_of_fit, p, [1] + [0] * (K - 1), 1), ctx)


@monitor("P24-discrete")
def discrete(r):
    K = r.randint(2, 20)
    n = r.randint(3000, 6000)
    p = gen_probs(r, K, 60.0 / n)
    keys = r.sample([("k%d" % i if i % 3 else i) for i in range(100)], K)
    probs = dict(zip(keys, (float(x) for x in p)))
    trunc = r.pick([8, 8, None, 0, 3, K, 100])
    ctx = "probs %s truncate %r n %d" % ({k: round(v, 4) for k, v in probs.items()}, trunc, n)
    R.seen(ctx)
    R.sample(ctx)
    kw = {} if trunc == 8 and r.chance(0.5) else {"truncate_beyond": trunc}

    def pvalue(q, m=n):
        s = [keys[i] for i in numpy.random.choice(K, size=m, p=q)]
        return quiet(util.discrete_goodness_of_fit, s, probs, **kw)

    def law(scale):
        out = [pvalue(p) for _ in range(80 * scale)]
        R.event("calibrated_pvalues", len(out))
        return uniform_p(out, 0.06)

    need_law("P24:discrete:%s" % ("truncated" if trunc and trunc < K else "full"), law, ctx)
    top = sorted(range(K), key=lambda i: -p[i])[:trunc or K]
    i = r.pick(top)
    q = p.copy()
    q[i] = min(0.95, p[i] + 25 * math.sqrt(p[i] / n))
    if q[i] - p[i] > 20 * math.sqrt(p[i] / n):
        q[numpy.arange(K) != i] *= (1 - q[i]) / (1 - p[i])
        bad = pvalue(q)
        need("P24:discrete:no-power", 0 <= bad < 1e-6, "%s but %r had probability %.4f, p-value %r" % (ctx, keys[i], q[i], bad))
        R.event("rejections")
    s = [keys[i] for i in numpy.random.choice(K, size=n, p=p)]
    refused("P24:discrete:unknown", lambda: quiet(util.discrete_goodness_of_fit, s + ["absent"], probs, **kw), ctx)
    refused("P24:discrete:too-few", lambda: quiet(util.discrete_goodness_of_fit, s[:r.below(101)], probs, **kw), ctx)


@monitor("P24-unif01")
def unif01(r):
    n = r.randint(300, 20000) if r.chance(0.9) else r.randint(280, 300)
    ctx = "n %d" % n
    R.seen((ctx, r.random()))
    R.sample(ctx)

    def law(scale):
        out = [quiet(util.unif01_goodness_of_fit, numpy.random.rand(n)) for _ in range((20 if n > 3000 else 60) * scale)]
        R.event("calibrated_pvalues", len(out))
        return uniform_p(out, 0.05)

    need_law("P24:unif01", law, ctx)
    # the ends of the interval belong to the first and last bin
    s = numpy.random.rand(n)
    s[r.below(n)] = 1.0
    s[r.below(n)] = 0.0
    if r.chance(0.3):
        s[: r.randint(1, 5)] = 1.0
    got = quiet(util.unif01_goodness_of_fit, list(s) if r.chance(0.5) else s)
    bins = int(round(n ** 0.333))
    c = numpy.histogram(s, bins=numpy.linspace(0, 1, bins + 1))[0]
    e = n / float(bins)
    want = scipy.stats.chi2.sf(((c - e) ** 2 / e).sum(), bins - 1)
    need_close("P24:unif01:pearson", got, want, 0.02, "%s with both ends, bin counts %s" % (ctx, list(c)))
    bad = quiet(util.unif01_goodness_of_fit, numpy.random.beta(1, 2.5, size=n))
    need("P24:unif01:no-power", 0 <= bad < 1e-4, "%s beta(1, 2.5) samples, p-value %r" % (ctx, bad))
    R.event("rejections")
    x = r.pick([-1e-9, -0.5, 1.0 + 1e-9, 2.0])
    refused("P24:unif01:range", lambda: quiet(util.unif01_goodness_of_fit, list(s) + [x]), "%s with %r" % (ctx, x))
    refused("P24:unif01:too-few", lambda: quiet(util.unif01_goodness_of_fit, s[:200]), ctx)


LAWS = {
    "normal": lambda r: scipy.stats.norm(r.uniform(-100, 100), r.logunif(1e-3, 1e3)),
    "exponential": lambda r: scipy.stats.expon(r.uniform(-5, 5), r.logunif(1e-2, 1e2)),
    "gamma": lambda r: scipy.stats.gamma(r.uniform(2, 20), scale=r.logunif(1e-2, 1e2)),
    "student": lambda r: scipy.stats.t(r.uniform(3, 30), r.uniform(-5, 5), r.logunif(1e-2, 1e2)),
    "logistic": lambda r: scipy.stats.logistic(r.uniform(-5, 5), r.logunif(1e-2, 1e2)),
    "uniform": lambda r: scipy.stats.uniform(r.uniform(-5, 5), r.logunif(1e-2, 1e2)),
}


@monitor("P24-density")
def density(r):
    name = r.pick(sorted(LAWS))
    d = LAWS[name](r)
    n = r.randint(1500, 4000)
    ctx = "%s mean %.4g sd %.4g, n %d" % (name, d.mean(), d.std(), n)
    R.seen(ctx)
    R.sample(ctx)

    def pvalue(scale=1.0, shuffle=True):
        s = d.rvs(n)
        p = d.pdf(s) * scale
        return quiet(util.density_goodness_of_fit, list(s), list(p))

    def law(scale):
        out = [pvalue() for _ in range(40 * scale)]
        R.event("calibrated_pvalues", len(out))
        return uniform_p(out, 0.12)

    need_law("P24:density:%s" % name, law, ctx)
    bad = pvalue(r.pick([0.5, 2.0, 1.6, 0.6]))
    need("P24:density:no-power", 0 <= bad < 1e-4, "%s densities scaled, p-value %r" % (ctx, bad))
    s = d.rvs(n)
    wide = scipy.stats.norm(d.mean(), 3 * d.std())
    bad = quiet(util.density_goodness_of_fit, list(s), list(wide.pdf(s)))
    need("P24:density:no-power", 0 <= bad < 1e-4, "%s densities of a wider normal, p-value %r" % (ctx, bad))
    R.event("rejections", 2)
    # far outliers give a gap of probability one
    s = numpy.append(s, d.mean() + 1e3 * d.std())
    got = quiet(util.density_goodness_of_fit, list(s), list(d.pdf(s[:-1])) + [1.0 / d.std()])
    need("P24:density:outlier", 0 <= got <= 1, "%s with an outlier, p-value %r" % (ctx, got))
    refused("P24:density:length", lambda: quiet(util.density_goodness_of_fit, list(s), list(d.pdf(s))[:-1]), ctx)
    refused("P24:density:too-few", lambda: quiet(util.density_goodness_of_fit, list(s)[:100], list(d.pdf(s))[:100]), ctx)


@monitor("P24")
def bins(r):
    # softmax
    n = 1 if r.chance(0.05) else r.randint(1, 40)
    spread = r.pick([1, 10, 700, 5000])
    shift = r.pick([0, 0, 100, -10000, 1e6])
    s = [shift + (r.randint(-spread, spread) if spread < 0 or r.chance(0.3) else r.uniform(-spread, spread)) for _ in range(n)]
    if r.chance(0.3):
        s = [int(x) for x in s]
    if n > 1 and r.chance(0.1):
        s[r.below(n)] = float("-inf")
    arg = r.pick([list, tuple, numpy.array])(s)
    before = list(s)
    got = util.scores_to_probs(arg)
    m = max(s)
    w = [math.exp(x - m) for x in s]
    ctx = "scores %r" % (s,)
    R.seen(ctx)
    R.sample(ctx)
    need("P24:softmax:length", len(got) == n, ctx)
    for i in range(n):
        need_close("P24:softmax", got[i], w[i] / sum(w), 1e-9, "%s index %d" % (ctx, i))
    need("P24:softmax:argument", list(arg) == before, "%s became %r" % (ctx, list(arg)))
    R.event("softmaxes")
    refused("P24:softmax:empty", lambda: util.scores_to_probs([]))
    n = r.randint(1, 10 ** r.randint(1, 6))
    sc = r.uniform(-50, 5) * n
    for t in (float, numpy.float64):
        need_close("P24:kl", util.score_to_empirical_kl(t(sc), n), -sc / n - math.log(n), 1e-9, "score %r count %d" % (sc, n))
    k = r.randint(1, 1000)
    need_close("P24:kl:integer", util.score_to_empirical_kl(-k, n), k / float(n) - math.log(n), 1e-9, "score %d count %d" % (-k, n))

    # bins of equal fill
    k = r.randint(1, 15)
    N = k + r.below(4 * k + 1) if r.chance(0.7) else r.randint(k, 400)
    kind = r.pick(["real", "int", "ties"])
    xs = [r.gauss(0, 10) if kind == "real" else r.randint(-1000, 1000) if kind == "int" else r.randint(0, 5) for _ in range(N)]
    given = list(xs)
    support = [min(xs) - r.random(), max(xs) + r.random()] if r.chance(0.4) else []
    kw = {"support": support} if support else {}
    if not (k == 10 and r.chance(0.5)):
        kw["k"] = k
    counts, ranges = util.bin_samples(xs if r.chance(0.5) else numpy.array(xs), **kw)
    ctx = "bin_samples(%s, %s) counts %s ranges %s" % (given[:60], kw, list(counts), ranges.tolist())
    R.seen(ctx)
    key = "P24:bins:"
    need(key + "shape", len(counts) == k and ranges.shape == (k, 2), ctx)
    need(key + "conserve", sum(counts) == N and xs == given, ctx)
    need(key + "equal-fill", max(counts) - min(counts) <= 1 and min(counts) >= 1, ctx)
    for i in range(k):
        need(key + "ordered", ranges[i][0] <= ranges[i][1], ctx)
        if i:
            need(key + "contiguous", ranges[i - 1][1] == ranges[i][0], ctx)
    lo, hi = support or (min(xs), max(xs))
    need(key + "cover", ranges[0][0] == lo and ranges[-1][1] == hi, ctx)
    if len(set(xs)) == N:
        for i in range(k):
            a, b = ranges[i]
            inside = sum(1 for x in xs if a <= x and (x < b or i == k - 1))
            need(key + "membership", inside == counts[i], "%s bin %d holds %d" % (ctx, i, inside))
    R.event("binnings")

    # histogram
    top = r.randint(0, 30)
    xs = [r.randint(0, top) for _ in range(r.randint(1, 200))]
    bc = None if r.chance(0.5) else max(xs) + 1 + r.below(5)
    got = util.histogram(numpy.array(xs) if r.chance(0.5) else xs, bc) if bc or r.chance(0.5) else util.histogram(xs)
    ctx = "histogram(%s, %r) = %s" % (xs[:60], bc, list(got))
    need("P24:histogram:length", len(got) == (bc or max(xs) + 1), ctx)
    need("P24:histogram:counts", all(got[i] == xs.count(i) for i in range(len(got))) and sum(got) == len(xs), ctx)
    refused("P24:histogram:outside", lambda: util.histogram(xs, max(xs)), ctx)
    R.event("histograms")


if __name__ == "__main__":
    main()
