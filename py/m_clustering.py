"""P09, P10, P16, P22 over the Python clusterings (lp Pitman-Yor and low-entropy, dbg low-entropy) and Student-t scores."""
import json
import math
from math import log, exp

import numpy
import scipy.stats
from scipy.special import gammaln

from vh import R, main, monitor, need, need_close, need_law, chisq_p, refused
from ref import f32, show, plain, same_dump
from m_mixture import py_logprob, partitions

import distributions.lp.clustering as lpc
import distributions.dbg.clustering as dbc

_Z = [1]


def log_z(n):
    """log of the sum over set partitions of prod size**size, exactly."""
    while len(_Z) <= n:
        m = len(_Z)
        _Z.append(sum(math.comb(m - 1, k - 1) * k ** k * _Z[m - k] for k in range(1, m + 1)))
    return log(_Z[n])


def entropy(counts):
    return sum(c * log(c) for c in counts if c)


def gen_py(r):
    return lpc.PitmanYor.from_dict({"alpha": f32(r.logunif(0.05, 50)), "d": f32(0.0 if r.chance(0.25) else 1 - r.logunif(5e-4, 0.1) if r.chance(0.06) else r.uniform(0.01, 0.95))})


def gen_le(r, fl, size):
    return (lpc if fl == "lp" else dbc).LowEntropy.from_dict({"dataset_size": size})


def gen_counts(r, most=9, big=12):
    return [r.randint(1, big) if r.chance(0.7) else 1 for _ in range(r.randint(1, most))]


LPT = {"lp": 7e-5, "dbg": 1e-12}


def py_add(p, g, K, n, E):
    a, d = p["alpha"], p["d"]
    return (log(g - d) if g else log((a + d * K) / E)) - log(n + a)


def with_empties(r, c):
    c = c + [0] * r.below(4)
    r.shuffle(c)
    return c


def shapes(n, most=None):
    most = most or n
    if n == 0:
        yield []
        return
    for k in range(min(n, most), 0, -1):
        for rest in shapes(n - k, k):
            yield [k] + rest


def multiplicity(shape):
    n = sum(shape)
    x = gammaln(n + 1) - sum(gammaln(k + 1) for k in shape)
    for k in set(shape):
        x -= gammaln(shape.count(k) + 1)
    return float(x)


# ------------------------------------------------------------------ P09
def P09_py(r):
    m = gen_py(r)
    p = m.dump()
    c = gen_counts(r, 12, 60 if r.chance(0.2) else 9)
    ctx = "PitmanYor %s counts %s" % (show(p), c)
    R.seen(ctx)
    R.sample(ctx)
    n, k = sum(c), len(c)
    got = m.score_counts(list(c))
    tol = 1e-4 + 4e-4 * k + sum(2 * (4e-5 + 8e-6 * (n + p["alpha"])) for x in c if x > 2) + 1e-6 * n * log(2 + n)
    need_close("P09:lp-py:score_counts", got, py_logprob(p, c), tol, ctx)
    for _ in range(2):
        need_close("P09:lp-py:order-or-empties", m.score_counts(with_empties(r, c)), got, 2 * tol, ctx)
    order = [g for g, x in enumerate(c) for _ in range(x)]
    r.shuffle(order)
    cur, K, seq = [0] * len(c), 0, 0.0
    for i, g in enumerate(order[:120]):
        E = 1 if r.chance(0.5) else r.randint(1, 5)
        s = m.score_add_value(cur[g], K, i, E)
        need_close("P09:lp-py:score_add", s, py_add(p, cur[g], K, i, E), 1e-4, "%s group %d K %d n %d E %d" % (ctx, cur[g], K, i, E))
        if E == 1:
            need_close("P09:lp-py:default-empties", m.score_add_value(cur[g], K, i), s, 1e-9, ctx)
        rem = m.score_remove_value(cur[g] + 1, K + (cur[g] == 0), i + 1, E)
        if E == 1:
            need_close("P09:lp-py:default-empties", m.score_remove_value(cur[g] + 1, K + (cur[g] == 0), i + 1), rem, 1e-9, ctx)
        need_close("P09:lp-py:score_remove", rem, -s, 1e-5, "%s group %d K %d n %d E %d" % (ctx, cur[g] + 1, K + (cur[g] == 0), i + 1, E))
        K += cur[g] == 0
        cur[g] += 1
        R.event("adds")
    E = r.randint(1, 5)
    tot = sum(exp(m.score_add_value(x, len(c), n, E)) for x in c + [0] * E)
    need_close("P09:lp-py:add-normalised", tot, 1.0, 2e-4, "%s E %d" % (ctx, E))
    nn = r.randint(1, 7)
    z = sum(exp(m.score_counts(s) + multiplicity(s)) for s in shapes(nn))
    need_close("P09:lp-py:partitions-sum", z, 1.0, 2e-3, "%s n %d" % (ctx, nn))
    R.event("partition_sums")


def P09_le(r, fl):
    t = LPT[fl]
    c = gen_counts(r, 9, 20 if r.chance(0.3) else 6)
    n = sum(c)
    full = r.chance(0.6)
    size = n if full else n + r.randint(1, 300)
    m = gen_le(r, fl, size)
    ctx = "%s LowEntropy %s counts %s" % (fl, show(m.dump()), c)
    R.seen(ctx)
    R.sample(ctx)
    key = "P09:%s-le:" % fl
    got = m.score_counts(list(c))
    tol = 3e-8 * n + (1e-4 + t * n + 1e-6 * n * log(1 + n) if fl == "lp" else 1e-7)
    if full and n <= 47:
        need_close(key + "score_counts", got, entropy(c) - log_z(n), tol, ctx)
        R.event("full_scores")
    elif full:
        need_close(key + "score_counts-large", got, entropy(c) - log_z(n), tol + 0.02 * log_z(n), ctx)
    need_close(key + "order-or-empties", m.score_counts(with_empties(r, c)), got, 2 * tol, ctx)
    need_close(key + "no-data", m.score_counts(r.pick([[], [0], [0, 0]])), 0.0, 1e-6, ctx)
    if r.chance(0.1):
        b = [int(r.logunif(100, 2e6)) for _ in range(r.randint(1, 6))]
        f = gen_le(r, fl, sum(b))
        want = entropy(b) - f.log_partition_function(sum(b)) if fl == "dbg" else None
        whole = f.score_counts([sum(b)])      # the normaliser is common to both
        need_close(key + "many-items", f.score_counts(b) - whole, entropy(b) - sum(b) * log(sum(b)),
                   (2 * t * sum(b) + 4e-6 * sum(b) * log(sum(b))), "%s dataset_size %d counts %s" % (fl, sum(b), b))
        if want is not None:
            need_close(key + "many-items-z", f.score_counts(b), want, 1e-9 * abs(want) + 1e-6 * sum(b), str(b))
        R.event("many_items")
    if n > 1:
        refused(key + "too-much-data", lambda: gen_le(r, fl, n - 1).score_counts(list(c)), ctx)
    for _ in range(8):
        u = r.random()
        g = 0 if u < 0.3 else r.randint(1, 20) if u < 0.7 else r.randint(20, 9990) if u < 0.9 else \
            r.randint(9995, 10005) if u < 0.95 else r.randint(10001, 2000000)
        K = (1 if g else 0) + r.below(5)
        s = g + K - (1 if g else 0) + r.below(10)
        E = r.randint(1, 6)
        a = gen_le(r, fl, s + 1 + (0 if r.chance(0.3) else r.below(500)))
        cc = "%s %s group %d K %d n %d E %d" % (fl, show(a.dump()), g, K, s, E)
        v = a.score_add_value(g, K, s, E)
        if g:
            want = (g + 1) * log(g + 1) - g * log(g)
            te = 1e-4 + (t * g if g <= 10000 else 2e-4) + (2.4e-7 * g if fl == "lp" and g <= 10000 else 0)
            need_close(key + "entropy-increment", v, want, te, cc)
        else:
            one = a.score_add_value(0, K, s, 1)
            need_close(key + "empties-split", v, one - log(E), 2 * t + 1e-9, cc)
            need_close(key + "default-empties", a.score_add_value(0, K, s), one, 1e-9, cc)
            D = a.dataset_size
            want = log(D / (s + 1.0)) * (0.45 - 0.1 / (s + 1) - 0.1 / D) if s + 1 < D else 0.0
            need_close(key + "new-group", one, want, 2 * t + 1e-5, cc)
        rem = a.score_remove_value(g + 1, K + (g == 0), s + 1, E)
        need_close(key + "score_remove", rem, -v, 1e-5 * (1 + abs(v)), cc)
        if E == 1:
            need_close(key + "default-empties", a.score_remove_value(g + 1, K + (g == 0), s + 1), rem, 1e-9, cc)
        R.event("adds")
    if fl == "dbg":
        k = r.randint(0, 47)
        need_close(key + "log_partition", m.log_partition_function(k), log_z(k), 1e-7, "n %d" % k)
        k = r.randint(48, 300)
        need_close(key + "log_partition-large", m.log_partition_function(k), log_z(k), 0.02 * log_z(k), "n %d" % k)
    nn = r.randint(1, 7)
    f = gen_le(r, fl, nn)
    z = sum(exp(f.score_counts(s) + multiplicity(s)) for s in shapes(nn))
    need_close(key + "partitions-sum", z, 1.0, 2e-3 if fl == "lp" else 1e-6, "%s n %d" % (ctx, nn))
    R.event("partition_sums")


@monitor("P09")
def P09(r):
    u = r.random()
    if u < 0.4:
        P09_py(r)
    else:
        P09_le(r, "lp" if u < 0.7 else "dbg")


# ------------------------------------------------------------------ P10
def check_labels(key, a, n, ctx):
    need(key + "type", isinstance(a, list), "%s returned %r" % (ctx, type(a)))
    need(key + "length", len(a) == n, "%s length %d" % (ctx, len(a)))
    top = 0
    for i, g in enumerate(a):
        need(key + "labels", 0 <= g <= top, "%s item %d label %r next %d: %s" % (ctx, i, g, top, a[:60]))
        top += g == top
    # items may carry any ids
    step, off = (1, 0) if n < 2 else (3, -5)
    got = lpc.count_assignments({off + step * i: g for i, g in enumerate(a)})
    need(key + "count_assignments", got == [a.count(g) for g in range(top)], "%s %s counted as %s" % (ctx, a[:60], got))
    R.event("assignments")


def weights(kind, m, p):
    """Unnormalised weight of joining a group of size g (0: a new one) with K groups and i items."""
    if kind == "py":
        return lambda g, K, i: g - p["d"] if g else p["alpha"] + p["d"] * K
    D = p["dataset_size"]

    def w(g, K, i):
        if g:
            return exp((g + 1) * log(g + 1) - g * log(g))
        return exp(log(D / (i + 1.0)) * (0.45 - 0.1 / (i + 1) - 0.1 / D)) if i + 1 < D else 1.0
    return w


@monitor("P10")
def P10(r):
    kind = r.pick(["py", "le", "dbg-le"])
    k = r.randint(2, 5)
    if kind == "py":
        m = gen_py(r)
        n = r.pick([0, 1, r.randint(2, 60), 800])
    else:
        n = r.pick([0, 1, r.randint(2, 60), 300])
        m = gen_le(r, "lp" if kind == "le" else "dbg", max(k, n) + (0 if r.chance(0.4) else r.below(200)))
    p = m.dump()
    key = "P10:%s:" % kind
    ctx = "%s %s" % (kind, show(p))
    R.seen("%s n %d" % (ctx, n))
    R.sample("%s n %d" % (ctx, n))
    for _ in range(3):
        check_labels(key, m.sample_assignments(n), n, "%s n %d" % (ctx, n))
    # the law over all partitions of a few items
    w = weights("py" if kind == "py" else "le", m, p)
    probs = {}
    for s in partitions(k):
        x, counts = 1.0, []
        for i, g in enumerate(s):
            ws = [w(c, len(counts), i) for c in counts] + [w(0, len(counts), i)]
            x *= ws[g] / sum(ws)
            if g == len(counts):
                counts.append(0)
            counts[g] += 1
        probs[tuple(s)] = x
    names = sorted(probs)

    def pvalue(scale):
        obs = dict.fromkeys(names, 0)
        for _ in range((1500 if kind != "dbg-le" else 500) * scale):
            a = tuple(m.sample_assignments(k))
            if a not in obs:
                return 0.0
            obs[a] += 1
        return chisq_p([obs[s] for s in names], [probs[s] for s in names])
    need_law(key + "law", pvalue, "%s k %d" % (ctx, k))
    # larger ones: every step against its sequential law
    nn = r.randint(20, 250)
    if kind != "py":
        m = gen_le(r, "lp" if kind == "le" else "dbg", nn + (0 if r.chance(0.4) else r.below(2 * nn)))
        p = m.dump()
        w = weights("le", m, p)

    many = 12 if r.chance(0.1) else 1

    def steps(scale):
        u = []
        new = {}  # range of the item's index -> times a new group was opened, expected, variance
        for _ in range((4 if kind != "dbg-le" else 2) * scale * many):
            counts = []
            for i, g in enumerate(m.sample_assignments(nn)):
                ws = [w(c, len(counts), i) for c in counts] + [w(0, len(counts), i)]
                t = sum(ws)
                if i:
                    u.append((sum(ws[:g]) + r.random() * ws[g]) / t)
                    z = new.setdefault(i.bit_length(), [0.0, 0.0, 0.0])
                    q = ws[-1] / t
                    z[0] += g == len(counts)
                    z[1] += q
                    z[2] += q * (1 - q)
                if g == len(counts):
                    counts.append(0)
                counts[g] += 1
        R.event("transforms", len(u))
        h = numpy.histogram(u, bins=24, range=(0, 1))[0]
        ps = [chisq_p(h, [1 / 24.0] * 24)]
        for n, x, v in new.values():
            if v >= 25:
                R.event("decision_ranges")
                ps.append(math.erfc(max(0.0, abs(n - x) - 0.5) / math.sqrt(2 * v)))
        return min(1.0, min(ps) * len(ps))
    need_law(key + "sequential-law", steps, "%s %s n %d" % (kind, show(p), nn))
    # malformed assignments
    groups = r.randint(2, 6)
    hole = r.below(groups - 1)
    a = {7 * i: (g if g != hole else groups) for i, g in enumerate(list(range(groups)) + [r.below(groups) for _ in range(r.below(9))])}
    refused("P10:gap-accepted", lambda: lpc.count_assignments(a), str(a))
    neg = {0: 0, 1: -r.randint(1, 1 << 30)}
    refused("P10:negative-accepted", lambda: lpc.count_assignments(neg), str(neg))
    need("P10:empty-assignments", lpc.count_assignments({}) == [], "")
    if kind != "py":
        refused("P10:oversized-accepted", lambda: m.sample_assignments(m.dataset_size + r.randint(1, 9)), ctx)
    R.event("malformed")


# ------------------------------------------------------------------ P16
class Msg(object):
    pass


def messages(kind):
    from distributions.io import schema_pb2
    if kind == "PitmanYor":
        return schema_pb2.Clustering.PitmanYor()
    return schema_pb2.Clustering.LowEntropy()


@monitor("P16-clustering")
def P16_clustering(r):
    fl, kind = r.pick([("lp", "PitmanYor"), ("lp", "LowEntropy"), ("dbg", "LowEntropy")])
    C = getattr(lpc if fl == "lp" else dbc, kind)

    def raw():
        if kind == "PitmanYor":
            return {"alpha": f32(r.logunif(0.01, 1000)), "d": f32(0.0 if r.chance(0.2) else r.uniform(0, 0.99))}
        return {"dataset_size": r.pick([0, 1, r.below(100), r.below(1 << 31)])}
    a, b = raw(), raw()
    key = "P16:%s-%s:" % (fl, kind)
    ctx = "%s %s over %s" % (key, show(a), show(b))
    R.seen(ctx)
    R.sample(ctx)
    m = C.from_dict(a)
    need(key + "dump", same_dump(m.dump(), a), "%s dumped %s" % (ctx, m.dump()))
    used = C.from_dict(b)
    used.load(json.loads(json.dumps(m.dump())))
    need(key + "reload", same_dump(used.dump(), a), "%s dumped %s" % (ctx, used.dump()))
    need(key + "constructor", same_dump(C(**a).dump(), a), ctx)
    msg = messages(kind)
    C.from_dict(b).protobuf_dump(msg)
    m.protobuf_dump(msg)
    msg2 = messages(kind)
    msg2.ParseFromString(msg.SerializeToString())
    used = C.from_dict(b)
    used.protobuf_load(msg2)
    need(key + "protobuf", same_dump(used.dump(), a), "%s dumped %s" % (ctx, used.dump()))
    need(key + "from_protobuf", same_dump(C.from_protobuf(msg), a), ctx)
    msg3 = messages(kind)
    C.to_protobuf(a, msg3)
    need(key + "to_protobuf", msg3 == msg, ctx)
    for f, v in a.items():
        need(key + "message-field", getattr(msg, f) == v, "%s field %s = %r" % (ctx, f, getattr(msg, f)))
    R.event("reloads")
    if kind == "LowEntropy":
        other = (dbc if fl == "lp" else lpc).LowEntropy.from_dict(m.dump())
        need(key + "interchange", same_dump(other.dump(), a), ctx)
        other.protobuf_load(msg2)
        need(key + "interchange-protobuf", same_dump(other.dump(), a), ctx)
        R.event("interchanges")
        bad = [{"dataset_size": -1}, {"dataset_size": -r.below(1 << 30) - 1}, {}]
    else:
        bad = [{"alpha": 0.0, "d": 0.1}, {"alpha": -a["alpha"], "d": a["d"]}, {"alpha": a["alpha"], "d": 1.0}, {"alpha": a["alpha"], "d": -0.01},
               {"alpha": a["alpha"]}, {"d": a["d"]}, {"alpha": 1.0, "d": 1.0 + r.random()}]
    x = C.from_dict(b)
    d = r.pick(bad)
    refused(key + "malformed-accepted", lambda: x.load(d), "%s %s" % (ctx, d))
    if fl == "lp":
        need(key + "malformed-changed", same_dump(x.dump(), b), "%s %s then %s" % (ctx, d, x.dump()))
    R.event("malformed_refused")


# ------------------------------------------------------------------ P22
@monitor("P22-clustering")
def P22_clustering(r):
    c = gen_counts(r, 12, 40 if r.chance(0.3) else 8)
    n = sum(c)
    size = n + (0 if r.chance(0.4) else r.randint(1, 2000))
    a, b = gen_le(r, "lp", size), gen_le(r, "dbg", size)
    ctx = "LowEntropy %d counts %s" % (size, c)
    R.seen(ctx)
    R.sample(ctx)
    tol = 3e-4 + 7e-5 * n + 2e-6 * n * log(1 + n) + 1e-4 * len(c)
    x = with_empties(r, c)
    need_close("P22:le:score_counts", a.score_counts(x), b.score_counts(x), tol, ctx)
    for _ in range(6):
        g = 0 if r.chance(0.3) else r.randint(1, 30) if r.chance(0.7) else r.randint(9000, 11000)
        K, E = (1 if g else 0) + r.below(4), r.randint(1, 4)
        s = g + K - (1 if g else 0) + r.below(30)
        D = s + 1 + (0 if r.chance(0.3) else r.below(1000))
        p, q = gen_le(r, "lp", D), gen_le(r, "dbg", D)
        cc = "LowEntropy %d group %d K %d n %d E %d" % (D, g, K, s, E)
        t = 3e-4 + (8e-5 * g + 3e-7 * g if g <= 10000 else 3e-4)
        need_close("P22:le:score_add", p.score_add_value(g, K, s, E), q.score_add_value(g, K, s, E), t, cc)
        need_close("P22:le:score_remove", p.score_remove_value(g + 1, K + (not g), s + 1, E), q.score_remove_value(g + 1, K + (not g), s + 1, E), t, cc)
        need_close("P22:le:score_add", p.score_add_value(g, K, s), q.score_add_value(g, K, s), t, cc)
        need_close("P22:le:score_remove", p.score_remove_value(g + 1, K + (not g), s + 1), q.score_remove_value(g + 1, K + (not g), s + 1), t, cc)
        R.event("score_comparisons")
    for name in ("load", "dump", "protobuf_load", "protobuf_dump", "sample_assignments", "score_counts", "score_add_value",
                 "score_remove_value", "dataset_size", "from_dict"):
        need("P22:le:interface", hasattr(a, name) and hasattr(b, name), name)
    for f, args in (("score_counts", ([size + 1],)), ("sample_assignments", (size + 1,)), ("score_add_value", (1, 1, size, 1)),
                    ("score_add_value", (0, 0, 0, 0)), ("score_remove_value", (1, 1, 0, 1))):
        for m in (a, b):
            refused("P22:le:bad-accepted", lambda: getattr(m, f)(*args), "%s %s%s" % (ctx, f, args))
    R.event("bad_values")


@monitor("P22-student")
def P22_student(r):
    """Student-t scores: scalar, multivariate lp and dbg against the density."""
    import distributions.dbg.random as dr
    import distributions.lp.random as lr
    d = r.randint(1, 6)
    g = numpy.random.RandomState(r.below(1 << 31))
    nu = f32(r.logunif(0.3, 100))
    mu = (g.randn(d) * r.logunif(0.1, 5)).astype(numpy.float32)
    A = g.randn(d, d + 2)
    S = (A.dot(A.T) / d * r.logunif(0.05, 20) + 0.3 * numpy.eye(d)).astype(numpy.float32)
    v = (mu + g.randn(d) * r.logunif(0.05, 10)).astype(numpy.float32)
    if r.chance(0.1):
        v = mu.copy()
    ctx = "nu %g mu %s sigma %s x %s" % (nu, show(mu), show(S), show(v))
    R.seen(ctx)
    R.sample(ctx)
    M, V, m = S.astype(float), v.astype(float), mu.astype(float)
    z = V - m
    q = float(z.dot(numpy.linalg.solve(M, z)))
    want = float(gammaln((nu + d) / 2) - gammaln(nu / 2) - 0.5 * (d * log(nu * math.pi) + numpy.linalg.slogdet(M)[1] + (nu + d) * log(1 + q / nu)))
    cond = numpy.linalg.cond(M)
    layouts = [lambda x: x, lambda x: numpy.asfortranarray(x), lambda x: numpy.repeat(numpy.repeat(x, 2, 0), 2, x.ndim - 1)[tuple([slice(None, None, 2)] * x.ndim)] if x.ndim == 2 else numpy.repeat(x, 2)[::2]]
    lay = r.pick(layouts)
    got = dr.score_student_t(V, nu, m, M)
    need_close("P22:student:dbg", got, want, 1e-9 * cond + 1e-8 * (1 + abs(want)), ctx)
    # single precision through the inverse and the determinant
    rel = 3e-7 * d * d * cond
    tol = 3e-4 + 8e-5 * (nu + d + 1) + 2 * (4e-5 + 4e-6 * (nu + d)) + 0.5 * (nu + d) * min(1.0, rel * q / (nu + q)) + rel * d + 2e-6 * abs(want) + 2e-7 * (nu + d) * abs(log(1 + q / nu)) * 4
    got = lr.score_student_t(lay(v), nu, lay(mu), lay(S))
    need_close("P22:student:lp", got, want, tol, ctx)
    R.event("score_comparisons")
    for bad in ((v[:-1], mu, S), (v, mu, S[:-1, :]), (numpy.append(v, numpy.float32(0)), mu, S)):
        refused("P22:student:bad-accepted", lambda: lr.score_student_t(bad[0], nu, bad[1], bad[2]), ctx)
        R.event("bad_values")


if __name__ == "__main__":
    main()
