"""Per-model workloads, reference densities (double precision, first principles) and error bounds per flavour."""
import importlib
import json
import math

import numpy
from scipy.special import gammaln

OTHER = 0xFFFFFFFF
lgam = lambda x: float(gammaln(x))
log = math.log
PI = math.pi

BIG = [False]  # rare very large values in the count models


class Tol(object):
    """Elementary error bounds: lp = single precision with table approximations, dp = double precision."""
    def __init__(self, lp):
        self.lp = lp
        self.EPS = 1.2e-7 if lp else 6e-15
        self.LOGT = 8e-5 if lp else 6e-15
        self.LNU = 0.018 if lp else 1e-11

    def LGT(self, x):
        if self.lp:
            return 4e-6 if x < 2.5 else 4e-5 + 8e-6 * x
        return 1e-13 * (3 + x * (1 + abs(log(x + 1))))


TOLS = {"lp": Tol(True), "hp": Tol(False), "dbg": Tol(False)}


def f32(x):
    return float(numpy.float32(x))


def hyper(r, lo, hi):
    """Hyperparameters: mostly of everyday size, now and then anywhere."""
    return f32(r.logunif(min(lo, 2e-3), max(hi, 5e3)) if r.chance(0.06) else r.logunif(lo, hi))


class BB(object):
    name, NAME, flavours, debt, discrete, real, mix = "bb", "BetaBernoulli", ("dbg", "lp"), False, True, False, True

    @staticmethod
    def gen_shared(r):
        return {"alpha": hyper(r, 0.02, 50), "beta": hyper(r, 0.02, 50)}

    @staticmethod
    def gen_value(r, h):
        return r.chance(0.5)

    @staticmethod
    def support(h):
        return [False, True]

    @staticmethod
    def zero(h):
        return {"heads": 0, "tails": 0}

    @staticmethod
    def add(s, v, k=1):
        s["heads" if v else "tails"] += k

    @staticmethod
    def logmarg(h, s):
        a, b = h["alpha"], h["beta"]
        A, B = a + s["heads"], b + s["tails"]
        return lgam(A) - lgam(a) + lgam(B) - lgam(b) + lgam(a + b) - lgam(A + B)

    @staticmethod
    def tol_pred(t, h, s, v):
        n = h["alpha"] + h["beta"] + s["heads"] + s["tails"] + 2
        return 1.5e-4 if t.lp else 1e-12 + 4e-15 * n * math.log(n)   # a difference of log gammas

    @staticmethod
    def tol_data(t, h, s):
        A, B = h["alpha"] + s["heads"], h["beta"] + s["tails"]
        return t.LGT(A) + t.LGT(B) + t.LGT(A + B) + t.LGT(h["alpha"]) + t.LGT(h["beta"]) + t.LGT(h["alpha"] + h["beta"])


class BNB(object):
    name, NAME, flavours, debt, discrete, real, mix = "bnb", "BetaNegativeBinomial", ("dbg", "lp"), False, False, False, True

    @staticmethod
    def gen_shared(r):
        return {"alpha": hyper(r, 0.1, 30), "beta": hyper(r, 0.1, 30), "r": 1 if r.chance(0.5) else r.randint(2, 12)}

    @staticmethod
    def gen_value(r, h):
        if BIG[0] and r.chance(0.3):
            return int(r.logunif(200, 200000))
        return r.below(8) if r.chance(0.8) else r.below(200)

    @staticmethod
    def zero(h):
        return {"count": 0, "sum": 0}

    @staticmethod
    def add(s, v, k=1):
        s["count"] += k
        s["sum"] += k * v

    @staticmethod
    def logmarg(h, s):
        a, b = h["alpha"], h["beta"]
        A, B = a + h["r"] * s["count"], b + s["sum"]
        return lgam(A) - lgam(a) + lgam(B) - lgam(b) + lgam(a + b) - lgam(A + B)

    @staticmethod
    def log_base(h, v):
        return lgam(v + h["r"]) - lgam(h["r"]) - lgam(v + 1)

    @staticmethod
    def tol_pred(t, h, s, v):
        A, B, r = h["alpha"] + h["r"] * s["count"], h["beta"] + s["sum"], h["r"]
        return t.LGT(A) + t.LGT(B) + t.LGT(A + B) + t.LGT(A + r) + t.LGT(B + v) + t.LGT(A + B + r + v)

    @staticmethod
    def tol_data(t, h, s):
        A, B = h["alpha"] + h["r"] * s["count"], h["beta"] + s["sum"]
        return t.LGT(A) + t.LGT(B) + t.LGT(A + B) + t.LGT(h["alpha"]) + t.LGT(h["beta"]) + t.LGT(h["alpha"] + h["beta"])


class DD(object):
    name, NAME, flavours, debt, discrete, real, mix = "dd", "DirichletDiscrete", ("dbg", "hp", "lp"), True, True, False, True

    @staticmethod
    def gen_shared(r):
        dim = 256 if r.chance(0.04) else 1 if r.chance(0.08) else r.randint(2, 12)
        sparse = r.chance(0.3)
        return {"alphas": [f32(r.logunif(0.01, 1)) if sparse else hyper(r, 0.1, 20) for _ in range(dim)]}

    @staticmethod
    def gen_value(r, h):
        n = len(h["alphas"])
        return n - 1 if r.chance(0.1) else r.below(n)

    @staticmethod
    def support(h):
        return list(range(len(h["alphas"])))

    @staticmethod
    def zero(h):
        return {"counts": [0] * len(h["alphas"])}

    @staticmethod
    def add(s, v, k=1):
        s["counts"][v] += k

    @staticmethod
    def logmarg(h, s):
        a = numpy.array(h["alphas"], dtype=float)
        n = numpy.array(s["counts"], dtype=float)
        return float((gammaln(a + n) - gammaln(a)).sum() + gammaln(a.sum()) - gammaln(a.sum() + n.sum()))

    @staticmethod
    def logpred(h, s, v):
        return log((h["alphas"][v] + s["counts"][v]) / (sum(h["alphas"]) + sum(s["counts"])))

    @staticmethod
    def tol_pred(t, h, s, v):
        return 2e-4 if t.lp else 1e-12

    @staticmethod
    def tol_data(t, h, s):
        a, n = sum(h["alphas"]), sum(s["counts"])
        x = sum(t.LGT(p + c) + t.LGT(p) for p, c in zip(h["alphas"], s["counts"]) if c or not t.lp)
        return x + t.LGT(a) + t.LGT(a + n) + t.EPS * len(h["alphas"]) * a * log(2 + a + n)


class DPD(object):
    name, NAME, flavours, debt, discrete, real, mix = "dpd", "DirichletProcessDiscrete", ("dbg", "lp"), True, True, False, True

    @staticmethod
    def gen_shared(r):
        k = r.randint(200, 500) if r.chance(0.01) else 60 if r.chance(0.1) else r.randint(1, 8)
        style = r.below(3)
        keys = set()
        while len(keys) < k:  # lp passes values through C int
            keys.add(len(keys) if style == 0 else r.below(50 * k) if style == 1 else r.below(0x7fffffff))
        keys = sorted(keys)
        r.shuffle(keys)
        w = [r.logunif(0.05, 1) for _ in range(k + 1)]
        total = sum(w[:k]) if r.chance(0.4) else sum(w)
        return {"gamma": hyper(r, 0.1, 20), "alpha": hyper(r, 0.1, 20),
                "betas": {key: f32(w[i] / total) for i, key in enumerate(keys)},
                "counts": {key: r.randint(1, 5) for key in keys}}

    @staticmethod
    def beta0(h):
        return max(0.0, 1.0 - sum(h["betas"].values()))

    @staticmethod
    def gen_value(r, h):
        return r.pick(sorted(h["betas"]))

    @staticmethod
    def support(h):
        return sorted(h["betas"]) + ([OTHER] if DPD.beta0(h) > 1e-6 else [])

    @staticmethod
    def zero(h):
        return {"counts": {}}

    @staticmethod
    def add(s, v, k=1):
        c = s["counts"].get(v, 0) + k
        if c:
            s["counts"][v] = c
        else:
            s["counts"].pop(v, None)

    @staticmethod
    def logmarg(h, s):
        t = n = 0
        for v, c in s["counts"].items():
            p = h["alpha"] * h["betas"][v]
            t += lgam(p + c) - lgam(p)
            n += c
        return t + lgam(h["alpha"]) - lgam(h["alpha"] + n)

    @staticmethod
    def logpred(h, s, v):
        b = DPD.beta0(h) if v == OTHER else h["betas"][v]
        return log((h["alpha"] * b + s["counts"].get(v, 0)) / (h["alpha"] + sum(s["counts"].values())))

    @staticmethod
    def tol_pred(t, h, s, v):
        if not t.lp:
            return 1e-12 if v != OTHER else 1e-13 / DPD.beta0(h) + 1e-12
        return 2e-4 if v != OTHER else 2e-4 + 4e-7 * len(h["betas"]) / DPD.beta0(h)

    @staticmethod
    def tol_data(t, h, s):
        x = n = 0
        for v, c in s["counts"].items():
            x += t.LGT(h["alpha"] + c) + t.LGT(1) + (2e-6 if t.lp else 0)
            n += c
        return x + t.LGT(h["alpha"]) + t.LGT(h["alpha"] + n) + t.EPS * n * 10


class GP(object):
    name, NAME, flavours, debt, discrete, real, mix = "gp", "GammaPoisson", ("dbg", "hp", "lp"), False, False, False, True

    @staticmethod
    def gen_shared(r):
        return {"alpha": hyper(r, 0.05, 50), "inv_beta": hyper(r, 0.05, 20)}

    @staticmethod
    def gen_value(r, h):
        if BIG[0] and r.chance(0.3):
            return int(r.logunif(200, 200000))
        return r.below(10) if r.chance(0.75) else r.randint(55, 75) if r.chance(0.7) else r.below(500)

    @staticmethod
    def zero(h):
        return {"count": 0, "sum": 0, "log_prod": 0.0}

    @staticmethod
    def add(s, v, k=1):
        s["count"] += k
        s["sum"] += k * v
        s["log_prod"] += k * lgam(v + 1)

    @staticmethod
    def logmarg(h, s):
        a, b = h["alpha"], h["inv_beta"]
        A, B = a + s["sum"], b + s["count"]
        return lgam(A) - lgam(a) + a * log(b) - A * log(B) - s["log_prod"]

    @staticmethod
    def tol_pred(t, h, s, v):
        A, B = h["alpha"] + s["sum"], h["inv_beta"] + s["count"]
        mag = A * (abs(log(B)) + abs(log(1 + B))) + v * abs(log(1 + B)) + lgam(v + 1) + lgam(A + v + 3)
        return t.LGT(A) + t.LGT(A + v) + (0 if t.lp and v < 64 else t.LGT(v + 1)) + (A * 2 + v) * t.LOGT + 8 * t.EPS * mag

    @staticmethod
    def tol_data(t, h, s):
        A, B = h["alpha"] + s["sum"], h["inv_beta"] + s["count"]
        mag = A * abs(log(B)) + lgam(A + 3) + abs(s["log_prod"])
        return t.LGT(A) + t.LGT(h["alpha"]) + (h["alpha"] + A) * t.LOGT + 8 * t.EPS * mag


class NICH(object):
    name, NAME, flavours, debt, discrete, real, mix = "nich", "NormalInverseChiSq", ("dbg", "hp", "lp"), False, False, True, True

    @staticmethod
    def gen_shared(r):
        unit = r.logunif(1e-4, 1e4) if r.chance(0.12) else 1.0   # the unit the data are measured in
        return {"mu": f32(unit * r.uniform(-3, 3)), "kappa": hyper(r, 0.05, 20),
                "sigmasq": f32(unit * unit * r.logunif(0.05, 20)), "nu": hyper(r, 0.2, 50)}

    @staticmethod
    def gen_value(r, h):
        unit = math.sqrt(h["sigmasq"]) if not 0.04 < h["sigmasq"] < 25 else 1.0
        return f32(unit * (r.randint(-3, 3) if r.chance(0.2) else r.gauss(0, 2) if r.chance(0.9) else r.uniform(-30, 30)))

    @staticmethod
    def zero(h):
        return {"count": 0, "mean": 0.0, "count_times_variance": 0.0}

    @staticmethod
    def add(s, v, k=1):
        n, d = s["count"], v - s["mean"]
        s["count"] += k
        if s["count"] <= 0:
            s["mean"] = s["count_times_variance"] = 0.0
            return
        s["count_times_variance"] = max(0.0, s["count_times_variance"] + d * d * n * k / s["count"])
        s["mean"] += d * k / s["count"]

    @staticmethod
    def post(h, s):
        n, d = s["count"], h["mu"] - s["mean"]
        ka, nu = h["kappa"] + n, h["nu"] + n
        mu = (h["kappa"] * h["mu"] + n * s["mean"]) / ka
        ss = (h["nu"] * h["sigmasq"] + s["count_times_variance"] + n * h["kappa"] * d * d / ka) / nu
        return mu, ka, ss, nu

    @staticmethod
    def logmarg(h, s):
        mu, ka, ss, nu = NICH.post(h, s)
        return (lgam(nu / 2) - lgam(h["nu"] / 2) + 0.5 * log(h["kappa"] / ka) + 0.5 * h["nu"] * log(h["nu"] * h["sigmasq"])
                - 0.5 * nu * log(nu * ss) - 0.5 * s["count"] * log(PI))

    @staticmethod
    def relss(t, h, s):
        return 16 * t.EPS * (1 + (s["mean"] ** 2 + h["mu"] ** 2) * min(s["count"], h["kappa"])
                             / max(1e-30, h["nu"] * h["sigmasq"] + s["count_times_variance"]))

    @staticmethod
    def tol_pred(t, h, s, v):
        mu, ka, ss, nu = NICH.post(h, s)
        prec, d = ka / ((ka + 1) * ss * nu), abs(v - mu)
        dd = 6 * t.EPS * (abs(v) + abs(mu) + abs(h["mu"]) + abs(s["mean"]))
        arg = 1 + prec * d * d
        rs = NICH.relss(t, h, s)
        rel = rs + (2 * prec * (d + dd) * dd) / arg + 6 * t.EPS
        return t.LNU + t.LOGT + rs + 0.5 * (nu + 1) * (t.LOGT + rel) + 20 * t.EPS * (nu + 1) * abs(log(arg))

    @staticmethod
    def tol_data(t, h, s):
        mu, ka, ss, nu = NICH.post(h, s)
        mag = 0.5 * nu * (abs(log(nu * ss)) + 2) + 0.5 * h["nu"] * abs(log(h["nu"] * h["sigmasq"])) + s["count"]
        return (t.LGT(nu / 2) + t.LGT(h["nu"] / 2) + t.LOGT + 0.5 * (nu + h["nu"]) * t.LOGT
                + 0.5 * nu * NICH.relss(t, h, s) + 10 * t.EPS * mag)


class NIW(object):
    name, NAME, flavours, debt, discrete, real, mix = "niw", "NormalInverseWishart", ("dbg", "lp"), False, False, True, False

    @staticmethod
    def gen_shared(r):
        d = r.randint(1, 4)
        a = numpy.array([[r.gauss(0, 1) for _ in range(d)] for _ in range(d)])
        unit = r.logunif(1e-5, 1e5) if r.chance(0.15) else 1.0   # the unit the data are measured in
        psi = unit * unit * r.logunif(0.2, 5) * (a.dot(a.T) + 0.5 * numpy.eye(d))
        psi = numpy.array(psi, dtype=numpy.float32).astype(float)
        psi = (psi + psi.T) / 2
        return {"mu": numpy.array([f32(unit * r.uniform(-2, 2)) for _ in range(d)]), "kappa": f32(r.logunif(0.1, 20)),
                "psi": psi, "nu": f32(d + r.logunif(0.3, 30))}

    @staticmethod
    def gen_value(r, h):
        unit = float(numpy.trace(h["psi"])) / len(h["mu"])
        unit = math.sqrt(unit) if unit < 0.05 or unit > 200 else 1.0
        return numpy.array([f32(unit * r.randint(-2, 2)) if r.chance(0.2) else f32(unit * r.gauss(0, 2)) for _ in h["mu"]])

    @staticmethod
    def zero(h):
        d = len(h["mu"])
        return {"count": 0, "sum_x": numpy.zeros(d), "sum_xxT": numpy.zeros((d, d))}

    @staticmethod
    def add(s, v, k=1):
        s["count"] += k
        s["sum_x"] = s["sum_x"] + k * v
        s["sum_xxT"] = s["sum_xxT"] + k * numpy.outer(v, v)

    @staticmethod
    def psi_post(h, s):
        n, ka = s["count"], h["kappa"]
        if not n:
            return numpy.array(h["psi"], dtype=float)
        xb = numpy.asarray(s["sum_x"], dtype=float) / n
        return h["psi"] + s["sum_xxT"] - n * numpy.outer(xb, xb) + ka * n / (ka + n) * numpy.outer(xb - h["mu"], xb - h["mu"])

    @staticmethod
    def lmg(d, a):
        return d * (d - 1) / 4.0 * log(PI) + sum(lgam(a - j / 2.0) for j in range(d))

    @staticmethod
    def logmarg(h, s):
        d, n, nu = len(h["mu"]), s["count"], h["nu"]
        return (NIW.lmg(d, (nu + n) / 2) - NIW.lmg(d, nu / 2) + 0.5 * nu * numpy.linalg.slogdet(h["psi"])[1]
                - 0.5 * (nu + n) * numpy.linalg.slogdet(NIW.psi_post(h, s))[1] - 0.5 * n * d * log(PI)
                + 0.5 * d * log(h["kappa"] / (h["kappa"] + n)))

    @staticmethod
    def mag(h, s):
        d = len(h["mu"])
        tr = float(numpy.trace(h["psi"]) + numpy.abs(numpy.diag(s["sum_xxT"])).sum() + h["kappa"] * (h["mu"] ** 2).sum())
        ld = numpy.linalg.slogdet(NIW.psi_post(h, s))
        return math.exp(min(600, d * log(tr) - ld[1])) if ld[0] > 0 else 1e30

    @staticmethod
    def tol_pred(t, h, s, v):
        d, nu = len(h["mu"]), h["nu"] + s["count"]
        s2 = dict(s)
        NIW.add(s2, v)
        rel = 30 * t.EPS * (NIW.mag(h, s) + NIW.mag(h, s2))
        return t.LGT((nu + 1) / 2) + t.LGT((nu - d + 1) / 2) + t.LOGT * (1 + d / 2.0) + 0.5 * (nu + 1) * (t.LOGT + rel) + rel

    @staticmethod
    def tol_data(t, h, s):
        d, nu = len(h["mu"]), h["nu"] + s["count"]
        rel = 30 * t.EPS * NIW.mag(h, s)
        x = sum(t.LGT((nu + 1 - j) / 2) + t.LGT((h["nu"] + 1 - j) / 2) for j in range(1, d + 1))
        return x + 0.5 * (nu + h["nu"]) * (t.LOGT + rel) + d * t.LOGT + 100 * t.EPS * nu * d + (1e-4 if t.lp else 0)


MODELS = {m.name: m for m in (BB, BNB, DD, DPD, GP, NICH, NIW)}


def copy_stats(s):
    out = {}
    for k, v in s.items():
        out[k] = v.copy() if hasattr(v, "copy") else list(v) if isinstance(v, list) else v
    return out


def stats_of(T, h, data):
    s = T.zero(h)
    for v in data:
        T.add(s, v)
    return s


def logpred(T, h, s, v):
    if hasattr(T, "logpred"):
        return T.logpred(h, s, v)
    s2 = copy_stats(s)
    T.add(s2, v)
    return T.logmarg(h, s2) - T.logmarg(h, s)


def module(T, flavour):
    return importlib.import_module("distributions.%s.models.%s" % (flavour, T.name))


def size(T, s):
    if T is DD:
        return sum(s["counts"])
    if T is DPD:
        return sum(s["counts"].values())
    if T is BB:
        return s["heads"] + s["tails"]
    return s["count"]


def show(x):
    if isinstance(x, dict):
        return "{%s}" % ", ".join("%s: %s" % (k, show(v)) for k, v in sorted(x.items(), key=lambda i: str(i[0]))[:14])
    if isinstance(x, numpy.ndarray):
        return show(x.tolist())
    if isinstance(x, (list, tuple)):
        return "[%s]" % ", ".join(show(v) for v in x[:24])
    if isinstance(x, float):
        return "%.9g" % x
    return str(x)


def plain(x):
    """JSON-able deep copy of a dump."""
    if isinstance(x, dict):
        return {str(k): plain(v) for k, v in x.items()}
    if isinstance(x, numpy.ndarray):
        return plain(x.tolist())
    if isinstance(x, (list, tuple)):
        return [plain(v) for v in x]
    if isinstance(x, numpy.generic):
        return x.item()
    return x


def same_dump(a, b):
    return json.dumps(plain(a), sort_keys=True) == json.dumps(plain(b), sort_keys=True)


def gen_data(r, T, h, n):
    d = []
    for _ in range(n):
        d.append(r.pick(d) if d and r.chance(0.25) else T.gen_value(r, h))
    return d


def gen_size(r, big=60):
    u = r.random()
    return 0 if u < 0.15 else 1 if u < 0.3 else r.randint(2, 12) if u < 0.9 else r.randint(13, big)


def eqv(a, b):
    return numpy.array_equal(a, b)


def erase_one(d, v):
    for i, x in enumerate(d):
        if eqv(x, v):
            d[i] = d[-1]
            d.pop()
            return True
    return False
