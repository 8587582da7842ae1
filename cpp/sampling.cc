// P11, P12: discrete and continuous samplers of random.hpp (C++).
#include "vh.hpp"
#include <cmath>
#include <algorithm>
#include <boost/math/distributions/beta.hpp>
#include <boost/math/distributions/chi_squared.hpp>
#include <boost/math/distributions/gamma.hpp>
#include <boost/math/distributions/normal.hpp>
#include <boost/math/distributions/poisson.hpp>
#include <boost/math/distributions/negative_binomial.hpp>
#include <eigen3/Eigen/Dense>
#include <distributions/random.hpp>
#include <distributions/vector.hpp>
#include <distributions/aligned_allocator.hpp>

using namespace vh;
namespace d = distributions;
namespace bm = boost::math;
using d::rng_t;
typedef std::vector<float> Vec;

static void reseed(rng_t & e, Rng & r) { e.seed((unsigned)(1 + r.below(2000000000))); }

// randomised transform of a single-precision draw: the float stands for the reals that round to it
template<class F> static double pit_float(float x, Rng & r, F cdf) {
    double lo = ((double)x + (double)std::nextafter(x, -INFINITY)) / 2, hi = ((double)x + (double)std::nextafter(x, (float)INFINITY)) / 2;
    double a = cdf(lo), b = cdf(hi);
    return a + (b - a) * r.unif();
}

// ------------------------------------------------------------------ P11
// a state of the random stream whose next output is `target`
static rng_t state_before(uint64_t target) {
    const uint64_t m = 2147483647ull;
    uint64_t inv = 1, b = 16807, ex = m - 2;   // a^(m-2) mod m
    while (ex) { if (ex & 1) inv = inv * b % m; b = b * b % m; ex >>= 1; }
    rng_t e;
    e.seed((unsigned)(target % m * inv % m));
    return e;
}
static std::string show_vec(const Vec & v) {
    S o;
    for (size_t i = 0; i < v.size() && i < 12; ++i) o << v[i] << " ";
    return S() << "[" << std::string(o) << (v.size() > 12 ? "...] size " : "] size ") << v.size();
}
struct Weights {   // what is handed to the sampler and the exact weights it stands for
    Vec scores, likes, probs;
    std::vector<double> p;      // by score
    std::vector<double> pl;     // by likelihood
    std::vector<double> pp;     // by normalised probability, as stored
    double lse;                 // exact log-sum-exp of the scores
};
static Weights gen_weights(Rng & r, size_t cap) {
    Weights w;
    size_t n = r.chance(0.15) ? 1 : r.chance(0.7) ? r.range(2, 12) : r.range(13, cap);
    int style = r.below(7);
    bool crowd = r.chance(0.02);   // one leader, and a crowd that counts only together
    double behind = r.unif(8, 13.4);
    if (crowd) { style = 7; n = r.logunif(1500, 40000); }
    size_t leader = r.below(n);
    double shift = crowd || r.chance(0.5) ? 0 : r.chance(0.5) ? r.unif(-200, 200) : r.unif(-1, 1) * r.logunif(1e3, 1e6);
    for (size_t i = 0; i < n; ++i) {
        double s = style == 0 ? 0 : style == 1 ? r.unif(-3, 3) : style == 2 ? r.unif(-30, 0) : style == 3 ? -(double)i * 0.3
                 : style == 4 ? (r.chance(0.5) ? -1e6 : r.unif(-1, 1)) : style == 5 ? r.normal() * 1.5
                 : style == 7 ? (i == leader ? 0 : -behind + 0.1 * r.unif(-1, 1)) : (r.chance(0.2) ? 0 : -60);
        w.scores.push_back(s + shift);
        float l = style == 2 ? dexp(r.unif(-30, 3)) : r.chance(0.25) ? 0 : style == 6 ? 1e-30f * (float)r.unif(0.1, 1) : (float)r.unif(0.01, 5);
        w.likes.push_back(l);
    }
    bool any = false;
    for (float l : w.likes) any |= l > 0;
    if (!any) w.likes[r.below(n)] = 1;
    double tl = 0, hi = *std::max_element(w.scores.begin(), w.scores.end()), ts = 0;
    for (float l : w.likes) tl += l;
    for (float s : w.scores) ts += dexp((double)s - hi);
    w.lse = hi + dlog(ts);
    for (size_t i = 0; i < n; ++i) {
        w.p.push_back(dexp((double)w.scores[i] - hi) / ts);
        w.pl.push_back(w.likes[i] / tl);
        w.probs.push_back(w.likes[i] / tl);
    }
    double tp = 0;
    for (float p : w.probs) tp += p;
    for (float p : w.probs) w.pp.push_back(p / tp);
    return w;
}
template<class V> static V as(const Vec & v) { return V(v.begin(), v.end()); }
template<class V> static V make(const Vec & v);
template<> Vec make<Vec>(const Vec & v) { return v; }
template<> d::VectorFloat make<d::VectorFloat>(const Vec & v) { d::VectorFloat o(v.size()); std::copy(v.begin(), v.end(), o.begin()); return o; }

static const char * const DRAWS[] = {"sample_discrete", "sample_from_likelihoods", "sample_from_likelihoods_total", "sample_from_probs",
                                     "sample_from_scores", "sample_from_scores_overwrite", "sample_prob_from_scores_overwrite"};
template<class V> static size_t draw(int kind, const Weights & w, rng_t & e, double * prob) {
    switch (kind) {
        case 0: return d::sample_discrete(e, w.probs.size(), w.probs.data());
        case 1: return d::sample_from_likelihoods(e, make<V>(w.likes));
        case 2: { float t = 0; for (float l : w.likes) t += l; return d::sample_from_likelihoods(e, make<V>(w.likes), t); }
        case 3: return d::sample_from_probs(e, make<V>(w.probs));
        case 4: return d::sample_from_scores(e, make<V>(w.scores));
        case 5: { V s = make<V>(w.scores); return d::sample_from_scores_overwrite(e, s); }
        default: { V s = make<V>(w.scores); auto p = d::sample_prob_from_scores_overwrite(e, s); *prob = p.second; return p.first; }
    }
}
static bool positive(int kind, const Weights & w, size_t i) {
    if (kind == 0 || kind == 3) return w.probs[i] > 0;
    if (kind <= 2) return w.likes[i] > 0;
    Vec s = w.scores;   // fast_exp saturates: a hopeless score still has a tiny positive likelihood
    d::scores_to_likelihoods(s);
    return s[i] > 0;
}
template<class V> static void P11v(Rng & r, const std::string & vn) {
    Weights w = gen_weights(r, 300);
    const size_t n = w.scores.size();
    std::string cs = show_vec(w.scores), cl = show_vec(w.likes);
    R().seen(hash_str(cs + cl));
    R().sample("scores " + cs + " likelihoods " + cl);
    // values
    double big = 0;
    for (float s : w.scores) big = std::max(big, std::abs((double)s));
    double tol = 2e-4 + 3e-7 * n + 1.5e-7 * big;
    if (!VH_CLOSE("P11:log_sum_exp:" + vn, d::log_sum_exp(make<V>(w.scores)), w.lse, tol, cs)) return;
    {
        V s = make<V>(w.scores);
        d::scores_to_probs(s);
        double t = 0;
        for (size_t i = 0; i < n; ++i) {
            t += s[i];
            if (!VH_CLOSE("P11:scores_to_probs:" + vn, s[i], w.p[i], 2e-5 * w.p[i] + 1e-7 * n * w.p[i] + 1e-37, cs << " at " << i)) return;
        }
        if (!VH_CLOSE("P11:probs-sum:" + vn, t, 1.0, 1e-6 + 2e-7 * n, cs)) return;
        V l = make<V>(w.scores);
        double total = d::scores_to_likelihoods(l), hi = 0, sum = 0;
        for (size_t i = 0; i < n; ++i) { hi = std::max(hi, (double)l[i]); sum += l[i]; }
        if (!VH_CLOSE("P11:likelihood-total:" + vn, total, sum, (1e-6 + 2e-7 * n) * sum, cs)) return;
        for (size_t i = 0; i < n; ++i)
            if (!VH_CLOSE("P11:scores_to_likelihoods:" + vn, l[i] / total, w.p[i], 2e-5 * w.p[i] + 1e-7 * n * w.p[i] + 1e-37, cs << " at " << i)) return;
        size_t i = r.below(n);
        V q = make<V>(w.scores);
        rng_t e; reseed(e, r);
        if (!VH_CLOSE("P11:score_from_scores:" + vn, d::score_from_scores_overwrite(e, i, q), (double)w.scores[i] - w.lse, tol, cs << " at " << i)) return;
        R().event("value_checks", 3 * n);
        if (n > 1000) R().event("crowded_vectors");
    }
    // any state of the stream gives a possible index
    for (int k = 0; k < (n > 1000 ? 12 : 60); ++k) {
        uint64_t m = 2147483647ull, t;
        switch (r.below(5)) {
            case 0: t = 1 + r.below(40); break;
            case 1: t = m - 1 - r.below(200); break;
            case 2: { double c = 0; size_t upto = r.below(n + 1); for (size_t i = 0; i < upto; ++i) c += w.pl[i]; t = (uint64_t)std::min((double)m - 1, std::max(1.0, c * (m - 2) + r.range(-300, 300))); break; }
            case 3: { double c = 0; size_t upto = r.below(n + 1); for (size_t i = 0; i < upto; ++i) c += w.p[i]; t = (uint64_t)std::min((double)m - 1, std::max(1.0, c * (m - 2) + r.range(-300, 300))); break; }
            default: t = 1 + r.below(m - 1);
        }
        int kind = r.below(7);
        rng_t e = state_before(t);
        double prob = -1;
        size_t i = draw<V>(kind, w, e, &prob);
        std::string K = std::string("P11:") + DRAWS[kind] + ":" + vn;
        if (!VH_TRUE(K + ":index", i < n, "index " << i << " of " << n << " " << cs << cl << " stream output " << t)) return;
        if (!VH_TRUE(K + ":impossible", positive(kind, w, i), "index " << i << " " << (kind > 3 ? cs : cl) << " stream output " << t)) return;
        if (kind == 6 && !VH_CLOSE(K + ":prob", prob, w.p[i], 2e-5 * w.p[i] + 1e-7 * n * w.p[i] + 1e-37, "index " << i << " " << cs)) return;
        R().event("forced_states");
    }
    // frequencies
    if (n <= 1000 && r.chance(0.5)) {
        int kind = r.below(7);
        const std::vector<double> & p = kind == 0 || kind == 3 ? w.pp : kind <= 2 ? w.pl : w.p;
        double worst;
        bool ok = believable([&](int scale) {
            std::vector<double> obs(n, 0.0);
            rng_t e;
            double prob;
            for (int i = 0; i < 4000 * scale; ++i) {
                if (i % 2000 == 0) reseed(e, r);
                size_t k = draw<V>(kind, w, e, &prob);
                if (k >= n) return 0.0;
                obs[k]++;
            }
            R().event("draws", 4000 * scale);
            return chisq_p(obs, p);
        }, &worst);
        VH_TRUE(std::string("P11:") + DRAWS[kind] + ":" + vn + ":frequencies", ok, "p=" << worst << " " << (kind > 3 ? cs : cl));
        R().event("frequency_tests");
    }
}
static void P11(Rng & r) {
    if (r.chance(0.5)) P11v<Vec>(r, "std"); else P11v<d::VectorFloat>(r, "aligned");
    // nothing to draw from
    rng_t e; reseed(e, r);
    Vec none;
    VH_TRUE("P11:empty-accepted", throws([&] { d::sample_discrete(e, 0, none.data()); }) && throws([&] { d::sample_from_likelihoods(e, none); })
            && throws([&] { d::sample_from_likelihoods(e, none, 1.f); }) && throws([&] { Vec s; d::sample_from_scores_overwrite(e, s); })
            && throws([&] { Vec s; d::sample_prob_from_scores_overwrite(e, s); }) && throws([&] { d::sample_from_urn(e, std::vector<int>()); })
            && throws([&] { d::sample_pair_from_urn(e, std::vector<int>(1, 7)); }) && throws([&] { Vec s(3, 0.f); d::score_from_scores_overwrite(e, 3 + r.below(4), s); }),
            "a sampler accepted too few elements");
    // urns
    if (r.chance(0.4)) {
        size_t n = r.range(1, 9);
        std::vector<int> urn(n);
        for (size_t i = 0; i < n; ++i) urn[i] = 100 + 7 * i;
        double worst;
        bool ok = believable([&](int scale) {
            std::vector<double> obs(n, 0.0);
            for (int i = 0; i < 2000 * scale; ++i) {
                if (i % 1000 == 0) reseed(e, r);
                int v = d::sample_from_urn(e, urn);
                size_t k = (v - 100) / 7;
                if (!VH_TRUE("P11:urn:foreign", k < n && urn[k] == v, "drew " << v)) return 1.0;
                obs[k]++;
            }
            return chisq_p(obs, std::vector<double>(n, 1.0 / n));
        }, &worst);
        VH_TRUE("P11:urn:frequencies", ok, "urn of " << n << " p=" << worst);
        if (n >= 2) {
            ok = believable([&](int scale) {
                std::vector<double> obs(n * n, 0.0), pr(n * n, 0.0);
                for (int i = 0; i < 4000 * scale; ++i) {
                    if (i % 1000 == 0) reseed(e, r);
                    auto v = d::sample_pair_from_urn(e, urn);
                    size_t a = (v.first - 100) / 7, b = (v.second - 100) / 7;
                    if (!VH_TRUE("P11:urn-pair:foreign", a < n && b < n && a != b, "drew " << v.first << "," << v.second)) return 1.0;
                    obs[a * n + b]++;
                }
                for (size_t a = 0; a < n; ++a) for (size_t b = 0; b < n; ++b) if (a != b) pr[a * n + b] = 1.0 / (n * (n - 1));
                return chisq_p(obs, pr);
            }, &worst);
            VH_TRUE("P11:urn-pair:frequencies", ok, "urn of " << n << " p=" << worst);
        }
        R().event("urns");
    }
}
static Register r_P11("P11", P11);

// ------------------------------------------------------------------ P12
template<class F> static void law(Rng & r, const std::string & key, const std::string & ctx, F one, int n = 3000) {
    double worst;
    bool dead = false;
    bool ok = believable([&](int scale) {
        std::vector<double> u;
        rng_t e;
        for (int i = 0; i < n * scale && !dead; ++i) {
            if (i % 500 == 0) reseed(e, r);
            if (!one(e, u)) dead = true;
        }
        R().event("draws", u.size());
        return dead || u.empty() ? 1.0 : ks_p(u);
    }, &worst);
    if (!dead) VH_TRUE(key + ":law", ok, ctx << " does not follow its distribution, p=" << worst);
    R().event("laws");
    R().seen(hash_str(key + ctx));
    R().sample(key + " " + ctx);
}
static Eigen::MatrixXf gen_spd(Rng & r, int n) {
    Eigen::MatrixXf a(n, n);
    for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) a(i, j) = r.normal();
    Eigen::MatrixXf m = a * a.transpose() + 0.7f * Eigen::MatrixXf::Identity(n, n);
    return m * (float)r.logunif(0.2, 5);
}
static void push_wishart(const Eigen::MatrixXd & w, const Eigen::MatrixXd & scale, double nu, std::vector<double> & u) {
    Eigen::MatrixXd L = scale.llt().matrixL();
    Eigen::MatrixXd Y = L.triangularView<Eigen::Lower>().solve(w);
    Eigen::MatrixXd A = L.triangularView<Eigen::Lower>().solve(Y.transpose());
    A = (A + A.transpose()) / 2;
    Eigen::MatrixXd T = A.llt().matrixL();
    for (int i = 0; i < T.rows(); ++i) {
        u.push_back(bm::cdf(bm::chi_squared(nu - i), T(i, i) * T(i, i)));
        for (int j = 0; j < i; ++j) u.push_back(bm::cdf(bm::normal(), T(i, j)));
    }
}
static void push_normal(const Eigen::VectorXd & x, const Eigen::VectorXd & mu, const Eigen::MatrixXd & cov, std::vector<double> & u) {
    Eigen::MatrixXd L = cov.llt().matrixL();
    Eigen::VectorXd z = L.triangularView<Eigen::Lower>().solve(x - mu);
    for (int i = 0; i < z.size(); ++i) u.push_back(bm::cdf(bm::normal(), z(i)));
}
static bool spd(const Eigen::MatrixXf & m) {   // up to single-precision rounding
    Eigen::MatrixXd s = (m + m.transpose()).cast<double>() / 2;
    s += 1e-5 * s.norm() * Eigen::MatrixXd::Identity(s.rows(), s.cols());
    return (m - m.transpose()).norm() <= 1e-3f * m.norm() && s.llt().info() == Eigen::Success;
}
static bool invertible(const Eigen::MatrixXf & m) {
    Eigen::VectorXd ev = Eigen::SelfAdjointEigenSolver<Eigen::MatrixXd>(m.cast<double>()).eigenvalues();
    return ev(0) > 1e-4 * ev(ev.size() - 1);
}
static void P12(Rng & r) {
    const int N = r.chance(0.04) ? 200000 : 3000;   // now and then a close look
    if (N > 3000) R().event("close_looks");
    switch (r.below(17)) {
        case 16: {   // shapes so small that both gammas underflow: the beta is all but a coin
            float a = r.logunif(1e-4, 0.02), b = r.logunif(1e-4, 0.02);
            bool safe = r.chance(0.3);
            std::string ctx = S() << "alpha " << a << " beta " << b << " safe " << safe;
            double worst;
            bool ok = true;
            bool fits = believable([&](int scale) {
                rng_t e; reseed(e, r);
                std::vector<double> obs(2, 0.0), probs{b / ((double)a + b), a / ((double)a + b)};
                for (int i = 0; i < 500 * scale; ++i) {
                    float x = safe ? d::sample_beta_safe(e, a, b, 1e-6f) : d::sample_beta(e, a, b);
                    if (!(x >= 0 && x <= 1)) { ok = false; return 1.0; }
                    ++obs[x > 0.5f];
                }
                R().event("draws", 500 * scale);
                return chisq_p(obs, probs);
            }, &worst);
            R().event("tiny_beta_laws");
            R().event("laws");
            VH_TRUE("P12:beta:range", ok, ctx);
            VH_TRUE("P12:beta:tiny", fits, ctx << " p " << worst);
            break;
        }
        case 0: {
            float mu = r.unif(-1, 1) * r.logunif(0.1, 100), var = r.logunif(1e-3, 1e3);
            bm::normal q(mu, std::sqrt((double)var));
            law(r, "P12:normal", S() << "mean " << mu << " variance " << var, [&](rng_t & e, std::vector<double> & u) {
                u.push_back(pit_float(d::sample_normal(e, mu, var), r, [&](double x) { return bm::cdf(q, x); })); return true; }, N);
            break;
        }
        case 1:
            law(r, "P12:std_normal", "", [&](rng_t & e, std::vector<double> & u) { u.push_back(bm::cdf(bm::normal(), d::sample_std_normal(e))); return true; }, N);
            law(r, "P12:unif01", "", [&](rng_t & e, std::vector<double> & u) {
                double x = d::sample_unif01(e);
                if (!VH_TRUE("P12:unif01:range", x >= 0 && x < 1, x)) return false;
                u.push_back(x); return true; }, N);
            break;
        case 2: {
            float nu = r.logunif(0.1, 200);
            law(r, "P12:chisq", S() << "nu " << nu, [&](rng_t & e, std::vector<double> & u) {
                u.push_back(pit_float(d::sample_chisq(e, nu), r, [&](double x) { return x <= 0 ? 0 : bm::cdf(bm::chi_squared(nu), x); })); return true; }, N);
            break;
        }
        case 3: case 4: {
            float a = r.logunif(0.05, 200), b = r.logunif(1e-2, 1e2);
            bool dflt = r.chance(0.3);
            bm::gamma_distribution<> q(a, dflt ? 1.0 : b);
            law(r, "P12:gamma", S() << "shape " << a << " scale " << (dflt ? 1.f : b), [&](rng_t & e, std::vector<double> & u) {
                float x = dflt ? d::sample_gamma(e, a) : d::sample_gamma(e, a, b);
                if (!VH_TRUE("P12:gamma:sign", x >= 0, x)) return false;
                u.push_back(pit_float(x, r, [&](double y) { return y <= 0 ? 0 : bm::cdf(q, y); })); return true; }, N);
            break;
        }
        case 5: case 6: {
            float a = r.logunif(0.05, 100), b = r.logunif(0.05, 100);
            bool safe = r.chance(0.5);
            float mn = r.chance(0.3) ? 0 : r.logunif(1e-7, 1e-1);
            bm::beta_distribution<> q(a, b);
            auto cdf = [&](double y) { return y <= 0 ? 0 : y >= 1 ? 1 : bm::cdf(q, y); };
            std::string ctx = S() << "alpha " << a << " beta " << b << " min " << (safe ? mn : -1);
            if (!safe || (mn < 1e-6 && a > 0.5 && b > 0.5)) law(r, safe ? "P12:beta_safe" : "P12:beta", ctx, [&](rng_t & e, std::vector<double> & u) {
                float x = safe ? d::sample_beta_safe(e, a, b, mn) : d::sample_beta(e, a, b);
                if (!VH_TRUE("P12:beta:range", x >= 0 && x <= 1, ctx << " drew " << x)) return false;
                double w = safe ? mn * 2 : 0;
                double lo = cdf(((double)x + std::nextafter(x, -1.f)) / 2 - w), hi = cdf(((double)x + std::nextafter(x, 2.f)) / 2 + w);
                if (!safe) u.push_back(lo + (hi - lo) * r.unif()); else if (hi - lo < 0.004) u.push_back((lo + hi) / 2); else u.push_back(lo + (hi - lo) * r.unif());
                return true; }, !safe && std::min(a, b) > 0.7f ? N : 3000);   // values crowd at a bound of the floats otherwise
            if (safe) for (int i = 0; i < 300; ++i) {
                rng_t e; reseed(e, r);
                float x = d::sample_beta_safe(e, a, b, mn);
                if (!VH_TRUE("P12:beta_safe:bounds", x >= mn / (1 + (double)mn) * (1 - 1e-6) && x <= 1, ctx << " drew " << x)) return;
                R().event("bounds");
            }
            break;
        }
        case 7: {
            float mean = r.logunif(1e-3, 3e4);
            bm::poisson_distribution<> q(mean);
            law(r, "P12:poisson", S() << "mean " << mean, [&](rng_t & e, std::vector<double> & u) {
                int k = d::sample_poisson(e, mean);
                if (!VH_TRUE("P12:poisson:sign", k >= 0, k)) return false;
                double lo = k ? bm::cdf(q, k - 1) : 0, hi = bm::cdf(q, k);
                u.push_back(lo + (hi - lo) * r.unif()); return true; }, N);
            break;
        }
        case 8: {
            float p = r.unif(0.02, 0.98);
            int n = r.range(1, 40);
            bm::negative_binomial_distribution<> q(n, p);
            law(r, "P12:negative_binomial", S() << "p " << p << " r " << n, [&](rng_t & e, std::vector<double> & u) {
                int k = d::sample_negative_binomial(e, p, n);
                if (!VH_TRUE("P12:negative_binomial:sign", k >= 0, k)) return false;
                double lo = k ? bm::cdf(q, k - 1) : 0, hi = bm::cdf(q, k);
                u.push_back(lo + (hi - lo) * r.unif()); return true; }, N);
            break;
        }
        case 9: {
            float p = r.chance(0.15) ? 0 : r.chance(0.15) ? 1 : r.unif();
            law(r, "P12:bernoulli", S() << "p " << p, [&](rng_t & e, std::vector<double> & u) {
                bool k = d::sample_bernoulli(e, p);
                if (!VH_TRUE("P12:bernoulli:certain", !(p == 0 && k) && !(p == 1 && !k), "p " << p << " drew " << k)) return false;
                u.push_back(k ? 1 - p + p * r.unif() : (1 - p) * r.unif()); return true; }, N);
            int lo = r.range(-20, 20), hi = lo + r.below(12);
            if (r.chance(0.5)) {   // anything an int can hold, the ends included
                int64_t lowest = std::numeric_limits<int>::min(), highest = std::numeric_limits<int>::max();
                int64_t a = r.chance(0.2) ? lowest : lowest + (int64_t)r.below(1ull << 32), b = r.chance(0.2) ? highest : lowest + (int64_t)r.below(1ull << 32);
                if (r.chance(0.4)) b = std::min(highest, a + (int64_t)r.logunif(1, 4e9));
                lo = std::min(a, b), hi = std::max(a, b);
                R().event("wide_int_ranges");
            }
            law(r, "P12:int", S() << lo << ".." << hi, [&](rng_t & e, std::vector<double> & u) {
                int k = d::sample_int(e, lo, hi);
                if (!VH_TRUE("P12:int:range", k >= lo && k <= hi, k)) return false;
                u.push_back((((double)k - lo) + r.unif()) / ((double)hi - lo + 1)); return true; }, N);
            break;
        }
        case 10: case 11: case 12: {
            size_t n = r.chance(0.1) ? 1 : r.chance(0.1) ? 200 : r.range(2, 12);
            bool safe = r.chance(0.35), alias = r.chance(0.5);
            float mn = r.chance(0.3) ? 0 : r.logunif(1e-7, 1e-2);
            Vec a(n);
            double A = 0, sub = 0;
            std::vector<bool> in(n);
            bool zeros = !safe && r.chance(0.3);
            double lowest = r.chance(0.3) ? 1e-3 : 0.05;
            for (size_t i = 0; i < n; ++i) { a[i] = zeros && r.chance(0.3) ? 0.f : (float)r.logunif(lowest, 20); in[i] = r.chance(0.5); A += a[i]; if (in[i]) sub += a[i]; }
            if (A == 0) { a[0] = 1; A = 1; if (in[0]) sub = 1; }
            std::string ctx = "alphas " + show_vec(a) + (safe ? (std::string)(S() << " min " << mn) : "");
            bool testlaw = n > 1 && sub > 0 && sub < A && (!safe || (mn * n < 1e-6 && sub > 0.5 && A - sub > 0.5)) && A > 0.3;
            if (!testlaw) { in.assign(n, false); }
            bm::beta_distribution<> q(testlaw ? sub : 1, testlaw ? A - sub : 1);
            auto cdf = [&](double y) { return y <= 0 ? 0 : y >= 1 ? 1 : bm::cdf(q, y); };
            law(r, safe ? "P12:dirichlet_safe" : "P12:dirichlet", ctx, [&](rng_t & e, std::vector<double> & u) {
                Vec guard(n + 8, -7.f), out;
                for (size_t i = 0; i < n; ++i) guard[4 + i] = alias ? a[i] : -9.f;
                const float * src = alias ? guard.data() + 4 : a.data();
                if (safe) d::sample_dirichlet_safe(e, n, src, guard.data() + 4, mn); else d::sample_dirichlet(e, n, src, guard.data() + 4);
                double t = 0, s = 0;
                for (size_t i = 0; i < n; ++i) {
                    float x = guard[4 + i];
                    if (!VH_TRUE("P12:dirichlet:range", x >= 0 && x <= 1 + 1e-6f, ctx << " drew " << x)) return false;
                    if (!safe && a[i] == 0 && !VH_TRUE("P12:dirichlet:zero", x == 0, ctx << " drew " << x << " for a zero concentration")) return false;
                    if (safe && !VH_TRUE("P12:dirichlet_safe:floor", x >= mn / (1.0 + (double)mn * n) * (1 - 1e-5), ctx << " drew " << x)) return false;
                    t += x;
                    if (in[i]) s += x;
                }
                for (size_t i = 0; i < 4; ++i) if (!VH_TRUE("P12:dirichlet:guard", guard[i] == -7.f && guard[4 + n + i] == -7.f, ctx)) return false;
                if (!VH_CLOSE("P12:dirichlet:sum", t, 1.0, 2e-6 + 1.5e-7 * n, ctx)) return false;
                if (testlaw) { double lo = cdf(s - 2e-7), hi = cdf(s + 2e-7); u.push_back(lo + (hi - lo) * r.unif()); }
                R().event("simplexes");
                return true; }, n > 50 ? 500 : 2000);
            break;
        }
        case 13: {
            int n = r.range(1, 5);
            Eigen::MatrixXf c = gen_spd(r, n);
            Eigen::VectorXf mu(n);
            for (int i = 0; i < n; ++i) mu(i) = r.unif(-3, 3);
            law(r, "P12:multivariate_normal", S() << "dim " << n << " cov(0,0) " << c(0, 0), [&](rng_t & e, std::vector<double> & u) {
                Eigen::VectorXf x = d::sample_multivariate_normal(mu, c, e);
                push_normal(x.cast<double>(), mu.cast<double>(), c.cast<double>(), u); return true; }, 1500);
            break;
        }
        case 14: {
            int n = r.range(1, 5);
            Eigen::MatrixXf c = gen_spd(r, n);
            float nu = n + r.logunif(1.5, 20);
            bool inv = r.chance(0.5);
            law(r, inv ? "P12:inverse_wishart" : "P12:wishart", S() << "dim " << n << " nu " << nu, [&](rng_t & e, std::vector<double> & u) {
                Eigen::MatrixXf w = inv ? d::sample_inverse_wishart(nu, c, e) : d::sample_wishart(nu, c, e);
                if (!VH_TRUE("P12:wishart:spd", spd(w), "nu " << nu << " dim " << n)) return false;
                if (!invertible(w)) { R().event("ill_conditioned"); return true; }
                if (inv) push_wishart(w.cast<double>().inverse(), c.cast<double>().inverse(), nu, u); else push_wishart(w.cast<double>(), c.cast<double>(), nu, u);
                return true; }, 1000);
            break;
        }
        case 15: {
            int n = r.range(1, 4);
            Eigen::MatrixXf c = gen_spd(r, n);
            float nu = n + r.logunif(1.5, 20), lambda = r.logunif(0.1, 20);
            Eigen::VectorXf mu(n);
            for (int i = 0; i < n; ++i) mu(i) = r.unif(-3, 3);
            bool second = r.chance(0.5);
            law(r, "P12:normal_inverse_wishart", S() << "dim " << n << " nu " << nu << " lambda " << lambda << (second ? " cov" : " mean"), [&](rng_t & e, std::vector<double> & u) {
                auto p = d::sample_normal_inverse_wishart(mu, lambda, c, nu, e);
                if (!VH_TRUE("P12:normal_inverse_wishart:spd", spd(p.second), "nu " << nu << " dim " << n)) return false;
                if (!invertible(p.second)) { R().event("ill_conditioned"); return true; }
                if (second) push_wishart(p.second.cast<double>().inverse(), c.cast<double>().inverse(), nu, u);
                else push_normal(p.first.cast<double>(), mu.cast<double>(), p.second.cast<double>() / lambda, u);
                return true; }, 1000);
            break;
        }
    }
}
static Register r_P12("P12", P12);
