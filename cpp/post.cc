// P13: values drawn from groups follow the predictive law, for one model (MODEL).
#include <boost/math/distributions/negative_binomial.hpp>
#include "model_common.hpp"
#include <boost/math/distributions/students_t.hpp>
namespace bm = boost::math;

// randomised transform of a value by the exact predictive law given statistics; false: outside the support
template<class TT, int discrete, int real> struct Law;

template<class TT> struct Law<TT, 1, 0> {   // finite support
    std::vector<typename TT::Value> vals;
    std::vector<double> cum;
    void init(const typename TT::Shared & h, const Stats & s) {
        vals = TT::support(h);
        cum.assign(1, 0.0);
        weights(h, s, (TT *)nullptr);
    }
    template<class U> void weights(const typename U::Shared & h, const Stats & s, U *) {
        for (auto && v : vals) cum.push_back(cum.back() + dexp(logpred<U>(h, s, v)));
    }
    void normalise(const std::vector<double> & w) {
        double t = 0;
        for (double x : w) t += x;
        for (double x : w) cum.push_back(cum.back() + x / t);
    }
    void weights(const DD::Shared & h, const Stats & s, DD *) {
        std::vector<double> w;
        for (int i = 0; i < h.dim; ++i) w.push_back((double)h.alphas[i] + s.n[i]);
        normalise(w);
    }
    void weights(const DPD::Shared & h, const Stats & s, DPD *) {
        std::vector<double> w;
        auto b = DPD::betas(h);
        for (auto v : vals) {
            auto c = s.m.find(v);
            w.push_back((double)h.alpha * (v == DPD::Model::OTHER() ? (double)h.beta0 : b[v]) + (c == s.m.end() ? 0 : c->second));
        }
        normalise(w);
    }
    bool operator()(const typename TT::Value & x, Rng & r, std::vector<double> & u) const {
        for (size_t i = 0; i < vals.size(); ++i)
            if (TT::same(vals[i], x)) {
                if (!(cum[i + 1] > cum[i])) return false;
                u.push_back(std::min(1.0, cum[i] + (cum[i + 1] - cum[i]) * r.unif()));
                return true;
            }
        return false;
    }
};
template<class TT> struct Law<TT, 0, 0> {   // counts
    mutable std::vector<double> cum;
    typename TT::Shared h;
    Stats s;
    void init(const typename TT::Shared & h_, const Stats & s_) { h = h_; s = s_; cum.assign(1, 0.0); }
    bool operator()(const typename TT::Value & x, Rng & r, std::vector<double> & u) const {
        size_t need = std::min<size_t>((size_t)x + 2, 60000);
        while (cum.size() < need && cum.back() < 1 - 1e-10) {
            typename TT::Value v = cum.size() - 1;
            cum.push_back(cum.back() + dexp(logpred<TT>(h, s, v) + log_base<TT>(h, v)));
        }
        double lo, hi;
        if ((size_t)x + 1 < cum.size()) { lo = cum[x]; hi = cum[x + 1]; } else { lo = cum.back(); hi = 1; }
        u.push_back(std::min(1.0, lo + (hi - lo) * r.unif()));
        return true;
    }
};
template<class TT> struct Law<TT, 0, 1> {};
template<> struct Law<NICH, 0, 1> {
    double mu, scale, nu;
    void init(const NICH::Shared & h, const Stats & s) {
        double ka, ss;
        NICH::post(h, s, mu, ka, ss, nu);
        scale = std::sqrt(ss * (ka + 1) / ka);
    }
    bool operator()(const float & x, Rng & r, std::vector<double> & u) const {
        if (!is_finite(x)) return false;
        bm::students_t q(nu);
        double lo = ((double)x + std::nextafter(x, -INFINITY)) / 2, hi = ((double)x + std::nextafter(x, (float)INFINITY)) / 2;
        double a = bm::cdf(q, (lo - mu) / scale), b = bm::cdf(q, (hi - mu) / scale);
        u.push_back(a + (b - a) * r.unif());
        return true;
    }
};
template<> struct Law<NIW, 0, 1> {
    int d;
    double df;
    std::vector<double> mu, L;
    void init(const NIW::Shared & sh, const Stats & s) {
        auto h = NIW::dump(sh);
        d = h.mu_size();
        double n = s.n[0], ka = h.kappa() + n, nu = h.nu() + n;
        df = nu - d + 1;
        auto p = NIW::psi_post(h, s);
        mu.assign(d, 0); L.assign(d * d, 0);
        for (int i = 0; i < d; ++i) mu[i] = (h.kappa() * h.mu(i) + s.x[i]) / ka;
        for (int i = 0; i < d; ++i) for (int j = 0; j <= i; ++j) {     // Cholesky of the scale matrix
            double t = p[i * d + j] * (ka + 1) / (ka * df);
            for (int k = 0; k < j; ++k) t -= L[i * d + k] * L[j * d + k];
            L[i * d + j] = i == j ? std::sqrt(t) : t / L[j * d + j];
        }
    }
    // z_k / sqrt((df + |z_1..k|^2) / (df + k)) are independent t with df + k degrees of freedom
    bool operator()(const NIW::Value & x, Rng &, std::vector<double> & u) const {
        if (x.size() != d) return false;
        std::vector<double> z(d);
        double ss = 0;
        for (int i = 0; i < d; ++i) {
            double t = x(i) - mu[i];
            for (int k = 0; k < i; ++k) t -= L[i * d + k] * z[k];
            z[i] = t / L[i * d + i];
            if (!is_finite(z[i])) return false;
            u.push_back(bm::cdf(bm::students_t(df + i), z[i] / std::sqrt((df + ss) / (df + i))));
            ss += z[i] * z[i];
        }
        return true;
    }
};
typedef Law<T, T::discrete, T::real> PLaw;

template<class TT> struct Fit { static bool usable(const typename TT::Shared &, const Stats &) { return true; } static void adjust(typename TT::Shared &, Rng &) {} };
template<> struct Fit<BNB> {   // smaller alpha: counts beyond any integer type
    static bool usable(const BNB::Shared &, const Stats &) { return true; }
    static void adjust(BNB::Shared & h, Rng & r) { if (h.alpha < 1.2f) h.alpha = r.logunif(1.2, 30); h.beta = std::min(h.beta, 30.f); }
};
template<> struct Fit<GP> {    // now and then a law with little but Poisson noise
    static bool usable(const GP::Shared &, const Stats &) { return true; }
    static void adjust(GP::Shared & h, Rng & r) {
        if (r.chance(0.7)) return;
        h.alpha = r.logunif(50, 5e4);
        h.inv_beta = h.alpha / r.logunif(1, 2000);
    }
};
template<> struct Fit<NICH> {
    static bool usable(const NICH::Shared & h, const Stats & s) { return NICH::relss(h, s) < 1e-3; }
    static void adjust(NICH::Shared & h, Rng &) { h.nu = std::max(h.nu, 0.2f); }   // below, draws leave the range of float
};
template<> struct Fit<NIW> {
    static bool usable(const NIW::Shared & h, const Stats & s) { return 30 * EPS * NIW::mag(NIW::dump(h), s) < 3e-3; }
    static void adjust(NIW::Shared & h, Rng & r) {
        auto m = NIW::dump(h);
        if (m.nu() < m.mu_size() + 0.5) { m.set_nu(m.mu_size() + r.logunif(0.5, 20)); h.protobuf_load(m); }
    }
};

// A covariance drawn too ill-conditioned for single precision cannot be factorised: the draw is NaN or refused.
// A known weakness while it is rare; wherever it is not, an ordinary violation.
template<class TT> struct Singular { static bool skip(const typename TT::Value &, int &) { return false; } };
template<> struct Singular<NIW> {
    static bool skip(const NIW::Value & v, int & n) {
        bool bad = v.size() == 0;
        for (int i = 0; i < v.size(); ++i) bad = bad || !is_finite(v(i));
        if (!bad || n >= 2) return false;
        ++n;
        VH_TRUE("P13:niw:singular-draw", false, "a covariance of full rank was drawn that single precision cannot factorise");
        R().failed_case = false;
        R().event("singular_draws");
        return true;
    }
};
template<class F> static Value guarded(const F & f) {
    if (N != "niw") return f();
    try { return f(); } catch (const std::runtime_error &) { return Value(); }
}

// One sampler, many draws: how often a value comes up (or the sum of the counts) has a law of its own.
template<class TT> struct Total { static const bool on = false; };
static double beta_binomial_pit(double a, double b, int n, int k, Rng & r) {
    double lo = 0, c = std::lgamma(n + 1.0) + std::lgamma(a + b) - std::lgamma(a) - std::lgamma(b) - std::lgamma(a + b + n), p = 0;
    for (int i = 0; i <= k; ++i) {
        lo += p;
        p = std::exp(c - std::lgamma(i + 1.0) - std::lgamma(n - i + 1.0) + std::lgamma(a + i) + std::lgamma(b + n - i));
    }
    return std::min(1.0, lo + p * r.unif());
}
template<class TT> struct TotalOf {   // the value that `pick` chooses against the rest
    static const bool on = true;
    static double pit(const typename TT::Shared & h, const Stats & s, const typename TT::Model::Sampler & sampler, int n, rng_t & e, Rng & r, size_t pick) {
        auto vals = TT::support(h);
        typename TT::Value v = vals[pick % vals.size()];
        double total = 0, a = 0;
        for (auto && x : vals) { double w = weight(h, s, x); total += w; if (TT::same(x, v)) a = w; }
        int k = 0;
        for (int i = 0; i < n; ++i) k += TT::same(sampler.eval(h, e), v);
        if (!(a > 0)) return k ? 0.0 : r.unif();
        if (vals.size() == 1) return r.unif();
        return beta_binomial_pit(a, total - a, n, k, r);
    }
    static double weight(const BB::Shared & h, const Stats & s, bool x) { return x ? (double)h.alpha + s.n[0] : (double)h.beta + s.n[1]; }
    static double weight(const DD::Shared & h, const Stats & s, int x) { return (double)h.alphas[x] + s.n[x]; }
    static double weight(const DPD::Shared & h, const Stats & s, uint32_t x) {
        auto c = s.m.find(x);
        return (double)h.alpha * DPD::beta(h, x) + (c == s.m.end() ? 0 : c->second);
    }
};
template<> struct Total<BB> : TotalOf<BB> {};
template<> struct Total<DD> : TotalOf<DD> {};
template<> struct Total<DPD> : TotalOf<DPD> {};
template<> struct Total<GP> {
    static const bool on = true;
    static double pit(const GP::Shared & h, const Stats & s, const GP::Model::Sampler & sampler, int n, rng_t & e, Rng & r, size_t) {
        double t = 0;
        for (int i = 0; i < n; ++i) t += sampler.eval(h, e);
        bm::negative_binomial_distribution<> q((double)h.alpha + s.n[1], ((double)h.inv_beta + s.n[0]) / ((double)h.inv_beta + s.n[0] + n));
        double lo = t ? bm::cdf(q, t - 1) : 0, hi = bm::cdf(q, t);
        return std::min(1.0, lo + (hi - lo) * r.unif());
    }
};
template<class TT> static void many_draws(Rng & r, const typename TT::Shared & h, const Group & g, const Stats & s, const std::string & ctx) {
    const int n = r.logunif(20, 1000), samplers = 120;
    const size_t pick = r.below(1 << 20);
    double worst;
    bool ok = believable([&](int scale) {
        std::vector<double> u;
        rng_t e;
        typename TT::Model::Sampler sampler;
        for (int i = 0; i < samplers * scale; ++i) {
            if (i % 20 == 0) e = new_rng(r);
            sampler.init(h, g, e);
            u.push_back(Total<TT>::pit(h, s, sampler, n, e, r, pick));
        }
        R().event("sampler_totals", u.size());
        return ks_p(u);
    }, &worst);
    VH_TRUE("P13:" + N + ":sampler-total", ok, ctx << " totals of " << n << " draws from one sampler do not follow their law, p=" << worst);
}
template<class TT, bool on> struct Many { static void run(Rng &, const typename TT::Shared &, const Group &, const Stats &, const std::string &) {} };
template<class TT> struct Many<TT, true> {
    static void run(Rng & r, const typename TT::Shared & h, const Group & g, const Stats & s, const std::string & ctx) { many_draws<TT>(r, h, g, s, ctx); }
};

static void P13(Rng & r) {
    int singular = 0;
    Shared h = T::gen_shared(r);
    Fit<T>::adjust(h, r);
    rng_t e = new_rng(r);
    size_t n = r.chance(0.25) ? 0 : r.range(1, 25);
    Data data = gen_data(r, h, n);
    Group g = fresh(h, data, e);
    if (r.chance(0.3)) for (int k = 0; k < 3; ++k) { Value v = T::gen_value(r, h); g.add_value(h, v, e); g.remove_value(h, v, e); }
    Stats s = stats_of(h, data);
    if (!Fit<T>::usable(h, s)) { R().event("ill_conditioned"); return; }
    std::string ctx = S() << T::show_shared(h) << " data " << show_data(data);
    R().seen(hash_str(ctx));
    R().sample(ctx);
    const int per = r.chance(0.04) ? 40000 : 1500;   // some laws are looked at closely
    if (per > 1500) R().event("close_looks");
    double worst;
    PLaw law;
    law.init(h, s);
    T::PbG before;
    g.protobuf_dump(before);
    bool dead = false;
    // one fresh sampler per value
    bool ok = believable([&](int scale) {
        std::vector<double> u;
        for (int i = 0; i < per * scale && !dead; ++i) {
            if (i % 200 == 0) e = new_rng(r);
            Value v = guarded([&] { return g.sample_value(h, e); });
            if (Singular<T>::skip(v, singular)) continue;
            if (!VH_TRUE("P13:" + N + ":support", law(v, r, u), ctx << " drew " << T::show_value(v))) dead = true;
        }
        R().event("fresh_draws", u.size());
        return dead ? 1.0 : ks_p(u);
    }, &worst);
    if (dead) return;
    if (!VH_TRUE("P13:" + N + ":sample_value", ok, ctx << " draws do not follow the predictive law, p=" << worst)) return;
    T::PbG after;
    g.protobuf_dump(after);
    VH_TRUE("P13:" + N + ":group-changed", before.SerializeAsString() == after.SerializeAsString(), ctx);
    if (r.chance(0.15)) Many<T, Total<T>::on>::run(r, h, g, s, ctx);
    // several values from one sampler: each follows the predictive law given the earlier ones
    const int K = r.range(2, 4);
    std::vector<std::vector<double>> last;
    typename Model::Sampler sampler;
    if (r.chance(0.5)) {   // a used sampler is initialised anew
        Shared h2 = T::gen_shared(r);
        Fit<T>::adjust(h2, r);
        Group g2;
        g2.init(h2, e);
        sampler.init(h2, g2, e);
    }
    const int at = r.range(1, K - 1);
    ok = believable([&](int scale) {
        std::vector<double> u, w;
        std::vector<double> grid(9, 0.0);
        for (int i = 0; i < per / 2 * scale && !dead; ++i) {
            if (i % 100 == 0) e = new_rng(r);
            sampler.init(h, g, e);
            Stats t = s;
            bool skipped = false;
            for (int k = 0; k <= at && !skipped; ++k) {
                Value v = guarded([&] { return sampler.eval(h, e); });
                if (Singular<T>::skip(v, singular)) { skipped = true; break; }
                if (k == at) {
                    PLaw l;
                    l.init(h, t);
                    if (!VH_TRUE("P13:" + N + ":support", l(v, r, u), ctx << " sampler drew " << T::show_value(v))) dead = true;
                } else {
                    if (k == 0) { w.clear(); if (!VH_TRUE("P13:" + N + ":support", law(v, r, w), ctx << " sampler drew " << T::show_value(v))) dead = true; }
                    T::add(t, v, 1);
                }
                if (dead) break;
            }
            if (dead) break;
            if (skipped) continue;
            size_t a = std::min(2.0, w[0] * 3), b = std::min(2.0, u.back() * 3);
            grid[a * 3 + b]++;
        }
        R().event("sequence_draws", u.size());
        if (dead) return 1.0;
        return std::min(ks_p(u), chisq_p(grid, std::vector<double>(9, 1.0 / 9)));
    }, &worst);
    if (!dead) VH_TRUE("P13:" + N + ":sampler-sequence", ok, ctx << " draw " << at + 1 << " of one sampler does not follow the law given the earlier ones, p=" << worst);
    R().event("laws", 2);
}
static Register r_P13("P13", P13);

// close to the least degrees of freedom such draws are common: what comes out is finite or refused, or the finding
template<class TT> struct Edge { static void run(Rng &) {} };
template<> struct Edge<NIW> {
    static void run(Rng & r) {
        NIW::Shared h = NIW::gen_shared(r);
        auto m = NIW::dump(h);
        m.set_nu(m.mu_size() - 1 + r.logunif(0.05, 0.4));
        h.protobuf_load(m);
        rng_t e = new_rng(r);
        NIW::Group g;
        g.init(h, e);
        int bad = 0;
        for (int i = 0; i < 200; ++i) {
            NIW::Value v;
            try { v = g.sample_value(h, e); } catch (const std::runtime_error &) { ++bad; continue; }
            if (!VH_TRUE("P13:niw:edge-length", v.size() == m.mu_size(), NIW::show_shared(h))) return;
            for (int k = 0; k < v.size(); ++k) if (!is_finite(v(k))) { ++bad; break; }
        }
        R().event("edge_draws", 200);
        VH_TRUE("P13:niw:singular-draw", bad == 0, NIW::show_shared(h) << " : " << bad << " of 200 draws NaN or refused");
    }
};
static void P13_edge(Rng & r) { Edge<T>::run(r); }
static Register r_P13_edge("P13-edge", P13_edge);
