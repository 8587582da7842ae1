// Per-model workload generators and reference densities (double precision, from first principles).
#pragma once
#include "vh.hpp"
#include <algorithm>
#include <distributions/io/schema.pb.h>
#include <distributions/models/bb.hpp>
#include <distributions/models/bnb.hpp>
#include <distributions/models/dd.hpp>
#include <distributions/models/dpd.hpp>
#include <distributions/models/gp.hpp>
#include <distributions/models/nich.hpp>
#include <distributions/models/niw.hpp>

namespace vm {
using namespace vh;
using distributions::rng_t;
namespace dd_ = distributions;
namespace pb = protobuf::distributions;

const double EPS = 1.2e-7;
inline bool & big_counts() { static bool on = false; return on; }  // rare very large values in count models
// hyperparameters: mostly of everyday size, now and then anywhere
inline double hyper(Rng & r, double lo, double hi) { return r.chance(0.06) ? r.logunif(std::min(lo, 2e-3), std::max(hi, 5e3)) : r.logunif(lo, hi); }
inline double LOGT() { return 8e-5; }                       // documented: table of 2^14 entries
inline double LGT(double x) { return x < 2.5 ? 4e-6 : 4e-5 + 8e-6 * x; }  // piecewise quintic, float coefficients
inline double LNU() { return 0.018; }                       // cubic fit of lgamma((nu+1)/2)-lgamma(nu/2)

// exact or observed sufficient statistics
struct Stats {
    std::vector<long long> n;
    std::vector<double> x;
    std::map<uint32_t, long long> m;
    long long count = 0;
};
inline std::string show(const Stats & s) {
    S o;
    o << "{n=[";
    for (auto i : s.n) if (s.n.size() <= 12 || i) o << i << " ";
    o << "] x=[";
    for (size_t i = 0; i < s.x.size() && i < 8; ++i) o << s.x[i] << " ";
    o << "] m=[";
    int k = 0;
    for (auto & i : s.m) if (k++ < 12) o << i.first << ":" << i.second << " ";
    o << "]}";
    return o;
}

inline double slog(double x) { return dlog(x); }

// ------------------------------------------------------------------ beta-Bernoulli
struct BB {
    typedef dd_::BetaBernoulli Model;
    typedef Model::Shared Shared; typedef Model::Group Group; typedef Model::Value Value;
    typedef pb::BetaBernoulli::Shared PbS; typedef pb::BetaBernoulli::Group PbG;
    enum { has_mix = 1, debt = 0, discrete = 1, real = 0 };
    static const char * name() { return "bb"; }
    static Shared gen_shared(Rng & r) {
        Shared s;
        s.alpha = hyper(r, 0.02, 50); s.beta = hyper(r, 0.02, 50);
        return s;
    }
    static std::string show_shared(const Shared & s) { return S() << "alpha=" << s.alpha << " beta=" << s.beta; }
    static Value gen_value(Rng & r, const Shared &) { return r.chance(0.5); }
    static std::string show_value(const Value & v) { return v ? "1" : "0"; }
    static std::vector<Value> support(const Shared &) { return {false, true}; }
    static bool same(const Value & a, const Value & b) { return a == b; }
    static Stats zero(const Shared &) { Stats s; s.n = {0, 0}; return s; }
    static void add(Stats & s, const Value & v, long long k) { s.n[v ? 0 : 1] += k; s.count += k; }
    static Stats of(const Group & g) {
        PbG m; g.protobuf_dump(m);
        Stats s; s.n = {(long long)m.heads(), (long long)m.tails()}; s.count = s.n[0] + s.n[1]; return s;
    }
    static double logmarg(const Shared & h, const Stats & s) {
        double a = h.alpha, b = h.beta, A = a + s.n[0], B = b + s.n[1];
        return lgam(A) - lgam(a) + lgam(B) - lgam(b) + lgam(a + b) - lgam(A + B);
    }
    static double tol_pred(const Shared &, const Stats &, const Value &) { return 1.5e-4; }
    static double tol_data(const Shared & h, const Stats & s) {
        double A = h.alpha + s.n[0], B = h.beta + s.n[1];
        return LGT(A) + LGT(B) + LGT(A + B) + LGT(h.alpha) + LGT(h.beta) + LGT(h.alpha + h.beta);
    }
    static double score_scale(const Shared &) { return 1; }
};

// ------------------------------------------------------------------ beta negative binomial
struct BNB {
    typedef dd_::BetaNegativeBinomial Model;
    typedef Model::Shared Shared; typedef Model::Group Group; typedef Model::Value Value;
    typedef pb::BetaNegativeBinomial::Shared PbS; typedef pb::BetaNegativeBinomial::Group PbG;
    enum { has_mix = 1, debt = 0, discrete = 0, real = 0 };
    static const char * name() { return "bnb"; }
    static Shared gen_shared(Rng & r) {
        Shared s;
        s.alpha = hyper(r, 0.1, 30); s.beta = hyper(r, 0.1, 30); s.r = r.chance(0.5) ? 1 : r.range(2, 12);
        return s;
    }
    static std::string show_shared(const Shared & s) { return S() << "alpha=" << s.alpha << " beta=" << s.beta << " r=" << s.r; }
    static Value gen_value(Rng & r, const Shared &) {
        if (big_counts() && r.chance(0.3)) return (Value)r.logunif(200, 200000);
        return r.chance(0.8) ? r.below(8) : r.below(200);
    }
    static std::string show_value(const Value & v) { return S() << v; }
    static bool same(const Value & a, const Value & b) { return a == b; }
    static Stats zero(const Shared &) { Stats s; s.n = {0, 0}; return s; }
    static void add(Stats & s, const Value & v, long long k) { s.n[0] += k; s.n[1] += k * (long long)v; s.count += k; }
    static Stats of(const Group & g) {
        PbG m; g.protobuf_dump(m);
        Stats s; s.n = {(long long)m.count(), (long long)m.sum()}; s.count = s.n[0]; return s;
    }
    // density up to the binomial coefficients prod C(x+r-1, x), which the statistics do not hold
    static double logmarg(const Shared & h, const Stats & s) {
        double a = h.alpha, b = h.beta, A = a + (double)h.r * s.n[0], B = b + s.n[1];
        return lgam(A) - lgam(a) + lgam(B) - lgam(b) + lgam(a + b) - lgam(A + B);
    }
    static double log_base(const Shared & h, const Value & v) {
        return lgam((double)v + h.r) - lgam((double)h.r) - lgam((double)v + 1);
    }
    static double tol_pred(const Shared & h, const Stats & s, const Value & v) {
        double A = h.alpha + (double)h.r * s.n[0], B = h.beta + s.n[1];
        return LGT(A) + LGT(B) + LGT(A + B) + LGT(A + h.r) + LGT(B + v) + LGT(A + B + h.r + v);
    }
    static double tol_data(const Shared & h, const Stats & s) {
        double A = h.alpha + (double)h.r * s.n[0], B = h.beta + s.n[1];
        return LGT(A) + LGT(B) + LGT(A + B) + LGT(h.alpha) + LGT(h.beta) + LGT(h.alpha + h.beta);
    }
};

// ------------------------------------------------------------------ Dirichlet-discrete
template<int MAXD> struct DDT {
    typedef dd_::DirichletDiscrete<MAXD> Model;
    typedef typename Model::Shared Shared; typedef typename Model::Group Group; typedef typename Model::Value Value;
    typedef pb::DirichletDiscrete::Shared PbS; typedef pb::DirichletDiscrete::Group PbG;
    enum { has_mix = 1, debt = 1, discrete = 1, real = 0 };
    static const char * name() { return "dd"; }
    static Shared gen_shared(Rng & r) {
        Shared s;
        s.dim = r.chance(0.1) ? MAXD : r.chance(0.1) ? 1 : r.range(2, std::min(MAXD, 12));
        bool sparse = r.chance(0.3);
        for (int i = 0; i < s.dim; ++i) s.alphas[i] = sparse ? r.logunif(0.01, 1) : hyper(r, 0.1, 20);
        return s;
    }
    static std::string show_shared(const Shared & s) {
        S o; o << "dim=" << s.dim << " alphas=";
        for (int i = 0; i < s.dim && i < 12; ++i) o << s.alphas[i] << " ";
        return o;
    }
    static Value gen_value(Rng & r, const Shared & s) { return r.chance(0.1) ? s.dim - 1 : r.below(s.dim); }
    static std::string show_value(const Value & v) { return S() << v; }
    static bool same(const Value & a, const Value & b) { return a == b; }
    static std::vector<Value> support(const Shared & h) { std::vector<Value> v; for (int i = 0; i < h.dim; ++i) v.push_back(i); return v; }
    static Stats zero(const Shared & h) { Stats s; s.n.assign(h.dim, 0); return s; }
    static void add(Stats & s, const Value & v, long long k) { s.n[v] += k; s.count += k; }
    static Stats of(const Group & g) {
        PbG m; g.protobuf_dump(m);
        Stats s;
        for (int i = 0; i < m.counts_size(); ++i) { s.n.push_back((long long)m.counts(i)); s.count += s.n.back(); }
        return s;
    }
    static double logmarg(const Shared & h, const Stats & s) {
        double t = 0, a = 0, n = 0;
        for (int i = 0; i < h.dim; ++i) {
            double al = h.alphas[i];
            a += al; n += s.n[i];
            t += lgam(al + s.n[i]) - lgam(al);
        }
        return t + lgam(a) - lgam(a + n);
    }
    static double tol_pred(const Shared &, const Stats &, const Value &) { return 2e-4; }
    static double tol_data(const Shared & h, const Stats & s) {
        double t = 0, a = 0, n = 0, mag = 0;
        for (int i = 0; i < h.dim; ++i) {
            a += h.alphas[i]; n += s.n[i];
            if (s.n[i]) t += LGT(h.alphas[i] + s.n[i]) + LGT(h.alphas[i]);
            mag += s.n[i];
        }
        // alpha_sum is accumulated in single precision
        return t + LGT(a) + LGT(a + n) + EPS * h.dim * a * dlog(2 + a + n);
    }
};
#ifndef DD_DIM
#define DD_DIM 256
#endif
typedef DDT<DD_DIM> DD;

// ------------------------------------------------------------------ Dirichlet-process-discrete
struct DPD {
    typedef dd_::DirichletProcessDiscrete Model;
    typedef Model::Shared Shared; typedef Model::Group Group; typedef Model::Value Value;
    typedef pb::DirichletProcessDiscrete::Shared PbS; typedef pb::DirichletProcessDiscrete::Group PbG;
    enum { has_mix = 1, debt = 1, discrete = 1, real = 0 };
    static const char * name() { return "dpd"; }
    static Shared gen_shared(Rng & r) {
        PbS m;
        m.set_gamma(hyper(r, 0.1, 20)); m.set_alpha(hyper(r, 0.1, 20));
        int k = r.chance(0.03) ? r.range(200, 700) : r.chance(0.1) ? 60 : r.range(1, 8);
        std::set<uint32_t> keys;
        int style = r.below(3);
        while ((int)keys.size() < k)
            keys.insert(style == 0 ? keys.size() : style == 1 ? r.below(50 * k) : (uint32_t)(r.u64() % 0xFFFFFFFFull));
        std::vector<double> w;
        double t = 0;
        bool closed = r.chance(0.4);
        for (int i = 0; i < k + 1; ++i) { w.push_back(r.logunif(0.05, 1)); if (i < k || !closed) t += w.back(); }
        std::vector<uint32_t> ks(keys.begin(), keys.end());
        r.shuffle(ks);
        for (int i = 0; i < k; ++i) { m.add_values(ks[i]); m.add_betas(w[i] / t); m.add_counts(r.range(1, 5)); }
        Shared s;
        s.protobuf_load(m);
        return s;
    }
    static std::map<uint32_t, double> betas(const Shared & h) {
        PbS m; h.protobuf_dump(m);
        std::map<uint32_t, double> b;
        for (int i = 0; i < m.values_size(); ++i) b[m.values(i)] = m.betas(i);
        return b;
    }
    static std::string show_shared(const Shared & s) {
        S o; o << "gamma=" << s.gamma << " alpha=" << s.alpha << " beta0=" << s.beta0 << " betas=";
        int k = 0;
        for (auto & b : betas(s)) if (k++ < 10) o << b.first << ":" << b.second << " ";
        return o;
    }
    static Value gen_value(Rng & r, const Shared & s) {
        std::vector<uint32_t> v;
        for (auto & b : betas(s)) v.push_back(b.first);
        return r.pick(v);
    }
    static std::string show_value(const Value & v) { return S() << v; }
    static bool same(const Value & a, const Value & b) { return a == b; }
    static std::vector<Value> support(const Shared & h) {
        std::vector<Value> v;
        for (auto & b : betas(h)) v.push_back(b.first);
        if (h.beta0 > 0) v.push_back(Model::OTHER());
        return v;
    }
    static Stats zero(const Shared &) { return Stats(); }
    static void add(Stats & s, const Value & v, long long k) {
        auto & c = s.m[v];
        c += k; s.count += k;
        if (c == 0) s.m.erase(v);
    }
    static Stats of(const Group & g) {
        PbG m; g.protobuf_dump(m);
        Stats s;
        for (int i = 0; i < m.keys_size(); ++i) { s.m[m.keys(i)] += (long long)m.values(i); s.count += (long long)m.values(i); }
        return s;
    }
    static double beta(const Shared & h, Value v) {
        if (v == Model::OTHER()) return h.beta0;
        auto b = betas(h);
        return b.count(v) ? b[v] : 0;
    }
    static double logmarg(const Shared & h, const Stats & s) {
        double al = h.alpha, t = 0, n = 0;
        auto b = betas(h);
        for (auto & i : s.m) { double p = al * b[i.first]; t += lgam(p + i.second) - lgam(p); n += i.second; }
        return t + lgam(al) - lgam(al + n);
    }
    static double tol_pred(const Shared &, const Stats &, const Value &) { return 2e-4; }
    static double tol_data(const Shared & h, const Stats & s) {
        double t = 0, n = 0;
        for (auto & i : s.m) { t += LGT(h.alpha + i.second) + LGT(1) + 2e-6; n += i.second; }
        return t + LGT(h.alpha) + LGT(h.alpha + n) + EPS * n * 10;
    }
};

// ------------------------------------------------------------------ gamma-Poisson
struct GP {
    typedef dd_::GammaPoisson Model;
    typedef Model::Shared Shared; typedef Model::Group Group; typedef Model::Value Value;
    typedef pb::GammaPoisson::Shared PbS; typedef pb::GammaPoisson::Group PbG;
    enum { has_mix = 1, debt = 0, discrete = 0, real = 0 };
    static const char * name() { return "gp"; }
    static Shared gen_shared(Rng & r) { Shared s; s.alpha = hyper(r, 0.05, 50); s.inv_beta = hyper(r, 0.05, 20); return s; }
    static std::string show_shared(const Shared & s) { return S() << "alpha=" << s.alpha << " inv_beta=" << s.inv_beta; }
    static Value gen_value(Rng & r, const Shared &) {
        if (big_counts() && r.chance(0.3)) return (Value)r.logunif(200, 200000);
        return r.chance(0.75) ? r.below(10) : r.chance(0.7) ? r.range(55, 75) : r.below(500);
    }
    static std::string show_value(const Value & v) { return S() << v; }
    static bool same(const Value & a, const Value & b) { return a == b; }
    static Stats zero(const Shared &) { Stats s; s.n = {0, 0}; s.x = {0}; return s; }
    static void add(Stats & s, const Value & v, long long k) {
        s.n[0] += k; s.n[1] += k * (long long)v; s.x[0] += k * lgam((double)v + 1); s.count += k;
    }
    static Stats of(const Group & g) {
        PbG m; g.protobuf_dump(m);
        Stats s; s.n = {(long long)m.count(), (long long)m.sum()}; s.x = {m.log_prod()}; s.count = s.n[0]; return s;
    }
    static double logmarg(const Shared & h, const Stats & s) {
        double a = h.alpha, b = h.inv_beta, A = a + s.n[1], B = b + s.n[0];
        return lgam(A) - lgam(a) + a * slog(b) - A * slog(B) - s.x[0];
    }
    static double tol_pred(const Shared & h, const Stats & s, const Value & v) {
        double A = h.alpha + s.n[1], B = h.inv_beta + s.n[0];
        double mag = A * (std::abs(slog(B)) + std::abs(slog(1 + B))) + v * std::abs(slog(1 + B)) + lgam(v + 1.0) + lgam(A + v + 3);
        return LGT(A) + LGT(A + v) + (v < 64 ? 0 : LGT(v + 1)) + (A * 2 + v) * LOGT() + 8 * EPS * mag;
    }
    static double tol_data(const Shared & h, const Stats & s) {
        double A = h.alpha + s.n[1], B = h.inv_beta + s.n[0];
        double mag = A * std::abs(slog(B)) + lgam(A + 3) + s.x[0];
        return LGT(A) + LGT(h.alpha) + (h.alpha + A) * LOGT() + 8 * EPS * mag;
    }
};

// ------------------------------------------------------------------ normal inverse chi squared
struct NICH {
    typedef dd_::NormalInverseChiSq Model;
    typedef Model::Shared Shared; typedef Model::Group Group; typedef Model::Value Value;
    typedef pb::NormalInverseChiSq::Shared PbS; typedef pb::NormalInverseChiSq::Group PbG;
    enum { has_mix = 1, debt = 0, discrete = 0, real = 1 };
    static const char * name() { return "nich"; }
    static Shared gen_shared(Rng & r) {
        Shared s;
        double unit = r.chance(0.12) ? r.logunif(1e-4, 1e4) : 1;   // the unit the data are measured in
        s.mu = unit * r.unif(-3, 3); s.kappa = hyper(r, 0.05, 20); s.sigmasq = unit * unit * r.logunif(0.05, 20); s.nu = hyper(r, 0.2, 50);
        return s;
    }
    static std::string show_shared(const Shared & s) {
        return S() << "mu=" << s.mu << " kappa=" << s.kappa << " sigmasq=" << s.sigmasq << " nu=" << s.nu;
    }
    static Value gen_value(Rng & r, const Shared & h) {
        double unit = h.sigmasq < 0.04 || h.sigmasq > 25 ? std::sqrt((double)h.sigmasq) : 1;
        return unit * (r.chance(0.2) ? (float)r.range(-3, 3) : (float)(r.chance(0.9) ? 2 * r.normal() : r.unif(-30, 30)));
    }
    static std::string show_value(const Value & v) { return S() << v; }
    static bool same(const Value & a, const Value & b) { return a == b; }
    static Stats zero(const Shared &) { Stats s; s.n = {0}; s.x = {0, 0}; return s; }
    // exact-ish: a weighted update in double precision
    static void add(Stats & s, const Value & v, long long k) {
        double n = s.n[0], d = v - s.x[0], N = n + k;
        s.n[0] += k; s.count += k;
        if (N <= 0) { s.x = {0, 0}; return; }
        s.x[1] += d * d * n * k / N;
        s.x[0] += d * k / N;
        if (s.x[1] < 0) s.x[1] = 0;
    }
    static Stats of(const Group & g) {
        PbG m; g.protobuf_dump(m);
        Stats s; s.n = {(long long)m.count()}; s.x = {m.mean(), m.count_times_variance()}; s.count = s.n[0]; return s;
    }
    static void post(const Shared & h, const Stats & s, double & mu, double & ka, double & ss, double & nu) {
        double n = s.n[0], d = h.mu - s.x[0];
        ka = h.kappa + n; nu = h.nu + n;
        mu = (h.kappa * (double)h.mu + n * s.x[0]) / ka;
        ss = ((double)h.nu * h.sigmasq + s.x[1] + n * h.kappa * d * d / ka) / nu;
    }
    static double logmarg(const Shared & h, const Stats & s) {
        double mu, ka, ss, nu, n = s.n[0];
        post(h, s, mu, ka, ss, nu);
        return lgam(nu / 2) - lgam(h.nu / 2.0) + 0.5 * slog(h.kappa / ka)
             + 0.5 * h.nu * slog((double)h.nu * h.sigmasq) - 0.5 * nu * slog(nu * ss) - 0.5 * n * slog(3.14159265358979323846);
    }
    static double relss(const Shared & h, const Stats & s) {  // relative rounding error of nu * sigmasq
        return 16 * EPS * (1 + (s.x[0] * s.x[0] + (double)h.mu * h.mu) * std::min<double>(s.n[0], h.kappa)
            / std::max(1e-30, (double)h.nu * h.sigmasq + s.x[1]));
    }
    static double tol_pred(const Shared & h, const Stats & s, const Value & v) {
        double mu, ka, ss, nu;
        post(h, s, mu, ka, ss, nu);
        double prec = ka / ((ka + 1) * ss * nu), d = std::abs(v - mu), dd = 6 * EPS * (std::abs(v) + std::abs(mu) + std::abs((double)h.mu) + std::abs(s.x[0]));
        double arg = 1 + prec * d * d, rel = relss(h, s) + (2 * prec * (d + dd) * dd) / arg + 6 * EPS;
        return LNU() + LOGT() + relss(h, s) + 0.5 * (nu + 1) * (LOGT() + rel) + 20 * EPS * (nu + 1) * std::abs(slog(arg));
    }
    static double tol_data(const Shared & h, const Stats & s) {
        double mu, ka, ss, nu;
        post(h, s, mu, ka, ss, nu);
        double mag = 0.5 * nu * (std::abs(slog(nu * ss)) + 2) + 0.5 * h.nu * std::abs(slog((double)h.nu * h.sigmasq)) + s.n[0];
        return LGT(nu / 2) + LGT(h.nu / 2) + LOGT() + 0.5 * (nu + h.nu) * LOGT() + 0.5 * nu * relss(h, s) + 10 * EPS * mag;
    }
};

// ------------------------------------------------------------------ normal inverse Wishart
template<int D> struct NIWT {
    typedef dd_::NormalInverseWishart<D> Model;
    typedef typename Model::Shared Shared; typedef typename Model::Group Group; typedef typename Model::Value Value;
    typedef pb::NormalInverseWishart::Shared PbS; typedef pb::NormalInverseWishart::Group PbG;
    enum { has_mix = 0, debt = 0, discrete = 0, real = 1 };
    static const char * name() { return "niw"; }
    static Shared gen_shared(Rng & r) {
        int d = D > 0 ? D : r.range(1, 5);
        PbS m;
        std::vector<double> a(d * d);
        for (auto & x : a) x = r.normal();
        double unit = r.chance(0.15) ? r.logunif(1e-5, 1e5) : 1;   // the unit the data are measured in
        for (int i = 0; i < d; ++i) m.add_mu(unit * r.unif(-2, 2));
        double sc = unit * unit * r.logunif(0.2, 5);
        for (int i = 0; i < d; ++i) for (int j = 0; j < d; ++j) {
            double t = i == j ? 0.5 : 0;
            for (int k = 0; k < d; ++k) t += a[i * d + k] * a[j * d + k];
            m.add_psi(sc * t);
        }
        m.set_kappa(r.logunif(0.1, 20));
        m.set_nu(d - 1 + r.logunif(0.3, 30));
        Shared s;
        s.protobuf_load(m);
        return s;
    }
    static PbS dump(const Shared & s) { PbS m; s.protobuf_dump(m); return m; }
    static std::string show_shared(const Shared & s) { return dump(s).ShortDebugString(); }
    static Value gen_value(Rng & r, const Shared & s) {
        PbS h = dump(s);
        int d = h.mu_size();
        double unit = 0;
        for (int i = 0; i < d; ++i) unit += h.psi(i * d + i) / d;
        unit = unit < 0.05 || unit > 200 ? std::sqrt(unit) : 1;
        Value v(d);
        for (int i = 0; i < d; ++i) v(i) = unit * (r.chance(0.2) ? (float)r.range(-2, 2) : (float)(2 * r.normal()));
        return v;
    }
    static std::string show_value(const Value & v) { S o; for (int i = 0; i < v.size(); ++i) o << v(i) << ","; return o; }
    static bool same(const Value & a, const Value & b) { return a.size() == b.size() && a == b; }
    static Stats zero(const Shared & h) {
        Stats s; int d = dump(h).mu_size(); s.n = {0}; s.x.assign(d + d * d, 0); return s;
    }
    static void add(Stats & s, const Value & v, long long k) {
        int d = v.size();
        s.n[0] += k; s.count += k;
        for (int i = 0; i < d; ++i) s.x[i] += (double)k * v(i);
        for (int i = 0; i < d; ++i) for (int j = 0; j < d; ++j) s.x[d + i * d + j] += (double)k * v(i) * v(j);
    }
    static Stats of(const Group & g) {
        PbG m; g.protobuf_dump(m);
        Stats s; s.n = {(long long)m.count()}; s.count = s.n[0];
        for (int i = 0; i < m.sum_x_size(); ++i) s.x.push_back(m.sum_x(i));
        for (int i = 0; i < m.sum_xxt_size(); ++i) s.x.push_back(m.sum_xxt(i));
        return s;
    }
    static std::vector<double> psi_post(const PbS & h, const Stats & s) {
        int d = h.mu_size();
        double n = s.n[0], ka = h.kappa();
        std::vector<double> p(d * d), xb(d, 0.0);
        if (n) for (int i = 0; i < d; ++i) xb[i] = s.x[i] / n;
        for (int i = 0; i < d; ++i) for (int j = 0; j < d; ++j) {
            double c = n ? s.x[d + i * d + j] - n * xb[i] * xb[j] : 0;
            p[i * d + j] = h.psi(i * d + j) + c + ka * n / (ka + n) * (xb[i] - h.mu(i)) * (xb[j] - h.mu(j));
        }
        return p;
    }
    static double logmarg(const Shared & sh, const Stats & s) {
        PbS h = dump(sh);
        int d = h.mu_size();
        double n = s.n[0];
        std::vector<double> p0(h.psi().begin(), h.psi().end());
        return lmgamma(d, (h.nu() + n) / 2) - lmgamma(d, h.nu() / 2.0) + 0.5 * h.nu() * logdet_spd(p0, d)
             - 0.5 * (h.nu() + n) * logdet_spd(psi_post(h, s), d) - 0.5 * n * d * slog(3.14159265358979323846)
             + 0.5 * d * slog(h.kappa() / (h.kappa() + n));
    }
    static double mag(const PbS & h, const Stats & s) {  // amplification of rounding in determinants
        int d = h.mu_size();
        auto p = psi_post(h, s);
        double tr = 0, big = 1;
        for (int i = 0; i < d; ++i) {
            double raw = h.psi(i * d + i) + std::abs(s.x[d + i * d + i]) + h.kappa() * h.mu(i) * h.mu(i);
            tr += raw;
        }
        double ld = logdet_spd(p, d);
        big = dexp(d * slog(tr) - ld);       // (trace)^d / det bounds the condition number
        return big;
    }
    static double tol_pred(const Shared & sh, const Stats & s, const Value & v) {
        PbS h = dump(sh);
        int d = h.mu_size();
        double nu = h.nu() + s.n[0], rel = 30 * EPS * mag(h, s);
        double v2 = 0; for (int i = 0; i < d; ++i) v2 += v(i) * v(i);
        (void)v2;
        return LGT((nu + 1) / 2) + LGT((nu - d + 1) / 2) + LOGT() * (1 + d / 2.0) + 0.5 * (nu + 1) * (LOGT() + rel) + rel;
    }
    static double tol_data(const Shared & sh, const Stats & s) {
        PbS h = dump(sh);
        int d = h.mu_size();
        double nu = h.nu() + s.n[0], rel = 30 * EPS * mag(h, s), t = 0;
        for (int j = 1; j <= d; ++j) t += LGT((nu + 1 - j) / 2) + LGT((h.nu() + 1 - j) / 2);
        return t + 0.5 * (nu + h.nu()) * (LOGT() + rel) + d * LOGT() + 20 * EPS * nu * d * 5 + 1e-4;
    }
};
#ifndef NIW_DIM
#define NIW_DIM -1
#endif
typedef NIWT<NIW_DIM> NIW;

// predictive density of v given statistics, as a ratio of marginals
template<class T> double logpred(const typename T::Shared & h, const Stats & s, const typename T::Value & v) {
    Stats t = s;
    T::add(t, v, 1);
    return T::logmarg(h, t) - T::logmarg(h, s);
}
template<> inline double logpred<DPD>(const DPD::Shared & h, const Stats & s, const DPD::Value & v) {
    auto it = s.m.find(v);
    double c = it == s.m.end() ? 0 : it->second;
    return slog((h.alpha * DPD::beta(h, v) + c) / (h.alpha + (double)s.count));
}
template<class T> double log_base(const typename T::Shared &, const typename T::Value &) { return 0; }
template<> inline double log_base<BNB>(const BNB::Shared & h, const BNB::Value & v) { return BNB::log_base(h, v); }

typedef std::vector<float> Floats;
}  // namespace vm
