// A seeded script over everything that is not a model: clustering, drivers, id tracker, samplers, special functions,
// vector kernels. Same interface as script.hpp.
#pragma once
#include "log.hpp"
#include <algorithm>
#include <distributions/clustering.hpp>
#include <distributions/mixture.hpp>
#include <distributions/random.hpp>
#include <distributions/sparse.hpp>
#include <distributions/special.hpp>
#include <distributions/vector_math.hpp>
using distributions::VectorFloat;
namespace dn = distributions;
typedef dn::Clustering<int32_t> Clust;
static const std::string N = "base";

template<class M> struct Fill;
template<> struct Fill<Clust::PitmanYor> {
    static void of(Rng & r, Clust::PitmanYor & m) { m.alpha = r.logunif(0.05, 50); m.d = r.chance(0.3) ? 0 : r.unif(0, 0.9); }
};
template<> struct Fill<Clust::LowEntropy> {
    static void of(Rng & r, Clust::LowEntropy & m) { m.dataset_size = r.range(300, 3000); }
};

template<class M, class Driver> struct Drive {
    M m;
    Driver d;
    void init(Rng & r) {
        Fill<M>::of(r, m);
        d.counts().clear();
        for (size_t i = r.below(6); i > 0; --i) d.counts().push_back(r.range(1, 4));
        for (size_t i = r.range(1, 3); i > 0; --i) d.counts().push_back(0);
        d.init(m);
    }
    void write(Rng & r, Log & l) {
        size_t g = r.below(d.counts().size());
        if (d.sample_size() > 100 || (d.counts(g) && r.chance(0.5))) {
            if (d.counts(g)) l.u("driver.remove_value", d.remove_value(m, g));
        } else {
            l.u("driver.add_value", d.add_value(m, g, r.range(1, 3)));
        }
        l.u("driver.sample_size", d.sample_size());
        for (auto c : d.counts()) l.u("driver.counts", c);
    }
    void read(Log & l) const {
        VectorFloat s(d.counts().size());
        d.score_value(m, s);
        for (auto x : s) l.f("driver.score_value", x);
        if (d.sample_size()) l.f("driver.score_data", d.score_data(m));
        l.f("score_add_value", m.score_add_value(2, 1, 5));
        l.f("score_remove_value", m.score_remove_value(2, 1, 5));
    }
};

struct World {
    Rng r;
    rng_t e;
    Drive<Clust::PitmanYor, Clust::PitmanYor::CachedMixture> cached;
    Drive<Clust::PitmanYor, dn::MixtureDriver<Clust::PitmanYor, int32_t>> plain;
    Drive<Clust::LowEntropy, dn::MixtureDriver<Clust::LowEntropy, int32_t>> low;
    dn::MixtureIdTracker ids;
    dn::SparseCounter<uint32_t, int32_t> counter;
    Log log;
    int steps = 0;

    explicit World(uint64_t seed) : r(seed), e((unsigned)(1 + r.below(2000000000))) {
        cached.init(r); plain.init(r); low.init(r);
        ids.init(r.range(1, 5));
    }
    std::string about() const { return S() << "PitmanYor(" << cached.m.alpha << "," << cached.m.d << ")"; }
    std::string snapshot() const {
        S s;
        for (auto c : cached.d.counts()) s << c << " ";
        for (auto c : plain.d.counts()) s << c << " ";
        for (auto c : low.d.counts()) s << c << " ";
        for (size_t i = 0; i < ids.packed_size(); ++i) s << ids.packed_to_global(i) << " ";
        return s;
    }
    VectorFloat floats(Rng & q, size_t n, double lo, double hi) const {
        VectorFloat v(n);
        for (auto & x : v) x = q.unif(lo, hi);
        return v;
    }
    void sample() {
        float a = r.logunif(0.05, 30), b = r.logunif(0.05, 30);
        switch (r.below(18)) {
            case 0: log.u("sample_int", dn::sample_int(e, -3, r.range(0, 50))); break;
            case 1: log.f("sample_unif01", dn::sample_unif01(e)); break;
            case 2: log.u("sample_bernoulli", dn::sample_bernoulli(e, r.unif())); break;
            case 3: log.f("sample_std_normal", dn::sample_std_normal(e)); break;
            case 4: log.f("sample_normal", dn::sample_normal(e, r.unif(-3, 3), a)); break;
            case 5: log.f("sample_chisq", dn::sample_chisq(e, a)); break;
            case 6: log.u("sample_poisson", dn::sample_poisson(e, a)); break;
            case 7: log.u("sample_negative_binomial", dn::sample_negative_binomial(e, r.unif(0.1, 0.9), r.range(1, 9))); break;
            case 8: log.f("sample_gamma", dn::sample_gamma(e, a, b)); break;
            case 9: log.f("sample_beta", dn::sample_beta(e, a, b)); break;
            case 10: log.f("sample_beta_safe", dn::sample_beta_safe(e, a, b, 1e-4f)); break;
            case 11: case 12: {
                VectorFloat p = floats(r, r.range(1, 12), 0.05, 4), q(p.size());
                if (r.chance(0.5)) dn::sample_dirichlet(e, p.size(), p.data(), q.data());
                else dn::sample_dirichlet_safe(e, p.size(), p.data(), q.data(), 1e-5f);
                for (auto x : q) log.f("sample_dirichlet", x);
                break;
            }
            case 13: {
                VectorFloat s = floats(r, r.range(1, 30), -20, 3);
                if (r.chance(0.5)) log.u("sample_from_scores", dn::sample_from_scores(e, s));
                else {
                    auto p = dn::sample_prob_from_scores_overwrite(e, s);
                    log.u("sample_prob_from_scores", p.first); log.f("sample_prob_from_scores", p.second);
                }
                break;
            }
            case 14: { VectorFloat s = floats(r, r.range(1, 30), 0, 3); log.u("sample_from_likelihoods", dn::sample_from_likelihoods(e, s)); break; }
            case 15: {
                std::vector<int> urn(r.range(2, 9));
                for (size_t i = 0; i < urn.size(); ++i) urn[i] = i;
                log.u("sample_from_urn", dn::sample_from_urn(e, urn));
                auto p = dn::sample_pair_from_urn(e, urn);
                log.u("sample_pair_from_urn", p.first * 100 + p.second);
                break;
            }
            case 16: case 17: {
                std::vector<int32_t> t = r.chance(0.5) ? cached.m.sample_assignments(r.below(60), e)
                                                       : low.m.sample_assignments(r.below(60), e);
                for (auto x : t) log.u("sample_assignments", x);
                break;
            }
        }
    }
    void step() {
        ++steps;
        double u = r.unif();
        if (u < 0.15) cached.write(r, log);
        else if (u < 0.25) plain.write(r, log);
        else if (u < 0.35) low.write(r, log);
        else if (u < 0.42) { if (ids.packed_size() < 2 || r.chance(0.6)) ids.add_group(); else ids.remove_group(r.below(ids.packed_size())); }
        else if (u < 0.5) { counter.add(r.below(12), 1 + r.below(3)); log.u("counter", counter.get_total()); }
        else if (u < 0.85) sample();
        else read(r, e, log, true);
        log.e("random stream", e);
    }
    void read(Rng & q, rng_t &, Log & l, bool) const {
        cached.read(l); plain.read(l); low.read(l);
        for (size_t i = 0; i < ids.packed_size(); ++i) {
            auto g = ids.packed_to_global(i);
            l.u("packed_to_global", g);
            l.u("global_to_packed", ids.global_to_packed(g));
        }
        for (uint32_t i = 0; i < 12; ++i) l.u("counter.get_count", counter.get_count(i));
        float x = q.logunif(1e-4, 1e4);
        l.f("fast_log", dn::fast_log(x)); l.f("fast_exp", dn::fast_exp(q.unif(-20, 20))); l.f("fast_lgamma", dn::fast_lgamma(x));
        l.f("fast_lgamma_nu", dn::fast_lgamma_nu(x)); l.f("fast_log_sum_exp", dn::fast_log_sum_exp(x, 3.f));
        l.f("log_beta", dn::fast_log_beta(x, 2.f)); l.f("log_factorial", dn::fast_log_factorial(q.below(100)));
        VectorFloat row(80);
        size_t n = q.range(1, 60);
        dn::get_log_stirling1_row(n, row);
        for (size_t i = 1; i <= n; ++i) l.f("get_log_stirling1_row", row[i]);
        size_t k = q.range(1, 40);
        VectorFloat a = floats(q, k, 0.1, 9), b = floats(q, k, 0.1, 9), c(k);
        dn::vector_add(k, a.data(), b.data());
        dn::vector_log(k, c.data(), a.data());
        for (auto y : c) l.f("vector_log", y);
        dn::vector_lgamma(k, c.data(), a.data());
        for (auto y : c) l.f("vector_lgamma", y);
        l.f("vector_sum", dn::vector_sum(k, a.data())); l.f("vector_max", dn::vector_max(k, a.data()));
        l.f("log_sum_exp", dn::log_sum_exp(a));
        std::vector<int32_t> counts = {3, 1, 4, 1, 5};
        l.f("score_counts", cached.m.score_counts(counts)); l.f("score_counts", low.m.score_counts(counts));
        l.f("log_partition_function", low.m.log_partition_function(q.range(1, 200)));
    }
};
