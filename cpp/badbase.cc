// P21 outside the models: drivers, id tracker, clusterings, samplers, special functions and containers refuse arguments
// outside their domains with an error, stay as they were and stay usable.
#include "models.hpp"
#include <distributions/clustering.hpp>
#include <distributions/mixture.hpp>
#include <distributions/random.hpp>
#include <distributions/special.hpp>
#include <distributions/sparse.hpp>
#include <distributions/vector_math.hpp>
using namespace vm;
namespace d = distributions;
using d::rng_t;
using d::VectorFloat;
using d::AlignedFloats;
typedef std::vector<float> Vec;

static std::string bits(float x) { uint32_t b; memcpy(&b, &x, 4); return std::to_string(b) + " "; }
template<class Snap, class F> static bool refused(const std::string & what, const std::string & ctx, Snap snap, F f) {
    std::string before = snap();
    bool threw = throws(f);
    if (!VH_TRUE("P21:" + what + ":accepted", threw, ctx << " " << what << " was accepted")) return false;
    std::string after = snap();
    if (!VH_TRUE("P21:" + what + ":changed", before == after, ctx << " " << what << " was refused but changed the object\n" << before << "\n" << after)) return false;
    R().event("refusals");
    return true;
}

// ------------------------------------------------------------------ mixture drivers
template<class count_t> static void gen_model(Rng & r, typename d::Clustering<count_t>::PitmanYor & m) { m.alpha = r.logunif(0.05, 50); m.d = r.chance(0.3) ? 0 : r.unif(0, 0.95); }
template<class count_t> static void gen_model(Rng & r, typename d::Clustering<count_t>::LowEntropy & m) { m.dataset_size = 1000 + r.below(1000); }

template<class count_t, class Model, class Driver> static void driver_case(Rng & r, const std::string & name) {
    Model m; gen_model<count_t>(r, m);
    Driver dr;
    size_t E = r.range(1, 4), G = r.below(10);
    std::vector<count_t> shadow;
    for (size_t i = 0; i < G; ++i) shadow.push_back(r.range(1, 5));
    for (size_t i = 0; i < E; ++i) shadow.insert(shadow.begin() + r.below(shadow.size() + 1), 0);
    dr.counts() = shadow;
    dr.init(m);
    std::string ctx = name + " counts";
    for (auto c : shadow) ctx += " " + std::to_string(c);
    R().seen(hash_str(ctx)); R().sample(ctx);
    auto snap = [&] {
        std::string s;
        for (auto c : dr.counts()) s += std::to_string(c) + ",";
        std::set<size_t> e(dr.empty_groupids().begin(), dr.empty_groupids().end());
        for (auto x : e) s += " e" + std::to_string(x);
        s += " n" + std::to_string(dr.sample_size()) + " ";
        VectorFloat out(dr.counts().size(), 0.f);
        dr.score_value(m, out);
        for (float x : out) s += bits(x);
        return s;
    };
    for (int k = 0; k < 12; ++k) {
        std::string K = "driver-" + name + ":";
        size_t n = dr.counts().size(), empty = *dr.empty_groupids().begin(), g = r.below(n);
        const size_t far[] = {n, n + 1, n + r.below(100), 0x7FFFFFFFu, (size_t)-1};
        size_t x = far[r.below(5)];
        bool ok = true;
        switch (r.below(8)) {
            case 0: ok = refused(K + "add_value-bad-group", ctx + " group " + std::to_string(x), snap, [&] { dr.add_value(m, x); }); break;
            case 1: ok = refused(K + "remove_value-bad-group", ctx + " group " + std::to_string(x), snap, [&] { dr.remove_value(m, x); }); break;
            case 2: ok = refused(K + "add_value-zero", ctx, snap, [&] { dr.add_value(m, g, 0); }); break;
            case 3: ok = refused(K + "remove_value-zero", ctx, snap, [&] { dr.remove_value(m, g, 0); }); break;
            case 4: ok = refused(K + "remove_value-empty", ctx, snap, [&] { dr.remove_value(m, empty); }); break;
            case 5: ok = refused(K + "remove_value-too-many", ctx, snap, [&] { dr.remove_value(m, g, dr.counts(g) + 1 + r.below(3)); }); break;
            case 6: { VectorFloat out(r.chance(0.5) ? n + r.range(1, 9) : r.below(n), 7.f);
                ok = refused(K + "score_value-wrong-size", ctx, snap, [&] { dr.score_value(m, out); });
                for (float y : out) VH_TRUE("P21:" + K + "score_value-wrong-size:written", y == 7.f, ctx);
                break; }
            case 7: {   // go on using it
                if (r.chance(0.5)) dr.add_value(m, g, 1 + r.below(3));
                else if (dr.counts(g)) dr.remove_value(m, g, r.chance(0.5) ? dr.counts(g) : 1);
                size_t t = 0, z = 0;
                for (auto c : dr.counts()) { t += c; z += c == 0; }
                ok = VH_TRUE("P21:" + K + "unusable", t == dr.sample_size() && z == E, ctx);
                break; }
        }
        if (!ok) return;
    }
    Driver none;
    none.counts().assign(r.below(4), 2);
    VH_TRUE("P21:driver-" + name + ":init-without-empty-group:accepted", throws([&] { none.init(m); }), ctx);
}
template<class count_t> static void drivers(Rng & r, const std::string & ct) {
    typedef typename d::Clustering<count_t>::PitmanYor PY;
    typedef typename d::Clustering<count_t>::LowEntropy LE;
    switch (r.below(3)) {
        case 0: driver_case<count_t, PY, typename PY::Mixture>(r, "py-cached" + ct); break;
        case 1: driver_case<count_t, PY, d::MixtureDriver<PY, count_t>>(r, "py" + ct); break;
        case 2: driver_case<count_t, LE, typename LE::Mixture>(r, "le" + ct); break;
    }
}

// ------------------------------------------------------------------ id tracker
static void tracker(Rng & r) {
    d::MixtureIdTracker t;
    size_t n = r.below(8);
    t.init(n);
    std::vector<uint32_t> dead;
    std::string ctx = "tracker init " + std::to_string(n);
    auto snap = [&] {
        std::string s = std::to_string(t.global_size());
        for (size_t i = 0; i < t.packed_size(); ++i) { uint32_t g = t.packed_to_global(i); s += "," + std::to_string(g) + ":" + std::to_string(t.global_to_packed(g)); }
        return s;
    };
    for (int k = 0; k < 20; ++k) {
        uint32_t p = t.packed_size(), g = t.global_size();
        const uint32_t past[] = {0, 1, (uint32_t)r.below(100), 0x7FFFFFFFu};
        uint32_t x = past[r.below(4)];
        bool ok = true;
        switch (r.below(6)) {
            case 0: ok = refused("tracker:packed_to_global", ctx, snap, [&] { t.packed_to_global(p + x); }); break;
            case 1: ok = refused("tracker:global_to_packed", ctx, snap, [&] { t.global_to_packed(g + x); }); break;
            case 2: ok = refused("tracker:remove_group", ctx, snap, [&] { t.remove_group(p + x); }); break;
            case 3: if (!dead.empty()) { uint32_t y = r.pick(dead); ok = refused("tracker:stale", ctx + " stale " + std::to_string(y), snap, [&] { t.global_to_packed(y); }); } break;
            case 4: t.add_group(); ctx += " +"; break;
            case 5: if (p) { uint32_t y = r.below(p); dead.push_back(t.packed_to_global(y)); t.remove_group(y); ctx += " -" + std::to_string(y); } break;
        }
        if (!ok) return;
    }
    R().seen(hash_str(ctx));
}

// ------------------------------------------------------------------ containers
static void containers(Rng & r) {
    std::string ctx = "containers";
    d::Sparse_<uint32_t, float> s;
    d::SparseCounter<uint32_t, int> c;
    d::Packed_<int> p;
    for (int i = 0, n = r.below(8); i < n; ++i) { uint32_t k = 10 + i * 3; s.add(k, i + 0.5f); c.init_count(k, i + 1); p.packed_add(k); ctx += " " + std::to_string(k); }
    auto ssnap = [&] { std::map<uint32_t, float> m(s.begin(), s.end()); std::string o; for (auto & i : m) o += std::to_string(i.first) + ":" + bits(i.second); return o + std::to_string(s.size()); };
    auto csnap = [&] { std::map<uint32_t, int> m(c.begin(), c.end()); std::string o; for (auto & i : m) o += std::to_string(i.first) + ":" + std::to_string(i.second) + " "; return o + std::to_string(c.get_total()); };
    auto psnap = [&] { std::string o; for (int x : p) o += std::to_string(x) + ","; return o; };
    uint32_t unknown = r.chance(0.5) ? 1 + r.below(9) : 4000000000u + r.below(1000);
    refused("sparse:get", ctx, ssnap, [&] { volatile float x = s.get(unknown); (void)x; });
    refused("sparse:get-const", ctx, ssnap, [&] { const auto & q = s; volatile float x = q.get(unknown); (void)x; });
    refused("sparse:set", ctx, ssnap, [&] { s.set(unknown, 3.f); });
    refused("sparse:remove", ctx, ssnap, [&] { s.remove(unknown); });
    refused("sparse:pop", ctx, ssnap, [&] { s.pop(unknown); });
    refused("packed:remove", ctx, psnap, [&] { p.packed_remove(p.size() + r.below(5)); });
    if (s.size()) {
        uint32_t k = 10 + 3 * r.below(s.size());
        refused("sparse:add-duplicate", ctx, ssnap, [&] { s.add(k, 9.f); });
        refused("sparse:add-ref-duplicate", ctx, ssnap, [&] { s.add(k) = 9.f; });
        refused("counter:init-duplicate", ctx, csnap, [&] { c.init_count(k, 3); });
    }
    alignas(32) float f[32] = {0};
    VH_TRUE("P21:aligned-floats:unaligned:accepted", throws([&] { AlignedFloats bad(f + 1 + r.below(7), 4); }), "");
    R().seen(hash_str(ctx + std::to_string(unknown)));
}

// ------------------------------------------------------------------ samplers, special functions
template<class V> static void samplers(Rng & r, const std::string & vn) {
    rng_t e(1 + r.below(2000000000));
    auto any = [] { return std::string(); };
    std::string ctx = "samplers " + vn;
    V none;
    refused("sample_discrete-empty", ctx, any, [&] { d::sample_discrete(e, 0, none.data()); });
    refused("sample_from_likelihoods-empty", ctx, any, [&] { d::sample_from_likelihoods(e, none); });
    refused("sample_from_likelihoods-empty-total", ctx, any, [&] { d::sample_from_likelihoods(e, none, 1.f); });
    refused("sample_from_probs-empty", ctx, any, [&] { d::sample_from_probs(e, none); });
    refused("sample_from_scores-empty", ctx, any, [&] { d::sample_from_scores(e, none); });
    refused("sample_from_scores_overwrite-empty", ctx, any, [&] { V s; d::sample_from_scores_overwrite(e, s); });
    refused("sample_prob_from_scores-empty", ctx, any, [&] { V s; d::sample_prob_from_scores_overwrite(e, s); });
    refused("scores_to_likelihoods-empty", ctx, any, [&] { V s; d::scores_to_likelihoods(s); });
    refused("scores_to_probs-empty", ctx, any, [&] { V s; d::scores_to_probs(s); });
    size_t n = r.below(9);
    V s(n, 0.f);
    for (auto & x : s) x = r.unif(-3, 3);
    V before(s);
    size_t bad = r.chance(0.5) ? n : r.chance(0.5) ? n + r.below(50) : (size_t)-1;
    refused("score_from_scores-bad-index", ctx + " size " + std::to_string(n), any, [&] { d::score_from_scores_overwrite(e, bad, s); });
    VH_TRUE("P21:score_from_scores-bad-index:changed", std::equal(s.begin(), s.end(), before.begin()), ctx);
    refused("sample_from_urn-empty", ctx, any, [&] { d::sample_from_urn(e, std::vector<int>()); });
    refused("sample_pair_from_urn-short", ctx, any, [&] { d::sample_pair_from_urn(e, std::vector<int>(r.below(2), 7)); });
    refused("sample_beta_safe-bound", ctx, any, [&] { d::sample_beta_safe(e, 1.f, 1.f, -r.logunif(1e-6, 1)); });
    refused("sample_beta_safe-alpha", ctx, any, [&] { d::sample_beta_safe(e, r.chance(0.5) ? 0.f : -1.f, 1.f, 1e-3f); });
    size_t dim = r.range(1, 12), at = r.below(dim);
    Vec al(dim, 1.f), out(dim, 5.f);
    refused("sample_dirichlet_safe-bound", ctx, any, [&] { d::sample_dirichlet_safe(e, dim, al.data(), out.data(), -r.logunif(1e-6, 1)); });
    float mn = r.chance(0.5) ? 0.f : 0.01f;
    al[at] = r.chance(0.5) ? -1.f : -mn;
    refused("sample_dirichlet_safe-alpha", ctx + " alpha " + std::to_string(al[at]), any, [&] { d::sample_dirichlet_safe(e, dim, al.data(), out.data(), mn); });
    refused("lmultigamma-zero-dim", ctx, any, [&] { volatile float x = d::lmultigamma(0, 1.f); (void)x; });
    // multivariate
    typedef Eigen::MatrixXf M; typedef Eigen::VectorXf W;
    int k = r.range(1, 5), k2 = k + r.range(1, 3);
    M I = M::Identity(k, k), J = M::Identity(k2, k2), rect = M::Zero(k, k2), neg = -M::Identity(k, k);
    W z = W::Zero(k), z2 = W::Zero(k2);
    refused("score_mv_student_t-mean", ctx, any, [&] { volatile float x = d::score_mv_student_t(z, 3.f, z2, I); (void)x; });
    refused("score_mv_student_t-scale", ctx, any, [&] { volatile float x = d::score_mv_student_t(z, 3.f, z, r.chance(0.5) ? J : rect); (void)x; });
    refused("sample_multivariate_normal-dims", ctx, any, [&] { d::sample_multivariate_normal(z2, I, e); });
    refused("sample_multivariate_normal-rect", ctx, any, [&] { d::sample_multivariate_normal(z, rect, e); });
    refused("sample_multivariate_normal-indefinite", ctx, any, [&] { d::sample_multivariate_normal(z, neg, e); });
    refused("sample_wishart-rect", ctx, any, [&] { d::sample_wishart(k + 2.f, rect, e); });
    refused("sample_wishart-indefinite", ctx, any, [&] { d::sample_wishart(k + 2.f, neg, e); });
    R().seen(hash_str(ctx + std::to_string(n) + std::to_string(bad) + std::to_string(dim) + std::to_string(al[at]) + std::to_string(k)));
}

// ------------------------------------------------------------------ clusterings
template<class count_t> static void clusterings(Rng & r, const std::string & ct) {
    typedef d::Clustering<count_t> C;
    rng_t e(1 + r.below(2000000000));
    auto any = [] { return std::string(); };
    typename C::LowEntropy le; le.dataset_size = r.range(2, 60);
    count_t n = le.dataset_size;
    std::string ctx = "low entropy" + ct + " of " + std::to_string(n);
    count_t over = n + 1 + (r.chance(0.5) ? 0 : r.below(20));
    refused("le:sample_assignments-oversized", ctx, any, [&] { le.sample_assignments(over, e); });
    std::vector<count_t> counts(1, over - 1); counts.push_back(1);
    refused("le:score_counts-oversized", ctx, any, [&] { volatile float x = le.score_counts(counts); (void)x; });
    refused("le:score_add_value-full", ctx, any, [&] { volatile float x = le.score_add_value(1, 1, n + r.below(3), 1); (void)x; });
    refused("le:score_add_value-no-empty", ctx, any, [&] { volatile float x = le.score_add_value(0, 1, 1, 0); (void)x; });
    refused("le:score_add_value-too-many-groups", ctx, any, [&] { volatile float x = le.score_add_value(1, 3, 1, 1); (void)x; });
    refused("le:score_remove_value-nothing", ctx, any, [&] { volatile float x = le.score_remove_value(1, 1, 0, 1); (void)x; });
    typename C::Assignments a;
    size_t m = r.range(1, 8), hole = r.below(m);
    for (size_t i = 0; i < m; ++i) a[i] = i + (i >= hole);
    refused("count_assignments-gap", ctx + " hole " + std::to_string(hole), any, [&] { C::count_assignments(a); });
    R().seen(hash_str(ctx + std::to_string(over) + std::to_string(m) + std::to_string(hole)));
}

static void P21_base(Rng & r) {
    switch (r.below(7)) {
        case 0: case 1: if (r.chance(0.7)) drivers<int>(r, ""); else drivers<unsigned>(r, "-unsigned"); break;
        case 2: tracker(r); break;
        case 3: containers(r); break;
        case 4: samplers<Vec>(r, "std"); break;
        case 5: samplers<VectorFloat>(r, "aligned"); break;
        case 6: clusterings<int>(r, ""); break;
    }
}
static Register r_base("P21-base", P21_base);
