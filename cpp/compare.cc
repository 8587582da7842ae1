// P25: the closeness comparisons of assert_close.hpp and io/protobuf.hpp.
#include "vh.hpp"
#include <distributions/common.hpp>
#include <distributions/assert_close.hpp>
#include <distributions/io/protobuf.hpp>
#include <distributions/vector.hpp>
using namespace vh;
namespace d = distributions;
namespace pb = protobuf::distributions;

// both ways round, and as the assertion sees it
template<class A> static bool verdict(const std::string & key, const A & x, const A & y, bool want, const std::string & ctx) {
    R().event(want ? "accepted" : "rejected");
    bool a = d::are_close(x, y), b = d::are_close(y, x);
    if (!VH_TRUE("P25:" + key + ":symmetry", a == b, ctx << " : " << a << " one way, " << b << " the other")) return false;
    return VH_TRUE("P25:" + key + (want ? ":rejects-close" : ":accepts-different"), a == want, ctx);
}

// ------------------------------------------------------------------ numbers, vectors and pairs
static double any_number(Rng & r) {
    double x = r.chance(0.1) ? 0 : r.chance(0.1) ? r.range(-5, 5) : r.logunif(1e-6, 1e9);
    return r.chance(0.5) ? x : -x;
}
// the documented tolerance: |x - y| <= 0.1 (1 + |x| + |y|). Returns a y well inside or well outside it.
template<class F> static F near_or_far(Rng & r, F x, bool close) {
    double a = std::abs((double)x);
    if (close) {
        double y = x + r.unif(-1, 1) * (r.chance(0.5) ? 1e-6 : 0.98) * 0.1 * (1 + a) ;   // (1 + a + |y|) >= 1 + a
        return (F)y;
    }
    for (;;) {
        double y = r.chance(0.3) ? any_number(r) : r.chance(0.2) ? -(double)x
            : x + (r.chance(0.5) ? 1 : -1) * r.unif(1.02, 3) * 0.1 * (1 + 2 * a) / (r.chance(0.5) ? 1 : 0.9);
        if (std::abs((double)(F)y - (double)x) > 1.01 * 0.1 * (1 + a + std::abs((double)(F)y))) return (F)y;
    }
}
template<class F> static void numbers(Rng & r, const std::string & key) {
    F x = (F)any_number(r);
    F y = near_or_far(r, x, true), z = near_or_far(r, x, false);
    R().seen(hash_str(S() << key << x << " " << y << " " << z));
    verdict(key, x, x, true, S() << x << " and itself");
    verdict(key, x, y, true, S() << x << " and " << y);
    verdict(key, x, z, false, S() << x << " and " << z);
    std::vector<F> v, w;
    for (size_t i = r.chance(0.03) ? r.range(20, 500) : r.below(20); i > 0; --i) { v.push_back((F)any_number(r)); w.push_back(near_or_far(r, v.back(), true)); }
    S s; for (F a : v) s << a << " ";
    verdict(key + "-vector", v, w, true, std::string(s));
    if (!v.empty()) {
        size_t i = r.chance(0.3) ? v.size() - 1 : r.below(v.size());
        std::vector<F> q = w;
        q[i] = near_or_far(r, v[i], false);
        verdict(key + "-vector", v, q, false, S() << std::string(s) << " element " << i << " became " << q[i]);
        q = w; q.pop_back();
        verdict(key + "-vector", v, q, false, S() << std::string(s) << " without its last element");
    }
    std::vector<F> q = w; q.push_back(0);
    verdict(key + "-vector", v, q, false, S() << std::string(s) << " with one more element");
    std::pair<F, int> p(x, 3), p2(y, 3), p3(z, 3), p4(y, 4);
    verdict(key + "-pair", p, p2, true, S() << x << " " << y);
    verdict(key + "-pair", p, p3, false, S() << x << " " << z);
    verdict(key + "-pair", p, p4, false, "second parts 3 and 4");
    std::vector<std::pair<int, F>> a{{1, x}, {2, x}}, b{{1, y}, {2, y}}, c{{1, y}, {2, z}}, e{{1, y}, {3, y}};
    verdict(key + "-pairs", a, b, true, S() << x << " " << y);
    verdict(key + "-pairs", a, c, false, S() << x << " " << z);
    verdict(key + "-pairs", a, e, false, "keys 2 and 3");
}
static void integers(Rng & r) {
    long x = (long)(r.u64() >> (2 + r.below(61))), y = x + (r.chance(0.5) ? 1 : 1l << r.below(60));
    verdict("integer", x, x, true, S() << x);
    verdict("integer", x, y, false, S() << x << " and " << y);
    std::string a(r.below(5), 'a'), b = a + "b";
    verdict("string", a, a, true, a);
    verdict("string", a, b, false, a + " and " + b);
}
static void P25_numbers(Rng & r) {
    numbers<float>(r, "float");
    numbers<double>(r, "double");
    integers(r);
    d::VectorFloat v(r.below(9), 1.5f), w = v;
    verdict("aligned-vector", v, w, true, "equal");
    w.push_back(1);
    verdict("aligned-vector", v, w, false, "one more element");
    float x = r.unif(-9, 9), y = near_or_far(r, x, true), z = near_or_far(r, x, false);
    auto asserted = [](float p, float q) { try { DIST_ASSERT_CLOSE(p, q); return true; } catch (const std::exception &) { return false; } };
    VH_TRUE("P25:assertion", asserted(x, y) && !asserted(x, z), x << " against " << y << " and " << z);
}
static Register r_P25_numbers("P25-numbers", P25_numbers);

// ------------------------------------------------------------------ messages
typedef google::protobuf::Message Msg;
typedef google::protobuf::FieldDescriptor FD;

// a handful of entries, seldom some hundreds
static int some(Rng & r, int least, int most) { return r.chance(0.03) ? r.range(50, 400) : r.range(least, most); }
static uint64_t any_count(Rng & r) { return r.chance(0.3) ? r.below(3) : r.u64() >> r.range(33, 62); }
static void fill(Rng & r, pb::BetaBernoulli::Shared & m) { m.set_alpha(r.logunif(.02, 50)); m.set_beta(r.logunif(.02, 50)); }
static void fill(Rng & r, pb::BetaBernoulli::Group & m) { m.set_heads(any_count(r)); m.set_tails(any_count(r)); }
static void fill(Rng & r, pb::BetaNegativeBinomial::Shared & m) { m.set_alpha(r.logunif(.02, 50)); m.set_beta(r.logunif(.02, 50)); m.set_r(1 + r.below(9)); }
static void fill(Rng & r, pb::BetaNegativeBinomial::Group & m) { m.set_count(any_count(r)); m.set_sum(any_count(r)); }
static void fill(Rng & r, pb::DirichletDiscrete::Shared & m) { for (int i = some(r, 1, 20); i > 0; --i) m.add_alphas(r.logunif(.02, 50)); }
static void fill(Rng & r, pb::DirichletDiscrete::Group & m) { for (int i = some(r, 1, 20); i > 0; --i) m.add_counts(any_count(r)); }
static uint32_t new_key(Rng & r, std::set<uint32_t> & used) {
    uint32_t k;
    do k = r.chance(0.5) ? r.below(30) : (uint32_t)r.u64(); while (!used.insert(k).second);
    return k;
}
static void fill(Rng & r, pb::DirichletProcessDiscrete::Shared & m) {
    m.set_gamma(r.logunif(.02, 50)); m.set_alpha(r.logunif(.02, 50));
    std::set<uint32_t> used;
    for (int i = some(r, 0, 12); i > 0; --i) { m.add_values(new_key(r, used)); m.add_betas(r.logunif(1e-4, 0.5)); m.add_counts(any_count(r)); }
}
static void fill(Rng & r, pb::DirichletProcessDiscrete::Group & m) {
    std::set<uint32_t> used;
    for (int i = some(r, 0, 12); i > 0; --i) { m.add_keys(new_key(r, used)); m.add_values(any_count(r)); }
}
static void fill(Rng & r, pb::GammaPoisson::Shared & m) { m.set_alpha(r.logunif(.02, 50)); m.set_inv_beta(r.logunif(.02, 50)); }
static void fill(Rng & r, pb::GammaPoisson::Group & m) { m.set_count(any_count(r)); m.set_sum(any_count(r)); m.set_log_prod(r.logunif(.1, 1e4)); }
static void fill(Rng & r, pb::NormalInverseChiSq::Shared & m) { m.set_mu(any_number(r)); m.set_kappa(r.logunif(.02, 50)); m.set_sigmasq(r.logunif(.02, 50)); m.set_nu(r.logunif(.02, 50)); }
static void fill(Rng & r, pb::NormalInverseChiSq::Group & m) { m.set_count(any_count(r)); m.set_mean(any_number(r)); m.set_count_times_variance(r.logunif(1e-3, 1e6)); }
static void fill(Rng & r, pb::NormalInverseWishart::Shared & m) {
    int n = r.chance(0.05) ? r.range(5, 20) : r.range(1, 4);
    for (int i = 0; i < n; ++i) m.add_mu(any_number(r));
    for (int i = 0; i < n * n; ++i) m.add_psi(any_number(r));
    m.set_kappa(r.logunif(.02, 50)); m.set_nu(n + r.logunif(.02, 50));
}
static void fill(Rng & r, pb::NormalInverseWishart::Group & m) {
    int n = r.chance(0.05) ? r.range(5, 20) : r.range(1, 4);
    for (int i = 0; i < n; ++i) m.add_sum_x(any_number(r));
    for (int i = 0; i < n * n; ++i) m.add_sum_xxt(any_number(r));
    m.set_count(any_count(r));
}
static void fill(Rng & r, pb::Clustering::PitmanYor & m) { m.set_alpha(r.logunif(.02, 50)); m.set_d(r.unif()); }
static void fill(Rng & r, pb::Clustering::LowEntropy & m) { m.set_dataset_size(any_count(r)); }

static bool is_float(const FD * f) { return f->cpp_type() == FD::CPPTYPE_FLOAT; }
// every float moved a little, every float of one element moved far, every integer of one element changed
static void nudge(Rng & r, Msg & m) {
    const google::protobuf::Reflection * q = m.GetReflection();
    for (int i = 0; i < m.GetDescriptor()->field_count(); ++i) {
        const FD * f = m.GetDescriptor()->field(i);
        if (!is_float(f)) continue;
        if (f->is_repeated()) for (int k = 0; k < q->FieldSize(m, f); ++k) q->SetRepeatedFloat(&m, f, k, near_or_far(r, q->GetRepeatedFloat(m, f, k), true));
        else q->SetFloat(&m, f, near_or_far(r, q->GetFloat(m, f), true));
    }
}
// changes one field; false if it has nothing to change
static bool spoil(Rng & r, Msg & m, const FD * f, std::string & how) {
    const google::protobuf::Reflection * q = m.GetReflection();
    S s;
    s << f->name();
    int k = 0;
    if (f->is_repeated()) {
        int n = q->FieldSize(m, f);
        if (!n) return false;
        k = r.chance(0.3) ? n - 1 : r.below(n);
        s << "[" << k << " of " << n << "]";
    }
    auto other = [&](uint64_t x, int bits) { uint64_t y; do y = r.chance(0.5) ? x + 1 : x ^ (1ull << r.below(bits)); while (y == x); return y; };
    switch (f->cpp_type()) {
    case FD::CPPTYPE_FLOAT: {
        float x = f->is_repeated() ? q->GetRepeatedFloat(m, f, k) : q->GetFloat(m, f), y = near_or_far(r, x, false);
        if (f->is_repeated()) q->SetRepeatedFloat(&m, f, k, y); else q->SetFloat(&m, f, y);
        s << " " << x << " -> " << y;
        break; }
    case FD::CPPTYPE_UINT32: {   // the keys: all different
        uint32_t x = q->GetRepeatedUInt32(m, f, k), y;
        bool clash;
        do {
            y = (uint32_t)other(x, 32);
            clash = false;
            for (int i = 0; i < q->FieldSize(m, f); ++i) clash = clash || q->GetRepeatedUInt32(m, f, i) == y;
        } while (clash);
        q->SetRepeatedUInt32(&m, f, k, y);
        s << " " << x << " -> " << y;
        break; }
    case FD::CPPTYPE_UINT64: {
        uint64_t x = f->is_repeated() ? q->GetRepeatedUInt64(m, f, k) : q->GetUInt64(m, f), y = other(x, 62);
        if (f->is_repeated()) q->SetRepeatedUInt64(&m, f, k, y); else q->SetUInt64(&m, f, y);
        s << " " << x << " -> " << y;
        break; }
    case FD::CPPTYPE_INT32: {
        int x = q->GetInt32(m, f), y = (int)other(x, 30);
        q->SetInt32(&m, f, y);
        s << " " << x << " -> " << y;
        break; }
    default:
        return false;
    }
    how = s;
    return true;
}
static void permute(Rng & r, pb::DirichletProcessDiscrete::Shared & m) {
    for (int i = m.values_size(); i > 1; --i) {
        int j = r.below(i);
        m.mutable_values()->SwapElements(i - 1, j); m.mutable_betas()->SwapElements(i - 1, j); m.mutable_counts()->SwapElements(i - 1, j);
    }
}
static void permute(Rng & r, pb::DirichletProcessDiscrete::Group & m) {
    for (int i = m.keys_size(); i > 1; --i) {
        int j = r.below(i);
        m.mutable_keys()->SwapElements(i - 1, j); m.mutable_values()->SwapElements(i - 1, j);
    }
}
template<class M> static void permute(Rng &, M &) {}
// one more entry, in every field that grows together
static bool grow(Rng & r, pb::DirichletProcessDiscrete::Shared & m) {
    std::set<uint32_t> used(m.values().begin(), m.values().end());
    m.add_values(new_key(r, used)); m.add_betas(0.1); m.add_counts(0); return true;
}
static bool grow(Rng & r, pb::DirichletProcessDiscrete::Group & m) {
    std::set<uint32_t> used(m.keys().begin(), m.keys().end());
    m.add_keys(new_key(r, used)); m.add_values(0); return true;
}
static bool grow(Rng &, pb::DirichletDiscrete::Shared & m) { m.add_alphas(0); return true; }
static bool grow(Rng &, pb::DirichletDiscrete::Group & m) { m.add_counts(0); return true; }
static bool grow(Rng & r, pb::NormalInverseWishart::Shared & m) { if (r.chance(0.5)) m.add_mu(0); else m.add_psi(0); return true; }
static bool grow(Rng & r, pb::NormalInverseWishart::Group & m) { if (r.chance(0.5)) m.add_sum_x(0); else m.add_sum_xxt(0); return true; }
template<class M> static bool grow(Rng &, M &) { return false; }

// tolerant: floats are compared with the tolerance (otherwise every bit counts)
template<class M> static void message(Rng & r, const std::string & key, bool tolerant) {
    M a;
    fill(r, a);
    M b(a);
    std::string ctx = key + " {" + a.ShortDebugString().substr(0, 600) + "} ", how;
    R().seen(hash_str(ctx));
    R().sample(ctx);
    if (!verdict(key, a, a, true, ctx + "and itself")) return;
    if (!verdict(key, a, b, true, ctx + "and its copy")) return;
    if (!VH_TRUE("P25:" + key + ":equality", static_cast<const Msg &>(a) == static_cast<const Msg &>(b), ctx << "differs from its copy")) return;
    if (tolerant) {
        nudge(r, b);
        permute(r, b);
        if (!verdict(key, a, b, true, ctx + "and {" + b.ShortDebugString().substr(0, 600) + "}")) return;
    }
    for (int i = 0; i < a.GetDescriptor()->field_count(); ++i) {
        const FD * f = a.GetDescriptor()->field(i);
        M c(a);
        if (!spoil(r, c, f, how)) continue;
        permute(r, c);
        R().event("fields");
        if (key == "gp-group" && f->name() == "log_prod") {   // documented: too noisy to compare
            if (!verdict(key, a, c, true, ctx + "after " + how)) return;
        } else if (!verdict(key, a, c, false, ctx + "after " + how)) return;
        M e(a);
        if (spoil(r, e, f, how))
            if (!VH_TRUE("P25:" + key + ":equality", !(static_cast<const Msg &>(a) == static_cast<const Msg &>(e)), ctx << "equals itself after " << how)) return;
    }
    M c(b);
    if (grow(r, c)) { permute(r, c); R().event("grown"); verdict(key, a, c, false, ctx + "after one more element"); }
    std::ostringstream o;
    o << static_cast<const Msg &>(a);
    VH_TRUE("P25:" + key + ":printed", o.str() == "{" + a.ShortDebugString() + "}", o.str());
}
static void P25(Rng & r) {
    message<pb::BetaBernoulli::Shared>(r, "bb-shared", true);
    message<pb::BetaBernoulli::Group>(r, "bb-group", false);
    message<pb::BetaNegativeBinomial::Shared>(r, "bnb-shared", true);
    message<pb::BetaNegativeBinomial::Group>(r, "bnb-group", false);
    message<pb::DirichletDiscrete::Shared>(r, "dd-shared", true);
    message<pb::DirichletDiscrete::Group>(r, "dd-group", false);
    message<pb::DirichletProcessDiscrete::Shared>(r, "dpd-shared", true);
    message<pb::DirichletProcessDiscrete::Group>(r, "dpd-group", true);
    message<pb::GammaPoisson::Shared>(r, "gp-shared", true);
    message<pb::GammaPoisson::Group>(r, "gp-group", true);
    message<pb::NormalInverseChiSq::Shared>(r, "nich-shared", true);
    message<pb::NormalInverseChiSq::Group>(r, "nich-group", true);
    message<pb::NormalInverseWishart::Shared>(r, "niw-shared", true);
    message<pb::NormalInverseWishart::Group>(r, "niw-group", true);
    message<pb::Clustering::PitmanYor>(r, "py", false);
    message<pb::Clustering::LowEntropy>(r, "le", false);

    google::protobuf::RepeatedField<float> x, y;
    S s;
    s << "[";
    for (size_t i = 0, n = r.below(9); i < n; ++i) { float f = r.range(-9, 9); x.Add(f); y.Add(f); s << (i ? "," : "") << f; }
    s << "]";
    std::ostringstream o;
    o << x;
    VH_TRUE("P25:repeated:printed", o.str() == std::string(s), o.str() << " for " << std::string(s));
    VH_TRUE("P25:repeated:equality", x == y, std::string(s));
    if (x.size()) { int k = r.below(x.size()); y.Set(k, y.Get(k) + 1); VH_TRUE("P25:repeated:equality", !(x == y), std::string(s) << " with another element " << k); }
    y = x; y.Add(1);
    VH_TRUE("P25:repeated:equality", !(x == y) && !(y == x), std::string(s) << " with one more");
    google::protobuf::RepeatedPtrField<std::string> u, v;
    for (size_t i = r.below(4); i > 0; --i) { *u.Add() = "a"; *v.Add() = "a"; }
    VH_TRUE("P25:repeated:equality", u == v, "strings");
    *v.Add() = "";
    VH_TRUE("P25:repeated:equality", !(u == v), "strings");
}
static Register r_P25("P25", P25);
