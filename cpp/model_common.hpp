// Helpers shared by the monitors over one model (MODEL = BB, BNB, DD, DPD, GP, NICH, NIW).
#pragma once
#include "models.hpp"
#include <type_traits>

using namespace vm;
using distributions::VectorFloat;
using distributions::AlignedFloats;

typedef MODEL T;
typedef T::Model Model;
typedef T::Shared Shared;
typedef T::Group Group;
typedef T::Value Value;
typedef std::vector<Value> Data;

__attribute__((unused)) static const std::string N = T::name();

static rng_t new_rng(Rng & r) { return rng_t((unsigned)(1 + r.below(2000000000))); }

static std::string show_data(const Data & d) {
    S o;
    o << "[";
    for (size_t i = 0; i < d.size() && i < 40; ++i) o << T::show_value(d[i]) << " ";
    o << (d.size() > 40 ? "...]" : "]");
    return o;
}
static Stats stats_of(const Shared & h, const Data & d) {
    Stats s = T::zero(h);
    for (auto && v : d) T::add(s, v, 1);
    return s;
}
static Group fresh(const Shared & h, const Data & d, rng_t & e) {
    Group g;
    g.init(h, e);
    for (auto && v : d) g.add_value(h, v, e);
    return g;
}
static bool erase_one(Data & d, const Value & v) {
    for (size_t i = 0; i < d.size(); ++i) if (T::same(d[i], v)) { d[i] = d.back(); d.pop_back(); return true; }
    return false;
}
static size_t gen_size(Rng & r) {
    double u = r.unif();
    return u < 0.15 ? 0 : u < 0.3 ? 1 : u < 0.9 ? r.range(2, 12) : r.range(13, 120);
}
static Data gen_data(Rng & r, const Shared & h, size_t n) {
    Data d;
    for (size_t i = 0; i < n; ++i)
        if (!d.empty() && r.chance(0.25)) d.push_back(r.pick(d)); else d.push_back(T::gen_value(r, h));
    return d;
}
static Value cand(Rng & r, const Shared & h, const Data & d) {
    if (!d.empty() && r.chance(0.4)) return r.pick(d);
    return T::gen_value(r, h);
}
// the observations which net counts describe (count models)
template<class TT, int debt> struct Expand {
    static std::vector<typename TT::Value> net(const Stats &) { return std::vector<typename TT::Value>(); }
};
template<class TT> struct Expand<TT, 1> {
    static std::vector<typename TT::Value> net(const Stats & s) {
        std::vector<typename TT::Value> d;
        for (size_t i = 0; i < s.n.size(); ++i) for (long long k = 0; k < s.n[i]; ++k) d.push_back(i);
        for (auto & i : s.m) for (long long k = 0; k < i.second; ++k) d.push_back(i.first);
        return d;
    }
};
static bool usable(const Stats & s) {  // no data debt, no degenerate rounding
    for (auto & i : s.m) if (i.second < 0) return false;
    for (auto i : s.n) if (i < 0) return false;
    return s.count >= 0;
}
// the statistic rounding which a history of K single-precision operations can leave behind
static std::vector<double> stat_tol(const Stats & s, double M, double K, double Nmax) {
    std::vector<double> t(s.x.size(), 0.0);
    if (N == "gp") t[0] = 1e-3 + K * (LGT(M + 1) + EPS * Nmax * lgam(M + 2) * 2);
    if (N == "nich") {
        t[0] = 4 * EPS * (M + 1e-3) * (K + 2) * (2 + Nmax / std::max<double>(1, s.n[0]));
        t[1] = 16 * EPS * (M * M + 1e-3) * (K + 4) * (Nmax + 2);
    }
    if (N == "niw") for (auto & x : t) x = 8 * EPS * (M * M + M + 1e-3) * (Nmax + 2) * (K + 2);
    return t;
}
static double magnitude(const bool & v) { return v; }
template<class V> static typename std::enable_if<std::is_arithmetic<V>::value, double>::type magnitude(const V & v) { return std::abs((double)v); }
template<class V> static typename std::enable_if<!std::is_arithmetic<V>::value, double>::type magnitude(const V & v) {
    double m = 0; for (int i = 0; i < v.size(); ++i) m = std::max(m, std::abs((double)v(i))); return m;
}

static bool check_stats(const std::string & key, const Stats & got, const Stats & want, const std::vector<double> & tol, const std::string & ctx) {
    Stats w = want;
    for (auto i = w.m.begin(); i != w.m.end();) if (i->second == 0) w.m.erase(i++); else ++i;
    if (got.n != w.n || got.m != w.m)
        return VH_TRUE(key, false, ctx << " integer statistics " << show(got) << " expected " << show(w));
    if (got.x.size() != w.x.size()) return VH_TRUE(key, false, ctx << " shape of statistics");
    for (size_t i = 0; i < got.x.size(); ++i)
        if (!VH_CLOSE(key, got.x[i], w.x[i], tol[i], ctx << " statistic x[" << i << "] " << show(got) << " vs " << show(w))) return false;
    return true;
}

// ---- scores through a one-group mixture (models which have one)
template<class TT, int has> struct Mix {
    static bool pred(const Shared & h, const Group & g, const Value & v, rng_t & e, float & a, float & b, float & d) {
        typename TT::Model::Mixture m;
        m.groups().push_back(g);
        m.init(h, e);
        a = m.score_value_group(h, 0, v, e);
        VectorFloat acc(1, 0.f);
        m.score_value(h, v, acc, e);
        b = acc[0];
        d = m.score_data(h, e);
        return true;
    }
};
template<class TT> struct Mix<TT, 0> {
    static bool pred(const Shared &, const Group &, const Value &, rng_t &, float &, float &, float &) { return false; }
};
