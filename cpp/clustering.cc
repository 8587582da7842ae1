// P06, P07, P09, P10 : clustering models, mixture driver, id tracker (C++).
#include "vh.hpp"
#include <algorithm>
#include <distributions/clustering.hpp>
#include <distributions/mixture.hpp>

using namespace vh;
using distributions::rng_t;
using distributions::VectorFloat;
using distributions::AlignedFloats;
typedef int32_t count_t;
typedef distributions::Clustering<count_t> C;
typedef C::PitmanYor PY;
typedef C::LowEntropy LE;

static const double FL = 7e-5;  // fast_log

static std::string show(const std::vector<count_t> & v) {
    S o; o << "[";
    for (size_t i = 0; i < v.size() && i < 40; ++i) o << v[i] << " ";
    o << "]"; return o;
}
static PY gen_py(Rng & r) {
    PY m;
    m.alpha = r.logunif(0.02, 100);
    m.d = r.chance(0.25) ? 0 : r.chance(0.1) ? 0.95 : r.chance(0.06) ? 1 - r.logunif(5e-4, 0.1) : r.unif(0.01, 0.9);
    return m;
}
static std::string show(const PY & m) { return S() << "PitmanYor(alpha=" << m.alpha << ",d=" << m.d << ")"; }
static std::string show(const LE & m) { return S() << "LowEntropy(dataset_size=" << m.dataset_size << ")"; }

static double py_add(const PY & m, double g, double K, double n, double E) {
    return g == 0 ? dlog(((double)m.alpha + m.d * K) / ((n + m.alpha) * E)) : dlog((g - m.d) / (n + m.alpha));
}
static double le_occupied(double g) { return (g + 1) * dlog(g + 1) - g * dlog(g); }
static double le_tol(double g) { return g > 10000 ? 3e-4 : FL * g + 2e-4 + 2.4e-7 * g; }

// ------------------------------------------------------------------ P06
static void init_model(Rng & r, PY & m) { m = gen_py(r); }
static void alike(Rng & r, const PY & a, PY & b) { if (r.chance(0.5)) b.d = a.d; else b.alpha = a.alpha; }  // one of the two stays
static void alike(Rng &, const LE &, LE &) {}
static void heavy_model(Rng &, PY &) {}
static void heavy_model(Rng & r, LE & m) { m.dataset_size = 1100000000 + r.below(1000000000); }
static void init_model(Rng & r, LE & m) { m.dataset_size = r.chance(0.3) ? 200 : r.range(400, 100000); }

template<class Model, class Driver> static void driver_case(Rng & r, const std::string & name) {
    Model m;
    init_model(r, m);
    Driver d;
    const bool crowd = r.chance(0.02), heavy = r.chance(0.03);
    if (heavy || crowd) heavy_model(r, m);
    if (crowd) R().event("crowds");
    if (heavy) R().event("heavy_groups");
    Model old = m;
    auto gen_groups = [&]() {
        std::vector<count_t> v;
        size_t E = crowd && r.chance(0.5) ? r.range(5, 80) : r.range(1, 4), G = crowd ? r.range(20, 300) : r.chance(0.2) ? 0 : r.range(1, 10);
        for (size_t i = 0; i < G; ++i) v.push_back(heavy && r.chance(0.4) ? (count_t)r.logunif(100, 3e6) : r.range(1, r.chance(0.2) ? 10 : 3));
        for (size_t i = 0; i < E; ++i) v.push_back(0);
        r.shuffle(v);
        return v;
    };
    std::vector<count_t> shadow = gen_groups();
    size_t E = std::count(shadow.begin(), shadow.end(), 0);
    S log;
    auto reinit = [&] { d.counts() = shadow; d.init(m); };
    reinit();
    log << show(m) << " init" << show(shadow) << " ";
    size_t nops = r.range(5, 60), limit = heavy ? 1000000000 : crowd ? 5000 : 150;
    double padd = r.unif(0.25, 0.75);
    for (size_t i = 0; i <= nops; ++i) {
        std::string ctx = std::string(log).substr(0, 200) + " ... " + std::string(log).substr(std::string(log).size() > 900 ? std::string(log).size() - 900 : 0);
        // --- what the driver says
        if (!VH_TRUE("P06:" + name + ":counts", d.counts() == shadow, ctx << " counts " << show(d.counts()) << " expected " << show(shadow))) return;
        size_t n = 0, ne = 0;
        std::set<size_t> empty, got(d.empty_groupids().begin(), d.empty_groupids().end());
        for (size_t k = 0; k < shadow.size(); ++k) {
            n += shadow[k];
            if (!shadow[k]) { empty.insert(k); } else ++ne;
            VH_TRUE("P06:" + name + ":counts-i", d.counts(k) == shadow[k], ctx);
        }
        if (!VH_TRUE("P06:" + name + ":sample_size", d.sample_size() == n, ctx << " sample_size " << d.sample_size() << " expected " << n)) return;
        if (!VH_TRUE("P06:" + name + ":empty_groupids", got == empty, ctx << " empty ids differ (" << got.size() << " vs " << empty.size() << ")")) return;
        if (!VH_TRUE("P06:" + name + ":empty-count", empty.size() == E, ctx << " now " << empty.size() << " empty groups, started with " << E)) return;
        // --- scores
        {
            VectorFloat s(shadow.size() + 16, 3.5f);
            d.score_value(m, AlignedFloats(s.data() + 8, shadow.size()));
            for (size_t k = 0; k < s.size(); ++k) {
                if (k < 8 || k >= shadow.size() + 8) { if (!VH_TRUE("P06:" + name + ":touched-outside", s[k] == 3.5f, ctx)) return; continue; }
                double direct = m.score_add_value(shadow[k - 8], ne, n, E);
                if (!VH_CLOSE("P06:" + name + ":score_value", s[k], direct, 2.5e-4, ctx << " group " << k - 8 << " of " << show(shadow))) return;
            }
            double sd = d.score_data(m), sc = m.score_counts(shadow);
            if (!VH_CLOSE("P06:" + name + ":score_data", sd, sc, 1e-5 * (1 + std::abs(sc)), ctx)) return;
            R().event("score_checks");
        }
        R().event("states");
        R().seen(hash_str(S() << name << show(m) << show(shadow) << log.o.str().size()));
        if (i == nops) break;
        // --- refused operations change nothing
        if (r.chance(0.2)) {
            size_t g = r.below(shadow.size());
            bool bad = false;
            switch (r.below(5)) {
                case 0: bad = throws([&] { d.add_value(m, shadow.size() + r.below(3)); }); break;
                case 1: bad = throws([&] { d.remove_value(m, shadow.size() + r.below(3)); }); break;
                case 2: bad = throws([&] { d.add_value(m, g, 0); }); break;
                case 3: bad = throws([&] { d.remove_value(m, g, shadow[g] + 1 + r.below(3)); }); break;
                case 4: g = *empty.begin(); bad = throws([&] { d.remove_value(m, g); }); break;
            }
            if (!VH_TRUE("P06:" + name + ":bad-argument-accepted", bad, ctx)) return;
            log << "refused ";
            R().event("refused");
            continue;
        }
        if (r.chance(0.06)) {
            // the hyperparameters have moved, the groups are other ones, or both, or neither
            if (r.chance(0.5)) { init_model(r, m); if (heavy || crowd) heavy_model(r, m); if (r.chance(0.5)) alike(r, old, m); R().event("hyperparameter_moves"); }
            if (r.chance(0.3)) { shadow = gen_groups(); E = std::count(shadow.begin(), shadow.end(), 0); }
            old = m;
            reinit();
            log << "init " << show(m) << " " << show(shadow) << " ";
            continue;
        }
        if (r.chance(0.04)) { Driver copy(d); d.add_value(m, *empty.begin()); d = copy; log << "copy "; continue; }
        bool add = n == 0 || (n < limit && r.chance(padd));
        if (add) {
            size_t g = r.chance(0.35) ? *std::next(empty.begin(), r.below(empty.size())) : r.below(shadow.size());
            count_t c = r.chance(0.7) ? 1 : heavy && r.chance(0.5) ? (count_t)r.logunif(10, 1e6) : r.range(2, 6);
            bool was_empty = shadow[g] == 0, ret = c == 1 && r.chance(0.5) ? d.add_value(m, g) : d.add_value(m, g, c);
            shadow[g] += c;
            if (was_empty) { shadow.push_back(0); R().event("groups_created"); }
            log << "+" << g << "*" << c << " ";
            if (!VH_TRUE("P06:" + name + ":add-return", ret == was_empty, std::string(log) << " add_value returned " << ret)) return;
        } else {
            size_t g;
            do g = r.below(shadow.size()); while (!shadow[g]);
            count_t c = r.chance(0.5) ? 1 : r.chance(0.5) ? shadow[g] : r.range(1, shadow[g]);
            bool ret = c == 1 && r.chance(0.5) ? d.remove_value(m, g) : d.remove_value(m, g, c);
            shadow[g] -= c;
            bool gone = shadow[g] == 0;
            if (gone) { shadow[g] = shadow.back(); shadow.pop_back(); R().event("groups_deleted"); }
            log << "-" << g << "*" << c << " ";
            if (!VH_TRUE("P06:" + name + ":remove-return", ret == gone, std::string(log) << " remove_value returned " << ret)) return;
        }
    }
    // without an empty group a driver refuses to start
    Driver none;
    none.counts().assign(r.below(4), 2);
    VH_TRUE("P06:" + name + ":no-empty-group-accepted", throws([&] { none.init(m); }), show(m) << " counts " << show(none.counts()));
    R().sample(name + " " + std::string(log).substr(0, 400));
}
static void P06(Rng & r) {
    switch (r.below(3)) {
        case 0: driver_case<PY, PY::Mixture>(r, "py-cached"); break;
        case 1: driver_case<PY, distributions::MixtureDriver<PY, count_t>>(r, "py-driver"); break;
        case 2: driver_case<LE, LE::Mixture>(r, "lowentropy"); break;
    }
}
static Register r_P06("P06", P06);

// ------------------------------------------------------------------ P07
static void P07(Rng & r) {
    distributions::MixtureIdTracker t;
    std::vector<uint32_t> live;     // packed -> global
    std::vector<uint32_t> dead;
    uint32_t next = 0;
    S log;
    int inits = r.chance(0.2) ? 2 : 1;
    for (int k = 0; k < inits; ++k) {
        size_t n0 = r.chance(0.3) ? 0 : r.below(12);
        if (n0 == 0 && r.chance(0.5)) t.init(); else t.init(n0);
        live.clear(); dead.clear(); next = 0;
        for (size_t i = 0; i < n0; ++i) live.push_back(next++);
        log << "init(" << n0 << ") ";
        size_t nops = r.chance(0.05) ? 400 : r.range(1, 60);
        double padd = r.unif(0.3, 0.7);
        for (size_t i = 0; i <= nops; ++i) {
            std::string l = log, ctx = l.size() > 700 ? l.substr(0, 30) + "..." + l.substr(l.size() - 650) : l;
            if (!VH_TRUE("P07:sizes", t.packed_size() == live.size() && t.global_size() == next, ctx << " sizes " << t.packed_size() << "," << t.global_size())) return;
            std::set<uint32_t> seen;
            for (size_t p = 0; p < live.size(); ++p) {
                uint32_t g = t.packed_to_global(p);
                if (!VH_TRUE("P07:packed_to_global", g == live[p], ctx << " packed " << p << " -> " << g << " expected " << live[p])) return;
                if (!VH_TRUE("P07:not-injective", seen.insert(g).second, ctx)) return;
                uint32_t back = t.global_to_packed(g);
                if (!VH_TRUE("P07:global_to_packed", back == p, ctx << " global " << g << " -> " << back << " expected " << p)) return;
                R().event("conversions");
            }
            R().event("states");
            R().seen(hash_str(l));
            if (i == nops) break;
            if (r.chance(0.2)) {
                bool bad = false;
                switch (r.below(4)) {
                    case 0: bad = throws([&] { t.packed_to_global(live.size() + r.below(4)); }); break;
                    case 1: bad = throws([&] { t.global_to_packed(next + r.below(4)); }); break;
                    case 2: bad = throws([&] { t.remove_group(live.size() + r.below(4)); }); break;
                    case 3: if (dead.empty()) continue; bad = throws([&] { t.global_to_packed(r.pick(dead)); }); R().event("stale_refused"); break;
                }
                if (!VH_TRUE("P07:bad-id-accepted", bad, ctx)) return;
                R().event("refused");
                continue;
            }
            if (live.empty() || r.chance(padd)) {
                t.add_group();
                live.push_back(next++);
                log << "+ ";
            } else {
                size_t p = r.chance(0.2) ? 0 : r.chance(0.25) ? live.size() - 1 : r.below(live.size());
                t.remove_group(p);
                dead.push_back(live[p]);
                live[p] = live.back(); live.pop_back();
                log << "-" << p << " ";
            }
            if (r.chance(0.03)) { distributions::MixtureIdTracker c(t); c.add_group(); t = t; }
        }
    }
    R().sample(std::string(log).substr(0, 300));
}
static Register r_P07("P07", P07);
// a long life: more groups than 16 bits can name, one after another or all at once
static void P07_long(Rng & r) {
    distributions::MixtureIdTracker t;
    std::vector<uint32_t> live;
    uint32_t next = 0;
    bool many = r.chance(0.4);
    size_t keep = many ? r.range(66000, 200000) : r.range(1, 40), ops = r.range(140000, 400000);
    std::string ctx = S() << ops << " operations around " << keep << " groups";
    R().seen(hash_str(ctx));
    R().sample(ctx);
    t.init();
    auto same = [&](size_t p) {
        uint32_t g = t.packed_to_global(p);
        return VH_TRUE("P07:packed_to_global", g == live[p], ctx << " packed " << p << " -> " << g << " expected " << live[p] << " of " << next)
            && VH_TRUE("P07:global_to_packed", t.global_to_packed(live[p]) == p, ctx << " global " << live[p] << " -> " << t.global_to_packed(live[p]) << " expected " << p);
    };
    for (size_t i = 0; i < ops; ++i) {
        if (live.size() < 1 + keep / 2 || r.chance(live.size() < keep ? 0.7 : 0.4)) {
            t.add_group();
            live.push_back(next++);
            if (!same(live.size() - 1)) return;
        } else {
            size_t p = r.below(live.size());
            uint32_t g = live[p];
            t.remove_group(p);
            live[p] = live.back(); live.pop_back();
            if (p < live.size() && !same(p)) return;
            if (i % 64 == 0 && !VH_TRUE("P07:bad-id-accepted", throws([&] { t.global_to_packed(g); }), ctx << " stale " << g)) return;
        }
        if (!live.empty() && !same(r.below(live.size()))) return;
        if (!VH_TRUE("P07:sizes", t.packed_size() == live.size() && t.global_size() == next, ctx << " sizes " << t.packed_size() << "," << t.global_size())) return;
    }
    for (size_t p = 0; p < live.size(); ++p) if (!same(p)) return;
    R().event("long_lives");
    R().event("global_ids", next);
}
static Register r_P07_long("P07-long", P07_long);

// ------------------------------------------------------------------ P09
static double log_multiplicity(const std::vector<count_t> & parts) {  // set partitions with these block sizes
    double n = 0, s = 0;
    std::map<count_t, int> rep;
    for (auto c : parts) { n += c; s -= lgam(c + 1.0); ++rep[c]; }
    for (auto & i : rep) s -= lgam(i.second + 1.0);
    return s + lgam(n + 1);
}
static void int_partitions(int n, int maxp, std::vector<count_t> & cur, std::function<void(const std::vector<count_t> &)> f) {
    if (n == 0) { f(cur); return; }
    for (int p = std::min(n, maxp); p >= 1; --p) { cur.push_back(p); int_partitions(n - p, p, cur, f); cur.pop_back(); }
}
static double log_z_exact(int n) {
    static std::vector<long double> z{1.0L};
    static bool scaled = false; (void)scaled;
    // z(n)/n! recurrence keeps the numbers in range: a_n = sum_k (k^k/(k-1)!) a_{n-k} / n
    while ((int)z.size() <= n) {
        int m = z.size();
        long double s = 0;
        for (int k = 1; k <= m; ++k) s += (long double)dexp(k * dlog(k) - lgam(k)) * z[m - k];
        z.push_back(s / m);
    }
    return dlog((double)z[n]) + lgam(n + 1.0);
}
static std::vector<count_t> gen_counts(Rng & r, int maxg, int maxc) {
    std::vector<count_t> c;
    int g = r.range(0, maxg);
    bool small = r.chance(0.5);
    for (int i = 0; i < g; ++i) c.push_back(r.range(1, small ? 3 : maxc));
    return c;
}

static void P09_py(Rng & r) {
    PY m = gen_py(r);
    std::vector<count_t> c = gen_counts(r, r.chance(0.1) ? 60 : 8, r.chance(0.1) ? 2000 : 12);
    std::string ctx = S() << show(m) << " " << show(c);
    R().seen(hash_str(ctx));
    R().sample(ctx);
    double got = m.score_counts(c);
    // exact sequential score
    double n = 0, K = 0, exact = 0, terms = 0;
    for (auto k : c) {
        exact += py_add(m, 0, K, n, 1) + (lgam(k - m.d) - lgam(1.0 - m.d)) - (lgam(n + k + m.alpha) - lgam(n + 1 + m.alpha));
        terms += 3 * FL + (k > 2 ? 2 * (4e-5 + 8e-6 * (n + k + m.alpha)) + 8e-5 + 8e-6 * k : 0) + 4e-7 * (n + k + m.alpha) * dlog(2 + n + k + m.alpha);
        n += k; ++K;
    }
    if (!VH_CLOSE("P09:py:score_counts", got, exact, 1e-5 + terms, ctx)) return;
    // sequential in a random order through score_add_value
    std::vector<int> order;
    for (size_t g = 0; g < c.size(); ++g) for (int i = 0; i < c[g]; ++i) order.push_back(g);
    if (order.size() <= 400) {
        r.shuffle(order);
        std::vector<count_t> cur(c.size(), 0);
        double seq = 0; int k = 0, i = 0;
        for (int g : order) {
            int E = r.chance(0.5) ? 1 : r.range(1, 5);
            double s = m.score_add_value(cur[g], k, i, E);
            double want = py_add(m, cur[g], k, i, E);
            if (!VH_CLOSE("P09:py:score_add", s, want, FL + 1e-5, ctx << " group " << cur[g] << " K " << k << " n " << i << " E " << E)) return;
            seq += cur[g] == 0 ? s + dlog(E) : s;
            // removing it again is the negation of having added it
            double rem = m.score_remove_value(cur[g] + 1, k + (cur[g] == 0), i + 1, E);
            if (!VH_CLOSE("P09:py:score_remove", rem, -s, 1e-5, ctx << " group " << cur[g] + 1 << " K " << k + (cur[g] == 0) << " n " << i + 1 << " E " << E)) return;
            if (!cur[g]) ++k;
            ++cur[g]; ++i;
            R().event("py_adds");
        }
        if (!VH_CLOSE("P09:py:sequential", got, seq, 1e-5 + terms + FL * order.size(), ctx)) return;
        // normalised over all groups, occupied and empty
        int E = r.range(1, 5);
        double tot = 0;
        for (auto x : c) tot += dexp(m.score_add_value(x, c.size(), i, E));
        for (int e = 0; e < E; ++e) tot += dexp(m.score_add_value(0, c.size(), i, E));
        if (!VH_CLOSE("P09:py:add-normalised", tot, 1.0, 1.5e-4, ctx << " E " << E)) return;
    }
    // empty groups and order do not matter
    std::vector<count_t> c2 = c;
    for (int i = r.below(4); i > 0; --i) c2.push_back(0);
    r.shuffle(c2);
    if (!VH_CLOSE("P09:py:order-or-empties", m.score_counts(c2), got, 1e-5 + 2 * terms, ctx << " vs " << show(c2))) return;
    // all partitions of n items
    int nn = r.range(1, 9);
    double z = 0; int np = 0;
    std::vector<count_t> cur;
    int_partitions(nn, nn, cur, [&](const std::vector<count_t> & p) { z += dexp(m.score_counts(p) + log_multiplicity(p)); ++np; });
    VH_CLOSE("P09:py:partitions-sum", z, 1.0, 3e-4 + FL * 2 * nn, show(m) << " n=" << nn << " " << np << " partition shapes");
    R().event("py_partition_sums");
}
static void P09_le(Rng & r) {
    std::vector<count_t> c = gen_counts(r, 10, r.chance(0.3) ? 20 : 6);
    int n = 0;
    for (auto k : c) n += k;
    LE m;
    bool full = n > 0 && r.chance(0.6);
    m.dataset_size = full ? n : n + r.range(n == 0, 300);
    if (m.dataset_size == 0) m.dataset_size = 1;
    std::string ctx = S() << show(m) << " " << show(c);
    R().seen(hash_str(ctx));
    R().sample(ctx);
    double got = m.score_counts(c);
    double ent = 0, tol = 1e-4;
    for (auto k : c) { ent += k * dlog(k); tol += k * FL + 4e-7 * k * dlog(1.0 + k); }
    if (n == 0) { if (!VH_CLOSE("P09:le:no-data", got, 0.0, 1e-6, ctx)) return; }
    else if (m.dataset_size == n && n <= 47) {
        if (!VH_CLOSE("P09:le:score_counts", got, ent - log_z_exact(n), tol, ctx << " entropy " << ent << " logZ " << log_z_exact(n))) return;
        R().event("le_full");
    } else if (m.dataset_size == n) {
        if (!VH_CLOSE("P09:le:score_counts-large", got, ent - log_z_exact(n), tol + 0.02 * log_z_exact(n), ctx)) return;
    }
    std::vector<count_t> c2 = c;
    for (int i = r.below(5); i > 0; --i) c2.push_back(0);
    r.shuffle(c2);
    if (!VH_CLOSE("P09:le:order-or-empties", m.score_counts(c2), got, 1e-5 * (1 + std::abs(got)), ctx << " vs " << show(c2))) return;
    // many items: the entropy term and the normaliser, whatever the group sizes
    if (r.chance(0.1)) {
        std::vector<count_t> b;
        double total = 0, entropy = 0, add = 0;
        for (int i = r.range(1, 6); i > 0; --i) b.push_back(r.logunif(100, 2e6));
        for (auto k : b) total += k, entropy += k * dlog(k), add += k * FL;
        LE f; f.dataset_size = total;
        double z = f.log_partition_function(f.dataset_size);
        if (!VH_CLOSE("P09:le:many-items", f.score_counts(b), entropy - z, add + 2e-6 * entropy, show(f) << " " << show(b))) return;
        R().event("le_many_items");
    }
    // too much data is refused
    LE small; small.dataset_size = n - 1;
    if (n > 1) VH_TRUE("P09:le:too-much-data", throws([&] { small.score_counts(c); }), ctx);
    // add and remove
    for (int j = 0; j < 8; ++j) {
        double u = r.unif();
        count_t g = u < 0.3 ? 0 : u < 0.7 ? r.range(1, 20) : u < 0.9 ? r.range(20, 9990) : u < 0.95 ? r.range(9995, 10005) : r.range(10001, 2000000);
        count_t K = (g ? 1 : 0) + r.below(5), s = g + (K - (g ? 1 : 0)) + r.below(10), E = r.range(1, 6);
        LE a; a.dataset_size = s + 1 + (r.chance(0.3) ? 0 : r.below(500));
        std::string cc = S() << show(a) << " group " << g << " K " << K << " n " << s << " E " << E;
        double v = a.score_add_value(g, K, s, E);
        if (g) { if (!VH_CLOSE("P09:le:entropy-increment", v, le_occupied(g), le_tol(g), cc)) return; }
        else {
            double one = a.score_add_value(0, K, s, 1);
            if (!VH_CLOSE("P09:le:empties-split", v, one - dlog(E), 2 * FL, cc)) return;
            if (s + 1 == a.dataset_size && !VH_CLOSE("P09:le:last-item-new-group", one, 0.0, FL, cc)) return;
        }
        double rem = a.score_remove_value(g + 1, K + (g == 0), s + 1, E);
        if (!VH_CLOSE("P09:le:score_remove", rem, -v, 1e-5 * (1 + std::abs(v)), cc)) return;
        R().event("le_adds");
    }
    // the full data set is reached by any sequence of additions: increments of occupied groups sum up
    int k = r.range(0, 47);
    LE z; z.dataset_size = k;
    VH_CLOSE("P09:le:log_partition", z.log_partition_function(k), log_z_exact(k), 2e-5 * (1 + log_z_exact(k) / 50), "n=" << k);
    int big = r.range(48, 600);
    VH_CLOSE("P09:le:log_partition-large", z.log_partition_function(big), log_z_exact(big), 0.02 * log_z_exact(big), "n=" << big);
    if (n >= 1 && n <= 8 && r.chance(0.3)) {
        LE f; f.dataset_size = n;
        double s = 0;
        std::vector<count_t> cur;
        int_partitions(n, n, cur, [&](const std::vector<count_t> & p) { s += dexp(f.score_counts(p) + log_multiplicity(p)); });
        VH_CLOSE("P09:le:partitions-sum", s, 1.0, 2e-3, show(f));
        R().event("le_partition_sums");
    }
}
static void P09(Rng & r) { if (r.chance(0.5)) P09_py(r); else P09_le(r); }
static Register r_P09("P09", P09);

// ------------------------------------------------------------------ P10
static void label_check(const std::string & name, const std::vector<count_t> & a, size_t n, const std::string & ctx) {
    if (!VH_TRUE("P10:" + name + ":length", a.size() == n, ctx << " length " << a.size())) return;
    count_t next = 0;
    for (size_t i = 0; i < a.size(); ++i) {
        if (!VH_TRUE("P10:" + name + ":labels", a[i] >= 0 && a[i] <= next, ctx << " item " << i << " label " << a[i] << " next " << next)) return;
        if (a[i] == next) ++next;
    }
    C::Assignments m;
    std::vector<count_t> want(next, 0);
    for (size_t i = 0; i < a.size(); ++i) { m[i] = a[i]; ++want[a[i]]; }
    std::vector<count_t> got = C::count_assignments(m);
    VH_TRUE("P10:" + name + ":count_assignments", got == want, ctx << " counted " << show(got) << " expected " << show(want));
    R().event("assignments");
}
template<class M> static double seq_prob(const M & m, const std::vector<count_t> & a, double (*like)(const M &, count_t, count_t, count_t)) {
    std::vector<count_t> c;
    double p = 1;
    for (size_t i = 0; i < a.size(); ++i) {
        double tot = like(m, 0, c.size(), i), mine = a[i] == (count_t)c.size() ? tot : 0;
        for (size_t g = 0; g < c.size(); ++g) { double l = like(m, c[g], c.size(), i); tot += l; if (a[i] == (count_t)g) mine = l; }
        p *= mine / tot;
        if (a[i] == (count_t)c.size()) c.push_back(1); else ++c[a[i]];
    }
    return p;
}
static double py_like(const PY & m, count_t g, count_t K, count_t n) { return dexp(py_add(m, g, K, n, 1)); }
static double le_like(const LE & m, count_t g, count_t K, count_t n) {
    return g ? dexp(le_occupied(g)) : dexp(m.score_add_value(0, std::min(K, n), n, 1));
}
template<class M> static void law(Rng & r, const M & m, const std::string & name, int n, long draws, double (*like)(const M &, count_t, count_t, count_t)) {
    std::map<std::vector<count_t>, size_t> idx;
    std::vector<double> prob;
    std::function<void(std::vector<count_t> &, count_t)> rec = [&](std::vector<count_t> & a, count_t next) {
        if ((int)a.size() == n) { idx[a] = prob.size(); prob.push_back(seq_prob(m, a, like)); return; }
        for (count_t l = 0; l <= next; ++l) { a.push_back(l); rec(a, std::max<count_t>(next, l + 1)); a.pop_back(); }
    };
    std::vector<count_t> a;
    rec(a, 0);
    double worst;
    bool ok = believable([&](int scale) {
        std::vector<double> obs(prob.size(), 0.0);
        rng_t e;
        for (long i = 0; i < draws * scale; ++i) {
            if (i % 5000 == 0) e.seed(1 + r.below(2000000000));
            std::vector<count_t> s = m.sample_assignments(n, e);
            auto it = idx.find(s);
            if (!VH_TRUE("P10:" + name + ":impossible", it != idx.end(), show(m) << " drew " << show(s))) return 1.0;
            obs[it->second]++;
        }
        R().event("draws", draws * scale);
        return chisq_p(obs, prob);
    }, &worst);
    VH_TRUE("P10:" + name + ":law", ok, show(m) << " n=" << n << " partition frequencies differ, p=" << worst);
    R().event("laws");
}
// Larger samples: every step's randomised probability integral transform is uniform and independent.
template<class M, class W> static void pit(Rng & r, const M & m, const std::string & name, int n, W weight) {
    double worst;
    size_t most = 0;
    bool ok = believable([&](int scale) {
        std::vector<double> us;
        // Per range of the item's index: how often a new group was opened, and how often the largest was joined,
        // against the sum of the probabilities (a martingale, so the difference over its deviation is near normal).
        std::vector<double> seen[2], want[2], var[2];
        rng_t e;
        while (us.size() < (size_t)(n > 100 ? 12000 : 6000) * scale) {
            e.seed(1 + r.below(2000000000));
            std::vector<count_t> a = m.sample_assignments(n, e), c;
            std::vector<double> w;
            double occupied = 0;
            for (int i = 0; i < n; ++i) {
                double fresh = weight(0, c.size(), i), before = 0, mine = fresh, tot = occupied + fresh;
                if (!VH_TRUE("P10:" + name + ":label-order", a[i] <= (count_t)c.size(), show(m) << " n=" << n << " item " << i)) return 1.0;
                if (a[i] < (count_t)c.size()) { mine = w[a[i]]; for (count_t g = 0; g < a[i]; ++g) before += w[g]; } else before = occupied;
                us.push_back((before + mine * r.unif()) / tot);
                size_t b = 0;
                while ((i >> b) > 1) ++b;
                if (w.size()) {
                    size_t top = std::max_element(w.begin(), w.end()) - w.begin();
                    double pr[2] = {fresh / tot, w[top] / tot};
                    bool hit[2] = {a[i] == (count_t)c.size(), a[i] == (count_t)top};
                    for (int k = 0; k < 2; ++k) {
                        if (b >= seen[k].size()) { seen[k].resize(b + 1); want[k].resize(b + 1); var[k].resize(b + 1); }
                        seen[k][b] += hit[k]; want[k][b] += pr[k]; var[k][b] += pr[k] * (1 - pr[k]);
                    }
                }
                if (a[i] == (count_t)c.size()) { c.push_back(0); w.push_back(0); }
                ++c[a[i]];
                occupied -= w[a[i]];
                w[a[i]] = weight(c[a[i]], c.size(), i + 1);
                occupied += w[a[i]];
            }
            most = std::max(most, c.size());
        }
        R().event("transforms", us.size());
        double p = ks_p(us);
        int tests = 1;
        for (int k = 0; k < 2; ++k) for (size_t b = 0; b < seen[k].size(); ++b) {
            if (var[k][b] < 25) continue;  // too few for the normal law
            double z = (std::fabs(seen[k][b] - want[k][b]) - 0.5) / std::sqrt(var[k][b]);
            ++tests;
            R().event("decision_ranges");
            p = std::min(p, std::erfc(std::max(z, 0.0) / std::sqrt(2.0)));
        }
        return std::min(1.0, p * tests);
    }, &worst);
    if (most > 100) R().event("large_partitions");
    VH_TRUE("P10:" + name + ":sequential-law", ok, show(m) << " n=" << n << " conditional frequencies differ, p=" << worst);
}
static void P10(Rng & r) {
    bool is_py = r.chance(0.5);
    PY p = gen_py(r);
    if (r.chance(0.5)) p.alpha = r.logunif(0.2, 5);
    // form
    size_t n = r.chance(0.1) ? 0 : r.chance(0.1) ? 1 : r.chance(0.1) ? 2000 : r.range(2, 60);
    LE l; l.dataset_size = std::max<size_t>(1, n + (r.chance(0.4) ? 0 : r.below(200)));
    rng_t e(1 + r.below(2000000000));
    std::string ctx = is_py ? show(p) : show(l);
    R().seen(hash_str(S() << ctx << n));
    R().sample(S() << ctx << " n=" << n);
    for (int i = 0; i < 5; ++i)
        if (is_py) label_check("py", p.sample_assignments(n, e), n, ctx); else label_check("le", l.sample_assignments(n, e), n, ctx);
    // law over all partitions of a few items
    int k = r.range(2, 6);
    if (is_py) law<PY>(r, p, "py", k, 6000, py_like);
    else { LE m; m.dataset_size = k + (r.chance(0.4) ? 0 : r.below(20)); law<LE>(r, m, "le", k, 6000, le_like); }
    // larger samples
    if (r.chance(0.5)) {
        int nn = r.chance(0.3) ? r.range(400, 1500) : r.range(20, 400);
        if (is_py) {
            PY q = p;
            if (r.chance(0.5)) q.alpha = r.logunif(5, 300);
            pit(r, q, "py", nn, [&](count_t g, count_t K, count_t) { return g ? g - (double)q.d : (double)q.alpha + (double)q.d * K; });
        } else {
            LE m; m.dataset_size = nn + (r.chance(0.4) ? 0 : r.below(3 * nn));
            pit(r, m, "le", nn, [&](count_t g, count_t K, count_t i) { return g ? dexp(le_occupied(g)) : dexp(m.score_add_value(0, std::min(K, i), i, 1)); });
        }
    }
    // law of the number of groups among more items (Pitman-Yor: the exact recursion)
    if (is_py && r.chance(0.6)) {
        int nn = r.range(10, 80);
        std::vector<double> pk(nn + 1, 0.0);
        pk[1] = 1;
        for (int i = 1; i < nn; ++i) for (int q = std::min(i, nn - 1); q >= 1; --q) {
            double nw = ((double)p.alpha + p.d * q) / (i + p.alpha), m = pk[q];
            pk[q] = m * (1 - nw);
            pk[q + 1] += m * nw;
        }
        double worst;
        bool ok = believable([&](int scale) {
            std::vector<double> obs(nn + 1, 0.0);
            rng_t e2;
            for (int i = 0; i < 3000 * scale; ++i) {
                if (i % 2000 == 0) e2.seed(1 + r.below(2000000000));
                auto a = p.sample_assignments(nn, e2);
                obs[*std::max_element(a.begin(), a.end()) + 1]++;
            }
            return chisq_p(obs, pk);
        }, &worst);
        VH_TRUE("P10:py:group-count-law", ok, show(p) << " n=" << nn << " p=" << worst);
        R().event("group_count_laws");
    }
    // malformed assignments are rejected
    {
        C::Assignments m;
        int groups = r.range(2, 6), items = r.range(groups, 20), hole = r.below(groups - 1);
        for (int i = 0; i < items; ++i) { int g = i < groups ? i : r.below(groups); if (g == hole) g = groups; m[i * 7] = g; }
        VH_TRUE("P10:gap-accepted", throws([&] { C::count_assignments(m); }), "labels skip group " << hole << " of " << groups);
        C::Assignments none;
        VH_TRUE("P10:empty-assignments", C::count_assignments(none).empty(), "no items");
        R().event("malformed");
    }
    if (n > 0) VH_TRUE("P10:le:oversized-accepted", throws([&] { LE s; s.dataset_size = n - 1; s.sample_assignments(n, e); }), "n=" << n);
}
static Register r_P10("P10", P10);
