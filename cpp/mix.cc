// P04, P05 over one model with a mixture (MODEL = BB, BNB, DD, DPD, GP, NICH).
#include "model_common.hpp"
#include "dyn.hpp"
typedef T::Model::Mixture Mixture;
typedef T::Model::SmallMixture SmallMixture;

// the same kind of model with other hyperparameters that its groups still fit
template<class TT> struct Reweight { static void apply(typename TT::Shared &, const typename TT::Shared &) {} };
template<> struct Reweight<DD> {
    static void apply(DD::Shared & h, const DD::Shared & o) { for (int i = 0; i < h.dim; ++i) h.alphas[i] = o.alphas[i % o.dim]; }
};
template<> struct Reweight<DPD> {
    static void apply(DPD::Shared & h, const DPD::Shared & o) {
        float f = h.alpha < 3 ? 2.5f : 0.3f; (void)o;
        h.alpha *= f;
    }
};
// nearby and unrelated grid points
template<class TT> struct Near;
template<> struct Near<BB> {
    static BB::Shared perturb(Rng & r, BB::Shared s) { (r.chance(0.5) ? s.alpha : s.beta) *= r.unif(0.3, 3); return s; }
    static BB::Shared other(Rng & r, const BB::Shared &) { return BB::gen_shared(r); }
};
template<> struct Near<BNB> {
    static BNB::Shared perturb(Rng & r, BNB::Shared s) {
        int k = r.below(3);
        if (k == 0) s.alpha *= r.unif(0.5, 2); else if (k == 1) s.beta *= r.unif(0.5, 2); else s.r = 1 + r.below(9);
        return s;
    }
    static BNB::Shared other(Rng & r, const BNB::Shared &) { return BNB::gen_shared(r); }
};
template<> struct Near<DD> {
    static DD::Shared perturb(Rng & r, DD::Shared s) { s.alphas[r.below(s.dim)] *= r.unif(0.3, 3); return s; }
    static DD::Shared other(Rng & r, const DD::Shared & h) { DD::Shared s = h; for (int i = 0; i < s.dim; ++i) s.alphas[i] = r.logunif(0.05, 15); return s; }
};
template<> struct Near<DPD> {
    static DPD::Shared perturb(Rng & r, DPD::Shared s) { (r.chance(0.5) ? s.alpha : s.gamma) *= r.unif(0.3, 3); return s; }
    static DPD::Shared other(Rng & r, const DPD::Shared & h) {
        DPD::PbS m; h.protobuf_dump(m);
        double t = r.unif(0, 0.5);
        std::vector<double> w;
        for (int i = 0; i < m.betas_size(); ++i) { w.push_back(r.logunif(0.05, 1)); t += w.back(); }
        for (int i = 0; i < m.betas_size(); ++i) m.set_betas(i, w[i] / t);
        m.set_alpha(r.logunif(0.1, 20));
        DPD::Shared s; s.protobuf_load(m);
        return s;
    }
};
template<> struct Near<GP> {
    static GP::Shared perturb(Rng & r, GP::Shared s) { (r.chance(0.5) ? s.alpha : s.inv_beta) *= r.unif(0.3, 3); return s; }
    static GP::Shared other(Rng & r, const GP::Shared &) { return GP::gen_shared(r); }
};
template<> struct Near<NICH> {
    static NICH::Shared perturb(Rng & r, NICH::Shared s) {
        int k = r.below(4);
        if (k == 0) s.mu += r.unif(-2, 2); else if (k == 1) s.kappa *= r.unif(0.3, 3); else if (k == 2) s.sigmasq *= r.unif(0.3, 3); else s.nu *= r.unif(0.5, 2);
        return s;
    }
    static NICH::Shared other(Rng & r, const NICH::Shared &) { return NICH::gen_shared(r); }
};

// size of the terms whose single-precision rounding differs between two ways to sum them
template<class TT> struct Mag { static double of(const typename TT::Shared &, const Stats &, const typename TT::Value &) { return 10; } };
template<> struct Mag<GP> {
    static double of(const GP::Shared & h, const Stats & s, const GP::Value & v) {
        double A = h.alpha + s.n[1], B = h.inv_beta + s.n[0];
        return lgam(A + v + 3) + (A + v) * (std::abs(dlog(B)) + dlog(1 + B)) + 10;
    }
};
template<> struct Mag<BNB> {
    static double of(const BNB::Shared & h, const Stats & s, const BNB::Value & v) {
        return lgam(h.alpha + h.beta + (double)h.r * (s.n[0] + 1) + s.n[1] + v + 3) + 10;
    }
};

// size of the terms that go into the data score of one group, and what a slip in the total weight does to it
template<class TT> struct Gross {
    static double of(const typename TT::Shared &, const Stats &, double lm) { return std::abs(lm); }
    static double weight(const typename TT::Shared &) { return 0; }
    static size_t width(const typename TT::Shared &) { return 1; }
};
template<> struct Gross<DD> {
    static double weight(const DD::Shared & h) { double a = 0; for (int i = 0; i < h.dim; ++i) a += h.alphas[i]; return a; }
    static size_t width(const DD::Shared & h) { return h.dim; }
    static double of(const DD::Shared & h, const Stats & s, double lm) {
        double a = weight(h), t = std::abs(lm) + lgam(a + s.count + 3);
        for (int i = 0; i < h.dim; ++i) t += lgam(h.alphas[i] + s.n[i] + 3);
        return t;
    }
};
template<> struct Gross<DPD> {
    static double weight(const DPD::Shared &) { return 0; }
    static size_t width(const DPD::Shared & h) { return 1 + DPD::betas(h).size() / 8; }
    static double of(const DPD::Shared & h, const Stats & s, double lm) {
        double t = std::abs(lm) + lgam(h.alpha + s.count + 3);
        for (auto & i : s.m) t += lgam(h.alpha + i.second + 3);
        return t;
    }
};

template<class TT> struct GrossLog { static double of(const Data &) { return 0; } };
template<> struct GrossLog<GP> { static double of(const Data & d) { double t = 0; for (auto && v : d) t += lgam((double)v + 1); return t; } };

struct State {
    Shared h;
    Mixture m;
    std::vector<Data> data;   // shadow of every group
    bool tracked = true;
    S log;
    double K = 0, M = 0;
    std::vector<double> peak; // largest size a group ever had
};

// everything the mixture claims about one value
static bool check_value(Rng & r, State & st, const Value & v, rng_t & e, const std::string & after) {
    const size_t n = st.m.groups().size();
    std::string ctx = S() << T::show_shared(st.h) << " after " << after << " value " << T::show_value(v)
        << " groups " << n << " history: " << std::string(st.log).substr(0, 900);
    // accumulators: the vector form adds and stays inside
    VectorFloat acc(n + 16);
    std::vector<float> init(n + 16);
    for (size_t i = 0; i < acc.size(); ++i) acc[i] = init[i] = (float)r.unif(-5, 5);
    rng_t e0 = e;
    st.m.score_value(st.h, v, AlignedFloats(acc.data() + 8, n), e);
    if (!VH_TRUE("P04:" + N + ":rng-advanced", e == e0, ctx)) return false;
    for (size_t i = 0; i < acc.size(); ++i)
        if (i < 8 || i >= 8 + n)
            if (!VH_TRUE("P04:" + N + ":touched-outside", acc[i] == init[i], ctx << " element " << (long)i - 8)) return false;
    Mixture fresh_m;
    fresh_m.groups() = st.m.groups();
    fresh_m.init(st.h, e);
    SmallMixture small;
    small.groups() = st.m.groups();
    small.init(st.h, e);
    VectorFloat facc(n, 0.f), sacc(n, 0.f);
    fresh_m.score_value(st.h, v, facc, e);
    small.score_value(st.h, v, sacc, e);
    for (size_t i = 0; i < n; ++i) {
        const Group & g = st.m.groups(i);
        Stats gs = T::of(g);
        if (N == "nich" && gs.x[1] < 0) { R().event("nich_negative_ctv"); continue; }
        double tp = v_other(v) ? 2e-4 : T::tol_pred(st.h, gs, v);
        std::string c = S() << ctx << " group " << i << " " << show(gs);
        double direct = g.score_value(st.h, v, e);
        double one = st.m.score_value_group(st.h, i, v, e);
        double vec = (double)acc[i + 8] - (double)init[i + 8];
        // cached and rebuilt scores are computed from the same statistics by the same formula
        double tight = 1e-4 + 8 * EPS * (std::abs(direct) + (v_other(v) ? 10 : Mag<T>::of(st.h, gs, v)));
        double rebuilt = fresh_m.score_value_group(st.h, i, v, e);
        if (!VH_CLOSE("P04:" + N + ":group-vs-direct", one, direct, 2 * tp, c)) return false;
        if (!VH_CLOSE("P04:" + N + ":vector-vs-direct", vec, direct, 2 * tp + 4e-6, c)) return false;
        if (!VH_CLOSE("P04:" + N + ":group-vs-rebuilt", one, rebuilt, tight, c)) return false;
        if (!VH_CLOSE("P04:" + N + ":vector-vs-rebuilt", vec, (double)facc[i], tight, c)) return false;
        if (!VH_CLOSE("P04:" + N + ":small-vs-direct", (double)sacc[i], direct, tight, c)) return false;
        R().event("score_comparisons");
    }
    return true;
}

static bool check_groups(State & st, const std::string & after) {
    const size_t n = st.m.groups().size();
    std::string ctx = S() << T::show_shared(st.h) << " after " << after << " history: " << std::string(st.log).substr(0, 900);
    if (!VH_TRUE("P04:" + N + ":group-count", n == st.data.size(), ctx << " has " << n << " groups, expected " << st.data.size())) return false;
    for (size_t i = 0; i < n; ++i) {
        Stats want = stats_of(st.h, st.data[i]);
        std::vector<double> tol = stat_tol(want, st.M, st.K, st.peak[i] + 1);
        if (!check_stats("P04:" + N + ":group-stats", T::of(st.m.groups(i)), want, tol, S() << ctx << " group " << i)) return false;
    }
    return true;
}

static Value gen_mix_value(Rng & r, State & st) {
    if (r.chance(0.3) && !st.data.empty()) {
        auto & d = st.data[r.below(st.data.size())];
        if (!d.empty()) return r.pick(d);
    }
    return T::gen_value(r, st.h);
}

static void P04(Rng & r) {
    big_counts() = r.chance(0.05);
    State st;
    st.h = T::gen_shared(r);
    rng_t e = new_rng(r);
    size_t n0 = r.chance(0.15) ? 0 : r.chance(0.15) ? r.range(9, 40) : r.range(1, 8);
    if (r.chance(0.006)) { n0 = std::min<size_t>(r.range(100, 520), 4000 / Gross<T>::width(st.h)); R().event("crowded_mixtures"); }
    for (size_t i = 0; i < n0; ++i) {
        Data d;
        size_t k = r.chance(0.3) ? 0 : r.range(1, 6);
        for (size_t j = 0; j < k; ++j) {
            Value v = T::gen_value(r, st.h);
            Dyn<T>::before_add(st.h, v, e);
            d.push_back(v);
            st.M = std::max(st.M, magnitude(v));
        }
        if (r.chance(0.004)) {   // a group of thousands of observations
            Value v = d.empty() ? T::gen_value(r, st.h) : r.pick(d);
            for (size_t k = (size_t)r.logunif(250, 20000); k > 0; --k) { Dyn<T>::before_add(st.h, v, e); d.push_back(v); }
            st.M = std::max(st.M, magnitude(v));
            st.K += d.size();
            R().event("heavy_groups");
        }
        st.data.push_back(d);
        st.peak.push_back(d.size());
    }
    for (auto & d : st.data) st.m.groups().push_back(fresh(st.h, d, e));
    st.m.init(st.h, e);
    st.log << "init(" << n0 << ") ";
    std::string last = "init";
    size_t nops = r.range(3, 30);
    for (size_t i = 0; i < nops && !R().failed_case; ++i) {
        double u = r.unif();
        size_t n = st.data.size();
        std::vector<Value> probe;
        ++st.K;
        if (u < 0.14 || n == 0) {
            st.m.add_group(st.h, e);
            st.data.push_back(Data());
            st.peak.push_back(0);
            last = "add_group";
        } else if (u < 0.50) {
            size_t g = r.chance(0.2) ? n - 1 : r.below(n);
            bool isnew = false;
            Value v = r.chance(0.3) ? gen_mix_value(r, st) : Dyn<T>::fresh_value(r, st.h, isnew, e);
            if (Dyn<T>::on && !Dyn<T>::known(st.h, v) && !isnew) continue;
            Dyn<T>::before_add(st.h, v, e);
            if (isnew) R().event("new_values");
            st.m.add_value(st.h, g, v, e);
            st.data[g].push_back(v);
            st.peak[g] = std::max<double>(st.peak[g], st.data[g].size());
            st.M = std::max(st.M, magnitude(v));
            probe.push_back(v);
            last = S() << "add_value(" << g << "," << T::show_value(v) << ")";
        } else if (u < 0.76) {
            size_t g = r.below(n);
            if (st.data[g].empty()) continue;
            Value v = r.pick(st.data[g]);
            st.m.remove_value(st.h, g, v, e);
            erase_one(st.data[g], v);
            Dyn<T>::after_remove(st.h, v, e);
            if (Dyn<T>::known(st.h, v)) probe.push_back(v); else R().event("dropped_values");
            last = S() << "remove_value(" << g << "," << T::show_value(v) << ")";
        } else if (u < 0.86) {
            size_t g = r.chance(0.3) ? 0 : r.chance(0.3) ? n - 1 : r.below(n);
            if (Dyn<T>::on) while (!st.data[g].empty()) {  // a value's entry lives while it is used
                Value v = st.data[g].back();
                st.m.remove_value(st.h, g, v, e);
                st.data[g].pop_back();
                Dyn<T>::after_remove(st.h, v, e);
            }
            st.m.remove_group(st.h, g);
            st.data[g] = st.data.back(); st.data.pop_back();
            st.peak[g] = st.peak.back(); st.peak.pop_back();
            last = S() << "remove_group(" << g << ")";
        } else if (u < 0.91) {
            // hyperparameter change followed by a new initialisation
            if (r.chance(0.4)) st.h = Near<T>::perturb(r, st.h);   // one of them moves
            else if (!Dyn<T>::on && N != "dd") st.h = T::gen_shared(r);
            else if (N == "dd") { Shared h2 = T::gen_shared(r); Reweight<T>::apply(st.h, h2); }
            else Reweight<T>::apply(st.h, st.h);
            st.m.init(st.h, e);
            R().event("hyperparameter_moves");
            last = S() << "shared " << T::show_shared(st.h) << "+init";
        } else if (u < 0.95) {
            Mixture copy(st.m);
            Value v = gen_mix_value(r, st);
            if (n && Dyn<T>::known(st.h, v)) { Shared hh = st.h; Dyn<T>::before_add(hh, v, e); st.m.add_value(hh, r.below(n), v, e); st.m.add_group(hh, e); }
            st.m = copy;
            last = "copy";
        } else {
            // groups edited directly (merge), then initialised
            size_t a = r.below(n), b = r.below(n);
            if (a == b) continue;
            st.m.groups(a).merge(st.h, st.m.groups(b), e);
            for (auto && v : st.data[b]) { st.data[a].push_back(v); }
            st.peak[a] += st.peak[b];
            st.m.groups(b).init(st.h, e);
            st.data[b].clear();
            size_t stripped = 0;
            if (r.chance(0.4)) for (size_t k = r.below(st.data[a].size() + 1); k > 0; --k) {
                Value v = r.pick(st.data[a]);
                st.m.groups(a).remove_value(st.h, v, e);
                erase_one(st.data[a], v);
                Dyn<T>::after_remove(st.h, v, e);
                if (!Dyn<T>::known(st.h, v)) R().event("dropped_before_init");
                ++stripped;
            }
            st.m.init(st.h, e);
            last = S() << "merge(" << a << "," << b << ")-" << stripped << "+init";
        }
        st.log << last << " ";
        R().event("ops");
        if (!check_groups(st, last)) return;
        st.m.validate(st.h);
        probe.push_back(gen_mix_value(r, st));
        probe.push_back(Dyn<T>::unseen(r, st.h));
        for (auto && v : probe) {
            if (!Dyn<T>::known(st.h, v) && !v_other(v)) continue;
            if (v_other(v) && !(other_weight(st.h) > 0)) continue;
            if (!check_value(r, st, v, e, last)) return;
        }
        // the whole set of cached values, now and then
        if (r.chance(0.15)) {
            for (size_t g = 0; g < st.data.size() && g < 4; ++g)
                for (auto && v : st.data[g]) if (!check_value(r, st, v, e, last + " (all)")) return;
        }
        R().seen(hash_str(S() << T::show_shared(st.h) << std::string(st.log)));
    }
    R().sample(S() << T::show_shared(st.h) << " " << std::string(st.log).substr(0, 600));
}
static Register r_P04("P04", P04);

// ------------------------------------------------------------------ P05
static void P05(Rng & r) {
    big_counts() = r.chance(0.05);
    Shared h = T::gen_shared(r);
    rng_t e = new_rng(r);
    size_t n = r.chance(0.1) ? 0 : r.chance(0.2) ? r.range(8, 30) : r.range(1, 7);
    if (r.chance(0.01)) { n = std::min<size_t>(r.range(70, 600), 8000 / Gross<T>::width(h)); R().event("crowded_mixtures"); }
    Mixture m;
    std::vector<Data> data;
    S log;
    double passed = 0;   // the logarithms that went into the groups, removed ones included
    for (size_t i = 0; i < n; ++i) {
        Data d = gen_data(r, h, r.chance(0.25) ? 0 : r.range(1, r.chance(0.1) ? 60 : 8));
        if (n < 30 && r.chance(0.008)) {   // a group of thousands of observations
            Value v = d.empty() ? T::gen_value(r, h) : r.pick(d);
            d.resize(d.size() + (size_t)r.logunif(250, 20000), v);
            R().event("heavy_groups");
        }
        Group g = fresh(h, d, e);
        if (r.chance(0.15)) {
            Data d2 = gen_data(r, h, r.range(0, 5));
            g.merge(h, fresh(h, d2, e), e);
            for (auto && v : d2) d.push_back(v);
            R().event("merged_groups");
        }
        if (N == "gp") passed = std::max(passed, GrossLog<T>::of(d));
        if (r.chance(0.1)) { while (!d.empty()) { Value v = d.back(); d.pop_back(); g.remove_value(h, v, e); } R().event("emptied_groups"); }
        m.groups().push_back(g);
        data.push_back(d);
        if (d.empty()) R().event("empty_groups");
        log << show_data(d) << " ";
    }
    m.init(h, e);
    if (r.chance(0.5) && n) {  // through the public editing interface
        m.add_group(h, e); data.push_back(Data());
        size_t k = r.below(4);
        for (size_t j = 0; j < k; ++j) {
            Value v = T::gen_value(r, h);
            size_t g = r.below(data.size());
            m.add_value(h, g, v, e); data[g].push_back(v);
            if (N == "gp") passed = std::max(passed, GrossLog<T>::of(data[g]));
        }
        n = data.size();
    }
    std::string ctx = S() << T::show_shared(h) << " groups " << std::string(log).substr(0, 1200);
    R().seen(hash_str(ctx));
    R().sample(ctx);

    // a grid of related and unrelated points, with repeats
    std::vector<Shared> grid;
    size_t gn = r.chance(0.05) ? 0 : r.chance(0.15) ? 1 : r.range(2, 12);
    for (size_t i = 0; i < gn; ++i) {
        double u = r.unif();
        Shared p = i && u < 0.15 ? grid[r.below(i)] : u < 0.25 ? h : i && u < 0.6 ? Near<T>::perturb(r, grid[i - 1]) : Near<T>::other(r, h);
        grid.push_back(p);
    }
    auto eval = [&](const Mixture & mm, const std::vector<Shared> & gr) {
        VectorFloat out(gr.size() + 16, 777.f);
        rng_t e0 = e;
        mm.score_data_grid(gr, AlignedFloats(out.data() + 8, gr.size()), e);
        VH_TRUE("P05:" + N + ":rng-advanced", e == e0, ctx);
        for (size_t i = 0; i < out.size(); ++i) if (i < 8 || i >= 8 + gr.size())
            VH_TRUE("P05:" + N + ":grid-touched-outside", out[i] == 777.f, ctx << " element " << (long)i - 8);
        return std::vector<float>(out.begin() + 8, out.begin() + 8 + gr.size());
    };
    std::vector<double> want, tol;
    std::vector<Shared> pts = grid;
    pts.push_back(h);
    double heaviest = 0;
    for (auto & p : pts) heaviest = std::max(heaviest, Gross<T>::weight(p));
    for (auto & p : pts) {
        double s = 0, t = 1e-6, sum = 0, raw = 0, mag = 0, rawtol = 0;
        bool bad = false;
        for (size_t i = 0; i < n; ++i) {
            Stats gs = T::of(m.groups(i));
            if (N == "nich" && gs.x[1] < 0) { bad = true; break; }
            double lm = T::logmarg(p, gs);
            s += lm; mag += Gross<T>::of(p, gs, lm);
            t += T::tol_data(p, gs) + 4 * EPS * mag;
            if (N == "dd") t += 2 * EPS * heaviest * (dlog(2 + (double)gs.count) + std::min<double>(gs.count, 1) / Gross<T>::weight(p));
            if (N == "gp" && gs.count == 0) t += std::abs(gs.x[0]);  // rounding left behind in an emptied group
            sum += m.groups(i).score_data(p, e);
            raw += T::logmarg(p, stats_of(p, data[i]));
            if (T::real && data[i].size() > 200) rawtol += 1e9;   // thousands of updates in single precision: see group-stats
            if (N == "gp") rawtol += EPS * (data[i].size() * std::abs(gs.x[0]) + 2 * passed);   // the sum of logarithms is kept in single precision
        }
        if (bad) return;
        want.push_back(s); tol.push_back(t);
        std::string c = S() << "point " << T::show_shared(p) << " groups " << std::string(log).substr(0, 900);
        double got = m.score_data(p, e);
        if (!VH_CLOSE("P05:" + N + ":score_data-vs-sum", got, sum, 2 * t, c)) return;
        if (!VH_CLOSE("P05:" + N + ":score_data-vs-exact", got, s, t, c)) return;
        if (!VH_CLOSE("P05:" + N + ":score_data-vs-raw", got, raw, t + rawtol + (T::real || N == "gp" ? 0.02 + 2e-3 * std::abs(raw) : 0), c)) return;
        R().event("data_scores");
    }
    std::vector<float> a = eval(m, grid);
    std::string gc = S() << " groups " << std::string(log).substr(0, 900);
    for (size_t i = 0; i < grid.size(); ++i) {
        std::string c = S() << "grid point " << i << "/" << grid.size() << " " << T::show_shared(grid[i]) << (i ? " after " + T::show_shared(grid[i - 1]) : std::string()) << gc;
        if (!VH_CLOSE("P05:" + N + ":grid-vs-exact", a[i], want[i], tol[i], c)) return;
        double alone = m.score_data(grid[i], e);
        if (!VH_CLOSE("P05:" + N + ":grid-vs-alone", a[i], alone, tol[i] * 0.5 + 1e-4 + 2e-6 * std::abs(alone), c)) return;
        std::vector<Shared> one(1, grid[i]);
        std::vector<float> o = eval(m, one);
        if (!VH_CLOSE("P05:" + N + ":grid-of-one", o[0], alone, tol[i] * 0.5 + 1e-4 + 2e-6 * std::abs(alone), c)) return;
        R().event("grid_points");
    }
    std::vector<float> b = eval(m, grid);
    VH_TRUE("P05:" + N + ":grid-repeat", a == b, ctx);
    std::vector<size_t> perm(grid.size());
    for (size_t i = 0; i < perm.size(); ++i) perm[i] = i;
    r.shuffle(perm);
    std::vector<Shared> pg;
    for (size_t i : perm) pg.push_back(grid[i]);
    std::vector<float> c = eval(m, pg);
    for (size_t i = 0; i < perm.size(); ++i)
        if (!VH_CLOSE("P05:" + N + ":grid-order", c[i], a[perm[i]], tol[perm[i]] * 0.5 + 1e-4 + 2e-6 * std::abs(a[perm[i]]), ctx)) return;
    // another mixture scored in between changes nothing
    Mixture other;
    Shared h2 = T::gen_shared(r);
    other.groups().push_back(fresh(h2, gen_data(r, h2, 3), e));
    other.init(h2, e);
    other.score_data(h2, e);
    VH_TRUE("P05:" + N + ":grid-after-other", eval(m, grid) == a, ctx);
    R().event("grids");
}
static Register r_P05("P05", P05);
