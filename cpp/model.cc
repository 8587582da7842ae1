// P01, P02, P03 over one model (MODEL = BB, BNB, DD, DPD, GP, NICH, NIW).
#include "model_common.hpp"

// ------------------------------------------------------------------ P01
struct Hist {
    Group g;
    Data data;                 // current multiset (no debt)
    Stats net;                 // exact net statistics, including debt
    double M = 0; size_t K = 0, Nmax = 0;
    std::string ops;           // which operations were used
    S log;
};
static void use(Hist & h, char c) { if (h.ops.find(c) == std::string::npos) h.ops += c; std::sort(h.ops.begin(), h.ops.end()); }

static void run_history(Rng & r, const Shared & h, Hist & H, size_t nops, bool debt, int depth, rng_t & e) {
    for (size_t i = 0; i < nops; ++i) {
        double u = r.unif();
        ++H.K;
        if (u < 0.45) {
            Value v = cand(r, h, H.data);
            H.g.add_value(h, v, e);
            H.data.push_back(v); T::add(H.net, v, 1);
            H.M = std::max(H.M, magnitude(v));
            H.log << "+" << T::show_value(v) << " ";
        } else if (u < 0.58) {
            Value v = cand(r, h, H.data);
            int k = r.chance(0.1) ? r.range(6, 40) : r.chance(0.05) ? 0 : r.range(1, 5);
            H.g.add_repeated_value(h, v, k, e);
            for (int j = 0; j < k; ++j) H.data.push_back(v);
            T::add(H.net, v, k);
            H.M = std::max(H.M, magnitude(v));
            H.K += k;  // the rounding of one is multiplied
            use(H, 'r');
            H.log << "+" << T::show_value(v) << "*" << k << " ";
        } else if (u < 0.85) {
            if (debt && r.chance(0.4)) {
                Value v = T::gen_value(r, h);
                H.g.remove_value(h, v, e);
                T::add(H.net, v, -1);
                if (!erase_one(H.data, v)) use(H, 'd');
                H.log << "-" << T::show_value(v) << "! ";
            } else if (!H.data.empty()) {
                Value v = r.pick(H.data);
                H.g.remove_value(h, v, e);
                erase_one(H.data, v); T::add(H.net, v, -1);
                H.log << "-" << T::show_value(v) << " ";
                if (H.data.empty()) { use(H, 'e'); }
            }
        } else if (u < 0.95 && depth > 0) {
            Hist src;
            src.g.init(h, e);
            src.net = T::zero(h);
            size_t n = r.chance(0.25) ? 0 : r.range(1, 8);
            H.log << "merge{";
            run_history(r, h, src, n, debt, 0, e);
            std::string sl = src.log;
            H.log << sl << "} ";
            Stats before = T::of(src.g);
            H.g.merge(h, src.g, e);
            Stats after = T::of(src.g);
            VH_TRUE("P01:" + N + ":merge-changes-source", before.n == after.n && before.m == after.m && before.x == after.x,
                    "source " << show(before) << " became " << show(after));
            for (auto && v : src.data) H.data.push_back(v);
            // net statistics add up
            for (size_t k = 0; k < H.net.n.size() && N != "nich"; ++k) H.net.n[k] += src.net.n[k];
            if (N == "nich") {
                double n1 = H.net.n[0], n2 = src.net.n[0], d = src.net.x[0] - H.net.x[0];
                H.net.n[0] += src.net.n[0];
                if (n1 + n2 > 0) { H.net.x[1] += src.net.x[1] + d * d * n1 * n2 / (n1 + n2); H.net.x[0] += d * n2 / (n1 + n2); }
            } else for (size_t k = 0; k < H.net.x.size(); ++k) H.net.x[k] += src.net.x[k];
            for (auto & i : src.net.m) H.net.m[i.first] += i.second;
            H.net.count += src.net.count;
            H.M = std::max(H.M, src.M);
            H.K += src.K;
            for (char c : src.ops) use(H, c);
            use(H, 'm');
        } else if (depth > 0) {
            // continue with a copy; the original must not follow
            Group copy(H.g);
            Stats before = T::of(H.g);
            Value v = T::gen_value(r, h);
            H.g.add_value(h, v, e);
            Stats c = T::of(copy);
            VH_TRUE("P01:" + N + ":copy-follows-original", before.n == c.n && before.m == c.m && before.x == c.x,
                    "copy " << show(before) << " became " << show(c));
            H.g = copy;
            H.log << "copy ";
        }
        H.Nmax = std::max<size_t>(H.Nmax, H.data.size());
        R().event("ops");
    }
}

static void P01(Rng & r) {
    big_counts() = r.chance(0.05);
    Shared h = T::gen_shared(r);
    rng_t e = new_rng(r);
    Hist H;
    H.g.init(h, e);
    H.net = T::zero(h);
    bool debt = T::debt && r.chance(0.3);
    int rounds = r.range(1, 4);
    for (int k = 0; k < rounds && !R().failed_case; ++k) {
        run_history(r, h, H, r.chance(0.1) ? r.range(30, 150) : r.range(1, 20), debt, 1, e);
        std::string ctx = S() << T::show_shared(h) << " history: " << std::string(H.log).substr(0, 1500);
        Stats got = T::of(H.g), want = H.net;
        bool isdebt = false;
        for (auto & i : want.m) if (i.second < 0) isdebt = true;
        if (N == "dd") for (auto i : want.n) if (i < 0) isdebt = true;
        std::vector<double> tol = stat_tol(want, H.M, H.K, H.Nmax);
        if (!isdebt && T::real) { want = stats_of(h, H.data); tol = stat_tol(want, H.M, H.K, H.Nmax); }
        std::string tag = H.ops.empty() ? "add-remove" : H.ops;
        if (!check_stats("P01:" + N + ":stats:" + tag, got, want, tol, ctx)) return;
        R().event("states");
        R().seen(hash_str(ctx));
        // the same observations, another order, a fresh group
        Group f;
        f.init(h, e);
        if (isdebt) R().event("debt_states");
        else {
            Data d = debt ? Expand<T, T::debt>::net(want) : H.data;
            r.shuffle(d);
            for (auto && v : d) f.add_value(h, v, e);
            Stats fs = T::of(f);
            if (!check_stats("P01:" + N + ":stats-vs-fresh:" + tag, got, fs, tol, ctx)) return;
            if (!usable(got)) return;
            if (N == "nich") {  // rounding may leave a slightly negative variance behind
                if (got.x[1] < 0) { R().event("nich_negative_ctv"); continue; }
            }
            double drift = 0;
            double ds = H.g.score_data(h, e), df = f.score_data(h, e);
            drift = std::abs(T::logmarg(h, got) - T::logmarg(h, fs));
            if (!VH_CLOSE("P01:" + N + ":score_data:" + tag, ds, df, drift + 2 * T::tol_data(h, fs), ctx)) return;
            // tight: integer statistics determine the score completely
            for (int j = 0; j < 3; ++j) {
                Value v = cand(r, h, H.data);
                double a = H.g.score_value(h, v, e), b = f.score_value(h, v, e);
                double dr = std::abs(logpred<T>(h, got, v) - logpred<T>(h, fs, v));
                if (!VH_CLOSE("P01:" + N + ":score_value:" + tag, a, b, dr + 2 * T::tol_pred(h, fs, v), ctx << " value " << T::show_value(v))) return;
                float m1, m2, m3, n1, n2, n3;
                if (Mix<T, T::has_mix>::pred(h, H.g, v, e, m1, m2, m3)) {
                    Mix<T, T::has_mix>::pred(h, f, v, e, n1, n2, n3);
                    if (!VH_CLOSE("P01:" + N + ":mixture-score_value:" + tag, m1, n1, dr + 2 * T::tol_pred(h, fs, v), ctx << " value " << T::show_value(v))) return;
                    if (!VH_CLOSE("P01:" + N + ":mixture-score_value:" + tag, m2, n2, dr + 2 * T::tol_pred(h, fs, v), ctx << " value " << T::show_value(v))) return;
                    if (!VH_CLOSE("P01:" + N + ":mixture-score_data:" + tag, m3, n3, drift + 2 * T::tol_data(h, fs), ctx)) return;
                }
                R().event("score_comparisons");
            }
        }
        R().sample(ctx);
    }
    // data debt is repaid: adding what is owed gives the group of the remaining observations
    if (debt && !R().failed_case) {
        std::string ctx = S() << T::show_shared(h) << " debt history: " << std::string(H.log).substr(0, 1500);
        Stats cur = T::of(H.g);
        std::vector<std::pair<uint32_t, long long>> owed;
        for (auto & i : cur.m) if (i.second < 0) owed.push_back({i.first, -i.second});
        for (size_t i = 0; i < cur.n.size(); ++i) if (cur.n[i] < 0) owed.push_back({(uint32_t)i, -cur.n[i]});
        for (auto & o : owed) for (long long k = 0; k < o.second; ++k) {
            Value v = T::gen_value(r, h);
            memcpy((void *)&v, &o.first, std::min(sizeof(v), sizeof(o.first)));
            H.g.add_value(h, v, e);
            T::add(H.net, v, 1);
        }
        Stats got = T::of(H.g);
        if (!check_stats("P01:" + N + ":debt-stats", got, H.net, stat_tol(got, H.M, H.K, H.Nmax), ctx)) return;
        if (got.count > 0) {
            double ds = H.g.score_data(h, e);
            VH_CLOSE("P01:" + N + ":debt-score_data", ds, T::logmarg(h, got), 2 * T::tol_data(h, got), ctx);
            for (int j = 0; j < 3; ++j) {
                Value v = T::gen_value(r, h);
                VH_CLOSE("P01:" + N + ":debt-score_value", H.g.score_value(h, v, e), logpred<T>(h, got, v), 2 * T::tol_pred(h, got, v), ctx);
            }
            R().event("debt_repaid");
        }
    }
}
static Register r_P01("P01", P01);

// Very large multiplicities and merges of very large groups, which no loop over single observations reaches.
static void P01_bulk(Rng & r) {
    big_counts() = r.chance(0.05);
    Shared h = T::gen_shared(r);
    rng_t e = new_rng(r);
    const double top = T::real || N == "gp" ? 3e5 : 1e7;
    Group g[2];
    Stats net[2];
    Data vs[2];
    double M = 0, K = 1, n = 0;
    S log;
    int groups = r.range(1, 2);
    for (int q = 0; q < groups; ++q) {
        g[q].init(h, e);
        net[q] = T::zero(h);
        for (int i = 0, ops = r.range(1, 4); i < ops; ++i, ++K) {
            Value v = cand(r, h, vs[q]);
            double cap = std::min(top, 4e8 / (1 + (T::real ? 0 : magnitude(v))));
            int k = r.chance(0.1) ? r.range(1, 3) : r.chance(0.2) ? std::min((int)cap, (int)((1 << r.range(5, 18)) + r.range(-1, 1))) : std::max(1, std::min((int)cap, (int)r.logunif(40, std::max(50.0, cap))));
            g[q].add_repeated_value(h, v, k, e);
            T::add(net[q], v, k);
            vs[q].push_back(v);
            M = std::max(M, magnitude(v));
            n += k;
            log << (q ? "b+" : "a+") << T::show_value(v) << "*" << k << " ";
        }
    }
    if (groups == 2) {
        g[0].merge(h, g[1], e);
        Stats & a = net[0], & b = net[1];
        if (N == "nich") {
            double n1 = a.n[0], n2 = b.n[0], d = b.x[0] - a.x[0];
            a.n[0] += b.n[0];
            a.x[1] += b.x[1] + d * d * n1 * n2 / (n1 + n2);
            a.x[0] += d * n2 / (n1 + n2);
        } else {
            for (size_t k = 0; k < a.n.size(); ++k) a.n[k] += b.n[k];
            for (size_t k = 0; k < a.x.size(); ++k) a.x[k] += b.x[k];
        }
        for (auto & i : b.m) a.m[i.first] += i.second;
        a.count += b.count;
        log << "merged ";
        R().event("bulk_merges");
    }
    for (int i = 0, k = r.below(4); i < k && i < (int)vs[0].size(); ++i, ++K) {
        g[0].remove_value(h, vs[0][i], e);
        T::add(net[0], vs[0][i], -1);
        log << "-" << T::show_value(vs[0][i]) << " ";
    }
    std::string ctx = S() << T::show_shared(h) << " bulk history: " << std::string(log);
    R().seen(hash_str(ctx));
    R().sample(ctx);
    Stats got = T::of(g[0]);
    std::vector<double> tol = stat_tol(net[0], M, K, n);
    if (N == "gp") tol[0] = 1e-3 + n * LGT(M + 1) + K * EPS * n * lgam(M + 2) * 2;
    if (!check_stats("P01:" + N + ":bulk-stats", got, net[0], tol, ctx)) return;
    R().event("bulk_states");
    if (N == "niw" || !usable(got) || got.count <= 0 || (N == "nich" && got.x[1] < 0)) return;  // niw: the posterior matrix drowns in rounding
    VH_CLOSE("P01:" + N + ":bulk-score_data", g[0].score_data(h, e), T::logmarg(h, got), 2 * T::tol_data(h, got), ctx);
    Value v = cand(r, h, vs[0]);
    VH_CLOSE("P01:" + N + ":bulk-score_value", g[0].score_value(h, v, e), logpred<T>(h, got, v), 2 * T::tol_pred(h, got, v), ctx << " value " << T::show_value(v));
}
static Register r_P01_bulk("P01-bulk", P01_bulk);

// Data far from zero compared with their spread: the variance may not be lost in the rounding of squares.
static void assign(float & v, double x) { v = x; }
template<class V> static void assign(V &, double) {}
static void P01_offset(Rng & r) {
    if (N != "nich") return;
    Shared h = T::gen_shared(r);
    rng_t e = new_rng(r);
    const double unit = r.chance(0.5) ? 1 : r.logunif(1e-3, 1e3), mean = unit * r.logunif(30, 3000) * (r.chance(0.5) ? 1 : -1);
    auto draw = [&]() { Value v = T::gen_value(r, h); assign(v, mean + unit * std::max(-4.0, std::min(4.0, r.normal()))); return v; };
    Group g[2];
    Data d[2];
    double K = 4, peak = 1, M = std::abs(mean) + 4 * unit;
    S log;
    for (int q = 0, groups = r.range(1, 2); q < groups; ++q) {
        g[q].init(h, e);
        for (int i = 0, ops = r.chance(0.1) ? r.range(20, 100) : r.range(2, 15); i < ops; ++i, ++K) {
            if (!d[q].empty() && r.chance(0.3)) {
                Value v = r.pick(d[q]);
                g[q].remove_value(h, v, e);
                erase_one(d[q], v);
                log << (q ? "b-" : "a-") << T::show_value(v) << " ";
            } else {
                Value v = draw();
                int k = d[q].empty() || r.chance(0.8) ? 1 : r.range(2, 4);
                if (k == 1) g[q].add_value(h, v, e); else g[q].add_repeated_value(h, v, k, e);
                d[q].insert(d[q].end(), k, v);
                log << (q ? "b+" : "a+") << T::show_value(v) << "*" << k << " ";
            }
            peak = std::max<double>(peak, d[0].size() + d[1].size());
        }
    }
    if (d[1].size()) {
        g[0].merge(h, g[1], e);
        d[0].insert(d[0].end(), d[1].begin(), d[1].end());
        log << "merged ";
        R().event("offset_merges");
        for (int i = 0, k = r.below(4); i < k && !d[0].empty(); ++i, ++K) {
            Value v = r.pick(d[0]);
            g[0].remove_value(h, v, e);
            erase_one(d[0], v);
            log << "-" << T::show_value(v) << " ";
        }
    }
    Stats want = stats_of(h, d[0]), got = T::of(g[0]);
    std::string ctx = S() << "offset history (mean " << mean << " spread " << unit << ") " << std::string(log).substr(0, 1500);
    R().seen(hash_str(ctx));
    R().sample(ctx);
    const double n = d[0].size(), ulp = EPS * M, size = std::max(1.0, n);
    if (!VH_TRUE("P01:nich:offset-count", got.n == want.n, ctx << " count " << got.n[0] << " expected " << want.n[0])) return;
    // the mean is off by some roundings, and the sum of squares by that much times the spread, once per operation
    const double off = ulp * std::sqrt(K) * peak / size;
    if (!VH_CLOSE("P01:nich:offset-mean", got.x[0], want.x[0], 8 * off, ctx)) return;
    if (!VH_CLOSE("P01:nich:offset-variance", got.x[1], want.x[1], 8 * off * unit * std::sqrt(K) * std::sqrt(peak), ctx)) return;
    if (n > 1) R().event("offset_states");
}
static Register r_P01_offset("P01-offset", P01_offset);

// ------------------------------------------------------------------ P02
template<class TT, int discrete> struct Sum1 { static void check(const Shared &, const Group &, rng_t &, const std::string &) {} };
template<class TT> struct Sum1<TT, 1> {
    static void check(const typename TT::Shared & h, const typename TT::Group & g, rng_t & e, const std::string & ctx) {
        double s = 0;
        Model::Scorer sc;
        sc.init(h, g, e);
        Stats st = TT::of(g);
        const auto values = TT::support(h);
        size_t nth = st.count, step = values.size() > 40 ? 9 : 1;
        for (auto && v : values) {   // each possible value (a part of many), "some other" included
            double got = g.score_value(h, v, e);
            s += dexp(got);
            if (++nth % step && v != values.back()) continue;
            double want = logpred<TT>(h, st, v), tol = TT::tol_pred(h, st, v);
            std::string c = S() << ctx << " value " << TT::show_value(v);
            if (!VH_CLOSE("P02:" + N + ":score_value", got, want, tol, c)) return;
            if (!VH_CLOSE("P02:" + N + ":scorer", sc.eval(h, v, e), want, tol, c)) return;
        }
        VH_CLOSE("P02:" + N + ":sum-to-one", s, 1.0, 4e-4, ctx);
        R().event("normalisations");
    }
};
static void P02(Rng & r) {
    big_counts() = r.chance(0.05);
    Shared h = T::gen_shared(r);
    rng_t e = new_rng(r);
    Data d = gen_data(r, h, gen_size(r));
    Group g = fresh(h, d, e);
    if (N != "niw" && N != "bnb" && r.chance(0.01)) {   // a group of very many observations
        Value v = cand(r, h, d);
        size_t k = (size_t)r.logunif(300, 30000);
        d.insert(d.end(), k, v);
        g.add_repeated_value(h, v, k, e);
        R().event("heavy_groups");
    }
    Stats st = T::of(g);
    std::string ctx = S() << T::show_shared(h) << " data " << show_data(d) << " of " << d.size();
    R().seen(hash_str(ctx));
    R().sample(ctx);
    for (int j = 0; j < 6 && !R().failed_case; ++j) {
        Value v = cand(r, h, d);
        std::string c = S() << ctx << " value " << T::show_value(v);
        double got = g.score_value(h, v, e);
        double kern = logpred<T>(h, st, v), want = kern + log_base<T>(h, v), tol = T::tol_pred(h, st, v);
        if (N == "bnb" && !close(got, want, tol) && close(got, kern, tol)) {
            // matches the density without its binomial coefficient: one recorded defect
            R().violation("P02:bnb:missing-binomial-coefficient", c);
            R().failed_case = false;
            want = kern;
        }
        if (!VH_CLOSE("P02:" + N + ":score_value", got, want, tol, c)) return;
        // independent of the group's own statistics: straight from the raw data
        double raw = logpred<T>(h, stats_of(h, d), v);
        double slack = std::abs(raw - kern);
        if (!T::real && N != "gp") { if (!VH_CLOSE("P02:" + N + ":score_value-raw", kern, raw, 1e-9, c)) return; }
        else if (!VH_CLOSE("P02:" + N + ":score_value-raw", kern, raw, 0.02 + 0.02 * std::abs(raw) + tol, c)) return;
        (void)slack;
        Model::Scorer sc;
        sc.init(h, g, e);
        if (!VH_CLOSE("P02:" + N + ":scorer", sc.eval(h, v, e), want, tol, c)) return;
        // a scorer that is initialised again forgets what it was
        Data d2 = gen_data(r, h, r.below(6));
        Group g2 = fresh(h, d2, e);
        sc.init(h, g2, e);
        sc.init(h, g, e);
        if (!VH_CLOSE("P02:" + N + ":scorer-reinit", sc.eval(h, v, e), want, tol, c)) return;
        float a, b, md;
        if (Mix<T, T::has_mix>::pred(h, g, v, e, a, b, md)) {
            if (!VH_CLOSE("P02:" + N + ":mixture-group", a, want, tol, c)) return;
            if (!VH_CLOSE("P02:" + N + ":mixture-vector", b, want, tol, c)) return;
        }
        Stats after = T::of(g);
        VH_TRUE("P02:" + N + ":scoring-changed-group", after.n == st.n && after.m == st.m && after.x == st.x, c);
        R().event("predictive_comparisons");
    }
    Sum1<T, T::discrete>::check(h, g, e, ctx);
}
static Register r_P02("P02", P02);

// ------------------------------------------------------------------ P03
static void P03(Rng & r) {
    big_counts() = r.chance(0.05);
    Shared h = T::gen_shared(r);
    rng_t e = new_rng(r);
    Data d = gen_data(r, h, r.chance(0.003) ? r.range(300, 3000) : gen_size(r));
    std::string ctx = S() << T::show_shared(h) << " data " << show_data(d) << " of " << d.size();
    R().seen(hash_str(ctx));
    R().sample(ctx);
    Group empty;
    empty.init(h, e);
    VH_CLOSE("P03:" + N + ":empty-score", empty.score_data(h, e), 0.0, T::tol_data(h, T::zero(h)), ctx);
    double first = 0;
    for (int perm = 0; perm < 2 && !R().failed_case; ++perm) {
        Group g;
        g.init(h, e);
        double chain = 0, tol = 0;
        for (auto && v : d) {
            Stats s = T::of(g);
            chain += g.score_value(h, v, e);
            tol += T::tol_pred(h, s, v);
            g.add_value(h, v, e);
            R().event("chain_terms");
        }
        Stats st = T::of(g);
        double td = T::tol_data(h, st), got = g.score_data(h, e), want = T::logmarg(h, st);
        if (!VH_CLOSE("P03:" + N + ":closed-form", got, want, td, ctx)) return;
        // chain rule: errors of the terms are partly systematic, so the sum of their bounds applies
        if (!VH_CLOSE("P03:" + N + ":chain-rule", got, chain, td + tol, ctx)) return;
        Stats raw = stats_of(h, d);
        double wr = T::logmarg(h, raw);
        if (!T::real && N != "gp") { if (!VH_CLOSE("P03:" + N + ":closed-form-raw", got, wr, td, ctx)) return; }
        else if (!VH_CLOSE("P03:" + N + ":closed-form-raw", got, wr, td + 0.02 + 1e-3 * std::abs(wr), ctx)) return;
        if (perm && !VH_CLOSE("P03:" + N + ":order", got, first, 2 * td + 1e-3 * std::abs(got), ctx)) return;
        first = got;
        r.shuffle(d);
        R().event("joint_scores");
    }
}
static Register r_P03("P03", P03);
