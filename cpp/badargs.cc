// P21 over one model: refused arguments raise an error, leave the object as it was, and leave it usable; repeated use
// does not grow memory.
#include "bad.hpp"
#include <malloc.h>
#include <thread>

static std::string gbytes(const Group & g) { Stats s = T::of(g); return show(s) + std::to_string(s.count); }
static std::string bits(float x) { uint32_t b; memcpy(&b, &x, 4); return std::to_string(b) + " "; }
// Sparse fields come out in hash order, which a reload may change: compare their entries as a set. The mass of unseen
// values is recomputed by a load.
static std::string sbytes_of(const DPD::Shared & h, bool reloaded) {
    std::vector<std::string> e;
    for (auto & i : h.betas) e.push_back(S() << i.first << ":" << bits(i.second) << h.counts.get_count(i.first) << ";");
    std::sort(e.begin(), e.end());
    std::string s = bits(h.alpha) + bits(h.gamma) + (reloaded ? "" : bits(h.beta0)) + std::to_string(h.counts.get_total()) + " ";
    for (auto & x : e) s += x;
    return s;
}
template<class X> static std::string sbytes_of(const X & h, bool) { T::PbS m; h.protobuf_dump(m); return m.DebugString(); }
static std::string sbytes(const Shared & h, bool reloaded = false) { return sbytes_of(h, reloaded); }

// Each refusal: must throw, must leave the snapshot alone.
template<class Snap, class F> static bool refused(const std::string & what, const std::string & ctx, Snap snap, F f) {
    std::string before = snap();
    bool threw = throws(f);
    if (!VH_TRUE("P21:" + N + ":accepted:" + what, threw, ctx << " " << what << " was accepted")) return false;
    std::string after = snap();
    if (!VH_TRUE("P21:" + N + ":changed:" + what, before == after, ctx << " " << what << " was refused but changed the object\n" << before << "\n" << after)) return false;
    R().event("refusals");
    return true;
}

// a refused load must not leave a dimension beyond the arrays
template<class X> auto dim_ok(const X & x, int) -> decltype(x.alphas[0] > 0, bool()) { return x.dim >= 0 && size_t(x.dim) <= sizeof(x.alphas) / sizeof(x.alphas[0]); }
template<class X> auto dim_ok(const X & x, char) -> decltype(x.counts[0] > 0, bool()) { return x.dim >= 0 && size_t(x.dim) <= sizeof(x.counts) / sizeof(x.counts[0]); }
template<class X> bool dim_ok(const X &, ...) { return true; }

// a group and its model
static void P21_group(Rng & r) {
    Shared h = T::gen_shared(r);
    rng_t e = new_rng(r);
    Data d = gen_data(r, h, gen_size(r));
    Group g = fresh(h, d, e);
    std::string ctx = S() << T::show_shared(h) << " " << show_data(d).substr(0, 300);
    R().seen(hash_str(ctx));
    R().sample(ctx);
    auto snap = [&] { return gbytes(g) + sbytes(h); };
    for (int k = 0; k < 4 && !R().failed_case; ++k) {
        Value v = T::gen_value(r, h);
        if (Bad<T>::value(r, h, v)) {
            std::string c = ctx + " value " + T::show_value(v);
            refused("group.add_value", c, snap, [&] { g.add_value(h, v, e); });
            refused("group.remove_value", c, snap, [&] { g.remove_value(h, v, e); });
            if (N != "niw") refused("group.add_repeated_value", c, snap, [&] { g.add_repeated_value(h, v, 3, e); });
            if (!(Dyn<T>::on && v_other(v))) {   // OTHER may be scored
                refused("group.score_value", c, snap, [&] { volatile float x = g.score_value(h, v, e); (void)x; });
                Model::Scorer s;
                s.init(h, g, e);
                refused("scorer.eval", c, snap, [&] { volatile float x = s.eval(h, v, e); (void)x; });
            }
        }
        T::PbS ms;
        std::string how;
        if (Bad<T>::shared(r, h, ms, how)) {
            Shared q = h;
            bool threw = throws([&] { q.protobuf_load(ms); });
            VH_TRUE("P21:" + N + ":accepted:shared.protobuf_load", threw, ctx << " " << how);
            VH_TRUE("P21:" + N + ":unusable:shared", dim_ok(q, 0), ctx << " after refused load of " << how);
            T::PbS good;
            h.protobuf_dump(good);
            q.protobuf_load(good);   // still usable
            VH_TRUE("P21:" + N + ":unusable:shared", sbytes(q, true) == sbytes(h, true), ctx << " after refused load of " << how << "\n" << sbytes(q) << "\n" << sbytes(h));
            R().event("refusals");
        }
        T::PbG mg;
        if (Bad<T>::group(r, h, mg, how)) {
            Group q = g;
            bool threw = throws([&] { q.protobuf_load(mg); });
            VH_TRUE("P21:" + N + ":accepted:group.protobuf_load", threw, ctx << " " << how);
            VH_TRUE("P21:" + N + ":unusable:group", dim_ok(q, 0), ctx << " after refused load of " << how);
            T::PbG good;
            g.protobuf_dump(good);
            q.protobuf_load(good);
            VH_TRUE("P21:" + N + ":unusable:group", gbytes(q) == gbytes(g), ctx << " after refused load of " << how);
            R().event("refusals");
        }
        if (N == "nich") {
            Group q;
            q.init(h, e);
            auto qs = [&] { return gbytes(q); };
            refused("remove_value from an empty group", ctx, qs, [&] { q.remove_value(h, T::gen_value(r, h), e); });
        }
    }
    // still usable: the group goes on as one that saw nothing else
    Data more = gen_data(r, h, r.below(4));
    for (auto && v : more) { g.add_value(h, v, e); d.push_back(v); }
    Group f = fresh(h, d, e);
    VH_TRUE("P21:" + N + ":unusable:group", gbytes(g) == gbytes(f), ctx << " " << gbytes(g) << " vs " << gbytes(f));
}
static Register r_P21_group("P21-group", P21_group);

template<class TT, int has> struct BadMix { static void run(Rng &) {} static void churn(Rng &) {} };
template<class TT> struct BadMix<TT, 1> {
    typedef typename TT::Model::Mixture Mixture;
    typedef typename TT::Model::SmallMixture Small;
    template<class M> static std::string snap(const M & m, const Shared & h, const std::vector<Value> & probe, rng_t & e) {
        std::string s = sbytes(h);
        for (auto & g : m.groups()) s += gbytes(g);
        for (auto && v : probe) {
            VectorFloat a(m.groups().size(), 0.f);
            m.score_value(h, v, a, e);
            for (float x : a) s += bits(x);
            for (size_t i = 0; i < a.size(); ++i) s += bits(m.score_value_group(h, i, v, e));
        }
        s += bits(m.score_data(h, e));
        return s;
    }
    template<class M> static void use(Rng & r, const std::string & kind) {
        Shared h = TT::gen_shared(r);
        rng_t e = new_rng(r);
        M m;
        std::vector<Data> data;
        size_t n = r.below(6);
        for (size_t i = 0; i < n; ++i) { data.push_back(gen_data(r, h, r.below(5))); m.groups().push_back(fresh(h, data[i], e)); }
        m.init(h, e);
        std::vector<Value> probe;
        for (int i = 0; i < 3; ++i) probe.push_back(TT::gen_value(r, h));
        std::string ctx = S() << kind << " " << TT::show_shared(h) << " " << n << " groups";
        R().seen(hash_str(ctx));
        auto s = [&] { return snap(m, h, probe, e); };
        for (int k = 0; k < 4 && !R().failed_case; ++k) {
            Value v = TT::gen_value(r, h), b = v;
            size_t bad = r.chance(0.5) ? n : n + r.below(1000);
            if (r.chance(0.2)) bad = (size_t)-1 - r.below(3);
            std::string c = ctx + " group " + std::to_string(bad);
            refused(kind + ".add_value(bad group)", c, s, [&] { m.add_value(h, bad, v, e); });
            refused(kind + ".remove_value(bad group)", c, s, [&] { m.remove_value(h, bad, v, e); });
            refused(kind + ".remove_group(bad group)", c, s, [&] { m.remove_group(h, bad); });
            refused(kind + ".score_value_group(bad group)", c, s, [&] { volatile float x = m.score_value_group(h, bad, v, e); (void)x; });
            refused(kind + ".groups(bad group)", c, s, [&] { volatile const void * x = &m.groups(bad); (void)x; });
            refused(kind + ".groups(bad group) const", c, s, [&] { const M & cm = m; volatile const void * x = &cm.groups(bad); (void)x; });
            size_t wrong = n + 1 + r.below(9);
            if (n && r.chance(0.5)) wrong = r.below(n);
            VectorFloat acc(std::max<size_t>(wrong, n) + 8, 1.f);
            refused(kind + ".score_value(wrong size)", ctx + " size " + std::to_string(wrong), s,
                    [&] { m.score_value(h, v, AlignedFloats(acc.data(), wrong), e); });
            for (float x : acc) VH_TRUE("P21:" + N + ":changed:accumulator", x == 1.f, ctx);
            std::vector<Shared> grid(r.below(3), h);
            VectorFloat out(grid.size() + 1 + r.below(3), 1.f);
            refused(kind + ".score_data_grid(wrong size)", ctx, s, [&] { m.score_data_grid(grid, out, e); });
            if (n && Bad<TT>::value(r, h, b)) {
                size_t i = r.below(n);
                std::string cv = ctx + " value " + TT::show_value(b);
                refused(kind + ".add_value(bad value)", cv, s, [&] { m.add_value(h, i, b, e); });
                refused(kind + ".remove_value(bad value)", cv, s, [&] { m.remove_value(h, i, b, e); });
                if (!(Dyn<TT>::on && v_other(b))) {
                    refused(kind + ".score_value_group(bad value)", cv, s, [&] { volatile float x = m.score_value_group(h, i, b, e); (void)x; });
                    VectorFloat a(n, 1.f);
                    refused(kind + ".score_value(bad value)", cv, s, [&] { m.score_value(h, b, a, e); });
                    for (float x : a) VH_TRUE("P21:" + N + ":changed:accumulator", x == 1.f, ctx);
                }
            }
        }
        // still usable
        if (R().failed_case) return;
        m.add_group(h, e);
        data.push_back(Data());
        for (int k = 0; k < 3; ++k) {
            size_t i = r.below(data.size());
            Value v = TT::gen_value(r, h);
            m.add_value(h, i, v, e);
            data[i].push_back(v);
        }
        for (size_t i = 0; i < data.size(); ++i)
            VH_TRUE("P21:" + N + ":unusable:mixture", gbytes(m.groups(i)) == gbytes(fresh(h, data[i], e)), ctx << " group " << i);
        R().event("mixtures");
    }
    static void run(Rng & r) { if (r.chance(0.7)) use<Mixture>(r, "mixture"); else use<Small>(r, "small"); }
    static void churn(Rng & r) {
        Shared h = TT::gen_shared(r);
        rng_t e = new_rng(r);
        Mixture m;
        size_t n = r.below(30);
        for (size_t i = 0; i < n; ++i) m.groups().push_back(fresh(h, gen_data(r, h, r.below(5)), e));
        m.init(h, e);
        for (int k = 0; k < 10; ++k) {
            m.add_group(h, e);
            m.add_value(h, r.below(m.groups().size()), TT::gen_value(r, h), e);
            VectorFloat a(m.groups().size(), 0.f);
            m.score_value(h, TT::gen_value(r, h), a, e);
            m.score_data(h, e);
            if (r.chance(0.3)) { Mixture c(m); m = c; }
            if (r.chance(0.3)) m.remove_group(h, r.below(m.groups().size()));
        }
    }
};
static void P21_mixture(Rng & r) { BadMix<T, T::has_mix>::run(r); }
static Register r_P21_mixture("P21-mixture", P21_mixture);

// ---- what the shared state of the dynamic model refuses
template<class TT> struct SharedArgs { static void run(Rng &) {} };
template<> struct SharedArgs<DPD> {
    static void run(Rng & r) {
        DPD::Shared h = DPD::gen_shared(r);
        rng_t e = new_rng(r);
        std::string ctx = DPD::show_shared(h);
        // what the shared state holds, and how it answers to each value
        auto snap = [&] {
            S s;
            auto b = DPD::betas(h);
            for (auto & i : b) s << i.first << ":" << i.second << "," << h.counts.get_count(i.first) << " ";
            s << h.beta0 << " " << h.counts.get_total();
            return std::string(s);
        };
        refused("shared.add_value(OTHER)", ctx, snap, [&] { h.add_value(DPD::Model::OTHER(), e); });
        refused("shared.remove_value(OTHER)", ctx, snap, [&] { h.remove_value(DPD::Model::OTHER(), e); });
        uint32_t v;
        do v = r.chance(0.5) ? r.below(100) : (uint32_t)r.u64(); while (h.betas.contains(v) || v == DPD::Model::OTHER());
        refused("shared.remove_value(unknown)", ctx + " value " + std::to_string(v), snap, [&] { h.remove_value(v, e); });
        h.realize(e);
        auto known = [&](uint32_t x) { return h.betas.contains(x); };
        do v = (uint32_t)r.u64(); while (known(v) || v == DPD::Model::OTHER());
        if (h.beta0 == 0) {
            std::string c = ctx + " realized, new value " + std::to_string(v);
            for (int k = 0; k < 2 && !R().failed_case; ++k)
                refused("shared.add_value(no mass left)", c, snap, [&] { h.add_value(v, e); });
            R().event("full_shareds");
        }
        uint32_t w = DPD::gen_value(r, h);
        long c0 = h.counts.get_count(w);
        h.add_value(w, e);
        VH_TRUE("P21:dpd:unusable:shared", h.counts.get_count(w) == c0 + 1, ctx);
        h.remove_value(w, e);
        VH_TRUE("P21:dpd:unusable:shared", h.counts.get_count(w) == c0, ctx);
    }
};
static void P21_shared(Rng & r) { SharedArgs<T>::run(r); }
static Register r_P21_shared("P21-shared", P21_shared);

// ---- repeated use must not grow memory
static size_t in_use() { struct mallinfo2 m = mallinfo2(); return m.uordblks + m.hblkhd; }
static void life(uint64_t seed) {
    Rng r(seed);
    Shared h = T::gen_shared(r);
    rng_t e = new_rng(r);
    Data d = gen_data(r, h, gen_size(r));
    Group g = fresh(h, d, e), f;
    f = g;
    f.merge(h, g, e);
    while (!d.empty() && r.chance(0.8)) { g.remove_value(h, d.back(), e); d.pop_back(); }
    T::PbS m; h.protobuf_dump(m);
    Shared h2; h2.protobuf_load(m);
    T::PbG mg; f.protobuf_dump(mg); g.protobuf_load(mg);
    volatile float x = f.score_data(h, e); (void)x;
    Value bad = T::gen_value(r, h);
    if (Bad<T>::value(r, h, bad)) throws([&] { g.add_value(h, bad, e); });
    BadMix<T, T::has_mix>::churn(r);
}
static void P21_memory(Rng & r) {
    uint64_t seed = r.u64();
    static int turn = 0;
    const bool threads = turn++ % 3 == 2;
    auto once = [&] {
        if (!threads) { life(seed); return; }
        std::thread t([&] { life(seed); });
        t.join();
    };
    once(); once(); once();
    long long least = 1ll << 60;
    for (int k = 0; k < 6; ++k) {
        long long a = in_use();
        for (int i = 0; i < 4; ++i) once();
        least = std::min<long long>(least, (long long)in_use() - a);
    }
    R().event("memory_rounds", 24);
    R().seen(seed);
    std::string key = S() << "P21:" << N << (threads ? ":thread-leak" : ":leak");
    VH_TRUE(key, least <= 0, "memory grew by at least " << least << " bytes in every 4 repetitions of the same work" << (threads ? " in a new thread" : "") << ", seed " << seed);
}
static Register r_P21_memory("P21-memory", P21_memory);
