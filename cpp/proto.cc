// P16 over one model, or (without MODEL) over the clusterings: protobuf messages reproduce the object they came from.
#ifdef MODEL
#include "bad.hpp"

static std::string sbytes_of(const DPD::Shared & h) {
    std::map<uint32_t, std::string> e;
    for (auto & i : h.betas) e[i.first] = S() << i.second << "*" << h.counts.get_count(i.first);
    S s;
    s << h.alpha << " " << h.gamma << " " << h.counts.get_total() << " ";
    for (auto & i : e) s << i.first << ":" << i.second << " ";
    return s;
}
template<class X> static std::string sbytes_of(const X & h) { T::PbS m; h.protobuf_dump(m); return m.DebugString(); }
static std::string gbytes(const Group & g) { Stats s = T::of(g); S o; o << show(s) << s.count; for (double x : s.x) o << " " << x; return o; }

// through the wire; the receiving message may hold something already
template<class M> static void wire(Rng & r, const M & a, M & b) {
    std::string s;
    if (!a.SerializeToString(&s) || !b.ParseFromString(s)) VH_TRUE("P16:" + N + ":message", false, a.InitializationErrorString());
    R().event("messages");
    (void)r;
}

static Shared any_shared(Rng & r, rng_t & e, std::string & ctx) {
    Shared h = T::gen_shared(r);
    if (Dyn<T>::on) for (size_t i = r.below(6); i > 0; --i) {
        bool fresh = false;
        Value v = Dyn<T>::fresh_value(r, h, fresh, e);
        Dyn<T>::before_add(h, v, e);
    }
    ctx = T::show_shared(h);
    return h;
}
static Group any_group(Rng & r, const Shared & h, Data & d, rng_t & e) {
    d = gen_data(r, h, gen_size(r));
    Group g = fresh(h, d, e);
    if (!d.empty() && r.chance(0.5)) for (size_t i = r.below(d.size()); i > 0; --i) {
        g.remove_value(h, d.back(), e);
        d.pop_back();
    }
    if (r.chance(0.3)) { Group o = fresh(h, gen_data(r, h, r.below(6)), e); g.merge(h, o, e); }
    return g;
}

// data beyond the reach of float give no score, before and after
#define SAME(b_, a_, tol_, stream_) ((vh::is_nan(a_) && vh::is_nan(b_)) || VH_CLOSE(key, b_, a_, tol_, stream_))
static bool same_scores(Rng & r, const std::string & key, const Shared & h, const Group & g, const Shared & h2, const Group & g2, const Data & d, const std::string & ctx) {
    rng_t e(7);
    for (int k = 0; k < 3; ++k) {
        Value v = cand(r, h, d);
        float a = g.score_value(h, v, e), b = g2.score_value(h2, v, e);
        R().event("score_comparisons");
        if (!SAME(b, a, 1e-5 * (1 + std::abs(a)), ctx << " score of " << T::show_value(v))) return false;
        Model::Scorer s, s2;
        s.init(h, g, e); s2.init(h2, g2, e);
        a = s.eval(h, v, e); b = s2.eval(h2, v, e);
        if (!SAME(b, a, 1e-5 * (1 + std::abs(a)), ctx << " scorer of " << T::show_value(v))) return false;
        float p, q, x, p2, q2, x2;
        if (Mix<T, T::has_mix>::pred(h, g, v, e, p, q, x) && Mix<T, T::has_mix>::pred(h2, g2, v, e, p2, q2, x2)) {
            if (!SAME(p2, p, 1e-5 * (1 + std::abs(p)), ctx << " mixture score of " << T::show_value(v))) return false;
            if (!SAME(q2, q, 1e-5 * (1 + std::abs(q)), ctx << " mixture score of " << T::show_value(v))) return false;
        }
    }
    float a = g.score_data(h, e), b = g2.score_data(h2, e);
    // the score is a difference of terms of the order n log n, and not always summed in the same order
    Stats st = T::of(g);
    double n = std::abs((double)st.count);
    for (auto k : st.n) n = std::max(n, std::abs((double)k));
    if (N == "bnb") n *= 12;  // r enters once per observation
    return SAME(b, a, 2e-5 * (1 + std::abs(a)) + 1e-4 * Dyn<T>::on + 8 * EPS * n * std::log(n + 3), ctx << " data score");
}

static void P16(Rng & r) {
    rng_t e = new_rng(r);
    std::string sc, oc;
    Shared h = any_shared(r, e, sc);
    Data d, od;
    big_counts() = r.chance(0.05);
    Group g = any_group(r, h, d, e);
    const bool wide = N == "gp" || N == "bnb";   // 32 bits without a sign
    if (r.chance(0.15)) {  // very large counts
        for (int i = r.range(1, 3); i; --i) {
            Value v = cand(r, h, d);
            g.add_repeated_value(h, v, std::max(1, (int)std::min(r.logunif(30, wide ? 1e9 : 1e6), (wide ? 1.35e9 : 4e8) / (1 + (T::real ? 0 : magnitude(v))))), e);
            d.push_back(v);
        }
        R().event("bulk_groups");
    }
    std::string ctx = S() << sc << " group " << gbytes(g).substr(0, 400);
    R().seen(hash_str(ctx));
    R().sample(ctx);

    T::PbS ms, ms2;
    T::PbG mg, mg2;
    if (r.chance(0.5)) {   // messages which already hold something else
        Shared o = any_shared(r, e, oc);
        o.protobuf_dump(ms); o.protobuf_dump(ms2);
        Group og = any_group(r, o, od, e);
        og.protobuf_dump(mg); og.protobuf_dump(mg2);
        R().event("used_messages");
    }
    h.protobuf_dump(ms);
    g.protobuf_dump(mg);
    wire(r, ms, ms2);
    wire(r, mg, mg2);

    // into new objects, and into objects with a history of their own
    Shared h2;
    Group g2;
    if (r.chance(0.6)) {
        h2 = any_shared(r, e, oc);
        g2 = any_group(r, h2, od, e);
        R().event("loads_over_state");
    }
    h2.protobuf_load(ms2);
    g2.protobuf_load(mg2);
    R().event("reloads");
    if (!VH_TRUE("P16:" + N + ":shared", sbytes_of(h2) == sbytes_of(h), ctx << "\n" << sbytes_of(h) << "\nreloaded as\n" << sbytes_of(h2))) return;
    if (!VH_TRUE("P16:" + N + ":group", gbytes(g2) == gbytes(g), ctx << "\n" << gbytes(g) << "\nreloaded as\n" << gbytes(g2))) return;
    if (!VH_CLOSE("P16:" + N + ":shared", other_weight(h2), other_weight(h), 2e-5, ctx << " remaining weight")) return;
    if (!same_scores(r, "P16:" + N + ":scores", h, g, h2, g2, d, ctx)) return;

    // both go on alike: no state was left behind
    S log;
    for (int k = r.range(1, 8); k > 0; --k) {
        double u = r.unif();
        Value v = cand(r, h, d);
        rng_t e1(k), e2(k);
        if (u < 0.6) { g.add_value(h, v, e1); g2.add_value(h2, v, e2); d.push_back(v); log << "+" << T::show_value(v) << " "; }
        else if (u < 0.8) {
            if (d.empty() || !erase_one(d, v)) continue;
            g.remove_value(h, v, e1); g2.remove_value(h2, v, e2);
            log << "-" << T::show_value(v) << " ";
        } else if (u < 0.9) {
            Data md = gen_data(r, h, r.below(5));
            Group m1 = fresh(h, md, e1), m2 = fresh(h2, md, e2);
            g.merge(h, m2, e1); g2.merge(h2, m1, e2);
            for (auto && x : md) d.push_back(x);
            log << "merge " << show_data(md);
        } else { g.init(h, e1); g2.init(h2, e2); d.clear(); log << "init "; }
    }
    std::string c2 = S() << ctx << " then " << std::string(log);
    R().event("continued");
    if (!VH_TRUE("P16:" + N + ":continued", gbytes(g2) == gbytes(g), c2 << "\n" << gbytes(g) << "\nvs reloaded\n" << gbytes(g2))) return;
    same_scores(r, "P16:" + N + ":continued", h, g, h2, g2, d, c2);
}
static Register r_P16("P16", P16);

static void P16_malformed(Rng & r) {
    rng_t e = new_rng(r);
    std::string ctx;
    Shared h = any_shared(r, e, ctx);
    Data d;
    Group g = any_group(r, h, d, e);
    T::PbS ms, ok;
    T::PbG mg, okg;
    std::string how;
    R().seen(r.u64());
    h.protobuf_dump(ok);
    g.protobuf_dump(okg);
    if (Bad<T>::shared(r, h, ms, how)) {
        Shared q = h;
        VH_TRUE("P16:" + N + ":malformed", throws([&] { q.protobuf_load(ms); }), ctx << " accepted a message with " << how);
        R().event("malformed_refused");
        q.protobuf_load(ok);
        VH_TRUE("P16:" + N + ":after-malformed", sbytes_of(q) == sbytes_of(h), ctx << " after a message with " << how);
    }
    if (Bad<T>::group(r, h, mg, how)) {
        Group q = g;
        VH_TRUE("P16:" + N + ":malformed", throws([&] { q.protobuf_load(mg); }), ctx << " accepted a message with " << how);
        R().event("malformed_refused");
        q.protobuf_load(okg);
        VH_TRUE("P16:" + N + ":after-malformed", gbytes(q) == gbytes(g), ctx << " after a message with " << how);
    }
}
static Register r_P16_malformed("P16-malformed", P16_malformed);

#else
#include "vh.hpp"
#include <distributions/clustering.hpp>
#include <distributions/io/schema.pb.h>
using namespace vh;
typedef distributions::Clustering<int> C;
namespace pb = protobuf::distributions;

template<class M> static M wire(const M & a) {
    std::string s;
    M b;
    VH_TRUE("P16:clustering:message", a.SerializeToString(&s) && b.ParseFromString(s), a.InitializationErrorString());
    R().event("messages");
    return b;
}
static void P16(Rng & r) {
    C::PitmanYor p, p2;
    p.alpha = r.logunif(1e-3, 1e3); p.d = r.chance(0.2) ? 0 : r.unif();
    p2.alpha = 3; p2.d = 0.25;
    C::LowEntropy l, l2;
    l.dataset_size = r.chance(0.2) ? r.below(5) : r.below(1u << (1 + r.below(30)));
    l2.dataset_size = 7;
    std::string ctx = S() << "alpha=" << p.alpha << " d=" << p.d << " dataset_size=" << l.dataset_size;
    R().seen(hash_str(ctx));
    R().sample(ctx);
    pb::Clustering both;
    p.protobuf_dump(*both.mutable_pitman_yor());
    l.protobuf_dump(*both.mutable_low_entropy());
    pb::Clustering w = wire(both);
    p2.protobuf_load(w.pitman_yor());
    l2.protobuf_load(w.low_entropy());
    R().event("reloads");
    VH_TRUE("P16:pitman-yor:shared", p2.alpha == p.alpha && p2.d == p.d, ctx << " reloaded as " << p2.alpha << " " << p2.d);
    VH_TRUE("P16:low-entropy:shared", l2.dataset_size == l.dataset_size, ctx << " reloaded as " << l2.dataset_size);
    std::vector<int> counts;
    int n = 0;
    for (size_t i = r.below(8); i > 0; --i) { counts.push_back(r.range(1, 9)); n += counts.back(); }
    float a = p.score_counts(counts), b = p2.score_counts(counts);
    VH_CLOSE("P16:pitman-yor:scores", b, a, 1e-5 * (1 + std::abs(a)), ctx);
    if (n <= l.dataset_size) {
        a = l.score_counts(counts); b = l2.score_counts(counts);
        VH_CLOSE("P16:low-entropy:scores", b, a, 1e-5 * (1 + std::abs(a)), ctx);
    }
    R().event("score_comparisons", 2);
    C::PitmanYor::Mixture m, m2;
    distributions::rng_t e(1);
    counts.push_back(0);
    m.counts() = counts;
    m2.counts() = counts;
    m.init(p);
    m2.init(p2);
    a = m.score_data(p); b = m2.score_data(p2);
    VH_CLOSE("P16:pitman-yor:scores", b, a, 1e-5 * (1 + std::abs(a)), ctx << " driver");
}
static Register r_P16("P16", P16);
#endif
