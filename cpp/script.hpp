// A seeded script over every object of one model. World is copyable; step() logs every result bit by bit, together
// with the state of its random stream, so that two executions can be compared exactly.
#pragma once
#include "dyn.hpp"
#include "log.hpp"

static void put(Log & l, const char * w, const bool & v) { l.u(w, v); }
template<class V> static typename std::enable_if<std::is_integral<V>::value>::type put(Log & l, const char * w, const V & v) { l.u(w, v); }
template<class V> static typename std::enable_if<std::is_floating_point<V>::value>::type put(Log & l, const char * w, const V & v) { l.f(w, v); }
template<class V> static typename std::enable_if<!std::is_arithmetic<V>::value>::type put(Log & l, const char * w, const V & v) {
    for (int i = 0; i < v.size(); ++i) l.f(w, v(i));
}
template<class X> static void tame(X &) {}
static void __attribute__((unused)) tame(BNB::Shared & h) { if (h.alpha < 1.2f) h.alpha = 1.2f; h.beta = std::min(h.beta, 30.f); }   // std::poisson never ends otherwise

static std::string group_bytes(const Group & g) { T::PbG m; g.protobuf_dump(m); return m.SerializeAsString(); }
static std::string shared_bytes(const Shared & h) { T::PbS m; h.protobuf_dump(m); return m.SerializeAsString(); }
// statistics, independent of the order in which a hash map happens to be walked
static void put_group(Log & l, const char * w, const Group & g) {
    Stats s = T::of(g);
    for (auto x : s.n) l.u(w, x);
    for (auto x : s.x) l.f64(w, x);
    for (auto & x : s.m) { l.u(w, x.first); l.u(w, x.second); }
}

// ---- the mixture part (absent for NIW)
template<class TT, int has> struct MixPart {
    typename TT::Model::Mixture m;
    typename TT::Model::SmallMixture small;
    std::vector<Data> data;
    void init(Rng & r, Shared & h, rng_t & e) {
        size_t n = r.range(1, 6);
        for (size_t i = 0; i < n; ++i) {
            Data d;
            for (size_t k = r.below(5); k > 0; --k) { Value v = T::gen_value(r, h); Dyn<TT>::before_add(h, v, e); d.push_back(v); }
            data.push_back(d);
        }
        for (auto & d : data) m.groups().push_back(fresh(h, d, e));
        m.init(h, e);
    }
    Value value(Rng & r, const Shared & h) const {
        if (!data.empty() && r.chance(0.4)) { auto & d = data[r.below(data.size())]; if (!d.empty()) return r.pick(d); }
        return T::gen_value(r, h);
    }
    // results of the read-only interface
    void read(Rng & r, const Shared & h, rng_t & e, Log & l, bool data_scores) const {
        const size_t n = m.groups().size();
        Value v = value(r, h);
        if (r.chance(0.15) && Dyn<TT>::on && other_weight(h) > 0) v = Dyn<TT>::unseen(r, h);
        VectorFloat acc(n, 0.25f);
        m.score_value(h, v, acc, e);
        for (size_t i = 0; i < n; ++i) l.f("mixture.score_value", acc[i]);
        if (n) {
            size_t i = r.below(n);
            l.f("mixture.score_value_group", m.score_value_group(h, i, v, e));
            l.f("group.score_value in mixture", m.groups(i).score_value(h, v, e));
            l.f("group.score_data in mixture", m.groups(i).score_data(h, e));
        }
        if (r.chance(0.2)) m.validate(h);
        if (data_scores) {
            l.f("mixture.score_data", m.score_data(h, e));
            std::vector<Shared> grid(1 + r.below(3), h);
            VectorFloat out(grid.size());
            m.score_data_grid(grid, out, e);
            for (auto x : out) l.f("mixture.score_data_grid", x);
        }
    }
    void write(Rng & r, Shared & h, rng_t & e, Log & l) {
        const size_t n = data.size();
        double u = r.unif();
        if (n == 0 || u < 0.15) { m.add_group(h, e); data.push_back(Data()); l.u("mixture.add_group", n); return; }
        size_t g = r.below(n);
        if (u < 0.6) {
            bool isnew = false;
            Value v = Dyn<TT>::fresh_value(r, h, isnew, e);
            Dyn<TT>::before_add(h, v, e);
            m.add_value(h, g, v, e);
            data[g].push_back(v);
        } else if (u < 0.8) {
            if (data[g].empty()) return;
            Value v = r.pick(data[g]);
            m.remove_value(h, g, v, e);
            erase_one(data[g], v);
            Dyn<TT>::after_remove(h, v, e);
        } else if (u < 0.9) {
            if (Dyn<TT>::on) while (!data[g].empty()) {
                Value v = data[g].back();
                m.remove_value(h, g, v, e);
                data[g].pop_back();
                Dyn<TT>::after_remove(h, v, e);
            }
            m.remove_group(h, g);
            data[g] = data.back(); data.pop_back();
        } else {
            m.init(h, e);
        }
        for (size_t i = 0; i < m.groups().size(); ++i) put_group(l, "mixture statistics", m.groups(i));
    }
};
template<class TT> struct MixPart<TT, 0> {
    void init(Rng &, Shared &, rng_t &) {}
    void read(Rng &, const Shared &, rng_t &, Log &, bool) const {}
    void write(Rng &, Shared &, rng_t &, Log &) {}
};

struct World {
    Rng r;
    rng_t e;
    Shared h, hm;   // of the single groups, of the mixture
    std::vector<Group> gs;
    std::vector<Data> ds;
    MixPart<T, T::has_mix> mix;
    Model::Sampler sampler;
    Log log;
    int steps = 0;

    explicit World(uint64_t seed) : r(seed), e(new_rng(r)), h(T::gen_shared(r)), hm(T::gen_shared(r)) {
        tame(h); tame(hm);
        mix.init(r, hm, e);
        for (int i = 0; i < 3; ++i) { ds.push_back(gen_data(r, h, r.below(6))); gs.push_back(fresh(h, ds[i], e)); }
        for (auto & d : ds) for (auto && v : d) Dyn<T>::before_add(h, v, e);   // their values stay known
        try { sampler.init(h, gs[0], e); } catch (std::exception &) { if (N != "niw") throw; }
    }
    std::string snapshot() const {
        std::string s = shared_bytes(h) + shared_bytes(hm);
        for (auto & g : gs) s += group_bytes(g);
        return s;
    }
    std::string about() const { return T::show_shared(hm); }
    Value value(Rng & q) const { size_t i = q.below(gs.size()); return cand(q, h, ds[i]); }

    // one of the operations which may change objects or draw
    void step() {
        ++steps;
        size_t i = r.below(gs.size());
        double u = r.unif();
        if (u < 0.2) { Value v = value(r); Dyn<T>::before_add(h, v, e); gs[i].add_value(h, v, e); ds[i].push_back(v); }
        else if (u < 0.28 && !ds[i].empty()) { Value v = r.pick(ds[i]); gs[i].remove_value(h, v, e); erase_one(ds[i], v); Dyn<T>::after_remove(h, v, e); }
        else if (u < 0.33) {
            size_t j = r.below(gs.size());
            if (j != i) {
                gs[i].merge(h, gs[j], e);
                for (auto && v : ds[j]) { Dyn<T>::before_add(h, v, e); ds[i].push_back(v); }
            }
        } else if (u < 0.6) mix.write(r, hm, e, log);
        else if (u < 0.85) {
            try {   // a numerically singular covariance may be refused
                if (u < 0.7) put(log, "sample_value", gs[i].sample_value(h, e));
                else if (u < 0.8) { sampler.init(h, gs[i], e); put(log, "sampler.eval", sampler.eval(h, e)); }
                else put(log, "sampler.eval again", sampler.eval(h, e));
            } catch (std::exception &) {
                if (N != "niw") throw;
                log.u("refused", 1);
            }
        }
        else if (u < 0.9 && ds[i].size() > 8) { for (auto && v : ds[i]) Dyn<T>::after_remove(h, v, e); ds[i].clear(); gs[i].init(h, e); }
        else read(r, e, log, true);
        put_group(log, "group statistics", gs[i]);
        log.e("random stream", e);
    }
    // the operations which only look
    void read(Rng & q, rng_t & ee, Log & l, bool data_scores) const {
        size_t i = q.below(gs.size());
        Value v = value(q);
        if (usable(T::of(gs[i]))) {
            l.f("group.score_value", gs[i].score_value(h, v, ee));
            l.f("group.score_data", gs[i].score_data(h, ee));
        }
        mix.read(q, hm, ee, l, data_scores);
        l.s("dump", group_bytes(gs[i]) + shared_bytes(h) + shared_bytes(hm));
        gs[i].validate(h);
        Model::Scorer sc;
        sc.init(h, gs[i], ee);
        l.f("scorer.eval", sc.eval(h, v, ee));
    }
};

