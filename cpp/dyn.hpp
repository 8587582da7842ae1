#pragma once
#include "model_common.hpp"
// ---- hooks for the model whose set of values is dynamic
template<class TT> struct Dyn {
    static const bool on = false;
    static void before_add(Shared &, const Value &, rng_t &) {}
    static void after_remove(Shared &, const Value &, rng_t &) {}
    static Value fresh_value(Rng & r, Shared & h, bool &, rng_t &) { return TT::gen_value(r, h); }
    static bool known(const Shared &, const Value &) { return true; }
    static Value unseen(Rng & r, const Shared & h) { return TT::gen_value(r, h); }
};
template<> struct Dyn<DPD> {
    static const bool on = true;
    static void before_add(DPD::Shared & h, const uint32_t & v, rng_t & e) { h.add_value(v, e); }
    static void after_remove(DPD::Shared & h, const uint32_t & v, rng_t & e) { h.remove_value(v, e); }
    static uint32_t fresh_value(Rng & r, DPD::Shared & h, bool & fresh, rng_t &) {
        if (r.chance(0.25) && h.beta0 > 1e-3) {
            uint32_t v = r.below(30);
            fresh = !h.betas.contains(v);
            return v;
        }
        return DPD::gen_value(r, h);
    }
    static bool known(const DPD::Shared & h, const uint32_t & v) { return h.betas.contains(v); }
    static uint32_t unseen(Rng & r, const DPD::Shared & h) {
        return r.chance(0.2) ? DPD::Model::OTHER() : DPD::gen_value(r, h);
    }
};

static double other_weight_of(const DPD::Shared & h) { return h.beta0; }
template<class X> static double other_weight_of(const X &) { return 0; }
static double other_weight(const Shared & h) { return other_weight_of(h); }
static bool v_other(const Value & v) { return Dyn<T>::on && memcmp(&v, "\377\377\377\377", sizeof(v) < 4 ? sizeof(v) : 4) == 0; }

