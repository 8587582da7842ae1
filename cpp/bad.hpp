// Arguments and messages a model must refuse.
#pragma once
#include "dyn.hpp"
// values outside the model's range, if it has any
template<class TT> struct Bad {
    static bool value(Rng &, const typename TT::Shared &, typename TT::Value &) { return false; }
    static bool shared(Rng &, const typename TT::Shared &, typename TT::PbS &, std::string &) { return false; }
    static bool group(Rng &, const typename TT::Shared &, typename TT::PbG &, std::string &) { return false; }
};
template<> struct Bad<DD> {
    static bool value(Rng & r, const DD::Shared & h, int & v) {
        switch (r.below(6)) {
            case 0: v = h.dim; break;
            case 1: v = h.dim + r.below(5); break;
            case 2: v = -1; break;
            case 3: v = -(int)r.below(1000) - 1; break;
            case 4: v = 2147483647; break;
            default: v = r.chance(0.5) ? 256 : -2147483647 - 1; break;
        }
        return true;
    }
    static bool shared(Rng & r, const DD::Shared &, DD::PbS & m, std::string & how) {
        size_t n = 257 + (r.chance(0.5) ? 0 : r.below(1000));
        for (size_t i = 0; i < n; ++i) m.add_alphas(0.5);
        how = S() << n << " alphas";
        return true;
    }
    static bool group(Rng & r, const DD::Shared &, DD::PbG & m, std::string & how) {
        size_t n = 257 + (r.chance(0.5) ? 0 : r.below(1000));
        for (size_t i = 0; i < n; ++i) m.add_counts(1);
        how = S() << n << " counts";
        return true;
    }
};
template<> struct Bad<DPD> {
    static bool value(Rng & r, const DPD::Shared & h, uint32_t & v) {
        if (r.chance(0.4)) { v = DPD::Model::OTHER(); return true; }
        do v = r.chance(0.5) ? r.below(100) : (uint32_t)r.u64(); while (h.betas.contains(v));
        return true;
    }
    static bool shared(Rng & r, const DPD::Shared & h, DPD::PbS & m, std::string & how) {
        h.protobuf_dump(m);
        int k = m.values_size();
        switch (r.below(7)) {
            case 0: m.add_values(4000000000u); how = "one value too many"; break;
            case 1: m.add_betas(1e-3f); how = "one beta too many"; break;
            case 2: m.add_counts(1); how = "one count too many"; break;
            case 3: m.set_betas(r.below(k), 0.f); how = "beta = 0"; break;
            case 4: m.set_betas(r.below(k), -0.2f); how = "negative beta"; break;
            case 5: m.set_betas(r.below(k), 1.5f); how = "betas sum to more than 1"; break;
            default: m.add_values(m.values(r.below(k))); m.add_betas(1e-4f); m.add_counts(1); how = "a value twice"; break;
        }
        return true;
    }
    static bool group(Rng & r, const DPD::Shared &, DPD::PbG & m, std::string & how) {
        for (size_t i = r.range(1, 4); i > 0; --i) { m.add_keys(i); m.add_values(1); }
        if (r.chance(0.5)) { m.add_keys(77); how = "one key too many"; } else { m.add_values(2); how = "one count too many"; }
        return true;
    }
};
template<> struct Bad<NIW> {
    static bool value(Rng & r, const NIW::Shared & h, NIW::Value & v) {
        int d = NIW::dump(h).mu_size(), n = r.chance(0.3) ? 0 : r.chance(0.5) ? d + r.range(1, 4) : d - 1;
        v = NIW::Value::Ones(n);
        return true;
    }
    static bool shared(Rng & r, const NIW::Shared & h, NIW::PbS & m, std::string & how) {
        m = NIW::dump(h);
        int d = m.mu_size();
        switch (r.below(7)) {
            case 0: m.set_kappa(-(float)r.unif(0.1, 3)); how = "negative kappa"; break;
            case 1: m.set_nu(d - 1); how = "nu = dim - 1"; break;
            case 2: m.set_nu(-3); how = "negative nu"; break;
            case 3: m.set_psi(0, -m.psi(0) - 1); how = "psi not positive definite"; break;
            case 4: m.add_psi(1); how = "one element of psi too many"; break;
            case 5: m.add_mu(0); how = "mu too long"; break;
            default:
                if (d < 2) { m.set_psi(0, -1); how = "psi negative"; }
                else { m.set_psi(1, m.psi(1) + 3 * m.psi(0)); how = "psi not symmetric"; }
                break;
        }
        return true;
    }
    static bool group(Rng & r, const NIW::Shared & h, NIW::PbG & m, std::string & how) {
        int d = NIW::dump(h).mu_size();
        m.set_count(2);
        for (int i = 0; i < d; ++i) m.add_sum_x(1);
        for (int i = 0; i < d * d; ++i) m.add_sum_xxt(i % (d + 1) == 0 ? 5 : 0);
        switch (r.below(3)) {
            case 0: m.add_sum_x(1); how = "sum_x too long"; break;
            case 1: m.add_sum_xxt(1); how = "sum_xxt too long"; break;
            default:
                if (d < 2) { m.add_sum_x(1); how = "sum_x too long"; }
                else { m.set_sum_xxt(1, 9); how = "sum_xxt not symmetric"; }
                break;
        }
        return true;
    }
};

