// Exact record of results.
#pragma once
#include "vh.hpp"
#include <distributions/random_fwd.hpp>
using namespace vh;
using distributions::rng_t;

struct Log {
    std::vector<uint64_t> d;
    std::vector<std::string> what;
    void u(const char * w, uint64_t x) { d.push_back(x); what.push_back(w); }
    void f(const char * w, float x) { uint32_t b; memcpy(&b, &x, 4); u(w, b); }
    void f64(const char * w, double x) { uint64_t b; memcpy(&b, &x, 8); u(w, b); }
    void s(const char * w, const std::string & x) { u(w, hash_str(x)); }
    void e(const char * w, const rng_t & x) { std::ostringstream o; o << x; s(w, o.str()); }
};

// reports the first difference
static bool same_log(const std::string & key, const Log & got, const Log & want, const std::string & ctx) {
    size_t n = std::min(got.d.size(), want.d.size());
    for (size_t i = 0; i < n; ++i)
        if (got.d[i] != want.d[i])
            return VH_TRUE(key, false, ctx << " differs at result " << i << " of " << want.d.size() << " (" << want.what[i] << "): "
                << got.d[i] << " instead of " << want.d[i]);
    return VH_TRUE(key, got.d.size() == want.d.size(), ctx << " has " << got.d.size() << " results instead of " << want.d.size());
}
