// Harness runtime: workload RNG, reporter, case driver. No distributions headers here.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>
#include <random>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <unordered_set>
#include <vector>

namespace vh {

// --- in ref.cc, which is compiled without fast-math: NaN-safe comparisons and reference maths
bool is_finite(double x);
bool is_nan(double x);
bool close(double a, double b, double tol);   // false if either is NaN; equal infinities are close
double lgam(double x);
double dlog(double x);
double dexp(double x);
double student_const(double nu);               // lgamma((nu+1)/2) - lgamma(nu/2), accurate for large nu
double lmgamma(int d, double a);
double chisq_sf(double x, double k);           // upper tail of chi-squared
double logdet_spd(const std::vector<double> & m, int d);
double neg_inf();

inline uint64_t mix64(uint64_t z) {
    z += 0x9E3779B97F4A7C15ull;
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
}
inline uint64_t hash_str(const std::string & s) {
    uint64_t h = 1469598103934665603ull;
    for (unsigned char c : s) h = (h ^ c) * 1099511628211ull;
    return mix64(h);
}

struct Rng {
    std::mt19937_64 e;
    explicit Rng(uint64_t s) : e(s) {}
    uint64_t u64() { return e(); }
    uint64_t below(uint64_t n) { return n ? e() % n : 0; }
    long range(long a, long b) { return a + (long)below((uint64_t)(b - a + 1)); }
    double unif() { return (e() >> 11) * (1.0 / 9007199254740992.0); }
    double unif(double a, double b) { return a + (b - a) * unif(); }
    bool chance(double p) { return unif() < p; }
    double logunif(double a, double b) { return dexp(unif(dlog(a), dlog(b))); }
    double normal() { return std::normal_distribution<double>()(e); }
    template<class T> T pick(const std::vector<T> & v) { return v[below(v.size())]; }
    template<class T> void shuffle(std::vector<T> & v) {
        for (size_t i = v.size(); i > 1; --i) { size_t j = below(i); T t = v[i - 1]; v[i - 1] = v[j]; v[j] = t; }
    }
};

struct Reporter {
    struct V { std::string key, detail, cas; int count; };
    uint64_t evaluations = 0;
    std::unordered_set<uint64_t> distinct;
    std::map<std::string, uint64_t> events;
    std::vector<std::string> samples;
    std::map<std::string, V> violations;
    std::string cas, mon;
    char * prog = nullptr;
    bool failed_case = false;

    static Reporter & get();
    void progress(const std::string & s);
    void sample(const std::string & s) { if (samples.size() < 4) samples.push_back(mon + ": " + s); }
    void seen(uint64_t h) { if (distinct.size() < 3000000) distinct.insert(h); }
    void event(const std::string & k, uint64_t n = 1) { events[k] += n; }
    void violation(const std::string & key, const std::string & detail);
    void write(bool done);
};
inline Reporter & R() { return Reporter::get(); }

struct Mon { std::string name; std::function<void(Rng &)> fn; };
std::vector<Mon> & monitors();
struct Register {
    Register(const std::string & n, std::function<void(Rng &)> f) { monitors().push_back(Mon{n, f}); }
};

// goodness of fit of observed cell counts; small cells are pooled, impossible cells must be empty.
// Returns the p-value; *cells is the number of cells used.
double chisq_p(const std::vector<double> & observed, const std::vector<double> & probs, int * cells = nullptr);
double ks_p(std::vector<double> u);            // against uniform(0,1)

// Two-stage test: `p(scale)` draws a sample of size proportional to scale and returns a p-value. A small
// p-value is only believed if fresh, larger samples repeat it.
template<class F> bool believable(F p, double * worst) {
    double q = p(1);
    if (q > 1e-3) { *worst = q; return true; }
    q = p(3);
    if (q > 1e-5) { *worst = q; return true; }
    q = p(6);
    *worst = q;
    return q > 1e-8;
}

// streaming helper
struct S {
    std::ostringstream o;
    S() { o.precision(9); }
    template<class T> S & operator<<(const T & t) { o << t; return *this; }
    operator std::string() const { return o.str(); }
};

// asserts a numeric claim; returns false (after reporting) when it fails
#define VH_CLOSE(key, a, b, tol, detail)                                              \
    (vh::close((a), (b), (tol)) ? true : (vh::R().violation(key, vh::S()              \
        << detail << " : got " << (double)(a) << " expected " << (double)(b)          \
        << " tol " << (double)(tol)), false))
#define VH_TRUE(key, cond, detail)                                                    \
    ((cond) ? true : (vh::R().violation(key, vh::S() << detail), false))

#ifdef VH_RELEASE  // built as a release, in which bad arguments are the caller's affair: none are offered
template<class F> bool throws(F) { return true; }
template<class F> bool throws_if(bool expected, F f) { if (!expected) f(); return expected; }
#else
template<class F> bool throws(F f) {
    try { f(); } catch (std::exception &) { return true; }
    return false;
}
template<class F> bool throws_if(bool, F f) { return throws(f); }
#endif

}  // namespace vh
