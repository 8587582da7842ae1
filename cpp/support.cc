// P14, P15, P18, P23 : special functions, vector kernels, shared DPD weights, containers (C++).
#include "models.hpp"
#include <limits>
#include <distributions/special.hpp>
#include <distributions/random.hpp>
#include <distributions/vector_math.hpp>
#include <distributions/sparse.hpp>

using namespace vm;
namespace d = distributions;
using d::VectorFloat;

// ------------------------------------------------------------------ P14
static double up(float x) { return x; }
// observed envelope of the piecewise approximations, with room: absolute error
static double tol_lgamma(double x) { return x < 2.5 ? 3e-6 + 3e-7 * std::abs(lgam(x)) : 4e-5 + (x < 1e6 ? 7.5e-6 : 9e-6) * x; }
static double tol_nu(double x) { return x < 0.0625 ? 3e-6 : 0.0175; }
static float pick_pos(Rng & r, double lo, double hi) {
    double u = r.unif();
    if (u < 0.5) return r.logunif(lo, hi);
    if (u < 0.7) {  // next to a table boundary
        int e = (int)std::floor(dlog(r.logunif(lo, hi)) / 0.6931471805599453);
        float b = std::ldexp(1.0f, e), s = r.chance(0.5) ? std::nextafter(b, 0.f) : r.chance(0.5) ? b : std::nextafter(b, 1e38f);
        return s < lo ? lo : s > hi ? hi : s;
    }
    if (u < 0.8) { float n = r.range(std::max(1L, (long)lo), (long)std::min(hi, 1e6)); return n; }
    if (u < 0.9) { float b = 2.5f; float s = r.chance(0.5) ? std::nextafter(b, 0.f) : b; return s < lo ? lo : s; }
    return r.unif(lo, std::min(hi, 100.0));
}
static std::vector<std::vector<double>> & stirling() {
    static std::vector<std::vector<double>> s;
    return s;
}
static const std::vector<double> & stirling_row(size_t n) {
    auto & s = stirling();
    while (s.size() <= n) {
        size_t m = s.size();
        std::vector<double> row(m + 1, neg_inf());
        row[m] = 0;
        for (size_t k = 1; k < m; ++k) {
            double a = dlog((double)m - 1) + s[m - 1][k], b = k == 1 && m > 1 ? neg_inf() : s[m - 1][k - 1];
            double hi = std::max(a, b), lo = std::min(a, b);
            row[k] = lo < -1e300 ? hi : hi + dlog(1 + dexp(lo - hi));
        }
        s.push_back(row);
    }
    return s[n];
}
// log of a Stirling number of a long row: saddle point of the rising factorial, whose coefficients are
// those of a sum of independent Bernoulli(x / (x + i)) variables
static double digamma(double x) { double s = 0; for (; x < 8; x += 1) s -= 1 / x; double y = 1 / (x * x); return s + dlog(x) - 0.5 / x - y * (1 / 12. - y * (1 / 120. - y / 252)); }
static double trigamma(double x) { double s = 0; for (; x < 8; x += 1) s += 1 / (x * x); double y = 1 / (x * x); return s + 1 / x + 0.5 * y + y / x * (1 / 6. - y * (1 / 30. - y / 42)); }
static double long_stirling(size_t n, size_t k) {
    if (k == n) return 0;
    if (k == 1) return lgam(n);
    if (k == n - 1) return dlog(n) + dlog((double)n - 1) - dlog(2);
    double lo = -40, hi = 2 * dlog((double)n) + 5;
    auto mean = [&](double x) { return x * (digamma(x + n) - digamma(x)); };
    for (int i = 0; i < 80; ++i) { double m = 0.5 * (lo + hi); (mean(dexp(m)) < k ? lo : hi) = m; }
    double x = dexp(lo), v = mean(x) - x * x * (trigamma(x) - trigamma(x + n));
    return lgam(x + n) - lgam(x) - k * dlog(x) - 0.5 * dlog(2 * 3.14159265358979323846 * std::max(v, 0.05));
}
static void P14(Rng & r) {
    std::string K = "P14:";
    R().event("rounds");
    for (int i = 0; i < 40; ++i) {
        float x = pick_pos(r, 1.2e-38, 3e38);
        if (!VH_CLOSE(K + "fast_log", d::fast_log(x), dlog(up(x)), 7e-5, "fast_log(" << x << ")")) return;
        float y = r.chance(0.2) ? (float)r.range(-87, 88) : (float)(r.chance(0.5) ? r.unif(-87, 88) : r.unif(-1, 1));
        double ey = dexp(up(y));
        if (!VH_CLOSE(K + "fast_exp", d::fast_exp(y) / ey, 1.0, 8e-6, "fast_exp(" << y << ")")) return;
        float big = r.logunif(88.01, 1e30);
        if (!VH_TRUE(K + "fast_exp-saturates", d::fast_exp(big) >= 1.6e38f, "fast_exp(" << big << ") = " << d::fast_exp(big))) return;
        if (!VH_TRUE(K + "fast_exp-saturates", d::fast_exp(-big) >= 0 && d::fast_exp(-big) < 1e-37f, "fast_exp(" << -big << ") = " << d::fast_exp(-big))) return;
        float a = r.unif(-300, 300), b = r.chance(0.3) ? a : r.chance(0.5) ? a + (float)r.unif(-20, 20) : (float)r.unif(-300, 300);
        double hi = std::max(up(a), up(b)), ref = hi + dlog(1 + dexp(-std::abs(up(a) - up(b))));
        if (!VH_CLOSE(K + "fast_log_sum_exp", d::fast_log_sum_exp(a, b), ref, 8e-5 + 1e-7 * std::abs(ref), a << "," << b)) return;
        if (!VH_CLOSE(K + "log_sum_exp", d::log_sum_exp(a, b), ref, 1e-6 + 2e-7 * std::abs(ref), a << "," << b)) return;
        R().event("points", 5);
        float g = pick_pos(r, 1e-4, 4.2e9);
        if (!VH_CLOSE(K + "fast_lgamma", d::fast_lgamma(g), lgam(up(g)), tol_lgamma(g), "fast_lgamma(" << g << ")")) return;
        float nu = pick_pos(r, 1e-3, 4.2e9);
        if (!VH_CLOSE(K + "fast_lgamma_nu", d::fast_lgamma_nu(nu), student_const(up(nu)), tol_nu(nu), "fast_lgamma_nu(" << nu << ")")) return;
        R().seen(hash_str(S() << x << y << g << nu));
        if (i == 0) R().sample(S() << "fast_log(" << x << ") fast_exp(" << y << ") fast_lgamma(" << g << ") fast_lgamma_nu(" << nu << ")");
    }
    // no jumps at the boundaries of the tables
    for (int e = -4; e < 32; ++e) {
        float b = std::ldexp(1.0f, e), below = std::nextafter(b, 0.f);
        double step = std::abs(lgam(up(b)) - lgam(up(below)));
        VH_CLOSE(K + "fast_lgamma-jump", d::fast_lgamma(b), d::fast_lgamma(below), 2 * tol_lgamma(b) + step, "at " << b);
        VH_CLOSE(K + "fast_lgamma_nu-jump", d::fast_lgamma_nu(b), d::fast_lgamma_nu(below), 2 * tol_nu(b), "at " << b);
        VH_CLOSE(K + "fast_log-jump", d::fast_log(b), d::fast_log(below), 7e-5 + 5e-6, "at " << b);
    }
    for (int i = 0; i < 20; ++i) {
        float a = pick_pos(r, 1e-3, 1e6), b = pick_pos(r, 1e-3, 1e6);
        double exact = lgam(up(a)) + lgam(up(b)) - lgam(up(a) + up(b));
        double rnd = 4 * EPS * (std::abs(lgam(up(a))) + std::abs(lgam(up(b))) + std::abs(lgam(up(a) + up(b))) + (a + b) * (1 + dlog(1 + a + b))) + 1e-6;
        if (!VH_CLOSE(K + "log_beta", d::log_beta(a, b), exact, rnd, a << "," << b)) return;
        if (!VH_CLOSE(K + "fast_log_beta", d::fast_log_beta(a, b), exact, rnd + tol_lgamma(a) + tol_lgamma(b) + tol_lgamma(a + b), a << "," << b)) return;
        VH_TRUE(K + "log_beta-domain", d::log_beta(-a, b) < -1e30 && d::fast_log_beta(a, 0.f) < -1e30, a << "," << b);
        float N = r.chance(0.5) ? r.range(0, 60) : r.range(0, 100000), k = r.chance(0.1) ? 0 : r.chance(0.1) ? N : r.range(0, (long)N);
        double lb = lgam(N + 1.0) - lgam(k + 1.0) - lgam(N - k + 1.0);
        double rb = 4 * EPS * 3 * lgam(N + 3.0) + 1e-6;
        if (!VH_CLOSE(K + "log_binom", d::log_binom(N, k), lb, rb, N << "," << k)) return;
        if (!VH_CLOSE(K + "fast_log_binom", d::fast_log_binom(N, k), lb, rb + tol_lgamma(N + 1) + tol_lgamma(k + 1) + tol_lgamma(N - k + 1), N << "," << k)) return;
        uint32_t n = r.chance(0.5) ? r.below(70) : r.chance(0.5) ? r.below(100000) : r.below(4000000000u);
        if (!VH_CLOSE(K + "fast_log_factorial", d::fast_log_factorial(n), lgam(n + 1.0), n < 64 ? 1e-6 + 1e-7 * lgam(n + 1.0) : tol_lgamma(n + 1.0) + EPS * lgam(n + 1.0), n)) return;
        unsigned dim = r.range(1, 20);
        float m = (dim - 1) * 0.5f + r.logunif(0.01, 1000);
        double t = 1e-5;
        for (unsigned j = 1; j <= dim; ++j) t += tol_lgamma(m + 0.5 * (1 - (int)j)) + 3e-6 + 3 * EPS * std::abs(lgam(up(m)));
        // the argument of every term is rounded
        for (unsigned j = 1; j <= dim; ++j) { double x = up(m) + 0.5 * (1 - (int)j); if (x < 0.5) t += 2 * EPS * m / x; else t += 2 * EPS * m * dlog(2 + x); }
        if (!VH_CLOSE(K + "lmultigamma", d::lmultigamma(dim, m), lmgamma(dim, up(m)), t, dim << "," << m)) return;
        R().event("points", 6);
    }
    VH_TRUE(K + "lmultigamma-zero-dim", throws([] { d::lmultigamma(0, 1.f); }), "");
    // Student t
    for (int i = 0; i < 20; ++i) {
        float nu = r.logunif(0.1, 1e4), mu = r.unif(-10, 10), la = r.logunif(1e-3, 1e3), x = mu + r.normal() * 3 / std::sqrt(la) * (r.chance(0.1) ? 30 : 1);
        double z = up(la) * ((double)x - mu) * ((double)x - mu) / nu;
        double exact = student_const(nu) + 0.5 * dlog(up(la) / (3.14159265358979323846 * nu)) - 0.5 * (nu + 1.0) * dlog(1 + z);
        double cancel = 0.5 * (nu + 1.0) * (4 * EPS + 4 * EPS * z / (1 + z) * (1 + (std::abs(x) + std::abs(mu)) / std::max(1e-30, std::abs((double)x - mu))));
        double lg = 4 * EPS * std::abs(lgam(nu / 2.0 + 1)) + EPS * nu * dlog(nu + 2) + 4 * EPS * std::abs(exact);
        if (!VH_CLOSE(K + "score_student_t", d::score_student_t(x, nu, mu, la), exact, 1e-5 + cancel + lg, x << "," << nu << "," << mu << "," << la)) return;
        if (!VH_CLOSE(K + "fast_score_student_t", d::fast_score_student_t(x, nu, mu, la), exact, 1e-5 + cancel + lg + tol_nu(nu) + 7e-5 * (0.5 + 0.5 * (nu + 1)), x << "," << nu << "," << mu << "," << la)) return;
        R().event("points", 2);
    }
    // rows of log Stirling numbers, in any order
    for (int i = 0; i < 6; ++i) {
        size_t n = r.chance(0.6) ? r.below(32) : r.chance(0.5) ? r.range(30, 70) : r.range(64, 400);
        std::vector<float> row(r.below(40), 3.f);
        VectorFloat arow;
        d::get_log_stirling1_row(n, row);
        d::get_log_stirling1_row(n, arow);
        std::vector<float> by_value = d::log_stirling1_row(n);
        const auto & ex = stirling_row(n);
        if (!VH_TRUE(K + "stirling-length", row.size() == n + 1 && arow.size() == n + 1 && by_value.size() == n + 1, "row " << n << " has " << row.size())) return;
        if (n > 0 && !VH_TRUE(K + "stirling-endpoint", row[0] < -1e30, "row " << n << "[0] = " << row[0])) return;
        if (!VH_CLOSE(K + "stirling-endpoint", row[n], 0.0, 0.0, "row " << n)) return;
        for (size_t k = 1; k < n; ++k) {
            // below 32: single precision. Beyond: the error of the two asymptotic forms
            double tol = n < 32 ? 2e-6 + 4e-7 * std::abs(ex[k]) : 0.75 + 0.045 * std::abs(ex[k]);
            if (!VH_CLOSE(K + (n < 32 ? "stirling" : "stirling-approx"), row[k], ex[k], tol, "row " << n << " k " << k)) return;
            if (!VH_TRUE(K + "stirling-alloc", row[k] == arow[k] && row[k] == by_value[k], "row " << n << " k " << k)) return;
        }
        R().event("stirling_rows");
    }
    if (r.chance(0.02)) {
        size_t n = r.chance(0.5) ? r.range(200, 3000) : r.chance(0.6) ? r.range(3000, 50000) : r.range(50000, 120000);
        std::vector<float> row;
        d::get_log_stirling1_row(n, row);
        if (!VH_TRUE(K + "stirling-length", row.size() == n + 1, "row " << n << " has " << row.size())) return;
        if (!VH_TRUE(K + "stirling-endpoint", row[0] < -1e30 && row[n] == 0, "row " << n << ": " << row[0] << " " << row[n])) return;
        for (int i = 0; i < 60; ++i) {
            size_t k = i < 4 ? i + 1 : i < 8 ? n - (i - 3) : r.chance(0.5) ? r.range(1, n - 1) : r.chance(0.5) ? (size_t)r.logunif(1, n) : n - (size_t)r.logunif(1, n - 1);
            k = std::max<size_t>(1, std::min(k, n - 1));
            double ex = long_stirling(n, k);
            if (!VH_CLOSE(K + "stirling-approx", row[k], ex, 0.75 + 0.045 * std::abs(ex) + 5e-4 * n, "row " << n << " k " << k)) return;
        }
        R().event("long_stirling_rows");
    }
}
static Register r_P14("P14", P14);

// ------------------------------------------------------------------ P15
struct Buf {  // `size` floats at a chosen alignment, canaries on both sides
    std::vector<float> store; size_t off, size;
    Buf(Rng & r, size_t n, int align) : store(n + 64), size(n) {
        size_t base = (reinterpret_cast<size_t>(store.data()) / 4) % 8;
        off = 24 + (8 - base + align) % 8;
        for (auto & x : store) x = 12345.0f + r.below(100);
        keep = store;
    }
    std::vector<float> keep;
    float * p() { return store.data() + off; }
    bool intact() const {
        for (size_t i = 0; i < store.size(); ++i) if ((i < off || i >= off + size) && store[i] != keep[i]) return false;
        return true;
    }
    bool same(const std::vector<float> & v) const { for (size_t i = 0; i < size; ++i) if (store[off + i] != v[i]) return false; return true; }
};
enum { ANY, POS, HUGE_ };
static void fill(Rng & r, Buf & b, int kind, std::vector<float> & copy) {
    int style = r.below(5);
    if (kind == HUGE_) {   // all of one sign or both, over the whole range of float
        int sign = r.below(3);
        for (size_t i = 0; i < b.size; ++i) {
            double v = r.chance(0.5) ? r.logunif(1e25, 3e38) : r.logunif(1e-30, 1e30);
            b.p()[i] = sign == 0 || (sign == 2 && r.chance(0.5)) ? -v : v;
        }
        copy.assign(b.p(), b.p() + b.size);
        return;
    }
    for (size_t i = 0; i < b.size; ++i) {
        double v = style == 0 ? 0 : style == 1 ? (double)i + 1 : style == 2 ? r.unif(-4, 4) : style == 3 ? r.normal() * r.logunif(1e-3, 1e3) : (r.chance(0.1) ? r.unif(-1e6, 1e6) : r.range(-3, 3));
        if (kind == POS) v = style == 0 ? 1.5 : std::abs(v) + 1e-3;
        b.p()[i] = v;
    }
    copy.assign(b.p(), b.p() + b.size);
}
static void P15(Rng & r) {
    size_t n = r.chance(0.75) ? r.below(70) : r.chance(0.8) ? r.range(70, 300) : r.chance(0.97) ? r.range(1000, 3000) : r.range(60000, 200000);
    int al[3] = {(int)r.below(8), (int)r.below(8), (int)r.below(8)};
    if (r.chance(0.3)) al[0] = al[1] = al[2] = 0;
    int kern = r.below(21);
    static const char * names[] = {"zero", "min", "max", "sum", "dot", "shift", "scale", "negate", "add", "negate_and_add",
        "add_add", "add_subtract", "add_subtract_scalar", "multiply_add", "exp", "exp_io", "log", "log_io", "lgamma", "lgamma_io", "lgamma_nu"};
    std::string nm = names[kern];
    if ((nm == "min" || nm == "max") && n == 0) n = 1;
    std::string ctx = S() << "vector_" << nm << " size " << n << " alignments " << al[0] << "," << al[1] << "," << al[2];
    std::string K = "P15:" + nm;
    bool pos = kern >= 14;
    Buf a(r, n, al[0]), b(r, n, al[1]), c(r, n, al[2]);
    std::vector<float> A, B, Cc;
    bool huge = (nm == "min" || nm == "max") && r.chance(0.3);
    fill(r, a, huge ? HUGE_ : pos && kern != 14 && kern != 15 ? POS : ANY, A);
    fill(r, b, pos && kern != 14 && kern != 15 ? POS : ANY, B);
    fill(r, c, ANY, Cc);
    if (kern == 14 || kern == 15) for (size_t i = 0; i < n; ++i) {
        if (r.chance(0.1)) { a.p()[i] = r.unif(-87, 88); b.p()[i] = r.unif(-87, 88); }
        a.p()[i] = std::max(-87.f, std::min(88.f, a.p()[i])); b.p()[i] = std::max(-87.f, std::min(88.f, b.p()[i])); A[i] = a.p()[i]; B[i] = b.p()[i];
    }
    float s = r.chance(0.2) ? 0 : r.unif(-5, 5);
    std::vector<double> want(n), tol(n);
    double red = 0, want_red = 0, tol_red = 0;
    bool reduces = kern >= 1 && kern <= 4, a_is_out = !reduces, b_is_out = false;
    double sum = 0, asum = 0, dot = 0, adot = 0;
    for (size_t i = 0; i < n; ++i) { sum += A[i]; asum += std::abs((double)A[i]); dot += (double)A[i] * B[i]; adot += std::abs((double)A[i] * B[i]); }
    auto set = [&](size_t i, double w, double t) { want[i] = w; tol[i] = t; };
    for (size_t i = 0; i < n; ++i) {
        double x = A[i], y = B[i], z = Cc[i];
        switch (kern) {
            case 0: set(i, 0, 0); break;
            case 5: set(i, x + s, 2 * EPS * (std::abs(x) + std::abs(s))); break;
            case 6: set(i, x * s, 2 * EPS * std::abs(x * s)); break;
            case 7: set(i, -x, 0); break;
            case 8: set(i, x + y, 2 * EPS * (std::abs(x) + std::abs(y))); break;
            case 9: set(i, y - x, 2 * EPS * (std::abs(x) + std::abs(y))); break;
            case 10: set(i, x + y + z, 3 * EPS * (std::abs(x) + std::abs(y) + std::abs(z))); break;
            case 11: set(i, x + y - z, 3 * EPS * (std::abs(x) + std::abs(y) + std::abs(z))); break;
            case 12: set(i, x + s - z, 3 * EPS * (std::abs(x) + std::abs(s) + std::abs(z))); break;
            case 13: set(i, x + y * z, 3 * EPS * (std::abs(x) + std::abs(y * z))); break;
            case 14: set(i, dexp(y), 1e-5 * dexp(y)); break;
            case 15: set(i, dexp(x), 1e-5 * dexp(x)); break;
            case 16: set(i, dlog(y), 7e-5); break;
            case 17: set(i, dlog(x), 7e-5); break;
            case 18: set(i, lgam(y), tol_lgamma(y)); break;
            case 19: set(i, lgam(x), tol_lgamma(x)); break;
            case 20: set(i, student_const(y), tol_nu(y)); break;
        }
    }
    switch (kern) {
        case 0: d::vector_zero(n, a.p()); break;
        case 1: red = d::vector_min(n, a.p()); want_red = *std::min_element(A.begin(), A.end()); break;
        case 2: red = d::vector_max(n, a.p()); want_red = *std::max_element(A.begin(), A.end()); break;
        case 3: red = d::vector_sum(n, a.p()); want_red = sum; tol_red = EPS * (n + 2) * asum; break;
        case 4: red = d::vector_dot(n, a.p(), b.p()); want_red = dot; tol_red = EPS * (n + 2) * adot; break;
        case 5: d::vector_shift(n, a.p(), s); break;
        case 6: d::vector_scale(n, a.p(), s); break;
        case 7: d::vector_negate(n, a.p()); break;
        case 8: d::vector_add(n, a.p(), b.p()); break;
        case 9: d::vector_negate_and_add(n, a.p(), b.p()); break;
        case 10: d::vector_add_add(n, a.p(), b.p(), c.p()); break;
        case 11: d::vector_add_subtract(n, a.p(), b.p(), c.p()); break;
        case 12: d::vector_add_subtract(n, a.p(), s, c.p()); break;
        case 13: d::vector_multiply_add(n, a.p(), b.p(), c.p()); break;
        case 14: d::vector_exp(n, b.p(), a.p()); break;
        case 15: d::vector_exp(n, a.p()); break;
        case 16: d::vector_log(n, b.p(), a.p()); break;
        case 17: d::vector_log(n, a.p()); break;
        case 18: d::vector_lgamma(n, b.p(), a.p()); break;
        case 19: d::vector_lgamma(n, a.p()); break;
        case 20: if (r.chance(0.5)) d::vector_lgamma_nu(n, b.p(), a.p()); else { b_is_out = true; d::vector_lgamma_nu(n, b.p()); } break;
    }
    R().event(nm);
    R().seen(hash_str(S() << ctx << (n ? A[0] : 0) << (n ? B[0] : 0)));
    if (r.chance(0.01)) R().sample(ctx);
    if (!VH_TRUE(K + ":outside", a.intact() && b.intact() && c.intact(), ctx << " wrote outside its elements")) return;
    if (reduces) {
        VH_CLOSE(K, red, want_red, tol_red, ctx);
        VH_TRUE(K + ":input-changed", a.same(A) && b.same(B), ctx);
        return;
    }
    Buf & out = b_is_out ? b : a;
    for (size_t i = 0; i < n; ++i)
        if (!VH_CLOSE(K, out.p()[i], want[i], tol[i] + 1e-37, ctx << " element " << i << " of inputs " << A[i] << "," << B[i] << "," << Cc[i] << " scalar " << s)) return;
    if (a_is_out && !b_is_out) VH_TRUE(K + ":input-changed", b.same(B) && c.same(Cc), ctx);
}
static Register r_P15("P15", P15);

// ------------------------------------------------------------------ P18
static void P18(Rng & r) {
    typedef DPD::Shared Sh;
    Sh h;
    rng_t e(1 + r.below(2000000000));
    std::map<uint32_t, long> count;
    std::map<uint32_t, float> beta;
    S log;
    double clamp = 0, ops = 0;
    auto track = [&](uint32_t v) { beta[v] = h.betas.get(v); };
    if (r.chance(0.5)) {
        h = DPD::gen_shared(r);
        for (auto & b : DPD::betas(h)) { beta[b.first] = b.second; count[b.first] = h.counts.get_count(b.first); }
        if (r.chance(0.5)) h.gamma = r.logunif(0.05, 100);
    } else { h.gamma = r.logunif(0.05, 200); h.alpha = 1; h.beta0 = 1; }
    log << DPD::show_shared(h) << " : ";
    size_t nops = r.chance(0.1) ? 400 : r.range(2, 60);
    bool small_keys = r.chance(0.6);
    double padd = r.unif(0.3, 0.9);
    for (size_t i = 0; i <= nops; ++i) {
        std::string l = log, ctx = l.size() > 900 ? l.substr(0, 200) + "..." + l.substr(l.size() - 650) : l;
        // --- invariants
        double tot = 0;
        for (auto & b : h.betas) {
            if (!VH_TRUE("P18:weight-not-positive", b.second > 0 && b.second <= 1.0001f, ctx << " value " << b.first << " weight " << b.second)) return;
            if (!VH_TRUE("P18:unknown-value", beta.count(b.first), ctx << " value " << b.first << " is known")) return;
            if (!VH_TRUE("P18:weight-changed", beta[b.first] == b.second, ctx << " value " << b.first << " weight " << b.second << " was " << beta[b.first])) return;
            tot += b.second;
        }
        if (!VH_TRUE("P18:lost-value", h.betas.size() == beta.size(), ctx << " knows " << h.betas.size() << " expected " << beta.size())) return;
        long total = 0;
        for (auto & c : count) {
            total += c.second;
            if (!VH_TRUE("P18:count", h.counts.get_count(c.first) == c.second, ctx << " value " << c.first << " count " << h.counts.get_count(c.first) << " expected " << c.second)) return;
            if (!VH_TRUE("P18:known-iff-counted", h.betas.contains(c.first) == (c.second > 0), ctx << " value " << c.first)) return;
        }
        if (!VH_TRUE("P18:count-total", h.counts.get_total() == total, ctx << " total " << h.counts.get_total() << " expected " << total)) return;
        if (!VH_TRUE("P18:remainder-negative", h.beta0 >= 0, ctx << " remainder " << h.beta0)) return;
        if (!VH_CLOSE("P18:mass", tot + h.beta0, 1.0, 3e-6 + clamp + 2e-7 * ops + 1e-7 * beta.size(), ctx << " after " << ops << " operations")) return;
        R().event("states");
        R().seen(hash_str(l));
        if (i == nops) break;
        double u = r.unif();
        ++ops;
        auto some = [&] { auto it = beta.begin(); std::advance(it, r.below(beta.size())); return it->first; };
        if (u < 0.04) {   // refused
            uint32_t unknown = 1000000 + r.below(1000);
            bool ok = true;
            switch (r.below(2)) {
                case 0: ok = throws([&] { h.add_value(0xFFFFFFFFu, e); }); break;
                case 1: ok = throws([&] { h.remove_value(0xFFFFFFFFu, e); }); break;
            }
            (void)unknown;
            if (!VH_TRUE("P18:other-accepted", ok, ctx)) return;
            log << "refused ";
        } else if (u < 0.06 && tot <= 1 + 5e-5) {   // beyond that, the accumulated minimum weights are refused
            DPD::PbS m; h.protobuf_dump(m);
            Sh h2; h2.gamma = 99; h2.beta0 = 0.7; h2.betas.add(77777, 0.3);
            h2.protobuf_load(m);
            float b0 = h.beta0;
            h = h2;
            if (!VH_CLOSE("P18:remainder-after-load", h.beta0, (double)b0, 1e-5 + clamp + 2e-7 * ops + 1e-7 * beta.size(), ctx)) return;
            clamp += 1e-6 * (h.beta0 != b0);
            log << "reload ";
        } else if (u < 0.075) {
            size_t before = beta.size();
            if (small_keys && before < 300 && h.gamma < 60) {
                float b0 = h.beta0;
                Sh old = h;
                h.realize(e);
                log << "realize ";
                if (!VH_TRUE("P18:realize-remainder", h.beta0 == 0, std::string(log) << " remainder " << h.beta0)) return;
                double s = 0;
                for (auto & b : h.betas) {
                    s += b.second;
                    if (beta.count(b.first)) continue;
                    beta[b.first] = b.second;
                    count[b.first] = 1;
                    if (!VH_TRUE("P18:realize-positive", b.second > 0, std::string(log))) return;
                }
                clamp += 1e-6 * (beta.size() - before) + 1e-6;
                if (!VH_TRUE("P18:realize-adds", b0 == 0 || beta.size() > before, std::string(log))) return;
                R().event("realized");
                if (r.chance(0.7)) {   // continue from before: a realised state accepts no new values
                    bool bad = throws([&] { Sh x = h; x.add_value(4000000, e); });
                    if (!VH_TRUE("P18:add-without-remainder", bad, std::string(log))) return;
                    h = old; beta.clear(); count.clear();
                    for (auto & b : h.betas) { beta[b.first] = b.second; count[b.first] = h.counts.get_count(b.first); }
                    log << "undo ";
                }
            }
        } else if (beta.empty() || r.chance(padd)) {
            uint32_t v = !beta.empty() && r.chance(0.4) ? some() : small_keys ? r.below(40) : (uint32_t)(r.u64() % 0xFFFFFFFEu);
            bool isnew = !beta.count(v);
            if (isnew && !(h.beta0 > 0)) continue;
            float b0 = h.beta0;
            h.add_value(v, e);
            ++count[v];
            log << "+" << v << " ";
            if (isnew) {
                if (!VH_TRUE("P18:new-value-unknown", h.betas.contains(v), std::string(log))) return;
                track(v);
                double left = std::max(1e-6, (double)b0 - beta[v]);
                if (b0 - beta[v] < 1.01e-6) clamp += 1e-6;
                if (!VH_CLOSE("P18:remainder-after-add", h.beta0, left, 2e-7 + 2e-7 * b0, std::string(log))) return;
                R().event("new_values");
            } else if (!VH_TRUE("P18:remainder-moved", h.beta0 == b0, std::string(log))) return;
        } else {
            uint32_t v = some();
            float b0 = h.beta0, bv = beta[v];
            h.remove_value(v, e);
            log << "-" << v << " ";
            if (--count[v] == 0) {
                beta.erase(v);
                if (!VH_TRUE("P18:removed-still-known", !h.betas.contains(v), std::string(log))) return;
                if (!VH_CLOSE("P18:remainder-after-remove", h.beta0, std::min(1.0, (double)b0 + bv), 3e-7, std::string(log))) return;
                if ((double)b0 + bv > 1) clamp += (double)b0 + bv - 1;
                R().event("dropped_values");
            } else if (!VH_TRUE("P18:remainder-moved", h.beta0 == b0, std::string(log))) return;
        }
    }
    R().sample(std::string(log).substr(0, 400));
}
static Register r_P18("P18", P18);

// every new value takes a Beta(1, gamma) share of the remainder, wherever in the stick and however it is added
static void P18_law(Rng & r) {
    typedef DPD::Shared Sh;
    float gamma = r.chance(0.2) ? 1.0f : r.logunif(0.4, 60);
    int depth = r.range(1, 4), by = r.below(3);
    Sh start; start.gamma = gamma; start.alpha = 1; start.beta0 = 1;
    rng_t e(1 + r.below(2000000000));
    if (r.chance(0.5)) { start.betas.add(3, 0.125f); start.counts.add(3, 2); start.beta0 = 0.875f; }
    std::string ctx = S() << "gamma " << gamma << " remainder " << start.beta0 << " depth " << depth << (by == 0 ? " by realize" : by == 1 ? " by add" : " by add, remove, add");
    auto p = [&](int scale) {
        std::vector<double> us;
        for (int t = 0; t < 250 * scale; ++t) {
            Sh h = start;
            double left = h.beta0;
            if (by == 0) {
                h.realize(e);
                // realize numbers its values upward from the largest known one
                uint32_t v = start.betas.contains(3) ? 4 : 0;
                for (int k = 0; k < depth && left > 0.02 && h.betas.contains(v + 1); ++k, ++v) {
                    double b = h.betas.get(v);
                    us.push_back(1 - std::pow(std::max(0.0, 1 - b / left), (double)gamma));
                    left -= b;
                }
            } else for (int k = 0; k < depth && left > 0.02; ++k) {
                h.add_value(100 + k, e);
                if (by == 2) { h.remove_value(100 + k, e); left = h.beta0; h.add_value(100 + k, e); }
                double b = h.betas.get(100 + k);
                us.push_back(1 - std::pow(std::max(0.0, 1 - b / left), (double)gamma));
                left -= b;
            }
        }
        R().event("shares", us.size());
        return ks_p(us);
    };
    double worst;
    if (!vh::believable(p, &worst)) VH_TRUE("P18:law", false, ctx << " p-value " << worst);
    R().event("laws");
    R().seen(hash_str(ctx));
    R().sample(ctx);
}
static Register r_P18_law("P18-law", P18_law);

// ------------------------------------------------------------------ P23
template<class K, class V> static void counter_case(Rng & r, const std::string & nm) {
    typedef d::SparseCounter<K, V> Cnt;
    Cnt c;
    std::map<K, V> m;
    S log;
    const bool wide = r.chance(0.2), many = r.chance(0.01), huge = r.chance(0.1);
    auto key = [&]() -> K { return !m.empty() && r.chance(0.3) ? std::next(m.begin(), r.below(m.size()))->first : (K)(wide ? r.u64() : r.below(many ? 5000 : 12)); };
    const double top = sizeof(V) > 4 ? 1e13 : 1e6;
    auto val = [&]() -> V { return r.chance(0.1) ? 0 : huge ? (V)(r.logunif(1, top) * (r.chance(0.4) ? -1 : 1)) : r.range(-4, 6); };
    auto madd = [&](std::map<K, V> & mm, K k, V v) { mm[k] += v; if (!mm[k]) mm.erase(k); };
    size_t nops = many ? r.range(1, 25) : r.chance(0.1) ? 300 : r.range(1, 40);
    if (many) {
        R().event("many_keys");
        for (int j = r.range(100, 3000); j > 0; --j) {
            K k = wide ? (K)r.u64() : (K)j;
            V v = val();
            c.add(k, v);
            if (v) madd(m, k, v);
        }
        log << "many ";
    }
    for (size_t i = 0; i <= nops; ++i) {
        std::string l = log, ctx = nm + " " + (l.size() > 700 ? "..." + l.substr(l.size() - 700) : l);
        V tot = 0; size_t n = 0;
        for (auto & x : c) {
            ++n;
            if (!VH_TRUE("P23:counter-zero-entry", x.second != 0, ctx << " key " << x.first)) return;
            auto it = m.find(x.first);
            if (!VH_TRUE("P23:counter-entry", it != m.end() && it->second == x.second, ctx << " key " << x.first << " count " << x.second)) return;
        }
        for (auto & x : m) { tot += x.second; if (!VH_TRUE("P23:counter-get", c.get_count(x.first) == x.second, ctx << " key " << x.first)) return; }
        if (!VH_TRUE("P23:counter-size", n == m.size(), ctx << " has " << n << " entries, expected " << m.size())) return;
        if (!VH_TRUE("P23:counter-total", c.get_total() == tot, ctx << " total " << (double)c.get_total() << " expected " << (double)tot)) return;
        K k = key();
        auto f = m.find(k);
        if (!VH_TRUE("P23:counter-get-missing", c.get_count(k) == (f == m.end() ? V(0) : f->second), ctx)) return;
        R().event("counter_states");
        R().seen(hash_str(ctx));
        if (r.chance(0.001)) R().sample(ctx.substr(0, 400));
        if (i == nops) break;
        double u = r.unif();
        if (u < 0.35) {
            V v = val();
            V ret = v == 1 && r.chance(0.5) ? c.add(k) : c.add(k, v);
            if (v) madd(m, k, v);
            log << "add(" << k << "," << v << ") ";
            if (!VH_TRUE("P23:counter-add-return", ret == (m.count(k) ? m[k] : V(0)), std::string(log) << " returned " << ret)) return;
        } else if (u < 0.6) {
            V ret = c.remove(k);
            madd(m, k, -1);
            log << "remove(" << k << ") ";
            if (!VH_TRUE("P23:counter-remove-return", ret == (m.count(k) ? m[k] : V(0)), std::string(log) << " returned " << ret)) return;
        } else if (u < 0.7) {
            V v = val();
            log << "init_count(" << k << "," << v << ") ";
            if (m.count(k) && v) {
                if (!VH_TRUE("P23:counter-duplicate-init", throws([&] { c.init_count(k, v); }), std::string(log))) return;
            } else { c.init_count(k, v); if (v) m[k] = v; }
        } else if (u < 0.82) {
            Cnt o; std::map<K, V> om;
            size_t q = many ? r.below(3000) : r.below(8);
            log << "merge(";
            for (size_t j = 0; j < q; ++j) { K kk = key(); V v = val(); o.add(kk, v); if (v) madd(om, kk, v); }
            for (auto & x : om) log << x.first << ":" << x.second << " ";
            log << ") ";
            c.merge(o);
            for (auto & x : om) madd(m, x.first, x.second);
            V ot = 0; size_t on = 0;
            for (auto & x : o) { ++on; ot += x.second; if (!VH_TRUE("P23:counter-merge-source", om.count(x.first) && om[x.first] == x.second, std::string(log))) return; }
            if (!VH_TRUE("P23:counter-merge-source", on == om.size() && o.get_total() == ot, std::string(log))) return;
        } else if (u < 0.94) {
            K k2 = key();
            log << "rename(" << k << "," << k2 << ") ";
            if (m.count(k) && m.count(k2) && k != k2) {
                if (!VH_TRUE("P23:counter-rename-duplicate", throws([&] { c.rename(k, k2); }), std::string(log))) return;
                R().event("renames_refused");
            } else {
                c.rename(k, k2);
                if (m.count(k)) { V v = m[k]; m.erase(k); m[k2] = v; }
            }
        } else if (u < 0.97) { Cnt copy(c); c.add(k, 3); c = copy; log << "copy "; }
        else { c.clear(); m.clear(); log << "clear "; }
    }
}
static void sparse_case(Rng & r) {
    d::Sparse_<uint32_t, float> s;
    std::map<uint32_t, float> m;
    S log;
    const bool wide = r.chance(0.2);
    auto key = [&]() -> uint32_t { return !m.empty() && r.chance(0.4) ? std::next(m.begin(), r.below(m.size()))->first : wide ? (uint32_t)r.u64() >> r.below(20) : r.below(15); };
    size_t nops = r.range(1, 50);
    if (r.chance(0.01)) {
        R().event("many_keys");
        for (int j = r.range(100, 3000); j > 0; --j) {
            uint32_t k = wide ? (uint32_t)r.u64() : (uint32_t)j;
            if (m.count(k)) continue;
            s.add(k, j); m[k] = j;
        }
        log << "many ";
        nops = r.range(1, 25);
    }
    for (size_t i = 0; i <= nops; ++i) {
        std::string ctx = log;
        if (!VH_TRUE("P23:map-size", s.size() == m.size(), ctx << " size " << s.size())) return;
        size_t n = 0;
        for (auto & x : s) { ++n; if (!VH_TRUE("P23:map-entry", m.count(x.first) && m[x.first] == x.second, ctx << " key " << x.first)) return; }
        if (!VH_TRUE("P23:map-iteration", n == m.size(), ctx)) return;
        const auto & cs = s;
        for (auto & x : m) if (!VH_TRUE("P23:map-get", cs.contains(x.first) && cs.get(x.first) == x.second, ctx << " key " << x.first)) return;
        R().event("map_states");
        R().seen(hash_str("map" + ctx));
        if (r.chance(0.001)) R().sample("map " + ctx.substr(0, 400));
        if (i == nops) break;
        uint32_t k = key();
        float v = r.range(-5, 5);
        bool has = m.count(k), threw = false;
        int op = r.below(9);
        log << op << "(" << k << "," << v << ") ";
        switch (op) {
            case 0: threw = throws_if(has, [&] { s.add(k, v); }); if (!VH_TRUE("P23:map-duplicate-add", threw == has, std::string(log))) return; if (!has) m[k] = v; break;
            case 1: threw = throws_if(has, [&] { s.add(k) = v; }); if (!VH_TRUE("P23:map-duplicate-add", threw == has, std::string(log))) return; if (!has) m[k] = v; break;
            case 2: threw = throws_if(!has, [&] { s.remove(k); }); if (!VH_TRUE("P23:map-missing-remove", threw == !has, std::string(log))) return; m.erase(k); break;
            case 3: { float got = 0; threw = throws_if(!has, [&] { got = s.pop(k); }); if (!VH_TRUE("P23:map-missing-pop", threw == !has && (!has || got == m[k]), std::string(log))) return; m.erase(k); break; }
            case 4: threw = throws_if(!has, [&] { s.set(k, v); }); if (!VH_TRUE("P23:map-missing-set", threw == !has, std::string(log))) return; if (has) m[k] = v; break;
            case 5: threw = throws_if(!has, [&] { s.get(k) = v; }); if (!VH_TRUE("P23:map-missing-get", threw == !has, std::string(log))) return; if (has) m[k] = v; break;
            case 6: { const auto & c2 = s; threw = throws_if(!has, [&] { (void)c2.get(k); }); if (!VH_TRUE("P23:map-missing-get", threw == !has, std::string(log))) return; break; }
            case 7: { float & x = s.get_or_add(k); if (!VH_TRUE("P23:map-get-or-add", x == (has ? m[k] : 0.f), std::string(log))) return; x = v; m[k] = v; break; }
            case 8: if (r.chance(0.15)) { s.clear(); m.clear(); } else if (has) { for (auto it = s.begin(); it != s.end(); ++it) if (it->first == k) { s.unsafe_erase(it); break; } m.erase(k); } break;
        }
    }
}
template<class Vec, class Make> static void packed_case(Rng & r, const std::string & nm, Make make) {
    Vec v;
    std::vector<typename Vec::value_type> m;
    S log;
    size_t nops = r.chance(0.1) ? 200 : r.range(1, 50);
    for (size_t i = 0; i <= nops; ++i) {
        std::string l = log, ctx = nm + " " + (l.size() > 600 ? "..." + l.substr(l.size() - 600) : l);
        bool eq = v.size() == m.size();
        for (size_t j = 0; eq && j < m.size(); ++j) eq = v[j] == m[j];
        if (!VH_TRUE("P23:" + nm + ":contents", eq, ctx)) return;
        if (nm == "aligned" && !VH_TRUE("P23:aligned:alignment", v.empty() || ((size_t)v.data()) % 32 == 0, ctx)) return;
        R().event("packed_states");
        R().seen(hash_str(ctx));
        if (r.chance(0.001)) R().sample(ctx.substr(0, 400));
        if (i == nops) break;
        double u = r.unif();
        if (u < 0.4 || m.empty()) {
            auto x = make(r);
            if (r.chance(0.5)) v.packed_add(x); else v.packed_add() = x;
            m.push_back(x); log << "+ ";
        } else if (u < 0.7) {
            size_t p = r.chance(0.25) ? m.size() - 1 : r.below(m.size());
            v.packed_remove(p);
            m[p] = m.back(); m.pop_back();
            log << "-" << p << " ";
        } else if (u < 0.76) {
            if (!VH_TRUE("P23:" + nm + ":bad-position-accepted", throws([&] { v.packed_remove(m.size() + r.below(3)); }), ctx)) return;
            log << "refused ";
        } else if (u < 0.82) { Vec c(v); c.packed_add(make(r)); if (!c.empty()) c[0] = make(r); log << "copy "; Vec k; k = v; v = k; }
        else if (u < 0.88) { size_t n = r.chance(0.05) ? r.below(3000) : r.below(40); auto x = make(r); v.resize(n, x); m.resize(n, x); log << "resize" << n << " "; }
        else if (u < 0.92) { Vec o(3, make(r)); o = v; v.clear(); std::swap(o, v); log << "swap "; }
        else if (u < 0.95) { v.reserve(v.size() + r.below(100)); log << "reserve "; }
        else if (u < 0.97) { size_t n = r.below(20); auto x = make(r); Vec o(n, x); v = o; m.assign(n, x); log << "assign" << n << " "; }
        else { v.clear(); m.clear(); log << "clear "; }
    }
}
static void P23(Rng & r) {
    switch (r.below(6)) {
        case 0: counter_case<uint32_t, int>(r, "counter<u32,int>"); break;
        case 1: counter_case<uint64_t, long>(r, "counter<u64,long>"); break;
        case 2: sparse_case(r); break;
        case 3: packed_case<d::Packed_<std::string>>(r, "packed-string", [](Rng & q) { return std::string(q.below(30), 'a' + q.below(20)); }); break;
        case 4: packed_case<VectorFloat>(r, "aligned", [](Rng & q) { return (float)q.range(-100, 100); }); break;
        case 5: packed_case<d::Packed_<uint32_t>>(r, "packed", [](Rng & q) { return (uint32_t)q.below(1000); }); break;
    }
    // a view over an aligned vector refuses unaligned data and shows exactly its elements
    VectorFloat f(r.range(9, 40), 0.f);
    for (auto & x : f) x = r.unif();
    d::AlignedFloats view(f);
    bool same = view.size() == f.size() && view.data() == f.data();
    for (size_t i = 0; i < f.size(); ++i) same = same && view[i] == f[i];
    VH_TRUE("P23:aligned-view", same, "size " << f.size());
    VH_TRUE("P23:aligned-view-unaligned", throws([&] { d::AlignedFloats bad(f.data() + 1 + r.below(7), 2); }), "");
}
static Register r_P23("P23", P23);
