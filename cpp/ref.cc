// Reference maths and the case driver. Compiled without -ffast-math.
#include "vh.hpp"
#include <algorithm>
#include <cmath>
#include <fcntl.h>
#include <sys/mman.h>
#include <unistd.h>

namespace vh {
bool is_finite(double x) { return std::isfinite(x); }
bool is_nan(double x) { return std::isnan(x); }
bool close(double a, double b, double tol) {
    if (std::isnan(a) || std::isnan(b) || std::isnan(tol)) return false;
    if (std::isinf(a) || std::isinf(b)) return a == b;
    return std::fabs(a - b) <= tol;
}
double lgam(double x) { int s; return lgamma_r(x, &s); }
double dlog(double x) { return std::log(x); }
double dexp(double x) { return std::exp(x); }
double neg_inf() { return -INFINITY; }
double student_const(double nu) {
    if (nu > 1e5) {
        double x = nu / 2;  // lgamma(x+.5)-lgamma(x) = .5 log x - 1/(8x) + 1/(192x^3)
        return 0.5 * std::log(x) - 1 / (8 * x) + 1 / (192 * x * x * x);
    }
    return lgam(nu / 2 + 0.5) - lgam(nu / 2);
}
double lmgamma(int d, double a) {
    double s = 0.25 * d * (d - 1) * std::log(M_PI);
    for (int j = 1; j <= d; ++j) s += lgam(a + 0.5 * (1 - j));
    return s;
}
static double gammq(double a, double x) {
    if (x < 0 || a <= 0) return 1;
    double gln = lgam(a);
    if (x < a + 1) {
        double ap = a, sum = 1 / a, del = sum;
        for (int n = 0; n < 100000; ++n) {
            ++ap; del *= x / ap; sum += del;
            if (std::fabs(del) < std::fabs(sum) * 1e-15) break;
        }
        return 1 - sum * std::exp(-x + a * std::log(x) - gln);
    }
    double b = x + 1 - a, c = 1e300, d = 1 / b, h = d;
    for (int i = 1; i < 100000; ++i) {
        double an = -i * (i - a);
        b += 2; d = an * d + b; if (std::fabs(d) < 1e-300) d = 1e-300;
        c = b + an / c; if (std::fabs(c) < 1e-300) c = 1e-300;
        d = 1 / d; double del = d * c; h *= del;
        if (std::fabs(del - 1) < 1e-15) break;
    }
    return std::exp(-x + a * std::log(x) - gln) * h;
}
double chisq_sf(double x, double k) { return x <= 0 ? 1 : gammq(k / 2, x / 2); }
double chisq_p(const std::vector<double> & obs, const std::vector<double> & probs, int * cells) {
    double n = 0, tp = 0;
    for (double o : obs) n += o;
    for (double p : probs) { tp += p; if (std::isnan(p)) return 0; }
    if (std::isnan(tp) || !(tp > 0)) return 0;
    double chi = 0, po = 0, pe = 0;
    int k = 0;
    for (size_t i = 0; i < obs.size(); ++i) {
        double e = n * probs[i] / tp;
        if (probs[i] <= 0) { if (obs[i] > 0) return 0; continue; }
        if (e < 10) { po += obs[i]; pe += e; continue; }
        chi += (obs[i] - e) * (obs[i] - e) / e;
        ++k;
    }
    if (pe > 5) { chi += (po - pe) * (po - pe) / pe; ++k; }
    else if (po > 60) return 0;
    if (cells) *cells = k;
    return k > 1 ? chisq_sf(chi, k - 1) : 1;
}
double ks_p(std::vector<double> u) {
    for (double x : u) if (std::isnan(x)) return 0;
    std::sort(u.begin(), u.end());
    double n = u.size(), d = 0;
    for (size_t i = 0; i < u.size(); ++i) d = std::max(d, std::max(u[i] - i / n, (i + 1) / n - u[i]));
    double l = (std::sqrt(n) + 0.12 + 0.11 / std::sqrt(n)) * d, s = 0;
    if (l < 0.3) return 1;
    for (int k = 1; k < 101; ++k) s += (k % 2 ? 2 : -2) * std::exp(-2.0 * k * k * l * l);
    return std::min(1.0, std::max(0.0, s));
}
double logdet_spd(const std::vector<double> & m, int d) {
    std::vector<long double> a(m.begin(), m.end());
    long double s = 0;
    for (int k = 0; k < d; ++k) {
        long double p = a[k * d + k];
        for (int j = 0; j < k; ++j) p -= a[k * d + j] * a[k * d + j];
        if (!(p > 0)) return NAN;
        p = std::sqrt(p);
        a[k * d + k] = p;
        s += std::log(p);
        for (int i = k + 1; i < d; ++i) {
            long double t = a[i * d + k];
            for (int j = 0; j < k; ++j) t -= a[i * d + j] * a[k * d + j];
            a[i * d + k] = t / p;
        }
    }
    return (double)(2 * s);
}

Reporter & Reporter::get() { static Reporter r; return r; }
void Reporter::progress(const std::string & s) {
    if (!prog) return;
    size_t n = s.size() < 500 ? s.size() : 500;
    memcpy(prog, s.data(), n);
    prog[n] = 0;
}
void Reporter::violation(const std::string & key, const std::string & detail) {
    failed_case = true;
    auto it = violations.find(key);
    if (it != violations.end()) { ++it->second.count; return; }
    if (violations.size() > 60) return;
    violations[key] = V{key, detail, cas, 1};
}
static std::string esc(const std::string & s) {
    std::string o = "\"";
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { o += '\\'; o += c; }
        else if (c == '\n') o += "\\n";
        else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; }
        else o += c;
    }
    return o + "\"";
}
void Reporter::write(bool done) {
    const char * p = getenv("VH_REPORT");
    FILE * f = p ? fopen(p, "w") : stdout;
    fprintf(f, "{\"done\": %s, \"evaluations\": %llu, \"distinct\": %zu, \"events\": {", done ? "true" : "false",
            (unsigned long long)evaluations, distinct.size());
    bool first = true;
    for (auto & e : events) {
        fprintf(f, "%s%s: %llu", first ? "" : ", ", esc(e.first).c_str(), (unsigned long long)e.second);
        first = false;
    }
    fprintf(f, "}, \"samples\": [");
    for (size_t i = 0; i < samples.size(); ++i) fprintf(f, "%s%s", i ? ", " : "", esc(samples[i]).c_str());
    fprintf(f, "], \"violations\": [");
    first = true;
    for (auto & v : violations) {
        fprintf(f, "%s{\"key\": %s, \"detail\": %s, \"case\": %s, \"count\": %d}", first ? "" : ",\n ",
                esc(v.first).c_str(), esc(v.second.detail).c_str(), esc(v.second.cas).c_str(), v.second.count);
        first = false;
    }
    fprintf(f, "]}\n");
    if (p) fclose(f);
}
std::vector<Mon> & monitors() { static std::vector<Mon> m; return m; }
}  // namespace vh

// usage: bin MON=CASES... [--only MON:INDEX]
int main(int argc, char ** argv) {
    using namespace vh;
    Reporter & rep = R();
    if (const char * p = getenv("VH_PROGRESS")) {
        int fd = open(p, O_RDWR | O_CREAT | O_TRUNC, 0644);
        if (fd >= 0 && ftruncate(fd, 512) == 0) {
            void * m = mmap(nullptr, 512, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
            if (m != MAP_FAILED) rep.prog = (char *)m;
        }
    }
    const char * s = getenv("VERIF_SEED");
    uint64_t seed = s ? strtoull(s, nullptr, 10) : 1;
    std::string only;
    for (int i = 1; i < argc; ++i) if (!strcmp(argv[i], "--only") && i + 1 < argc) only = argv[i + 1];
    for (int i = 1; i < argc; ++i) {
        std::string a = argv[i];
        size_t eq = a.find('=');
        if (a == "--only") { ++i; continue; }
        if (eq == std::string::npos) { fprintf(stderr, "bad arg %s\n", a.c_str()); return 3; }
        std::string name = a.substr(0, eq);
        long cases = atol(a.c_str() + eq + 1);
        bool found = false;
        for (auto & m : monitors()) {
            if (m.name != name) continue;
            found = true;
            rep.mon = name;
            for (long c = 0; c < cases; ++c) {
                std::string id = name + ":" + std::to_string(c);
                if (!only.empty() && only != id) continue;
                rep.cas = id;
                rep.failed_case = false;
                rep.progress(name + " case " + std::to_string(c) + " seed " + std::to_string(seed));
                Rng rng(mix64(seed * 1000003ull + hash_str(name)) ^ mix64(c));
                try {
                    m.fn(rng);
                } catch (std::exception & e) {
                    std::string w = e.what();
                    rep.violation("exception:" + name, w.substr(0, 600));
                }
                ++rep.evaluations;
            }
        }
        if (!found) { fprintf(stderr, "no monitor %s\n", name.c_str()); return 3; }
    }
    rep.write(true);
    return 0;
}
