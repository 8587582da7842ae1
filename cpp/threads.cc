// P20 over one model (MODEL) or over everything else: concurrent use gives the results of a sequential run, and (built
// with -fsanitize=thread) no two accesses race.
#ifdef MODEL
#include "script.hpp"
#else
#include "base_script.hpp"
#endif
#include <atomic>
#include <math.h>
#include <sched.h>
#include <sys/wait.h>
#include <thread>
#include <unistd.h>
#include <distributions/special.hpp>

// Order in which threads reached their operations. Relaxed: it must not order the operations for the race detector.
struct Order {
    std::atomic<unsigned> next, ready, go;
    std::vector<std::vector<unsigned>> at;
    explicit Order(size_t n) : next(0), ready(0), go(0), at(n) {}
    void start(size_t n) {
        ready.fetch_add(1, std::memory_order_relaxed);
        while (ready.load(std::memory_order_relaxed) < n) sched_yield();
    }
    void reach(size_t t) { at[t].push_back(next.fetch_add(1, std::memory_order_relaxed)); }
    void done(const char * kind) {
        std::vector<unsigned char> who(next.load());
        for (size_t t = 0; t < at.size(); ++t) for (unsigned i : at[t]) who[i] = t;
        uint64_t h = at.size(), switches = 0;
        for (size_t i = 0; i < who.size(); ++i) { h = mix64(h * 31 + who[i]); if (i && who[i] != who[i - 1]) ++switches; }
        R().seen(h);
        R().event("concurrent_operations", who.size());
        R().event("thread_switches", switches);
        R().event(kind);
    }
};
static void dawdle(Rng & q) {
    double u = q.unif();
    if (u < 0.4) return;
    if (u < 0.7) { sched_yield(); return; }
    if (u < 0.98) { for (volatile int i = q.below(400); i > 0; --i) {} return; }
    usleep(q.below(60));
}
struct Errors {
    std::vector<std::string> e;
    explicit Errors(size_t n) : e(n) {}
    bool report(const std::string & key, const std::string & ctx) {
        for (auto & s : e) if (!s.empty()) return VH_TRUE(key, false, ctx << " a thread failed: " << s);
        return true;
    }
};

// every thread has its own objects and its own random stream
static void P20_distinct(Rng & r) {
    const size_t T_ = r.range(2, 6);
    const int n = r.range(5, 25);
    std::vector<uint64_t> seeds, dseeds;
    const bool twins = r.chance(0.3);   // the same work in every thread
    for (size_t t = 0; t < T_; ++t) { seeds.push_back(twins && t ? seeds[0] : r.u64()); dseeds.push_back(r.u64()); }
    std::vector<Log> got(T_), want(T_);
    auto sequential = [&] { for (size_t t = 0; t < T_; ++t) { World w(seeds[t]); for (int i = 0; i < n; ++i) w.step(); want[t] = w.log; } };
    const bool before = r.chance(0.5);  // otherwise the threads meet everything first
    if (before) sequential();
    Order order(T_);
    Errors err(T_);
    std::vector<std::thread> ts;
    for (size_t t = 0; t < T_; ++t) ts.emplace_back([&, t] {
        try {
            Rng q(dseeds[t]);
            order.start(T_);
            order.reach(t);
            World w(seeds[t]);
            for (int i = 0; i < n; ++i) { dawdle(q); order.reach(t); w.step(); }
            got[t] = w.log;
        } catch (std::exception & e) { err.e[t] = e.what(); }
    });
    for (auto & t : ts) t.join();
    if (!before) sequential();
    std::string ctx = S() << T_ << " threads, " << n << " steps, scripts " << seeds[0] << "...";
    if (!err.report("P20:" + N + ":distinct-failed", ctx)) return;
    for (size_t t = 0; t < T_; ++t)
        if (!same_log("P20:" + N + ":distinct", got[t], want[t], S() << ctx << " thread " << t)) return;
    order.done("distinct_runs");
    R().event("results_compared", want[0].d.size() * T_);
    R().sample(ctx);
}
static Register r_P20_distinct("P20-distinct", P20_distinct);

// threads read one shared object while others work on their own
static void P20_shared(Rng & r) {
    const size_t T_ = r.range(2, 6);
    const int n = r.range(5, 25);
    const uint64_t seed = r.u64();
    World shared(seed);
    for (int i = r.below(15); i > 0; --i) shared.step();
    const World & w = shared;
    const size_t busy = T_ > 2 && r.chance(0.5) ? 1 : 0;   // one thread changes other objects meanwhile
    std::vector<uint64_t> seeds;
    for (size_t t = 0; t < T_; ++t) seeds.push_back(r.u64());
    const bool data_scores = N != "dd";                    // its data scorer is documented as not thread safe
    auto work = [&](size_t t, Log & l, Order * o) {
        Rng q(seeds[t]), d(seeds[t] + 1);
        rng_t e(17 + t), e0 = e;
        if (t < busy) {
            World mine(seeds[t]);
            for (int i = 0; i < n; ++i) { if (o) { dawdle(d); o->reach(t); } mine.step(); }
            l = mine.log;
            return;
        }
        for (int i = 0; i < n; ++i) {
            if (o) { dawdle(d); o->reach(t); }
            w.read(q, e, l, data_scores);
        }
        l.u("stream untouched", e == e0);
    };
    std::vector<Log> got(T_), want(T_);
    const bool before = r.chance(0.5);
    if (before) for (size_t t = 0; t < T_; ++t) work(t, want[t], nullptr);
    Order order(T_);
    Errors err(T_);
    std::vector<std::thread> ts;
    for (size_t t = 0; t < T_; ++t) ts.emplace_back([&, t] {
        try { order.start(T_); work(t, got[t], &order); } catch (std::exception & e) { err.e[t] = e.what(); }
    });
    for (auto & t : ts) t.join();
    if (!before) for (size_t t = 0; t < T_; ++t) work(t, want[t], nullptr);
    std::string ctx = S() << T_ << " threads reading " << w.about() << " (script " << seed << ")";
    if (!err.report("P20:" + N + ":shared-failed", ctx)) return;
    for (size_t t = 0; t < T_; ++t)
        if (!same_log("P20:" + N + ":shared", got[t], want[t], S() << ctx << " thread " << t)) return;
    order.done("shared_runs");
    R().event("results_compared", want[0].d.size() * T_);
    R().sample(ctx);
}
static Register r_P20_shared("P20-shared", P20_shared);

#ifndef MODEL
// first-time requests for log Stirling rows, each case in a process whose memo is empty
static double exact_row(size_t n, size_t k) {
    static std::vector<std::vector<double>> s(1, std::vector<double>(1, 1.0));
    while (s.size() <= n) {
        size_t m = s.size();
        std::vector<double> row(m + 1, 0.0);
        for (size_t j = 1; j <= m; ++j) row[j] = s[m - 1][j - 1] + (j < m ? (double)(m - 1) * s[m - 1][j] : 0);
        s.push_back(row);
    }
    return dlog(s[n][k]);
}
static void P20_stirling(Rng & r) {
    const size_t T_ = r.range(2, 8);
    std::vector<std::vector<size_t>> ask(T_);
    const int style = r.below(4);
    for (size_t t = 0; t < T_; ++t)
        for (size_t i = r.range(1, 12); i > 0; --i)
            ask[t].push_back(style == 0 ? 31 : style == 1 ? r.range(1, 31) : style == 2 ? std::max<long>(1, 31 - (long)i) : r.range(1, 40));
    exact_row(40, 1);
    std::string ctx = S() << T_ << " threads, style " << style << ", first asks row " << ask[0][0];
    const uint64_t dseed = r.u64();
    int fd[2];
    if (pipe(fd)) throw std::runtime_error("pipe");
    pid_t p = fork();
    if (p == 0) {
        close(fd[0]);
        Order order(T_);
        std::vector<std::string> bad(T_);
        std::vector<std::thread> ts;
        for (size_t t = 0; t < T_; ++t) ts.emplace_back([&, t] {
            Rng q(dseed + t);
            order.start(T_);
            for (size_t n : ask[t]) {
                if (q.chance(0.7)) dawdle(q);
                order.reach(t);
                VectorFloat row(n + 9, 555.f);
                dn::get_log_stirling1_row(n, row);
                if (n < 32) for (size_t k = 1; k <= n; ++k)
                    if (!close(row[k], exact_row(n, k), 3e-5 * (1 + exact_row(n, k))) && bad[t].empty())
                        bad[t] = S() << "row " << n << "[" << k << "] = " << row[k] << " expected " << exact_row(n, k);
                for (size_t k = n + 1; k < row.size(); ++k) if (row[k] != 555.f && bad[t].empty()) bad[t] = S() << "row " << n << " wrote past its end";
            }
        });
        for (auto & t : ts) t.join();
        std::string out;
        for (auto & b : bad) if (!b.empty()) { out = "B" + b; break; }
        if (out.empty()) {
            std::vector<unsigned char> who(order.next.load());
            for (size_t t = 0; t < T_; ++t) for (unsigned i : order.at[t]) who[i] = t;
            out = "K" + std::string(who.begin(), who.end());
        }
        ssize_t m = ::write(fd[1], out.data(), out.size());
        _exit(m == (ssize_t)out.size() ? 0 : 3);
    }
    close(fd[1]);
    std::string got;
    char buf[4096];
    for (ssize_t m; (m = read(fd[0], buf, sizeof buf)) > 0;) got.append(buf, m);
    close(fd[0]);
    int st = 0;
    waitpid(p, &st, 0);
    if (!VH_TRUE("P20:stirling:process", st == 0 && !got.empty(), ctx << " ended with status " << st << " (see the sanitizer report of this job)")) return;
    if (!VH_TRUE("P20:stirling:rows", got[0] == 'K', ctx << " " << got)) return;
    R().seen(hash_str(got));
    R().event("stirling_processes");
    R().event("stirling_requests", got.size() - 1);
}
static Register r_P20_stirling("P20-stirling", P20_stirling);

// which operations write the C library's global `signgam` (no thread may do that unsynchronised)
static void P20_signgam(Rng & r) {
    rng_t e(1 + r.below(1000000));
    struct Op { const char * name; std::function<void()> f; };
    volatile float out;
    std::vector<Op> ops = {
        {"fast_lgamma", [&] { out = dn::fast_lgamma(r.unif(0.01, 2.4)); out = dn::fast_lgamma(5e9f); }},
        {"fast_lgamma-table", [&] { out = dn::fast_lgamma(r.unif(2.6, 1e4)); }},
        {"fast_lgamma_nu", [&] { out = dn::fast_lgamma_nu(r.unif(0.001, 0.015)); out = dn::fast_lgamma_nu(5e9f); }},
        {"fast_lgamma_nu-table", [&] { out = dn::fast_lgamma_nu(r.unif(0.05, 1e4)); }},
        {"log_beta", [&] { out = dn::fast_log_beta(r.unif(0.1, 2.0), 2.f); }},
        {"score_student_t", [&] { out = dn::score_student_t(1.f, 3.f, 0.f, 2.f); }},
        {"fast_score_student_t", [&] { out = dn::fast_score_student_t(1.f, 3.f, 0.f, 2.f); }},
        {"sample_poisson", [&] { for (int i = 0; i < 20; ++i) out = dn::sample_poisson(e, r.unif(13, 60)); }},
        {"sample_negative_binomial", [&] { for (int i = 0; i < 20; ++i) out = dn::sample_negative_binomial(e, 0.2f, 9); }},
        {"sample_gamma", [&] { out = dn::sample_gamma(e, 3.f, 1.f); }},
        {"sample_beta", [&] { out = dn::sample_beta(e, 3.f, 1.f); }},
        {"fast_log_exp", [&] { out = dn::fast_log(r.unif(0.1, 9)) + dn::fast_exp(1.f); }},
        {"get_log_stirling1_row", [&] { VectorFloat row(40); dn::get_log_stirling1_row(r.range(1, 31), row); }},
    };
    S who;
    for (auto & o : ops) {
        signgam = 77;
        o.f();
        if (signgam != 77) who << o.name << " ";
        R().event("signgam_probes");
    }
    VH_TRUE("P20:signgam", std::string(who).empty(), "the global signgam is written unsynchronised by " << std::string(who));
    R().seen(r.u64());
    (void)out;
}
static Register r_P20_signgam("P20-signgam", P20_signgam);
#endif
