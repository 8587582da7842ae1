// P19 over one model (MODEL) or over everything else: results are a function of inputs and seed only.
#ifdef MODEL
#include "script.hpp"
#else
#include "base_script.hpp"
#endif
#include <malloc.h>
#include <sys/wait.h>
#include <unistd.h>
#include <distributions/special.hpp>
#include <distributions/vector.hpp>

// work on unrelated objects and streams
static void noise(Rng & q, std::vector<World> & others) {
    double u = q.unif();
    if (u < 0.4 || others.empty()) {
        if (others.size() > 3) others.erase(others.begin());
        others.push_back(World(q.u64()));
    } else if (u < 0.8) {
        for (int i = 0; i < 3; ++i) q.pick(std::vector<World *>{&others.front(), &others.back()})->step();
    } else {
        distributions::VectorFloat row(128);
        distributions::get_log_stirling1_row(q.range(1, 60), row);
        volatile float x = distributions::fast_log(q.unif(0.1, 9)) + distributions::fast_lgamma(q.unif(0.1, 900))
            + distributions::fast_exp(q.unif(-5, 5));
        (void)x;
        std::vector<float> junk(q.below(4000), 1e30f);   // recycled memory does not start as zero
        distributions::VectorFloat junk2(1 + q.below(300), -7e20f);
    }
    R().event("noise");
}

static void P19(Rng & r) {
    const uint64_t seed = r.u64();
    const int n = r.range(10, 40);
    std::string ctx;
    World a(seed);
    for (int i = 0; i < n; ++i) a.step();
    ctx = S() << a.about() << " script " << seed << " steps " << n;
    R().seen(hash_str(ctx));
    R().sample(ctx);
    R().event("results", a.log.d.size());

    // 1: with unrelated work in between
    {
        Rng q(r.u64());
        std::vector<World> others;
        World b(seed);
        for (int i = 0; i < n; ++i) { if (q.chance(0.5)) noise(q, others); b.step(); }
        if (!same_log("P19:" + N + ":interleaved", b.log, a.log, ctx + " with unrelated work")) return;
        R().event("interleaved_runs");
    }
    // 2: with extra scoring and dumping of the same objects in between
    {
        Rng q(r.u64());
        World b(seed);
        for (int i = 0; i < n; ++i) {
            for (size_t k = q.below(3); k > 0; --k) {
                Log l1, l2;
                rng_t e0 = b.e;
                Rng q1 = q, q2 = q;
                std::string before = b.snapshot();
                b.read(q1, b.e, l1, true);
                if (!VH_TRUE("P19:" + N + ":scoring-advances-stream", b.e == e0, ctx)) return;
                b.read(q2, b.e, l2, true);
                q = q1;
                if (!same_log("P19:" + N + ":repeated-reads", l2, l1, ctx + " asked twice")) return;
                std::string after = b.snapshot();
                if (!VH_TRUE("P19:" + N + ":scoring-changes-state", before == after, ctx)) return;
                R().event("read_pairs");
            }
            b.step();
        }
        if (!same_log("P19:" + N + ":after-reads", b.log, a.log, ctx + " with extra scoring")) return;
        R().event("read_runs");
    }
    // 3: copies made on the way evolve as the original does, and independently of it
    {
        const int at = r.below(n);
        World b(seed);
        for (int i = 0; i < at; ++i) b.step();
        World c(b), d(b);
        d.r = Rng(r.u64());        // another continuation
        d.e.seed(12345);
        std::vector<World> heap;
        heap.push_back(World(7));
        heap.back() = c;           // assignment over used objects
        for (int i = at; i < n; ++i) { d.step(); b.step(); d.step(); c.step(); heap.back().step(); }
        if (!same_log("P19:" + N + ":original-after-copy", b.log, a.log, ctx + " copied at step " + std::to_string(at))) return;
        if (!same_log("P19:" + N + ":copy", c.log, a.log, ctx + " the copy made at step " + std::to_string(at))) return;
        if (!same_log("P19:" + N + ":assigned", heap.back().log, a.log, ctx + " the assigned copy made at step " + std::to_string(at))) return;
        R().event("copy_runs");
    }
    // 4: two objects which share nothing but the script, step by step
    {
        World b(seed), c(seed);
        for (int i = 0; i < n; ++i) { b.step(); c.step(); }
        if (!same_log("P19:" + N + ":twins", b.log, c.log, ctx + " twins")) return;
    }
}
static Register r_P19("P19", P19);

// fresh processes whose memory starts with other contents
static void P19_process(Rng & r) {
    const uint64_t seed = r.u64();
    const int n = r.range(10, 40);
    std::vector<uint64_t> first;
    for (int k = 0; k < 2; ++k) {
        int fd[2];
        if (pipe(fd)) throw std::runtime_error("pipe");
        pid_t p = fork();
        if (p == 0) {
            close(fd[0]);
            mallopt(M_PERTURB, k ? 0x41 : 0xff);
            int rc = 1;
            try {
                char stack[20000];
                memset(stack, k ? 0x3f : 0xc1, sizeof stack);
                asm volatile("" : : "r"(stack) : "memory");
                World w(seed);
                for (int i = 0; i < n; ++i) w.step();
                const char * d = (const char *)w.log.d.data();
                size_t left = w.log.d.size() * 8;
                while (left) { ssize_t m = ::write(fd[1], d, left); if (m <= 0) break; d += m; left -= m; }
                rc = left ? 2 : 0;
            } catch (std::exception &) {}
            _exit(rc);
        }
        close(fd[1]);
        std::string got;
        char buf[65536];
        for (ssize_t m; (m = read(fd[0], buf, sizeof buf)) > 0;) got.append(buf, m);
        close(fd[0]);
        int st = 0;
        waitpid(p, &st, 0);
        std::string ctx = S() << "script " << seed << " steps " << n;
        if (!VH_TRUE("P19:" + N + ":process", st == 0, ctx << " exit status " << st)) return;
        std::vector<uint64_t> v(got.size() / 8);
        memcpy(v.data(), got.data(), v.size() * 8);
        if (!k) first = v;
        else VH_TRUE("P19:" + N + ":initial-memory", v == first, ctx << " depends on the contents of fresh memory");
    }
    R().event("process_pairs");
    R().seen(mix64(seed));
}
static Register r_P19_process("P19-process", P19_process);
