From a11be99eabaf7a0dff00cf1c2cf657d1ada5ba70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:27 +0000
Subject: [PATCH 01/46] fix: DirichletDiscrete Group::merge updates count_sum

---
 include/distributions/models/dd.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/distributions/models/dd.hpp b/include/distributions/models/dd.hpp
index feb81e9..1c07791 100644
--- a/include/distributions/models/dd.hpp
+++ b/include/distributions/models/dd.hpp
@@ -152,6 +152,7 @@ struct Group : GroupMixin<Model> {
             const Shared &,
             const Group & source,
             rng_t &) {
+        count_sum += source.count_sum;
         for (Value value = 0; value < dim; ++value) {
             counts[value] += source.counts[value];
         }
-- 
2.43.0


From 75331adda4209f6c123afce1e4be7f4218a1cc7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:56 +0000
Subject: [PATCH 02/46] fix: SparseCounter::merge and the dbg DPD group counted
 the merged total twice

---
 distributions/dbg/models/dpd.py  | 1 -
 include/distributions/sparse.hpp | 1 -
 2 files changed, 2 deletions(-)

diff --git a/distributions/dbg/models/dpd.py b/distributions/dbg/models/dpd.py
index 7aec7cd..22ae180 100644
--- a/distributions/dbg/models/dpd.py
+++ b/distributions/dbg/models/dpd.py
@@ -229,7 +229,6 @@ class Group(GroupIoMixin):
     def merge(self, shared, source):
         for i, count in source.counts.iteritems():
             self.add_repeated_value(shared, i, count)
-        self.total += source.total
 
     def load(self, raw):
         self.counts = {}
diff --git a/include/distributions/sparse.hpp b/include/distributions/sparse.hpp
index 17723a8..7939b15 100644
--- a/include/distributions/sparse.hpp
+++ b/include/distributions/sparse.hpp
@@ -164,7 +164,6 @@ class SparseCounter {
         for (auto & i : other.map_) {
             add(i.first, i.second);
         }
-        total_ += other.total_;
     }
 
     void rename(key_t old_key, key_t new_key) {
-- 
2.43.0


From 5550958d5521849d825207efcc32c3f015117a83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:57 +0000
Subject: [PATCH 03/46] fix: NICH add_repeated_value is equivalent to repeated
 add_value

---
 distributions/dbg/models/nich.py      | 6 +++---
 distributions/hp/models/nich.pyx      | 6 +++---
 include/distributions/models/nich.hpp | 6 +++---
 3 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/distributions/dbg/models/nich.py b/distributions/dbg/models/nich.py
index 69c3d0c..290c688 100644
--- a/distributions/dbg/models/nich.py
+++ b/distributions/dbg/models/nich.py
@@ -139,9 +139,9 @@ class Group(GroupIoMixin):
 
     def add_repeated_value(self, shared, value, count):
         self.count += count
-        delta = count * value - self.mean
-        self.mean += delta / self.count
-        self.count_times_variance += delta * (value - self.mean)
+        delta = value - self.mean
+        self.mean += count * delta / float(self.count)
+        self.count_times_variance += count * delta * (value - self.mean)
 
     def remove_value(self, shared, value):
         total = self.mean * self.count
diff --git a/distributions/hp/models/nich.pyx b/distributions/hp/models/nich.pyx
index 622b296..2dbcd30 100644
--- a/distributions/hp/models/nich.pyx
+++ b/distributions/hp/models/nich.pyx
@@ -134,9 +134,9 @@ cdef class _Group:
 
     def add_repeated_value(self, _Shared shared, double value, int count):
         self.count += count
-        cdef double delta = count * value - self.mean
-        self.mean += delta / self.count
-        self.count_times_variance += delta * (value - self.mean)
+        cdef double delta = value - self.mean
+        self.mean += count * delta / self.count
+        self.count_times_variance += count * delta * (value - self.mean)
 
     def remove_value(self, _Shared shared, double value):
         cdef double total = self.mean * self.count
diff --git a/include/distributions/models/nich.hpp b/include/distributions/models/nich.hpp
index 1283ef3..7f2a03d 100644
--- a/include/distributions/models/nich.hpp
+++ b/include/distributions/models/nich.hpp
@@ -138,9 +138,9 @@ struct Group : GroupMixin<Model> {
             const int & count,
             rng_t &) {
         this->count += count;
-        float delta = count * value - mean;
-        mean += delta / this->count;
-        count_times_variance += delta * (value - mean);
+        float delta = value - mean;
+        mean += count * delta / this->count;
+        count_times_variance += count * delta * (value - mean);
     }
 
     void remove_value(
-- 
2.43.0


From b4438ffe5fd20f92b62e9920306738ae5004330a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:57 +0000
Subject: [PATCH 04/46] fix: NICH merge of two empty groups divided by zero

---
 distributions/dbg/models/nich.py      | 2 ++
 distributions/hp/models/nich.pyx      | 2 ++
 include/distributions/models/nich.hpp | 3 +++
 3 files changed, 7 insertions(+)

diff --git a/distributions/dbg/models/nich.py b/distributions/dbg/models/nich.py
index 290c688..31baab2 100644
--- a/distributions/dbg/models/nich.py
+++ b/distributions/dbg/models/nich.py
@@ -157,6 +157,8 @@ class Group(GroupIoMixin):
             self.count_times_variance -= delta * (value - self.mean)
 
     def merge(self, shared, source):
+        if source.count == 0:
+            return
         count = self.count + source.count
         delta = source.mean - self.mean
         source_part = float(source.count) / count
diff --git a/distributions/hp/models/nich.pyx b/distributions/hp/models/nich.pyx
index 2dbcd30..c013670 100644
--- a/distributions/hp/models/nich.pyx
+++ b/distributions/hp/models/nich.pyx
@@ -152,6 +152,8 @@ cdef class _Group:
             self.count_times_variance -= delta * (value - self.mean)
 
     def merge(self, _Shared shared, _Group source):
+        if source.count == 0:
+            return
         cdef size_t count = self.count + source.count
         cdef double delta = source.mean - self.mean
         cdef double source_part = <double> source.count / count
diff --git a/include/distributions/models/nich.hpp b/include/distributions/models/nich.hpp
index 7f2a03d..07cc801 100644
--- a/include/distributions/models/nich.hpp
+++ b/include/distributions/models/nich.hpp
@@ -168,6 +168,9 @@ struct Group : GroupMixin<Model> {
             const Shared &,
             const Group & source,
             rng_t &) {
+        if (source.count == 0) {
+            return;
+        }
         auto total_count = count + source.count;
         float delta = source.mean - mean;
         float source_part = static_cast<float>(source.count) / total_count;
-- 
2.43.0


From 4d410b0ba25a20b8d1a775bb78b3b497e5b3a0e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:17 +0000
Subject: [PATCH 05/46] fix: NICH add_repeated_value of zero values to an empty
 group divided by zero

---
 distributions/dbg/models/nich.py      | 2 ++
 distributions/hp/models/nich.pyx      | 2 ++
 include/distributions/models/nich.hpp | 3 +++
 3 files changed, 7 insertions(+)

diff --git a/distributions/dbg/models/nich.py b/distributions/dbg/models/nich.py
index 31baab2..c089043 100644
--- a/distributions/dbg/models/nich.py
+++ b/distributions/dbg/models/nich.py
@@ -138,6 +138,8 @@ class Group(GroupIoMixin):
         self.count_times_variance += delta * (value - self.mean)
 
     def add_repeated_value(self, shared, value, count):
+        if count == 0:
+            return
         self.count += count
         delta = value - self.mean
         self.mean += count * delta / float(self.count)
diff --git a/distributions/hp/models/nich.pyx b/distributions/hp/models/nich.pyx
index c013670..2c0b830 100644
--- a/distributions/hp/models/nich.pyx
+++ b/distributions/hp/models/nich.pyx
@@ -133,6 +133,8 @@ cdef class _Group:
         self.count_times_variance += delta * (value - self.mean)
 
     def add_repeated_value(self, _Shared shared, double value, int count):
+        if count == 0:
+            return
         self.count += count
         cdef double delta = value - self.mean
         self.mean += count * delta / self.count
diff --git a/include/distributions/models/nich.hpp b/include/distributions/models/nich.hpp
index 07cc801..5eb2f23 100644
--- a/include/distributions/models/nich.hpp
+++ b/include/distributions/models/nich.hpp
@@ -137,6 +137,9 @@ struct Group : GroupMixin<Model> {
             const Value & value,
             const int & count,
             rng_t &) {
+        if (count == 0) {
+            return;
+        }
         this->count += count;
         float delta = value - mean;
         mean += count * delta / this->count;
-- 
2.43.0


From 2bdfec0fb78022f1557cd0be7e5dbc265cc56b12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:42 +0000
Subject: [PATCH 06/46] fix: sample_normal_inverse_wishart scaled the returned
 covariance by 1/lambda

---
 include/distributions/random.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/distributions/random.hpp b/include/distributions/random.hpp
index c4b8e59..dbf4b66 100644
--- a/include/distributions/random.hpp
+++ b/include/distributions/random.hpp
@@ -253,8 +253,9 @@ inline std::pair<Vector, Matrix> sample_normal_inverse_wishart(
         const Matrix & psi,
         float nu,
         rng_t & rng) {
-    Matrix cov = 1./lambda * sample_inverse_wishart(nu, psi, rng);
-    Vector mu = sample_multivariate_normal(mu0, cov, rng);
+    Matrix cov = sample_inverse_wishart(nu, psi, rng);
+    const Matrix mu_cov = 1./lambda * cov;
+    Vector mu = sample_multivariate_normal(mu0, mu_cov, rng);
     return std::make_pair(std::move(mu), std::move(cov));
 }
 
-- 
2.43.0


From ebcdb97a1f6a066088223bdbbb3fbf2ec071c4d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:02 +0000
Subject: [PATCH 07/46] fix: dbg sample_normal used its variance argument as a
 standard deviation

---
 distributions/dbg/models/nich.py | 8 ++++----
 distributions/dbg/random.py      | 2 +-
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/distributions/dbg/models/nich.py b/distributions/dbg/models/nich.py
index c089043..1f3ff62 100644
--- a/distributions/dbg/models/nich.py
+++ b/distributions/dbg/models/nich.py
@@ -35,7 +35,7 @@ Murphy, K. "Conjugate Bayesian analysis of the Gaussian distribution" (2007)
 Equation numbers referenced below are from this paper.
 """
 
-from distributions.dbg.special import sqrt, log, pi, gammaln
+from distributions.dbg.special import log, pi, gammaln
 from distributions.dbg.random import sample_chi2, sample_normal
 from distributions.mixins import SharedMixin, GroupIoMixin, SharedIoMixin
 
@@ -230,11 +230,11 @@ class Sampler(object):
         post = shared if group is None else shared.plus_group(group)
         # Sample from the inverse-chi^2 using the transform from the chi^2
         sigmasq_star = post.nu * post.sigmasq / sample_chi2(post.nu)
-        self.sigma = sqrt(sigmasq_star)
-        self.mu = sample_normal(post.mu, sqrt(sigmasq_star / post.kappa))
+        self.sigmasq = sigmasq_star
+        self.mu = sample_normal(post.mu, sigmasq_star / post.kappa)
 
     def eval(self, shared):
-        return sample_normal(self.mu, self.sigma)
+        return sample_normal(self.mu, self.sigmasq)
 
 
 def sample_group(shared, size):
diff --git a/distributions/dbg/random.py b/distributions/dbg/random.py
index 99706e6..cb26f8f 100644
--- a/distributions/dbg/random.py
+++ b/distributions/dbg/random.py
@@ -96,7 +96,7 @@ def sample_discrete(probs, total=None):
 
 
 def sample_normal(mu, sigmasq):
-    return norm.rvs(mu, sigmasq)
+    return norm.rvs(mu, sqrt(sigmasq))
 
 
 def sample_chi2(nu):
-- 
2.43.0


From 4f848bd0bf84f0546d7a4afcb49ce7ebcd71f128 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:02 +0000
Subject: [PATCH 08/46] fix: dbg sample_student_t lacked the factor of dof

---
 distributions/dbg/random.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/distributions/dbg/random.py b/distributions/dbg/random.py
index cb26f8f..e531474 100644
--- a/distributions/dbg/random.py
+++ b/distributions/dbg/random.py
@@ -105,7 +105,7 @@ def sample_chi2(nu):
 
 def sample_student_t(dof, mu, Sigma):
     p = len(mu)
-    x = numpy.random.chisquare(dof, 1)
+    x = numpy.random.chisquare(dof, 1) / dof
     z = numpy.random.multivariate_normal(numpy.zeros(p), Sigma, (1,))
     return (mu + z / numpy.sqrt(x))[0]
 
-- 
2.43.0


From 4c49fff642cc08f6d8f02ec318c6651c6a2318b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:02 +0000
Subject: [PATCH 09/46] fix: dbg Wishart samplers used wrong degrees of freedom

---
 distributions/dbg/random.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/distributions/dbg/random.py b/distributions/dbg/random.py
index e531474..5094191 100644
--- a/distributions/dbg/random.py
+++ b/distributions/dbg/random.py
@@ -149,7 +149,7 @@ def sample_wishart(nu, Lambda):
     for i in xrange(d):
         if i != 0:
             z[i, :i] = numpy.random.normal(size=(i,))
-        z[i, i] = sqrt(numpy.random.gamma(0.5 * nu - d + 1, 2.0))
+        z[i, i] = sqrt(numpy.random.gamma(0.5 * (nu - i), 2.0))
     return dot(dot(dot(ch, z), z.T), ch.T)
 
 
@@ -165,7 +165,7 @@ def sample_wishart_v2(nu, Lambda):
     for i in xrange(d):
         if i != 0:
             T[i, :i] = numpy.random.normal(size=(i,))
-        T[i, i] = sqrt(chi2.rvs(nu - i + 1))
+        T[i, i] = sqrt(chi2.rvs(nu - i))
     return dot(dot(dot(ch, T), T.T), ch.T)
 
 
-- 
2.43.0


From eb2e9033bd2a2c7b922a5fbfeb056711c62c503c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:02 +0000
Subject: [PATCH 10/46] fix: discrete samplers could return an index of zero
 probability

---
 distributions/dbg/random.py      |  2 +-
 distributions/rng_cc.hpp         |  3 +++
 include/distributions/random.hpp | 10 ++++++++--
 3 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/distributions/dbg/random.py b/distributions/dbg/random.py
index 5094191..b44f336 100644
--- a/distributions/dbg/random.py
+++ b/distributions/dbg/random.py
@@ -82,7 +82,7 @@ def sample_discrete(probs, total=None):
         dart = numpy.random.rand() * total
         for i, prob in enumerate(probs):
             dart -= prob
-            if dart <= 0:
+            if dart < 0:
                 return i
     LOG.error(
         'imprecision in sample_discrete',
diff --git a/distributions/rng_cc.hpp b/distributions/rng_cc.hpp
index 73bc413..0b34843 100644
--- a/distributions/rng_cc.hpp
+++ b/distributions/rng_cc.hpp
@@ -93,6 +93,9 @@ inline int std_random_categorical(rng_t & rng, size_t D, const real_t * ps)
             return d;
         }
     }
+    while (D > 1 && !(ps[D - 1] > 0)) {
+        --D;  // rounding must not yield an impossible index
+    }
     return D - 1;
 }
 
diff --git a/include/distributions/random.hpp b/include/distributions/random.hpp
index dbf4b66..810e101 100644
--- a/include/distributions/random.hpp
+++ b/include/distributions/random.hpp
@@ -310,6 +310,9 @@ inline size_t sample_discrete(
             return i;
         }
     }
+    while (DIST_UNLIKELY(dim > 1 and not (probs[dim - 1] > 0))) {
+        --dim;  // rounding must not yield an impossible index
+    }
     return dim - 1;
 }
 
@@ -318,18 +321,21 @@ inline size_t sample_from_likelihoods(
         rng_t & rng,
         const std::vector<float, Alloc> & likelihoods,
         float total_likelihood) {
-    const size_t size = likelihoods.size();
+    size_t size = likelihoods.size();
     DIST_ASSERT_LT(0, size);
 
     float t = total_likelihood * sample_unif01(rng);
 
     for (size_t i = 0; DIST_LIKELY(i < size); ++i) {
         t -= likelihoods[i];
-        if (DIST_UNLIKELY(t <= 0)) {
+        if (DIST_UNLIKELY(t < 0)) {
             return i;
         }
     }
 
+    while (DIST_UNLIKELY(size > 1 and not (likelihoods[size - 1] > 0))) {
+        --size;  // rounding must not yield an impossible index
+    }
     return size - 1;
 }
 
-- 
2.43.0


From 9df24488bf1210881ab21644404549967c304ccf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:22 +0000
Subject: [PATCH 11/46] fix: Dirichlet samplers returned NaN when all gammas
 underflowed

---
 distributions/rng_cc.hpp | 22 +++++++++++++++++++++-
 src/random.cc            | 22 ++++++++++++++++++++--
 2 files changed, 41 insertions(+), 3 deletions(-)

diff --git a/distributions/rng_cc.hpp b/distributions/rng_cc.hpp
index 0b34843..b9e6f37 100644
--- a/distributions/rng_cc.hpp
+++ b/distributions/rng_cc.hpp
@@ -28,6 +28,7 @@
 #pragma once
 
 #include <cmath>
+#include <limits>
 #include <random>
 #include <distributions/random_fwd.hpp>
 
@@ -106,9 +107,28 @@ inline void std_random_dirichlet(
         const real_t * alphas,
         real_t * thetas)
 {
+    const double min_total = std::numeric_limits<double>::min();
     double total = 0.0;
+    double alpha_sum = 0.0;
+    size_t winner = D;
     for (size_t d = 0; d < D; ++d) {
-        total += thetas[d] = std_random_gamma(rng, alphas[d], 1.0);
+        const double alpha = alphas[d];  // alphas may alias thetas
+        total += thetas[d] = std_random_gamma(rng, alpha, 1.0);
+        if (total < min_total) {
+            alpha_sum += alpha;
+            typedef std::uniform_real_distribution<double> dist_t;
+            if (dist_t()(rng) * alpha_sum < alpha) {
+                winner = d;
+            }
+        }
+    }
+
+    if (total < min_total) {
+        // All gammas underflowed. In this limit one component has all the mass.
+        for (size_t d = 0; d < D; ++d) {
+            thetas[d] = (d == winner) ? 1.0 : 0.0;
+        }
+        return;
     }
 
     double scale = 1.0 / total;
diff --git a/src/random.cc b/src/random.cc
index 7360d45..6444205 100644
--- a/src/random.cc
+++ b/src/random.cc
@@ -25,6 +25,7 @@
 // TORT (INCLUDING NEGLIGENCE OR OTHERWISE) ARISING IN ANY WAY OUT OF THE
 // USE OF THIS SOFTWARE, EVEN IF ADVISED OF THE POSSIBILITY OF SUCH DAMAGE.
 
+#include <limits>
 #include <distributions/random.hpp>
 #include <distributions/aligned_allocator.hpp>
 
@@ -37,14 +38,31 @@ void sample_dirichlet(
         size_t dim,
         const float * alphas,
         float * probs) {
+    const float min_total = std::numeric_limits<float>::min();
     float total = 0.f;
+    float alpha_sum = 0.f;
+    size_t winner = dim;
     for (size_t i = 0; i < dim; ++i) {
-        if (alphas[i] > 0) {
-            total += probs[i] = sample_gamma(rng, alphas[i]);
+        const float alpha = alphas[i];  // alphas may alias probs
+        if (alpha > 0) {
+            total += probs[i] = sample_gamma(rng, alpha);
+            if (DIST_UNLIKELY(total < min_total)) {
+                alpha_sum += alpha;
+                if (sample_unif01(rng) * alpha_sum < alpha) {
+                    winner = i;
+                }
+            }
         } else {
             probs[i] = 0;
         }
     }
+    if (DIST_UNLIKELY(total < min_total)) {
+        // All gammas underflowed. In this limit one component has all the mass.
+        for (size_t i = 0; i < dim; ++i) {
+            probs[i] = (i == winner) ? 1.f : 0.f;
+        }
+        return;
+    }
     float scale = 1.f / total;
     for (size_t i = 0; i < dim; ++i) {
         probs[i] *= scale;
-- 
2.43.0


From 978953cc2bd01debba5de133bfeeb82d5599d296 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:05 +0000
Subject: [PATCH 12/46] fix: LowEntropy score_remove_value did not decrement
 the sample size

---
 distributions/dbg/clustering.py      | 3 +++
 include/distributions/clustering.hpp | 4 ++++
 2 files changed, 7 insertions(+)

diff --git a/distributions/dbg/clustering.py b/distributions/dbg/clustering.py
index c576a4e..1c3aa98 100644
--- a/distributions/dbg/clustering.py
+++ b/distributions/dbg/clustering.py
@@ -226,6 +226,9 @@ class LowEntropy(SharedIoMixin):
         assert sample_size > 0
 
         group_size -= 1
+        if group_size == 0:
+            nonempty_group_count -= 1
+        sample_size -= 1
         return -self.score_add_value(
             group_size,
             nonempty_group_count,
diff --git a/include/distributions/clustering.hpp b/include/distributions/clustering.hpp
index b13d554..62a2106 100644
--- a/include/distributions/clustering.hpp
+++ b/include/distributions/clustering.hpp
@@ -301,6 +301,10 @@ struct LowEntropy {
         }
 
         group_size -= 1;
+        if (group_size == 0) {
+            nonempty_group_count -= 1;
+        }
+        sample_size -= 1;
         return -score_add_value(
             group_size,
             nonempty_group_count,
-- 
2.43.0


From 858a763e670e75a36794542301bdb822108c5153 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:05 +0000
Subject: [PATCH 13/46] fix: LowEntropy score_counts depended on empty groups
 and failed without data

---
 distributions/dbg/clustering.py | 7 ++++++-
 src/clustering.cc               | 9 ++++++++-
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/distributions/dbg/clustering.py b/distributions/dbg/clustering.py
index 1c3aa98..971b780 100644
--- a/distributions/dbg/clustering.py
+++ b/distributions/dbg/clustering.py
@@ -154,15 +154,20 @@ class LowEntropy(SharedIoMixin):
         '''
         score = 0.0
         sample_size = 0
+        nonempty_group_count = 0
         for count in counts:
             sample_size += count
+            if count > 0:
+                nonempty_group_count += 1
             if count > 1:
                 score += count * log(count)
         assert sample_size <= self.dataset_size
 
+        if sample_size == 0:
+            return score
         if sample_size != self.dataset_size:
             log_factor = self._approximate_postpred_correction(sample_size)
-            score += log_factor * (len(counts) - 1)
+            score += log_factor * (nonempty_group_count - 1)
             score += self._approximate_dataprob_correction(sample_size)
         score -= self.log_partition_function(sample_size)
         return score
diff --git a/src/clustering.cc b/src/clustering.cc
index 8578081..b5433cf 100644
--- a/src/clustering.cc
+++ b/src/clustering.cc
@@ -230,17 +230,24 @@ float Clustering<count_t>::LowEntropy::score_counts(
         const std::vector<count_t> & counts) const {
     float score = 0.0;
     count_t sample_size = 0;
+    count_t nonempty_group_count = 0;
     for (count_t count : counts) {
         sample_size += count;
+        if (count > 0) {
+            nonempty_group_count += 1;
+        }
         if (count > 1) {
             score += count * fast_log(count);
         }
     }
     DIST_ASSERT_LE(sample_size, dataset_size);
 
+    if (sample_size == 0) {
+        return score;
+    }
     if (sample_size != dataset_size) {
         float log_factor = _approximate_postpred_correction(sample_size);
-        score += log_factor * (counts.size() - 1);
+        score += log_factor * (nonempty_group_count - 1);
         score += _approximate_dataprob_correction(sample_size);
     }
     score -= log_partition_function(sample_size);
-- 
2.43.0


From c99133b87a0baaaf188fa9debdbceae1cbab1ba5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:05 +0000
Subject: [PATCH 14/46] fix: lp LowEntropy protobuf_dump misspelt its field

---
 distributions/lp/clustering.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/distributions/lp/clustering.pyx b/distributions/lp/clustering.pyx
index b5b89b4..01e68ef 100644
--- a/distributions/lp/clustering.pyx
+++ b/distributions/lp/clustering.pyx
@@ -388,6 +388,6 @@ class LowEntropy(LowEntropy_cy, SharedIoMixin):
     def protobuf_dump(self, message):
         dumped = self.dump()
         message.Clear()
-        message.datset_size = dumped['dataset_size']
+        message.dataset_size = dumped['dataset_size']
 
     Mixture = LowEntropyMixture
-- 
2.43.0


From d069d77da5e5a6c55bb5e48dc722b5d73f54a4f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:25 +0000
Subject: [PATCH 15/46] fix: lp mixtures accepted negative group ids

---
 distributions/lp/models/_bb.pyx   | 2 +-
 distributions/lp/models/_bnb.pyx  | 2 +-
 distributions/lp/models/_dd.pyx   | 2 +-
 distributions/lp/models/_dpd.pyx  | 2 +-
 distributions/lp/models/_gp.pyx   | 2 +-
 distributions/lp/models/_nich.pyx | 2 +-
 6 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/distributions/lp/models/_bb.pyx b/distributions/lp/models/_bb.pyx
index 9b0e500..39160b7 100644
--- a/distributions/lp/models/_bb.pyx
+++ b/distributions/lp/models/_bb.pyx
@@ -93,7 +93,7 @@ cdef class Mixture:
         return self.ptr.groups.size()
 
     def __getitem__(self, int groupid):
-        assert groupid < len(self), "groupid out of bounds"
+        assert 0 <= groupid < len(self), "groupid out of bounds"
         cdef Group group = Group()
         group.ptr[0] = self.ptr.groups[groupid]
         return group
diff --git a/distributions/lp/models/_bnb.pyx b/distributions/lp/models/_bnb.pyx
index 9b0e500..39160b7 100644
--- a/distributions/lp/models/_bnb.pyx
+++ b/distributions/lp/models/_bnb.pyx
@@ -93,7 +93,7 @@ cdef class Mixture:
         return self.ptr.groups.size()
 
     def __getitem__(self, int groupid):
-        assert groupid < len(self), "groupid out of bounds"
+        assert 0 <= groupid < len(self), "groupid out of bounds"
         cdef Group group = Group()
         group.ptr[0] = self.ptr.groups[groupid]
         return group
diff --git a/distributions/lp/models/_dd.pyx b/distributions/lp/models/_dd.pyx
index 9b0e500..39160b7 100644
--- a/distributions/lp/models/_dd.pyx
+++ b/distributions/lp/models/_dd.pyx
@@ -93,7 +93,7 @@ cdef class Mixture:
         return self.ptr.groups.size()
 
     def __getitem__(self, int groupid):
-        assert groupid < len(self), "groupid out of bounds"
+        assert 0 <= groupid < len(self), "groupid out of bounds"
         cdef Group group = Group()
         group.ptr[0] = self.ptr.groups[groupid]
         return group
diff --git a/distributions/lp/models/_dpd.pyx b/distributions/lp/models/_dpd.pyx
index c5c7466..0e79b24 100644
--- a/distributions/lp/models/_dpd.pyx
+++ b/distributions/lp/models/_dpd.pyx
@@ -102,7 +102,7 @@ cdef class Mixture:
         return self.ptr.groups.size()
 
     def __getitem__(self, int groupid):
-        assert groupid < len(self), "groupid out of bounds"
+        assert 0 <= groupid < len(self), "groupid out of bounds"
         cdef Group group = Group()
         group.ptr[0] = self.ptr.groups[groupid]
         return group
diff --git a/distributions/lp/models/_gp.pyx b/distributions/lp/models/_gp.pyx
index 9b0e500..39160b7 100644
--- a/distributions/lp/models/_gp.pyx
+++ b/distributions/lp/models/_gp.pyx
@@ -93,7 +93,7 @@ cdef class Mixture:
         return self.ptr.groups.size()
 
     def __getitem__(self, int groupid):
-        assert groupid < len(self), "groupid out of bounds"
+        assert 0 <= groupid < len(self), "groupid out of bounds"
         cdef Group group = Group()
         group.ptr[0] = self.ptr.groups[groupid]
         return group
diff --git a/distributions/lp/models/_nich.pyx b/distributions/lp/models/_nich.pyx
index 9b0e500..39160b7 100644
--- a/distributions/lp/models/_nich.pyx
+++ b/distributions/lp/models/_nich.pyx
@@ -93,7 +93,7 @@ cdef class Mixture:
         return self.ptr.groups.size()
 
     def __getitem__(self, int groupid):
-        assert groupid < len(self), "groupid out of bounds"
+        assert 0 <= groupid < len(self), "groupid out of bounds"
         cdef Group group = Group()
         group.ptr[0] = self.ptr.groups[groupid]
         return group
-- 
2.43.0


From 53f35839a966d89480322718276ba53ed9c9eb15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:25 +0000
Subject: [PATCH 16/46] fix: lp DirichletDiscrete Group.load left the C++
 dimension unset

---
 distributions/lp/models/_dd_h.pxd | 1 +
 distributions/lp/models/dd.pyx    | 1 +
 2 files changed, 2 insertions(+)

diff --git a/distributions/lp/models/_dd_h.pxd b/distributions/lp/models/_dd_h.pxd
index 42af5c9..11ba50a 100644
--- a/distributions/lp/models/_dd_h.pxd
+++ b/distributions/lp/models/_dd_h.pxd
@@ -42,6 +42,7 @@ cdef extern from "distributions/models/dd.hpp" namespace "distributions::Dirichl
 
 
     cppclass Group:
+        int dim
         int count_sum
         int counts[]
         void init (Shared &, rng_t &) nogil except +
diff --git a/distributions/lp/models/dd.pyx b/distributions/lp/models/dd.pyx
index f0869eb..de195db 100644
--- a/distributions/lp/models/dd.pyx
+++ b/distributions/lp/models/dd.pyx
@@ -92,6 +92,7 @@ cdef class _Group(_dd.Group):
     def load(self, dict raw):
         counts = raw['counts']
         self.dim = len(counts)
+        self.ptr.dim = self.dim
         self.ptr.count_sum = 0
         cdef int i
         for i in xrange(self.dim):
-- 
2.43.0


From 5a4555ccc728d4b695fc1f787ae170415ab1737c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:34 +0000
Subject: [PATCH 17/46] fix: DirichletDiscrete accepted categories and
 dimensions out of range

---
 distributions/dbg/models/dd.py      |  4 ++++
 distributions/hp/models/dd.pyx      |  4 ++++
 distributions/lp/models/dd.pyx      |  3 +++
 include/distributions/models/dd.hpp | 28 +++++++++++++++++++++-------
 4 files changed, 32 insertions(+), 7 deletions(-)

diff --git a/distributions/dbg/models/dd.py b/distributions/dbg/models/dd.py
index 5820eda..b006246 100644
--- a/distributions/dbg/models/dd.py
+++ b/distributions/dbg/models/dd.py
@@ -80,12 +80,15 @@ class Group(GroupIoMixin):
         self.counts = numpy.zeros(shared.dim, dtype=numpy.int)
 
     def add_value(self, shared, value):
+        assert 0 <= value < len(self.counts), 'value out of bounds'
         self.counts[value] += 1
 
     def add_repeated_value(self, shared, value, count):
+        assert 0 <= value < len(self.counts), 'value out of bounds'
         self.counts[value] += count
 
     def remove_value(self, shared, value):
+        assert 0 <= value < len(self.counts), 'value out of bounds'
         self.counts[value] -= 1
 
     def merge(self, shared, source):
@@ -96,6 +99,7 @@ class Group(GroupIoMixin):
         \cite{wallach2009rethinking} Eqn 4.
         McCallum, et. al, 'Rething LDA: Why Priors Matter'
         """
+        assert 0 <= value < len(self.counts), 'value out of bounds'
         numer = self.counts[value] + shared.alphas[value]
         denom = self.counts.sum() + shared.alphas.sum()
         return log(numer / denom)
diff --git a/distributions/hp/models/dd.pyx b/distributions/hp/models/dd.pyx
index 9676dd6..ed0692f 100644
--- a/distributions/hp/models/dd.pyx
+++ b/distributions/hp/models/dd.pyx
@@ -92,12 +92,15 @@ cdef class _Group:
             self.counts[i] = 0
 
     def add_value(self, _Shared shared, int value):
+        assert 0 <= value < self.dim, 'value out of bounds'
         self.counts[value] += 1
 
     def add_repeated_value(self, _Shared shared, int value, int count):
+        assert 0 <= value < self.dim, 'value out of bounds'
         self.counts[value] += count 
 
     def remove_value(self, _Shared shared, int value):
+        assert 0 <= value < self.dim, 'value out of bounds'
         self.counts[value] -= 1
 
     def merge(self, _Shared shared, _Group source):
@@ -109,6 +112,7 @@ cdef class _Group:
         """
         McCallum, et. al, 'Rethinking LDA: Why Priors Matter' eqn 4
         """
+        assert 0 <= value < self.dim, 'value out of bounds'
         cdef double total = 0.0
         cdef int i
         for i in xrange(shared.dim):
diff --git a/distributions/lp/models/dd.pyx b/distributions/lp/models/dd.pyx
index de195db..7808f97 100644
--- a/distributions/lp/models/dd.pyx
+++ b/distributions/lp/models/dd.pyx
@@ -53,6 +53,7 @@ cdef class _Shared(_dd.Shared):
     def load(self, raw):
         alphas = raw['alphas']
         cdef int dim = len(alphas)
+        assert dim <= 256, 'too many dimensions'
         self.ptr.dim = dim
         cdef int i
         for i in xrange(dim):
@@ -67,6 +68,7 @@ cdef class _Shared(_dd.Shared):
 
     def protobuf_load(self, message):
         cdef int dim = len(message.alphas)
+        assert dim <= 256, 'too many dimensions'
         self.ptr.dim = dim
         cdef int i
         for i in xrange(self.ptr.dim):
@@ -91,6 +93,7 @@ cdef class _Group(_dd.Group):
 
     def load(self, dict raw):
         counts = raw['counts']
+        assert len(counts) <= 256, 'too many dimensions'
         self.dim = len(counts)
         self.ptr.dim = self.dim
         self.ptr.count_sum = 0
diff --git a/include/distributions/models/dd.hpp b/include/distributions/models/dd.hpp
index 1c07791..c6076ac 100644
--- a/include/distributions/models/dd.hpp
+++ b/include/distributions/models/dd.hpp
@@ -124,7 +124,9 @@ struct Group : GroupMixin<Model> {
             const Shared &,
             const Value & value,
             rng_t &) {
-        DIST_ASSERT1(value < dim, "value out of bounds: " << value);
+        DIST_ASSERT1(
+            0 <= value and value < dim,
+            "value out of bounds: " << value);
         count_sum += 1;
         counts[value] += 1;
     }
@@ -134,7 +136,9 @@ struct Group : GroupMixin<Model> {
             const Value & value,
             const int & count,
             rng_t &) {
-        DIST_ASSERT1(value < dim, "value out of bounds: " << value);
+        DIST_ASSERT1(
+            0 <= value and value < dim,
+            "value out of bounds: " << value);
         count_sum += count;
         counts[value] += count;
     }
@@ -143,7 +147,9 @@ struct Group : GroupMixin<Model> {
             const Shared &,
             const Value & value,
             rng_t &) {
-        DIST_ASSERT1(value < dim, "value out of bounds: " << value);
+        DIST_ASSERT1(
+            0 <= value and value < dim,
+            "value out of bounds: " << value);
         count_sum -= 1;
         counts[value] -= 1;
     }
@@ -240,7 +246,9 @@ struct Scorer {
             const Shared & shared,
             const Value & value,
             rng_t &) const {
-        DIST_ASSERT1(value < shared.dim, "value out of bounds: " << value);
+        DIST_ASSERT1(
+            0 <= value and value < shared.dim,
+            "value out of bounds: " << value);
         return fast_log(alphas[value] / alpha_sum);
     }
 };
@@ -427,7 +435,9 @@ struct MixtureValueScorer : MixtureSlaveValueScorerMixin<Model> {
             size_t groupid,
             const Value & value,
             rng_t &) const {
-        DIST_ASSERT1(value < shared.dim, "value out of bounds: " << value);
+        DIST_ASSERT1(
+            0 <= value and value < shared.dim,
+            "value out of bounds: " << value);
         return scores_[value][groupid] - scores_shift_[groupid];
     }
 
@@ -437,7 +447,9 @@ struct MixtureValueScorer : MixtureSlaveValueScorerMixin<Model> {
             const Value & value,
             AlignedFloats scores_accum,
             rng_t &) const {
-        DIST_ASSERT1(value < shared.dim, "value out of bounds: " << value);
+        DIST_ASSERT1(
+            0 <= value and value < shared.dim,
+            "value out of bounds: " << value);
         vector_add_subtract(
             scores_accum.size(),
             scores_accum.data(),
@@ -461,7 +473,9 @@ struct MixtureValueScorer : MixtureSlaveValueScorerMixin<Model> {
             size_t groupid,
             const Group & group,
             const Value & value) {
-        DIST_ASSERT1(value < shared.dim, "value out of bounds: " << value);
+        DIST_ASSERT1(
+            0 <= value and value < shared.dim,
+            "value out of bounds: " << value);
         scores_[value][groupid] =
             fast_log(shared.alphas[value] + group.counts[value]);
         scores_shift_[groupid] = fast_log(alpha_sum_ + group.count_sum);
-- 
2.43.0


From 3bc3653eecaec896bd25710e4ba27813da871206 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:02 +0000
Subject: [PATCH 18/46] fix: lp DPD remainder weight could be negative after
 rounding

---
 distributions/lp/models/dpd.pyx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/distributions/lp/models/dpd.pyx b/distributions/lp/models/dpd.pyx
index ef144cb..e794679 100644
--- a/distributions/lp/models/dpd.pyx
+++ b/distributions/lp/models/dpd.pyx
@@ -79,7 +79,7 @@ cdef class _Shared(_dpd.Shared):
         for value, beta in raw_betas.iteritems():
             self.ptr.betas.add(int(value), beta)
             beta0 -= beta
-        self.ptr.beta0 = beta0
+        self.ptr.beta0 = max(0.0, beta0)
         cdef int count
         for value, count in raw_counts.iteritems():
             self.ptr.counts.add(int(value), count)
@@ -117,7 +117,7 @@ cdef class _Shared(_dpd.Shared):
             self.ptr.betas.add(value, beta)
             self.ptr.counts.add(value, message.counts[i])
             beta0 -= beta
-        self.ptr.beta0 = beta0
+        self.ptr.beta0 = max(0.0, beta0)
 
     def protobuf_dump(self, message):
         message.Clear()
-- 
2.43.0


From 2d035f98cb812b9c0671fdd89c4f0d3e6c35bbb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:02 +0000
Subject: [PATCH 19/46] fix: SparseCounter total was uninitialised before
 clear()

---
 include/distributions/sparse.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/distributions/sparse.hpp b/include/distributions/sparse.hpp
index 7939b15..d6746e5 100644
--- a/include/distributions/sparse.hpp
+++ b/include/distributions/sparse.hpp
@@ -120,6 +120,8 @@ class SparseCounter {
     typedef Value value_t;
     typedef typename map_t::const_iterator iterator;
 
+    SparseCounter() : total_(0) {}
+
     void clear() {
         map_.clear();
         total_ = 0;
-- 
2.43.0


From f04587f174e7647cf2af665f3df5040108d86d6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:02 +0000
Subject: [PATCH 20/46] fix: lp.random and lp.special errors terminated the
 interpreter

---
 distributions/lp/random.pyx  | 12 ++++++------
 distributions/lp/special.pyx |  2 +-
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/distributions/lp/random.pyx b/distributions/lp/random.pyx
index c0f1ae2..a37849c 100644
--- a/distributions/lp/random.pyx
+++ b/distributions/lp/random.pyx
@@ -41,27 +41,27 @@ ctypedef PyObject* O
 
 cdef extern from "distributions/random.hpp" namespace "distributions":
     cdef float log_sum_exp_cc "distributions::log_sum_exp" (
-            vector[float] & scores) nogil
+            vector[float] & scores) nogil except +
     cdef pair[size_t, float] sample_prob_from_scores_overwrite (
             rng_t & rng,
-            vector[float] & scores) nogil
+            vector[float] & scores) nogil except +
     cdef float score_from_scores_overwrite (
             rng_t & rng,
             size_t sample,
-            vector[float] & scores) nogil
+            vector[float] & scores) nogil except +
     cdef pair[O, O] sample_pair_from_urn_cc \
             "distributions::sample_pair_from_urn<PyObject *>" (
             rng_t & rng,
-            vector[O] & urn) nogil
+            vector[O] & urn) nogil except +
     cdef size_t sample_discrete_cc "distributions::sample_discrete" (
             rng_t & rng,
             size_t dim,
-            const float * probs) nogil
+            const float * probs) nogil except +
     cdef float score_student_t_cc "distributions::score_mv_student_t" (
             const VectorXf &,
             float,
             const VectorXf &,
-            const MatrixXf &) nogil
+            const MatrixXf &) nogil except +
 
 cdef class RNG:
     cdef rng_t * ptr
diff --git a/distributions/lp/special.pyx b/distributions/lp/special.pyx
index 71dea0b..346ce79 100644
--- a/distributions/lp/special.pyx
+++ b/distributions/lp/special.pyx
@@ -33,7 +33,7 @@ cdef extern from "distributions/special.hpp":
     cdef float _fast_lgamma "distributions::fast_lgamma" (float y)
     cdef float _fast_lgamma_nu "distributions::fast_lgamma_nu" (float nu)
     cdef vector[float] _log_stirling1_row \
-            "distributions::log_stirling1_row" (int n)
+            "distributions::log_stirling1_row" (int n) except +
 
 
 cpdef float fast_log(float x):
-- 
2.43.0


From b707add0c1e72213ac5c9ee23d0f0f4a04bd11c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:02 +0000
Subject: [PATCH 21/46] fix: sampling from empty scores read out of bounds

---
 src/random.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/random.cc b/src/random.cc
index 6444205..4ab74e1 100644
--- a/src/random.cc
+++ b/src/random.cc
@@ -112,6 +112,7 @@ float log_sum_exp(const std::vector<float, Alloc> & scores) {
 template<class Alloc>
 float scores_to_likelihoods(std::vector<float, Alloc> & scores) {
     const size_t size = scores.size();
+    DIST_ASSERT_LT(0, size);
     float * __restrict__ scores_data = scores.data();
     float max_score = vector_max(size, scores_data);
 
@@ -129,6 +130,7 @@ float score_from_scores_overwrite(
         size_t sample,
         std::vector<float, Alloc> & scores) {
     const size_t size = scores.size();
+    DIST_ASSERT_LT(sample, size);
     float * __restrict__ scores_data = scores.data();
     float max_score = vector_max(size, scores_data);
 
-- 
2.43.0


From 52ca77e4553bfadfc65de752c7b75d5e63242b44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:02 +0000
Subject: [PATCH 22/46] fix: lp sample_discrete misread non-contiguous arrays

---
 distributions/lp/random.pyx | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/distributions/lp/random.pyx b/distributions/lp/random.pyx
index a37849c..53f8d7b 100644
--- a/distributions/lp/random.pyx
+++ b/distributions/lp/random.pyx
@@ -28,6 +28,7 @@
 from libc.math cimport exp
 from libcpp.vector cimport vector
 from libcpp.utility cimport pair
+import numpy
 cimport numpy
 numpy.import_array()
 from cpython cimport PyObject
@@ -106,6 +107,7 @@ def sample_pair_from_urn(list urn):
 
 
 def sample_discrete(numpy.ndarray[numpy.float32_t, ndim=1] probs):
+    probs = numpy.ascontiguousarray(probs)
     cdef size_t size = probs.shape[0]
     cdef float * data = <float *> probs.data
     return sample_discrete_cc(get_rng()[0], size, data)
-- 
2.43.0


From 6b36b402fbbfa642e689e213d1fc908ce968735b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:00 +0000
Subject: [PATCH 23/46] fix: fast_exp wrapped around instead of saturating
 above 88

---
 include/distributions/vendor/fmath.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/distributions/vendor/fmath.hpp b/include/distributions/vendor/fmath.hpp
index b7bc029..99e3003 100644
--- a/include/distributions/vendor/fmath.hpp
+++ b/include/distributions/vendor/fmath.hpp
@@ -444,7 +444,8 @@ inline float exp(float x)
 #if 1
 	__m128 x1 = _mm_set_ss(x);
 
-	int limit = _mm_cvtss_si32(x1) & 0x7fffffff;
+	// compares bits of x, as exp_ps does; converting would miss large x
+	int limit = _mm_cvtsi128_si32(_mm_castps_si128(x1)) & 0x7fffffff;
 	if (limit > ExpVar<>::f88) {
 		x1 = _mm_min_ss(x1, _mm_load_ss(expVar.maxX));
 		x1 = _mm_max_ss(x1, _mm_load_ss(expVar.minX));
-- 
2.43.0


From 24aef3016ea769faacb8ea0607d5b65a7ed9ca1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:13 +0000
Subject: [PATCH 24/46] fix: a refused SparseCounter::rename lost the count it
 was to move

---
 include/distributions/sparse.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/distributions/sparse.hpp b/include/distributions/sparse.hpp
index d6746e5..eff9dcc 100644
--- a/include/distributions/sparse.hpp
+++ b/include/distributions/sparse.hpp
@@ -171,10 +171,12 @@ class SparseCounter {
     void rename(key_t old_key, key_t new_key) {
         auto i = map_.find(old_key);
         if (i != map_.end()) {
+            DIST_ASSERT1(
+                new_key == old_key or map_.find(new_key) == map_.end(),
+                "duplicate key: " << new_key);
             value_t value = i->second;
             map_.erase(i);
-            bool success = map_.insert(std::make_pair(new_key, value)).second;
-            DIST_ASSERT1(success, "duplicate key: " << new_key);
+            map_.insert(std::make_pair(new_key, value));
         }
     }
 
-- 
2.43.0


From 3f311f2fcf0a72aa23ccdfdfd7e6cf85989440da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:10 +0000
Subject: [PATCH 25/46] fix: sample_dirichlet_safe survives underflow of all
 gamma draws

---
 src/random.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/random.cc b/src/random.cc
index 4ab74e1..6b84e55 100644
--- a/src/random.cc
+++ b/src/random.cc
@@ -76,13 +76,13 @@ void sample_dirichlet_safe(
         float * probs,
         float min_value) {
     DIST_ASSERT(min_value >= 0, "bad bound: " << min_value);
-    float total = 0.f;
     for (size_t i = 0; i < dim; ++i) {
         float alpha = alphas[i] + min_value;
         DIST_ASSERT(alpha > 0, "bad alphas[" << i << "] = " << alpha);
-        total += probs[i] = sample_gamma(rng, alpha);
+        probs[i] = alpha;
     }
-    float scale = 1.f / total / (1.f + min_value * dim);
+    sample_dirichlet(rng, dim, probs, probs);
+    float scale = 1.f / (1.f + min_value * dim);
     float shift = min_value / (1.f + min_value * dim);
     for (size_t i = 0; i < dim; ++i) {
         probs[i] = probs[i] * scale + shift;
-- 
2.43.0


From 9e86719546f2d12ce64b629190e30f4a7ff59c00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:24 +0000
Subject: [PATCH 26/46] fix: NICH sampler draws stay finite when chi-squared
 underflows

---
 include/distributions/models/nich.hpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/include/distributions/models/nich.hpp b/include/distributions/models/nich.hpp
index 5eb2f23..76861c7 100644
--- a/include/distributions/models/nich.hpp
+++ b/include/distributions/models/nich.hpp
@@ -27,6 +27,7 @@
 
 #pragma once
 
+#include <algorithm>
 #include <vector>
 #include <distributions/common.hpp>
 #include <distributions/special.hpp>
@@ -225,8 +226,15 @@ struct Sampler {
             const Group & group,
             rng_t & rng) {
         Shared post = shared.plus_group(group);
-        sigmasq = post.nu * post.sigmasq / sample_chisq(rng, post.nu);
-        mu = sample_normal(rng, post.mu, sigmasq / post.kappa);
+        // chisq may underflow for small nu, but draws must remain finite
+        const float max_sigmasq = 1e36f;
+        sigmasq = std::min(
+            max_sigmasq,
+            post.nu * post.sigmasq / sample_chisq(rng, post.nu));
+        mu = sample_normal(
+            rng,
+            post.mu,
+            std::min(max_sigmasq, sigmasq / post.kappa));
     }
 
     Value eval(
-- 
2.43.0


From 513dc535bc87c18898b9fd00869fdff1d32b332d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:49 +0000
Subject: [PATCH 27/46] fix: dbg inverse Wishart sampling failed for real
 degrees of freedom

---
 distributions/vendor/stats.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/distributions/vendor/stats.py b/distributions/vendor/stats.py
index 7fbbac6..12d6758 100644
--- a/distributions/vendor/stats.py
+++ b/distributions/vendor/stats.py
@@ -165,10 +165,10 @@ def sample_invwishart(S,nu):
     chol = np.linalg.cholesky(S)
 
     if (nu <= 81+n) and (nu == np.round(nu)):
-        x = np.random.randn(nu,n)
+        x = np.random.randn(int(nu),n)
     else:
         x = np.diag(np.sqrt(np.atleast_1d(stats.chi2.rvs(nu-np.arange(n)))))
-        x[np.triu_indices_from(x,1)] = np.random.randn(n*(n-1)/2)
+        x[np.triu_indices_from(x,1)] = np.random.randn(n*(n-1)//2)
     R = np.linalg.qr(x,'r')
     T = scipy.linalg.solve_triangular(R.T,chol.T,lower=True).T
     return np.dot(T,T.T)
-- 
2.43.0


From c20ccb69381e7fbbc4a200daa5b4326f0820200e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:41 +0000
Subject: [PATCH 28/46] fix: lp score arrays that could not be written lost
 their scores silently

---
 distributions/lp/vector.pxd | 4 ++--
 distributions/lp/vector.pyx | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/distributions/lp/vector.pxd b/distributions/lp/vector.pxd
index d557083..3b544f3 100644
--- a/distributions/lp/vector.pxd
+++ b/distributions/lp/vector.pxd
@@ -99,9 +99,9 @@ cdef extern from "distributions/vector.hpp" namespace "distributions":
 
 cdef void vector_float_from_ndarray(
         VectorFloat & vector_float,
-        numpy.ndarray[numpy.float32_t, ndim=1] ndarray)
+        numpy.ndarray[numpy.float32_t, ndim=1, mode="c"] ndarray) except *
 
 
 cdef void vector_float_to_ndarray(
         VectorFloat & vector_float,
-        numpy.ndarray[numpy.float32_t, ndim=1] ndarray)
+        numpy.ndarray[numpy.float32_t, ndim=1] ndarray) except *
diff --git a/distributions/lp/vector.pyx b/distributions/lp/vector.pyx
index ac79c63..892603b 100644
--- a/distributions/lp/vector.pyx
+++ b/distributions/lp/vector.pyx
@@ -32,7 +32,7 @@ numpy.import_array()
 
 cdef void vector_float_from_ndarray(
         VectorFloat & vector_float,
-        numpy.ndarray[numpy.float32_t, ndim=1] ndarray):
+        numpy.ndarray[numpy.float32_t, ndim=1, mode="c"] ndarray) except *:
     cdef int size = ndarray.shape[0]
     vector_float.resize(size)
     memcpy(vector_float.data(), ndarray.data, size * sizeof(float))
@@ -40,7 +40,7 @@ cdef void vector_float_from_ndarray(
 
 cdef void vector_float_to_ndarray(
         VectorFloat & vector_float,
-        numpy.ndarray[numpy.float32_t, ndim=1] ndarray):
+        numpy.ndarray[numpy.float32_t, ndim=1] ndarray) except *:
     cdef int size = vector_float.size()
     cdef tuple shape = (size,)
     ndarray.resize(shape)
-- 
2.43.0


From 886aea52aae4f05e19f598c4ceadfb8e3da0585a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:22 +0000
Subject: [PATCH 29/46] fix: count_assignments wrote out of bounds for negative
 group ids

---
 src/clustering.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/clustering.cc b/src/clustering.cc
index b5433cf..4ca6f6c 100644
--- a/src/clustering.cc
+++ b/src/clustering.cc
@@ -45,6 +45,9 @@ std::vector<count_t> Clustering<count_t>::count_assignments(
     std::vector<count_t> counts;
     for (auto pair : assignments) {
         size_t gid = pair.second;
+        DIST_ASSERT1(
+            gid < assignments.size(),
+            "groups are not contiguous, bad groupid: " << pair.second);
         if (DIST_UNLIKELY(gid >= counts.size())) {
             counts.resize(gid + 1, 0);
         }
-- 
2.43.0


From e656a4246eec58204ce8491c532e007095de3310 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:44 +0000
Subject: [PATCH 30/46] fix: values and groups of the wrong dimension aborted
 NIW and Student-t scoring

---
 include/distributions/models/niw.hpp | 2 ++
 include/distributions/random.hpp     | 3 +++
 2 files changed, 5 insertions(+)

diff --git a/include/distributions/models/niw.hpp b/include/distributions/models/niw.hpp
index 425ff76..32ddc3c 100644
--- a/include/distributions/models/niw.hpp
+++ b/include/distributions/models/niw.hpp
@@ -82,6 +82,7 @@ struct Shared : SharedMixin<Model> {
     Shared plus_group(const Group & group) const {
         Shared post;
         DIST_ASSERT3(dim() > 0, "uninitialized");
+        DIST_ASSERT3(dim() == (size_t)group.sum_x.size(), "dim mismatch");
         const float n = group.count;
         Vector xbar;
         if (group.count) {
@@ -279,6 +280,7 @@ struct Group : GroupMixin<Model> {
             const Shared &,
             const Group & source,
             rng_t &) {
+        DIST_ASSERT3(sum_x.size() == source.sum_x.size(), "dim mismatch");
         count += source.count;
         sum_x += source.sum_x;
         sum_xxT += source.sum_xxT;
diff --git a/include/distributions/random.hpp b/include/distributions/random.hpp
index 810e101..67c8477 100644
--- a/include/distributions/random.hpp
+++ b/include/distributions/random.hpp
@@ -163,6 +163,9 @@ inline float score_mv_student_t(
         float nu,
         const Vector & mu,
         const Matrix & sigma) {
+  DIST_ASSERT_EQ(v.size(), mu.size());
+  DIST_ASSERT_EQ(v.size(), sigma.rows());
+  DIST_ASSERT_EQ(v.size(), sigma.cols());
   const unsigned d = v.size();
   const float term1 = fast_lgamma(nu / 2. + static_cast<float>(d) / 2.)
       - fast_lgamma(nu / 2.);
-- 
2.43.0


From 3943ecab5be1d993e8fc8651968fae0f681b4d33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:12 +0000
Subject: [PATCH 31/46] fix: scores_to_probs failed for integer scores

---
 distributions/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/distributions/util.py b/distributions/util.py
index 40af6a9..f8a841a 100644
--- a/distributions/util.py
+++ b/distributions/util.py
@@ -31,7 +31,7 @@ from collections import defaultdict
 
 
 def scores_to_probs(scores):
-    scores = numpy.array(scores)
+    scores = numpy.array(scores, dtype=float)
     scores -= scores.max()
     probs = numpy.exp(scores, out=scores)
     probs /= probs.sum()
-- 
2.43.0


From 205b0994b46c1f63e0ec7c7d8c45fc25c79494f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:12 +0000
Subject: [PATCH 32/46] fix: unif01_goodness_of_fit failed for a sample of
 exactly one

---
 distributions/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/distributions/util.py b/distributions/util.py
index f8a841a..2d89337 100644
--- a/distributions/util.py
+++ b/distributions/util.py
@@ -110,7 +110,7 @@ def unif01_goodness_of_fit(samples, plot=False):
     probs = numpy.ones(bin_count, dtype=numpy.float) / bin_count
     counts = numpy.zeros(bin_count, dtype=numpy.int)
     for sample in samples:
-        counts[int(bin_count * sample)] += 1
+        counts[min(int(bin_count * sample), bin_count - 1)] += 1
     return multinomial_goodness_of_fit(probs, counts, len(samples), plot=plot)
 
 
-- 
2.43.0


From 92dee36fac11d82cbaf125e35df231936f365ceb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:12 +0000
Subject: [PATCH 33/46] fix: discrete_goodness_of_fit broke probability ties by
 the observed counts

---
 distributions/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/distributions/util.py b/distributions/util.py
index 2d89337..8d767ba 100644
--- a/distributions/util.py
+++ b/distributions/util.py
@@ -150,7 +150,7 @@ def discrete_goodness_of_fit(
         assert sample in probs_dict
         counts[sample] += 1
     items = [(prob, counts.get(i, 0)) for i, prob in probs_dict.iteritems()]
-    items.sort(reverse=True)
+    items.sort(key=lambda item: -item[0])
     truncated = (truncate_beyond and truncate_beyond < len(items))
     if truncated:
         items = items[:truncate_beyond]
-- 
2.43.0


From 91e9c567956809769103f843ed4132afa42a0bf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:12 +0000
Subject: [PATCH 34/46] fix: goodness of fit of impossible samples was infinite

---
 distributions/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/distributions/util.py b/distributions/util.py
index 8d767ba..7776971 100644
--- a/distributions/util.py
+++ b/distributions/util.py
@@ -89,7 +89,7 @@ def multinomial_goodness_of_fit(
         else:
             print 'WARNING zero probability in goodness-of-fit test'
             if c > 0:
-                return float('inf')
+                return 0.0
 
     if not truncated:
         dof -= 1
-- 
2.43.0


From c8e48c1df199cf2bc9b17fac1139ee9a94b269bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:12 +0000
Subject: [PATCH 35/46] fix: goodness of fit was not Pearson's chi^2 and so
 badly calibrated

---
 distributions/util.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/distributions/util.py b/distributions/util.py
index 7776971..ab8dd45 100644
--- a/distributions/util.py
+++ b/distributions/util.py
@@ -84,14 +84,18 @@ def multinomial_goodness_of_fit(
             variance = total_count * p * (1 - p)
             assert variance > 1,\
                 'WARNING goodness of fit is inaccurate; use more samples'
-            chi_squared += (c - mean) ** 2 / variance
+            chi_squared += (c - mean) ** 2 / mean
             dof += 1
         else:
             print 'WARNING zero probability in goodness-of-fit test'
             if c > 0:
                 return 0.0
 
-    if not truncated:
+    # truncated outcomes are pooled into one more category
+    mean = total_count - total_count * sum(probs)
+    if truncated and mean > 1:
+        chi_squared += (total_count - sum(counts) - mean) ** 2 / mean
+    else:
         dof -= 1
 
     survival = scipy.stats.chi2.sf(chi_squared, dof)
-- 
2.43.0


From 6d2d5d37923d4c34a8ce06d954a63fd996c3a8bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:52 +0000
Subject: [PATCH 36/46] fix: DPD Shared::add_value counted the value it refused
 when no mass was left

---
 include/distributions/models/dpd.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/distributions/models/dpd.hpp b/include/distributions/models/dpd.hpp
index d52b9a0..ded691b 100644
--- a/include/distributions/models/dpd.hpp
+++ b/include/distributions/models/dpd.hpp
@@ -65,8 +65,10 @@ struct Shared : SharedMixin<Model> {
 
     void add_value(const Value & value, rng_t & rng) {
         DIST_ASSERT1(value != OTHER(), "cannot add OTHER");
+        DIST_ASSERT(
+            beta0 > 0 or betas.contains(value),
+            "cannot add any more values");
         if (DIST_UNLIKELY(counts.add(value) == 1)) {
-            DIST_ASSERT(beta0 > 0, "cannot add any more values");
             float beta = beta0 * sample_beta_safe(rng, 1.f, gamma, MIN_BETA());
             beta0 = std::max(MIN_BETA(), beta0 - beta);
             betas.add(value, beta);
-- 
2.43.0


From 8b4587e6a840139db93fd322de807d1c2516a7a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:52 +0000
Subject: [PATCH 37/46] fix: DPD Shared::remove_value accepted values never
 added

---
 include/distributions/models/dpd.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/distributions/models/dpd.hpp b/include/distributions/models/dpd.hpp
index ded691b..f69de4f 100644
--- a/include/distributions/models/dpd.hpp
+++ b/include/distributions/models/dpd.hpp
@@ -77,6 +77,9 @@ struct Shared : SharedMixin<Model> {
 
     void remove_value(const Value & value, rng_t &) {
         DIST_ASSERT1(value != OTHER(), "cannot remove OTHER");
+        DIST_ASSERT1(
+            counts.get_count(value) > 0,
+            "cannot remove unknown value: " << value);
         if (DIST_UNLIKELY(counts.remove(value) == 0)) {
             beta0 = std::min(1.f, beta0 + betas.pop(value));
         }
-- 
2.43.0


From d73ad75efcb2c60ff4e5c4c1b669bb3d6b244b4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:39 +0000
Subject: [PATCH 38/46] fix: are_close compared vectors of pairs exactly

---
 include/distributions/assert_close.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/distributions/assert_close.hpp b/include/distributions/assert_close.hpp
index 83cb994..0c368ba 100644
--- a/include/distributions/assert_close.hpp
+++ b/include/distributions/assert_close.hpp
@@ -54,6 +54,12 @@ inline bool are_close(const double & x, const double & y) {
     return fabs(x - y) <= (1 + fabs(x) + fabs(y)) * assert_close_tol;
 }
 
+// declared here so that vectors of pairs find it
+template<class T1, class T2>
+inline bool are_close(
+        const std::pair<T1, T2> & x,
+        const std::pair<T1, T2> & y);
+
 template<class T, class Alloc>
 inline bool are_close(
         const std::vector<T, Alloc> & x,
-- 
2.43.0


From eb765114372446979609c16aadeb746b8e1bcafb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:45 +0000
Subject: [PATCH 39/46] fix: lp NIW and Student-t crashed or guessed when given
 no array or one of the wrong rank

---
 distributions/_eigen.pxd | 4 ++--
 distributions/_eigen.pyx | 8 ++++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/distributions/_eigen.pxd b/distributions/_eigen.pxd
index b6bf807..53a3a23 100644
--- a/distributions/_eigen.pxd
+++ b/distributions/_eigen.pxd
@@ -29,7 +29,7 @@ from distributions._eigen_h cimport VectorXf, MatrixXf
 cimport numpy as np
 cimport distributions._eigen_h as _h
 
-cdef VectorXf to_eigen_vecf(np.ndarray x)
-cdef MatrixXf to_eigen_matf(np.ndarray x)
+cdef VectorXf to_eigen_vecf(np.ndarray x) except *
+cdef MatrixXf to_eigen_matf(np.ndarray x) except *
 cdef np.ndarray to_np_1darray(const VectorXf &)
 cdef np.ndarray to_np_2darray(const MatrixXf &x)
diff --git a/distributions/_eigen.pyx b/distributions/_eigen.pyx
index 3bdd80a..dfd555b 100644
--- a/distributions/_eigen.pyx
+++ b/distributions/_eigen.pyx
@@ -30,13 +30,17 @@ import numpy as np
 
 ### Helpers to convert Eigen <-> numpy
 
-cdef VectorXf to_eigen_vecf(np.ndarray x):
+cdef VectorXf to_eigen_vecf(np.ndarray x) except *:
+    if x is None or x.ndim != 1:
+        raise ValueError('expected a vector')
     cdef VectorXf v = VectorXf(x.shape[0])
     for i, e in enumerate(x):
         v[i] = float(e)
     return v
 
-cdef MatrixXf to_eigen_matf(np.ndarray x):
+cdef MatrixXf to_eigen_matf(np.ndarray x) except *:
+    if x is None or x.ndim != 2:
+        raise ValueError('expected a matrix')
     cdef MatrixXf m = MatrixXf(x.shape[0], x.shape[1])
     for i, a in enumerate(x):
         for j, b in enumerate(a):
-- 
2.43.0


From e9b60238ad19377717a2d6407c000f6b5bd2c64c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:46 +0000
Subject: [PATCH 40/46] fix: DPD messages with lists of different lengths were
 accepted by the lp shared and the dbg group

---
 distributions/dbg/models/dpd.py | 1 +
 distributions/lp/models/dpd.pyx | 2 ++
 2 files changed, 3 insertions(+)

diff --git a/distributions/dbg/models/dpd.py b/distributions/dbg/models/dpd.py
index 22ae180..3c016a8 100644
--- a/distributions/dbg/models/dpd.py
+++ b/distributions/dbg/models/dpd.py
@@ -247,6 +247,7 @@ class Group(GroupIoMixin):
         return {'counts': counts}
 
     def protobuf_load(self, message):
+        assert len(message.keys) == len(message.values), "invalid message"
         self.counts = {}
         self.total = 0
         for i, count in izip(message.keys, message.values):
diff --git a/distributions/lp/models/dpd.pyx b/distributions/lp/models/dpd.pyx
index e794679..be1fd11 100644
--- a/distributions/lp/models/dpd.pyx
+++ b/distributions/lp/models/dpd.pyx
@@ -103,6 +103,8 @@ cdef class _Shared(_dpd.Shared):
         }
 
     def protobuf_load(self, message):
+        assert len(message.betas) == len(message.values), "invalid message"
+        assert len(message.counts) == len(message.values), "invalid message"
         self.ptr.gamma = message.gamma
         self.ptr.alpha = message.alpha
         self.ptr.betas.clear()
-- 
2.43.0


From 1bc3910d329415e9b318c868387ed5ead28b3a73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:21 +0000
Subject: [PATCH 41/46] fix: NIW and Student-t scores were wrong when a
 determinant left the range of float

---
 include/distributions/models/niw.hpp | 6 ++++--
 include/distributions/random.hpp     | 5 +++--
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/include/distributions/models/niw.hpp b/include/distributions/models/niw.hpp
index 32ddc3c..b5734b7 100644
--- a/include/distributions/models/niw.hpp
+++ b/include/distributions/models/niw.hpp
@@ -301,10 +301,12 @@ struct Group : GroupMixin<Model> {
         Shared post = shared.plus_group(*this);
         const float log_pi = 1.1447298858494002;
         return lmultigamma(shared.dim(), post.nu * 0.5)
-            + shared.nu * 0.5 * fast_log(shared.psi.determinant())
+            + shared.nu * 0.5 * log(
+                shared.psi.template cast<double>().determinant())
             - static_cast<float>(count * shared.dim()) * 0.5 * log_pi
             - lmultigamma(shared.dim(), shared.nu * 0.5)
-            - post.nu * 0.5 * fast_log(post.psi.determinant())
+            - post.nu * 0.5 * log(
+                post.psi.template cast<double>().determinant())
             + static_cast<float>(shared.dim())
               * 0.5 * fast_log(shared.kappa / post.kappa);
     }
diff --git a/include/distributions/random.hpp b/include/distributions/random.hpp
index 67c8477..90dfa88 100644
--- a/include/distributions/random.hpp
+++ b/include/distributions/random.hpp
@@ -172,11 +172,12 @@ inline float score_mv_student_t(
 
   // XXX: use Cholesky decomposition to make this faster
   const Matrix sigma_inv = sigma.inverse();
-  const float sigma_det = sigma.determinant();
+  // in double, since the determinant easily leaves the range of float
+  const double sigma_det = sigma.template cast<double>().determinant();
 
   const float log_pi = 1.1447298858494002;
 
-  const float term2 = -0.5 * fast_log(sigma_det)
+  const float term2 = -0.5 * log(sigma_det)
       - static_cast<float>(d) / 2. * (fast_log(nu) + log_pi);
 
   const Vector diff = v - mu;
-- 
2.43.0


From f6e7203a984145e0edeb1c8719050fbaba5fa7d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:11 +0000
Subject: [PATCH 42/46] fix: empty_groupids of the lp clustering mixtures read
 freed memory when the mixture changed during iteration

---
 distributions/lp/clustering.pyx | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/distributions/lp/clustering.pyx b/distributions/lp/clustering.pyx
index 01e68ef..4a81801 100644
--- a/distributions/lp/clustering.pyx
+++ b/distributions/lp/clustering.pyx
@@ -229,12 +229,15 @@ cdef class PitmanYorMixture:
 
     property empty_groupids:
         def __get__(self):
+            # copied, since the mixture may change during iteration
             cdef PitmanYor_cc.Mixture * ptr = self.ptr
             cdef IdSet.iterator i = ptr.empty_groupids_begin()
             cdef IdSet.iterator end = ptr.empty_groupids_end()
+            cdef list groupids = []
             while i != end:
-                yield deref(i)
+                groupids.append(deref(i))
                 inc(i)
+            return iter(groupids)
 
     def init(self, PitmanYor_cy model, list counts):
         cdef vector[int] counts_cc = counts
@@ -352,12 +355,15 @@ cdef class LowEntropyMixture:
 
     property empty_groupids:
         def __get__(self):
+            # copied, since the mixture may change during iteration
             cdef LowEntropy_cc.Mixture * ptr = self.ptr
             cdef IdSet.iterator i = ptr.empty_groupids_begin()
             cdef IdSet.iterator end = ptr.empty_groupids_end()
+            cdef list groupids = []
             while i != end:
-                yield deref(i)
+                groupids.append(deref(i))
                 inc(i)
+            return iter(groupids)
 
     def init(self, LowEntropy_cy model, list counts):
         cdef vector[int] counts_cc = counts
-- 
2.43.0


From bf44e73012dc3fd28b8fa2f19e865f062382c879 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:07 +0000
Subject: [PATCH 43/46] fix: refused dimensions were kept by DirichletDiscrete,
 whose arrays are shorter

---
 distributions/hp/models/dd.pyx      | 4 ++--
 include/distributions/models/dd.hpp | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/distributions/hp/models/dd.pyx b/distributions/hp/models/dd.pyx
index ed0692f..25e95aa 100644
--- a/distributions/hp/models/dd.pyx
+++ b/distributions/hp/models/dd.pyx
@@ -64,8 +64,8 @@ cdef class _Shared:
 
     def load(self, raw):
         alphas = raw['alphas']
+        assert len(alphas) <= MAX_DIM
         self.dim = len(alphas)
-        assert self.dim <= MAX_DIM
         cdef int i
         for i in xrange(self.dim):
             self.alphas[i] = alphas[i]
@@ -145,8 +145,8 @@ cdef class _Group:
 
     def load(self, raw):
         counts = raw['counts']
+        assert len(counts) <= MAX_DIM
         self.dim = len(counts)
-        assert self.dim <= MAX_DIM
         cdef int i
         for i in xrange(self.dim):
             self.counts[i] = counts[i]
diff --git a/include/distributions/models/dd.hpp b/include/distributions/models/dd.hpp
index c6076ac..ffab23d 100644
--- a/include/distributions/models/dd.hpp
+++ b/include/distributions/models/dd.hpp
@@ -60,8 +60,8 @@ struct Shared : SharedMixin<Model> {
 
     template<class Message>
     void protobuf_load(const Message & message) {
+        DIST_ASSERT_LE(message.alphas_size(), max_dim);
         dim = message.alphas_size();
-        DIST_ASSERT_LE(dim, max_dim);
         for (int i = 0; i < dim; ++i) {
             alphas[i] = message.alphas(i);
         }
@@ -93,8 +93,8 @@ struct Group : GroupMixin<Model> {
 
     template<class Message>
     void protobuf_load(const Message & message) {
+        DIST_ASSERT_LE(message.counts_size(), max_dim);
         dim = message.counts_size();
-        DIST_ASSERT_LE(dim, max_dim);
         count_sum = 0;
         for (int i = 0; i < dim; ++i) {
             count_sum += counts[i] = message.counts(i);
-- 
2.43.0


From a686ee2fa5d6715598164351f935cd204d3787b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:50:29 +0000
Subject: [PATCH 44/46] fix: dbg Dirichlet sampler returned NaN when all gammas
 underflowed

---
 distributions/dbg/random.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/distributions/dbg/random.py b/distributions/dbg/random.py
index b44f336..a2439ec 100644
--- a/distributions/dbg/random.py
+++ b/distributions/dbg/random.py
@@ -28,7 +28,7 @@
 from math import log, pi, sqrt, factorial
 import numpy as np
 import numpy.random
-from numpy.random.mtrand import dirichlet as sample_dirichlet
+from numpy.random.mtrand import dirichlet
 from numpy import dot, inner
 from numpy.linalg import cholesky, det, inv
 from numpy.random import multivariate_normal
@@ -48,7 +48,7 @@ LOG = logging.getLogger(__name__)
 
 
 # pacify pyflakes
-assert sample_dirichlet and factorial and sample_poisson and sample_gamma
+assert factorial and sample_poisson and sample_gamma
 
 
 def seed(x):
@@ -201,6 +201,15 @@ def sample_partition_from_counts(items, counts):
     return partition
 
 
+def sample_dirichlet(alphas):
+    probs = dirichlet(alphas)
+    if numpy.isnan(probs).any():
+        # All gammas underflowed. In this limit one component has all the mass.
+        probs = numpy.zeros(len(alphas))
+        probs[sample_discrete(alphas)] = 1.
+    return probs
+
+
 def sample_stick(gamma, tol=1e-3):
     """
     Truncated sample from a dirichlet process using stick breaking
-- 
2.43.0


From 7f10254d91f655810bb87964845ed3993a18bcc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:30:45 +0000
Subject: [PATCH 45/46] fix: stream readers returned the part of an item that a
 file cut short still held

---
 distributions/io/stream.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/distributions/io/stream.py b/distributions/io/stream.py
index dbe20a0..94c1e9f 100644
--- a/distributions/io/stream.py
+++ b/distributions/io/stream.py
@@ -127,12 +127,15 @@ class json_stream_load(object):
         return self
 
     def next(self):
-        line = self.fd.readline().rstrip(',\n')
-        if line == ']':
+        line = self.fd.readline()
+        content = line.rstrip(',\n')
+        if content == ']':
             self.close()
             raise StopIteration
+        elif not line.endswith('\n'):
+            raise IOError('Unexpected end of json stream')
         else:
-            return simplejson.loads(line)
+            return simplejson.loads(content)
 
     def close(self):
         self.fd.close()
@@ -149,7 +152,10 @@ def protobuf_stream_read(fd):
     if len(size_str) < 4:
         raise StopIteration
     size = struct.unpack('<I', size_str)[0]
-    return fd.read(size)
+    item = fd.read(size)
+    if len(item) < size:
+        raise IOError('Unexpected end of protobuf stream')
+    return item
 
 
 def protobuf_stream_dump(stream, filename):
-- 
2.43.0


From acec0044894fee418b3515bd618055f7bd68c56d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:30:45 +0000
Subject: [PATCH 46/46] fix: are_close compared the counts of
 DirichletProcessDiscrete groups modulo 2^32

---
 include/distributions/io/protobuf.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/distributions/io/protobuf.hpp b/include/distributions/io/protobuf.hpp
index 2790241..843b16b 100644
--- a/include/distributions/io/protobuf.hpp
+++ b/include/distributions/io/protobuf.hpp
@@ -235,8 +235,8 @@ inline bool are_close(
         return false;
     }
     const size_t size = x.keys_size();
-    std::vector<std::pair<uint32_t, uint32_t>> sorted_x(size);
-    std::vector<std::pair<uint32_t, uint32_t>> sorted_y(size);
+    std::vector<std::pair<uint32_t, uint64_t>> sorted_x(size);
+    std::vector<std::pair<uint32_t, uint64_t>> sorted_y(size);
     for (size_t i = 0; i < size; ++i) {
         sorted_x[i].first = x.keys(i);
         sorted_x[i].second = x.values(i);
-- 
2.43.0

