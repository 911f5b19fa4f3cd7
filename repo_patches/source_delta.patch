From b1b3881d1a1273f0fbf8f4ea6f9a00bc4040e57e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:44 +0000
Subject: [PATCH 01/55] fix: NoisyRelation::update_value paired the base and
 noisy values the wrong way round

---
 cxx/noisy_relation.hh | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/cxx/noisy_relation.hh b/cxx/noisy_relation.hh
index 408a5eb..4888ea9 100644
--- a/cxx/noisy_relation.hh
+++ b/cxx/noisy_relation.hh
@@ -91,6 +91,9 @@ class NoisyRelation : public Relation<T> {
     const ValueType& base_val = get_base_value(items);
     emission_relation.incorporate_to_cluster(items,
                                              std::make_pair(base_val, value));
+    // The base value may have changed since `items` was incorporated. Record
+    // the pair that the cluster now holds, so that it can be unincorporated.
+    emission_relation.data.at(items) = std::make_pair(base_val, value);
   }
 
   void cleanup_base_to_noisy(const T_items& items) {
@@ -172,7 +175,7 @@ class NoisyRelation : public Relation<T> {
     assert(data.contains(items));
     data.at(items) = value;
     const ValueType& base_value = get_base_value(items);
-    emission_relation.update_value(items, std::make_pair(value, base_value));
+    emission_relation.update_value(items, std::make_pair(base_value, value));
   }
 
   const std::vector<Domain*>& get_domains() const { return domains; }
-- 
2.43.0


From d6658d4e01bbde6c661d9ebb6c89aa379d06b819 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:44 +0000
Subject: [PATCH 02/55] fix: removing a relation from an IRM left the entities
 only it observed in shared domains

---
 cxx/irm.cc | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/cxx/irm.cc b/cxx/irm.cc
index 56401d0..727071a 100644
--- a/cxx/irm.cc
+++ b/cxx/irm.cc
@@ -387,11 +387,18 @@ void IRM::remove_relation(const std::string& name) {
   }
   for (const auto& d : ds) {
     domain_to_relations.at(d).erase(name);
-    // TODO: Remove r from domains.at(d)->items
     if (domain_to_relations.at(d).empty()) {
       domain_to_relations.erase(d);
       delete domains.at(d);
       domains.erase(d);
+      continue;
+    }
+    // Remove the items that only `name` observed.
+    const std::unordered_set<T_item> items = domains.at(d)->items;
+    for (const T_item& item : items) {
+      if (!has_observation(d, item)) {
+        domains.at(d)->unincorporate(item);
+      }
     }
   }
   std::visit([](auto r) { delete r; }, relations.at(name));
-- 
2.43.0


From 3d3eeca8e680eec63e6d6e7a2a5648774777fb21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:44 +0000
Subject: [PATCH 03/55] fix: resampling a latent value scored every candidate
 with the old value, left out the base relation and corrupted the noise
 statistics

---
 cxx/transition_latent_value.hh | 76 +++++++++++++++++-----------------
 1 file changed, 39 insertions(+), 37 deletions(-)

diff --git a/cxx/transition_latent_value.hh b/cxx/transition_latent_value.hh
index 7e7338e..a0962d3 100644
--- a/cxx/transition_latent_value.hh
+++ b/cxx/transition_latent_value.hh
@@ -30,6 +30,16 @@ void transition_latent_value(
     std::mt19937* prng, T_items base_items, Relation<ValueType>* base_relation,
     std::unordered_map<std::string, NoisyRelation<ValueType>*>
         noisy_relations) {
+  // The observations of `base_items` that are held by the noisy relations. A
+  // latent value that nothing observes is left as it is.
+  bool is_observed = false;
+  for (auto [name, rel] : noisy_relations) {
+    is_observed = is_observed || rel->base_to_noisy_items.contains(base_items);
+  }
+  if (!is_observed) {
+    return;
+  }
+
   // We incorporate to/unincorporate from clusters themselves rather than
   // relations. Empty clusters are not deleted, because observations will be
   // re-incorporated to them.
@@ -72,21 +82,23 @@ void transition_latent_value(
                                noisy_relations);
 }
 
-// This function leaves base_relation and noisy_relations in an invalid state,
-// since values are unincorporated directly from their clusters.
+// This function leaves noisy_relations in an invalid state, since values are
+// unincorporated directly from their clusters.
 template <typename ValueType>
 T_noisy_observations<ValueType> unincorporate_and_store_values(
     T_items base_items, Relation<ValueType>* base_relation,
     std::unordered_map<std::string, NoisyRelation<ValueType>*>
         noisy_relations) {
-  base_relation->unincorporate_from_cluster(base_items);
-
   // Unincorporate all noisy observations from clusters and store the noisy
   // values.
   T_noisy_observations<ValueType> noisy_observations;
   for (auto [name, rel] : noisy_relations) {
     noisy_observations[name] = {};
-    for (const T_items& items : rel->base_to_noisy_items[base_items]) {
+    auto noisy_items = rel->base_to_noisy_items.find(base_items);
+    if (noisy_items == rel->base_to_noisy_items.end()) {
+      continue;
+    }
+    for (const T_items& items : noisy_items->second) {
       const ValueType& v = rel->get_value(items);
       rel->unincorporate_from_cluster(items);
       noisy_observations[name][items] = v;
@@ -95,10 +107,10 @@ T_noisy_observations<ValueType> unincorporate_and_store_values(
   return noisy_observations;
 }
 
-// This function assumes that the latent/noisy observations corresponding to
-// base_items have been removed from their clusters in
-// base_relation/noisy_relations (and returns base_relation/noisy_relations in
-// this state as well).
+// This function assumes that the noisy observations corresponding to base_items
+// have been removed from their clusters in noisy_relations (and returns
+// noisy_relations in this state as well). base_relation is left holding the last
+// of the latent values.
 template <typename ValueType>
 std::vector<double> latent_values_incremental_logp(
     T_items base_items, std::vector<ValueType> latent_values,
@@ -106,46 +118,38 @@ std::vector<double> latent_values_incremental_logp(
     Relation<ValueType>* base_relation,
     std::unordered_map<std::string, NoisyRelation<ValueType>*>
         noisy_relations) {
-  // Compute logp_score of the noisy relations without the observations of
-  // this attribute.
-  double baseline_logp_score = 0.;
-  for (auto [name, rel] : noisy_relations) {
-    baseline_logp_score += rel->logp_score();
-  }
-
   std::vector<double> logpx;
   for (const ValueType& v : latent_values) {
-    // Incorporate the latent/noisy values for this candidate.
-    base_relation->incorporate_to_cluster(base_items, v);
+    // Incorporate the latent/noisy values for this candidate. The base value
+    // must be updated first, since the noisy relations read it.
+    base_relation->update_value(base_items, v);
     for (auto& [name, rel] : noisy_relations) {
-      for (const T_items& items : rel->base_to_noisy_items.at(base_items)) {
-        rel->incorporate_to_cluster(items,
-                                    noisy_observations.at(name).at(items));
+      for (const auto& [items, noisy_value] : noisy_observations.at(name)) {
+        rel->incorporate_to_cluster(items, noisy_value);
       }
     }
 
-    // Compute the incremental logp_score of the noisy relations.
-    double candidate_logp_score = 0.;
+    // The score of the model, up to terms that don't depend on the candidate.
+    double candidate_logp_score = base_relation->logp_score();
     for (const auto& [name, rel] : noisy_relations) {
       candidate_logp_score += rel->logp_score();
     }
-    logpx.push_back(candidate_logp_score - baseline_logp_score);
+    logpx.push_back(candidate_logp_score);
 
-    // Unincorporate the latent/noisy values for this candidate.
+    // Unincorporate the noisy values for this candidate.
     for (auto& [name, rel] : noisy_relations) {
-      for (const T_items& items : rel->base_to_noisy_items.at(base_items)) {
+      for (const auto& [items, unused_value] : noisy_observations.at(name)) {
         rel->unincorporate_from_cluster(items);
       }
     }
-    base_relation->unincorporate_from_cluster(base_items);
   }
   return logpx;
 }
 
-// This function assumes observations corresponding to base_items have been
-// removed from their clusters in base_relation/noisy_relations. The function
-// incorporates new values to these clusters, restoring
-// base_relation/noisy_relations to a valid state.
+// This function assumes the noisy observations corresponding to base_items have
+// been removed from their clusters. The function updates the base relation and
+// incorporates the observations again, restoring base_relation/noisy_relations
+// to a valid state.
 template <typename ValueType>
 void choose_and_incorporate_value(
     std::mt19937* prng, T_items base_items,
@@ -157,14 +161,12 @@ void choose_and_incorporate_value(
   // Sample a new latent value.
   ValueType new_latent_value = latent_value_candidates[log_choice(logpx, prng)];
 
-  // Incorporate the new estimate of the latent value.
-  base_relation->incorporate_to_cluster(base_items, new_latent_value);
-  // Base relation needs to be updated manually since incorporate_to_cluster
-  // operates only on the underlying clusters.
+  // Incorporate the new estimate of the latent value, and then the noisy
+  // observations given the new value.
   base_relation->update_value(base_items, new_latent_value);
   for (auto& [name, rel] : noisy_relations) {
-    for (const T_items& items : rel->base_to_noisy_items.at(base_items)) {
-      rel->incorporate_to_cluster(items, noisy_observations.at(name).at(items));
+    for (const auto& [items, noisy_value] : noisy_observations.at(name)) {
+      rel->incorporate_to_cluster(items, noisy_value);
     }
   }
 }
-- 
2.43.0


From a428eff796676c1d118621ca5453c7ba21f259f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:12 +0000
Subject: [PATCH 04/55] fix: removing or moving a noisy relation left its old
 links from the base relation behind

---
 cxx/hirm.cc | 9 +++++++++
 cxx/irm.cc  | 9 +++++++++
 2 files changed, 18 insertions(+)

diff --git a/cxx/hirm.cc b/cxx/hirm.cc
index 71c1da7..e017aa3 100644
--- a/cxx/hirm.cc
+++ b/cxx/hirm.cc
@@ -272,6 +272,15 @@ void HIRM::add_relation(std::mt19937* prng, const std::string& name,
 // have the removed relation as a base. The NoisyRelations will be in an invalid
 // state after their base relation is removed.
 void HIRM::remove_relation(const std::string& name) {
+  if (const auto* trel = std::get_if<T_noisy_relation>(&schema.at(name))) {
+    auto noisy_rels = base_to_noisy_relations.find(trel->base_relation);
+    if (noisy_rels != base_to_noisy_relations.end()) {
+      std::erase(noisy_rels->second, name);
+      if (noisy_rels->second.empty()) {
+        base_to_noisy_relations.erase(noisy_rels);
+      }
+    }
+  }
   schema.erase(name);
   int rc = relation_to_code.at(name);
   int table = crp.assignments.at(rc);
diff --git a/cxx/irm.cc b/cxx/irm.cc
index 727071a..387049a 100644
--- a/cxx/irm.cc
+++ b/cxx/irm.cc
@@ -401,6 +401,15 @@ void IRM::remove_relation(const std::string& name) {
       }
     }
   }
+  if (const auto* trel = std::get_if<T_noisy_relation>(&schema.at(name))) {
+    auto noisy_rels = base_to_noisy_relations.find(trel->base_relation);
+    if (noisy_rels != base_to_noisy_relations.end()) {
+      std::erase(noisy_rels->second, name);
+      if (noisy_rels->second.empty()) {
+        base_to_noisy_relations.erase(noisy_rels);
+      }
+    }
+  }
   std::visit([](auto r) { delete r; }, relations.at(name));
   relations.erase(name);
   schema.erase(name);
-- 
2.43.0


From 24f66443733ee1e6a8a5453363caeeb8f0614d89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:12 +0000
Subject: [PATCH 05/55] fix: an IRM could not be built when a noisy relation's
 name sorts before its base's

---
 cxx/irm.cc | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/cxx/irm.cc b/cxx/irm.cc
index 387049a..2177d01 100644
--- a/cxx/irm.cc
+++ b/cxx/irm.cc
@@ -31,8 +31,25 @@ RelationVariant clean_relation_from_spec(const std::string& name,
 
 IRM::IRM(const T_schema& init_schema) {
   assert(schema.empty());
-  for (const auto& [name, relation] : init_schema) {
-    std::visit([&](auto trel) { this->add_relation(name, trel); }, relation);
+  // A base relation has to be added before the noisy relations that observe it,
+  // whatever the order of their names.
+  while (schema.size() < init_schema.size()) {
+    bool added_a_relation = false;
+    for (const auto& [name, relation] : init_schema) {
+      if (schema.contains(name)) {
+        continue;
+      }
+      const auto* noisy_rel = std::get_if<T_noisy_relation>(&relation);
+      if (noisy_rel && !schema.contains(noisy_rel->base_relation)) {
+        continue;
+      }
+      std::visit([&](auto trel) { this->add_relation(name, trel); }, relation);
+      added_a_relation = true;
+    }
+    if (!added_a_relation) {
+      printf("Detected loop in schema\n");
+      std::exit(1);
+    }
   }
   assert(schema.size() == relations.size());
 }
-- 
2.43.0


From 35432b6150d85d6f2be87ff462b1d589c24ba092 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:55 +0000
Subject: [PATCH 06/55] fix: Skellam scores threw or were undefined, and
 sampling never ended, for large or small rates

---
 cxx/distributions/skellam.cc | 54 ++++++++++++++++++++++++++++++++----
 1 file changed, 48 insertions(+), 6 deletions(-)

diff --git a/cxx/distributions/skellam.cc b/cxx/distributions/skellam.cc
index ee3f795..335e716 100644
--- a/cxx/distributions/skellam.cc
+++ b/cxx/distributions/skellam.cc
@@ -1,7 +1,9 @@
 #include "distributions/skellam.hh"
 
+#include <algorithm>
 #include <cassert>
 #include <cmath>
+#include <limits>
 #include "util_math.hh"
 
 double lognormal_logp(double x, double mean, double stddev) {
@@ -10,16 +12,56 @@ double lognormal_logp(double x, double mean, double stddev) {
       - std::log(x * stddev) - 0.5 * std::log(2.0 * std::numbers::pi);
 }
 
+// log(exp(-z) I_n(z)) for the modified Bessel function of the first kind I_n,
+// without overflow or underflow.  n must be non-negative and z positive.
+double log_scaled_bessel_i(double n, double z) {
+  double r = std::hypot(n, z);
+  if (r <= 100.0) {
+    // The power series, https://dlmf.nist.gov/10.25#E2.
+    double sum = 1.0;
+    double term = 1.0;
+    for (int k = 1; term > 1e-17 * sum; ++k) {
+      term *= (z / k) * (z / (n + k)) / 4.0;
+      sum += term;
+    }
+    return n * std::log(z / 2.0) - std::lgamma(n + 1.0) + std::log(sum) - z;
+  }
+  // The uniform asymptotic expansion, https://dlmf.nist.gov/10.41#E3, written
+  // in terms of r so that it is also valid at n == 0.
+  double t2 = (n / r) * (n / r);
+  double c = 1.0 + (3.0 - 5.0 * t2) / (24.0 * r)
+      + (81.0 - t2 * (462.0 - t2 * 385.0)) / (1152.0 * r * r)
+      + (30375.0 - t2 * (369603.0 - t2 * (765765.0 - t2 * 425425.0)))
+          / (414720.0 * r * r * r);
+  return n * (n / (r + z)) - n * std::log((n + r) / z)
+      - 0.5 * std::log(2.0 * std::numbers::pi * r) + std::log(c);
+}
+
 double Skellam::logp(const int&x) const {
-  return -mu1 - mu2 + (x / 2.0) * std::log(mu1 / mu2)
-      // TODO(thomaswc): Replace this with something more numerically stable.
-      + std::log(std::cyl_bessel_i(std::abs(x), 2.0 * std::sqrt(mu1 * mu2)));
+  double root1 = std::sqrt(mu1);
+  double root2 = std::sqrt(mu2);
+  return -(root1 - root2) * (root1 - root2) + (x / 2.0) * std::log(mu1 / mu2)
+      + log_scaled_bessel_i(std::abs((double)x), 2.0 * root1 * root2);
+}
+
+// Means above this are sampled by the normal approximation, since
+// poisson_distribution can't represent the results.
+#define MAX_POISSON_MEAN 1e9
+
+double sample_poisson(double mean, std::mt19937* prng) {
+  if (mean > MAX_POISSON_MEAN) {
+    std::normal_distribution<double> d(mean, std::sqrt(mean));
+    return std::round(d(*prng));
+  }
+  std::poisson_distribution<int> d(mean);
+  return d(*prng);
 }
 
 int Skellam::sample(std::mt19937* prng) {
-  std::poisson_distribution<int> d1(mu1);
-  std::poisson_distribution<int> d2(mu2);
-  return d1(*prng) - d2(*prng);
+  double x1 = sample_poisson(mu1, prng);
+  double x2 = sample_poisson(mu2, prng);
+  double limit = std::numeric_limits<int>::max();
+  return std::clamp(x1 - x2, -limit, limit);
 }
 
 void Skellam::transition_hyperparameters(std::mt19937* prng) {
-- 
2.43.0


From c40fabfdd92ac7a4951461d98e0718dc9e941930 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:31 +0000
Subject: [PATCH 07/55] fix: BetaBernoulli truncated fractional weights, so
 that they could not be undone

---
 cxx/distributions/beta_bernoulli.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cxx/distributions/beta_bernoulli.hh b/cxx/distributions/beta_bernoulli.hh
index 1dfe007..9e6c83e 100644
--- a/cxx/distributions/beta_bernoulli.hh
+++ b/cxx/distributions/beta_bernoulli.hh
@@ -11,7 +11,7 @@ class BetaBernoulli : public Distribution<bool> {
  public:
   double alpha = 1;  // hyperparameter
   double beta = 1;   // hyperparameter
-  int s = 0;         // sum of observed values
+  double s = 0;      // sum of the weights of the observed true values
 
   std::vector<double> alpha_grid;
   std::vector<double> beta_grid;
-- 
2.43.0


From b2ca30e2ae60ad5fb410912a684069cd3f796b05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:53 +0000
Subject: [PATCH 08/55] fix: Sometimes did not undo what it incorporated when
 dirty can equal clean

---
 cxx/emissions/sometimes.hh | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/cxx/emissions/sometimes.hh b/cxx/emissions/sometimes.hh
index 5e6603b..db2d4f4 100644
--- a/cxx/emissions/sometimes.hh
+++ b/cxx/emissions/sometimes.hh
@@ -1,6 +1,7 @@
 #pragma once
 
 #include <unordered_map>
+#include <vector>
 
 #include "distributions/beta_bernoulli.hh"
 #include "emissions/base.hh"
@@ -13,6 +14,10 @@ class Sometimes : public Emission<SampleType> {
   BetaBernoulli bb;
   Emission<SampleType>* be;  // We own be.
   bool dirty_can_equal_clean;
+  // For each value that was incorporated as both clean and dirty, the shares of
+  // its observations that were attributed to be.  They depend on the state at
+  // that time, so they are kept to undo exactly what incorporate did.
+  std::unordered_map<SampleType, std::vector<double>> shares_from_be;
 
   // By default, Sometimes only works with BaseEmissors that assign zero
   // probability to dirty == clean.  Pass _dirty_can_equal_clean=true to
@@ -38,7 +43,17 @@ class Sometimes : public Emission<SampleType> {
     }
 
     if (dirty_can_equal_clean) {
-      double p_came_from_be = exp(bb.logp(true) + be->logp(x));
+      std::vector<double>& shares = shares_from_be[x.first];
+      double p_came_from_be;
+      if (weight < 0.0 && !shares.empty()) {
+        p_came_from_be = shares.back();
+        shares.pop_back();
+      } else {
+        p_came_from_be = exp(bb.logp(true) + be->logp(x));
+        if (weight > 0.0) {
+          shares.push_back(p_came_from_be);
+        }
+      }
       bb.incorporate(true, p_came_from_be * weight);
       be->incorporate(x, p_came_from_be * weight);
       bb.incorporate(false, (1.0 - p_came_from_be) * weight);
-- 
2.43.0


From 395dbb139f39382a95974b51e24d3283f3df0dd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:45 +0000
Subject: [PATCH 09/55] fix: BigramStringEmission counted less likely
 alignments more than likelier ones

---
 cxx/emissions/bigram_string.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/cxx/emissions/bigram_string.cc b/cxx/emissions/bigram_string.cc
index 85d92df..c37a129 100644
--- a/cxx/emissions/bigram_string.cc
+++ b/cxx/emissions/bigram_string.cc
@@ -128,9 +128,12 @@ void BigramStringEmission::incorporate(
                   },
                   &alignments);
 
+  // Turn all costs, which are negative log probs, into non-log probabilities.
+  // The lowest cost comes first; it is taken out to avoid underflow.
+  double lowest_cost = alignments[0].cost;
   double total_prob = 0.0;
   for (auto& a : alignments) {
-    a.cost = exp(a.cost);  // Turn all costs into non-log probabilities
+    a.cost = exp(lowest_cost - a.cost);
     total_prob += a.cost;
   }
 
-- 
2.43.0


From 4a988de9f5e27749310426e3c7726ffc6a4a5e7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:35 +0000
Subject: [PATCH 10/55] fix: entity moves scored observations by the clusters
 they were leaving, which is wrong when a domain repeats

---
 cxx/clean_relation.hh | 60 ++++++++++++++++++-------------------------
 1 file changed, 25 insertions(+), 35 deletions(-)

diff --git a/cxx/clean_relation.hh b/cxx/clean_relation.hh
index 0131c6f..edcdb25 100644
--- a/cxx/clean_relation.hh
+++ b/cxx/clean_relation.hh
@@ -314,41 +314,15 @@ class CleanRelation : public Relation<T> {
     return m;
   }
 
-  double logp_gibbs_exact_current(const std::vector<T_items>& items_list) {
-    assert(!items_list.empty());
-    T_items z = get_cluster_assignment(items_list[0]);
-    auto cluster = clusters.at(z);
-    double logp0 = cluster->logp_score();
-    for (const T_items& items : items_list) {
-      ValueType x = data.at(items);
-      // assert(z == get_cluster_assignment(items));
-      cluster->unincorporate(x);
-    }
-    double logp1 = cluster->logp_score();
-    for (const T_items& items : items_list) {
-      ValueType x = data.at(items);
-      cluster->incorporate(x);
-    }
-    // Approximate floating point equality.
-    assert(abs(cluster->logp_score() - logp0) <=
-           std::numeric_limits<double>::epsilon() * abs(logp0));
-    return logp0 - logp1;
-  }
-
-  double logp_gibbs_exact_variant(const Domain& domain, const T_item& item,
-                                  int table,
+  double logp_gibbs_exact_variant(const T_items& z,
                                   const std::vector<T_items>& items_list,
                                   std::mt19937* prng) {
     assert(!items_list.empty());
-    T_items z =
-        get_cluster_assignment_gibbs(items_list[0], domain, item, table);
-
     Distribution<ValueType>* prior = make_new_distribution(prng);
     Distribution<ValueType>* cluster =
         clusters.contains(z) ? clusters.at(z) : prior;
     double logp0 = cluster->logp_score();
     for (const T_items& items : items_list) {
-      // assert(z == get_cluster_assignment_gibbs(items, domain, item, table));
       ValueType x = data.at(items);
       cluster->incorporate(x);
     }
@@ -369,21 +343,37 @@ class CleanRelation : public Relation<T> {
                                        std::vector<int> tables,
                                        std::mt19937* prng) {
     auto cluster_to_items_list = get_cluster_to_items_list(domain, item);
-    int table_current = domain.get_cluster_assignment(item);
+    // Every candidate table is scored against the data without the item's
+    // observations.
+    for (const auto& [z, items_list] : cluster_to_items_list) {
+      for (const T_items& items : items_list) {
+        clusters.at(z)->unincorporate(data.at(items));
+      }
+    }
     std::vector<double> logps;
     logps.reserve(tables.size());
-    double lp_cluster;
     for (const int& table : tables) {
+      // Observations that share a cluster now need not share one when the item
+      // is at another table, and the other way around, if a domain is repeated.
+      std::unordered_map<const std::vector<int>, std::vector<T_items>,
+                         VectorIntHash>
+          variant_to_items_list;
+      for (const T_items& items : data_r.at(domain.name).at(item)) {
+        variant_to_items_list[get_cluster_assignment_gibbs(items, domain, item,
+                                                           table)]
+            .push_back(items);
+      }
       double lp_table = 0;
-      for (const auto& [z, items_list] : cluster_to_items_list) {
-        lp_cluster = (table == table_current)
-                         ? logp_gibbs_exact_current(items_list)
-                         : logp_gibbs_exact_variant(domain, item, table,
-                                                    items_list, prng);
-        lp_table += lp_cluster;
+      for (const auto& [z, items_list] : variant_to_items_list) {
+        lp_table += logp_gibbs_exact_variant(z, items_list, prng);
       }
       logps.push_back(lp_table);
     }
+    for (const auto& [z, items_list] : cluster_to_items_list) {
+      for (const T_items& items : items_list) {
+        clusters.at(z)->incorporate(data.at(items));
+      }
+    }
     return logps;
   }
 
-- 
2.43.0


From e20936479fa2bcbf5f5448d7223c8b7e8c12fd5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:10 +0000
Subject: [PATCH 11/55] fix: asking a Normal for the probability of a far-away
 value damaged its statistics

---
 cxx/distributions/normal.cc | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/cxx/distributions/normal.cc b/cxx/distributions/normal.cc
index 17a454c..72ea8d7 100644
--- a/cxx/distributions/normal.cc
+++ b/cxx/distributions/normal.cc
@@ -40,10 +40,17 @@ double Normal::logp(const double& x) const {
   double unused_mprime, sprime;
   posterior_hypers(&unused_mprime, &sprime);
 
+  // Add x temporarily, and put the statistics back as they were:
+  // unincorporate(x) would only do so up to rounding errors, which are large
+  // when x is far away from the data.
+  Normal* self = const_cast<Normal*>(this);
+  const double old_N = N, old_mean = mean, old_var = var;
   double sprime2;
-  const_cast<Normal*>(this)->incorporate(x);
+  self->incorporate(x);
   posterior_hypers(&unused_mprime, &sprime2);
-  const_cast<Normal*>(this)->unincorporate(x);
+  self->N = old_N;
+  self->mean = old_mean;
+  self->var = old_var;
 
   return -0.5 * log(M_2PI) + logZ(r + N + 1, v + N + 1, sprime2) -
          logZ(r + N, v + N, sprime);
-- 
2.43.0


From 2df50600f27f25f703f86caa86553f463f5bdd7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:10 +0000
Subject: [PATCH 12/55] fix: CRP probabilities of the first customer's table
 did not sum to one unless alpha was one

---
 cxx/distributions/crp.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cxx/distributions/crp.cc b/cxx/distributions/crp.cc
index 200c423..97a32a9 100644
--- a/cxx/distributions/crp.cc
+++ b/cxx/distributions/crp.cc
@@ -79,7 +79,7 @@ int CRP::max_table() const {
 std::map<int, double> CRP::tables_weights() const {
   std::map<int, double> dist;
   if (N == 0) {
-    dist[0] = 1;
+    dist[0] = alpha;
     return dist;
   }
   for (const auto& [table, customers] : tables) {
-- 
2.43.0


From 712029808fa85a6dffbddeb33ff807688d08b260 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:10 +0000
Subject: [PATCH 13/55] fix: DirichletCategorical::sample ignored fractional
 counts

---
 cxx/distributions/dirichlet_categorical.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cxx/distributions/dirichlet_categorical.cc b/cxx/distributions/dirichlet_categorical.cc
index 7cb683b..8fb61e3 100644
--- a/cxx/distributions/dirichlet_categorical.cc
+++ b/cxx/distributions/dirichlet_categorical.cc
@@ -35,7 +35,7 @@ double DirichletCategorical::logp_score() const {
 int DirichletCategorical::sample(std::mt19937* prng) {
   std::vector<double> weights(counts.size());
   std::transform(counts.begin(), counts.end(), weights.begin(),
-                 [&](size_t y) -> double { return y + alpha; });
+                 [&](double y) -> double { return y + alpha; });
   return choice(weights, prng);
 }
 
-- 
2.43.0


From f63fe443f7da4aa39fb6ed5b8dbee789d5e29555 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:10 +0000
Subject: [PATCH 14/55] fix: Bigram::sample retracted a stop symbol it never
 added when the string was cut at max_length

---
 cxx/distributions/bigram.cc | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/cxx/distributions/bigram.cc b/cxx/distributions/bigram.cc
index f506cd7..317fb31 100644
--- a/cxx/distributions/bigram.cc
+++ b/cxx/distributions/bigram.cc
@@ -95,8 +95,14 @@ std::string Bigram::sample(std::mt19937* prng) {
     transition_dists[current_ind].incorporate(next_ind);
     current_ind = next_ind;
   }
-  N += 1;  // Correct for calling unincorporate below.
-  unincorporate(sampled_string);
+  // Undo exactly the incorporations above.  There was none for the final
+  // stop symbol if the string was cut at max_length.
+  const std::vector<size_t> indices = string_to_indices(sampled_string);
+  const size_t num_transitions =
+      sampled_string.length() + (current_ind == num_chars ? 1 : 0);
+  for (size_t i = 0; i != num_transitions; ++i) {
+    transition_dists[indices[i]].unincorporate(indices[i + 1]);
+  }
   return sampled_string;
 }
 
-- 
2.43.0


From 11a1e0a27e2d825c7033b818ea1fd2c15ecb7d9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:10 +0000
Subject: [PATCH 15/55] fix: DistributionAdapter read an uninitialised value
 from empty strings

---
 cxx/distributions/adapter.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cxx/distributions/adapter.hh b/cxx/distributions/adapter.hh
index cb9594f..69461e3 100644
--- a/cxx/distributions/adapter.hh
+++ b/cxx/distributions/adapter.hh
@@ -21,7 +21,7 @@ class DistributionAdapter : public Distribution<std::string> {
   DistributionAdapter(Distribution<S>* dd) : d(dd) {};
 
   S from_string(const std::string& x) const {
-    S s;
+    S s = S();
     std::istringstream(x) >> s;
     return s;
   }
-- 
2.43.0


From 9277889492d77668ebc371d9d4af5365a8c83436 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:33 +0000
Subject: [PATCH 16/55] fix: SimpleStringEmission could generate a character
 outside its alphabet

---
 cxx/emissions/simple_string.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cxx/emissions/simple_string.hh b/cxx/emissions/simple_string.hh
index 26f9554..db75cd0 100644
--- a/cxx/emissions/simple_string.hh
+++ b/cxx/emissions/simple_string.hh
@@ -129,7 +129,7 @@ class SimpleStringEmission : public Emission<std::string> {
   }
 
   char random_character(std::mt19937* prng) {
-    std::uniform_int_distribution<char> uid(lowest_char, highest_char + 1);
+    std::uniform_int_distribution<char> uid(lowest_char, highest_char);
     return uid(*prng);
   }
 
-- 
2.43.0


From 873e5a2495bbbbb52860dd2d533f02a3dd7fa59a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:06 +0000
Subject: [PATCH 17/55] fix: SimpleStringEmission did not count the end of a
 run of insertions, so that sampling could go on practically forever

---
 cxx/emissions/simple_string.hh | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cxx/emissions/simple_string.hh b/cxx/emissions/simple_string.hh
index db75cd0..baddf5a 100644
--- a/cxx/emissions/simple_string.hh
+++ b/cxx/emissions/simple_string.hh
@@ -42,6 +42,8 @@ class SimpleStringEmission : public Emission<std::string> {
     if (clean.empty()) {
       // All of dirty must be insertions.
       insertions.incorporate(1, weight * dirty.length());
+      // After which there was no further insertion.
+      insertions.incorporate(0, weight);
       return;
     }
 
@@ -49,7 +51,7 @@ class SimpleStringEmission : public Emission<std::string> {
       // All of clean must have be deleted.
       deletions.incorporate(1, weight * clean.length());
       // This is also evidence that clean.length()+1 insertions didn't happen.
-      insertions.incorporate(0, weight * clean.length());
+      insertions.incorporate(0, weight * (clean.length() + 1));
       return;
     }
 
-- 
2.43.0


From 5953e8f0518d102f5836e75e8b73e6f44d548803 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:00 +0000
Subject: [PATCH 18/55] fix: noisy strings longer than a bigram's maximum
 length were proposed as clean values, which ended the program

---
 cxx/distributions/bigram.cc     | 13 +++++++++++++
 cxx/distributions/bigram.hh     |  4 ++++
 cxx/distributions/string_nat.hh | 12 ------------
 3 files changed, 17 insertions(+), 12 deletions(-)

diff --git a/cxx/distributions/bigram.cc b/cxx/distributions/bigram.cc
index 317fb31..eaa13e7 100644
--- a/cxx/distributions/bigram.cc
+++ b/cxx/distributions/bigram.cc
@@ -106,6 +106,19 @@ std::string Bigram::sample(std::mt19937* prng) {
   return sampled_string;
 }
 
+std::string Bigram::nearest(const std::string& x) const {
+  std::string s;
+  for (const char& c : x) {
+    if (max_length > 0 && s.length() == max_length) {
+      break;
+    }
+    if (c >= min_char && c <= max_char) {
+      s += c;
+    }
+  }
+  return s;
+}
+
 void Bigram::set_alpha(double alphat) {
   alpha = alphat;
   for (auto& trans_dist : transition_dists) {
diff --git a/cxx/distributions/bigram.hh b/cxx/distributions/bigram.hh
index 7245012..38abdcc 100644
--- a/cxx/distributions/bigram.hh
+++ b/cxx/distributions/bigram.hh
@@ -44,6 +44,10 @@ class Bigram : public Distribution<std::string> {
 
   std::string sample(std::mt19937* prng);
 
+  // Drops the characters that are outside of the alphabet and cuts the string
+  // at max_length.
+  std::string nearest(const std::string& x) const;
+
   void set_alpha(double alphat);
 
   void transition_hyperparameters(std::mt19937* prng);
diff --git a/cxx/distributions/string_nat.hh b/cxx/distributions/string_nat.hh
index 5acd2d9..79f5349 100644
--- a/cxx/distributions/string_nat.hh
+++ b/cxx/distributions/string_nat.hh
@@ -3,8 +3,6 @@
 
 #pragma once
 
-#include <cctype>
-
 #include "distributions/bigram.hh"
 
 // A distribution over natural numbers represented as strings of digits.
@@ -14,14 +12,4 @@
 class StringNat : public Bigram {
  public:
   StringNat(size_t _max_length = 20): Bigram(_max_length, '0', '9') {}
-
-  std::string nearest(const std::string& x) const {
-    std::string s;
-    for (const char& c : x) {
-      if (std::isdigit(c)) {
-        s += c;
-      }
-    }
-    return s;
-  }
 };
-- 
2.43.0


From dfae518b1c79a922c8b6502417c0d4b058a74df7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:01 +0000
Subject: [PATCH 19/55] fix: GenDB reference indices of clean fields, final
 emissions and repeated classes

---
 cxx/gendb.cc | 26 ++++++++++++++------------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/cxx/gendb.cc b/cxx/gendb.cc
index 8bfc2e0..502b7cc 100644
--- a/cxx/gendb.cc
+++ b/cxx/gendb.cc
@@ -945,11 +945,10 @@ void GenDB::compute_reference_indices_for(const std::string& name) {
       const int offset = total_offset;
       total_offset += domains.at(cv->class_name).size();
       class_ref_indices[v.first] = total_offset - 1;
-      std::map<std::string, int> child_class_indices;
       if (class_reference_indices.contains(cv->class_name)) {
         for (const auto& [ind, ref] :
              class_reference_indices.at(cv->class_name)) {
-          std::map<std::string, int> class_ref_indices;
+          std::map<std::string, int> child_class_indices;
           for (const auto& [field_name, ref_ind] : ref) {
             child_class_indices[field_name] = ref_ind + offset;
           }
@@ -1006,12 +1005,12 @@ void GenDB::make_relations_for_queryfield(const QueryField& f,
                                 domains[record_class.name], base_relation_name);
       tnr.is_observed = true;
       (*tschema)[f.name] = tnr;
-      // If the record class is the only class in the schema, there will be
-      // no entries in `relation_reference_indices`.
-      if (class_reference_indices.contains(record_class.name)) {
-        relation_reference_indices[f.name] =
-            class_reference_indices.at(record_class.name);
-      }
+    }
+    // If the record class is the only class in the schema, there will be
+    // no entries in `relation_reference_indices`.
+    if (class_reference_indices.contains(record_class.name)) {
+      relation_reference_indices[f.name] =
+          class_reference_indices.at(record_class.name);
     }
     return;
   }
@@ -1028,10 +1027,11 @@ void GenDB::make_relations_for_queryfield(const QueryField& f,
         std::get<ScalarVar>(last_var.spec), noisy_domains, base_relation_name);
     tnr.is_observed = true;
     (*tschema)[f.name] = tnr;
-    // If the record class is the only class in the schema, there will be
-    // no entries in `relation_reference_indices`.
+    // Since noisy relations have the leftmost domains in common with their base
+    // relations, they share the reference indices with their base relations as
+    // well.
     if (relation_reference_indices.contains(base_relation_name)) {
-      relation_reference_indices[f.name] =
+      std::map<int, std::map<std::string, int>> base_ref_indices =
           relation_reference_indices.at(base_relation_name);
     }
     return;
@@ -1065,7 +1065,8 @@ void GenDB::make_relations_for_queryfield(const QueryField& f,
       relation_reference_indices[rel_name] =
           relation_reference_indices.at(previous_relation);
     }
-    relation_reference_indices[rel_name].merge(ref_indices);
+    relation_reference_indices[rel_name].insert(ref_indices.begin(),
+                                                ref_indices.end());
     previous_relation = rel_name;
   }
 }
@@ -1098,3 +1099,4 @@ T_schema GenDB::make_hirm_schema() {
 
   return tschema;
 }
+      relation_reference_indices[f.name].merge(base_ref_indices);
-- 
2.43.0


From 74350d4fa10d83f5ce1659005033fbe6a789928b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:01 +0000
Subject: [PATCH 20/55] fix: GenDB reference ids of different references could
 collide

---
 cxx/gendb.cc | 11 ++++++-----
 cxx/gendb.hh |  8 ++++++--
 2 files changed, 12 insertions(+), 7 deletions(-)

diff --git a/cxx/gendb.cc b/cxx/gendb.cc
index 502b7cc..e1487c9 100644
--- a/cxx/gendb.cc
+++ b/cxx/gendb.cc
@@ -144,15 +144,16 @@ T_items GenDB::sample_entities_relation(
   return items;
 }
 
-// Makes a unique hash for a reference (to be incorporated as an item into the
+// Makes a unique id for a reference (to be incorporated as an item into the
 // entity crp), based on the reference's class, field, and row id.
 int GenDB::get_reference_id(const std::string& class_name,
                             const std::string& ref_field,
                             const int class_item) {
-  std::stringstream new_id_str;
-  std::string sep = " ";  // Spaces are disallowed in class/variable names.
-  new_id_str << class_name << sep << class_item << sep << ref_field;
-  return std::hash<std::string>{}(new_id_str.str());
+  // Hashes of different references may collide, so the ids are handed out in
+  // order.
+  return reference_ids
+      .try_emplace({class_name, ref_field, class_item}, reference_ids.size())
+      .first->second;
 }
 
 // Takes a sample from ref_class's entity CRP, incorporates it into the CRP,
diff --git a/cxx/gendb.hh b/cxx/gendb.hh
index 9485974..6152203 100644
--- a/cxx/gendb.hh
+++ b/cxx/gendb.hh
@@ -97,8 +97,8 @@ class GenDB {
                std::unordered_map<T_items, ObservationVariant, H_items>>&
           stored_value_map);
 
-  // Recursively unincorporates from base relations and stores values. Returns
-  // the logp of the unincorporated values.
+  // Unincorporates and stores a value of an entity that is no longer referenced.
+  // Returns the logp of the unincorporated value.
   template <typename T>
   double unincorporate_reference_relation_singleton(
       Relation<T>* rel, const std::string& rel_name, const T_items& items,
@@ -246,6 +246,10 @@ class GenDB {
   bool only_final_emissions;
   bool record_class_is_clean;
   std::map<std::string, std::vector<std::string>> domains;
+  // Maps class name, reference field name and class primary key to the unique
+  // identifier of the reference.
+  std::map<std::tuple<std::string, std::string, int>, int> reference_ids;
+
 
   // Maps class names to relations corresponding to attributes of the class.
   std::map<std::string, std::vector<std::string>> class_to_relations;
-- 
2.43.0


From bf17c66d650e684aa1a6f214ca11f1bc25b44b11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:01 +0000
Subject: [PATCH 21/55] fix: reference moves lost, duplicated or misplaced
 observations of other entities

---
 cxx/gendb.cc | 284 +++++++++++++++++++++++++++++++--------------------
 cxx/gendb.hh |  20 +++-
 2 files changed, 189 insertions(+), 115 deletions(-)

diff --git a/cxx/gendb.cc b/cxx/gendb.cc
index e1487c9..bd064ae 100644
--- a/cxx/gendb.cc
+++ b/cxx/gendb.cc
@@ -3,6 +3,7 @@
 
 #include "gendb.hh"
 
+#include <algorithm>
 #include <map>
 #include <random>
 #include <string>
@@ -203,6 +204,11 @@ void GenDB::sample_and_incorporate_for_class(std::mt19937* prng,
                                              const std::string& class_name,
                                              const T_item& item) {
   for (const std::string& rel_name : class_to_relations.at(class_name)) {
+    // Observed relations only hold observations.
+    if (std::visit([](const auto& trel) { return trel.is_observed; },
+                   hirm->schema.at(rel_name))) {
+      continue;
+    }
     sample_class_ancestors(prng, class_name, item);
     const std::vector<std::string>& domains = std::visit(
         [&](auto tr) { return tr.domains; }, hirm->schema.at(rel_name));
@@ -290,16 +296,19 @@ void GenDB::get_relation_items(const std::string& rel_name, const int ind,
 std::map<std::string, std::vector<size_t>> GenDB::get_domain_inds(
     const std::string& class_name, const std::string& ref_field) {
   std::map<std::string, std::vector<size_t>> domain_inds;
-  for (const auto& [rel_name, query_field] : schema.query.fields) {
+  for (const auto& [rel_name, ref_indices] : relation_reference_indices) {
     // Find relations that involve both the class and its reference field
     // (exclude relations that include the class only because it's a node in
     // a noisy observation path of something otherwise unrelated to the
     // observed attribute.)
+    if (!hirm->schema.contains(rel_name)) {
+      continue;
+    }
     std::vector<std::string> domains = std::visit(
         [&](auto& trel) { return trel.domains; }, hirm->schema.at(rel_name));
     for (size_t i = 0; i < domains.size(); ++i) {
-      if (domains[i] == class_name &&
-          relation_reference_indices.at(rel_name).at(i).contains(ref_field)) {
+      if (domains[i] == class_name && ref_indices.contains(i) &&
+          ref_indices.at(i).contains(ref_field)) {
         domain_inds[rel_name].push_back(i);
       }
     }
@@ -320,32 +329,25 @@ double GenDB::unincorporate_reference(
     std::map<std::tuple<int, std::string, T_item>, int>&
         unincorporated_from_domains) {
   double logp_relations = 0.;
-  for (auto [rel_name, inds] : domain_inds) {
-    RelationVariant r = hirm->get_relation(rel_name);
-    bool data_r_contains_item = std::visit(
-        [&](auto rel) {
-          return rel->get_data_r().at(class_name).contains(class_item);
-        },
-        r);
-    if (data_r_contains_item) {
-      const std::unordered_set<T_items, H_items>& items = std::visit(
-          [&](auto rel) {
-            return rel->get_data_r().at(class_name).at(class_item);
-          },
-          r);
-
-      for (const size_t ind : inds) {
+  // Noisy relations come before their base relations, whose values they need.
+  for (const std::string& rel_name : order_by_emission_depth(domain_inds)) {
+    auto f = [&](auto rel) {
+      const auto& data_r = rel->get_data_r().at(class_name);
+      if (!data_r.contains(class_item)) {
+        return;
+      }
+      // Copied because the relation's index is modified below.
+      const std::unordered_set<T_items, H_items> items = data_r.at(class_item);
+      for (const size_t ind : domain_inds.at(rel_name)) {
         for (const auto& item : items) {
           if (item[ind] == class_item) {
-            auto f = [&](auto rel) {
-              logp_relations += unincorporate_reference_relation(
-                  rel, rel_name, item, ind, stored_value_map);
-            };
-            std::visit(f, r);
+            logp_relations += unincorporate_reference_relation(
+                rel, rel_name, item, ind, stored_value_map);
           }
         }
       }
-    }
+    };
+    std::visit(f, hirm->get_relation(rel_name));
   }
 
   // Check if any entities need to be removed from IRM domain clusters (after
@@ -363,7 +365,8 @@ double GenDB::unincorporate_reference(
   return logp_relations + logp_domain_cluster;
 }
 
-// Recursively unincorporates from base relations and stores values.
+// Unincorporates a value and stores it. The caller also visits the base
+// relations.
 template <typename T>
 double GenDB::unincorporate_reference_relation(
     Relation<T>* rel, const std::string& rel_name, const T_items& items,
@@ -371,8 +374,8 @@ double GenDB::unincorporate_reference_relation(
     std::map<std::string,
              std::unordered_map<T_items, ObservationVariant, H_items>>&
         stored_value_map) {
-  // We can stop unincorporating from base relations if the index of
-  // the domain of interest is greater than or equal to the number of domains.
+  // The value may have been unincorporated already if the domain of interest
+  // appears more than once in the relation.
   if (!rel->get_data().contains(items) || ind >= items.size()) {
     return 0.;
   }
@@ -386,17 +389,6 @@ double GenDB::unincorporate_reference_relation(
   double logp_rel = rel->cluster_or_prior_logp_from_items(prng, items, value);
   // Clean up data but leave empty clusters in case they are re-populated later.
   rel->cleanup_data(items);
-
-  // Recursively unincorporate from base relations.
-  if (const T_noisy_relation* t_rel =
-          std::get_if<T_noisy_relation>(&hirm->schema.at(rel_name))) {
-    auto noisy_rel = reinterpret_cast<NoisyRelation<T>*>(rel);
-    T_items base_items = noisy_rel->get_base_items(items);
-    RelationVariant base_rel = hirm->get_relation(t_rel->base_relation);
-    Relation<T>* base_rel_t = std::get<Relation<T>*>(base_rel);
-    logp_rel += unincorporate_reference_relation(
-        base_rel_t, t_rel->base_relation, base_items, ind, stored_value_map);
-  }
   return logp_rel;
 }
 
@@ -456,23 +448,58 @@ void GenDB::incorporate_reference_relation(
     std::map<std::string,
              std::unordered_map<T_items, ObservationVariant, H_items>>&
         stored_values) {
-  if (const T_noisy_relation* trel =
-          std::get_if<T_noisy_relation>(&hirm->schema.at(rel_name))) {
-    if (stored_values.contains(trel->base_relation)) {
-      NoisyRelation<T>* noisy_rel = reinterpret_cast<NoisyRelation<T>*>(rel);
-      incorporate_reference_relation(prng, noisy_rel->base_relation,
-                                     trel->base_relation, stored_values);
-    }
+  const T_noisy_relation* trel =
+      std::get_if<T_noisy_relation>(&hirm->schema.at(rel_name));
+  if (trel != nullptr && stored_values.contains(trel->base_relation)) {
+    NoisyRelation<T>* noisy_rel = reinterpret_cast<NoisyRelation<T>*>(rel);
+    incorporate_reference_relation(prng, noisy_rel->base_relation,
+                                   trel->base_relation, stored_values);
   }
   for (const auto& [items, value] : stored_values.at(rel_name)) {
     // A base relation may have already been reincorporated by a different noisy
     // relation.
     if (!rel->get_data().contains(items)) {
+      if (trel != nullptr) {
+        // The newly referenced entity may not have a value of this attribute
+        // yet.
+        NoisyRelation<T>* noisy_rel = reinterpret_cast<NoisyRelation<T>*>(rel);
+        T_items base_items = noisy_rel->get_base_items(items);
+        if (!noisy_rel->base_relation->get_data().contains(base_items)) {
+          hirm->sample_and_incorporate_relation(prng, trel->base_relation,
+                                                base_items);
+        }
+      }
       rel->incorporate(prng, items, std::get<T>(value));
     }
   }
 }
 
+// The number of emissions between a relation and its clean relation.
+int GenDB::emission_depth(const std::string& rel_name) const {
+  int depth = 0;
+  const T_noisy_relation* trel =
+      std::get_if<T_noisy_relation>(&hirm->schema.at(rel_name));
+  while (trel != nullptr) {
+    ++depth;
+    trel = std::get_if<T_noisy_relation>(&hirm->schema.at(trel->base_relation));
+  }
+  return depth;
+}
+
+template <typename T>
+std::vector<std::string> GenDB::order_by_emission_depth(
+    const std::map<std::string, T>& relations) const {
+  std::vector<std::string> names;
+  for (const auto& [rel_name, unused_value] : relations) {
+    names.push_back(rel_name);
+  }
+  std::stable_sort(names.begin(), names.end(),
+                   [&](const std::string& a, const std::string& b) {
+                     return emission_depth(a) > emission_depth(b);
+                   });
+  return names;
+}
+
 // After data has been unincorporated from relations, entities that no longer
 // appear in the data may still be incorporated into IRM domain clusters. This
 // method detects and unincorporates the entities, and stores their domain
@@ -490,33 +517,37 @@ double GenDB::unincorporate_from_domain_cluster_relation(
   const std::string& ref_class = domains.at(ind);
   Domain* domain = irm->domains.at(ref_class);
 
-  // Return if:
+  // Leave the entity where it is if:
   //   - we have already unincorporated this entity from the IRM domain cluster
   //   - we shouldn't unincorporate it because it still exists in the data.
   //   - we can't because it wasn't ever in the data and is therefore not in the
   //   cluster.
-  if (unincorporated.contains({irm_code, ref_class, item}) ||
-      irm->has_observation(ref_class, item) || !domain->items.contains(item)) {
-    return logp_adj;
-  }
-
-  CRP& crp = domain->crp;
-  int cluster_id = crp.assignments.at(item);
-  domain->unincorporate(item);
-  if (crp.tables.contains(cluster_id)) {
-    logp_adj += crp.logp(cluster_id);
-  } else {
-    logp_adj += crp.logp_new_table();
+  // Its ancestors are checked in any case, since they may appear in other
+  // relations than the entity does.
+  if (!unincorporated.contains({irm_code, ref_class, item}) &&
+      !irm->has_observation(ref_class, item) && domain->items.contains(item)) {
+    CRP& crp = domain->crp;
+    int cluster_id = crp.assignments.at(item);
+    domain->unincorporate(item);
+    if (crp.tables.contains(cluster_id)) {
+      logp_adj += crp.logp(cluster_id);
+    } else {
+      logp_adj += crp.logp_new_table();
+    }
+    unincorporated[{irm_code, ref_class, item}] = cluster_id;
   }
-  unincorporated[{irm_code, ref_class, item}] = cluster_id;
 
   // Recursively check and unincorporate the entity's ancestors.
   if (relation_reference_indices.contains(r) &&
       relation_reference_indices.at(r).contains(ind)) {
     for (auto [name, r_ind] : relation_reference_indices.at(r).at(ind)) {
-      int ref_item = reference_values.at(ref_class).at({name, item});
-      logp_adj += unincorporate_from_domain_cluster_relation(r, ref_item, r_ind,
-                                                             unincorporated);
+      // The entity may have been reached through other reference fields only.
+      auto it = reference_values.at(ref_class).find({name, item});
+      if (it == reference_values.at(ref_class).end()) {
+        continue;
+      }
+      logp_adj += unincorporate_from_domain_cluster_relation(
+          r, it->second, r_ind, unincorporated);
     }
   }
   return logp_adj;
@@ -555,9 +586,14 @@ double GenDB::unincorporate_from_entity_cluster(
     if (is_ancestor_reference) {
       logp_adj += crp.logp(ref_item);
     }
+  } else {
+    if (is_ancestor_reference) {
+      logp_adj += crp.logp_new_table();
+    }
 
     for (const auto& [name, var] : schema.classes.at(ref_class).vars) {
-      if (std::holds_alternative<ClassVar>(var.spec)) {
+      if (std::holds_alternative<ClassVar>(var.spec) &&
+          reference_values.at(ref_class).contains({name, ref_item})) {
         // If this reference value was the only one in its entity_crp table,
         // then the entity is removed from its class and we need to
         // recursively unincorporate *its* reference values.
@@ -565,23 +601,18 @@ double GenDB::unincorporate_from_entity_cluster(
                                                       unincorporated);
       }
     }
-  } else {
-    if (is_ancestor_reference) {
-      logp_adj += crp.logp_new_table();
-    }
   }
   return logp_adj;
 }
 
-// Recursively unincorporates from base relations and stores values.
+// Unincorporates and stores a value that belongs to an entity without
+// references.
 template <typename T>
 double GenDB::unincorporate_reference_relation_singleton(
     Relation<T>* rel, const std::string& rel_name, const T_items& items,
     std::map<std::string,
              std::unordered_map<T_items, ObservationVariant, H_items>>&
         stored_value_map) {
-  // We can stop unincorporating from base relations if the index of
-  // the domain of interest is greater than the number of domains.
   const std::vector<std::string>& domains = std::visit(
       [&](auto tr) { return tr.domains; }, hirm->schema.at(rel_name));
   if (!rel->get_data().contains(items) ||
@@ -599,17 +630,6 @@ double GenDB::unincorporate_reference_relation_singleton(
   double logp_rel = rel->cluster_or_prior_logp_from_items(prng, items, value);
   // Clean up data but leave empty clusters in case they are re-populated later.
   rel->cleanup_data(items);
-
-  // Recursively unincorporate from base relations.
-  if (const T_noisy_relation* t_rel =
-          std::get_if<T_noisy_relation>(&hirm->schema.at(rel_name))) {
-    auto noisy_rel = reinterpret_cast<NoisyRelation<T>*>(rel);
-    T_items base_items = noisy_rel->get_base_items(items);
-    RelationVariant base_rel = hirm->get_relation(t_rel->base_relation);
-    Relation<T>* base_rel_t = std::get<Relation<T>*>(base_rel);
-    logp_rel += unincorporate_reference_relation_singleton(
-        base_rel_t, t_rel->base_relation, base_items, stored_value_map);
-  }
   return logp_rel;
 }
 
@@ -634,26 +654,56 @@ double GenDB::unincorporate_singleton(
       unincorporate_from_entity_cluster(class_name, ref_field, class_item,
                                         unincorporated_from_entity_crps, false);
 
-  for (auto& rel : class_to_relations.at(ref_class)) {
-    const std::vector<std::string>& domains =
-        std::visit([&](auto tr) { return tr.domains; }, hirm->schema.at(rel));
-    T_items base_items(domains.size());
-    get_relation_items(rel, base_items.size() - 1, ref_val, base_items);
-    logp_refclass += std::visit(
-        [&](auto r) {
-          return unincorporate_reference_relation_singleton(r, rel, base_items,
-                                                            stored_value_map);
-        },
-        hirm->get_relation(rel));
+  // Find the entities that are no longer referenced, and the values that belong
+  // to them.
+  std::vector<std::pair<std::string, int>> removed_entities;
+  if (!entity_crps.at(ref_class).tables.contains(ref_val)) {
+    removed_entities.push_back({ref_class, ref_val});
   }
-  for (auto& rel : class_to_relations.at(ref_class)) {
-    const std::vector<std::string>& domains =
-        std::visit([&](auto tr) { return tr.domains; }, hirm->schema.at(rel));
-    T_items base_items(domains.size());
-    get_relation_items(rel, base_items.size() - 1, ref_val, base_items);
-    logp_refclass += unincorporate_from_domain_cluster_relation(
-        rel, base_items.back(), base_items.size() - 1,
-        unincorporated_from_domains);
+  for (const auto& [key, ref_item] : unincorporated_from_entity_crps) {
+    const auto& [parent_class, field, unused_item] = key;
+    const std::string& subref_class =
+        std::get<ClassVar>(schema.classes.at(parent_class).vars.at(field).spec)
+            .class_name;
+    std::pair<std::string, int> entity = {subref_class, ref_item};
+    if (!entity_crps.at(subref_class).tables.contains(ref_item) &&
+        std::find(removed_entities.begin(), removed_entities.end(), entity) ==
+            removed_entities.end()) {
+      removed_entities.push_back(entity);
+    }
+  }
+  std::map<std::string, std::vector<T_items>> removed_items;
+  for (const auto& [entity_class, entity] : removed_entities) {
+    for (const std::string& rel : class_to_relations[entity_class]) {
+      auto f = [&](auto r) {
+        const auto& data_r = r->get_data_r().at(entity_class);
+        if (data_r.contains(entity)) {
+          for (const T_items& items : data_r.at(entity)) {
+            if (items.back() == entity) {
+              removed_items[rel].push_back(items);
+            }
+          }
+        }
+      };
+      std::visit(f, hirm->get_relation(rel));
+    }
+  }
+  // Noisy relations come before their base relations, whose values they need.
+  for (const std::string& rel : order_by_emission_depth(removed_items)) {
+    for (const T_items& items : removed_items.at(rel)) {
+      logp_refclass += std::visit(
+          [&](auto r) {
+            return unincorporate_reference_relation_singleton(r, rel, items,
+                                                              stored_value_map);
+          },
+          hirm->get_relation(rel));
+    }
+  }
+  for (const auto& [rel, rel_items] : removed_items) {
+    for (const T_items& items : rel_items) {
+      logp_refclass += unincorporate_from_domain_cluster_relation(
+          rel, items.back(), items.size() - 1, unincorporated_from_domains);
+    }
   }
   return logp_refclass;
 }
@@ -674,6 +724,15 @@ void GenDB::transition_reference(std::mt19937* prng,
     return;
   }
 
+  // The candidate entities may have been reached through some of their reference
+  // fields only. The missing references are sampled now, while the ids of all
+  // current entities are taken.
+  for (const auto& [table, unused_weight] : crp_dist) {
+    if (entity_crps.at(ref_class).tables.contains(table)) {
+      sample_class_ancestors(prng, ref_class, table);
+    }
+  }
+
   // For each relation, get the indices (in the items vector) of the reference
   // value being transitioned.
   std::map<std::string, std::vector<size_t>> domain_inds =
@@ -803,12 +862,14 @@ void GenDB::transition_reference(std::mt19937* prng,
   decltype(stored_values) updated_values_new = update_reference_items(
       stored_values, class_name, ref_field, class_item, new_refval);
   if (singleton_entity == new_refval) {
-    updated_values_new.merge(ref_class_relation_stored_values);
+    for (auto& [rel_name, values] : ref_class_relation_stored_values) {
+      updated_values_new[rel_name].merge(values);
+    }
   }
   reincorporate_new_refval(class_name, ref_field, class_item, new_refval,
                            ref_class, updated_values_new,
-                           unincorporated_from_domains.at(new_refval),
-                           unincorporated_from_entity_crps);
+                           unincorporated_from_domains[new_refval],
+                           unincorporated_from_entity_crps, prng);
 }
 
 void GenDB::reincorporate_new_refval(
@@ -820,17 +881,20 @@ void GenDB::reincorporate_new_refval(
     std::map<std::tuple<int, std::string, T_item>, int>&
         unincorporated_from_domains,
     std::map<std::tuple<std::string, std::string, int>, int>&
-        unincorporated_from_entity_crps) {
-  // Nothing is sampled anew in this method so prng is unused.
-  // std::mt19937* prng = nullptr;
-  std::mt19937 prng;  // Debug why empty clusters sometimes get cleaned up.
+        unincorporated_from_entity_crps,
+    std::mt19937* prng) {
+  // Only used if empty clusters were cleaned up in the meantime.
+  std::mt19937 default_prng;
+  if (prng == nullptr) {
+    prng = &default_prng;
+  }
 
   // Incorporate the chosen entities back into their previous domain CRPs.
   for (auto [k, v] : unincorporated_from_domains) {
     auto [irm_code, r_class, item] = k;
     // TODO: Debug. This check shouldn't be necessary.
     if (!hirm->irms.at(irm_code)->domains.at(r_class)->items.contains(item)) {
-      hirm->irms.at(irm_code)->domains.at(r_class)->incorporate(&prng, item, v);
+      hirm->irms.at(irm_code)->domains.at(r_class)->incorporate(prng, item, v);
     }
   }
 
@@ -861,7 +925,7 @@ void GenDB::reincorporate_new_refval(
   entity_crps.at(ref_class).incorporate(ref_id, new_refval);
 
   // Incorporate the items/values with new entity linkages into the relations.
-  incorporate_reference(&prng, stored_value_map);
+  incorporate_reference(prng, stored_value_map);
 
   // Remove empty relation clusters.
   hirm->cleanup_relation_clusters();
@@ -1034,6 +1098,7 @@ void GenDB::make_relations_for_queryfield(const QueryField& f,
     if (relation_reference_indices.contains(base_relation_name)) {
       std::map<int, std::map<std::string, int>> base_ref_indices =
           relation_reference_indices.at(base_relation_name);
+      relation_reference_indices[f.name].merge(base_ref_indices);
     }
     return;
   }
@@ -1100,4 +1165,3 @@ T_schema GenDB::make_hirm_schema() {
 
   return tschema;
 }
-      relation_reference_indices[f.name].merge(base_ref_indices);
diff --git a/cxx/gendb.hh b/cxx/gendb.hh
index 6152203..11a2121 100644
--- a/cxx/gendb.hh
+++ b/cxx/gendb.hh
@@ -139,6 +139,15 @@ class GenDB {
                std::unordered_map<T_items, ObservationVariant, H_items>>&
           stored_values);
 
+  // Returns the number of emissions between a relation and its clean relation.
+  int emission_depth(const std::string& rel_name) const;
+
+  // Returns the names of the relations, noisy relations before their base
+  // relations.
+  template <typename T>
+  std::vector<std::string> order_by_emission_depth(
+      const std::map<std::string, T>& relations) const;
+
   // Returns a unique identifier for a reference value.
   int get_reference_id(const std::string& class_name,
                        const std::string& ref_field, const int class_item);
@@ -181,7 +190,8 @@ class GenDB {
       std::map<std::tuple<int, std::string, T_item>, int>&
           unincorporated_from_domains,
       std::map<std::tuple<std::string, std::string, int>, int>&
-          unincorporated_from_entity_crps);
+          unincorporated_from_entity_crps,
+      std::mt19937* prng = nullptr);
 
   // Gibbs kernel for transitioning a reference value.
   void transition_reference(std::mt19937* prng, const std::string& class_name,
@@ -236,6 +246,10 @@ class GenDB {
   std::map<std::string, std::map<std::pair<std::string, int>, int>>
       reference_values;
 
+  // Maps class name, reference field name and class primary key to the unique
+  // identifier of the reference.
+  std::map<std::tuple<std::string, std::string, int>, int> reference_ids;
+
   HIRM* hirm;  // Owned by the GenDB instance.
 
   // Map keys are class names. Values are CRPs for latent entities, where the
@@ -246,10 +260,6 @@ class GenDB {
   bool only_final_emissions;
   bool record_class_is_clean;
   std::map<std::string, std::vector<std::string>> domains;
-  // Maps class name, reference field name and class primary key to the unique
-  // identifier of the reference.
-  std::map<std::tuple<std::string, std::string, int>, int> reference_ids;
-
 
   // Maps class names to relations corresponding to attributes of the class.
   std::map<std::string, std::vector<std::string>> class_to_relations;
-- 
2.43.0


From 7dc43b68410c8630c037c652f1f51414303c5d84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:37 +0000
Subject: [PATCH 22/55] fix: GenDB inference restarted the time budget in every
 iteration and swept entities after it

---
 cxx/inference.cc | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/cxx/inference.cc b/cxx/inference.cc
index 1c0525d..971d049 100644
--- a/cxx/inference.cc
+++ b/cxx/inference.cc
@@ -40,9 +40,10 @@ void inference_irm(std::mt19937* prng, IRM* irm, int iters, int timeout,
   }
 }
 
-void inference_hirm(std::mt19937* prng, HIRM* hirm, int iters, int timeout,
-                    bool verbose) {
-  clock_t t_begin = clock();
+// Runs at most `iters` sweeps, as long as no more than `timeout` seconds have
+// passed since t_begin.
+static void inference_hirm_since(std::mt19937* prng, HIRM* hirm, int iters,
+                                 int timeout, bool verbose, clock_t t_begin) {
   double t_total = 0;
   for (int i = 0; i < iters; ++i) {
     printf("Starting iteration %d, model score = %f\n", i + 1,
@@ -70,6 +71,11 @@ void inference_hirm(std::mt19937* prng, HIRM* hirm, int iters, int timeout,
   }
 }
 
+void inference_hirm(std::mt19937* prng, HIRM* hirm, int iters, int timeout,
+                    bool verbose) {
+  inference_hirm_since(prng, hirm, iters, timeout, verbose, clock());
+}
+
 void inference_gendb(std::mt19937* prng, GenDB* gendb, int iters,
                      int hirm_iters_per_entity_iter, int timeout,
                      bool verbose) {
@@ -78,12 +84,13 @@ void inference_gendb(std::mt19937* prng, GenDB* gendb, int iters,
     // TRANSITION HIRM
     printf("Starting outer iteration %d, model score = %f\n", i + 1,
            gendb->logp_score());
-    inference_hirm(prng, gendb->hirm, hirm_iters_per_entity_iter, timeout,
-                   verbose);
+    CHECK_TIMEOUT(timeout, t_begin);
+    inference_hirm_since(prng, gendb->hirm, hirm_iters_per_entity_iter, timeout,
+                         verbose, t_begin);
 
     // TRANSITION ENTITIES
+    CHECK_TIMEOUT(timeout, t_begin);
     gendb->transition_reference_class_and_ancestors(
         prng, gendb->schema.query.record_class);
-    CHECK_TIMEOUT(timeout, t_begin);
   }
 }
-- 
2.43.0


From e0eba2f70490e4266906430d19341b8896339b40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:11 +0000
Subject: [PATCH 23/55] fix: loading incorporated an observed base relation
 once more for each of its noisy relations

---
 cxx/util_io.cc | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/cxx/util_io.cc b/cxx/util_io.cc
index 1bfa190..a5ea8d1 100644
--- a/cxx/util_io.cc
+++ b/cxx/util_io.cc
@@ -350,9 +350,14 @@ void incorporate_observations_relation(
           },
           rel_var);
     }
-    incorporate_observations_relation(prng, base_name, h_irm, observations,
-                                      noisy_to_base, relation_items,
-                                      completed_relations);
+    // An observed base relation is incorporated once. A latent one may be
+    // needed by several noisy relations, each of which adds items to it.
+    if (!observations.contains(base_name) ||
+        !completed_relations.contains(base_name)) {
+      incorporate_observations_relation(prng, base_name, h_irm, observations,
+                                        noisy_to_base, relation_items,
+                                        completed_relations);
+    }
   }
 
   ObservationVariant ov;
-- 
2.43.0


From b3b54f7ad055b52d13e88d3ef06d74f97cd13530 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:30 +0000
Subject: [PATCH 24/55] fix: loading clusters with held-out data encoded the
 entities differently from the saved file

---
 cxx/hirm_main.cc |  4 ++--
 cxx/util_io.cc   | 14 ++++++++++----
 cxx/util_io.hh   |  8 ++++++--
 3 files changed, 18 insertions(+), 8 deletions(-)

diff --git a/cxx/hirm_main.cc b/cxx/hirm_main.cc
index 0d03dcd..9cfb44a 100644
--- a/cxx/hirm_main.cc
+++ b/cxx/hirm_main.cc
@@ -99,7 +99,7 @@ int main(int argc, char** argv) {
     } else {
       irm = new IRM({});
       std::cout << "loading clusters from " << path_clusters << std::endl;
-      from_txt(&prng, irm, path_schema, path_obs, path_clusters);
+      from_txt(&prng, irm, path_schema, path_obs, path_clusters, &encoding);
     }
     // Infer
     std::cout << "inferring " << iters << " iters; timeout " << timeout
@@ -135,7 +135,7 @@ int main(int argc, char** argv) {
     } else {
       hirm = new HIRM({}, &prng);
       std::cout << "loading clusters from " << path_clusters << std::endl;
-      from_txt(&prng, hirm, path_schema, path_obs, path_clusters);
+      from_txt(&prng, hirm, path_schema, path_obs, path_clusters, &encoding);
     }
     // Infer
     std::cout << "inferring " << iters << " iters; timeout " << timeout
diff --git a/cxx/util_io.cc b/cxx/util_io.cc
index a5ea8d1..26b317f 100644
--- a/cxx/util_io.cc
+++ b/cxx/util_io.cc
@@ -640,11 +640,14 @@ load_clusters_hirm(const std::string& path) {
 
 void from_txt(std::mt19937* prng, IRM* const irm,
               const std::string& path_schema, const std::string& path_obs,
-              const std::string& path_clusters) {
+              const std::string& path_clusters,
+              const T_encoding* loaded_encoding) {
   // Load the data.
   T_schema schema = load_schema(path_schema);
   T_observations observations = load_observations(path_obs, schema);
-  T_encoding encoding = calculate_encoding(schema, observations);
+  T_encoding encoding = loaded_encoding != nullptr
+                            ? *loaded_encoding
+                            : calculate_encoding(schema, observations);
   auto clusters = load_clusters_irm(path_clusters);
   // Add the relations.
   assert(irm->schema.empty());
@@ -672,10 +675,13 @@ void from_txt(std::mt19937* prng, IRM* const irm,
 
 void from_txt(std::mt19937* prng, HIRM* const hirm,
               const std::string& path_schema, const std::string& path_obs,
-              const std::string& path_clusters) {
+              const std::string& path_clusters,
+              const T_encoding* loaded_encoding) {
   T_schema schema = load_schema(path_schema);
   T_observations observations = load_observations(path_obs, schema);
-  T_encoding encoding = calculate_encoding(schema, observations);
+  T_encoding encoding = loaded_encoding != nullptr
+                            ? *loaded_encoding
+                            : calculate_encoding(schema, observations);
   auto [relations, irms] = load_clusters_hirm(path_clusters);
   // Add the relations.
   assert(hirm->schema.empty());
diff --git a/cxx/util_io.hh b/cxx/util_io.hh
index a6d8779..1c39b08 100644
--- a/cxx/util_io.hh
+++ b/cxx/util_io.hh
@@ -66,12 +66,16 @@ std::tuple<std::map<int, std::vector<std::string>>,  // x[table] = {relation
            >
 load_clusters_hirm(const std::string& path);
 
+// If `loaded_encoding` is given, it encodes the observations and clusters;
+// otherwise the encoding is calculated from the observations in path_obs.
 void from_txt(std::mt19937* prng, IRM* const irm,
               const std::string& path_schema, const std::string& path_obs,
-              const std::string& path_clusters);
+              const std::string& path_clusters,
+              const T_encoding* loaded_encoding = nullptr);
 void from_txt(std::mt19937* prng, HIRM* const irm,
               const std::string& path_schema, const std::string& path_obs,
-              const std::string& path_clusters);
+              const std::string& path_clusters,
+              const T_encoding* loaded_encoding = nullptr);
 
 T_observations merge_observations(const T_observations& obs1,
                                   const T_observations& obs2);
-- 
2.43.0


From 18a717f2a2ebb85e9af7be48bda8b23559239375 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:36 +0000
Subject: [PATCH 25/55] fix: saved clusters could not be loaded when a noisy
 relation's name sorts before its base relation's

---
 cxx/util_io.cc | 32 ++++++++++++++++++++++++++++----
 1 file changed, 28 insertions(+), 4 deletions(-)

diff --git a/cxx/util_io.cc b/cxx/util_io.cc
index 26b317f..b826b21 100644
--- a/cxx/util_io.cc
+++ b/cxx/util_io.cc
@@ -638,6 +638,29 @@ load_clusters_hirm(const std::string& path) {
   return std::make_pair(relations, irms);
 }
 
+// Returns the names of the relations in the schema, with each base relation
+// before the noisy relations that observe it.
+static std::vector<std::string> base_relations_first(const T_schema& schema) {
+  std::vector<std::string> names;
+  std::unordered_set<std::string> added;
+  while (names.size() < schema.size()) {
+    size_t num_added = names.size();
+    for (const auto& [name, relation] : schema) {
+      const auto* noisy_rel = std::get_if<T_noisy_relation>(&relation);
+      if (!added.contains(name) &&
+          (!noisy_rel || added.contains(noisy_rel->base_relation))) {
+        names.push_back(name);
+        added.insert(name);
+      }
+    }
+    if (names.size() == num_added) {
+      printf("Detected loop in schema\n");
+      std::exit(1);
+    }
+  }
+  return names;
+}
+
 void from_txt(std::mt19937* prng, IRM* const irm,
               const std::string& path_schema, const std::string& path_obs,
               const std::string& path_clusters,
@@ -654,8 +677,9 @@ void from_txt(std::mt19937* prng, IRM* const irm,
   assert(irm->domains.empty());
   assert(irm->relations.empty());
   assert(irm->domain_to_relations.empty());
-  for (const auto& [r, ds] : schema) {
-    std::visit([&](const auto& trel) { irm->add_relation(r, trel); }, ds);
+  for (const std::string& r : base_relations_first(schema)) {
+    std::visit([&](const auto& trel) { irm->add_relation(r, trel); },
+               schema.at(r));
   }
   // Add the domain entities with fixed clustering.
   T_encoding_f item_to_code = std::get<0>(encoding);
@@ -688,8 +712,8 @@ void from_txt(std::mt19937* prng, HIRM* const hirm,
   assert(hirm->irms.empty());
   assert(hirm->relation_to_code.empty());
   assert(hirm->code_to_relation.empty());
-  for (const auto& [r, ds] : schema) {
-    hirm->add_relation(prng, r, ds);
+  for (const std::string& r : base_relations_first(schema)) {
+    hirm->add_relation(prng, r, schema.at(r));
     assert(hirm->irms.size() == hirm->crp.tables.size());
     hirm->set_cluster_assignment_gibbs(prng, r, -1);
   }
-- 
2.43.0


From 8b1da1206904adfeb1ad55a418b277c92a796904 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:01 +0000
Subject: [PATCH 26/55] fix: BigramStringEmission counted its initial bias as
 observed data

---
 cxx/emissions/bigram_string.cc | 15 ++++++++++++---
 cxx/emissions/bigram_string.hh |  6 ++++++
 2 files changed, 18 insertions(+), 3 deletions(-)

diff --git a/cxx/emissions/bigram_string.cc b/cxx/emissions/bigram_string.cc
index c37a129..8bb1a04 100644
--- a/cxx/emissions/bigram_string.cc
+++ b/cxx/emissions/bigram_string.cc
@@ -28,7 +28,7 @@ BigramStringEmission::BigramStringEmission() {
   // substitutions models, because by default they insert too much (i.e.,
   // no evidence of insertions being rare) and treat substitutions as just
   // as likely as matches.
-  double initial_bias = (double) num_contexts * num_contexts;
+  initial_bias = (double) num_contexts * num_contexts;
   for (int i = 0; i < num_contexts; ++i) {
     insertions[i].incorporate(0, initial_bias);
     substitutions[i].incorporate(i, initial_bias);
@@ -195,13 +195,22 @@ double BigramStringEmission::logp(
   return new_lp - orig_lp;
 }
 
+double BigramStringEmission::initial_bias_logp_score(
+    const DirichletCategorical& dist) const {
+  const double a = dist.alpha * dist.counts.size();
+  return lgamma(a) - lgamma(a + initial_bias) +
+         lgamma(dist.alpha + initial_bias) - lgamma(dist.alpha);
+}
+
 double BigramStringEmission::logp_score() const {
+  // The initial biases are part of the prior and not of the data, so they don't
+  // count towards the score.
   double lp = 0.0;
   for (const auto &i : insertions) {
-    lp += i.logp_score();
+    lp += i.logp_score() - initial_bias_logp_score(i);
   }
   for (const auto &s : substitutions) {
-    lp += s.logp_score();
+    lp += s.logp_score() - initial_bias_logp_score(s);
   }
   return lp;
 }
diff --git a/cxx/emissions/bigram_string.hh b/cxx/emissions/bigram_string.hh
index 733649a..8c17f31 100644
--- a/cxx/emissions/bigram_string.hh
+++ b/cxx/emissions/bigram_string.hh
@@ -50,6 +50,12 @@ class BigramStringEmission : public Emission<std::string> {
       const std::vector<double>& weights);
 
  private:
+  // The weight of the initial bias in each of insertions and substitutions.
+  double initial_bias;
+
+  // The part of dist.logp_score() that comes from the initial bias.
+  double initial_bias_logp_score(const DirichletCategorical& dist) const;
+
   // This copy constructor is actually factually private, because it is only
   // intended to be used in the logp(x) method.
   BigramStringEmission(const BigramStringEmission& bse) = default;
-- 
2.43.0


From d3ccee32cb505a50b66639ac7713a442b5a2170c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:42 +0000
Subject: [PATCH 27/55] fix: pclean could not save its clusters because the
 record class had no names

---
 cxx/pclean/pclean_lib.cc | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/cxx/pclean/pclean_lib.cc b/cxx/pclean/pclean_lib.cc
index 25dcbbe..be6c5ab 100644
--- a/cxx/pclean/pclean_lib.cc
+++ b/cxx/pclean/pclean_lib.cc
@@ -96,5 +96,15 @@ T_encoding make_dummy_encoding_from_gendb(const GenDB& gendb) {
     }
   }
 
+  // The rows of the record class aren't the reference values of any class, so
+  // name them (and every other entity of the model) here.
+  for (const auto& [unused_table, irm] : gendb.hirm->irms) {
+    for (const auto& [domain, irm_domain] : irm->domains) {
+      for (const T_item& item : irm_domain->items) {
+        code_to_item[domain][item] = domain + ":" + std::to_string(item);
+      }
+    }
+  }
+
   return std::make_pair(item_to_code, code_to_item);
 }
-- 
2.43.0


From dc3f99493e19260b5ca712a66cd30cdba6945ea7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:33 +0000
Subject: [PATCH 28/55] fix: pclean added held-out rows and samples to the rows
 of the training data

---
 cxx/pclean/csv.hh        | 5 +++++
 cxx/pclean/pclean.cc     | 6 ++++--
 cxx/pclean/pclean_lib.cc | 7 ++++---
 cxx/pclean/pclean_lib.hh | 6 ++++--
 4 files changed, 17 insertions(+), 7 deletions(-)

diff --git a/cxx/pclean/csv.hh b/cxx/pclean/csv.hh
index 0d5fe80..8d7681d 100644
--- a/cxx/pclean/csv.hh
+++ b/cxx/pclean/csv.hh
@@ -27,6 +27,11 @@ class DataFrame {
   bool to_csv(const std::string& filename);
   bool to_csv(std::ostream& os);
 
+  // Returns the number of rows.
+  int num_rows() const {
+    return data.empty() ? 0 : data.begin()->second.size();
+  }
+
   std::vector<std::string> columns;
 
   // data['column_name'] holds the data for that column.
diff --git a/cxx/pclean/pclean.cc b/cxx/pclean/pclean.cc
index 0284376..1a1a444 100644
--- a/cxx/pclean/pclean.cc
+++ b/cxx/pclean/pclean.cc
@@ -93,6 +93,7 @@ int main(int argc, char** argv) {
   // Incorporate observations.
   std::cout << "Incorporating observations ...\n";
   incorporate_observations(&prng, &gendb, df);
+  int next_row = df.num_rows();
 
   // Run inference
   std::cout << "Running inference ...\n";
@@ -121,7 +122,8 @@ int main(int argc, char** argv) {
     DataFrame heldout_df = DataFrame::from_csv(heldout_fn);
     std::cout << "Incorporating held out observations ...\n";
     double lp1 = gendb.logp_score();
-    incorporate_observations(&prng, &gendb, heldout_df);
+    incorporate_observations(&prng, &gendb, heldout_df, next_row);
+    next_row += heldout_df.num_rows();
     double lp2 = gendb.logp_score();
     std::cout << "Log likelihood of held out data is " << (lp2 - lp1) << std::endl;
   }
@@ -131,7 +133,7 @@ int main(int argc, char** argv) {
     std::string samples_out = result["output"].as<std::string>() + ".samples";
     std::cout << "Generating " << num_samples << " samples\n";
     DataFrame samples_df = make_pclean_samples(
-        num_samples, df.data.begin()->second.size(), &gendb, &prng);
+        num_samples, next_row, &gendb, &prng);
     std::cout << "Writing samples to " << samples_out << " ...\n";
     samples_df.to_csv(samples_out);
   }
diff --git a/cxx/pclean/pclean_lib.cc b/cxx/pclean/pclean_lib.cc
index be6c5ab..6705beb 100644
--- a/cxx/pclean/pclean_lib.cc
+++ b/cxx/pclean/pclean_lib.cc
@@ -11,8 +11,9 @@
 
 void incorporate_observations(std::mt19937* prng,
                               GenDB *gendb,
-                              const DataFrame& df) {
-  int num_rows = df.data.begin()->second.size();
+                              const DataFrame& df,
+                              int start_row) {
+  int num_rows = df.num_rows();
   for (int i = 0; i < num_rows; i++) {
     std::map<std::string, ObservationVariant> row_values;
     for (const auto& col : df.data) {
@@ -50,7 +51,7 @@ void incorporate_observations(std::mt19937* prng,
     // TODO(emilyaf): Consider using new_rows_have_unique_entities=false
     // after entity transitions are allowed and numeric stability issues
     // are addressed.
-    gendb->incorporate(prng, std::make_pair(i, row_values), true);
+    gendb->incorporate(prng, std::make_pair(start_row + i, row_values), true);
   }
 }
 
diff --git a/cxx/pclean/pclean_lib.hh b/cxx/pclean/pclean_lib.hh
index a763294..11a16f4 100644
--- a/cxx/pclean/pclean_lib.hh
+++ b/cxx/pclean/pclean_lib.hh
@@ -13,10 +13,12 @@
 // For each non-missing value in the DataFrame df, create an
 // observation and incorporate it into the GenDB.  The column name of the value
 // is used as the relation name, and each entity in each domain is given
-// its own unique value.
+// its own unique value.  The rows get the ids start_row, start_row + 1, ...;
+// all existing rows added to gendb should have ids < start_row.
 void incorporate_observations(std::mt19937* prng,
                               GenDB *gendb,
-                              const DataFrame& df);
+                              const DataFrame& df,
+                              int start_row = 0);
 
 // Return a dataframe of num_samples samples from the GenDB.
 // All existing rows added to gendb should have ids < start_row.
-- 
2.43.0


From 6bb8eed27118df11fd89e06ad1e5ea643fb2ef20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:37 +0000
Subject: [PATCH 29/55] fix: the sample table written by pclean was empty

---
 cxx/pclean/pclean_lib.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/cxx/pclean/pclean_lib.cc b/cxx/pclean/pclean_lib.cc
index 6705beb..29c2d34 100644
--- a/cxx/pclean/pclean_lib.cc
+++ b/cxx/pclean/pclean_lib.cc
@@ -66,7 +66,7 @@ void make_pclean_sample(
         query_field.class_path.begin(), query_field.class_path.end(),
         class_item);
 
-    (*query_values)[query_field.name] = gendb->hirm->sample_and_incorporate_relation(
+    (*query_values)[name] = gendb->hirm->sample_and_incorporate_relation(
         prng, query_field.name, entities);
   }
 }
@@ -74,6 +74,10 @@ void make_pclean_sample(
 DataFrame make_pclean_samples(int num_samples, int start_row, GenDB *gendb,
                               std::mt19937* prng) {
   DataFrame df;
+  for (const auto& [name, unused_query_field] : gendb->schema.query.fields) {
+    df.columns.push_back(name);
+    df.data[name] = {};
+  }
   for (int i = 0; i < num_samples; i++) {
      std::map<std::string, std::string> query_values;
      make_pclean_sample(prng, gendb, start_row + i, &query_values);
-- 
2.43.0


From ef2d8d312d558974e5b6bd02d5798c2cd7c536f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:21 +0000
Subject: [PATCH 30/55] fix: CSV fields with commas, quotes or only spaces were
 not written and read correctly

---
 cxx/pclean/csv.cc | 105 +++++++++++++++++++++++++++++++++-------------
 1 file changed, 77 insertions(+), 28 deletions(-)

diff --git a/cxx/pclean/csv.cc b/cxx/pclean/csv.cc
index e9f527f..9d16fdc 100644
--- a/cxx/pclean/csv.cc
+++ b/cxx/pclean/csv.cc
@@ -2,8 +2,67 @@
 
 #include <cassert>
 #include <cctype>
+#include <cstdlib>
 #include <fstream>
-#include <sstream>
+
+// Splits a line at its commas.  A field that starts with a double quote ends
+// with a double quote, may contain commas, and has its quotes doubled.
+static std::vector<std::string> split_csv_line(const std::string& line) {
+  std::vector<std::string> parts;
+  size_t i = 0;
+  while (true) {
+    std::string part;
+    size_t quoted_length = 0;
+    if (i < line.size() && line[i] == '"') {
+      ++i;
+      while (i < line.size()) {
+        if (line[i] == '"') {
+          ++i;
+          if (i == line.size() || line[i] != '"') {
+            break;
+          }
+        }
+        part += line[i++];
+      }
+      quoted_length = part.size();
+    }
+    while (i < line.size() && line[i] != ',') {
+      part += line[i++];
+    }
+    // Erase white space from end of part
+    while (part.size() > quoted_length &&
+           isspace(static_cast<unsigned char>(part.back()))) {
+      part.pop_back();
+    }
+    parts.push_back(part);
+    if (i == line.size()) {
+      return parts;
+    }
+    ++i;
+  }
+}
+
+// Writes a field such that split_csv_line reads it back.
+static void write_csv_field(std::ostream& os, const std::string& field,
+                            bool only_field) {
+  bool needs_quotes =
+      field.empty() ? only_field
+                    : (field.find(',') != std::string::npos ||
+                       field.front() == '"' ||
+                       isspace(static_cast<unsigned char>(field.back())));
+  if (!needs_quotes) {
+    os << field;
+    return;
+  }
+  os << '"';
+  for (const char c : field) {
+    if (c == '"') {
+      os << '"';
+    }
+    os << c;
+  }
+  os << '"';
+}
 
 DataFrame DataFrame::from_csv(
     const std::string& filename, const std::vector<std::string>& column_names) {
@@ -35,36 +94,27 @@ DataFrame DataFrame::from_csv(
   std::string line;
   while (std::getline(is, line)) {
     // TODO(thomawc): Strip off comments started with a #
-    if (line.empty()) {
+    if (line.empty() || line == "\r") {
       continue;
     }
 
-    std::stringstream ss(line);
-    std::string part;
-    size_t i = 0;
-    // TODO(thomaswc): Handle quoted fields
-    while (std::getline(ss, part, ',')) {
-      // Erase white space from end of part
-      while (isspace(part.back())) {
-        part.pop_back();
+    std::vector<std::string> parts = split_csv_line(line);
+    if (first_line && column_names.empty()) {
+      if (parts.back().empty() && line.back() == ',') {
+        parts.pop_back();
       }
-      if (first_line && column_names.empty()) {
-        df.columns.push_back(part);
-        df.data[part] = {};
-        continue;
+      df.columns = parts;
+      for (const auto& c : df.columns) {
+        df.data[c] = {};
       }
-
-      df.data[df.columns[i++]].push_back(part);
-    }
-    if (!first_line) {
-      if (line.back() == ',') {
-        // std::getline is broken and won't let the last field be empty.
-        df.data[df.columns[i++]].push_back("");
+    } else {
+      if (parts.size() != df.columns.size()) {
+        printf("Found %ld instead of the %ld expected columns in line\n%s\n",
+               parts.size(), df.columns.size(), line.c_str());
+        std::exit(1);
       }
-      if (i != df.columns.size()) {
-        printf("Only found %ld out of %ld expected columns in line\n%s\n",
-               i, df.columns.size(), line.c_str());
-        assert(false);
+      for (size_t i = 0; i < parts.size(); ++i) {
+        df.data[df.columns[i]].push_back(parts[i]);
       }
     }
     first_line = false;
@@ -84,7 +134,6 @@ bool DataFrame::to_csv(const std::string& filename) {
 }
 
 bool DataFrame::to_csv(std::ostream& os) {
-  // TODO(thomaswc): Quote column names or data items that contain commas.
   if (columns.size() == 0) {
     return true;
   }
@@ -92,7 +141,7 @@ bool DataFrame::to_csv(std::ostream& os) {
     if (j != 0) {
       os << ",";
     }
-    os << columns[j];
+    write_csv_field(os, columns[j], columns.size() == 1);
   }
   os << "\n";
 
@@ -102,7 +151,7 @@ bool DataFrame::to_csv(std::ostream& os) {
       if (j != 0) {
         os << ",";
       }
-      os << data[columns[j]][i];
+      write_csv_field(os, data[columns[j]][i], columns.size() == 1);
     }
     os << "\n";
   }
-- 
2.43.0


From 6424c2cdebdfde64381cba88f37d464db95f6b5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:04 +0000
Subject: [PATCH 31/55] fix: files that could not be opened, read or written
 were reported as success

---
 cxx/hirm_main.cc     |  6 +++++
 cxx/pclean/csv.cc    | 11 +++++----
 cxx/pclean/io.cc     |  4 ++++
 cxx/pclean/pclean.cc |  6 ++++-
 cxx/util_io.cc       | 57 ++++++++++++++++++++++++++++++++++++--------
 5 files changed, 69 insertions(+), 15 deletions(-)

diff --git a/cxx/hirm_main.cc b/cxx/hirm_main.cc
index 9cfb44a..31872b4 100644
--- a/cxx/hirm_main.cc
+++ b/cxx/hirm_main.cc
@@ -3,6 +3,7 @@
 
 #include <cstdio>
 #include <ctime>
+#include <filesystem>
 #include <iostream>
 
 #include "cxxopts.hpp"
@@ -53,6 +54,11 @@ int main(int argc, char** argv) {
   bool verbose = result["verbose"].as<bool>();
   int num_samples = result["samples"].as<int>();
   std::string path_clusters = result["load"].as<std::string>();
+  if (!path_clusters.empty() && !std::filesystem::exists(path_clusters)) {
+    std::cout << "there are no clusters at " << path_clusters
+              << "; starting without" << std::endl;
+    path_clusters = "";
+  }
   std::string mode = result["mode"].as<std::string>();
 
   if (mode != "hirm" && mode != "irm") {
diff --git a/cxx/pclean/csv.cc b/cxx/pclean/csv.cc
index 9d16fdc..117d865 100644
--- a/cxx/pclean/csv.cc
+++ b/cxx/pclean/csv.cc
@@ -1,6 +1,5 @@
 #include "pclean/csv.hh"
 
-#include <cassert>
 #include <cctype>
 #include <cstdlib>
 #include <fstream>
@@ -70,7 +69,7 @@ DataFrame DataFrame::from_csv(
 
   if (!f.is_open()) {
     printf("Unable to open CSV file %s\n", filename.c_str());
-    assert(false);
+    std::exit(1);
   }
 
   DataFrame df = DataFrame::from_csv(f, column_names);
@@ -119,6 +118,10 @@ DataFrame DataFrame::from_csv(
     }
     first_line = false;
   }
+  if (is.bad()) {
+    printf("Error reading CSV file\n");
+    std::exit(1);
+  }
 
   return df;
 }
@@ -130,7 +133,7 @@ bool DataFrame::to_csv(const std::string& filename) {
   }
   bool ok = to_csv(fp);
   fp.close();
-  return ok;
+  return ok && fp.good();
 }
 
 bool DataFrame::to_csv(std::ostream& os) {
@@ -155,6 +158,6 @@ bool DataFrame::to_csv(std::ostream& os) {
     }
     os << "\n";
   }
-  return true;
+  return os.good();
 }
 
diff --git a/cxx/pclean/io.cc b/cxx/pclean/io.cc
index c4e0325..f63d171 100644
--- a/cxx/pclean/io.cc
+++ b/cxx/pclean/io.cc
@@ -16,6 +16,10 @@ bool read_schema_file(const std::string& path, PCleanSchema* schema) {
   }
 
   bool success = read_schema(f, schema);
+  if (f.bad()) {
+    printf("Error reading PClean schema file %s\n", path.c_str());
+    success = false;
+  }
 
   f.close();
 
diff --git a/cxx/pclean/pclean.cc b/cxx/pclean/pclean.cc
index 1a1a444..4488522 100644
--- a/cxx/pclean/pclean.cc
+++ b/cxx/pclean/pclean.cc
@@ -74,6 +74,7 @@ int main(int argc, char** argv) {
   std::cout << "Reading schema file from " << schema_fn << "\n";
   if (!read_schema_file(schema_fn, &pclean_schema)) {
     std::cout << "Error reading schema file" << schema_fn << "\n";
+    return 1;
   }
 
   // Make GenDB
@@ -135,7 +136,10 @@ int main(int argc, char** argv) {
     DataFrame samples_df = make_pclean_samples(
         num_samples, next_row, &gendb, &prng);
     std::cout << "Writing samples to " << samples_out << " ...\n";
-    samples_df.to_csv(samples_out);
+    if (!samples_df.to_csv(samples_out)) {
+      std::cout << "Error writing samples to " << samples_out << "\n";
+      return 1;
+    }
   }
 
   return 0;
diff --git a/cxx/util_io.cc b/cxx/util_io.cc
index b826b21..71aa726 100644
--- a/cxx/util_io.cc
+++ b/cxx/util_io.cc
@@ -6,6 +6,7 @@
 #include <cstdio>
 #include <cstdlib>
 #include <fstream>
+#include <ios>
 #include <map>
 #include <set>
 #include <sstream>
@@ -16,6 +17,32 @@
 
 #include "util_parse.hh"
 
+// Exits the program with an error unless the file could be opened.
+static void check_opened(const std::ios& fp, const std::string& path) {
+  if (!fp.good()) {
+    printf("Unable to open file %s\n", path.c_str());
+    std::exit(1);
+  }
+}
+
+// Exits the program with an error unless the file was read to its end.
+static void check_read(const std::ios& fp, const std::string& path) {
+  if (fp.bad()) {
+    printf("Error reading file %s\n", path.c_str());
+    std::exit(1);
+  }
+}
+
+// Closes a file, and exits the program with an error unless everything was
+// written to it.
+static void close_written(std::ofstream& fp, const std::string& path) {
+  fp.close();
+  if (!fp.good()) {
+    printf("Error writing file %s\n", path.c_str());
+    std::exit(1);
+  }
+}
+
 void verify_noisy_relation_domains(const T_schema& schema) {
   for (const auto& [relname, trelation] : schema) {
     std::visit(
@@ -68,7 +95,7 @@ void verify_noisy_relation_domains(const T_schema& schema) {
 
 T_schema load_schema(const std::string& path) {
   std::ifstream fp(path, std::ifstream::in);
-  assert(fp.good());
+  check_opened(fp, path);
 
   T_schema schema;
   std::string line;
@@ -168,6 +195,7 @@ T_schema load_schema(const std::string& path) {
       schema[relname] = relation;
     }
   }
+  check_read(fp, path);
   fp.close();
   verify_noisy_relation_domains(schema);
   return schema;
@@ -175,12 +203,14 @@ T_schema load_schema(const std::string& path) {
 
 T_observations load_observations(const std::string& path, T_schema& schema) {
   std::ifstream fp(path, std::ifstream::in);
-  assert(fp.good());
+  check_opened(fp, path);
 
   T_observations observations;
   std::string line;
   while (std::getline(fp, line)) {
     std::istringstream stream(line);
+    // Running out of memory must not look like the end of the line.
+    stream.exceptions(std::ios::badbit);
 
     std::string value_str;
     std::string relname;
@@ -207,6 +237,7 @@ T_observations load_observations(const std::string& path, T_schema& schema) {
     auto entry = std::make_tuple(items, value_str);
     observations[relname].push_back(entry);
   }
+  check_read(fp, path);
   fp.close();
 
   // Update the schema to indicate which relations have observations. For now,
@@ -249,9 +280,9 @@ void write_observations(const std::string& path,
                         const T_encoding& encoding,
                         std::variant<IRM*, HIRM*> h_irm) {
   std::ofstream fp(path);
-  assert(fp.good());
+  check_opened(fp, path);
   write_observations(fp, observations, encoding, h_irm);
-  fp.close();
+  close_written(fp, path);
 }
 
 // Assumes that T_item is integer.
@@ -496,23 +527,23 @@ void to_txt(std::ostream& fp, const HIRM& hirm, const T_encoding& encoding) {
 void to_txt(const std::string& path, const IRM& irm,
             const T_encoding& encoding) {
   std::ofstream fp(path);
-  assert(fp.good());
+  check_opened(fp, path);
   to_txt(fp, irm, encoding);
-  fp.close();
+  close_written(fp, path);
 }
 
 void to_txt(const std::string& path, const HIRM& hirm,
             const T_encoding& encoding) {
   std::ofstream fp(path);
-  assert(fp.good());
+  check_opened(fp, path);
   to_txt(fp, hirm, encoding);
-  fp.close();
+  close_written(fp, path);
 }
 
 std::map<std::string, std::map<int, std::vector<std::string>>>
 load_clusters_irm(const std::string& path) {
   std::ifstream fp(path, std::ifstream::in);
-  assert(fp.good());
+  check_opened(fp, path);
 
   std::map<std::string, std::map<int, std::vector<std::string>>> clusters;
   std::string line;
@@ -522,6 +553,8 @@ load_clusters_irm(const std::string& path) {
       continue;
     }
     std::istringstream stream(line);
+    // Running out of memory must not look like the end of the line.
+    stream.exceptions(std::ios::badbit);
 
     std::string domain;
     int table;
@@ -536,6 +569,7 @@ load_clusters_irm(const std::string& path) {
     assert(clusters[domain].count(table) == 0);
     clusters[domain][table] = items;
   }
+  check_read(fp, path);
   fp.close();
   return clusters;
 }
@@ -563,7 +597,7 @@ std::tuple<std::map<int, std::vector<std::string>>,  // x[table] = {relation
            >
 load_clusters_hirm(const std::string& path) {
   std::ifstream fp(path, std::ifstream::in);
-  assert(fp.good());
+  check_opened(fp, path);
 
   std::map<int, std::vector<std::string>> relations;
   std::map<int, std::map<std::string, std::map<int, std::vector<std::string>>>>
@@ -574,6 +608,8 @@ load_clusters_hirm(const std::string& path) {
 
   while (std::getline(fp, line)) {
     std::istringstream stream(line);
+    // Running out of memory must not look like the end of the line.
+    stream.exceptions(std::ios::badbit);
     if (line.size() == 0) {
       // Start of new IRM
       irmc = -1;
@@ -634,6 +670,7 @@ load_clusters_hirm(const std::string& path) {
       assert(false);
     }
   }
+  check_read(fp, path);
   fp.close();
   return std::make_pair(relations, irms);
 }
-- 
2.43.0


From 68b0064679e34f74f973ab497314e7821af7d856 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:17 +0000
Subject: [PATCH 32/55] fix: hirm released its model with free instead of
 delete

---
 cxx/hirm_main.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cxx/hirm_main.cc b/cxx/hirm_main.cc
index 31872b4..b2e8a0d 100644
--- a/cxx/hirm_main.cc
+++ b/cxx/hirm_main.cc
@@ -126,7 +126,7 @@ int main(int argc, char** argv) {
     }
 
     // Free
-    free(irm);
+    delete irm;
     return 0;
   }
 
@@ -166,7 +166,7 @@ int main(int argc, char** argv) {
     }
 
     // Free
-    free(hirm);
+    delete hirm;
     return 0;
   }
 }
-- 
2.43.0


From 877f12f1e0077355fd67fbebe4bf2409cbbee73d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:35 +0000
Subject: [PATCH 33/55] fix: held-out observations marked relations of the
 training schema as observed

---
 cxx/hirm_main.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/cxx/hirm_main.cc b/cxx/hirm_main.cc
index b2e8a0d..3b28cd0 100644
--- a/cxx/hirm_main.cc
+++ b/cxx/hirm_main.cc
@@ -87,7 +87,10 @@ int main(int argc, char** argv) {
     encoding_observations = observations;
   } else {
     std::cout << "loading held out observations from " << held_out << std::endl;
-    heldout_obs = load_observations(held_out, schema);
+    // The model is learned from the other observations only, so the held out
+    // ones must not mark relations of its schema as observed.
+    T_schema heldout_schema = schema;
+    heldout_obs = load_observations(held_out, heldout_schema);
     encoding_observations = merge_observations(observations, heldout_obs);
   }
 
-- 
2.43.0


From a66c869000c92fc20514f1648c6389f1d46c1371 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:13 +0000
Subject: [PATCH 34/55] fix: running out of memory while parsing a value was
 taken for the end of the value

---
 cxx/distributions/adapter.hh          | 5 ++++-
 cxx/distributions/get_distribution.cc | 1 +
 cxx/hirm.cc                           | 1 +
 cxx/relation.hh                       | 4 +++-
 4 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/cxx/distributions/adapter.hh b/cxx/distributions/adapter.hh
index 69461e3..225892d 100644
--- a/cxx/distributions/adapter.hh
+++ b/cxx/distributions/adapter.hh
@@ -22,12 +22,15 @@ class DistributionAdapter : public Distribution<std::string> {
 
   S from_string(const std::string& x) const {
     S s = S();
-    std::istringstream(x) >> s;
+    std::istringstream is(x);
+    is.exceptions(std::ios::badbit);
+    is >> s;
     return s;
   }
 
   std::string to_string(const S& s) const {
     std::ostringstream os;
+    os.exceptions(std::ios::badbit);
     os << s;
     return os.str();
   }
diff --git a/cxx/distributions/get_distribution.cc b/cxx/distributions/get_distribution.cc
index abe21c1..3a42f3c 100644
--- a/cxx/distributions/get_distribution.cc
+++ b/cxx/distributions/get_distribution.cc
@@ -30,6 +30,7 @@ DistributionSpec::DistributionSpec(
 
     std::string part;
     std::istringstream iss{args_str};
+    iss.exceptions(std::ios::badbit);
     while (std::getline(iss, part, ',')) {
       assert(part.find('=') != std::string::npos);
       std::string arg_name = part.substr(0, part.find('='));
diff --git a/cxx/hirm.cc b/cxx/hirm.cc
index e017aa3..5e241b1 100644
--- a/cxx/hirm.cc
+++ b/cxx/hirm.cc
@@ -364,6 +364,7 @@ std::string HIRM::sample_and_incorporate_relation(std::mt19937* prng,
         get_relation(r));
   }
   std::ostringstream ss;
+  ss.exceptions(std::ios::badbit);
   std::visit([&](auto rel) { ss << rel->sample_and_incorporate(prng, items); },
              get_relation(r));
   return ss.str();
diff --git a/cxx/relation.hh b/cxx/relation.hh
index f3f090d..edcc7a8 100644
--- a/cxx/relation.hh
+++ b/cxx/relation.hh
@@ -125,8 +125,10 @@ class Relation {
 
   // Convert a string to ValueType.
   ValueType from_string(const std::string& s) {
-    ValueType t;
+    ValueType t = ValueType();
     std::stringstream ss(s);
+    // Running out of memory must not look like the end of the value.
+    ss.exceptions(std::ios::badbit);
     ss >> t;
     return t;
   };
-- 
2.43.0


From 23ab7298913172a2729104d4556791eb694f30e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:44 +0000
Subject: [PATCH 35/55] fix: Normal and ZeroMeanNormal variance never negative
 by rounding

---
 cxx/distributions/normal.cc           | 3 +++
 cxx/distributions/zero_mean_normal.cc | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/cxx/distributions/normal.cc b/cxx/distributions/normal.cc
index 72ea8d7..3689977 100644
--- a/cxx/distributions/normal.cc
+++ b/cxx/distributions/normal.cc
@@ -3,6 +3,7 @@
 
 #include "normal.hh"
 
+#include <algorithm>
 #include <cassert>
 #include <cmath>
 #include <numbers>
@@ -22,6 +23,8 @@ void Normal::incorporate(const double& x, double weight) {
   double old_mean = mean;
   mean += weight * (x - mean) / N;
   var += weight * ((x - mean) * (x - old_mean) - var) / N;
+  // Rounding can leave a negative variance after a value is unincorporated.
+  var = std::max(var, 0.0);
 }
 
 void Normal::posterior_hypers(double* mprime, double* sprime) const {
diff --git a/cxx/distributions/zero_mean_normal.cc b/cxx/distributions/zero_mean_normal.cc
index 10a9a9b..67c5673 100644
--- a/cxx/distributions/zero_mean_normal.cc
+++ b/cxx/distributions/zero_mean_normal.cc
@@ -3,6 +3,7 @@
 
 #include "zero_mean_normal.hh"
 
+#include <algorithm>
 #include <cassert>
 #include <cmath>
 #include <numbers>
@@ -25,6 +26,8 @@ void ZeroMeanNormal::incorporate(const double& x, double weight) {
     return;
   }
   var += weight * (x * x - var) / N;
+  // Rounding can leave a negative variance after a value is unincorporated.
+  var = std::max(var, 0.0);
 }
 
 double ZeroMeanNormal::logp(const double& x) const {
-- 
2.43.0


From 192eff76862a76e9aab8c1b8aa19ebac05234b67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:46 +0000
Subject: [PATCH 36/55] fix: restored Python domains draw from the given random
 state

---
 src/util_io.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util_io.py b/src/util_io.py
index f74fe0e..add2bc1 100644
--- a/src/util_io.py
+++ b/src/util_io.py
@@ -130,7 +130,7 @@ def to_dict_Domain(x):
 def from_dict_Domain(d, prng=None):
     x = hirm.Domain(d['name'], prng=prng)
     x.items = set(d['items'])
-    x.crp = from_dict_CRP(d['crp'])
+    x.crp = from_dict_CRP(d['crp'], prng=prng)
     return x
 
 def to_dict_Relation(x):
-- 
2.43.0


From 0e31017e3b15d1baca16b9e02d90e45d6b3de388 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:46 +0000
Subject: [PATCH 37/55] fix: Python CRP without customers keeps its
 concentration

---
 src/hirm.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/hirm.py b/src/hirm.py
index d719a48..8ab0d2e 100644
--- a/src/hirm.py
+++ b/src/hirm.py
@@ -107,6 +107,8 @@ class CRP:
             del crp_dist[max(crp_dist)]
         return crp_dist
     def transition_alpha(self):
+        if self.N == 0:
+            return
         grid = log_linspace(1/self.N, self.N+1, 30)
         log_weights = []
         for g in grid:
-- 
2.43.0


From 338bb0057cb0830ba2e1f7f5e071f17811563a2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:46 +0000
Subject: [PATCH 38/55] fix: Python BetaBernoulli samples 1 with the
 probability of 1

---
 src/hirm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hirm.py b/src/hirm.py
index 8ab0d2e..0dc34a7 100644
--- a/src/hirm.py
+++ b/src/hirm.py
@@ -45,7 +45,7 @@ class BetaBernoulli:
         return n - d
     def sample(self):
         p = math.exp(self.logp(1))
-        return self.prng.choices([0, 1], [p, 1-p])[0]
+        return self.prng.choices([0, 1], [1-p, p])[0]
     def __repr__(self):
         return 'BetaBernoulli(alpha=%f, beta=%f, N=%d, s=%d)' \
             % (self.alpha, self.beta, self.N, self.s)
-- 
2.43.0


From 8a7b3ff44fc71b3a8a8ae60e5abe0fa4350d2905 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:46 +0000
Subject: [PATCH 39/55] fix: Python dictionary form does not share its schema
 with the model

---
 src/util_io.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/util_io.py b/src/util_io.py
index add2bc1..54483bf 100644
--- a/src/util_io.py
+++ b/src/util_io.py
@@ -163,14 +163,14 @@ def from_dict_Relation(d, prng=None):
 
 def to_dict_IRM(x):
     return {
-        'schema': x.schema,
+        'schema': dict(x.schema),
         'domains': {k: to_dict_Domain(v) for k,v in x.domains.items()},
         'relations':  {k: to_dict_Relation(v) for k,v in x.relations.items()},
         'domain_to_relations': {k: list(v) for k,v in x.domain_to_relations.items()}
     }
 def from_dict_IRM(d, prng=None):
     x = hirm.IRM({}, prng=prng)
-    x.schema = d['schema']
+    x.schema = dict(d['schema'])
     x.domains = {k: from_dict_Domain(v, prng=prng) for k,v in d['domains'].items()}
     x.relations = {k: from_dict_Relation(v, prng=prng) for k,v in d['relations'].items()}
     x.domain_to_relations = {k: set(v) for k,v in d['domain_to_relations'].items()}
@@ -181,13 +181,13 @@ def from_dict_IRM(d, prng=None):
 
 def to_dict_HIRM(x):
     return {
-        'schema': x.schema,
+        'schema': dict(x.schema),
         'crp': to_dict_CRP(x.crp),
         'irms' : {k: to_dict_IRM(v) for k, v in x.irms.items()}
     }
 def from_dict_HIRM(d, prng=None):
     x = hirm.HIRM({}, prng=prng)
-    x.schema = d['schema']
+    x.schema = dict(d['schema'])
     x.crp = from_dict_CRP(d['crp'], prng=prng)
     x.irms = {int(k): from_dict_IRM(v, prng=prng) for k,v in d['irms'].items()}
     return x
-- 
2.43.0


From fbf603ff8e29aa723c0d7e6eebc22e99ddecd336 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:46 +0000
Subject: [PATCH 40/55] fix: Python inference is reproducible and shuffles the
 items it visits

---
 src/hirm.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/hirm.py b/src/hirm.py
index 0dc34a7..6f660ab 100644
--- a/src/hirm.py
+++ b/src/hirm.py
@@ -255,7 +255,7 @@ class Relation:
         """Return mapping from cluster to all items in that cluster
         that have domain.item in at least one dimension."""
         cluster_to_items_list = {}
-        for items in self.data_r[domain.name][item]:
+        for items in sorted(self.data_r[domain.name][item], key=repr):
             cluster = self.get_cluster_assignment(items)
             if cluster not in cluster_to_items_list:
                 cluster_to_items_list[cluster] = []
@@ -355,7 +355,7 @@ class Relation:
         # More efficient than calling incorporate/unincorporate.
         table_current = domain.get_cluster_assignment(item)
         assert table != table_current
-        for items in self.data_r[domain.name][item]:
+        for items in sorted(self.data_r[domain.name][item], key=repr):
             x = self.data[items]
             # Remove data point from current cluster.
             z_prev = self.get_cluster_assignment(items)
@@ -396,13 +396,15 @@ class IRM:
             domains = list(self.domains)
             self.prng.shuffle(domains)
         for d in domains:
-            items = list(self.domains[d].items)
+            # The order of a set depends on its history and on the process.
+            items = sorted(self.domains[d].items, key=repr)
             self.prng.shuffle(items)
-            for item in self.domains[d].items:
+            for item in items:
                 self.transition_cluster_assignment_item(d, item)
     def transition_cluster_assignment_item(self, d, item):
         domain = self.domains[d]
-        relations = [self.relations[r] for r in self.domain_to_relations[d]]
+        relations = [self.relations[r]
+            for r in sorted(self.domain_to_relations[d])]
         crp_dist = domain.tables_weights_gibbs(item)
         # Compute probability of each table.
         tables = crp_dist.keys()
-- 
2.43.0


From 2cac8b943d778530a1383d57a71d3e12fc998ab7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:46 +0000
Subject: [PATCH 41/55] fix: Python entity moves score repeated domains jointly

---
 src/hirm.py | 48 ++++++++++++++++++++----------------------------
 1 file changed, 20 insertions(+), 28 deletions(-)

diff --git a/src/hirm.py b/src/hirm.py
index 6f660ab..063c247 100644
--- a/src/hirm.py
+++ b/src/hirm.py
@@ -251,33 +251,21 @@ class Relation:
         return logp
 
     # Implementation of exact Gibbs data probabilities.
-    def get_cluster_to_items_list(self, domain, item):
-        """Return mapping from cluster to all items in that cluster
-        that have domain.item in at least one dimension."""
+    def get_cluster_to_items_list(self, domain, item, table):
+        """Return mapping from cluster to all items that are in that cluster
+        when domain.item is at table, and that have domain.item in at least
+        one dimension."""
         cluster_to_items_list = {}
         for items in sorted(self.data_r[domain.name][item], key=repr):
-            cluster = self.get_cluster_assignment(items)
+            cluster = self.get_cluster_assignment_gibbs(
+                items, domain, item, table)
             if cluster not in cluster_to_items_list:
                 cluster_to_items_list[cluster] = []
             cluster_to_items_list[cluster].append(items)
         return cluster_to_items_list
-    def logp_gibbs_exact_current(self, items_list):
-        """Return exact proposal proposal probability for current table."""
-        z = self.get_cluster_assignment(items_list[0])
-        cluster = self.clusters[z]
-        logp0 = cluster.logp_score()
-        for items in items_list:
-            x = self.data[items]
-            # assert z == self.get_cluster_assignment(items)
-            cluster.unincorporate(x)
-        logp1 = cluster.logp_score()
-        for items in items_list:
-            x = self.data[items]
-            cluster.incorporate(x)
-        assert cluster.logp_score() == logp0
-        return logp0 - logp1
     def logp_gibbs_exact_variant(self, domain, item, table, items_list):
-        """Return exact proposal proposal probability for non-current table."""
+        """Return exact proposal proposal probability for table, when the
+        items of domain.item are not incorporated."""
         z = self.get_cluster_assignment_gibbs(items_list[0], domain, item, table)
         cluster = self.clusters.get(z, self.aux())
         logp0 = cluster.logp_score()
@@ -295,19 +283,23 @@ class Relation:
     def logp_gibbs_exact(self, domain, item, tables):
         """Return exact proposal probability of domain.item at tables."""
         # assert tables crp_dist = domain.tables_weights_gibbs(item)
-        cluster_to_items_list = self.get_cluster_to_items_list(domain, item)
-        table_current = domain.get_cluster_assignment(item)
+        # Items with domain.item in several dimensions, or whose cluster is the
+        # target of others, can only be scored once all of them are removed.
+        for items in self.data_r[domain.name][item]:
+            z = self.get_cluster_assignment(items)
+            self.clusters[z].unincorporate(self.data[items])
         logps = []
         for table in tables:
+            cluster_to_items_list = self.get_cluster_to_items_list(
+                domain, item, table)
             lp = 0
             for items_list in cluster_to_items_list.values():
-                if table == table_current:
-                    lp_cluster = self.logp_gibbs_exact_current(items_list)
-                else:
-                    lp_cluster = self.logp_gibbs_exact_variant(
-                        domain, item, table, items_list)
-                lp += lp_cluster
+                lp += self.logp_gibbs_exact_variant(
+                    domain, item, table, items_list)
             logps.append(lp)
+        for items in self.data_r[domain.name][item]:
+            z = self.get_cluster_assignment(items)
+            self.clusters[z].incorporate(self.data[items])
         return logps
 
     def logp(self, items, value):
-- 
2.43.0


From db310e9982acab6ff18acfc52864bf4161925478 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:15 +0000
Subject: [PATCH 42/55] fix: reference moves leave parts drawn from their prior
 out of the weights

transition_reference draws the row of an unseen candidate and the domain
clusters of newly referenced entities from their prior, but multiplied the
weight of the candidate with that prior once more, so that the move did not
leave the posterior distribution invariant.
---
 cxx/gendb.cc | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/cxx/gendb.cc b/cxx/gendb.cc
index bd064ae..cab7840 100644
--- a/cxx/gendb.cc
+++ b/cxx/gendb.cc
@@ -351,18 +351,18 @@ double GenDB::unincorporate_reference(
   }
 
   // Check if any entities need to be removed from IRM domain clusters (after
-  // they've been unincorporated from relations) and compute the change in logp.
-  double logp_domain_cluster = 0.;
+  // they've been unincorporated from relations). Candidates draw these from
+  // their prior, so that their logp is not part of the weight of a candidate.
   int ref_val = reference_values.at(class_name).at({ref_field, class_item});
   for (auto& [rel_name, inds] : domain_inds) {
     for (int d_ind : inds) {
       int r_ind =
           relation_reference_indices.at(rel_name).at(d_ind).at(ref_field);
-      logp_domain_cluster += unincorporate_from_domain_cluster_relation(
-          rel_name, ref_val, r_ind, unincorporated_from_domains);
+      unincorporate_from_domain_cluster_relation(rel_name, ref_val, r_ind,
+                                                 unincorporated_from_domains);
     }
   }
-  return logp_relations + logp_domain_cluster;
+  return logp_relations;
 }
 
 // Unincorporates a value and stores it. The caller also visits the base
@@ -772,7 +772,8 @@ void GenDB::transition_reference(std::mt19937* prng,
   // references to it, and it is the sole member of its entity CRP table), we
   // need to unincorporate its row from the class that it references (including
   // unincorporating all associated data from the relations associated with its
-  // attributes).
+  // attributes). The row of an unseen candidate is drawn from its prior, so that
+  // the logp of a singleton's row is not part of the weight of a candidate.
   std::map<std::string,
            std::unordered_map<T_items, ObservationVariant, H_items>>
       ref_class_relation_stored_values;  // Stores data unincorporated from
@@ -780,11 +781,10 @@ void GenDB::transition_reference(std::mt19937* prng,
   std::map<std::tuple<std::string, std::string, int>, int>
       unincorporated_from_entity_crps;
   if (singleton_entity == init_refval) {
-    logp_current +=
-        unincorporate_singleton(class_name, ref_field, class_item, ref_class,
-                                ref_class_relation_stored_values,
-                                unincorporated_from_domains[init_refval],
-                                unincorporated_from_entity_crps);
+    unincorporate_singleton(class_name, ref_field, class_item, ref_class,
+                            ref_class_relation_stored_values,
+                            unincorporated_from_domains[init_refval],
+                            unincorporated_from_entity_crps);
   }
 
   // Loop over the candidate reference values and compute the logp of each.
@@ -846,7 +846,7 @@ void GenDB::transition_reference(std::mt19937* prng,
     // the entity CRPs. Unincorporate and store the items/values corresponding
     // to the added row in the reference class and their IRM domain clusters.
     if (table == singleton_entity) {
-      logps[i] += unincorporate_singleton(
+      unincorporate_singleton(
           class_name, ref_field, class_item, ref_class,
           ref_class_relation_stored_values, unincorporated_from_domains[table],
           unincorporated_from_entity_crps);
-- 
2.43.0


From 9cab5ad9d51788716f07267791b397d82643424d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:15 +0000
Subject: [PATCH 43/55] fix: a class with references only has an empty list of
 relations

Without it, incorporating a row threw std::out_of_range.
---
 cxx/gendb.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cxx/gendb.cc b/cxx/gendb.cc
index cab7840..adf37a1 100644
--- a/cxx/gendb.cc
+++ b/cxx/gendb.cc
@@ -32,6 +32,8 @@ GenDB::GenDB(std::mt19937* prng, const PCleanSchema& schema_,
   for (const auto& [class_name, unused_class] : schema.classes) {
     entity_crps[class_name] = CRP();
     reference_values[class_name];
+    // A class may have references only.
+    class_to_relations[class_name];
   }
   for (const auto& [rel_name, trel] : hirm->schema) {
     const std::vector<std::string>& domains =
-- 
2.43.0


From ddff06e6544f3f9ea39493da7738ace953069009 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:52 +0000
Subject: [PATCH 44/55] fix: damaged schema lines are rejected instead of read
 past their end

The checks were asserts, which shipped builds compile out.
---
 cxx/util_io.cc    | 49 ++++++++++++++++++++++++++++++++++++++---------
 cxx/util_parse.cc |  2 +-
 2 files changed, 41 insertions(+), 10 deletions(-)

diff --git a/cxx/util_io.cc b/cxx/util_io.cc
index 71aa726..3a7704b 100644
--- a/cxx/util_io.cc
+++ b/cxx/util_io.cc
@@ -49,13 +49,23 @@ void verify_noisy_relation_domains(const T_schema& schema) {
         [&](const auto& trel) {
           using T = std::decay_t<decltype(trel)>;
           if constexpr (std::is_same_v<T, T_noisy_relation>) {
+            if (!schema.contains(trel.base_relation)) {
+              printf("Can not find base relation %s in schema\n",
+                     trel.base_relation.c_str());
+              std::exit(1);
+            }
             std::vector<std::string> base_domains =
                 std::visit([&](const auto& brel) { return brel.domains; },
                            schema.at(trel.base_relation));
             for (size_t i = 0; i != base_domains.size(); ++i) {
-              assert(base_domains[i] == trel.domains[i] &&
-                     "The first domains of a noisy relation must be the same "
-                     "as the domains of the base relation.");
+              if (i >= trel.domains.size() ||
+                  base_domains[i] != trel.domains[i]) {
+                printf(
+                    "The first domains of noisy relation %s must be the same "
+                    "as the domains of its base relation %s.\n",
+                    relname.c_str(), trel.base_relation.c_str());
+                std::exit(1);
+              }
             }
           }
         },
@@ -67,7 +77,7 @@ void verify_noisy_relation_domains(const T_schema& schema) {
   if (i >= tokens.size()) {                                                 \
     printf("Error parsing schema line %s: expected at least %ld tokens\n",  \
            line.c_str(), i + 1);                                            \
-    assert(false);                                                          \
+    std::exit(1);                                                           \
   }                                                                         \
   if (tokens[i].type != TokenType::expected_type) {                         \
     printf(                                                                 \
@@ -76,21 +86,28 @@ void verify_noisy_relation_domains(const T_schema& schema) {
         line.c_str(), i + 1);                                               \
     printf("Got %s of type %d instead\n", tokens[0].val.c_str(),            \
            (int)(tokens[0].type));                                          \
-    assert(false);                                                          \
+    std::exit(1);                                                           \
+  }
+
+#define TOKEN_CHECK(i)                                                      \
+  if (i >= tokens.size()) {                                                 \
+    printf("Error parsing schema line %s: expected at least %ld tokens\n",  \
+           line.c_str(), i + 1);                                            \
+    std::exit(1);                                                           \
   }
 
 #define VAL_CHECK(i, expected_val)                                          \
   if (i >= tokens.size()) {                                                 \
     printf("Error parsing schema line %s: expected at least %ld tokens\n",  \
            line.c_str(), i + 1);                                            \
-    assert(false);                                                          \
+    std::exit(1);                                                           \
   }                                                                         \
   if (tokens[i].val != expected_val) {                                      \
     printf("Error parsing schema line %s:  expected %s for %ld-th token\n", \
            line.c_str(), expected_val, i + 1);                              \
     printf("Got %s of type %d instead\n", tokens[0].val.c_str(),            \
            (int)(tokens[0].type));                                          \
-    assert(false);                                                          \
+    std::exit(1);                                                           \
   }
 
 T_schema load_schema(const std::string& path) {
@@ -102,8 +119,10 @@ T_schema load_schema(const std::string& path) {
   std::vector<Token> tokens;
   while (std::getline(fp, line)) {
     tokens.clear();
-    [[maybe_unused]] bool ok = tokenize(line, &tokens);
-    assert(ok);
+    if (!tokenize(line, &tokens)) {
+      printf("Error parsing schema line %s\n", line.c_str());
+      std::exit(1);
+    }
 
     if (tokens.empty()) {
       continue;
@@ -121,6 +140,7 @@ T_schema load_schema(const std::string& path) {
     std::string dist_name = tokens[2].val;
 
     i = 3;
+    TOKEN_CHECK(i);
     std::map<std::string, std::string> params;
     if (tokens[i].val == "[") {  // Handle parameters
       do {
@@ -131,8 +151,10 @@ T_schema load_schema(const std::string& path) {
         VAL_CHECK(i, "=");
         ++i;
 
+        TOKEN_CHECK(i);
         params[param_name] = tokens[i++].val;
 
+        TOKEN_CHECK(i);
         if ((tokens[i].val != ",") && (tokens[i].val != "]")) {
           printf(
               "Error parsing schema line %s: expected ',' or ']' after "
@@ -155,6 +177,7 @@ T_schema load_schema(const std::string& path) {
     std::vector<std::string> domains;
 
     TYPE_CHECK(i, identifier);
+    TOKEN_CHECK(i + 1);
 
     if (tokens[i + 1].val == ";") {  // We have an emission!
       base_relation = tokens[i].val;
@@ -162,8 +185,10 @@ T_schema load_schema(const std::string& path) {
     }
 
     do {
+      TYPE_CHECK(i, identifier);
       domains.push_back(tokens[i++].val);
 
+      TOKEN_CHECK(i);
       if ((tokens[i].val != ",") && (tokens[i].val != ")")) {
         printf(
             "Error parsing schema line %s: expected ',' or ')' after domain\n",
@@ -174,6 +199,12 @@ T_schema load_schema(const std::string& path) {
       }
     } while (tokens[i++].val == ",");
 
+    if (i != tokens.size()) {
+      printf("Error parsing schema line %s: unexpected %s after domains\n",
+             line.c_str(), tokens[i].val.c_str());
+      std::exit(1);
+    }
+
     if (base_relation.empty()) {  // Clean relation
       T_clean_relation relation;
       relation.domains = domains;
diff --git a/cxx/util_parse.cc b/cxx/util_parse.cc
index 3591d13..c359482 100644
--- a/cxx/util_parse.cc
+++ b/cxx/util_parse.cc
@@ -17,7 +17,7 @@ bool tokenize(std::string line, std::vector<Token>* tokens) {
     }
 
     Token t;
-    if (std::strchr(SYMBOL_CHARS, c) != NULL) {  // Symbols
+    if (c != '\0' && std::strchr(SYMBOL_CHARS, c) != NULL) {  // Symbols
       t.type = TokenType::symbol;
       t.val += c;
     } else if ((c == '"') || (c == '\'')) {  // Strings
-- 
2.43.0


From 1643ef4cf497138c99fe98e68a83fa4142325e3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:52 +0000
Subject: [PATCH 45/55] fix: damaged lines of observations are rejected

A line without items, or with too few or too many, was read out of bounds in
builds without asserts.
---
 cxx/util_io.cc | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/cxx/util_io.cc b/cxx/util_io.cc
index 3a7704b..4e4f953 100644
--- a/cxx/util_io.cc
+++ b/cxx/util_io.cc
@@ -248,11 +248,13 @@ T_observations load_observations(const std::string& path, T_schema& schema) {
     std::vector<std::string> items;
 
     if (!getline(stream, value_str, ',')) {
-      assert(false && "Error parsing schema. No comma separating value.");
+      printf("Error parsing observation %s: no value\n", line.c_str());
+      std::exit(1);
     }
 
     if (!getline(stream, relname, ',')) {
-      assert(false && "Error parsing schema. No comma separating relation.");
+      printf("Error parsing observation %s: no relation\n", line.c_str());
+      std::exit(1);
     }
 
     if (!schema.contains(relname)) {
@@ -264,7 +266,14 @@ T_observations load_observations(const std::string& path, T_schema& schema) {
     while (getline(stream, word, ',')) {
       items.push_back(word);
     }
-    assert((items.size() > 0) && "No Domain values specified.");
+    const size_t num_domains = std::visit(
+        [](const auto& trel) { return trel.domains.size(); },
+        schema.at(relname));
+    if (items.size() != num_domains) {
+      printf("Error parsing observation %s: expected %ld items, got %ld\n",
+             line.c_str(), num_domains, items.size());
+      std::exit(1);
+    }
     auto entry = std::make_tuple(items, value_str);
     observations[relname].push_back(entry);
   }
-- 
2.43.0


From 6b4249d0e50c13aa877ed198be79b6ed2cc7f688 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:52 +0000
Subject: [PATCH 46/55] fix: damaged files of clusters are rejected

The checks were asserts, which shipped builds compile out, and a table that is
not a number was read as 0.
---
 cxx/util_io.cc | 78 +++++++++++++++++++++++++++++++-------------------
 1 file changed, 49 insertions(+), 29 deletions(-)

diff --git a/cxx/util_io.cc b/cxx/util_io.cc
index 4e4f953..f3fd316 100644
--- a/cxx/util_io.cc
+++ b/cxx/util_io.cc
@@ -33,6 +33,16 @@ static void check_read(const std::ios& fp, const std::string& path) {
   }
 }
 
+// Exits the program with an error unless a line of a file is as expected.
+static void check_line(bool ok, const std::string& path,
+                       const std::string& line) {
+  if (!ok) {
+    printf("Error parsing file %s: unexpected line %s\n", path.c_str(),
+           line.c_str());
+    std::exit(1);
+  }
+}
+
 // Closes a file, and exits the program with an error unless everything was
 // written to it.
 static void close_written(std::ofstream& fp, const std::string& path) {
@@ -580,12 +590,22 @@ void to_txt(const std::string& path, const HIRM& hirm,
   close_written(fp, path);
 }
 
+int isnumeric(const std::string& s) {
+  for (char c : s) {
+    if (!isdigit(c)) {
+      return false;
+    }
+  }
+  return !s.empty() && true;
+}
+
 std::map<std::string, std::map<int, std::vector<std::string>>>
 load_clusters_irm(const std::string& path) {
   std::ifstream fp(path, std::ifstream::in);
   check_opened(fp, path);
 
   std::map<std::string, std::map<int, std::vector<std::string>>> clusters;
+  std::map<std::string, std::set<std::string>> seen;
   std::string line;
   while (std::getline(fp, line)) {
     // Ignore the new lines that are there for readability.
@@ -597,16 +617,19 @@ load_clusters_irm(const std::string& path) {
     stream.exceptions(std::ios::badbit);
 
     std::string domain;
-    int table;
+    std::string table_str;
     std::vector<std::string> items;
 
     stream >> domain;
-    stream >> table;
+    stream >> table_str;
+    check_line(isnumeric(table_str), path, line);
+    int table = std::stoi(table_str);
     for (std::string w; stream >> w;) {
+      check_line(seen[domain].insert(w).second, path, line);
       items.push_back(w);
     }
-    assert(items.size() > 0);
-    assert(clusters[domain].count(table) == 0);
+    check_line(items.size() > 0, path, line);
+    check_line(clusters[domain].count(table) == 0, path, line);
     clusters[domain][table] = items;
   }
   check_read(fp, path);
@@ -614,15 +637,6 @@ load_clusters_irm(const std::string& path) {
   return clusters;
 }
 
-int isnumeric(const std::string& s) {
-  for (char c : s) {
-    if (!isdigit(c)) {
-      return false;
-    }
-  }
-  return !s.empty() && true;
-}
-
 std::tuple<std::map<int, std::vector<std::string>>,  // x[table] = {relation
                                                      // list}
            std::map<
@@ -643,6 +657,8 @@ load_clusters_hirm(const std::string& path) {
   std::map<int, std::map<std::string, std::map<int, std::vector<std::string>>>>
       irms;
 
+  std::set<std::string> seen_relations;
+  std::map<std::string, std::set<std::string>> seen;
   std::string line;
   int irmc = 0;
 
@@ -664,53 +680,57 @@ load_clusters_hirm(const std::string& path) {
       int table = std::stoi(first);
       std::vector<std::string> items;
       for (std::string item; stream >> item;) {
+        check_line(seen_relations.insert(item).second, path, line);
         items.push_back(item);
       }
-      assert(items.size() > 0);
-      assert(relations.count(table) == 0);
+      check_line(items.size() > 0, path, line);
+      check_line(relations.count(table) == 0, path, line);
       relations[table] = items;
       continue;
     }
 
     // Parse an irm= line.
     if (first.rfind("irm=", 0) == 0) {
-      assert(irmc == -1);
-      assert(first.size() > 4);
+      check_line(irmc == -1, path, line);
       std::string x = first.substr(4);
+      check_line(isnumeric(x), path, line);
       irmc = std::stoi(x);
-      assert(irms.count(irmc) == 0);
+      check_line(irms.count(irmc) == 0, path, line);
       irms[irmc] = {};
+      seen.clear();
       continue;
     }
 
     // Parse a domain cluster.
-    assert(irmc > -1);
-    assert(irms.count(irmc) == 1);
+    check_line(irms.count(irmc) == 1, path, line);
     std::string second;
     stream >> second;
-    assert(second.size() > 0);
-    assert(isnumeric(second));
+    check_line(isnumeric(second), path, line);
     std::string& domain = first;
     int table = std::stoi(second);
     std::vector<std::string> items;
     for (std::string item; stream >> item;) {
+      check_line(seen[domain].insert(item).second, path, line);
       items.push_back(item);
     }
-    assert(items.size() > 0);
+    check_line(items.size() > 0, path, line);
     if (irms.at(irmc).count(domain) == 0) {
       irms.at(irmc)[domain] = {};
     }
-    assert(irms.at(irmc).at(domain).count(table) == 0);
+    check_line(irms.at(irmc).at(domain).count(table) == 0, path, line);
     irms.at(irmc).at(domain)[table] = items;
   }
 
-  assert(relations.size() == irms.size());
+  check_read(fp, path);
+  bool complete = relations.size() == irms.size();
   for (const auto& [t, rs] : relations) {
-    if (irms.count(t) != 1) {
-      assert(false);
-    }
+    complete = complete && irms.count(t) == 1;
+  }
+  if (!complete) {
+    printf("Error parsing file %s: not every relation cluster has an irm\n",
+           path.c_str());
+    std::exit(1);
   }
-  check_read(fp, path);
   fp.close();
   return std::make_pair(relations, irms);
 }
-- 
2.43.0


From fed778005df9cdcd563148abb9a5f97e8f5230c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:06 +0000
Subject: [PATCH 47/55] fix: values that can not be read are rejected instead
 of read as 0

---
 cxx/relation.hh | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/cxx/relation.hh b/cxx/relation.hh
index edcc7a8..7aec955 100644
--- a/cxx/relation.hh
+++ b/cxx/relation.hh
@@ -3,6 +3,8 @@
 
 #pragma once
 
+#include <cstdio>
+#include <cstdlib>
 #include <random>
 #include <sstream>
 #include <string>
@@ -123,13 +125,18 @@ class Relation {
   // Checks if items belongs to an existing cluster.
   virtual bool clusters_contains(const T_items& items) const = 0;
 
-  // Convert a string to ValueType.
+  // Convert a string to ValueType.  Exits the program with an error if the
+  // string is anything else than one value of that type.
   ValueType from_string(const std::string& s) {
     ValueType t = ValueType();
     std::stringstream ss(s);
     // Running out of memory must not look like the end of the value.
     ss.exceptions(std::ios::badbit);
     ss >> t;
+    if (ss.fail() || !(ss >> std::ws).eof()) {
+      printf("Unable to read a value from `%s`\n", s.c_str());
+      std::exit(1);
+    }
     return t;
   };
 
-- 
2.43.0


From 7a66392ecf138c3b76e3d34cdc003ed23d9836db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:06 +0000
Subject: [PATCH 48/55] fix: values that are no category are rejected instead
 of counted out of bounds

---
 cxx/distributions/dirichlet_categorical.cc | 14 ++++++++++++--
 cxx/distributions/dirichlet_categorical.hh |  3 +++
 cxx/emissions/categorical.hh               | 14 ++++++++++++++
 3 files changed, 29 insertions(+), 2 deletions(-)

diff --git a/cxx/distributions/dirichlet_categorical.cc b/cxx/distributions/dirichlet_categorical.cc
index 8fb61e3..4706dcc 100644
--- a/cxx/distributions/dirichlet_categorical.cc
+++ b/cxx/distributions/dirichlet_categorical.cc
@@ -5,18 +5,28 @@
 
 #include <algorithm>
 #include <cassert>
+#include <cstdio>
+#include <cstdlib>
 #include <random>
 
 #include "util_math.hh"
 
+void DirichletCategorical::check_category(const int& x) const {
+  if (x < 0 || x >= std::ssize(counts)) {
+    printf("Category %d is not one of the %ld categories\n", x,
+           counts.size());
+    std::exit(1);
+  }
+}
+
 void DirichletCategorical::incorporate(const int& x, double weight) {
-  assert(x >= 0 && x < std::ssize(counts));
+  check_category(x);
   counts[size_t(x)] += weight;
   N += weight;
 }
 
 double DirichletCategorical::logp(const int& x) const {
-  assert(x >= 0 && x < std::ssize(counts));
+  check_category(x);
   const double numer = log(alpha + counts[size_t(x)]);
   const double denom = log(N + alpha * counts.size());
   return numer - denom;
diff --git a/cxx/distributions/dirichlet_categorical.hh b/cxx/distributions/dirichlet_categorical.hh
index 6595913..a9a8485 100644
--- a/cxx/distributions/dirichlet_categorical.hh
+++ b/cxx/distributions/dirichlet_categorical.hh
@@ -18,6 +18,9 @@ class DirichletCategorical : public Distribution<int> {
   DirichletCategorical(int k) {  // k is number of categories
     counts = std::vector<double>(k, 0.0);
   }
+  // Exits the program with an error unless x is one of the categories.
+  void check_category(const int& x) const;
+
   void incorporate(const int& x, double weight = 1.0);
 
   double logp(const int& x) const;
diff --git a/cxx/emissions/categorical.hh b/cxx/emissions/categorical.hh
index 5152ee4..d4610ce 100644
--- a/cxx/emissions/categorical.hh
+++ b/cxx/emissions/categorical.hh
@@ -1,6 +1,8 @@
 #pragma once
 
 #include <cassert>
+#include <cstdio>
+#include <cstdlib>
 #include <limits>
 #include <utility>
 
@@ -20,12 +22,23 @@ class CategoricalEmission : public Emission<int> {
     }
   };
 
+  // Exits the program with an error unless clean is one of the states.
+  void check_clean(int clean) const {
+    if (clean < 0 || clean >= std::ssize(emission_dists)) {
+      printf("Clean value %d is not one of the %ld states\n", clean,
+             emission_dists.size());
+      std::exit(1);
+    }
+  }
+
   void incorporate(const std::pair<int, int>& x, double weight = 1.0) {
+    check_clean(x.first);
     N += weight;
     emission_dists[x.first].incorporate(x.second, weight);
   }
 
   double logp(const std::pair<int, int>& x) const {
+    check_clean(x.first);
     return emission_dists[x.first].logp(x.second);
   }
 
@@ -44,6 +57,7 @@ class CategoricalEmission : public Emission<int> {
   }
 
   int sample_corrupted(const int& clean, std::mt19937* prng) {
+    check_clean(clean);
     return emission_dists[clean].sample(prng);
   }
 
-- 
2.43.0


From 66b80d9c1d82952a7b7b5e83d82e7b53d052e15a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:06 +0000
Subject: [PATCH 49/55] fix: strings with characters outside the alphabet are
 rejected

They indexed out of bounds in builds without asserts.
---
 cxx/distributions/bigram.cc    | 6 +++++-
 cxx/emissions/bigram_string.cc | 9 ++++++++-
 2 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/cxx/distributions/bigram.cc b/cxx/distributions/bigram.cc
index eaa13e7..622ea3c 100644
--- a/cxx/distributions/bigram.cc
+++ b/cxx/distributions/bigram.cc
@@ -9,7 +9,11 @@
 #include "distributions/base.hh"
 
 void Bigram::assert_valid_char(const char c) const {
-  assert(c >= min_char && c <= max_char);
+  if (c < min_char || c > max_char) {
+    printf("Character with value %d is not one of those from %c to %c\n",
+           (int)c, min_char, max_char);
+    std::exit(1);
+  }
 }
 
 size_t Bigram::char_to_index(const char c) const {
diff --git a/cxx/emissions/bigram_string.cc b/cxx/emissions/bigram_string.cc
index 8bb1a04..3f79a16 100644
--- a/cxx/emissions/bigram_string.cc
+++ b/cxx/emissions/bigram_string.cc
@@ -1,5 +1,7 @@
 #include <algorithm>
 #include <cassert>
+#include <cstdio>
+#include <cstdlib>
 #include <iterator>
 
 #include "emissions/bigram_string.hh"
@@ -40,10 +42,15 @@ size_t BigramStringEmission::get_index(std::string current_char) {
     return 0;
   }
   assert(current_char.length() == 1);
-  return (current_char[0] - lowest_char) + 1;
+  return get_index(current_char[0]);
 }
 
 size_t BigramStringEmission::get_index(char current_char) {
+  if (current_char < lowest_char || current_char > highest_char) {
+    printf("Character with value %d is not one of those from %c to %c\n",
+           (int)current_char, lowest_char, highest_char);
+    std::exit(1);
+  }
   return (current_char - lowest_char) + 1;
 }
 
-- 
2.43.0


From e0511deb1afe623cb952254ed7989b3ef36c6d7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:06 +0000
Subject: [PATCH 50/55] fix: several observations of the same items are
 rejected

In builds without asserts they were counted several times but kept once, so
that the statistics of the clusters no longer matched the data.
---
 cxx/util_io.cc | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/cxx/util_io.cc b/cxx/util_io.cc
index f3fd316..0936a5c 100644
--- a/cxx/util_io.cc
+++ b/cxx/util_io.cc
@@ -445,6 +445,13 @@ void incorporate_observations_relation(
   if (observations.contains(relation)) {
     // If this relation is observed, incorporate its observations.
     for (const auto& [items, value] : observations.at(relation)) {
+      if (std::visit(
+              [&](const auto& r) { return r->get_data().contains(items); },
+              rel_var)) {
+        printf("Relation %s has several observations of the same items\n",
+               relation.c_str());
+        std::exit(1);
+      }
       std::visit([&](const auto& r) { ov = r->from_string(value); }, rel_var);
       std::visit([&](auto& m) { m->incorporate(prng, relation, items, ov); },
                  h_irm);
-- 
2.43.0


From 780dfab5dca54710966b3708fb46b37374262073 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:24 +0000
Subject: [PATCH 51/55] fix: damaged lines of class schemas are rejected

A parameter without a separator after it was read past the end of the line, and
characters between the parts of a line were ignored.
---
 cxx/pclean/io.cc | 30 +++++++++++++++++++++++++++---
 1 file changed, 27 insertions(+), 3 deletions(-)

diff --git a/cxx/pclean/io.cc b/cxx/pclean/io.cc
index f63d171..319c04b 100644
--- a/cxx/pclean/io.cc
+++ b/cxx/pclean/io.cc
@@ -29,6 +29,12 @@ bool read_schema_file(const std::string& path, PCleanSchema* schema) {
 
 bool resolve_variable_definition(const std::vector<Token> &tokens,
                                  PCleanVariable* pcv) {
+  if ((tokens[0].type != TokenType::identifier) ||
+      (tokens[2].type != TokenType::identifier)) {
+    printf("Error parsing variable %s -- expected two identifiers\n", tokens[0].val.c_str());
+    return false;
+  }
+
   if ((tokens.size() == 3) && (std::isupper(tokens[2].val[0]))) {
     // Class variable
     ClassVar cv;
@@ -39,18 +45,26 @@ bool resolve_variable_definition(const std::vector<Token> &tokens,
 
   ScalarVar dv;
   dv.joint_name = tokens[2].val;
+  if ((tokens.size() > 3) && ((tokens[3].val != "(") || (tokens.back().val != ")"))) {
+    printf("Error parsing scalar variable %s -- expected parameters in parentheses\n", tokens[0].val.c_str());
+    return false;
+  }
   for (size_t i = 4; i < tokens.size() - 1; i += 4) {
-    if (i + 3 > tokens.size()) {
+    if (i + 3 >= tokens.size()) {
       printf("Error parsing parameters of scalar variable %s -- too few tokens\n", tokens[0].val.c_str());
       printf("At token %ld of %ld\n", i, tokens.size());
       return false;
     }
+    if (tokens[i].type != TokenType::identifier) {
+      printf("Error parsing parameters of scalar variable %s -- expected a name but got %s\n", tokens[0].val.c_str(), tokens[i].val.c_str());
+      return false;
+    }
     if (tokens[i+1].val != "=") {
       printf("Error parsing parameters of scalar variable %s -- expected '=' but got %s\n", tokens[0].val.c_str(), tokens[i+1].val.c_str());
       return false;
     }
     std::string s = tokens[i+3].val;
-    if ((s != ",") && (s != ")")) {
+    if (s != ((i + 4 < tokens.size()) ? "," : ")")) {
       printf("Error parsing parameters of scalar variable %s -- expected ',' or '] but got %s'\n", tokens[0].val.c_str(), s.c_str());
       return false;
     }
@@ -150,10 +164,20 @@ bool read_query(std::istream& is, PCleanQuery* query) {
       return false;
     }
 
+    if ((tokens.size() % 2 == 0) || (tokens[tokens.size() - 2].val != "as") ||
+        (tokens.back().type == TokenType::symbol)) {
+      printf("Expected `as` and a name after the path on query line %s\n", line.c_str());
+      return false;
+    }
+
     QueryField qf;
     qf.name = tokens.back().val;
     for (size_t i = 0; i < tokens.size() - 2; ++i) {
       if (i % 2 == 0) {
+        if (tokens[i].type != TokenType::identifier) {
+          printf("Expected identifier at token %ld on query line %s\n", i, line.c_str());
+          return false;
+        }
         qf.class_path.push_back(tokens[i].val);
       } else {
         if (tokens[i].val != ".") {
@@ -195,7 +219,7 @@ bool read_schema(std::istream& is, PCleanSchema* schema) {
         return false;
       }
       PCleanClass pcc;
-      if (tokens[0].type != TokenType::identifier) {
+      if (tokens[1].type != TokenType::identifier) {
         printf("Error parsing line %s:  second token of a class line must be an identifier\n",
                line.c_str());
         return false;
-- 
2.43.0


From fee720218248b852453540cc3daf583415f8e76e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:24 +0000
Subject: [PATCH 52/55] fix: a class that refers to itself is rejected

It recursed until the stack overflowed.
---
 cxx/gendb.cc | 12 +++++++++---
 cxx/gendb.hh |  4 +++-
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/cxx/gendb.cc b/cxx/gendb.cc
index adf37a1..45325b0 100644
--- a/cxx/gendb.cc
+++ b/cxx/gendb.cc
@@ -954,7 +954,8 @@ GenDB::~GenDB() { delete hirm; }
 void GenDB::compute_domains_cache() {
   for (const auto& c : schema.classes) {
     if (!domains.contains(c.first)) {
-      compute_domains_for(c.first);
+      std::set<std::string> visiting = {c.first};
+      compute_domains_for(c.first, visiting);
     }
   }
 }
@@ -967,7 +968,8 @@ void GenDB::compute_reference_indices_cache() {
   }
 }
 
-void GenDB::compute_domains_for(const std::string& name) {
+void GenDB::compute_domains_for(const std::string& name,
+                                std::set<std::string>& visiting) {
   std::vector<std::string> ds;
   assert(schema.classes.contains(name));
   PCleanClass c = schema.classes.at(name);
@@ -975,7 +977,11 @@ void GenDB::compute_domains_for(const std::string& name) {
   for (const auto& v : c.vars) {
     if (const ClassVar* cv = std::get_if<ClassVar>(&(v.second.spec))) {
       if (!domains.contains(cv->class_name)) {
-        compute_domains_for(cv->class_name);
+        if (!visiting.insert(cv->class_name).second) {
+          printf("Class %s refers to itself\n", cv->class_name.c_str());
+          std::exit(1);
+        }
+        compute_domains_for(cv->class_name, visiting);
       }
       for (const std::string& s : domains[cv->class_name]) {
         ds.push_back(s);
diff --git a/cxx/gendb.hh b/cxx/gendb.hh
index 11a2121..85db975 100644
--- a/cxx/gendb.hh
+++ b/cxx/gendb.hh
@@ -4,6 +4,7 @@
 #pragma once
 #include <map>
 #include <random>
+#include <set>
 #include <string>
 
 #include "distributions/crp.hh"
@@ -220,7 +221,8 @@ class GenDB {
 
   // Compute domains[name], recursively calling itself for any classes c
   // that name depends on.
-  void compute_domains_for(const std::string& name);
+  void compute_domains_for(const std::string& name,
+                           std::set<std::string>& visiting);
 
   // Compute the relation_reference_indices and class_reference_indices
   // datastructures.  See below for a description of those.
-- 
2.43.0


From ffe53fd5597219948fd67b11fa5ca42c165ff36b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:25 +0000
Subject: [PATCH 53/55] fix: tables with unclosed quotes or repeated columns
 are rejected

The rows of a repeated column were read out of bounds.
---
 cxx/pclean/csv.cc | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/cxx/pclean/csv.cc b/cxx/pclean/csv.cc
index 117d865..1d60fbc 100644
--- a/cxx/pclean/csv.cc
+++ b/cxx/pclean/csv.cc
@@ -6,6 +6,7 @@
 
 // Splits a line at its commas.  A field that starts with a double quote ends
 // with a double quote, may contain commas, and has its quotes doubled.
+// Exits the program with an error if the end of the line is inside of quotes.
 static std::vector<std::string> split_csv_line(const std::string& line) {
   std::vector<std::string> parts;
   size_t i = 0;
@@ -14,15 +15,21 @@ static std::vector<std::string> split_csv_line(const std::string& line) {
     size_t quoted_length = 0;
     if (i < line.size() && line[i] == '"') {
       ++i;
+      bool closed = false;
       while (i < line.size()) {
         if (line[i] == '"') {
           ++i;
           if (i == line.size() || line[i] != '"') {
+            closed = true;
             break;
           }
         }
         part += line[i++];
       }
+      if (!closed) {
+        printf("Unclosed quotes in line\n%s\n", line.c_str());
+        std::exit(1);
+      }
       quoted_length = part.size();
     }
     while (i < line.size() && line[i] != ',') {
@@ -104,6 +111,10 @@ DataFrame DataFrame::from_csv(
       }
       df.columns = parts;
       for (const auto& c : df.columns) {
+        if (df.data.contains(c)) {
+          printf("Found column %s twice\n", c.c_str());
+          std::exit(1);
+        }
         df.data[c] = {};
       }
     } else {
-- 
2.43.0


From f8bab2b8dbd3d03e35ad42998af8ad37bfb9c294 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:44 +0000
Subject: [PATCH 54/55] fix: the log likelihood of no observations is 0

It read out of bounds, and repeated observations were counted several times in
builds without asserts.
---
 cxx/irm.cc | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/cxx/irm.cc b/cxx/irm.cc
index 2177d01..7162f7f 100644
--- a/cxx/irm.cc
+++ b/cxx/irm.cc
@@ -211,11 +211,17 @@ double IRM::logp(
       std::string,
       std::unordered_map<T_item, std::tuple<int, std::vector<int>>>>
       cluster_universe;
+  if (observations.empty()) {
+    return 0.0;
+  }
   // Compute all cluster combinations.
   for (const auto& [r, items, value] : observations) {
     // Assert observation is unique.
-    assert(!relation_items_seen[r].contains(items));
-    relation_items_seen[r].insert(items);
+    if (!relation_items_seen[r].insert(items).second) {
+      printf("Relation %s has several observations of the same items\n",
+             r.c_str());
+      std::exit(1);
+    }
     // Process each (domain, item) in the observations.
     RelationVariant relation = relations.at(r);
     int arity = std::visit([](auto rel) { return rel->get_domains().size(); },
-- 
2.43.0


From e0d73ce3e0417a21e55e70cc8cdcef35f721920f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:58 +0000
Subject: [PATCH 55/55] fix: make the entities of all parts of a unique row
 before sampling any

---
 cxx/gendb.cc | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/cxx/gendb.cc b/cxx/gendb.cc
index 45325b0..380fe8f 100644
--- a/cxx/gendb.cc
+++ b/cxx/gendb.cc
@@ -59,6 +59,16 @@ void GenDB::incorporate(
   // Maps a query relation name to an observed value.
   std::map<std::string, ObservationVariant> vals = row.second;
 
+  // Incorporating a value samples the references that are still missing, so
+  // the unique entities of all of the row's values are made beforehand.
+  if (new_rows_have_unique_entities) {
+    for (const auto& [query_rel, unused_val] : vals) {
+      T_items items(std::visit([](auto tr) { return tr.domains.size(); },
+                               hirm->schema.at(query_rel)));
+      get_unique_entities_relation(query_rel, items.size() - 1, id, items);
+    }
+  }
+
   // Loop over the values in the row, and their query relation names.
   for (const auto& [query_rel, val] : vals) {
     // Sample a set of items to be incorporated into the query relation.
-- 
2.43.0

