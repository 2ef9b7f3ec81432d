From 1c94e019b52b44f30ce76b366a070e4b1351e152 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:00:46 +0000
Subject: [PATCH 01/25] fix: record the flipped bit vector when the target is
 reached incrementally

---
 lib/hnco/functions/controllers/controller.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/hnco/functions/controllers/controller.cc b/lib/hnco/functions/controllers/controller.cc
index 5b34e0a..5adbae1 100644
--- a/lib/hnco/functions/controllers/controller.cc
+++ b/lib/hnco/functions/controllers/controller.cc
@@ -44,7 +44,9 @@ StopOnTarget::evaluate_incrementally(const bit_vector_t& bv, double value, const
 {
   double result = _function->evaluate_incrementally(bv, value, flipped_bits);
   if (result >= _target) {
+    // bv is the bit vector before the flips
     _trigger.first = bv;
+    bv_flip(_trigger.first, flipped_bits);
     _trigger.second = result;
     throw TargetReached();
   }
-- 
2.43.0


From d21bf3c26cfcb310ad4c0498ccd1ce19bb777a32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:00:46 +0000
Subject: [PATCH 02/25] fix: record the flipped bit vector of an incremental
 improvement

---
 lib/hnco/functions/controllers/controller.cc | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/lib/hnco/functions/controllers/controller.cc b/lib/hnco/functions/controllers/controller.cc
index 5adbae1..7fa6523 100644
--- a/lib/hnco/functions/controllers/controller.cc
+++ b/lib/hnco/functions/controllers/controller.cc
@@ -130,7 +130,14 @@ double
 ProgressTracker::evaluate_incrementally(const bit_vector_t& bv, double value, const hnco::sparse_bit_vector_t& flipped_bits)
 {
   double result = CallCounter::evaluate_incrementally(bv, value, flipped_bits);
-  update_last_improvement(bv, result);
+  if (_record_bit_vector) {
+    // bv is the bit vector before the flips
+    bit_vector_t flipped = bv;
+    bv_flip(flipped, flipped_bits);
+    update_last_improvement(flipped, result);
+  } else {
+    update_last_improvement(bv, result);
+  }
   return result;
 }
 
-- 
2.43.0


From 37214f346fdc3a80a26de46d6bd651c5ad78d492 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:03:14 +0000
Subject: [PATCH 03/25] fix: forward the accounting of safe evaluations through
 the cache

---
 lib/hnco/functions/controllers/controller.hh | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/hnco/functions/controllers/controller.hh b/lib/hnco/functions/controllers/controller.hh
index 5ba23c3..a15a613 100644
--- a/lib/hnco/functions/controllers/controller.hh
+++ b/lib/hnco/functions/controllers/controller.hh
@@ -406,6 +406,9 @@ public:
   /// Evaluate a bit vector
   double evaluate(const bit_vector_t&);
 
+  /// Update after a safe evaluation
+  void update(const bit_vector_t& bv, double value) { _function->update(bv, value); }
+
   ///@}
 
   /// Get lookup ratio
-- 
2.43.0


From 52c9a20bc269a79ea54367a3e0ca1679787b3320 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:27:05 +0000
Subject: [PATCH 04/25] fix: the opposite of a function is incremental only if
 the function is

---
 lib/hnco/functions/modifiers/modifier.hh | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/hnco/functions/modifiers/modifier.hh b/lib/hnco/functions/modifiers/modifier.hh
index 5ae20fe..9d433f6 100644
--- a/lib/hnco/functions/modifiers/modifier.hh
+++ b/lib/hnco/functions/modifiers/modifier.hh
@@ -63,9 +63,9 @@ public:
   int get_bv_size() const override { return _function->get_bv_size(); }
   /**
    * Check whether the function provides incremental evaluation.
-   * @return true
+   * @return true if the wrapped function does
    */
-  bool provides_incremental_evaluation() const override { return true; }
+  bool provides_incremental_evaluation() const override { return _function->provides_incremental_evaluation(); }
   ///@}
 
   /**
-- 
2.43.0


From 94ad848088092be94943696942bfe1eefb725378 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:29:30 +0000
Subject: [PATCH 05/25] fix: start the random walk from the value of its
 initial solution

---
 lib/hnco/algorithms/local-search/random-walk.cc | 8 ++++++++
 lib/hnco/algorithms/local-search/random-walk.hh | 3 +++
 2 files changed, 11 insertions(+)

diff --git a/lib/hnco/algorithms/local-search/random-walk.cc b/lib/hnco/algorithms/local-search/random-walk.cc
index 177c484..4a58f36 100644
--- a/lib/hnco/algorithms/local-search/random-walk.cc
+++ b/lib/hnco/algorithms/local-search/random-walk.cc
@@ -29,6 +29,14 @@ using namespace hnco::algorithm;
 using namespace hnco;
 
 
+void
+RandomWalk::init()
+{
+  LocalSearchAlgorithm::init();
+  _value = _solution.second;
+}
+
+
 void
 RandomWalk::iterate()
 {
diff --git a/lib/hnco/algorithms/local-search/random-walk.hh b/lib/hnco/algorithms/local-search/random-walk.hh
index a802912..65a6c20 100644
--- a/lib/hnco/algorithms/local-search/random-walk.hh
+++ b/lib/hnco/algorithms/local-search/random-walk.hh
@@ -59,6 +59,9 @@ protected:
    */
   ///@{
 
+  /// Initialize
+  void init() override;
+
   /// Single iteration
   void iterate() override;
 
-- 
2.43.0


From cc9dd6693f13939b53299585ae57748961af87c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:40:11 +0000
Subject: [PATCH 06/25] fix: return the tournament winner also when the
 permutation is reshuffled

---
 lib/hnco/multiobjective/algorithms/random-selection.hh | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lib/hnco/multiobjective/algorithms/random-selection.hh b/lib/hnco/multiobjective/algorithms/random-selection.hh
index bfb31d2..f4a80dc 100644
--- a/lib/hnco/multiobjective/algorithms/random-selection.hh
+++ b/lib/hnco/multiobjective/algorithms/random-selection.hh
@@ -105,12 +105,14 @@ public:
       }
     }
 
+    const bit_vector_t& selected = _bvs[_permutation[winner]];
+
     _start = _stop;
     _stop += _tournament_size;
     if (_stop > int(_bvs.size()))
       init();
 
-    return _bvs[_permutation[winner]];
+    return selected;
   }
 
   /** @name Setters
-- 
2.43.0


From 629a8d81283339e5cd78b42345c3e4e9f9e302f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:40:11 +0000
Subject: [PATCH 07/25] fix: negative selection uses the worst individuals

---
 lib/hnco/algorithms/probability-vector/nps-pbil.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/hnco/algorithms/probability-vector/nps-pbil.cc b/lib/hnco/algorithms/probability-vector/nps-pbil.cc
index c6a752b..d648752 100644
--- a/lib/hnco/algorithms/probability-vector/nps-pbil.cc
+++ b/lib/hnco/algorithms/probability-vector/nps-pbil.cc
@@ -58,7 +58,7 @@ NpsPbil::iterate()
 
   pv_init(_mean_worst);
   for (int i = 0; i < _selection_size; i++)
-    pv_add(_mean_worst, _population.get_best_bv(i));
+    pv_add(_mean_worst, _population.get_worst_bv(i));
   pv_average(_mean_worst, _selection_size);
 
   pv_update(_pv, _mean_best, _mean_worst, _learning_rate);
-- 
2.43.0


From e240d586f86ac87790204cecbd2e9f442a5a0292 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:41:00 +0000
Subject: [PATCH 08/25] fix: learn the solution-space probability vector from
 the selected individuals

---
 lib/hnco/algorithms/probability-vector/ram-umda.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/hnco/algorithms/probability-vector/ram-umda.cc b/lib/hnco/algorithms/probability-vector/ram-umda.cc
index b634e26..2811c7c 100644
--- a/lib/hnco/algorithms/probability-vector/ram-umda.cc
+++ b/lib/hnco/algorithms/probability-vector/ram-umda.cc
@@ -144,7 +144,7 @@ RamUmda2::iterate()
   // Compute probability vector in the solution space
   pv_init(_pv);
   for (int i = 0; i < _selection_size; i++)
-    pv_add(_pv, _population_x.bvs[i]);
+    pv_add(_pv, _population_x.get_best_bv(i));
   pv_average(_pv, _selection_size);
   pv_bound(_pv, _lower_bound, _upper_bound);
 
-- 
2.43.0


From c33b62f975f7ed725bffcfd1e1d428283c8638a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:36:45 +0000
Subject: [PATCH 09/25] fix: standard bit mutation honours allow_no_mutation in
 its Bernoulli process

---
 lib/hnco/neighborhoods/neighborhood.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/hnco/neighborhoods/neighborhood.cc b/lib/hnco/neighborhoods/neighborhood.cc
index 05620e2..195e62b 100644
--- a/lib/hnco/neighborhoods/neighborhood.cc
+++ b/lib/hnco/neighborhoods/neighborhood.cc
@@ -86,7 +86,7 @@ void
 StandardBitMutation::bernoulli_process()
 {
   _flipped_bits.clear();
-  bool again = true;
+  bool again = !_allow_no_mutation;
   do {
     for (size_t i = 0; i < _candidate.size(); i++)
       if (_bernoulli_dist(Generator::engine)) {
-- 
2.43.0


From cbac6cee6cecafdd6623d1a8b3f692bb2fe2995e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:54:55 +0000
Subject: [PATCH 10/25] fix: each run of RamUmda starts from the configured
 transvection sequence length

---
 .../algorithms/probability-vector/ram-umda.cc | 24 ++++++++++---------
 .../algorithms/probability-vector/ram-umda.hh |  2 ++
 2 files changed, 15 insertions(+), 11 deletions(-)

diff --git a/lib/hnco/algorithms/probability-vector/ram-umda.cc b/lib/hnco/algorithms/probability-vector/ram-umda.cc
index 2811c7c..b500f16 100644
--- a/lib/hnco/algorithms/probability-vector/ram-umda.cc
+++ b/lib/hnco/algorithms/probability-vector/ram-umda.cc
@@ -37,6 +37,7 @@ RamUmda::init()
   set_something_to_log();
   random_solution();
   _population_x.random();
+  _current_ts_length = _ts_length;
 }
 
 void
@@ -52,7 +53,7 @@ RamUmda::iterate()
 
   // Maps
   compute_ts_length();
-  _map.random(get_bv_size(), _ts_length, TsAffineMap::SamplingMode::unconstrained);
+  _map.random(get_bv_size(), _current_ts_length, TsAffineMap::SamplingMode::unconstrained);
   _inverse_map = _map;
   _inverse_map.invert();
 
@@ -84,33 +85,33 @@ RamUmda::compute_ts_length()
 
   case TsLengthMode::increasing:
     if ((_iteration + 1) % _ts_length_increment_period == 0)
-      _ts_length++;
-    _ts_length = std::min(_ts_length, _ts_length_upper_bound);
+      _current_ts_length++;
+    _current_ts_length = std::min(_current_ts_length, _ts_length_upper_bound);
     break;
 
   case TsLengthMode::decreasing:
     if ((_iteration + 1) % _ts_length_increment_period == 0)
-      _ts_length--;
-    _ts_length = std::max(_ts_length, _ts_length_lower_bound);
+      _current_ts_length--;
+    _current_ts_length = std::max(_current_ts_length, _ts_length_lower_bound);
     break;
 
   case TsLengthMode::uniform: {
     std::uniform_int_distribution dist(_ts_length_lower_bound, _ts_length_upper_bound);
-    _ts_length = dist(Generator::engine);
+    _current_ts_length = dist(Generator::engine);
     break;
   }
 
   case TsLengthMode::geometric: {
     std::geometric_distribution dist(_ts_length_distribution_parameter);
-    _ts_length = dist(Generator::engine);
-    _ts_length = std::min(_ts_length, _ts_length_upper_bound);
+    _current_ts_length = dist(Generator::engine);
+    _current_ts_length = std::min(_current_ts_length, _ts_length_upper_bound);
     break;
   }
 
   case TsLengthMode::reverse_geometric: {
     std::geometric_distribution dist(_ts_length_distribution_parameter);
-    _ts_length = _ts_length_upper_bound - dist(Generator::engine);
-    _ts_length = std::max(_ts_length, _ts_length_lower_bound);
+    _current_ts_length = _ts_length_upper_bound - dist(Generator::engine);
+    _current_ts_length = std::max(_current_ts_length, _ts_length_lower_bound);
     break;
   }
 
@@ -128,6 +129,7 @@ RamUmda2::init()
   set_something_to_log();
   random_solution();
   _population_x.random();
+  _current_ts_length = _ts_length;
 }
 
 void
@@ -150,7 +152,7 @@ RamUmda2::iterate()
 
   // Maps
   compute_ts_length();
-  _map.random(get_bv_size(), _ts_length, TsAffineMap::SamplingMode::unconstrained);
+  _map.random(get_bv_size(), _current_ts_length, TsAffineMap::SamplingMode::unconstrained);
   _inverse_map = _map;
   _inverse_map.invert();
 
diff --git a/lib/hnco/algorithms/probability-vector/ram-umda.hh b/lib/hnco/algorithms/probability-vector/ram-umda.hh
index a250ec2..b60ff8e 100644
--- a/lib/hnco/algorithms/probability-vector/ram-umda.hh
+++ b/lib/hnco/algorithms/probability-vector/ram-umda.hh
@@ -90,6 +90,8 @@ protected:
   map::TsAffineMap _map;
   /// Inverse transvection sequence affine map
   map::TsAffineMap _inverse_map;
+  /// Current transvection sequence length
+  int _current_ts_length;
   /// Temporary bit vector
   bit_vector_t _a;
   /// Temporary bit vector
-- 
2.43.0


From 70686243d9e0c0cf685e593192a2f7433a806b68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:12:13 +0000
Subject: [PATCH 11/25] fix: seed the random generator of GOMEA from the shared
 generator

---
 lib/hnco/algorithms/gomea/gomea.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/lib/hnco/algorithms/gomea/gomea.cc b/lib/hnco/algorithms/gomea/gomea.cc
index cae85b8..48d1bf7 100644
--- a/lib/hnco/algorithms/gomea/gomea.cc
+++ b/lib/hnco/algorithms/gomea/gomea.cc
@@ -21,6 +21,8 @@
 #include "gomea/src/discrete/Config.hpp"
 #include "gomea/src/discrete/gomeaIMS.hpp"
 
+#include "hnco/random.hh"
+
 #include "gomea.hh"
 
 using namespace hnco::function::controller;
@@ -52,8 +54,8 @@ Gomea::maximize(const std::vector<function::Function *>& functions)
   // _config.maximumNumberOfEvaluations = max_number_of_evaluations;
   // _config.maximumNumberOfGenerations = max_number_of_generations;
   // _config.maximumNumberOfSeconds     = max_number_of_seconds;
-  // _config.randomSeed                 = random_seed;
-  // _config.fix_seed                   = true;
+  _config.randomSeed                    = hnco::random::Generator::engine();
+  _config.fix_seed                      = true;
 
   ::gomea::discrete::gomeaIMS gomea(&_config);
   gomea.run();
-- 
2.43.0


From 66b4c7b82bfaa0c96cf18c0fab9aec73f3257d07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:26:23 +0000
Subject: [PATCH 12/25] fix: the (1+(lambda,lambda)) genetic algorithm takes
 its offspring population size from ea_lambda

---
 lib/hnco/app/algorithm-factory.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/hnco/app/algorithm-factory.cc b/lib/hnco/app/algorithm-factory.cc
index cdd3f81..6b1dddf 100644
--- a/lib/hnco/app/algorithm-factory.cc
+++ b/lib/hnco/app/algorithm-factory.cc
@@ -310,7 +310,7 @@ CommandLineAlgorithmFactory::make(int bv_size)
   case 450: {
     auto algo = new OnePlusLambdaCommaLambdaGa
       (bv_size,
-       _options.get_ea_mu());
+       _options.get_ea_lambda());
 
     algo->set_crossover_bias(_options.get_ea_crossover_bias());
     algo->set_num_iterations(_options.get_num_iterations());
-- 
2.43.0


From 79bdd9c9e1c5f66ba1d240263e2979f0d2229de4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:27:23 +0000
Subject: [PATCH 13/25] fix: the neighborhood of prior noise has the size of
 the noisy function's bit vectors

---
 lib/hnco/app/decorated-function-factory.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/hnco/app/decorated-function-factory.cc b/lib/hnco/app/decorated-function-factory.cc
index 296e75e..f1d515f 100644
--- a/lib/hnco/app/decorated-function-factory.cc
+++ b/lib/hnco/app/decorated-function-factory.cc
@@ -230,7 +230,7 @@ DecoratedFunctionFactory::make_function_modifier()
 
   // Prior noise
   if (_options.with_prior_noise()) {
-    Neighborhood *nh = make_prior_noise_neighborhood(_options, bv_size);
+    Neighborhood *nh = make_prior_noise_neighborhood(_options, function->get_bv_size());
     function = new PriorNoise(function, nh);
   }
 
-- 
2.43.0


From b76d9cffa110f26b763b50fbb2c8009d42a2adf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:39:49 +0000
Subject: [PATCH 14/25] fix: describe the solution in the search space, also
 with concrete_solution

---
 lib/hnco/app/application.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/hnco/app/application.cc b/lib/hnco/app/application.cc
index e6c5f92..33bc96e 100644
--- a/lib/hnco/app/application.cc
+++ b/lib/hnco/app/application.cc
@@ -256,13 +256,13 @@ CommandLineApplication::manage_solution(const bit_vector_t& bv)
 
   // Print description
   if (_options.with_print_description()) {
-    _fn->describe(concrete_solution, std::cout);
+    _fn->describe(bv, std::cout);
   }
 
   // Save description
   if (_options.with_save_description()) {
     std::ofstream stream(_options.get_description_path());
-    _fn->describe(concrete_solution, stream);
+    _fn->describe(bv, stream);
   }
 }
 
-- 
2.43.0


From 11f03b5f573166e8b9a5f0bc4b702b691e47cb8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:51:25 +0000
Subject: [PATCH 15/25] fix: NSGA-II honours its crossover probability

---
 lib/hnco/multiobjective/algorithms/nsga2.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/hnco/multiobjective/algorithms/nsga2.cc b/lib/hnco/multiobjective/algorithms/nsga2.cc
index d9e0358..ba59dd5 100644
--- a/lib/hnco/multiobjective/algorithms/nsga2.cc
+++ b/lib/hnco/multiobjective/algorithms/nsga2.cc
@@ -37,6 +37,8 @@ Nsga2::init()
 
   _selection_by_front_distance_pair.set_tournament_size(_tournament_size);
 
+  _do_crossover = std::bernoulli_distribution(_crossover_probability);
+
   _mutation.set_mutation_rate(_mutation_rate);
   _mutation.set_allow_no_mutation(_allow_no_mutation);
 
-- 
2.43.0


From c49be7a55d4a2a33e4a8f72200e529a222be177e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:18:08 +0000
Subject: [PATCH 16/25] fix: sampling a transvection sequence replaces the
 previous one

---
 lib/hnco/maps/transvection.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lib/hnco/maps/transvection.cc b/lib/hnco/maps/transvection.cc
index 5ec0d9a..4258825 100644
--- a/lib/hnco/maps/transvection.cc
+++ b/lib/hnco/maps/transvection.cc
@@ -184,6 +184,7 @@ void hnco::map::ts_random_commuting(transvection_sequence_t& ts, int n, int t)
 {
   assert(n > 1);
 
+  ts.clear();
   if (t <= 0)
     return;
 
@@ -246,6 +247,7 @@ void hnco::map::ts_random_unique_source(transvection_sequence_t& ts, int n, int
 {
   assert(n > 1);
 
+  ts.clear();
   if (t <= 0)
     return;
 
@@ -279,6 +281,7 @@ void hnco::map::ts_random_unique_destination(transvection_sequence_t& ts, int n,
 {
   assert(n > 1);
 
+  ts.clear();
   if (t <= 0)
     return;
 
@@ -312,6 +315,7 @@ void hnco::map::ts_random_disjoint(transvection_sequence_t& ts, int n, int t)
 {
   assert(n > 1);
 
+  ts.clear();
   if (t <= 0)
     return;
 
@@ -342,6 +346,7 @@ void hnco::map::ts_random_non_commuting(transvection_sequence_t& ts, int n, int
 {
   assert(n > 1);
 
+  ts.clear();
   if (t <= 0)
     return;
 
-- 
2.43.0


From 743e08df54455038431dabf8ffdbf368c1e6b77e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:34:18 +0000
Subject: [PATCH 17/25] fix: Nsga2::finalize: solutions were written out of
 bounds when run again

---
 lib/hnco/multiobjective/algorithms/nsga2.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/hnco/multiobjective/algorithms/nsga2.cc b/lib/hnco/multiobjective/algorithms/nsga2.cc
index ba59dd5..e982762 100644
--- a/lib/hnco/multiobjective/algorithms/nsga2.cc
+++ b/lib/hnco/multiobjective/algorithms/nsga2.cc
@@ -152,6 +152,7 @@ Nsga2::finalize()
   Nsga2ParetoFrontComputation computation(_parents);
   computation.compute(fronts);
 
+  _solutions = _parents;        // a previous run might have shrunk it
   int index = 0;
   for (int i = 0; i < _parents.get_size(); i++) {
     if (fronts[i] == 0) {
-- 
2.43.0


From 05f0a07efcd7d6a9cca449513527775be11cf80f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:51:16 +0000
Subject: [PATCH 18/25] fix: synchronous Gibbs sampling with triangular moments
 reads the lower triangle only

---
 lib/hnco/algorithms/walsh-moment/gibbs-sampler.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lib/hnco/algorithms/walsh-moment/gibbs-sampler.cc b/lib/hnco/algorithms/walsh-moment/gibbs-sampler.cc
index 0c81e00..84df117 100644
--- a/lib/hnco/algorithms/walsh-moment/gibbs-sampler.cc
+++ b/lib/hnco/algorithms/walsh-moment/gibbs-sampler.cc
@@ -73,10 +73,11 @@ TriangularMomentGibbsSampler::update_sync()
     for (size_t j = 0; j < _state.size(); j++) {
       if (j == i)
         continue;
+      const double moment = j < i ? row[j] : _model_parameters.second_moment[j][i];
       if (_state[j])
-        delta -= row[j];
+        delta -= moment;
       else
-        delta += row[j];
+        delta += moment;
     }
     delta *= -2;
 
-- 
2.43.0


From 3781a444abae0c04403668e28c884f8cfd7f0c36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:12:21 +0000
Subject: [PATCH 19/25] fix: the infinite norm of Walsh moments takes negative
 moments into account

---
 lib/hnco/algorithms/walsh-moment/walsh-moment.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/lib/hnco/algorithms/walsh-moment/walsh-moment.cc b/lib/hnco/algorithms/walsh-moment/walsh-moment.cc
index dba6f21..6f2d9ae 100644
--- a/lib/hnco/algorithms/walsh-moment/walsh-moment.cc
+++ b/lib/hnco/algorithms/walsh-moment/walsh-moment.cc
@@ -208,10 +208,10 @@ TriangularMoment::norm_infinite() const
 {
   double result = 0;
   for (size_t i = 0; i < first_moment.size(); i++) {
-    result = std::max(result, first_moment[i]);
+    result = std::max(result, std::fabs(first_moment[i]));
     const std::vector<double>& row = second_moment[i];
     for (size_t j = 0; j < i; j++)
-      result = std::max(result, row[j]);
+      result = std::max(result, std::fabs(row[j]));
   }
   return result;
 }
@@ -424,10 +424,10 @@ FullMoment::norm_infinite() const
 {
   double result = 0;
   for (size_t i = 0; i < first_moment.size(); i++) {
-    result = std::max(result, first_moment[i]);
+    result = std::max(result, std::fabs(first_moment[i]));
     const std::vector<double>& row = second_moment[i];
     for (size_t j = 0; j < i; j++)
-      result = std::max(result, row[j]);
+      result = std::max(result, std::fabs(row[j]));
   }
   return result;
 }
-- 
2.43.0


From bb7375de26de648088350eee64b0d7e9e83cbc56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:23:17 +0000
Subject: [PATCH 20/25] fix: the assertion of the compact genetic algorithm
 does not evaluate the function

---
 lib/hnco/algorithms/probability-vector/compact-ga.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/hnco/algorithms/probability-vector/compact-ga.cc b/lib/hnco/algorithms/probability-vector/compact-ga.cc
index d6bb120..5d9991d 100644
--- a/lib/hnco/algorithms/probability-vector/compact-ga.cc
+++ b/lib/hnco/algorithms/probability-vector/compact-ga.cc
@@ -55,7 +55,7 @@ CompactGa::iterate()
   } else
     update_solution(_candidates[0], v0);
 
-  assert(_function->evaluate(_candidates[best]) >= _function->evaluate(_candidates[worst]));
+  assert(best == 0 ? v0 >= v1 : v1 >= v0);
 
   // Update probability vector
   for (size_t i = 0; i < _pv.size(); i++)
-- 
2.43.0


From c4617da79f6a04b62f042554239f56292fc6cb79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:56:39 +0000
Subject: [PATCH 21/25] fix: results, solution and description which cannot be
 saved are reported

---
 lib/hnco/app/application.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lib/hnco/app/application.cc b/lib/hnco/app/application.cc
index 33bc96e..04a9c2e 100644
--- a/lib/hnco/app/application.cc
+++ b/lib/hnco/app/application.cc
@@ -224,6 +224,8 @@ CommandLineApplication::print_results(double total_time, bool target_reached)
   // Save results
   if (_options.with_save_results()) {
     std::ofstream stream(_options.get_results_path());
+    if (!stream.good())
+      throw std::runtime_error("CommandLineApplication::print_results: Cannot open " + _options.get_results_path());
     stream << results.str();
   }
 }
@@ -250,6 +252,8 @@ CommandLineApplication::manage_solution(const bit_vector_t& bv)
   // Save solution
   if (_options.with_save_solution()) {
     std::ofstream stream(_options.get_solution_path());
+    if (!stream.good())
+      throw std::runtime_error("CommandLineApplication::manage_solution: Cannot open " + _options.get_solution_path());
     bv_display(concrete_solution, stream);
     stream << std::endl;
   }
@@ -262,6 +266,8 @@ CommandLineApplication::manage_solution(const bit_vector_t& bv)
   // Save description
   if (_options.with_save_description()) {
     std::ofstream stream(_options.get_description_path());
+    if (!stream.good())
+      throw std::runtime_error("CommandLineApplication::manage_solution: Cannot open " + _options.get_description_path());
     _fn->describe(bv, stream);
   }
 }
-- 
2.43.0


From a32b8291a916372aa91004568d322b0d3a81b7f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:56:39 +0000
Subject: [PATCH 22/25] fix: a random Sudoku instance sets its number of
 variables and its given cells

---
 lib/hnco/functions/collection/sudoku.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lib/hnco/functions/collection/sudoku.cc b/lib/hnco/functions/collection/sudoku.cc
index e6ca2fb..d570496 100644
--- a/lib/hnco/functions/collection/sudoku.cc
+++ b/lib/hnco/functions/collection/sudoku.cc
@@ -115,10 +115,14 @@ Sudoku::random(int c)
   // Digits to erase
   bit_vector_t erase(81);
   bv_random(erase, c);
+  _num_variables = 0;
   for (int i = 0; i < 9; i++) {
     for (int j = 0; j < 9; j++) {
-      if (erase[i + 9 * j])
+      if (erase[i + 9 * j]) {
         _problem_instance[i][j] = '.';
+        _num_variables++;
+      } else
+        _candidate[i][j] = _problem_instance[i][j] - '0';
     }
   }
 }
-- 
2.43.0


From d94006717c92ece743d3c2f058996950e1ad6155 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:56:39 +0000
Subject: [PATCH 23/25] fix: a generated TSP instance knows its number of
 cities

---
 lib/hnco/functions/collection/tsp.hh | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/hnco/functions/collection/tsp.hh b/lib/hnco/functions/collection/tsp.hh
index 60df31c..50461fd 100644
--- a/lib/hnco/functions/collection/tsp.hh
+++ b/lib/hnco/functions/collection/tsp.hh
@@ -97,6 +97,7 @@ public:
   template<class Generator>
   void generate(int n, Generator generator) {
     assert(n > 0);
+    _num_cities = n;
     _distances.resize(n);
     for (int i = 0; i < n; i++)
       _distances[i].resize(n);
-- 
2.43.0


From 640b8ae2db960e587b0b164e780452d2add4bf2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:56:39 +0000
Subject: [PATCH 24/25] fix: malformed TSP instances are refused instead of
 being read out of bounds

---
 lib/hnco/functions/collection/tsp.cc | 10 ++++++++--
 lib/hnco/functions/collection/tsp.hh |  2 +-
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/lib/hnco/functions/collection/tsp.cc b/lib/hnco/functions/collection/tsp.cc
index a76c45e..32caa80 100644
--- a/lib/hnco/functions/collection/tsp.cc
+++ b/lib/hnco/functions/collection/tsp.cc
@@ -64,6 +64,8 @@ Tsp::load_(std::istream& stream)
         throw std::runtime_error("Tsp::load_: " + _name + " is not a TSP problem.");
     } else if (key == "DIMENSION") {
       after_stream >> _num_cities;
+      if (after_stream.fail() || _num_cities <= 0)
+        throw std::runtime_error("Tsp::load_: Bad dimension");
     } else if (key == "EDGE_WEIGHT_TYPE") {
       after_stream >> value;
       if (value == "ATT")
@@ -83,7 +85,8 @@ Tsp::load_(std::istream& stream)
 void
 Tsp::load_coordinates(std::istream& stream)
 {
-  assert(_num_cities > 0);
+  if (_num_cities <= 0)
+    throw std::runtime_error("Tsp::load_coordinates: No dimension before coordinates");
   _xs.resize(_num_cities);
   _ys.resize(_num_cities);
   while (!stream.eof()) {
@@ -91,9 +94,12 @@ Tsp::load_coordinates(std::istream& stream)
     stream >> index;
     if (stream.fail())
       break;
-    assert((index >= 1) && (index <= _num_cities));
+    if (index < 1 || index > _num_cities)
+      throw std::runtime_error("Tsp::load_coordinates: Bad city index: " + std::to_string(index));
     stream >> _xs[index - 1];
     stream >> _ys[index - 1];
+    if (stream.fail())
+      throw std::runtime_error("Tsp::load_coordinates: Bad coordinates of city " + std::to_string(index));
   }
 }
 
diff --git a/lib/hnco/functions/collection/tsp.hh b/lib/hnco/functions/collection/tsp.hh
index 50461fd..0e0294b 100644
--- a/lib/hnco/functions/collection/tsp.hh
+++ b/lib/hnco/functions/collection/tsp.hh
@@ -45,7 +45,7 @@ private:
   /// Comment
   std::string _comment;
   /// Number of cities
-  int _num_cities;
+  int _num_cities = 0;
   /// Abscissas of cities
   std::vector<float> _xs;
   /// Ordinates of cities
-- 
2.43.0


From 863e95be1af2484562260e40f869713f2433ae8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:47:13 +0000
Subject: [PATCH 25/25] fix: (1+(lambda,lambda)) GA: test the rank before the
 access to the ranked population

When all offsprings had the same value, the loop looking for ties
accessed the population one past its end.
---
 .../one-plus-lambda-comma-lambda-ga.cc                        | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/hnco/algorithms/evolutionary-algorithms/one-plus-lambda-comma-lambda-ga.cc b/lib/hnco/algorithms/evolutionary-algorithms/one-plus-lambda-comma-lambda-ga.cc
index 8504b8f..b163367 100644
--- a/lib/hnco/algorithms/evolutionary-algorithms/one-plus-lambda-comma-lambda-ga.cc
+++ b/lib/hnco/algorithms/evolutionary-algorithms/one-plus-lambda-comma-lambda-ga.cc
@@ -51,7 +51,7 @@ OnePlusLambdaCommaLambdaGa::iterate()
 
   double value = _offsprings.get_best_value(0);
   int n = 0;
-  while (_offsprings.get_best_value(n) == value && n < _offsprings.get_size())
+  while (n < _offsprings.get_size() && _offsprings.get_best_value(n) == value)
     n++;
   assert(n > 0);
   std::uniform_int_distribution<int> choose_parent(0, n - 1);
@@ -67,7 +67,7 @@ OnePlusLambdaCommaLambdaGa::iterate()
   value = _offsprings.get_best_value(0);
   if (value >= _solution.second) {
     n = 0;
-    while (_offsprings.get_best_value(n) == value && n < _offsprings.get_size())
+    while (n < _offsprings.get_size() && _offsprings.get_best_value(n) == value)
       n++;
     assert(n > 0);
     choose_parent = std::uniform_int_distribution<int>(0, n - 1);
-- 
2.43.0

