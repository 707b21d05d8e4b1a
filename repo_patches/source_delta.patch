From 9e23ea8eed3c1ce803987b19db66320575b5564b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:12 +0000
Subject: [PATCH 01/90] fix: never ask OpenMP for a dynamic schedule with chunk
 size 0

With fewer tasks than hardware threads tasks.size()/thN is 0, and libgomp
hands out empty chunks forever.
---
 HeuristicFlow/src/AOS/AOSBoxed.hpp     | 2 +-
 HeuristicFlow/src/Genetic/GABase.hpp   | 2 +-
 HeuristicFlow/src/Genetic/NSGABase.hpp | 2 +-
 HeuristicFlow/src/PSO/PSO4Eigen.hpp    | 2 +-
 HeuristicFlow/src/PSO/PSO4std.hpp      | 2 +-
 HeuristicFlow/src/PSO/PSOAbstrcat.hpp  | 2 +-
 6 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/HeuristicFlow/src/AOS/AOSBoxed.hpp b/HeuristicFlow/src/AOS/AOSBoxed.hpp
index a7d158c..5fed750 100644
--- a/HeuristicFlow/src/AOS/AOSBoxed.hpp
+++ b/HeuristicFlow/src/AOS/AOSBoxed.hpp
@@ -109,7 +109,7 @@ class AOSBoxed : public AOSParameterPack<Var_t, Fitness_t, Arg_t>,
       tasks.emplace_back(&i);
     }
     static const int32_t thN = threadNum();
-#pragma omp parallel for schedule(dynamic, tasks.size() / thN)
+#pragma omp parallel for schedule(dynamic, std::max<int64_t>(1, tasks.size() / thN))
     for (int i = 0; i < tasks.size(); i++) {
       Electron_t* ptr = tasks[i];
 
diff --git a/HeuristicFlow/src/Genetic/GABase.hpp b/HeuristicFlow/src/Genetic/GABase.hpp
index 185e586..1a3acfb 100644
--- a/HeuristicFlow/src/Genetic/GABase.hpp
+++ b/HeuristicFlow/src/Genetic/GABase.hpp
@@ -222,7 +222,7 @@ class GABase : public GAAbstract<Var_t, Fitness_t, Args_t>,
       tasks.emplace_back(&i);
     }
     static const int32_t thN = threadNum();
-#pragma omp parallel for schedule(dynamic, tasks.size() / thN)
+#pragma omp parallel for schedule(dynamic, std::max<int64_t>(1, tasks.size() / thN))
     for (int i = 0; i < int(tasks.size()); i++) {
       Gene *ptr = tasks[i];
 
diff --git a/HeuristicFlow/src/Genetic/NSGABase.hpp b/HeuristicFlow/src/Genetic/NSGABase.hpp
index 23ac246..f5c0e5d 100644
--- a/HeuristicFlow/src/Genetic/NSGABase.hpp
+++ b/HeuristicFlow/src/Genetic/NSGABase.hpp
@@ -106,7 +106,7 @@ class NSGABase
     const size_t popSizeBefore = sortSpace.size();
 #ifdef HEU_HAS_OPENMP
     static const int32_t thN = threadNum();
-#pragma omp parallel for schedule(dynamic, popSizeBefore / thN)
+#pragma omp parallel for schedule(dynamic, std::max<int64_t>(1, popSizeBefore / thN))
     for (int ed = 0; ed < popSizeBefore; ed++) {
       sortSpace[ed]->dominated_by_num = 0;
       for (size_t er = 0; er < popSizeBefore; er++) {
diff --git a/HeuristicFlow/src/PSO/PSO4Eigen.hpp b/HeuristicFlow/src/PSO/PSO4Eigen.hpp
index 9f4394b..d319a93 100644
--- a/HeuristicFlow/src/PSO/PSO4Eigen.hpp
+++ b/HeuristicFlow/src/PSO/PSO4Eigen.hpp
@@ -85,7 +85,7 @@ class PSO4Eigen
   void __impl_updatePopulation() noexcept {
 #ifdef HEU_HAS_OPENMP
     static const int32_t thN = threadNum();
-#pragma omp parallel for schedule(dynamic, this->_population.size() / thN)
+#pragma omp parallel for schedule(dynamic, std::max<int64_t>(1, this->_population.size() / thN))
 #endif  //  HEU_HAS_OPENMP
     for (int idx = 0; idx < (int)this->_population.size(); idx++) {
       Particle_t& i = this->_population[idx];
diff --git a/HeuristicFlow/src/PSO/PSO4std.hpp b/HeuristicFlow/src/PSO/PSO4std.hpp
index 6fe808a..203657c 100644
--- a/HeuristicFlow/src/PSO/PSO4std.hpp
+++ b/HeuristicFlow/src/PSO/PSO4std.hpp
@@ -94,7 +94,7 @@ class PSO4std : public internal::PSOAbstract<Var_t, double, RecordOpt, Arg_t, BS
   void __impl_updatePopulation() noexcept {
 #ifdef HEU_HAS_OPENMP
     static const int32_t thN = threadNum();
-#pragma omp parallel for schedule(dynamic, this->_population.size() / thN)
+#pragma omp parallel for schedule(dynamic, std::max<int64_t>(1, this->_population.size() / thN))
 #endif  //  HEU_HAS_OPENMP
     for (int index = 0; index < this->_population.size(); index++) {
       Particle_t& i = this->_population[index];
diff --git a/HeuristicFlow/src/PSO/PSOAbstrcat.hpp b/HeuristicFlow/src/PSO/PSOAbstrcat.hpp
index a7ce3a1..be351d0 100644
--- a/HeuristicFlow/src/PSO/PSOAbstrcat.hpp
+++ b/HeuristicFlow/src/PSO/PSOAbstrcat.hpp
@@ -287,7 +287,7 @@ Var_t _velocityMax;
   void __impl_computeAllFitness() noexcept {
 #ifdef HEU_HAS_OPENMP
     static const int32_t thN = threadNum();
-#pragma omp parallel for schedule(dynamic, _population.size() / thN)
+#pragma omp parallel for schedule(dynamic, std::max<int64_t>(1, _population.size() / thN))
     for (int i = 0; i < _population.size(); i++) {
       Particle* ptr = &_population[i];
       PSOExecutor<Base_t::HasParameters>::doFitness(this, &ptr->position, &ptr->fitness);
-- 
2.43.0


From d96ebc560e16d7202aa483e5943848615e28fc0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:12 +0000
Subject: [PATCH 02/90] fix: SOGA Truncation/EliteReserved read the erased best
 gene when counting fails

---
 HeuristicFlow/src/Genetic/SOGASelecters.hpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/HeuristicFlow/src/Genetic/SOGASelecters.hpp b/HeuristicFlow/src/Genetic/SOGASelecters.hpp
index f22d2cc..0bc2a91 100644
--- a/HeuristicFlow/src/Genetic/SOGASelecters.hpp
+++ b/HeuristicFlow/src/Genetic/SOGASelecters.hpp
@@ -56,6 +56,8 @@ class SOGASelector<SelectMethod::Truncation> {
     using GeneIt_t = typename this_t::GeneIt_t;
 
     std::list<Gene_t>& popRef = static_cast<this_t*>(this)->_population;
+    // cached because the previous best gene may be eliminated
+    const double previousBestFitness = static_cast<this_t*>(this)->bestFitness();
     std::vector<GeneIt_t> sortSpace;
     sortSpace.clear();
     sortSpace.reserve((popRef.size()));
@@ -72,7 +74,7 @@ class SOGASelector<SelectMethod::Truncation> {
       sortSpace.pop_back();
     }
 
-    static_cast<this_t*>(this)->updateFailTimesAndBestGene(sortSpace.front());
+    static_cast<this_t*>(this)->updateFailTimesAndBestGene(sortSpace.front(), previousBestFitness);
   }
 
  private:
@@ -900,9 +902,12 @@ class SOGASelector<SelectMethod::EliteReserved> {
       }
     }
 
+    // cached because the previous best gene may be eliminated
+    const double previousBestFitness = static_cast<this_t*>(this)->bestFitness();
+
     static_cast<this_t*>(this)->applyErasement(eliminateSpace);
     static_cast<this_t*>(this)->updateFailTimesAndBestGene(
-        static_cast<this_t*>(this)->findCurrentBestGene());
+        static_cast<this_t*>(this)->findCurrentBestGene(), previousBestFitness);
   }
 };
 
-- 
2.43.0


From 738953007ac17b4e36f2cdbb53bc9126f5f07839 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:50 +0000
Subject: [PATCH 03/90] fix: StochasticUniversal keeps the configured
 population size on plateaus

With equal fitness values everywhere the branch took every candidate out of
the eliminate list, so nobody was eliminated and the population kept growing.
The regular branch can also no longer select one more than it should.
---
 HeuristicFlow/src/Genetic/SOGASelecters.hpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/HeuristicFlow/src/Genetic/SOGASelecters.hpp b/HeuristicFlow/src/Genetic/SOGASelecters.hpp
index 0bc2a91..8481483 100644
--- a/HeuristicFlow/src/Genetic/SOGASelecters.hpp
+++ b/HeuristicFlow/src/Genetic/SOGASelecters.hpp
@@ -754,12 +754,11 @@ class SOGASelector<SelectMethod::StochasticUniversal> {
     }
 
     if (fitnessSum <= 0) {  //  unlikely
-      for (auto it = eliminateSpace.begin(); it != eliminateSpace.end();) {
-        if (randD() * static_cast<this_t*>(this)->_option.populationSize <= popSizeBeforeSelect) {
-          it = eliminateSpace.erase(it);
-        } else {
-          ++it;
-        }
+      // every candidate is equally good, select stochastically
+      while (int(eliminateSpace.size()) > eliminateNum) {
+        auto it = eliminateSpace.begin();
+        std::advance(it, randIdx(int(eliminateSpace.size())));
+        eliminateSpace.erase(it);
       }
     } else {
       const double pointerInterval =
@@ -783,7 +782,8 @@ class SOGASelector<SelectMethod::StochasticUniversal> {
       // While paving throught eliminateSpace, accumulate the fitness. Everytime when the sum is
       // greater of equal to the interval, erase the current element (selected)
       double fitnessCounter = randD(0, pointerInterval);
-      for (auto it = eliminateSpace.begin(); it != eliminateSpace.end();) {
+      for (auto it = eliminateSpace.begin();
+           it != eliminateSpace.end() && int(eliminateSpace.size()) > eliminateNum;) {
         fitnessCounter += it->second;
 
         if (fitnessCounter >= pointerInterval) {
-- 
2.43.0


From 7f753dcf1eebe0edfbb810297f63a99940722db9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:50 +0000
Subject: [PATCH 04/90] fix: rank selections draw with the actual sum of their
 weights

LinearRank weights don't sum up to 1; with small probabilities the overshoot
always selected the worst candidate. ExponentialRank did the same once the
running sum was dominated by rounding error.
---
 HeuristicFlow/src/Genetic/SOGASelecters.hpp | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/HeuristicFlow/src/Genetic/SOGASelecters.hpp b/HeuristicFlow/src/Genetic/SOGASelecters.hpp
index 8481483..eafc790 100644
--- a/HeuristicFlow/src/Genetic/SOGASelecters.hpp
+++ b/HeuristicFlow/src/Genetic/SOGASelecters.hpp
@@ -522,20 +522,24 @@ class SOGASelector<SelectMethod::LinearRank> {
           ));
     }
 
-    double rMax = 1.0;
     while (int(eliminateSpace.size()) > popSizeBeforeSelect - K) {
+      // Summed up again for each draw: the weights needn't sum up to 1, and subtracting them one by
+      // one from the sum leaves nothing but rounding error once the greatest are gone.
+      double rMax = 0;
+      for (auto& pair : eliminateSpace) {
+        rMax += pair.second;
+      }
+
       double r = randD(0, rMax);
       for (auto it = eliminateSpace.begin(); it != eliminateSpace.end(); ++it) {
         r -= it->second;
         if (r <= 0) {
-          rMax -= it->second;
           eliminateSpace.erase(it);
           break;
         }
       }
 
       if (r > 0) {
-        rMax -= eliminateSpace.back().second;
         eliminateSpace.pop_back();
       }
     }
@@ -611,20 +615,24 @@ class SOGASelector<SelectMethod::ExponentialRank> {
               ));
     }
 
-    double rMax = 1.0;
     while (int(eliminateSpace.size()) > popSizeBeforeSelect - K) {
+      // Summed up again for each draw: the weights needn't sum up to 1, and subtracting them one by
+      // one from the sum leaves nothing but rounding error once the greatest are gone.
+      double rMax = 0;
+      for (auto& pair : eliminateSpace) {
+        rMax += pair.second;
+      }
+
       double r = randD(0, rMax);
       for (auto it = eliminateSpace.begin(); it != eliminateSpace.end(); ++it) {
         r -= it->second;
         if (r <= 0) {
-          rMax -= it->second;
           eliminateSpace.erase(it);
           break;
         }
       }
 
       if (r > 0) {
-        rMax -= eliminateSpace.back().second;
         eliminateSpace.pop_back();
       }
     }
-- 
2.43.0


From 576498e3930351ea901544bddfc30d594e49a886 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:50 +0000
Subject: [PATCH 05/90] fix: Boltzmann selection survives any finite fitness
 range

exp(strength*fitness) overflowed to infinity, made the draw NaN and the
selection loop never ended; on underflow all weights were 0 and the first
candidates of the list survived whatever their fitness.
---
 HeuristicFlow/src/Genetic/SOGASelecters.hpp | 28 ++++++++++++---------
 1 file changed, 16 insertions(+), 12 deletions(-)

diff --git a/HeuristicFlow/src/Genetic/SOGASelecters.hpp b/HeuristicFlow/src/Genetic/SOGASelecters.hpp
index eafc790..45b4fb0 100644
--- a/HeuristicFlow/src/Genetic/SOGASelecters.hpp
+++ b/HeuristicFlow/src/Genetic/SOGASelecters.hpp
@@ -677,34 +677,38 @@ class SOGASelector<SelectMethod::Boltzmann> {
       return;
     }
 
+    // Use the iterator as first and the exponent of its weight as second. The sum of weights is not
+    // normalized.
     std::list<std::pair<GeneIt_t, double>> eliminateSpace;
-    // double Z = 0;    //Z is erased because probability normalization is not guaranteed.
     for (GeneIt_t it = static_cast<this_t*>(this)->_population.begin();
          it != static_cast<this_t*>(this)->_population.end(); ++it) {
-      eliminateSpace.emplace_back(it, it->fitness);
-      // Z += std::exp(it->fitness);
-    }
-
-    double rMax = 0;  // the sum of "probability"
-    for (auto& pair : eliminateSpace) {
-      pair.second = std::exp(_boltzmannSelectStrength * pair.second);
-      rMax += pair.second;  //  the sum of probability may not be 1.
+      eliminateSpace.emplace_back(it, _boltzmannSelectStrength * it->fitness);
     }
 
     while (int(eliminateSpace.size()) > eliminateNum) {
+      // Exponents are taken relative to the greatest one left, otherwise exp() overflows or all
+      // weights left underflow to 0.
+      double maxExponent = ninfD;
+      for (auto& pair : eliminateSpace) {
+        maxExponent = std::max(maxExponent, pair.second);
+      }
+
+      double rMax = 0;
+      for (auto& pair : eliminateSpace) {
+        rMax += std::exp(pair.second - maxExponent);
+      }
+
       double r = randD(0, rMax);
 
       for (auto it = eliminateSpace.begin(); it != eliminateSpace.end(); ++it) {
-        r -= it->second;
+        r -= std::exp(it->second - maxExponent);
         if (r <= 0) {
-          rMax -= it->second;
           eliminateSpace.erase(it);
           break;
         }
       }
 
       if (r > 0) {
-        rMax -= eliminateSpace.back().second;
         eliminateSpace.pop_back();
       }
     }
-- 
2.43.0


From 3ef5f1ed4573df62a7b73699a33ac943e2990f4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:11 +0000
Subject: [PATCH 06/90] fix: initialize the Boltzmann strength of SOGA with
 run-time select method

---
 HeuristicFlow/src/Genetic/SOGA.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/HeuristicFlow/src/Genetic/SOGA.hpp b/HeuristicFlow/src/Genetic/SOGA.hpp
index 80ff28a..2d1f555 100644
--- a/HeuristicFlow/src/Genetic/SOGA.hpp
+++ b/HeuristicFlow/src/Genetic/SOGA.hpp
@@ -124,7 +124,8 @@ class SOGA : public internal::GABase<Var_t, double, Record, internal::DefaultGen
  public:
   HEU_MAKE_GABASE_TYPES(Base_t)
   SOGA() {
-    if constexpr (smOpt == SelectMethod::Boltzmann) {
+    if constexpr (smOpt == SelectMethod::Boltzmann ||
+                  smOpt == SelectMethod::RunTimeSelectMethod) {
       this->_boltzmannSelectStrength = 10 * (fOpt == FITNESS_LESS_BETTER ? -1 : 1);
     }
   }
-- 
2.43.0


From 0cb76ec25333f6ab3628e913dc5377e4228fd0da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:34 +0000
Subject: [PATCH 07/90] fix: RouletteWheel keeps its selection pressure after
 drawing an outlier

The running sum of weights was pure rounding error (or 0) once a fitness much
greater than the rest had been drawn; the remaining survivors were then
selected independently of their fitness.
---
 HeuristicFlow/src/Genetic/SOGASelecters.hpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/HeuristicFlow/src/Genetic/SOGASelecters.hpp b/HeuristicFlow/src/Genetic/SOGASelecters.hpp
index 45b4fb0..04f30f1 100644
--- a/HeuristicFlow/src/Genetic/SOGASelecters.hpp
+++ b/HeuristicFlow/src/Genetic/SOGASelecters.hpp
@@ -134,29 +134,31 @@ class SOGASelector<SelectMethod::RouletteWheel> {
       minFitness = std::min(minFitness, eliminateSpace.back().second);
     }
 
-    double processedFitnessSum = 0;
     for (auto& pair : eliminateSpace) {
       pair.second -= minFitness;
-      processedFitnessSum += pair.second;
     }
 
     // erase all selected candidates from eliminateSpace
 
     while (int(eliminateSpace.size()) > eliminateNum) {
+      // Summed up again for each draw, or nothing but rounding error is left once an outlier is taken
+      double processedFitnessSum = 0;
+      for (auto& pair : eliminateSpace) {
+        processedFitnessSum += pair.second;
+      }
+
       // erase a solution from eliminateSpace by its fitness
       if (processedFitnessSum > 0) {
         double r = randD(0, processedFitnessSum);
         for (auto it = eliminateSpace.begin(); it != eliminateSpace.end(); ++it) {
           r -= it->second;
           if (r <= 0) {
-            processedFitnessSum -= it->second;
             eliminateSpace.erase(it);
             break;
           }
         }
 
         if (r > 0) {  // unlikely
-          processedFitnessSum -= eliminateSpace.back().second;
           eliminateSpace.pop_back();
         }
 
-- 
2.43.0


From a3848254b18bef6296c39c25911732c6b04e2436 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:27 +0000
Subject: [PATCH 08/90] fix: MOGA paretoFront(variable, fitness) names an
 existing member

---
 HeuristicFlow/src/Genetic/MOGAAbstract.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/HeuristicFlow/src/Genetic/MOGAAbstract.hpp b/HeuristicFlow/src/Genetic/MOGAAbstract.hpp
index 3691f3c..7eaba3d 100644
--- a/HeuristicFlow/src/Genetic/MOGAAbstract.hpp
+++ b/HeuristicFlow/src/Genetic/MOGAAbstract.hpp
@@ -101,7 +101,7 @@ class MOGAAbstract : public GABase<Var_t, Eigen::Array<double, ObjNum, 1>, rOpt,
     front.clear();
     front.reserve(_pfGenes.size());
     for (const Gene* i : _pfGenes) {
-      front.emplace_back(std::make_pair(&(i->self), &(i->fitness)));
+      front.emplace_back(std::make_pair(&(i->decision_variable), &(i->fitness)));
     }
   }
 
-- 
2.43.0


From c777a231429e06dc583bc41f2529b31848062271 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:27 +0000
Subject: [PATCH 09/90] fix: MOGA with run-time objective number compiles again

---
 HeuristicFlow/src/Genetic/MOGABase.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/HeuristicFlow/src/Genetic/MOGABase.hpp b/HeuristicFlow/src/Genetic/MOGABase.hpp
index 1d60c58..fa6e644 100644
--- a/HeuristicFlow/src/Genetic/MOGABase.hpp
+++ b/HeuristicFlow/src/Genetic/MOGABase.hpp
@@ -151,7 +151,7 @@ class MOGABase<Var_t, Eigen::Dynamic, fOpt, rOpt, Gene, Args_t, _iFun_, _fFun_,
  protected:
   inline void __impl_computeAllFitness() noexcept {
     for (Gene_t& g : this->_population) {
-      if (!g.isCalculated()) {
+      if (!g.is_fitness_computed) {
         g.fitness.resize(objectiveNum(), 1);
       }
     }
-- 
2.43.0


From e996027efba1a76dd6feb732ccbfc3880742d9ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:27 +0000
Subject: [PATCH 10/90] fix: NSGA2/NSGA3 selection of a population smaller than
 the configured size

---
 HeuristicFlow/src/Genetic/NSGA2.hpp         | 3 ++-
 HeuristicFlow/src/Genetic/NSGA3Abstract.hpp | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/HeuristicFlow/src/Genetic/NSGA2.hpp b/HeuristicFlow/src/Genetic/NSGA2.hpp
index 78d53e0..784b8f7 100644
--- a/HeuristicFlow/src/Genetic/NSGA2.hpp
+++ b/HeuristicFlow/src/Genetic/NSGA2.hpp
@@ -207,7 +207,8 @@ class NSGA2
     bool needCongestion = true;
     while (true) {
       // don't need to calculate congestion
-      if (selected.size() == this->_option.populationSize) {
+      // (a population that is not yet full survives as a whole)
+      if (selected.size() == this->_option.populationSize || this->pfLayers.empty()) {
         needCongestion = false;
         break;
       }
diff --git a/HeuristicFlow/src/Genetic/NSGA3Abstract.hpp b/HeuristicFlow/src/Genetic/NSGA3Abstract.hpp
index 86d08c8..e0d6ae9 100644
--- a/HeuristicFlow/src/Genetic/NSGA3Abstract.hpp
+++ b/HeuristicFlow/src/Genetic/NSGA3Abstract.hpp
@@ -163,7 +163,8 @@ class NSGA3Abstract : public NSGABase<Var_t, ObjNum, FITNESS_LESS_BETTER, rOpt,
 
     while (true) {
       // Luckily we don't need to select part of some genes in Fl.
-      if (selected.size() == this->_option.populationSize) {
+      // (a population that is not yet full survives as a whole)
+      if (selected.size() == this->_option.populationSize || this->pfLayers.empty()) {
         needRefPoint = false;
         break;
       }
-- 
2.43.0


From 25face23340ec4972d30e6f1b2df7c491633587d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:27 +0000
Subject: [PATCH 11/90] fix: NSGA3 single layer reference point precision has a
 default value

---
 HeuristicFlow/src/Genetic/NSGA3Base.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/HeuristicFlow/src/Genetic/NSGA3Base.hpp b/HeuristicFlow/src/Genetic/NSGA3Base.hpp
index 092eaea..4ab0e8c 100644
--- a/HeuristicFlow/src/Genetic/NSGA3Base.hpp
+++ b/HeuristicFlow/src/Genetic/NSGA3Base.hpp
@@ -110,7 +110,7 @@ class NSGA3Base
   }
 
  protected:
-  size_t _precision;  ///< Precision of RPs in single layer. Only exists when rpOpt==SINGLE_LAYER
+  size_t _precision = 4;  ///< Precision of RPs in single layer. Only exists when rpOpt==SINGLE_LAYER
 
   /**
    * \brief Compute reference points
-- 
2.43.0


From 866dca6f68f4ddcbbceffa258c3f0b681b572fc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:27 +0000
Subject: [PATCH 12/90] fix: NSGA3 normalization divided 0 by 0 when an
 objective is constant

---
 HeuristicFlow/src/Genetic/NSGA3Abstract.hpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/HeuristicFlow/src/Genetic/NSGA3Abstract.hpp b/HeuristicFlow/src/Genetic/NSGA3Abstract.hpp
index e0d6ae9..5c0a2bd 100644
--- a/HeuristicFlow/src/Genetic/NSGA3Abstract.hpp
+++ b/HeuristicFlow/src/Genetic/NSGA3Abstract.hpp
@@ -303,6 +303,13 @@ class NSGA3Abstract : public NSGABase<Var_t, ObjNum, FITNESS_LESS_BETTER, rOpt,
       extremePoints2Intercept(extremePoints, &intercepts);
     }
 
+    // an objective that doesn't vary can't be scaled, its translated value is 0
+    for (size_t r = 0; r < M; r++) {
+      if (intercepts[r] == 0) {
+        intercepts[r] = 1;
+      }
+    }
+
     for (Gene_t* i : selected) {
       i->translatedFitness = (i->fitness - ideal) / intercepts;
     }
-- 
2.43.0


From 644e42574ebbdd07025db334d5804655891faa76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:46 +0000
Subject: [PATCH 13/90] fix: NchooseK overflowed although its result is
 representable

---
 HeuristicFlow/src/Global/HeuMaths.hpp | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/HeuristicFlow/src/Global/HeuMaths.hpp b/HeuristicFlow/src/Global/HeuMaths.hpp
index 532ebef..e149368 100644
--- a/HeuristicFlow/src/Global/HeuMaths.hpp
+++ b/HeuristicFlow/src/Global/HeuMaths.hpp
@@ -83,10 +83,21 @@ inline num_t fractorial(num_t n) noexcept {
  */
 template <typename num_t>
 inline num_t NchooseK(num_t N, num_t K) noexcept {
-  if (K * 2 > N) {
+  if (K > N - K) {
     return NchooseK<num_t>(N, N - K);
-  } else
-    return fractorial<num_t>(N) / (fractorial<num_t>(K) * fractorial<num_t>(N - K));
+  }
+  // the product formula, since N! overflows long before C^K_N does
+  num_t result = 1;
+  for (num_t i = 1; i <= K; i = i + 1) {
+    const num_t n = N - K + i;
+    if constexpr (std::is_integral<num_t>::value) {
+      // result*n/i, without the overflow of result*n
+      result = (result / i) * n + (result % i) * n / i;
+    } else {
+      result = result * n / i;
+    }
+  }
+  return result;
 }
 /*
 namespace internal
-- 
2.43.0


From c5f52d568d4266c51db9d24f79ade0805984b603 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:09 +0000
Subject: [PATCH 14/90] fix: randIdx covers wide ranges without overflow and
 never returns the excluded end

---
 HeuristicFlow/src/Global/Randoms.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/HeuristicFlow/src/Global/Randoms.hpp b/HeuristicFlow/src/Global/Randoms.hpp
index 51f66fc..b13f7ee 100644
--- a/HeuristicFlow/src/Global/Randoms.hpp
+++ b/HeuristicFlow/src/Global/Randoms.hpp
@@ -24,6 +24,7 @@ This file is part of HeuristicFlow.
 #include <random>
 #include <cmath>
 #include <chrono>
+#include <type_traits>
 
 #include "InternalHeaderCheck.h"
 
@@ -129,7 +130,7 @@ inline float randF() noexcept {
 template <typename int_t>
 inline int_t randIdx(int_t size) noexcept {
   static_assert(std::is_integral<int_t>::value, "int_t must be integer");
-  return int_t(randF() * size);
+  return int_t(randD() * size);
 }
 
 /**
@@ -144,7 +145,10 @@ inline int_t randIdx(int_t size) noexcept {
 template <typename int_t>
 inline int_t randIdx(int_t min, int_t max_plus_1) noexcept {
   static_assert(std::is_integral<int_t>::value, "int_t must be integer");
-  return int_t((max_plus_1 - min) * randF()) + min;
+  // the width of a range may exceed the maximum of a signed type
+  using uint = typename std::make_unsigned<int_t>::type;
+  const uint width = uint(uint(max_plus_1) - uint(min));
+  return int_t(uint(uint(min) + uint(width * randD())));
 }
 
 inline double normD() noexcept {
-- 
2.43.0


From 114386631f4e11787d78e1e7ea619f68390ad508 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:30 +0000
Subject: [PATCH 15/90] fix: PSO square box posMax(idx) returned the minimum

---
 HeuristicFlow/src/PSO/BoxWithVelocity.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/HeuristicFlow/src/PSO/BoxWithVelocity.hpp b/HeuristicFlow/src/PSO/BoxWithVelocity.hpp
index e1c6100..38c84ba 100644
--- a/HeuristicFlow/src/PSO/BoxWithVelocity.hpp
+++ b/HeuristicFlow/src/PSO/BoxWithVelocity.hpp
@@ -44,7 +44,7 @@ class SquareBox4PSO {
 
   inline Scalar_t posMin(const int) const noexcept { return _posMinS; }
 
-  inline Scalar_t posMax(const int) const noexcept { return _posMinS; }
+  inline Scalar_t posMax(const int) const noexcept { return _posMaxS; }
 
   inline void setRange(const Scalar_t min, const Scalar_t max) noexcept {
     assert(min < max);
-- 
2.43.0


From 62bf20847baa0fccb4cd06f16fb297626292d5a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:30 +0000
Subject: [PATCH 16/90] fix: PSO rectangle boxes compile (wrong trait and
 member names)

---
 HeuristicFlow/src/PSO/BoxWithVelocity.hpp | 24 +++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/HeuristicFlow/src/PSO/BoxWithVelocity.hpp b/HeuristicFlow/src/PSO/BoxWithVelocity.hpp
index 38c84ba..41c284b 100644
--- a/HeuristicFlow/src/PSO/BoxWithVelocity.hpp
+++ b/HeuristicFlow/src/PSO/BoxWithVelocity.hpp
@@ -107,7 +107,7 @@ class NonsquareBox4PSO {
   inline Scalar_t posMax(const int idx) const noexcept { return at(_posMaxV, idx); }
 
   inline void setRange(const Var_t& _min, const Var_t& _max) noexcept {
-    if constexpr (!array_traits<Var_t>::isSizeFixed) {
+    if constexpr (!array_traits<Var_t>::isFixedSize) {
       assert(_min.size() == _max.size());
     }
 
@@ -234,8 +234,8 @@ class NonSquareBoxDynamicDimResizer4Vec4PSO : public NonsquareBox4PSO<Var_t> {
       if (this->posMax().size() != __d) {
         this->posMax().resize(__d);
       }
-      if (this->velocityMax().size() != __d) {
-        this->velocityMax().resize(__d);
+      if (this->maxVelocity().size() != __d) {
+        this->maxVelocity().resize(__d);
       }
     } else if constexpr (array_traits<Var_t>::isColVector) {
       if (this->posMin().size() != __d) {
@@ -244,8 +244,8 @@ class NonSquareBoxDynamicDimResizer4Vec4PSO : public NonsquareBox4PSO<Var_t> {
       if (this->posMax().size() != __d) {
         this->posMax().resize(__d, 1);
       }
-      if (this->velocityMax().size() != __d) {
-        this->velocityMax().resize(__d, 1);
+      if (this->maxVelocity().size() != __d) {
+        this->maxVelocity().resize(__d, 1);
       }
     } else {
       if (this->posMin().size() != __d) {
@@ -254,8 +254,8 @@ class NonSquareBoxDynamicDimResizer4Vec4PSO : public NonsquareBox4PSO<Var_t> {
       if (this->posMax().size() != __d) {
         this->posMax().resize(1, __d);
       }
-      if (this->velocityMax().size() != __d) {
-        this->velocityMax().resize(1, __d);
+      if (this->maxVelocity().size() != __d) {
+        this->maxVelocity().resize(1, __d);
       }
     }
   }
@@ -267,11 +267,11 @@ class NonSquareBoxDynamicDimResizer4Mat4PSO : public NonsquareBox4PSO<Var_t> {
   inline void assert4Size() const noexcept {
     assert(this->posMin().rows() == this->posMax().rows());
 
-    assert(this->posMax().rows() == this->velocityMax().rows());
+    assert(this->posMax().rows() == this->maxVelocity().rows());
 
     assert(this->posMin().cols() == this->posMax().cols());
 
-    assert(this->posMax().cols() == this->velocityMax().cols());
+    assert(this->posMax().cols() == this->maxVelocity().cols());
   }
 
  public:
@@ -299,8 +299,8 @@ class NonSquareBoxDynamicDimResizer4Mat4PSO : public NonsquareBox4PSO<Var_t> {
       this->posMax().resize(_r, _c);
     }
 
-    if (this->velocityMax().rows() != _r || this->velocityMax().cols() != _c) {
-      this->velocityMax().resize(_r, _c);
+    if (this->maxVelocity().rows() != _r || this->maxVelocity().cols() != _c) {
+      this->maxVelocity().resize(_r, _c);
     }
   }
 };
@@ -314,7 +314,7 @@ class NonSquareBoxDynamicDim4PSO
   static_assert(!array_traits<Var_t>::isFixedSize);
   inline int dimensions() const noexcept {
     assert(this->posMin().size() == this->posMax().size());
-    assert(this->posMax().size() == this->velocityMax().size());
+    assert(this->posMax().size() == this->maxVelocity().size());
 
     return this->posMin().size();
   }
-- 
2.43.0


From 6e18f0ebfa25758edb2645f725bee9c76f071347 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:30 +0000
Subject: [PATCH 17/90] fix: PSO for std containers compiles (it named members
 that do not exist)

---
 HeuristicFlow/src/PSO/PSO4std.hpp | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/HeuristicFlow/src/PSO/PSO4std.hpp b/HeuristicFlow/src/PSO/PSO4std.hpp
index 203657c..3ed949b 100644
--- a/HeuristicFlow/src/PSO/PSO4std.hpp
+++ b/HeuristicFlow/src/PSO/PSO4std.hpp
@@ -105,13 +105,12 @@ class PSO4std : public internal::PSOAbstract<Var_t, double, RecordOpt, Arg_t, BS
             this->_option.inertiaFactor * i.velocity[idx] +
             this->_option.learnFactorP * rndP * (i.pBest.position[idx] - i.position[idx]) +
             this->_option.learnFactorG * rndG * (this->gBest.position[idx] - i.position[idx]);
-        if (std::abs(i.velocity[idx]) > this->_velocityMax[idx]) {
-          i.velocity[idx] = sign(i.velocity[idx]) * this->_velocityMax[idx];
-        }
+      }
+      this->applyConstraint4Velocity(&i.velocity);
+      for (int idx = 0; idx < this->dimensions(); idx++) {
         i.position[idx] += i.velocity[idx];
-        i.position[idx] = std::max(i.position[idx], this->_posMin[idx]);
-        i.position[idx] = std::min(i.position[idx], this->_posMax[idx]);
       }
+      this->applyConstraint4Position(&i.position);
     }
   }
 
-- 
2.43.0


From 3cb8aee7ce9dfa8474148193b3cb57052396ec03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:37 +0000
Subject: [PATCH 18/90] fix: PSO threads raced on the global random number
 generator

---
 HeuristicFlow/src/PSO/PSO4Eigen.hpp |  9 ++++++++-
 HeuristicFlow/src/PSO/PSO4std.hpp   | 11 +++++++++--
 2 files changed, 17 insertions(+), 3 deletions(-)

diff --git a/HeuristicFlow/src/PSO/PSO4Eigen.hpp b/HeuristicFlow/src/PSO/PSO4Eigen.hpp
index d319a93..9585991 100644
--- a/HeuristicFlow/src/PSO/PSO4Eigen.hpp
+++ b/HeuristicFlow/src/PSO/PSO4Eigen.hpp
@@ -22,6 +22,7 @@ This file is part of HeuristicFlow.
 #include <array>
 #include <vector>
 #include <tuple>
+#include <utility>
 #include <type_traits>
 
 #include "InternalHeaderCheck.h"
@@ -83,13 +84,19 @@ class PSO4Eigen
    *
    */
   void __impl_updatePopulation() noexcept {
+    // Draw the random ratios in serial, the random number generator can't be shared by threads
+    std::vector<std::pair<Scalar_t, Scalar_t>> ratios(this->_population.size());
+    for (auto& r : ratios) {
+      r.first = randD();
+      r.second = randD();
+    }
 #ifdef HEU_HAS_OPENMP
     static const int32_t thN = threadNum();
 #pragma omp parallel for schedule(dynamic, std::max<int64_t>(1, this->_population.size() / thN))
 #endif  //  HEU_HAS_OPENMP
     for (int idx = 0; idx < (int)this->_population.size(); idx++) {
       Particle_t& i = this->_population[idx];
-      const Scalar_t lFP = randD(), lFG = randD();
+      const Scalar_t lFP = ratios[idx].first, lFG = ratios[idx].second;
       i.velocity = this->_option.inertiaFactor * i.velocity +
                    this->_option.learnFactorP * lFP * (i.pBest.position - i.position) +
                    this->_option.learnFactorG * lFG * (this->gBest.position - i.position);
diff --git a/HeuristicFlow/src/PSO/PSO4std.hpp b/HeuristicFlow/src/PSO/PSO4std.hpp
index 3ed949b..2f19ae2 100644
--- a/HeuristicFlow/src/PSO/PSO4std.hpp
+++ b/HeuristicFlow/src/PSO/PSO4std.hpp
@@ -22,6 +22,7 @@ This file is part of HeuristicFlow.
 #include <array>
 #include <vector>
 #include <tuple>
+#include <utility>
 #include <type_traits>
 
 #include "InternalHeaderCheck.h"
@@ -92,14 +93,20 @@ class PSO4std : public internal::PSOAbstract<Var_t, double, RecordOpt, Arg_t, BS
    *
    */
   void __impl_updatePopulation() noexcept {
+    // Draw the random ratios in serial, the random number generator can't be shared by threads
+    std::vector<std::pair<double, double>> ratios(this->_population.size());
+    for (auto& r : ratios) {
+      r.first = randD();
+      r.second = randD();
+    }
 #ifdef HEU_HAS_OPENMP
     static const int32_t thN = threadNum();
 #pragma omp parallel for schedule(dynamic, std::max<int64_t>(1, this->_population.size() / thN))
 #endif  //  HEU_HAS_OPENMP
     for (int index = 0; index < this->_population.size(); index++) {
       Particle_t& i = this->_population[index];
-      const double rndP = randD();
-      const double rndG = randD();
+      const double rndP = ratios[index].first;
+      const double rndG = ratios[index].second;
       for (int idx = 0; idx < this->dimensions(); idx++) {
         i.velocity[idx] =
             this->_option.inertiaFactor * i.velocity[idx] +
-- 
2.43.0


From 254c04dc579adf60421beab5be40563e73b4c0e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:24 +0000
Subject: [PATCH 19/90] fix: AOS compiles without OpenMP

---
 HeuristicFlow/src/AOS/AOSBoxed.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/HeuristicFlow/src/AOS/AOSBoxed.hpp b/HeuristicFlow/src/AOS/AOSBoxed.hpp
index 5fed750..e5e429f 100644
--- a/HeuristicFlow/src/AOS/AOSBoxed.hpp
+++ b/HeuristicFlow/src/AOS/AOSBoxed.hpp
@@ -123,7 +123,7 @@ class AOSBoxed : public AOSParameterPack<Var_t, Fitness_t, Arg_t>,
         continue;
       }
 
-      AOSExecutor<>::doFitness(this, &i.self, &i._Fitness);
+      AOSExecutor<>::doFitness(this, &i.state, &i.energy);
 
       i.isComputed = true;
     }
-- 
2.43.0


From f62866951568eb9dec1083d0679a9adae3a4b380 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:24 +0000
Subject: [PATCH 20/90] fix: AOS layer best electron compared addresses instead
 of energies

---
 HeuristicFlow/src/AOS/AOS4EigenAndStd.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/HeuristicFlow/src/AOS/AOS4EigenAndStd.hpp b/HeuristicFlow/src/AOS/AOS4EigenAndStd.hpp
index 099c765..77587a9 100644
--- a/HeuristicFlow/src/AOS/AOS4EigenAndStd.hpp
+++ b/HeuristicFlow/src/AOS/AOS4EigenAndStd.hpp
@@ -78,11 +78,11 @@ class AOS4Eigen : public AOSBoxed<Var_t, Fitness_t, Arg_t, Box_t, _iFun_, _fFun_
         layer.bindingState += layer.at(idx)->state;
         layer.bindingEnergy += layer.at(idx)->energy;
         if constexpr (fOpt == FitnessOption::FITNESS_LESS_BETTER) {
-          if (layer.at(idx) < layer.at(layer.layerBestIdx)) {
+          if (layer.at(idx)->energy < layer.layerBestEnergy()) {
             layer.layerBestIdx = idx;
           }
         } else {
-          if (layer.at(idx) > layer.at(layer.layerBestIdx)) {
+          if (layer.at(idx)->energy > layer.layerBestEnergy()) {
             layer.layerBestIdx = idx;
           }
         }
-- 
2.43.0


From 917052cd2ce5ba274c5372ba481f750882b94146 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:24 +0000
Subject: [PATCH 21/90] fix: AOS layer binding energy of std containers is the
 mean of the layer

---
 HeuristicFlow/src/AOS/AOS4EigenAndStd.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/HeuristicFlow/src/AOS/AOS4EigenAndStd.hpp b/HeuristicFlow/src/AOS/AOS4EigenAndStd.hpp
index 77587a9..06e9413 100644
--- a/HeuristicFlow/src/AOS/AOS4EigenAndStd.hpp
+++ b/HeuristicFlow/src/AOS/AOS4EigenAndStd.hpp
@@ -196,6 +196,7 @@ class AOS4Std : public AOSBoxed<Var_t, Fitness_t, Arg_t, Box_t, _iFun_, _fFun_,
         for (int varIdx = 0; varIdx < varDim; varIdx++) {
           layer.bindingState[varIdx] += layer.at(idx)->state[varIdx];
         }
+        layer.bindingEnergy += layer.at(idx)->energy;
 
         if constexpr (fOpt == FitnessOption::FITNESS_LESS_BETTER) {
           if (layer.at(idx)->energy < layer.layerBestEnergy()) {
-- 
2.43.0


From a8e87f4e7ba77a16559b60419bdb6bc8a2e07781 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:24 +0000
Subject: [PATCH 22/90] fix: AOS best electron could dangle when more electrons
 tie than survive

---
 HeuristicFlow/src/AOS/AOS.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/HeuristicFlow/src/AOS/AOS.hpp b/HeuristicFlow/src/AOS/AOS.hpp
index 99d5ddf..e6d9929 100644
--- a/HeuristicFlow/src/AOS/AOS.hpp
+++ b/HeuristicFlow/src/AOS/AOS.hpp
@@ -85,6 +85,9 @@ class AOS : public internal::AOSBase<typename Box_t::Var_t, double, Arg_t, Box_t
       elecSortSpace.pop_back();
     }
 
+    // if several electrons tie, the one pointed to may have been erased
+    this->_atomBestPtr = &*elecSortSpace.front();
+
     this->_layers.clear();
 
     // a estimation value of layer number
-- 
2.43.0


From 38d168fd97655e915d2e95b67d85f541d39f6bda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:24 +0000
Subject: [PATCH 23/90] fix: AOS layers wrote out of bounds when rounding lost
 electrons, or stayed empty

---
 HeuristicFlow/src/AOS/AOS.hpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/HeuristicFlow/src/AOS/AOS.hpp b/HeuristicFlow/src/AOS/AOS.hpp
index e6d9929..050a986 100644
--- a/HeuristicFlow/src/AOS/AOS.hpp
+++ b/HeuristicFlow/src/AOS/AOS.hpp
@@ -115,6 +115,9 @@ class AOS : public internal::AOSBase<typename Box_t::Var_t, double, Arg_t, Box_t
       }
     }
 
+    // rounding must not leave any electron without layer
+    numOfEachLayer[tempLayerNum - 1] = int(this->_electrons.size());
+
     this->_layers.resize(tempLayerNum);
 
     for (Layer_t& layer : this->_layers) {
@@ -124,7 +127,7 @@ class AOS : public internal::AOSBase<typename Box_t::Var_t, double, Arg_t, Box_t
     int curLayerIdx = 0;
     this->_layers.front().reserve(numOfEachLayer[0]);
     for (int countedElectrons = 0; countedElectrons < this->_electrons.size(); countedElectrons++) {
-      if (countedElectrons >= numOfEachLayer[curLayerIdx]) {
+      while (countedElectrons >= numOfEachLayer[curLayerIdx]) {
         curLayerIdx++;
         this->_layers[curLayerIdx].reserve(numOfEachLayer[curLayerIdx] -
                                            numOfEachLayer[curLayerIdx - 1]);
@@ -134,9 +137,9 @@ class AOS : public internal::AOSBase<typename Box_t::Var_t, double, Arg_t, Box_t
     }
 
     // remove empty layers
-    while (this->_layers.back().size() <= 0) {
-      this->_layers.pop_back();
-    }
+    this->_layers.erase(std::remove_if(this->_layers.begin(), this->_layers.end(),
+                                       [](const Layer_t& layer) { return layer.empty(); }),
+                        this->_layers.end());
   }
 };
 
-- 
2.43.0


From a6ef9d45b591d4a6c764b1598fed2df6d00ced20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:34 +0000
Subject: [PATCH 24/90] fix: PSO default initialization of matrices in
 rectangle boxes compiles

---
 HeuristicFlow/src/PSO/PSOAbstrcat.hpp | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/HeuristicFlow/src/PSO/PSOAbstrcat.hpp b/HeuristicFlow/src/PSO/PSOAbstrcat.hpp
index be351d0..d0b3a1a 100644
--- a/HeuristicFlow/src/PSO/PSOAbstrcat.hpp
+++ b/HeuristicFlow/src/PSO/PSOAbstrcat.hpp
@@ -324,12 +324,7 @@ Var_t _velocityMax;
     // evulate
     for (int idx = 0; idx < s->dimensions(); idx++) {
       at(*velocity, idx) = 0;
-      if constexpr (BS == BoxShape::SQUARE_BOX) {
-        at(*pos, idx) = randD(s->posMin(), s->posMax());
-
-      } else {
-        at(*pos, idx) = randD(s->posMin()[idx], s->posMax()[idx]);
-      }
+      at(*pos, idx) = randD(s->posMin(idx), s->posMax(idx));
     }
   }
 
-- 
2.43.0


From 2ddd4fc6964da6cdca3012332843618783506b32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:11 +0000
Subject: [PATCH 25/90] fix: setDimensions of dynamic rectangle boxes compiles

---
 HeuristicFlow/src/EAGlobal/BoxConstraint.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/HeuristicFlow/src/EAGlobal/BoxConstraint.hpp b/HeuristicFlow/src/EAGlobal/BoxConstraint.hpp
index 551445a..49c1b0e 100644
--- a/HeuristicFlow/src/EAGlobal/BoxConstraint.hpp
+++ b/HeuristicFlow/src/EAGlobal/BoxConstraint.hpp
@@ -308,7 +308,7 @@ class NonSquareBoxDynamicDimVec : public BoxBase<NonSquareBoxDynamicDimVec<Var>,
     return int(this->min().size());
   }
 
-  inline void setDimensions(const int dim) const noexcept {
+  inline void setDimensions(const int dim) noexcept {
     assert(dim > 0);
     this->min().resize(dim);
     this->max().resize(dim);
-- 
2.43.0


From 92f51fcf1205edc0a84647d9ddf61e5161517c1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:11 +0000
Subject: [PATCH 26/90] fix: setDelta of rectangle boxes compiles for matrices

---
 HeuristicFlow/src/EAGlobal/BoxConstraint.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/HeuristicFlow/src/EAGlobal/BoxConstraint.hpp b/HeuristicFlow/src/EAGlobal/BoxConstraint.hpp
index 49c1b0e..eb1dd77 100644
--- a/HeuristicFlow/src/EAGlobal/BoxConstraint.hpp
+++ b/HeuristicFlow/src/EAGlobal/BoxConstraint.hpp
@@ -539,8 +539,8 @@ class NonSquareBoxDeltaCore {
   inline Scalar_t delta(const int idx) const noexcept { return at(_deltaV, idx); }
 
   inline void setDelta(const Var_t& __delta) noexcept {
-    for (Scalar_t deltaElement : __delta) {
-      assert(deltaElement > 0);
+    for (int idx = 0; idx < int(__delta.size()); idx++) {
+      assert(at(__delta, idx) > 0);
     }
     _deltaV = __delta;
   }
-- 
2.43.0


From c34b2b476a9d26c5c6dd2f09d58de22c8fec6339 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:11 +0000
Subject: [PATCH 27/90] fix: initialization of integer boxes whose upper bound
 is the maximum of the type

---
 HeuristicFlow/src/EAGlobal/BoxConstraint.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/HeuristicFlow/src/EAGlobal/BoxConstraint.hpp b/HeuristicFlow/src/EAGlobal/BoxConstraint.hpp
index eb1dd77..b84c3e9 100644
--- a/HeuristicFlow/src/EAGlobal/BoxConstraint.hpp
+++ b/HeuristicFlow/src/EAGlobal/BoxConstraint.hpp
@@ -41,8 +41,10 @@ class BoxBase {
       if constexpr (std::is_same_v<Scalar_t, bool>) {
         at(*v, idx) = randIdx(2) == 0;
       } else if constexpr (std::is_integral_v<Scalar_t>) {
-        at(*v, idx) = randIdx<Scalar_t>(static_cast<const Derived*>(this)->min(idx),
-                                        1 + static_cast<const Derived*>(this)->max(idx));
+        // unsigned arithmetic, max(idx) may be the maximum of Scalar_t
+        at(*v, idx) =
+            Scalar_t(randIdx<uint64_t>(uint64_t(static_cast<const Derived*>(this)->min(idx)),
+                                       uint64_t(static_cast<const Derived*>(this)->max(idx)) + 1));
       } else {
         at(*v, idx) = Scalar_t(randD(static_cast<const Derived*>(this)->min(idx),
                                      static_cast<const Derived*>(this)->max(idx)));
-- 
2.43.0


From 4f73575bf4245df88bf64ea7d7ce8c45e40e4422 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:11 +0000
Subject: [PATCH 28/90] fix: delta of integer boxes wrapped around at the
 bounds of the type

---
 HeuristicFlow/src/EAGlobal/BoxConstraint.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/HeuristicFlow/src/EAGlobal/BoxConstraint.hpp b/HeuristicFlow/src/EAGlobal/BoxConstraint.hpp
index b84c3e9..c3cad24 100644
--- a/HeuristicFlow/src/EAGlobal/BoxConstraint.hpp
+++ b/HeuristicFlow/src/EAGlobal/BoxConstraint.hpp
@@ -75,7 +75,12 @@ class BoxBase {
       at(*v, idx) = !at(*v, idx);
     } else {
       // integer mutation
-      at(*v, idx) += (randIdx(2) == 0) ? 1 : -1;
+      // don't step over the boundary, integers would wrap around
+      if (randIdx(2) == 0) {
+        if (at(*v, idx) < static_cast<const Derived*>(this)->max(idx)) at(*v, idx) += 1;
+      } else {
+        if (at(*v, idx) > static_cast<const Derived*>(this)->min(idx)) at(*v, idx) -= 1;
+      }
       at(*v, idx) = std::min(at(*v, idx), static_cast<const Derived*>(this)->max(idx));
       at(*v, idx) = std::max(at(*v, idx), static_cast<const Derived*>(this)->min(idx));
     }
-- 
2.43.0


From 9037ea2344306ddc4a25529cd4fae7ff2d48e73b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:11 +0000
Subject: [PATCH 29/90] fix: continous boxes with compile-time range apply
 their delta instead of a unit step

---
 HeuristicFlow/src/EAGlobal/BoxConstraint.hpp | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/HeuristicFlow/src/EAGlobal/BoxConstraint.hpp b/HeuristicFlow/src/EAGlobal/BoxConstraint.hpp
index c3cad24..5066ea7 100644
--- a/HeuristicFlow/src/EAGlobal/BoxConstraint.hpp
+++ b/HeuristicFlow/src/EAGlobal/BoxConstraint.hpp
@@ -652,6 +652,16 @@ class FixedContinousBox20 : public FixedDiscreteBox<Var, _minCT, _maxCT> {
   using Var_t = Var;
   using Scalar_t = typename array_traits<Var>::Scalar_t;
   inline constexpr Scalar_t delta(const int = 0) const noexcept { return _deltaCT; }
+
+  inline void applyDelta(Var_t* v) const noexcept {
+    assert(v->size() == this->dimensions());
+    const int idx = randIdx(this->dimensions());
+
+    at(*v, idx) += Scalar_t(randD(-1, 1)) * this->delta(idx);
+
+    at(*v, idx) = std::min(at(*v, idx), this->max(idx));
+    at(*v, idx) = std::max(at(*v, idx), this->min(idx));
+  }
 };
 
 #endif
@@ -668,6 +678,16 @@ class FixedContinousBox17 : public FixedDiscreteBox17<Var, _minCode, _maxCode> {
   static_assert(_deltaCT > 0);
 
   inline constexpr Scalar_t delta(const int = 0) const noexcept { return _deltaCT; }
+
+  inline void applyDelta(Var_t* v) const noexcept {
+    assert(v->size() == this->dimensions());
+    const int idx = randIdx(this->dimensions());
+
+    at(*v, idx) += Scalar_t(randD(-1, 1)) * this->delta(idx);
+
+    at(*v, idx) = std::min(at(*v, idx), this->max(idx));
+    at(*v, idx) = std::max(at(*v, idx), this->min(idx));
+  }
 };
 
 namespace {
-- 
2.43.0


From ececdc8361c057f57bb3c6a4993664ae7a67a433 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:11 +0000
Subject: [PATCH 30/90] fix: discrete boxes tell their shape, which makes them
 box constraints

---
 HeuristicFlow/src/EAGlobal/BoxConstraint.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/HeuristicFlow/src/EAGlobal/BoxConstraint.hpp b/HeuristicFlow/src/EAGlobal/BoxConstraint.hpp
index 5066ea7..a92950c 100644
--- a/HeuristicFlow/src/EAGlobal/BoxConstraint.hpp
+++ b/HeuristicFlow/src/EAGlobal/BoxConstraint.hpp
@@ -449,6 +449,7 @@ template <class Var, BoxShape BS = BoxShape::SQUARE_BOX>
 class DiscretBox
     : public std::conditional_t<BS == BoxShape::SQUARE_BOX, SquareBox_t<Var>, NonSquareBox_t<Var>> {
  public:
+  static constexpr BoxShape Shape = BS;
   using Var_t = Var;
   using Scalar_t = typename array_traits<Var_t>::Scalar_t;
 
-- 
2.43.0


From e104e2e5cadc62d699e3b9b3a1bd4261a70658d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:03 +0000
Subject: [PATCH 31/90] fix: swap crossover compiles for std containers

---
 HeuristicFlow/src/Genetic/Miscellaneous4GA.hpp | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/HeuristicFlow/src/Genetic/Miscellaneous4GA.hpp b/HeuristicFlow/src/Genetic/Miscellaneous4GA.hpp
index f88c615..0ad6496 100644
--- a/HeuristicFlow/src/Genetic/Miscellaneous4GA.hpp
+++ b/HeuristicFlow/src/Genetic/Miscellaneous4GA.hpp
@@ -49,10 +49,15 @@ struct imp_GADefaults_DVO {
     const size_t N = p1->size();
     const size_t idx = randIdx(N);
 
-    c1->topRows(idx) = p1->topRows(idx);
-    c2->topRows(idx) = p2->topRows(idx);
-    c1->bottomRows(N - idx) = p2->bottomRows(N - idx);
-    c2->bottomRows(N - idx) = p1->bottomRows(N - idx);
+    for (size_t i = 0; i < N; i++) {
+      if (i < idx) {
+        c1->operator[](i) = p1->operator[](i);
+        c2->operator[](i) = p2->operator[](i);
+      } else {
+        c1->operator[](i) = p2->operator[](i);
+        c2->operator[](i) = p1->operator[](i);
+      }
+    }
   }
 };
 
-- 
2.43.0


From 5b1019a82301106d9f28181efb962c1463ce5a09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:03 +0000
Subject: [PATCH 32/90] fix: cFunRandXs applies its probability

---
 HeuristicFlow/src/Genetic/Miscellaneous4GA.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/HeuristicFlow/src/Genetic/Miscellaneous4GA.hpp b/HeuristicFlow/src/Genetic/Miscellaneous4GA.hpp
index 0ad6496..afd1272 100644
--- a/HeuristicFlow/src/Genetic/Miscellaneous4GA.hpp
+++ b/HeuristicFlow/src/Genetic/Miscellaneous4GA.hpp
@@ -451,7 +451,7 @@ struct GADefaults<Var_t, void> {
    */
   template <DivCode p = DivCode::DivCode_Half>
   inline static void cFunRandXs(const Var_t *p1, const Var_t *p2, Var_t *c1, Var_t *c2) noexcept {
-    Heu_PRIVATE_IMP_cFunX cFunRandNs(p1, p2, c1, c2);
+    Heu_PRIVATE_IMP_cFunX cFunRandNs<p>(p1, p2, c1, c2);
   }
 };
 
-- 
2.43.0


From 576350c8793abf6c21bf615f3aa9e742211742fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:03 +0000
Subject: [PATCH 33/90] fix: symbolic mutation compiles, never leaves the box
 and always changes the symbol

---
 .../src/Genetic/Miscellaneous4GA.hpp          | 45 +++++++------------
 1 file changed, 15 insertions(+), 30 deletions(-)

diff --git a/HeuristicFlow/src/Genetic/Miscellaneous4GA.hpp b/HeuristicFlow/src/Genetic/Miscellaneous4GA.hpp
index afd1272..ec5c51b 100644
--- a/HeuristicFlow/src/Genetic/Miscellaneous4GA.hpp
+++ b/HeuristicFlow/src/Genetic/Miscellaneous4GA.hpp
@@ -136,40 +136,23 @@ struct GADefaults {
   static constexpr ContainerOption dvo =
       (array_traits<Var_t>::isEigenClass) ? (ContainerOption::Eigen) : (ContainerOption::Std);
 
-  template <BoxShape BS, typename unused = void>
-  struct SymBoxOp  //  non-square box
-  {
+  struct SymBoxOp {
     using scalar_t = typename toElement<Var_t>::type;
 
     inline static void imp_domFunNs(const Var_t *src, Var_t *v, const Args_t *box) noexcept {
       *v = *src;
       const size_t idx = randIdx(v->size());
-      const auto val = v->operator[](idx);
-      const size_t numLess = val - box->min()[idx];
-      const size_t numGreater = box->max()[idx] - val;
-
-      if (randD() * (numLess + numGreater) <= numLess)
-        v->operator[](idx) = randIdx(box->min()[idx], val);
-      else
-        v->operator[](idx) = randIdx(scalar_t(val + 1), scalar_t(box->max()[idx] + 1));
-    }
-  };
+      const scalar_t val = at(*v, int(idx));
+      // unsigned arithmetic, the range may be wider than scalar_t
+      const uint64_t numLess = uint64_t(val) - uint64_t(box->min(int(idx)));
+      const uint64_t numGreater = uint64_t(box->max(int(idx))) - uint64_t(val);
 
-  template <typename unused>
-  struct SymBoxOp<BoxShape::SQUARE_BOX, unused> {
-    using scalar_t = typename toElement<Var_t>::type;
+      if (numLess + numGreater == 0) return;
 
-    inline static void imp_domFunNs(const Var_t *src, Var_t *v, const Args_t *box) noexcept {
-      *v = *src;
-      const size_t idx = randIdx(v->size());
-      const auto val = v->operator[](idx);
-      const size_t numLess = val - box->min();
-      const size_t numGreater = box->max() - val;
-
-      if (randD() * (numLess + numGreater) <= numLess)
-        v->operator[](idx) = randIdx(box->min(), val);
-      else
-        v->operator[](idx) = randIdx(scalar_t(val + 1), scalar_t(box->max() + 1));
+      // pick one of the other symbols
+      const uint64_t pick = randIdx<uint64_t>(numLess + numGreater);
+      at(*v, int(idx)) =
+          scalar_t(uint64_t(box->min(int(idx))) + pick + uint64_t(pick >= numLess));
     }
   };
 
@@ -327,12 +310,14 @@ struct GADefaults {
   requires isBoxConstraint<Args_t>
 #endif  //  #if __cplusplus >= 202002L
   inline static void mFun_s(const Var_t *src, Var_t *v, const Args_t *box) noexcept {
-    static_assert(Args_t::isBox, "Default mFun requires Args_t to be a box constriant");
-    static_assert(Args_t::Encoding == EncodeType::Symbolic, "mFun_s requires symbolic box");
+    static_assert(isBoxConstraint_v<Args_t>, "Default mFun requires Args_t to be a box constriant");
+    static_assert(std::is_integral_v<typename Args_t::Scalar_t> &&
+                      !std::is_same_v<typename Args_t::Scalar_t, bool>,
+                  "mFun_s requires symbolic box");
     static_assert(std::is_same<typename Args_t::Var_t, Var_t>::value,
                   "Box and Var_t types must be same");
 
-    SymBoxOp<Args_t::Shape>::imp_domFunNs(src, v, box);
+    SymBoxOp::imp_domFunNs(src, v, box);
   }
 };
 
-- 
2.43.0


From 143627c6b44523d727a2cfd7bc4117450e8ff006 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:49 +0000
Subject: [PATCH 34/90] fix: encode rounded numbers with an all-ones mantissa
 up to the next power of 2

---
 .../src/Global/ConvertDoubleAndBinCode.hpp    | 28 +++++++++++--------
 1 file changed, 17 insertions(+), 11 deletions(-)

diff --git a/HeuristicFlow/src/Global/ConvertDoubleAndBinCode.hpp b/HeuristicFlow/src/Global/ConvertDoubleAndBinCode.hpp
index aa3950e..f55c72a 100644
--- a/HeuristicFlow/src/Global/ConvertDoubleAndBinCode.hpp
+++ b/HeuristicFlow/src/Global/ConvertDoubleAndBinCode.hpp
@@ -247,41 +247,47 @@ constexpr uint64_t exponentVal(double fl) {
   uint64_t code = 0;
   fl = absVal(fl);
 
-  constexpr double seper =
-      decode(binCode64(0b0000000000001111111111111111111111111111111111111111111111111111));
+  // the smallest normal number. Dividing is exact as long as the result is not less than it.
+  constexpr double minNormal =
+      decode(binCode64(0b0000000000010000000000000000000000000000000000000000000000000000));
 
-  while (fl > 257 * seper) {
+  while (fl >= 256 * minNormal) {
     fl /= 256;
     code += 8;
   }
 
-  while (fl > seper) {
+  while (fl >= 2 * minNormal) {
     fl /= 2;
     code++;
   }
 
+  if (fl >= minNormal) {
+    code++;
+  }
+
   return code;
 }
 
 constexpr uint32_t exponentVal(float fl) {
   uint32_t code = 0;
   fl = absVal(fl);
-  /*
-constexpr double seper =
-    decode(binCode64(0b0000000000001111111111111111111111111111111111111111111111111111));
-    */
-  constexpr float seper = decode(binCode32(0b00000000011111111111111111111111UL));
+  // the smallest normal number. Dividing is exact as long as the result is not less than it.
+  constexpr float minNormal = decode(binCode32(0b00000000100000000000000000000000UL));
 
-  while (fl > 257 * seper) {
+  while (fl >= 256 * minNormal) {
     fl /= 256;
     code += 8;
   }
 
-  while (fl > seper) {
+  while (fl >= 2 * minNormal) {
     fl /= 2;
     code++;
   }
 
+  if (fl >= minNormal) {
+    code++;
+  }
+
   return code;
 }
 
-- 
2.43.0


From e8422798f77c4f95472a150a79fbdd996f42c288 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:49 +0000
Subject: [PATCH 35/90] fix: encode gives positive infinity of float its own
 code

---
 HeuristicFlow/src/Global/ConvertDoubleAndBinCode.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/HeuristicFlow/src/Global/ConvertDoubleAndBinCode.hpp b/HeuristicFlow/src/Global/ConvertDoubleAndBinCode.hpp
index f55c72a..2e3c24b 100644
--- a/HeuristicFlow/src/Global/ConvertDoubleAndBinCode.hpp
+++ b/HeuristicFlow/src/Global/ConvertDoubleAndBinCode.hpp
@@ -402,9 +402,9 @@ constexpr binCode32 encode(const float d) {
 
   if (absVal(d) >= std::numeric_limits<float>::infinity()) {
     if (d > 0) {
-      return binCode32(0b11111111111UL << 23);
+      return binCode32(0b11111111UL << 23);
     } else {
-      return binCode32(0b111111111111UL << 23);
+      return binCode32(0b111111111UL << 23);
     }
   } else
     return binCode32(signCode(d) | exponentCode(d) | mantissaCode(d));
-- 
2.43.0


From ee1e4f115bdbee508a5bc3e80b9e14a935d0c756 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:04 +0000
Subject: [PATCH 36/90] fix: PowEncode overflowed its 54 bits of significant
 digits

---
 HeuristicFlow/src/Global/TemplateFloat.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/HeuristicFlow/src/Global/TemplateFloat.hpp b/HeuristicFlow/src/Global/TemplateFloat.hpp
index 66dcc69..7cf127c 100644
--- a/HeuristicFlow/src/Global/TemplateFloat.hpp
+++ b/HeuristicFlow/src/Global/TemplateFloat.hpp
@@ -123,7 +123,7 @@ enum PowCode : uint64_t {
 
 namespace internal {
 // Multiplie val for 10 times until it gets greater than the threshold
-template <uint64_t val, uint64_t threshold = 10000000000000000ULL>
+template <uint64_t val, uint64_t threshold = 1000000000000000ULL>
 struct PowEncode_amplifier {
  private:
   static const constexpr bool need2amp = (val < threshold);
@@ -175,7 +175,8 @@ struct PowEncode_OneE<0> {
 template <int64_t significant, int16_t power>
 struct PowEncode {
  private:
-  static const constexpr uint64_t threshold = 1e16;
+  // 16 decimal digits, the most that fit into 54 bits
+  static const constexpr uint64_t threshold = 1e15;
   static const constexpr bool isNegative = significant < 0;
   static const constexpr uint64_t absVal = (isNegative) ? (-significant) : significant;
   static const constexpr bool isSigValid = (absVal / 10 < threshold);
@@ -227,7 +228,7 @@ struct PowDecode {
   static const constexpr bool isPowNegative = lowerBitMask & code;
   static const constexpr int16_t absPow = lowerPowMask & code;
   static const constexpr int16_t pow = (isPowNegative ? (-absPow) : absPow);
-  static const constexpr double digital = (sig) / (1e16);
+  static const constexpr double digital = (sig) / (1e15);
   static const constexpr double powPart = internal::PowEncode_OneE<pow>::result;
 
  public:
-- 
2.43.0


From b154ab4862d6be9f5cd89ab4526cd13c81ea9235 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:04 +0000
Subject: [PATCH 37/90] fix: randD(min,max) never returns the excluded end nor
 overflows

---
 HeuristicFlow/src/Global/Randoms.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/HeuristicFlow/src/Global/Randoms.hpp b/HeuristicFlow/src/Global/Randoms.hpp
index b13f7ee..1ab2799 100644
--- a/HeuristicFlow/src/Global/Randoms.hpp
+++ b/HeuristicFlow/src/Global/Randoms.hpp
@@ -99,7 +99,12 @@ inline void randD(double* dst, const int num) noexcept {
  * \return double random number
  */
 inline double randD(const double min, const double max) noexcept {
-  return (max - min) * randD() + min;
+  const double u = randD();
+  const double width = max - min;
+  // the width of a range may exceed the maximum of double
+  const double r = std::isinf(width) ? (max * u + min * (1 - u)) : (width * u + min);
+  // rounding may reach the excluded end
+  return (r >= max && min < max) ? std::nextafter(max, min) : r;
 }
 
 inline void randD(double* dst, const int num, const double min, const double max) noexcept {
-- 
2.43.0


From 308b95a7f3f1162264f5efcb6d628f32f41bdaf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:57 +0000
Subject: [PATCH 38/90] fix: DivCode_Pi_mul_2 was the code of 2/Pi

---
 HeuristicFlow/src/Global/TemplateFloat.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/HeuristicFlow/src/Global/TemplateFloat.hpp b/HeuristicFlow/src/Global/TemplateFloat.hpp
index 7cf127c..ed430f7 100644
--- a/HeuristicFlow/src/Global/TemplateFloat.hpp
+++ b/HeuristicFlow/src/Global/TemplateFloat.hpp
@@ -44,7 +44,7 @@ namespace heu {
 enum DivCode : uint64_t {
   DivCode_Half = 4294967298,
   DivCode_Pi = 2088567404207137453,
-  DivCode_Pi_mul_2 = 993512999210214248,
+  DivCode_Pi_mul_2 = 9182355717993529163,
   DivCode_Pi_mul_3 = 2111843339415065010,
   DivCode_Pi_mul_4 = 4223686678804044427,
   DivCode_Pi_mul_6 = 2111843339388979417,
-- 
2.43.0


From e6e023755a38ef39b646718969f0be87938f2e09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:43 +0000
Subject: [PATCH 39/90] fix: copy constructor of MatrixDynamicSize read
 uninitialized members

---
 HeuristicFlow/src/SimpleMatrix/MatrixDynamicSize.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/HeuristicFlow/src/SimpleMatrix/MatrixDynamicSize.hpp b/HeuristicFlow/src/SimpleMatrix/MatrixDynamicSize.hpp
index f756ae4..b8874de 100644
--- a/HeuristicFlow/src/SimpleMatrix/MatrixDynamicSize.hpp
+++ b/HeuristicFlow/src/SimpleMatrix/MatrixDynamicSize.hpp
@@ -90,7 +90,7 @@ class MatrixDynamicSize : public MatrixBase<MatrixDynamicSize<Scalar, allocator_
    *
    * \param src Source of copying
    */
-  explicit MatrixDynamicSize(const MatrixDynamicSize &src) noexcept {
+  explicit MatrixDynamicSize(const MatrixDynamicSize &src) noexcept : MatrixDynamicSize() {
     resize(src.rowNum, src.colNum);
     for (int i = 0; i < size(); i++) {
       dataPtr[i] = src.dataPtr[i];
-- 
2.43.0


From fa8e38b76ca73f0a22299ad59795cbecf6089fc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:43 +0000
Subject: [PATCH 40/90] fix: copy assignment of MatrixDynamicSize compiles for
 trivial elements

---
 HeuristicFlow/src/SimpleMatrix/MatrixDynamicSize.hpp | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/HeuristicFlow/src/SimpleMatrix/MatrixDynamicSize.hpp b/HeuristicFlow/src/SimpleMatrix/MatrixDynamicSize.hpp
index b8874de..15eea69 100644
--- a/HeuristicFlow/src/SimpleMatrix/MatrixDynamicSize.hpp
+++ b/HeuristicFlow/src/SimpleMatrix/MatrixDynamicSize.hpp
@@ -136,11 +136,7 @@ class MatrixDynamicSize : public MatrixBase<MatrixDynamicSize<Scalar, allocator_
   MatrixDynamicSize &operator=(const MatrixDynamicSize &src) noexcept {
     resize(src.rowNum, src.colNum);
     for (int i = 0; i < size(); i++) {
-      if constexpr (!std::is_trivially_copy_assignable_v<Scalar_t>) {
-        dataPtr[i] = src.dataPtr[i];
-      } else {
-        memcpy(dataPtr, src, sizeof(Scalar_t) * src.size());
-      }
+      dataPtr[i] = src.dataPtr[i];
     }
     return *this;
   }
-- 
2.43.0


From 1eeb4e1bcc82c6c881cf6591c41f70f1d335efe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:43 +0000
Subject: [PATCH 41/90] fix: move assignment of MatrixDynamicSize returned
 nothing and destroyed itself on self move

---
 HeuristicFlow/src/SimpleMatrix/MatrixDynamicSize.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/HeuristicFlow/src/SimpleMatrix/MatrixDynamicSize.hpp b/HeuristicFlow/src/SimpleMatrix/MatrixDynamicSize.hpp
index 15eea69..b20a4c5 100644
--- a/HeuristicFlow/src/SimpleMatrix/MatrixDynamicSize.hpp
+++ b/HeuristicFlow/src/SimpleMatrix/MatrixDynamicSize.hpp
@@ -148,6 +148,7 @@ class MatrixDynamicSize : public MatrixBase<MatrixDynamicSize<Scalar, allocator_
    * \return MatrixDynamicSize&
    */
   MatrixDynamicSize &operator=(MatrixDynamicSize &&src) noexcept {
+    if (this == &src) return *this;
     if (this->dataPtr != nullptr) {
       if constexpr (!std::is_trivially_destructible_v<Scalar_t>) {
         for (int i = 0; i < _capacity; i++) {
@@ -166,6 +167,7 @@ class MatrixDynamicSize : public MatrixBase<MatrixDynamicSize<Scalar, allocator_
     src.colNum = 0;
     this->_capacity = src._capacity;
     src._capacity = 0;
+    return *this;
   }
 
   template <class DerivedB>
-- 
2.43.0


From 08ebbfceb919a3a7e7c8428a6e51adf53ad3044e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:01 +0000
Subject: [PATCH 42/90] fix: reserve of MatrixDynamicSize shrank the memory and
 broke non-trivial elements

---
 .../src/SimpleMatrix/MatrixDynamicSize.hpp         | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/HeuristicFlow/src/SimpleMatrix/MatrixDynamicSize.hpp b/HeuristicFlow/src/SimpleMatrix/MatrixDynamicSize.hpp
index b20a4c5..9477885 100644
--- a/HeuristicFlow/src/SimpleMatrix/MatrixDynamicSize.hpp
+++ b/HeuristicFlow/src/SimpleMatrix/MatrixDynamicSize.hpp
@@ -226,13 +226,21 @@ class MatrixDynamicSize : public MatrixBase<MatrixDynamicSize<Scalar, allocator_
    * \param s Size to be reserved
    */
   void reserve(int s) noexcept {
-    if (_capacity <= s) return;
+    if (s <= _capacity) return;
 
     Scalar_t *newPtr = alloc().allocate(s);
 
-    memcpy(newPtr, dataPtr, sizeof(Scalar_t) * _capacity);
+    for (int i = 0; i < s; i++) {
+      std::allocator_traits<allocator_t>::construct(alloc(), newPtr + i);
+    }
 
-    alloc().deallocate(dataPtr, _capacity);
+    if (dataPtr != nullptr) {
+      for (int i = 0; i < _capacity; i++) {
+        newPtr[i] = std::move(dataPtr[i]);
+        std::allocator_traits<allocator_t>::destroy(alloc(), dataPtr + i);
+      }
+      alloc().deallocate(dataPtr, _capacity);
+    }
 
     _capacity = s;
 
-- 
2.43.0


From 900f87e9524457bc7cef36e81c01243456d82f50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:01 +0000
Subject: [PATCH 43/90] fix: resize of MatrixDynamicSize neither destroyed nor
 constructed non-trivial elements

---
 HeuristicFlow/src/SimpleMatrix/MatrixDynamicSize.hpp | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/HeuristicFlow/src/SimpleMatrix/MatrixDynamicSize.hpp b/HeuristicFlow/src/SimpleMatrix/MatrixDynamicSize.hpp
index 9477885..b146204 100644
--- a/HeuristicFlow/src/SimpleMatrix/MatrixDynamicSize.hpp
+++ b/HeuristicFlow/src/SimpleMatrix/MatrixDynamicSize.hpp
@@ -257,7 +257,7 @@ class MatrixDynamicSize : public MatrixBase<MatrixDynamicSize<Scalar, allocator_
     if (r * c != size()) {
       if (r * c > _capacity) {
         if (dataPtr != nullptr) {
-          if constexpr (std::is_trivially_destructible_v<Scalar_t>)
+          if constexpr (!std::is_trivially_destructible_v<Scalar_t>)
             for (int i = 0; i < _capacity; i++) {
               // alloc().destroy(dataPtr + i);
               (dataPtr + i)->~Scalar_t();
@@ -268,11 +268,9 @@ class MatrixDynamicSize : public MatrixBase<MatrixDynamicSize<Scalar, allocator_
         dataPtr = alloc().allocate(r * c);
         _capacity = r * c;
 
-        if constexpr (std::is_trivially_default_constructible_v<Scalar_t>)
-          for (int i = 0; i < _capacity; i++) {
-            // alloc().construct(dataPtr + i);
-            dataPtr[i] = Scalar_t();
-          }
+        for (int i = 0; i < _capacity; i++) {
+          std::allocator_traits<allocator_t>::construct(alloc(), dataPtr + i);
+        }
       }
     }
 
-- 
2.43.0


From 21147441be4f7c4eb5717de5a70eb1e9f23547f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:01 +0000
Subject: [PATCH 44/90] fix: MatrixMap can be assigned from and to the other
 matrices

---
 HeuristicFlow/src/SimpleMatrix/MatrixMap.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/HeuristicFlow/src/SimpleMatrix/MatrixMap.hpp b/HeuristicFlow/src/SimpleMatrix/MatrixMap.hpp
index af4b033..333afcf 100644
--- a/HeuristicFlow/src/SimpleMatrix/MatrixMap.hpp
+++ b/HeuristicFlow/src/SimpleMatrix/MatrixMap.hpp
@@ -27,6 +27,7 @@ namespace heu {
 
 template <typename Scalar>
 class MatrixMap : public MatrixBase<MatrixMap<Scalar>> {
+ public:
   using Scalar_t = Scalar;
 
  protected:
-- 
2.43.0


From acfdd1bc1062156eba6d275c4b4fcd03e7f72234 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:10 +0000
Subject: [PATCH 45/90] fix: mask of multiBitSet when elements are as wide as
 blocks

---
 HeuristicFlow/src/SimpleMatrix/MultiBitSet.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/HeuristicFlow/src/SimpleMatrix/MultiBitSet.hpp b/HeuristicFlow/src/SimpleMatrix/MultiBitSet.hpp
index 00aa9e9..d5c7e18 100644
--- a/HeuristicFlow/src/SimpleMatrix/MultiBitSet.hpp
+++ b/HeuristicFlow/src/SimpleMatrix/MultiBitSet.hpp
@@ -36,7 +36,8 @@ class multiBitSet {
   /// Type of element
   using value_t = uintX_t<eleBits>;
   /// The maximum value of each element
-  static constexpr block_t blockMask = (block_t(1) << (eleBits)) - 1;
+  static constexpr block_t blockMask =
+      (eleBits >= int(sizeof(block_t) * 8)) ? block_t(~block_t(0)) : block_t((uint64_t(1) << (eleBits % 64)) - 1);
   /// Bits of block
   static constexpr size_t blockBits = sizeof(block_t) * 8;
 
-- 
2.43.0


From 271da0c57b6d25f3dc94b8269b596dbe4b90da01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:10 +0000
Subject: [PATCH 46/90] fix: multiBitSet of 8 or 16 bit blocks didn't clear the
 old bits of elements in two blocks

---
 HeuristicFlow/src/SimpleMatrix/MultiBitSet.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/HeuristicFlow/src/SimpleMatrix/MultiBitSet.hpp b/HeuristicFlow/src/SimpleMatrix/MultiBitSet.hpp
index d5c7e18..49aec1c 100644
--- a/HeuristicFlow/src/SimpleMatrix/MultiBitSet.hpp
+++ b/HeuristicFlow/src/SimpleMatrix/MultiBitSet.hpp
@@ -622,8 +622,9 @@ class multiBitSet {
 
       const size_t rightBitNum = lastScalarBitIdx - midBitIdx + 1;
 
-      (*blockPrevPtr) = ((*blockPrevPtr) >> leftBitNum) << leftBitNum;
-      (*blockNextPtr) = ((*blockNextPtr) << rightBitNum) >> rightBitNum;
+      (*blockPrevPtr) = block_t(block_t((*blockPrevPtr) >> leftBitNum) << leftBitNum);
+      // block_t may be promoted to int, which doesn't drop the highest bits
+      (*blockNextPtr) = block_t(block_t((*blockNextPtr) << rightBitNum) >> rightBitNum);
 
       (*blockPrevPtr) |= (value >> (rightBitNum));
       (*blockNextPtr) |= (value << (blockBits - rightBitNum));
-- 
2.43.0


From 05044c9d7d57a0d6e7c845ab38f05e6b499df77b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:10 +0000
Subject: [PATCH 47/90] fix: multiBitSet constructed with size 0 was
 uninitialized

---
 HeuristicFlow/src/SimpleMatrix/MultiBitSet.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/HeuristicFlow/src/SimpleMatrix/MultiBitSet.hpp b/HeuristicFlow/src/SimpleMatrix/MultiBitSet.hpp
index 49aec1c..184ccc2 100644
--- a/HeuristicFlow/src/SimpleMatrix/MultiBitSet.hpp
+++ b/HeuristicFlow/src/SimpleMatrix/MultiBitSet.hpp
@@ -353,6 +353,10 @@ class multiBitSet {
    * \param __size The initial size.
    */
   multiBitSet(size_t __size) {
+    _data = nullptr;
+    _end = nullptr;
+    _size = 0;
+
     if (__size <= 0) {
       return;
     }
-- 
2.43.0


From a467639cba7eabafd0a275fb04ea401f486a6089 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:10 +0000
Subject: [PATCH 48/90] fix: multiBitSet computed its number of blocks in float
 and allocated too little

---
 HeuristicFlow/src/SimpleMatrix/MultiBitSet.hpp | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/HeuristicFlow/src/SimpleMatrix/MultiBitSet.hpp b/HeuristicFlow/src/SimpleMatrix/MultiBitSet.hpp
index 184ccc2..c56964a 100644
--- a/HeuristicFlow/src/SimpleMatrix/MultiBitSet.hpp
+++ b/HeuristicFlow/src/SimpleMatrix/MultiBitSet.hpp
@@ -362,7 +362,7 @@ class multiBitSet {
     }
 
     // const size_t __bytesNeed = std::ceil(float(eleBits * __size) / 8);
-    const size_t __blocksNeed = size_t(std::ceil(float(__size * eleBits) / (blockBits)));
+    const size_t __blocksNeed = blocksFor(__size);
     _data = alloc().allocate(__blocksNeed);
     _end = _data + __blocksNeed;
     _size = __size;
@@ -467,7 +467,7 @@ class multiBitSet {
       return;
     }
 
-    const size_t newBlockNum = size_t(std::ceil(float(newSize * eleBits) / (sizeof(block_t) * 8)));
+    const size_t newBlockNum = blocksFor(newSize);
 
     block_t* newDataPtr = alloc().allocate(newBlockNum);
 
@@ -490,7 +490,7 @@ class multiBitSet {
       return;
     }
 
-    const size_t newBlockNum = std::ceil(float(newCap * eleBits) / (sizeof(block_t) * 8));
+    const size_t newBlockNum = blocksFor(newCap);
 
     block_t* newDataPtr = alloc().allocate(newBlockNum);
 
@@ -503,7 +503,7 @@ class multiBitSet {
   }
 
   inline void shrink_to_fit() noexcept {
-    const size_t blocksNeed = std::ceil(float(size() * eleBits) / blockBits);
+    const size_t blocksNeed = blocksFor(size());
 
     if (blocksNeed == blocks()) {
       return;
@@ -569,7 +569,7 @@ class multiBitSet {
     }
 
     resize(another.size());
-    const size_t blocksNeed = std::ceil(float(size() * eleBits) / blockBits);
+    const size_t blocksNeed = blocksFor(size());
 
     memcpy(_data, another._data, blocksNeed * sizeof(block_t));
     return *this;
@@ -592,6 +592,11 @@ class multiBitSet {
   inline constIterator_t end() const noexcept { return constIterator_t(this, size()); }
 
  private:
+  // Number of blocks that N elements need
+  inline static constexpr size_t blocksFor(size_t N) noexcept {
+    return (N * eleBits + blockBits - 1) / blockBits;
+  }
+
   block_t* _data;
   block_t* _end;
   size_t _size;
-- 
2.43.0


From 38c0b3bd453dcdd5d463067879eeef71e98afbbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:10 +0000
Subject: [PATCH 49/90] fix: move constructor of multiBitSet compiles

---
 HeuristicFlow/src/SimpleMatrix/MultiBitSet.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/HeuristicFlow/src/SimpleMatrix/MultiBitSet.hpp b/HeuristicFlow/src/SimpleMatrix/MultiBitSet.hpp
index c56964a..26ecf41 100644
--- a/HeuristicFlow/src/SimpleMatrix/MultiBitSet.hpp
+++ b/HeuristicFlow/src/SimpleMatrix/MultiBitSet.hpp
@@ -397,8 +397,8 @@ class multiBitSet {
     _size = b._size;
 
     b._size = 0;
-    b._data = 0;
-    b.end = 0;
+    b._data = nullptr;
+    b._end = nullptr;
   }
 
   /**
-- 
2.43.0


From fca4932661b14d754659186fb8d93c7ade25b21f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:10 +0000
Subject: [PATCH 50/90] fix: reserve and resize of multiBitSet lost elements
 when they allocated memory

---
 .../src/SimpleMatrix/MultiBitSet.hpp          | 26 +++++++------------
 1 file changed, 10 insertions(+), 16 deletions(-)

diff --git a/HeuristicFlow/src/SimpleMatrix/MultiBitSet.hpp b/HeuristicFlow/src/SimpleMatrix/MultiBitSet.hpp
index 26ecf41..c8ef246 100644
--- a/HeuristicFlow/src/SimpleMatrix/MultiBitSet.hpp
+++ b/HeuristicFlow/src/SimpleMatrix/MultiBitSet.hpp
@@ -462,21 +462,12 @@ class multiBitSet {
    * \param newSize
    */
   inline void resize(size_t newSize) noexcept {
-    if (newSize <= this->capacity()) {
-      _size = newSize;
-      return;
-    }
-
-    const size_t newBlockNum = blocksFor(newSize);
-
-    block_t* newDataPtr = alloc().allocate(newBlockNum);
-
-    // memcpy(newDataPtr, _data, _end - _data);
-
-    alloc().deallocate(_data, _end - _data);
+    reserve(newSize);
 
-    _data = newDataPtr;
-    _end = _data + newBlockNum;
+    // new elements are 0
+    for (size_t idx = _size; idx < newSize; idx++) {
+      setValue(idx, 0);
+    }
     _size = newSize;
   }
 
@@ -494,9 +485,12 @@ class multiBitSet {
 
     block_t* newDataPtr = alloc().allocate(newBlockNum);
 
-    memcpy(newDataPtr, _data, _end - _data);
+    memset(newDataPtr, 0, newBlockNum * sizeof(block_t));
+    if (_data != nullptr) {
+      memcpy(newDataPtr, _data, blocks() * sizeof(block_t));
 
-    alloc().deallocate(_data, _end - _data);
+      alloc().deallocate(_data, _end - _data);
+    }
 
     _data = newDataPtr;
     _end = _data + newBlockNum;
-- 
2.43.0


From 9f8f1dca35586fdb0d7b167f28cbd5679b42cf47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:10 +0000
Subject: [PATCH 51/90] fix: copy constructor of multiBitSet wrote out of
 bounds when the source has spare capacity

---
 HeuristicFlow/src/SimpleMatrix/MultiBitSet.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/HeuristicFlow/src/SimpleMatrix/MultiBitSet.hpp b/HeuristicFlow/src/SimpleMatrix/MultiBitSet.hpp
index c8ef246..8cf1cd8 100644
--- a/HeuristicFlow/src/SimpleMatrix/MultiBitSet.hpp
+++ b/HeuristicFlow/src/SimpleMatrix/MultiBitSet.hpp
@@ -382,7 +382,7 @@ class multiBitSet {
     if (b.size() > 0) {
       this->resize(b.size());
 
-      memcpy(this->_data, b._data, b.blocks() * sizeof(block_t));
+      memcpy(this->_data, b._data, blocksFor(b.size()) * sizeof(block_t));
     }
   }
 
-- 
2.43.0


From 074a2fc60e00bc5c2a22ac8046ef71e1041dbcd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:10 +0000
Subject: [PATCH 52/90] fix: self assignment of multiBitSet

---
 HeuristicFlow/src/SimpleMatrix/MultiBitSet.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/HeuristicFlow/src/SimpleMatrix/MultiBitSet.hpp b/HeuristicFlow/src/SimpleMatrix/MultiBitSet.hpp
index 8cf1cd8..ec6d3f4 100644
--- a/HeuristicFlow/src/SimpleMatrix/MultiBitSet.hpp
+++ b/HeuristicFlow/src/SimpleMatrix/MultiBitSet.hpp
@@ -557,6 +557,10 @@ class multiBitSet {
    * \return const multiBitSet& A reference to self
    */
   inline const multiBitSet& operator=(const multiBitSet& another) noexcept {
+    if (this == &another) {
+      return *this;
+    }
+
     if (another.size() <= 0) {
       resize(0);
       return *this;
-- 
2.43.0


From c0f24195c49258331d5ce15a5bc39c5b74c614a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:10 +0000
Subject: [PATCH 53/90] fix: multiBitSet of any block type and its const
 iterators compile

---
 HeuristicFlow/src/SimpleMatrix/MultiBitSet.hpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/HeuristicFlow/src/SimpleMatrix/MultiBitSet.hpp b/HeuristicFlow/src/SimpleMatrix/MultiBitSet.hpp
index ec6d3f4..99e7141 100644
--- a/HeuristicFlow/src/SimpleMatrix/MultiBitSet.hpp
+++ b/HeuristicFlow/src/SimpleMatrix/MultiBitSet.hpp
@@ -112,7 +112,7 @@ class multiBitSet {
         */
 
    private:
-    friend class multiBitSet<eleBits>;
+    friend class multiBitSet<eleBits, block, allocator_t>;
     friend class iterator_t;
     friend class constIterator_t;
     reference_t() : source(nullptr), index(0){};
@@ -213,9 +213,10 @@ class multiBitSet {
    private:
     iterator_t(multiBitSet* src, size_t idx) : ref(src, idx) {}
 
-    friend class multiBitSet<eleBits>;
+    friend class multiBitSet<eleBits, block, allocator_t>;
     friend class reference_t;
     friend class iteratorBase<iterator_t>;
+    friend class constIterator_t;
 
     reference_t ref;
 
@@ -276,11 +277,14 @@ class multiBitSet {
    */
   class constIterator_t : public iteratorBase<constIterator_t> {
    private:
-    constIterator_t(multiBitSet* src, size_t idx) : ref(src, idx) {}
+    // the reference is only read
+    constIterator_t(const multiBitSet* src, size_t idx)
+        : ref(const_cast<multiBitSet*>(src), idx) {}
 
-    friend class multiBitSet<eleBits>;
+    friend class multiBitSet<eleBits, block, allocator_t>;
     friend class reference_t;
     friend class iteratorBase<constIterator_t>;
+    friend class iterator_t;
 
     reference_t ref;
 
-- 
2.43.0


From 648a529e5eb02d908683091baa101e3be62a47b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:59 +0000
Subject: [PATCH 54/90] fix: ackley used 2/Pi instead of 2*Pi

---
 HeuristicFlow/src/EAGlobal/SOFunctions.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/HeuristicFlow/src/EAGlobal/SOFunctions.hpp b/HeuristicFlow/src/EAGlobal/SOFunctions.hpp
index 1f40756..3cf37c0 100644
--- a/HeuristicFlow/src/EAGlobal/SOFunctions.hpp
+++ b/HeuristicFlow/src/EAGlobal/SOFunctions.hpp
@@ -66,7 +66,7 @@ struct SOFunctions2<Var_t, Fitness_t, void> {
     assert4Size(_x);
     auto x = _x->operator[](0), y = _x->operator[](1);
     *f = -20 * std::exp(-0.2 * std::sqrt(0.5 * (x * x + y * y))) -
-         std::exp(0.5 * (std::cos(M_2_PI * x) + std::cos(M_2_PI * y))) + 20 + M_E;
+         std::exp(0.5 * (std::cos(2 * M_PI * x) + std::cos(2 * M_PI * y))) + 20 + M_E;
   }
 
   inline static void beale(const Var_t *_x, Fitness_t *f) noexcept {
-- 
2.43.0


From b6675a3d24f46a4a99633bd5ae5433fdbaeec724 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:59 +0000
Subject: [PATCH 55/90] fix: GoldsteinPrice compiles with Args and has its
 published coefficients

---
 HeuristicFlow/src/EAGlobal/SOFunctions.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/HeuristicFlow/src/EAGlobal/SOFunctions.hpp b/HeuristicFlow/src/EAGlobal/SOFunctions.hpp
index 3cf37c0..5773ede 100644
--- a/HeuristicFlow/src/EAGlobal/SOFunctions.hpp
+++ b/HeuristicFlow/src/EAGlobal/SOFunctions.hpp
@@ -33,7 +33,7 @@ template <typename Var_t, class Fitness_t = double, class Arg_t = void>
 struct SOFunctions2 {
   HEU_REPEAT_FUNCTIONS(SOFunctions2, ackley)
   HEU_REPEAT_FUNCTIONS(SOFunctions2, beale)
-  HEU_REPEAT_FUNCTIONS(SOFunctions2, GoldSteinPrice)
+  HEU_REPEAT_FUNCTIONS(SOFunctions2, GoldsteinPrice)
   HEU_REPEAT_FUNCTIONS(SOFunctions2, booth)
   HEU_REPEAT_FUNCTIONS(SOFunctions2, bukin)
   HEU_REPEAT_FUNCTIONS(SOFunctions2, matyas)
@@ -83,7 +83,7 @@ struct SOFunctions2<Var_t, Fitness_t, void> {
     const auto part1 =
         1 + square(1 + x + y) * (19 - 14 * x + 3 * x * x - 14 * y + 6 * x * y + 3 * y * y);
     const auto part2 =
-        30 + square(2 * x - 3 * y) * (18 - 32 * x + 12 * x + 47 * y - 36 * x * y + 27 * y * y);
+        30 + square(2 * x - 3 * y) * (18 - 32 * x + 12 * x * x + 48 * y - 36 * x * y + 27 * y * y);
     *f = part1 * part2;
   }
 
-- 
2.43.0


From 07e0c4b2086cf0802be57ad18b8df86dc782efd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:59 +0000
Subject: [PATCH 56/90] fix: holderTable took the root of x*x-y*y

---
 HeuristicFlow/src/EAGlobal/SOFunctions.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/HeuristicFlow/src/EAGlobal/SOFunctions.hpp b/HeuristicFlow/src/EAGlobal/SOFunctions.hpp
index 5773ede..a7d86a5 100644
--- a/HeuristicFlow/src/EAGlobal/SOFunctions.hpp
+++ b/HeuristicFlow/src/EAGlobal/SOFunctions.hpp
@@ -170,7 +170,7 @@ struct SOFunctions2<Var_t, Fitness_t, void> {
     *f = -std::abs(std::sin(x) * std::cos(y) *
                    std::exp(
 
-                       std::abs(1 - std::sqrt(x * x - y * y) / M_PI)
+                       std::abs(1 - std::sqrt(x * x + y * y) / M_PI)
 
                            ));
   }
-- 
2.43.0


From bce3a8b9c9ff7c17f2d986df20dc9acd2cdc86f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:59 +0000
Subject: [PATCH 57/90] fix: schaffer2 squared sin-0.5 instead of sin

---
 HeuristicFlow/src/EAGlobal/SOFunctions.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/HeuristicFlow/src/EAGlobal/SOFunctions.hpp b/HeuristicFlow/src/EAGlobal/SOFunctions.hpp
index a7d86a5..676092e 100644
--- a/HeuristicFlow/src/EAGlobal/SOFunctions.hpp
+++ b/HeuristicFlow/src/EAGlobal/SOFunctions.hpp
@@ -188,7 +188,7 @@ struct SOFunctions2<Var_t, Fitness_t, void> {
     const auto x = _x->operator[](0);
     const auto y = _x->operator[](1);
 
-    *f = 0.5 + (square(std::sin(x * x - y * y) - 0.5)) / square(1 + 0.001 * (x * x + y * y));
+    *f = 0.5 + (square(std::sin(x * x - y * y)) - 0.5) / square(1 + 0.001 * (x * x + y * y));
   }
 
   inline static void schaffer4(const Var_t *_x, Fitness_t *f) noexcept {
-- 
2.43.0


From 68ecb4761a2656b3aa31357303d4211d2541b3a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:59 +0000
Subject: [PATCH 58/90] fix: threeHumpCamel is available with Args

---
 HeuristicFlow/src/EAGlobal/SOFunctions.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/HeuristicFlow/src/EAGlobal/SOFunctions.hpp b/HeuristicFlow/src/EAGlobal/SOFunctions.hpp
index 676092e..2b7420f 100644
--- a/HeuristicFlow/src/EAGlobal/SOFunctions.hpp
+++ b/HeuristicFlow/src/EAGlobal/SOFunctions.hpp
@@ -39,6 +39,7 @@ struct SOFunctions2 {
   HEU_REPEAT_FUNCTIONS(SOFunctions2, matyas)
   HEU_REPEAT_FUNCTIONS(SOFunctions2, levy)
   HEU_REPEAT_FUNCTIONS(SOFunctions2, himmelblau)
+  HEU_REPEAT_FUNCTIONS(SOFunctions2, threeHumpCamel)
   HEU_REPEAT_FUNCTIONS(SOFunctions2, easom)
   HEU_REPEAT_FUNCTIONS(SOFunctions2, crossInTray)
   HEU_REPEAT_FUNCTIONS(SOFunctions2, eggHolder)
-- 
2.43.0


From 9692bd3194b9828624021fed2efeabbbd82a86c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:59 +0000
Subject: [PATCH 59/90] fix: rosenbrock forgot to square x, and didn't compile
 for matrices and row vectors

---
 HeuristicFlow/src/EAGlobal/SOFunctions.hpp | 16 +++++-----------
 1 file changed, 5 insertions(+), 11 deletions(-)

diff --git a/HeuristicFlow/src/EAGlobal/SOFunctions.hpp b/HeuristicFlow/src/EAGlobal/SOFunctions.hpp
index 2b7420f..bc18aed 100644
--- a/HeuristicFlow/src/EAGlobal/SOFunctions.hpp
+++ b/HeuristicFlow/src/EAGlobal/SOFunctions.hpp
@@ -238,18 +238,12 @@ struct SOFunctionsX<Var_t, Fitness_t, void> {
   }
 
   inline static void rosenbrock(const Var_t *x, Fitness_t *f) noexcept {
-    if constexpr (array_traits<Var_t>::isEigenClass) {
-      auto square_1_minus_x_top = (1 - x->topRows(x->size() - 1)).square().sum();
-      auto minusSquare = (x->topRows(x->size() - 1) - x->bottomRows(x->size() - 1)).square().sum();
-      *f = 100 * minusSquare + square_1_minus_x_top;
-    } else {
-      double val = 0;
-      for (int idx = 0; idx < x->size() - 1; idx++) {
-        val += 100 * square(x->operator[](idx + 1) - x->operator[](idx)) +
-               square(1 - x->operator[](idx));
-      }
-      *f = val;
+    double val = 0;
+    for (int idx = 0; idx < int(x->size()) - 1; idx++) {
+      val += 100 * square(x->operator[](idx + 1) - square(x->operator[](idx))) +
+             square(1 - x->operator[](idx));
     }
+    *f = val;
   }
 
   inline static void styblinskiTang(const Var_t *x, Fitness_t *f) noexcept {
-- 
2.43.0


From dc5d826acad5e2050608559512f3aa2847987b27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:59 +0000
Subject: [PATCH 60/90] fix: styblinskiTang of Eigen containers was twice its
 value

---
 HeuristicFlow/src/EAGlobal/SOFunctions.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/HeuristicFlow/src/EAGlobal/SOFunctions.hpp b/HeuristicFlow/src/EAGlobal/SOFunctions.hpp
index bc18aed..37412e3 100644
--- a/HeuristicFlow/src/EAGlobal/SOFunctions.hpp
+++ b/HeuristicFlow/src/EAGlobal/SOFunctions.hpp
@@ -249,7 +249,7 @@ struct SOFunctionsX<Var_t, Fitness_t, void> {
   inline static void styblinskiTang(const Var_t *x, Fitness_t *f) noexcept {
     if constexpr (array_traits<Var_t>::isEigenClass) {
       auto arr = x->array();
-      *f = (arr.pow(4) - 16 * arr.square() + 5 * arr).sum();
+      *f = (arr.square().square() - 16 * arr.square() + 5 * arr).sum() / 2;
     } else {
       double val = 0;
       for (auto xi : *x) {
-- 
2.43.0


From 9093e8f1cdcb152c30a6aa0bfe5df3ad4e4e7c5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:14 +0000
Subject: [PATCH 61/90] fix: test functions of fixed-size variables compile
 whichever family they don't fit

---
 HeuristicFlow/src/EAGlobal/MOFunctions.hpp   | 4 ++--
 HeuristicFlow/src/EAGlobal/TestFunctions.hpp | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/HeuristicFlow/src/EAGlobal/MOFunctions.hpp b/HeuristicFlow/src/EAGlobal/MOFunctions.hpp
index 0e850ff..9dcf4fc 100644
--- a/HeuristicFlow/src/EAGlobal/MOFunctions.hpp
+++ b/HeuristicFlow/src/EAGlobal/MOFunctions.hpp
@@ -223,7 +223,7 @@ template <typename Var_t, class Fitness_t>
 struct MOFunctionsX2<Var_t, Fitness_t, void> {
  private:
   static_assert((!array_traits<Fitness_t>::isFixedSize) || (array_traits<Fitness_t>::sizeCT == 2));
-  static_assert((!array_traits<Var_t>::isFixedSize) || (array_traits<Fitness_t>::sizeCT >= 1));
+  static_assert((!array_traits<Var_t>::isFixedSize) || (array_traits<Var_t>::sizeCT >= 1));
 
   static inline void assert4Size(const Fitness_t *f) noexcept {
     if constexpr (!array_traits<Fitness_t>::isFixedSize) {
@@ -326,7 +326,7 @@ struct sizeMayMatchDTLZ1to7 {
 
   static constexpr bool value =
       (isAllFixed) ? (array_traits<Var_t>::sizeCT - array_traits<Fitness_t>::sizeCT + 1 > 0)
-                   : (true);
+                   : (!sizeMayMatch<Var_t, 1>::value || !array_traits<Var_t>::isFixedSize);
 };
 
 template <typename Var_t, class Fitness_t>
diff --git a/HeuristicFlow/src/EAGlobal/TestFunctions.hpp b/HeuristicFlow/src/EAGlobal/TestFunctions.hpp
index 0290afc..2aac73b 100644
--- a/HeuristicFlow/src/EAGlobal/TestFunctions.hpp
+++ b/HeuristicFlow/src/EAGlobal/TestFunctions.hpp
@@ -62,7 +62,7 @@ struct MOFunctions
       public std::conditional<sizeMayMatchDTLZ1to7<Var_t, Fitness_t>::value,
                               DTLZ1to7<Var_t, Fitness_t, Arg_t>, emptyStruct5>::type,
       public std::conditional<sizeMayMatchDTLZ89<Var_t, Fitness_t>::value,
-                              DTLZ89<Var_t, Fitness_t, Arg_t>, emptyStruct5>::type {
+                              DTLZ89<Var_t, Fitness_t, Arg_t>, emptyStruct6>::type {
   static_assert((!array_traits<Fitness_t>::isFixedSize) || (array_traits<Fitness_t>::sizeCT >= 2),
                 "The size of Fitness_t must be greater than 1.");
 };
-- 
2.43.0


From 2eb87a7a786ff86011ceb9072ae1e9d5e4f0d3b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:14 +0000
Subject: [PATCH 62/90] fix: 2-variable multi-objective functions size the
 fitness by its own type

---
 HeuristicFlow/src/EAGlobal/MOFunctions.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/HeuristicFlow/src/EAGlobal/MOFunctions.hpp b/HeuristicFlow/src/EAGlobal/MOFunctions.hpp
index 9dcf4fc..f795d09 100644
--- a/HeuristicFlow/src/EAGlobal/MOFunctions.hpp
+++ b/HeuristicFlow/src/EAGlobal/MOFunctions.hpp
@@ -108,8 +108,8 @@ struct MOFunctions22<Var_t, Fitness_t, void> {
   }
 
   static inline void initializeFitnessSize(Fitness_t *f) noexcept {
-    if constexpr (!array_traits<Var_t>::isFixedSize) {
-      if constexpr (array_traits<Var_t>::isEigenClass) {
+    if constexpr (!array_traits<Fitness_t>::isFixedSize) {
+      if constexpr (array_traits<Fitness_t>::isEigenClass) {
         f->resize(2, 1);
       } else {
         f->resize(2);
@@ -190,8 +190,8 @@ struct MOFunctions23<Var_t, Fitness_t, void> {
   }
 
   static inline void initializeFitnessSize(Fitness_t *f) noexcept {
-    if constexpr (!array_traits<Var_t>::isFixedSize) {
-      if constexpr (array_traits<Var_t>::isEigenClass) {
+    if constexpr (!array_traits<Fitness_t>::isFixedSize) {
+      if constexpr (array_traits<Fitness_t>::isEigenClass) {
         f->resize(3, 1);
       } else {
         f->resize(3);
-- 
2.43.0


From d58104ffcfc284ff9a9f184eb76acf53aff8693d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:14 +0000
Subject: [PATCH 63/90] fix: pieces of Schaffer2 (multi-objective)

---
 HeuristicFlow/src/EAGlobal/MOFunctions.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/HeuristicFlow/src/EAGlobal/MOFunctions.hpp b/HeuristicFlow/src/EAGlobal/MOFunctions.hpp
index f795d09..37ce5ec 100644
--- a/HeuristicFlow/src/EAGlobal/MOFunctions.hpp
+++ b/HeuristicFlow/src/EAGlobal/MOFunctions.hpp
@@ -79,12 +79,12 @@ struct MOFunctions12<Var_t, Fitness_t, void> {
 
     if (x <= 1) {
       f->operator[](0) = -x;
-    } else if (x <= -3) {
+    } else if (x <= 3) {
       f->operator[](0) = x - 2;
     } else if (x <= 4) {
       f->operator[](0) = 4 - x;
     } else {
-      f->operator[](0) = 4 - x;
+      f->operator[](0) = x - 4;
     }
   }
 };
-- 
2.43.0


From 546d0a9537360af439b528112cba42dc652df944 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:14 +0000
Subject: [PATCH 64/90] fix: the second objective of viennet starts with 3x

---
 HeuristicFlow/src/EAGlobal/MOFunctions.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/HeuristicFlow/src/EAGlobal/MOFunctions.hpp b/HeuristicFlow/src/EAGlobal/MOFunctions.hpp
index 37ce5ec..5d0c51c 100644
--- a/HeuristicFlow/src/EAGlobal/MOFunctions.hpp
+++ b/HeuristicFlow/src/EAGlobal/MOFunctions.hpp
@@ -208,7 +208,7 @@ struct MOFunctions23<Var_t, Fitness_t, void> {
 
     const auto x2_plus_y2 = x * x + y * y;
     f->operator[](0) = x2_plus_y2 / 2 + std::sin(x2_plus_y2);
-    f->operator[](1) = square(2 * x - 2 * y + 4) / 8 + square(x - y + 1) / 27 + 15;
+    f->operator[](1) = square(3 * x - 2 * y + 4) / 8 + square(x - y + 1) / 27 + 15;
     f->operator[](2) = 1 / (x2_plus_y2 + 1) - 1.1 * std::exp(-x2_plus_y2);
   }
 };
-- 
2.43.0


From 00e75fdcddc71f995bc5e1ddc0d82da69d053d5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:14 +0000
Subject: [PATCH 65/90] fix: FonsecaFleming didn't compile, and took the number
 of objectives as the one of variables

---
 HeuristicFlow/src/EAGlobal/MOFunctions.hpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/HeuristicFlow/src/EAGlobal/MOFunctions.hpp b/HeuristicFlow/src/EAGlobal/MOFunctions.hpp
index 5d0c51c..f2a023c 100644
--- a/HeuristicFlow/src/EAGlobal/MOFunctions.hpp
+++ b/HeuristicFlow/src/EAGlobal/MOFunctions.hpp
@@ -234,17 +234,18 @@ struct MOFunctionsX2<Var_t, Fitness_t, void> {
  public:
   static inline void FonsecaFleming(const Var_t *_x, Fitness_t *f) noexcept {
     assert4Size(f);
-    const int N = f->size();  // If the size of f is determined at compile-time, the compiler will
-                              // be able to optimize it; otherwise N is a read only integer.
+    const int N = int(_x->size());  // If the size of x is determined at compile-time, the compiler
+                                    // will be able to optimize it; otherwise N is a read only
+                                    // integer.
     typename array_traits<Fitness_t>::Scalar_t exp1 = 0, exp2 = 0;
-    constexpr typename array_traits<Fitness_t>::Scalar_t rSqrtN = 1.0 / std::sqrt(double(N));
+    const typename array_traits<Var_t>::Scalar_t rSqrtN = 1.0 / std::sqrt(double(N));
     if constexpr (array_traits<Var_t>::isEigenClass) {
       exp1 = -1 * (_x->array() - rSqrtN).square().sum();
       exp2 = -1 * (_x->array() + rSqrtN).square().sum();
     } else {
       for (int idx = 0; idx < N; idx++) {
-        exp1 -= sqrt(_x->operator[](idx) - rSqrtN);
-        exp2 -= sqrt(_x->operator[](idx) + rSqrtN);
+        exp1 -= square(_x->operator[](idx) - rSqrtN);
+        exp2 -= square(_x->operator[](idx) + rSqrtN);
       }
     }
 
-- 
2.43.0


From e4d3d4929118f6d8c52e5eb79b6520e6253d7916 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:14 +0000
Subject: [PATCH 66/90] fix: Kursawe took the number of objectives as the one
 of variables

---
 HeuristicFlow/src/EAGlobal/MOFunctions.hpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/HeuristicFlow/src/EAGlobal/MOFunctions.hpp b/HeuristicFlow/src/EAGlobal/MOFunctions.hpp
index f2a023c..eb9420d 100644
--- a/HeuristicFlow/src/EAGlobal/MOFunctions.hpp
+++ b/HeuristicFlow/src/EAGlobal/MOFunctions.hpp
@@ -255,12 +255,13 @@ struct MOFunctionsX2<Var_t, Fitness_t, void> {
 
   static inline void Kursawe(const Var_t *_x, Fitness_t *f) noexcept {
     assert4Size(f);
-    const int N = int(f->size());
+    const int N = int(_x->size());
     typename array_traits<Var_t>::Scalar_t f1 = 0, f2 = 0;
     if constexpr (array_traits<Var_t>::isEigenClass) {
       if constexpr (array_traits<Var_t>::isFixedSize) {
-        auto topN_sub_1Rows = _x->template topRows<N - 1>();
-        auto bottomN_sub_1Rows = _x->template bottomRows<N - 1>();
+        constexpr int N = array_traits<Var_t>::sizeCT;  // reload the N from const to constexpr
+        auto topN_sub_1Rows = _x->template head<N - 1>();
+        auto bottomN_sub_1Rows = _x->template tail<N - 1>();
         f1 = -10 * (-0.2 *
 
                     (topN_sub_1Rows.array().square() + bottomN_sub_1Rows.array().square())
@@ -270,8 +271,8 @@ struct MOFunctionsX2<Var_t, Fitness_t, void> {
                        .sum();
 
       } else {
-        auto topN_sub_1Rows = _x->template topRows(N - 1);
-        auto bottomN_sub_1Rows = _x->template bottomRows(N - 1);
+        auto topN_sub_1Rows = _x->head(N - 1);
+        auto bottomN_sub_1Rows = _x->tail(N - 1);
         f1 = -10 * (-0.2 *
 
                     (topN_sub_1Rows.array().square() + bottomN_sub_1Rows.array().square())
-- 
2.43.0


From 740bebc989b6845566fedbc6045674d80ff9bcfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:14 +0000
Subject: [PATCH 67/90] fix: DTLZ functions of Eigen matrices compile

---
 HeuristicFlow/src/EAGlobal/MOFunctions.hpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/HeuristicFlow/src/EAGlobal/MOFunctions.hpp b/HeuristicFlow/src/EAGlobal/MOFunctions.hpp
index eb9420d..61ffa08 100644
--- a/HeuristicFlow/src/EAGlobal/MOFunctions.hpp
+++ b/HeuristicFlow/src/EAGlobal/MOFunctions.hpp
@@ -369,11 +369,11 @@ struct DTLZ1to7<Var_t, Fitness_t, void> {
     if constexpr (isAllFixed) {
       constexpr int N = array_traits<Var_t>::sizeCT;
       constexpr int M = array_traits<Fitness_t>::sizeCT;
-      return x->template tail<N - M + 1>();
+      return x->array().template tail<N - M + 1>();
     } else {
       const int N = int(x->size());
       const int M = int(f->size());
-      return x->tail(N - M + 1);
+      return x->array().tail(N - M + 1);
     }
   }
 
@@ -545,10 +545,10 @@ struct DTLZ1to7<Var_t, Fitness_t, void> {
         // theta = (1 + 2 * gr * x->template topRows<M - 1>()) * M_PI / (4 * (1 + gr));
         constexpr int M = array_traits<Fitness_t>::sizeCT;  // reload the M from const to constexpr
         theta_times_PI_div_2 =
-            M_PI / 2 * (1 + 2 * gr * x->template head<M - 1>()) * M_PI / (4 * (1 + gr));
+            M_PI / 2 * (1 + 2 * gr * x->template head<M - 1>().array()) * M_PI / (4 * (1 + gr));
       } else {
         // theta = (1 + 2 * gr * x->topRows(M - 1)) * M_PI / (4 * (1 + gr));
-        theta_times_PI_div_2 = M_PI / 2 * (1 + 2 * gr * x->head(M - 1)) * M_PI / (4 * (1 + gr));
+        theta_times_PI_div_2 = M_PI / 2 * (1 + 2 * gr * x->head(M - 1).array()) * M_PI / (4 * (1 + gr));
       }
 
       // theta[0] = M_PI / 2 * x->operator[](0);
@@ -606,10 +606,10 @@ struct DTLZ1to7<Var_t, Fitness_t, void> {
         // theta = (1 + 2 * gr * x->template topRows<M - 1>()) * M_PI / (4 * (1 + gr));
         constexpr int M = array_traits<Fitness_t>::sizeCT;  // reload the M from const to constexpr
         theta_times_PI_div_2 =
-            M_PI / 2 * (1 + 2 * gr * x->template head<M - 1>()) * M_PI / (4 * (1 + gr));
+            M_PI / 2 * (1 + 2 * gr * x->template head<M - 1>().array()) * M_PI / (4 * (1 + gr));
       } else {
         // theta = (1 + 2 * gr * x->topRows(M - 1)) * M_PI / (4 * (1 + gr));
-        theta_times_PI_div_2 = M_PI / 2 * (1 + 2 * gr * x->head(M - 1)) * M_PI / (4 * (1 + gr));
+        theta_times_PI_div_2 = M_PI / 2 * (1 + 2 * gr * x->head(M - 1).array()) * M_PI / (4 * (1 + gr));
       }
 
       // theta[0] = M_PI / 2 * x->operator[](0);
@@ -652,9 +652,9 @@ struct DTLZ1to7<Var_t, Fitness_t, void> {
       if constexpr (array_traits<Fitness_t>::isFixedSize) {
         // constexpr int N = array_traits<Var_t>::sizeCT;
         constexpr int M = array_traits<Fitness_t>::sizeCT;
-        f->template head<M - 1>() = x->template head<M - 1>();
+        f->template head<M - 1>().array() = x->template head<M - 1>().array();
       } else {
-        f->head(M - 1) = x->head(M - 1);
+        f->head(M - 1).array() = x->head(M - 1).array();
       }
     } else {
       for (int idx = 0; idx < M - 2; idx++) {
-- 
2.43.0


From 34186037966446dda05f600316ef77afc359a30a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:14 +0000
Subject: [PATCH 68/90] fix: DTLZ5 and DTLZ6 of std containers compile

---
 HeuristicFlow/src/EAGlobal/MOFunctions.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/HeuristicFlow/src/EAGlobal/MOFunctions.hpp b/HeuristicFlow/src/EAGlobal/MOFunctions.hpp
index 61ffa08..593c11e 100644
--- a/HeuristicFlow/src/EAGlobal/MOFunctions.hpp
+++ b/HeuristicFlow/src/EAGlobal/MOFunctions.hpp
@@ -527,7 +527,7 @@ struct DTLZ1to7<Var_t, Fitness_t, void> {
 
     scalar_t gXm = 0, gr = 0;
 
-    if (array_traits<Var_t>::isEigenClass) {
+    if constexpr (array_traits<Var_t>::isEigenClass) {
       auto xm = computeXM(x, f);
       gXm = (xm - 0.5).square().sum();
       gr = xm.square().sum();
@@ -588,7 +588,7 @@ struct DTLZ1to7<Var_t, Fitness_t, void> {
 
     scalar_t gXm = 0, gr = 0;
 
-    if (array_traits<Var_t>::isEigenClass) {
+    if constexpr (array_traits<Var_t>::isEigenClass) {
       auto xm = computeXM(x, f);
       gr = xm.square().sum();
       gXm = xm.pow(0.1).sum();
-- 
2.43.0


From 0031d017ec32dba88eae07269bc952dbf7f9a3f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:14 +0000
Subject: [PATCH 69/90] fix: angles of DTLZ5 and DTLZ6

---
 HeuristicFlow/src/EAGlobal/MOFunctions.hpp | 60 ++++++++--------------
 1 file changed, 20 insertions(+), 40 deletions(-)

diff --git a/HeuristicFlow/src/EAGlobal/MOFunctions.hpp b/HeuristicFlow/src/EAGlobal/MOFunctions.hpp
index 593c11e..01ee163 100644
--- a/HeuristicFlow/src/EAGlobal/MOFunctions.hpp
+++ b/HeuristicFlow/src/EAGlobal/MOFunctions.hpp
@@ -525,57 +525,47 @@ struct DTLZ1to7<Var_t, Fitness_t, void> {
     const int N = int(x->size());
     const int M = int(f->size());
 
-    scalar_t gXm = 0, gr = 0;
+    scalar_t gXm = 0;
 
     if constexpr (array_traits<Var_t>::isEigenClass) {
       auto xm = computeXM(x, f);
       gXm = (xm - 0.5).square().sum();
-      gr = xm.square().sum();
     } else {
       for (int idx = M - 1; idx < N; idx++) {
-        gr += square(x->operator[](idx));
         gXm += square(x->operator[](idx) - 0.5);
       }
     }
 
-    XPrevPartVec_t theta_times_PI_div_2;
+    XPrevPartVec_t theta;
     // compute theta;
     if constexpr (array_traits<XPrevPartVec_t>::isEigenClass) {  // Eigen's vector
       if constexpr (array_traits<Fitness_t>::isFixedSize) {
-        // theta = (1 + 2 * gr * x->template topRows<M - 1>()) * M_PI / (4 * (1 + gr));
         constexpr int M = array_traits<Fitness_t>::sizeCT;  // reload the M from const to constexpr
-        theta_times_PI_div_2 =
-            M_PI / 2 * (1 + 2 * gr * x->template head<M - 1>().array()) * M_PI / (4 * (1 + gr));
+        theta = (1 + 2 * gXm * x->template head<M - 1>().array()) * M_PI / (4 * (1 + gXm));
       } else {
-        // theta = (1 + 2 * gr * x->topRows(M - 1)) * M_PI / (4 * (1 + gr));
-        theta_times_PI_div_2 = M_PI / 2 * (1 + 2 * gr * x->head(M - 1).array()) * M_PI / (4 * (1 + gr));
+        theta = (1 + 2 * gXm * x->head(M - 1).array()) * M_PI / (4 * (1 + gXm));
       }
 
-      // theta[0] = M_PI / 2 * x->operator[](0);
-      theta_times_PI_div_2[0] = M_PI / 2 * M_PI / 2 * x->operator[](0);
+      theta[0] = M_PI / 2 * x->operator[](0);
     } else {
       if constexpr (!array_traits<XPrevPartVec_t>::isFixedSize) {  // std::array or std::vector
         // theta.resize(M - 1);
-        theta_times_PI_div_2.resize(M - 1);
+        theta.resize(M - 1);
         // resize for std::vector
       }
 
-      // theta[0] = M_PI / 2 * x->operator[](0);
-      theta_times_PI_div_2[0] = M_PI / 2 * M_PI / 2 * x->operator[](0);
+      theta[0] = M_PI / 2 * x->operator[](0);
 
       for (int idx = 1; idx < M - 1; idx++) {
-        // theta[idx] = (1 + 2 * gr * x->operator[](idx)) * M_PI / (4 * (1 + gr));
-        theta_times_PI_div_2[idx] = M_PI / 2 *
-
-                                    (1 + 2 * gr * x->operator[](idx)) * M_PI / (4 * (1 + gr));
+        theta[idx] = (1 + 2 * gXm * x->operator[](idx)) * M_PI / (4 * (1 + gXm));
       }
     }
 
     scalar_t prodCum = 1 + gXm;
 
     for (int objIdx = M - 1; objIdx > 0; objIdx--) {
-      f->operator[](objIdx) = prodCum * std::sin(theta_times_PI_div_2[M - 1 - objIdx]);
-      prodCum *= std::cos(theta_times_PI_div_2[M - 1 - objIdx]);
+      f->operator[](objIdx) = prodCum * std::sin(theta[M - 1 - objIdx]);
+      prodCum *= std::cos(theta[M - 1 - objIdx]);
     }
     f->operator[](0) = prodCum;
   }
@@ -586,57 +576,47 @@ struct DTLZ1to7<Var_t, Fitness_t, void> {
     const int N = int(x->size());
     const int M = int(f->size());
 
-    scalar_t gXm = 0, gr = 0;
+    scalar_t gXm = 0;
 
     if constexpr (array_traits<Var_t>::isEigenClass) {
       auto xm = computeXM(x, f);
-      gr = xm.square().sum();
       gXm = xm.pow(0.1).sum();
     } else {
       for (int idx = M - 1; idx < N; idx++) {
-        gr += square(x->operator[](idx));
         gXm += std::pow(x->operator[](idx), 0.1);
       }
     }
 
-    XPrevPartVec_t theta_times_PI_div_2;
+    XPrevPartVec_t theta;
     // compute theta;
     if constexpr (array_traits<XPrevPartVec_t>::isEigenClass) {  // Eigen's vector
       if constexpr (array_traits<Fitness_t>::isFixedSize) {
-        // theta = (1 + 2 * gr * x->template topRows<M - 1>()) * M_PI / (4 * (1 + gr));
         constexpr int M = array_traits<Fitness_t>::sizeCT;  // reload the M from const to constexpr
-        theta_times_PI_div_2 =
-            M_PI / 2 * (1 + 2 * gr * x->template head<M - 1>().array()) * M_PI / (4 * (1 + gr));
+        theta = (1 + 2 * gXm * x->template head<M - 1>().array()) * M_PI / (4 * (1 + gXm));
       } else {
-        // theta = (1 + 2 * gr * x->topRows(M - 1)) * M_PI / (4 * (1 + gr));
-        theta_times_PI_div_2 = M_PI / 2 * (1 + 2 * gr * x->head(M - 1).array()) * M_PI / (4 * (1 + gr));
+        theta = (1 + 2 * gXm * x->head(M - 1).array()) * M_PI / (4 * (1 + gXm));
       }
 
-      // theta[0] = M_PI / 2 * x->operator[](0);
-      theta_times_PI_div_2[0] = M_PI / 2 * M_PI / 2 * x->operator[](0);
+      theta[0] = M_PI / 2 * x->operator[](0);
     } else {
       if constexpr (!array_traits<XPrevPartVec_t>::isFixedSize) {  // std::array or std::vector
         // theta.resize(M - 1);
-        theta_times_PI_div_2.resize(M - 1);
+        theta.resize(M - 1);
         // resize for std::vector
       }
 
-      // theta[0] = M_PI / 2 * x->operator[](0);
-      theta_times_PI_div_2[0] = M_PI / 2 * M_PI / 2 * x->operator[](0);
+      theta[0] = M_PI / 2 * x->operator[](0);
 
       for (int idx = 1; idx < M - 1; idx++) {
-        // theta[idx] = (1 + 2 * gr * x->operator[](idx)) * M_PI / (4 * (1 + gr));
-        theta_times_PI_div_2[idx] = M_PI / 2 *
-
-                                    (1 + 2 * gr * x->operator[](idx)) * M_PI / (4 * (1 + gr));
+        theta[idx] = (1 + 2 * gXm * x->operator[](idx)) * M_PI / (4 * (1 + gXm));
       }
     }
 
     scalar_t prodCum = 1 + gXm;
 
     for (int objIdx = M - 1; objIdx > 0; objIdx--) {
-      f->operator[](objIdx) = prodCum * std::sin(theta_times_PI_div_2[M - 1 - objIdx]);
-      prodCum *= std::cos(theta_times_PI_div_2[M - 1 - objIdx]);
+      f->operator[](objIdx) = prodCum * std::sin(theta[M - 1 - objIdx]);
+      prodCum *= std::cos(theta[M - 1 - objIdx]);
     }
     f->operator[](0) = prodCum;
   }
-- 
2.43.0


From c090219b0d96253fafa97fa47109c87198fe1dcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:14 +0000
Subject: [PATCH 70/90] fix: DTLZ7 of std containers left the objective before
 the last one unset

---
 HeuristicFlow/src/EAGlobal/MOFunctions.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/HeuristicFlow/src/EAGlobal/MOFunctions.hpp b/HeuristicFlow/src/EAGlobal/MOFunctions.hpp
index 01ee163..bc09bcc 100644
--- a/HeuristicFlow/src/EAGlobal/MOFunctions.hpp
+++ b/HeuristicFlow/src/EAGlobal/MOFunctions.hpp
@@ -637,7 +637,7 @@ struct DTLZ1to7<Var_t, Fitness_t, void> {
         f->head(M - 1).array() = x->head(M - 1).array();
       }
     } else {
-      for (int idx = 0; idx < M - 2; idx++) {
+      for (int idx = 0; idx < M - 1; idx++) {
         f->operator[](idx) = x->operator[](idx);
       }
     }
-- 
2.43.0


From 90e0749b21e065899d2d2de41bcd6d8b47441002 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:14 +0000
Subject: [PATCH 71/90] fix: DTLZ8 of 2 compile-time objectives compiles

---
 HeuristicFlow/src/EAGlobal/MOFunctions.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/HeuristicFlow/src/EAGlobal/MOFunctions.hpp b/HeuristicFlow/src/EAGlobal/MOFunctions.hpp
index bc09bcc..fe35275 100644
--- a/HeuristicFlow/src/EAGlobal/MOFunctions.hpp
+++ b/HeuristicFlow/src/EAGlobal/MOFunctions.hpp
@@ -784,11 +784,11 @@ struct DTLZ89<Var_t, Fitness_t, void> {
   }
 
   inline static scalar_t findMin2SumForDTLZ8(Fitness_t *f) noexcept {
-    if constexpr (array_traits<Fitness_t>::isFixedSize) {
+    if constexpr (array_traits<Fitness_t>::isFixedSize && array_traits<Fitness_t>::sizeCT > 2) {
       return findMin2SumForDTLZ8<0, 1>(f);
     } else {
       const int M = f->size();
-      scalar_t result = pinfD;
+      scalar_t result = std::numeric_limits<scalar_t>::infinity();
       for (int i = 0; i < M - 2; i++) {
         for (int j = i + 1; j < M - 1; j++) {
           result = std::min(result, f->operator[](i) + f->operator[](j));
-- 
2.43.0


From 186bbf96fc2fb3a2b6b3ae0e439d2f3b3e840b8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:14 +0000
Subject: [PATCH 72/90] fix: DTLZ9 read a variable and an objective out of
 bounds

---
 HeuristicFlow/src/EAGlobal/MOFunctions.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/HeuristicFlow/src/EAGlobal/MOFunctions.hpp b/HeuristicFlow/src/EAGlobal/MOFunctions.hpp
index fe35275..f4d654f 100644
--- a/HeuristicFlow/src/EAGlobal/MOFunctions.hpp
+++ b/HeuristicFlow/src/EAGlobal/MOFunctions.hpp
@@ -842,14 +842,14 @@ struct DTLZ89<Var_t, Fitness_t, void> {
 
     for (int objIdx = 0; objIdx < M; objIdx++) {
       f->operator[](objIdx) = 0;
-      for (int varIdx = objIdx * N / M; varIdx <= std::min<int>(N, (objIdx + 1) * N / M);
+      for (int varIdx = objIdx * N / M; varIdx <= std::min<int>(N - 1, (objIdx + 1) * N / M);
            varIdx++) {
         f->operator[](objIdx) += std::pow(x->operator[](varIdx), 0.1);
       }
     }
     // apply penlties
     for (int objIdx = 0; objIdx < M - 1; objIdx++) {
-      auto gOfObjIdx = square(f->operator[](M)) + square(f->operator[](objIdx)) - 1;
+      auto gOfObjIdx = square(f->operator[](M - 1)) + square(f->operator[](objIdx)) - 1;
 
       if (gOfObjIdx < 0) {
         f->operator[](objIdx) += 1e3 + (-gOfObjIdx);
-- 
2.43.0


From 046f6f01146521af47d9b14d8fc8980928fc6615 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:40 +0000
Subject: [PATCH 73/90] fix: styblinskiTang of Eigen arrays compiles

---
 HeuristicFlow/src/EAGlobal/SOFunctions.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/HeuristicFlow/src/EAGlobal/SOFunctions.hpp b/HeuristicFlow/src/EAGlobal/SOFunctions.hpp
index 37412e3..483466e 100644
--- a/HeuristicFlow/src/EAGlobal/SOFunctions.hpp
+++ b/HeuristicFlow/src/EAGlobal/SOFunctions.hpp
@@ -248,7 +248,7 @@ struct SOFunctionsX<Var_t, Fitness_t, void> {
 
   inline static void styblinskiTang(const Var_t *x, Fitness_t *f) noexcept {
     if constexpr (array_traits<Var_t>::isEigenClass) {
-      auto arr = x->array();
+      const auto &arr = x->array();
       *f = (arr.square().square() - 16 * arr.square() + 5 * arr).sum() / 2;
     } else {
       double val = 0;
-- 
2.43.0


From 3bc39a8c459d02389b95617e892296d3339f34d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:07 +0000
Subject: [PATCH 74/90] fix: copies made by Tournament selection are in a
 reproducible order

---
 HeuristicFlow/src/Genetic/SOGASelecters.hpp | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/HeuristicFlow/src/Genetic/SOGASelecters.hpp b/HeuristicFlow/src/Genetic/SOGASelecters.hpp
index 04f30f1..40db2b2 100644
--- a/HeuristicFlow/src/Genetic/SOGASelecters.hpp
+++ b/HeuristicFlow/src/Genetic/SOGASelecters.hpp
@@ -286,12 +286,14 @@ class SOGASelector<SelectMethod::Tournament> {
       }
     }
 
-    for (auto& pair : selectCounter) {
-      while (pair.second > 0) {
-        // copy if a gene is selected for more than once
-        static_cast<this_t*>(this)->_population.emplace_back(*pair.first);
-        pair.second--;
-      }
+    // copy genes that are selected for more than once in the order of population, since the order
+    // of selectCounter depends on their addresses
+    GeneIt_t survivor = static_cast<this_t*>(this)->_population.begin();
+    for (int rest = int(static_cast<this_t*>(this)->_population.size()); rest > 0; rest--) {
+      for (int copies = selectCounter[&*survivor]; copies > 0; copies--) {
+        static_cast<this_t*>(this)->_population.emplace_back(*survivor);
+      }
+      ++survivor;
     }
 
     static_cast<this_t*>(this)->updateFailTimesAndBestGene(curBestGene, previousBestFitness);
-- 
2.43.0


From 02654d651a9476808fafe0ccd88c51c28702c8f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:55 +0000
Subject: [PATCH 75/90] fix: NSGA3 extreme points don't depend on the addresses
 of genes

---
 HeuristicFlow/src/Genetic/NSGA3Abstract.hpp | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/HeuristicFlow/src/Genetic/NSGA3Abstract.hpp b/HeuristicFlow/src/Genetic/NSGA3Abstract.hpp
index 5c0a2bd..6d1e6d9 100644
--- a/HeuristicFlow/src/Genetic/NSGA3Abstract.hpp
+++ b/HeuristicFlow/src/Genetic/NSGA3Abstract.hpp
@@ -273,11 +273,16 @@ class NSGA3Abstract : public NSGABase<Var_t, ObjNum, FITNESS_LESS_BETTER, rOpt,
       extremePoints.col(c) = extremePtrs[c]->fitness;
     }
 
-    for (auto i : selected) {
-      ideal = ideal.min(i->fitness);
+    // Go through selected in the order of sortSpace : genes may tie for an extreme point, and the
+    // order of selected depends on their addresses
+    for (const GeneIt_t& it : this->sortSpace) {
+      if (selected.find(&*it) == selected.end()) {
+        continue;
+      }
+      ideal = ideal.min(it->fitness);
       for (size_t objIdx = 0; objIdx < M; objIdx++) {
-        if (i->fitness[objIdx] > extremePtrs[objIdx]->fitness[objIdx]) {
-          extremePtrs[objIdx] = i;
+        if (it->fitness[objIdx] > extremePtrs[objIdx]->fitness[objIdx]) {
+          extremePtrs[objIdx] = &*it;
         }
       }
     }
-- 
2.43.0


From a47f6cf505fac60f0296c9b275ac7ca1e1ecf6c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:54 +0000
Subject: [PATCH 76/90] fix: counters of a solver that never ran are zero, not
 uninitialised

---
 HeuristicFlow/src/AOS/AOSBoxed.hpp    | 4 ++--
 HeuristicFlow/src/Genetic/GABase.hpp  | 4 ++--
 HeuristicFlow/src/PSO/PSOAbstrcat.hpp | 4 ++--
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/HeuristicFlow/src/AOS/AOSBoxed.hpp b/HeuristicFlow/src/AOS/AOSBoxed.hpp
index e5e429f..a4fe1bb 100644
--- a/HeuristicFlow/src/AOS/AOSBoxed.hpp
+++ b/HeuristicFlow/src/AOS/AOSBoxed.hpp
@@ -94,8 +94,8 @@ class AOSBoxed : public AOSParameterPack<Var_t, Fitness_t, Arg_t>,
   Fitness_t _bindingEnergy;
   const Electron_t* _atomBestPtr;
   AOSOption _option;
-  size_t _generation;
-  size_t _earlyStopCounter;
+  size_t _generation = 0;
+  size_t _earlyStopCounter = 0;
 
   void __impl_computeFitness() noexcept {
 #ifdef HEU_HAS_OPENMP
diff --git a/HeuristicFlow/src/Genetic/GABase.hpp b/HeuristicFlow/src/Genetic/GABase.hpp
index 1a3acfb..0118052 100644
--- a/HeuristicFlow/src/Genetic/GABase.hpp
+++ b/HeuristicFlow/src/Genetic/GABase.hpp
@@ -151,8 +151,8 @@ class GABase : public GAAbstract<Var_t, Fitness_t, Args_t>,
   poplist_t _population;  ///< Population stored in list
   GAOption _option;       ///< Option of GA solver
 
-  size_t _generation;  ///< Current generation
-  size_t _failTimes;   ///< Current failtimes
+  size_t _generation = 0;  ///< Current generation
+  size_t _failTimes = 0;   ///< Current failtimes
 
   inline void __impl_clearRecord() noexcept {
   }  ///< Nothing is need to do if the solver doesn't record fitnesses.
diff --git a/HeuristicFlow/src/PSO/PSOAbstrcat.hpp b/HeuristicFlow/src/PSO/PSOAbstrcat.hpp
index d0b3a1a..7b662ba 100644
--- a/HeuristicFlow/src/PSO/PSOAbstrcat.hpp
+++ b/HeuristicFlow/src/PSO/PSOAbstrcat.hpp
@@ -196,10 +196,10 @@ class PSOAbstract : public PSOParameterPack<Var_t, Fitness_t, Arg_t>,
   PSOOption _option;
 
   /// Generation used.
-  size_t _generation;
+  size_t _generation = 0;
 
   /// failtimes
-  size_t _failTimes;
+  size_t _failTimes = 0;
 
   /*
 /// Minimum position
-- 
2.43.0


From 79702435d30f27ade008ce79032e890275b49931 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:00 +0000
Subject: [PATCH 77/90] fix: selections hang or lose their pressure when
 fitness differences exceed double

RouletteWheel, Probability, StochasticUniversal and EliteReserved subtract the minimum
fitness. The differences (or their sum) overflow for finite fitness values of opposite
signs near the limits of double and for infinite penalties: weights turn infinite or NaN,
Probability and EliteReserved never leave their loops, and the survivors of the others
don't depend on their fitness.
---
 HeuristicFlow/src/Genetic/SOGASelecters.hpp | 32 +++++++++++++++++++++
 1 file changed, 32 insertions(+)

diff --git a/HeuristicFlow/src/Genetic/SOGASelecters.hpp b/HeuristicFlow/src/Genetic/SOGASelecters.hpp
index 40db2b2..e8975b2 100644
--- a/HeuristicFlow/src/Genetic/SOGASelecters.hpp
+++ b/HeuristicFlow/src/Genetic/SOGASelecters.hpp
@@ -20,6 +20,7 @@ This file is part of HeuristicFlow.
 #ifndef HEU_SOGASELECTORS_HPP
 #define HEU_SOGASELECTORS_HPP
 
+#include <limits>
 #include <unordered_map>
 
 #include "GABase.hpp"
@@ -27,6 +28,33 @@ This file is part of HeuristicFlow.
 namespace heu {
 namespace internal {
 
+// The fitness nearest to a value that may be infinite
+inline double toFinite(const double fitness) noexcept {
+  constexpr double limit = std::numeric_limits<double>::max();
+  return std::min(std::max(fitness, -limit), limit);
+}
+
+// Make sure that the differences between candidates' processed fitness and the minimum of them, and
+// the sum of differences, are finite.
+template <class GeneIt_t>
+inline void keepDifferencesFinite(std::list<std::pair<GeneIt_t, double>>* candidates,
+                                  double* minFitness) noexcept {
+  *minFitness = toFinite(*minFitness);
+  double maxFitness = *minFitness;
+  for (auto& pair : *candidates) {
+    pair.second = toFinite(pair.second);
+    maxFitness = std::max(maxFitness, pair.second);
+  }
+
+  if (std::isinf((maxFitness - *minFitness) * candidates->size())) {
+    const double scale = 0.25 / candidates->size();
+    for (auto& pair : *candidates) {
+      pair.second *= scale;
+    }
+    *minFitness *= scale;
+  }
+}
+
 /**
  * \ingroup HEU_GENETIC
  * \class SOGASelector
@@ -134,6 +162,7 @@ class SOGASelector<SelectMethod::RouletteWheel> {
       minFitness = std::min(minFitness, eliminateSpace.back().second);
     }
 
+    keepDifferencesFinite(&eliminateSpace, &minFitness);
     for (auto& pair : eliminateSpace) {
       pair.second -= minFitness;
     }
@@ -393,6 +422,7 @@ class SOGASelector<SelectMethod::Probability> {
 
       //
       double fitnessSum = 0;
+      keepDifferencesFinite(&eliminateSpace, &minFitness);
       for (auto& pair : eliminateSpace) {
         pair.second -= minFitness;
         fitnessSum += pair.second;
@@ -763,6 +793,7 @@ class SOGASelector<SelectMethod::StochasticUniversal> {
     }
 
     double fitnessSum = 0;
+    keepDifferencesFinite(&eliminateSpace, &minFitness);
     for (auto& pair : eliminateSpace) {
       pair.second -= minFitness;
 
@@ -884,6 +915,7 @@ class SOGASelector<SelectMethod::EliteReserved> {
 
     double rMax = 0;
 
+    keepDifferencesFinite(&eliminateSpace, &minFitness);
     for (auto& pair : eliminateSpace) {
       pair.second -= minFitness;
       rMax += pair.second;
-- 
2.43.0


From 44f842c534fceb9b336629125b4d4e8a16dfc414 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:00 +0000
Subject: [PATCH 78/90] fix: Boltzmann selection hangs when an exponent exceeds
 double

strength*fitness overflows for |fitness| above 1e307 with the default strength, and
infinity minus infinity is NaN.
---
 HeuristicFlow/src/Genetic/SOGASelecters.hpp | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/HeuristicFlow/src/Genetic/SOGASelecters.hpp b/HeuristicFlow/src/Genetic/SOGASelecters.hpp
index e8975b2..5bc3739 100644
--- a/HeuristicFlow/src/Genetic/SOGASelecters.hpp
+++ b/HeuristicFlow/src/Genetic/SOGASelecters.hpp
@@ -711,31 +711,35 @@ class SOGASelector<SelectMethod::Boltzmann> {
       return;
     }
 
-    // Use the iterator as first and the exponent of its weight as second. The sum of weights is not
-    // normalized.
+    // Use the iterator as first and its fitness as second. The sum of weights is not normalized.
     std::list<std::pair<GeneIt_t, double>> eliminateSpace;
     for (GeneIt_t it = static_cast<this_t*>(this)->_population.begin();
          it != static_cast<this_t*>(this)->_population.end(); ++it) {
-      eliminateSpace.emplace_back(it, _boltzmannSelectStrength * it->fitness);
+      eliminateSpace.emplace_back(it, toFinite(it->fitness));
     }
 
     while (int(eliminateSpace.size()) > eliminateNum) {
       // Exponents are taken relative to the greatest one left, otherwise exp() overflows or all
       // weights left underflow to 0.
-      double maxExponent = ninfD;
+      double favourite = eliminateSpace.front().second;
       for (auto& pair : eliminateSpace) {
-        maxExponent = std::max(maxExponent, pair.second);
+        favourite = (_boltzmannSelectStrength > 0) ? std::max(favourite, pair.second)
+                                                   : std::min(favourite, pair.second);
       }
+      // Halves, since the difference of two fitness values may exceed the maximum of double.
+      const auto weight = [this, favourite](const double fitness) {
+        return std::exp(2 * (_boltzmannSelectStrength * (fitness / 2 - favourite / 2)));
+      };
 
       double rMax = 0;
       for (auto& pair : eliminateSpace) {
-        rMax += std::exp(pair.second - maxExponent);
+        rMax += weight(pair.second);
       }
 
       double r = randD(0, rMax);
 
       for (auto it = eliminateSpace.begin(); it != eliminateSpace.end(); ++it) {
-        r -= std::exp(it->second - maxExponent);
+        r -= weight(it->second);
         if (r <= 0) {
           eliminateSpace.erase(it);
           break;
-- 
2.43.0


From 734624d75b1e2da86f95a314c6fb881808c8d483 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:00 +0000
Subject: [PATCH 79/90] fix: NSGA2 crowding distance is NaN when objective
 values span more than double

std::sort was given a comparison that isn't a strict weak order.
---
 HeuristicFlow/src/Genetic/NSGA2.hpp | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/HeuristicFlow/src/Genetic/NSGA2.hpp b/HeuristicFlow/src/Genetic/NSGA2.hpp
index 784b8f7..fa85594 100644
--- a/HeuristicFlow/src/Genetic/NSGA2.hpp
+++ b/HeuristicFlow/src/Genetic/NSGA2.hpp
@@ -229,9 +229,18 @@ class NSGA2
         std::sort(this->sortSpace.data(), this->sortSpace.data() + this->sortSpace.size(),
                   fitnessCmpFuns[objIdx]);
 
-        const double scale = std::abs(this->sortSpace.front()->fitness[objIdx] -
-                                      this->sortSpace.back()->fitness[objIdx]) +
-                             1e-10;
+        // objective values may be infinite, and their difference may exceed the maximum of double
+        const double unit = std::isinf(this->sortSpace.front()->fitness[objIdx] -
+                                       this->sortSpace.back()->fitness[objIdx])
+                                ? 0.5
+                                : 1.0;
+        const auto value = [objIdx, unit](const GeneIt_t &it) {
+          constexpr double limit = std::numeric_limits<double>::max();
+          return unit * std::min(std::max(it->fitness[objIdx], -limit), limit);
+        };
+
+        const double scale =
+            std::abs(value(this->sortSpace.front()) - value(this->sortSpace.back())) + 1e-10;
 
         this->sortSpace.front()->congestion = internal::pinfD;
         this->sortSpace.back()->congestion = internal::pinfD;
@@ -240,9 +249,7 @@ class NSGA2
         for (size_t idx = 1; idx < popSizeBefore - 1; idx++) {
           this->sortSpace[idx]->congestion +=
 
-              std::abs(this->sortSpace[idx - 1]->fitness[objIdx] -
-                       this->sortSpace[idx + 1]->fitness[objIdx]) /
-              scale;
+              std::abs(value(this->sortSpace[idx - 1]) - value(this->sortSpace[idx + 1])) / scale;
         }
       }  // end sort on objIdx
 
-- 
2.43.0


From 78767c831e01a4568a10b3ef3aad1ad05ee047c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:00 +0000
Subject: [PATCH 80/90] fix: recording solvers don't reserve memory for an
 unreachable generation limit

reserve(maxGenerations + 1) throws from a noexcept function when the limit is huge (as it is
when only the fail times are meant to stop the solver).
---
 HeuristicFlow/src/AOS/AOSBase.hpp     | 3 ++-
 HeuristicFlow/src/Genetic/GABase.hpp  | 3 ++-
 HeuristicFlow/src/PSO/PSOAbstrcat.hpp | 3 ++-
 3 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/HeuristicFlow/src/AOS/AOSBase.hpp b/HeuristicFlow/src/AOS/AOSBase.hpp
index 836a251..f36beec 100644
--- a/HeuristicFlow/src/AOS/AOSBase.hpp
+++ b/HeuristicFlow/src/AOS/AOSBase.hpp
@@ -148,7 +148,8 @@ class AOSBase<Var_t, Fitness_t, Arg_t, Box_t, _iFun_, _fFun_, Electron, fOpt,
   inline void initializePop() noexcept {
     Base_t::initializePop();
     _record.clear();
-    _record.reserve(this->_option.maxGeneration + 1);
+    // the limit may be greater than any number of generations that fits into memory
+    _record.reserve(std::min<size_t>(this->_option.maxGeneration, 65535) + 1);
   }
 
  protected:
diff --git a/HeuristicFlow/src/Genetic/GABase.hpp b/HeuristicFlow/src/Genetic/GABase.hpp
index 0118052..b26f0b8 100644
--- a/HeuristicFlow/src/Genetic/GABase.hpp
+++ b/HeuristicFlow/src/Genetic/GABase.hpp
@@ -422,7 +422,8 @@ class GABase<Var_t, Fitness_t, RECORD_FITNESS, Gene, Args_t, _iFun_, _fFun_, _cF
 
   inline void __impl_clearRecord() noexcept {
     _record.clear();
-    _record.reserve(this->_option.maxGenerations + 1);
+    // the limit may be greater than any number of generations that fits into memory
+    _record.reserve(std::min<size_t>(this->_option.maxGenerations, 65535) + 1);
   }
 
   template <class this_t>
diff --git a/HeuristicFlow/src/PSO/PSOAbstrcat.hpp b/HeuristicFlow/src/PSO/PSOAbstrcat.hpp
index 7b662ba..74ce15d 100644
--- a/HeuristicFlow/src/PSO/PSOAbstrcat.hpp
+++ b/HeuristicFlow/src/PSO/PSOAbstrcat.hpp
@@ -421,7 +421,8 @@ class PSOAbstract<Var_t, Fitness_t, RECORD_FITNESS, Arg_t, BS, _iFun_, _fFun_>
    */
   inline void __impl_clearRecord() noexcept {
     _record.clear();
-    _record.reserve(this->_option.maxGeneration + 1);
+    // the limit may be greater than any number of generations that fits into memory
+    _record.reserve(std::min<size_t>(this->_option.maxGeneration, 65535) + 1);
   }
 
   /**
-- 
2.43.0


From f8fa4d08f7ee4a56652c2d55ade263230d6ca288 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:34 +0000
Subject: [PATCH 81/90] fix: layers of the last AOS generation have their
 binding state, energy and best

---
 HeuristicFlow/src/AOS/AOSBase.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/HeuristicFlow/src/AOS/AOSBase.hpp b/HeuristicFlow/src/AOS/AOSBase.hpp
index f36beec..32b3117 100644
--- a/HeuristicFlow/src/AOS/AOSBase.hpp
+++ b/HeuristicFlow/src/AOS/AOSBase.hpp
@@ -112,12 +112,13 @@ class AOSBase
 
       static_cast<this_t*>(this)->__impl_selectAndMakeLayers();
 
+      // the layers of the last generation can be queried too
+      static_cast<this_t*>(this)->__impl_computeLayerBSBELE();
+
       if (static_cast<this_t*>(this)->__impl_shouldTerminate()) {
         break;
       }
 
-      static_cast<this_t*>(this)->__impl_computeLayerBSBELE();
-
       static_cast<this_t*>(this)->template __impl_updateElectrons<this_t>();
 
       this->_generation++;
-- 
2.43.0


From 33591e5a23b5420b0720a4597d37821dbc3daf50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:36 +0000
Subject: [PATCH 82/90] fix: <HeuristicFlow/Genetic> can be the first header of
 a program

---
 HeuristicFlow/src/Genetic/GAOption.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/HeuristicFlow/src/Genetic/GAOption.hpp b/HeuristicFlow/src/Genetic/GAOption.hpp
index ea74421..da02de9 100644
--- a/HeuristicFlow/src/Genetic/GAOption.hpp
+++ b/HeuristicFlow/src/Genetic/GAOption.hpp
@@ -20,6 +20,7 @@ This file is part of HeuristicFlow.
 #ifndef HEU_GAOPTION_HPP
 #define HEU_GAOPTION_HPP
 
+#include <stddef.h>
 #include <stdint.h>
 
 #include "InternalHeaderCheck.h"
-- 
2.43.0


From 9c527d993847bee016298fa4e7f2c2f9b7e48e09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:48 +0000
Subject: [PATCH 83/90] fix: all translation units share the number of threads

---
 HeuristicFlow/src/Global/Threading.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/HeuristicFlow/src/Global/Threading.hpp b/HeuristicFlow/src/Global/Threading.hpp
index 83ebca3..8919a42 100644
--- a/HeuristicFlow/src/Global/Threading.hpp
+++ b/HeuristicFlow/src/Global/Threading.hpp
@@ -37,7 +37,7 @@ namespace heu {
 int threadNum() noexcept;
 inline void setThreadNum(int _thN) noexcept;
 
-namespace {
+namespace internal {
 
 class thNumWrapper {
   thNumWrapper() = delete;
@@ -49,7 +49,7 @@ class thNumWrapper {
   }
 };
 
-}  // namespace
+}  // namespace internal
 
 /**
  * \ingroup HEU_GLOBAL
@@ -58,7 +58,7 @@ class thNumWrapper {
  *
  * \return int Number of threads that will be used.
  */
-inline int threadNum() noexcept { return thNumWrapper::internalThreadNum(); }
+inline int threadNum() noexcept { return internal::thNumWrapper::internalThreadNum(); }
 
 /**
  * \ingroup HEU_GLOBAL
@@ -69,7 +69,7 @@ inline int threadNum() noexcept { return thNumWrapper::internalThreadNum(); }
  */
 inline void setThreadNum(int _thN) noexcept {
   HEU_ASSERT(_thN > 0);
-  thNumWrapper::internalThreadNum() = _thN;
+  internal::thNumWrapper::internalThreadNum() = _thN;
 }
 
 // if HEU_NO_THREADS is defined, HEU_HAS_OPENMP won't be defined, preventing following algorithms to
-- 
2.43.0


From 000d2776c00ccb0e67a1cd83c154aa9fb16d2167 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:32 +0000
Subject: [PATCH 84/90] fix: a crossover or mutation probability of zero never
 selects an individual

---
 HeuristicFlow/src/Genetic/GABase.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/HeuristicFlow/src/Genetic/GABase.hpp b/HeuristicFlow/src/Genetic/GABase.hpp
index b26f0b8..23fa11e 100644
--- a/HeuristicFlow/src/Genetic/GABase.hpp
+++ b/HeuristicFlow/src/Genetic/GABase.hpp
@@ -265,7 +265,7 @@ class GABase : public GAAbstract<Var_t, Fitness_t, Args_t>,
     crossoverQueue.reserve(_population.size());
 
     for (GeneIt_t it = _population.begin(); it != _population.end(); it++) {
-      if (randD() <= _option.crossoverProb) {
+      if (randD() < _option.crossoverProb) {
         crossoverQueue.emplace_back(it);
       }
     }
@@ -304,7 +304,7 @@ class GABase : public GAAbstract<Var_t, Fitness_t, Args_t>,
     std::vector<GeneIt_t> mutateList;
     mutateList.reserve(size_t(this->_population.size() * this->_option.mutateProb * 2));
     for (auto it = this->_population.begin(); it != this->_population.end(); ++it) {
-      if (randD() <= this->_option.mutateProb) {
+      if (randD() < this->_option.mutateProb) {
         mutateList.emplace_back(it);
       }
     }
-- 
2.43.0


From 10d0e2ad2877731e888c4034364c162b7bf9ad7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:34 +0000
Subject: [PATCH 85/90] fix: roulette wheel and elite reserved selection draw
 equally good candidates equally often

---
 HeuristicFlow/src/Genetic/SOGASelecters.hpp | 22 +++++++--------------
 1 file changed, 7 insertions(+), 15 deletions(-)

diff --git a/HeuristicFlow/src/Genetic/SOGASelecters.hpp b/HeuristicFlow/src/Genetic/SOGASelecters.hpp
index 5bc3739..73a778c 100644
--- a/HeuristicFlow/src/Genetic/SOGASelecters.hpp
+++ b/HeuristicFlow/src/Genetic/SOGASelecters.hpp
@@ -192,14 +192,10 @@ class SOGASelector<SelectMethod::RouletteWheel> {
         }
 
       } else {
-        // select stochastically
-        const int sizeBeforeErasement = int(eliminateSpace.size());
-        for (auto it = eliminateSpace.begin(); it != eliminateSpace.end(); ++it) {
-          if (randIdx(sizeBeforeErasement) == 0) {
-            eliminateSpace.erase(it);
-            break;
-          }
-        }
+        // every candidate is equally good, select stochastically
+        auto it = eliminateSpace.begin();
+        std::advance(it, randIdx(int(eliminateSpace.size())));
+        eliminateSpace.erase(it);
       }
     }
 
@@ -927,13 +923,9 @@ class SOGASelector<SelectMethod::EliteReserved> {
 
     if (rMax <= 0) {  //  erase randomly
       while (int(eliminateSpace.size()) > eliminateNum) {
-        const int curEliminateSpaceSize = int(eliminateSpace.size());
-        for (auto it = eliminateSpace.begin(); it != eliminateSpace.end(); ++it) {
-          if (randD() * curEliminateSpaceSize <= 1) {
-            eliminateSpace.erase(it);
-            break;
-          }
-        }
+        auto it = eliminateSpace.begin();
+        std::advance(it, randIdx(int(eliminateSpace.size())));
+        eliminateSpace.erase(it);
       }
     } else {
       while (int(eliminateSpace.size()) > eliminateNum) {
-- 
2.43.0


From 0f0d50dd0a8d18dad9c7a4ef85e4c1c7cf26b9f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:34 +0000
Subject: [PATCH 86/90] fix: elite reserved selection stays random after an
 outlier is selected

---
 HeuristicFlow/src/Genetic/SOGASelecters.hpp | 38 ++++++++++-----------
 1 file changed, 19 insertions(+), 19 deletions(-)

diff --git a/HeuristicFlow/src/Genetic/SOGASelecters.hpp b/HeuristicFlow/src/Genetic/SOGASelecters.hpp
index 73a778c..75b1054 100644
--- a/HeuristicFlow/src/Genetic/SOGASelecters.hpp
+++ b/HeuristicFlow/src/Genetic/SOGASelecters.hpp
@@ -913,37 +913,37 @@ class SOGASelector<SelectMethod::EliteReserved> {
       }
     }
 
-    double rMax = 0;
-
     keepDifferencesFinite(&eliminateSpace, &minFitness);
     for (auto& pair : eliminateSpace) {
       pair.second -= minFitness;
-      rMax += pair.second;
     }
 
-    if (rMax <= 0) {  //  erase randomly
-      while (int(eliminateSpace.size()) > eliminateNum) {
+    while (int(eliminateSpace.size()) > eliminateNum) {
+      // Summed up again for each draw, or nothing but rounding error is left once an outlier is taken
+      double rMax = 0;
+      for (auto& pair : eliminateSpace) {
+        rMax += pair.second;
+      }
+
+      if (rMax <= 0) {  //  erase randomly
         auto it = eliminateSpace.begin();
         std::advance(it, randIdx(int(eliminateSpace.size())));
         eliminateSpace.erase(it);
+        continue;
       }
-    } else {
-      while (int(eliminateSpace.size()) > eliminateNum) {
-        double r = randD(0, rMax);
 
-        for (auto it = eliminateSpace.begin(); it != eliminateSpace.end(); ++it) {
-          r -= it->second;
-          if (r <= 0) {
-            rMax -= it->second;
-            eliminateSpace.erase(it);
-            break;
-          }
-        }
-        if (r > 0) {  //  unlikely
-          rMax -= eliminateSpace.back().second;
-          eliminateSpace.pop_back();
+      double r = randD(0, rMax);
+
+      for (auto it = eliminateSpace.begin(); it != eliminateSpace.end(); ++it) {
+        r -= it->second;
+        if (r <= 0) {
+          eliminateSpace.erase(it);
+          break;
         }
       }
+      if (r > 0) {  //  unlikely
+        eliminateSpace.pop_back();
+      }
     }
 
     // cached because the previous best gene may be eliminated
-- 
2.43.0


From 5f2413aa3bad6c1755ca2b1219ba1ebd33e9fd4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:34 +0000
Subject: [PATCH 87/90] fix: probability selection follows its probabilities in
 large populations too

---
 HeuristicFlow/src/Genetic/SOGASelecters.hpp | 31 +++++++++++++--------
 1 file changed, 19 insertions(+), 12 deletions(-)

diff --git a/HeuristicFlow/src/Genetic/SOGASelecters.hpp b/HeuristicFlow/src/Genetic/SOGASelecters.hpp
index 75b1054..c3c1adc 100644
--- a/HeuristicFlow/src/Genetic/SOGASelecters.hpp
+++ b/HeuristicFlow/src/Genetic/SOGASelecters.hpp
@@ -436,31 +436,38 @@ class SOGASelector<SelectMethod::Probability> {
       }
     }
 
-    constexpr double NChooseK = 1e100;
-    // const double NChooseK = ::heu::NchooseK<double>(prevPopSize, K);
-    //  assert(!std::isnan(NChooseK));
-
-    double newProbSum = 0;
+    // The powers underflow to 0 in larger populations, thus their logarithm is used
     for (auto& pair : eliminateSpace) {
-      pair.second =
-          NChooseK * std::pow(pair.second, K) * std::pow(1.0 - pair.second, prevPopSize - K);
-      newProbSum += pair.second;
+      pair.second = K * std::log(pair.second) + (prevPopSize - K) * std::log1p(-pair.second);
     }
 
-    // assert(false);
     while (int(eliminateSpace.size()) > eliminateNum) {
+      // Taken relative to the greatest one left, and summed up again for each draw, or nothing but
+      // rounding error is left once the greatest are taken.
+      double maxLog = ninfD;
+      for (auto& pair : eliminateSpace) {
+        maxLog = std::max(maxLog, pair.second);
+      }
+      // if nobody left has a chance, all have the same one
+      const auto weight = [maxLog](const double logProb) {
+        return (maxLog == ninfD) ? 1.0 : std::exp(logProb - maxLog);
+      };
+
+      double newProbSum = 0;
+      for (auto& pair : eliminateSpace) {
+        newProbSum += weight(pair.second);
+      }
+
       double r = randD(0.0, newProbSum);
       for (auto it = eliminateSpace.begin(); it != eliminateSpace.end(); ++it) {
-        r -= it->second;
+        r -= weight(it->second);
         if (r <= 0) {
-          newProbSum -= it->second;
           eliminateSpace.erase(it);
           break;
         }
       }
 
       if (r > 0) {
-        newProbSum -= eliminateSpace.back().second;
         eliminateSpace.pop_back();
       }
     }
-- 
2.43.0


From 69fbc81b2b86a937dc7f6f40c6409f973ae05197 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:29 +0000
Subject: [PATCH 88/90] fix: stochastic universal selection no longer favours
 the neighbors of an outlier

---
 HeuristicFlow/src/Genetic/SOGASelecters.hpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/HeuristicFlow/src/Genetic/SOGASelecters.hpp b/HeuristicFlow/src/Genetic/SOGASelecters.hpp
index c3c1adc..3ac16db 100644
--- a/HeuristicFlow/src/Genetic/SOGASelecters.hpp
+++ b/HeuristicFlow/src/Genetic/SOGASelecters.hpp
@@ -787,8 +787,17 @@ class SOGASelector<SelectMethod::StochasticUniversal> {
 
     double minFitness = pinfD;
 
+    // Pave the candidates in random order: a candidate wider than the interval leaves pointers over
+    // for its neighbors, and who they are mustn't depend on the order of population
+    std::vector<GeneIt_t> candidates(0);
+    candidates.reserve(popSizeBeforeSelect);
     for (GeneIt_t it = static_cast<this_t*>(this)->_population.begin();
          it != static_cast<this_t*>(this)->_population.end(); ++it) {
+      candidates.emplace_back(it);
+    }
+    std::shuffle(candidates.begin(), candidates.end(), global_mt19937());
+
+    for (const GeneIt_t& it : candidates) {
       // If fitness option is FITNESS_LESS_BETTER, take the inverse value
       if constexpr (this_t::FitnessOpt == FitnessOption::FITNESS_GREATER_BETTER) {
         eliminateSpace.emplace_back(std::make_pair(it, it->fitness));
-- 
2.43.0


From e4a1f32018a284156821c8e052ca28bbe9c75997 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:24:32 +0000
Subject: [PATCH 89/90] fix: parallel loops use the number of threads set with
 setThreadNum

The number only influenced the chunk size, and only as it was when the
first loop ran.
---
 HeuristicFlow/src/AOS/AOSBoxed.hpp     | 5 +++--
 HeuristicFlow/src/Genetic/GABase.hpp   | 5 +++--
 HeuristicFlow/src/Genetic/NSGABase.hpp | 5 +++--
 HeuristicFlow/src/PSO/PSO4Eigen.hpp    | 5 +++--
 HeuristicFlow/src/PSO/PSO4std.hpp      | 5 +++--
 HeuristicFlow/src/PSO/PSOAbstrcat.hpp  | 5 +++--
 6 files changed, 18 insertions(+), 12 deletions(-)

diff --git a/HeuristicFlow/src/AOS/AOSBoxed.hpp b/HeuristicFlow/src/AOS/AOSBoxed.hpp
index a4fe1bb..2873be8 100644
--- a/HeuristicFlow/src/AOS/AOSBoxed.hpp
+++ b/HeuristicFlow/src/AOS/AOSBoxed.hpp
@@ -108,8 +108,9 @@ class AOSBoxed : public AOSParameterPack<Var_t, Fitness_t, Arg_t>,
       }
       tasks.emplace_back(&i);
     }
-    static const int32_t thN = threadNum();
-#pragma omp parallel for schedule(dynamic, std::max<int64_t>(1, tasks.size() / thN))
+    const int32_t thN = std::min(threadNum(), omp_get_max_threads());
+#pragma omp parallel for num_threads(thN) \
+    schedule(dynamic, std::max<int64_t>(1, tasks.size() / thN))
     for (int i = 0; i < tasks.size(); i++) {
       Electron_t* ptr = tasks[i];
 
diff --git a/HeuristicFlow/src/Genetic/GABase.hpp b/HeuristicFlow/src/Genetic/GABase.hpp
index 23fa11e..c7f4c7c 100644
--- a/HeuristicFlow/src/Genetic/GABase.hpp
+++ b/HeuristicFlow/src/Genetic/GABase.hpp
@@ -221,8 +221,9 @@ class GABase : public GAAbstract<Var_t, Fitness_t, Args_t>,
       }
       tasks.emplace_back(&i);
     }
-    static const int32_t thN = threadNum();
-#pragma omp parallel for schedule(dynamic, std::max<int64_t>(1, tasks.size() / thN))
+    const int32_t thN = std::min(threadNum(), omp_get_max_threads());
+#pragma omp parallel for num_threads(thN) \
+    schedule(dynamic, std::max<int64_t>(1, tasks.size() / thN))
     for (int i = 0; i < int(tasks.size()); i++) {
       Gene *ptr = tasks[i];
 
diff --git a/HeuristicFlow/src/Genetic/NSGABase.hpp b/HeuristicFlow/src/Genetic/NSGABase.hpp
index f5c0e5d..b849fcc 100644
--- a/HeuristicFlow/src/Genetic/NSGABase.hpp
+++ b/HeuristicFlow/src/Genetic/NSGABase.hpp
@@ -105,8 +105,9 @@ class NSGABase
   void calculateDominatedNum() noexcept {
     const size_t popSizeBefore = sortSpace.size();
 #ifdef HEU_HAS_OPENMP
-    static const int32_t thN = threadNum();
-#pragma omp parallel for schedule(dynamic, std::max<int64_t>(1, popSizeBefore / thN))
+    const int32_t thN = std::min(threadNum(), omp_get_max_threads());
+#pragma omp parallel for num_threads(thN) \
+    schedule(dynamic, std::max<int64_t>(1, popSizeBefore / thN))
     for (int ed = 0; ed < popSizeBefore; ed++) {
       sortSpace[ed]->dominated_by_num = 0;
       for (size_t er = 0; er < popSizeBefore; er++) {
diff --git a/HeuristicFlow/src/PSO/PSO4Eigen.hpp b/HeuristicFlow/src/PSO/PSO4Eigen.hpp
index 9585991..3a66671 100644
--- a/HeuristicFlow/src/PSO/PSO4Eigen.hpp
+++ b/HeuristicFlow/src/PSO/PSO4Eigen.hpp
@@ -91,8 +91,9 @@ class PSO4Eigen
       r.second = randD();
     }
 #ifdef HEU_HAS_OPENMP
-    static const int32_t thN = threadNum();
-#pragma omp parallel for schedule(dynamic, std::max<int64_t>(1, this->_population.size() / thN))
+    const int32_t thN = std::min(threadNum(), omp_get_max_threads());
+#pragma omp parallel for num_threads(thN) \
+    schedule(dynamic, std::max<int64_t>(1, this->_population.size() / thN))
 #endif  //  HEU_HAS_OPENMP
     for (int idx = 0; idx < (int)this->_population.size(); idx++) {
       Particle_t& i = this->_population[idx];
diff --git a/HeuristicFlow/src/PSO/PSO4std.hpp b/HeuristicFlow/src/PSO/PSO4std.hpp
index 2f19ae2..efc9150 100644
--- a/HeuristicFlow/src/PSO/PSO4std.hpp
+++ b/HeuristicFlow/src/PSO/PSO4std.hpp
@@ -100,8 +100,9 @@ class PSO4std : public internal::PSOAbstract<Var_t, double, RecordOpt, Arg_t, BS
       r.second = randD();
     }
 #ifdef HEU_HAS_OPENMP
-    static const int32_t thN = threadNum();
-#pragma omp parallel for schedule(dynamic, std::max<int64_t>(1, this->_population.size() / thN))
+    const int32_t thN = std::min(threadNum(), omp_get_max_threads());
+#pragma omp parallel for num_threads(thN) \
+    schedule(dynamic, std::max<int64_t>(1, this->_population.size() / thN))
 #endif  //  HEU_HAS_OPENMP
     for (int index = 0; index < this->_population.size(); index++) {
       Particle_t& i = this->_population[index];
diff --git a/HeuristicFlow/src/PSO/PSOAbstrcat.hpp b/HeuristicFlow/src/PSO/PSOAbstrcat.hpp
index 74ce15d..2889386 100644
--- a/HeuristicFlow/src/PSO/PSOAbstrcat.hpp
+++ b/HeuristicFlow/src/PSO/PSOAbstrcat.hpp
@@ -286,8 +286,9 @@ Var_t _velocityMax;
    */
   void __impl_computeAllFitness() noexcept {
 #ifdef HEU_HAS_OPENMP
-    static const int32_t thN = threadNum();
-#pragma omp parallel for schedule(dynamic, std::max<int64_t>(1, _population.size() / thN))
+    const int32_t thN = std::min(threadNum(), omp_get_max_threads());
+#pragma omp parallel for num_threads(thN) \
+    schedule(dynamic, std::max<int64_t>(1, _population.size() / thN))
     for (int i = 0; i < _population.size(); i++) {
       Particle* ptr = &_population[i];
       PSOExecutor<Base_t::HasParameters>::doFitness(this, &ptr->position, &ptr->fitness);
-- 
2.43.0


From 06e169db3944ed24ab1c450e7272ffe889c92a14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:24:32 +0000
Subject: [PATCH 90/90] fix: the default number of threads is 1 when the number
 of processors is unknown

std::thread::hardware_concurrency() may return 0, by which the parallel
loops divided.
---
 HeuristicFlow/src/Global/Threading.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/HeuristicFlow/src/Global/Threading.hpp b/HeuristicFlow/src/Global/Threading.hpp
index 8919a42..e9a956a 100644
--- a/HeuristicFlow/src/Global/Threading.hpp
+++ b/HeuristicFlow/src/Global/Threading.hpp
@@ -24,6 +24,7 @@ This file is part of HeuristicFlow.
 #include <omp.h>
 #endif  //  EIGEN_HAS_OPENMP
 
+#include <algorithm>
 #include <thread>
 
 #include <assert.h>
@@ -44,7 +45,7 @@ class thNumWrapper {
   friend int ::heu::threadNum() noexcept;
   friend void ::heu::setThreadNum(int) noexcept;
   static inline int& internalThreadNum() noexcept {
-    static int thNum = std::thread::hardware_concurrency();
+    static int thNum = std::max<int>(1, std::thread::hardware_concurrency());
     return thNum;
   }
 };
-- 
2.43.0

