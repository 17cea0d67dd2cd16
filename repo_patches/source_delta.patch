From a2187a8f298939bda4255336a531b3cb7f6f0674 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:50 +0000
Subject: [PATCH 01/33] fix: permute rejects duplicate and negative indices
 before touching the container

A permutation with a repeated index looped forever or silently duplicated
elements, and an out-of-range index was only noticed after part of the
container had been permuted.
---
 .../include/aslam/calibration/algorithms/permute.tpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/incremental_calibration/include/aslam/calibration/algorithms/permute.tpp b/incremental_calibration/include/aslam/calibration/algorithms/permute.tpp
index b9b0c9a..af5fa12 100644
--- a/incremental_calibration/include/aslam/calibration/algorithms/permute.tpp
+++ b/incremental_calibration/include/aslam/calibration/algorithms/permute.tpp
@@ -20,11 +20,21 @@ namespace aslam {
         throw OutOfBoundException<I>(permutation.size(), container.size(),
           "permutation vector must match container size",
           __FILE__, __LINE__, __PRETTY_FUNCTION__);
+      // check the whole permutation before touching the container
+      std::vector<bool> seen(container.size(), false);
       for (I i = 0; i < container.size(); ++i) {
-        if (permutation[i] >= static_cast<I>(container.size()))
+        if (permutation[i] < static_cast<I>(0) ||
+            permutation[i] >= static_cast<I>(container.size()))
           throw OutOfBoundException<I>(permutation[i], static_cast<I>(
             container.size()), "permutation vector index out of bound",
             __FILE__, __LINE__, __PRETTY_FUNCTION__);
+        if (seen[permutation[i]])
+          throw OutOfBoundException<I>(permutation[i],
+            "permutation vector contains duplicate index",
+            __FILE__, __LINE__, __PRETTY_FUNCTION__);
+        seen[permutation[i]] = true;
+      }
+      for (I i = 0; i < container.size(); ++i) {
         I k = permutation[i];
         while (k < i)
           k = permutation[k];
-- 
2.43.0


From f6c2c7f5704ef2a04b3d917b8d22ec4c6481fcce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:55 +0000
Subject: [PATCH 02/33] fix: keep a transformation's rotation and translation
 in step with its matrix

The inverse of a transformation built from (or set to) a matrix read
uninitialised members, and the inverse of an inverse was not the original.
---
 .../include/aslam/calibration/geometry/Transformation2d.tpp | 6 ++++++
 .../include/aslam/calibration/geometry/Transformation3d.tpp | 6 ++++++
 2 files changed, 12 insertions(+)

diff --git a/incremental_calibration/include/aslam/calibration/geometry/Transformation2d.tpp b/incremental_calibration/include/aslam/calibration/geometry/Transformation2d.tpp
index 656ff1e..a948a3a 100644
--- a/incremental_calibration/include/aslam/calibration/geometry/Transformation2d.tpp
+++ b/incremental_calibration/include/aslam/calibration/geometry/Transformation2d.tpp
@@ -20,6 +20,7 @@ namespace aslam {
     Transformation<T, 2>::Transformation(const Eigen::Matrix<double, 3, 3>&
         transformationMatrix) :
         mTransformationMatrix(transformationMatrix) {
+      setTransformationMatrix(transformationMatrix);
     }
 
     template <typename T>
@@ -78,6 +79,10 @@ namespace aslam {
     void Transformation<T, 2>::setTransformationMatrix(const
         Eigen::Matrix<double, 3, 3>& transformationMatrix) {
       mTransformationMatrix = transformationMatrix;
+      mRotationMatrix = transformationMatrix;
+      mRotationMatrix.col(2) = Eigen::Matrix<double, 3, 1>::Unit(2);
+      mTranslationMatrix.setIdentity();
+      mTranslationMatrix.col(2) = transformationMatrix.col(2);
     }
 
     template <typename T>
@@ -140,6 +145,7 @@ namespace aslam {
       mTranslationMatrix(0, 2) = -mTranslationMatrix(0, 2);
       mTranslationMatrix(1, 2) = -mTranslationMatrix(1, 2);
       mTransformationMatrix = mRotationMatrix * mTranslationMatrix;
+      mTranslationMatrix.col(2) = mTransformationMatrix.col(2);
       return *this;
     }
 
diff --git a/incremental_calibration/include/aslam/calibration/geometry/Transformation3d.tpp b/incremental_calibration/include/aslam/calibration/geometry/Transformation3d.tpp
index 9dd2dc7..07b264b 100644
--- a/incremental_calibration/include/aslam/calibration/geometry/Transformation3d.tpp
+++ b/incremental_calibration/include/aslam/calibration/geometry/Transformation3d.tpp
@@ -18,6 +18,7 @@ namespace aslam {
     Transformation<T, 3>::Transformation(const Eigen::Matrix<double, 4, 4>&
         transformationMatrix) :
         mTransformationMatrix(transformationMatrix) {
+      setTransformationMatrix(transformationMatrix);
     }
 
     template <typename T>
@@ -77,6 +78,10 @@ namespace aslam {
     void Transformation<T, 3>::setTransformationMatrix(const
         Eigen::Matrix<double, 4, 4>& transformationMatrix) {
       mTransformationMatrix = transformationMatrix;
+      mRotationMatrix = transformationMatrix;
+      mRotationMatrix.col(3) = Eigen::Matrix<double, 4, 1>::Unit(3);
+      mTranslationMatrix.setIdentity();
+      mTranslationMatrix.col(3) = transformationMatrix.col(3);
     }
 
     template <typename T>
@@ -145,6 +150,7 @@ namespace aslam {
       mTranslationMatrix(1, 3) = -mTranslationMatrix(1, 3);
       mTranslationMatrix(2, 3) = -mTranslationMatrix(2, 3);
       mTransformationMatrix = mRotationMatrix * mTranslationMatrix;
+      mTranslationMatrix.col(3) = mTransformationMatrix.col(3);
       return *this;
     }
 
-- 
2.43.0


From fb5869aa9ca1b1edd1866b86e1025c510e82dc8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:21 +0000
Subject: [PATCH 03/33] fix: Grid rejects negative indices and never rounds a
 point out of the grid

isValidIndex accepted negative components, and the index of a point just below
the maximum could round up to the number of cells.
---
 .../include/aslam/calibration/data-structures/Grid.tpp   | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/incremental_calibration/include/aslam/calibration/data-structures/Grid.tpp b/incremental_calibration/include/aslam/calibration/data-structures/Grid.tpp
index 884ac16..9cbfe79 100644
--- a/incremental_calibration/include/aslam/calibration/data-structures/Grid.tpp
+++ b/incremental_calibration/include/aslam/calibration/data-structures/Grid.tpp
@@ -177,8 +177,12 @@ namespace aslam {
       for (size_t i = 0; i < static_cast<size_t>(point.size()); ++i)
         if (point(i) == mMaximum(i))
           idx(i) = mNumCells(i) - 1;
-        else
+        else {
           idx(i) = (point(i) - mMinimum(i)) / mResolution(i);
+          // the division may round up to the number of cells
+          if (idx(i) >= mNumCells(i))
+            idx(i) = mNumCells(i) - 1;
+        }
       return idx;
     }
 
@@ -213,7 +217,8 @@ namespace aslam {
 
     template <typename T, typename C, int M>
     bool Grid<T, C, M>::isValidIndex(const Index& idx) const {
-      return ((idx.array() < mNumCells.array()).all());
+      return ((idx.array() >= 0).all() &&
+        (idx.array() < mNumCells.array()).all());
     }
 
     template <typename T, typename C, int M>
-- 
2.43.0


From f23cf7fe7271a09f36c4323d6b73df2ff02b081f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:32 +0000
Subject: [PATCH 04/33] fix: a batch rejected by
 IncrementalOptimizationProblem::add leaves the problem unchanged

---
 .../core/IncrementalOptimizationProblem.cpp   | 33 ++++++++++---------
 1 file changed, 18 insertions(+), 15 deletions(-)

diff --git a/incremental_calibration/src/core/IncrementalOptimizationProblem.cpp b/incremental_calibration/src/core/IncrementalOptimizationProblem.cpp
index 114858a..2ef29a8 100644
--- a/incremental_calibration/src/core/IncrementalOptimizationProblem.cpp
+++ b/incremental_calibration/src/core/IncrementalOptimizationProblem.cpp
@@ -175,8 +175,24 @@ namespace aslam {
       if (!problem)
         throw NullPointerException("problem", __FILE__, __LINE__,
           __PRETTY_FUNCTION__);
-      // update design variable counts, grouping, and storing
+      // check the design variables and error terms before changing anything
       const size_t numDV = problem->numDesignVariables();
+      for (size_t i = 0; i < numDV; ++i) {
+        const DesignVariable* dv = problem->designVariable(i);
+        if (isDesignVariableInProblem(dv) &&
+            getGroupId(dv) != problem->getGroupId(dv))
+          throw InvalidOperationException("group mismatch", __FILE__,
+            __LINE__, __PRETTY_FUNCTION__);
+      }
+      const size_t numET = problem->numErrorTerms();
+      for (size_t i = 0; i < numET; ++i) {
+        const ErrorTerm* et = problem->errorTerm(i);
+        if (isErrorTermInProblem(et))
+          throw InvalidOperationException("error term already in the problem",
+            __FILE__, __LINE__, __PRETTY_FUNCTION__);
+      }
+
+      // update design variable counts, grouping, and storing
       _designVariablesCounts.reserve(_designVariablesCounts.size() + numDV);
       for (size_t i = 0; i < numDV; ++i) {
         const DesignVariable* dv = problem->designVariable(i);
@@ -188,21 +204,8 @@ namespace aslam {
             std::make_pair(1, groupId)));
           _designVariables[groupId].push_back(dv);
         }
-        else {
-          if (getGroupId(dv) != groupId)
-            throw InvalidOperationException("group mismatch", __FILE__,
-              __LINE__, __PRETTY_FUNCTION__);
+        else
           _designVariablesCounts[dv].first++;
-        }
-      }
-
-      // keep trace of the error terms of this problem
-      const size_t numET = problem->numErrorTerms();
-      for (size_t i = 0; i < numET; ++i) {
-        const ErrorTerm* et = problem->errorTerm(i);
-        if (isErrorTermInProblem(et))
-          throw InvalidOperationException("error term already in the problem",
-            __FILE__, __LINE__, __PRETTY_FUNCTION__);
       }
 
       // insert the problem
-- 
2.43.0


From d047c3d71f97ea53183cbcbb0ff8dd12acb70640 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:32 +0000
Subject: [PATCH 05/33] fix: clearing an incremental problem also drops the
 saved design variables

---
 .../src/core/IncrementalOptimizationProblem.cpp                  | 1 +
 1 file changed, 1 insertion(+)

diff --git a/incremental_calibration/src/core/IncrementalOptimizationProblem.cpp b/incremental_calibration/src/core/IncrementalOptimizationProblem.cpp
index 2ef29a8..f41a2c1 100644
--- a/incremental_calibration/src/core/IncrementalOptimizationProblem.cpp
+++ b/incremental_calibration/src/core/IncrementalOptimizationProblem.cpp
@@ -260,6 +260,7 @@ namespace aslam {
       _designVariablesCounts.clear();
       _designVariables.clear();
       _groupsOrdering.clear();
+      _designVariablesBackup.clear();
     }
 
     size_t IncrementalOptimizationProblem::
-- 
2.43.0


From cee763733356c7526929aae5fe7b48a853a6131b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:17 +0000
Subject: [PATCH 06/33] fix: a batch without the marginalized group is not left
 in the estimator

---
 incremental_calibration/src/core/IncrementalEstimator.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/incremental_calibration/src/core/IncrementalEstimator.cpp b/incremental_calibration/src/core/IncrementalEstimator.cpp
index fc677f8..7fcf369 100644
--- a/incremental_calibration/src/core/IncrementalEstimator.cpp
+++ b/incremental_calibration/src/core/IncrementalEstimator.cpp
@@ -325,7 +325,13 @@ namespace aslam {
       _problem->add(problem);
 
       // ensure marginalized design variables are well located
-      orderMarginalizedDesignVariables();
+      try {
+        orderMarginalizedDesignVariables();
+      }
+      catch (...) {
+        _problem->remove(problem);
+        throw;
+      }
 
       // save design variables in case the batch is rejected
       if (!force)
-- 
2.43.0


From 2c9c9df735ce791b295cbe1ef473d86f577f6229 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:23 +0000
Subject: [PATCH 07/33] fix: uniform distribution mean, median and covariance

---
 .../statistics/UniformDistribution1v.tpp      |  4 +--
 .../statistics/UniformDistributionMv.tpp      | 30 +++++++++++--------
 2 files changed, 20 insertions(+), 14 deletions(-)

diff --git a/incremental_calibration/include/aslam/calibration/statistics/UniformDistribution1v.tpp b/incremental_calibration/include/aslam/calibration/statistics/UniformDistribution1v.tpp
index 2b012da..48d1b0a 100644
--- a/incremental_calibration/include/aslam/calibration/statistics/UniformDistribution1v.tpp
+++ b/incremental_calibration/include/aslam/calibration/statistics/UniformDistribution1v.tpp
@@ -136,13 +136,13 @@ namespace aslam {
     template <typename X>
     typename UniformDistribution<X>::Mean UniformDistribution<X>::getMean()
         const {
-      return 0.5 * (mMaxSupport - mMinSupport);
+      return 0.5 * mMinSupport + 0.5 * mMaxSupport;
     }
 
     template <typename X>
     typename UniformDistribution<X>::Median UniformDistribution<X>::getMedian()
         const {
-      return 0.5 * (mMaxSupport - mMinSupport);
+      return 0.5 * mMinSupport + 0.5 * mMaxSupport;
     }
 
     template <typename X>
diff --git a/incremental_calibration/include/aslam/calibration/statistics/UniformDistributionMv.tpp b/incremental_calibration/include/aslam/calibration/statistics/UniformDistributionMv.tpp
index bc385a6..75584e1 100644
--- a/incremental_calibration/include/aslam/calibration/statistics/UniformDistributionMv.tpp
+++ b/incremental_calibration/include/aslam/calibration/statistics/UniformDistributionMv.tpp
@@ -141,7 +141,8 @@ namespace aslam {
     template <typename X, int M>
     typename UniformDistribution<X, M>::Mean
         UniformDistribution<X, M>::getMean() const {
-      return 0.5 * (mMaxSupport - mMinSupport).template cast<double>();
+      return 0.5 * (mMinSupport.template cast<double>() +
+        mMaxSupport.template cast<double>());
     }
 
     template <typename X, int M>
@@ -154,7 +155,8 @@ namespace aslam {
     template <typename X, int M>
     typename UniformDistribution<X, M>::Median
         UniformDistribution<X, M>::getMedian() const {
-      return 0.5 * (mMaxSupport - mMinSupport).template cast<double>();
+      return 0.5 * (mMinSupport.template cast<double>() +
+        mMaxSupport.template cast<double>());
     }
 
     template <typename X, int M>
@@ -191,12 +193,14 @@ namespace aslam {
     UniformDistribution<X, M>::Traits::getCovariance(
         const Eigen::Matrix<Z, M, 1>& minSupport,
         const Eigen::Matrix<Z, M, 1>& maxSupport) {
-      const Eigen::Matrix<double, M, M> covariance =
-        Eigen::Matrix<double, M, M>::Identity(minSupport.size(),
+      Eigen::Matrix<double, M, M> covariance =
+        Eigen::Matrix<double, M, M>::Zero(minSupport.size(),
         minSupport.size());
-      const double supportArea =
-        Traits::template getSupportArea<Z, true>(minSupport, maxSupport);
-      return (supportArea * supportArea) / 12.0 * covariance;
+      for (size_t i = 0; i < (size_t)minSupport.size(); ++i) {
+        const double width = maxSupport(i) - minSupport(i);
+        covariance(i, i) = (width * width) / 12.0;
+      }
+      return covariance;
     }
 
     template <typename X, int M>
@@ -205,12 +209,14 @@ namespace aslam {
     UniformDistribution<X, M>::Traits::getCovariance(
         const Eigen::Matrix<Z, M, 1>& minSupport,
         const Eigen::Matrix<Z, M, 1>& maxSupport) {
-      const Eigen::Matrix<double, M, M> covariance =
-        Eigen::Matrix<double, M, M>::Identity(minSupport.size(),
+      Eigen::Matrix<double, M, M> covariance =
+        Eigen::Matrix<double, M, M>::Zero(minSupport.size(),
         minSupport.size());
-      const double supportArea =
-        Traits::template getSupportArea<Z, true>(minSupport, maxSupport);
-      return (supportArea * supportArea - 1.0) / 12.0 * covariance;
+      for (size_t i = 0; i < (size_t)minSupport.size(); ++i) {
+        const double width = maxSupport(i) - minSupport(i) + 1;
+        covariance(i, i) = (width * width - 1.0) / 12.0;
+      }
+      return covariance;
     }
 
   }
-- 
2.43.0


From c30d8a18b1af766374d341bd868de7f37f431bd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:28 +0000
Subject: [PATCH 08/33] fix: centre of an integer grid cell with negative
 coordinates

---
 .../include/aslam/calibration/data-structures/Grid.tpp         | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/incremental_calibration/include/aslam/calibration/data-structures/Grid.tpp b/incremental_calibration/include/aslam/calibration/data-structures/Grid.tpp
index 9cbfe79..1537665 100644
--- a/incremental_calibration/include/aslam/calibration/data-structures/Grid.tpp
+++ b/incremental_calibration/include/aslam/calibration/data-structures/Grid.tpp
@@ -205,7 +205,8 @@ namespace aslam {
           __FILE__, __LINE__);
       Coordinate point(idx.size());
       for (size_t i = 0; i < static_cast<size_t>(idx.size()); ++i)
-        point[i] = mMinimum(i) + (idx(i) + 0.5) * mResolution(i);
+        point[i] = mMinimum(i) +
+          static_cast<T>((idx(i) + 0.5) * mResolution(i));
       return point;
     }
 
-- 
2.43.0


From c7e9d6fe17a646ec59353dd2835ea74cedfe1c63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:30 +0000
Subject: [PATCH 09/33] fix: histogram statistics do not compile

---
 .../include/aslam/calibration/statistics/Histogram1v.tpp  | 8 ++++----
 .../include/aslam/calibration/statistics/HistogramMv.tpp  | 8 ++++----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/incremental_calibration/include/aslam/calibration/statistics/Histogram1v.tpp b/incremental_calibration/include/aslam/calibration/statistics/Histogram1v.tpp
index 9dfa792..bf3373c 100644
--- a/incremental_calibration/include/aslam/calibration/statistics/Histogram1v.tpp
+++ b/incremental_calibration/include/aslam/calibration/statistics/Histogram1v.tpp
@@ -44,7 +44,7 @@ namespace aslam {
     double Histogram<T, 1>::getMean() const {
       double mean = 0;
       for (Index i = Index::Zero(this->mNumCells.size()); i != this->mNumCells;
-          incrementIndex(i))
+          this->incrementIndex(i))
         mean += this->getCoordinates(i)(0) * this->getCell(i);
       return mean / getSum();
     }
@@ -54,7 +54,7 @@ namespace aslam {
       const double sum = getSum();
       double currentSum = 0;
       for (Index i = Index::Zero(this->mNumCells.size()); i != this->mNumCells;
-          incrementIndex(i)) {
+          this->incrementIndex(i)) {
         currentSum += this->getCell(i);
         if (currentSum >= sum * 0.5)
           return this->getCoordinates(i)(0);
@@ -67,7 +67,7 @@ namespace aslam {
       double max = -std::numeric_limits<double>::infinity();
       Index modeIdx;
       for (Index i = Index::Zero(this->mNumCells.size()); i != this->mNumCells;
-          incrementIndex(i)) {
+          this->incrementIndex(i)) {
         if (this->getCell(i) > max) {
           max = this->getCell(i);
           modeIdx = i;
@@ -81,7 +81,7 @@ namespace aslam {
       double variance = 0;
       const double mean = getMean();
       for (Index i = Index::Zero(this->mNumCells.size()); i != this->mNumCells;
-          incrementIndex(i))
+          this->incrementIndex(i))
         variance += (this->getCoordinates(i)(0) - mean) *
           (this->getCoordinates(i)(0) - mean) * this->getCell(i);
       return variance / (getSum() - 1);
diff --git a/incremental_calibration/include/aslam/calibration/statistics/HistogramMv.tpp b/incremental_calibration/include/aslam/calibration/statistics/HistogramMv.tpp
index 8ba7b46..3c34abc 100644
--- a/incremental_calibration/include/aslam/calibration/statistics/HistogramMv.tpp
+++ b/incremental_calibration/include/aslam/calibration/statistics/HistogramMv.tpp
@@ -43,7 +43,7 @@ namespace aslam {
     typename Histogram<T, M>::Mean Histogram<T, M>::getMean() const {
       Mean mean = Mean::Zero(this->mNumCells.size());
       for (Index i = Index::Zero(this->mNumCells.size()); i != this->mNumCells;
-          incrementIndex(i))
+          this->incrementIndex(i))
         mean += this->getCoordinates(i).template cast<double>() *
           this->getCell(i);
       return mean / getSum();
@@ -54,13 +54,13 @@ namespace aslam {
       double max = -std::numeric_limits<double>::infinity();
       Index modeIdx;
       for (Index i = Index::Zero(this->mNumCells.size()); i != this->mNumCells;
-          incrementIndex(i)) {
+          this->incrementIndex(i)) {
         if (this->getCell(i) > max) {
           max = this->getCell(i);
           modeIdx = i;
         }
       }
-      return this->getCoordinates(modeIdx);
+      return this->getCoordinates(modeIdx).template cast<double>();
     }
 
     template <typename T, int M>
@@ -70,7 +70,7 @@ namespace aslam {
         this->mNumCells.size());
       const Mean mean = getMean();
       for (Index i = Index::Zero(this->mNumCells.size()); i != this->mNumCells;
-          incrementIndex(i))
+          this->incrementIndex(i))
         covariance += (this->getCoordinates(i).template cast<double>() - mean) *
           (this->getCoordinates(i).template cast<double>() - mean).transpose() *
           this->getCell(i);
-- 
2.43.0


From 17a0218133ef0ba2e8d643f4253ff37d3dfcae28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:21 +0000
Subject: [PATCH 10/33] fix: normal distribution accepted singular covariances
 and kept the factor of rejected ones

---
 .../aslam/calibration/statistics/NormalDistributionMv.tpp   | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/incremental_calibration/include/aslam/calibration/statistics/NormalDistributionMv.tpp b/incremental_calibration/include/aslam/calibration/statistics/NormalDistributionMv.tpp
index ae7b7c9..2c243a6 100644
--- a/incremental_calibration/include/aslam/calibration/statistics/NormalDistributionMv.tpp
+++ b/incremental_calibration/include/aslam/calibration/statistics/NormalDistributionMv.tpp
@@ -101,8 +101,9 @@ namespace aslam {
           "NormalDistribution<M>::setCovariance(): "
           "covariance must be symmetric",
           __FILE__, __LINE__);
-      mTransformation = Eigen::LLT<Covariance>(covariance);
-      if (!Eigen::LDLT<Covariance>(covariance).isPositive())
+      const Eigen::LLT<Covariance> transformation(covariance);
+      if (transformation.info() != Eigen::Success ||
+          !Eigen::LDLT<Covariance>(covariance).isPositive())
         throw BadArgumentException<Covariance>(covariance,
           "NormalDistribution<M>::setCovariance(): covariance must be positive "
           "definite",
@@ -116,6 +117,7 @@ namespace aslam {
       mNormalizer = 0.5 * mMean.size() * log(2.0 * M_PI) + 0.5 *
         log(mDeterminant);
       mCovariance = covariance;
+      mTransformation = transformation;
     }
 
     template <int M>
-- 
2.43.0


From a187094a0927ad4fed533c84fa749c39e43a2bee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:23 +0000
Subject: [PATCH 11/33] fix: divergence of gamma distributions used the digamma
 function of the other shape

---
 .../include/aslam/calibration/statistics/GammaDistribution.tpp  | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/incremental_calibration/include/aslam/calibration/statistics/GammaDistribution.tpp b/incremental_calibration/include/aslam/calibration/statistics/GammaDistribution.tpp
index ff1e8a9..af36136 100644
--- a/incremental_calibration/include/aslam/calibration/statistics/GammaDistribution.tpp
+++ b/incremental_calibration/include/aslam/calibration/statistics/GammaDistribution.tpp
@@ -184,7 +184,7 @@ namespace aslam {
       LogGammaFunction<T> logGammaFunction;
       const DigammaFunction<T> digammaFunction;
       return (mShape - 1) * digammaFunction(mShape) -
-        (other.mShape - 1) * digammaFunction(other.mShape) -
+        (other.mShape - 1) * digammaFunction(mShape) -
         logGammaFunction(mShape) +
         logGammaFunction(other.mShape) + other.mShape *
         (log(mInvScale) - log(other.mInvScale)) +
-- 
2.43.0


From 360fdf082dad9bb2eaa3a4c441c0df09a5ff8aeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:23 +0000
Subject: [PATCH 12/33] fix: gamma distribution constructor computed with an
 uninitialised scale

---
 .../include/aslam/calibration/statistics/GammaDistribution.tpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/incremental_calibration/include/aslam/calibration/statistics/GammaDistribution.tpp b/incremental_calibration/include/aslam/calibration/statistics/GammaDistribution.tpp
index af36136..6468938 100644
--- a/incremental_calibration/include/aslam/calibration/statistics/GammaDistribution.tpp
+++ b/incremental_calibration/include/aslam/calibration/statistics/GammaDistribution.tpp
@@ -20,7 +20,8 @@ namespace aslam {
 /******************************************************************************/
 
     template <typename T>
-    GammaDistribution<T>::GammaDistribution(const T& shape, double invScale) {
+    GammaDistribution<T>::GammaDistribution(const T& shape, double invScale) :
+        mInvScale(1.0) {
       setShape(shape);
       setInvScale(invScale);
     }
-- 
2.43.0


From 6e9c8da7cf9dc10af8b2d35545acc06c20169be9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:26 +0000
Subject: [PATCH 13/33] fix: Eigen support for size_t hid the members Eigen
 needs, so estimators over several dimensions did not compile

---
 .../aslam/calibration/utils/SizeTSupport.h        | 15 +++------------
 .../aslam/calibration/utils/SsizeTSupport.h       | 15 +++------------
 2 files changed, 6 insertions(+), 24 deletions(-)

diff --git a/incremental_calibration/include/aslam/calibration/utils/SizeTSupport.h b/incremental_calibration/include/aslam/calibration/utils/SizeTSupport.h
index b7c3a25..46c91d1 100644
--- a/incremental_calibration/include/aslam/calibration/utils/SizeTSupport.h
+++ b/incremental_calibration/include/aslam/calibration/utils/SizeTSupport.h
@@ -19,23 +19,14 @@ namespace Eigen {
   /** The NumTraits<size_t> structure defines support for size_t type in Eigen.
       \brief Eigen support for size_t
     */
-  template<> struct NumTraits<size_t> {
-    /// Real definition
-    typedef size_t Real;
+  template<> struct NumTraits<size_t> :
+      GenericNumTraits<size_t> {
     /// Floating point definition
     typedef double FloatingPoint;
     /// Enum for Eigen
     enum {
-      /// Is complex
-      IsComplex = 0,
       /// Has floating point
-      HasFloatingPoint = 0,
-      /// Read cost
-      ReadCost = 1,
-      /// Add cost
-      AddCost = 1,
-      /// Multiplicative cost
-      MulCost = 1,
+      HasFloatingPoint = 0
     };
   };
 
diff --git a/incremental_calibration/include/aslam/calibration/utils/SsizeTSupport.h b/incremental_calibration/include/aslam/calibration/utils/SsizeTSupport.h
index cd96439..9a07781 100644
--- a/incremental_calibration/include/aslam/calibration/utils/SsizeTSupport.h
+++ b/incremental_calibration/include/aslam/calibration/utils/SsizeTSupport.h
@@ -20,23 +20,14 @@ namespace Eigen {
       Eigen.
       \brief Eigen support for ssize_t
     */
-  template<> struct NumTraits<ssize_t> {
-    /// Real definition
-    typedef ssize_t Real;
+  template<> struct NumTraits<ssize_t> :
+      GenericNumTraits<ssize_t> {
     /// Floating point definition
     typedef double FloatingPoint;
     /// Enum for Eigen
     enum {
-      /// Is complex
-      IsComplex = 0,
       /// Has floating point
-      HasFloatingPoint = 0,
-      /// Read cost
-      ReadCost = 1,
-      /// Add cost
-      AddCost = 1,
-      /// Multiplicative cost
-      MulCost = 1,
+      HasFloatingPoint = 0
     };
   };
 
-- 
2.43.0


From 996985e9ce0f7f1f30a46c17844eb0aa489881b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:26 +0000
Subject: [PATCH 14/33] fix: an undefined variance was accepted, so a weighted
 estimate without any weight was reported valid

---
 incremental_calibration/src/statistics/NormalDistribution1v.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/incremental_calibration/src/statistics/NormalDistribution1v.cpp b/incremental_calibration/src/statistics/NormalDistribution1v.cpp
index 2236282..05ea9a2 100644
--- a/incremental_calibration/src/statistics/NormalDistribution1v.cpp
+++ b/incremental_calibration/src/statistics/NormalDistribution1v.cpp
@@ -80,7 +80,7 @@ namespace aslam {
     }
 
     void NormalDistribution<1>::setVariance(Variance variance) {
-      if (variance <= 0.0)
+      if (!(variance > 0.0))
         throw BadArgumentException<Variance>(variance,
           "NormalDistribution::setVariance(): variance must be strictly bigger "
           "than 0",
-- 
2.43.0


From 177ad53e4f0e06748631304b87bf0a9b14de563f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:46 +0000
Subject: [PATCH 15/33] fix: timespec of a negative timestamp had a negative
 number of nanoseconds

---
 incremental_calibration/src/base/Timestamp.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/incremental_calibration/src/base/Timestamp.cpp b/incremental_calibration/src/base/Timestamp.cpp
index 7dea3ba..2fd88a0 100644
--- a/incremental_calibration/src/base/Timestamp.cpp
+++ b/incremental_calibration/src/base/Timestamp.cpp
@@ -5,6 +5,8 @@
 
 #include "aslam/calibration/base/Timestamp.h"
 
+#include <cmath>
+
 #include <sys/time.h>
 
 namespace aslam {
@@ -93,8 +95,14 @@ namespace aslam {
 
     Timestamp::operator timespec() const {
       timespec time;
-      time.tv_sec = (time_t)mSeconds;
-      time.tv_nsec = (mSeconds - (time_t)mSeconds) * 1e9;
+      double seconds = floor(mSeconds);
+      double nanoseconds = floor((mSeconds - seconds) * 1e9);
+      if (nanoseconds >= 1e9) {
+        seconds += 1.0;
+        nanoseconds = 0.0;
+      }
+      time.tv_sec = (time_t)seconds;
+      time.tv_nsec = (long)nanoseconds;
       return time;
     }
 
-- 
2.43.0


From b5fa60e93e3d74f6fdb0f938fbb24db886701fd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:47 +0000
Subject: [PATCH 16/33] fix: samplers of integer type never ended or were not
 uniform, and rare generator outputs gave samples outside the support

---
 .../aslam/calibration/statistics/Randomizer.h | 14 ++++
 .../calibration/statistics/Randomizer.tpp     | 68 ++++++++++++++-----
 2 files changed, 64 insertions(+), 18 deletions(-)

diff --git a/incremental_calibration/include/aslam/calibration/statistics/Randomizer.h b/incremental_calibration/include/aslam/calibration/statistics/Randomizer.h
index c000663..5ef67c3 100644
--- a/incremental_calibration/include/aslam/calibration/statistics/Randomizer.h
+++ b/incremental_calibration/include/aslam/calibration/statistics/Randomizer.h
@@ -38,6 +38,12 @@ namespace aslam {
         /// Round function for integer types
         template <typename Z, typename IsInteger<Z>::Result::Numeric>
           static Z round(const double& value);
+        /// Scale from the unit interval function for real types
+        template <typename Z, typename IsReal<Z>::Result::Numeric>
+          static Z scale(double unit, const Z& minSupport, const Z& maxSupport);
+        /// Scale from the unit interval function for integer types
+        template <typename Z, typename IsInteger<Z>::Result::Numeric>
+          static Z scale(double unit, const Z& minSupport, const Z& maxSupport);
       };
       /** @}
         */
@@ -103,6 +109,14 @@ namespace aslam {
       /** @}
         */
 
+      /** \name Protected methods
+        @{
+        */
+      /// Returns a sample from the unit interval, whatever the type T
+      static double sampleUnit();
+      /** @}
+        */
+
       /** \name Protected members
         @{
         */
diff --git a/incremental_calibration/include/aslam/calibration/statistics/Randomizer.tpp b/incremental_calibration/include/aslam/calibration/statistics/Randomizer.tpp
index e481f06..635cdea 100644
--- a/incremental_calibration/include/aslam/calibration/statistics/Randomizer.tpp
+++ b/incremental_calibration/include/aslam/calibration/statistics/Randomizer.tpp
@@ -3,6 +3,9 @@
  * jerome.maye@gmail.com                                                      *
  ******************************************************************************/
 
+#include <cmath>
+#include <limits>
+
 #include "aslam/calibration/base/Timestamp.h"
 #include "aslam/calibration/exceptions/BadArgumentException.h"
 
@@ -90,8 +93,13 @@ namespace aslam {
           "Randomizer<T, M>::sampleUniform(): minimum support must be smaller "
           "than maximum support",
           __FILE__, __LINE__);
-      return minSupport + Traits::template round<T, true>(random() /
-        (double)RAND_MAX * (maxSupport - minSupport));
+      return Traits::template scale<T, true>(sampleUnit(), minSupport,
+        maxSupport);
+    }
+
+    template <typename T, int M>
+    double Randomizer<T, M>::sampleUnit() {
+      return random() / (double)RAND_MAX;
     }
 
     template <typename T, int M>
@@ -103,8 +111,8 @@ namespace aslam {
           __FILE__, __LINE__);
       double u, v, s;
       do {
-        u = 2.0 * sampleUniform() - 1.0;
-        v = 2.0 * sampleUniform() - 1.0;
+        u = 2.0 * sampleUnit() - 1.0;
+        v = 2.0 * sampleUnit() - 1.0;
         s = u * u + v * v;
       }
       while (s >= 1.0 || s == 0.0);
@@ -122,14 +130,17 @@ namespace aslam {
           "Randomizer<T, M>::sampleCategorical: success probabilities must sum "
           "to 1 and probabilities bigger or equal to 0",
           __FILE__, __LINE__);
-      double sum = probabilities(0);
-      const double u = sampleUniform();
-      for (size_t i = 1; i < (size_t)probabilities.size(); ++i)
-        if (u > sum)
+      double sum = 0.0;
+      const double u = sampleUnit();
+      size_t category = 0;
+      for (size_t i = 0; i < (size_t)probabilities.size(); ++i)
+        if (probabilities(i) > 0) {
+          category = i;
           sum += probabilities(i);
-        else
-          return i - 1;
-      return probabilities.size() - 1;
+          if (u <= sum)
+            break;
+        }
+      return category;
     }
 
     template <typename T, int M>
@@ -143,7 +154,7 @@ namespace aslam {
       double p = 1.0;
       do {
         k++;
-        p *= sampleUniform();
+        p *= sampleUnit();
       }
       while (p > l);
       return k - 1;
@@ -158,7 +169,7 @@ namespace aslam {
           __FILE__, __LINE__);
       double u;
       do {
-        u = sampleUniform();
+        u = sampleUnit();
       }
       while (u == 0);
       return -log(u) / rate;
@@ -173,10 +184,12 @@ namespace aslam {
           __FILE__, __LINE__);
       double u;
       do {
-        u = sampleUniform();
+        u = sampleUnit();
       }
       while (u == 0);
-      return floor(log(u) / log(1 - probability));
+      const double failures = floor(log(u) / std::log1p(-probability));
+      return failures < (double)std::numeric_limits<size_t>::max() ?
+        (size_t)failures : std::numeric_limits<size_t>::max();
     }
 
     template <typename T, int M>
@@ -199,17 +212,19 @@ namespace aslam {
       double z = 0;
       if (fabs(fractionalPart) > std::numeric_limits<double>::epsilon())
         while (true) {
-          const double p = b * sampleUniform();
+          const double p = b * sampleUnit();
+          if (p >= b)
+            continue;
           if (p > 1) {
             z = -log((b - p) / fractionalPart);
-            if (sampleUniform() > pow(z, fractionalPart - 1))
+            if (sampleUnit() > pow(z, fractionalPart - 1))
               continue;
             else
               break;
           }
           else {
             z = pow(p, 1.0 / fractionalPart);
-            if (sampleUniform() > exp(-z))
+            if (sampleUnit() > exp(-z))
               continue;
             else
               break;
@@ -230,5 +245,22 @@ namespace aslam {
       return (Z)::round(value);
     }
 
+    template <typename T, int M>
+    template <typename Z, typename IsReal<Z>::Result::Numeric>
+    Z Randomizer<T, M>::Traits::scale(double unit, const Z& minSupport, const Z&
+        maxSupport) {
+      const Z value = minSupport + unit * (maxSupport - minSupport);
+      return value < maxSupport ? value : maxSupport;
+    }
+
+    template <typename T, int M>
+    template <typename Z, typename IsInteger<Z>::Result::Numeric>
+    Z Randomizer<T, M>::Traits::scale(double unit, const Z& minSupport, const Z&
+        maxSupport) {
+      const double value = minSupport + ::floor(unit * ((double)maxSupport -
+        (double)minSupport + 1.0));
+      return value < (double)maxSupport ? (Z)value : maxSupport;
+    }
+
   }
 }
-- 
2.43.0


From ee61e92380cf9b7f6a1b3fceb3dc47ba5d7d833c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:25 +0000
Subject: [PATCH 17/33] fix: setting the covariance of an error term left its
 weight unchanged

---
 .../src/2dlrf/ErrorTermMotion.cpp                              | 1 +
 .../src/2dlrf/ErrorTermObservation.cpp                         | 1 +
 .../src/error-terms/ErrorTermPose.cpp                          | 1 +
 .../src/error-terms/ErrorTermSteering.cpp                      | 3 +++
 .../src/error-terms/ErrorTermWheel.cpp                         | 1 +
 .../src/error-terms/ErrorTermPose.cpp                          | 1 +
 .../src/error-terms/ErrorTermWheel.cpp                         | 1 +
 7 files changed, 9 insertions(+)

diff --git a/incremental_calibration_examples/incremental_calibration_examples_2dlrf/src/2dlrf/ErrorTermMotion.cpp b/incremental_calibration_examples/incremental_calibration_examples_2dlrf/src/2dlrf/ErrorTermMotion.cpp
index 95c85c1..7e5ba1c 100644
--- a/incremental_calibration_examples/incremental_calibration_examples_2dlrf/src/2dlrf/ErrorTermMotion.cpp
+++ b/incremental_calibration_examples/incremental_calibration_examples_2dlrf/src/2dlrf/ErrorTermMotion.cpp
@@ -89,6 +89,7 @@ namespace aslam {
 
     void ErrorTermMotion::setCovariance(const Covariance& Q) {
       _Q = Q;
+      setInvR(_Q.inverse());
     }
 
 /******************************************************************************/
diff --git a/incremental_calibration_examples/incremental_calibration_examples_2dlrf/src/2dlrf/ErrorTermObservation.cpp b/incremental_calibration_examples/incremental_calibration_examples_2dlrf/src/2dlrf/ErrorTermObservation.cpp
index ea43ecc..c568d53 100644
--- a/incremental_calibration_examples/incremental_calibration_examples_2dlrf/src/2dlrf/ErrorTermObservation.cpp
+++ b/incremental_calibration_examples/incremental_calibration_examples_2dlrf/src/2dlrf/ErrorTermObservation.cpp
@@ -90,6 +90,7 @@ namespace aslam {
 
     void ErrorTermObservation::setCovariance(const Covariance& R) {
       _R = R;
+      setInvR(_R.inverse());
     }
 
 /******************************************************************************/
diff --git a/incremental_calibration_examples/incremental_calibration_examples_car/src/error-terms/ErrorTermPose.cpp b/incremental_calibration_examples/incremental_calibration_examples_car/src/error-terms/ErrorTermPose.cpp
index 8b9daa0..c99cf3a 100644
--- a/incremental_calibration_examples/incremental_calibration_examples_car/src/error-terms/ErrorTermPose.cpp
+++ b/incremental_calibration_examples/incremental_calibration_examples_car/src/error-terms/ErrorTermPose.cpp
@@ -75,6 +75,7 @@ namespace aslam {
 
     void ErrorTermPose::setCovariance(const Covariance& sigma2) {
       _sigma2 = sigma2;
+      setInvR(_sigma2.inverse());
     }
 
 /******************************************************************************/
diff --git a/incremental_calibration_examples/incremental_calibration_examples_car/src/error-terms/ErrorTermSteering.cpp b/incremental_calibration_examples/incremental_calibration_examples_car/src/error-terms/ErrorTermSteering.cpp
index 8d62520..e64acb6 100644
--- a/incremental_calibration_examples/incremental_calibration_examples_car/src/error-terms/ErrorTermSteering.cpp
+++ b/incremental_calibration_examples/incremental_calibration_examples_car/src/error-terms/ErrorTermSteering.cpp
@@ -77,6 +77,9 @@ namespace aslam {
 
     void ErrorTermSteering::setVariance(double sigma2) {
       _sigma2 = sigma2;
+      Eigen::Matrix<double, 1, 1> sigma2_mat;
+      sigma2_mat << sigma2;
+      setInvR(sigma2_mat.inverse());
     }
 
 /******************************************************************************/
diff --git a/incremental_calibration_examples/incremental_calibration_examples_car/src/error-terms/ErrorTermWheel.cpp b/incremental_calibration_examples/incremental_calibration_examples_car/src/error-terms/ErrorTermWheel.cpp
index 388c11a..506d04f 100644
--- a/incremental_calibration_examples/incremental_calibration_examples_car/src/error-terms/ErrorTermWheel.cpp
+++ b/incremental_calibration_examples/incremental_calibration_examples_car/src/error-terms/ErrorTermWheel.cpp
@@ -75,6 +75,7 @@ namespace aslam {
 
     void ErrorTermWheel::setCovariance(const Covariance& sigma2Wheel) {
       _sigma2Wheel = sigma2Wheel;
+      setInvR(_sigma2Wheel.inverse());
     }
 
     bool ErrorTermWheel::getFrontEnabled() const {
diff --git a/incremental_calibration_examples/incremental_calibration_examples_time_delay/src/error-terms/ErrorTermPose.cpp b/incremental_calibration_examples/incremental_calibration_examples_time_delay/src/error-terms/ErrorTermPose.cpp
index 2dbbf9d..d628e11 100644
--- a/incremental_calibration_examples/incremental_calibration_examples_time_delay/src/error-terms/ErrorTermPose.cpp
+++ b/incremental_calibration_examples/incremental_calibration_examples_time_delay/src/error-terms/ErrorTermPose.cpp
@@ -75,6 +75,7 @@ namespace aslam {
 
     void ErrorTermPose::setCovariance(const Covariance& sigma2) {
       _sigma2 = sigma2;
+      setInvR(_sigma2.inverse());
     }
 
 /******************************************************************************/
diff --git a/incremental_calibration_examples/incremental_calibration_examples_time_delay/src/error-terms/ErrorTermWheel.cpp b/incremental_calibration_examples/incremental_calibration_examples_time_delay/src/error-terms/ErrorTermWheel.cpp
index 34c6999..71019e0 100644
--- a/incremental_calibration_examples/incremental_calibration_examples_time_delay/src/error-terms/ErrorTermWheel.cpp
+++ b/incremental_calibration_examples/incremental_calibration_examples_time_delay/src/error-terms/ErrorTermWheel.cpp
@@ -75,6 +75,7 @@ namespace aslam {
 
     void ErrorTermWheel::setCovariance(const Covariance& sigma2Wheel) {
       _sigma2Wheel = sigma2Wheel;
+      setInvR(_sigma2Wheel.inverse());
     }
 
     bool ErrorTermWheel::getFrontEnabled() const {
-- 
2.43.0


From 7bdb2999b6d418d4128c2b4fdf0530691de55883 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:25 +0000
Subject: [PATCH 18/33] fix: Jacobian of a front wheel's error had the wrong
 sign when driving backwards

---
 .../src/error-terms/ErrorTermWheel.cpp                         | 3 ++-
 .../src/error-terms/ErrorTermWheel.cpp                         | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/incremental_calibration_examples/incremental_calibration_examples_car/src/error-terms/ErrorTermWheel.cpp b/incremental_calibration_examples/incremental_calibration_examples_car/src/error-terms/ErrorTermWheel.cpp
index 506d04f..48bae62 100644
--- a/incremental_calibration_examples/incremental_calibration_examples_car/src/error-terms/ErrorTermWheel.cpp
+++ b/incremental_calibration_examples/incremental_calibration_examples_car/src/error-terms/ErrorTermWheel.cpp
@@ -120,7 +120,8 @@ namespace aslam {
       Eigen::Matrix<double, 3, 1> J_k(v0, 0.0, 0.0);
       if (_frontEnabled) {
         const double v1 = _v_v_mw.toValue()(1);
-        const double temp1 = std::sqrt(v0 * v0 + v1 * v1);
+        const double speed = std::sqrt(v0 * v0 + v1 * v1);
+        const double temp1 = v0 < 0 ? -speed : speed;
         J_v_v_mw(0, 0) = k * v0 / temp1;
         J_v_v_mw(0, 1) = k * v1 / temp1;
         J_v_v_mw(1, 1) = 0.0;
diff --git a/incremental_calibration_examples/incremental_calibration_examples_time_delay/src/error-terms/ErrorTermWheel.cpp b/incremental_calibration_examples/incremental_calibration_examples_time_delay/src/error-terms/ErrorTermWheel.cpp
index 71019e0..c46592d 100644
--- a/incremental_calibration_examples/incremental_calibration_examples_time_delay/src/error-terms/ErrorTermWheel.cpp
+++ b/incremental_calibration_examples/incremental_calibration_examples_time_delay/src/error-terms/ErrorTermWheel.cpp
@@ -120,7 +120,8 @@ namespace aslam {
       Eigen::Matrix<double, 3, 1> J_k(v0, 0.0, 0.0);
       if (_frontEnabled) {
         const double v1 = _v_v_mw.toValue()(1);
-        const double temp1 = std::sqrt(v0 * v0 + v1 * v1);
+        const double speed = std::sqrt(v0 * v0 + v1 * v1);
+        const double temp1 = v0 < 0 ? -speed : speed;
         J_v_v_mw(0, 0) = k * v0 / temp1;
         J_v_v_mw(0, 1) = k * v1 / temp1;
         J_v_v_mw(1, 1) = 0.0;
-- 
2.43.0


From ffb296e644198ee30f8330cfb862eacc01ec901c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:25 +0000
Subject: [PATCH 19/33] fix: Jacobian of the steering error was undefined
 without forward velocity

---
 .../src/error-terms/ErrorTermSteering.cpp                     | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/incremental_calibration_examples/incremental_calibration_examples_car/src/error-terms/ErrorTermSteering.cpp b/incremental_calibration_examples/incremental_calibration_examples_car/src/error-terms/ErrorTermSteering.cpp
index e64acb6..68bff76 100644
--- a/incremental_calibration_examples/incremental_calibration_examples_car/src/error-terms/ErrorTermSteering.cpp
+++ b/incremental_calibration_examples/incremental_calibration_examples_car/src/error-terms/ErrorTermSteering.cpp
@@ -114,8 +114,8 @@ namespace aslam {
       jacobians.add(_params, J_a);
       Eigen::Matrix<double, 1, 3> J_v_v_mw =
         Eigen::Matrix<double, 1, 3>::Zero();
-      J_v_v_mw(0, 0) = -v1 / (v0 * v0 * (v1 * v1 / (v0 * v0) + 1));
-      J_v_v_mw(0, 1) = 1 / (v0 * (v1 * v1 / (v0 * v0) + 1));
+      J_v_v_mw(0, 0) = -v1 / (v0 * v0 + v1 * v1);
+      J_v_v_mw(0, 1) = v0 / (v0 * v0 + v1 * v1);
       _v_v_mw.evaluateJacobians(jacobians, -J_v_v_mw);
     }
 
-- 
2.43.0


From dd59f8ec1a2566d3b2352650eaa54c01d841485d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:50 +0000
Subject: [PATCH 20/33] fix: sine wave path had an input too many when the time
 step is not exact in binary

---
 .../src/2dlrf/utils.cpp                                       | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/incremental_calibration_examples/incremental_calibration_examples_2dlrf/src/2dlrf/utils.cpp b/incremental_calibration_examples/incremental_calibration_examples_2dlrf/src/2dlrf/utils.cpp
index 3263ec7..9bc9094 100644
--- a/incremental_calibration_examples/incremental_calibration_examples_2dlrf/src/2dlrf/utils.cpp
+++ b/incremental_calibration_examples/incremental_calibration_examples_2dlrf/src/2dlrf/utils.cpp
@@ -18,8 +18,8 @@ namespace aslam {
       u.reserve(steps);
       u.push_back(Eigen::Matrix<double, 3, 1>::Zero());
       std::vector<double> cost;
-      for (double t = 0; t < steps * T; t += T)
-        cost.push_back(amplitude * cos(2 * M_PI * frequency * t));
+      for (size_t i = 0; i < steps; ++i)
+        cost.push_back(amplitude * cos(2 * M_PI * frequency * (i * T)));
       double theta = 0;
       for (size_t i = 1; i < cost.size(); ++i) {
         const double theta_new = atan(cost[i]);
-- 
2.43.0


From 437872e58c2b53d485a7916b2c573911e9788f62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:50 +0000
Subject: [PATCH 21/33] fix: DMI time delay overwrote the last steering
 coefficient among the odometry parameters

---
 .../src/design-variables/OdometryDesignVariables.cpp            | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/incremental_calibration_examples/incremental_calibration_examples_car/src/design-variables/OdometryDesignVariables.cpp b/incremental_calibration_examples/incremental_calibration_examples_car/src/design-variables/OdometryDesignVariables.cpp
index 5cbf8ab..f49a26d 100644
--- a/incremental_calibration_examples/incremental_calibration_examples_car/src/design-variables/OdometryDesignVariables.cpp
+++ b/incremental_calibration_examples/incremental_calibration_examples_car/src/design-variables/OdometryDesignVariables.cpp
@@ -145,7 +145,7 @@ namespace aslam {
       params(18) = t_r->getParameters()(0);
       params(19) = t_f->getParameters()(0);
       params(20) = t_s->getParameters()(0);
-      params(11) = t_dmi->getParameters()(0);
+      params(21) = t_dmi->getParameters()(0);
       return params;
     }
 
-- 
2.43.0


From 0c53594bf67e307492df218d52c629ff4a05b1c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:56 +0000
Subject: [PATCH 22/33] fix: rear wheels' error terms had the variances of the
 front wheels

---
 .../src/algo/CarCalibrator.cpp                            | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/incremental_calibration_examples/incremental_calibration_examples_car/src/algo/CarCalibrator.cpp b/incremental_calibration_examples/incremental_calibration_examples_car/src/algo/CarCalibrator.cpp
index a320552..0f2443e 100644
--- a/incremental_calibration_examples/incremental_calibration_examples_car/src/algo/CarCalibrator.cpp
+++ b/incremental_calibration_examples/incremental_calibration_examples_car/src/algo/CarCalibrator.cpp
@@ -890,12 +890,12 @@ namespace aslam {
 
         auto e_rlw = boost::make_shared<ErrorTermWheel>(w_v_mw_l,
           ScalarExpression(_odometryDesignVariables->k_rl),
-          it->second.left, Eigen::Vector3d(_options.flwVariance,
+          it->second.left, Eigen::Vector3d(_options.rlwVariance,
           _options.vyVariance, _options.vzVariance).asDiagonal());
         batch->addErrorTerm(e_rlw);
         auto e_rrw = boost::make_shared<ErrorTermWheel>(w_v_mw_r,
           ScalarExpression(_odometryDesignVariables->k_rr),
-          it->second.right, Eigen::Vector3d(_options.frwVariance,
+          it->second.right, Eigen::Vector3d(_options.rrwVariance,
           _options.vyVariance, _options.vzVariance).asDiagonal());
         batch->addErrorTerm(e_rrw);
       }
@@ -948,11 +948,11 @@ namespace aslam {
 
         auto e_rlw = boost::make_shared<ErrorTermWheel>(w_v_mw_l,
           ScalarExpression(_odometryDesignVariables->k_rl),
-          it->second.left, Eigen::Vector3d(_options.flwVariance,
+          it->second.left, Eigen::Vector3d(_options.rlwVariance,
           _options.vyVariance, _options.vzVariance).asDiagonal());
         auto e_rrw = boost::make_shared<ErrorTermWheel>(w_v_mw_r,
           ScalarExpression(_odometryDesignVariables->k_rr),
-          it->second.right, Eigen::Vector3d(_options.frwVariance,
+          it->second.right, Eigen::Vector3d(_options.rrwVariance,
           _options.vyVariance, _options.vzVariance).asDiagonal());
         auto sr_l = e_rlw->evaluateError();
         auto error_l = e_rlw->error();
-- 
2.43.0


From 0e0d13608b173736975671258bf5263241cd1a45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:56 +0000
Subject: [PATCH 23/33] fix: predicted wheel speed was not the speed the error
 term measures along the wheel

---
 .../src/algo/Calibrator.cpp                        | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/incremental_calibration_examples/incremental_calibration_examples_time_delay/src/algo/Calibrator.cpp b/incremental_calibration_examples/incremental_calibration_examples_time_delay/src/algo/Calibrator.cpp
index 5869d1e..31be9a7 100644
--- a/incremental_calibration_examples/incremental_calibration_examples_time_delay/src/algo/Calibrator.cpp
+++ b/incremental_calibration_examples/incremental_calibration_examples_time_delay/src/algo/Calibrator.cpp
@@ -500,12 +500,9 @@ namespace aslam {
           _options.vyVariance, _options.vzVariance).asDiagonal(), false);
         auto sr_l = e_lw->evaluateError();
         auto error_l = e_lw->error();
-        double v0 = v_v_wl.toValue()(0);
-        double v1 = v_v_wl.toValue()(1);
-        double k = _odometryDesignVariables->k_l->toScalar();
-        double temp = std::sqrt(v1 * v1 / (v0 * v0) + 1);
         WheelSpeedMeasurement data;
-        data.value = k * (v0 / temp + v1 * v1 / (v0 * temp));
+        data.value = _odometryDesignVariables->k_l->toScalar() *
+          v_v_wl.toValue()(0);
         _leftWheelSpeedMeasurementsPred.push_back(std::make_pair(timestamp,
           data));
         _leftWheelSpeedMeasurementsPredErrors.push_back(error_l);
@@ -600,12 +597,9 @@ namespace aslam {
           _options.vyVariance, _options.vzVariance).asDiagonal(), false);
         auto sr_r = e_rw->evaluateError();
         auto error_r = e_rw->error();
-        double v0 = v_v_wr.toValue()(0);
-        double v1 = v_v_wr.toValue()(1);
-        double k = _odometryDesignVariables->k_r->toScalar();
-        double temp = std::sqrt(v1 * v1 / (v0 * v0) + 1);
         WheelSpeedMeasurement data;
-        data.value = k * (v0 / temp + v1 * v1 / (v0 * temp));
+        data.value = _odometryDesignVariables->k_r->toScalar() *
+          v_v_wr.toValue()(0);
         _rightWheelSpeedMeasurementsPred.push_back(std::make_pair(timestamp,
           data));
         _rightWheelSpeedMeasurementsPredErrors.push_back(error_r);
-- 
2.43.0


From 1a4d3cb801d835b126294aa271b5bc83852c5317 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:56 +0000
Subject: [PATCH 24/33] fix: a full window without measurements of the
 reference sensor threw and lost the measurement

---
 .../src/algo/Calibrator.cpp                                     | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/incremental_calibration_examples/incremental_calibration_examples_egomotion_sensors/src/algo/Calibrator.cpp b/incremental_calibration_examples/incremental_calibration_examples_egomotion_sensors/src/algo/Calibrator.cpp
index a49d45a..a4be00b 100644
--- a/incremental_calibration_examples/incremental_calibration_examples_egomotion_sensors/src/algo/Calibrator.cpp
+++ b/incremental_calibration_examples/incremental_calibration_examples_egomotion_sensors/src/algo/Calibrator.cpp
@@ -98,6 +98,8 @@ namespace aslam {
     }
 
     void Calibrator::addMeasurements() {
+      if (!motionMeasurements_.count(options_.referenceSensor))
+        return;
       auto batch = boost::make_shared<OptimizationProblemSpline>();
       initSplines(options_.referenceSensor);
       batch->addSpline(translationSpline_, 0);
-- 
2.43.0


From 48ca3f20d5b4e538f6a9f8a36064b622260494b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:56 +0000
Subject: [PATCH 25/33] fix: default of the translation spline's order was read
 from uninitialised options

---
 .../src/algo/CarCalibratorOptions.cpp                          | 3 ++-
 .../src/algo/CalibratorOptions.cpp                             | 3 ++-
 .../src/algo/CalibratorOptions.cpp                             | 3 ++-
 3 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/incremental_calibration_examples/incremental_calibration_examples_car/src/algo/CarCalibratorOptions.cpp b/incremental_calibration_examples/incremental_calibration_examples_car/src/algo/CarCalibratorOptions.cpp
index 5799525..ffda2eb 100644
--- a/incremental_calibration_examples/incremental_calibration_examples_car/src/algo/CarCalibratorOptions.cpp
+++ b/incremental_calibration_examples/incremental_calibration_examples_car/src/algo/CarCalibratorOptions.cpp
@@ -44,7 +44,8 @@ namespace aslam {
         delayBound(50000000) {
     }
 
-    CarCalibratorOptions::CarCalibratorOptions(const PropertyTree& config) {
+    CarCalibratorOptions::CarCalibratorOptions(const PropertyTree& config) :
+        CarCalibratorOptions() {
       windowDuration = config.getDouble("windowDuration");
       verbose = config.getBool("verbose");
       usePose = config.getBool("usePose");
diff --git a/incremental_calibration_examples/incremental_calibration_examples_egomotion_sensors/src/algo/CalibratorOptions.cpp b/incremental_calibration_examples/incremental_calibration_examples_egomotion_sensors/src/algo/CalibratorOptions.cpp
index 4c945c5..d196bb2 100644
--- a/incremental_calibration_examples/incremental_calibration_examples_egomotion_sensors/src/algo/CalibratorOptions.cpp
+++ b/incremental_calibration_examples/incremental_calibration_examples_egomotion_sensors/src/algo/CalibratorOptions.cpp
@@ -28,7 +28,8 @@ namespace aslam {
         referenceSensor(0) {
     }
 
-    CalibratorOptions::CalibratorOptions(const PropertyTree& config) {
+    CalibratorOptions::CalibratorOptions(const PropertyTree& config) :
+        CalibratorOptions() {
       windowDuration = config.getDouble("windowDuration");
       verbose = config.getBool("verbose");
       delayBound = config.getInt("delayBound");
diff --git a/incremental_calibration_examples/incremental_calibration_examples_time_delay/src/algo/CalibratorOptions.cpp b/incremental_calibration_examples/incremental_calibration_examples_time_delay/src/algo/CalibratorOptions.cpp
index a1782f9..ba8fdd2 100644
--- a/incremental_calibration_examples/incremental_calibration_examples_time_delay/src/algo/CalibratorOptions.cpp
+++ b/incremental_calibration_examples/incremental_calibration_examples_time_delay/src/algo/CalibratorOptions.cpp
@@ -31,7 +31,8 @@ namespace aslam {
         delayBound(50000000) {
     }
 
-    CalibratorOptions::CalibratorOptions(const PropertyTree& config) {
+    CalibratorOptions::CalibratorOptions(const PropertyTree& config) :
+        CalibratorOptions() {
       windowDuration = config.getDouble("windowDuration");
       verbose = config.getBool("verbose");
       delayBound = config.getInt("delayBound");
-- 
2.43.0


From 4d46777878a6c9b7546727ccb2cc47c19e04d2aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:31 +0000
Subject: [PATCH 26/33] fix: camera calibrator lists observations in the order
 of their transformations

getTransformation(idx) reads the design variables of the idx-th image in the
order they were added to the estimator, whereas the observations of every
accepted batch were put before those of the earlier ones.
---
 .../src/camera/CameraCalibrator.cpp                             | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/incremental_calibration_examples/incremental_calibration_examples_camera/src/camera/CameraCalibrator.cpp b/incremental_calibration_examples/incremental_calibration_examples_camera/src/camera/CameraCalibrator.cpp
index 1bc8c5d..a7e4807 100644
--- a/incremental_calibration_examples/incremental_calibration_examples_camera/src/camera/CameraCalibrator.cpp
+++ b/incremental_calibration_examples/incremental_calibration_examples_camera/src/camera/CameraCalibrator.cpp
@@ -467,7 +467,7 @@ namespace aslam {
         return;
       auto ret = _estimator->addBatch(_batch);
       if (ret.batchAccepted) {
-        _estimatorObservations.insert(_estimatorObservations.begin(),
+        _estimatorObservations.insert(_estimatorObservations.end(),
           _batchObservations.begin(), _batchObservations.end());
       }
       if (_options.verbose) {
-- 
2.43.0


From 570108ec3aa5dca6d3a11a8d43fed0fe99df99ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:27 +0000
Subject: [PATCH 27/33] fix: thresholds of the vision data association were
 never initialised

---
 .../src/vision/VisionDataAssociation.cpp                       | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/incremental_calibration_vision/src/vision/VisionDataAssociation.cpp b/incremental_calibration_vision/src/vision/VisionDataAssociation.cpp
index 33f028b..eae0f19 100644
--- a/incremental_calibration_vision/src/vision/VisionDataAssociation.cpp
+++ b/incremental_calibration_vision/src/vision/VisionDataAssociation.cpp
@@ -17,6 +17,9 @@ namespace aslam {
             _nextFrameId = MultiFrameId(0);
             _nextLandmarkId = LandmarkId(0);
 
+            _disparityKeyframeThreshold = config.getDouble("disparityKeyframeThreshold");
+            _numTracksThreshold = config.getInt("numTracksThreshold");
+
             // \todo create the calibration design variables.
             
             
-- 
2.43.0


From d9b4eb8cb90018285dd2eac80e905e419b4555ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:27 +0000
Subject: [PATCH 28/33] fix: first frame of the vision data association was
 matched without identifier and never kept

---
 .../src/vision/VisionDataAssociation.cpp                    | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/incremental_calibration_vision/src/vision/VisionDataAssociation.cpp b/incremental_calibration_vision/src/vision/VisionDataAssociation.cpp
index eae0f19..3665161 100644
--- a/incremental_calibration_vision/src/vision/VisionDataAssociation.cpp
+++ b/incremental_calibration_vision/src/vision/VisionDataAssociation.cpp
@@ -84,6 +84,8 @@ namespace aslam {
                         SM_INFO_STREAM("Meadian disparity threshold passed! Saving the frame");
                         frame->setId(_nextFrameId);
                         _nextFrameId++;
+                        // the matches also refer to the previous frame
+                        _frames[_previousFrame->id()] = _previousFrame;
                         _frames[frame->id()] = frame;
                         _previousFrame = frame;
                         _matches.insert(_matches.end(), f2fMatches.begin(), f2fMatches.end());
@@ -98,12 +100,16 @@ namespace aslam {
                     // This is a failure recovery. We weren't able to track
                     // enough features so throw out the previous frame
                     // and start again.
+                    frame->setId(_nextFrameId);
+                    _nextFrameId++;
                     _previousFrame = frame;
                 }
             }
             
             // This happens only once after a reset...
             if( frame && !_previousFrame ) {
+                frame->setId(_nextFrameId);
+                _nextFrameId++;
                 _previousFrame = frame;
             }
 
-- 
2.43.0


From e143ea8e94ee5cbb5e2e02f3def6f1eed42446d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:20:32 +0000
Subject: [PATCH 29/33] fix: combined trajectory of the egomotion simulator
 jumped from the origin of the wave between its parts

---
 .../src/simulation/simulationEngine.cpp              | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/incremental_calibration_examples/incremental_calibration_examples_egomotion_sensors/src/simulation/simulationEngine.cpp b/incremental_calibration_examples/incremental_calibration_examples_egomotion_sensors/src/simulation/simulationEngine.cpp
index 5bf0ef6..36176ba 100644
--- a/incremental_calibration_examples/incremental_calibration_examples_egomotion_sensors/src/simulation/simulationEngine.cpp
+++ b/incremental_calibration_examples/incremental_calibration_examples_egomotion_sensors/src/simulation/simulationEngine.cpp
@@ -76,9 +76,11 @@ namespace aslam {
         }
 
         // sinePlanar
-        w_phi_v_km1 = std::atan(2 * M_PI * f * A * cos(2 * M_PI * f * dt));
-        w_r_wv_km1 = Eigen::Vector2d::Zero();
         auto lastTimestamp = nsecToSec(timestamps.back());
+        w_phi_v_km1 = std::atan(2 * M_PI * f * A * cos(2 * M_PI * f *
+          (lastTimestamp + dt)));
+        w_r_wv_km1 = Eigen::Vector2d(lastTimestamp, A * sin(2.0 * M_PI * f *
+          lastTimestamp));
         for (double t = lastTimestamp + dt; t < 2.0 / 3.0 * T; t += dt) {
           Eigen::Vector2d v_v_om_wv_k = genSineBodyVel2d(w_phi_v_km1,
             w_r_wv_km1, t, dt, A, f);
@@ -97,9 +99,11 @@ namespace aslam {
         }
 
         // random
-        w_phi_v_km1 = std::atan(2 * M_PI * f * A * cos(2 * M_PI * f * dt));
-        w_r_wv_km1 = Eigen::Vector2d::Zero();
         lastTimestamp = nsecToSec(timestamps.back());
+        w_phi_v_km1 = std::atan(2 * M_PI * f * A * cos(2 * M_PI * f *
+          (lastTimestamp + dt)));
+        w_r_wv_km1 = Eigen::Vector2d(lastTimestamp, A * sin(2.0 * M_PI * f *
+          lastTimestamp));
         auto trajDist = NormalDistribution<3>(
           Eigen::Matrix<double, 3, 1>::Zero(),
           Eigen::Matrix<double, 3, 3>::Identity() * 2);
-- 
2.43.0


From 1d24e5d50dd3d6810fb530e81778e613de1f6e6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:20:32 +0000
Subject: [PATCH 30/33] fix: default of the simulated translation spline's
 order was read before it was set

---
 .../src/simulation/TrajectoryParams.cpp                        | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/incremental_calibration_examples/incremental_calibration_examples_egomotion_sensors/src/simulation/TrajectoryParams.cpp b/incremental_calibration_examples/incremental_calibration_examples_egomotion_sensors/src/simulation/TrajectoryParams.cpp
index 72a75c6..c86a279 100644
--- a/incremental_calibration_examples/incremental_calibration_examples_egomotion_sensors/src/simulation/TrajectoryParams.cpp
+++ b/incremental_calibration_examples/incremental_calibration_examples_egomotion_sensors/src/simulation/TrajectoryParams.cpp
@@ -31,7 +31,8 @@ namespace aslam {
         rotSplineOrder(4) {
     }
 
-    TrajectoryParams::TrajectoryParams(const PropertyTree& config) {
+    TrajectoryParams::TrajectoryParams(const PropertyTree& config) :
+        TrajectoryParams() {
       A = config.getDouble("A");
       f = config.getDouble("f");
       const EulerAnglesYawPitchRoll ypr;
-- 
2.43.0


From 1adef01935e906313b3de2d282cf89f5c51eabd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:38:13 +0000
Subject: [PATCH 31/33] fix: variances of the position were those of north and
 east while the frame is east, north, up

---
 .../src/realworld/analyzer.cpp                              | 6 +++---
 .../src/realworld/calibrator.cpp                            | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/incremental_calibration_examples/incremental_calibration_examples_car/src/realworld/analyzer.cpp b/incremental_calibration_examples/incremental_calibration_examples_car/src/realworld/analyzer.cpp
index 73f1a62..9de3bb0 100644
--- a/incremental_calibration_examples/incremental_calibration_examples_car/src/realworld/analyzer.cpp
+++ b/incremental_calibration_examples/incremental_calibration_examples_car/src/realworld/analyzer.cpp
@@ -144,9 +144,9 @@ int main(int argc, char** argv) {
         deg2rad(vns->latitude), deg2rad(vns->longitude));
       pose.m_R_r = ypr.rotationMatrixToParameters(m_T_e.C() * e_T_l_ned.C() *
         l_ned_R_r);
-      pose.sigma2_m_r_mr = Eigen::Vector3d(lastVnp->northPositionRMSError *
-        lastVnp->northPositionRMSError, lastVnp->eastPositionRMSError *
-        lastVnp->eastPositionRMSError, lastVnp->downPositionRMSError *
+      pose.sigma2_m_r_mr = Eigen::Vector3d(lastVnp->eastPositionRMSError *
+        lastVnp->eastPositionRMSError, lastVnp->northPositionRMSError *
+        lastVnp->northPositionRMSError, lastVnp->downPositionRMSError *
         lastVnp->downPositionRMSError).asDiagonal();
       pose.sigma2_m_R_r = Eigen::Vector3d(deg2rad(lastVnp->headingRMSError) *
         deg2rad(lastVnp->headingRMSError), deg2rad(lastVnp->pitchRMSError) *
diff --git a/incremental_calibration_examples/incremental_calibration_examples_car/src/realworld/calibrator.cpp b/incremental_calibration_examples/incremental_calibration_examples_car/src/realworld/calibrator.cpp
index 1e4efd1..84595f6 100644
--- a/incremental_calibration_examples/incremental_calibration_examples_car/src/realworld/calibrator.cpp
+++ b/incremental_calibration_examples/incremental_calibration_examples_car/src/realworld/calibrator.cpp
@@ -144,9 +144,9 @@ int main(int argc, char** argv) {
         deg2rad(vns->latitude), deg2rad(vns->longitude));
       pose.m_R_r = ypr.rotationMatrixToParameters(m_T_e.C() * e_T_l_ned.C() *
         l_ned_R_r);
-      pose.sigma2_m_r_mr = Eigen::Vector3d(lastVnp->northPositionRMSError *
-        lastVnp->northPositionRMSError, lastVnp->eastPositionRMSError *
-        lastVnp->eastPositionRMSError, lastVnp->downPositionRMSError *
+      pose.sigma2_m_r_mr = Eigen::Vector3d(lastVnp->eastPositionRMSError *
+        lastVnp->eastPositionRMSError, lastVnp->northPositionRMSError *
+        lastVnp->northPositionRMSError, lastVnp->downPositionRMSError *
         lastVnp->downPositionRMSError).asDiagonal();
       pose.sigma2_m_R_r = Eigen::Vector3d(deg2rad(lastVnp->headingRMSError) *
         deg2rad(lastVnp->headingRMSError), deg2rad(lastVnp->pitchRMSError) *
-- 
2.43.0


From ccb5928443d30715a1a83e6986ce49568f3db4fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:38:13 +0000
Subject: [PATCH 32/33] fix: covariance of the velocity was left in north,
 east, down while the velocity is in the vehicle's frame

---
 .../src/realworld/analyzer.cpp                           | 9 +++++----
 .../src/realworld/calibrator.cpp                         | 9 +++++----
 2 files changed, 10 insertions(+), 8 deletions(-)

diff --git a/incremental_calibration_examples/incremental_calibration_examples_car/src/realworld/analyzer.cpp b/incremental_calibration_examples/incremental_calibration_examples_car/src/realworld/analyzer.cpp
index 9de3bb0..46138d7 100644
--- a/incremental_calibration_examples/incremental_calibration_examples_car/src/realworld/analyzer.cpp
+++ b/incremental_calibration_examples/incremental_calibration_examples_car/src/realworld/analyzer.cpp
@@ -164,10 +164,11 @@ int main(int argc, char** argv) {
       VelocitiesMeasurement vel;
       vel.r_v_mr = l_ned_R_r.transpose() * Eigen::Vector3d(vns->northVelocity,
         vns->eastVelocity, vns->downVelocity);
-      vel.sigma2_r_v_mr = Eigen::Vector3d(lastVnp->northVelocityRMSError *
-        lastVnp->northVelocityRMSError, lastVnp->eastVelocityRMSError *
-        lastVnp->eastVelocityRMSError, lastVnp->downVelocityRMSError *
-        lastVnp->downVelocityRMSError).asDiagonal();
+      vel.sigma2_r_v_mr = l_ned_R_r.transpose() * Eigen::Vector3d(
+        lastVnp->northVelocityRMSError * lastVnp->northVelocityRMSError,
+        lastVnp->eastVelocityRMSError * lastVnp->eastVelocityRMSError,
+        lastVnp->downVelocityRMSError * lastVnp->downVelocityRMSError).
+        asDiagonal() * l_ned_R_r;
       vel.r_om_mr = Eigen::Vector3d(deg2rad(vns->angularRateLong),
         deg2rad(vns->angularRateTrans), deg2rad(vns->angularRateDown));
       vel.sigma2_r_om_mr = Eigen::Vector3d(deg2rad(lastVnp->rollRMSError) *
diff --git a/incremental_calibration_examples/incremental_calibration_examples_car/src/realworld/calibrator.cpp b/incremental_calibration_examples/incremental_calibration_examples_car/src/realworld/calibrator.cpp
index 84595f6..f5fa2dc 100644
--- a/incremental_calibration_examples/incremental_calibration_examples_car/src/realworld/calibrator.cpp
+++ b/incremental_calibration_examples/incremental_calibration_examples_car/src/realworld/calibrator.cpp
@@ -164,10 +164,11 @@ int main(int argc, char** argv) {
       VelocitiesMeasurement vel;
       vel.r_v_mr = l_ned_R_r.transpose() * Eigen::Vector3d(vns->northVelocity,
         vns->eastVelocity, vns->downVelocity);
-      vel.sigma2_r_v_mr = Eigen::Vector3d(lastVnp->northVelocityRMSError *
-        lastVnp->northVelocityRMSError, lastVnp->eastVelocityRMSError *
-        lastVnp->eastVelocityRMSError, lastVnp->downVelocityRMSError *
-        lastVnp->downVelocityRMSError).asDiagonal();
+      vel.sigma2_r_v_mr = l_ned_R_r.transpose() * Eigen::Vector3d(
+        lastVnp->northVelocityRMSError * lastVnp->northVelocityRMSError,
+        lastVnp->eastVelocityRMSError * lastVnp->eastVelocityRMSError,
+        lastVnp->downVelocityRMSError * lastVnp->downVelocityRMSError).
+        asDiagonal() * l_ned_R_r;
       vel.r_om_mr = Eigen::Vector3d(deg2rad(vns->angularRateLong),
         deg2rad(vns->angularRateTrans), deg2rad(vns->angularRateDown));
       vel.sigma2_r_om_mr = Eigen::Vector3d(deg2rad(lastVnp->rollRMSError) *
-- 
2.43.0


From 3efa30b25f2a002d5444c0d6f0a583319fad39d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:44:18 +0000
Subject: [PATCH 33/33] fix: number of batches of the online simulation was
 rounded instead of counting the last, incomplete one

---
 .../src/2dlrf/simulate-online-new.cpp                           | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/incremental_calibration_examples/incremental_calibration_examples_2dlrf/src/2dlrf/simulate-online-new.cpp b/incremental_calibration_examples/incremental_calibration_examples_2dlrf/src/2dlrf/simulate-online-new.cpp
index 52a3d3f..c1df8f2 100644
--- a/incremental_calibration_examples/incremental_calibration_examples_2dlrf/src/2dlrf/simulate-online-new.cpp
+++ b/incremental_calibration_examples/incremental_calibration_examples_2dlrf/src/2dlrf/simulate-online-new.cpp
@@ -303,7 +303,7 @@ int main(int argc, char** argv) {
   std::cout << "marginalized group: " << incrementalEstimator.getMargGroupId()
     << std::endl;
   std::cout << "number of batches: " << incrementalEstimator.getNumBatches()
-    << " out of " << round((double)steps / batchSize) << std::endl;
+    << " out of " << ceil((double)steps / batchSize) << std::endl;
 
   // fetch the problem
   auto problem = incrementalEstimator.getProblem();
-- 
2.43.0

