From c1a22be31cc4ea0cb3afb282380d55d7fbd6f2cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:30 +0000
Subject: [PATCH 1/9] fix: rot2quaternion returned NaN for rotations with a
 vanishing off-diagonal difference

The sign of each component was computed as x/fabs(x), which is 0/0 for the
identity and for rotations about a coordinate axis.
---
 src/math/quaternion.cpp | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/math/quaternion.cpp b/src/math/quaternion.cpp
index 22d50db..57b0732 100644
--- a/src/math/quaternion.cpp
+++ b/src/math/quaternion.cpp
@@ -69,29 +69,29 @@ opengv::math::rot2quaternion( const rotation_t & R )
   if(q[0] >= q[1] && q[0] >= q[2] && q[0] >= q[3])
   {
     q[0] *= +1.0;
-    q[1] *= ((R(2,1)-R(1,2))/fabs(R(2,1)-R(1,2)));
-    q[2] *= ((R(0,2)-R(2,0))/fabs(R(0,2)-R(2,0)));
-    q[3] *= ((R(1,0)-R(0,1))/fabs(R(1,0)-R(0,1)));
+    q[1] *= (R(2,1)-R(1,2) < 0.0 ? -1.0 : +1.0);
+    q[2] *= (R(0,2)-R(2,0) < 0.0 ? -1.0 : +1.0);
+    q[3] *= (R(1,0)-R(0,1) < 0.0 ? -1.0 : +1.0);
   }
   else if(q[1] >= q[0] && q[1] >= q[2] && q[1] >= q[3])
   {
-    q[0] *= ((R(2,1)-R(1,2))/fabs(R(2,1)-R(1,2)));
+    q[0] *= (R(2,1)-R(1,2) < 0.0 ? -1.0 : +1.0);
     q[1] *= +1.0;
-    q[2] *= ((R(1,0)+R(0,1))/fabs(R(1,0)+R(0,1)));
-    q[3] *= ((R(0,2)+R(2,0))/fabs(R(0,2)+R(2,0)));
+    q[2] *= (R(1,0)+R(0,1) < 0.0 ? -1.0 : +1.0);
+    q[3] *= (R(0,2)+R(2,0) < 0.0 ? -1.0 : +1.0);
   }
   else if(q[2] >= q[0] && q[2] >= q[1] && q[2] >= q[3])
   {
-    q[0] *= ((R(0,2)-R(2,0))/fabs(R(0,2)-R(2,0)));
-    q[1] *= ((R(1,0)+R(0,1))/fabs(R(1,0)+R(0,1)));
+    q[0] *= (R(0,2)-R(2,0) < 0.0 ? -1.0 : +1.0);
+    q[1] *= (R(1,0)+R(0,1) < 0.0 ? -1.0 : +1.0);
     q[2] *= +1.0;
-    q[3] *= ((R(2,1)+R(1,2))/fabs(R(2,1)+R(1,2)));
+    q[3] *= (R(2,1)+R(1,2) < 0.0 ? -1.0 : +1.0);
   }
   else if(q[3] >= q[0] && q[3] >= q[1] && q[3] >= q[2])
   {
-    q[0] *= ((R(1,0)-R(0,1))/fabs(R(1,0)-R(0,1)));
-    q[1] *= ((R(2,0)+R(0,2))/fabs(R(2,0)+R(0,2)));
-    q[2] *= ((R(2,1)+R(1,2))/fabs(R(2,1)+R(1,2)));  
+    q[0] *= (R(1,0)-R(0,1) < 0.0 ? -1.0 : +1.0);
+    q[1] *= (R(2,0)+R(0,2) < 0.0 ? -1.0 : +1.0);
+    q[2] *= (R(2,1)+R(1,2) < 0.0 ? -1.0 : +1.0);  
     q[3] *= +1.0;
   }
   else
-- 
2.43.0


From 8e3e6e97bf277f1552d90e385a4a9ead4bd59b9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:53 +0000
Subject: [PATCH 2/9] fix: p2p divided by zero when two leading direction
 components tie in magnitude

---
 src/absolute_pose/methods.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/absolute_pose/methods.cpp b/src/absolute_pose/methods.cpp
index b1f0889..6ceb95b 100644
--- a/src/absolute_pose/methods.cpp
+++ b/src/absolute_pose/methods.cpp
@@ -73,7 +73,7 @@ opengv::absolute_pose::p2p(
   Eigen::Vector3d n1 = adapter.getPoint(index1) - adapter.getPoint(index0);
   n1 = n1/n1.norm();
   Eigen::Vector3d n3;
-  if( (fabs(n1[0]) > fabs(n1[1])) && (fabs(n1[0]) > fabs(n1[2])) )
+  if( (fabs(n1[0]) >= fabs(n1[1])) && (fabs(n1[0]) >= fabs(n1[2])) )
   {
     n3[1] = 1.0;
     n3[2] = 0.0;
@@ -81,7 +81,7 @@ opengv::absolute_pose::p2p(
   }
   else
   {
-    if( (fabs(n1[1]) > fabs(n1[0])) && (fabs(n1[1]) > fabs(n1[2])) )
+    if( (fabs(n1[1]) >= fabs(n1[0])) && (fabs(n1[1]) >= fabs(n1[2])) )
     {
       n3[2] = 1.0;
       n3[0] = 0.0;
-- 
2.43.0


From 21cf4ce3f400254c2135bde662f026155adbf111 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:07 +0000
Subject: [PATCH 3/9] fix: multi-camera relative pose scoring used list
 positions as correspondence indices

---
 .../relative_pose/MultiCentralRelativePoseSacProblem.cpp    | 6 ++++--
 .../relative_pose/MultiNoncentralRelativePoseSacProblem.cpp | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/sac_problems/relative_pose/MultiCentralRelativePoseSacProblem.cpp b/src/sac_problems/relative_pose/MultiCentralRelativePoseSacProblem.cpp
index 25f446a..d6b756a 100644
--- a/src/sac_problems/relative_pose/MultiCentralRelativePoseSacProblem.cpp
+++ b/src/sac_problems/relative_pose/MultiCentralRelativePoseSacProblem.cpp
@@ -151,8 +151,10 @@ opengv::sac_problems::
       bearingVector_t reprojection2 = inverseSolution * p_hom;
       reprojection1 = reprojection1 / reprojection1.norm();
       reprojection2 = reprojection2 / reprojection2.norm();
-      bearingVector_t f1 = _adapter.getBearingVector1(pairIndex,correspondenceIndex);
-      bearingVector_t f2 = _adapter.getBearingVector2(pairIndex,correspondenceIndex);
+      bearingVector_t f1 = _adapter.getBearingVector1(
+          pairIndex, indices[pairIndex][correspondenceIndex] );
+      bearingVector_t f2 = _adapter.getBearingVector2(
+          pairIndex, indices[pairIndex][correspondenceIndex] );
 
       //bearing-vector based outlier criterium (select threshold accordingly):
       //1-(f1'*f2) = 1-cos(alpha) \in [0:2]
diff --git a/src/sac_problems/relative_pose/MultiNoncentralRelativePoseSacProblem.cpp b/src/sac_problems/relative_pose/MultiNoncentralRelativePoseSacProblem.cpp
index cd9596e..5d16962 100644
--- a/src/sac_problems/relative_pose/MultiNoncentralRelativePoseSacProblem.cpp
+++ b/src/sac_problems/relative_pose/MultiNoncentralRelativePoseSacProblem.cpp
@@ -316,9 +316,11 @@ opengv::sac_problems::relative_pose::
       reprojection1 = reprojection1 / reprojection1.norm();
       reprojection2 = reprojection2 / reprojection2.norm();
       bearingVector_t f1 =
-          _adapter.getBearingVector1(camIndex,correspondenceIndex);
+          _adapter.getBearingVector1(
+          camIndex, indices[camIndex][correspondenceIndex] );
       bearingVector_t f2 =
-          _adapter.getBearingVector2(camIndex,correspondenceIndex);
+          _adapter.getBearingVector2(
+          camIndex, indices[camIndex][correspondenceIndex] );
 
       //bearing-vector based outlier criterium (select threshold accordingly):
       //1-(f1'*f2) = 1-cos(alpha) \in [0:2]
-- 
2.43.0


From 6f1b39cb28e5961c13347ec88c4ccb9b179e8e42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:19 +0000
Subject: [PATCH 4/9] fix: robust estimators reported the sample, model and
 inliers of an earlier run

---
 include/opengv/sac/implementation/Lmeds.hpp       | 4 ++++
 include/opengv/sac/implementation/MultiRansac.hpp | 4 ++++
 include/opengv/sac/implementation/Ransac.hpp      | 4 ++++
 3 files changed, 12 insertions(+)

diff --git a/include/opengv/sac/implementation/Lmeds.hpp b/include/opengv/sac/implementation/Lmeds.hpp
index 637b4b0..e9e7021 100644
--- a/include/opengv/sac/implementation/Lmeds.hpp
+++ b/include/opengv/sac/implementation/Lmeds.hpp
@@ -45,6 +45,10 @@ opengv::sac::Lmeds<PROBLEM_T>::computeModel(int debug_verbosity_level)
   typedef PROBLEM_T problem_t;
   typedef typename problem_t::model_t model_t;
 
+  // Forget the result of a previous run
+  model_.clear();
+  inliers_.clear();
+
   // Warn and exit if no threshold was set
   if (threshold_ == std::numeric_limits<double>::max())
   {
diff --git a/include/opengv/sac/implementation/MultiRansac.hpp b/include/opengv/sac/implementation/MultiRansac.hpp
index e723c96..e87aa60 100644
--- a/include/opengv/sac/implementation/MultiRansac.hpp
+++ b/include/opengv/sac/implementation/MultiRansac.hpp
@@ -48,6 +48,10 @@ opengv::sac::MultiRansac<PROBLEM_T>::computeModel(
   typedef PROBLEM_T problem_t;
   typedef typename problem_t::model_t model_t;
 
+  // Forget the result of a previous run
+  model_.clear();
+  inliers_.clear();
+
   iterations_ = 0;
   int n_best_inliers_count = -INT_MAX;
   double k = 1.0;
diff --git a/include/opengv/sac/implementation/Ransac.hpp b/include/opengv/sac/implementation/Ransac.hpp
index a01adc8..015c32a 100644
--- a/include/opengv/sac/implementation/Ransac.hpp
+++ b/include/opengv/sac/implementation/Ransac.hpp
@@ -48,6 +48,10 @@ opengv::sac::Ransac<PROBLEM_T>::computeModel(
   typedef PROBLEM_T problem_t;
   typedef typename problem_t::model_t model_t;
 
+  // Forget the result of a previous run
+  model_.clear();
+  inliers_.clear();
+
   iterations_ = 0;
   int n_best_inliers_count = -INT_MAX;
   double k = 1.0;
-- 
2.43.0


From 80bd6976326f64d0a43897045dfd2b4ae0b471a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:51 +0000
Subject: [PATCH 5/9] fix: random camera index was out of range when rand()
 returns RAND_MAX

---
 .../absolute_pose/MultiNoncentralAbsolutePoseSacProblem.cpp   | 2 +-
 .../relative_pose/MultiNoncentralRelativePoseSacProblem.cpp   | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/sac_problems/absolute_pose/MultiNoncentralAbsolutePoseSacProblem.cpp b/src/sac_problems/absolute_pose/MultiNoncentralAbsolutePoseSacProblem.cpp
index 6f20e48..112eb0d 100644
--- a/src/sac_problems/absolute_pose/MultiNoncentralAbsolutePoseSacProblem.cpp
+++ b/src/sac_problems/absolute_pose/MultiNoncentralAbsolutePoseSacProblem.cpp
@@ -175,7 +175,7 @@ opengv::sac_problems::
 
   //set it to a random cam index where to start
   size_t binIndex = floor(((double) _adapter.getNumberFrames()) *
-      ((double) rand()) / ((double) RAND_MAX));
+      ((double) rand()) / ((double) RAND_MAX + 1.0));
   for( int i = 0; i < sampleSize; i++ )
   {
     sampleSizes[binIndex]++;
diff --git a/src/sac_problems/relative_pose/MultiNoncentralRelativePoseSacProblem.cpp b/src/sac_problems/relative_pose/MultiNoncentralRelativePoseSacProblem.cpp
index 5d16962..0704fb8 100644
--- a/src/sac_problems/relative_pose/MultiNoncentralRelativePoseSacProblem.cpp
+++ b/src/sac_problems/relative_pose/MultiNoncentralRelativePoseSacProblem.cpp
@@ -71,7 +71,7 @@ opengv::sac_problems::relative_pose::MultiNoncentralRelativePoseSacProblem::
         std::vector<int> sindices;
         //set it to a random cam index where to start
         size_t binIndex = floor(((double) _adapter.getNumberPairs()) *
-            ((double) rand()) / ((double) RAND_MAX));
+            ((double) rand()) / ((double) RAND_MAX + 1.0));
         std::vector<int> tempIndices;
         for( int i = 0; i < (int) indices.size(); i++ )
           tempIndices.push_back(0);
@@ -381,7 +381,7 @@ opengv::sac_problems::
 
   //set it to a random cam index where to start
   size_t binIndex = floor(((double) _adapter.getNumberPairs()) *
-      ((double) rand()) / ((double) RAND_MAX));
+      ((double) rand()) / ((double) RAND_MAX + 1.0));
   for( int i = 0; i < sampleSize; i++ )
   {
     sampleSizes[binIndex]++;
-- 
2.43.0


From 71ee34de54b61f7f675e69e747a051276892f2fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:27 +0000
Subject: [PATCH 6/9] fix: six-point robust problem took the translation from
 an arbitrary eigenvector

---
 .../MultiNoncentralRelativePoseSacProblem.cpp          | 10 ++++++----
 .../relative_pose/NoncentralRelativePoseSacProblem.cpp | 10 ++++++----
 2 files changed, 12 insertions(+), 8 deletions(-)

diff --git a/src/sac_problems/relative_pose/MultiNoncentralRelativePoseSacProblem.cpp b/src/sac_problems/relative_pose/MultiNoncentralRelativePoseSacProblem.cpp
index 0704fb8..50c8c7b 100644
--- a/src/sac_problems/relative_pose/MultiNoncentralRelativePoseSacProblem.cpp
+++ b/src/sac_problems/relative_pose/MultiNoncentralRelativePoseSacProblem.cpp
@@ -165,14 +165,16 @@ opengv::sac_problems::relative_pose::MultiNoncentralRelativePoseSacProblem::
           }
           
           //decompose G to find the rotation
-          Eigen::EigenSolver< Eigen::Matrix4d > Eig(G,true);
-          Eigen::Matrix<std::complex<double>,4,4> V = Eig.eigenvectors();
+          //(the translation is the eigenvector of the smallest eigenvalue, which
+          //only the self-adjoint solver is guaranteed to return first)
+          Eigen::SelfAdjointEigenSolver< Eigen::Matrix4d > Eig(G);
+          Eigen::Matrix4d V = Eig.eigenvectors();
 
-          double factor = V(3,0).real();
+          double factor = V(3,0);
           transformation_t transformation;
           transformation.block<3,3>(0,0) = rotations[r];
           for( int k = 0; k < 3; k++ )
-            transformation(k,3) = (1.0/factor) * V(k,0).real();
+            transformation(k,3) = (1.0/factor) * V(k,0);
           transformations.push_back(transformation);
         }
         
diff --git a/src/sac_problems/relative_pose/NoncentralRelativePoseSacProblem.cpp b/src/sac_problems/relative_pose/NoncentralRelativePoseSacProblem.cpp
index df58181..2ca3790 100644
--- a/src/sac_problems/relative_pose/NoncentralRelativePoseSacProblem.cpp
+++ b/src/sac_problems/relative_pose/NoncentralRelativePoseSacProblem.cpp
@@ -113,14 +113,16 @@ opengv::sac_problems::
           }
           
           //decompose G to find the rotation
-          Eigen::EigenSolver< Eigen::Matrix4d > Eig(G,true);
-          Eigen::Matrix<std::complex<double>,4,4> V = Eig.eigenvectors();
+          //(the translation is the eigenvector of the smallest eigenvalue, which
+          //only the self-adjoint solver is guaranteed to return first)
+          Eigen::SelfAdjointEigenSolver< Eigen::Matrix4d > Eig(G);
+          Eigen::Matrix4d V = Eig.eigenvectors();
 
-          double factor = V(3,0).real();
+          double factor = V(3,0);
           transformation_t transformation;
           transformation.block<3,3>(0,0) = rotations[r];
           for( int k = 0; k < 3; k++ )
-            transformation(k,3) = (1.0/factor) * V(k,0).real();
+            transformation(k,3) = (1.0/factor) * V(k,0);
           transformations.push_back(transformation);
         }
         
-- 
2.43.0


From 80d7d8b9f62bd5e824ad476ffe6f48bbf494c348 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:16 +0000
Subject: [PATCH 7/9] fix: closed-form cubic and quartic roots divided by zero
 (x^3-8, triple roots, x^4-1, quadruple roots)

---
 src/math/roots.cpp | 89 +++++++++++++++++-----------------------------
 1 file changed, 33 insertions(+), 56 deletions(-)

diff --git a/src/math/roots.cpp b/src/math/roots.cpp
index c31b27c..f7375ce 100644
--- a/src/math/roots.cpp
+++ b/src/math/roots.cpp
@@ -52,7 +52,8 @@ opengv::math::o3_roots( const std::vector<double> & p )
   
   if( term >= 0.0 )
   {
-    double C3 = 0.5 * (theta_1 + sqrt(term));
+    //take the sign that avoids cancellation, C vanishes for triple roots only
+    double C3 = 0.5 * ((theta_1 < 0.0) ? theta_1 - sqrt(term) : theta_1 + sqrt(term));
     
     if( C3 < 0.0 )
       C = std::complex<double>(-pow(-C3,(1.0/3.0)),0.0);
@@ -73,6 +74,9 @@ opengv::math::o3_roots( const std::vector<double> & p )
     C = std::complex<double>(r*cos(a3/3.0),r*sin(a3/3.0));
   }
   
+  if( C == 0.0 )
+    return std::vector<double>(3,-b/(3.0*a));
+
   std::complex<double> r1 = -(1.0/(3.0*a)) * (b + u1*C + theta_0 / (u1*C) );
   std::complex<double> r2 = -(1.0/(3.0*a)) * (b + u2*C + theta_0 / (u2*C) );
   std::complex<double> r3 = -(1.0/(3.0*a)) * (b + u3*C + theta_0 / (u3*C) );
@@ -87,52 +91,10 @@ opengv::math::o3_roots( const std::vector<double> & p )
 std::vector<double>
 opengv::math::o4_roots( const Eigen::MatrixXd & p )
 {
-  double A = p(0,0);
-  double B = p(1,0);
-  double C = p(2,0);
-  double D = p(3,0);
-  double E = p(4,0);
-
-  double A_pw2 = A*A;
-  double B_pw2 = B*B;
-  double A_pw3 = A_pw2*A;
-  double B_pw3 = B_pw2*B;
-  double A_pw4 = A_pw3*A;
-  double B_pw4 = B_pw3*B;
-
-  double alpha = -3*B_pw2/(8*A_pw2)+C/A;
-  double beta = B_pw3/(8*A_pw3)-B*C/(2*A_pw2)+D/A;
-  double gamma = -3*B_pw4/(256*A_pw4)+B_pw2*C/(16*A_pw3)-B*D/(4*A_pw2)+E/A;
-
-  double alpha_pw2 = alpha*alpha;
-  double alpha_pw3 = alpha_pw2*alpha;
-
-  std::complex<double> P (-alpha_pw2/12-gamma,0);
-  std::complex<double> Q (-alpha_pw3/108+alpha*gamma/3-pow(beta,2)/8,0);
-  std::complex<double> R = -Q/2.0+sqrt(pow(Q,2.0)/4.0+pow(P,3.0)/27.0);
-
-  std::complex<double> U = pow(R,(1.0/3.0));
-  std::complex<double> y;
-
-  if (U.real() == 0)
-    y = -5.0*alpha/6.0-pow(Q,(1.0/3.0));
-  else
-    y = -5.0*alpha/6.0-P/(3.0*U)+U;
-
-  std::complex<double> w = sqrt(alpha+2.0*y);
-
-  std::vector<double> realRoots;
-  std::complex<double> temp;
-  temp = -B/(4.0*A) + 0.5*(w+sqrt(-(3.0*alpha+2.0*y+2.0*beta/w)));
-  realRoots.push_back(temp.real());
-  temp = -B/(4.0*A) + 0.5*(w-sqrt(-(3.0*alpha+2.0*y+2.0*beta/w)));
-  realRoots.push_back(temp.real());
-  temp = -B/(4.0*A) + 0.5*(-w+sqrt(-(3.0*alpha+2.0*y-2.0*beta/w)));
-  realRoots.push_back(temp.real());
-  temp = -B/(4.0*A) + 0.5*(-w-sqrt(-(3.0*alpha+2.0*y-2.0*beta/w)));
-  realRoots.push_back(temp.real());
-
-  return realRoots;
+  std::vector<double> coefficients;
+  for( int i = 0; i < 5; i++ )
+    coefficients.push_back(p(i,0));
+  return o4_roots(coefficients);
 }
 
 std::vector<double>
@@ -160,27 +122,42 @@ opengv::math::o4_roots( const std::vector<double> & p )
 
   std::complex<double> P (-alpha_pw2/12-gamma,0);
   std::complex<double> Q (-alpha_pw3/108+alpha*gamma/3-pow(beta,2)/8,0);
-  std::complex<double> R = -Q/2.0+sqrt(pow(Q,2.0)/4.0+pow(P,3.0)/27.0);
+  std::complex<double> S = sqrt(pow(Q,2.0)/4.0+pow(P,3.0)/27.0);
+  //take the sign that avoids cancellation, R vanishes for P=Q=0 only
+  std::complex<double> R = (Q.real() > 0) ? -Q/2.0-S : -Q/2.0+S;
 
   std::complex<double> U = pow(R,(1.0/3.0));
-  std::complex<double> y;
+  std::complex<double> y = -5.0*alpha/6.0;
 
-  if (U.real() == 0)
-    y = -5.0*alpha/6.0-pow(Q,(1.0/3.0));
-  else
+  //any root of the resolvent cubic is fine as long as w does not vanish
+  if (U != 0.0)
+  {
+    std::complex<double> u(-0.5,0.5*sqrt(3.0));
     y = -5.0*alpha/6.0-P/(3.0*U)+U;
+    for( int k = 1; k < 3; k++ )
+    {
+      U = U*u;
+      std::complex<double> y_k = -5.0*alpha/6.0-P/(3.0*U)+U;
+      if( abs(alpha+2.0*y_k) > abs(alpha+2.0*y) )
+        y = y_k;
+    }
+  }
 
   std::complex<double> w = sqrt(alpha+2.0*y);
+  //w only vanishes for quadruple roots, beta is then zero as well
+  std::complex<double> v = 0.0;
+  if( w != 0.0 )
+    v = 2.0*beta/w;
 
   std::vector<double> realRoots;
   std::complex<double> temp;
-  temp = -B/(4.0*A) + 0.5*(w+sqrt(-(3.0*alpha+2.0*y+2.0*beta/w)));
+  temp = -B/(4.0*A) + 0.5*(w+sqrt(-(3.0*alpha+2.0*y+v)));
   realRoots.push_back(temp.real());
-  temp = -B/(4.0*A) + 0.5*(w-sqrt(-(3.0*alpha+2.0*y+2.0*beta/w)));
+  temp = -B/(4.0*A) + 0.5*(w-sqrt(-(3.0*alpha+2.0*y+v)));
   realRoots.push_back(temp.real());
-  temp = -B/(4.0*A) + 0.5*(-w+sqrt(-(3.0*alpha+2.0*y-2.0*beta/w)));
+  temp = -B/(4.0*A) + 0.5*(-w+sqrt(-(3.0*alpha+2.0*y-v)));
   realRoots.push_back(temp.real());
-  temp = -B/(4.0*A) + 0.5*(-w-sqrt(-(3.0*alpha+2.0*y-2.0*beta/w)));
+  temp = -B/(4.0*A) + 0.5*(-w-sqrt(-(3.0*alpha+2.0*y-v)));
   realRoots.push_back(temp.real());
 
   return realRoots;
-- 
2.43.0


From e8ec7bbdd50ef0f0f969852bd280d1b7d406b28e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:16 +0000
Subject: [PATCH 8/9] fix: Sturm chain with vanishing leading coefficients and
 bound touching the roots (x^2-4, degree one, x^4-5x+1), endless polishing
 loop

---
 src/math/Sturm.cpp | 40 +++++++++++++++++++++++++---------------
 1 file changed, 25 insertions(+), 15 deletions(-)

diff --git a/src/math/Sturm.cpp b/src/math/Sturm.cpp
index 0cebf13..505e23a 100644
--- a/src/math/Sturm.cpp
+++ b/src/math/Sturm.cpp
@@ -228,7 +228,7 @@ opengv::math::Sturm::findRoots2( std::vector<double> & roots, double eps_x, doub
           
           double newRoot = root - (value/derivative);
           
-          if( newRoot < bracket->lowerBound() || newRoot > bracket->upperBound() )
+          if( !(newRoot >= bracket->lowerBound() && newRoot <= bracket->upperBound()) )
             break;
           
           for(size_t i = 2; i <= _dimension; i++)
@@ -237,7 +237,7 @@ opengv::math::Sturm::findRoots2( std::vector<double> & roots, double eps_x, doub
           
           double newValue = matValue(0,0);
           
-          if( fabs(newValue) > fabs(value) )
+          if( !(fabs(newValue) < fabs(value)) )
             break;
           
           //do update
@@ -441,21 +441,28 @@ opengv::math::Sturm::computeNegatedRemainder(
     const Eigen::MatrixXd & p2,
     Eigen::MatrixXd & r )
 {
-  //we have to create 3 subtraction polynomials
-  Eigen::MatrixXd poly_1(1,p1.cols());
-  poly_1.block(0,0,1,p2.cols()) = (p1(0,0)/p2(0,0)) * p2;
-  poly_1(0,p1.cols()-1) = 0.0;
+  r = -p1;
 
-  Eigen::MatrixXd poly_2(1,p1.cols());
-  poly_2.block(0,1,1,p2.cols()) = (p1(0,1)/p2(0,0)) * p2;
-  poly_2(0,0) = 0.0;
+  //leading coefficients of the divisor may vanish
+  int lead = 0;
+  while( lead < p2.cols() && p2(0,lead) == 0.0 )
+    lead++;
 
-  Eigen::MatrixXd poly_3(1,p1.cols());
-  poly_3.block(0,1,1,p2.cols()) = (-p2(0,1)*p1(0,0)/pow(p2(0,0),2)) * p2;
-  poly_3(0,0) = 0.0;
+  //after the end of the chain only zero polynomials follow
+  if( lead == p2.cols() )
+  {
+    r.setZero();
+    return;
+  }
 
   //compute remainder
-  r = -p1 + poly_1 + poly_2 + poly_3;
+  int length = p2.cols() - lead;
+  for( int i = 0; i + length <= p1.cols(); i++ )
+  {
+    double factor = r(0,i)/p2(0,lead);
+    r.block(0,i,1,length) -= factor * p2.block(0,lead,1,length);
+    r(0,i) = 0.0;
+  }
 }
 
 double
@@ -480,13 +487,16 @@ opengv::math::Sturm::computeLagrangianBound()
 
   coefficients[j] = -1.0;
 
-  double max2 = -1.0;
+  double max2 = 0.0;
   for( size_t i=0; i < coefficients.size(); i++ )
   {
     if( coefficients[i] > max2 )
       max2 = coefficients[i];
   }
 
-  double bound = max1 + max2;
+  //the roots must lie strictly inside the bound
+  double bound = 1.01 * (max1 + max2);
+  if( bound == 0.0 )
+    bound = 1.0;
   return bound;
 }
-- 
2.43.0


From 4b84209b338411ea34d81d54535de72190a3e654 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:08 +0000
Subject: [PATCH 9/9] fix: Sturm root polishing jumped to neighbouring roots
 (roots reported twice or missed)

---
 src/math/Sturm.cpp | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/src/math/Sturm.cpp b/src/math/Sturm.cpp
index 505e23a..f519aec 100644
--- a/src/math/Sturm.cpp
+++ b/src/math/Sturm.cpp
@@ -30,6 +30,7 @@
 
 
 #include <opengv/math/Sturm.hpp>
+#include <algorithm>
 #include <iostream>
 
 
@@ -251,8 +252,14 @@ opengv::math::Sturm::findRoots2( std::vector<double> & roots, double eps_x, doub
         
         if( converged )
         {
-          divide = false;
-          roots.push_back(root);
+          //make sure this is the root of this bracket, and not a neighbour
+          double lower = std::max( bracket->lowerBound(), root - eps_x );
+          double upper = std::min( bracket->upperBound(), root + eps_x );
+          if( evaluateChain2(lower) == evaluateChain2(upper) + 1 )
+          {
+            divide = false;
+            roots.push_back(root);
+          }
         }
       }
       
@@ -280,7 +287,8 @@ opengv::math::Sturm::findRoots()
 {
   //bracket the roots
   std::vector<double> roots;
-  bracketRoots(roots);
+  double eps = 0.0001 * computeLagrangianBound();
+  bracketRoots(roots,eps);
 
   //pollish
   Eigen::MatrixXd monomials(_dimension,1);
@@ -288,6 +296,8 @@ opengv::math::Sturm::findRoots()
 
   for(size_t r = 0; r < roots.size(); r++ )
   {
+    double bracketed = roots[r];
+
     //Now do Gauss iterations here
     //evaluate all monomials at the left bound
     for(size_t k = 0; k < 5; k++ )
@@ -299,7 +309,13 @@ opengv::math::Sturm::findRoots()
       Eigen::MatrixXd derivative = _C.row(1) * monomials;
 
       //correction
-      roots[r] = roots[r] - (value(0,0)/derivative(0,0));
+      double newRoot = roots[r] - (value(0,0)/derivative(0,0));
+
+      //do not leave for a different root
+      if( !(fabs(newRoot - bracketed) <= eps) )
+        break;
+
+      roots[r] = newRoot;
     }
   }
 
-- 
2.43.0

