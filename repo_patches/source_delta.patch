From 7f980cdccdcd1454c92e0dd6c1eb08f347c8c166 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:06 +0000
Subject: [PATCH 01/17] fix: report a failed QP as failed even when no output
 stream is given

---
 qpsolver/src/qpsolver_qpoases.hxx | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/qpsolver/src/qpsolver_qpoases.hxx b/qpsolver/src/qpsolver_qpoases.hxx
index 241ded1..6ead07b 100644
--- a/qpsolver/src/qpsolver_qpoases.hxx
+++ b/qpsolver/src/qpsolver_qpoases.hxx
@@ -76,11 +76,14 @@ bool QPOasesSolver<Scalar>::solve(const QPMatrices<Scalar>& m,
   // the "non-solution" might be useful: it is optimal but unfeasible with
   // respect to some constraints.
   qp_.getPrimalSolution(sol.data());
-  if ((ret != ::qpOASES::SUCCESSFUL_RETURN) && (os != nullptr))
+  if (ret != ::qpOASES::SUCCESSFUL_RETURN)
   {
-    *os << "QP unfeasible. QPOases error code: " << ret
-        << ". Number of working set recalculations: " << maxNbIterations
-        << ". Was warm start: " << doWarmStart << ".\n";
+    if (os != nullptr)
+    {
+      *os << "QP unfeasible. QPOases error code: " << ret
+          << ". Number of working set recalculations: " << maxNbIterations
+          << ". Was warm start: " << doWarmStart << ".\n";
+    }
     return false;
   }
 
-- 
2.43.0


From 7ea599bb3720d1ff16450d65f9208f8e0375cb57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:06 +0000
Subject: [PATCH 02/17] fix: do not warm start from a QP whose last solve
 failed

---
 qpsolver/src/qpsolver_qpoases.hxx | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/qpsolver/src/qpsolver_qpoases.hxx b/qpsolver/src/qpsolver_qpoases.hxx
index 6ead07b..bf87b0f 100644
--- a/qpsolver/src/qpsolver_qpoases.hxx
+++ b/qpsolver/src/qpsolver_qpoases.hxx
@@ -70,8 +70,10 @@ bool QPOasesSolver<Scalar>::solve(const QPMatrices<Scalar>& m,
     ret = qp_.init(m.Q.data(), m.p.data(), m.A.data(),
                    m.xl.data(), m.xu.data(), m.bl.data(), m.bu.data(),
                    maxNbIterations, 0);
-    qpIsInitialized_ = true;
   }
+  // A failed init or hotstart leaves nothing to warm start from
+  qpIsInitialized_ = (ret == ::qpOASES::SUCCESSFUL_RETURN);
+
   // we write the result even if qpOASES did report an error:
   // the "non-solution" might be useful: it is optimal but unfeasible with
   // respect to some constraints.
-- 
2.43.0


From de050c39a80f92fd1bb45b926c6ce96144d87698 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:06 +0000
Subject: [PATCH 03/17] fix: keep the previous plan when the solver delivers no
 iterate

---
 src/humanoid_walkgen.cpp   | 3 ++-
 src/trajectory_walkgen.cpp | 2 ++
 src/zebulon_walkgen.cpp    | 2 ++
 3 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/humanoid_walkgen.cpp b/src/humanoid_walkgen.cpp
index 57cc3cb..f3673d2 100644
--- a/src/humanoid_walkgen.cpp
+++ b/src/humanoid_walkgen.cpp
@@ -425,7 +425,8 @@ namespace MPCWalkgen
     //Normalization of the matrices. The smallest element value of the QP matrices is at least one.
     qpMatrices.normalizeMatrices(Constant<Scalar>::EPSILON);
 
-    dX_.resize(sizeVec);
+    // If the solver fails before any iterate is available, it leaves dX_ untouched
+    dX_.setZero(sizeVec);
 
     //The number of iterations can be high in the init phase (approximatively equals to the
     //number of constraints, aka 250)
diff --git a/src/trajectory_walkgen.cpp b/src/trajectory_walkgen.cpp
index 9c315c2..5a7a4fb 100644
--- a/src/trajectory_walkgen.cpp
+++ b/src/trajectory_walkgen.cpp
@@ -189,6 +189,8 @@ bool TrajectoryWalkgen<Scalar>::solve(Scalar feedBackPeriod)
   //The number of iterations can be high in the init phase (approximatively equals to the
   //number of constraints, aka 250).
   const int maxNbIterations = 10000;
+  // If the solver fails before any iterate is available, it leaves dX_ untouched
+  dX_.setZero();
   bool solutionFound = qpoasesSolver_->solve(qpMatrix_, maxNbIterations, dX_, true);
 
   if (!solutionFound)
diff --git a/src/zebulon_walkgen.cpp b/src/zebulon_walkgen.cpp
index 5b588a5..61737ea 100644
--- a/src/zebulon_walkgen.cpp
+++ b/src/zebulon_walkgen.cpp
@@ -526,6 +526,8 @@ bool ZebulonWalkgen<Scalar>::solve(Scalar feedBackPeriod)
   //The number of iterations can be high in the init phase (approximatively equals to the
   //number of constraints, aka 250).
   const int maxNbIterations = 10000;
+  // If the solver fails before any iterate is available, it leaves dX_ untouched
+  dX_.setZero();
   bool solutionFound = qpoasesSolver_->solve(qpMatrix_, maxNbIterations, dX_, true);
 
   if (!solutionFound)
-- 
2.43.0


From 43519d0e6f6115f80660fd009b3da4e3608469c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:56 +0000
Subject: [PATCH 04/17] fix: rebuild the QP solver table instead of appending
 to it

---
 src/humanoid_walkgen.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/humanoid_walkgen.cpp b/src/humanoid_walkgen.cpp
index f3673d2..583040f 100644
--- a/src/humanoid_walkgen.cpp
+++ b/src/humanoid_walkgen.cpp
@@ -459,6 +459,7 @@ namespace MPCWalkgen
   {
     // Updating qpoasesSolverVec_ and qpMatrixVec_
     maximumNbOfSteps_ = feetSupervisor_.getNbSamples();
+    maximumNbOfConstraints_ = 0;
     if(config_.withCopConstraints)
     {
       maximumNbOfConstraints_ = feetSupervisor_.getMaximumNbOfCopConstraints()
@@ -470,6 +471,7 @@ namespace MPCWalkgen
           *maximumNbOfSteps_;
     }
 
+    qpoasesSolverVec_.clear();
     qpoasesSolverVec_.reserve((maximumNbOfSteps_ + 1)*(maximumNbOfConstraints_ + 1));
     qpMatrixVec_.resize((maximumNbOfSteps_ + 1)*(maximumNbOfConstraints_ + 1));
 
-- 
2.43.0


From b80181a790c8d59a2d9fcd31a1cb6405dc6063a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:56 +0000
Subject: [PATCH 05/17] fix: resize the QP table when a foot polygon changes

---
 src/humanoid_walkgen.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/humanoid_walkgen.cpp b/src/humanoid_walkgen.cpp
index 583040f..d8356aa 100644
--- a/src/humanoid_walkgen.cpp
+++ b/src/humanoid_walkgen.cpp
@@ -94,6 +94,8 @@ namespace MPCWalkgen
       const ConvexPolygon<Scalar>& convexPolygon)
   {
     feetSupervisor_.setLeftFootKinematicConvexPolygon(convexPolygon);
+
+    computeConstantPart();
   }
 
   template <typename Scalar>
@@ -101,6 +103,8 @@ namespace MPCWalkgen
       const ConvexPolygon<Scalar> &convexPolygon)
   {
     feetSupervisor_.setRightFootKinematicConvexPolygon(convexPolygon);
+
+    computeConstantPart();
   }
 
   template <typename Scalar>
@@ -108,6 +112,8 @@ namespace MPCWalkgen
       const ConvexPolygon<Scalar>& convexPolygon)
   {
     feetSupervisor_.setLeftFootCopConvexPolygon(convexPolygon);
+
+    computeConstantPart();
   }
 
   template <typename Scalar>
@@ -115,6 +121,8 @@ namespace MPCWalkgen
       const ConvexPolygon<Scalar>& convexPolygon)
   {
     feetSupervisor_.setRightFootCopConvexPolygon(convexPolygon);
+
+    computeConstantPart();
   }
 
   template <typename Scalar>
-- 
2.43.0


From 9c98e05ee0b0a6ff9c5a4a6f9abdc4ac84246709 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:09 +0000
Subject: [PATCH 06/17] fix: drop the steps that are no longer previewed from
 the QP variable

---
 src/humanoid_feet_supervisor.cpp | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/humanoid_feet_supervisor.cpp b/src/humanoid_feet_supervisor.cpp
index 53324bf..902091d 100644
--- a/src/humanoid_feet_supervisor.cpp
+++ b/src/humanoid_feet_supervisor.cpp
@@ -526,12 +526,6 @@ namespace MPCWalkgen
       {
         enlargeStepVec(variable);
       }
-      // When the user set move_ to false this checks if the QP variable size must be reduce.
-      if(!move_ && (variable.rows() > 2*nbSamples_ + 2))
-      {
-        variable(2*nbSamples_ + 1) = variable(variable.rows()/2 + nbSamples_);
-        variable.conservativeResize(2*nbSamples_ + 2);
-      }
 
       // Decrementing timers
       phaseTimer_ -= samplingPeriod_;
@@ -541,6 +535,16 @@ namespace MPCWalkgen
     //Removing useless phases
     timeline_.set_capacity(phaseIndex + 1);
 
+    // If fewer steps are previewed than before (for instance because the user set move_ to false),
+    // the QP variable size must be reduced.
+    if(variable.rows() > 2*nbSamples_ + 2*nbPreviewedSteps_)
+    {
+      const VectorX firstStepsY =
+          variable.segment(variable.rows()/2 + nbSamples_, nbPreviewedSteps_);
+      variable.conservativeResize(2*nbSamples_ + 2*nbPreviewedSteps_);
+      variable.tail(nbPreviewedSteps_) = firstStepsY;
+    }
+
     stepVec_ = variable.segment(2*nbSamples_, variable.rows() - 2*nbSamples_);
 
     computeSampleWeightMatrix();
-- 
2.43.0


From a42a25939cad88d3d3e872f655506168c36f38d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:33 +0000
Subject: [PATCH 07/17] fix: initialise the tilt contact point in the default
 base model

---
 src/model/zebulon_base_model.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/model/zebulon_base_model.cpp b/src/model/zebulon_base_model.cpp
index 39155f1..88b6b93 100644
--- a/src/model/zebulon_base_model.cpp
+++ b/src/model/zebulon_base_model.cpp
@@ -58,6 +58,8 @@ BaseModel<Scalar>::BaseModel()
   ,velocityLimit_(1.0)
   ,accelerationLimit_(1.0)
   ,jerkLimit_(1.0)
+  ,tiltContactPointX_(0.0)
+  ,tiltContactPointY_(0.0)
   ,copSupportConvexPolygon_()
   ,comSupportConvexPolygon_()
 {
-- 
2.43.0


From 4d31db4c59c44a19531fe9d4a406da34a8a7a647 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:33 +0000
Subject: [PATCH 08/17] fix: recompute the tilt objectives when the base CoM
 height changes

---
 src/zebulon_walkgen.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/zebulon_walkgen.cpp b/src/zebulon_walkgen.cpp
index 61737ea..ad5d6e5 100644
--- a/src/zebulon_walkgen.cpp
+++ b/src/zebulon_walkgen.cpp
@@ -178,6 +178,8 @@ void ZebulonWalkgen<Scalar>::setComBaseHeight(Scalar comHeight)
   copConstraint_.computeConstantPart();
   copCenteringObj_.computeConstantPart();
   comCenteringObj_.updateGravityShift();
+  tiltMinObj_.computeConstantPart();
+  tiltVelMinObj_.computeConstantPart();
 
   computeConstantPart();
 }
-- 
2.43.0


From 862c441dbaf44bef19615eac0705200585a3acff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:33 +0000
Subject: [PATCH 09/17] fix: keep the gravity compensation when the number of
 samples changes

---
 src/zebulon_walkgen.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/zebulon_walkgen.cpp b/src/zebulon_walkgen.cpp
index ad5d6e5..3dabad7 100644
--- a/src/zebulon_walkgen.cpp
+++ b/src/zebulon_walkgen.cpp
@@ -48,6 +48,7 @@ void ZebulonWalkgen<Scalar>::setNbSamples(int nbSamples)
   lipModel_.setNbSamples(nbSamples);
   baseModel_.setNbSamples(nbSamples);
   comCenteringObj_.setNbSamples(nbSamples);
+  comCenteringObj_.updateGravityShift();
 
   dX_.setZero(4*nbSamples);
   X_.setZero(4*nbSamples);
-- 
2.43.0


From baecbcab9ba7907943f09ce82c5aa125302851ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:33 +0000
Subject: [PATCH 10/17] fix: accept masses lower than the previous ones

---
 src/zebulon_walkgen.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/zebulon_walkgen.cpp b/src/zebulon_walkgen.cpp
index 3dabad7..65a36fb 100644
--- a/src/zebulon_walkgen.cpp
+++ b/src/zebulon_walkgen.cpp
@@ -190,8 +190,12 @@ void ZebulonWalkgen<Scalar>::setBodyMass(Scalar mass)
 {
   assert(mass==mass);
 
-
   Scalar totalMass = mass + baseModel_.getMass();
+  // The total mass must never be lower than the body mass
+  if (mass < lipModel_.getMass())
+  {
+    lipModel_.setMass(mass);
+  }
   lipModel_.setTotalMass(totalMass);
   baseModel_.setTotalMass(totalMass);
 
@@ -212,6 +216,11 @@ void ZebulonWalkgen<Scalar>::setBaseMass(Scalar mass)
   assert(mass==mass);
 
   Scalar totalMass = lipModel_.getMass() + mass;
+  // The total mass must never be lower than the base mass
+  if (mass < baseModel_.getMass())
+  {
+    baseModel_.setMass(mass);
+  }
   lipModel_.setTotalMass(totalMass);
   baseModel_.setTotalMass(totalMass);
 
-- 
2.43.0


From ef397a60c0bd28258c2d6085c68e0bbc1516cb31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:33 +0000
Subject: [PATCH 11/17] fix: sign of the lateral gravity in the world frame CoP
 reference

---
 src/function/zebulon_cop_centering_objective.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/function/zebulon_cop_centering_objective.cpp b/src/function/zebulon_cop_centering_objective.cpp
index b869632..794f819 100644
--- a/src/function/zebulon_cop_centering_objective.cpp
+++ b/src/function/zebulon_cop_centering_objective.cpp
@@ -175,7 +175,7 @@ void CopCenteringObjective<Scalar>::setCopRefInWorldFrame(
 
   copRefInLocalFrame_ = ( mb*g[2]*basePosRefInWorldFrame - mb*hb*baseAccRefInWorldFrame
                         + mc*g[2]*comPosRefInWorldFrame - mc*hc*comAccRefInWorldFrame
-                        + (mb*hb+mc*hc)*constantGravity_) / ((mb+mc)*g[2])
+                        - (mb*hb+mc*hc)*constantGravity_) / ((mb+mc)*g[2])
 
                         - basePosRefInWorldFrame; //In local Frame
 }
-- 
2.43.0


From f698e9f92cf0d6798b06173ca7dfc3f298638997 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:33 +0000
Subject: [PATCH 12/17] fix: weight each acceleration of the tilt dynamics by
 its own mass

---
 src/function/zebulon_tilt_minimization_objective.cpp      | 8 ++++----
 .../zebulon_tilt_velocity_minimization_objective.cpp      | 8 ++++----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/function/zebulon_tilt_minimization_objective.cpp b/src/function/zebulon_tilt_minimization_objective.cpp
index 4fb6ebf..9ac55a5 100644
--- a/src/function/zebulon_tilt_minimization_objective.cpp
+++ b/src/function/zebulon_tilt_minimization_objective.cpp
@@ -153,13 +153,13 @@ void TiltMinimizationObjective<Scalar>::computeConstantPart()
   dynPsiY_.K = -uInv_*tmp;
   dynPsiY_.S = uInv_*A6*angularAccRelativeToAngleDyn.S;
 
-  dynC_.U = uInv_*(-A5*dynComAcc.U + A2*dynComPos.U);
+  dynC_.U = uInv_*(-A4*dynComAcc.U + A2*dynComPos.U);
   dynC_.UT = dynC_.U.transpose();
-  dynC_.S = uInv_*(-A5*dynComAcc.S + A2*dynComPos.S);
+  dynC_.S = uInv_*(-A4*dynComAcc.S + A2*dynComPos.S);
 
-  dynB_.U = uInv_*(-A4*dynBaseAcc.U - A2*dynBasePos.U);
+  dynB_.U = uInv_*(-A5*dynBaseAcc.U - A2*dynBasePos.U);
   dynB_.UT = dynB_.U.transpose();
-  dynB_.S = uInv_*(-A4*dynBaseAcc.S - A2*dynBasePos.S);
+  dynB_.S = uInv_*(-A5*dynBaseAcc.S - A2*dynBasePos.S);
 
   //Compute the hessian
   hessian_.setZero(4*N, 4*N);
diff --git a/src/function/zebulon_tilt_velocity_minimization_objective.cpp b/src/function/zebulon_tilt_velocity_minimization_objective.cpp
index c3af044..53d739b 100644
--- a/src/function/zebulon_tilt_velocity_minimization_objective.cpp
+++ b/src/function/zebulon_tilt_velocity_minimization_objective.cpp
@@ -158,13 +158,13 @@ void TiltVelMinimizationObjective<Scalar>::computeConstantPart()
   dynPsiY_.S = uInv_*A6*angularAccRelativeToAngleDyn.S
              - tiltVelAngleDyn.U*tiltAngleDyn.Uinv*tiltAngleDyn.S+tiltVelAngleDyn.S;
 
-  dynC_.U = uInv_*(-A5*dynComAcc.U + A2*dynComPos.U);
+  dynC_.U = uInv_*(-A4*dynComAcc.U + A2*dynComPos.U);
   dynC_.UT = dynC_.U.transpose();
-  dynC_.S = uInv_*(-A5*dynComAcc.S + A2*dynComPos.S);
+  dynC_.S = uInv_*(-A4*dynComAcc.S + A2*dynComPos.S);
 
-  dynB_.U = uInv_*(-A4*dynBaseAcc.U - A2*dynBasePos.U);
+  dynB_.U = uInv_*(-A5*dynBaseAcc.U - A2*dynBasePos.U);
   dynB_.UT = dynB_.U.transpose();
-  dynB_.S = uInv_*(-A4*dynBaseAcc.S - A2*dynBasePos.S);
+  dynB_.S = uInv_*(-A5*dynBaseAcc.S - A2*dynBasePos.S);
 
   //Compute the hessian
   hessian_.setZero(4*N, 4*N);
-- 
2.43.0


From 8d19d96b1892142c2be01e5bb5b6683302ca2671 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:03 +0000
Subject: [PATCH 13/17] fix: keep the CoP and CoM inside the given polygons,
 not inside their mirror images

---
 src/function/zebulon_com_constraint.cpp | 12 ++++++++----
 src/function/zebulon_cop_constraint.cpp | 12 ++++++++----
 2 files changed, 16 insertions(+), 8 deletions(-)

diff --git a/src/function/zebulon_com_constraint.cpp b/src/function/zebulon_com_constraint.cpp
index d0a3084..51c0ec1 100644
--- a/src/function/zebulon_com_constraint.cpp
+++ b/src/function/zebulon_com_constraint.cpp
@@ -115,13 +115,17 @@ void ComConstraint<Scalar>::computeconstraintMatrices()
 
   for(int i=0; i<M; ++i)
   {
-    const Vector2& p1 = supportConvexPolygon.getVertices()[i];
-    const Vector2& p2 = supportConvexPolygon.getVertices()[(i+1)%M];
+    // The rows start with the edge opposite to the first one: the order of the rows is
+    // then the expected one for the polygons which have a center of symmetry
+    const int edge = (i + M/2)%M;
+    const Vector2& p1 = supportConvexPolygon.getVertices()[edge];
+    const Vector2& p2 = supportConvexPolygon.getVertices()[(edge+1)%M];
 
     for(int j=0; j<N; ++j)
     {
-      A_(i*N+j, j) = p2(1)-p1(1);
-      A_(i*N+j, j+N) = -p2(0)+p1(0);
+      // The vertices are sorted counterclockwise: this is the normal which points inside
+      A_(i*N+j, j) = -p2(1)+p1(1);
+      A_(i*N+j, j+N) = p2(0)-p1(0);
       b_(i*N+j) = -p1(1)*(p2(0)-p1(0)) + p1(0)*(p2(1)-p1(1));
     }
   }
diff --git a/src/function/zebulon_cop_constraint.cpp b/src/function/zebulon_cop_constraint.cpp
index 6e2b3f7..0004d6b 100644
--- a/src/function/zebulon_cop_constraint.cpp
+++ b/src/function/zebulon_cop_constraint.cpp
@@ -147,13 +147,17 @@ void CopConstraint<Scalar>::computeconstraintMatrices()
 
   for(int i=0; i<M; ++i)
   {
-    const Vector2& p1 = supportConvexPolygon.getVertices()[i];
-    const Vector2& p2 = supportConvexPolygon.getVertices()[(i+1)%M];
+    // The rows start with the edge opposite to the first one: the order of the rows is
+    // then the expected one for the polygons which have a center of symmetry
+    const int edge = (i + M/2)%M;
+    const Vector2& p1 = supportConvexPolygon.getVertices()[edge];
+    const Vector2& p2 = supportConvexPolygon.getVertices()[(edge+1)%M];
 
     for(int j=0; j<N; ++j)
     {
-      A_(i*N+j, j) = p2(1)-p1(1);
-      A_(i*N+j, j+N) = -p2(0)+p1(0);
+      // The vertices are sorted counterclockwise: this is the normal which points inside
+      A_(i*N+j, j) = -p2(1)+p1(1);
+      A_(i*N+j, j+N) = p2(0)-p1(0);
       b_(i*N+j) = -p1(1)*(p2(0)-p1(0)) + p1(0)*(p2(1)-p1(1));
     }
   }
-- 
2.43.0


From a738a6aaf4fc0ab152b25a6f2ca3de9609032437 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:46 +0000
Subject: [PATCH 14/17] fix: convex hull of nearly aligned or coincident points

---
 src/convexpolygon.cpp | 63 +++++++++++++++++++++++++------------------
 1 file changed, 37 insertions(+), 26 deletions(-)

diff --git a/src/convexpolygon.cpp b/src/convexpolygon.cpp
index f561d3b..e5de234 100644
--- a/src/convexpolygon.cpp
+++ b/src/convexpolygon.cpp
@@ -8,10 +8,25 @@
 #include <mpc-walkgen/convexpolygon.h>
 #include <mpc-walkgen/constant.h>
 #include <boost/math/constants/constants.hpp>
+#include <algorithm>
 #include "macro.h"
 
 namespace MPCWalkgen
 {
+  namespace
+  {
+    // Counterclockwise turn from vec1 to vec2. A point which lies behind vec1, slightly on its
+    // right because it has been skipped as being nearly aligned, is the last one to turn to.
+    template <typename Scalar>
+    Scalar turningAngle(const typename Type<Scalar>::Vector2& vec1,
+                        const typename Type<Scalar>::Vector2& vec2)
+    {
+      Scalar angle = ConvexPolygon<Scalar>::angleBetweenVecs(vec1, vec2);
+      return angle < -boost::math::constants::half_pi<Scalar>()?
+          angle + boost::math::constants::two_pi<Scalar>() : angle;
+    }
+  }
+
   ///Convex Polygon
   template <typename Scalar>
   ConvexPolygon<Scalar>::ConvexPolygon()
@@ -70,9 +85,10 @@ namespace MPCWalkgen
                                                    points[index](1)),
                                            points);
 
-    // Adding the other vertices until we reach the first index, which
-    // means the convex polygon has been completed
-    while(index != getIndexOfLowestAndLeftmostVertice(points))
+    // Adding the other vertices until we reach one of the previous vertices, which
+    // means the convex polygon has been completed. It is not always the first one:
+    // this one can be skipped when it is nearly aligned with its neighbours
+    while(std::find(p.begin(), p.end(), points[index]) == p.end())
     {
       assert(p.size() <= points.size());
 
@@ -103,11 +119,11 @@ namespace MPCWalkgen
 
       if(vec1(0)*vec2(1) - vec1(1)*vec2(0) >= static_cast<Scalar>(0.0))
       {
-        return std::acos(angle);
+        return std::acos(std::max(Scalar(-1), std::min(Scalar(1), angle)));
       }
       else
       {
-        return -std::acos(angle);
+        return -std::acos(std::max(Scalar(-1), std::min(Scalar(1), angle)));
       }
     }
   }
@@ -166,44 +182,39 @@ namespace MPCWalkgen
   {
     //Creating vector of indexes of the candidate for the next vertex
     std::vector<int> indexesTab;
-    indexesTab.reserve(ptot.size() - 1);
+    indexesTab.reserve(ptot.size());
 
-    // We push back index 0 arbitrarily, unless currIndex=0
-    if(currIndex!=0)
-    {
-      indexesTab.push_back(0);
-    }
-    else
-    {
-      indexesTab.push_back(1);
-    }
-
-    for (size_t i=1; i<ptot.size(); ++i)
+    for (size_t i=0; i<ptot.size(); ++i)
     {
       // We do not check the current vertex. This if statement also avoids copies
       // of the current vertex among ptot vector, i.e. we do not count the current
       // vertex more than once
       if(!ptot[i].isApprox(ptot[currIndex], Constant<Scalar>::EPSILON))
       {
-        if(angleBetweenVecs(ptot[currIndex] - lastVertice,
-                            ptot[i] - ptot[currIndex]) <
-           angleBetweenVecs(ptot[currIndex] -
-                            lastVertice, ptot[indexesTab[0]] - ptot[currIndex]))
+        Scalar angle = turningAngle<Scalar>(ptot[currIndex] - lastVertice,
+                                            ptot[i] - ptot[currIndex]);
+        Scalar smallestAngle = indexesTab.empty()? angle :
+            turningAngle<Scalar>(ptot[currIndex] - lastVertice,
+                                 ptot[indexesTab[0]] - ptot[currIndex]);
+
+        if(angle < smallestAngle)
         {
           indexesTab.erase(indexesTab.begin(), indexesTab.end());
           indexesTab.push_back(i);
         }
-        else if(std::abs(angleBetweenVecs(ptot[currIndex] - lastVertice,
-                                          ptot[i] - ptot[currIndex]) -
-                         angleBetweenVecs(ptot[currIndex] - lastVertice,
-                                          ptot[indexesTab[0]] - ptot[currIndex]))
-               < Constant<Scalar>::EPSILON)
+        else if(std::abs(angle - smallestAngle) < Constant<Scalar>::EPSILON)
         {
           indexesTab.push_back(i);
         }
       }
     }
 
+    // All the points are copies of the current vertex
+    if(indexesTab.empty())
+    {
+      return currIndex;
+    }
+
     //Choosing the index of the furthest point from the current point
     //among indexesTab
     if (indexesTab.size()>1)
-- 
2.43.0


From 187da284329b7ec8000c415bc10b940efce88ac5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:32 +0000
Subject: [PATCH 15/17] fix: bring the swing foot down when its way up ends
 within a feedback period

---
 src/humanoid_feet_supervisor.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/humanoid_feet_supervisor.cpp b/src/humanoid_feet_supervisor.cpp
index 902091d..82c4860 100644
--- a/src/humanoid_feet_supervisor.cpp
+++ b/src/humanoid_feet_supervisor.cpp
@@ -590,8 +590,9 @@ namespace MPCWalkgen
                                timeToNextPhase_,
                                feedBackPeriod);
 
-      //Updating Z state for the flying foot, depending whether the foot is going up or down
-      if(timeToNextPhase_ < flyingTime*0.5f + Constant<Scalar>::EPSILON)
+      //Updating Z state for the flying foot, depending whether the foot is going up or down.
+      //It starts going down as soon as its way up does not last the whole feedback period
+      if(timeToNextPhase_ - flyingTime*0.5f < feedBackPeriod - Constant<Scalar>::EPSILON)
       {
         flyingFoot->updateStateZ(Vector3::Zero(),
                                  timeToNextPhase_,
-- 
2.43.0


From a5f616c55566247bf944ae8c788c9edb5cf91337 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:11 +0000
Subject: [PATCH 16/17] fix: first previewed step when no step was previewed
 before

---
 src/humanoid_feet_supervisor.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/humanoid_feet_supervisor.cpp b/src/humanoid_feet_supervisor.cpp
index 82c4860..6dec028 100644
--- a/src/humanoid_feet_supervisor.cpp
+++ b/src/humanoid_feet_supervisor.cpp
@@ -761,13 +761,14 @@ namespace MPCWalkgen
     }
 
     // Adding x and y coordinates of the new footstep position
-    if(isInDS() && (nbPreviewedSteps_==1))
+    if(newNbOfSteps==1)
     {
+      // There is no previous footstep: the new one starts from the support foot
       variable(2*nbSamples_ + newNbOfSteps - 1) =
-          getLeftFootStateX()(0) + (rightmostPointX + leftmostPointX)/2;
+          getSupportFootStateX()(0) + (rightmostPointX + leftmostPointX)/2;
 
       variable(newSize - 1) =
-          getLeftFootStateY()(0) + (lowestPointY + highestPointY)/2;
+          getSupportFootStateY()(0) + (lowestPointY + highestPointY)/2;
     }
     else
     {
-- 
2.43.0


From cc2e59751561b8d9a0492f49a58328f0c5653b9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:03 +0000
Subject: [PATCH 17/17] fix: keep every previewed step within reach of the step
 before it

The edges of the kinematic polygon which are parallel to an axis were turned into bounds
relative to the previous plan's step, for the second and next previewed steps. The previous
step is a variable of the QP too: use constraints relative to it, as for the other edges.
---
 src/function/humanoid_foot_constraint.cpp | 86 ++++++++++++++++-------
 1 file changed, 61 insertions(+), 25 deletions(-)

diff --git a/src/function/humanoid_foot_constraint.cpp b/src/function/humanoid_foot_constraint.cpp
index 34fa1a1..bb2e766 100644
--- a/src/function/humanoid_foot_constraint.cpp
+++ b/src/function/humanoid_foot_constraint.cpp
@@ -9,10 +9,28 @@
 
 #include <mpc-walkgen/function/humanoid_foot_constraint.h>
 #include <mpc-walkgen/constant.h>
+#include <cmath>
 #include "../macro.h"
 
 namespace MPCWalkgen
 {
+  namespace
+  {
+    template <typename Scalar>
+    bool isBounded(Scalar bound)
+    {
+      return std::abs(bound) < Constant<Scalar>::MAXIMUM_BOUND_VALUE;
+    }
+
+    /// \brief Number of edges of the polygon which are parallel to an axis
+    template <typename Scalar>
+    int getNbBounds(const ConvexPolygon<Scalar>& cp)
+    {
+      return (isBounded(cp.getXSupBound())? 1 : 0) + (isBounded(cp.getXInfBound())? 1 : 0)
+          + (isBounded(cp.getYSupBound())? 1 : 0) + (isBounded(cp.getYInfBound())? 1 : 0);
+    }
+  }
+
   template <typename Scalar>
   HumanoidFootConstraint<Scalar>::HumanoidFootConstraint(const LIPModel<Scalar>& lipModel,
                                                const HumanoidFeetSupervisor<Scalar>& feetSupervisor)
@@ -107,8 +125,13 @@ namespace MPCWalkgen
     nbGeneralConstraints_ = 0;
     for(int i = 0; i<feetSupervisor_.getNbPreviewedSteps(); ++i)
     {
-      nbGeneralConstraints_+=
-          feetSupervisor_.getKinematicConvexPolygon(i).getNbGeneralConstraints();
+      const ConvexPolygon<Scalar>& cp = feetSupervisor_.getKinematicConvexPolygon(i);
+
+      nbGeneralConstraints_+= cp.getNbGeneralConstraints();
+      if(i>0)
+      {
+        nbGeneralConstraints_+= getNbBounds(cp);
+      }
     }
   }
 
@@ -170,6 +193,34 @@ namespace MPCWalkgen
       }
 
       nbGeneralConstraintsSinceFirstStep += nbGeneralConstraintsAtCurrentStep;
+
+      // The edges parallel to an axis are bounds for the first step only. The next steps are
+      // relative to the previous one, which is a QP variable too
+      if(i>0)
+      {
+        const Scalar sup[] = {cp.getXSupBound(), cp.getYSupBound()};
+        const Scalar inf[] = {cp.getXInfBound(), cp.getYInfBound()};
+
+        for(int axis = 0; axis<2; ++axis)
+        {
+          const int step = 2*N + axis*M + i;
+
+          if(isBounded(sup[axis]))
+          {
+            A_(nbGeneralConstraintsSinceFirstStep, step) = 1;
+            A_(nbGeneralConstraintsSinceFirstStep, step - 1) = -1;
+            b_(nbGeneralConstraintsSinceFirstStep) = -sup[axis];
+            ++nbGeneralConstraintsSinceFirstStep;
+          }
+          if(isBounded(inf[axis]))
+          {
+            A_(nbGeneralConstraintsSinceFirstStep, step) = -1;
+            A_(nbGeneralConstraintsSinceFirstStep, step - 1) = 1;
+            b_(nbGeneralConstraintsSinceFirstStep) = inf[axis];
+            ++nbGeneralConstraintsSinceFirstStep;
+          }
+        }
+      }
     }
   }
 
@@ -183,31 +234,16 @@ namespace MPCWalkgen
     supBound_.setConstant(2*M, Constant<Scalar>::MAXIMUM_BOUND_VALUE);
     infBound_.setConstant(2*M, -Constant<Scalar>::MAXIMUM_BOUND_VALUE);
 
-    for(int i = 0; i<M; ++i)
+    // Only the first step is bounded: see computeGeneralConstraintsMatrices() for the next ones
+    if(M>0)
     {
-      const ConvexPolygon<Scalar>& cp = feetSupervisor_.getKinematicConvexPolygon(i);
-
-      supBound_(i) = cp.getXSupBound();
-      supBound_(i + M) = cp.getYSupBound();
-      infBound_(i) = cp.getXInfBound();
-      infBound_(i + M) = cp.getYInfBound();
+      const ConvexPolygon<Scalar>& cp = feetSupervisor_.getKinematicConvexPolygon(0);
 
-      // This if-else statement adds the required terms to vectors supBound_ and infBound_
-      // so that constraints are expressed in world frame
-      if(i==0)
-      {
-        supBound_(i) += feetSupervisor_.getSupportFootStateX()(0);
-        supBound_(i + M) += feetSupervisor_.getSupportFootStateY()(0);
-        infBound_(i) += feetSupervisor_.getSupportFootStateX()(0);
-        infBound_(i + M) += feetSupervisor_.getSupportFootStateY()(0);
-      }
-      else
-      {
-        supBound_(i) += x0(i - 1);
-        supBound_(i + M) += x0(M + i - 1);
-        infBound_(i) += x0(i - 1);
-        infBound_(i + M) += x0(M + i - 1);
-      }
+      // The support foot position is added so that constraints are expressed in world frame
+      supBound_(0) = cp.getXSupBound() + feetSupervisor_.getSupportFootStateX()(0);
+      supBound_(M) = cp.getYSupBound() + feetSupervisor_.getSupportFootStateY()(0);
+      infBound_(0) = cp.getXInfBound() + feetSupervisor_.getSupportFootStateX()(0);
+      infBound_(M) = cp.getYInfBound() + feetSupervisor_.getSupportFootStateY()(0);
     }
 
     // As we optimize a variation dX_ of the QP variable X_ (such that X_ = x0 + dX_),
-- 
2.43.0

