From 9022f2480035faf0c5c4ab4ac2e9a0b078918300 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:37 +0000
Subject: [PATCH 01/18] fix: inverse of the acceleration and second-order
 velocity prediction matrices

The first input acts for S, the next ones for T: with U(1,0)=S and U(1,1)=T the
entry (1,0) of the inverse is -1/T, not -1/S (wrong as soon as S!=T).
---
 src/tools.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tools.cpp b/src/tools.cpp
index 42e96dd..39e8bc9 100644
--- a/src/tools.cpp
+++ b/src/tools.cpp
@@ -176,7 +176,7 @@ void Tools::ConstantJerkDynamic<Scalar>::computeAccDynamic(Scalar S, Scalar T,
 
   if(dyn.Uinv.rows()>1)
   {
-    dyn.Uinv(1, 0) = dyn.UTinv(0, 1) = -1/S;
+    dyn.Uinv(1, 0) = dyn.UTinv(0, 1) = -1/T;
   }
 
   for (int i=0; i<N; ++i)
@@ -215,7 +215,7 @@ void Tools::ConstantJerkDynamic<Scalar>::computeOrder2VelDynamic(Scalar S, Scala
 
   if(dyn.Uinv.rows()>1)
   {
-    dyn.Uinv(1, 0) = dyn.UTinv(0, 1) = -1/S;
+    dyn.Uinv(1, 0) = dyn.UTinv(0, 1) = -1/T;
   }
 
   for (int i=0; i<N; ++i)
-- 
2.43.0


From f18514d3c7db7316b2552840e9a8ad2a176539b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:15 +0000
Subject: [PATCH 02/18] fix: base and body coefficients were exchanged in the
 tilt angle dynamics

---
 src/function/zebulon_tilt_minimization_objective.cpp          | 4 ++--
 src/function/zebulon_tilt_velocity_minimization_objective.cpp | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/function/zebulon_tilt_minimization_objective.cpp b/src/function/zebulon_tilt_minimization_objective.cpp
index 4fb6ebf..221d208 100644
--- a/src/function/zebulon_tilt_minimization_objective.cpp
+++ b/src/function/zebulon_tilt_minimization_objective.cpp
@@ -122,8 +122,8 @@ void TiltMinimizationObjective<Scalar>::computeConstantPart()
   Scalar A2 = m*g;
   Scalar A3x = M*g*dbx;
   Scalar A3y = M*g*dby;
-  Scalar A4 = m*h;
-  Scalar A5 = M*L;
+  Scalar A4 = M*L;
+  Scalar A5 = m*h;
   Scalar A6 = m*h*h+M*L*L;
 
   const LinearDynamic<Scalar>& tiltAngleDyn = baseModel_.getBaseTiltAngleLinearDynamic();
diff --git a/src/function/zebulon_tilt_velocity_minimization_objective.cpp b/src/function/zebulon_tilt_velocity_minimization_objective.cpp
index c3af044..36dbaef 100644
--- a/src/function/zebulon_tilt_velocity_minimization_objective.cpp
+++ b/src/function/zebulon_tilt_velocity_minimization_objective.cpp
@@ -122,8 +122,8 @@ void TiltVelMinimizationObjective<Scalar>::computeConstantPart()
   Scalar A2 = m*g;
   Scalar A3x = M*g*dbx;
   Scalar A3y = M*g*dby;
-  Scalar A4 = m*h;
-  Scalar A5 = M*L;
+  Scalar A4 = M*L;
+  Scalar A5 = m*h;
   Scalar A6 = m*h*h+M*L*L;
 
   const LinearDynamic<Scalar>& tiltAngleDyn = baseModel_.getBaseTiltAngleLinearDynamic();
-- 
2.43.0


From d091ee7f4b1d2471550a0be46c2d5c5d69a1e77d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:23 +0000
Subject: [PATCH 03/18] fix: sign of the gravity term in the world frame CoP
 reference

---
 src/function/zebulon_cop_centering_objective.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/function/zebulon_cop_centering_objective.cpp b/src/function/zebulon_cop_centering_objective.cpp
index b869632..794f819 100644
--- a/src/function/zebulon_cop_centering_objective.cpp
+++ b/src/function/zebulon_cop_centering_objective.cpp
@@ -175,7 +175,7 @@ void CopCenteringObjective<Scalar>::setCopRefInWorldFrame(
 
   copRefInLocalFrame_ = ( mb*g[2]*basePosRefInWorldFrame - mb*hb*baseAccRefInWorldFrame
                         + mc*g[2]*comPosRefInWorldFrame - mc*hc*comAccRefInWorldFrame
-                        + (mb*hb+mc*hc)*constantGravity_) / ((mb+mc)*g[2])
+                        - (mb*hb+mc*hc)*constantGravity_) / ((mb+mc)*g[2])
 
                         - basePosRefInWorldFrame; //In local Frame
 }
-- 
2.43.0


From 3f8a663e920d41ec3e6ce99eb83521cd356d29f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:50 +0000
Subject: [PATCH 04/18] fix: recompute the tilt objectives when the base CoM
 height changes

---
 src/zebulon_walkgen.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/zebulon_walkgen.cpp b/src/zebulon_walkgen.cpp
index 5b588a5..698e267 100644
--- a/src/zebulon_walkgen.cpp
+++ b/src/zebulon_walkgen.cpp
@@ -178,6 +178,8 @@ void ZebulonWalkgen<Scalar>::setComBaseHeight(Scalar comHeight)
   copConstraint_.computeConstantPart();
   copCenteringObj_.computeConstantPart();
   comCenteringObj_.updateGravityShift();
+  tiltMinObj_.computeConstantPart();
+  tiltVelMinObj_.computeConstantPart();
 
   computeConstantPart();
 }
-- 
2.43.0


From 96a33f40b28600abfe30615a8177e22aa41f5b0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:14 +0000
Subject: [PATCH 05/18] fix: keep the gravity shift of the CoM reference when
 the number of samples changes

---
 src/zebulon_walkgen.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/zebulon_walkgen.cpp b/src/zebulon_walkgen.cpp
index 698e267..211458c 100644
--- a/src/zebulon_walkgen.cpp
+++ b/src/zebulon_walkgen.cpp
@@ -48,6 +48,7 @@ void ZebulonWalkgen<Scalar>::setNbSamples(int nbSamples)
   lipModel_.setNbSamples(nbSamples);
   baseModel_.setNbSamples(nbSamples);
   comCenteringObj_.setNbSamples(nbSamples);
+  comCenteringObj_.updateGravityShift();
 
   dX_.setZero(4*nbSamples);
   X_.setZero(4*nbSamples);
-- 
2.43.0


From a256c4a8e355698bf85226e582eb49d7e6170399 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:14 +0000
Subject: [PATCH 06/18] fix: rebuild the QP solvers of the humanoid generator
 from scratch when it is reconfigured

---
 src/humanoid_walkgen.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/humanoid_walkgen.cpp b/src/humanoid_walkgen.cpp
index 57cc3cb..65bc9ea 100644
--- a/src/humanoid_walkgen.cpp
+++ b/src/humanoid_walkgen.cpp
@@ -458,6 +458,8 @@ namespace MPCWalkgen
   {
     // Updating qpoasesSolverVec_ and qpMatrixVec_
     maximumNbOfSteps_ = feetSupervisor_.getNbSamples();
+    maximumNbOfConstraints_ = 0;
+    qpoasesSolverVec_.clear();
     if(config_.withCopConstraints)
     {
       maximumNbOfConstraints_ = feetSupervisor_.getMaximumNbOfCopConstraints()
-- 
2.43.0


From 1a9cfe4d35be4344bc39f899c9cddfa950092e04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:49 +0000
Subject: [PATCH 07/18] fix: resize the QPs of the humanoid generator when a
 polygon of the feet changes

---
 src/humanoid_walkgen.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/humanoid_walkgen.cpp b/src/humanoid_walkgen.cpp
index 65bc9ea..6680bea 100644
--- a/src/humanoid_walkgen.cpp
+++ b/src/humanoid_walkgen.cpp
@@ -94,6 +94,8 @@ namespace MPCWalkgen
       const ConvexPolygon<Scalar>& convexPolygon)
   {
     feetSupervisor_.setLeftFootKinematicConvexPolygon(convexPolygon);
+
+    computeConstantPart();
   }
 
   template <typename Scalar>
@@ -101,6 +103,8 @@ namespace MPCWalkgen
       const ConvexPolygon<Scalar> &convexPolygon)
   {
     feetSupervisor_.setRightFootKinematicConvexPolygon(convexPolygon);
+
+    computeConstantPart();
   }
 
   template <typename Scalar>
@@ -108,6 +112,8 @@ namespace MPCWalkgen
       const ConvexPolygon<Scalar>& convexPolygon)
   {
     feetSupervisor_.setLeftFootCopConvexPolygon(convexPolygon);
+
+    computeConstantPart();
   }
 
   template <typename Scalar>
@@ -115,6 +121,8 @@ namespace MPCWalkgen
       const ConvexPolygon<Scalar>& convexPolygon)
   {
     feetSupervisor_.setRightFootCopConvexPolygon(convexPolygon);
+
+    computeConstantPart();
   }
 
   template <typename Scalar>
-- 
2.43.0


From abef13314f9d0b400162372de9b1eaa5a37ce5db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:09 +0000
Subject: [PATCH 08/18] fix: report a failed QP also when no stream is given

---
 qpsolver/src/qpsolver_qpoases.hxx | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/qpsolver/src/qpsolver_qpoases.hxx b/qpsolver/src/qpsolver_qpoases.hxx
index 241ded1..6ead07b 100644
--- a/qpsolver/src/qpsolver_qpoases.hxx
+++ b/qpsolver/src/qpsolver_qpoases.hxx
@@ -76,11 +76,14 @@ bool QPOasesSolver<Scalar>::solve(const QPMatrices<Scalar>& m,
   // the "non-solution" might be useful: it is optimal but unfeasible with
   // respect to some constraints.
   qp_.getPrimalSolution(sol.data());
-  if ((ret != ::qpOASES::SUCCESSFUL_RETURN) && (os != nullptr))
+  if (ret != ::qpOASES::SUCCESSFUL_RETURN)
   {
-    *os << "QP unfeasible. QPOases error code: " << ret
-        << ". Number of working set recalculations: " << maxNbIterations
-        << ". Was warm start: " << doWarmStart << ".\n";
+    if (os != nullptr)
+    {
+      *os << "QP unfeasible. QPOases error code: " << ret
+          << ". Number of working set recalculations: " << maxNbIterations
+          << ". Was warm start: " << doWarmStart << ".\n";
+    }
     return false;
   }
 
-- 
2.43.0


From e76cfc4e01b5a786d45098c219733c82a97c7b28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:33 +0000
Subject: [PATCH 09/18] fix: rotate the CoP with the lower left block of the
 foot rotation

---
 src/humanoid_walkgen.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/humanoid_walkgen.cpp b/src/humanoid_walkgen.cpp
index 6680bea..9d19cfa 100644
--- a/src/humanoid_walkgen.cpp
+++ b/src/humanoid_walkgen.cpp
@@ -526,7 +526,7 @@ namespace MPCWalkgen
 
     transformedX_.segment(0, N) = rotT.block(0, 0, N, N)*X_.segment(0, N)
         + rotT.block(0, N, N, N)*X_.segment(N, N);
-    transformedX_.segment(N, N) = rotT.block(0, N, N, N)*X_.segment(0, N)
+    transformedX_.segment(N, N) = rotT.block(N, 0, N, N)*X_.segment(0, N)
         + rotT.block(N, N, N, N)*X_.segment(N, N);
 
     transformedX_.segment(0, N) += footPosU*X_.segment(2*N, M);
-- 
2.43.0


From 1219a1aeca07e79c208f53703d89347e39a40cfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:49 +0000
Subject: [PATCH 10/18] fix: keep the X and Y states of the support foot apart
 in double support

---
 mpc-walkgen/humanoid_feet_supervisor.h | 2 +-
 src/humanoid_feet_supervisor.cpp       | 8 ++++----
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/mpc-walkgen/humanoid_feet_supervisor.h b/mpc-walkgen/humanoid_feet_supervisor.h
index 2e4df92..72aa5d0 100644
--- a/mpc-walkgen/humanoid_feet_supervisor.h
+++ b/mpc-walkgen/humanoid_feet_supervisor.h
@@ -213,7 +213,7 @@ namespace MPCWalkgen
       Scalar feedbackPeriod_;
 
       HumanoidFootModel<Scalar> leftFootModel_, rightFootModel_;
-      mutable VectorX middleState_;
+      mutable VectorX middleStateX_, middleStateY_;
       mutable ConvexPolygon<Scalar> copDSConvexPolygon_;
       mutable vectorOfVector2 copDSpoints_;
 
diff --git a/src/humanoid_feet_supervisor.cpp b/src/humanoid_feet_supervisor.cpp
index 53324bf..cd4cf79 100644
--- a/src/humanoid_feet_supervisor.cpp
+++ b/src/humanoid_feet_supervisor.cpp
@@ -424,8 +424,8 @@ namespace MPCWalkgen
     }
     else if(isInDS() && !move_)
     {
-      middleState_ = (rightFootModel_.getStateX() + leftFootModel_.getStateX())/2.0;
-      return middleState_;
+      middleStateX_ = (rightFootModel_.getStateX() + leftFootModel_.getStateX())/2.0;
+      return middleStateX_;
     }
     return leftFootModel_.getStateX();
   }
@@ -439,8 +439,8 @@ namespace MPCWalkgen
     }
     else if(isInDS() && !move_)
     {
-      middleState_ = (rightFootModel_.getStateY() + leftFootModel_.getStateY())/2.0;
-      return middleState_;
+      middleStateY_ = (rightFootModel_.getStateY() + leftFootModel_.getStateY())/2.0;
+      return middleStateY_;
     }
     return leftFootModel_.getStateY();
   }
-- 
2.43.0


From e7da3c9062efaba04d917152fcd22cb046a9b4f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:39 +0000
Subject: [PATCH 11/18] fix: initialise the tilt contact point of a default
 constructed base model

---
 src/model/zebulon_base_model.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/model/zebulon_base_model.cpp b/src/model/zebulon_base_model.cpp
index 39155f1..88b6b93 100644
--- a/src/model/zebulon_base_model.cpp
+++ b/src/model/zebulon_base_model.cpp
@@ -58,6 +58,8 @@ BaseModel<Scalar>::BaseModel()
   ,velocityLimit_(1.0)
   ,accelerationLimit_(1.0)
   ,jerkLimit_(1.0)
+  ,tiltContactPointX_(0.0)
+  ,tiltContactPointY_(0.0)
   ,copSupportConvexPolygon_()
   ,comSupportConvexPolygon_()
 {
-- 
2.43.0


From b2a0fd8fe6e92973d804168fe0628ffec8677ea9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:39 +0000
Subject: [PATCH 12/18] fix: accept a decrease of the body or base mass

---
 src/zebulon_walkgen.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/zebulon_walkgen.cpp b/src/zebulon_walkgen.cpp
index 211458c..89bc862 100644
--- a/src/zebulon_walkgen.cpp
+++ b/src/zebulon_walkgen.cpp
@@ -192,6 +192,11 @@ void ZebulonWalkgen<Scalar>::setBodyMass(Scalar mass)
 
 
   Scalar totalMass = mass + baseModel_.getMass();
+  if (mass<lipModel_.getMass())
+  {
+    // the mass must never exceed the total mass
+    lipModel_.setMass(mass);
+  }
   lipModel_.setTotalMass(totalMass);
   baseModel_.setTotalMass(totalMass);
 
@@ -212,6 +217,11 @@ void ZebulonWalkgen<Scalar>::setBaseMass(Scalar mass)
   assert(mass==mass);
 
   Scalar totalMass = lipModel_.getMass() + mass;
+  if (mass<baseModel_.getMass())
+  {
+    // the mass must never exceed the total mass
+    baseModel_.setMass(mass);
+  }
   lipModel_.setTotalMass(totalMass);
   baseModel_.setTotalMass(totalMass);
 
-- 
2.43.0


From 0516d671c7f704c100e3e6f89c245c963998a1cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:39 +0000
Subject: [PATCH 13/18] fix: validate the gravity that is set, not the previous
 one

---
 src/model/lip_model.cpp          | 2 +-
 src/model/zebulon_base_model.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/model/lip_model.cpp b/src/model/lip_model.cpp
index 5809666..7eb99c3 100644
--- a/src/model/lip_model.cpp
+++ b/src/model/lip_model.cpp
@@ -224,7 +224,7 @@ template <typename Scalar>
 void LIPModel<Scalar>::setGravity(const Vector3& gravity)
 {
   assert(gravity==gravity);
-  assert(std::abs(gravity_(2))>Constant<Scalar>::EPSILON);
+  assert(std::abs(gravity(2))>Constant<Scalar>::EPSILON);
 
   gravity_ = gravity;
 
diff --git a/src/model/zebulon_base_model.cpp b/src/model/zebulon_base_model.cpp
index 88b6b93..96273ac 100644
--- a/src/model/zebulon_base_model.cpp
+++ b/src/model/zebulon_base_model.cpp
@@ -203,7 +203,7 @@ template <typename Scalar>
 void BaseModel<Scalar>::setGravity(const Vector3& gravity)
 {
   assert(gravity==gravity);
-  assert(std::abs(gravity_(2))>Constant<Scalar>::EPSILON);
+  assert(std::abs(gravity(2))>Constant<Scalar>::EPSILON);
 
   gravity_ = gravity;
 
-- 
2.43.0


From 5beb390ebd444867a39e03b3526d099958eda64d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:39 +0000
Subject: [PATCH 14/18] fix: validate every weight that is set

---
 src/humanoid_walkgen.cpp   | 6 +++---
 src/trajectory_walkgen.cpp | 2 +-
 src/zebulon_walkgen.cpp    | 3 ++-
 3 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/humanoid_walkgen.cpp b/src/humanoid_walkgen.cpp
index 9d19cfa..77be5c6 100644
--- a/src/humanoid_walkgen.cpp
+++ b/src/humanoid_walkgen.cpp
@@ -294,9 +294,9 @@ namespace MPCWalkgen
   template <typename Scalar>
   void HumanoidWalkgen<Scalar>::setWeightings(const HumanoidWalkgenWeighting<Scalar>& weighting)
   {
-    assert(weighting_.velocityTracking >=0);
-    assert(weighting_.copCentering >=0);
-    assert(weighting_.jerkMinimization >=0);
+    assert(weighting.velocityTracking >=0);
+    assert(weighting.copCentering >=0);
+    assert(weighting.jerkMinimization >=0);
 
     weighting_ = weighting;
   }
diff --git a/src/trajectory_walkgen.cpp b/src/trajectory_walkgen.cpp
index 9c315c2..4acbe8f 100644
--- a/src/trajectory_walkgen.cpp
+++ b/src/trajectory_walkgen.cpp
@@ -116,7 +116,7 @@ template <typename Scalar>
 void TrajectoryWalkgen<Scalar>::setWeightings(const  TrajectoryWalkgenWeighting<Scalar>& weighting)
 {
   assert(weighting.velocityTracking>=0);
-  assert(weighting.velocityTracking>=0);
+  assert(weighting.positionTracking>=0);
   assert(weighting.jerkMinimization>=0);
 
   weighting_ = weighting;
diff --git a/src/zebulon_walkgen.cpp b/src/zebulon_walkgen.cpp
index 89bc862..46d7545 100644
--- a/src/zebulon_walkgen.cpp
+++ b/src/zebulon_walkgen.cpp
@@ -409,9 +409,10 @@ void ZebulonWalkgen<Scalar>::setWeightings(const  ZebulonWalkgenWeighting<Scalar
   assert(weighting.copCentering>=0);
   assert(weighting.comCentering>=0);
   assert(weighting.velocityTracking>=0);
-  assert(weighting.velocityTracking>=0);
+  assert(weighting.positionTracking>=0);
   assert(weighting.jerkMinimization>=0);
   assert(weighting.tiltMinimization>=0);
+  assert(weighting.tiltVelMinimization>=0);
 
   weighting_ = weighting;
 
-- 
2.43.0


From 961f869b28a507594bcb8e0b464677244515dad7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:28 +0000
Subject: [PATCH 15/18] fix: drop the steps that are no longer previewed from
 the QP variable

---
 src/humanoid_feet_supervisor.cpp | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/humanoid_feet_supervisor.cpp b/src/humanoid_feet_supervisor.cpp
index cd4cf79..d011151 100644
--- a/src/humanoid_feet_supervisor.cpp
+++ b/src/humanoid_feet_supervisor.cpp
@@ -526,18 +526,21 @@ namespace MPCWalkgen
       {
         enlargeStepVec(variable);
       }
-      // When the user set move_ to false this checks if the QP variable size must be reduce.
-      if(!move_ && (variable.rows() > 2*nbSamples_ + 2))
-      {
-        variable(2*nbSamples_ + 1) = variable(variable.rows()/2 + nbSamples_);
-        variable.conservativeResize(2*nbSamples_ + 2);
-      }
 
       // Decrementing timers
       phaseTimer_ -= samplingPeriod_;
       horizonTimer_ -= samplingPeriod_;
     }
 
+    // When fewer steps are previewed than before (the user set move_ to false, for
+    // instance), the QP variable size must be reduced.
+    if(variable.rows() > 2*nbSamples_ + 2*nbPreviewedSteps_)
+    {
+      const VectorX stepsY = variable.segment(variable.rows()/2 + nbSamples_, nbPreviewedSteps_);
+      variable.conservativeResize(2*nbSamples_ + 2*nbPreviewedSteps_);
+      variable.segment(2*nbSamples_ + nbPreviewedSteps_, nbPreviewedSteps_) = stepsY;
+    }
+
     //Removing useless phases
     timeline_.set_capacity(phaseIndex + 1);
 
-- 
2.43.0


From 994210e2cf4cdf6a8872581eb8fdbcddb042c536 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:35 +0000
Subject: [PATCH 16/18] fix: place the first previewed step relative to the
 support foot

---
 src/humanoid_feet_supervisor.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/humanoid_feet_supervisor.cpp b/src/humanoid_feet_supervisor.cpp
index d011151..c655e69 100644
--- a/src/humanoid_feet_supervisor.cpp
+++ b/src/humanoid_feet_supervisor.cpp
@@ -759,13 +759,13 @@ namespace MPCWalkgen
     }
 
     // Adding x and y coordinates of the new footstep position
-    if(isInDS() && (nbPreviewedSteps_==1))
+    if(newNbOfSteps==1)
     {
       variable(2*nbSamples_ + newNbOfSteps - 1) =
-          getLeftFootStateX()(0) + (rightmostPointX + leftmostPointX)/2;
+          getSupportFootStateX()(0) + (rightmostPointX + leftmostPointX)/2;
 
       variable(newSize - 1) =
-          getLeftFootStateY()(0) + (lowestPointY + highestPointY)/2;
+          getSupportFootStateY()(0) + (lowestPointY + highestPointY)/2;
     }
     else
     {
-- 
2.43.0


From 8e5a03e3f01fd94d28423bc898fe6a9d968f2be2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:38 +0000
Subject: [PATCH 17/18] fix: ignore copies of the current vertex when the hull
 of points is computed

---
 src/convexpolygon.cpp | 25 +++++++++++++------------
 1 file changed, 13 insertions(+), 12 deletions(-)

diff --git a/src/convexpolygon.cpp b/src/convexpolygon.cpp
index f561d3b..4ecbe05 100644
--- a/src/convexpolygon.cpp
+++ b/src/convexpolygon.cpp
@@ -168,24 +168,19 @@ namespace MPCWalkgen
     std::vector<int> indexesTab;
     indexesTab.reserve(ptot.size() - 1);
 
-    // We push back index 0 arbitrarily, unless currIndex=0
-    if(currIndex!=0)
-    {
-      indexesTab.push_back(0);
-    }
-    else
-    {
-      indexesTab.push_back(1);
-    }
-
-    for (size_t i=1; i<ptot.size(); ++i)
+    for (size_t i=0; i<ptot.size(); ++i)
     {
       // We do not check the current vertex. This if statement also avoids copies
       // of the current vertex among ptot vector, i.e. we do not count the current
       // vertex more than once
       if(!ptot[i].isApprox(ptot[currIndex], Constant<Scalar>::EPSILON))
       {
-        if(angleBetweenVecs(ptot[currIndex] - lastVertice,
+        // The first candidate is chosen arbitrarily
+        if(indexesTab.empty())
+        {
+          indexesTab.push_back(i);
+        }
+        else if(angleBetweenVecs(ptot[currIndex] - lastVertice,
                             ptot[i] - ptot[currIndex]) <
            angleBetweenVecs(ptot[currIndex] -
                             lastVertice, ptot[indexesTab[0]] - ptot[currIndex]))
@@ -204,6 +199,12 @@ namespace MPCWalkgen
       }
     }
 
+    // All the points are copies of the current vertex
+    if (indexesTab.empty())
+    {
+      return currIndex;
+    }
+
     //Choosing the index of the furthest point from the current point
     //among indexesTab
     if (indexesTab.size()>1)
-- 
2.43.0


From 3b31c375d1dad32fb07525b10f3ea9b71722af1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:31 +0000
Subject: [PATCH 18/18] fix: size the contact flags of a foot with its number
 of samples

---
 src/model/humanoid_foot_model.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/model/humanoid_foot_model.cpp b/src/model/humanoid_foot_model.cpp
index d648d89..8e28886 100644
--- a/src/model/humanoid_foot_model.cpp
+++ b/src/model/humanoid_foot_model.cpp
@@ -58,6 +58,7 @@ namespace MPCWalkgen
     assert(nbSamples>0);
 
     nbSamples_ = nbSamples;
+    isInContact_.resize(nbSamples_, true);
   }
 
   template <typename Scalar>
-- 
2.43.0

