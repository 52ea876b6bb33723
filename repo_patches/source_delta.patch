From d427f583f66e70b93852145732432d73a9195005 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:19 +0000
Subject: [PATCH 01/28] fix: inverse of the acceleration and order-2 velocity
 dynamics when S != T

---
 src/tools.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tools.cpp b/src/tools.cpp
index 42e96dd..39e8bc9 100644
--- a/src/tools.cpp
+++ b/src/tools.cpp
@@ -176,7 +176,7 @@ void Tools::ConstantJerkDynamic<Scalar>::computeAccDynamic(Scalar S, Scalar T,
 
   if(dyn.Uinv.rows()>1)
   {
-    dyn.Uinv(1, 0) = dyn.UTinv(0, 1) = -1/S;
+    dyn.Uinv(1, 0) = dyn.UTinv(0, 1) = -1/T;
   }
 
   for (int i=0; i<N; ++i)
@@ -215,7 +215,7 @@ void Tools::ConstantJerkDynamic<Scalar>::computeOrder2VelDynamic(Scalar S, Scala
 
   if(dyn.Uinv.rows()>1)
   {
-    dyn.Uinv(1, 0) = dyn.UTinv(0, 1) = -1/S;
+    dyn.Uinv(1, 0) = dyn.UTinv(0, 1) = -1/T;
   }
 
   for (int i=0; i<N; ++i)
-- 
2.43.0


From 95b8ad27ae1bfe0da0d2fac1341c3406f0c5842b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:15 +0000
Subject: [PATCH 02/28] fix: report a failure of qpOASES also when no debug
 stream is given

---
 qpsolver/src/qpsolver_qpoases.hxx | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/qpsolver/src/qpsolver_qpoases.hxx b/qpsolver/src/qpsolver_qpoases.hxx
index 241ded1..6ead07b 100644
--- a/qpsolver/src/qpsolver_qpoases.hxx
+++ b/qpsolver/src/qpsolver_qpoases.hxx
@@ -76,11 +76,14 @@ bool QPOasesSolver<Scalar>::solve(const QPMatrices<Scalar>& m,
   // the "non-solution" might be useful: it is optimal but unfeasible with
   // respect to some constraints.
   qp_.getPrimalSolution(sol.data());
-  if ((ret != ::qpOASES::SUCCESSFUL_RETURN) && (os != nullptr))
+  if (ret != ::qpOASES::SUCCESSFUL_RETURN)
   {
-    *os << "QP unfeasible. QPOases error code: " << ret
-        << ". Number of working set recalculations: " << maxNbIterations
-        << ". Was warm start: " << doWarmStart << ".\n";
+    if (os != nullptr)
+    {
+      *os << "QP unfeasible. QPOases error code: " << ret
+          << ". Number of working set recalculations: " << maxNbIterations
+          << ". Was warm start: " << doWarmStart << ".\n";
+    }
     return false;
   }
 
-- 
2.43.0


From c35431bf1ad549a39d27b33cb928449d3c2805b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:15 +0000
Subject: [PATCH 03/28] fix: do not warm start qpOASES after a failed
 initialisation

---
 qpsolver/src/qpsolver_qpoases.hxx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/qpsolver/src/qpsolver_qpoases.hxx b/qpsolver/src/qpsolver_qpoases.hxx
index 6ead07b..79ef36f 100644
--- a/qpsolver/src/qpsolver_qpoases.hxx
+++ b/qpsolver/src/qpsolver_qpoases.hxx
@@ -70,7 +70,8 @@ bool QPOasesSolver<Scalar>::solve(const QPMatrices<Scalar>& m,
     ret = qp_.init(m.Q.data(), m.p.data(), m.A.data(),
                    m.xl.data(), m.xu.data(), m.bl.data(), m.bu.data(),
                    maxNbIterations, 0);
-    qpIsInitialized_ = true;
+    // qpOASES cannot be warm started from a failed initialisation
+    qpIsInitialized_ = (ret == ::qpOASES::SUCCESSFUL_RETURN);
   }
   // we write the result even if qpOASES did report an error:
   // the "non-solution" might be useful: it is optimal but unfeasible with
-- 
2.43.0


From 732b845c1c0b223278c8d27e3da9868362b675a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:15 +0000
Subject: [PATCH 04/28] fix: size the humanoid QP solvers from the current
 configuration and polygons

---
 src/humanoid_walkgen.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/humanoid_walkgen.cpp b/src/humanoid_walkgen.cpp
index 57cc3cb..50332dc 100644
--- a/src/humanoid_walkgen.cpp
+++ b/src/humanoid_walkgen.cpp
@@ -94,6 +94,8 @@ namespace MPCWalkgen
       const ConvexPolygon<Scalar>& convexPolygon)
   {
     feetSupervisor_.setLeftFootKinematicConvexPolygon(convexPolygon);
+
+    computeConstantPart();
   }
 
   template <typename Scalar>
@@ -101,6 +103,8 @@ namespace MPCWalkgen
       const ConvexPolygon<Scalar> &convexPolygon)
   {
     feetSupervisor_.setRightFootKinematicConvexPolygon(convexPolygon);
+
+    computeConstantPart();
   }
 
   template <typename Scalar>
@@ -108,6 +112,8 @@ namespace MPCWalkgen
       const ConvexPolygon<Scalar>& convexPolygon)
   {
     feetSupervisor_.setLeftFootCopConvexPolygon(convexPolygon);
+
+    computeConstantPart();
   }
 
   template <typename Scalar>
@@ -115,6 +121,8 @@ namespace MPCWalkgen
       const ConvexPolygon<Scalar>& convexPolygon)
   {
     feetSupervisor_.setRightFootCopConvexPolygon(convexPolygon);
+
+    computeConstantPart();
   }
 
   template <typename Scalar>
@@ -458,6 +466,7 @@ namespace MPCWalkgen
   {
     // Updating qpoasesSolverVec_ and qpMatrixVec_
     maximumNbOfSteps_ = feetSupervisor_.getNbSamples();
+    maximumNbOfConstraints_ = 0;
     if(config_.withCopConstraints)
     {
       maximumNbOfConstraints_ = feetSupervisor_.getMaximumNbOfCopConstraints()
@@ -469,6 +478,7 @@ namespace MPCWalkgen
           *maximumNbOfSteps_;
     }
 
+    qpoasesSolverVec_.clear();
     qpoasesSolverVec_.reserve((maximumNbOfSteps_ + 1)*(maximumNbOfConstraints_ + 1));
     qpMatrixVec_.resize((maximumNbOfSteps_ + 1)*(maximumNbOfConstraints_ + 1));
 
-- 
2.43.0


From fe2003086f7e380df53cac746318e231d9775eb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:15 +0000
Subject: [PATCH 05/28] fix: humanoid generator read an unset variable when the
 solver gave no solution

---
 src/humanoid_walkgen.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/humanoid_walkgen.cpp b/src/humanoid_walkgen.cpp
index 50332dc..ace184d 100644
--- a/src/humanoid_walkgen.cpp
+++ b/src/humanoid_walkgen.cpp
@@ -433,7 +433,7 @@ namespace MPCWalkgen
     //Normalization of the matrices. The smallest element value of the QP matrices is at least one.
     qpMatrices.normalizeMatrices(Constant<Scalar>::EPSILON);
 
-    dX_.resize(sizeVec);
+    dX_.setZero(sizeVec);
 
     //The number of iterations can be high in the init phase (approximatively equals to the
     //number of constraints, aka 250)
-- 
2.43.0


From a447467cbfb02c6d2b5865326a267e5c99664d0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:15 +0000
Subject: [PATCH 06/28] fix: check the new weightings rather than the previous
 ones

---
 src/humanoid_walkgen.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/humanoid_walkgen.cpp b/src/humanoid_walkgen.cpp
index ace184d..7311886 100644
--- a/src/humanoid_walkgen.cpp
+++ b/src/humanoid_walkgen.cpp
@@ -294,9 +294,9 @@ namespace MPCWalkgen
   template <typename Scalar>
   void HumanoidWalkgen<Scalar>::setWeightings(const HumanoidWalkgenWeighting<Scalar>& weighting)
   {
-    assert(weighting_.velocityTracking >=0);
-    assert(weighting_.copCentering >=0);
-    assert(weighting_.jerkMinimization >=0);
+    assert(weighting.velocityTracking >=0);
+    assert(weighting.copCentering >=0);
+    assert(weighting.jerkMinimization >=0);
 
     weighting_ = weighting;
   }
-- 
2.43.0


From 2657ad45286db1c2ed968158c955a33abd7e8565 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:15 +0000
Subject: [PATCH 07/28] fix: initialise the tilt contact point in the default
 base model

---
 src/model/zebulon_base_model.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/model/zebulon_base_model.cpp b/src/model/zebulon_base_model.cpp
index 39155f1..88b6b93 100644
--- a/src/model/zebulon_base_model.cpp
+++ b/src/model/zebulon_base_model.cpp
@@ -58,6 +58,8 @@ BaseModel<Scalar>::BaseModel()
   ,velocityLimit_(1.0)
   ,accelerationLimit_(1.0)
   ,jerkLimit_(1.0)
+  ,tiltContactPointX_(0.0)
+  ,tiltContactPointY_(0.0)
   ,copSupportConvexPolygon_()
   ,comSupportConvexPolygon_()
 {
-- 
2.43.0


From 5188b9948e5bfa85684900db4a6f1bb57c63c0fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:44 +0000
Subject: [PATCH 08/28] fix: check the new gravity rather than the previous one

---
 src/model/lip_model.cpp          | 2 +-
 src/model/zebulon_base_model.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/model/lip_model.cpp b/src/model/lip_model.cpp
index 5809666..7eb99c3 100644
--- a/src/model/lip_model.cpp
+++ b/src/model/lip_model.cpp
@@ -224,7 +224,7 @@ template <typename Scalar>
 void LIPModel<Scalar>::setGravity(const Vector3& gravity)
 {
   assert(gravity==gravity);
-  assert(std::abs(gravity_(2))>Constant<Scalar>::EPSILON);
+  assert(std::abs(gravity(2))>Constant<Scalar>::EPSILON);
 
   gravity_ = gravity;
 
diff --git a/src/model/zebulon_base_model.cpp b/src/model/zebulon_base_model.cpp
index 88b6b93..96273ac 100644
--- a/src/model/zebulon_base_model.cpp
+++ b/src/model/zebulon_base_model.cpp
@@ -203,7 +203,7 @@ template <typename Scalar>
 void BaseModel<Scalar>::setGravity(const Vector3& gravity)
 {
   assert(gravity==gravity);
-  assert(std::abs(gravity_(2))>Constant<Scalar>::EPSILON);
+  assert(std::abs(gravity(2))>Constant<Scalar>::EPSILON);
 
   gravity_ = gravity;
 
-- 
2.43.0


From d4e03b2dad1009c676ec4e2a17ccfe6a8808131a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:44 +0000
Subject: [PATCH 09/28] fix: remove the steps which left the preview from the
 QP variable

---
 src/humanoid_feet_supervisor.cpp | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/humanoid_feet_supervisor.cpp b/src/humanoid_feet_supervisor.cpp
index 53324bf..c4a9598 100644
--- a/src/humanoid_feet_supervisor.cpp
+++ b/src/humanoid_feet_supervisor.cpp
@@ -526,18 +526,24 @@ namespace MPCWalkgen
       {
         enlargeStepVec(variable);
       }
-      // When the user set move_ to false this checks if the QP variable size must be reduce.
-      if(!move_ && (variable.rows() > 2*nbSamples_ + 2))
-      {
-        variable(2*nbSamples_ + 1) = variable(variable.rows()/2 + nbSamples_);
-        variable.conservativeResize(2*nbSamples_ + 2);
-      }
 
       // Decrementing timers
       phaseTimer_ -= samplingPeriod_;
       horizonTimer_ -= samplingPeriod_;
     }
 
+    // The preview contains less steps than before when the user set move_ to false or
+    // reduced the number of samples: this removes the last ones from the QP variable.
+    const int nbOfSteps = variable.rows()/2 - nbSamples_;
+    if(nbOfSteps > nbPreviewedSteps_)
+    {
+      for(int i=0; i<nbPreviewedSteps_; ++i)
+      {
+        variable(2*nbSamples_ + nbPreviewedSteps_ + i) = variable(2*nbSamples_ + nbOfSteps + i);
+      }
+      variable.conservativeResize(2*nbSamples_ + 2*nbPreviewedSteps_);
+    }
+
     //Removing useless phases
     timeline_.set_capacity(phaseIndex + 1);
 
-- 
2.43.0


From 5c581a4ed5e37f507dab5378d8b8da7dbfefb767 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:44 +0000
Subject: [PATCH 10/28] fix: swinging foot crossing its highest position
 between two feedbacks

---
 src/humanoid_feet_supervisor.cpp | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/src/humanoid_feet_supervisor.cpp b/src/humanoid_feet_supervisor.cpp
index c4a9598..4bdf377 100644
--- a/src/humanoid_feet_supervisor.cpp
+++ b/src/humanoid_feet_supervisor.cpp
@@ -592,18 +592,22 @@ namespace MPCWalkgen
                                timeToNextPhase_,
                                feedBackPeriod);
 
-      //Updating Z state for the flying foot, depending whether the foot is going up or down
-      if(timeToNextPhase_ < flyingTime*0.5f + Constant<Scalar>::EPSILON)
+      //Updating Z state for the flying foot, depending whether the foot is going up or down.
+      //The highest position may be reached in the middle of the feedback period.
+      const Scalar timeToApex = timeToNextPhase_ - flyingTime*0.5f;
+      Scalar goingUpPeriod = 0;
+      if(timeToApex > Constant<Scalar>::EPSILON)
       {
-        flyingFoot->updateStateZ(Vector3::Zero(),
-                                 timeToNextPhase_,
-                                 feedBackPeriod);
+        goingUpPeriod = std::min(timeToApex, feedBackPeriod);
+        flyingFoot->updateStateZ(Vector3(flyingFoot->getMaxHeight(), 0, 0),
+                                 timeToApex,
+                                 goingUpPeriod);
       }
-      else
+      if(feedBackPeriod - goingUpPeriod > Constant<Scalar>::EPSILON)
       {
-        flyingFoot->updateStateZ(Vector3(flyingFoot->getMaxHeight(), 0, 0),
-                                 timeToNextPhase_ - flyingTime*0.5f,
-                                 feedBackPeriod);
+        flyingFoot->updateStateZ(Vector3::Zero(),
+                                 timeToNextPhase_ - goingUpPeriod,
+                                 feedBackPeriod - goingUpPeriod);
       }
     }
 
-- 
2.43.0


From 1ed5bd77d00e9a807b737e8cd65d9bf86e88330c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:44 +0000
Subject: [PATCH 11/28] fix: resize the contact samples of the foot model with
 the preview

---
 src/model/humanoid_foot_model.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/model/humanoid_foot_model.cpp b/src/model/humanoid_foot_model.cpp
index d648d89..8e28886 100644
--- a/src/model/humanoid_foot_model.cpp
+++ b/src/model/humanoid_foot_model.cpp
@@ -58,6 +58,7 @@ namespace MPCWalkgen
     assert(nbSamples>0);
 
     nbSamples_ = nbSamples;
+    isInContact_.resize(nbSamples_, true);
   }
 
   template <typename Scalar>
-- 
2.43.0


From 5730caf5107ff218b7cf4c9bd2abdc7f07672255 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:36 +0000
Subject: [PATCH 12/28] fix: allow to decrease the masses of the mobile base

---
 src/zebulon_walkgen.cpp | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/zebulon_walkgen.cpp b/src/zebulon_walkgen.cpp
index 5b588a5..a85bbee 100644
--- a/src/zebulon_walkgen.cpp
+++ b/src/zebulon_walkgen.cpp
@@ -187,13 +187,11 @@ void ZebulonWalkgen<Scalar>::setBodyMass(Scalar mass)
 {
   assert(mass==mass);
 
-
   Scalar totalMass = mass + baseModel_.getMass();
+  lipModel_.setMass(mass);
   lipModel_.setTotalMass(totalMass);
   baseModel_.setTotalMass(totalMass);
 
-  lipModel_.setMass(mass);
-
   copConstraint_.computeConstantPart();
   copCenteringObj_.computeConstantPart();
   comCenteringObj_.updateGravityShift();
@@ -209,11 +207,10 @@ void ZebulonWalkgen<Scalar>::setBaseMass(Scalar mass)
   assert(mass==mass);
 
   Scalar totalMass = lipModel_.getMass() + mass;
+  baseModel_.setMass(mass);
   lipModel_.setTotalMass(totalMass);
   baseModel_.setTotalMass(totalMass);
 
-  baseModel_.setMass(mass);
-
   copConstraint_.computeConstantPart();
   copCenteringObj_.computeConstantPart();
   comCenteringObj_.updateGravityShift();
-- 
2.43.0


From edec3403721d6f585d110b8e0213f55d855b00e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:36 +0000
Subject: [PATCH 13/28] fix: update the tilt objectives when the height of the
 base changes

---
 src/zebulon_walkgen.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/zebulon_walkgen.cpp b/src/zebulon_walkgen.cpp
index a85bbee..84548d0 100644
--- a/src/zebulon_walkgen.cpp
+++ b/src/zebulon_walkgen.cpp
@@ -178,6 +178,8 @@ void ZebulonWalkgen<Scalar>::setComBaseHeight(Scalar comHeight)
   copConstraint_.computeConstantPart();
   copCenteringObj_.computeConstantPart();
   comCenteringObj_.updateGravityShift();
+  tiltMinObj_.computeConstantPart();
+  tiltVelMinObj_.computeConstantPart();
 
   computeConstantPart();
 }
-- 
2.43.0


From 03615b9e248ae3cd692129b43c2530dc0a80c1a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:36 +0000
Subject: [PATCH 14/28] fix: keep the gravity shift when the number of samples
 changes

---
 src/zebulon_walkgen.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/zebulon_walkgen.cpp b/src/zebulon_walkgen.cpp
index 84548d0..ae072f1 100644
--- a/src/zebulon_walkgen.cpp
+++ b/src/zebulon_walkgen.cpp
@@ -48,6 +48,7 @@ void ZebulonWalkgen<Scalar>::setNbSamples(int nbSamples)
   lipModel_.setNbSamples(nbSamples);
   baseModel_.setNbSamples(nbSamples);
   comCenteringObj_.setNbSamples(nbSamples);
+  comCenteringObj_.updateGravityShift();
 
   dX_.setZero(4*nbSamples);
   X_.setZero(4*nbSamples);
-- 
2.43.0


From 5491c1fb53fa604f2c91b0251d1f89b82307339f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:36 +0000
Subject: [PATCH 15/28] fix: tilt equation weighted the acceleration of each
 mass by the other mass

---
 src/function/zebulon_tilt_minimization_objective.cpp          | 4 ++--
 src/function/zebulon_tilt_velocity_minimization_objective.cpp | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/function/zebulon_tilt_minimization_objective.cpp b/src/function/zebulon_tilt_minimization_objective.cpp
index 4fb6ebf..221d208 100644
--- a/src/function/zebulon_tilt_minimization_objective.cpp
+++ b/src/function/zebulon_tilt_minimization_objective.cpp
@@ -122,8 +122,8 @@ void TiltMinimizationObjective<Scalar>::computeConstantPart()
   Scalar A2 = m*g;
   Scalar A3x = M*g*dbx;
   Scalar A3y = M*g*dby;
-  Scalar A4 = m*h;
-  Scalar A5 = M*L;
+  Scalar A4 = M*L;
+  Scalar A5 = m*h;
   Scalar A6 = m*h*h+M*L*L;
 
   const LinearDynamic<Scalar>& tiltAngleDyn = baseModel_.getBaseTiltAngleLinearDynamic();
diff --git a/src/function/zebulon_tilt_velocity_minimization_objective.cpp b/src/function/zebulon_tilt_velocity_minimization_objective.cpp
index c3af044..36dbaef 100644
--- a/src/function/zebulon_tilt_velocity_minimization_objective.cpp
+++ b/src/function/zebulon_tilt_velocity_minimization_objective.cpp
@@ -122,8 +122,8 @@ void TiltVelMinimizationObjective<Scalar>::computeConstantPart()
   Scalar A2 = m*g;
   Scalar A3x = M*g*dbx;
   Scalar A3y = M*g*dby;
-  Scalar A4 = m*h;
-  Scalar A5 = M*L;
+  Scalar A4 = M*L;
+  Scalar A5 = m*h;
   Scalar A6 = m*h*h+M*L*L;
 
   const LinearDynamic<Scalar>& tiltAngleDyn = baseModel_.getBaseTiltAngleLinearDynamic();
-- 
2.43.0


From c530f5cd06f97bf39ba6a051cd2fcdb20538dc4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:36 +0000
Subject: [PATCH 16/28] fix: sign of the gravity in the CoP reference given in
 the world frame

---
 src/function/zebulon_cop_centering_objective.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/function/zebulon_cop_centering_objective.cpp b/src/function/zebulon_cop_centering_objective.cpp
index b869632..794f819 100644
--- a/src/function/zebulon_cop_centering_objective.cpp
+++ b/src/function/zebulon_cop_centering_objective.cpp
@@ -175,7 +175,7 @@ void CopCenteringObjective<Scalar>::setCopRefInWorldFrame(
 
   copRefInLocalFrame_ = ( mb*g[2]*basePosRefInWorldFrame - mb*hb*baseAccRefInWorldFrame
                         + mc*g[2]*comPosRefInWorldFrame - mc*hc*comAccRefInWorldFrame
-                        + (mb*hb+mc*hc)*constantGravity_) / ((mb+mc)*g[2])
+                        - (mb*hb+mc*hc)*constantGravity_) / ((mb+mc)*g[2])
 
                         - basePosRefInWorldFrame; //In local Frame
 }
-- 
2.43.0


From b05e4a3856da8cfa71bc1f0845672eee8639d664 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:36 +0000
Subject: [PATCH 17/28] fix: keep the CoP and the CoM in their polygons, not in
 the reflected ones

---
 src/function/zebulon_com_constraint.cpp | 11 +++++++----
 src/function/zebulon_cop_constraint.cpp | 11 +++++++----
 2 files changed, 14 insertions(+), 8 deletions(-)

diff --git a/src/function/zebulon_com_constraint.cpp b/src/function/zebulon_com_constraint.cpp
index d0a3084..9ce576f 100644
--- a/src/function/zebulon_com_constraint.cpp
+++ b/src/function/zebulon_com_constraint.cpp
@@ -113,15 +113,18 @@ void ComConstraint<Scalar>::computeconstraintMatrices()
   A_.setZero(M*N, 2*N);
   b_.resize(M*N);
 
+  // A point z is inside the polygon if -n.z + n.p1 >= 0 for the outward normal n of each edge.
   for(int i=0; i<M; ++i)
   {
-    const Vector2& p1 = supportConvexPolygon.getVertices()[i];
-    const Vector2& p2 = supportConvexPolygon.getVertices()[(i+1)%M];
+    // The first rows are those of the edge opposite to the first one.
+    const int edge = (i+M/2)%M;
+    const Vector2& p1 = supportConvexPolygon.getVertices()[edge];
+    const Vector2& p2 = supportConvexPolygon.getVertices()[(edge+1)%M];
 
     for(int j=0; j<N; ++j)
     {
-      A_(i*N+j, j) = p2(1)-p1(1);
-      A_(i*N+j, j+N) = -p2(0)+p1(0);
+      A_(i*N+j, j) = p1(1)-p2(1);
+      A_(i*N+j, j+N) = p2(0)-p1(0);
       b_(i*N+j) = -p1(1)*(p2(0)-p1(0)) + p1(0)*(p2(1)-p1(1));
     }
   }
diff --git a/src/function/zebulon_cop_constraint.cpp b/src/function/zebulon_cop_constraint.cpp
index 6e2b3f7..d956c42 100644
--- a/src/function/zebulon_cop_constraint.cpp
+++ b/src/function/zebulon_cop_constraint.cpp
@@ -145,15 +145,18 @@ void CopConstraint<Scalar>::computeconstraintMatrices()
   A_.setZero(M*N, 2*N);
   b_.resize(M*N);
 
+  // A point z is inside the polygon if -n.z + n.p1 >= 0 for the outward normal n of each edge.
   for(int i=0; i<M; ++i)
   {
-    const Vector2& p1 = supportConvexPolygon.getVertices()[i];
-    const Vector2& p2 = supportConvexPolygon.getVertices()[(i+1)%M];
+    // The first rows are those of the edge opposite to the first one.
+    const int edge = (i+M/2)%M;
+    const Vector2& p1 = supportConvexPolygon.getVertices()[edge];
+    const Vector2& p2 = supportConvexPolygon.getVertices()[(edge+1)%M];
 
     for(int j=0; j<N; ++j)
     {
-      A_(i*N+j, j) = p2(1)-p1(1);
-      A_(i*N+j, j+N) = -p2(0)+p1(0);
+      A_(i*N+j, j) = p1(1)-p2(1);
+      A_(i*N+j, j+N) = p2(0)-p1(0);
       b_(i*N+j) = -p1(1)*(p2(0)-p1(0)) + p1(0)*(p2(1)-p1(1));
     }
   }
-- 
2.43.0


From 551391b8024ce3495e6dc42ca315053dbc13122c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:36 +0000
Subject: [PATCH 18/28] fix: X and Y states of the middle of the feet shared
 one variable

---
 mpc-walkgen/humanoid_feet_supervisor.h | 3 ++-
 src/humanoid_feet_supervisor.cpp       | 8 ++++----
 2 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/mpc-walkgen/humanoid_feet_supervisor.h b/mpc-walkgen/humanoid_feet_supervisor.h
index 2e4df92..164927b 100644
--- a/mpc-walkgen/humanoid_feet_supervisor.h
+++ b/mpc-walkgen/humanoid_feet_supervisor.h
@@ -213,7 +213,8 @@ namespace MPCWalkgen
       Scalar feedbackPeriod_;
 
       HumanoidFootModel<Scalar> leftFootModel_, rightFootModel_;
-      mutable VectorX middleState_;
+      mutable VectorX middleStateX_;
+      mutable VectorX middleStateY_;
       mutable ConvexPolygon<Scalar> copDSConvexPolygon_;
       mutable vectorOfVector2 copDSpoints_;
 
diff --git a/src/humanoid_feet_supervisor.cpp b/src/humanoid_feet_supervisor.cpp
index 4bdf377..cb4fede 100644
--- a/src/humanoid_feet_supervisor.cpp
+++ b/src/humanoid_feet_supervisor.cpp
@@ -424,8 +424,8 @@ namespace MPCWalkgen
     }
     else if(isInDS() && !move_)
     {
-      middleState_ = (rightFootModel_.getStateX() + leftFootModel_.getStateX())/2.0;
-      return middleState_;
+      middleStateX_ = (rightFootModel_.getStateX() + leftFootModel_.getStateX())/2.0;
+      return middleStateX_;
     }
     return leftFootModel_.getStateX();
   }
@@ -439,8 +439,8 @@ namespace MPCWalkgen
     }
     else if(isInDS() && !move_)
     {
-      middleState_ = (rightFootModel_.getStateY() + leftFootModel_.getStateY())/2.0;
-      return middleState_;
+      middleStateY_ = (rightFootModel_.getStateY() + leftFootModel_.getStateY())/2.0;
+      return middleStateY_;
     }
     return leftFootModel_.getStateY();
   }
-- 
2.43.0


From c4e1a3f28d4065a0e6f3a13ec6899e5c46bf503c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:16 +0000
Subject: [PATCH 19/28] fix: convex hull of points with copies, collinear
 points or a single point

---
 src/convexpolygon.cpp | 102 +++++++++++++++---------------------------
 1 file changed, 36 insertions(+), 66 deletions(-)

diff --git a/src/convexpolygon.cpp b/src/convexpolygon.cpp
index f561d3b..894f979 100644
--- a/src/convexpolygon.cpp
+++ b/src/convexpolygon.cpp
@@ -70,12 +70,11 @@ namespace MPCWalkgen
                                                    points[index](1)),
                                            points);
 
-    // Adding the other vertices until we reach the first index, which
-    // means the convex polygon has been completed
-    while(index != getIndexOfLowestAndLeftmostVertice(points))
+    // Adding the other vertices until we reach the first vertex (or a copy of it),
+    // which means the convex polygon has been completed
+    while((points[index] - p.front()).norm() >= Constant<Scalar>::EPSILON &&
+          p.size() < points.size())
     {
-      assert(p.size() <= points.size());
-
       p.push_back(points[index]);
       index = getIndexOfSmallestAngleVertice(index, *(p.end()-2), points);
     }
@@ -87,29 +86,19 @@ namespace MPCWalkgen
   template <typename Scalar>
   Scalar ConvexPolygon<Scalar>::angleBetweenVecs(const Vector2& vec1, const Vector2& vec2)
   {
-    if(vec1.isZero() ||
-       vec2.isZero() ||
-       vec1.isApprox(vec2, Constant<Scalar>::EPSILON))
+    if(vec1.isZero() || vec2.isZero())
     {
       return static_cast<Scalar>(0.);
     }
-    else if (vec1.isApprox(-vec2, Constant<Scalar>::EPSILON))
+
+    const Scalar angle = std::atan2(vec1(0)*vec2(1) - vec1(1)*vec2(0), vec1.dot(vec2));
+
+    // Vectors with opposite directions
+    if(angle < Constant<Scalar>::EPSILON - boost::math::constants::pi<Scalar>())
     {
       return boost::math::constants::pi<Scalar>();
     }
-    else
-    {
-      Scalar angle = vec1.dot(vec2)/(vec1.norm()*vec2.norm());
-
-      if(vec1(0)*vec2(1) - vec1(1)*vec2(0) >= static_cast<Scalar>(0.0))
-      {
-        return std::acos(angle);
-      }
-      else
-      {
-        return -std::acos(angle);
-      }
-    }
+    return angle;
   }
 
   template <typename Scalar>
@@ -164,63 +153,44 @@ namespace MPCWalkgen
       const Vector2& lastVertice,
       const vectorOfVector2& ptot)
   {
-    //Creating vector of indexes of the candidate for the next vertex
-    std::vector<int> indexesTab;
-    indexesTab.reserve(ptot.size() - 1);
+    const Scalar pi = boost::math::constants::pi<Scalar>();
+    const Vector2& current = ptot[currIndex];
 
-    // We push back index 0 arbitrarily, unless currIndex=0
-    if(currIndex!=0)
-    {
-      indexesTab.push_back(0);
-    }
-    else
-    {
-      indexesTab.push_back(1);
-    }
+    // We do not check the current vertex nor its copies among ptot vector.
+    std::vector<int> indexesTab;
+    std::vector<Scalar> anglesTab;
+    indexesTab.reserve(ptot.size());
+    anglesTab.reserve(ptot.size());
 
-    for (size_t i=1; i<ptot.size(); ++i)
+    Scalar smallestAngle = 2*pi;
+    for (size_t i=0; i<ptot.size(); ++i)
     {
-      // We do not check the current vertex. This if statement also avoids copies
-      // of the current vertex among ptot vector, i.e. we do not count the current
-      // vertex more than once
-      if(!ptot[i].isApprox(ptot[currIndex], Constant<Scalar>::EPSILON))
+      if((ptot[i] - current).norm() >= Constant<Scalar>::EPSILON)
       {
-        if(angleBetweenVecs(ptot[currIndex] - lastVertice,
-                            ptot[i] - ptot[currIndex]) <
-           angleBetweenVecs(ptot[currIndex] -
-                            lastVertice, ptot[indexesTab[0]] - ptot[currIndex]))
+        Scalar angle = angleBetweenVecs(current - lastVertice, ptot[i] - current);
+        // The points on the edge which has just been added are behind us
+        if(angle < -pi/2)
         {
-          indexesTab.erase(indexesTab.begin(), indexesTab.end());
-          indexesTab.push_back(i);
-        }
-        else if(std::abs(angleBetweenVecs(ptot[currIndex] - lastVertice,
-                                          ptot[i] - ptot[currIndex]) -
-                         angleBetweenVecs(ptot[currIndex] - lastVertice,
-                                          ptot[indexesTab[0]] - ptot[currIndex]))
-               < Constant<Scalar>::EPSILON)
-        {
-          indexesTab.push_back(i);
+          angle += 2*pi;
         }
+        indexesTab.push_back(i);
+        anglesTab.push_back(angle);
+        smallestAngle = std::min(smallestAngle, angle);
       }
     }
 
-    //Choosing the index of the furthest point from the current point
-    //among indexesTab
-    if (indexesTab.size()>1)
+    //Choosing the index of the furthest point from the current point among the points with
+    //the smallest angle. If every point is a copy of the current one, it is its own successor.
+    int index = currIndex;
+    for (size_t i=0; i<indexesTab.size(); ++i)
     {
-      int index = indexesTab[0];
-      for(size_t i=1; i<indexesTab.size(); ++i)
+      if(anglesTab[i] < smallestAngle + Constant<Scalar>::EPSILON &&
+         (ptot[indexesTab[i]] - current).norm() > (ptot[index] - current).norm())
       {
-        if((ptot[indexesTab[i]] - ptot[currIndex]).norm() >
-           (ptot[index] - ptot[currIndex]).norm())
-        {index = indexesTab[i];}
+        index = indexesTab[i];
       }
-      return index;
-    }
-    else
-    {
-      return indexesTab[0];
     }
+    return index;
   }
 
   template <typename Scalar>
-- 
2.43.0


From 7c8e3ed4a7e6e7a8594e39821b416aac39da00c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:16 +0000
Subject: [PATCH 20/28] fix: bounds of polygons reduced to a point or to a
 segment

---
 src/convexpolygon.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/convexpolygon.cpp b/src/convexpolygon.cpp
index 894f979..13cdcfd 100644
--- a/src/convexpolygon.cpp
+++ b/src/convexpolygon.cpp
@@ -245,6 +245,15 @@ namespace MPCWalkgen
             (p_[(i+1)%nbVertices](1) - p_[i](1))*p_[i](0);
       }
     }
+
+    // The edges of a single point or of a segment do not bound it
+    if (nbVertices==1 || nbVertices==2)
+    {
+      xInfBound_ = std::min(p_.front()(0), p_.back()(0));
+      xSupBound_ = std::max(p_.front()(0), p_.back()(0));
+      yInfBound_ = std::min(p_.front()(1), p_.back()(1));
+      ySupBound_ = std::max(p_.front()(1), p_.back()(1));
+    }
   }
 
   MPC_WALKGEN_INSTANTIATE_CLASS_TEMPLATE(ConvexPolygon);
-- 
2.43.0


From 5f7a6597f4d1dccb2d15c74dfde5ed6695417465 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:22 +0000
Subject: [PATCH 21/28] fix: convex hull whose lowest point lies inside an edge
 up to the precision

---
 src/convexpolygon.cpp | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/convexpolygon.cpp b/src/convexpolygon.cpp
index 13cdcfd..2b30f84 100644
--- a/src/convexpolygon.cpp
+++ b/src/convexpolygon.cpp
@@ -70,11 +70,23 @@ namespace MPCWalkgen
                                                    points[index](1)),
                                            points);
 
-    // Adding the other vertices until we reach the first vertex (or a copy of it),
+    // Adding the other vertices until we reach one of them (or a copy of it),
     // which means the convex polygon has been completed
-    while((points[index] - p.front()).norm() >= Constant<Scalar>::EPSILON &&
-          p.size() < points.size())
+    while(true)
     {
+      size_t first = 0;
+      while(first < p.size() &&
+            (points[index] - p[first]).norm() >= Constant<Scalar>::EPSILON)
+      {
+        ++first;
+      }
+      if(first < p.size())
+      {
+        // The first point is not a vertex if it lies, up to the precision, inside an edge
+        p.erase(p.begin(), p.begin() + first);
+        break;
+      }
+
       p.push_back(points[index]);
       index = getIndexOfSmallestAngleVertice(index, *(p.end()-2), points);
     }
-- 
2.43.0


From fc108394d9c10b37963e2c053cfff036b9eb24c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:30 +0000
Subject: [PATCH 22/28] fix: allow to increase and to decrease the masses of
 the mobile base

---
 src/zebulon_walkgen.cpp | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/zebulon_walkgen.cpp b/src/zebulon_walkgen.cpp
index ae072f1..e994a79 100644
--- a/src/zebulon_walkgen.cpp
+++ b/src/zebulon_walkgen.cpp
@@ -190,11 +190,18 @@ void ZebulonWalkgen<Scalar>::setBodyMass(Scalar mass)
 {
   assert(mass==mass);
 
+  // the models require at any time that the mass does not exceed the total mass
+  if (mass < lipModel_.getMass())
+  {
+    lipModel_.setMass(mass);
+  }
+
   Scalar totalMass = mass + baseModel_.getMass();
-  lipModel_.setMass(mass);
   lipModel_.setTotalMass(totalMass);
   baseModel_.setTotalMass(totalMass);
 
+  lipModel_.setMass(mass);
+
   copConstraint_.computeConstantPart();
   copCenteringObj_.computeConstantPart();
   comCenteringObj_.updateGravityShift();
@@ -209,11 +216,18 @@ void ZebulonWalkgen<Scalar>::setBaseMass(Scalar mass)
 {
   assert(mass==mass);
 
+  // the models require at any time that the mass does not exceed the total mass
+  if (mass < baseModel_.getMass())
+  {
+    baseModel_.setMass(mass);
+  }
+
   Scalar totalMass = lipModel_.getMass() + mass;
-  baseModel_.setMass(mass);
   lipModel_.setTotalMass(totalMass);
   baseModel_.setTotalMass(totalMass);
 
+  baseModel_.setMass(mass);
+
   copConstraint_.computeConstantPart();
   copCenteringObj_.computeConstantPart();
   comCenteringObj_.updateGravityShift();
-- 
2.43.0


From 2a566e3de5a202b6a9af73e325b11fef72cff2f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:04 +0000
Subject: [PATCH 23/28] fix: do not warm start qpOASES after a failed warm
 start

---
 qpsolver/src/qpsolver_qpoases.hxx | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/qpsolver/src/qpsolver_qpoases.hxx b/qpsolver/src/qpsolver_qpoases.hxx
index 79ef36f..5689dd5 100644
--- a/qpsolver/src/qpsolver_qpoases.hxx
+++ b/qpsolver/src/qpsolver_qpoases.hxx
@@ -70,9 +70,10 @@ bool QPOasesSolver<Scalar>::solve(const QPMatrices<Scalar>& m,
     ret = qp_.init(m.Q.data(), m.p.data(), m.A.data(),
                    m.xl.data(), m.xu.data(), m.bl.data(), m.bu.data(),
                    maxNbIterations, 0);
-    // qpOASES cannot be warm started from a failed initialisation
-    qpIsInitialized_ = (ret == ::qpOASES::SUCCESSFUL_RETURN);
   }
+  // qpOASES cannot be warm started from a failed initialisation, nor from an
+  // interrupted homotopy
+  qpIsInitialized_ = (ret == ::qpOASES::SUCCESSFUL_RETURN);
   // we write the result even if qpOASES did report an error:
   // the "non-solution" might be useful: it is optimal but unfeasible with
   // respect to some constraints.
-- 
2.43.0


From a009e9205cef8767bb9d35603bd9162ddcea39ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:57 +0000
Subject: [PATCH 24/28] fix: bounds of polygons with a short side nearly
 parallel to an axis

---
 src/convexpolygon.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/convexpolygon.cpp b/src/convexpolygon.cpp
index 2b30f84..50b21f5 100644
--- a/src/convexpolygon.cpp
+++ b/src/convexpolygon.cpp
@@ -218,8 +218,11 @@ namespace MPCWalkgen
     for (int i=0; i<nbVertices; ++i)
     {
       Vector2 hullEdge = p_[(i+1)%nbVertices] - p_[i];
+      // The direction of the side matters: a short side which is not parallel to an axis may
+      // be narrower than EPSILON, but its prolongation is not
+      const Scalar precision = Constant<Scalar>::EPSILON*hullEdge.norm();
 
-      if(std::abs(hullEdge(0))<Constant<Scalar>::EPSILON)
+      if(std::abs(hullEdge(0))<precision)
       {
         if(hullEdge(1)<0)
         {
@@ -230,7 +233,7 @@ namespace MPCWalkgen
           xSupBound_ = p_[i](0);
         }
       }
-      else if(std::abs(hullEdge(1))<Constant<Scalar>::EPSILON)
+      else if(std::abs(hullEdge(1))<precision)
       {
         if(hullEdge(0)<0)
         {
-- 
2.43.0


From 1b574deb86af76de7b75a3d7f8de1a554f268467 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:02 +0000
Subject: [PATCH 25/28] fix: first guess of a step planned while no other step
 is previewed

---
 src/humanoid_feet_supervisor.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/humanoid_feet_supervisor.cpp b/src/humanoid_feet_supervisor.cpp
index cb4fede..1b3e502 100644
--- a/src/humanoid_feet_supervisor.cpp
+++ b/src/humanoid_feet_supervisor.cpp
@@ -766,13 +766,13 @@ namespace MPCWalkgen
     }
 
     // Adding x and y coordinates of the new footstep position
-    if(isInDS() && (nbPreviewedSteps_==1))
+    if(newNbOfSteps == 1)
     {
       variable(2*nbSamples_ + newNbOfSteps - 1) =
-          getLeftFootStateX()(0) + (rightmostPointX + leftmostPointX)/2;
+          getSupportFootStateX()(0) + (rightmostPointX + leftmostPointX)/2;
 
       variable(newSize - 1) =
-          getLeftFootStateY()(0) + (lowestPointY + highestPointY)/2;
+          getSupportFootStateY()(0) + (lowestPointY + highestPointY)/2;
     }
     else
     {
-- 
2.43.0


From 36e3803bb5ad1b9e9d93fae2860fee7479c2809e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:29 +0000
Subject: [PATCH 26/28] fix: models created during static initialisation read a
 gravity that was not set yet

Constant<Scalar>::GRAVITY_VECTOR is initialised dynamically, in no defined order
with respect to other static objects: a global LIPModel, BaseModel or generator
saw a zero vector and asserted (or divided by zero). Build the vector from
GRAVITY_NORM, which is a constant expression.
---
 src/model/lip_model.cpp          | 4 ++--
 src/model/zebulon_base_model.cpp | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/model/lip_model.cpp b/src/model/lip_model.cpp
index 7eb99c3..ffd8ba6 100644
--- a/src/model/lip_model.cpp
+++ b/src/model/lip_model.cpp
@@ -24,7 +24,7 @@ LIPModel<Scalar>::LIPModel(int nbSamples,
   ,samplingPeriod_(samplingPeriod)
   ,feedbackPeriod_(samplingPeriod_)
   ,comHeight_(1.0)
-  ,gravity_(Constant<Scalar>::GRAVITY_VECTOR)
+  ,gravity_(0, 0, Constant<Scalar>::GRAVITY_NORM)
   ,mass_(1.0)
   ,totalMass_(1.0)
 {
@@ -49,7 +49,7 @@ LIPModel<Scalar>::LIPModel()
   ,samplingPeriod_(1.0)
   ,feedbackPeriod_(samplingPeriod_)
   ,comHeight_(1.0)
-  ,gravity_(Constant<Scalar>::GRAVITY_VECTOR)
+  ,gravity_(0, 0, Constant<Scalar>::GRAVITY_NORM)
   ,mass_(1.0)
   ,totalMass_(1.0)
 {
diff --git a/src/model/zebulon_base_model.cpp b/src/model/zebulon_base_model.cpp
index 96273ac..9ad7751 100644
--- a/src/model/zebulon_base_model.cpp
+++ b/src/model/zebulon_base_model.cpp
@@ -21,7 +21,7 @@ BaseModel<Scalar>::BaseModel(int nbSamples,
   ,nbSamples_(nbSamples)
   ,samplingPeriod_(samplingPeriod)
   ,comHeight_(0.0)
-  ,gravity_(Constant<Scalar>::GRAVITY_VECTOR)
+  ,gravity_(0, 0, Constant<Scalar>::GRAVITY_NORM)
   ,mass_(0.0)
   ,totalMass_(1.0)
   ,velocityLimit_(1.0)
@@ -52,7 +52,7 @@ BaseModel<Scalar>::BaseModel()
   ,nbSamples_(1)
   ,samplingPeriod_(1.0)
   ,comHeight_(0.0)
-  ,gravity_(Constant<Scalar>::GRAVITY_VECTOR)
+  ,gravity_(0, 0, Constant<Scalar>::GRAVITY_NORM)
   ,mass_(0.0)
   ,totalMass_(1.0)
   ,velocityLimit_(1.0)
-- 
2.43.0


From 2329ed744108303e44e8a07559a1eb51c345fb55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:08 +0000
Subject: [PATCH 27/28] fix: format the report of a failed solve in a stream of
 its own, std::cerr is shared by all threads

---
 src/trajectory_walkgen.cpp | 20 ++++++++++--------
 src/zebulon_walkgen.cpp    | 42 +++++++++++++++++++++-----------------
 2 files changed, 35 insertions(+), 27 deletions(-)

diff --git a/src/trajectory_walkgen.cpp b/src/trajectory_walkgen.cpp
index 9c315c2..307eaf0 100644
--- a/src/trajectory_walkgen.cpp
+++ b/src/trajectory_walkgen.cpp
@@ -6,6 +6,7 @@
 
 #include <mpc-walkgen/trajectory_walkgen.h>
 #include <iostream>
+#include <sstream>
 #include <mpc-walkgen/constant.h>
 #include <cmath>
 #include "macro.h"
@@ -193,14 +194,17 @@ bool TrajectoryWalkgen<Scalar>::solve(Scalar feedBackPeriod)
 
   if (!solutionFound)
   {
-    std::cerr << "Q : " << std::endl << qpMatrix_.Q << std::endl;
-    std::cerr << "p : " << qpMatrix_.p.transpose() << std::endl;
-    std::cerr << "A : " << std::endl << qpMatrix_.A << std::endl;
-    std::cerr << "bl: " << qpMatrix_.bl.transpose() << std::endl;
-    std::cerr << "bu: " << qpMatrix_.bu.transpose() << std::endl;
-    std::cerr << "X : " << X_.transpose() << std::endl;
-    std::cerr << "dX: " << dX_.transpose() << std::endl;
-    std::cerr << "c : " << noDynModel_.getState() << std::endl;
+    //Formatting matrices changes the settings of the stream: std::cerr is shared by all threads.
+    std::ostringstream report;
+    report << "Q : " << std::endl << qpMatrix_.Q << std::endl;
+    report << "p : " << qpMatrix_.p.transpose() << std::endl;
+    report << "A : " << std::endl << qpMatrix_.A << std::endl;
+    report << "bl: " << qpMatrix_.bl.transpose() << std::endl;
+    report << "bu: " << qpMatrix_.bu.transpose() << std::endl;
+    report << "X : " << X_.transpose() << std::endl;
+    report << "dX: " << dX_.transpose() << std::endl;
+    report << "c : " << noDynModel_.getState() << std::endl;
+    std::cerr << report.str();
   }
 
   X_ += dX_;
diff --git a/src/zebulon_walkgen.cpp b/src/zebulon_walkgen.cpp
index e994a79..a52eb94 100644
--- a/src/zebulon_walkgen.cpp
+++ b/src/zebulon_walkgen.cpp
@@ -7,6 +7,7 @@
 
 #include <mpc-walkgen/zebulon_walkgen.h>
 #include <iostream>
+#include <sstream>
 #include <mpc-walkgen/constant.h>
 #include <cmath>
 #include "macro.h"
@@ -544,25 +545,28 @@ bool ZebulonWalkgen<Scalar>::solve(Scalar feedBackPeriod)
 
   if (!solutionFound)
   {
-    std::cerr << "Q : " << std::endl << qpMatrix_.Q << std::endl;
-    std::cerr << "p : " << qpMatrix_.p.transpose() << std::endl;
-    std::cerr << "A : " << std::endl << qpMatrix_.A << std::endl;
-    std::cerr << "bl: " << qpMatrix_.bl.transpose() << std::endl;
-    std::cerr << "bu: " << qpMatrix_.bu.transpose() << std::endl;
-    std::cerr << "X : " << X_.transpose() << std::endl;
-    std::cerr << "dX: " << dX_.transpose() << std::endl;
-    std::cerr << "m : " << lipModel_.getMass() << std::endl;
-    std::cerr << "M : " << baseModel_.getMass() << std::endl;
-    std::cerr << "h : " << lipModel_.getComHeight() << std::endl;
-    std::cerr << "L : " << baseModel_.getComHeight() << std::endl;
-    std::cerr << "T : " << lipModel_.getSamplingPeriod() << std::endl;
-    std::cerr << "cx: " << lipModel_.getStateX() << std::endl;
-    std::cerr << "bx: " << baseModel_.getStateX() << std::endl;
-    std::cerr << "cy: " << lipModel_.getStateY() << std::endl;
-    std::cerr << "by: " << baseModel_.getStateY() << std::endl;
-    std::cerr << "bY: " << baseModel_.getStateYaw() << std::endl;
-    std::cerr << "bP: " << baseModel_.getStatePitch() << std::endl;
-    std::cerr << "bR: " << baseModel_.getStateRoll() << std::endl;
+    //Formatting matrices changes the settings of the stream: std::cerr is shared by all threads.
+    std::ostringstream report;
+    report << "Q : " << std::endl << qpMatrix_.Q << std::endl;
+    report << "p : " << qpMatrix_.p.transpose() << std::endl;
+    report << "A : " << std::endl << qpMatrix_.A << std::endl;
+    report << "bl: " << qpMatrix_.bl.transpose() << std::endl;
+    report << "bu: " << qpMatrix_.bu.transpose() << std::endl;
+    report << "X : " << X_.transpose() << std::endl;
+    report << "dX: " << dX_.transpose() << std::endl;
+    report << "m : " << lipModel_.getMass() << std::endl;
+    report << "M : " << baseModel_.getMass() << std::endl;
+    report << "h : " << lipModel_.getComHeight() << std::endl;
+    report << "L : " << baseModel_.getComHeight() << std::endl;
+    report << "T : " << lipModel_.getSamplingPeriod() << std::endl;
+    report << "cx: " << lipModel_.getStateX() << std::endl;
+    report << "bx: " << baseModel_.getStateX() << std::endl;
+    report << "cy: " << lipModel_.getStateY() << std::endl;
+    report << "by: " << baseModel_.getStateY() << std::endl;
+    report << "bY: " << baseModel_.getStateYaw() << std::endl;
+    report << "bP: " << baseModel_.getStatePitch() << std::endl;
+    report << "bR: " << baseModel_.getStateRoll() << std::endl;
+    std::cerr << report.str();
   }
 
   X_ += dX_;
-- 
2.43.0


From 7ec1ff91c2d08f890703766260791ebef34784f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:43:59 +0000
Subject: [PATCH 28/28] fix: changing the number of samples during a walk keeps
 the planned steps

HumanoidWalkgen::setNbSamples filled the whole QP variable with zeros, the
planned steps included, while the walk goes on. The bounds of the second
and later previewed steps and the double support polygon were then placed
around the world origin instead of around the robot for one cycle.
---
 src/humanoid_walkgen.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/humanoid_walkgen.cpp b/src/humanoid_walkgen.cpp
index 7311886..cf200a1 100644
--- a/src/humanoid_walkgen.cpp
+++ b/src/humanoid_walkgen.cpp
@@ -55,8 +55,11 @@ namespace MPCWalkgen
     // Updating QP variable sizes
     dX_.setZero(2*lipModel_.getNbSamples() +
                 2*feetSupervisor_.getNbPreviewedSteps());
-    X_.setZero(2*feetSupervisor_.getNbSamples() +
-               2*feetSupervisor_.getNbPreviewedSteps());
+    // The planned steps are kept: the next ones are linearised around them
+    const int nbOfSteps = feetSupervisor_.getNbPreviewedSteps();
+    const VectorX plannedSteps = X_.tail(2*nbOfSteps);
+    X_.setZero(2*feetSupervisor_.getNbSamples() + 2*nbOfSteps);
+    X_.tail(2*nbOfSteps) = plannedSteps;
 
     computeConstantPart();
   }
-- 
2.43.0

