From d76baf4be640012006f2eeda71f5041ab23994f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:07 +0000
Subject: [PATCH 01/48] fix: ConstantFunction::isEqual returned false for equal
 constants

---
 include/hpp/constraints/affine-function.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/hpp/constraints/affine-function.hh b/include/hpp/constraints/affine-function.hh
index 616f6a6..04d7968 100644
--- a/include/hpp/constraints/affine-function.hh
+++ b/include/hpp/constraints/affine-function.hh
@@ -183,7 +183,7 @@ struct HPP_CONSTRAINTS_DLLAPI ConstantFunction : public DifferentiableFunction {
         dynamic_cast<const ConstantFunction&>(other);
     if (!DifferentiableFunction::isEqual(other)) return false;
 
-    if (c_.vector() == castother.c_.vector()) return false;
+    if (c_.vector() != castother.c_.vector()) return false;
 
     return true;
   }
-- 
2.43.0


From 6ce798bdf0ea6ec292fa2b6a957ddaa9eecfe424 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:07 +0000
Subject: [PATCH 02/48] fix: ConvexShapeContact::isEqual compares all shapes
 and the margin

---
 src/convex-shape-contact.cc | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/convex-shape-contact.cc b/src/convex-shape-contact.cc
index e58dd9d..7900b65 100644
--- a/src/convex-shape-contact.cc
+++ b/src/convex-shape-contact.cc
@@ -72,10 +72,9 @@ bool ConvexShapeContact::isEqual(const DifferentiableFunction& other) const {
       dynamic_cast<const ConvexShapeContact&>(other);
   if (!DifferentiableFunction::isEqual(other)) return false;
   if (robot_ != castother.robot_) return false;
-  if (objectConvexShapes_.size() != castother.objectConvexShapes_.size())
-    return false;
-  for (std::size_t i = 0; i < objectConvexShapes_.size(); i++)
-    if (floorConvexShapes_[i] != castother.floorConvexShapes_[i]) return false;
+  if (objectConvexShapes_ != castother.objectConvexShapes_) return false;
+  if (floorConvexShapes_ != castother.floorConvexShapes_) return false;
+  if (normalMargin_ != castother.normalMargin_) return false;
   return true;
 }
 
-- 
2.43.0


From 97a47dc1931bc0864bc93f43f7f3201f922361fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:07 +0000
Subject: [PATCH 03/48] fix: DifferentiableFunctionSet::isEqual must not
 compare temporaries

---
 include/hpp/constraints/differentiable-function-set.hh | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/include/hpp/constraints/differentiable-function-set.hh b/include/hpp/constraints/differentiable-function-set.hh
index 5a578ef..538e33f 100644
--- a/include/hpp/constraints/differentiable-function-set.hh
+++ b/include/hpp/constraints/differentiable-function-set.hh
@@ -131,9 +131,6 @@ class HPP_CONSTRAINTS_DLLAPI DifferentiableFunctionSet
     if (!DifferentiableFunction::isEqual(other)) return false;
 
     if (functions_ != castother.functions_) return false;
-    if (result_.size() != castother.result_.size()) return false;
-    for (std::size_t i = 0; i < result_.size(); i++)
-      if (result_[i] != castother.result_[i]) return false;
 
     return true;
   }
-- 
2.43.0


From 7b3735259cfb4ddd6310de2faa60b2a7b862cb31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:07 +0000
Subject: [PATCH 04/48] fix: DistanceBetweenBodies::isEqual compares active
 pairs, not results

---
 include/hpp/constraints/distance-between-bodies.hh | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/hpp/constraints/distance-between-bodies.hh b/include/hpp/constraints/distance-between-bodies.hh
index 8d63fe6..a3859cc 100644
--- a/include/hpp/constraints/distance-between-bodies.hh
+++ b/include/hpp/constraints/distance-between-bodies.hh
@@ -107,7 +107,8 @@ class HPP_CONSTRAINTS_DLLAPI DistanceBetweenBodies
     if (robot_ != castother.robot_) return false;
     if (joint1_ != castother.joint1_) return false;
     if (joint2_ != castother.joint2_) return false;
-    if (data_ != castother.data_) return false;
+    if (data_.activeCollisionPairs != castother.data_.activeCollisionPairs)
+      return false;
 
     return true;
   }
-- 
2.43.0


From 0620523f0f9f3f3311775f0c01f243827ff7976c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:07 +0000
Subject: [PATCH 05/48] fix: GenericTransformation::isEqual compares joints and
 frames

---
 include/hpp/constraints/generic-transformation.hh | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/hpp/constraints/generic-transformation.hh b/include/hpp/constraints/generic-transformation.hh
index b578975..bc87877 100644
--- a/include/hpp/constraints/generic-transformation.hh
+++ b/include/hpp/constraints/generic-transformation.hh
@@ -351,6 +351,12 @@ class HPP_CONSTRAINTS_DLLAPI GenericTransformation
         dynamic_cast<const GenericTransformation&>(other);
     if (!DifferentiableFunction::isEqual(other)) return false;
     if (robot_ != castother.robot_) return false;
+    if (Joint::index(joint1()) != Joint::index(castother.joint1()))
+      return false;
+    if (Joint::index(joint2()) != Joint::index(castother.joint2()))
+      return false;
+    if (m_.F1inJ1 != castother.m_.F1inJ1) return false;
+    if (m_.F2inJ2 != castother.m_.F2inJ2) return false;
     if (mask_ != castother.mask_) return false;
 
     return true;
-- 
2.43.0


From 94327e327fea43696f136865a444e69272bb2d86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:07 +0000
Subject: [PATCH 06/48] fix: Manipulability::isEqual must not compare
 temporaries

---
 include/hpp/constraints/manipulability.hh | 2 --
 1 file changed, 2 deletions(-)

diff --git a/include/hpp/constraints/manipulability.hh b/include/hpp/constraints/manipulability.hh
index 52efbbe..66edead 100644
--- a/include/hpp/constraints/manipulability.hh
+++ b/include/hpp/constraints/manipulability.hh
@@ -72,8 +72,6 @@ class HPP_CONSTRAINTS_DLLAPI Manipulability : public DifferentiableFunction {
     if (function_ != castother.function_) return false;
     if (robot_ != castother.robot_) return false;
     if (cols_.cols() != castother.cols_.cols()) return false;
-    if (J_ != castother.J_) return false;
-    if (J_JT_ != castother.J_JT_) return false;
 
     return true;
   }
-- 
2.43.0


From 276c0f2e3df3fad6550e575f1cae64fb3612e94d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:07 +0000
Subject: [PATCH 07/48] fix: RelativeCom::isEqual compares the reference point

---
 include/hpp/constraints/relative-com.hh | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/hpp/constraints/relative-com.hh b/include/hpp/constraints/relative-com.hh
index f7428b1..b8c8377 100644
--- a/include/hpp/constraints/relative-com.hh
+++ b/include/hpp/constraints/relative-com.hh
@@ -111,6 +111,7 @@ class HPP_CONSTRAINTS_DLLAPI RelativeCom : public DifferentiableFunction {
     if (robot_ != castother.robot_) return false;
     if (comc_ != castother.comc_) return false;
     if (joint_ != castother.joint_) return false;
+    if (reference_ != castother.reference_) return false;
     if (mask_ != castother.mask_) return false;
     if (nominalCase_ != castother.nominalCase_) return false;
 
-- 
2.43.0


From 8af3493122032c6d55d03f244ef8978f587a1b9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:07 +0000
Subject: [PATCH 08/48] fix: Implicit::isEqual compares the masks

---
 src/implicit.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/implicit.cc b/src/implicit.cc
index 16a46fe..d8551a8 100644
--- a/src/implicit.cc
+++ b/src/implicit.cc
@@ -180,6 +180,7 @@ Implicit::Implicit(const Implicit& other)
 
 bool Implicit::isEqual(const Implicit& other, bool swapAndTest) const {
   if (comparison_ != other.comparison_) return false;
+  if (mask_ != other.mask_) return false;
   if (rhs_.size() != other.rhs_.size()) return false;
   if (function_ != other.function_ && *function_ != *other.function_)
     return false;
-- 
2.43.0


From 8bc830bfb5f4f2a2953c6282da90f9efe14494c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:07 +0000
Subject: [PATCH 09/48] fix: compare extracted functions by their content

---
 src/extracted-function.hh | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/extracted-function.hh b/src/extracted-function.hh
index 91c3335..0fca56b 100644
--- a/src/extracted-function.hh
+++ b/src/extracted-function.hh
@@ -74,6 +74,16 @@ class ExtractedFunction : public DifferentiableFunction {
     }
   }
 
+ protected:
+  virtual bool isEqual(const DifferentiableFunction& other) const {
+    const ExtractedFunction& castother =
+        dynamic_cast<const ExtractedFunction&>(other);
+    if (!DifferentiableFunction::isEqual(other)) return false;
+    if (reversed_ != castother.reversed_) return false;
+    if (t1_ != castother.t1_) return false;
+    return *original_ == *castother.original_;
+  }
+
  private:
   ExtractedFunction(const DifferentiableFunctionPtr_t& original,
                     interval_t paramRange)
-- 
2.43.0


From a1a0f1e5537c4ed9243f5b5c52ae3ebc74c8b5a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:25 +0000
Subject: [PATCH 10/48] fix: RelativeCom Jacobian uses no buffer shared between
 threads

---
 include/hpp/constraints/relative-com.hh |  1 -
 src/relative-com.cc                     | 12 +++++-------
 2 files changed, 5 insertions(+), 8 deletions(-)

diff --git a/include/hpp/constraints/relative-com.hh b/include/hpp/constraints/relative-com.hh
index b8c8377..f5136c9 100644
--- a/include/hpp/constraints/relative-com.hh
+++ b/include/hpp/constraints/relative-com.hh
@@ -125,7 +125,6 @@ class HPP_CONSTRAINTS_DLLAPI RelativeCom : public DifferentiableFunction {
   vector3_t reference_;
   std::vector<bool> mask_;
   bool nominalCase_;
-  mutable ComJacobian_t jacobian_;
 
   RelativeCom() {}
   HPP_SERIALIZABLE();
diff --git a/src/relative-com.cc b/src/relative-com.cc
index 9d55649..aa68c32 100644
--- a/src/relative-com.cc
+++ b/src/relative-com.cc
@@ -95,10 +95,8 @@ RelativeCom::RelativeCom(const DevicePtr_t& robot,
       joint_(joint),
       reference_(reference),
       mask_(mask),
-      nominalCase_(false),
-      jacobian_(3, robot->numberDof() - robot->extraConfigSpace().dimension()) {
+      nominalCase_(false) {
   if (mask[0] && mask[1] && mask[2]) nominalCase_ = true;
-  jacobian_.setZero();
 }
 
 std::ostream& RelativeCom::print(std::ostream& o) const {
@@ -151,19 +149,19 @@ void RelativeCom::impl_jacobian(matrixOut_t jacobian,
   jacobian.rightCols(jacobian.cols() - Jjoint.cols()).setZero();
   // Left part
   // J = 0RTj ( Jcom + [ x - 0tj ]x 0Rj jJwj - 0Rj jJtj)
-  jacobian_ = R.transpose() * Jcom;
-  jacobian_.noalias() +=
+  ComJacobian_t Jrel(R.transpose() * Jcom);
+  Jrel.noalias() +=
       (R.transpose() * R.colwise().cross(t - x)) * Jjoint.bottomRows<3>();
 
   if (nominalCase_) {
     jacobian.leftCols(Jjoint.cols()).noalias() =
-        jacobian_ - Jjoint.topRows<3>();
+        Jrel - Jjoint.topRows<3>();
   } else {
     size_t index = 0;
     for (size_t i = 0; i < 3; ++i)
       if (mask_[i]) {
         jacobian.row(index).head(Jjoint.cols()) =
-            jacobian_.row(i) - Jjoint.row(i);
+            Jrel.row(i) - Jjoint.row(i);
         index++;
       }
   }
-- 
2.43.0


From eda9c48bd536c5246fbeffd3b770b54f2fc4b550 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:03 +0000
Subject: [PATCH 11/48] fix: ConvexShapeContact evaluation uses no model shared
 between threads

---
 .../hpp/constraints/convex-shape-contact.hh   |  2 +-
 src/convex-shape-contact.cc                   | 30 ++++++++++---------
 2 files changed, 17 insertions(+), 15 deletions(-)

diff --git a/include/hpp/constraints/convex-shape-contact.hh b/include/hpp/constraints/convex-shape-contact.hh
index d64894b..f599da8 100644
--- a/include/hpp/constraints/convex-shape-contact.hh
+++ b/include/hpp/constraints/convex-shape-contact.hh
@@ -244,7 +244,7 @@ class HPP_CONSTRAINTS_DLLAPI ConvexShapeContact
                           const ConvexShape& floor) const;
 
   DevicePtr_t robot_;
-  mutable GenericTransformationModel<true> relativeTransformationModel_;
+  GenericTransformationModel<true> relativeTransformationModel_;
 
   ConvexShapes_t objectConvexShapes_;
   ConvexShapes_t floorConvexShapes_;
diff --git a/src/convex-shape-contact.cc b/src/convex-shape-contact.cc
index 7900b65..3c1d6a1 100644
--- a/src/convex-shape-contact.cc
+++ b/src/convex-shape-contact.cc
@@ -167,7 +167,8 @@ void ConvexShapeContact::computeInternalValue(const ConfigurationIn_t& argument,
                                               vector6_t& value,
                                               std::size_t& iobject,
                                               std::size_t& ifloor) const {
-  GTDataV<true, true, true, false> data(relativeTransformationModel_, robot_);
+  GenericTransformationModel<true> model(relativeTransformationModel_);
+  GTDataV<true, true, true, false> data(model, robot_);
 
   data.device.currentConfiguration(argument);
   data.device.computeForwardKinematics(pinocchio::JOINT_POSITION);
@@ -177,12 +178,12 @@ void ConvexShapeContact::computeInternalValue(const ConfigurationIn_t& argument,
       floor(floorConvexShapes_[ifloor]);
   type = contactType(object, floor);
 
-  relativeTransformationModel_.joint1 = floor.joint_;
-  relativeTransformationModel_.joint2 = object.joint_;
-  relativeTransformationModel_.F1inJ1 = floor.positionInJoint();
-  relativeTransformationModel_.F2inJ2 = object.positionInJoint();
-  relativeTransformationModel_.checkIsIdentity1();
-  relativeTransformationModel_.checkIsIdentity2();
+  model.joint1 = floor.joint_;
+  model.joint2 = object.joint_;
+  model.F1inJ1 = floor.positionInJoint();
+  model.F2inJ2 = object.positionInJoint();
+  model.checkIsIdentity1();
+  model.checkIsIdentity2();
 
   compute<true, true, true, false>::error(data);
   value = data.value;
@@ -226,7 +227,8 @@ void ConvexShapeContact::computeInternalJacobian(
     matrix_t& jacobian) const {
   static std::vector<bool> mask(6, true);
 
-  GTDataJ<true, true, true, false> data(relativeTransformationModel_, robot_);
+  GenericTransformationModel<true> model(relativeTransformationModel_);
+  GTDataJ<true, true, true, false> data(model, robot_);
 
   data.device.currentConfiguration(argument);
   data.device.computeForwardKinematics(pinocchio::JOINT_POSITION |
@@ -238,12 +240,12 @@ void ConvexShapeContact::computeInternalJacobian(
       floor(floorConvexShapes_[ifloor]);
   type = contactType(object, floor);
 
-  relativeTransformationModel_.joint1 = floor.joint_;
-  relativeTransformationModel_.joint2 = object.joint_;
-  relativeTransformationModel_.F1inJ1 = floor.positionInJoint();
-  relativeTransformationModel_.F2inJ2 = object.positionInJoint();
-  relativeTransformationModel_.checkIsIdentity1();
-  relativeTransformationModel_.checkIsIdentity2();
+  model.joint1 = floor.joint_;
+  model.joint2 = object.joint_;
+  model.F1inJ1 = floor.positionInJoint();
+  model.F2inJ2 = object.positionInJoint();
+  model.checkIsIdentity1();
+  model.checkIsIdentity2();
   data.cross2.setZero();
 
   compute<true, true, true, false>::error(data);
-- 
2.43.0


From e970e4016b0c465b4ca892e59dec134953d81d11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:10 +0000
Subject: [PATCH 12/48] fix: distance Jacobians read the kinematics of their
 argument

---
 src/distance-between-bodies.cc           | 4 ++++
 src/distance-between-points-in-bodies.cc | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/src/distance-between-bodies.cc b/src/distance-between-bodies.cc
index a22ac78..0925c48 100644
--- a/src/distance-between-bodies.cc
+++ b/src/distance-between-bodies.cc
@@ -131,6 +131,10 @@ void DistanceBetweenBodies::impl_jacobian(matrixOut_t jacobian,
                                           ConfigurationIn_t arg) const {
   LiegroupElement dist(outputSpace());
   impl_compute(dist, arg);
+  // impl_compute does not update the robot if arg is the latest argument.
+  robot_->currentConfiguration(arg);
+  robot_->computeForwardKinematics(pinocchio::JOINT_POSITION |
+                                   pinocchio::JACOBIAN);
   const JointJacobian_t& J1(joint1_->jacobian());
   const Transform3s& M1(joint1_->currentTransformation());
   const matrix3_t& R1(M1.rotation());
diff --git a/src/distance-between-points-in-bodies.cc b/src/distance-between-points-in-bodies.cc
index 0d70832..ed403c4 100644
--- a/src/distance-between-points-in-bodies.cc
+++ b/src/distance-between-points-in-bodies.cc
@@ -123,6 +123,10 @@ void DistanceBetweenPointsInBodies::impl_jacobian(matrixOut_t jacobian,
                                                   ConfigurationIn_t arg) const {
   LiegroupElement dist(outputSpace());
   impl_compute(dist, arg);
+  // impl_compute does not update the robot if arg is the latest argument.
+  robot_->currentConfiguration(arg);
+  robot_->computeForwardKinematics(pinocchio::JOINT_POSITION |
+                                   pinocchio::JACOBIAN);
   const JointJacobian_t& J1(joint1_->jacobian());
   const Transform3s& M1(joint1_->currentTransformation());
   const matrix3_t& R1(M1.rotation());
-- 
2.43.0


From 9e4733b6c4c5f7c77106a534135fd03467604092 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:53 +0000
Subject: [PATCH 13/48] fix: distance Jacobians accept extra configuration
 variables

---
 src/distance-between-bodies.cc           | 12 +++++++-----
 src/distance-between-points-in-bodies.cc |  5 +++--
 2 files changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/distance-between-bodies.cc b/src/distance-between-bodies.cc
index 0925c48..86a6178 100644
--- a/src/distance-between-bodies.cc
+++ b/src/distance-between-bodies.cc
@@ -147,10 +147,12 @@ void DistanceBetweenBodies::impl_jacobian(matrixOut_t jacobian,
   //        T (                              )
   // (P1-P2)  ( J    -   [P1 - t1]  J        )
   //          (  1 [0:3]          x  1 [3:6] )
-  jacobian = (P1_minus_P2.transpose() * R1 * J1.topRows<3>() +
-              P1_minus_P2.transpose() * R1.colwise().cross(P1_minus_t1) *
-                  J1.bottomRows<3>()) /
-             dist.vector()[0];
+  jacobian.rightCols(jacobian.cols() - J1.cols()).setZero();
+  jacobian.leftCols(J1.cols()) =
+      (P1_minus_P2.transpose() * R1 * J1.topRows<3>() +
+       P1_minus_P2.transpose() * R1.colwise().cross(P1_minus_t1) *
+           J1.bottomRows<3>()) /
+      dist.vector()[0];
   if (joint2_) {
     const JointJacobian_t& J2(joint2_->jacobian());
     const Transform3s& M2(joint2_->currentTransformation());
@@ -163,7 +165,7 @@ void DistanceBetweenBodies::impl_jacobian(matrixOut_t jacobian,
     matrix_t tmp2(P1_minus_P2.transpose() * R2 * J2.topRows<3>() +
                   P1_minus_P2.transpose() * R2.colwise().cross(P2_minus_t2) *
                       J2.bottomRows<3>());
-    jacobian.noalias() -= tmp2 / dist.vector()[0];
+    jacobian.leftCols(J2.cols()).noalias() -= tmp2 / dist.vector()[0];
   }
 }
 }  // namespace constraints
diff --git a/src/distance-between-points-in-bodies.cc b/src/distance-between-points-in-bodies.cc
index ed403c4..286f08c 100644
--- a/src/distance-between-points-in-bodies.cc
+++ b/src/distance-between-points-in-bodies.cc
@@ -147,6 +147,7 @@ void DistanceBetweenPointsInBodies::impl_jacobian(matrixOut_t jacobian,
   matrix_t tmp1(P1_minus_P2.transpose() * R1 * J1.topRows(3) +
                 P1_minus_P2.transpose() * R1.colwise().cross(P1_minus_t1) *
                     J1.bottomRows(3));
+  jacobian.rightCols(jacobian.cols() - J1.cols()).setZero();
   if (joint2_) {
     const JointJacobian_t& J2(joint2_->jacobian());
     const Transform3s& M2(joint2_->currentTransformation());
@@ -159,9 +160,9 @@ void DistanceBetweenPointsInBodies::impl_jacobian(matrixOut_t jacobian,
     matrix_t tmp2(P1_minus_P2.transpose() * R2 * J2.topRows(3) +
                   P1_minus_P2.transpose() * R2.colwise().cross(P2_minus_t2) *
                       J2.bottomRows(3));
-    jacobian = (tmp1 - tmp2) / dist.vector()[0];
+    jacobian.leftCols(J1.cols()) = (tmp1 - tmp2) / dist.vector()[0];
   } else {
-    jacobian = tmp1 / dist.vector()[0];
+    jacobian.leftCols(J1.cols()) = tmp1 / dist.vector()[0];
   }
 }
 
-- 
2.43.0


From 492702bbe1a629a0b4eabf2d6578892cb52d0544 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:53 +0000
Subject: [PATCH 14/48] fix: ComBetweenFeet Jacobian assigns the extra columns

---
 src/com-between-feet.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/com-between-feet.cc b/src/com-between-feet.cc
index cde152c..2b2ce08 100644
--- a/src/com-between-feet.cc
+++ b/src/com-between-feet.cc
@@ -131,6 +131,7 @@ void ComBetweenFeet::impl_jacobian(matrixOut_t jacobian,
   robot_->currentConfiguration(arg);
   robot_->computeForwardKinematics(pinocchio::JOINT_POSITION |
                                    pinocchio::JACOBIAN);
+  jacobian.rightCols(jacobian.cols() - jointRef_->jacobian().cols()).setZero();
   size_t index = 0;
   if (mask_[0]) {
     com_->invalidate();
-- 
2.43.0


From 5cdf3506a3597c4f77ccf3b70b5cdd9d0bb70928 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:53 +0000
Subject: [PATCH 15/48] fix: functions of parameter subsets assign the whole
 Jacobian

---
 include/hpp/constraints/function/difference.hh          | 1 +
 include/hpp/constraints/function/of-parameter-subset.hh | 1 +
 2 files changed, 2 insertions(+)

diff --git a/include/hpp/constraints/function/difference.hh b/include/hpp/constraints/function/difference.hh
index 1520a8a..aea1f2b 100644
--- a/include/hpp/constraints/function/difference.hh
+++ b/include/hpp/constraints/function/difference.hh
@@ -67,6 +67,7 @@ class HPP_CONSTRAINTS_LOCAL Difference
   }
 
   void impl_jacobian(matrixOut_t J, vectorIn_t arg) const {
+    J.setZero();
     inner_->jacobian(J.middleCols(lsd_.first, lsd_.second),
                      arg.segment(lsa_.first, lsa_.second));
     inner_->jacobian(J.middleCols(rsd_.first, rsd_.second),
diff --git a/include/hpp/constraints/function/of-parameter-subset.hh b/include/hpp/constraints/function/of-parameter-subset.hh
index aac7a98..da69135 100644
--- a/include/hpp/constraints/function/of-parameter-subset.hh
+++ b/include/hpp/constraints/function/of-parameter-subset.hh
@@ -83,6 +83,7 @@ class HPP_CONSTRAINTS_DLLAPI OfParameterSubset : public DifferentiableFunction {
   }
 
   void impl_jacobian(matrixOut_t J, vectorIn_t arg) const {
+    J.setZero();
     g_->jacobian(J.middleCols(sd_.first, sd_.second),
                  arg.segment(sa_.first, sa_.second));
   }
-- 
2.43.0


From 620872ef9db4a4a7d9dd094078ec229cc2e4734b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:08 +0000
Subject: [PATCH 16/48] fix: distance to a point of the world uses that point

---
 src/distance-between-points-in-bodies.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/distance-between-points-in-bodies.cc b/src/distance-between-points-in-bodies.cc
index 286f08c..bc1e270 100644
--- a/src/distance-between-points-in-bodies.cc
+++ b/src/distance-between-points-in-bodies.cc
@@ -112,7 +112,7 @@ void DistanceBetweenPointsInBodies::impl_compute(
     global2_ = joint2_->currentTransformation().act(point2_);
     result.vector()[0] = (global2_ - global1_).norm();
   } else {
-    result.vector()[0] = (global1_).norm();
+    result.vector()[0] = (global2_ - global1_).norm();
   }
 
   latestArgument_ = argument;
-- 
2.43.0


From 3a815f3622f4c598b87c740b3567f7256e8bc3af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:40 +0000
Subject: [PATCH 17/48] fix: SymbolicFunction output has one coefficient per
 active row

---
 include/hpp/constraints/symbolic-function.hh | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/hpp/constraints/symbolic-function.hh b/include/hpp/constraints/symbolic-function.hh
index e0ea622..1c6cb3d 100644
--- a/include/hpp/constraints/symbolic-function.hh
+++ b/include/hpp/constraints/symbolic-function.hh
@@ -30,6 +30,7 @@
 #define HPP_CONSTRAINTS_SYMBOLIC_FUNCTION_HH
 
 #include <hpp/constraints/config.hh>
+#include <algorithm>
 #include <hpp/constraints/differentiable-function.hh>
 #include <hpp/constraints/fwd.hh>
 #include <hpp/constraints/symbolic-calculus.hh>
@@ -85,7 +86,9 @@ class HPP_CONSTRAINTS_DLLAPI SymbolicFunction : public DifferentiableFunction {
                    const typename Traits<Expression>::Ptr_t expr,
                    std::vector<bool> mask)
       : DifferentiableFunction(robot->configSize(), robot->numberDof(),
-                               LiegroupSpace::Rn(expr->value().size()), name),
+                               LiegroupSpace::Rn(
+                                   std::count(mask.begin(), mask.end(), true)),
+                               name),
         robot_(robot),
         expr_(expr),
         mask_(mask) {
-- 
2.43.0


From a2e2058c8829cd955df3e0c6c6163796d4054ebb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:32 +0000
Subject: [PATCH 18/48] fix: symbolic expressions are created with invalid
 caches

---
 include/hpp/constraints/symbolic-calculus.hh | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/include/hpp/constraints/symbolic-calculus.hh b/include/hpp/constraints/symbolic-calculus.hh
index 7552cd0..e8743a2 100644
--- a/include/hpp/constraints/symbolic-calculus.hh
+++ b/include/hpp/constraints/symbolic-calculus.hh
@@ -189,13 +189,27 @@ template <class T, class ValueType = vector3_t,
           class JacobianType = JacobianMatrix, class CrossType = CrossMatrix>
 class CalculusBase : public CalculusBaseAbstract<ValueType, JacobianType> {
  public:
-  CalculusBase() : cross_(CrossMatrix::Zero()) {}
+  CalculusBase()
+      : cross_(CrossMatrix::Zero()),
+        vValid_(false),
+        jValid_(false),
+        cValid_(false) {}
 
   CalculusBase(const ValueType& value, const JacobianType& jacobian)
-      : value_(value), jacobian_(jacobian), cross_(CrossMatrix::Zero()) {}
+      : value_(value),
+        jacobian_(jacobian),
+        cross_(CrossMatrix::Zero()),
+        vValid_(false),
+        jValid_(false),
+        cValid_(false) {}
 
   CalculusBase(const CalculusBase& o)
-      : value_(o.value()), jacobian_(o.jacobian_), cross_(o.cross()) {}
+      : value_(o.value()),
+        jacobian_(o.jacobian_),
+        cross_(o.cross()),
+        vValid_(false),
+        jValid_(false),
+        cValid_(false) {}
 
   inline const ValueType& value() const { return value_; }
   inline const JacobianType& jacobian() const { return jacobian_; }
-- 
2.43.0


From e576bb672e93cca5e4e4694f28d983fcdae5cbc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:09 +0000
Subject: [PATCH 19/48] fix: PointInJoint Jacobian does not overwrite the
 cached cross product matrix

---
 include/hpp/constraints/symbolic-calculus.hh | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/hpp/constraints/symbolic-calculus.hh b/include/hpp/constraints/symbolic-calculus.hh
index e8743a2..9271759 100644
--- a/include/hpp/constraints/symbolic-calculus.hh
+++ b/include/hpp/constraints/symbolic-calculus.hh
@@ -641,12 +641,15 @@ class PointInJoint : public CalculusBase<PointInJoint> {
     const matrix3_t& R = joint_->currentTransformation().rotation();
     this->jacobian_.noalias() = R * J.topRows<3>();
     if (!center_) {
-      computeCrossRXl();
-      this->jacobian_.noalias() -= (this->cross_ * R) * J.bottomRows<3>();
+      // cross_ is the cross product matrix of the value, do not overwrite it.
+      CrossMatrix RXl(CrossMatrix::Zero());
+      computeCrossMatrix(R * local_, RXl);
+      this->jacobian_.noalias() -= (RXl * R) * J.bottomRows<3>();
     }
   }
   void computeCrossRXl() {
     if (joint_ == NULL) return;
+    this->cValid_ = false;
     if (center_) {
       this->cross_.setZero();
       return;
-- 
2.43.0


From 978b30646912222c6c438508028becb8cb82a592 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:30 +0000
Subject: [PATCH 20/48] fix: cross product matrix of a centre of mass uses its
 value

---
 include/hpp/constraints/symbolic-calculus.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/hpp/constraints/symbolic-calculus.hh b/include/hpp/constraints/symbolic-calculus.hh
index 9271759..be1c350 100644
--- a/include/hpp/constraints/symbolic-calculus.hh
+++ b/include/hpp/constraints/symbolic-calculus.hh
@@ -232,7 +232,7 @@ class CalculusBase : public CalculusBaseAbstract<ValueType, JacobianType> {
   void computeCrossValue(const ConfigurationIn_t arg) {
     if (cValid_) return;
     computeValue(arg);
-    computeCrossMatrix(value_, cross_);
+    computeCrossMatrix(static_cast<const T*>(this)->value(), cross_);
     cValid_ = true;
   }
 
-- 
2.43.0


From 4a8f9005e371c4c4c458850a24e6c171a728f129 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:33 +0000
Subject: [PATCH 21/48] fix: QPStaticStability Jacobian computes the contact
 matrix it uses

---
 src/qp-static-stability.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/qp-static-stability.cc b/src/qp-static-stability.cc
index 7767602..6028d84 100644
--- a/src/qp-static-stability.cc
+++ b/src/qp-static-stability.cc
@@ -181,6 +181,7 @@ void QPStaticStability::impl_jacobian(matrixOut_t jacobian,
 
   phi_.invalidate();
   // phi_.computeSVD (argument);
+  phi_.computeValue(argument);
   phi_.computeJacobian(argument);
 
   vector_t res(1);
-- 
2.43.0


From 8cdbca98bd61f0243a006b8438b5ac347c3e96e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:33 +0000
Subject: [PATCH 22/48] fix: a copied MatrixOfExpressions starts with invalid
 caches

---
 include/hpp/constraints/symbolic-calculus.hh | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/hpp/constraints/symbolic-calculus.hh b/include/hpp/constraints/symbolic-calculus.hh
index be1c350..120c1a4 100644
--- a/include/hpp/constraints/symbolic-calculus.hh
+++ b/include/hpp/constraints/symbolic-calculus.hh
@@ -917,8 +917,8 @@ class MatrixOfExpressions
         nCols_(static_cast<const MatrixOfExpressions&>(other).nCols_),
         elements_(static_cast<const MatrixOfExpressions&>(other).elements_),
         svd_(static_cast<const MatrixOfExpressions&>(other).svd_),
-        piValid_(static_cast<const MatrixOfExpressions&>(other).piValid_),
-        svdValid_(static_cast<const MatrixOfExpressions&>(other).svdValid_) {}
+        piValid_(false),
+        svdValid_(false) {}
 
   MatrixOfExpressions(const MatrixOfExpressions& matrix)
       : Parent_t(matrix),
@@ -926,8 +926,8 @@ class MatrixOfExpressions
         nCols_(matrix.nCols_),
         elements_(matrix.elements_),
         svd_(matrix.svd_),
-        piValid_(matrix.piValid_),
-        svdValid_(matrix.svdValid_) {}
+        piValid_(false),
+        svdValid_(false) {}
 
   void setSize(std::size_t nRows, std::size_t nCols) {
     nRows_ = nRows;
-- 
2.43.0


From eae097d1f07354151c6c2944dfda0e1536450a15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:16 +0000
Subject: [PATCH 23/48] fix: evaluate the Jacobian of an extracted function
 where its value is

In ExtractedFunction the value at x is that of the original function at
t1 + x, but the Jacobian was evaluated at x - t1.
---
 src/extracted-function.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/extracted-function.hh b/src/extracted-function.hh
index 0fca56b..3b6130b 100644
--- a/src/extracted-function.hh
+++ b/src/extracted-function.hh
@@ -69,7 +69,7 @@ class ExtractedFunction : public DifferentiableFunction {
       original_->jacobian(jacobian, param);
       jacobian *= -1;
     } else {
-      param[0] = arg[0] - t1_;
+      param[0] = t1_ + arg[0];
       return original_->jacobian(jacobian, param);
     }
   }
-- 
2.43.0


From e76a19806e63099bd78b05c566b3389c98509da9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:58 +0000
Subject: [PATCH 24/48] fix: BySubstitution gives the tail of the right hand
 side to the explicit constraints

---
 src/solver/by-substitution.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/solver/by-substitution.cc b/src/solver/by-substitution.cc
index 3039fb4..ed4b1b7 100644
--- a/src/solver/by-substitution.cc
+++ b/src/solver/by-substitution.cc
@@ -352,7 +352,7 @@ void BySubstitution::rightHandSide(vectorIn_t rhs) {
   const size_type top = parent_t::rightHandSideSize();
   const size_type bot = explicit_.rightHandSideSize();
   parent_t::rightHandSide(rhs.head(top));
-  explicit_.rightHandSide(rhs.head(bot));
+  explicit_.rightHandSide(rhs.tail(bot));
 }
 
 vector_t BySubstitution::rightHandSide() const {
-- 
2.43.0


From f791c3ce882272a77790da66c0a4bc43b10dfb34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:51 +0000
Subject: [PATCH 25/48] fix: right hand side of the levels of a solver is
 addressed within each level

---
 src/solver/hierarchical-iterative.cc | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/solver/hierarchical-iterative.cc b/src/solver/hierarchical-iterative.cc
index 9b153ba..e1c80e0 100644
--- a/src/solver/hierarchical-iterative.cc
+++ b/src/solver/hierarchical-iterative.cc
@@ -562,7 +562,7 @@ bool HierarchicalIterative::isConstraintSatisfied(
 }
 
 void HierarchicalIterative::rightHandSide(vectorIn_t rightHandSide) {
-  size_type iq = 0, iv = 0;
+  size_type iq = 0;
   for (std::size_t i = 0; i < stacks_.size(); ++i) {
     Data& d = datas_[i];
     LiegroupSpacePtr_t space(d.rightHandSide.space());
@@ -571,17 +571,16 @@ void HierarchicalIterative::rightHandSide(vectorIn_t rightHandSide) {
     pinocchio::LiegroupElementConstRef output(
         space->elementConstRef(rightHandSide.segment(iq, nq)));
     LiegroupElementRef rhs(
-        space->elementRef(d.rightHandSide.vector().segment(iq, nq)));
+        space->elementRef(d.rightHandSide.vector().head(nq)));
 
     // d.error is used here as an intermediate storage. The value
     // computed is not the error
     d.error = output - space->neutral();  // log (rightHandSide)
     for (size_type k = 0; k < nv; ++k) {
-      if (d.comparison[iv + k] != Equality) assert(d.error[k] == 0);
+      if (d.comparison[k] != Equality) assert(d.error[k] == 0);
     }
     rhs = space->neutral() + d.error;  // exp (d.error)
     iq += nq;
-    iv += nv;
   }
   assert(iq == rightHandSide.size());
 }
-- 
2.43.0


From a6476e9ffa4f1e19f0e9fba19c933420538dc4c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:51 +0000
Subject: [PATCH 26/48] fix: extracting a solver does not replace the explicit
 constraints of the source

---
 src/solver/by-substitution.cc | 13 +++----------
 1 file changed, 3 insertions(+), 10 deletions(-)

diff --git a/src/solver/by-substitution.cc b/src/solver/by-substitution.cc
index ed4b1b7..4063173 100644
--- a/src/solver/by-substitution.cc
+++ b/src/solver/by-substitution.cc
@@ -116,26 +116,19 @@ bool BySubstitution::add(const ImplicitPtr_t& nm, const std::size_t& priority) {
   return true;
 }
 
-// We need to replace each numerical constraint by its extracted copy as in
-// HierachicalIterative, but also to replace shared pointers to initial
-// constraints by shared pointer to extracted constraints in explicit constraint
-// set.
+// The copy constructor has already replaced the constraints by copies in the
+// list of constraints, in the stacks and in the explicit constraint set of the
+// result.
 BySubstitution BySubstitution::extract(interval_t interval) {
   BySubstitution res(*this);
-  std::map<ImplicitPtr_t, ImplicitPtr_t> oldToNew;
-  NumericalConstraints_t::const_iterator oldIt = constraints_.begin();
   for (NumericalConstraints_t::iterator newIt = res.constraints_.begin();
        newIt != res.constraints_.end(); ++newIt) {
     ImplicitPtr_t newC(*newIt);
-    ImplicitPtr_t oldC(*oldIt);
-    oldToNew[oldC] = newC;
     if (newC->rightHandSideFunction()) {
       newC->rightHandSideFunction(DifferentiableFunction::extract(
           newC->rightHandSideFunction(), interval));
     }
-    ++oldIt;
   }
-  explicit_.replace(oldToNew);
   return res;
 }
 
-- 
2.43.0


From 2489b8a15f384c9e4b90d36596e380be6593dfb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:52 +0000
Subject: [PATCH 27/48] fix: isConstraintSatisfied applies the comparison types
 to the error

---
 src/solver/hierarchical-iterative.cc | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/solver/hierarchical-iterative.cc b/src/solver/hierarchical-iterative.cc
index e1c80e0..21f94d9 100644
--- a/src/solver/hierarchical-iterative.cc
+++ b/src/solver/hierarchical-iterative.cc
@@ -557,6 +557,16 @@ bool HierarchicalIterative::isConstraintSatisfied(
                          f->outputSpace());
   f->value(output, arg);
   error = output - rhs;
+  // Handle inequalities as computeValue does
+  const size_type iv = itIv->second;
+  for (std::size_t j : d.inequalityIndices) {
+    const size_type k = (size_type)j - iv;
+    if (k < 0 || k >= error.size()) continue;
+    if (d.comparison[j] == Superior)
+      compare<true, false>(error[k], d.jacobian.row(j), inequalityThreshold_);
+    else
+      compare<false, false>(error[k], d.jacobian.row(j), inequalityThreshold_);
+  }
   constraint->setInactiveRowsToZero(error);
   return (error.squaredNorm() < squaredErrorThreshold_);
 }
-- 
2.43.0


From 6e3d53cf47a03ca33e31de68dabaaf0166f10b5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:52 +0000
Subject: [PATCH 28/48] fix: inactive rows of inequality type do not contribute
 to the error of a solver

---
 src/solver/hierarchical-iterative.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/solver/hierarchical-iterative.cc b/src/solver/hierarchical-iterative.cc
index 21f94d9..8134acb 100644
--- a/src/solver/hierarchical-iterative.cc
+++ b/src/solver/hierarchical-iterative.cc
@@ -640,7 +640,6 @@ void HierarchicalIterative::computeValue(vectorIn_t config) const {
     assert(hpp::pinocchio::checkNormalized(d.output));
     assert(hpp::pinocchio::checkNormalized(d.rightHandSide));
     d.error = d.output - d.rightHandSide;
-    constraints.setInactiveRowsToZero(d.error);
     if (ComputeJac) {
       f.jacobian(d.jacobian, config);
       d.output.space()->dDifference_dq1<pinocchio::DerivativeTimesInput>(
@@ -648,6 +647,7 @@ void HierarchicalIterative::computeValue(vectorIn_t config) const {
     }
     applyComparison<ComputeJac>(d.comparison, d.inequalityIndices, d.error,
                                 d.jacobian, inequalityThreshold_);
+    constraints.setInactiveRowsToZero(d.error);
 
     // Copy columns that are not reduced
     if (ComputeJac) d.reducedJ = d.activeRowsOfJ.rview(d.jacobian);
-- 
2.43.0


From be8facfd035c00a46c5565028bfafd9eeafed732 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:49 +0000
Subject: [PATCH 29/48] fix: a copied solver does not share the output spaces
 of the source

---
 src/solver/hierarchical-iterative.cc | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/solver/hierarchical-iterative.cc b/src/solver/hierarchical-iterative.cc
index 8134acb..4a73d18 100644
--- a/src/solver/hierarchical-iterative.cc
+++ b/src/solver/hierarchical-iterative.cc
@@ -250,6 +250,14 @@ HierarchicalIterative::HierarchicalIterative(const HierarchicalIterative& other)
   for (auto& ics : stacks_) {
     ics.replace(oldToNew);
   }
+  // The space of the output of a stack is modified when adding a constraint.
+  // Do not share it with the stacks of the other solver.
+  for (std::size_t i = 0; i < stacks_.size(); ++i) {
+    const LiegroupSpacePtr_t& space(stacks_[i].function().outputSpace());
+    datas_[i].output = LiegroupElement(other.datas_[i].output.vector(), space);
+    datas_[i].rightHandSide =
+        LiegroupElement(other.datas_[i].rightHandSide.vector(), space);
+  }
 }
 
 bool HierarchicalIterative::contains(
-- 
2.43.0


From ab992f9142933494081106972ce4947c74960581 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:33 +0000
Subject: [PATCH 30/48] fix: adding a constraint to a constraint set updates
 its parameter and right hand side sizes

---
 include/hpp/constraints/implicit-constraint-set.hh | 2 ++
 src/implicit.cc                                    | 1 +
 2 files changed, 3 insertions(+)

diff --git a/include/hpp/constraints/implicit-constraint-set.hh b/include/hpp/constraints/implicit-constraint-set.hh
index 553c7d3..851b9da 100644
--- a/include/hpp/constraints/implicit-constraint-set.hh
+++ b/include/hpp/constraints/implicit-constraint-set.hh
@@ -72,9 +72,11 @@ class HPP_CONSTRAINTS_DLLAPI ImplicitConstraintSet : public Implicit {
     // Handle mask
     mask_.insert(mask_.end(), constraint->mask_.begin(),
                  constraint->mask_.end());
+    parameterSize_ += constraint->parameterSize();
     // Recompute active rows
     computeActiveRows();
     computeIndices();
+    rhs_ = vector_t::Zero(functions->outputSize());
     // Resize temporary variables
     output_ = LiegroupElement(functions->outputSpace());
     logOutput_.resize(functions->outputSpace()->nv());
diff --git a/src/implicit.cc b/src/implicit.cc
index d8551a8..7aeddb1 100644
--- a/src/implicit.cc
+++ b/src/implicit.cc
@@ -138,6 +138,7 @@ Implicit::Implicit(const DifferentiableFunctionPtr_t& function,
 // Compute active rows
 void Implicit::computeActiveRows() {
   segments_t inactiveRows;
+  activeRows_.clear();
   for (std::size_t i = 0; i < mask_.size(); ++i) {
     if (mask_[i])
       activeRows_.push_back(segment_t(i, 1));
-- 
2.43.0


From 6c0bf962f7dcd525de34aa456c8005580eba6d50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:50 +0000
Subject: [PATCH 31/48] fix: loading an implicit constraint sets the size of
 its buffers

---
 src/implicit.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/implicit.cc b/src/implicit.cc
index 7aeddb1..8d90a5e 100644
--- a/src/implicit.cc
+++ b/src/implicit.cc
@@ -259,6 +259,8 @@ void Implicit::serialize(Archive& ar, const unsigned int version) {
   if (!Archive::is_saving::value) {
     computeActiveRows();
     computeIndices();
+    output_ = LiegroupElement(function_->outputSpace());
+    logOutput_.resize(function_->outputSpace()->nv());
   }
 }
 
-- 
2.43.0


From 12c5f9585f7b19ca594bdba23c4b99c9a966ec00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:47 +0000
Subject: [PATCH 32/48] fix: loading a transformation function restores the
 selection of its rows

---
 src/generic-transformation.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/generic-transformation.cc b/src/generic-transformation.cc
index 2bbdd13..f91a7fb 100644
--- a/src/generic-transformation.cc
+++ b/src/generic-transformation.cc
@@ -288,6 +288,10 @@ void GenericTransformation<_Options>::serialize(Archive& ar,
   ar& boost::serialization::make_nvp("mask_",
                                      const_cast<std::vector<bool>&>(mask_));
   ar& BOOST_SERIALIZATION_NVP(self_);
+  if (!Archive::is_saving::value)
+    Vindices_ =
+        indices<(bool)ComputePosition, (bool)ComputeOrientation,
+                (bool)OutputR3xSO3>(mask_);
 }
 
 /// Force instanciation of relevant classes
-- 
2.43.0


From 7fb3f4779ec3296bcfe552807ceda9efe459cde0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:10 +0000
Subject: [PATCH 33/48] fix: archive the map from configuration to velocity
 indices of saturation bounds

---
 include/hpp/constraints/solver/hierarchical-iterative.hh | 3 +++
 src/solver/hierarchical-iterative.cc                     | 4 ++++
 2 files changed, 7 insertions(+)

diff --git a/include/hpp/constraints/solver/hierarchical-iterative.hh b/include/hpp/constraints/solver/hierarchical-iterative.hh
index fbf1767..75b3041 100644
--- a/include/hpp/constraints/solver/hierarchical-iterative.hh
+++ b/include/hpp/constraints/solver/hierarchical-iterative.hh
@@ -29,6 +29,7 @@
 #ifndef HPP_CONSTRAINTS_SOLVER_HIERARCHICAL_ITERATIVE_HH
 #define HPP_CONSTRAINTS_SOLVER_HIERARCHICAL_ITERATIVE_HH
 
+#include <boost/serialization/version.hpp>
 #include <functional>
 #include <hpp/constraints/config.hh>
 #include <hpp/constraints/fwd.hh>
@@ -661,4 +662,6 @@ inline std::ostream& operator<<(std::ostream& os,
 }  // namespace constraints
 }  // namespace hpp
 
+BOOST_CLASS_VERSION(hpp::constraints::solver::saturation::Bounds, 1)
+
 #endif  // HPP_CONSTRAINTS_SOLVER_HIERARCHICAL_ITERATIVE_HH
diff --git a/src/solver/hierarchical-iterative.cc b/src/solver/hierarchical-iterative.cc
index 4a73d18..7c0a6be 100644
--- a/src/solver/hierarchical-iterative.cc
+++ b/src/solver/hierarchical-iterative.cc
@@ -967,6 +967,10 @@ void serialize(Archive& ar, saturation::Bounds& o, const unsigned int version) {
                                                          version);
   hpp::serialization::remove_duplicate::serialize_vector(ar, "ub", o.ub,
                                                          version);
+  if (version > 0)
+    ar& make_nvp("iq2iv", o.iq2iv_);
+  else
+    o = saturation::Bounds(o.lb, o.ub);
 }
 }  // namespace serialization
 }  // namespace boost
-- 
2.43.0


From fe8208c1a712bec71bb1b6d87dc8fc6406411b9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:10 +0000
Subject: [PATCH 34/48] fix: a loaded solver has no uninitialised member and a
 saturation of the right size

---
 include/hpp/constraints/solver/hierarchical-iterative.hh | 7 ++++++-
 src/solver/hierarchical-iterative.cc                     | 2 +-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/include/hpp/constraints/solver/hierarchical-iterative.hh b/include/hpp/constraints/solver/hierarchical-iterative.hh
index 75b3041..04c2be5 100644
--- a/include/hpp/constraints/solver/hierarchical-iterative.hh
+++ b/include/hpp/constraints/solver/hierarchical-iterative.hh
@@ -648,7 +648,12 @@ class HPP_CONSTRAINTS_DLLAPI HierarchicalIterative {
   friend struct lineSearch::Backtracking;
 
  protected:
-  HierarchicalIterative() {}
+  HierarchicalIterative()
+      : dimension_(0),
+        reducedDimension_(0),
+        solveLevelByLevel_(false),
+        sigma_(0),
+        squaredNorm_(0) {}
 
  private:
   HPP_SERIALIZABLE_SPLIT();
diff --git a/src/solver/hierarchical-iterative.cc b/src/solver/hierarchical-iterative.cc
index 7c0a6be..c5e5ce5 100644
--- a/src/solver/hierarchical-iterative.cc
+++ b/src/solver/hierarchical-iterative.cc
@@ -896,7 +896,7 @@ void HierarchicalIterative::load(Archive& ar, const unsigned int version) {
   ar& BOOST_SERIALIZATION_NVP(lastIsOptional_);
   ar& BOOST_SERIALIZATION_NVP(saturate_);
 
-  saturation_.resize(configSpace_->nq());
+  saturation_.resize(configSpace_->nv());
   qSat_.resize(configSpace_->nq());
   OM_.resize(configSpace_->nv());
   OP_.resize(configSpace_->nv());
-- 
2.43.0


From 4d7377842bda694eb703c78a3e936471c645a070 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:35 +0000
Subject: [PATCH 35/48] fix: a loaded solver by substitution gives its error
 threshold to the explicit constraints

---
 src/solver/by-substitution.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/solver/by-substitution.cc b/src/solver/by-substitution.cc
index 4063173..676cbe7 100644
--- a/src/solver/by-substitution.cc
+++ b/src/solver/by-substitution.cc
@@ -381,7 +381,9 @@ void BySubstitution::load(Archive& ar, const unsigned int version) {
   LiegroupSpacePtr_t space;
   ar& BOOST_SERIALIZATION_NVP(space);
   explicit_.init(space);
+  JeExpanded_.resize(space->nv(), space->nv());
   ar& make_nvp("base", base_object<HierarchicalIterative>(*this));
+  explicit_.errorThreshold(errorThreshold());
 }
 
 template <class Archive>
-- 
2.43.0


From f2e8db8ad4a749f8447d53eedccc304973e9c59f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:54 +0000
Subject: [PATCH 36/48] fix: archive the right hand side, the free variables
 and the strategy of a solver

---
 .../solver/hierarchical-iterative.hh          |  1 +
 src/solver/hierarchical-iterative.cc          | 23 ++++++++++++++++---
 2 files changed, 21 insertions(+), 3 deletions(-)

diff --git a/include/hpp/constraints/solver/hierarchical-iterative.hh b/include/hpp/constraints/solver/hierarchical-iterative.hh
index 04c2be5..4634a9f 100644
--- a/include/hpp/constraints/solver/hierarchical-iterative.hh
+++ b/include/hpp/constraints/solver/hierarchical-iterative.hh
@@ -668,5 +668,6 @@ inline std::ostream& operator<<(std::ostream& os,
 }  // namespace hpp
 
 BOOST_CLASS_VERSION(hpp::constraints::solver::saturation::Bounds, 1)
+BOOST_CLASS_VERSION(hpp::constraints::solver::HierarchicalIterative, 1)
 
 #endif  // HPP_CONSTRAINTS_SOLVER_HIERARCHICAL_ITERATIVE_HH
diff --git a/src/solver/hierarchical-iterative.cc b/src/solver/hierarchical-iterative.cc
index c5e5ce5..aae4d06 100644
--- a/src/solver/hierarchical-iterative.cc
+++ b/src/solver/hierarchical-iterative.cc
@@ -27,6 +27,7 @@
 // DAMAGE.
 
 #include <boost/serialization/shared_ptr.hpp>
+#include <boost/serialization/utility.hpp>
 #include <boost/serialization/vector.hpp>
 #include <hpp/constraints/implicit.hh>
 #include <hpp/constraints/macros.hh>
@@ -888,7 +889,6 @@ template HierarchicalIterative::Status HierarchicalIterative::solve(
 
 template <class Archive>
 void HierarchicalIterative::load(Archive& ar, const unsigned int version) {
-  (void)version;
   ar& BOOST_SERIALIZATION_NVP(squaredErrorThreshold_);
   ar& BOOST_SERIALIZATION_NVP(inequalityThreshold_);
   ar& BOOST_SERIALIZATION_NVP(maxIterations_);
@@ -910,7 +910,20 @@ void HierarchicalIterative::load(Archive& ar, const unsigned int version) {
 
   for (std::size_t i = 0; i < constraints.size(); ++i)
     add(constraints[i], priorities[i]);
-  // TODO load the right hand side.
+  if (version > 0) {
+    segments_t freeRows;
+    vector_t rhs;
+    ar& BOOST_SERIALIZATION_NVP(solveLevelByLevel_);
+    ar& BOOST_SERIALIZATION_NVP(freeRows);
+    ar& BOOST_SERIALIZATION_NVP(rhs);
+    freeVariables(freeRows);
+    size_type iq = 0;
+    for (std::size_t i = 0; i < datas_.size(); ++i) {
+      const size_type nq = datas_[i].rightHandSide.space()->nq();
+      datas_[i].rightHandSide.vector() = rhs.segment(iq, nq);
+      iq += nq;
+    }
+  }
 }
 
 template <class Archive>
@@ -936,7 +949,11 @@ void HierarchicalIterative::save(Archive& ar,
       priorities[i] = c->second;
   }
   ar& BOOST_SERIALIZATION_NVP(priorities);
-  // TODO save the right hand side.
+  ar& BOOST_SERIALIZATION_NVP(solveLevelByLevel_);
+  const segments_t freeRows(freeVariables_.indices());
+  ar& BOOST_SERIALIZATION_NVP(freeRows);
+  const vector_t rhs(HierarchicalIterative::rightHandSide());
+  ar& BOOST_SERIALIZATION_NVP(rhs);
 }
 
 HPP_SERIALIZATION_SPLIT_IMPLEMENT(HierarchicalIterative);
-- 
2.43.0


From 03419afeeebb63df2a4cd57bcba447c50af45602 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:03 +0000
Subject: [PATCH 37/48] fix: archive the right hand side of the explicit
 constraints of a solver

---
 include/hpp/constraints/solver/by-substitution.hh |  2 ++
 src/solver/by-substitution.cc                     | 14 +++++++++++++-
 2 files changed, 15 insertions(+), 1 deletion(-)

diff --git a/include/hpp/constraints/solver/by-substitution.hh b/include/hpp/constraints/solver/by-substitution.hh
index 0c800ce..bcb9531 100644
--- a/include/hpp/constraints/solver/by-substitution.hh
+++ b/include/hpp/constraints/solver/by-substitution.hh
@@ -306,4 +306,6 @@ class HPP_CONSTRAINTS_DLLAPI BySubstitution
 }  // namespace constraints
 }  // namespace hpp
 
+BOOST_CLASS_VERSION(hpp::constraints::solver::BySubstitution, 1)
+
 #endif  // HPP_CONSTRAINTS_SOLVER_BY_SUBSTITUTION_HH
diff --git a/src/solver/by-substitution.cc b/src/solver/by-substitution.cc
index 676cbe7..be1fb4b 100644
--- a/src/solver/by-substitution.cc
+++ b/src/solver/by-substitution.cc
@@ -37,6 +37,7 @@
 #include <hpp/pinocchio/liegroup-element.hh>
 #include <hpp/pinocchio/util.hh>
 #include <hpp/util/serialization.hh>
+#include <pinocchio/serialization/eigen.hpp>
 
 namespace hpp {
 namespace constraints {
@@ -377,13 +378,22 @@ bool BySubstitution::isConstraintSatisfied(const ImplicitPtr_t& constraint,
 template <class Archive>
 void BySubstitution::load(Archive& ar, const unsigned int version) {
   using namespace boost::serialization;
-  (void)version;
   LiegroupSpacePtr_t space;
   ar& BOOST_SERIALIZATION_NVP(space);
   explicit_.init(space);
   JeExpanded_.resize(space->nv(), space->nv());
   ar& make_nvp("base", base_object<HierarchicalIterative>(*this));
   explicit_.errorThreshold(errorThreshold());
+  if (version > 0) {
+    vector_t rhs;
+    ar& make_nvp("rhsExplicit", rhs);
+    size_type iq = 0;
+    for (ExplicitConstraintSet::Data& d : explicit_.data_) {
+      const size_type nq = d.rhs_implicit.space()->nq();
+      d.rhs_implicit.vector() = rhs.segment(iq, nq);
+      iq += nq;
+    }
+  }
 }
 
 template <class Archive>
@@ -393,6 +403,8 @@ void BySubstitution::save(Archive& ar, const unsigned int version) const {
   LiegroupSpacePtr_t space(explicit_.configSpace());
   ar& BOOST_SERIALIZATION_NVP(space);
   ar& make_nvp("base", base_object<HierarchicalIterative>(*this));
+  const vector_t rhs(explicit_.rightHandSide());
+  ar& make_nvp("rhsExplicit", rhs);
 }
 
 HPP_SERIALIZATION_SPLIT_IMPLEMENT(BySubstitution);
-- 
2.43.0


From a4c7504ed177065e9ff74178360080de5ef9947f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:31 +0000
Subject: [PATCH 38/48] fix: loading a solver into a constructed one does not
 duplicate the free variables

---
 include/hpp/constraints/explicit-constraint-set.hh | 2 ++
 src/solver/hierarchical-iterative.cc               | 1 +
 2 files changed, 3 insertions(+)

diff --git a/include/hpp/constraints/explicit-constraint-set.hh b/include/hpp/constraints/explicit-constraint-set.hh
index 20edcb9..202828f 100644
--- a/include/hpp/constraints/explicit-constraint-set.hh
+++ b/include/hpp/constraints/explicit-constraint-set.hh
@@ -522,7 +522,9 @@ class HPP_CONSTRAINTS_DLLAPI ExplicitConstraintSet {
     arg_.resize(space->nq());
     diff_.resize(space->nv());
 
+    notOutArgs_ = Eigen::RowBlockIndices();
     notOutArgs_.addRow(0, space->nq());
+    notOutDers_ = Eigen::ColBlockIndices();
     notOutDers_.addCol(0, space->nv());
   }
 
diff --git a/src/solver/hierarchical-iterative.cc b/src/solver/hierarchical-iterative.cc
index aae4d06..4d50b62 100644
--- a/src/solver/hierarchical-iterative.cc
+++ b/src/solver/hierarchical-iterative.cc
@@ -901,6 +901,7 @@ void HierarchicalIterative::load(Archive& ar, const unsigned int version) {
   OM_.resize(configSpace_->nv());
   OP_.resize(configSpace_->nv());
   // Initialize freeVariables_ to all indices.
+  freeVariables_ = Indices_t();
   freeVariables_.addRow(0, configSpace_->nv());
 
   NumericalConstraints_t constraints;
-- 
2.43.0


From 2a193edd9563fb7721f92f5ebd70742a76bdd64f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:58 +0000
Subject: [PATCH 39/48] fix: copying an explicit relative transformation copies
 its joints and frames

---
 include/hpp/constraints/explicit/relative-transformation.hh | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/hpp/constraints/explicit/relative-transformation.hh b/include/hpp/constraints/explicit/relative-transformation.hh
index cc7af61..d8e1ac2 100644
--- a/include/hpp/constraints/explicit/relative-transformation.hh
+++ b/include/hpp/constraints/explicit/relative-transformation.hh
@@ -118,6 +118,10 @@ class HPP_CONSTRAINTS_DLLAPI RelativeTransformation
       : DifferentiableFunction(other),
         robot_(other.robot_),
         parentJoint_(other.parentJoint_),
+        joint1_(other.joint1_),
+        joint2_(other.joint2_),
+        frame1_(other.frame1_),
+        frame2_(other.frame2_),
         inConf_(other.inConf_),
         inVel_(other.inVel_),
         outConf_(other.outConf_),
-- 
2.43.0


From 59618cbbbf0b99312dc38146ae9571be5bd46fde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:26 +0000
Subject: [PATCH 40/48] fix: the space of a right hand side is compared by
 value

---
 src/implicit.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/implicit.cc b/src/implicit.cc
index 8d90a5e..9713d0d 100644
--- a/src/implicit.cc
+++ b/src/implicit.cc
@@ -222,7 +222,7 @@ void Implicit::rightHandSideFromConfig(ConfigurationIn_t config,
 }
 
 bool Implicit::checkRightHandSide(LiegroupElementConstRef rhs) const {
-  if (rhs.space() != function_->outputSpace()) return false;
+  if (*rhs.space() != *function_->outputSpace()) return false;
   logOutput_ = log(rhs);
   for (std::size_t i = 0; i < comparison_.size(); ++i)
     if ((comparison_[i] != Equality) && (logOutput_[i] != 0)) return false;
-- 
2.43.0


From 4a07ac7a309ceb8f6e8268248c28af06db362091 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:26 +0000
Subject: [PATCH 41/48] fix: assigning an implicit constraint assigns its
 buffers

---
 include/hpp/constraints/implicit.hh | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/hpp/constraints/implicit.hh b/include/hpp/constraints/implicit.hh
index 5d0d821..8a03a76 100644
--- a/include/hpp/constraints/implicit.hh
+++ b/include/hpp/constraints/implicit.hh
@@ -132,6 +132,8 @@ class HPP_CONSTRAINTS_DLLAPI Implicit {
     inactiveRows_ = other.inactiveRows_;
     inequalityIndices_ = other.inequalityIndices_;
     equalityIndices_ = other.equalityIndices_;
+    output_ = LiegroupElement(other.output_.vector(), other.output_.space());
+    logOutput_ = other.logOutput_;
     return *this;
   }
   /// Copy object and return shared pointer to copy
-- 
2.43.0


From 9aee0aa7042443e77b3690aba1b9506b8cb223fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:22 +0000
Subject: [PATCH 42/48] fix: a copy of a constraint set is a constraint set
 with the same name

---
 include/hpp/constraints/implicit-constraint-set.hh | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/hpp/constraints/implicit-constraint-set.hh b/include/hpp/constraints/implicit-constraint-set.hh
index 851b9da..8576416 100644
--- a/include/hpp/constraints/implicit-constraint-set.hh
+++ b/include/hpp/constraints/implicit-constraint-set.hh
@@ -55,6 +55,11 @@ class HPP_CONSTRAINTS_DLLAPI ImplicitConstraintSet : public Implicit {
 
   virtual ~ImplicitConstraintSet() {}
 
+  /// Copy object and return shared pointer to copy
+  virtual ImplicitPtr_t copy() const {
+    return ImplicitPtr_t(new ImplicitConstraintSet(*this));
+  }
+
   /// \name Function stack management
   /// \{
 
@@ -112,7 +117,7 @@ class HPP_CONSTRAINTS_DLLAPI ImplicitConstraintSet : public Implicit {
                  ComparisonTypes_t(), std::vector<bool>()) {}
 
   ImplicitConstraintSet(const ImplicitConstraintSet& o)
-      : Implicit(DifferentiableFunctionSet::create("Stack"),
+      : Implicit(DifferentiableFunctionSet::create(o.function().name()),
                  ComparisonTypes_t(), std::vector<bool>()) {
     const Implicits_t& constraints = o.constraints();
     for (Implicits_t::const_iterator constraint = constraints.begin();
-- 
2.43.0


From e26fefa30b7f65f0e5a69df8ce9fd5768daa7e96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:38 +0000
Subject: [PATCH 43/48] fix: partial locked joints declare the indices they
 lock as outputs

---
 src/locked-joint.cc | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/locked-joint.cc b/src/locked-joint.cc
index 84ca65a..848b33b 100644
--- a/src/locked-joint.cc
+++ b/src/locked-joint.cc
@@ -126,22 +126,22 @@ LockedJoint::LockedJoint(const JointPtr_t& joint, const size_type index,
                          vectorIn_t value)
     : Explicit(joint->robot()->configSpace(),
                ConstantFunction::create(
-                   LiegroupElement(
-                       value, LiegroupSpace::Rn(joint->configSize() - index)),
-                   0, 0, "partial " + joint->name()),
+                   LiegroupElement(value, LiegroupSpace::Rn(value.size())), 0,
+                   0, "partial " + joint->name()),
                segments_t(),  // input conf
-               segments_t(),  // input vel
-               {segment_t(joint->rankInConfiguration(),
-                          joint->configSize() - index)},  // output conf
-               {segment_t(joint->rankInVelocity(),
-                          joint->numberDof() - index)},  // output vel
-               ComparisonTypes_t(joint->numberDof() - index, Equality),
-               std::vector<bool>(joint->numberDof(), true)),
+               {segment_t(joint->rankInConfiguration() + index,
+                          value.size())},  // output conf
+               segments_t(),               // input vel
+               {segment_t(joint->rankInVelocity() + index,
+                          value.size())},  // output vel
+               ComparisonTypes_t(value.size(), Equality),
+               std::vector<bool>(value.size(), true)),
       jointName_("partial_" + joint->name()),
       joint_(joint),
-      configSpace_(LiegroupSpace::Rn(joint->configSize() - index)) {
+      configSpace_(LiegroupSpace::Rn(value.size())) {
   assert(HPP_DYNAMIC_PTR_CAST(explicit_::ImplicitFunction, functionPtr()));
   assert(joint->numberDof() == joint->configSize());
+  assert(index + value.size() <= joint->configSize());
   // rightHandSide (value);
   assert(rightHandSideSize() == value.size());
 }
@@ -153,10 +153,10 @@ LockedJoint::LockedJoint(const DevicePtr_t& dev, const size_type index,
                    LiegroupElement(value, LiegroupSpace::Rn(value.size())), 0,
                    0, dev->name() + "_extraDof" + numToStr(index)),
                segments_t(),  // input conf
-               segments_t(),  // input vel
                {segment_t(dev->configSize() -
                               dev->extraConfigSpace().dimension() + index,
                           value.size())},  // output conf
+               segments_t(),               // input vel
                {segment_t(dev->numberDof() -
                               dev->extraConfigSpace().dimension() + index,
                           value.size())},  // output vel
-- 
2.43.0


From dc611abb1956cdb572d64d0d3a040cd19e09ab3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:38 +0000
Subject: [PATCH 44/48] fix: printing a locked joint evaluates the function
 that gives its value

---
 src/locked-joint.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/locked-joint.cc b/src/locked-joint.cc
index 848b33b..9c85150 100644
--- a/src/locked-joint.cc
+++ b/src/locked-joint.cc
@@ -178,9 +178,9 @@ void LockedJoint::init(const LockedJointPtr_t& self) {
 }
 
 std::ostream& LockedJoint::print(std::ostream& os) const {
-  LiegroupElement v;
+  LiegroupElement v(explicitFunction()->outputSpace());
   vector_t empty;
-  function().value(v, empty);
+  explicitFunction()->value(v, empty);
   os << "Locked joint " << jointName_
      << ", value = " << pinocchio::displayConfig(v.vector())
      << ": rank in configuration = " << rankInConfiguration()
-- 
2.43.0


From a41e9aebb57d3826fa9660a489c3bc93edd9b4fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:00 +0000
Subject: [PATCH 45/48] fix: overlap of two segments when the second one
 contains the first one

---
 src/matrix-view.cc | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/matrix-view.cc b/src/matrix-view.cc
index 21afd39..c571301 100644
--- a/src/matrix-view.cc
+++ b/src/matrix-view.cc
@@ -76,9 +76,7 @@ bool BlockIndex::overlap(const segment_t& a, const segment_t& b) {
   size_type aend = a.first + a.second;
   size_type bend = b.first + b.second;
 
-  if (a.first <= b.first && b.first < aend) return true;
-  if (a.first < bend && bend <= aend) return true;
-  return false;
+  return a.first < bend && b.first < aend;
 }
 
 size_type BlockIndex::cardinal(const segments_t& a) {
-- 
2.43.0


From f8b6139d4d868b367c6a14ed905cbdaabf213bcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:17 +0000
Subject: [PATCH 46/48] fix: inactive rows of explicit constraints do not count
 when testing satisfaction

---
 src/explicit-constraint-set.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/explicit-constraint-set.cc b/src/explicit-constraint-set.cc
index 290d8e2..a4f9f39 100644
--- a/src/explicit-constraint-set.cc
+++ b/src/explicit-constraint-set.cc
@@ -78,6 +78,7 @@ bool ExplicitConstraintSet::isSatisfied(vectorIn_t arg, vectorOut_t error,
     size_type nRows(h.outputSpace()->nv());
     assert(*(d.h_value.space()) == *(d.rhs_implicit.space()));
     error.segment(row, nRows) = d.h_value - d.rhs_implicit;
+    d.constraint->setInactiveRowsToZero(error.segment(row, nRows));
     squaredNorm =
         std::max(squaredNorm, error.segment(row, nRows).squaredNorm());
     row += nRows;
@@ -109,6 +110,7 @@ bool ExplicitConstraintSet::isConstraintSatisfied(
       assert(error.size() == h.outputSpace()->nv());
       assert(*(d.h_value.space()) == *(d.rhs_implicit.space()));
       error = d.h_value - d.rhs_implicit;
+      d.constraint->setInactiveRowsToZero(error);
       squaredNorm = error.squaredNorm();
       constraintFound = true;
       return squaredNorm < errorThreshold_ * errorThreshold_;
-- 
2.43.0


From 62ff85cb334ec6630ff04a6d4fde70aa4206d3ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:40 +0000
Subject: [PATCH 47/48] fix: complement of a set of intervals reads past the
 end of its bits

---
 src/explicit.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/explicit.cc b/src/explicit.cc
index 26b0b2c..ec63411 100644
--- a/src/explicit.cc
+++ b/src/explicit.cc
@@ -52,7 +52,7 @@ void complement(size_type size, const segments_t& intervals,
   unionOfIntervals[size] = true;
   unsigned int state = 0;
   segment_t interval;
-  for (size_type i = 0; i <= (size_type)unionOfIntervals.size(); ++i) {
+  for (size_type i = 0; i < (size_type)unionOfIntervals.size(); ++i) {
     if ((state == 0) && (unionOfIntervals[i] == false)) {
       // start a new interval
       state = 1;
-- 
2.43.0


From 40bb95c21512a2ef45d700dfbd4acf7dd65e475c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:14 +0000
Subject: [PATCH 48/48] fix: copy the right hand side function and comparison
 types of a constraint set

The copy constructor of ImplicitConstraintSet rebuilt the set from its
constraints only, so that a right hand side function or comparison types
set afterwards were lost.
---
 include/hpp/constraints/implicit-constraint-set.hh | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/hpp/constraints/implicit-constraint-set.hh b/include/hpp/constraints/implicit-constraint-set.hh
index 8576416..8f18b38 100644
--- a/include/hpp/constraints/implicit-constraint-set.hh
+++ b/include/hpp/constraints/implicit-constraint-set.hh
@@ -123,6 +123,10 @@ class HPP_CONSTRAINTS_DLLAPI ImplicitConstraintSet : public Implicit {
     for (Implicits_t::const_iterator constraint = constraints.begin();
          constraint != constraints.end(); ++constraint)
       add(*constraint);
+    // Copy what may have been set after the constraints were added.
+    comparisonType(o.comparisonType());
+    rhsFunction_ = o.rhsFunction_;
+    output_.vector() = o.output_.vector();
   }
 
  private:
-- 
2.43.0

