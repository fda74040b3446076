From b57667a9c6a6fb85b3f33dea1b732f2437f2ffd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:40 +0000
Subject: [PATCH 01/75] fix: Feature1D: the Jacobian is computed from errorSIN,
 declare the dependency

---
 src/feature/feature-1d.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/feature/feature-1d.cpp b/src/feature/feature-1d.cpp
index 9635784..e1530d5 100644
--- a/src/feature/feature-1d.cpp
+++ b/src/feature/feature-1d.cpp
@@ -33,6 +33,7 @@ Feature1D::Feature1D(const string &pointName)
       jacobianSIN(NULL,
                   "sotFeature1D(" + name + ")::input(matrix)::jacobianIN") {
   jacobianSOUT.addDependency(jacobianSIN);
+  jacobianSOUT.addDependency(errorSIN);
   errorSOUT.addDependency(errorSIN);
 
   signalRegistration(errorSIN << jacobianSIN);
-- 
2.43.0


From 6b62216cf16ba8e9d03feea1ada28c1bc851a758 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:40 +0000
Subject: [PATCH 02/75] fix: FeatureJointLimits: declare the inputs of the
 Jacobian and of the dimension as dependencies

---
 src/feature/feature-joint-limits.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/feature/feature-joint-limits.cpp b/src/feature/feature-joint-limits.cpp
index c36ef57..b79424f 100644
--- a/src/feature/feature-joint-limits.cpp
+++ b/src/feature/feature-joint-limits.cpp
@@ -50,6 +50,12 @@ FeatureJointLimits::FeatureJointLimits(const string &fName)
   errorSOUT.addDependency(upperJlSIN);
   errorSOUT.addDependency(lowerJlSIN);
 
+  jacobianSOUT.addDependency(jointSIN);
+  jacobianSOUT.addDependency(upperJlSIN);
+  jacobianSOUT.addDependency(lowerJlSIN);
+
+  dimensionSOUT.addDependency(upperJlSIN);
+
   signalRegistration(jointSIN << upperJlSIN << lowerJlSIN << widthJlSINTERN);
 
   // Commands
-- 
2.43.0


From 93d9220e772be5fbd850c723d73a901d4acc2e0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:40 +0000
Subject: [PATCH 03/75] fix: features with a reference: the error derivative
 depends on the reference's errordotIN

---
 src/feature/feature-1d.cpp           | 11 +++++++++--
 src/feature/feature-joint-limits.cpp | 11 +++++++++--
 src/feature/feature-visual-point.cpp |  2 ++
 3 files changed, 20 insertions(+), 4 deletions(-)

diff --git a/src/feature/feature-1d.cpp b/src/feature/feature-1d.cpp
index e1530d5..aac86e7 100644
--- a/src/feature/feature-1d.cpp
+++ b/src/feature/feature-1d.cpp
@@ -43,8 +43,15 @@ Feature1D::Feature1D(const string &pointName)
 /* --------------------------------------------------------------------- */
 /* --------------------------------------------------------------------- */
 
-void Feature1D::addDependenciesFromReference(void) {}
-void Feature1D::removeDependenciesFromReference(void) {}
+void Feature1D::addDependenciesFromReference(void) {
+  assert(isReferenceSet());
+  errordotSOUT.addDependency(getReference()->errordotSIN);
+}
+
+void Feature1D::removeDependenciesFromReference(void) {
+  assert(isReferenceSet());
+  errordotSOUT.removeDependency(getReference()->errordotSIN);
+}
 
 /* --------------------------------------------------------------------- */
 /* --------------------------------------------------------------------- */
diff --git a/src/feature/feature-joint-limits.cpp b/src/feature/feature-joint-limits.cpp
index b79424f..7336bcd 100644
--- a/src/feature/feature-joint-limits.cpp
+++ b/src/feature/feature-joint-limits.cpp
@@ -72,8 +72,15 @@ FeatureJointLimits::FeatureJointLimits(const string &fName)
 
 /* --------------------------------------------------------------------- */
 
-void FeatureJointLimits::addDependenciesFromReference(void) {}
-void FeatureJointLimits::removeDependenciesFromReference(void) {}
+void FeatureJointLimits::addDependenciesFromReference(void) {
+  assert(isReferenceSet());
+  errordotSOUT.addDependency(getReference()->errordotSIN);
+}
+
+void FeatureJointLimits::removeDependenciesFromReference(void) {
+  assert(isReferenceSet());
+  errordotSOUT.removeDependency(getReference()->errordotSIN);
+}
 
 /* --------------------------------------------------------------------- */
 /* --------------------------------------------------------------------- */
diff --git a/src/feature/feature-visual-point.cpp b/src/feature/feature-visual-point.cpp
index b216727..b2847e8 100644
--- a/src/feature/feature-visual-point.cpp
+++ b/src/feature/feature-visual-point.cpp
@@ -48,11 +48,13 @@ FeatureVisualPoint::FeatureVisualPoint(const string &pointName)
 void FeatureVisualPoint::addDependenciesFromReference(void) {
   assert(isReferenceSet());
   errorSOUT.addDependency(getReference()->xySIN);
+  errordotSOUT.addDependency(getReference()->errordotSIN);
 }
 
 void FeatureVisualPoint::removeDependenciesFromReference(void) {
   assert(isReferenceSet());
   errorSOUT.removeDependency(getReference()->xySIN);
+  errordotSOUT.removeDependency(getReference()->errordotSIN);
 }
 
 /* --------------------------------------------------------------------- */
-- 
2.43.0


From 339165ab80f8c2fb21b131976405e51c9d6ce733 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:40 +0000
Subject: [PATCH 04/75] fix: FeatureLineDistance: declare the vector and the
 reference line as dependencies

---
 src/feature/feature-line-distance.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/feature/feature-line-distance.cpp b/src/feature/feature-line-distance.cpp
index 48d2b24..1df66e9 100644
--- a/src/feature/feature-line-distance.cpp
+++ b/src/feature/feature-line-distance.cpp
@@ -41,12 +41,16 @@ FeatureLineDistance::FeatureLineDistance(const string &pointName)
                 "sotFeatureVector3(" + name + ")::input(vector3)::vector"),
       lineSOUT(boost::bind(&FeatureLineDistance::computeLineCoordinates, this,
                            _1, _2),
-               positionSIN << positionRefSIN,
+               positionSIN << vectorSIN,
                "sotFeatureAbstract(" + name + ")::output(vector)::line") {
   jacobianSOUT.addDependency(positionSIN);
   jacobianSOUT.addDependency(articularJacobianSIN);
+  jacobianSOUT.addDependency(positionRefSIN);
+  jacobianSOUT.addDependency(vectorSIN);
 
   errorSOUT.addDependency(positionSIN);
+  errorSOUT.addDependency(positionRefSIN);
+  errorSOUT.addDependency(vectorSIN);
 
   signalRegistration(positionSIN << articularJacobianSIN << positionRefSIN
                                  << lineSOUT << vectorSIN);
-- 
2.43.0


From 036cbc6ae202045e33debd6cd5f7261c4294d57b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:40 +0000
Subject: [PATCH 05/75] fix: FeaturePoint6d: the error derivative depends on
 the reference position and velocity

---
 src/feature/feature-point6d.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/feature/feature-point6d.cpp b/src/feature/feature-point6d.cpp
index 6e63116..0632581 100644
--- a/src/feature/feature-point6d.cpp
+++ b/src/feature/feature-point6d.cpp
@@ -116,12 +116,16 @@ void FeaturePoint6d::addDependenciesFromReference(void) {
   assert(isReferenceSet());
   errorSOUT.addDependency(getReference()->positionSIN);
   jacobianSOUT.addDependency(getReference()->positionSIN);
+  errordotSOUT.addDependency(getReference()->positionSIN);
+  errordotSOUT.addDependency(getReference()->velocitySIN);
 }
 
 void FeaturePoint6d::removeDependenciesFromReference(void) {
   assert(isReferenceSet());
   errorSOUT.removeDependency(getReference()->positionSIN);
   jacobianSOUT.removeDependency(getReference()->positionSIN);
+  errordotSOUT.removeDependency(getReference()->positionSIN);
+  errordotSOUT.removeDependency(getReference()->velocitySIN);
 }
 
 /* --------------------------------------------------------------------- */
-- 
2.43.0


From 93ad12623f57d751045bf502eda07a2d2f7a0b64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:40 +0000
Subject: [PATCH 06/75] fix: FeaturePosture: the error and its derivative
 depend on the posture reference

---
 src/feature/feature-posture.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/feature/feature-posture.cpp b/src/feature/feature-posture.cpp
index ca60c5c..83b8296 100644
--- a/src/feature/feature-posture.cpp
+++ b/src/feature/feature-posture.cpp
@@ -44,6 +44,8 @@ FeaturePosture::FeaturePosture(const std::string &name)
   signalRegistration(state_ << posture_ << postureDot_);
 
   errorSOUT.addDependency(state_);
+  errorSOUT.addDependency(posture_);
+  errordotSOUT.addDependency(postureDot_);
   jacobianSOUT.setConstant(Matrix());
 
   std::string docstring;
-- 
2.43.0


From d02a842ea3aec72b920326e0d692bda53080952a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:40 +0000
Subject: [PATCH 07/75] fix: FeatureVector3: the Jacobian depends on the vector

---
 src/feature/feature-vector3.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/feature/feature-vector3.cpp b/src/feature/feature-vector3.cpp
index 9b7899d..70de434 100644
--- a/src/feature/feature-vector3.cpp
+++ b/src/feature/feature-vector3.cpp
@@ -40,6 +40,7 @@ FeatureVector3::FeatureVector3(const string &pointName)
           NULL, "sotFeatureVector3(" + name + ")::input(matrix)::Jq"),
       positionRefSIN(
           NULL, "sotFeatureVector3(" + name + ")::input(vector)::positionRef") {
+  jacobianSOUT.addDependency(vectorSIN);
   jacobianSOUT.addDependency(positionSIN);
   jacobianSOUT.addDependency(articularJacobianSIN);
 
-- 
2.43.0


From 7c02473787c9afec071664a6e520feff0bcc5628 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:40 +0000
Subject: [PATCH 08/75] fix: Kalman: the variance update depends on the measure
 model and noise

---
 src/tools/kalman.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/tools/kalman.cpp b/src/tools/kalman.cpp
index 84defc4..8487b62 100644
--- a/src/tools/kalman.cpp
+++ b/src/tools/kalman.cpp
@@ -78,6 +78,8 @@ Matrix &Kalman::computeVarianceUpdate(Matrix &Pk_k, const int &time) {
     // Set dependency to input signals for latter computations
     varianceUpdateSOUT.addDependency(noiseTransitionSIN);
     varianceUpdateSOUT.addDependency(modelTransitionSIN);
+    varianceUpdateSOUT.addDependency(noiseMeasureSIN);
+    varianceUpdateSOUT.addDependency(modelMeasureSIN);
   } else {
     const Matrix &Q = noiseTransitionSIN(time);
     const Matrix &R = noiseMeasureSIN(time);
-- 
2.43.0


From be42f80d231115273f1b32609c9bd49133aa4d42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:40 +0000
Subject: [PATCH 09/75] fix: OpPointModifier: the Jacobian depends on the
 position when not in end-effector mode

---
 src/math/op-point-modifier.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/math/op-point-modifier.cpp b/src/math/op-point-modifier.cpp
index f77af94..6b2e613 100644
--- a/src/math/op-point-modifier.cpp
+++ b/src/math/op-point-modifier.cpp
@@ -32,7 +32,7 @@ OpPointModifier::OpPointModifier(const std::string &name)
           NULL, "OpPointModifior(" + name + ")::input(matrixhomo)::positionIN"),
       jacobianSOUT(
           boost::bind(&OpPointModifier::jacobianSOUT_function, this, _1, _2),
-          jacobianSIN,
+          jacobianSIN << positionSIN,
           "OpPointModifior(" + name + ")::output(matrix)::jacobian"),
       positionSOUT(
           boost::bind(&OpPointModifier::positionSOUT_function, this, _1, _2),
-- 
2.43.0


From 78088556259224b9a99b98dbd8f8db3cce669e9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:40 +0000
Subject: [PATCH 10/75] fix: AdmittanceControlOpPoint: w_force depends on the
 sensor pose

---
 src/control/admittance-control-op-point.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/control/admittance-control-op-point.cpp b/src/control/admittance-control-op-point.cpp
index 5b0b01d..7a7b70b 100644
--- a/src/control/admittance-control-op-point.cpp
+++ b/src/control/admittance-control-op-point.cpp
@@ -61,7 +61,8 @@ AdmittanceControlOpPoint::AdmittanceControlOpPoint(const std::string &name)
       CONSTRUCT_SIGNAL_IN(w_forceDes, dynamicgraph::Vector),
       CONSTRUCT_SIGNAL_IN(opPose, dynamicgraph::sot::MatrixHomogeneous),
       CONSTRUCT_SIGNAL_IN(sensorPose, dynamicgraph::sot::MatrixHomogeneous),
-      CONSTRUCT_SIGNAL_INNER(w_force, dynamicgraph::Vector, m_forceSIN),
+      CONSTRUCT_SIGNAL_INNER(w_force, dynamicgraph::Vector,
+                             m_forceSIN << m_sensorPoseSIN),
       CONSTRUCT_SIGNAL_INNER(w_dq, dynamicgraph::Vector,
                              INPUT_SIGNALS << m_w_forceSINNER),
       CONSTRUCT_SIGNAL_OUT(dq, dynamicgraph::Vector, m_w_dqSINNER),
-- 
2.43.0


From 295ea721344287315173a3f2e6efb1faa2a6433a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:16 +0000
Subject: [PATCH 11/75] fix: FeatureJointLimits: the error derivative depends
 on the dimension

---
 src/feature/feature-joint-limits.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/feature/feature-joint-limits.cpp b/src/feature/feature-joint-limits.cpp
index 7336bcd..477bf63 100644
--- a/src/feature/feature-joint-limits.cpp
+++ b/src/feature/feature-joint-limits.cpp
@@ -55,6 +55,7 @@ FeatureJointLimits::FeatureJointLimits(const string &fName)
   jacobianSOUT.addDependency(lowerJlSIN);
 
   dimensionSOUT.addDependency(upperJlSIN);
+  errordotSOUT.addDependency(dimensionSOUT);
 
   signalRegistration(jointSIN << upperJlSIN << lowerJlSIN << widthJlSINTERN);
 
-- 
2.43.0


From fa6c66800e9eded1501eda29b3f3a77bd036a3eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:26 +0000
Subject: [PATCH 12/75] fix: VectorToRotation: announce the input signal as an
 input

---
 src/matrix/vector-to-rotation.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/matrix/vector-to-rotation.cpp b/src/matrix/vector-to-rotation.cpp
index 50eb30c..45091e7 100644
--- a/src/matrix/vector-to-rotation.cpp
+++ b/src/matrix/vector-to-rotation.cpp
@@ -30,7 +30,7 @@ VectorToRotation::VectorToRotation(const std::string &name)
     : Entity(name),
       size(0),
       axes(0),
-      SIN(NULL, "sotVectorToRotation(" + name + ")::output(vector)::sin"),
+      SIN(NULL, "sotVectorToRotation(" + name + ")::input(vector)::sin"),
       SOUT(SOT_MEMBER_SIGNAL_1(VectorToRotation::computeRotation, SIN,
                                dynamicgraph::Vector),
            "sotVectorToRotation(" + name + ")::output(matrixRotation)::sout") {
-- 
2.43.0


From ba58011471d067381ac6b20e649fafd1d410a746 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:26 +0000
Subject: [PATCH 13/75] fix: gains: every constructor registers the error input

---
 src/task/gain-adaptive.cpp   | 4 ++--
 src/task/gain-hyperbolic.cpp | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/task/gain-adaptive.cpp b/src/task/gain-adaptive.cpp
index 1acfce7..9b6af3a 100644
--- a/src/task/gain-adaptive.cpp
+++ b/src/task/gain-adaptive.cpp
@@ -88,7 +88,7 @@ GainAdaptive::GainAdaptive(const std::string &name)
 GainAdaptive::GainAdaptive(const std::string &name, const double &lambda)
     : __SOT_GAIN_ADAPTATIVE_INIT {
   init(lambda);
-  Entity::signalRegistration(gainSOUT);
+  Entity::signalRegistration(gainSOUT << errorSIN);
   addCommands();
 }
 
@@ -96,7 +96,7 @@ GainAdaptive::GainAdaptive(const std::string &name, const double &valueAt0,
                            const double &valueAtInfty, const double &tanAt0)
     : __SOT_GAIN_ADAPTATIVE_INIT {
   init(valueAt0, valueAtInfty, tanAt0);
-  Entity::signalRegistration(gainSOUT);
+  Entity::signalRegistration(gainSOUT << errorSIN);
   addCommands();
 }
 
diff --git a/src/task/gain-hyperbolic.cpp b/src/task/gain-hyperbolic.cpp
index 2c8ec22..528ef88 100644
--- a/src/task/gain-hyperbolic.cpp
+++ b/src/task/gain-hyperbolic.cpp
@@ -48,7 +48,7 @@ GainHyperbolic::GainHyperbolic(const std::string &name)
 GainHyperbolic::GainHyperbolic(const std::string &name, const double &lambda)
     : __SOT_GAIN_HYPERBOLIC_INIT {
   init(lambda);
-  Entity::signalRegistration(gainSOUT);
+  Entity::signalRegistration(gainSOUT << errorSIN);
 }
 
 GainHyperbolic::GainHyperbolic(const std::string &name, const double &valueAt0,
@@ -56,7 +56,7 @@ GainHyperbolic::GainHyperbolic(const std::string &name, const double &valueAt0,
                                const double &decal0)
     : __SOT_GAIN_HYPERBOLIC_INIT {
   init(valueAt0, valueAtInfty, tanAt0, decal0);
-  Entity::signalRegistration(gainSOUT);
+  Entity::signalRegistration(gainSOUT << errorSIN);
 }
 
 void GainHyperbolic::init(const double &valueAt0, const double &valueAtInfty,
-- 
2.43.0


From 8a68ec28b98d545a7229b5dc2e99b68d885d6f12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:26 +0000
Subject: [PATCH 14/75] fix: FeatureAbstract: register the error derivative
 signals

---
 src/feature/feature-abstract.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/feature/feature-abstract.cpp b/src/feature/feature-abstract.cpp
index 42c0791..d512b90 100644
--- a/src/feature/feature-abstract.cpp
+++ b/src/feature/feature-abstract.cpp
@@ -43,8 +43,8 @@ FeatureAbstract::FeatureAbstract(const std::string &name)
                     selectionSIN,
                     "sotFeatureAbstract(" + name + ")::output(uint)::dim") {
   selectionSIN = true;
-  signalRegistration(selectionSIN << errorSOUT << jacobianSOUT
-                                  << dimensionSOUT);
+  signalRegistration(selectionSIN << errordotSIN << errorSOUT << errordotSOUT
+                                  << jacobianSOUT << dimensionSOUT);
   featureRegistration();
   initCommands();
 }
-- 
2.43.0


From ab8e7e3d7b387a576acd857d47dbc6ace20187a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:31 +0000
Subject: [PATCH 15/75] fix: consume the closing parenthesis of an empty vector
 of bounds

---
 src/task/multi-bound.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/task/multi-bound.cpp b/src/task/multi-bound.cpp
index 650d132..05e8c45 100644
--- a/src/task/multi-bound.cpp
+++ b/src/task/multi-bound.cpp
@@ -250,10 +250,9 @@ std::istream &operator>>(std::istream &is, VectorMultiBound &v) {
     is >> v[i];
     if (i != vali - 1) {
       SOT_MULTI_BOUND_CHECK_C(is, ',', v);
-    } else {
-      SOT_MULTI_BOUND_CHECK_C(is, ')', v);
     }
   }
+  SOT_MULTI_BOUND_CHECK_C(is, ')', v);
 
   return is;
 }
-- 
2.43.0


From 97a02143929fde8de7bc201586bf4d7f1c2e9322 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:39 +0000
Subject: [PATCH 16/75] fix: ExceptionFeature, ExceptionTask: keep the text
 when a formatted detail is given

---
 src/exception/exception-feature.cpp | 2 +-
 src/exception/exception-task.cpp    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/exception/exception-feature.cpp b/src/exception/exception-feature.cpp
index 4c8c556..97f8a76 100644
--- a/src/exception/exception-feature.cpp
+++ b/src/exception/exception-feature.cpp
@@ -35,7 +35,7 @@ ExceptionFeature::ExceptionFeature(
   char buffer[SIZE];
   vsnprintf(buffer, SIZE, format, args);
 
-  message = buffer;
+  message += buffer;
 
   va_end(args);
 }
diff --git a/src/exception/exception-task.cpp b/src/exception/exception-task.cpp
index 0d916fd..3868d0a 100644
--- a/src/exception/exception-task.cpp
+++ b/src/exception/exception-task.cpp
@@ -34,7 +34,7 @@ ExceptionTask::ExceptionTask(const ExceptionTask::ErrorCodeEnum &errcode,
   char buffer[SIZE];
   vsnprintf(buffer, SIZE, format, args);
 
-  message = buffer;
+  message += buffer;
 
   va_end(args);
 }
-- 
2.43.0


From 5054f4931299a9fafddafd97a1588a0e4d3e4e0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:39 +0000
Subject: [PATCH 17/75] fix: Stopwatch: pause measures with the same clock as
 start and stop

---
 src/utils/stop-watch.cpp | 628 ++++++++++++++++++++-------------------
 1 file changed, 315 insertions(+), 313 deletions(-)

diff --git a/src/utils/stop-watch.cpp b/src/utils/stop-watch.cpp
index 0157fce..715a0db 100644
--- a/src/utils/stop-watch.cpp
+++ b/src/utils/stop-watch.cpp
@@ -1,313 +1,315 @@
-/*
-Copyright (c) 2010-2013 Tommaso Urli
-
-Tommaso Urli    tommaso.urli@uniud.it   University of Udine
-
-Permission is hereby granted, free of charge, to any person obtaining
-a copy of this software and associated documentation files (the
-"Software"), to deal in the Software without restriction, including
-without limitation the rights to use, copy, modify, merge, publish,
-distribute, sublicense, and/or sell copies of the Software, and to
-permit persons to whom the Software is furnished to do so, subject to
-the following conditions:
-
-The above copyright notice and this permission notice shall be
-included in all copies or substantial portions of the Software.
-
-THE SOFTWARE IS PROVIDED "AS IS", WITHOUT WARRANTY OF ANY KIND,
-EXPRESS OR IMPLIED, INCLUDING BUT NOT LIMITED TO THE WARRANTIES OF
-MERCHANTABILITY, FITNESS FOR A PARTICULAR PURPOSE AND
-NONINFRINGEMENT. IN NO EVENT SHALL THE AUTHORS OR COPYRIGHT HOLDERS BE
-LIABLE FOR ANY CLAIM, DAMAGES OR OTHER LIABILITY, WHETHER IN AN ACTION
-OF CONTRACT, TORT OR OTHERWISE, ARISING FROM, OUT OF OR IN CONNECTION
-WITH THE SOFTWARE OR THE USE OR OTHER DEALINGS IN THE SOFTWARE.
-
-*/
-
-#ifndef WIN32
-#include <sys/time.h>
-#else
-#include <Windows.h>
-
-#include <iomanip>
-#endif
-
-#include <iomanip>  // std::setprecision
-
-#include "sot/core/stop-watch.hh"
-
-using std::map;
-using std::ostringstream;
-using std::string;
-
-//#define START_PROFILER(name) getProfiler().start(name)
-//#define STOP_PROFILER(name) getProfiler().stop(name)
-
-Stopwatch &getProfiler() {
-  static Stopwatch s(REAL_TIME);  // alternatives are CPU_TIME and REAL_TIME
-  return s;
-}
-
-Stopwatch::Stopwatch(StopwatchMode _mode) : active(true), mode(_mode) {
-  records_of = new map<string, PerformanceData>();
-}
-
-Stopwatch::~Stopwatch() { delete records_of; }
-
-void Stopwatch::set_mode(StopwatchMode new_mode) { mode = new_mode; }
-
-bool Stopwatch::performance_exists(string perf_name) {
-  return (records_of->find(perf_name) != records_of->end());
-}
-
-long double Stopwatch::take_time() {
-  if (mode == CPU_TIME) {
-    // Use ctime
-    return clock();
-
-  } else if (mode == REAL_TIME) {
-    // Query operating system
-
-#ifdef WIN32
-    /* In case of usage under Windows */
-    FILETIME ft;
-    LARGE_INTEGER intervals;
-
-    // Get the amount of 100 nanoseconds intervals elapsed since January 1, 1601
-    // (UTC)
-    GetSystemTimeAsFileTime(&ft);
-    intervals.LowPart = ft.dwLowDateTime;
-    intervals.HighPart = ft.dwHighDateTime;
-
-    long double measure = intervals.QuadPart;
-    measure -= 116444736000000000.0;  // Convert to UNIX epoch time
-    measure /= 10000000.0;            // Convert to seconds
-
-    return measure;
-#else
-    /* Linux, MacOS, ... */
-    struct timeval tv;
-    gettimeofday(&tv, NULL);
-
-    long double measure = tv.tv_usec;
-    measure /= 1000000.0;  // Convert to seconds
-    measure += tv.tv_sec;  // Add seconds part
-
-    return measure;
-#endif
-
-  } else {
-    // If mode == NONE, clock has not been initialized, then throw exception
-    throw StopwatchException("Clock not initialized to a time taking mode!");
-  }
-}
-
-void Stopwatch::start(string perf_name) {
-  if (!active) return;
-
-  // Just works if not already present
-  records_of->insert(make_pair(perf_name, PerformanceData()));
-
-  PerformanceData &perf_info = records_of->find(perf_name)->second;
-
-  // Take ctime
-  perf_info.clock_start = take_time();
-
-  // If this is a new start (i.e. not a restart)
-  //  if (!perf_info.paused)
-  //    perf_info.last_time = 0;
-
-  perf_info.paused = false;
-}
-
-void Stopwatch::stop(string perf_name) {
-  if (!active) return;
-
-  long double clock_end = take_time();
-
-  // Try to recover performance data
-  if (!performance_exists(perf_name))
-    throw StopwatchException("Performance not initialized.");
-
-  PerformanceData &perf_info = records_of->find(perf_name)->second;
-
-  // check whether the performance has been reset
-  if (perf_info.clock_start == 0) return;
-
-  perf_info.stops++;
-  long double lapse = clock_end - perf_info.clock_start;
-
-  if (mode == CPU_TIME) lapse /= (double)CLOCKS_PER_SEC;
-
-  // Update last time
-  perf_info.last_time = lapse;
-
-  // Update min/max time
-  if (lapse >= perf_info.max_time) perf_info.max_time = lapse;
-  if (lapse <= perf_info.min_time || perf_info.min_time == 0)
-    perf_info.min_time = lapse;
-
-  // Update total time
-  perf_info.total_time += lapse;
-}
-
-void Stopwatch::pause(string perf_name) {
-  if (!active) return;
-
-  long double clock_end = clock();
-
-  // Try to recover performance data
-  if (!performance_exists(perf_name))
-    throw StopwatchException("Performance not initialized.");
-
-  PerformanceData &perf_info = records_of->find(perf_name)->second;
-
-  // check whether the performance has been reset
-  if (perf_info.clock_start == 0) return;
-
-  long double lapse = clock_end - perf_info.clock_start;
-
-  // Update total time
-  perf_info.last_time += lapse;
-  perf_info.total_time += lapse;
-}
-
-void Stopwatch::reset_all() {
-  if (!active) return;
-
-  map<string, PerformanceData>::iterator it;
-
-  for (it = records_of->begin(); it != records_of->end(); ++it) {
-    reset(it->first);
-  }
-}
-
-void Stopwatch::report_all(int precision, std::ostream &output) {
-  if (!active) return;
-
-  output << "\n*** PROFILING RESULTS [ms] (min - avg - max - lastTime - "
-            "nSamples - totalTime) ***\n";
-  map<string, PerformanceData>::iterator it;
-  for (it = records_of->begin(); it != records_of->end(); ++it) {
-    report(it->first, precision, output);
-  }
-}
-
-void Stopwatch::reset(string perf_name) {
-  if (!active) return;
-
-  // Try to recover performance data
-  if (!performance_exists(perf_name))
-    throw StopwatchException("Performance not initialized.");
-
-  PerformanceData &perf_info = records_of->find(perf_name)->second;
-
-  perf_info.clock_start = 0;
-  perf_info.total_time = 0;
-  perf_info.min_time = 0;
-  perf_info.max_time = 0;
-  perf_info.last_time = 0;
-  perf_info.paused = false;
-  perf_info.stops = 0;
-}
-
-void Stopwatch::turn_on() {
-  std::cout << "Stopwatch active." << std::endl;
-  active = true;
-}
-
-void Stopwatch::turn_off() {
-  std::cout << "Stopwatch inactive." << std::endl;
-  active = false;
-}
-
-void Stopwatch::report(string perf_name, int precision, std::ostream &output) {
-  if (!active) return;
-
-  // Try to recover performance data
-  if (!performance_exists(perf_name))
-    throw StopwatchException("Performance not initialized.");
-
-  PerformanceData &perf_info = records_of->find(perf_name)->second;
-
-  string pad = "";
-  for (size_t i = perf_name.length(); i < STOP_WATCH_MAX_NAME_LENGTH; i++)
-    pad.append(" ");
-
-  output << perf_name << pad;
-  output << std::fixed << std::setprecision(precision)
-         << (perf_info.min_time * 1e3) << "\t";
-  output << std::fixed << std::setprecision(precision)
-         << (perf_info.total_time * 1e3 / (long double)perf_info.stops) << "\t";
-  output << std::fixed << std::setprecision(precision)
-         << (perf_info.max_time * 1e3) << "\t";
-  output << std::fixed << std::setprecision(precision)
-         << (perf_info.last_time * 1e3) << "\t";
-  output << std::fixed << std::setprecision(precision) << perf_info.stops
-         << std::endl;
-  output << std::fixed << std::setprecision(precision)
-         << perf_info.total_time * 1e3 << std::endl;
-}
-
-long double Stopwatch::get_time_so_far(string perf_name) {
-  // Try to recover performance data
-  if (!performance_exists(perf_name))
-    throw StopwatchException("Performance not initialized.");
-
-  long double lapse =
-      (take_time() - (records_of->find(perf_name)->second).clock_start);
-
-  if (mode == CPU_TIME) lapse /= (double)CLOCKS_PER_SEC;
-
-  return lapse;
-}
-
-long double Stopwatch::get_total_time(string perf_name) {
-  // Try to recover performance data
-  if (!performance_exists(perf_name))
-    throw StopwatchException("Performance not initialized.");
-
-  PerformanceData &perf_info = records_of->find(perf_name)->second;
-
-  return perf_info.total_time;
-}
-
-long double Stopwatch::get_average_time(string perf_name) {
-  // Try to recover performance data
-  if (!performance_exists(perf_name))
-    throw StopwatchException("Performance not initialized.");
-
-  PerformanceData &perf_info = records_of->find(perf_name)->second;
-
-  return (perf_info.total_time / (long double)perf_info.stops);
-}
-
-long double Stopwatch::get_min_time(string perf_name) {
-  // Try to recover performance data
-  if (!performance_exists(perf_name))
-    throw StopwatchException("Performance not initialized.");
-
-  PerformanceData &perf_info = records_of->find(perf_name)->second;
-
-  return perf_info.min_time;
-}
-
-long double Stopwatch::get_max_time(string perf_name) {
-  // Try to recover performance data
-  if (!performance_exists(perf_name))
-    throw StopwatchException("Performance not initialized.");
-
-  PerformanceData &perf_info = records_of->find(perf_name)->second;
-
-  return perf_info.max_time;
-}
-
-long double Stopwatch::get_last_time(string perf_name) {
-  // Try to recover performance data
-  if (!performance_exists(perf_name))
-    throw StopwatchException("Performance not initialized.");
-
-  PerformanceData &perf_info = records_of->find(perf_name)->second;
-
-  return perf_info.last_time;
-}
+/*
+Copyright (c) 2010-2013 Tommaso Urli
+
+Tommaso Urli    tommaso.urli@uniud.it   University of Udine
+
+Permission is hereby granted, free of charge, to any person obtaining
+a copy of this software and associated documentation files (the
+"Software"), to deal in the Software without restriction, including
+without limitation the rights to use, copy, modify, merge, publish,
+distribute, sublicense, and/or sell copies of the Software, and to
+permit persons to whom the Software is furnished to do so, subject to
+the following conditions:
+
+The above copyright notice and this permission notice shall be
+included in all copies or substantial portions of the Software.
+
+THE SOFTWARE IS PROVIDED "AS IS", WITHOUT WARRANTY OF ANY KIND,
+EXPRESS OR IMPLIED, INCLUDING BUT NOT LIMITED TO THE WARRANTIES OF
+MERCHANTABILITY, FITNESS FOR A PARTICULAR PURPOSE AND
+NONINFRINGEMENT. IN NO EVENT SHALL THE AUTHORS OR COPYRIGHT HOLDERS BE
+LIABLE FOR ANY CLAIM, DAMAGES OR OTHER LIABILITY, WHETHER IN AN ACTION
+OF CONTRACT, TORT OR OTHERWISE, ARISING FROM, OUT OF OR IN CONNECTION
+WITH THE SOFTWARE OR THE USE OR OTHER DEALINGS IN THE SOFTWARE.
+
+*/
+
+#ifndef WIN32
+#include <sys/time.h>
+#else
+#include <Windows.h>
+
+#include <iomanip>
+#endif
+
+#include <iomanip>  // std::setprecision
+
+#include "sot/core/stop-watch.hh"
+
+using std::map;
+using std::ostringstream;
+using std::string;
+
+//#define START_PROFILER(name) getProfiler().start(name)
+//#define STOP_PROFILER(name) getProfiler().stop(name)
+
+Stopwatch &getProfiler() {
+  static Stopwatch s(REAL_TIME);  // alternatives are CPU_TIME and REAL_TIME
+  return s;
+}
+
+Stopwatch::Stopwatch(StopwatchMode _mode) : active(true), mode(_mode) {
+  records_of = new map<string, PerformanceData>();
+}
+
+Stopwatch::~Stopwatch() { delete records_of; }
+
+void Stopwatch::set_mode(StopwatchMode new_mode) { mode = new_mode; }
+
+bool Stopwatch::performance_exists(string perf_name) {
+  return (records_of->find(perf_name) != records_of->end());
+}
+
+long double Stopwatch::take_time() {
+  if (mode == CPU_TIME) {
+    // Use ctime
+    return clock();
+
+  } else if (mode == REAL_TIME) {
+    // Query operating system
+
+#ifdef WIN32
+    /* In case of usage under Windows */
+    FILETIME ft;
+    LARGE_INTEGER intervals;
+
+    // Get the amount of 100 nanoseconds intervals elapsed since January 1, 1601
+    // (UTC)
+    GetSystemTimeAsFileTime(&ft);
+    intervals.LowPart = ft.dwLowDateTime;
+    intervals.HighPart = ft.dwHighDateTime;
+
+    long double measure = intervals.QuadPart;
+    measure -= 116444736000000000.0;  // Convert to UNIX epoch time
+    measure /= 10000000.0;            // Convert to seconds
+
+    return measure;
+#else
+    /* Linux, MacOS, ... */
+    struct timeval tv;
+    gettimeofday(&tv, NULL);
+
+    long double measure = tv.tv_usec;
+    measure /= 1000000.0;  // Convert to seconds
+    measure += tv.tv_sec;  // Add seconds part
+
+    return measure;
+#endif
+
+  } else {
+    // If mode == NONE, clock has not been initialized, then throw exception
+    throw StopwatchException("Clock not initialized to a time taking mode!");
+  }
+}
+
+void Stopwatch::start(string perf_name) {
+  if (!active) return;
+
+  // Just works if not already present
+  records_of->insert(make_pair(perf_name, PerformanceData()));
+
+  PerformanceData &perf_info = records_of->find(perf_name)->second;
+
+  // Take ctime
+  perf_info.clock_start = take_time();
+
+  // If this is a new start (i.e. not a restart)
+  //  if (!perf_info.paused)
+  //    perf_info.last_time = 0;
+
+  perf_info.paused = false;
+}
+
+void Stopwatch::stop(string perf_name) {
+  if (!active) return;
+
+  long double clock_end = take_time();
+
+  // Try to recover performance data
+  if (!performance_exists(perf_name))
+    throw StopwatchException("Performance not initialized.");
+
+  PerformanceData &perf_info = records_of->find(perf_name)->second;
+
+  // check whether the performance has been reset
+  if (perf_info.clock_start == 0) return;
+
+  perf_info.stops++;
+  long double lapse = clock_end - perf_info.clock_start;
+
+  if (mode == CPU_TIME) lapse /= (double)CLOCKS_PER_SEC;
+
+  // Update last time
+  perf_info.last_time = lapse;
+
+  // Update min/max time
+  if (lapse >= perf_info.max_time) perf_info.max_time = lapse;
+  if (lapse <= perf_info.min_time || perf_info.min_time == 0)
+    perf_info.min_time = lapse;
+
+  // Update total time
+  perf_info.total_time += lapse;
+}
+
+void Stopwatch::pause(string perf_name) {
+  if (!active) return;
+
+  long double clock_end = take_time();
+
+  // Try to recover performance data
+  if (!performance_exists(perf_name))
+    throw StopwatchException("Performance not initialized.");
+
+  PerformanceData &perf_info = records_of->find(perf_name)->second;
+
+  // check whether the performance has been reset
+  if (perf_info.clock_start == 0) return;
+
+  long double lapse = clock_end - perf_info.clock_start;
+
+  if (mode == CPU_TIME) lapse /= (double)CLOCKS_PER_SEC;
+
+  // Update total time
+  perf_info.last_time += lapse;
+  perf_info.total_time += lapse;
+}
+
+void Stopwatch::reset_all() {
+  if (!active) return;
+
+  map<string, PerformanceData>::iterator it;
+
+  for (it = records_of->begin(); it != records_of->end(); ++it) {
+    reset(it->first);
+  }
+}
+
+void Stopwatch::report_all(int precision, std::ostream &output) {
+  if (!active) return;
+
+  output << "\n*** PROFILING RESULTS [ms] (min - avg - max - lastTime - "
+            "nSamples - totalTime) ***\n";
+  map<string, PerformanceData>::iterator it;
+  for (it = records_of->begin(); it != records_of->end(); ++it) {
+    report(it->first, precision, output);
+  }
+}
+
+void Stopwatch::reset(string perf_name) {
+  if (!active) return;
+
+  // Try to recover performance data
+  if (!performance_exists(perf_name))
+    throw StopwatchException("Performance not initialized.");
+
+  PerformanceData &perf_info = records_of->find(perf_name)->second;
+
+  perf_info.clock_start = 0;
+  perf_info.total_time = 0;
+  perf_info.min_time = 0;
+  perf_info.max_time = 0;
+  perf_info.last_time = 0;
+  perf_info.paused = false;
+  perf_info.stops = 0;
+}
+
+void Stopwatch::turn_on() {
+  std::cout << "Stopwatch active." << std::endl;
+  active = true;
+}
+
+void Stopwatch::turn_off() {
+  std::cout << "Stopwatch inactive." << std::endl;
+  active = false;
+}
+
+void Stopwatch::report(string perf_name, int precision, std::ostream &output) {
+  if (!active) return;
+
+  // Try to recover performance data
+  if (!performance_exists(perf_name))
+    throw StopwatchException("Performance not initialized.");
+
+  PerformanceData &perf_info = records_of->find(perf_name)->second;
+
+  string pad = "";
+  for (size_t i = perf_name.length(); i < STOP_WATCH_MAX_NAME_LENGTH; i++)
+    pad.append(" ");
+
+  output << perf_name << pad;
+  output << std::fixed << std::setprecision(precision)
+         << (perf_info.min_time * 1e3) << "\t";
+  output << std::fixed << std::setprecision(precision)
+         << (perf_info.total_time * 1e3 / (long double)perf_info.stops) << "\t";
+  output << std::fixed << std::setprecision(precision)
+         << (perf_info.max_time * 1e3) << "\t";
+  output << std::fixed << std::setprecision(precision)
+         << (perf_info.last_time * 1e3) << "\t";
+  output << std::fixed << std::setprecision(precision) << perf_info.stops
+         << std::endl;
+  output << std::fixed << std::setprecision(precision)
+         << perf_info.total_time * 1e3 << std::endl;
+}
+
+long double Stopwatch::get_time_so_far(string perf_name) {
+  // Try to recover performance data
+  if (!performance_exists(perf_name))
+    throw StopwatchException("Performance not initialized.");
+
+  long double lapse =
+      (take_time() - (records_of->find(perf_name)->second).clock_start);
+
+  if (mode == CPU_TIME) lapse /= (double)CLOCKS_PER_SEC;
+
+  return lapse;
+}
+
+long double Stopwatch::get_total_time(string perf_name) {
+  // Try to recover performance data
+  if (!performance_exists(perf_name))
+    throw StopwatchException("Performance not initialized.");
+
+  PerformanceData &perf_info = records_of->find(perf_name)->second;
+
+  return perf_info.total_time;
+}
+
+long double Stopwatch::get_average_time(string perf_name) {
+  // Try to recover performance data
+  if (!performance_exists(perf_name))
+    throw StopwatchException("Performance not initialized.");
+
+  PerformanceData &perf_info = records_of->find(perf_name)->second;
+
+  return (perf_info.total_time / (long double)perf_info.stops);
+}
+
+long double Stopwatch::get_min_time(string perf_name) {
+  // Try to recover performance data
+  if (!performance_exists(perf_name))
+    throw StopwatchException("Performance not initialized.");
+
+  PerformanceData &perf_info = records_of->find(perf_name)->second;
+
+  return perf_info.min_time;
+}
+
+long double Stopwatch::get_max_time(string perf_name) {
+  // Try to recover performance data
+  if (!performance_exists(perf_name))
+    throw StopwatchException("Performance not initialized.");
+
+  PerformanceData &perf_info = records_of->find(perf_name)->second;
+
+  return perf_info.max_time;
+}
+
+long double Stopwatch::get_last_time(string perf_name) {
+  // Try to recover performance data
+  if (!performance_exists(perf_name))
+    throw StopwatchException("Performance not initialized.");
+
+  PerformanceData &perf_info = records_of->find(perf_name)->second;
+
+  return perf_info.last_time;
+}
-- 
2.43.0


From e37feeb43cc3e24ea315b9ad5e730f597d363526 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:39 +0000
Subject: [PATCH 18/75] fix: CausalFilter: switch_filter restarts from the last
 sample, not the oldest one

---
 src/filters/causal-filter.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/filters/causal-filter.cpp b/src/filters/causal-filter.cpp
index 0ace0ad..297d801 100644
--- a/src/filters/causal-filter.cpp
+++ b/src/filters/causal-filter.cpp
@@ -108,7 +108,9 @@ void CausalFilter::switch_filter(const Eigen::VectorXd &filter_numerator,
   Eigen::VectorXd::Index filter_order_m = filter_numerator.size();
   Eigen::VectorXd::Index filter_order_n = filter_denominator.size();
 
-  Eigen::VectorXd current_x(m_input_buffer.col(m_pt_numerator));
+  // m_pt_numerator is where the next sample goes, the last one is before it
+  Eigen::VectorXd current_x(m_input_buffer.col(
+      m_pt_numerator == 0 ? m_filter_order_m - 1 : m_pt_numerator - 1));
 
   m_input_buffer.resize(Eigen::NoChange, filter_order_m);
   m_output_buffer.resize(Eigen::NoChange, filter_order_n - 1);
-- 
2.43.0


From 8965ae1dd80bc1d25d9bae5e008c9f886a244074 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:21 +0000
Subject: [PATCH 19/75] fix: Contiifstream: deliver each complete line once,
 whatever its length

---
 include/sot/core/contiifstream.hh |  2 --
 src/debug/contiifstream.cpp       | 20 +++++++-------------
 2 files changed, 7 insertions(+), 15 deletions(-)

diff --git a/include/sot/core/contiifstream.hh b/include/sot/core/contiifstream.hh
index 8c239ee..2de7406 100644
--- a/include/sot/core/contiifstream.hh
+++ b/include/sot/core/contiifstream.hh
@@ -36,8 +36,6 @@ class SOT_CORE_EXPORT Contiifstream {
  protected:
   std::string filename;
   std::streamoff cursor;
-  static const unsigned int BUFFER_SIZE = 256;
-  char buffer[BUFFER_SIZE];
   std::list<std::string> reader;
   bool first;
 
diff --git a/src/debug/contiifstream.cpp b/src/debug/contiifstream.cpp
index 3774a84..7dc9b30 100644
--- a/src/debug/contiifstream.cpp
+++ b/src/debug/contiifstream.cpp
@@ -26,19 +26,13 @@ bool Contiifstream::loop(void) {
   file.seekg(cursor);
   file.sync();
 
-  while (1) {
-    file.get(buffer, BUFFER_SIZE);
-    if (file.gcount()) {
-      res = true;
-      std::string line(buffer);
-      if (!first) reader.push_back(line);
-      cursor = file.tellg();
-      cursor++;
-      file.get(*buffer);  // get the last char ( = '\n')
-      sotDEBUG(15) << "line: " << line << std::endl;
-    } else {
-      break;
-    }
+  std::string line;
+  // A line is complete, hence delivered, once its '\n' is in the file.
+  while (std::getline(file, line) && !file.eof()) {
+    res = true;
+    if (!first) reader.push_back(line);
+    cursor = file.tellg();
+    sotDEBUG(15) << "line: " << line << std::endl;
   }
 
   first = false;
-- 
2.43.0


From 8d0c6a370751c2f12f03e9d9601a9c915b40aadf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:22:27 +0000
Subject: [PATCH 20/75] fix: FIRFilter<double>: start each sum from zero, not
 from the previous output

---
 src/matrix/fir-filter.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/matrix/fir-filter.cpp b/src/matrix/fir-filter.cpp
index 358cf45..bb8d7be 100644
--- a/src/matrix/fir-filter.cpp
+++ b/src/matrix/fir-filter.cpp
@@ -51,6 +51,12 @@ SOT_FACTORY_TEMPLATE_ENTITY_PLUGIN(FIRFilter, Vector, double, vec_double,
 SOT_FACTORY_TEMPLATE_ENTITY_PLUGIN(FIRFilter, Vector, Matrix, vec_mat,
                                    "FIRFilter")
 
+template <>
+void FIRFilter<double, double>::reset_signal(double &res,
+                                             const double & /*sample*/) {
+  res = 0;
+}
+
 template <>
 void FIRFilter<Vector, double>::reset_signal(Vector &res,
                                              const Vector &sample) {
-- 
2.43.0


From 3f9c8127727de8231d17470b74d58a0115a89554 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:30 +0000
Subject: [PATCH 21/75] fix: GripperControl: weight the velocity element by
 element

---
 src/tools/gripper-control.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools/gripper-control.cpp b/src/tools/gripper-control.cpp
index 29fb5fb..4afe5eb 100644
--- a/src/tools/gripper-control.cpp
+++ b/src/tools/gripper-control.cpp
@@ -148,7 +148,7 @@ dynamicgraph::Vector &GripperControl::computeDesiredPosition(
 
   // multiply the velocity elmt per elmt
   dynamicgraph::Vector weightedVel(SIZE);
-  weightedVel = velocity * factor;
+  weightedVel = velocity.cwiseProduct(factor);
   sotDEBUG(25) << " weightedVel " << weightedVel << std::endl;
 
   // integrate the desired velocity
-- 
2.43.0


From f9422adf172742e7c895ef9b2cfb5bcd4eafab50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:30 +0000
Subject: [PATCH 22/75] fix: ClampWorkspace: alphabar is the complement of the
 same diagonal entry of alpha

---
 src/tools/clamp-workspace.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tools/clamp-workspace.cpp b/src/tools/clamp-workspace.cpp
index 02c73d2..6a3a5a9 100644
--- a/src/tools/clamp-workspace.cpp
+++ b/src/tools/clamp-workspace.cpp
@@ -113,7 +113,7 @@ void ClampWorkspace::update(int time) {
       case 2:
       default:
         alpha(i, i) = 0.5 * (1 + tanh(1 / Y - 1 / (1 - Y)));
-        alphabar(i, i) = 1 - alpha(i);
+        alphabar(i, i) = 1 - alpha(i, i);
     }
 
     if (i == 2) {
@@ -126,7 +126,7 @@ void ClampWorkspace::update(int time) {
       }
       if (mode == 2) {
         alpha(i + 3, i + 3) = 0.5 * (1 + tanh(1 / Y - 1 / (1 - Y)));
-        alphabar(i + 3, i + 3) = 1 - alpha(i + 3);
+        alphabar(i + 3, i + 3) = 1 - alpha(i + 3, i + 3);
       }
     }
   }
-- 
2.43.0


From dd155051d19220470d13f2604a7b0d247f0ed003 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:30 +0000
Subject: [PATCH 23/75] fix: CoMFreezer: remember whether the pattern generator
 was in process

---
 src/tools/com-freezer.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tools/com-freezer.cpp b/src/tools/com-freezer.cpp
index 700e344..87d9972 100644
--- a/src/tools/com-freezer.cpp
+++ b/src/tools/com-freezer.cpp
@@ -51,13 +51,13 @@ dynamicgraph::Vector &CoMFreezer::computeFreezedCoM(
   if (PGInProcess) /* CoM unfreezed */
   {
     m_lastCoM = CoMRefSIN(time);
-    m_previousPGInProcess = (PGInProcess == 0);
+    m_previousPGInProcess = (PGInProcess != 0);
   } else {
     if (m_previousPGInProcess) /* pg.inprocess switch from 1 to 0 */
     {
       m_lastStopTime = time;
       m_lastCoM = CoMRefSIN(time);
-      m_previousPGInProcess = (PGInProcess == 0);
+      m_previousPGInProcess = (PGInProcess != 0);
     } else if (time < m_lastStopTime + 200) /* keep updating for 1s */
     {
       m_lastCoM = CoMRefSIN(time);
-- 
2.43.0


From 59d7e0382cbe44005db0f81dff19c37c15e64180 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:59 +0000
Subject: [PATCH 24/75] fix: Stopwatch: keep the CRLF line endings of the
 original file

---
 src/utils/stop-watch.cpp | 630 +++++++++++++++++++--------------------
 1 file changed, 315 insertions(+), 315 deletions(-)

diff --git a/src/utils/stop-watch.cpp b/src/utils/stop-watch.cpp
index 715a0db..b844466 100644
--- a/src/utils/stop-watch.cpp
+++ b/src/utils/stop-watch.cpp
@@ -1,315 +1,315 @@
-/*
-Copyright (c) 2010-2013 Tommaso Urli
-
-Tommaso Urli    tommaso.urli@uniud.it   University of Udine
-
-Permission is hereby granted, free of charge, to any person obtaining
-a copy of this software and associated documentation files (the
-"Software"), to deal in the Software without restriction, including
-without limitation the rights to use, copy, modify, merge, publish,
-distribute, sublicense, and/or sell copies of the Software, and to
-permit persons to whom the Software is furnished to do so, subject to
-the following conditions:
-
-The above copyright notice and this permission notice shall be
-included in all copies or substantial portions of the Software.
-
-THE SOFTWARE IS PROVIDED "AS IS", WITHOUT WARRANTY OF ANY KIND,
-EXPRESS OR IMPLIED, INCLUDING BUT NOT LIMITED TO THE WARRANTIES OF
-MERCHANTABILITY, FITNESS FOR A PARTICULAR PURPOSE AND
-NONINFRINGEMENT. IN NO EVENT SHALL THE AUTHORS OR COPYRIGHT HOLDERS BE
-LIABLE FOR ANY CLAIM, DAMAGES OR OTHER LIABILITY, WHETHER IN AN ACTION
-OF CONTRACT, TORT OR OTHERWISE, ARISING FROM, OUT OF OR IN CONNECTION
-WITH THE SOFTWARE OR THE USE OR OTHER DEALINGS IN THE SOFTWARE.
-
-*/
-
-#ifndef WIN32
-#include <sys/time.h>
-#else
-#include <Windows.h>
-
-#include <iomanip>
-#endif
-
-#include <iomanip>  // std::setprecision
-
-#include "sot/core/stop-watch.hh"
-
-using std::map;
-using std::ostringstream;
-using std::string;
-
-//#define START_PROFILER(name) getProfiler().start(name)
-//#define STOP_PROFILER(name) getProfiler().stop(name)
-
-Stopwatch &getProfiler() {
-  static Stopwatch s(REAL_TIME);  // alternatives are CPU_TIME and REAL_TIME
-  return s;
-}
-
-Stopwatch::Stopwatch(StopwatchMode _mode) : active(true), mode(_mode) {
-  records_of = new map<string, PerformanceData>();
-}
-
-Stopwatch::~Stopwatch() { delete records_of; }
-
-void Stopwatch::set_mode(StopwatchMode new_mode) { mode = new_mode; }
-
-bool Stopwatch::performance_exists(string perf_name) {
-  return (records_of->find(perf_name) != records_of->end());
-}
-
-long double Stopwatch::take_time() {
-  if (mode == CPU_TIME) {
-    // Use ctime
-    return clock();
-
-  } else if (mode == REAL_TIME) {
-    // Query operating system
-
-#ifdef WIN32
-    /* In case of usage under Windows */
-    FILETIME ft;
-    LARGE_INTEGER intervals;
-
-    // Get the amount of 100 nanoseconds intervals elapsed since January 1, 1601
-    // (UTC)
-    GetSystemTimeAsFileTime(&ft);
-    intervals.LowPart = ft.dwLowDateTime;
-    intervals.HighPart = ft.dwHighDateTime;
-
-    long double measure = intervals.QuadPart;
-    measure -= 116444736000000000.0;  // Convert to UNIX epoch time
-    measure /= 10000000.0;            // Convert to seconds
-
-    return measure;
-#else
-    /* Linux, MacOS, ... */
-    struct timeval tv;
-    gettimeofday(&tv, NULL);
-
-    long double measure = tv.tv_usec;
-    measure /= 1000000.0;  // Convert to seconds
-    measure += tv.tv_sec;  // Add seconds part
-
-    return measure;
-#endif
-
-  } else {
-    // If mode == NONE, clock has not been initialized, then throw exception
-    throw StopwatchException("Clock not initialized to a time taking mode!");
-  }
-}
-
-void Stopwatch::start(string perf_name) {
-  if (!active) return;
-
-  // Just works if not already present
-  records_of->insert(make_pair(perf_name, PerformanceData()));
-
-  PerformanceData &perf_info = records_of->find(perf_name)->second;
-
-  // Take ctime
-  perf_info.clock_start = take_time();
-
-  // If this is a new start (i.e. not a restart)
-  //  if (!perf_info.paused)
-  //    perf_info.last_time = 0;
-
-  perf_info.paused = false;
-}
-
-void Stopwatch::stop(string perf_name) {
-  if (!active) return;
-
-  long double clock_end = take_time();
-
-  // Try to recover performance data
-  if (!performance_exists(perf_name))
-    throw StopwatchException("Performance not initialized.");
-
-  PerformanceData &perf_info = records_of->find(perf_name)->second;
-
-  // check whether the performance has been reset
-  if (perf_info.clock_start == 0) return;
-
-  perf_info.stops++;
-  long double lapse = clock_end - perf_info.clock_start;
-
-  if (mode == CPU_TIME) lapse /= (double)CLOCKS_PER_SEC;
-
-  // Update last time
-  perf_info.last_time = lapse;
-
-  // Update min/max time
-  if (lapse >= perf_info.max_time) perf_info.max_time = lapse;
-  if (lapse <= perf_info.min_time || perf_info.min_time == 0)
-    perf_info.min_time = lapse;
-
-  // Update total time
-  perf_info.total_time += lapse;
-}
-
-void Stopwatch::pause(string perf_name) {
-  if (!active) return;
-
-  long double clock_end = take_time();
-
-  // Try to recover performance data
-  if (!performance_exists(perf_name))
-    throw StopwatchException("Performance not initialized.");
-
-  PerformanceData &perf_info = records_of->find(perf_name)->second;
-
-  // check whether the performance has been reset
-  if (perf_info.clock_start == 0) return;
-
-  long double lapse = clock_end - perf_info.clock_start;
-
-  if (mode == CPU_TIME) lapse /= (double)CLOCKS_PER_SEC;
-
-  // Update total time
-  perf_info.last_time += lapse;
-  perf_info.total_time += lapse;
-}
-
-void Stopwatch::reset_all() {
-  if (!active) return;
-
-  map<string, PerformanceData>::iterator it;
-
-  for (it = records_of->begin(); it != records_of->end(); ++it) {
-    reset(it->first);
-  }
-}
-
-void Stopwatch::report_all(int precision, std::ostream &output) {
-  if (!active) return;
-
-  output << "\n*** PROFILING RESULTS [ms] (min - avg - max - lastTime - "
-            "nSamples - totalTime) ***\n";
-  map<string, PerformanceData>::iterator it;
-  for (it = records_of->begin(); it != records_of->end(); ++it) {
-    report(it->first, precision, output);
-  }
-}
-
-void Stopwatch::reset(string perf_name) {
-  if (!active) return;
-
-  // Try to recover performance data
-  if (!performance_exists(perf_name))
-    throw StopwatchException("Performance not initialized.");
-
-  PerformanceData &perf_info = records_of->find(perf_name)->second;
-
-  perf_info.clock_start = 0;
-  perf_info.total_time = 0;
-  perf_info.min_time = 0;
-  perf_info.max_time = 0;
-  perf_info.last_time = 0;
-  perf_info.paused = false;
-  perf_info.stops = 0;
-}
-
-void Stopwatch::turn_on() {
-  std::cout << "Stopwatch active." << std::endl;
-  active = true;
-}
-
-void Stopwatch::turn_off() {
-  std::cout << "Stopwatch inactive." << std::endl;
-  active = false;
-}
-
-void Stopwatch::report(string perf_name, int precision, std::ostream &output) {
-  if (!active) return;
-
-  // Try to recover performance data
-  if (!performance_exists(perf_name))
-    throw StopwatchException("Performance not initialized.");
-
-  PerformanceData &perf_info = records_of->find(perf_name)->second;
-
-  string pad = "";
-  for (size_t i = perf_name.length(); i < STOP_WATCH_MAX_NAME_LENGTH; i++)
-    pad.append(" ");
-
-  output << perf_name << pad;
-  output << std::fixed << std::setprecision(precision)
-         << (perf_info.min_time * 1e3) << "\t";
-  output << std::fixed << std::setprecision(precision)
-         << (perf_info.total_time * 1e3 / (long double)perf_info.stops) << "\t";
-  output << std::fixed << std::setprecision(precision)
-         << (perf_info.max_time * 1e3) << "\t";
-  output << std::fixed << std::setprecision(precision)
-         << (perf_info.last_time * 1e3) << "\t";
-  output << std::fixed << std::setprecision(precision) << perf_info.stops
-         << std::endl;
-  output << std::fixed << std::setprecision(precision)
-         << perf_info.total_time * 1e3 << std::endl;
-}
-
-long double Stopwatch::get_time_so_far(string perf_name) {
-  // Try to recover performance data
-  if (!performance_exists(perf_name))
-    throw StopwatchException("Performance not initialized.");
-
-  long double lapse =
-      (take_time() - (records_of->find(perf_name)->second).clock_start);
-
-  if (mode == CPU_TIME) lapse /= (double)CLOCKS_PER_SEC;
-
-  return lapse;
-}
-
-long double Stopwatch::get_total_time(string perf_name) {
-  // Try to recover performance data
-  if (!performance_exists(perf_name))
-    throw StopwatchException("Performance not initialized.");
-
-  PerformanceData &perf_info = records_of->find(perf_name)->second;
-
-  return perf_info.total_time;
-}
-
-long double Stopwatch::get_average_time(string perf_name) {
-  // Try to recover performance data
-  if (!performance_exists(perf_name))
-    throw StopwatchException("Performance not initialized.");
-
-  PerformanceData &perf_info = records_of->find(perf_name)->second;
-
-  return (perf_info.total_time / (long double)perf_info.stops);
-}
-
-long double Stopwatch::get_min_time(string perf_name) {
-  // Try to recover performance data
-  if (!performance_exists(perf_name))
-    throw StopwatchException("Performance not initialized.");
-
-  PerformanceData &perf_info = records_of->find(perf_name)->second;
-
-  return perf_info.min_time;
-}
-
-long double Stopwatch::get_max_time(string perf_name) {
-  // Try to recover performance data
-  if (!performance_exists(perf_name))
-    throw StopwatchException("Performance not initialized.");
-
-  PerformanceData &perf_info = records_of->find(perf_name)->second;
-
-  return perf_info.max_time;
-}
-
-long double Stopwatch::get_last_time(string perf_name) {
-  // Try to recover performance data
-  if (!performance_exists(perf_name))
-    throw StopwatchException("Performance not initialized.");
-
-  PerformanceData &perf_info = records_of->find(perf_name)->second;
-
-  return perf_info.last_time;
-}
+/*
+Copyright (c) 2010-2013 Tommaso Urli
+
+Tommaso Urli    tommaso.urli@uniud.it   University of Udine
+
+Permission is hereby granted, free of charge, to any person obtaining
+a copy of this software and associated documentation files (the
+"Software"), to deal in the Software without restriction, including
+without limitation the rights to use, copy, modify, merge, publish,
+distribute, sublicense, and/or sell copies of the Software, and to
+permit persons to whom the Software is furnished to do so, subject to
+the following conditions:
+
+The above copyright notice and this permission notice shall be
+included in all copies or substantial portions of the Software.
+
+THE SOFTWARE IS PROVIDED "AS IS", WITHOUT WARRANTY OF ANY KIND,
+EXPRESS OR IMPLIED, INCLUDING BUT NOT LIMITED TO THE WARRANTIES OF
+MERCHANTABILITY, FITNESS FOR A PARTICULAR PURPOSE AND
+NONINFRINGEMENT. IN NO EVENT SHALL THE AUTHORS OR COPYRIGHT HOLDERS BE
+LIABLE FOR ANY CLAIM, DAMAGES OR OTHER LIABILITY, WHETHER IN AN ACTION
+OF CONTRACT, TORT OR OTHERWISE, ARISING FROM, OUT OF OR IN CONNECTION
+WITH THE SOFTWARE OR THE USE OR OTHER DEALINGS IN THE SOFTWARE.
+
+*/
+
+#ifndef WIN32
+#include <sys/time.h>
+#else
+#include <Windows.h>
+
+#include <iomanip>
+#endif
+
+#include <iomanip>  // std::setprecision
+
+#include "sot/core/stop-watch.hh"
+
+using std::map;
+using std::ostringstream;
+using std::string;
+
+//#define START_PROFILER(name) getProfiler().start(name)
+//#define STOP_PROFILER(name) getProfiler().stop(name)
+
+Stopwatch &getProfiler() {
+  static Stopwatch s(REAL_TIME);  // alternatives are CPU_TIME and REAL_TIME
+  return s;
+}
+
+Stopwatch::Stopwatch(StopwatchMode _mode) : active(true), mode(_mode) {
+  records_of = new map<string, PerformanceData>();
+}
+
+Stopwatch::~Stopwatch() { delete records_of; }
+
+void Stopwatch::set_mode(StopwatchMode new_mode) { mode = new_mode; }
+
+bool Stopwatch::performance_exists(string perf_name) {
+  return (records_of->find(perf_name) != records_of->end());
+}
+
+long double Stopwatch::take_time() {
+  if (mode == CPU_TIME) {
+    // Use ctime
+    return clock();
+
+  } else if (mode == REAL_TIME) {
+    // Query operating system
+
+#ifdef WIN32
+    /* In case of usage under Windows */
+    FILETIME ft;
+    LARGE_INTEGER intervals;
+
+    // Get the amount of 100 nanoseconds intervals elapsed since January 1, 1601
+    // (UTC)
+    GetSystemTimeAsFileTime(&ft);
+    intervals.LowPart = ft.dwLowDateTime;
+    intervals.HighPart = ft.dwHighDateTime;
+
+    long double measure = intervals.QuadPart;
+    measure -= 116444736000000000.0;  // Convert to UNIX epoch time
+    measure /= 10000000.0;            // Convert to seconds
+
+    return measure;
+#else
+    /* Linux, MacOS, ... */
+    struct timeval tv;
+    gettimeofday(&tv, NULL);
+
+    long double measure = tv.tv_usec;
+    measure /= 1000000.0;  // Convert to seconds
+    measure += tv.tv_sec;  // Add seconds part
+
+    return measure;
+#endif
+
+  } else {
+    // If mode == NONE, clock has not been initialized, then throw exception
+    throw StopwatchException("Clock not initialized to a time taking mode!");
+  }
+}
+
+void Stopwatch::start(string perf_name) {
+  if (!active) return;
+
+  // Just works if not already present
+  records_of->insert(make_pair(perf_name, PerformanceData()));
+
+  PerformanceData &perf_info = records_of->find(perf_name)->second;
+
+  // Take ctime
+  perf_info.clock_start = take_time();
+
+  // If this is a new start (i.e. not a restart)
+  //  if (!perf_info.paused)
+  //    perf_info.last_time = 0;
+
+  perf_info.paused = false;
+}
+
+void Stopwatch::stop(string perf_name) {
+  if (!active) return;
+
+  long double clock_end = take_time();
+
+  // Try to recover performance data
+  if (!performance_exists(perf_name))
+    throw StopwatchException("Performance not initialized.");
+
+  PerformanceData &perf_info = records_of->find(perf_name)->second;
+
+  // check whether the performance has been reset
+  if (perf_info.clock_start == 0) return;
+
+  perf_info.stops++;
+  long double lapse = clock_end - perf_info.clock_start;
+
+  if (mode == CPU_TIME) lapse /= (double)CLOCKS_PER_SEC;
+
+  // Update last time
+  perf_info.last_time = lapse;
+
+  // Update min/max time
+  if (lapse >= perf_info.max_time) perf_info.max_time = lapse;
+  if (lapse <= perf_info.min_time || perf_info.min_time == 0)
+    perf_info.min_time = lapse;
+
+  // Update total time
+  perf_info.total_time += lapse;
+}
+
+void Stopwatch::pause(string perf_name) {
+  if (!active) return;
+
+  long double clock_end = take_time();
+
+  // Try to recover performance data
+  if (!performance_exists(perf_name))
+    throw StopwatchException("Performance not initialized.");
+
+  PerformanceData &perf_info = records_of->find(perf_name)->second;
+
+  // check whether the performance has been reset
+  if (perf_info.clock_start == 0) return;
+
+  long double lapse = clock_end - perf_info.clock_start;
+
+  if (mode == CPU_TIME) lapse /= (double)CLOCKS_PER_SEC;
+
+  // Update total time
+  perf_info.last_time += lapse;
+  perf_info.total_time += lapse;
+}
+
+void Stopwatch::reset_all() {
+  if (!active) return;
+
+  map<string, PerformanceData>::iterator it;
+
+  for (it = records_of->begin(); it != records_of->end(); ++it) {
+    reset(it->first);
+  }
+}
+
+void Stopwatch::report_all(int precision, std::ostream &output) {
+  if (!active) return;
+
+  output << "\n*** PROFILING RESULTS [ms] (min - avg - max - lastTime - "
+            "nSamples - totalTime) ***\n";
+  map<string, PerformanceData>::iterator it;
+  for (it = records_of->begin(); it != records_of->end(); ++it) {
+    report(it->first, precision, output);
+  }
+}
+
+void Stopwatch::reset(string perf_name) {
+  if (!active) return;
+
+  // Try to recover performance data
+  if (!performance_exists(perf_name))
+    throw StopwatchException("Performance not initialized.");
+
+  PerformanceData &perf_info = records_of->find(perf_name)->second;
+
+  perf_info.clock_start = 0;
+  perf_info.total_time = 0;
+  perf_info.min_time = 0;
+  perf_info.max_time = 0;
+  perf_info.last_time = 0;
+  perf_info.paused = false;
+  perf_info.stops = 0;
+}
+
+void Stopwatch::turn_on() {
+  std::cout << "Stopwatch active." << std::endl;
+  active = true;
+}
+
+void Stopwatch::turn_off() {
+  std::cout << "Stopwatch inactive." << std::endl;
+  active = false;
+}
+
+void Stopwatch::report(string perf_name, int precision, std::ostream &output) {
+  if (!active) return;
+
+  // Try to recover performance data
+  if (!performance_exists(perf_name))
+    throw StopwatchException("Performance not initialized.");
+
+  PerformanceData &perf_info = records_of->find(perf_name)->second;
+
+  string pad = "";
+  for (size_t i = perf_name.length(); i < STOP_WATCH_MAX_NAME_LENGTH; i++)
+    pad.append(" ");
+
+  output << perf_name << pad;
+  output << std::fixed << std::setprecision(precision)
+         << (perf_info.min_time * 1e3) << "\t";
+  output << std::fixed << std::setprecision(precision)
+         << (perf_info.total_time * 1e3 / (long double)perf_info.stops) << "\t";
+  output << std::fixed << std::setprecision(precision)
+         << (perf_info.max_time * 1e3) << "\t";
+  output << std::fixed << std::setprecision(precision)
+         << (perf_info.last_time * 1e3) << "\t";
+  output << std::fixed << std::setprecision(precision) << perf_info.stops
+         << std::endl;
+  output << std::fixed << std::setprecision(precision)
+         << perf_info.total_time * 1e3 << std::endl;
+}
+
+long double Stopwatch::get_time_so_far(string perf_name) {
+  // Try to recover performance data
+  if (!performance_exists(perf_name))
+    throw StopwatchException("Performance not initialized.");
+
+  long double lapse =
+      (take_time() - (records_of->find(perf_name)->second).clock_start);
+
+  if (mode == CPU_TIME) lapse /= (double)CLOCKS_PER_SEC;
+
+  return lapse;
+}
+
+long double Stopwatch::get_total_time(string perf_name) {
+  // Try to recover performance data
+  if (!performance_exists(perf_name))
+    throw StopwatchException("Performance not initialized.");
+
+  PerformanceData &perf_info = records_of->find(perf_name)->second;
+
+  return perf_info.total_time;
+}
+
+long double Stopwatch::get_average_time(string perf_name) {
+  // Try to recover performance data
+  if (!performance_exists(perf_name))
+    throw StopwatchException("Performance not initialized.");
+
+  PerformanceData &perf_info = records_of->find(perf_name)->second;
+
+  return (perf_info.total_time / (long double)perf_info.stops);
+}
+
+long double Stopwatch::get_min_time(string perf_name) {
+  // Try to recover performance data
+  if (!performance_exists(perf_name))
+    throw StopwatchException("Performance not initialized.");
+
+  PerformanceData &perf_info = records_of->find(perf_name)->second;
+
+  return perf_info.min_time;
+}
+
+long double Stopwatch::get_max_time(string perf_name) {
+  // Try to recover performance data
+  if (!performance_exists(perf_name))
+    throw StopwatchException("Performance not initialized.");
+
+  PerformanceData &perf_info = records_of->find(perf_name)->second;
+
+  return perf_info.max_time;
+}
+
+long double Stopwatch::get_last_time(string perf_name) {
+  // Try to recover performance data
+  if (!performance_exists(perf_name))
+    throw StopwatchException("Performance not initialized.");
+
+  PerformanceData &perf_info = records_of->find(perf_name)->second;
+
+  return perf_info.last_time;
+}
-- 
2.43.0


From 05aa938497799dbb4cd142c473ed25b4353e18bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:46 +0000
Subject: [PATCH 25/75] fix: ConvolutionTemporal: raise an error when the sizes
 do not match instead of a partial sum

---
 src/matrix/operator.hh | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/matrix/operator.hh b/src/matrix/operator.hh
index bd11c8b..660281c 100644
--- a/src/matrix/operator.hh
+++ b/src/matrix/operator.hh
@@ -677,7 +677,9 @@ struct ConvolutionTemporal
          iter++) {
       const dynamicgraph::Vector &s_tau = *iter;
       sotDEBUG(45) << "Sig" << j << ": " << s_tau;
-      if (s_tau.size() != nsig) return;  // TODO: error throw;
+      if (s_tau.size() != nsig)
+        throw std::invalid_argument(
+            "The signal size does not match the number of rows.");
       for (int i = 0; i < nsig; ++i) {
         res(i) += f2(i, j) * s_tau(i);
       }
-- 
2.43.0


From c6434559a607488eefc34cdd2f3910127ceabeb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:46 +0000
Subject: [PATCH 26/75] fix: And, Or: give the neutral element when there is no
 operand

---
 src/matrix/operator.hh | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/matrix/operator.hh b/src/matrix/operator.hh
index 660281c..52df238 100644
--- a/src/matrix/operator.hh
+++ b/src/matrix/operator.hh
@@ -995,7 +995,10 @@ struct BoolOp : public VariadicOpHeader<bool, bool> {
     // TODO computation could be optimized with lazy evaluation of the
     // signals. When the output result is know, the remaining signals are
     // not computed.
-    if (vs.size() == 0) return;
+    if (vs.size() == 0) {
+      res = (operation == 0);
+      return;
+    }
     res = *vs[0];
     for (std::size_t i = 1; i < vs.size(); ++i) switch (operation) {
         case 0:
-- 
2.43.0


From 261d2f872b1dd02d8d9205e1069ce97ceb5869be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:49:32 +0000
Subject: [PATCH 27/75] fix: SkewSymToVector reads the vector of the
 skew-symmetric matrix, not its opposite

---
 src/matrix/operator.hh | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/matrix/operator.hh b/src/matrix/operator.hh
index 52df238..18ea837 100644
--- a/src/matrix/operator.hh
+++ b/src/matrix/operator.hh
@@ -298,9 +298,9 @@ struct MatrixHomoToPoseUTheta
 struct SkewSymToVector : public UnaryOpHeader<Matrix, Vector> {
   inline void operator()(const Matrix &M, Vector &res) {
     res.resize(3);
-    res(0) = M(7);
-    res(1) = M(2);
-    res(2) = M(3);
+    res(0) = M(2, 1);
+    res(1) = M(0, 2);
+    res(2) = M(1, 0);
   }
 };
 
-- 
2.43.0


From 227e59fb09ba7b675423e0cd90aab08059c13974 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:55:17 +0000
Subject: [PATCH 28/75] fix: count operational point signals of a visual point
 task

filter() returns an iterator in Python 3, len() raised TypeError: no
MetaTaskVisualPoint could be built.
---
 .../sot/core/meta_task_visual_point.py             | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/dynamic_graph/sot/core/meta_task_visual_point.py b/src/dynamic_graph/sot/core/meta_task_visual_point.py
index a5629b3..4365fa0 100644
--- a/src/dynamic_graph/sot/core/meta_task_visual_point.py
+++ b/src/dynamic_graph/sot/core/meta_task_visual_point.py
@@ -17,12 +17,14 @@ class MetaTaskVisualPoint(object):
     proj = 0
 
     def opPointExist(self, opPoint):
-        sigsP = filter(
-            lambda x: x.getName().split(":")[-1] == opPoint, self.dyn.signals()
-        )
-        sigsJ = filter(
-            lambda x: x.getName().split(":")[-1] == "J" + opPoint, self.dyn.signals()
-        )
+        sigsP = [
+            x for x in self.dyn.signals() if x.getName().split(":")[-1] == opPoint
+        ]
+        sigsJ = [
+            x
+            for x in self.dyn.signals()
+            if x.getName().split(":")[-1] == "J" + opPoint
+        ]
         return len(sigsP) == 1 & len(sigsJ) == 1
 
     def defineDynEntities(self, dyn):
-- 
2.43.0


From 53cbf0647e555e1b6480b16168484afa431da2e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:55:17 +0000
Subject: [PATCH 29/75] fix: dimension of a posture task belongs to the task

gotoq with a goal posture raised TypeError unless another call had set
the class attribute, and two robots of different dimensions shared it.
---
 src/dynamic_graph/sot/core/meta_task_posture.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/dynamic_graph/sot/core/meta_task_posture.py b/src/dynamic_graph/sot/core/meta_task_posture.py
index 0109cb8..5ffd28b 100644
--- a/src/dynamic_graph/sot/core/meta_task_posture.py
+++ b/src/dynamic_graph/sot/core/meta_task_posture.py
@@ -60,17 +60,17 @@ class MetaTaskPosture(object):
 
     def gotoq(self, gain=None, qdes=None, **kwargs):
         act = list()
+        if self.nbDof is None:
+            self.nbDof = len(self.feature.errorIN.value)
         if qdes is not None:
             if isinstance(qdes, tuple):
                 qdes = matrix(qdes).T
         else:
-            if MetaTaskPosture.nbDof is None:
-                MetaTaskPosture.nbDof = len(self.feature.errorIN.value)
-            qdes = zeros((MetaTaskPosture.nbDof, 1))
+            qdes = zeros((self.nbDof, 1))
 
         act = [
             False,
-        ] * MetaTaskPosture.nbDof
+        ] * self.nbDof
         for limbName, jointValues in kwargs.items():
             limbRange = self.postureRange[limbName]
             for i in limbRange:
-- 
2.43.0


From 6e531dd65bc92c3f5582c52d0e38e4287d937a7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:18:19 +0000
Subject: [PATCH 30/75] fix: an event that stops itself does not skip the next
 one

The list of permanent events was iterated while stop() removed from it.
---
 src/dynamic_graph/sot/core/utils/attime.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dynamic_graph/sot/core/utils/attime.py b/src/dynamic_graph/sot/core/utils/attime.py
index 3ac1548..ac8d2e3 100644
--- a/src/dynamic_graph/sot/core/utils/attime.py
+++ b/src/dynamic_graph/sot/core/utils/attime.py
@@ -82,7 +82,7 @@ class Calendar:
 
     def run(self, iter, *args):
         if ALWAYS in self.events:
-            for fun, doc in self.events[ALWAYS]:
+            for fun, doc in list(self.events[ALWAYS]):
                 fun(*args)
         if iter in self.events:
             self.callPing()
-- 
2.43.0


From 37f1a8f5b075e4742f1d3d3c0fe23914e9064c3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:09:35 +0000
Subject: [PATCH 31/75] fix: Sot keeps walking the stack after a discarded
 first task

When the first task is discarded because its norm exceeds the limit, no
kernel is computed. The loop stopped there, ignoring all the other tasks.
---
 src/sot/sot.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/sot/sot.cpp b/src/sot/sot.cpp
index 88ee365..7f4cab1 100644
--- a/src/sot/sot.cpp
+++ b/src/sot/sot.cpp
@@ -633,7 +633,8 @@ dynamicgraph::Vector &Sot::computeControlLaw(dynamicgraph::Vector &control,
     sotPRINTCOUNTER(4);
     sotPRINTCOUNTER(5);
     sotPRINTCOUNTER(6);
-    if (last || kernel.cols() == 0) break;
+    // Without kernel yet, the whole space is still available.
+    if (last || (has_kernel && kernel.cols() == 0)) break;
   }
 
   sotCHRONO1;
-- 
2.43.0


From d1b2e67985715ff1654154e811aa6cf363978f03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:09:42 +0000
Subject: [PATCH 32/75] fix: Sot does not accelerate the posture task without
 projector

With a single task in the stack, or when all the preceding ones were
discarded, there is no kernel and the posture task was silently ignored.
---
 src/sot/sot.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/sot/sot.cpp b/src/sot/sot.cpp
index 7f4cab1..51a6757 100644
--- a/src/sot/sot.cpp
+++ b/src/sot/sot.cpp
@@ -528,7 +528,8 @@ dynamicgraph::Vector &Sot::computeControlLaw(dynamicgraph::Vector &control,
     Task *task = dynamic_cast<Task *>(*iter);
 
     bool last = (iterTask + 1 == stack.size());
-    bool fullPostureTask = (last && enablePostureTaskAcceleration &&
+    bool fullPostureTask = (last && has_kernel &&
+                            enablePostureTaskAcceleration &&
                             isFullPostureTask(task, nbJoints, iterTime));
 
     sotDEBUG(15) << "Task: e_" << taskA.getName() << std::endl;
-- 
2.43.0


From 6cbd82acbae954ed1cf007dc1d78b8c18ade9ba2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:15:00 +0000
Subject: [PATCH 33/75] fix: replacing the reference of a feature drops the
 previous one's dependencies

The signals of the previous reference stayed declared as dependencies, and
the outputs were not marked for recomputation.
---
 include/sot/core/feature-abstract.hh | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/include/sot/core/feature-abstract.hh b/include/sot/core/feature-abstract.hh
index 18fea95..ac8cc1e 100644
--- a/include/sot/core/feature-abstract.hh
+++ b/include/sot/core/feature-abstract.hh
@@ -251,15 +251,14 @@ void FeatureReferenceHelper<FeatureSpecialized>::setReference(
 #define DECLARE_REFERENCE_FUNCTIONS(FeatureSpecialized)             \
   typedef FeatureReferenceHelper<FeatureSpecialized> SP;            \
   virtual void setReference(FeatureAbstract *sdes) {                \
-    if (sdes == NULL) {                                             \
-      /* UNSET */                                                   \
-      if (SP::isReferenceSet()) removeDependenciesFromReference();  \
-      SP::unsetReference();                                         \
-    } else {                                                        \
-      /* SET */                                                     \
-      SP::setReference(sdes);                                       \
-      if (SP::isReferenceSet()) addDependenciesFromReference();     \
-    }                                                               \
+    /* UNSET the previous reference, if any. */                     \
+    if (SP::isReferenceSet()) removeDependenciesFromReference();    \
+    SP::setReference(sdes);                                         \
+    /* SET */                                                       \
+    if (SP::isReferenceSet()) addDependenciesFromReference();       \
+    errorSOUT.setReady();                                           \
+    errordotSOUT.setReady();                                        \
+    jacobianSOUT.setReady();                                        \
   }                                                                 \
   virtual const FeatureAbstract *getReferenceAbstract(void) const { \
     return SP::getReference();                                      \
-- 
2.43.0


From 6c4918b3cb7ed22d53614af3be42e9a88ac25565 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:15:00 +0000
Subject: [PATCH 34/75] fix: editing the features of a task marks its outputs
 for recomputation

Once cleared, the task kept answering its last error and Jacobian.
---
 src/task/task.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/task/task.cpp b/src/task/task.cpp
index 7bf4f65..dd06608 100644
--- a/src/task/task.cpp
+++ b/src/task/task.cpp
@@ -110,6 +110,9 @@ void Task::addFeature(FeatureAbstract &s) {
   jacobianSOUT.addDependency(s.jacobianSOUT);
   errorSOUT.addDependency(s.errorSOUT);
   errorTimeDerivativeSOUT.addDependency(s.getErrorDot());
+  jacobianSOUT.setReady();
+  errorSOUT.setReady();
+  errorTimeDerivativeSOUT.setReady();
 }
 
 void Task::addFeatureFromName(const std::string &featureName) {
@@ -128,6 +131,9 @@ void Task::clearFeatureList(void) {
   }
 
   featureList.clear();
+  jacobianSOUT.setReady();
+  errorSOUT.setReady();
+  errorTimeDerivativeSOUT.setReady();
 }
 
 void Task::setControlSelection(const Flags &act) { controlSelectionSIN = act; }
-- 
2.43.0


From 553ca212c48a1cf01d9463082cc865cc97ad28a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:15:00 +0000
Subject: [PATCH 35/75] fix: editing the inputs of a variadic entity marks its
 output for recomputation

---
 include/sot/core/variadic-op.hh | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/sot/core/variadic-op.hh b/include/sot/core/variadic-op.hh
index 034660e..7c63563 100644
--- a/include/sot/core/variadic-op.hh
+++ b/include/sot/core/variadic-op.hh
@@ -126,11 +126,13 @@ class VariadicAbstract : public Entity {
     // signalDeregistration(names[i]);
     signalDeregistration(signalsIN[i]->shortName());
     SOUT.removeDependency(*signalsIN[i]);
+    SOUT.setReady();
     delete signalsIN[i];
   }
   void _declareSignal(signal_t *s) {
     signalRegistration(*s);
     SOUT.addDependency(*s);
+    SOUT.setReady();
   }
   const std::string baseSigname;
 };
-- 
2.43.0


From 6c90df7d0afbaf86345674a2a160daa3bef5bf08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:15:00 +0000
Subject: [PATCH 36/75] fix: a task still in the stack stays a dependency of
 the control

A task pushed twice lost its dependencies when removed once.
---
 src/sot/sot.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/sot/sot.cpp b/src/sot/sot.cpp
index 51a6757..1e3457b 100644
--- a/src/sot/sot.cpp
+++ b/src/sot/sot.cpp
@@ -219,8 +219,8 @@ void Sot::push(TaskAbstract &task) {
 TaskAbstract &Sot::pop(void) {
   TaskAbstract *res = stack.back();
   stack.pop_back();
-  controlSOUT.removeDependency(res->taskSOUT);
-  controlSOUT.removeDependency(res->jacobianSOUT);
+  // The same task may also be at another level.
+  if (!exist(*res)) removeDependency(*res);
   controlSOUT.setReady();
   return *res;
 }
@@ -247,7 +247,9 @@ void Sot::remove(const TaskAbstract &key) {
   }
 
   stack.erase(it);
-  removeDependency(key);
+  // The same task may also be at another level.
+  if (!exist(key)) removeDependency(key);
+  controlSOUT.setReady();
 }
 
 void Sot::removeDependency(const TaskAbstract &key) {
-- 
2.43.0


From a3136182b8c8aad08897ed40553f82ab2d2f93dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:04:51 +0000
Subject: [PATCH 37/75] fix: FIRFilter refuses a coefficient rank out of range
 instead of reading or writing past the end

---
 include/sot/core/fir-filter.hh | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/sot/core/fir-filter.hh b/include/sot/core/fir-filter.hh
index 26a48a2..d83bbbe 100644
--- a/include/sot/core/fir-filter.hh
+++ b/include/sot/core/fir-filter.hh
@@ -185,10 +185,10 @@ class FIRFilter : public Entity {
   }
 
   void setElement(const unsigned int &rank, const coefT &coef) {
-    coefs[rank] = coef;
+    coefs.at(rank) = coef;
   }
 
-  coefT getElement(const unsigned int &rank) const { return coefs[rank]; }
+  coefT getElement(const unsigned int &rank) const { return coefs.at(rank); }
 
   static void reset_signal(sigT & /*res*/, const sigT & /*sample*/) {}
 
-- 
2.43.0


From 7b9cc907cc4f53ef25adf8896494b974796f377f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:04:51 +0000
Subject: [PATCH 38/75] fix: IntegratorAbstract refuses to pop a coefficient
 from an empty list

---
 include/sot/core/integrator-abstract.hh | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/include/sot/core/integrator-abstract.hh b/include/sot/core/integrator-abstract.hh
index 840797b..459bec2 100644
--- a/include/sot/core/integrator-abstract.hh
+++ b/include/sot/core/integrator-abstract.hh
@@ -27,6 +27,7 @@
 #include <sot/core/flags.hh>
 
 /* STD */
+#include <stdexcept>
 #include <string>
 
 /* --------------------------------------------------------------------- */
@@ -88,8 +89,15 @@ class IntegratorAbstract : public dynamicgraph::Entity {
   void pushDenomCoef(const coefT &denomCoef) {
     denominator.push_back(denomCoef);
   }
-  void popNumCoef() { numerator.pop_back(); }
-  void popDenomCoef() { denominator.pop_back(); }
+  void popNumCoef() {
+    if (numerator.empty()) throw std::out_of_range("No numerator coefficient");
+    numerator.pop_back();
+  }
+  void popDenomCoef() {
+    if (denominator.empty())
+      throw std::out_of_range("No denominator coefficient");
+    denominator.pop_back();
+  }
 
   const std::vector<coefT> &numCoeffs() const { return numerator; }
   void numCoeffs(const std::vector<coefT> &coeffs) { numerator = coeffs; }
-- 
2.43.0


From d05386ba696acaa75944c4bbc4e6c004a7ee4de6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:04:51 +0000
Subject: [PATCH 39/75] fix: VariadicAbstract::removeSignal refuses when there
 is no signal left

---
 include/sot/core/variadic-op.hh | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/sot/core/variadic-op.hh b/include/sot/core/variadic-op.hh
index 7c63563..ac8e9c6 100644
--- a/include/sot/core/variadic-op.hh
+++ b/include/sot/core/variadic-op.hh
@@ -26,6 +26,7 @@
 
 /* STD */
 #include <boost/function.hpp>
+#include <stdexcept>
 #include <string>
 
 namespace dynamicgraph {
@@ -80,7 +81,7 @@ class VariadicAbstract : public Entity {
   }
 
   void removeSignal() {
-    assert(signalsIN.size() > 0);
+    if (signalsIN.empty()) throw std::out_of_range("No signal to remove");
     _removeSignal(signalsIN.size() - 1);
     // names.pop_back();
     signalsIN.pop_back();
-- 
2.43.0


From 960de9ba56ae290f1431934f7b89579492447e87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:04:51 +0000
Subject: [PATCH 40/75] fix: FeaturePosture::selectDof checks the degree of
 freedom before changing the selection

---
 src/feature/feature-posture.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/feature/feature-posture.cpp b/src/feature/feature-posture.cpp
index 83b8296..7b5ae0e 100644
--- a/src/feature/feature-posture.cpp
+++ b/src/feature/feature-posture.cpp
@@ -112,12 +112,6 @@ void FeaturePosture::selectDof(unsigned dofId, bool control) {
   if (dim != (std::size_t)posture.size()) {
     throw std::runtime_error("Posture and State should have same dimension.");
   }
-  // If activeDof_ vector not initialized, initialize it
-  if (activeDofs_.size() != dim) {
-    activeDofs_ = std::vector<bool>(dim, false);
-    nbActiveDofs_ = 0;
-  }
-
   // Check that selected dof id is valid
   if (dofId >= dim) {
     std::ostringstream oss;
@@ -126,6 +120,12 @@ void FeaturePosture::selectDof(unsigned dofId, bool control) {
     throw ExceptionAbstract(ExceptionAbstract::TOOLS, oss.str());
   }
 
+  // If activeDof_ vector not initialized, initialize it
+  if (activeDofs_.size() != dim) {
+    activeDofs_ = std::vector<bool>(dim, false);
+    nbActiveDofs_ = 0;
+  }
+
   if (control) {
     if (!activeDofs_[dofId]) {
       activeDofs_[dofId] = true;
-- 
2.43.0


From 9f426dfc519737cd4c26af7e388c3f7ad4edb894 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:04:51 +0000
Subject: [PATCH 41/75] fix: Sot::pop refuses on an empty stack

---
 src/sot/sot.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/sot/sot.cpp b/src/sot/sot.cpp
index 1e3457b..28afe06 100644
--- a/src/sot/sot.cpp
+++ b/src/sot/sot.cpp
@@ -217,6 +217,7 @@ void Sot::push(TaskAbstract &task) {
   controlSOUT.setReady();
 }
 TaskAbstract &Sot::pop(void) {
+  if (stack.empty()) throw std::logic_error("The stack is empty");
   TaskAbstract *res = stack.back();
   stack.pop_back();
   // The same task may also be at another level.
-- 
2.43.0


From b6419599dddc07a3b999695dc80aaa4106cfa343 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:04:51 +0000
Subject: [PATCH 42/75] fix: rebuild the index-to-name maps from scratch,
 refuse configuration conversions before the joint map is set

---
 src/tools/robot-utils.cpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/tools/robot-utils.cpp b/src/tools/robot-utils.cpp
index f628855..b7e0479 100644
--- a/src/tools/robot-utils.cpp
+++ b/src/tools/robot-utils.cpp
@@ -174,6 +174,7 @@ std::string ForceUtil::cp_get_name_from_id(Index idx) {
 }
 void ForceUtil::create_force_id_to_name_map() {
   std::map<std::string, Index>::const_iterator it;
+  m_force_id_to_name.clear();
   for (it = m_name_to_force_id.begin(); it != m_name_to_force_id.end(); it++)
     m_force_id_to_name[it->second] = it->first;
 }
@@ -226,7 +227,7 @@ void ForceUtil::display(std::ostream &os) const {
 }
 
 /**************** FromURDFToSot *************************/
-RobotUtil::RobotUtil() {}
+RobotUtil::RobotUtil() : m_nbJoints(0) {}
 
 void RobotUtil::set_joint_limits_for_id(const Index &idx, const double &lq,
                                         const double &uq) {
@@ -251,6 +252,7 @@ void RobotUtil::set_name_to_id(const std::string &jointName,
 
 void RobotUtil::create_id_to_name_map() {
   std::map<std::string, Index>::const_iterator it;
+  m_id_to_name.clear();
   for (it = m_name_to_id.begin(); it != m_name_to_id.end(); it++)
     m_id_to_name[it->second] = it->first;
 }
@@ -393,6 +395,10 @@ bool RobotUtil::config_urdf_to_sot(ConstRefVector q_urdf, RefVector q_sot) {
   assert(q_urdf.size() == static_cast<Eigen::VectorXd::Index>(m_nbJoints + 7));
   assert(q_sot.size() == static_cast<Eigen::VectorXd::Index>(m_nbJoints + 6));
 
+  if (m_nbJoints == 0) {
+    SEND_MSG("set_urdf_to_sot should be called", MSG_TYPE_ERROR);
+    return false;
+  }
   base_urdf_to_sot(q_urdf.head<7>(), q_sot.head<6>());
   joints_urdf_to_sot(q_urdf.tail(m_nbJoints), q_sot.tail(m_nbJoints));
 
@@ -402,6 +408,10 @@ bool RobotUtil::config_urdf_to_sot(ConstRefVector q_urdf, RefVector q_sot) {
 bool RobotUtil::config_sot_to_urdf(ConstRefVector q_sot, RefVector q_urdf) {
   assert(q_urdf.size() == static_cast<Eigen::VectorXd::Index>(m_nbJoints + 7));
   assert(q_sot.size() == static_cast<Eigen::VectorXd::Index>(m_nbJoints + 6));
+  if (m_nbJoints == 0) {
+    SEND_MSG("set_urdf_to_sot should be called", MSG_TYPE_ERROR);
+    return false;
+  }
   base_sot_to_urdf(q_sot.head<6>(), q_urdf.head<7>());
   joints_sot_to_urdf(q_sot.tail(m_nbJoints), q_urdf.tail(m_nbJoints));
   return true;
-- 
2.43.0


From 073990d704bbcbcdf77a9f170d44a6e4e90138ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:04:51 +0000
Subject: [PATCH 43/75] fix: ParameterServer::init_simple changes nothing when
 it refuses, displayRobotUtil refuses before init

---
 src/tools/parameter-server.cpp | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/tools/parameter-server.cpp b/src/tools/parameter-server.cpp
index face65a..510a2c0 100644
--- a/src/tools/parameter-server.cpp
+++ b/src/tools/parameter-server.cpp
@@ -207,11 +207,6 @@ ParameterServer::ParameterServer(const std::string &name)
 void ParameterServer::init_simple(const double &dt) {
   if (dt <= 0.0) return SEND_MSG("Timestep must be positive", MSG_TYPE_ERROR);
 
-  m_dt = dt;
-
-  m_emergency_stop_triggered = false;
-  m_initSucceeded = true;
-
   std::string localName("robot");
   std::shared_ptr<std::vector<std::string> > listOfRobots =
       sot::getListOfRobots();
@@ -226,6 +221,11 @@ void ParameterServer::init_simple(const double &dt) {
                          oss.str());
   }
 
+  m_dt = dt;
+
+  m_emergency_stop_triggered = false;
+  m_initSucceeded = true;
+
   if (!isNameInRobotUtil(localName)) {
     m_robot_util = createRobotUtil(localName);
   } else {
@@ -375,7 +375,13 @@ void ParameterServer::setImuJointName(const std::string &JointName) {
   m_robot_util->m_imu_joint_name = JointName;
 }
 
-void ParameterServer::displayRobotUtil() { m_robot_util->display(std::cout); }
+void ParameterServer::displayRobotUtil() {
+  if (!m_initSucceeded) {
+    SEND_WARNING_STREAM_MSG("Cannot display robot util before initialization!");
+    return;
+  }
+  m_robot_util->display(std::cout);
+}
 
 /* --- PROTECTED MEMBER METHODS
  * ---------------------------------------------------------- */
-- 
2.43.0


From d5de00145faa840b13807fc3fb5b3756414ad499 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:04:51 +0000
Subject: [PATCH 44/75] fix: Device::setRoot sets the root of the state instead
 of writing past the end of a copy

---
 src/tools/device.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/tools/device.cpp b/src/tools/device.cpp
index d07de74..715916b 100644
--- a/src/tools/device.cpp
+++ b/src/tools/device.cpp
@@ -298,8 +298,9 @@ void Device::setRoot(const Matrix &root) {
 void Device::setRoot(const MatrixHomogeneous &worldMwaist) {
   VectorRollPitchYaw r = (worldMwaist.linear().eulerAngles(2, 1, 0)).reverse();
   Vector q = state_;
-  q = worldMwaist.translation();  // abusive ... but working.
-  for (unsigned int i = 0; i < 3; ++i) q(i + 3) = r(i);
+  q.head<3>() = worldMwaist.translation();
+  q.segment<3>(3) = r;
+  setState(q);
 }
 
 void Device::setSecondOrderIntegration() {
-- 
2.43.0


From c1f3868243f76d519ce6c779ea5e70ad8691c44e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:04:51 +0000
Subject: [PATCH 45/75] fix: Device clamps the position within its bounds when
 positions are controlled

---
 src/tools/device.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/tools/device.cpp b/src/tools/device.cpp
index 715916b..e4b7b75 100644
--- a/src/tools/device.cpp
+++ b/src/tools/device.cpp
@@ -513,6 +513,10 @@ void Device::integrate(const double &dt) {
 
   if (controlInputType_ == CONTROL_INPUT_NO_INTEGRATION) {
     state_.tail(controlIN.size()) = controlIN;
+    // Position bounds check
+    if (sanityCheck_) {
+      CHECK_BOUNDS(state_, lowerPosition_, upperPosition_, "position");
+    }
     return;
   }
 
-- 
2.43.0


From 5e822a3885119a2093036fa7c20136ca3e0054b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:04:51 +0000
Subject: [PATCH 46/75] fix: Device clamps the velocity control within the
 velocity bounds

---
 src/tools/device.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/tools/device.cpp b/src/tools/device.cpp
index e4b7b75..64a7491 100644
--- a/src/tools/device.cpp
+++ b/src/tools/device.cpp
@@ -538,7 +538,12 @@ void Device::integrate(const double &dt) {
 
   // Velocity bounds check
   if (sanityCheck_) {
-    CHECK_BOUNDS(velocity_, lowerVelocity_, upperVelocity_, "velocity");
+    if (controlInputType_ == CONTROL_INPUT_TWO_INTEGRATION) {
+      CHECK_BOUNDS(velocity_, lowerVelocity_, upperVelocity_, "velocity");
+    } else {
+      CHECK_BOUNDS(vel_control_, lowerVelocity_.tail(vel_control_.size()),
+                   upperVelocity_.tail(vel_control_.size()), "velocity");
+    }
   }
 
   if (vel_control_.size() == state_.size()) {
-- 
2.43.0


From 5dbdafb592024d98ed2852077a0a12fa4635db41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:31:43 +0000
Subject: [PATCH 47/75] fix: operators whose parameters were not set yet
 computed with uninitialised memory

---
 src/matrix/operator.hh | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/matrix/operator.hh b/src/matrix/operator.hh
index 18ea837..bc05aed 100644
--- a/src/matrix/operator.hh
+++ b/src/matrix/operator.hh
@@ -115,6 +115,7 @@ struct VectorComponent : public UnaryOpHeader<dg::Vector, double> {
     res = m(index);
   }
 
+  VectorComponent() : index(0) {}
   int index;
   inline void setIndex(const int &m) { index = m; }
 
@@ -148,6 +149,7 @@ struct MatrixSelector : public UnaryOpHeader<dg::Matrix, dg::Matrix> {
   }
 
  public:
+  MatrixSelector() : imin(0), imax(0), jmin(0), jmax(0) {}
   int imin, imax;
   int jmin, jmax;
 
@@ -190,6 +192,7 @@ struct MatrixColumnSelector : public UnaryOpHeader<dg::Matrix, dg::Vector> {
     for (int i = imin; i < imax; ++i) res(i - imin) = m(i, jcol);
   }
 
+  MatrixColumnSelector() : imin(0), imax(0), jcol(0) {}
   int imin, imax;
   int jcol;
   inline void selectCol(const int &m) { jcol = m; }
@@ -594,6 +597,7 @@ struct VectorStack
     : public BinaryOpHeader<dynamicgraph::Vector, dynamicgraph::Vector,
                             dynamicgraph::Vector> {
  public:
+  VectorStack() : v1min(0), v1max(0), v2min(0), v2max(0) {}
   int v1min, v1max;
   int v2min, v2max;
   inline void operator()(const dynamicgraph::Vector &v1,
@@ -784,6 +788,7 @@ namespace sot {
 template <typename T>
 struct WeightedAdder : public BinaryOpHeader<T, T, T> {
  public:
+  WeightedAdder() : gain1(1.), gain2(1.) {}
   double gain1, gain2;
   inline void operator()(const T &v1, const T &v2, T &res) const {
     res = v1;
-- 
2.43.0


From 66c71e062cc2cd5e6af7b372a875c30a87885627 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:31:43 +0000
Subject: [PATCH 48/75] fix: FeatureTask::display followed an uninitialised
 pointer

---
 src/feature/feature-task.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/feature/feature-task.cpp b/src/feature/feature-task.cpp
index 2177dab..397e725 100644
--- a/src/feature/feature-task.cpp
+++ b/src/feature/feature-task.cpp
@@ -29,7 +29,8 @@ DYNAMICGRAPH_FACTORY_ENTITY_PLUGIN(FeatureTask, "FeatureTask");
 /* --- CLASS ----------------------------------------------------------- */
 /* --------------------------------------------------------------------- */
 
-FeatureTask::FeatureTask(const string &pointName) : FeatureGeneric(pointName) {}
+FeatureTask::FeatureTask(const string &pointName)
+    : FeatureGeneric(pointName), taskPtr(NULL) {}
 
 /* --------------------------------------------------------------------- */
 /* --------------------------------------------------------------------- */
-- 
2.43.0


From 26e575f8360f65c0853cad3e630bc53fde48c726 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:31:43 +0000
Subject: [PATCH 49/75] fix: FilterDifferentiator followed an uninitialised
 pointer when used before init

---
 src/filters/filter-differentiator.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/filters/filter-differentiator.cpp b/src/filters/filter-differentiator.cpp
index 4769606..7278f64 100644
--- a/src/filters/filter-differentiator.cpp
+++ b/src/filters/filter-differentiator.cpp
@@ -31,6 +31,7 @@
 #include <sot/core/filter-differentiator.hh>
 //#include <sot/torque_control/motor-model.hh>
 #include <Eigen/Dense>
+#include <stdexcept>
 
 namespace dynamicgraph {
 namespace sot {
@@ -61,7 +62,10 @@ FilterDifferentiator::FilterDifferentiator(const std::string &name)
       CONSTRUCT_SIGNAL_OUT(x_filtered, dynamicgraph::Vector, m_x_dx_ddxSINNER),
       CONSTRUCT_SIGNAL_OUT(dx, dynamicgraph::Vector, m_x_dx_ddxSINNER),
       CONSTRUCT_SIGNAL_OUT(ddx, dynamicgraph::Vector, m_x_dx_ddxSINNER),
-      CONSTRUCT_SIGNAL_INNER(x_dx_ddx, dynamicgraph::Vector, m_xSIN) {
+      CONSTRUCT_SIGNAL_INNER(x_dx_ddx, dynamicgraph::Vector, m_xSIN),
+      m_dt(0.),
+      m_x_size(0),
+      m_filter(NULL) {
   Entity::signalRegistration(ALL_INPUT_SIGNALS << ALL_OUTPUT_SIGNALS);
 
   /* Commands. */
@@ -106,6 +110,8 @@ void FilterDifferentiator::init(const double &timestep, const int &xSize,
 void FilterDifferentiator::switch_filter(
     const Eigen::VectorXd &filter_numerator,
     const Eigen::VectorXd &filter_denominator) {
+  if (m_filter == NULL)
+    throw std::runtime_error("Cannot switch filter before initialization!");
   LOG("Filter switched with "
       << "Numerator " << filter_numerator << std::endl
       << "Denominator" << filter_denominator << std::endl
@@ -119,6 +125,9 @@ void FilterDifferentiator::switch_filter(
 
 DEFINE_SIGNAL_INNER_FUNCTION(x_dx_ddx, dynamicgraph::Vector) {
   sotDEBUG(15) << "Compute x_dx inner signal " << iter << std::endl;
+  if (m_filter == NULL)
+    throw std::runtime_error(
+        "Cannot compute signal x_dx_ddx before initialization!");
   if (s.size() != 3 * m_x_size) s.resize(3 * m_x_size);
   // read encoders
   const dynamicgraph::Vector &base_x = m_xSIN(iter);
-- 
2.43.0


From 7f030b1e6185672214f1b15efa11f8a0b90c386d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:31:43 +0000
Subject: [PATCH 50/75] fix: ForceUtil returned uninitialised force identifiers

---
 include/sot/core/robot-utils.hh | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/sot/core/robot-utils.hh b/include/sot/core/robot-utils.hh
index fa256e7..2573b04 100644
--- a/include/sot/core/robot-utils.hh
+++ b/include/sot/core/robot-utils.hh
@@ -76,6 +76,12 @@ struct SOT_CORE_EXPORT ForceUtil {
   Index m_Force_Id_Left_Hand, m_Force_Id_Right_Hand, m_Force_Id_Left_Foot,
       m_Force_Id_Right_Foot;
 
+  ForceUtil()
+      : m_Force_Id_Left_Hand(-1),
+        m_Force_Id_Right_Hand(-1),
+        m_Force_Id_Left_Foot(-1),
+        m_Force_Id_Right_Foot(-1) {}
+
   void set_name_to_force_id(const std::string &name, const Index &force_id);
 
   void set_force_id_to_limits(const Index &force_id,
-- 
2.43.0


From e522b0052908279605a3c7940e1be01ae1bc5cec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:31:43 +0000
Subject: [PATCH 51/75] fix: Sequencer and its events left members without a
 value

---
 include/sot/core/sequencer.hh | 3 ++-
 src/tools/sequencer.cpp       | 1 +
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/sot/core/sequencer.hh b/include/sot/core/sequencer.hh
index 9659952..e1433f3 100644
--- a/include/sot/core/sequencer.hh
+++ b/include/sot/core/sequencer.hh
@@ -65,7 +65,8 @@ class SOTSEQUENCER_EXPORT Sequencer : public dynamicgraph::Entity {
     int eventType;
 
    public:
-    sotEventAbstract(const std::string &name) : name(name){};
+    sotEventAbstract(const std::string &name)
+        : name(name), eventType(EVENT_CMD){};
     virtual ~sotEventAbstract(void) {}
     virtual const std::string &getName() const { return name; }
     int getEventType() const { return eventType; }
diff --git a/src/tools/sequencer.cpp b/src/tools/sequencer.cpp
index 14de302..54aaef6 100644
--- a/src/tools/sequencer.cpp
+++ b/src/tools/sequencer.cpp
@@ -22,6 +22,7 @@ DYNAMICGRAPH_FACTORY_ENTITY_PLUGIN(Sequencer, "Sequencer");
 
 Sequencer::Sequencer(const std::string &name)
     : Entity(name),
+      sotPtr(NULL),
       timeInit(-1),
       playMode(false),
       outputStreamPtr(NULL),
-- 
2.43.0


From 9b713a43d82a21d1f73e7e3512d68e9cfe96eaf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:31:43 +0000
Subject: [PATCH 52/75] fix: DebugTrace compared levels with uninitialised
 members

---
 include/sot/core/debug.hh | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/sot/core/debug.hh b/include/sot/core/debug.hh
index 33bb0e1..b3e360c 100644
--- a/include/sot/core/debug.hh
+++ b/include/sot/core/debug.hh
@@ -45,7 +45,8 @@ class SOT_CORE_EXPORT DebugTrace {
   int traceLevel;
   int traceLevelTemplate;
 
-  DebugTrace(std::ostream &os) : outputbuffer(os) {}
+  DebugTrace(std::ostream &os)
+      : outputbuffer(os), traceLevel(0), traceLevelTemplate(0) {}
 
   inline void trace(const int level, const char *format, ...) {
     if (level <= traceLevel) SOT_COMMON_TRACES;
-- 
2.43.0


From c342acae86aaa67d865695b7f81b11f39555e485 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:31:44 +0000
Subject: [PATCH 53/75] fix: ClampWorkspace published an uninitialised
 reference at time 0

---
 src/tools/clamp-workspace.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/tools/clamp-workspace.cpp b/src/tools/clamp-workspace.cpp
index 6a3a5a9..f902623 100644
--- a/src/tools/clamp-workspace.cpp
+++ b/src/tools/clamp-workspace.cpp
@@ -65,6 +65,10 @@ ClampWorkspace::ClampWorkspace(const string &fName)
 {
   alpha.setZero();
   alphabar.fill(1.);
+  prefMp.setIdentity();
+  pd.setZero();
+  Rd.setIdentity();
+  handref.setIdentity();
   bounds[0] = std::make_pair(0.15, 0.5);
   bounds[1] = std::make_pair(-0.4, -0.25);
   bounds[2] = std::make_pair(0.15, 0.55);
-- 
2.43.0


From dc72b73fdbbe04e30004040f4012b60ee64437ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:31:44 +0000
Subject: [PATCH 54/75] fix: CoMFreezer read an uninitialised center of mass

---
 src/tools/com-freezer.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/tools/com-freezer.cpp b/src/tools/com-freezer.cpp
index 87d9972..624805d 100644
--- a/src/tools/com-freezer.cpp
+++ b/src/tools/com-freezer.cpp
@@ -32,6 +32,7 @@ CoMFreezer::CoMFreezer(const std::string &name)
                      "CoMFreezer(" + name + ")::output(vector)::freezedCoM") {
   sotDEBUGIN(5);
 
+  m_lastCoM.setZero();
   signalRegistration(CoMRefSIN << PGInProcessSIN << freezedCoMSOUT);
 
   sotDEBUGOUT(5);
-- 
2.43.0


From dfcb0e2f6c1f08e6bea19596d2af205280da6343 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:31:44 +0000
Subject: [PATCH 55/75] fix: Device published an uninitialised time step and
 free-flyer pose

---
 src/tools/device.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/tools/device.cpp b/src/tools/device.cpp
index 64a7491..88eb444 100644
--- a/src/tools/device.cpp
+++ b/src/tools/device.cpp
@@ -72,6 +72,7 @@ Device::~Device() {
 
 Device::Device(const std::string &n)
     : Entity(n),
+      timestep_(0.),
       state_(6),
       sanityCheck_(true),
       controlInputType_(CONTROL_INPUT_ONE_INTEGRATION),
@@ -95,6 +96,7 @@ Device::Device(const std::string &n)
       ffPose_(),
       forceZero6(6) {
   forceZero6.fill(0);
+  ffPose_.setIdentity();
   /* --- SIGNALS --- */
   for (int i = 0; i < 4; ++i) {
     withForceSignals[i] = false;
-- 
2.43.0


From 57d67f12184209078c0efd71c7e9f05378d5b62e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:31:44 +0000
Subject: [PATCH 56/75] fix: OpPointModifier applied an uninitialised
 transformation

---
 src/math/op-point-modifier.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/math/op-point-modifier.cpp b/src/math/op-point-modifier.cpp
index 6b2e613..6bde5fb 100644
--- a/src/math/op-point-modifier.cpp
+++ b/src/math/op-point-modifier.cpp
@@ -42,6 +42,7 @@ OpPointModifier::OpPointModifier(const std::string &name)
       isEndEffector(true) {
   sotDEBUGIN(15);
 
+  transformation.setIdentity();
   signalRegistration(jacobianSIN << positionSIN << jacobianSOUT
                                  << positionSOUT);
   {
-- 
2.43.0


From 7db4392a2ad91810b3615fdabf1c0f2054781ca8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:31:44 +0000
Subject: [PATCH 57/75] fix: SotJointTrajectoryEntity published an
 uninitialised waist pose

---
 src/tools/joint-trajectory-entity.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/tools/joint-trajectory-entity.cpp b/src/tools/joint-trajectory-entity.cpp
index 18317b5..636db29 100644
--- a/src/tools/joint-trajectory-entity.cpp
+++ b/src/tools/joint-trajectory-entity.cpp
@@ -67,6 +67,7 @@ SotJointTrajectoryEntity::SotJointTrajectoryEntity(const std::string &n)
   using namespace command;
   sotDEBUGIN(5);
 
+  waist_.setIdentity();
   signalRegistration(positionSOUT << comSOUT << zmpSOUT << waistSOUT
                                   << seqIdSOUT << trajectorySIN);
   refresherSINTERN.setDependencyType(TimeDependency<int>::ALWAYS_READY);
-- 
2.43.0


From de86328738be766ece8cc01426c9bde784c4b75f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:31:44 +0000
Subject: [PATCH 58/75] fix: Derivator was marked initialised although its
 first input could not be read

---
 include/sot/core/derivator.hh | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/sot/core/derivator.hh b/include/sot/core/derivator.hh
index ea72dcd..17c560e 100644
--- a/include/sot/core/derivator.hh
+++ b/include/sot/core/derivator.hh
@@ -81,8 +81,8 @@ class Derivator : public dynamicgraph::Entity {
       res += memory;
       if (timestep != 1.) res *= (1. / timestep);
     } else {
-      initialized = true;
       memory = SIN(time);
+      initialized = true;
       res = memory;
       res *= 0;
     }
@@ -100,8 +100,8 @@ VectorQuaternion &Derivator<VectorQuaternion>::computeDerivation(
     res.coeffs() += memory.coeffs();
     if (timestep != 1.) res.coeffs() *= (1. / timestep);
   } else {
-    initialized = true;
     memory = SIN(time);
+    initialized = true;
     res = memory;
     res.coeffs() *= 0;
   }
-- 
2.43.0


From c814d59266e1407ad7be3632db9ac59cc3b3ffda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:32:01 +0000
Subject: [PATCH 59/75] fix: FeaturePoint6d inverted a Jacobian of an
 uninitialised rotation when only translations are selected

---
 src/feature/feature-point6d.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/feature/feature-point6d.cpp b/src/feature/feature-point6d.cpp
index 0632581..ee84cc7 100644
--- a/src/feature/feature-point6d.cpp
+++ b/src/feature/feature-point6d.cpp
@@ -53,7 +53,7 @@ FeaturePoint6d::FeaturePoint6d(const string &pointName)
                   "sotFeaturePoint6d(" + name + ")::input(vector)::velocity"),
       articularJacobianSIN(
           NULL, "sotFeaturePoint6d(" + name + ")::input(matrix)::Jq"),
-      error_th_(),
+      error_th_(0., Eigen::Vector3d::UnitX()),
       R_(),
       Rref_(),
       Rt_(),
-- 
2.43.0


From 4c446a7e8e3c014e91233ddd307d20c574fc55c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:32:01 +0000
Subject: [PATCH 60/75] fix: FeaturePoint6dRelative went on with uninitialised
 matrices after an error

---
 src/feature/feature-point6d-relative.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/feature/feature-point6d-relative.cpp b/src/feature/feature-point6d-relative.cpp
index 471d5e1..39bf613 100644
--- a/src/feature/feature-point6d-relative.cpp
+++ b/src/feature/feature-point6d-relative.cpp
@@ -235,6 +235,7 @@ Vector &FeaturePoint6dRelative::computeErrorDot(Vector &errordot, int time) {
 
   } catch (...) {
     sotDEBUG(15) << "You've got a problem with errordot." << std::endl;
+    throw;
   }
 
   VectorUTheta rerr(dRerr);
-- 
2.43.0


From 9b852ec5c49f484ac7c26bde05fdf2b2b9edad34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:32:01 +0000
Subject: [PATCH 61/75] fix: AdmittanceControlOpPoint::resetDq sized the
 velocity with an uninitialised member

---
 src/control/admittance-control-op-point.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/control/admittance-control-op-point.cpp b/src/control/admittance-control-op-point.cpp
index 7a7b70b..1beb2af 100644
--- a/src/control/admittance-control-op-point.cpp
+++ b/src/control/admittance-control-op-point.cpp
@@ -66,7 +66,10 @@ AdmittanceControlOpPoint::AdmittanceControlOpPoint(const std::string &name)
       CONSTRUCT_SIGNAL_INNER(w_dq, dynamicgraph::Vector,
                              INPUT_SIGNALS << m_w_forceSINNER),
       CONSTRUCT_SIGNAL_OUT(dq, dynamicgraph::Vector, m_w_dqSINNER),
-      m_initSucceeded(false) {
+      m_n(6),
+      m_initSucceeded(false),
+      m_dt(0.),
+      m_mass(0.) {
   Entity::signalRegistration(INPUT_SIGNALS << INNER_SIGNALS << OUTPUT_SIGNALS);
 
   /* Commands. */
-- 
2.43.0


From f1c0455b8a21405d0337e88258640c5bfb663c3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:47:16 +0000
Subject: [PATCH 62/75] fix: Trajectory copied an uninitialised start time

---
 src/tools/trajectory.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools/trajectory.cpp b/src/tools/trajectory.cpp
index 3036a5d..b5aec4b 100644
--- a/src/tools/trajectory.cpp
+++ b/src/tools/trajectory.cpp
@@ -281,7 +281,7 @@ void RulesJointTrajectory::parse_string(std::string &atext) {
   parse_points(sub_text1, sub_text2);
 }
 
-Trajectory::Trajectory(void) {}
+Trajectory::Trajectory(void) : time_from_start_(0.) {}
 
 Trajectory::Trajectory(const Trajectory &copy) {
   header_ = copy.header_;
-- 
2.43.0


From 7f24d29b7f38b01993d71d0c54f6e2677d4ee8e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:58:33 +0000
Subject: [PATCH 63/75] fix: the derivative of a feature's error filled other
 rows than its dimension

---
 src/feature/feature-abstract.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/feature/feature-abstract.cpp b/src/feature/feature-abstract.cpp
index d512b90..b4b3a2f 100644
--- a/src/feature/feature-abstract.cpp
+++ b/src/feature/feature-abstract.cpp
@@ -106,16 +106,16 @@ dynamicgraph::Vector &FeatureAbstract::computeErrorDot(
     const dynamicgraph::Vector &errdotDes =
         getReferenceAbstract()->errordotSIN(time);
     sotDEBUG(15) << "Err* = " << errdotDes;
-    if (errdotDes.size() < dim) {
+    for (int i = 0; i < errdotDes.size() && (int)curr < dim; ++i)
+      if (fl(i)) res(curr++) = -errdotDes(i);
+
+    if ((int)curr < dim) {
       SOT_THROW ExceptionFeature(
           ExceptionFeature::UNCOMPATIBLE_SIZE,
           "Error: dimension uncompatible with des->errorIN size."
           " (while considering feature <%s>).",
           getName().c_str());
     }
-
-    for (int i = 0; i < errdotDes.size(); ++i)
-      if (fl(i)) res(curr++) = -errdotDes(i);
   } else
     res.setZero();
 
-- 
2.43.0


From 354668a06d318e97e8fc20224b1a8f14f411ca0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:58:33 +0000
Subject: [PATCH 64/75] fix: FeatureGeneric filled other rows of its error than
 its dimension

---
 src/feature/feature-generic.cpp | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/feature/feature-generic.cpp b/src/feature/feature-generic.cpp
index a330dc7..8bcafa6 100644
--- a/src/feature/feature-generic.cpp
+++ b/src/feature/feature-generic.cpp
@@ -104,13 +104,19 @@ Vector &FeatureGeneric::computeError(Vector &res, int time) {
           getName().c_str());
     }
 
-    for (int i = 0; i < err.size(); ++i)
-      if (fl(i))
-        if (fl(i)) res(curr++) = err(i) - errDes(i);
+    for (int i = 0; i < err.size() && i < errDes.size() && (int)curr < dim; ++i)
+      if (fl(i)) res(curr++) = err(i) - errDes(i);
   } else {
-    for (int i = 0; i < err.size(); ++i)
+    for (int i = 0; i < err.size() && (int)curr < dim; ++i)
       if (fl(i)) res(curr++) = err(i);
   }
+  if ((int)curr < dim) {
+    SOT_THROW ExceptionFeature(
+        ExceptionFeature::UNCOMPATIBLE_SIZE,
+        "Error: dimension uncompatible with des->errorIN size."
+        " (while considering feature <%s>).",
+        getName().c_str());
+  }
 
   return res;
 }
-- 
2.43.0


From f04fef94648ff443e69bccc596acd7532dccbe39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:58:33 +0000
Subject: [PATCH 65/75] fix: FeatureGeneric read its Jacobian input past the
 last row

---
 src/feature/feature-generic.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/feature/feature-generic.cpp b/src/feature/feature-generic.cpp
index 8bcafa6..9d4940a 100644
--- a/src/feature/feature-generic.cpp
+++ b/src/feature/feature-generic.cpp
@@ -131,11 +131,18 @@ Matrix &FeatureGeneric::computeJacobian(Matrix &res, int time) {
   unsigned int curr = 0;
   res.resize(dim, Jac.cols());
 
-  for (unsigned int i = 0; curr < dim; ++i)
+  for (int i = 0; i < Jac.rows() && curr < dim; ++i)
     if (fl(i)) {
       for (int j = 0; j < Jac.cols(); ++j) res(curr, j) = Jac(i, j);
       curr++;
     }
+  if (curr < dim) {
+    SOT_THROW ExceptionFeature(
+        ExceptionFeature::UNCOMPATIBLE_SIZE,
+        "Error: dimension uncompatible with jacobianIN size."
+        " (while considering feature <%s>).",
+        getName().c_str());
+  }
 
   sotDEBUGOUT(15);
   return res;
-- 
2.43.0


From a76f40fd669f2e7ab55c6e53ef6e75fbfb93b79e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:11:26 +0000
Subject: [PATCH 66/75] fix: IntegratorEuler and FIRFilter defined the same C
 maker symbol

---
 src/matrix/integrator-euler.t.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/matrix/integrator-euler.t.cpp b/src/matrix/integrator-euler.t.cpp
index acd5318..ce573c7 100644
--- a/src/matrix/integrator-euler.t.cpp
+++ b/src/matrix/integrator-euler.t.cpp
@@ -28,13 +28,13 @@ using namespace dynamicgraph;
     return CLASS_NAME;                                                         \
   }                                                                            \
   extern "C" {                                                                 \
-  Entity *regFunction##_##sotSigType##_##sotCoefType(                          \
+  Entity *regFunction##_##sotClassType##_##sotSigType##_##sotCoefType(         \
       const std::string &objname) {                                            \
     return new sotClassType<sotSigType, sotCoefType>(objname);                 \
   }                                                                            \
-  EntityRegisterer regObj##_##sotSigType##_##sotCoefType(                      \
+  EntityRegisterer regObj##_##sotClassType##_##sotSigType##_##sotCoefType(     \
       sotClassType<sotSigType, sotCoefType>::CLASS_NAME,                       \
-      &regFunction##_##sotSigType##_##sotCoefType);                            \
+      &regFunction##_##sotClassType##_##sotSigType##_##sotCoefType);           \
   }
 
 using namespace std;
-- 
2.43.0


From 88c9d8cdc5fba9568f815708ccf1efbb517b5361 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:59:17 +0000
Subject: [PATCH 67/75] fix: Task::computeError lost the errors already stacked
 when the result grew

---
 src/task/task.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/task/task.cpp b/src/task/task.cpp
index dd06608..fc21e81 100644
--- a/src/task/task.cpp
+++ b/src/task/task.cpp
@@ -197,8 +197,7 @@ dynamicgraph::Vector &Task::computeError(dynamicgraph::Vector &error,
       while (cursorError + dim > dimError)  // DEBUG It was >=
       {
         dimError *= 2;
-        error.resize(dimError);
-        error.setZero();
+        error.conservativeResize(dimError);
       }
 
       for (int k = 0; k < dim; ++k) {
-- 
2.43.0


From 275a6e6bad621f747465f7edcd22edb1fa7b181e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:59:17 +0000
Subject: [PATCH 68/75] fix: Task::computeJacobian took its number of columns
 from its previous result

---
 src/task/task.cpp | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/task/task.cpp b/src/task/task.cpp
index fc21e81..32a1ff7 100644
--- a/src/task/task.cpp
+++ b/src/task/task.cpp
@@ -263,11 +263,8 @@ dynamicgraph::Matrix &Task::computeJacobian(dynamicgraph::Matrix &J, int time) {
 
   try {
     dynamicgraph::Matrix::Index dimJ = J.rows();
-    dynamicgraph::Matrix::Index nbc = J.cols();
-    if (0 == dimJ) {
-      dimJ = 1;
-      J.resize(dimJ, nbc);
-    }
+    dynamicgraph::Matrix::Index nbc = 0;
+    if (0 == dimJ) dimJ = 1;
 
     dynamicgraph::Matrix::Index cursorJ = 0;
     // const Flags& selection = controlSelectionSIN(time);
@@ -285,7 +282,7 @@ dynamicgraph::Matrix &Task::computeJacobian(dynamicgraph::Matrix &J, int time) {
 
       if (0 == nbc) {
         nbc = partialJacobian.cols();
-        J.resize(nbc, dimJ);
+        J.resize(dimJ, nbc);
       } else if (partialJacobian.cols() != nbc)
         throw ExceptionTask(
             ExceptionTask::NON_ADEQUATE_FEATURES,
-- 
2.43.0


From ff6eb2b425ef4f024dd9d0f16aff1be39cb00f53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:31:49 +0000
Subject: [PATCH 69/75] fix: FilterDifferentiator lost its filter at every init
 and on destruction

---
 include/sot/core/filter-differentiator.hh | 3 +++
 src/filters/filter-differentiator.cpp     | 4 +++-
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/sot/core/filter-differentiator.hh b/include/sot/core/filter-differentiator.hh
index 5bbbb6b..9a85713 100644
--- a/include/sot/core/filter-differentiator.hh
+++ b/include/sot/core/filter-differentiator.hh
@@ -59,6 +59,9 @@ class SOTFILTERDIFFERENTIATOR_EXPORT FilterDifferentiator
     : public ::dynamicgraph::Entity {
   DYNAMIC_GRAPH_ENTITY_DECL();
 
+ public:
+  virtual ~FilterDifferentiator() { delete m_filter; }
+
  public: /* --- SIGNALS --- */
          /// Input signals
   DECLARE_SIGNAL_IN(x, dynamicgraph::Vector);
diff --git a/src/filters/filter-differentiator.cpp b/src/filters/filter-differentiator.cpp
index 7278f64..30b6096 100644
--- a/src/filters/filter-differentiator.cpp
+++ b/src/filters/filter-differentiator.cpp
@@ -98,8 +98,10 @@ void FilterDifferentiator::init(const double &timestep, const int &xSize,
                                 const Eigen::VectorXd &filter_denominator) {
   m_x_size = xSize;
   m_dt = timestep;
-  m_filter =
+  CausalFilter *filter =
       new CausalFilter(timestep, xSize, filter_numerator, filter_denominator);
+  delete m_filter;
+  m_filter = filter;
 
   LOG("Filtering started with "
       << "Numerator " << filter_numerator << std::endl
-- 
2.43.0


From 19185c0b4632e5b5e497a3ec27f45ff90712d45e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:31:49 +0000
Subject: [PATCH 70/75] fix: a task never released the memory the stack keeps
 for it

---
 include/sot/core/task-abstract.hh | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/sot/core/task-abstract.hh b/include/sot/core/task-abstract.hh
index 99000b0..3493318 100644
--- a/include/sot/core/task-abstract.hh
+++ b/include/sot/core/task-abstract.hh
@@ -76,6 +76,7 @@ class SOT_CORE_EXPORT TaskAbstract : public dynamicgraph::Entity {
 
  public:
   TaskAbstract(const std::string &n);
+  virtual ~TaskAbstract() { delete memoryInternal; }
 
  public: /* --- SIGNALS --- */
   dynamicgraph::SignalTimeDependent<VectorMultiBound, int> taskSOUT;
-- 
2.43.0


From dc617709a47e056034a4d8809cdc320344c3a251 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:31:49 +0000
Subject: [PATCH 71/75] fix: VariadicAbstract::addSignal lost the signal when
 its name was taken

---
 include/sot/core/variadic-op.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/sot/core/variadic-op.hh b/include/sot/core/variadic-op.hh
index ac8e9c6..8268ff6 100644
--- a/include/sot/core/variadic-op.hh
+++ b/include/sot/core/variadic-op.hh
@@ -74,7 +74,7 @@ class VariadicAbstract : public Entity {
       signalsIN.push_back(sig);
       // names.push_back (name);
       return signalsIN.size() - 1;
-    } catch (const ExceptionAbstract &) {
+    } catch (...) {
       delete sig;
       throw;
     }
-- 
2.43.0


From 18c02d0834461762964725fd82a63aded0092704 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:31:49 +0000
Subject: [PATCH 72/75] fix: Sequencer never released the events it removed or
 still held

---
 src/tools/sequencer.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/tools/sequencer.cpp b/src/tools/sequencer.cpp
index 54aaef6..caad088 100644
--- a/src/tools/sequencer.cpp
+++ b/src/tools/sequencer.cpp
@@ -40,6 +40,8 @@ Sequencer::Sequencer(const std::string &name)
 Sequencer::~Sequencer(void) {
   sotDEBUGIN(5);
 
+  clearAll();
+
   sotDEBUGOUT(5);
   return;
 }
@@ -185,7 +187,8 @@ void Sequencer::rmTask(int eventType, const std::string &name,
     TaskList &tl = listKey->second;
     for (TaskList::iterator itL = tl.begin(); itL != tl.end(); ++itL) {
       if ((*itL)->getEventType() == eventType && (*itL)->getName() == name) {
-        tl.remove(*itL);
+        delete *itL;
+        tl.erase(itL);
         break;
       }
     }
-- 
2.43.0


From 6df361aff41196fd374a5b3b146659fa345993a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:31:49 +0000
Subject: [PATCH 73/75] fix: SotLoader::initialization lost the library it had
 opened on failure or when called twice

---
 src/tools/sot-loader.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/tools/sot-loader.cpp b/src/tools/sot-loader.cpp
index e94a364..53d3dd0 100644
--- a/src/tools/sot-loader.cpp
+++ b/src/tools/sot-loader.cpp
@@ -68,6 +68,11 @@ int SotLoader::parseOptions(int argc, char *argv[]) {
 }
 
 bool SotLoader::initialization() {
+  if (sot_dynamic_library_) {
+    std::cerr << "A library is already loaded, clean up first." << '\n';
+    return false;
+  }
+
   // Load the library containing the AbstractSotExternalInterface.
   sot_dynamic_library_ =
       dlopen(sot_dynamic_library_filename_.c_str(), RTLD_LAZY | RTLD_GLOBAL);
@@ -86,6 +91,8 @@ bool SotLoader::initialization() {
   const char *dlsym_error = dlerror();
   if (dlsym_error) {
     std::cerr << "Cannot load symbol create: " << dlsym_error << '\n';
+    dlclose(sot_dynamic_library_);
+    sot_dynamic_library_ = nullptr;
     return false;
   }
 
-- 
2.43.0


From 1c549dfe4cee954e3ca99ea75f91a725559de83b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:31:49 +0000
Subject: [PATCH 74/75] fix: SotLoader::oneIteration followed a null pointer
 before a controller was loaded

---
 src/tools/sot-loader.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/tools/sot-loader.cpp b/src/tools/sot-loader.cpp
index 53d3dd0..73be948 100644
--- a/src/tools/sot-loader.cpp
+++ b/src/tools/sot-loader.cpp
@@ -15,6 +15,7 @@
 // C++ includes
 #include <iostream>
 #include <sstream>
+#include <stdexcept>
 
 // Boost includes
 #include <boost/program_options.hpp>
@@ -179,6 +180,8 @@ void SotLoader::oneIteration(
     std::map<std::string, SensorValues> &sensors_in,
     std::map<std::string, ControlValues> &control_values) {
   if (!dynamic_graph_stopped_) {
+    if (sot_external_interface_ == nullptr)
+      throw std::runtime_error("No controller is loaded.");
     try {
       sot_external_interface_->nominalSetSensors(sensors_in);
       sot_external_interface_->getControl(control_values);
-- 
2.43.0


From 92a16fa659e93a020000b11f079550e539d55b02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:32:39 +0000
Subject: [PATCH 75/75] fix: SotLoader::cleanUp kept the library open when no
 controller was made

---
 src/tools/sot-loader.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/tools/sot-loader.cpp b/src/tools/sot-loader.cpp
index 73be948..10790b9 100644
--- a/src/tools/sot-loader.cpp
+++ b/src/tools/sot-loader.cpp
@@ -163,7 +163,9 @@ void SotLoader::cleanUp() {
 
     destroySotExternalInterface(sot_external_interface_);
     sot_external_interface_ = nullptr;
+  }
 
+  if (sot_dynamic_library_ != nullptr) {
     /// Uncount the number of access to this library.
     dlclose(sot_dynamic_library_);
     sot_dynamic_library_ = nullptr;
-- 
2.43.0

