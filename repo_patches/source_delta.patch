From 4b62c2f07326ec3bd0dd9b2e40f513f550ba7ae3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:59 +0000
Subject: [PATCH 01/13] fix: pair the multipliers with the right axis in the
 planar velocity Hessian

---
 src/private/PlanarVelocityControlConstraints.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/private/PlanarVelocityControlConstraints.cpp b/src/private/PlanarVelocityControlConstraints.cpp
index a8b3685..ba62c90 100644
--- a/src/private/PlanarVelocityControlConstraints.cpp
+++ b/src/private/PlanarVelocityControlConstraints.cpp
@@ -176,8 +176,8 @@ bool PlanarVelocityControlConstraints::constraintSecondPartialDerivativeWRTState
     unsigned int positionIndex = static_cast<unsigned int>(m_pimpl->positionPointRange.offset + 2);
     double deltaDoubleDerivative = m_pimpl->planarVelocityActivation.evalDoubleDerivative(m_pimpl->pointPosition(2));
 
-    hessian(positionIndex, positionIndex) = (((lambda(0) + lambda(1)) * m_pimpl->maximumDerivatives(0)) +
-                                             ((lambda(2) + lambda(3)) * m_pimpl->maximumDerivatives(1))) * deltaDoubleDerivative;
+    hessian(positionIndex, positionIndex) = (((lambda(0) + lambda(2)) * m_pimpl->maximumDerivatives(0)) +
+                                             ((lambda(1) + lambda(3)) * m_pimpl->maximumDerivatives(1))) * deltaDoubleDerivative;
 
     return true;
 }
-- 
2.43.0


From dd51d689de8476f9bce07d57d00f65fc729c6e2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:59 +0000
Subject: [PATCH 02/13] fix: read the contact height from the given state in
 the planar velocity Hessian

---
 src/private/PlanarVelocityControlConstraints.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/private/PlanarVelocityControlConstraints.cpp b/src/private/PlanarVelocityControlConstraints.cpp
index ba62c90..f89a5d3 100644
--- a/src/private/PlanarVelocityControlConstraints.cpp
+++ b/src/private/PlanarVelocityControlConstraints.cpp
@@ -172,6 +172,7 @@ bool PlanarVelocityControlConstraints::constraintSecondPartialDerivativeWRTState
                                                                                  iDynTree::MatrixDynSize &hessian)
 {
     m_pimpl->stateVariables = state;
+    m_pimpl->pointPosition = m_pimpl->stateVariables(m_pimpl->positionPointRange);
 
     unsigned int positionIndex = static_cast<unsigned int>(m_pimpl->positionPointRange.offset + 2);
     double deltaDoubleDerivative = m_pimpl->planarVelocityActivation.evalDoubleDerivative(m_pimpl->pointPosition(2));
-- 
2.43.0


From 6471725481f1afe1503c1cae6348e842be43b7d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:07 +0000
Subject: [PATCH 03/13] fix: scale the curvature of the phantom forces cost by
 the normal force

---
 src/private/PhantomForcesCost.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/private/PhantomForcesCost.cpp b/src/private/PhantomForcesCost.cpp
index 23dede1..ce94380 100644
--- a/src/private/PhantomForcesCost.cpp
+++ b/src/private/PhantomForcesCost.cpp
@@ -134,7 +134,7 @@ bool PhantomForcesCost::costSecondPartialDerivativeWRTState(double /*time*/, con
 
     double phantomForce = (1- delta) * fz;
 
-    partialDerivative(pzCol, pzCol) = (deltaDerivative * fz) * (deltaDerivative * fz) - phantomForce * deltaDoubleDerivative;
+    partialDerivative(pzCol, pzCol) = (deltaDerivative * fz) * (deltaDerivative * fz) - phantomForce * fz * deltaDoubleDerivative;
     partialDerivative(fzCol, fzCol) = (1- delta) * (1- delta);
     partialDerivative(fzCol, pzCol) = -2.0 * phantomForce * deltaDerivative;
     partialDerivative(pzCol, fzCol) = partialDerivative(fzCol, pzCol);
-- 
2.43.0


From b19117a1e7ef3b026df9b52e33525365d0dd6f1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:07 +0000
Subject: [PATCH 04/13] fix: add the nominal heading of the foot edge to the
 desired yaw

---
 src/private/FootYawCost.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/private/FootYawCost.cpp b/src/private/FootYawCost.cpp
index 2e85abf..171a227 100644
--- a/src/private/FootYawCost.cpp
+++ b/src/private/FootYawCost.cpp
@@ -136,7 +136,7 @@ bool FootYawCost::costEvaluation(double time, const iDynTree::VectorDynSize &sta
     m_pimpl->stateVariables = state;
 
     bool isValid = false;
-    double desiredYaw = m_pimpl->desiredYaw->get(time, isValid) - m_pimpl->initialYaw;
+    double desiredYaw = m_pimpl->desiredYaw->get(time, isValid) + m_pimpl->initialYaw;
     assert(isValid);
 
     double sy = std::sin(desiredYaw);
@@ -160,7 +160,7 @@ bool FootYawCost::costFirstPartialDerivativeWRTState(double time, const iDynTree
     m_pimpl->stateVariables = state;
 
     bool isValid = false;
-    double desiredYaw = m_pimpl->desiredYaw->get(time, isValid) - m_pimpl->initialYaw;
+    double desiredYaw = m_pimpl->desiredYaw->get(time, isValid) + m_pimpl->initialYaw;
     assert(isValid);
 
     iDynTree::Vector3 currentTopBottomDistance, currentLeftRightDistance;
@@ -196,7 +196,7 @@ bool FootYawCost::costSecondPartialDerivativeWRTState(double time, const iDynTre
     m_pimpl->stateVariables = state;
 
     bool isValid = false;
-    double desiredYaw = m_pimpl->desiredYaw->get(time, isValid) - m_pimpl->initialYaw;
+    double desiredYaw = m_pimpl->desiredYaw->get(time, isValid) + m_pimpl->initialYaw;
     assert(isValid);
 
     double sy = std::sin(desiredYaw);
-- 
2.43.0


From 7fb6cbcada7bf77ce4d3d8ba509729ca989ce5e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:37 +0000
Subject: [PATCH 05/13] fix: initialise the position returned when no reference
 is active

---
 src/PositionReferenceGenerator.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/PositionReferenceGenerator.cpp b/src/PositionReferenceGenerator.cpp
index 2f2673e..93549a5 100644
--- a/src/PositionReferenceGenerator.cpp
+++ b/src/PositionReferenceGenerator.cpp
@@ -99,6 +99,7 @@ const iDynTree::VectorDynSize &TimeVaryingWeight::get(double time, bool &isValid
 
 PositionReference::PositionReference(std::shared_ptr<PositionReferenceGeneratorData> data) {
     m_data = data;
+    m_zeroPosition.zero();
 }
 
 const iDynTree::Position &PositionReference::get(double time, bool &isValid) {
-- 
2.43.0


From 3d683251a189b631732892a7856c6a94221f2fc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:37 +0000
Subject: [PATCH 06/13] fix: do not divide by the length of an instant or
 unlimited time range

---
 src/PositionReferenceGenerator.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/PositionReferenceGenerator.cpp b/src/PositionReferenceGenerator.cpp
index 93549a5..9717d0f 100644
--- a/src/PositionReferenceGenerator.cpp
+++ b/src/PositionReferenceGenerator.cpp
@@ -88,7 +88,11 @@ const iDynTree::VectorDynSize &TimeVaryingWeight::get(double time, bool &isValid
         return m_outputWeight;
     }
 
-    double increaseAmount = (time - activeElement->activeRange.initTime())/(activeElement->activeRange.endTime() - activeElement->activeRange.initTime());
+    double rangeLength = activeElement->activeRange.endTime() - activeElement->activeRange.initTime();
+    double increaseAmount = 0.0; //the weight does not grow in a range without length, e.g. a single instant or any time
+    if (rangeLength > 0.0) {
+        increaseAmount = (time - activeElement->activeRange.initTime())/rangeLength;
+    }
 
     for (unsigned int i = 0; i < 3; ++i) {
         m_outputWeight(i) = (m_increaseFactors(i) * increaseAmount + 1.0) * (m_increaseFactors(i) * increaseAmount + 1.0);
-- 
2.43.0


From c43c8c2924cf61c4c96fae82258493191e73ace1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:31 +0000
Subject: [PATCH 07/13] fix: check the desired force derivative when its cost
 is active

---
 src/Settings.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Settings.cpp b/src/Settings.cpp
index 01be9c6..8949479 100644
--- a/src/Settings.cpp
+++ b/src/Settings.cpp
@@ -126,7 +126,7 @@ bool Settings::setFromStruct(const SettingsStruct &inputSettings)
     }
 
     if (inputSettings.forceDerivativeCostActive) {
-        errors += checkError(!(inputSettings.desiredRotationTrajectory), " The desiredRotationTrajectory is empty.");
+        errors += checkError(!(inputSettings.desiredForceDerivativeTrajectory), "The desiredForceDerivativeTrajectory is empty.");
         errors += checkError(inputSettings.forceDerivativeWeights.size() != 3, "The forceDerivativeWeights is expected to be three dimensional.");
     }
 
-- 
2.43.0


From ca6b68f6caf8ed6682c9aeb4515599b8facd110e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:32 +0000
Subject: [PATCH 08/13] fix: do not read joint velocity limits that are not
 there

---
 src/Settings.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/Settings.cpp b/src/Settings.cpp
index 8949479..6a10b4e 100644
--- a/src/Settings.cpp
+++ b/src/Settings.cpp
@@ -82,7 +82,9 @@ bool Settings::setFromStruct(const SettingsStruct &inputSettings)
     for (size_t j = 0; j < inputSettings.jointsLimits.size(); ++j) {
         errors += checkError(inputSettings.jointsLimits[j].first > inputSettings.jointsLimits[j].second,
                              "The lower limit of joint " + std::to_string(j) + " is bigger than its upper limit.");
+    }
 
+    for (size_t j = 0; j < inputSettings.jointsVelocityLimits.size(); ++j) {
         errors += checkError(inputSettings.jointsVelocityLimits[j].first > inputSettings.jointsVelocityLimits[j].second,
                              "The lower velocity limit of joint " + std::to_string(j) + " is bigger than its upper limit.");
     }
-- 
2.43.0


From 212c3803e1f829cb59c7faa97557bf4bfc1f097e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:32 +0000
Subject: [PATCH 09/13] fix: validate what every active cost needs

---
 src/Settings.cpp | 29 +++++++++++++++++++++++++++++
 1 file changed, 29 insertions(+)

diff --git a/src/Settings.cpp b/src/Settings.cpp
index 6a10b4e..ae3f956 100644
--- a/src/Settings.cpp
+++ b/src/Settings.cpp
@@ -106,6 +106,7 @@ bool Settings::setFromStruct(const SettingsStruct &inputSettings)
 
     if (inputSettings.comVelocityCostActive) {
         errors += checkError(inputSettings.comVelocityWeights.size() != 3, "The comVelocityWeights vector is expected to be three dimensional.");
+        errors += checkError(!inputSettings.comVelocityCostActiveRange.isValid(), "The specified time range for the CoM velocity cost is not valid.");
         errors += checkError(!inputSettings.desiredCoMVelocityTrajectory, "The desiredCoMVelocityTrajectory is empty.");
     }
 
@@ -122,6 +123,34 @@ bool Settings::setFromStruct(const SettingsStruct &inputSettings)
                              "The jointRegularizationWeights size does not match the robot DoFs.");
     }
 
+    if (inputSettings.jointsVelocityCostActive) {
+        errors += checkError(!(inputSettings.desiredJointsVelocityTrajectory), "The desiredJointsVelocityTrajectory is empty.");
+        errors += checkError(inputSettings.jointsVelocityCostWeights.size() != inputSettings.robotModel.getNrOfDOFs(),
+                             "The jointsVelocityCostWeights size does not match the robot DoFs.");
+    }
+
+    if (inputSettings.jointsVelocityForPosturalCostActive) {
+        errors += checkError(!(inputSettings.desiredJointsTrajectory), "The desiredJointsTrajectory is empty.");
+        errors += checkError(inputSettings.jointsRegularizationWeights.size() != inputSettings.robotModel.getNrOfDOFs(),
+                             "The jointRegularizationWeights size does not match the robot DoFs.");
+        errors += checkError(inputSettings.jointsVelocityCostWeights.size() != inputSettings.robotModel.getNrOfDOFs(),
+                             "The jointsVelocityCostWeights size does not match the robot DoFs.");
+    }
+
+    if (inputSettings.frameAngularVelocityCostActive) {
+        errors += checkError(!(inputSettings.robotModel.isFrameNameUsed(inputSettings.frameForOrientationCost)),
+                             "The frameForOrientationCost does not appear in the model.");
+        errors += checkError(!inputSettings.desiredRotationTrajectory, "The desiredRotationTrajectory is empty.");
+    }
+
+    if (inputSettings.leftFootYawCostActive) {
+        errors += checkError(!inputSettings.desiredLeftFootYaw, "The desiredLeftFootYaw pointer is empty.");
+    }
+
+    if (inputSettings.rightFootYawCostActive) {
+        errors += checkError(!inputSettings.desiredRightFootYaw, "The desiredRightFootYaw pointer is empty.");
+    }
+
     if (inputSettings.staticTorquesCostActive) {
         errors += checkError(inputSettings.staticTorquesCostWeights.size() != inputSettings.robotModel.getNrOfDOFs(),
                              "The staticTorquesCostWeights size does not match the robot DoFs.");
-- 
2.43.0


From d82bf2be8d658c565351b4851a544bd591aa1b4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:00 +0000
Subject: [PATCH 10/13] fix: weigh the force ratio costs with their own weight

---
 src/Solver.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Solver.cpp b/src/Solver.cpp
index 1356e7a..85b3f4f 100644
--- a/src/Solver.cpp
+++ b/src/Solver.cpp
@@ -464,7 +464,7 @@ public:
             for (size_t i = 0; i < st.leftPointsPosition.size(); ++i) {
                 costs.leftForceRatios[i] = std::make_shared<ForceRatioCost>(stateStructure, controlStructure, "Left", i);
                 costs.leftForceRatios[i]->setDesiredRatio(st.desiredLeftRatios[i]);
-                ok = ocProblem->addLagrangeTerm(st.forceMeanCostOverallWeight, costs.leftForceRatios[i]);
+                ok = ocProblem->addLagrangeTerm(st.forceRatioCostOverallWeight, costs.leftForceRatios[i]);
                 if (!ok) {
                     return false;
                 }
@@ -473,7 +473,7 @@ public:
             for (size_t i = 0; i < st.rightPointsPosition.size(); ++i) {
                 costs.rightForceRatios[i] = std::make_shared<ForceRatioCost>(stateStructure, controlStructure, "Right", i);
                 costs.rightForceRatios[i]->setDesiredRatio(st.desiredRightRatios[i]);
-                ok = ocProblem->addLagrangeTerm(st.forceMeanCostOverallWeight, costs.rightForceRatios[i]);
+                ok = ocProblem->addLagrangeTerm(st.forceRatioCostOverallWeight, costs.rightForceRatios[i]);
                 if (!ok) {
                     return false;
                 }
-- 
2.43.0


From 1e30463c0157a986ecbe0e6c95c6050b2a56f366 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:00 +0000
Subject: [PATCH 11/13] fix: report an invalid CoM reference in the translating
 CoM guess

---
 src/Utilities.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/Utilities.cpp b/src/Utilities.cpp
index 332a2a9..f5b706c 100644
--- a/src/Utilities.cpp
+++ b/src/Utilities.cpp
@@ -204,7 +204,8 @@ TranslatingCoMStateGuess::~TranslatingCoMStateGuess()
 { }
 
 State &TranslatingCoMStateGuess::get(double time, bool &isValid) {
-    iDynTree::toEigen(m_state.comPosition) = iDynTree::toEigen(m_comReference->get(time, isValid));
+    bool comReferenceIsValid = false;
+    iDynTree::toEigen(m_state.comPosition) = iDynTree::toEigen(m_comReference->get(time, comReferenceIsValid));
     m_state.jointsConfiguration = m_initialState.jointsConfiguration;
     m_state.momentumInCoM.zero();
     m_state.worldToBaseTransform.setRotation(m_initialState.worldToBaseTransform.getRotation());
@@ -221,7 +222,7 @@ State &TranslatingCoMStateGuess::get(double time, bool &isValid) {
         iDynTree::toEigen(m_state.rightContactPointsState[i].pointPosition) = iDynTree::toEigen(m_initialState.rightContactPointsState[i].pointPosition) + iDynTree::toEigen(comDifference);
     }
 
-    isValid = true;
+    isValid = comReferenceIsValid;
 
     m_state.time = time;
     return m_state;
-- 
2.43.0


From 6c414d2ca35ff999c231d733202d568179c9f81a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:33 +0000
Subject: [PATCH 12/13] fix: forget the instants of the previous timings

---
 src/private/TimelySharedKinDynComputations.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/private/TimelySharedKinDynComputations.cpp b/src/private/TimelySharedKinDynComputations.cpp
index 7961d85..acdb093 100644
--- a/src/private/TimelySharedKinDynComputations.cpp
+++ b/src/private/TimelySharedKinDynComputations.cpp
@@ -138,6 +138,11 @@ bool TimelySharedKinDynComputations::setTimings(const std::vector<double> &timin
         return false;
     }
 
+    if (timings.size() < m_pointerContainer.size()) {
+        m_pointerContainer.resize(timings.size());
+    }
+    m_previousIndex = 0;
+
     for (size_t i = 0; i < timings.size(); ++i) {
         if (i < m_pointerContainer.size()) {
             m_pointerContainer[i].time = timings[i];
@@ -150,7 +155,7 @@ bool TimelySharedKinDynComputations::setTimings(const std::vector<double> &timin
         }
     }
 
-    m_timingsSet = true;
+    m_timingsSet = !m_pointerContainer.empty();
     return true;
 }
 
-- 
2.43.0


From e9ea9a970b2d92dceba64e63c5c7df1a6ef123a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:42 +0000
Subject: [PATCH 13/13] fix: honour the floating base, the gravity and the
 update tolerance of the settings

---
 src/Solver.cpp                       | 16 ++++++++++++++++
 src/private/DynamicalConstraints.cpp |  2 +-
 2 files changed, 17 insertions(+), 1 deletion(-)

diff --git a/src/Solver.cpp b/src/Solver.cpp
index 85b3f4f..706c70a 100644
--- a/src/Solver.cpp
+++ b/src/Solver.cpp
@@ -1440,6 +1440,22 @@ bool Solver::specifySettings(const Settings &settings)
         return false;
     }
 
+    ok = m_pimpl->timelySharedKinDyn->setFloatingBase(st.floatingBaseName);
+
+    if (!ok) {
+        std::cerr << "[ERROR][Solver::specifySettings] Failed to set the floating base." << std::endl;
+        return false;
+    }
+
+    ok = m_pimpl->timelySharedKinDyn->setToleranceForUpdate(st.updateTolerance);
+
+    if (!ok) {
+        std::cerr << "[ERROR][Solver::specifySettings] Failed to set the update tolerance." << std::endl;
+        return false;
+    }
+
+    m_pimpl->timelySharedKinDyn->setGravity(st.gravity);
+
     m_pimpl->expressionsServer = std::make_shared<ExpressionsServer>(m_pimpl->timelySharedKinDyn);
 
     HyperbolicTangent velocityActivationXY;
diff --git a/src/private/DynamicalConstraints.cpp b/src/private/DynamicalConstraints.cpp
index c497ef1..a4f1096 100644
--- a/src/private/DynamicalConstraints.cpp
+++ b/src/private/DynamicalConstraints.cpp
@@ -349,7 +349,7 @@ DynamicalConstraints::DynamicalConstraints(const VariablesLabeller &stateVariabl
 
 
     m_pimpl->gravityVector.zero();
-    m_pimpl->gravityVector(2) = -9.81;
+    iDynTree::toEigen(m_pimpl->gravityVector).topRows<3>() = iDynTree::toEigen(timelySharedKinDyn->gravity());
 
 //    m_pimpl->stateJacobianBuffer.resize(static_cast<unsigned int>(stateVariables.size()), static_cast<unsigned int>(stateVariables.size()));
 //    m_pimpl->stateJacobianBuffer.zero();
-- 
2.43.0

