From 5483d32e38a8942ded72bd8a53d1ab734a0b1e66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:54 +0000
Subject: [PATCH 01/34] fix: do not index the joint velocity limits with the
 size of the joint limits

---
 src/Settings.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/Settings.cpp b/src/Settings.cpp
index 01be9c6..e36be98 100644
--- a/src/Settings.cpp
+++ b/src/Settings.cpp
@@ -82,7 +82,9 @@ bool Settings::setFromStruct(const SettingsStruct &inputSettings)
     for (size_t j = 0; j < inputSettings.jointsLimits.size(); ++j) {
         errors += checkError(inputSettings.jointsLimits[j].first > inputSettings.jointsLimits[j].second,
                              "The lower limit of joint " + std::to_string(j) + " is bigger than its upper limit.");
+    }
 
+    for (size_t j = 0; j < inputSettings.jointsVelocityLimits.size(); ++j) {
         errors += checkError(inputSettings.jointsVelocityLimits[j].first > inputSettings.jointsVelocityLimits[j].second,
                              "The lower velocity limit of joint " + std::to_string(j) + " is bigger than its upper limit.");
     }
-- 
2.43.0


From 3fa1e1c3456b5a430b4cdbd471161aee44e2b3ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:54 +0000
Subject: [PATCH 02/34] fix: check the force derivative reference when the
 force derivative cost is active

---
 src/Settings.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Settings.cpp b/src/Settings.cpp
index e36be98..7452444 100644
--- a/src/Settings.cpp
+++ b/src/Settings.cpp
@@ -128,7 +128,7 @@ bool Settings::setFromStruct(const SettingsStruct &inputSettings)
     }
 
     if (inputSettings.forceDerivativeCostActive) {
-        errors += checkError(!(inputSettings.desiredRotationTrajectory), " The desiredRotationTrajectory is empty.");
+        errors += checkError(!(inputSettings.desiredForceDerivativeTrajectory), " The desiredForceDerivativeTrajectory is empty.");
         errors += checkError(inputSettings.forceDerivativeWeights.size() != 3, "The forceDerivativeWeights is expected to be three dimensional.");
     }
 
-- 
2.43.0


From 2f0644b1b396c11df9425602d7c73e21d699d61b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:54 +0000
Subject: [PATCH 03/34] fix: validate the references and weights of every
 enabled cost and the force derivative bounds

---
 src/Settings.cpp | 33 +++++++++++++++++++++++++++++++++
 1 file changed, 33 insertions(+)

diff --git a/src/Settings.cpp b/src/Settings.cpp
index 7452444..e80ae63 100644
--- a/src/Settings.cpp
+++ b/src/Settings.cpp
@@ -96,6 +96,7 @@ bool Settings::setFromStruct(const SettingsStruct &inputSettings)
     if (inputSettings.constrainTargetCoMPosition) {
         errors += checkError(!inputSettings.constrainTargetCoMPositionRange.isValid(), "The constrainTargetCoMPositionRange is not valid.");
         errors += checkError(!inputSettings.targetCoMPositionTolerance, "The targetCoMPositionTolerance pointer is empty.");
+        errors += checkError(!inputSettings.desiredCoMTrajectory, "The desiredCoMTrajectory is empty.");
     }
 
     if (inputSettings.comCostActive) {
@@ -106,6 +107,7 @@ bool Settings::setFromStruct(const SettingsStruct &inputSettings)
 
     if (inputSettings.comVelocityCostActive) {
         errors += checkError(inputSettings.comVelocityWeights.size() != 3, "The comVelocityWeights vector is expected to be three dimensional.");
+        errors += checkError(!inputSettings.comVelocityCostActiveRange.isValid(), "The specified time range for the CoM velocity cost is not valid.");
         errors += checkError(!inputSettings.desiredCoMVelocityTrajectory, "The desiredCoMVelocityTrajectory is empty.");
     }
 
@@ -122,6 +124,20 @@ bool Settings::setFromStruct(const SettingsStruct &inputSettings)
                              "The jointRegularizationWeights size does not match the robot DoFs.");
     }
 
+    if (inputSettings.jointsVelocityCostActive) {
+        errors += checkError(!(inputSettings.desiredJointsVelocityTrajectory), "The desiredJointsVelocityTrajectory is empty.");
+        errors += checkError(inputSettings.jointsVelocityCostWeights.size() != inputSettings.robotModel.getNrOfDOFs(),
+                             "The jointsVelocityCostWeights size does not match the robot DoFs.");
+    }
+
+    if (inputSettings.jointsVelocityForPosturalCostActive) {
+        errors += checkError(!(inputSettings.desiredJointsTrajectory), "The desiredJointsTrajectory is empty.");
+        errors += checkError(inputSettings.jointsRegularizationWeights.size() != inputSettings.robotModel.getNrOfDOFs(),
+                             "The jointRegularizationWeights size does not match the robot DoFs.");
+        errors += checkError(inputSettings.jointsVelocityCostWeights.size() != inputSettings.robotModel.getNrOfDOFs(),
+                             "The jointsVelocityCostWeights size does not match the robot DoFs.");
+    }
+
     if (inputSettings.staticTorquesCostActive) {
         errors += checkError(inputSettings.staticTorquesCostWeights.size() != inputSettings.robotModel.getNrOfDOFs(),
                              "The staticTorquesCostWeights size does not match the robot DoFs.");
@@ -147,6 +163,20 @@ bool Settings::setFromStruct(const SettingsStruct &inputSettings)
         errors += checkError(!inputSettings.meanPointPositionCostTimeVaryingWeight, "The meanPointPositionCostTimeVaryingWeight pointer is empty.");
     }
 
+    if (inputSettings.leftFootYawCostActive) {
+        errors += checkError(!inputSettings.desiredLeftFootYaw, "The desiredLeftFootYaw pointer is empty.");
+    }
+
+    if (inputSettings.rightFootYawCostActive) {
+        errors += checkError(!inputSettings.desiredRightFootYaw, "The desiredRightFootYaw pointer is empty.");
+    }
+
+    if (inputSettings.frameAngularVelocityCostActive) {
+        errors += checkError(!(inputSettings.robotModel.isFrameNameUsed(inputSettings.frameForOrientationCost)),
+                             "The frameForOrientationCost does not appear in the model.");
+        errors += checkError(!inputSettings.desiredRotationTrajectory, "The desiredRotationTrajectory is empty.");
+    }
+
     if (inputSettings.basePositionCostActive) {
         errors += checkError(inputSettings.basePositionCostWeights.size() != 3,
                              "The basePositionCostWeights vector is expected to be three dimensional.");
@@ -203,6 +233,9 @@ bool Settings::setFromStruct(const SettingsStruct &inputSettings)
                               "The classicalPlanarComplementarityTolerance has to be non-negative.");
     }
 
+    errors += checkError(iDynTree::toEigen(inputSettings.forceMaximumDerivative).minCoeff() < 0,
+                         "The forceMaximumDerivative vector has to be non-negative.");
+
     errors += checkError(iDynTree::toEigen(inputSettings.velocityMaximumDerivative).minCoeff() < 0,
                          "The velocityMaximumDerivative vector has to be non-negative.");
 
-- 
2.43.0


From ab5519746c5ff46345c221ea827051511328dddc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:06 +0000
Subject: [PATCH 04/34] fix: drop the computations of the previous timings when
 fewer timings are set

---
 src/private/TimelySharedKinDynComputations.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/private/TimelySharedKinDynComputations.cpp b/src/private/TimelySharedKinDynComputations.cpp
index 7961d85..dda6d83 100644
--- a/src/private/TimelySharedKinDynComputations.cpp
+++ b/src/private/TimelySharedKinDynComputations.cpp
@@ -150,7 +150,13 @@ bool TimelySharedKinDynComputations::setTimings(const std::vector<double> &timin
         }
     }
 
-    m_timingsSet = true;
+    // Slots in excess would break the ordering of the container
+    if (timings.size() < m_pointerContainer.size()) {
+        m_pointerContainer.erase(m_pointerContainer.begin() + static_cast<std::ptrdiff_t>(timings.size()), m_pointerContainer.end());
+    }
+    m_previousIndex = 0;
+
+    m_timingsSet = !timings.empty();
     return true;
 }
 
-- 
2.43.0


From 5d3c9b1fd30d10826e7e16319ace318b747ff170 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:12 +0000
Subject: [PATCH 05/34] fix: levi division keeps the columns of the dividend

The buffer of an expression divided by a scalar was created with the columns of
the divisor, so a matrix divided by a scalar declared the wrong size.
---
 extern/levi/include/levi/OperatorsEvaluables.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/extern/levi/include/levi/OperatorsEvaluables.h b/extern/levi/include/levi/OperatorsEvaluables.h
index 02dcf95..809d6f1 100644
--- a/extern/levi/include/levi/OperatorsEvaluables.h
+++ b/extern/levi/include/levi/OperatorsEvaluables.h
@@ -823,7 +823,7 @@ private:
 public:
 
     DivisionEvaluable(const levi::ExpressionComponent<LeftEvaluable>& lhs, const levi::ExpressionComponent<RightEvaluable>& rhs)
-        : levi::BinaryOperator<product_type, LeftEvaluable, RightEvaluable>(lhs, rhs, lhs.rows(), rhs.cols(), lhs.name() + "/(" + rhs.name() + ")")
+        : levi::BinaryOperator<product_type, LeftEvaluable, RightEvaluable>(lhs, rhs, lhs.rows(), lhs.cols(), lhs.name() + "/(" + rhs.name() + ")")
     {
         assert(rhs.rows() == 1 && rhs.cols() == 1);
         this->m_info->type = levi::EvaluableType::Division;
-- 
2.43.0


From da30c75a2152d49fa097bea76b3bc1292f8f46f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:58 +0000
Subject: [PATCH 06/34] fix: finite weights for instantaneous and unlimited
 ranges of PositionReferenceGenerator

An active element with AnyTime or zero length range divided by zero.
---
 src/PositionReferenceGenerator.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/PositionReferenceGenerator.cpp b/src/PositionReferenceGenerator.cpp
index 2f2673e..c6c6360 100644
--- a/src/PositionReferenceGenerator.cpp
+++ b/src/PositionReferenceGenerator.cpp
@@ -88,7 +88,12 @@ const iDynTree::VectorDynSize &TimeVaryingWeight::get(double time, bool &isValid
         return m_outputWeight;
     }
 
-    double increaseAmount = (time - activeElement->activeRange.initTime())/(activeElement->activeRange.endTime() - activeElement->activeRange.initTime());
+    double rangeLength = activeElement->activeRange.endTime() - activeElement->activeRange.initTime();
+    double increaseAmount = 0.0; //an instantaneous or unlimited range has no duration along which the weight can increase
+
+    if (rangeLength > 0.0) {
+        increaseAmount = (time - activeElement->activeRange.initTime())/rangeLength;
+    }
 
     for (unsigned int i = 0; i < 3; ++i) {
         m_outputWeight(i) = (m_increaseFactors(i) * increaseAmount + 1.0) * (m_increaseFactors(i) * increaseAmount + 1.0);
-- 
2.43.0


From 09fd897278f027ad01d3423a7ee4ea7acc6a1448 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:58 +0000
Subject: [PATCH 07/34] fix: PositionReference returned an uninitialised
 position when no element was active

---
 src/PositionReferenceGenerator.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/PositionReferenceGenerator.cpp b/src/PositionReferenceGenerator.cpp
index c6c6360..3ed4f77 100644
--- a/src/PositionReferenceGenerator.cpp
+++ b/src/PositionReferenceGenerator.cpp
@@ -104,6 +104,7 @@ const iDynTree::VectorDynSize &TimeVaryingWeight::get(double time, bool &isValid
 
 PositionReference::PositionReference(std::shared_ptr<PositionReferenceGeneratorData> data) {
     m_data = data;
+    m_zeroPosition.zero();
 }
 
 const iDynTree::Position &PositionReference::get(double time, bool &isValid) {
-- 
2.43.0


From 210f77dedd320257b556b909eaf0b6bdd0c7dce3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:58 +0000
Subject: [PATCH 08/34] fix: TranslatingCoMStateGuess reports when its CoM
 reference is not valid

---
 src/Utilities.cpp | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/Utilities.cpp b/src/Utilities.cpp
index 332a2a9..9131b70 100644
--- a/src/Utilities.cpp
+++ b/src/Utilities.cpp
@@ -221,8 +221,6 @@ State &TranslatingCoMStateGuess::get(double time, bool &isValid) {
         iDynTree::toEigen(m_state.rightContactPointsState[i].pointPosition) = iDynTree::toEigen(m_initialState.rightContactPointsState[i].pointPosition) + iDynTree::toEigen(comDifference);
     }
 
-    isValid = true;
-
     m_state.time = time;
     return m_state;
 }
-- 
2.43.0


From 8c2630b970e9329602696a6900cf038285b32bc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:52 +0000
Subject: [PATCH 09/34] fix: FillDefaultInitialState refuses a number of points
 different from that of the feet

It read beyond the computed forces when the settings had more points, and lost part of
the weight when they had fewer.
---
 src/Utilities.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/Utilities.cpp b/src/Utilities.cpp
index 9131b70..2c1199c 100644
--- a/src/Utilities.cpp
+++ b/src/Utilities.cpp
@@ -107,6 +107,12 @@ bool FillDefaultInitialState(const Settings &inputSettings, const iDynTree::Vect
         return false;
     }
 
+    if (leftPointForces.size() != settings.leftPointsPosition.size() || rightPointForces.size() != settings.rightPointsPosition.size())
+    {
+        std::cerr << "[ERROR][DynamicalPlanner::Utilities::FillDefaultInitialState] The number of points in the settings does not match those of the feet." <<std::endl;
+        return false;
+    }
+
     for (size_t i = 0; i < settings.leftPointsPosition.size(); ++i) {
         initialState.leftContactPointsState[i].pointForce = leftPointForces[i];
         initialState.rightContactPointsState[i].pointForce =rightPointForces[i];
-- 
2.43.0


From 4aed8c661218af6fca9e0db99e272915b45cd9b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:35 +0000
Subject: [PATCH 10/34] fix: second derivative of the phantom forces cost
 missed the force

---
 src/private/PhantomForcesCost.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/private/PhantomForcesCost.cpp b/src/private/PhantomForcesCost.cpp
index 23dede1..26dc486 100644
--- a/src/private/PhantomForcesCost.cpp
+++ b/src/private/PhantomForcesCost.cpp
@@ -134,7 +134,7 @@ bool PhantomForcesCost::costSecondPartialDerivativeWRTState(double /*time*/, con
 
     double phantomForce = (1- delta) * fz;
 
-    partialDerivative(pzCol, pzCol) = (deltaDerivative * fz) * (deltaDerivative * fz) - phantomForce * deltaDoubleDerivative;
+    partialDerivative(pzCol, pzCol) = (deltaDerivative * fz) * (deltaDerivative * fz) - phantomForce * deltaDoubleDerivative * fz;
     partialDerivative(fzCol, fzCol) = (1- delta) * (1- delta);
     partialDerivative(fzCol, pzCol) = -2.0 * phantomForce * deltaDerivative;
     partialDerivative(pzCol, fzCol) = partialDerivative(fzCol, pzCol);
-- 
2.43.0


From e7f63c538d5905072e9600534c332006eb3a94a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:35 +0000
Subject: [PATCH 11/34] fix: second derivative of the planar velocity bounds
 used stale positions and wrong multipliers

---
 src/private/PlanarVelocityControlConstraints.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/private/PlanarVelocityControlConstraints.cpp b/src/private/PlanarVelocityControlConstraints.cpp
index a8b3685..f89a5d3 100644
--- a/src/private/PlanarVelocityControlConstraints.cpp
+++ b/src/private/PlanarVelocityControlConstraints.cpp
@@ -172,12 +172,13 @@ bool PlanarVelocityControlConstraints::constraintSecondPartialDerivativeWRTState
                                                                                  iDynTree::MatrixDynSize &hessian)
 {
     m_pimpl->stateVariables = state;
+    m_pimpl->pointPosition = m_pimpl->stateVariables(m_pimpl->positionPointRange);
 
     unsigned int positionIndex = static_cast<unsigned int>(m_pimpl->positionPointRange.offset + 2);
     double deltaDoubleDerivative = m_pimpl->planarVelocityActivation.evalDoubleDerivative(m_pimpl->pointPosition(2));
 
-    hessian(positionIndex, positionIndex) = (((lambda(0) + lambda(1)) * m_pimpl->maximumDerivatives(0)) +
-                                             ((lambda(2) + lambda(3)) * m_pimpl->maximumDerivatives(1))) * deltaDoubleDerivative;
+    hessian(positionIndex, positionIndex) = (((lambda(0) + lambda(2)) * m_pimpl->maximumDerivatives(0)) +
+                                             ((lambda(1) + lambda(3)) * m_pimpl->maximumDerivatives(1))) * deltaDoubleDerivative;
 
     return true;
 }
-- 
2.43.0


From 17ca276dd13c20f1d835436c21ce020f03c5bd8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:35 +0000
Subject: [PATCH 12/34] fix: desired foot yaw ignored the sense of the yaw of
 the foot edge

---
 src/private/FootYawCost.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/private/FootYawCost.cpp b/src/private/FootYawCost.cpp
index 2e85abf..171a227 100644
--- a/src/private/FootYawCost.cpp
+++ b/src/private/FootYawCost.cpp
@@ -136,7 +136,7 @@ bool FootYawCost::costEvaluation(double time, const iDynTree::VectorDynSize &sta
     m_pimpl->stateVariables = state;
 
     bool isValid = false;
-    double desiredYaw = m_pimpl->desiredYaw->get(time, isValid) - m_pimpl->initialYaw;
+    double desiredYaw = m_pimpl->desiredYaw->get(time, isValid) + m_pimpl->initialYaw;
     assert(isValid);
 
     double sy = std::sin(desiredYaw);
@@ -160,7 +160,7 @@ bool FootYawCost::costFirstPartialDerivativeWRTState(double time, const iDynTree
     m_pimpl->stateVariables = state;
 
     bool isValid = false;
-    double desiredYaw = m_pimpl->desiredYaw->get(time, isValid) - m_pimpl->initialYaw;
+    double desiredYaw = m_pimpl->desiredYaw->get(time, isValid) + m_pimpl->initialYaw;
     assert(isValid);
 
     iDynTree::Vector3 currentTopBottomDistance, currentLeftRightDistance;
@@ -196,7 +196,7 @@ bool FootYawCost::costSecondPartialDerivativeWRTState(double time, const iDynTre
     m_pimpl->stateVariables = state;
 
     bool isValid = false;
-    double desiredYaw = m_pimpl->desiredYaw->get(time, isValid) - m_pimpl->initialYaw;
+    double desiredYaw = m_pimpl->desiredYaw->get(time, isValid) + m_pimpl->initialYaw;
     assert(isValid);
 
     double sy = std::sin(desiredYaw);
-- 
2.43.0


From dc9650d21fec030e55f89de8eab8bbe9819b15df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:32 +0000
Subject: [PATCH 13/34] fix: frame angular velocity cost uses the velocities of
 the point it evaluates

---
 src/private/FrameAngularVelocityCost.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/private/FrameAngularVelocityCost.cpp b/src/private/FrameAngularVelocityCost.cpp
index 89c34fa..95e4f2a 100644
--- a/src/private/FrameAngularVelocityCost.cpp
+++ b/src/private/FrameAngularVelocityCost.cpp
@@ -55,6 +55,10 @@ public:
         robotState.base_position = basePosition;
 
         robotState.s = stateVariables(jointsPositionRange);
+
+        robotState.s_dot = controlVariables(jointsVelocityRange);
+        iDynTree::toEigen(robotState.base_quaternionVelocity) = iDynTree::toEigen(controlVariables(baseQuaternionDerivativeRange));
+
         sharedKinDyn->updateRobotState(robotState);
 
     }
-- 
2.43.0


From 41a70e2765fbc06a007d32a4084de32fc80772e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:32 +0000
Subject: [PATCH 14/34] fix: frame angular velocity cost expresses velocity and
 rotation error in the same frame

---
 src/private/FrameAngularVelocityCost.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/private/FrameAngularVelocityCost.cpp b/src/private/FrameAngularVelocityCost.cpp
index 95e4f2a..a46dbf2 100644
--- a/src/private/FrameAngularVelocityCost.cpp
+++ b/src/private/FrameAngularVelocityCost.cpp
@@ -70,7 +70,8 @@ public:
         levi::Expression frameRotation = expressionsServer->baseRotation() *
             expressionsServer->relativeRotation(timedSharedKinDyn->getFloatingBase(), desiredFrameName);
 
-        levi::Expression rotationErrorExpression = frameRotation * desiredRotation.transpose();
+        // The angular velocity is expressed in the frame itself, hence the error is expressed in the same frame
+        levi::Expression rotationErrorExpression = desiredRotation.transpose() * frameRotation;
 
         levi::Expression skewError = 0.5 * (rotationErrorExpression - rotationErrorExpression.transpose());
 
-- 
2.43.0


From 5e1d56f5d42ba569a2298f64c84677c3f5bfcf58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:32 +0000
Subject: [PATCH 15/34] fix: frame angular velocity cost provides its control
 Hessian

---
 src/private/FrameAngularVelocityCost.cpp | 42 +++++++++++++++++++++---
 1 file changed, 38 insertions(+), 4 deletions(-)

diff --git a/src/private/FrameAngularVelocityCost.cpp b/src/private/FrameAngularVelocityCost.cpp
index a46dbf2..2b6e010 100644
--- a/src/private/FrameAngularVelocityCost.cpp
+++ b/src/private/FrameAngularVelocityCost.cpp
@@ -35,7 +35,8 @@ public:
 
     levi::Expression asExpression, quaternionDerivative, jointsDerivative, baseQuaternionVelocityDerivative, jointsVelocityDerivative,
         quaternionHessian, jointsHessian, quaternionJointsHessian, quaternionQuaternionDerivativeHessian,
-        quaternionJointsVelocityHessian, jointsQuaternionDerivativeHessian, jointsJointsVelocityHessian;
+        quaternionJointsVelocityHessian, jointsQuaternionDerivativeHessian, jointsJointsVelocityHessian,
+        quaternionVelocityHessian, quaternionVelocityJointsVelocityHessian, jointsVelocityHessian;
 
     std::shared_ptr<iDynTree::optimalcontrol::TimeVaryingRotation> desiredTrajectory;
 
@@ -91,6 +92,9 @@ public:
         quaternionJointsVelocityHessian = quaternionDerivative.getColumnDerivative(0, expressionsServer->jointsVelocity());
         jointsQuaternionDerivativeHessian = jointsDerivative.getColumnDerivative(0, expressionsServer->baseQuaternionVelocity());
         jointsJointsVelocityHessian = jointsDerivative.getColumnDerivative(0, expressionsServer->jointsVelocity());
+        quaternionVelocityHessian = baseQuaternionVelocityDerivative.getColumnDerivative(0, expressionsServer->baseQuaternionVelocity());
+        quaternionVelocityJointsVelocityHessian = baseQuaternionVelocityDerivative.getColumnDerivative(0, expressionsServer->jointsVelocity());
+        jointsVelocityHessian = jointsVelocityDerivative.getColumnDerivative(0, expressionsServer->jointsVelocity());
     }
 
 };
@@ -150,7 +154,10 @@ FrameAngularVelocityCost::FrameAngularVelocityCost(const VariablesLabeller &stat
     m_pimpl->mixedHessianSparsity.addDenseBlock(m_pimpl->jointsPositionRange, m_pimpl->baseQuaternionDerivativeRange);
     m_pimpl->mixedHessianSparsity.addDenseBlock(m_pimpl->jointsPositionRange, m_pimpl->jointsVelocityRange);
 
-    m_pimpl->controlHessianSparsity.clear();
+    m_pimpl->controlHessianSparsity.addDenseBlock(m_pimpl->baseQuaternionDerivativeRange, m_pimpl->baseQuaternionDerivativeRange);
+    m_pimpl->controlHessianSparsity.addDenseBlock(m_pimpl->baseQuaternionDerivativeRange, m_pimpl->jointsVelocityRange);
+    m_pimpl->controlHessianSparsity.addDenseBlock(m_pimpl->jointsVelocityRange, m_pimpl->baseQuaternionDerivativeRange);
+    m_pimpl->controlHessianSparsity.addDenseBlock(m_pimpl->jointsVelocityRange, m_pimpl->jointsVelocityRange);
 
 }
 
@@ -168,6 +175,9 @@ FrameAngularVelocityCost::~FrameAngularVelocityCost()
     m_pimpl->quaternionJointsVelocityHessian.clearDerivativesCache();
     m_pimpl->jointsQuaternionDerivativeHessian.clearDerivativesCache();
     m_pimpl->jointsJointsVelocityHessian.clearDerivativesCache();
+    m_pimpl->quaternionVelocityHessian.clearDerivativesCache();
+    m_pimpl->quaternionVelocityJointsVelocityHessian.clearDerivativesCache();
+    m_pimpl->jointsVelocityHessian.clearDerivativesCache();
 }
 
 bool FrameAngularVelocityCost::setDesiredRotationTrajectory(std::shared_ptr<iDynTree::optimalcontrol::TimeVaryingRotation> desiredRotationTrajectory)
@@ -310,9 +320,33 @@ bool FrameAngularVelocityCost::costSecondPartialDerivativeWRTState(double time,
     return true;
 }
 
-bool FrameAngularVelocityCost::costSecondPartialDerivativeWRTControl(double /*time*/, const iDynTree::VectorDynSize &/*state*/,
-                                                                 const iDynTree::VectorDynSize &/*control*/, iDynTree::MatrixDynSize &/*partialDerivative*/)
+bool FrameAngularVelocityCost::costSecondPartialDerivativeWRTControl(double time, const iDynTree::VectorDynSize &state,
+                                                                 const iDynTree::VectorDynSize &control, iDynTree::MatrixDynSize &partialDerivative)
 {
+    m_pimpl->stateVariables = state;
+    m_pimpl->controlVariables = control;
+
+    m_pimpl->sharedKinDyn = m_pimpl->timedSharedKinDyn->get(time);
+
+    m_pimpl->updateRobotState();
+    m_pimpl->expressionsServer->updateRobotState(time);
+
+    iDynTree::iDynTreeEigenMatrixMap hessianMap = iDynTree::toEigen(partialDerivative);
+
+    hessianMap.block<4,4>(m_pimpl->baseQuaternionDerivativeRange.offset, m_pimpl->baseQuaternionDerivativeRange.offset) =
+        m_pimpl->quaternionVelocityHessian.evaluate();
+
+    hessianMap.block(m_pimpl->jointsVelocityRange.offset, m_pimpl->jointsVelocityRange.offset, m_pimpl->jointsVelocityRange.size, m_pimpl->jointsVelocityRange.size) =
+        m_pimpl->jointsVelocityHessian.evaluate();
+
+    const Eigen::MatrixXd& mixedHessian = m_pimpl->quaternionVelocityJointsVelocityHessian.evaluate();
+
+    hessianMap.block(m_pimpl->baseQuaternionDerivativeRange.offset, m_pimpl->jointsVelocityRange.offset,
+                     m_pimpl->baseQuaternionDerivativeRange.size, m_pimpl->jointsVelocityRange.size) = mixedHessian;
+
+    hessianMap.block(m_pimpl->jointsVelocityRange.offset, m_pimpl->baseQuaternionDerivativeRange.offset,
+                     m_pimpl->jointsVelocityRange.size, m_pimpl->baseQuaternionDerivativeRange.size) = mixedHessian.transpose();
+
     return true;
 }
 
-- 
2.43.0


From a39b958916c708bb2d802715efb0b6f4202b9742 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:36 +0000
Subject: [PATCH 16/34] fix: derivative of adjoint transforms whose target
 frame has an offset from its link

---
 src/private/AdjointTransformExpression.cpp | 24 ----------------------
 1 file changed, 24 deletions(-)

diff --git a/src/private/AdjointTransformExpression.cpp b/src/private/AdjointTransformExpression.cpp
index 85ae8c4..cd91e59 100644
--- a/src/private/AdjointTransformExpression.cpp
+++ b/src/private/AdjointTransformExpression.cpp
@@ -245,18 +245,6 @@ public:
             iDynTree::LinkIndex parentLink;
             iDynTree::LinkIndex visitedLink = targetLink;
 
-            jointPtr = traversal.getParentJointFromLinkIndex(targetLink);
-            assert(jointPtr);
-            jointIndex = static_cast<size_t>(jointPtr->getIndex());
-            parentLink = traversal.getParentLinkIndexFromJointIndex(model, jointPtr->getIndex());
-
-            jointsDerivative[jointIndex] =
-                expressionsServer->adjointTransform(baseFrame, targetFrame) * expressionsServer->motionSubSpaceAsCrossProduct(jointPtr->getIndex(), parentLink, targetLink);
-
-            m_nonZeros.push_back(jointIndex);
-
-            visitedLink = parentLink;
-
             while (visitedLink != m_baseLink) {
                 jointPtr = traversal.getParentJointFromLinkIndex(visitedLink);
                 assert(jointPtr);
@@ -371,18 +359,6 @@ public:
             iDynTree::LinkIndex parentLink;
             iDynTree::LinkIndex visitedLink = targetLink;
 
-            jointPtr = traversal.getParentJointFromLinkIndex(targetLink);
-            assert(jointPtr);
-            jointIndex = static_cast<size_t>(jointPtr->getIndex());
-            parentLink = traversal.getParentLinkIndexFromJointIndex(model, jointPtr->getIndex());
-
-            jointsDerivative[jointIndex] =
-                expressionsServer->adjointTransformWrench(baseFrame, targetFrame) * expressionsServer->motionSubSpaceAsCrossProductWrench(jointPtr->getIndex(), parentLink, targetLink);
-
-            m_nonZeros.push_back(jointIndex);
-
-            visitedLink = parentLink;
-
             while (visitedLink != m_baseLink) {
                 jointPtr = traversal.getParentJointFromLinkIndex(visitedLink);
                 assert(jointPtr);
-- 
2.43.0


From 375481e24daed0f8f3b4e9d6abed836a7323321c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:43 +0000
Subject: [PATCH 17/34] fix: base twist expression uses the body angular
 velocity

---
 src/private/ExpressionsServer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/private/ExpressionsServer.cpp b/src/private/ExpressionsServer.cpp
index 147bfe0..548c16e 100644
--- a/src/private/ExpressionsServer.cpp
+++ b/src/private/ExpressionsServer.cpp
@@ -80,7 +80,7 @@ ExpressionsServer::ExpressionsServer(std::shared_ptr<TimelySharedKinDynComputati
     m_pimpl->s_dot = levi::Variable(timelySharedKinDyn->model().getNrOfDOFs(), "s_dot");
 
     levi::Expression minusQuaternion = -quaternionImaginary;
-    levi::Expression angularVelocity = 2.0 * (minusQuaternion * m_pimpl->baseQuaternionVelocity(0,0) + (quaternionReal(0,0) * levi::Identity(3,3) - minusQuaternion.skew()) * m_pimpl->baseQuaternionVelocity.block(1,0,3,1));
+    levi::Expression angularVelocity = 2.0 * (minusQuaternion * m_pimpl->baseQuaternionVelocity(0,0) + (quaternionReal(0,0) * levi::Identity(3,3) + minusQuaternion.skew()) * m_pimpl->baseQuaternionVelocity.block(1,0,3,1));
 
     m_pimpl->baseTwist = levi::Expression::Vertcat(m_pimpl->baseLinearVelocity, angularVelocity, "baseTwist");
 
-- 
2.43.0


From fed58e84b7c5e79070d81e60fd034cfd0c594a2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:39 +0000
Subject: [PATCH 18/34] fix: the state Jacobian sparsity of the dynamics
 contains the force dissipation

---
 src/private/DynamicalConstraints.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/private/DynamicalConstraints.cpp b/src/private/DynamicalConstraints.cpp
index c497ef1..534e56d 100644
--- a/src/private/DynamicalConstraints.cpp
+++ b/src/private/DynamicalConstraints.cpp
@@ -264,6 +264,7 @@ public:
             stateJacobianSparsity.addDenseBlock(static_cast<size_t>(foot.positionPoints[i].offset),
                                                 static_cast<size_t>(foot.positionPoints[i].offset) + 2, 2, 1);
             stateJacobianSparsity.add(static_cast<size_t>(foot.forcePoints[i].offset + 2), static_cast<size_t>(foot.positionPoints[i].offset + 2));
+            stateJacobianSparsity.add(static_cast<size_t>(foot.forcePoints[i].offset + 2), static_cast<size_t>(foot.forcePoints[i].offset + 2));
 
             stateHessianSparsity.addDenseBlock(comPositionRange, foot.forcePoints[i]);
             stateHessianSparsity.addDenseBlock(foot.forcePoints[i], comPositionRange);
-- 
2.43.0


From 08278835d2fb8c357d2a8c7a9ce5235b2fa4cfd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:57 +0000
Subject: [PATCH 19/34] fix: expression server updates its variables when the
 kinematics already has the state

The guard compared the requested state with the one of the shared kinematics instead of
the one the expressions were last evaluated with, leaving the variables at an older state.
---
 src/private/ExpressionsServer.cpp | 19 +++----------------
 1 file changed, 3 insertions(+), 16 deletions(-)

diff --git a/src/private/ExpressionsServer.cpp b/src/private/ExpressionsServer.cpp
index 548c16e..e1e23cd 100644
--- a/src/private/ExpressionsServer.cpp
+++ b/src/private/ExpressionsServer.cpp
@@ -128,24 +128,11 @@ bool ExpressionsServer::updateRobotState(double time, const RobotState &currentS
     m_pimpl->time = time;
     m_pimpl->kinDyn = m_pimpl->timelySharedKinDyn->get(time);
 
-    if (m_pimpl->first || !(m_pimpl->kinDyn->sameState(currentState))) {
-        if (!(m_pimpl->kinDyn->updateRobotState(currentState))){
-            return false;
-        }
-
-        m_pimpl->quaternion = iDynTree::toEigen(currentState.base_quaternion);
-        m_pimpl->basePositionExpr = iDynTree::toEigen(currentState.base_position);
-        m_pimpl->s = iDynTree::toEigen(currentState.s);
-        m_pimpl->s_dot = iDynTree::toEigen(currentState.s_dot);
-        m_pimpl->baseLinearVelocity = iDynTree::toEigen(currentState.base_linearVelocity);
-        m_pimpl->baseQuaternionVelocity = iDynTree::toEigen(currentState.base_quaternionVelocity);
-
-        m_pimpl->robotState = m_pimpl->kinDyn->currentState();
-
-        m_pimpl->first = false;
+    if (!(m_pimpl->kinDyn->updateRobotState(currentState))) {
+        return false;
     }
 
-    return true;
+    return updateRobotState(time);
 }
 
 bool ExpressionsServer::updateRobotState(double time)
-- 
2.43.0


From 6c131ace5fbe34a3b6413ea212dceb417ac13958 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:57 +0000
Subject: [PATCH 20/34] fix: expression server confused frames and joints whose
 joined names coincide

---
 src/private/ExpressionsServer.cpp | 52 +++++++++++++++++--------------
 1 file changed, 29 insertions(+), 23 deletions(-)

diff --git a/src/private/ExpressionsServer.cpp b/src/private/ExpressionsServer.cpp
index e1e23cd..68324d9 100644
--- a/src/private/ExpressionsServer.cpp
+++ b/src/private/ExpressionsServer.cpp
@@ -53,6 +53,12 @@ public:
 
     bool first;
 
+    // Label of an expression that depends on two names. The length of the first one avoids that
+    // different pairs have the same label.
+    static std::string pairLabel(const std::string& firstName, const std::string& secondName) {
+        return std::to_string(firstName.size()) + ":" + firstName + secondName;
+    }
+
     void clearDerivatives(ExpressionMap& map) {
         for (ExpressionMap::iterator it = map.begin(); it != map.end(); ++it) {
             it->second.clearDerivativesCache();
@@ -252,13 +258,13 @@ levi::Expression ExpressionsServer::comInBaseHessian(long column)
 
 levi::Expression ExpressionsServer::adjointTransform(const std::string &baseFrame, const std::string &targetFrame)
 {
-    ExpressionMap::iterator element = m_pimpl->adjointMap.find(baseFrame+targetFrame);
+    ExpressionMap::iterator element = m_pimpl->adjointMap.find(Implementation::pairLabel(baseFrame, targetFrame));
 
     if (element != m_pimpl->adjointMap.end()) {
         return (element->second);
     } else {
         std::pair<std::string, levi::Expression> newElement;
-        newElement.first = baseFrame + targetFrame;
+        newElement.first = Implementation::pairLabel(baseFrame, targetFrame);
         if (baseFrame == targetFrame) {
             newElement.second = levi::Identity(6,6);
         } else {
@@ -272,7 +278,7 @@ levi::Expression ExpressionsServer::adjointTransform(const std::string &baseFram
 
 levi::Expression ExpressionsServer::adjointTransformJointsDerivative(const std::string &baseFrame, const std::string &targetFrame, long column)
 {
-    std::string label = baseFrame + targetFrame + "__" + std::to_string(column);
+    std::string label = std::to_string(column) + "__" + Implementation::pairLabel(baseFrame, targetFrame);
 
     ExpressionMap::iterator element = m_pimpl->adjointDerivativeMap.find(label);
 
@@ -294,13 +300,13 @@ levi::Expression ExpressionsServer::adjointTransformJointsDerivative(const std::
 
 levi::Expression ExpressionsServer::adjointTransformWrench(const std::string &baseFrame, const std::string &targetFrame)
 {
-    ExpressionMap::iterator element = m_pimpl->adjointWrenchMap.find(baseFrame+targetFrame);
+    ExpressionMap::iterator element = m_pimpl->adjointWrenchMap.find(Implementation::pairLabel(baseFrame, targetFrame));
 
     if (element != m_pimpl->adjointWrenchMap.end()) {
         return (element->second);
     } else {
         std::pair<std::string, levi::Expression> newElement;
-        newElement.first = baseFrame + targetFrame;
+        newElement.first = Implementation::pairLabel(baseFrame, targetFrame);
         if (baseFrame == targetFrame) {
             newElement.second = levi::Identity(6, 6);
         } else {
@@ -314,7 +320,7 @@ levi::Expression ExpressionsServer::adjointTransformWrench(const std::string &ba
 
 levi::Expression ExpressionsServer::adjointTransformWrenchJointsDerivative(const std::string &baseFrame, const std::string &targetFrame, long column)
 {
-    std::string label = baseFrame + targetFrame + "__" + std::to_string(column);
+    std::string label = std::to_string(column) + "__" + Implementation::pairLabel(baseFrame, targetFrame);
 
     ExpressionMap::iterator element = m_pimpl->adjointWrenchDerivativeMap.find(label);
 
@@ -336,13 +342,13 @@ levi::Expression ExpressionsServer::adjointTransformWrenchJointsDerivative(const
 
 levi::Expression ExpressionsServer::relativePosition(const std::string &baseFrame, const std::string &targetFrame)
 {
-    ExpressionMap::iterator element = m_pimpl->relativePositionsMap.find(baseFrame+targetFrame);
+    ExpressionMap::iterator element = m_pimpl->relativePositionsMap.find(Implementation::pairLabel(baseFrame, targetFrame));
 
     if (element != m_pimpl->relativePositionsMap.end()) {
         return (element->second);
     } else {
         std::pair<std::string, levi::Expression> newElement;
-        newElement.first = baseFrame + targetFrame;
+        newElement.first = Implementation::pairLabel(baseFrame, targetFrame);
         if (baseFrame == targetFrame) {
             newElement.second = levi::Null(3, 1);
         } else {
@@ -356,13 +362,13 @@ levi::Expression ExpressionsServer::relativePosition(const std::string &baseFram
 
 levi::Expression ExpressionsServer::relativeQuaternion(const std::string &baseFrame, const std::string &targetFrame)
 {
-    ExpressionMap::iterator element = m_pimpl->relativeQuaternionsMap.find(baseFrame+targetFrame);
+    ExpressionMap::iterator element = m_pimpl->relativeQuaternionsMap.find(Implementation::pairLabel(baseFrame, targetFrame));
 
     if (element != m_pimpl->relativeQuaternionsMap.end()) {
         return (element->second);
     } else {
         std::pair<std::string, levi::Expression> newElement;
-        newElement.first = baseFrame + targetFrame;
+        newElement.first = Implementation::pairLabel(baseFrame, targetFrame);
         if (baseFrame == targetFrame) {
             newElement.second = levi::Identity(4,4).col(0);
         } else {
@@ -376,13 +382,13 @@ levi::Expression ExpressionsServer::relativeQuaternion(const std::string &baseFr
 
 levi::Expression ExpressionsServer::relativeRotation(const std::string &baseFrame, const std::string &targetFrame)
 {
-    ExpressionMap::iterator element = m_pimpl->relativeRotationsMap.find(baseFrame+targetFrame);
+    ExpressionMap::iterator element = m_pimpl->relativeRotationsMap.find(Implementation::pairLabel(baseFrame, targetFrame));
 
     if (element != m_pimpl->relativeRotationsMap.end()) {
         return (element->second);
     } else {
         std::pair<std::string, levi::Expression> newElement;
-        newElement.first = baseFrame + targetFrame;
+        newElement.first = Implementation::pairLabel(baseFrame, targetFrame);
         if (baseFrame == targetFrame) {
             newElement.second = levi::Identity(3, 3);
         } else {
@@ -396,13 +402,13 @@ levi::Expression ExpressionsServer::relativeRotation(const std::string &baseFram
 
 TransformExpression ExpressionsServer::relativeTransform(const std::string &baseFrame, const std::string &targetFrame)
 {
-    TransformsMap::iterator element = m_pimpl->transformsMap.find(baseFrame+targetFrame);
+    TransformsMap::iterator element = m_pimpl->transformsMap.find(Implementation::pairLabel(baseFrame, targetFrame));
 
     if (element != m_pimpl->transformsMap.end()) {
         return (element->second);
     } else {
         std::pair<std::string, TransformExpression> newElement;
-        newElement.first = baseFrame + targetFrame;
+        newElement.first = Implementation::pairLabel(baseFrame, targetFrame);
         newElement.second = TransformExpression(relativePosition(baseFrame, targetFrame), relativeRotation(baseFrame, targetFrame));
         auto result = m_pimpl->transformsMap.insert(newElement);
         assert(result.second);
@@ -412,13 +418,13 @@ TransformExpression ExpressionsServer::relativeTransform(const std::string &base
 
 levi::Expression ExpressionsServer::relativeLeftJacobian(const std::string &baseFrame, const std::string &targetFrame)
 {
-    ExpressionMap::iterator element = m_pimpl->relativeJacobiansMap.find(baseFrame+targetFrame);
+    ExpressionMap::iterator element = m_pimpl->relativeJacobiansMap.find(Implementation::pairLabel(baseFrame, targetFrame));
 
     if (element != m_pimpl->relativeJacobiansMap.end()) {
         return (element->second);
     } else {
         std::pair<std::string, levi::Expression> newElement;
-        newElement.first = baseFrame + targetFrame;
+        newElement.first = Implementation::pairLabel(baseFrame, targetFrame);
         if (baseFrame == targetFrame) {
             newElement.second = levi::Null(6, m_pimpl->s.rows());
         } else {
@@ -432,13 +438,13 @@ levi::Expression ExpressionsServer::relativeLeftJacobian(const std::string &base
 
 levi::Expression ExpressionsServer::relativeVelocity(const std::string &baseFrame, const std::string &targetFrame)
 {
-    ExpressionMap::iterator element = m_pimpl->velocitiesMap.find(baseFrame+targetFrame);
+    ExpressionMap::iterator element = m_pimpl->velocitiesMap.find(Implementation::pairLabel(baseFrame, targetFrame));
 
     if (element != m_pimpl->velocitiesMap.end()) {
         return (element->second);
     } else {
         std::pair<std::string, levi::Expression> newElement;
-        newElement.first = baseFrame + targetFrame;
+        newElement.first = Implementation::pairLabel(baseFrame, targetFrame);
         if (baseFrame == targetFrame) {
             newElement.second = levi::Null(6, 1);
         } else {
@@ -452,7 +458,7 @@ levi::Expression ExpressionsServer::relativeVelocity(const std::string &baseFram
 
 levi::Expression ExpressionsServer::absoluteVelocity(const std::string &targetFrame, const levi::Variable &baseTwist)
 {
-    std::string key = targetFrame + baseTwist.name();
+    std::string key = Implementation::pairLabel(targetFrame, baseTwist.name());
     ExpressionMap::iterator element = m_pimpl->absoluteVelocitiesMap.find(key);
 
     if (element != m_pimpl->absoluteVelocitiesMap.end()) {
@@ -478,7 +484,7 @@ levi::Expression ExpressionsServer::absoluteVelocity(const std::string &targetFr
 
 levi::Expression ExpressionsServer::absoluteVelocityJointsDerivative(const std::string &targetFrame, const levi::Variable &baseTwist)
 {
-    std::string label = targetFrame + baseTwist.name();
+    std::string label = Implementation::pairLabel(targetFrame, baseTwist.name());
 
     ExpressionMap::iterator element = m_pimpl->absoluteVelocitiesDerivativeMap.find(label);
 
@@ -516,7 +522,7 @@ levi::Expression ExpressionsServer::quaternionError(const std::string &desiredFr
 
 levi::Expression ExpressionsServer::motionSubSpaceVector(iDynTree::JointIndex joint, iDynTree::LinkIndex parentLink, iDynTree::LinkIndex childLink)
 {
-    std::string label = model().getJointName(joint) + std::to_string(parentLink) + std::to_string(childLink);
+    std::string label = std::to_string(parentLink) + "_" + std::to_string(childLink) + "_" + model().getJointName(joint);
     ExpressionMap::iterator element = m_pimpl->motionSubspacesMap.find(label);
 
     if (element != m_pimpl->motionSubspacesMap.end()) {
@@ -538,7 +544,7 @@ levi::Expression ExpressionsServer::motionSubSpaceVector(iDynTree::JointIndex jo
 
 levi::Expression ExpressionsServer::motionSubSpaceAsCrossProduct(iDynTree::JointIndex joint, iDynTree::LinkIndex parentLink, iDynTree::LinkIndex childLink)
 {
-    std::string label = model().getJointName(joint) + std::to_string(parentLink) + std::to_string(childLink);
+    std::string label = std::to_string(parentLink) + "_" + std::to_string(childLink) + "_" + model().getJointName(joint);
     ExpressionMap::iterator element = m_pimpl->motionSubspacesMatrixMap.find(label);
 
     if (element != m_pimpl->motionSubspacesMatrixMap.end()) {
@@ -561,7 +567,7 @@ levi::Expression ExpressionsServer::motionSubSpaceAsCrossProduct(iDynTree::Joint
 
 levi::Expression ExpressionsServer::motionSubSpaceAsCrossProductWrench(iDynTree::JointIndex joint, iDynTree::LinkIndex parentLink, iDynTree::LinkIndex childLink)
 {
-    std::string label = model().getJointName(joint) + std::to_string(parentLink) + std::to_string(childLink);
+    std::string label = std::to_string(parentLink) + "_" + std::to_string(childLink) + "_" + model().getJointName(joint);
     ExpressionMap::iterator element = m_pimpl->motionSubspacesWrenchMap.find(label);
 
     if (element != m_pimpl->motionSubspacesWrenchMap.end()) {
-- 
2.43.0


From 7d9fcd950aa16b07eca40ff10ebf730481056c41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:57 +0000
Subject: [PATCH 21/34] fix: quaternion error and momentum second derivative
 ignored the variable they were asked for

---
 src/private/ExpressionsServer.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/private/ExpressionsServer.cpp b/src/private/ExpressionsServer.cpp
index 68324d9..0e36515 100644
--- a/src/private/ExpressionsServer.cpp
+++ b/src/private/ExpressionsServer.cpp
@@ -506,13 +506,15 @@ levi::Expression ExpressionsServer::absoluteVelocityJointsDerivative(const std::
 
 levi::Expression ExpressionsServer::quaternionError(const std::string &desiredFrame, const levi::Variable &desiredQuaternion)
 {
-    ExpressionMap::iterator element = m_pimpl->quaternionsErrorsMap.find(desiredFrame);
+    std::string label = Implementation::pairLabel(desiredFrame, desiredQuaternion.name());
+
+    ExpressionMap::iterator element = m_pimpl->quaternionsErrorsMap.find(label);
 
     if (element != m_pimpl->quaternionsErrorsMap.end()) {
         return (element->second);
     } else {
         std::pair<std::string, levi::Expression> newElement;
-        newElement.first = desiredFrame;
+        newElement.first = label;
         newElement.second = QuaternionError(desiredFrame, this, desiredQuaternion);
         auto result = m_pimpl->quaternionsErrorsMap.insert(newElement);
         assert(result.second);
@@ -631,7 +633,7 @@ levi::Expression ExpressionsServer::compositeRigidBodyInertia()
 
 levi::Expression ExpressionsServer::momentumInBaseJointsDoubleDerivative(const levi::Variable &baseTwist, long column)
 {
-    std::string label = std::to_string(column);
+    std::string label = Implementation::pairLabel(std::to_string(column), baseTwist.name());
 
     ExpressionMap::iterator element = m_pimpl->momentumDoubleDerivativeMap.find(label);
 
-- 
2.43.0


From d9845ea887f13ee32f77bdad1534257491ef3720 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:31 +0000
Subject: [PATCH 22/34] fix: the solver uses the floating base and the gravity
 of its settings

---
 src/Solver.cpp                       | 9 +++++++++
 src/private/DynamicalConstraints.cpp | 2 +-
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/Solver.cpp b/src/Solver.cpp
index 1356e7a..82315de 100644
--- a/src/Solver.cpp
+++ b/src/Solver.cpp
@@ -1440,6 +1440,15 @@ bool Solver::specifySettings(const Settings &settings)
         return false;
     }
 
+    ok = m_pimpl->timelySharedKinDyn->setFloatingBase(st.floatingBaseName);
+
+    if (!ok) {
+        std::cerr << "[ERROR][Solver::specifySettings] Failed to set the floating base." << std::endl;
+        return false;
+    }
+
+    m_pimpl->timelySharedKinDyn->setGravity(st.gravity);
+
     m_pimpl->expressionsServer = std::make_shared<ExpressionsServer>(m_pimpl->timelySharedKinDyn);
 
     HyperbolicTangent velocityActivationXY;
diff --git a/src/private/DynamicalConstraints.cpp b/src/private/DynamicalConstraints.cpp
index 534e56d..ef37767 100644
--- a/src/private/DynamicalConstraints.cpp
+++ b/src/private/DynamicalConstraints.cpp
@@ -350,7 +350,7 @@ DynamicalConstraints::DynamicalConstraints(const VariablesLabeller &stateVariabl
 
 
     m_pimpl->gravityVector.zero();
-    m_pimpl->gravityVector(2) = -9.81;
+    iDynTree::toEigen(m_pimpl->gravityVector).topRows<3>() = iDynTree::toEigen(timelySharedKinDyn->gravity());
 
 //    m_pimpl->stateJacobianBuffer.resize(static_cast<unsigned int>(stateVariables.size()), static_cast<unsigned int>(stateVariables.size()));
 //    m_pimpl->stateJacobianBuffer.zero();
-- 
2.43.0


From 993d510449aa2fa15f929b510ce78f53b87bdf8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:31 +0000
Subject: [PATCH 23/34] fix: weigh the force ratio cost with its own weight

---
 src/Solver.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Solver.cpp b/src/Solver.cpp
index 82315de..ff83c84 100644
--- a/src/Solver.cpp
+++ b/src/Solver.cpp
@@ -464,7 +464,7 @@ public:
             for (size_t i = 0; i < st.leftPointsPosition.size(); ++i) {
                 costs.leftForceRatios[i] = std::make_shared<ForceRatioCost>(stateStructure, controlStructure, "Left", i);
                 costs.leftForceRatios[i]->setDesiredRatio(st.desiredLeftRatios[i]);
-                ok = ocProblem->addLagrangeTerm(st.forceMeanCostOverallWeight, costs.leftForceRatios[i]);
+                ok = ocProblem->addLagrangeTerm(st.forceRatioCostOverallWeight, costs.leftForceRatios[i]);
                 if (!ok) {
                     return false;
                 }
@@ -473,7 +473,7 @@ public:
             for (size_t i = 0; i < st.rightPointsPosition.size(); ++i) {
                 costs.rightForceRatios[i] = std::make_shared<ForceRatioCost>(stateStructure, controlStructure, "Right", i);
                 costs.rightForceRatios[i]->setDesiredRatio(st.desiredRightRatios[i]);
-                ok = ocProblem->addLagrangeTerm(st.forceMeanCostOverallWeight, costs.rightForceRatios[i]);
+                ok = ocProblem->addLagrangeTerm(st.forceRatioCostOverallWeight, costs.rightForceRatios[i]);
                 if (!ok) {
                     return false;
                 }
-- 
2.43.0


From 184c95972e52847a99089fc0b531563b180ca8ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:27 +0000
Subject: [PATCH 24/34] fix: compute the variables bounds from the initial time
 and the infinity of the optimizer in use

---
 src/Solver.cpp | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/src/Solver.cpp b/src/Solver.cpp
index ff83c84..a3409a2 100644
--- a/src/Solver.cpp
+++ b/src/Solver.cpp
@@ -1215,24 +1215,26 @@ public:
             iDynTree::toEigen(segment(secondControlUpperBound, ranges.right.forceControlPoints[i])).setZero();
         }
 
+        double switchTime = initialState.time + st.horizon * st.activeControlPercentage;
+
         std::shared_ptr<VariableBound> variableStateLowerBounds;
         std::shared_ptr<VariableBound> variableStateUpperBounds;
         std::shared_ptr<VariableBound> variableControlLowerBounds;
         std::shared_ptr<VariableBound> variableControlUpperBounds;
 
         if (st.constrainTargetCoMPosition) {
-            variableStateLowerBounds = std::make_shared<VariableBound>(stateLowerBound, secondStateLowerBound, st.horizon * st.activeControlPercentage,
+            variableStateLowerBounds = std::make_shared<VariableBound>(stateLowerBound, secondStateLowerBound, switchTime,
                                                                        st.constrainTargetCoMPositionRange, ranges.comPosition, -1.0,
                                                                        st.desiredCoMTrajectory, st.targetCoMPositionTolerance);
-            variableStateUpperBounds = std::make_shared<VariableBound>(stateUpperBound, secondStateUpperBound, st.horizon * st.activeControlPercentage,
+            variableStateUpperBounds = std::make_shared<VariableBound>(stateUpperBound, secondStateUpperBound, switchTime,
                                                                        st.constrainTargetCoMPositionRange, ranges.comPosition, +1.0,
                                                                        st.desiredCoMTrajectory, st.targetCoMPositionTolerance);
         } else {
-            variableStateLowerBounds = std::make_shared<VariableBound>(stateLowerBound, secondStateLowerBound, st.horizon * st.activeControlPercentage);
-            variableStateUpperBounds = std::make_shared<VariableBound>(stateUpperBound, secondStateUpperBound, st.horizon * st.activeControlPercentage);
+            variableStateLowerBounds = std::make_shared<VariableBound>(stateLowerBound, secondStateLowerBound, switchTime);
+            variableStateUpperBounds = std::make_shared<VariableBound>(stateUpperBound, secondStateUpperBound, switchTime);
         }
-        variableControlLowerBounds = std::make_shared<VariableBound>(controlLowerBound, secondControlLowerBound, st.horizon * st.activeControlPercentage);
-        variableControlUpperBounds = std::make_shared<VariableBound>(controlUpperBound, secondControlUpperBound, st.horizon * st.activeControlPercentage);
+        variableControlLowerBounds = std::make_shared<VariableBound>(controlLowerBound, secondControlLowerBound, switchTime);
+        variableControlUpperBounds = std::make_shared<VariableBound>(controlUpperBound, secondControlUpperBound, switchTime);
 
         bool ok = ocProblem->setStateBoxConstraints(variableStateLowerBounds, variableStateUpperBounds);
         if (!ok) {
@@ -1718,6 +1720,13 @@ bool Solver::solve(std::vector<State> &optimalStates, std::vector<Control> &opti
         return false;
     }
 
+    ok = m_pimpl->setBounds(m_pimpl->settings); //the bounds depend on the initial time and on the values the optimizer uses for infinity
+
+    if (!ok) {
+        std::cerr << "[ERROR][Solver::solve] Failed to set the variables bounds." << std::endl;
+        return false;
+    }
+
     if (m_pimpl->stateGuess && m_pimpl->controlGuess) {
         ok = m_pimpl->multipleShootingSolver->setGuesses(m_pimpl->stateGuess, m_pimpl->controlGuess);
         if (!ok) {
-- 
2.43.0


From a80f16678c6e611547570bc87eb83cb17446a154 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:21 +0000
Subject: [PATCH 25/34] fix: the default initial state carries the weight given
 by the gravity of the settings

---
 src/Utilities.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Utilities.cpp b/src/Utilities.cpp
index 2c1199c..f8e8107 100644
--- a/src/Utilities.cpp
+++ b/src/Utilities.cpp
@@ -75,7 +75,7 @@ bool FillDefaultInitialState(const Settings &inputSettings, const iDynTree::Vect
         totalMass += model.getLink(static_cast<iDynTree::LinkIndex>(l))->getInertia().getMass();
     }
 
-    double normalForce = totalMass * 9.81;
+    double normalForce = -totalMass * settings.gravity(2);
 
     for (size_t i = 0; i < settings.leftPointsPosition.size(); ++i) {
         initialState.leftContactPointsState[i].pointPosition = leftTransform * settings.leftPointsPosition[i];
-- 
2.43.0


From 7ed8c12db035360a536200f7d1edba113bbce4f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:53 +0000
Subject: [PATCH 26/34] fix: size the kept solution for the problem last
 specified

---
 src/Solver.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/Solver.cpp b/src/Solver.cpp
index a3409a2..ed870c3 100644
--- a/src/Solver.cpp
+++ b/src/Solver.cpp
@@ -1251,11 +1251,11 @@ public:
 
     void resizeSolutionVector(size_t numberOfDofs, size_t numberOfPoints) {
 
-        unstructuredOptimalStates.resize(stateTimings.size(), iDynTree::VectorDynSize(static_cast<unsigned int>(stateStructure.size())));
-        unstructuredOptimalControl.resize(controlTimings.size(), iDynTree::VectorDynSize(static_cast<unsigned int>(controlStructure.size())));
+        unstructuredOptimalStates.assign(stateTimings.size(), iDynTree::VectorDynSize(static_cast<unsigned int>(stateStructure.size())));
+        unstructuredOptimalControl.assign(controlTimings.size(), iDynTree::VectorDynSize(static_cast<unsigned int>(controlStructure.size())));
 
-        optimalStates.resize(stateTimings.size(), State(numberOfDofs, numberOfPoints));
-        optimalControls.resize(controlTimings.size(), Control(numberOfDofs, numberOfPoints));
+        optimalStates.assign(stateTimings.size(), State(numberOfDofs, numberOfPoints));
+        optimalControls.assign(controlTimings.size(), Control(numberOfDofs, numberOfPoints));
     }
 
 
-- 
2.43.0


From e8d20c81df9b6734ed1326dd96bbc94e04895605 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:42 +0000
Subject: [PATCH 27/34] fix: use valid class names for compiled expressions

---
 extern/levi/include/levi/AutogeneratedHelper.h | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/extern/levi/include/levi/AutogeneratedHelper.h b/extern/levi/include/levi/AutogeneratedHelper.h
index da6a03f..233a7cf 100644
--- a/extern/levi/include/levi/AutogeneratedHelper.h
+++ b/extern/levi/include/levi/AutogeneratedHelper.h
@@ -552,13 +552,15 @@ public:
         m_cleanName = name;
 
         for (char& letter : m_cleanName) {
-            if (letter == ' ') {
-                letter = '_';
-            } else if (!(((letter >= 'a') && (letter <= 'z')) || ((letter >= 'A') && (letter <= 'Z')) || ((letter >= '0') && (letter <= '9')))) {
-                letter = '-';
+            if (!(((letter >= 'a') && (letter <= 'z')) || ((letter >= 'A') && (letter <= 'Z')) || ((letter >= '0') && (letter <= '9')))) {
+                letter = '_'; //the name is used as a class name
             }
         }
 
+        if (m_cleanName.empty() || (m_cleanName[0] >= '0' && m_cleanName[0] <= '9')) {
+            m_cleanName.insert(0, "_");
+        }
+
         for (size_t generic : m_generics) {
             m_genericsRefs.emplace_back(m_expandedExpression[generic].buffer);
         }
-- 
2.43.0


From b53c12f7d58ae34b35afcf5a6854284de5f43253 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:42 +0000
Subject: [PATCH 28/34] fix: keep the nesting of products, divisions and
 negations in compiled expressions

---
 extern/levi/include/levi/AutogeneratedHelper.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/extern/levi/include/levi/AutogeneratedHelper.h b/extern/levi/include/levi/AutogeneratedHelper.h
index 233a7cf..7673c5b 100644
--- a/extern/levi/include/levi/AutogeneratedHelper.h
+++ b/extern/levi/include/levi/AutogeneratedHelper.h
@@ -178,21 +178,21 @@ private:
 
         } else if (type == Type::Product) {
 
-            literalSubExpr.literal = lhs.literal + " * " + rhs.literal;
+            literalSubExpr.literal = "(" + lhs.literal + " * " + rhs.literal + ")";
             literalSubExpr.isScalar = (lhs.isScalar && rhs.isScalar);
             literalSubExpr.isSimple = false;
 
 
         } else if (type == Type::Division) {
 
-            literalSubExpr.literal = lhs.literal + " / " + rhs.literal;
+            literalSubExpr.literal = "(" + lhs.literal + " / " + rhs.literal + ")";
             literalSubExpr.isScalar = lhs.isScalar;
             literalSubExpr.isSimple = false;
 
 
         } else if (type == Type::InvertedSign) {
 
-            literalSubExpr.literal = "-" + lhs.literal;
+            literalSubExpr.literal = "(-" + lhs.literal + ")";
             literalSubExpr.isScalar = lhs.isScalar;
             literalSubExpr.isSimple = false;
 
-- 
2.43.0


From 75825280f2126d1891392f3a39ab1a51ff4fd747 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:42 +0000
Subject: [PATCH 29/34] fix: allow selecting from 1x1 subexpressions in
 compiled expressions

---
 extern/levi/include/levi/AutogeneratedHelper.h | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/extern/levi/include/levi/AutogeneratedHelper.h b/extern/levi/include/levi/AutogeneratedHelper.h
index 7673c5b..a388b0a 100644
--- a/extern/levi/include/levi/AutogeneratedHelper.h
+++ b/extern/levi/include/levi/AutogeneratedHelper.h
@@ -204,6 +204,13 @@ private:
             literalSubExpr.isSimple = false;
 
 
+        } else if (lhs.isScalar && (type == Type::Transpose || type == Type::Row || type == Type::Column ||
+                                    type == Type::Element || type == Type::Block)) { //the whole 1x1 object is selected
+
+            literalSubExpr.literal = lhs.literal;
+            literalSubExpr.isScalar = true;
+            literalSubExpr.isSimple = lhs.isSimple;
+
         } else if (type == Type::Transpose) {
 
             assert(!lhs.isScalar);
-- 
2.43.0


From d90014f348bb3d0736ea51958f3bbd04d8a9e545 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:04 +0000
Subject: [PATCH 30/34] fix: keep all the digits of the exponents in compiled
 expressions

---
 extern/levi/include/levi/AutogeneratedHelper.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/extern/levi/include/levi/AutogeneratedHelper.h b/extern/levi/include/levi/AutogeneratedHelper.h
index a388b0a..a766cc0 100644
--- a/extern/levi/include/levi/AutogeneratedHelper.h
+++ b/extern/levi/include/levi/AutogeneratedHelper.h
@@ -20,6 +20,8 @@
 
 #include <ostream>
 #include <cstdlib>
+#include <limits>
+#include <sstream>
 
 #include <fstream>
 
@@ -199,7 +201,10 @@ private:
 
         } else if (type == Type::Pow) {
 
-            literalSubExpr.literal = "std::pow(" + lhs.literal +", " + std::to_string(subExpr.exponent) + ")";
+            std::ostringstream exponent;
+            exponent.precision(std::numeric_limits<typename EvaluableT::value_type>::max_digits10); //all the digits are needed to get back the same exponent
+            exponent << subExpr.exponent;
+            literalSubExpr.literal = "std::pow(" + lhs.literal +", " + exponent.str() + ")";
             literalSubExpr.isScalar = true;
             literalSubExpr.isSimple = false;
 
-- 
2.43.0


From 068082ca21623c2a362ade37f88134f9f62aa357 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:45:35 +0000
Subject: [PATCH 31/34] fix: save the whole animation when no end time is given
 and stop at the end time otherwise

---
 src/Visualizer.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Visualizer.cpp b/src/Visualizer.cpp
index e4018bb..6f2191b 100644
--- a/src/Visualizer.cpp
+++ b/src/Visualizer.cpp
@@ -191,7 +191,7 @@ bool Visualizer::visualizeStatesAndSaveAnimation(const std::vector<State> &state
 
     size_t i = 0;
 
-    while (i < states.size() && (!(endTime < 0) || (states[i].time <= endTime))) {
+    while (i < states.size() && ((endTime < 0) || (states[i].time <= endTime))) {
 
         std::chrono::steady_clock::time_point begin = std::chrono::steady_clock::now();
         visualizeState(states[i]);
@@ -301,7 +301,7 @@ bool Visualizer::visualizeMPCStatesAndSaveAnimation(const std::vector<State> &st
 
     DynamicalPlanner::State initialState = states.front();
 
-    while (stateIndex < states.size() && fullStateIndex < fullStates.size() && (!(endTime < 0) || (states[stateIndex].time <= endTime))) {
+    while (stateIndex < states.size() && fullStateIndex < fullStates.size() && ((endTime < 0) || (states[stateIndex].time <= endTime))) {
         for (size_t i = 0; i < fullStates[fullStateIndex].size(); ++i)
         {
             speeduplabel.setVisible(false);
-- 
2.43.0


From d91dee27f282fae40084235b3276daa580b3c4ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:46:03 +0000
Subject: [PATCH 32/34] fix: count all the images of a receding horizon
 animation when choosing the digits of their names

---
 src/Visualizer.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/Visualizer.cpp b/src/Visualizer.cpp
index 6f2191b..77a42bd 100644
--- a/src/Visualizer.cpp
+++ b/src/Visualizer.cpp
@@ -286,7 +286,10 @@ bool Visualizer::visualizeMPCStatesAndSaveAnimation(const std::vector<State> &st
     }
 
     unsigned int statesIncrement = (states.size() - 1) / fullStates.size(); //The first state is the initial one
-    unsigned int numberOfFrames = fullStates.size() * (fullStates.front().size() + (statesIncrement - 1));
+    size_t numberOfFrames = fullStates.size() * statesIncrement;
+    for (const std::vector<State>& fullState : fullStates) {
+        numberOfFrames += fullState.size();
+    }
 
     unsigned int digits = static_cast<unsigned int>(std::floor(std::log10(numberOfFrames) + 1));
 
-- 
2.43.0


From 558589350183f2deaad2096390e6eafccdcf5085 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:46:03 +0000
Subject: [PATCH 33/34] fix: use again the whole images after a receding
 horizon animation

---
 src/Visualizer.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/Visualizer.cpp b/src/Visualizer.cpp
index 77a42bd..96702fe 100644
--- a/src/Visualizer.cpp
+++ b/src/Visualizer.cpp
@@ -359,6 +359,8 @@ bool Visualizer::visualizeMPCStatesAndSaveAnimation(const std::vector<State> &st
 
     speeduplabel.setVisible(false);
 
+    m_pimpl->textureForScreenshots->setSubDrawArea(0, 0, m_pimpl->textureForScreenshots->width(), m_pimpl->textureForScreenshots->height());
+
     m_pimpl->viz.camera().setPosition(m_pimpl->defaultCameraPosition);
 
     m_pimpl->viz.camera().setTarget(m_pimpl->defaultCameraTarget);
-- 
2.43.0


From 773317abc8eabf59f137430199c7a3dd2b93d957 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:46:03 +0000
Subject: [PATCH 34/34] fix: hide the forces left from a state with more
 contact points

---
 src/Visualizer.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/Visualizer.cpp b/src/Visualizer.cpp
index 96702fe..88d6394 100644
--- a/src/Visualizer.cpp
+++ b/src/Visualizer.cpp
@@ -56,6 +56,12 @@ public:
             }
             vectorIndex++;
         }
+
+        iDynTree::Vector3 noForce;
+        noForce.zero();
+        for (; vectorIndex < forcesViz.getNrOfVectors(); ++vectorIndex) { //Forces left from a state with more contact points
+            forcesViz.updateVector(vectorIndex, iDynTree::Position::Zero(), noForce);
+        }
     }
 };
 
-- 
2.43.0

