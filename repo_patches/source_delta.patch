From 128e70d577ddb132d5b0eaa83312f4e3319f5123 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:35 +0000
Subject: [PATCH 001/136] fix: placing a robot by one of its nodes honours the
 robot's orientation

getGlobalPositionForRobotNode dropped the robot's rotation, and getGlobalPoseForRobotNode
took the position-only shortcut whenever the requested node orientation was the identity,
regardless of the node's current orientation.
---
 VirtualRobot/Robot.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/VirtualRobot/Robot.cpp b/VirtualRobot/Robot.cpp
index b8e226a..6c87603 100644
--- a/VirtualRobot/Robot.cpp
+++ b/VirtualRobot/Robot.cpp
@@ -831,8 +831,9 @@ namespace VirtualRobot
     {
         THROW_VR_EXCEPTION_IF(!node, "NULL node");
         
-        if (math::Helpers::Orientation(globalPoseNode).isIdentity())
+        if (math::Helpers::Orientation(globalPoseNode).isApprox(math::Helpers::Orientation(node->getGlobalPose())))
         {
+            // the node is already oriented as requested:
             // set position to avoid accumulating rounding errors when using rotation
             return getGlobalPositionForRobotNode(node, math::Helpers::Position(globalPoseNode));
         }
@@ -867,7 +868,7 @@ namespace VirtualRobot
         // apply translation to current global position of robot
         const Eigen::Vector3f robotPosition = getGlobalPosition() + translation;
         
-        return math::Helpers::Pose(robotPosition);
+        return math::Helpers::Pose(robotPosition, getGlobalOrientation());
     }
     
     void Robot::setGlobalPositionForRobotNode(
-- 
2.43.0


From b660d64a39abddde4487efe5778d94fec60f6106 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:32 +0000
Subject: [PATCH 002/136] fix: define the declared MathTools::quat2eigen3f

The definition lacked the namespace qualifier, so every use of the declared function failed to link.
---
 VirtualRobot/MathTools.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/VirtualRobot/MathTools.cpp b/VirtualRobot/MathTools.cpp
index 8fe6837..40d4cd9 100644
--- a/VirtualRobot/MathTools.cpp
+++ b/VirtualRobot/MathTools.cpp
@@ -757,7 +757,7 @@ namespace VirtualRobot
     }
 
 
-    Eigen::Matrix3f VIRTUAL_ROBOT_IMPORT_EXPORT quat2eigen3f(float qx, float qy, float qz, float qw)
+    Eigen::Matrix3f VIRTUAL_ROBOT_IMPORT_EXPORT MathTools::quat2eigen3f(float qx, float qy, float qz, float qw)
     {
         return Eigen::Quaternionf{qw, qx, qy, qz}.toRotationMatrix();
     }
-- 
2.43.0


From f6f1d3a1a4f1a059674f8d2eaa6404b812dd852c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:32 +0000
Subject: [PATCH 003/136] fix: slerp returns the interpolated quaternion, not a
 component mix

---
 VirtualRobot/MathTools.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/VirtualRobot/MathTools.cpp b/VirtualRobot/MathTools.cpp
index 40d4cd9..9777fab 100644
--- a/VirtualRobot/MathTools.cpp
+++ b/VirtualRobot/MathTools.cpp
@@ -1541,8 +1541,8 @@ namespace VirtualRobot
         Eigen::Quaternion<float> eq = eq1.slerp(alpha, eq2);
         MathTools::Quaternion res;
         res.x = eq.x();
-        res.y = eq.z();
-        res.z = eq.x();
+        res.y = eq.y();
+        res.z = eq.z();
         res.w = eq.w();
         return res;
     }
-- 
2.43.0


From 1b607c638956d2cd50b4de84a584106dcf89fe95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:32 +0000
Subject: [PATCH 004/136] fix: roll-pitch-yaw extraction stays accurate near
 the gimbal lock

---
 VirtualRobot/MathTools.cpp | 21 +++++----------------
 1 file changed, 5 insertions(+), 16 deletions(-)

diff --git a/VirtualRobot/MathTools.cpp b/VirtualRobot/MathTools.cpp
index 9777fab..64a11e6 100644
--- a/VirtualRobot/MathTools.cpp
+++ b/VirtualRobot/MathTools.cpp
@@ -201,22 +201,11 @@ namespace VirtualRobot
         float alpha, beta, gamma;
         beta = std::atan2(-m(2, 0), sqrtf(m(0, 0) * m(0, 0) + m(1, 0) * m(1, 0)));
 
-        if (std::abs(beta - M_PIf * 0.5f) < 1e-10f)
-        {
-            alpha = 0;
-            gamma = std::atan2(m(0, 1), m(1, 1));
-        }
-        else if (std::abs(beta + M_PIf * 0.5f) < 1e-10f)
-        {
-            alpha = 0;
-            gamma = - std::atan2(m(0, 1), m(1, 1));
-        }
-        else
-        {
-            float cb = 1.0f / cosf(beta);
-            alpha = std::atan2(m(1, 0) * cb, m(0, 0) * cb);
-            gamma = std::atan2(m(2, 1) * cb, m(2, 2) * cb);
-        }
+        // gamma is computed relative to alpha: near beta = +-pi/2 only their combination is determined
+        alpha = std::atan2(m(1, 0), m(0, 0));
+        const float sa = sinf(alpha);
+        const float ca = cosf(alpha);
+        gamma = std::atan2(sa * m(0, 2) - ca * m(1, 2), ca * m(1, 1) - sa * m(0, 1));
 
         x[0] = m(0, 3);
         x[1] = m(1, 3);
-- 
2.43.0


From 015a5fdda4bdefd2e5ee43eae360389635a9ffcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:32 +0000
Subject: [PATCH 005/136] fix: projectPointToPlane2D is the inverse of
 planePoint3D

---
 VirtualRobot/MathTools.cpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/VirtualRobot/MathTools.cpp b/VirtualRobot/MathTools.cpp
index 64a11e6..51d8943 100644
--- a/VirtualRobot/MathTools.cpp
+++ b/VirtualRobot/MathTools.cpp
@@ -688,9 +688,7 @@ namespace VirtualRobot
         Quaternion quat = getRotation(plane.n, normalUp);
 
         Eigen::Matrix4f rotationMatrix = quat2eigen4f(quat);
-        rotationMatrix(0, 3) = -plane.p(0);
-        rotationMatrix(1, 3) = -plane.p(1);
-        rotationMatrix(2, 3) = -plane.p(2);
+        ptPlane -= plane.p;
 
         // transform point
         Eigen::Vector4f pt4(ptPlane(0), ptPlane(1), ptPlane(2), 1.0f);
-- 
2.43.0


From eef8b936bfa968edb9d12a477136c1cc619dafdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:32 +0000
Subject: [PATCH 006/136] fix: GramSchmidt normalises every vector and accepts
 any dimension

---
 VirtualRobot/MathTools.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/VirtualRobot/MathTools.cpp b/VirtualRobot/MathTools.cpp
index 51d8943..1bb84be 100644
--- a/VirtualRobot/MathTools.cpp
+++ b/VirtualRobot/MathTools.cpp
@@ -1114,8 +1114,12 @@ namespace VirtualRobot
 
         // check with which basis vector we must start
 
-        // norm the first vector
-        basis[0].normalize();
+        // norm the vectors
+        for (size_t i = 0; i < dim; i++)
+        {
+            basis[i].normalize();
+        }
+
         std::size_t startWith = 0;
 		size_t pos = 1;
 
@@ -1146,7 +1150,7 @@ namespace VirtualRobot
         for (size_t i = startWith; i < dim; i++) // each basis vector
         {
             // store original vector
-            Eigen::Vector3f tmp = basis[i];
+            Eigen::VectorXf tmp = basis[i];
 
             for (size_t j = 0; j < i; j++) // subtract scalar products of former basises
             {
-- 
2.43.0


From 8a45323ed1e86b28e1acac613b95ea70f99ba0d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:32 +0000
Subject: [PATCH 007/136] fix: nearest point on a segment of zero length

---
 VirtualRobot/MathTools.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/VirtualRobot/MathTools.h b/VirtualRobot/MathTools.h
index 0a41d8c..9aa166e 100644
--- a/VirtualRobot/MathTools.h
+++ b/VirtualRobot/MathTools.h
@@ -524,6 +524,12 @@ namespace VirtualRobot
         inline VectorT nearestPointOnSegment(const VectorT& firstEndPoint, const VectorT& secondEndPoint, const VectorT& p)
         {
             VectorT direction = secondEndPoint - firstEndPoint;
+
+            if (direction.norm() <= 0)
+            {
+                return firstEndPoint;
+            }
+
             direction /= direction.norm();
             const BaseLine<VectorT> l(firstEndPoint, direction);
             VR_ASSERT(l.isValid());
-- 
2.43.0


From da7f64387d49d65963d40c38be682cd06298b33f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:32 +0000
Subject: [PATCH 008/136] fix: LimitVectorLength shortens the vector

---
 VirtualRobot/math/Helpers.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/VirtualRobot/math/Helpers.cpp b/VirtualRobot/math/Helpers.cpp
index 59a264a..64b2d9d 100644
--- a/VirtualRobot/math/Helpers.cpp
+++ b/VirtualRobot/math/Helpers.cpp
@@ -343,7 +343,7 @@ Eigen::VectorXf Helpers::LimitVectorLength(const Eigen::VectorXf& vec, const Eig
             scale = std::min(scale, maxLen(j) / std::abs(vec(i)));
         }
     }
-    return vec / scale;
+    return vec * scale;
 }
 
 Eigen::AngleAxisf Helpers::GetAngleAxisFromTo(const Eigen::Matrix3f& start, const Eigen::Matrix3f& target)
-- 
2.43.0


From c31092ec0f3c8a32b7a39ae596953c2bc14833b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:32 +0000
Subject: [PATCH 009/136] fix: signed distance of an implicit plane

---
 VirtualRobot/math/ImplicitPlane.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/VirtualRobot/math/ImplicitPlane.cpp b/VirtualRobot/math/ImplicitPlane.cpp
index 34890df..888bbf2 100644
--- a/VirtualRobot/math/ImplicitPlane.cpp
+++ b/VirtualRobot/math/ImplicitPlane.cpp
@@ -68,7 +68,7 @@ ImplicitPlane ImplicitPlane::FromContact(Contact c)
 
 float ImplicitPlane::GetSignedDistance(const Eigen::Vector3f &p)
 {
-    return GetNormal().dot(p) + d;
+    return GetNormal().dot(p) - d;
 }
 
 Line ImplicitPlane::Intersect(Plane plane)
-- 
2.43.0


From 74272dc9dfe1d4f49861832327f865b53b094fe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:32 +0000
Subject: [PATCH 010/136] fix: LinearInterpolatedOrientation reaches its end
 orientation

---
 VirtualRobot/math/LinearInterpolatedOrientation.cpp | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/VirtualRobot/math/LinearInterpolatedOrientation.cpp b/VirtualRobot/math/LinearInterpolatedOrientation.cpp
index ffea50c..d322ef4 100644
--- a/VirtualRobot/math/LinearInterpolatedOrientation.cpp
+++ b/VirtualRobot/math/LinearInterpolatedOrientation.cpp
@@ -45,10 +45,6 @@ LinearInterpolatedOrientation::LinearInterpolatedOrientation(const Eigen::Matrix
 
 Eigen::Quaternionf math::LinearInterpolatedOrientation::Get(float t)
 {
-    if(derivative.squaredNorm() < 0.001)
-    {
-        return startOri;
-    }
     float f = Helpers::ILerp(startT, endT, t);
     //std::cout << "before clamp: " << f << std::endl;
     if(clamp)
-- 
2.43.0


From 8071d68e7a8c3fe0016ef2726ab2f966ca2eac6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:42 +0000
Subject: [PATCH 011/136] fix: area of a degenerate triangle

---
 VirtualRobot/MathTools.cpp | 17 ++---------------
 1 file changed, 2 insertions(+), 15 deletions(-)

diff --git a/VirtualRobot/MathTools.cpp b/VirtualRobot/MathTools.cpp
index 1bb84be..250adad 100644
--- a/VirtualRobot/MathTools.cpp
+++ b/VirtualRobot/MathTools.cpp
@@ -2108,21 +2108,8 @@ namespace VirtualRobot
         Eigen::Vector3f ab = b - a;
         Eigen::Vector3f ac = c - a;
         
-        float abNorm = ab.norm();
-        float acNorm = ac.norm();
-        
-        if (abNorm <= 0 || acNorm <= 0) return 0;  // collapsed triangle
-        
-        // alpha := angle at a, i.e. between ab and ac
-        // => cos(alpha) = ab * ac
-        // => sin(alpha) = sqrt( 1 - cos(alpha)^2 )
-        float cos_alpha = (ab / abNorm).dot(ac / acNorm);
-        float sin_alpha = std::sqrt(1 - cos_alpha * cos_alpha);
-        
-        // area = 1/2 * sin(alpha) * |ab| * |ac|
-        // (where sin(alpha) * |ab| = distance of b to |ac|)
-        float area = 0.5f * sin_alpha * abNorm * acNorm;
-        return area;
+        // |ab x ac| is the area of the parallelogram spanned by the two edges
+        return 0.5f * ab.cross(ac).norm();
     }
 
 
-- 
2.43.0


From 18df1915ef0721af9499704b521b662a53a8b500 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:55 +0000
Subject: [PATCH 012/136] fix: anti-parallel planes do not intersect

---
 VirtualRobot/MathTools.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/VirtualRobot/MathTools.cpp b/VirtualRobot/MathTools.cpp
index 250adad..075be7d 100644
--- a/VirtualRobot/MathTools.cpp
+++ b/VirtualRobot/MathTools.cpp
@@ -1580,7 +1580,7 @@ namespace VirtualRobot
 
         float dotpr = p1.n.dot(p2.n);
 
-        if (std::abs(dotpr - 1.0f) < 1.e-6f)
+        if (std::abs(std::abs(dotpr) - 1.0f) < 1.e-6f)
         {
             // planes are parallel
             MathTools::Line l(Eigen::Vector3f(0, 0, 0), Eigen::Vector3f(0, 0, 0));
-- 
2.43.0


From 2e29c7e16d8ed7c7c9998af7e0b1e1892eaa334a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:57 +0000
Subject: [PATCH 013/136] fix: point collision queries honour the requested
 tolerance

---
 VirtualRobot/CollisionDetection/PQP/CollisionCheckerPQP.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/VirtualRobot/CollisionDetection/PQP/CollisionCheckerPQP.cpp b/VirtualRobot/CollisionDetection/PQP/CollisionCheckerPQP.cpp
index 23bd8cd..878ae15 100644
--- a/VirtualRobot/CollisionDetection/PQP/CollisionCheckerPQP.cpp
+++ b/VirtualRobot/CollisionDetection/PQP/CollisionCheckerPQP.cpp
@@ -132,7 +132,7 @@ namespace VirtualRobot
             pqpChecker->PQP_Tolerance(&result,
                                       R1, T1, m1.get(),
                                       R2, T2, pointModel.get(),
-                                      50);
+                                      tolerance);
 
 
 
-- 
2.43.0


From ecffae60b95968b7edc23995807785e6abba2266 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:57 +0000
Subject: [PATCH 014/136] fix: CDManager::addCollisionModel does not iterate
 over the list it extends

---
 VirtualRobot/CollisionDetection/CDManager.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/VirtualRobot/CollisionDetection/CDManager.cpp b/VirtualRobot/CollisionDetection/CDManager.cpp
index aa854b6..c319d15 100644
--- a/VirtualRobot/CollisionDetection/CDManager.cpp
+++ b/VirtualRobot/CollisionDetection/CDManager.cpp
@@ -38,7 +38,10 @@ namespace VirtualRobot
                 VR_WARNING << "CollisionModel of SceneObjectSet '" << m->getName() << "' is linked to a different instance of collision checker than this CollisionManager..." << endl;
             }
 
-            for (const auto & colModel : colModels)
+            // addCollisionModelPair() may extend colModels
+            const std::vector<SceneObjectSetPtr> otherModels = colModels;
+
+            for (const auto & colModel : otherModels)
             {
                 if (m != colModel)
                 {
-- 
2.43.0


From bf2d63f19289942da94a7b0d69caf04c50090aac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:57 +0000
Subject: [PATCH 015/136] fix: CDManager distance query with nearest points
 skips the queried set itself

---
 VirtualRobot/CollisionDetection/CDManager.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/VirtualRobot/CollisionDetection/CDManager.cpp b/VirtualRobot/CollisionDetection/CDManager.cpp
index c319d15..2080ce9 100644
--- a/VirtualRobot/CollisionDetection/CDManager.cpp
+++ b/VirtualRobot/CollisionDetection/CDManager.cpp
@@ -251,6 +251,11 @@ namespace VirtualRobot
 
         for (const auto & colModel : colModels)
         {
+            if (m == colModel)
+            {
+                continue;
+            }
+
             tmp = (float)colChecker->calculateDistance(m, colModel, _P1, _P2, &_trID1, &_trID2);
 
             if (tmp < minDist)
-- 
2.43.0


From 9f57775ca984531774f44435122d05674bb24453 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:54 +0000
Subject: [PATCH 016/136] fix: cloned joints keep their joint limit enforcement

---
 VirtualRobot/Nodes/RobotNode.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/VirtualRobot/Nodes/RobotNode.cpp b/VirtualRobot/Nodes/RobotNode.cpp
index 4287337..aa4dbf6 100644
--- a/VirtualRobot/Nodes/RobotNode.cpp
+++ b/VirtualRobot/Nodes/RobotNode.cpp
@@ -563,6 +563,7 @@ namespace VirtualRobot
         result->setMaxAcceleration(maxAcceleration);
         result->setMaxTorque(maxTorque);
         result->setLimitless(limitless);
+        result->setEnforceJointLimits(enforceJointLimits);
 
         std::map< std::string, float>::iterator it = propagatedJointValues.begin();
 
-- 
2.43.0


From 7bb4bd8a2af29698cbae851903017c70d1b8cf4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:54 +0000
Subject: [PATCH 017/136] fix: revolute joints save their offset and limitless
 state

---
 VirtualRobot/Nodes/RobotNodeRevolute.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/VirtualRobot/Nodes/RobotNodeRevolute.cpp b/VirtualRobot/Nodes/RobotNodeRevolute.cpp
index 4547b84..d2e3a16 100644
--- a/VirtualRobot/Nodes/RobotNodeRevolute.cpp
+++ b/VirtualRobot/Nodes/RobotNodeRevolute.cpp
@@ -215,9 +215,9 @@ namespace VirtualRobot
     std::string RobotNodeRevolute::_toXML(const std::string& /*modelPath*/)
     {
         std::stringstream ss;
-        ss << "\t\t<Joint type='revolute'>" << endl;
+        ss << "\t\t<Joint type='revolute' offset='" << jointValueOffset << "'>" << endl;
         ss << "\t\t\t<axis x='" << jointRotationAxis[0] << "' y='" << jointRotationAxis[1] << "' z='" << jointRotationAxis[2] << "'/>" << endl;
-        ss << "\t\t\t<limits lo='" << jointLimitLo << "' hi='" << jointLimitHi << "' units='radian'/>" << endl;
+        ss << "\t\t\t<limits lo='" << jointLimitLo << "' hi='" << jointLimitHi << "' units='radian'" << (limitless ? " limitless='true'" : "") << "/>" << endl;
         ss << "\t\t\t<MaxAcceleration value='" << maxAcceleration << "'/>" << endl;
         ss << "\t\t\t<MaxVelocity value='" << maxVelocity << "'/>" << endl;
         ss << "\t\t\t<MaxTorque value='" << maxTorque << "'/>" << endl;
-- 
2.43.0


From 7ea323a0879eeab4e1d9b290fc221b9d7d14432d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:54 +0000
Subject: [PATCH 018/136] fix: prismatic joints save their offset and limitless
 state

---
 VirtualRobot/Nodes/RobotNodePrismatic.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/VirtualRobot/Nodes/RobotNodePrismatic.cpp b/VirtualRobot/Nodes/RobotNodePrismatic.cpp
index b5b86fd..9197bf6 100644
--- a/VirtualRobot/Nodes/RobotNodePrismatic.cpp
+++ b/VirtualRobot/Nodes/RobotNodePrismatic.cpp
@@ -261,9 +261,9 @@ namespace VirtualRobot
     std::string RobotNodePrismatic::_toXML(const std::string& /*modelPath*/)
     {
         std::stringstream ss;
-        ss << "\t\t<Joint type='prismatic'>" << endl;
+        ss << "\t\t<Joint type='prismatic' offset='" << jointValueOffset << "'>" << endl;
         ss << "\t\t\t<translationdirection x='" << jointTranslationDirection[0] << "' y='" << jointTranslationDirection[1] << "' z='" << jointTranslationDirection[2] << "'/>" << endl;
-        ss << "\t\t\t<limits lo='" << jointLimitLo << "' hi='" << jointLimitHi << "' units='mm'/>" << endl;
+        ss << "\t\t\t<limits lo='" << jointLimitLo << "' hi='" << jointLimitHi << "' units='mm'" << (limitless ? " limitless='true'" : "") << "/>" << endl;
         ss << "\t\t\t<MaxAcceleration value='" << maxAcceleration << "'/>" << endl;
         ss << "\t\t\t<MaxVelocity value='" << maxVelocity << "'/>" << endl;
         ss << "\t\t\t<MaxTorque value='" << maxTorque << "'/>" << endl;
-- 
2.43.0


From 0b4a67a169b03159d8c78850f416529005badf95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:54 +0000
Subject: [PATCH 019/136] fix: a collision model is saved either as file or as
 primitives

---
 VirtualRobot/CollisionDetection/CollisionModel.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/VirtualRobot/CollisionDetection/CollisionModel.cpp b/VirtualRobot/CollisionDetection/CollisionModel.cpp
index 762d47d..4dd7f19 100644
--- a/VirtualRobot/CollisionDetection/CollisionModel.cpp
+++ b/VirtualRobot/CollisionDetection/CollisionModel.cpp
@@ -309,8 +309,7 @@ namespace VirtualRobot
                << tmpFilename
                << "</File>\n";
         }
-
-        if (visualization && visualization->primitives.size() != 0)
+        else if (visualization && visualization->primitives.size() != 0)
         {
             ss << pre << "\t<Primitives>\n";
             std::vector<Primitive::PrimitivePtr>::const_iterator it;
-- 
2.43.0


From c37550aff474d74e2f467e36c4744bc04869b7e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:54 +0000
Subject: [PATCH 020/136] fix: physics are saved with friction and ignored
 collisions

---
 VirtualRobot/SceneObject.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/VirtualRobot/SceneObject.cpp b/VirtualRobot/SceneObject.cpp
index 3e6ac76..8f6b08f 100644
--- a/VirtualRobot/SceneObject.cpp
+++ b/VirtualRobot/SceneObject.cpp
@@ -1378,7 +1378,7 @@ namespace VirtualRobot
 
     bool SceneObject::Physics::isSet()
     {
-        return (simType != eUnknown || massKg != 0.0f || comLocation != eVisuBBoxCenter || !inertiaMatrix.isIdentity() || ignoreCollisions.size() > 0);
+        return (simType != eUnknown || massKg != 0.0f || comLocation != eVisuBBoxCenter || !inertiaMatrix.isIdentity() || ignoreCollisions.size() > 0 || friction >= 0.0f);
     }
 
     std::string SceneObject::Physics::toXML(int tabs)
@@ -1414,9 +1414,14 @@ namespace VirtualRobot
         ss << MathTools::getTransformXMLString(inertiaMatrix, tabs + 2, true);
         ss << ta << "\t</InertiaMatrix>\n";
 
+        if (friction >= 0.0f)
+        {
+            ss << ta << "\t<Friction value='" << friction << "'/>\n";
+        }
+
         for (size_t i = 0; i < ignoreCollisions.size(); i++)
         {
-            ss << ta << "\t<IgnoreCollisions name='" << ignoreCollisions[i] << "'/>\n";
+            ss << ta << "\t<IgnoreCollision name='" << ignoreCollisions[i] << "'/>\n";
         }
 
         ss << ta << "</Physics>\n";
-- 
2.43.0


From b408f3a36c4975a446cf215d542590e939960771 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:54 +0000
Subject: [PATCH 021/136] fix: node sets are saved with their kinematic root
 and tcp

---
 VirtualRobot/RobotNodeSet.cpp | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/VirtualRobot/RobotNodeSet.cpp b/VirtualRobot/RobotNodeSet.cpp
index 38cc155..86077aa 100644
--- a/VirtualRobot/RobotNodeSet.cpp
+++ b/VirtualRobot/RobotNodeSet.cpp
@@ -770,7 +770,19 @@ namespace VirtualRobot
             pre += "\t";
         }
 
-        ss << pre << "<RobotNodeSet name='" << name << "'>\n";
+        ss << pre << "<RobotNodeSet name='" << name << "'";
+
+        if (kinematicRoot)
+        {
+            ss << " kinematicRoot='" << kinematicRoot->getName() << "'";
+        }
+
+        if (tcp)
+        {
+            ss << " tcp='" << tcp->getName() << "'";
+        }
+
+        ss << ">\n";
 
         for (auto & robotNode : robotNodes)
         {
-- 
2.43.0


From 2b4a08d643f529c1108160ac11bf7c8fae0ea978 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:54 +0000
Subject: [PATCH 022/136] fix: contact sensors are saved with their name

---
 VirtualRobot/Nodes/ContactSensor.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/VirtualRobot/Nodes/ContactSensor.cpp b/VirtualRobot/Nodes/ContactSensor.cpp
index 5f78e2a..77542d5 100644
--- a/VirtualRobot/Nodes/ContactSensor.cpp
+++ b/VirtualRobot/Nodes/ContactSensor.cpp
@@ -47,7 +47,7 @@ namespace VirtualRobot
             pre += t;
         }
 
-        ss << pre << "<Sensor type='" << ContactSensorFactory::getName() << "'/>" << endl;
+        ss << pre << "<Sensor type='" << ContactSensorFactory::getName() << "' name='" << name << "'/>" << endl;
         std::string pre2 = pre + t;
 
         return ss.str();
-- 
2.43.0


From ac64ebb2a6183565dd79d187c161f80300dc0551 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:54 +0000
Subject: [PATCH 023/136] fix: robots loaded in collision model mode get their
 visualization

---
 VirtualRobot/Robot.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/VirtualRobot/Robot.cpp b/VirtualRobot/Robot.cpp
index 6c87603..bb17e76 100644
--- a/VirtualRobot/Robot.cpp
+++ b/VirtualRobot/Robot.cpp
@@ -902,7 +902,7 @@ namespace VirtualRobot
         {
             RobotNodePtr rn = *iterator;
 
-            if (rn->getVisualization(SceneObject::Full) && rn->getVisualization(SceneObject::Collision))
+            if (!rn->getVisualization(SceneObject::Full) && rn->getVisualization(SceneObject::Collision))
             {
                 VisualizationNodePtr v = rn->getVisualization(SceneObject::Collision)->clone();
                 rn->setVisualization(v);
-- 
2.43.0


From 0c86910f36d494c488052fc3d6531c25673f54f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:24 +0000
Subject: [PATCH 024/136] fix: an end effector needs its static nodes

---
 VirtualRobot/EndEffector/EndEffector.cpp | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/VirtualRobot/EndEffector/EndEffector.cpp b/VirtualRobot/EndEffector/EndEffector.cpp
index b2b45c6..0fb9fdd 100644
--- a/VirtualRobot/EndEffector/EndEffector.cpp
+++ b/VirtualRobot/EndEffector/EndEffector.cpp
@@ -497,6 +497,21 @@ namespace VirtualRobot
             }
         }
 
+        for (const auto & staticNode : statics)
+        {
+            bool found = false;
+
+            for (const auto & node : nodes)
+            {
+                found = found || node->getName() == staticNode->getName();
+            }
+
+            if (!found)
+            {
+                return false;
+            }
+        }
+
         return true;
     }
 
-- 
2.43.0


From f430fe3ace4573c7ad886230c2ebaed198d99204 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:24 +0000
Subject: [PATCH 025/136] fix: the range of limitless joints is compared with a
 tolerance

---
 VirtualRobot/XML/RobotIO.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/VirtualRobot/XML/RobotIO.cpp b/VirtualRobot/XML/RobotIO.cpp
index 825ce02..13e550c 100644
--- a/VirtualRobot/XML/RobotIO.cpp
+++ b/VirtualRobot/XML/RobotIO.cpp
@@ -155,7 +155,7 @@ namespace VirtualRobot
         if (llAttr != nullptr)
         {
             limitless = isTrue(llAttr->value());
-            if (limitless && unit.isAngle() && (unit.toDegree(jointLimitHi) - unit.toDegree(jointLimitLo) != 360))
+            if (limitless && unit.isAngle() && std::abs(unit.toDegree(jointLimitHi) - unit.toDegree(jointLimitLo) - 360.0f) > 0.01f)
             {
                 VR_WARNING << "Limitless Joint: Angular distance between 'lo' and 'hi' attributes should equal 2*pi [rad] or 360 [deg]." << endl
                            << "Setting 'lo' to -pi and 'hi' to pi [rad]..." << endl;
-- 
2.43.0


From 3dfe42cb38d53c7f033d2556946c5304ae5727e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:12 +0000
Subject: [PATCH 026/136] fix: DifferentialIK error queries without tcp resolve
 the default tcp before looking up its mode

---
 VirtualRobot/IK/DifferentialIK.cpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/VirtualRobot/IK/DifferentialIK.cpp b/VirtualRobot/IK/DifferentialIK.cpp
index 4cb382d..69129da 100644
--- a/VirtualRobot/IK/DifferentialIK.cpp
+++ b/VirtualRobot/IK/DifferentialIK.cpp
@@ -767,14 +767,14 @@ namespace VirtualRobot
 
     float DifferentialIK::getErrorPosition(SceneObjectPtr tcp)
     {
-        if (modes[tcp] == IKSolver::Orientation)
+        if (!tcp)
         {
-            return 0.0f;    // ignoring position
+            tcp = getDefaultTCP();
         }
 
-        if (!tcp)
+        if (modes[tcp] == IKSolver::Orientation)
         {
-            tcp = getDefaultTCP();
+            return 0.0f;    // ignoring position
         }
 
         Vector3f position = targets[tcp].block(0, 3, 3, 1) - tcp->getGlobalPose().block(0, 3, 3, 1);
@@ -800,14 +800,14 @@ namespace VirtualRobot
 
     float DifferentialIK::getErrorRotation(SceneObjectPtr tcp)
     {
-        if (!(modes[tcp] & IKSolver::Orientation))
+        if (!tcp)
         {
-            return 0.0f;    // no error in this dimensions
+            tcp = getDefaultTCP();
         }
 
-        if (!tcp)
+        if (!(modes[tcp] & IKSolver::Orientation))
         {
-            tcp = getDefaultTCP();
+            return 0.0f;    // no error in this dimensions
         }
 
         Matrix4f orientation = this->targets[tcp] * tcp->getGlobalPose().inverse();
-- 
2.43.0


From 4c9942c08d1e4e4f4518364ad833296bc43471fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:12 +0000
Subject: [PATCH 027/136] fix: PositionConstraint compares the magnitude of a
 single-axis error with the tolerance

---
 VirtualRobot/IK/constraints/PositionConstraint.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/VirtualRobot/IK/constraints/PositionConstraint.cpp b/VirtualRobot/IK/constraints/PositionConstraint.cpp
index 12d1e7e..b662a30 100644
--- a/VirtualRobot/IK/constraints/PositionConstraint.cpp
+++ b/VirtualRobot/IK/constraints/PositionConstraint.cpp
@@ -105,13 +105,13 @@ bool PositionConstraint::checkTolerances()
     switch(cartesianSelection)
     {
         case IKSolver::CartesianSelection::X:
-            return d.x() <= tolerance;
+            return std::abs(d.x()) <= tolerance;
 
         case IKSolver::CartesianSelection::Y:
-            return d.y() <= tolerance;
+            return std::abs(d.y()) <= tolerance;
 
         case IKSolver::CartesianSelection::Z:
-            return d.z() <= tolerance;
+            return std::abs(d.z()) <= tolerance;
 
         case IKSolver::CartesianSelection::Position:
         case IKSolver::CartesianSelection::All:
-- 
2.43.0


From 2c7c96d297f612f788ef1926817eae523ba0a27d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:12 +0000
Subject: [PATCH 028/136] fix: CoMConstraint::updateTarget changes the target
 of objective and tolerance check

---
 VirtualRobot/IK/constraints/CoMConstraint.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/VirtualRobot/IK/constraints/CoMConstraint.cpp b/VirtualRobot/IK/constraints/CoMConstraint.cpp
index debe401..63ac70e 100644
--- a/VirtualRobot/IK/constraints/CoMConstraint.cpp
+++ b/VirtualRobot/IK/constraints/CoMConstraint.cpp
@@ -59,11 +59,13 @@ CoMConstraint::CoMConstraint(const RobotPtr &robot, const RobotNodeSetPtr &joint
 
 void CoMConstraint::updateTarget(const Eigen::Vector3f &target)
 {
+    this->target = target;
     ik->setGoal(target);
 }
 
 void CoMConstraint::updateTarget(const Eigen::Vector2f &target)
 {
+    this->target = target;
     ik->setGoal(target);
 }
 
-- 
2.43.0


From 3c93182203d0058780813cba1672b68c164b518b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:12 +0000
Subject: [PATCH 029/136] fix: TSRConstraint uses the tolerances passed to its
 constructor

---
 VirtualRobot/IK/constraints/TSRConstraint.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/VirtualRobot/IK/constraints/TSRConstraint.cpp b/VirtualRobot/IK/constraints/TSRConstraint.cpp
index c8d3a5b..0238709 100644
--- a/VirtualRobot/IK/constraints/TSRConstraint.cpp
+++ b/VirtualRobot/IK/constraints/TSRConstraint.cpp
@@ -40,8 +40,8 @@ TSRConstraint::TSRConstraint(const RobotPtr& robot, const RobotNodeSetPtr& nodeS
     transformation(transformation),
     eefOffset(eefOffset),
     bounds(bounds),
-    toleranceTranslation(1.0f),
-    toleranceRotation(0.1f),
+    toleranceTranslation(tolerancePosition),
+    toleranceRotation(toleranceRotation),
     posRotTradeoff(0.1f)
 {
     ik.reset(new DifferentialIK(nodeSet));
-- 
2.43.0


From b6000250ddd0507ed8842de1f02716790b0b1ef5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:12 +0000
Subject: [PATCH 030/136] fix: TSRConstraint position gradient is the gradient
 of its objective

---
 VirtualRobot/IK/constraints/TSRConstraint.cpp | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/VirtualRobot/IK/constraints/TSRConstraint.cpp b/VirtualRobot/IK/constraints/TSRConstraint.cpp
index 0238709..56728d2 100644
--- a/VirtualRobot/IK/constraints/TSRConstraint.cpp
+++ b/VirtualRobot/IK/constraints/TSRConstraint.cpp
@@ -159,9 +159,20 @@ double TSRConstraint::positionOptimizationFunction()
 
 Eigen::VectorXf TSRConstraint::positionOptimizationGradient()
 {
-    Eigen::MatrixXf J = ik->getJacobianMatrix(eef).block(0, 0, 3, nodeSet->getSize());
-    Eigen::VectorXf e = posRotTradeoff * getPositionError();
-    return 2 * e.transpose() * J;
+    Eigen::MatrixXf J_eef = ik->getJacobianMatrix(eef);
+    Eigen::MatrixXf J = J_eef.block(0, 0, 3, nodeSet->getSize());
+
+    // velocity of the offset point, which is subject to the bounds
+    Eigen::Vector3f offset = eef->getGlobalPose().block<3, 3>(0, 0) * eefOffset.block<3, 1>(0, 3);
+    for (int i = 0; i < J.cols(); i++)
+    {
+        Eigen::Vector3f w = J_eef.block<3, 1>(3, i);
+        J.col(i) += w.cross(offset);
+    }
+
+    // the position error is given in the frame of the region
+    Eigen::Vector3f e = transformation.block<3, 3>(0, 0) * getPositionError();
+    return 2 * posRotTradeoff * posRotTradeoff * e.transpose() * J;
 }
 
 double TSRConstraint::orientationOptimizationFunction()
-- 
2.43.0


From 42c96d83f033c957048ed348e735e4512f17b1d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:12 +0000
Subject: [PATCH 031/136] fix: PoseConstraint position gradient contains the
 trade-off factor of its objective

---
 VirtualRobot/IK/constraints/PoseConstraint.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/VirtualRobot/IK/constraints/PoseConstraint.cpp b/VirtualRobot/IK/constraints/PoseConstraint.cpp
index 2d88b0e..4663ad9 100644
--- a/VirtualRobot/IK/constraints/PoseConstraint.cpp
+++ b/VirtualRobot/IK/constraints/PoseConstraint.cpp
@@ -172,17 +172,17 @@ Eigen::VectorXf PoseConstraint::positionOptimizationGradient()
     switch(cartesianSelection)
     {
         case IKSolver::CartesianSelection::X:
-            return 2 * Eigen::Vector3f(d.x(), 0, 0).transpose() * J;
+            return 2 * posRotTradeoff * Eigen::Vector3f(d.x(), 0, 0).transpose() * J;
 
         case IKSolver::CartesianSelection::Y:
-            return 2 * Eigen::Vector3f(0, d.y(), 0).transpose() * J;
+            return 2 * posRotTradeoff * Eigen::Vector3f(0, d.y(), 0).transpose() * J;
 
         case IKSolver::CartesianSelection::Z:
-            return 2 * Eigen::Vector3f(0, 0, d.z()).transpose() * J;
+            return 2 * posRotTradeoff * Eigen::Vector3f(0, 0, d.z()).transpose() * J;
 
         case IKSolver::CartesianSelection::Position:
         case IKSolver::CartesianSelection::All:
-            return 2 * d.transpose() * J;
+            return 2 * posRotTradeoff * d.transpose() * J;
 
         case IKSolver::CartesianSelection::Orientation:
             return Eigen::VectorXf::Zero(size);
-- 
2.43.0


From 5053d350b08df7436a8194ed02daaf93b3aabe72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:12 +0000
Subject: [PATCH 032/136] fix: CoMIK expresses the lever arm in the coordinate
 system of the Jacobian

---
 VirtualRobot/IK/CoMIK.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/VirtualRobot/IK/CoMIK.cpp b/VirtualRobot/IK/CoMIK.cpp
index d68aef4..c41a798 100644
--- a/VirtualRobot/IK/CoMIK.cpp
+++ b/VirtualRobot/IK/CoMIK.cpp
@@ -79,6 +79,11 @@ namespace VirtualRobot
                     Eigen::Vector3f toTCP = node->getCoMGlobal()
                                             - dof->getGlobalPose().block(0, 3, 3, 1);
 
+                    if (coordSystem)
+                    {
+                        toTCP = (coordSystem->getGlobalPose().block<3, 3>(0, 0).transpose() * toTCP).eval();
+                    }
+
                     if (convertMMtoM)
                     {
                         toTCP /= 1000.0f;
-- 
2.43.0


From edf2286054c0d9f7f6338ca2333e253a6aaea726 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:12 +0000
Subject: [PATCH 033/136] fix: AdvancedIKSolver::solve copes with objects
 without grasps for the end effector

---
 VirtualRobot/IK/AdvancedIKSolver.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/VirtualRobot/IK/AdvancedIKSolver.cpp b/VirtualRobot/IK/AdvancedIKSolver.cpp
index a91953e..28cc451 100644
--- a/VirtualRobot/IK/AdvancedIKSolver.cpp
+++ b/VirtualRobot/IK/AdvancedIKSolver.cpp
@@ -128,7 +128,12 @@ namespace VirtualRobot
             return GraspPtr();
         }
 
-        GraspSetPtr gs = object->getGraspSet(eef)->clone();
+        GraspSetPtr gs = object->getGraspSet(eef);
+
+        if (gs)
+        {
+            gs = gs->clone();
+        }
 
         if (!gs || gs->getSize() == 0)
         {
-- 
2.43.0


From 8ea992e55751b4dfd31fc85d1d072b471fd7de6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:12 +0000
Subject: [PATCH 034/136] fix: BalanceConstraint objective and gradient refer
 to the CoM of its bodies

---
 VirtualRobot/IK/constraints/BalanceConstraint.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/VirtualRobot/IK/constraints/BalanceConstraint.cpp b/VirtualRobot/IK/constraints/BalanceConstraint.cpp
index 9a4bb52..0be5c0b 100644
--- a/VirtualRobot/IK/constraints/BalanceConstraint.cpp
+++ b/VirtualRobot/IK/constraints/BalanceConstraint.cpp
@@ -130,7 +130,8 @@ double BalanceConstraintOptimizationFunction::sigmoid(double x)
 
 double BalanceConstraintOptimizationFunction::sigmoid_prime(double x)
 {
-    return sigmoid(x) * (1 - sigmoid(x));
+    float beta = 0.1f;
+    return beta * sigmoid(x) * (1 - sigmoid(x));
 }
 
 
@@ -246,7 +247,7 @@ double BalanceConstraint::optimizationFunction(unsigned int /*id*/)
         differnentiableStability->updateSupportPolygon();
     }
 
-    Eigen::Vector2f com = rns->getCoM().head(2);
+    Eigen::Vector2f com = bodies->getCoM().head(2);
     if(considerCoMHeight)
     {
         VR_WARNING << "COM Height not yet supported by NLopt balance constraint" << std::endl;
@@ -262,7 +263,7 @@ Eigen::VectorXf BalanceConstraint::optimizationGradient(unsigned int /*id*/)
         differnentiableStability->updateSupportPolygon();
     }
 
-    Eigen::Vector2f com = rns->getCoM().head(2);
+    Eigen::Vector2f com = bodies->getCoM().head(2);
     if(considerCoMHeight)
     {
         VR_WARNING << "COM Height not yet supported by NLopt balance constraint" << std::endl;
-- 
2.43.0


From ccaad0826f0d2227acfd1f253b00ce5a840cfd13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:53 +0000
Subject: [PATCH 035/136] fix: TSRConstraint orientation gradient is the
 gradient of its objective

---
 VirtualRobot/IK/constraints/TSRConstraint.cpp | 20 +++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/VirtualRobot/IK/constraints/TSRConstraint.cpp b/VirtualRobot/IK/constraints/TSRConstraint.cpp
index 56728d2..aaefcd3 100644
--- a/VirtualRobot/IK/constraints/TSRConstraint.cpp
+++ b/VirtualRobot/IK/constraints/TSRConstraint.cpp
@@ -184,8 +184,24 @@ double TSRConstraint::orientationOptimizationFunction()
 Eigen::VectorXf TSRConstraint::orientationOptimizationGradient()
 {
     Eigen::MatrixXf J = ik->getJacobianMatrix(eef).block(3, 0, 3, nodeSet->getSize());
-    Eigen::VectorXf e = getOrientationError();
-    Eigen::VectorXf result = 2 * e.transpose() * J;
+    Eigen::Vector3f e = getOrientationError();
+
+    // the error is given in terms of the rotation vector of the end effector in the frame of the region
+    Eigen::Matrix3f R_region = transformation.block<3, 3>(0, 0);
+    Eigen::Matrix3f R = R_region.transpose() * eef->getGlobalPose().block<3, 3>(0, 0) * eefOffset.block<3, 3>(0, 0);
+    Eigen::AngleAxis<float> aa;
+    aa = R;
+    float angle = aa.angle();
+    Eigen::Matrix3f K;
+    K << 0, -aa.axis().z(), aa.axis().y(),
+         aa.axis().z(), 0, -aa.axis().x(),
+         -aa.axis().y(), aa.axis().x(), 0;
+
+    // maps angular velocities to velocities of the rotation vector
+    float c = (std::abs(angle) < 1e-3f) ? 0.0f : 1.0f - angle / (2.0f * std::tan(angle / 2.0f));
+    Eigen::Matrix3f V = Eigen::Matrix3f::Identity() - angle / 2.0f * K + c * K * K;
+
+    Eigen::VectorXf result = 2 * e.transpose() * V * R_region.transpose() * J;
     return result;
 }
 
-- 
2.43.0


From 094721dba280078548f9065e09283e29d4addfb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:42 +0000
Subject: [PATCH 036/136] fix: bzip2 decoder: ignore selectors beyond the table
 (as bzip2 1.0.7)

---
 VirtualRobot/Compression/CompressionBZip2.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/VirtualRobot/Compression/CompressionBZip2.cpp b/VirtualRobot/Compression/CompressionBZip2.cpp
index 74a0604..68d44b8 100644
--- a/VirtualRobot/Compression/CompressionBZip2.cpp
+++ b/VirtualRobot/Compression/CompressionBZip2.cpp
@@ -3454,7 +3454,16 @@ case lll: s->state = lll;                      \
                         }
                     }
 
-                    s->selectorMtf[i] = j;
+                    // more selectors than this cannot be used: read and ignore them
+                    if (i < BZ_MAX_SELECTORS)
+                    {
+                        s->selectorMtf[i] = j;
+                    }
+                }
+
+                if (nSelectors > BZ_MAX_SELECTORS)
+                {
+                    nSelectors = BZ_MAX_SELECTORS;
                 }
 
                 /*--- Undo the MTF values for the selectors. ---*/
-- 
2.43.0


From e8f50cac9d6e5b228b19e9dec694310653b0aafa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:25 +0000
Subject: [PATCH 037/136] fix: Trajectory: inserting a trajectory into itself

---
 VirtualRobot/Trajectory.cpp | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/VirtualRobot/Trajectory.cpp b/VirtualRobot/Trajectory.cpp
index 976896e..9511550 100644
--- a/VirtualRobot/Trajectory.cpp
+++ b/VirtualRobot/Trajectory.cpp
@@ -208,13 +208,9 @@ namespace VirtualRobot
             return;
         }
 
-        int i = trajectoryToInsert->getNrOfPoints() - 1;
-
-        while (i >= 0)
-        {
-            insertPosition(pos, trajectoryToInsert->getPoint(i));
-            i--;
-        }
+        // copy, the inserted trajectory may be this one
+        std::vector<Eigen::VectorXf> newPoints = trajectoryToInsert->getPoints();
+        insertPosition(pos, newPoints);
     }
 
 
-- 
2.43.0


From 15b53430042002173c1ceddcb4671185c619e709 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:25 +0000
Subject: [PATCH 038/136] fix: Trajectory::interpolate: no index -1 on a
 trajectory of length zero

---
 VirtualRobot/Trajectory.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/VirtualRobot/Trajectory.cpp b/VirtualRobot/Trajectory.cpp
index 9511550..19dd294 100644
--- a/VirtualRobot/Trajectory.cpp
+++ b/VirtualRobot/Trajectory.cpp
@@ -287,7 +287,11 @@ namespace VirtualRobot
             actLength += lastLength;
         }
 
-        startIndex--;
+        if (startIndex > 0)
+        {
+            startIndex--;
+        }
+
         actLength -= lastLength;
 
         // segment starts with startIndex
-- 
2.43.0


From ef6ca9d766e1727431467ac6d755d1a5d2d67a5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:24 +0000
Subject: [PATCH 039/136] fix: configuration values given in meters are
 converted to mm

---
 VirtualRobot/XML/BaseIO.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/VirtualRobot/XML/BaseIO.cpp b/VirtualRobot/XML/BaseIO.cpp
index a15989e..e215414 100644
--- a/VirtualRobot/XML/BaseIO.cpp
+++ b/VirtualRobot/XML/BaseIO.cpp
@@ -1538,7 +1538,7 @@ namespace VirtualRobot
                 }
                 else if (u.isMeter())
                 {
-                    c.value = c.value / 1000.0f;
+                    c.value = c.value * 1000.0f;
                 }
 
                 storeConfigDefinitions.push_back(c);
-- 
2.43.0


From f1aafb5f4e071bdc84d0cd7b0a6249b37cd0f39e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:44 +0000
Subject: [PATCH 040/136] fix: Path: assignment copies the segments

---
 VirtualRobot/TimeOptimalTrajectory/Path.cpp | 8 ++++++++
 VirtualRobot/TimeOptimalTrajectory/Path.h   | 1 +
 2 files changed, 9 insertions(+)

diff --git a/VirtualRobot/TimeOptimalTrajectory/Path.cpp b/VirtualRobot/TimeOptimalTrajectory/Path.cpp
index fe51f30..86b91f4 100644
--- a/VirtualRobot/TimeOptimalTrajectory/Path.cpp
+++ b/VirtualRobot/TimeOptimalTrajectory/Path.cpp
@@ -228,6 +228,14 @@ namespace VirtualRobot
         }
     }
 
+    Path &Path::operator=(const Path &path) {
+        Path copy(path);
+        std::swap(length, copy.length);
+        switchingPoints.swap(copy.switchingPoints);
+        pathSegments.swap(copy.pathSegments);
+        return *this;
+    }
+
     Path::~Path() {
         for(auto & pathSegment : pathSegments) {
             delete pathSegment;
diff --git a/VirtualRobot/TimeOptimalTrajectory/Path.h b/VirtualRobot/TimeOptimalTrajectory/Path.h
index 94b66bc..325ae13 100644
--- a/VirtualRobot/TimeOptimalTrajectory/Path.h
+++ b/VirtualRobot/TimeOptimalTrajectory/Path.h
@@ -75,6 +75,7 @@ namespace VirtualRobot
     public:
         Path(const std::list<Eigen::VectorXd> &path, double maxDeviation = 0.0);
         Path(const Path &path);
+        Path &operator=(const Path &path);
         ~Path();
         double getLength() const;
         Eigen::VectorXd getConfig(double s) const;
-- 
2.43.0


From 6fef9b1ec4112ae316865a9ee60af8687c73ea82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:44 +0000
Subject: [PATCH 041/136] fix: TimeOptimalTrajectory: a copy does not use the
 segment cache of its source

---
 .../TimeOptimalTrajectory/TimeOptimalTrajectory.cpp | 13 +++++++++++++
 .../TimeOptimalTrajectory/TimeOptimalTrajectory.h   |  2 ++
 2 files changed, 15 insertions(+)

diff --git a/VirtualRobot/TimeOptimalTrajectory/TimeOptimalTrajectory.cpp b/VirtualRobot/TimeOptimalTrajectory/TimeOptimalTrajectory.cpp
index bfbd33d..f0e5495 100644
--- a/VirtualRobot/TimeOptimalTrajectory/TimeOptimalTrajectory.cpp
+++ b/VirtualRobot/TimeOptimalTrajectory/TimeOptimalTrajectory.cpp
@@ -91,6 +91,19 @@ namespace VirtualRobot
         }
     }
 
+    TimeOptimalTrajectory::TimeOptimalTrajectory(const TimeOptimalTrajectory &other) :
+        path(other.path),
+        maxVelocity(other.maxVelocity),
+        maxAcceleration(other.maxAcceleration),
+        n(other.n),
+        valid(other.valid),
+        trajectory(other.trajectory),
+        endTrajectory(other.endTrajectory),
+        timeStep(other.timeStep),
+        cachedTime(numeric_limits<double>::max()) // the cached segment belongs to the other list
+    {
+    }
+
     TimeOptimalTrajectory::~TimeOptimalTrajectory() = default;
 
     void TimeOptimalTrajectory::outputPhasePlaneTrajectory() const {
diff --git a/VirtualRobot/TimeOptimalTrajectory/TimeOptimalTrajectory.h b/VirtualRobot/TimeOptimalTrajectory/TimeOptimalTrajectory.h
index af42cd6..2193c3b 100644
--- a/VirtualRobot/TimeOptimalTrajectory/TimeOptimalTrajectory.h
+++ b/VirtualRobot/TimeOptimalTrajectory/TimeOptimalTrajectory.h
@@ -56,6 +56,8 @@ namespace VirtualRobot
         // Generates a time-optimal trajectory
         TimeOptimalTrajectory(const Path &path, const Eigen::VectorXd &maxVelocity, const Eigen::VectorXd &maxAcceleration, double timeStep = 0.001);
 
+        TimeOptimalTrajectory(const TimeOptimalTrajectory &other);
+
         ~TimeOptimalTrajectory(void);
 
         // Call this method after constructing the object to make sure the trajectory generation succeeded without errors.
-- 
2.43.0


From fe24829c7a7315aa598fde226fd11ed3dc21e847 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:44 +0000
Subject: [PATCH 042/136] fix: Path: repeated way points

---
 VirtualRobot/TimeOptimalTrajectory/Path.cpp | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/VirtualRobot/TimeOptimalTrajectory/Path.cpp b/VirtualRobot/TimeOptimalTrajectory/Path.cpp
index 86b91f4..48e89b9 100644
--- a/VirtualRobot/TimeOptimalTrajectory/Path.cpp
+++ b/VirtualRobot/TimeOptimalTrajectory/Path.cpp
@@ -173,11 +173,23 @@ namespace VirtualRobot
 
 
 
-    Path::Path(const list<VectorXd> &path, double maxDeviation) :
+    Path::Path(const list<VectorXd> &waypoints, double maxDeviation) :
         length(0.0)
     {
-        if(path.size() < 2)
+        if(waypoints.size() < 2)
             return;
+
+        // there is nothing to travel between repeated way points
+        list<VectorXd> path;
+        for(const auto & waypoint : waypoints) {
+            if(path.empty() || (waypoint - path.back()).norm() > 0.000001) {
+                path.push_back(waypoint);
+            }
+        }
+        if(path.size() < 2) {
+            path.push_back(waypoints.back());
+        }
+
         list<VectorXd>::const_iterator config1 = path.begin();
         list<VectorXd>::const_iterator config2 = config1;
         config2++;
-- 
2.43.0


From 1f6c6fbc4d28e45c6870d187156096df09d57e37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:31 +0000
Subject: [PATCH 043/136] fix: Robot: hold the lock while setting poses and
 joint values

---
 VirtualRobot/Robot.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/VirtualRobot/Robot.cpp b/VirtualRobot/Robot.cpp
index bb17e76..aff246c 100644
--- a/VirtualRobot/Robot.cpp
+++ b/VirtualRobot/Robot.cpp
@@ -418,7 +418,7 @@ namespace VirtualRobot
      */
     void Robot::applyJointValues()
     {
-        WriteLock(mutex, use_mutex);
+        WriteLock lock(mutex, use_mutex);
         this->getRootNode()->updatePose(this->getGlobalPose());
     }
 
@@ -667,7 +667,7 @@ namespace VirtualRobot
 
     void LocalRobot::setGlobalPose(const Eigen::Matrix4f& globalPose, bool applyJointValues /*= true*/)
     {
-        WriteLock(mutex, use_mutex);
+        WriteLock lock(mutex, use_mutex);
         this->globalPose = globalPose;
 
         if (applyJointValues)
@@ -678,7 +678,7 @@ namespace VirtualRobot
 
     Eigen::Matrix4f LocalRobot::getGlobalPose() const
     {
-        ReadLock(mutex, use_mutex);
+        ReadLock lock(mutex, use_mutex);
         return globalPose;
     }
 
@@ -993,7 +993,7 @@ namespace VirtualRobot
 
     void Robot::setJointValues(const std::map< std::string, float >& jointValues)
     {
-        WriteLock(mutex, use_mutex);
+        WriteLock lock(mutex, use_mutex);
 
         std::map< std::string, float >::const_iterator it = jointValues.begin();
 
@@ -1015,7 +1015,7 @@ namespace VirtualRobot
 
     void Robot::setJointValues(const std::map<RobotNodePtr, float>& jointValues)
     {
-        WriteLock(mutex, use_mutex);
+        WriteLock lock(mutex, use_mutex);
 
         std::map< RobotNodePtr, float >::const_iterator it = jointValues.begin();
 
@@ -1065,7 +1065,7 @@ namespace VirtualRobot
     void Robot::setJointValues(const std::vector<RobotNodePtr> rn, const std::vector<float>& jointValues)
     {
         VR_ASSERT(rn.size() == jointValues.size());
-        WriteLock(mutex, use_mutex);
+        WriteLock lock(mutex, use_mutex);
 
         for (size_t i = 0; i < rn.size(); i++)
         {
-- 
2.43.0


From f4f0f594847f6b86b149f6c4a9ebc3a97a6ff256 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:38 +0000
Subject: [PATCH 044/136] fix: Robot: place a node under one lock

---
 VirtualRobot/Robot.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/VirtualRobot/Robot.cpp b/VirtualRobot/Robot.cpp
index aff246c..7f3872f 100644
--- a/VirtualRobot/Robot.cpp
+++ b/VirtualRobot/Robot.cpp
@@ -855,7 +855,8 @@ namespace VirtualRobot
             const RobotNodePtr& node, const Eigen::Matrix4f& globalPoseNode)
     {
         THROW_VR_EXCEPTION_IF(!node, "NULL node");
-        
+
+        WriteLockPtr lock = getWriteLock();
         setGlobalPose(getGlobalPoseForRobotNode(node, globalPoseNode));
     }
     
@@ -874,6 +875,7 @@ namespace VirtualRobot
     void Robot::setGlobalPositionForRobotNode(
             const RobotNodePtr& node, const Eigen::Vector3f& globalPositionNode)
     {
+        WriteLockPtr lock = getWriteLock();
         setGlobalPose(getGlobalPositionForRobotNode(node, globalPositionNode));
     }
     
-- 
2.43.0


From 787d04f856add52b452cfab6c0476f088175e945 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:19 +0000
Subject: [PATCH 045/136] fix: WorkspaceRepresentation::initialize stores
 adjustOnOverflow

---
 VirtualRobot/Workspace/WorkspaceRepresentation.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/VirtualRobot/Workspace/WorkspaceRepresentation.cpp b/VirtualRobot/Workspace/WorkspaceRepresentation.cpp
index 99f3d32..1444fd0 100644
--- a/VirtualRobot/Workspace/WorkspaceRepresentation.cpp
+++ b/VirtualRobot/Workspace/WorkspaceRepresentation.cpp
@@ -1110,6 +1110,7 @@ namespace VirtualRobot
         collisionConfigs = 0;
         discretizeStepTranslation = 0;
         discretizeStepRotation = 0;
+        adjustOnOverflow = true;
 
         for (int i = 0; i < 6; i++)
         {
@@ -1159,11 +1160,12 @@ namespace VirtualRobot
         THROW_VR_EXCEPTION_IF(nodeSet->hasRobotNode(baseNode), " baseNode is part of RobotNodeSet! This is not a good idea, since the globalPose of the baseNode will change during buildup of WorkspaceRepresentation data...");
         this->staticCollisionModel = staticCollisionModel;
         this->dynamicCollisionModel = dynamicCollisionModel;
+        this->adjustOnOverflow = adjustOnOverflow;
 
         if (!staticCollisionModel || !dynamicCollisionModel)
         {
-            staticCollisionModel.reset();
-            dynamicCollisionModel.reset();
+            this->staticCollisionModel.reset();
+            this->dynamicCollisionModel.reset();
         }
         else
         {
-- 
2.43.0


From 2bb58114d9d33fc97ce1b8842139b9916badcfe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:19 +0000
Subject: [PATCH 046/136] fix: WorkspaceRepresentation::getPoseFromVoxel
 returns the voxel center

---
 VirtualRobot/Workspace/WorkspaceRepresentation.cpp | 9 +--------
 1 file changed, 1 insertion(+), 8 deletions(-)

diff --git a/VirtualRobot/Workspace/WorkspaceRepresentation.cpp b/VirtualRobot/Workspace/WorkspaceRepresentation.cpp
index 1444fd0..450b92c 100644
--- a/VirtualRobot/Workspace/WorkspaceRepresentation.cpp
+++ b/VirtualRobot/Workspace/WorkspaceRepresentation.cpp
@@ -1250,14 +1250,7 @@ namespace VirtualRobot
 
             v[i] = ((((float) x[i]) * spaceSize[i]) / ((float)numVoxels[i]))  + minBounds[i];
 
-            if (i < 3)
-            {
-                v[i] += discretizeStepTranslation / 2;
-            }
-            else
-            {
-                v[i] += discretizeStepRotation / 2;
-            }
+            v[i] += getVoxelSize(i) / 2;
         }
 
         return true;
-- 
2.43.0


From fb11351204a17e8c5f749d60a6f9cad4d8ae7f96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:19 +0000
Subject: [PATCH 047/136] fix: WorkspaceRepresentation::getVoxelSize rejects
 dimension 6

---
 VirtualRobot/Workspace/WorkspaceRepresentation.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/VirtualRobot/Workspace/WorkspaceRepresentation.cpp b/VirtualRobot/Workspace/WorkspaceRepresentation.cpp
index 450b92c..6481924 100644
--- a/VirtualRobot/Workspace/WorkspaceRepresentation.cpp
+++ b/VirtualRobot/Workspace/WorkspaceRepresentation.cpp
@@ -679,7 +679,7 @@ namespace VirtualRobot
 
     float WorkspaceRepresentation::getVoxelSize(int dim) const
     {
-        if (dim < 0 || dim > 6)
+        if (dim < 0 || dim > 5)
         {
             return 0.0f;
         }
-- 
2.43.0


From c684b16f576dd4f423440326126921e6710ecf53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:19 +0000
Subject: [PATCH 048/136] fix: WorkspaceDataArray::setDatum keeps the number of
 filled voxels

---
 VirtualRobot/Workspace/WorkspaceDataArray.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/VirtualRobot/Workspace/WorkspaceDataArray.cpp b/VirtualRobot/Workspace/WorkspaceDataArray.cpp
index 5a888dc..3a838b1 100644
--- a/VirtualRobot/Workspace/WorkspaceDataArray.cpp
+++ b/VirtualRobot/Workspace/WorkspaceDataArray.cpp
@@ -167,10 +167,14 @@ namespace VirtualRobot
         unsigned int posTr = 0, posRot = 0;
         getPos(x0, x1, x2, x3, x4, x5, posTr, posRot);
 
-        if (data[posTr][posRot] == 0)
+        if (data[posTr][posRot] == 0 && value > 0)
         {
             voxelFilledCount++;
         }
+        else if (data[posTr][posRot] > 0 && value == 0)
+        {
+            voxelFilledCount--;
+        }
 
         data[posTr][posRot] = value;
 
@@ -186,10 +190,14 @@ namespace VirtualRobot
         unsigned int posTr = 0, posRot = 0;
         getPos(x, posTr, posRot);
 
-        if (data[posTr][posRot] == 0)
+        if (data[posTr][posRot] == 0 && value > 0)
         {
             voxelFilledCount++;
         }
+        else if (data[posTr][posRot] > 0 && value == 0)
+        {
+            voxelFilledCount--;
+        }
 
         data[posTr][posRot] = value;
 
-- 
2.43.0


From 71b58415ceac5d2f7dfeb30133016c48962e49d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:13 +0000
Subject: [PATCH 049/136] fix: WorkspaceRepresentation::fillHoles fills the
 voxels without an entry

---
 VirtualRobot/Workspace/WorkspaceRepresentation.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/VirtualRobot/Workspace/WorkspaceRepresentation.cpp b/VirtualRobot/Workspace/WorkspaceRepresentation.cpp
index 6481924..f5575bf 100644
--- a/VirtualRobot/Workspace/WorkspaceRepresentation.cpp
+++ b/VirtualRobot/Workspace/WorkspaceRepresentation.cpp
@@ -1387,7 +1387,7 @@ namespace VirtualRobot
                         for (x[4] = 1; x[4] < (unsigned int)numVoxels[4] - 1; x[4]++)
                             for (x[5] = 1; x[5] < (unsigned int)numVoxels[5] - 1; x[5]++)
                             {
-                                if (data->get(x) > 0)
+                                if (data->get(x) == 0)
                                 {
                                     int sum = 0;
                                     int count = 0;
-- 
2.43.0


From 8bd55ae61e93ea8a48dba966f7187c9dca13b7a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:13 +0000
Subject: [PATCH 050/136] fix: WorkspaceDataArray::sumAngleReachabilities sums
 the existing entries

---
 VirtualRobot/Workspace/WorkspaceDataArray.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/VirtualRobot/Workspace/WorkspaceDataArray.cpp b/VirtualRobot/Workspace/WorkspaceDataArray.cpp
index 3a838b1..77595fa 100644
--- a/VirtualRobot/Workspace/WorkspaceDataArray.cpp
+++ b/VirtualRobot/Workspace/WorkspaceDataArray.cpp
@@ -269,7 +269,7 @@ namespace VirtualRobot
     {
         int res = 0;
 
-        if (hasEntry(x0, x1, x2))
+        if (!hasEntry(x0, x1, x2))
         {
             return 0;
         }
-- 
2.43.0


From 46fc92f80b3fa9be66e3afe407b88b95b2da8b09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:13 +0000
Subject: [PATCH 051/136] fix: WorkspaceGrid::getRandomPos returns the center
 of the cell

---
 VirtualRobot/Workspace/WorkspaceGrid.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/VirtualRobot/Workspace/WorkspaceGrid.cpp b/VirtualRobot/Workspace/WorkspaceGrid.cpp
index d322e38..69e8bd9 100644
--- a/VirtualRobot/Workspace/WorkspaceGrid.cpp
+++ b/VirtualRobot/Workspace/WorkspaceGrid.cpp
@@ -380,8 +380,8 @@ namespace VirtualRobot
                 *entries = nEntry;
             if (nEntry >= minEntry)
             {
-                storeXGlobal = minX + ((float)x + 0.5f) * discretizeSize;
-                storeYGlobal = minY + ((float)y + 0.5f) * discretizeSize;
+                storeXGlobal = minX + ((float)x + 0.5f) * gridExtendX / gridSizeX;
+                storeYGlobal = minY + ((float)y + 0.5f) * gridExtendY / gridSizeY;
 
                 return true;
             }
@@ -414,8 +414,8 @@ namespace VirtualRobot
                 *entries = nEntry;
             if (nEntry >= minEntry)
             {
-                storeXGlobal = minX + ((float)x + 0.5f) * discretizeSize;
-                storeYGlobal = minY + ((float)y + 0.5f) * discretizeSize;
+                storeXGlobal = minX + ((float)x + 0.5f) * gridExtendX / gridSizeX;
+                storeYGlobal = minY + ((float)y + 0.5f) * gridExtendY / gridSizeY;
                 return true;
             }
 
-- 
2.43.0


From c14f724f8030ff52dfbccf301039ba98fe881fc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:13 +0000
Subject: [PATCH 052/136] fix: WorkspaceGrid::MergeWorkspaceGrids with negative
 and uncovered positions

---
 VirtualRobot/Workspace/WorkspaceGrid.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/VirtualRobot/Workspace/WorkspaceGrid.cpp b/VirtualRobot/Workspace/WorkspaceGrid.cpp
index 69e8bd9..6a76fa1 100644
--- a/VirtualRobot/Workspace/WorkspaceGrid.cpp
+++ b/VirtualRobot/Workspace/WorkspaceGrid.cpp
@@ -505,9 +505,9 @@ namespace VirtualRobot
     WorkspaceGridPtr WorkspaceGrid::MergeWorkspaceGrids(const std::vector<WorkspaceGridPtr> &grids)
     {
         VR_ASSERT(grids.size() >= 2);
-        float totalMaxX = std::numeric_limits<float>::min();
+        float totalMaxX = std::numeric_limits<float>::lowest();
         float totalMinX = std::numeric_limits<float>::max();
-        float totalMaxY = std::numeric_limits<float>::min();
+        float totalMaxY = std::numeric_limits<float>::lowest();
         float totalMinY = std::numeric_limits<float>::max();
         for(auto& grid : grids)
         {
@@ -529,7 +529,7 @@ namespace VirtualRobot
                 GraspPtr grasp;
                 for(auto& grid : grids)
                 {
-                    int score;
+                    int score = 0;
                     GraspPtr tmpGrasp;
                     if(grid->getEntry(x, y, score, tmpGrasp))
                     {
-- 
2.43.0


From c5a821b8f0931d84b8ade72c5ac7dae1390c3cfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:13 +0000
Subject: [PATCH 053/136] fix: Manipulability considers the given self-distance
 sets

---
 VirtualRobot/Workspace/Manipulability.cpp | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/VirtualRobot/Workspace/Manipulability.cpp b/VirtualRobot/Workspace/Manipulability.cpp
index 721129f..d108a2d 100644
--- a/VirtualRobot/Workspace/Manipulability.cpp
+++ b/VirtualRobot/Workspace/Manipulability.cpp
@@ -127,22 +127,27 @@ namespace VirtualRobot
         if (!selfDistDyn)
             selfDistDyn = selfDistDynamic;
 
-        if (considerSelfDist && selfDistStatic && selfDistDynamic)
+        if (considerSelfDist && selfDistSt && selfDistDyn)
         {
             int id1;
             int id2;
             Eigen::Vector3f p1;
             Eigen::Vector3f p2;
-            /*float d =*/ selfDistStatic->getCollisionChecker()->calculateDistance(selfDistStatic, selfDistDynamic, p1, p2, &id1, &id2);
+            /*float d =*/ selfDistSt->getCollisionChecker()->calculateDistance(selfDistSt, selfDistDyn, p1, p2, &id1, &id2);
             //cout << "#### dist:" << d << ", ";
             Eigen::Matrix4f obstDistPos1 = Eigen::Matrix4f::Identity();
             Eigen::Matrix4f obstDistPos2 = Eigen::Matrix4f::Identity();
             obstDistPos1.block(0, 3, 3, 1) = p1;
             obstDistPos2.block(0, 3, 3, 1) = p2;
 
-            // transform to tcp
-            Eigen::Matrix4f p1_tcp = tcpNode->toLocalCoordinateSystem(obstDistPos1);
-            Eigen::Matrix4f p2_tcp = tcpNode->toLocalCoordinateSystem(obstDistPos2);
+            // transform to tcp (the measured robot may be a clone)
+            RobotNodePtr tcp = selfDistSt->getRobot()->getRobotNode(tcpNode->getName());
+            if (!tcp)
+            {
+                tcp = tcpNode;
+            }
+            Eigen::Matrix4f p1_tcp = tcp->toLocalCoordinateSystem(obstDistPos1);
+            Eigen::Matrix4f p2_tcp = tcp->toLocalCoordinateSystem(obstDistPos2);
             Eigen::Vector3f minDistVector = p1_tcp.block(0, 3, 3, 1) - p2_tcp.block(0, 3, 3, 1);
 
             qualMeasure->setObstacleDistanceVector(minDistVector);
@@ -731,6 +736,8 @@ namespace VirtualRobot
         res->considerSelfDist = this->considerSelfDist;
         res->selfDistStatic = this->selfDistStatic;
         res->selfDistDynamic = this->selfDistDynamic;
+        res->selfDistAlpha = this->selfDistAlpha;
+        res->selfDistBeta = this->selfDistBeta;
 
         return res;
     }
-- 
2.43.0


From 09a890ce06042255c900ddbd2a99f105648e9648 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:05 +0000
Subject: [PATCH 054/136] fix: WorkspaceRepresentation::addRandomTCPPoses with
 several threads

---
 .../Workspace/WorkspaceRepresentation.cpp     | 21 ++++++++++++-------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/VirtualRobot/Workspace/WorkspaceRepresentation.cpp b/VirtualRobot/Workspace/WorkspaceRepresentation.cpp
index f5575bf..ef51f45 100644
--- a/VirtualRobot/Workspace/WorkspaceRepresentation.cpp
+++ b/VirtualRobot/Workspace/WorkspaceRepresentation.cpp
@@ -18,6 +18,7 @@
 #include <cmath>
 #include <cfloat>
 #include <climits>
+#include <mutex>
 #include <thread>
 
 namespace VirtualRobot
@@ -2169,22 +2170,24 @@ namespace VirtualRobot
     {
         THROW_VR_EXCEPTION_IF(!data || !nodeSet || !tcpNode, "Workspace data not initialized");
 
-        if (numThreads > loops)
+        if (numThreads == 0 || numThreads > loops)
         {
             VR_ERROR << "Number of threads can not be bigger then number of tcp poses to add.";
             return;
         }
 
         std::vector<std::thread> threads(numThreads);
-        unsigned int numPosesPerThread = loops / numThreads; // todo
+        std::mutex dataMutex; // protects the data of this workspace representation
 
         for (int i = 0; i < numThreads; i++)
         {
-            threads[i] = std::thread([=] ()
+            // each thread gets a cloned robot
+            CollisionCheckerPtr cc(new CollisionChecker());
+            RobotPtr clonedRobot = this->robot->clone("clonedRobot_" + std::to_string(i), cc);
+            unsigned int numPoses = loops / numThreads + (i < loops % numThreads ? 1 : 0);
+
+            threads[i] = std::thread([ =, &dataMutex] ()
             {
-                // each thread gets a cloned robot
-                CollisionCheckerPtr cc(new CollisionChecker());
-                RobotPtr clonedRobot = this->robot->clone("clonedRobot_" + std::to_string(i), cc);
                 clonedRobot->setUpdateVisualization(false);
                 RobotNodeSetPtr clonedNodeSet = clonedRobot->getRobotNodeSet(this->nodeSet->getName());
                 RobotNodePtr clonedTcpNode = clonedRobot->getRobotNode(this->tcpNode->getName());
@@ -2202,7 +2205,7 @@ namespace VirtualRobot
                 }
 
                 // now sample some configs and add them to the workspace data
-                for (int j = 0; j < numPosesPerThread; j++)
+                for (unsigned int j = 0; j < numPoses; j++)
                 {
                     float rndValue;
                     float minJ, maxJ;
@@ -2236,12 +2239,14 @@ namespace VirtualRobot
                             break;
                         }
 
+                        std::unique_lock<std::mutex> lock(dataMutex);
                         this->collisionConfigs++;
                     }
 
                     if (successfullyRandomized)
                     {
                         Eigen::Matrix4f p = clonedTcpNode->getGlobalPose();
+                        std::unique_lock<std::mutex> lock(dataMutex);
                         addPose(p);
                     }
                     else
@@ -2253,7 +2258,7 @@ namespace VirtualRobot
         }
 
         // wait for all threads to finish
-        for (int i = 0; i < numThreads; i++)
+        for (unsigned int i = 0; i < numThreads; i++)
         {
             threads[i].join();
         }
-- 
2.43.0


From f6c3a5dd6804b58a799528597d0745459784a501 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:05 +0000
Subject: [PATCH 055/136] fix: Manipulability::addRandomTCPPoses with several
 threads

---
 VirtualRobot/Workspace/Manipulability.cpp | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/VirtualRobot/Workspace/Manipulability.cpp b/VirtualRobot/Workspace/Manipulability.cpp
index d108a2d..8bf6539 100644
--- a/VirtualRobot/Workspace/Manipulability.cpp
+++ b/VirtualRobot/Workspace/Manipulability.cpp
@@ -15,6 +15,7 @@
 #include <cfloat>
 #include <climits>
 #include <algorithm>
+#include <mutex>
 #include <thread>
 
 // if enabled, not the global manipulability is considered, but the manipulability in terms of moving upwards
@@ -752,23 +753,24 @@ namespace VirtualRobot
     {
         THROW_VR_EXCEPTION_IF(!data || !nodeSet || !tcpNode || !measure, "Workspace data not initialized");
 
-        if (numThreads > loops)
+        if (numThreads == 0 || numThreads > loops)
         {
             VR_ERROR << "Number of threads can not be bigger then number of tcp poses to add.";
             return;
         }
 
         std::vector<std::thread> threads(numThreads);
-        unsigned int numPosesPerThread = loops / numThreads; // todo
+        std::mutex dataMutex; // protects the data of this workspace representation
 
         for (int i = 0; i < numThreads; i++)
         {
             // each thread gets a cloned robot
             CollisionCheckerPtr cc(new CollisionChecker());
-            RobotPtr clonedRobot = VirtualRobot::RobotIO::loadRobot(this->robot->getFilename(), RobotIO::eCollisionModel);
-            threads[i] = std::thread([=] ()
-            {
+            RobotPtr clonedRobot = this->robot->clone("clonedRobot_" + std::to_string(i), cc);
+            unsigned int numPoses = loops / numThreads + (i < loops % numThreads ? 1 : 0);
 
+            threads[i] = std::thread([ =, &dataMutex] ()
+            {
                 clonedRobot->setUpdateVisualization(false);
                 RobotNodeSetPtr clonedNodeSet = clonedRobot->getRobotNodeSet(this->nodeSet->getName());
                 RobotNodePtr clonedTcpNode = clonedRobot->getRobotNode(this->tcpNode->getName());
@@ -802,7 +804,7 @@ namespace VirtualRobot
                 PoseQualityMeasurementPtr clonedMeasure  = this->measure->clone(clonedRobot);
 
                 // now sample some configs and add them to the workspace data
-                for (int j = 0; j < numPosesPerThread; j++)
+                for (unsigned int j = 0; j < numPoses; j++)
                 {
                     float rndValue;
                     float minJ, maxJ;
@@ -836,12 +838,14 @@ namespace VirtualRobot
                             break;
                         }
 
+                        std::unique_lock<std::mutex> lock(dataMutex);
                         this->collisionConfigs++;
                     }
 
                     if (successfullyRandomized)
                     {
                         Eigen::Matrix4f p = clonedTcpNode->getGlobalPose();
+                        std::unique_lock<std::mutex> lock(dataMutex);
                         addPose(p, clonedMeasure, selfDistStatic, selfDistDynamic);
                     }
                     else
@@ -854,7 +858,7 @@ namespace VirtualRobot
         }
 
         // wait for all threads to finish
-        for (int i = 0; i < numThreads; i++)
+        for (unsigned int i = 0; i < numThreads; i++)
         {
             threads[i].join();
         }
-- 
2.43.0


From 1a34ca11e76d6b633cd4de8cc1efb0b1f3ca97f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:18 +0000
Subject: [PATCH 056/136] fix: FileIO::readString of an empty string

---
 VirtualRobot/XML/FileIO.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/VirtualRobot/XML/FileIO.h b/VirtualRobot/XML/FileIO.h
index 85489fa..42613ee 100644
--- a/VirtualRobot/XML/FileIO.h
+++ b/VirtualRobot/XML/FileIO.h
@@ -57,6 +57,7 @@ namespace VirtualRobot
 
         inline bool readString(std::string& res, std::ifstream& file)
         {
+            res.clear();
             int length = read<int32_t>(file);
 
             if (length <= 0)
-- 
2.43.0


From 147fe15ce655a551aa48ad38e4f9d6dbe9dd3fd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:18 +0000
Subject: [PATCH 057/136] fix: FileIO detects the end of the file

---
 VirtualRobot/Workspace/Manipulability.cpp |  2 +-
 VirtualRobot/XML/FileIO.h                 | 16 ++++++++++++++++
 2 files changed, 17 insertions(+), 1 deletion(-)

diff --git a/VirtualRobot/Workspace/Manipulability.cpp b/VirtualRobot/Workspace/Manipulability.cpp
index 8bf6539..53e9201 100644
--- a/VirtualRobot/Workspace/Manipulability.cpp
+++ b/VirtualRobot/Workspace/Manipulability.cpp
@@ -236,7 +236,7 @@ namespace VirtualRobot
             considerJL = true;
         }
 
-        file.read((char*)&maxManip, sizeof(float));
+        maxManip = FileIO::read<float>(file);
 
         considerSelfDist = false;
         selfDistStatic.reset();
diff --git a/VirtualRobot/XML/FileIO.h b/VirtualRobot/XML/FileIO.h
index 42613ee..1e26020 100644
--- a/VirtualRobot/XML/FileIO.h
+++ b/VirtualRobot/XML/FileIO.h
@@ -23,6 +23,7 @@
 #pragma once
 
 #include "../VirtualRobot.h"
+#include "../VirtualRobotException.h"
 
 #include <vector>
 #include <fstream>
@@ -37,12 +38,25 @@ namespace VirtualRobot
         {
             T t;
             file.read((char*)&t, sizeof(T));
+            THROW_VR_EXCEPTION_IF(!file, "Unexpected end of file");
             return t;
         }
 
         template<typename T> inline void readArray(T* res, int num, std::ifstream& file)
         {
+            THROW_VR_EXCEPTION_IF(num < 0, "Bad array size in file: " << num);
             file.read((char*)res, num * sizeof(T));
+            THROW_VR_EXCEPTION_IF(!file, "Unexpected end of file");
+        }
+
+        //! The number of bytes from the current position to the end of the file.
+        inline std::streamoff remaining(std::ifstream& file)
+        {
+            std::streampos pos = file.tellg();
+            file.seekg(0, std::ios::end);
+            std::streamoff res = file.tellg() - pos;
+            file.seekg(pos);
+            return res;
         }
 
         template<typename T> inline void write(std::ofstream& file, T value)
@@ -66,6 +80,8 @@ namespace VirtualRobot
                 return false;
             }
 
+            THROW_VR_EXCEPTION_IF(remaining(file) < length, "Bad string length in file: " << length);
+
             char* data = new char[length + 1];
             file.read(data, length);
             data[length] = '\0';
-- 
2.43.0


From 084327b6c43e7752373acb11e915566590f32cae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:43 +0000
Subject: [PATCH 058/136] fix: WorkspaceRepresentation::load checks the sizes
 in the file

---
 VirtualRobot/Compression/CompressionRLE.cpp   | 39 ++++++++++-
 VirtualRobot/Compression/CompressionRLE.h     |  7 ++
 .../Workspace/WorkspaceRepresentation.cpp     | 68 ++++++++++++-------
 3 files changed, 85 insertions(+), 29 deletions(-)

diff --git a/VirtualRobot/Compression/CompressionRLE.cpp b/VirtualRobot/Compression/CompressionRLE.cpp
index 5ac5151..43b95c6 100644
--- a/VirtualRobot/Compression/CompressionRLE.cpp
+++ b/VirtualRobot/Compression/CompressionRLE.cpp
@@ -66,6 +66,7 @@
 *************************************************************************/
 
 #include "CompressionRLE.h"
+#include <climits>
 
 namespace VirtualRobot
 {
@@ -288,6 +289,12 @@ namespace VirtualRobot
 
     void CompressionRLE::RLE_Uncompress(const unsigned char* in, unsigned char* out,
                                         unsigned int insize)
+    {
+        RLE_Uncompress(in, out, insize, UINT_MAX);
+    }
+
+    long CompressionRLE::RLE_Uncompress(const unsigned char* in, unsigned char* out,
+                                        unsigned int insize, unsigned int outsize)
     {
         // lock our mutex as long we are in the scope of this method
         boost::mutex::scoped_lock lock(mutex);
@@ -298,7 +305,7 @@ namespace VirtualRobot
         /* Do we have anything to uncompress? */
         if (insize < 1)
         {
-            return;
+            return 0;
         }
 
         /* Get marker symbol from input stream */
@@ -308,12 +315,17 @@ namespace VirtualRobot
         /* Main decompression loop */
         outpos = 0;
 
-        do
+        while (inpos < insize)
         {
             symbol = in[ inpos ++ ];
 
             if (symbol == marker)
             {
+                if (inpos >= insize)
+                {
+                    return -1;
+                }
+
                 /* We had a marker byte */
                 count = in[ inpos ++ ];
 
@@ -321,6 +333,11 @@ namespace VirtualRobot
                 {
                     /* Counts 0, 1 and 2 are used for marker byte repetition
                        only */
+                    if (outsize - outpos < count + 1)
+                    {
+                        return -1;
+                    }
+
                     for (i = 0; i <= count; ++ i)
                     {
                         out[ outpos ++ ] = marker;
@@ -328,11 +345,21 @@ namespace VirtualRobot
                 }
                 else
                 {
+                    if (inpos + ((count & 0x80) ? 1 : 0) >= insize)
+                    {
+                        return -1;
+                    }
+
                     if (count & 0x80)
                     {
                         count = ((count & 0x7f) << 8) + in[ inpos ++ ];
                     }
 
+                    if (outsize - outpos < count + 1)
+                    {
+                        return -1;
+                    }
+
                     symbol = in[ inpos ++ ];
 
                     for (i = 0; i <= count; ++ i)
@@ -344,10 +371,16 @@ namespace VirtualRobot
             else
             {
                 /* No marker, plain copy */
+                if (outpos >= outsize)
+                {
+                    return -1;
+                }
+
                 out[ outpos ++ ] = symbol;
             }
         }
-        while (inpos < insize);
+
+        return outpos;
     }
 
 }
diff --git a/VirtualRobot/Compression/CompressionRLE.h b/VirtualRobot/Compression/CompressionRLE.h
index 936d983..a1774df 100644
--- a/VirtualRobot/Compression/CompressionRLE.h
+++ b/VirtualRobot/Compression/CompressionRLE.h
@@ -54,6 +54,13 @@ namespace VirtualRobot
         *************************************************************************/
         static void RLE_Uncompress(const unsigned char* in, unsigned char* out, unsigned int insize);
 
+        /*************************************************************************
+        * As above, but at most outsize bytes are written.
+        * The function returns the number of bytes that have been written, or -1
+        * if the compressed data is damaged or does not fit into the output buffer.
+        *************************************************************************/
+        static long RLE_Uncompress(const unsigned char* in, unsigned char* out, unsigned int insize, unsigned int outsize);
+
     protected:
         static void _RLE_WriteRep(unsigned char* out, unsigned int* outpos, unsigned char marker, unsigned char symbol, unsigned int count);
         static void _RLE_WriteNonRep(unsigned char* out, unsigned int* outpos, unsigned char marker, unsigned char symbol);
diff --git a/VirtualRobot/Workspace/WorkspaceRepresentation.cpp b/VirtualRobot/Workspace/WorkspaceRepresentation.cpp
index ef51f45..26c2486 100644
--- a/VirtualRobot/Workspace/WorkspaceRepresentation.cpp
+++ b/VirtualRobot/Workspace/WorkspaceRepresentation.cpp
@@ -19,6 +19,7 @@
 #include <cfloat>
 #include <climits>
 #include <mutex>
+#include <vector>
 #include <thread>
 
 namespace VirtualRobot
@@ -343,36 +344,55 @@ namespace VirtualRobot
             FileIO::readString(tmpString, file);
             THROW_VR_EXCEPTION_IF(tmpString != "DATA_START", "Bad file format, expecting DATA_START.");
 
-            long size = numVoxels[0] * numVoxels[1] * numVoxels[2] * numVoxels[3] * numVoxels[4] * numVoxels[5];
+            // the number of voxels has to be representable
+            long long sizeTr = 1;
+            long long sizeRot = 1;
+            for (int i = 0; i < 6; i++)
+            {
+                long long& s = i < 3 ? sizeTr : sizeRot;
+                THROW_VR_EXCEPTION_IF(numVoxels[i] <= 0 || s * numVoxels[i] > INT_MAX, "Bad number of voxels: " << numVoxels[i]);
+                s *= numVoxels[i];
+            }
+            long long size = sizeTr * sizeRot;
+
             data.reset(new WorkspaceDataArray(numVoxels[0], numVoxels[1], numVoxels[2], numVoxels[3], numVoxels[4], numVoxels[5], true));
 
             if (version[0] <= 1 || (version[0] == 2 && version[1] <= 3))
             {
                 // one data block
-                unsigned char* d = new unsigned char[size];
+                THROW_VR_EXCEPTION_IF(size > INT_MAX, "Bad number of voxels: " << size);
+                std::vector<unsigned char> dataBlock(size);
+                unsigned char* d = dataBlock.data();
 
                 if (version[0] == 1 && version[1] <= 2)
                 {
                     // Data is uncompressed
-                    FileIO::readArray<unsigned char>(d, size, file);
+                    THROW_VR_EXCEPTION_IF(size > FileIO::remaining(file), "Bad data size: " << size);
+                    FileIO::readArray<unsigned char>(d, (int)size, file);
                 }
                 else
                 {
                     // Data is compressed
                     int compressedSize = (int)(FileIO::read<ioIntTypeRead>(file));
-                    unsigned char* compressedData = new unsigned char[compressedSize];
-                    FileIO::readArray<unsigned char>(compressedData, compressedSize, file);
+                    THROW_VR_EXCEPTION_IF(compressedSize < 0 || compressedSize > FileIO::remaining(file), "Bad data size: " << compressedSize);
+                    std::vector<unsigned char> compressedData(compressedSize);
+                    FileIO::readArray<unsigned char>(compressedData.data(), compressedSize, file);
 
                     if ((version[0] > 2) || (version[0] == 2 && version[1] >= 1))
                     {
-                        CompressionRLE::RLE_Uncompress(compressedData, d, compressedSize);
+                        long n = CompressionRLE::RLE_Uncompress(compressedData.data(), d, compressedSize, (unsigned int)size);
+                        THROW_VR_EXCEPTION_IF(n != size, "Bad data block");
                     }
                     else
                     {
-                        uncompressData(compressedData, compressedSize, d);
+                        long long n = 0;
+                        for (int i = 0; i < compressedSize / 2; i++)
+                        {
+                            n += compressedData[2 * i];
+                        }
+                        THROW_VR_EXCEPTION_IF(n != size, "Bad data block");
+                        uncompressData(compressedData.data(), compressedSize, d);
                     }
-
-                    delete[] compressedData;
                 }
 
                 // convert old data format
@@ -400,7 +420,6 @@ namespace VirtualRobot
                         }
 
                 delete [] dRot;
-                delete[] d;
             }
             else
             {
@@ -417,7 +436,7 @@ namespace VirtualRobot
                 if (compressionBZIP2)
                 {
                     int dataSize = numVoxels[3] * numVoxels[4] * numVoxels[5];
-                    unsigned char* uncompressedData = new unsigned char[dataSize];
+                    std::vector<unsigned char> uncompressedData(dataSize);
                     CompressionBZip2Ptr bzip2(new CompressionBZip2(&file));
 
                     for (int x = 0; x < numVoxels[0]; x++)
@@ -425,14 +444,12 @@ namespace VirtualRobot
                             for (int z = 0; z < numVoxels[2]; z++)
                             {
                                 int n;
-                                bool readOK = bzip2->read((void*)(uncompressedData), dataSize, n);
+                                bool readOK = bzip2->read((void*)(uncompressedData.data()), dataSize, n);
 
                                 if (!readOK || (n != dataSize && n != 0))
                                 {
-                                    VR_ERROR << "Invalid number of bytes?!" << endl;
                                     bzip2->close();
-                                    file.close();
-                                    return;
+                                    THROW_VR_EXCEPTION("Invalid number of bytes in data block");
                                 }
 
                                 if (n == 0) // no data in block
@@ -454,18 +471,17 @@ namespace VirtualRobot
 
                                 if (!empty)
                                 {
-                                    data->setDataRot(uncompressedData, x, y, z);
+                                    data->setDataRot(uncompressedData.data(), x, y, z);
                                 }
                             }
 
-                    delete[] uncompressedData;
                     bzip2->close();
                 }
                 else
                 {
-                    int maxCompressedSize = numVoxels[3] * numVoxels[4] * numVoxels[5] * 3;
-                    unsigned char* compressedData = new unsigned char[maxCompressedSize];
-                    unsigned char* uncompressedData = new unsigned char[numVoxels[3]*numVoxels[4]*numVoxels[5]];
+                    int dataSize = numVoxels[3] * numVoxels[4] * numVoxels[5];
+                    std::vector<unsigned char> compressedData;
+                    std::vector<unsigned char> uncompressedData(dataSize);
 
                     for (int x = 0; x < numVoxels[0]; x++)
                         for (int y = 0; y < numVoxels[1]; y++)
@@ -473,14 +489,14 @@ namespace VirtualRobot
                             {
                                 int compressedSize = (int)(FileIO::read<ioIntTypeRead>(file));
 
-                                FileIO::readArray<unsigned char>(compressedData, compressedSize, file);
+                                THROW_VR_EXCEPTION_IF(compressedSize < 0 || compressedSize > FileIO::remaining(file), "Bad data size: " << compressedSize);
+                                compressedData.resize(compressedSize);
+                                FileIO::readArray<unsigned char>(compressedData.data(), compressedSize, file);
 
-                                CompressionRLE::RLE_Uncompress(compressedData, uncompressedData, compressedSize);
-                                data->setDataRot(uncompressedData, x, y, z);
+                                long n = CompressionRLE::RLE_Uncompress(compressedData.data(), uncompressedData.data(), compressedSize, dataSize);
+                                THROW_VR_EXCEPTION_IF(n != dataSize, "Bad data block");
+                                data->setDataRot(uncompressedData.data(), x, y, z);
                             }
-
-                    delete[] compressedData;
-                    delete[] uncompressedData;
                 }
             }
 
-- 
2.43.0


From 8a65d3327bd6a5b45d3197195aad562ab109cde3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:43 +0000
Subject: [PATCH 059/136] fix: WorkspaceRepresentation::save of maps loaded
 from old files

---
 VirtualRobot/Workspace/Manipulability.cpp          | 5 +++++
 VirtualRobot/Workspace/WorkspaceRepresentation.cpp | 7 +++++++
 2 files changed, 12 insertions(+)

diff --git a/VirtualRobot/Workspace/Manipulability.cpp b/VirtualRobot/Workspace/Manipulability.cpp
index 53e9201..135eed5 100644
--- a/VirtualRobot/Workspace/Manipulability.cpp
+++ b/VirtualRobot/Workspace/Manipulability.cpp
@@ -355,6 +355,11 @@ namespace VirtualRobot
         FileIO::writeString(file, selfDistRNS2);
 
         // since 2.9: alpha and beta for self dist
+        if (versionMajor < 2 || (versionMajor == 2 && versionMinor < 9))
+        {
+            return true;
+        }
+
         float selfDistA = 0.0f;
         float selfDistB = 0.0f;
         PoseQualityExtendedManipulabilityPtr pqm = boost::dynamic_pointer_cast<PoseQualityExtendedManipulability>(measure);
diff --git a/VirtualRobot/Workspace/WorkspaceRepresentation.cpp b/VirtualRobot/Workspace/WorkspaceRepresentation.cpp
index 26c2486..f99b1e3 100644
--- a/VirtualRobot/Workspace/WorkspaceRepresentation.cpp
+++ b/VirtualRobot/Workspace/WorkspaceRepresentation.cpp
@@ -506,6 +506,13 @@ namespace VirtualRobot
 
             FileIO::readString(tmpString, file);
             THROW_VR_EXCEPTION_IF(tmpString != "DATA_END", "Bad file format, expecting DATA_END");
+
+            // save() does not write the data formats before version 2.5 (which has the same pose encoding)
+            if (versionMajor < 2 || (versionMajor == 2 && versionMinor < 5))
+            {
+                versionMajor = 2;
+                versionMinor = 5;
+            }
         }
         catch (VirtualRobotException& e)
         {
-- 
2.43.0


From 1661e55020506a3821352afb16543c3941b4ec04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:17 +0000
Subject: [PATCH 060/136] fix: CSpacePath::getLength passes the weight flag on
 correctly

---
 MotionPlanning/CSpace/CSpacePath.cpp                | 2 +-
 MotionPlanning/PostProcessing/ShortcutProcessor.cpp | 3 +--
 2 files changed, 2 insertions(+), 3 deletions(-)

diff --git a/MotionPlanning/CSpace/CSpacePath.cpp b/MotionPlanning/CSpace/CSpacePath.cpp
index 411d947..3aa3caf 100644
--- a/MotionPlanning/CSpace/CSpacePath.cpp
+++ b/MotionPlanning/CSpace/CSpacePath.cpp
@@ -135,7 +135,7 @@ namespace Saba
             c1 = path[i];
             c2 = path[i + 1];
 
-            l = cspace->calcDist(c1, c2, useCSpaceWeights);
+            l = cspace->calcDist(c1, c2, !useCSpaceWeights);
             pathLength += l;
         }
 
diff --git a/MotionPlanning/PostProcessing/ShortcutProcessor.cpp b/MotionPlanning/PostProcessing/ShortcutProcessor.cpp
index 665932f..06a0375 100644
--- a/MotionPlanning/PostProcessing/ShortcutProcessor.cpp
+++ b/MotionPlanning/PostProcessing/ShortcutProcessor.cpp
@@ -291,10 +291,9 @@ namespace Saba
 
         Eigen::VectorXf s = optimizedPath->getPoint(startIndex);
         Eigen::VectorXf e = optimizedPath->getPoint(endIndex);
-        Eigen::VectorXf d = e - s;
 
         // test line between start and end
-        float distShortcut = d.norm();
+        float distShortcut = cspace->calcDist(s, e);
         float distPath = optimizedPath->getLength(startIndex, endIndex);
 
         // -------------------------------------------------------------------
-- 
2.43.0


From 93421e6903a3448695716f53850e9775c61663ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:17 +0000
Subject: [PATCH 061/136] fix: CSpacePath::interpolate segment index and
 borderless dimensions

---
 MotionPlanning/CSpace/CSpacePath.cpp | 37 +++++++++-------------------
 1 file changed, 12 insertions(+), 25 deletions(-)

diff --git a/MotionPlanning/CSpace/CSpacePath.cpp b/MotionPlanning/CSpace/CSpacePath.cpp
index 3aa3caf..3eeb073 100644
--- a/MotionPlanning/CSpace/CSpacePath.cpp
+++ b/MotionPlanning/CSpace/CSpacePath.cpp
@@ -272,6 +272,11 @@ namespace Saba
 
         float l = getLength();
 
+        if (l == 0.0f)
+        {
+            return t;
+        }
+
         Eigen::VectorXf c1 = getPoint(0);
 
         for (unsigned int i = 0; i < nr; i++)
@@ -331,7 +336,7 @@ namespace Saba
 
             if (storeIndex != nullptr)
             {
-                *storeIndex = (int)path.size();
+                *storeIndex = (int)path.size() - 1;
             }
 
             return;
@@ -357,7 +362,11 @@ namespace Saba
             actLength += lastLength;
         }
 
-        startIndex--;
+        if (startIndex > 0)
+        {
+            startIndex--;
+        }
+
         actLength -= lastLength;
 
         // segment starts with startIndex
@@ -376,29 +385,7 @@ namespace Saba
             factor = 1.0f;
         }
 
-        for (unsigned int j = 0; j < dimension; j++)
-        {
-            if (cspace->isBorderlessDimension(j))
-            {
-                float diff = (c2[j] - c1[j]);
-
-                if (diff > M_PI) // TODO maybe better: while (diff > M_PI) diff -= M_PI * 2.0f;
-                {
-                    diff -= (float)M_PI * 2.0f;
-                }
-
-                if (diff < -M_PI) // TODO same as above
-                {
-                    diff += (float)M_PI * 2.0f;
-                }
-
-                storePathPos[j] = c1[j] +  diff * factor; // storePos = startPos + factor*segment
-            }
-            else
-            {
-                storePathPos[j] = c1[j] + (c2[j] - c1[j]) * factor; // storePos = startPos + factor*segment
-            }
-        }
+        storePathPos = cspace->interpolate(c1, c2, factor); // storePos = startPos + factor*segment
 
         if (storeIndex != nullptr)
         {
-- 
2.43.0


From a0342168359a40fd1a147775c1fd88248bf2228a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:17 +0000
Subject: [PATCH 062/136] fix: CSpace::checkSolution checks every point of the
 path

---
 MotionPlanning/CSpace/CSpace.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/MotionPlanning/CSpace/CSpace.cpp b/MotionPlanning/CSpace/CSpace.cpp
index 40a496b..1a48c43 100644
--- a/MotionPlanning/CSpace/CSpace.cpp
+++ b/MotionPlanning/CSpace/CSpace.cpp
@@ -178,7 +178,12 @@ namespace Saba
             SABA_INFO << "Checking " << s << " segments:" << endl;
         }
 
-        for (unsigned int i = s - 1; i > 0; i--)
+        if (s > 0 && !isConfigValid(solution->getPoint(s - 1), false, true, true))
+        {
+            return false;
+        }
+
+        for (unsigned int i = s; i-- > 1;)
         {
             clock_t t1 = clock();
             bool bColFree = isPathValid(solution->getPoint(i), solution->getPoint(i - 1));
-- 
2.43.0


From d1a343d1c47a7b18f724db0963d28937693394a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:17 +0000
Subject: [PATCH 063/136] fix: CSpace: a dimension with narrowed boundaries is
 not borderless

---
 MotionPlanning/CSpace/CSpace.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/MotionPlanning/CSpace/CSpace.cpp b/MotionPlanning/CSpace/CSpace.cpp
index 1a48c43..da75133 100644
--- a/MotionPlanning/CSpace/CSpace.cpp
+++ b/MotionPlanning/CSpace/CSpace.cpp
@@ -827,7 +827,8 @@ namespace Saba
 //                return true;
 //            }
 //        }
-        return robotJoints[dim]->isLimitless();
+        // a dimension whose boundaries do not cover the full circle cannot be wrapped
+        return robotJoints[dim]->isLimitless() && boundaryDist[dim] > (float)(1.99999 * M_PI);
     }
 
     unsigned int CSpace::getDimension() const
-- 
2.43.0


From eb541910a848b9eb2f9fb2964c7a2411f3aab85d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:17 +0000
Subject: [PATCH 064/136] fix: Sampler stores its dimension and initializes the
 weights

---
 MotionPlanning/CSpace/Sampler.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/MotionPlanning/CSpace/Sampler.cpp b/MotionPlanning/CSpace/Sampler.cpp
index 2ce3810..276d879 100644
--- a/MotionPlanning/CSpace/Sampler.cpp
+++ b/MotionPlanning/CSpace/Sampler.cpp
@@ -6,8 +6,8 @@ namespace Saba
 
     Sampler::Sampler(unsigned int dimension)
     {
-        dimension = dimension;
-        metricWeights.Ones(dimension);
+        this->dimension = dimension;
+        metricWeights.setOnes(dimension);
     }
 
     Sampler::~Sampler()
-- 
2.43.0


From 5162ebecc6d6cc90161dfe6f84590dd409a43298 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:17 +0000
Subject: [PATCH 065/136] fix: CSpaceTree::getTreeLength resolves parents by ID

---
 MotionPlanning/CSpace/CSpaceTree.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/MotionPlanning/CSpace/CSpaceTree.cpp b/MotionPlanning/CSpace/CSpaceTree.cpp
index 44b6fb5..317a21b 100644
--- a/MotionPlanning/CSpace/CSpaceTree.cpp
+++ b/MotionPlanning/CSpace/CSpaceTree.cpp
@@ -463,9 +463,9 @@ namespace Saba
 
         for (unsigned int i = 0; i < nMaxNodes; i++)
         {
-            if (nodes[i] && nodes[i]->parentID >= 0 && nodes[i]->parentID < (int)nMaxNodes)
+            if (nodes[i] && nodes[i]->parentID >= 0 && idNodeMapping.count(nodes[i]->parentID) > 0)
             {
-                res += cspace->calcDist(nodes[i]->configuration, nodes[nodes[i]->parentID]->configuration, !useMetricWeights);
+                res += cspace->calcDist(nodes[i]->configuration, idNodeMapping[nodes[i]->parentID]->configuration, !useMetricWeights);
             }
         }
 
-- 
2.43.0


From ab7b054880baea11c094668bf339c3d9343420c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:17 +0000
Subject: [PATCH 066/136] fix: CSpaceTree::reset returns its nodes to the
 cspace

---
 MotionPlanning/CSpace/CSpaceTree.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/MotionPlanning/CSpace/CSpaceTree.cpp b/MotionPlanning/CSpace/CSpaceTree.cpp
index 317a21b..32e6b39 100644
--- a/MotionPlanning/CSpace/CSpaceTree.cpp
+++ b/MotionPlanning/CSpace/CSpaceTree.cpp
@@ -57,6 +57,15 @@ namespace Saba
 
     void CSpaceTree::reset()
     {
+        for (const auto& node : nodes)
+        {
+            // nodes may have been released by a reset of the cspace
+            if (node->allocated)
+            {
+                cspace->removeNode(node);
+            }
+        }
+
         idNodeMapping.clear();
         nodes.clear();
     }
-- 
2.43.0


From db223b5f16525d8658773704180f99e123516139 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:18 +0000
Subject: [PATCH 067/136] fix: CSpaceSampled::createPathUntilInvalid reports
 the complete valid part

---
 MotionPlanning/CSpace/CSpaceSampled.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/MotionPlanning/CSpace/CSpaceSampled.cpp b/MotionPlanning/CSpace/CSpaceSampled.cpp
index 3ec0733..ff8a226 100644
--- a/MotionPlanning/CSpace/CSpaceSampled.cpp
+++ b/MotionPlanning/CSpace/CSpaceSampled.cpp
@@ -213,18 +213,18 @@ namespace Saba
                 }
 
                 nodeDist += colCheckDist;
+                float distT = calcDist(tmpConfig, goal);
 
                 if (nodeDist >= samplingSizePaths)
                 {
                     // create a new node with config, store it in nodeList and set parentID
                     p->addPoint(tmpConfig);
-                    storeAddedLength = (origDist - dist) / origDist;
+                    storeAddedLength = (origDist - distT) / origDist;
                     LOCAL_DEBUG("addPoint (length: " << storeAddedLength << ") " << endl << tmpConfig << endl);
                     nodeDist -= samplingSizePaths;
                     LOCAL_DEBUG("addPoint (nodeDist: " << nodeDist << ")" << endl);
                 }
 
-                float distT = calcDist(tmpConfig, goal);
                 SABA_ASSERT(distT < dist);
                 dist = distT;
             }
-- 
2.43.0


From 17a83d0cadf859604a80d3f3e6a89ecaff4fd9de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:18 +0000
Subject: [PATCH 068/136] fix: CSpaceSampled::clone works on the new robot

---
 MotionPlanning/CSpace/CSpaceSampled.cpp | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/MotionPlanning/CSpace/CSpaceSampled.cpp b/MotionPlanning/CSpace/CSpaceSampled.cpp
index ff8a226..db92229 100644
--- a/MotionPlanning/CSpace/CSpaceSampled.cpp
+++ b/MotionPlanning/CSpace/CSpaceSampled.cpp
@@ -51,14 +51,20 @@ namespace Saba
             return CSpaceSampledPtr();
         }
 
-        CSpaceSampledPtr result(new CSpaceSampled(newRobot, newCDM, robotNodes, newRandomSeed));
-        result->setBoundaries(boundaryMin, boundaryMax);
+        VirtualRobot::RobotNodeSetPtr newRobotNodes = newRobot->getRobotNodeSet(robotNodes->getName());
 
-        if (useMetricWeights)
+        if (!newRobotNodes)
         {
-            result->setMetricWeights(metricWeights);
+            SABA_ERROR << ": No robot node set " << robotNodes->getName() << " in new robot..." << endl;
+            return CSpaceSampledPtr();
         }
 
+        CSpaceSampledPtr result(new CSpaceSampled(newRobot, newCDM, newRobotNodes, maxNodes, newRandomSeed));
+        result->checkForBorderlessDimensions(checkForBorderlessDims);
+        result->setBoundaries(boundaryMin, boundaryMax);
+        result->setMetricWeights(metricWeights);
+        result->enableWeights(useMetricWeights);
+
         // sampled cspace
         result->setSamplingSize(getSamplingSize());
         result->setSamplingSizeDCD(getSamplingSizeDCD());
-- 
2.43.0


From 0b90f1f8fbf5d1a79e2a855f8c41dd9e33827330 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:18 +0000
Subject: [PATCH 069/136] fix: CSpaceTree: connecting a node with its own
 configuration succeeds

---
 MotionPlanning/CSpace/CSpaceTree.cpp | 21 +++++++++++++++++++--
 MotionPlanning/Planner/Rrt.cpp       |  2 +-
 2 files changed, 20 insertions(+), 3 deletions(-)

diff --git a/MotionPlanning/CSpace/CSpaceTree.cpp b/MotionPlanning/CSpace/CSpaceTree.cpp
index 32e6b39..b30e714 100644
--- a/MotionPlanning/CSpace/CSpaceTree.cpp
+++ b/MotionPlanning/CSpace/CSpaceTree.cpp
@@ -204,7 +204,18 @@ namespace Saba
 
         if (res->getNrOfPoints() <= 1)
         {
-            return false;
+            if (dist != 1.0f)
+            {
+                return false;
+            }
+
+            // the node already has the requested configuration
+            if (storeLastAddedID)
+            {
+                *storeLastAddedID = startNode->ID;
+            }
+
+            return true;
         }
 
         res->erasePosition(0);
@@ -251,7 +262,13 @@ namespace Saba
 
         if (res->getNrOfPoints() <= 1)
         {
-            return false;
+            // the node already has the requested configuration
+            if (storeLastAddedID)
+            {
+                *storeLastAddedID = startNode->ID;
+            }
+
+            return true;
         }
 
         res->erasePosition(0);
diff --git a/MotionPlanning/Planner/Rrt.cpp b/MotionPlanning/Planner/Rrt.cpp
index 1c5ab1e..4c925c2 100644
--- a/MotionPlanning/Planner/Rrt.cpp
+++ b/MotionPlanning/Planner/Rrt.cpp
@@ -434,7 +434,7 @@ namespace Saba
 
         // check if we have a path
 
-        if (!goalNode || goalNode->parentID < 0)
+        if (!goalNode || !startNode || !tree->hasNode(goalNode))
         {
             SABA_WARNING << " no path to goal..." << std::endl;
             return false;
-- 
2.43.0


From d2e96838e8435b0400773dc7eaa41c8648d91b0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:18 +0000
Subject: [PATCH 070/136] fix: planners offer no solution after a failed search

---
 MotionPlanning/Planner/BiRrt.cpp      | 12 +++++++++---
 MotionPlanning/Planner/GraspIkRrt.cpp |  5 ++---
 MotionPlanning/Planner/Rrt.cpp        |  7 ++++---
 3 files changed, 15 insertions(+), 9 deletions(-)

diff --git a/MotionPlanning/Planner/BiRrt.cpp b/MotionPlanning/Planner/BiRrt.cpp
index aa666c2..1c83b0c 100644
--- a/MotionPlanning/Planner/BiRrt.cpp
+++ b/MotionPlanning/Planner/BiRrt.cpp
@@ -90,6 +90,7 @@ namespace Saba
         clock_t startClock = clock();
 
         solution.reset();
+        goalNode.reset();
 
         RobotPtr robot = cspace->getRobot();
         bool bVisStatus = true;
@@ -264,9 +265,7 @@ namespace Saba
                 SABA_INFO << "Found RRT solution with " << cycles << " cycles." << std::endl;
             }
 
-            createSolution(bQuiet);
-
-            return true;
+            return createSolution(bQuiet);
         }
 
         // something went wrong...
@@ -291,6 +290,13 @@ namespace Saba
         // delete an existing solution if necessary
         solution.reset();
 
+        // the trees have not been connected
+        if (!goalNode)
+        {
+            SABA_WARNING << " no path to goal..." << std::endl;
+            return false;
+        }
+
         // vectors to save the node ids for solution path
         std::vector<int> tmpSol; // tree
         std::vector<int> tmpSol2; // tree2
diff --git a/MotionPlanning/Planner/GraspIkRrt.cpp b/MotionPlanning/Planner/GraspIkRrt.cpp
index 2c6b1fd..540c849 100644
--- a/MotionPlanning/Planner/GraspIkRrt.cpp
+++ b/MotionPlanning/Planner/GraspIkRrt.cpp
@@ -210,6 +210,7 @@ namespace Saba
         clock_t startClock = clock();
 
         solution.reset();
+        goalNode.reset();
 
         RobotPtr robot = cspace->getRobot();
         bool bVisStatus = true;
@@ -273,9 +274,7 @@ namespace Saba
                 SABA_INFO << "Found RRT solution with " << cycles << " cycles." << std::endl;
             }
 
-            createSolution(bQuiet);
-
-            return true;
+            return createSolution(bQuiet);
         }
 
         // something went wrong...
diff --git a/MotionPlanning/Planner/Rrt.cpp b/MotionPlanning/Planner/Rrt.cpp
index 4c925c2..f34d39a 100644
--- a/MotionPlanning/Planner/Rrt.cpp
+++ b/MotionPlanning/Planner/Rrt.cpp
@@ -90,6 +90,7 @@ namespace Saba
         clock_t startClock = clock();
 
         solution.reset();
+        goalNode.reset();
 
         RobotPtr robot = cspace->getRobot();
         bool bVisStatus = true;
@@ -231,9 +232,7 @@ namespace Saba
                 SABA_INFO << "Found RRT solution with " << cycles << " cycles." << std::endl;
             }
 
-            createSolution(bQuiet);
-
-            return true;
+            return createSolution(bQuiet);
         }
 
         // something went wrong...
@@ -411,6 +410,8 @@ namespace Saba
             tree->reset();
         }
 
+        goalNode.reset();
+
         // init root node of RRT
         startNode = tree->appendNode(c, -1);
 
-- 
2.43.0


From b5863ae009cd590c86936dcb1000de9bb5a7b1df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:18 +0000
Subject: [PATCH 071/136] fix: BiRrt::setGoal replaces the goal tree

---
 MotionPlanning/Planner/BiRrt.cpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/MotionPlanning/Planner/BiRrt.cpp b/MotionPlanning/Planner/BiRrt.cpp
index 1c83b0c..f44a1eb 100644
--- a/MotionPlanning/Planner/BiRrt.cpp
+++ b/MotionPlanning/Planner/BiRrt.cpp
@@ -389,13 +389,16 @@ namespace Saba
             return false;
         }
 
-        // copy goal values
-        if (goalNode)
+        // remove nodes that lead to an old goal
+        if (tree2->getNrOfNodes() > 0)
         {
-            tree2->removeNode(goalNode);
+            tree2->reset();
         }
 
-        goalNode =  tree2->appendNode(c, -1);
+        goalNode.reset();
+
+        // init root node of the second tree
+        tree2->appendNode(c, -1);
 
         return true;
     }
-- 
2.43.0


From 5ce3971d73bb94e1ecc08fa3e62f922010d7a503 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:18 +0000
Subject: [PATCH 072/136] fix: planners restore the visualization of the robot
 after a timeout

---
 MotionPlanning/Planner/BiRrt.cpp      | 7 +++++++
 MotionPlanning/Planner/GraspIkRrt.cpp | 7 +++++++
 MotionPlanning/Planner/Rrt.cpp        | 7 +++++++
 3 files changed, 21 insertions(+)

diff --git a/MotionPlanning/Planner/BiRrt.cpp b/MotionPlanning/Planner/BiRrt.cpp
index f44a1eb..72a83df 100644
--- a/MotionPlanning/Planner/BiRrt.cpp
+++ b/MotionPlanning/Planner/BiRrt.cpp
@@ -225,6 +225,13 @@ namespace Saba
             if(diffClock > planningTimeout)
             {
                 std::cout << "Encountered timeout of " << planningTimeout << " ms - aborting" << std::endl;
+                planningTime = (float)diffClock;
+
+                if (robot && bVisStatus)
+                {
+                    robot->setUpdateVisualization(bVisStatus);
+                }
+
                 return false;
             }
 
diff --git a/MotionPlanning/Planner/GraspIkRrt.cpp b/MotionPlanning/Planner/GraspIkRrt.cpp
index 540c849..f694d85 100644
--- a/MotionPlanning/Planner/GraspIkRrt.cpp
+++ b/MotionPlanning/Planner/GraspIkRrt.cpp
@@ -234,6 +234,13 @@ namespace Saba
             if(diffClock > planningTimeout)
             {
                 std::cout << "Encountered timeout of " << planningTimeout << " ms - aborting" << std::endl;
+                planningTime = (float)diffClock;
+
+                if (robot && bVisStatus)
+                {
+                    robot->setUpdateVisualization(bVisStatus);
+                }
+
                 return false;
             }
         }
diff --git a/MotionPlanning/Planner/Rrt.cpp b/MotionPlanning/Planner/Rrt.cpp
index f34d39a..6620d64 100644
--- a/MotionPlanning/Planner/Rrt.cpp
+++ b/MotionPlanning/Planner/Rrt.cpp
@@ -192,6 +192,13 @@ namespace Saba
             if(diffClock > planningTimeout)
             {
                 std::cout << "Encountered timeout of " << planningTimeout << " ms - aborting" << std::endl;
+                planningTime = (float)diffClock;
+
+                if (robot && bVisStatus)
+                {
+                    robot->setUpdateVisualization(bVisStatus);
+                }
+
                 return false;
             }
 
-- 
2.43.0


From 28b53d08de0f1a1c5ed417096baae35277051cb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:18 +0000
Subject: [PATCH 073/136] fix: MotionPlanner refuses start and goal
 configurations that violate constraints

---
 MotionPlanning/Planner/MotionPlanner.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/MotionPlanning/Planner/MotionPlanner.cpp b/MotionPlanning/Planner/MotionPlanner.cpp
index 1ab9648..ad1b8e3 100644
--- a/MotionPlanning/Planner/MotionPlanner.cpp
+++ b/MotionPlanning/Planner/MotionPlanner.cpp
@@ -119,6 +119,12 @@ namespace Saba
             return false;
         }
 
+        if (cspace && !cspace->isSatisfyingConstraints(startConfig))
+        {
+            SABA_WARNING << " start pos does violate constraints of the CSpace!" << std::endl;
+            return false;
+        }
+
         startValid = true;
         return true;
     }
@@ -148,6 +154,12 @@ namespace Saba
             return false;
         }
 
+        if (cspace && !cspace->isSatisfyingConstraints(goalConfig))
+        {
+            SABA_WARNING << " goal pos does violate constraints of the CSpace!" << std::endl;
+            return false;
+        }
+
         goalValid = true;
         return true;
     }
-- 
2.43.0


From f1c409a4ec5a2c7376ecf862c7351f60a5c0922d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:18 +0000
Subject: [PATCH 074/136] fix: ShortcutProcessor: number of saved points, short
 paths and verbose mode

---
 MotionPlanning/PostProcessing/ShortcutProcessor.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/MotionPlanning/PostProcessing/ShortcutProcessor.cpp b/MotionPlanning/PostProcessing/ShortcutProcessor.cpp
index 06a0375..be0272a 100644
--- a/MotionPlanning/PostProcessing/ShortcutProcessor.cpp
+++ b/MotionPlanning/PostProcessing/ShortcutProcessor.cpp
@@ -27,6 +27,11 @@ namespace Saba
             return 0;
         }
 
+        if (!optimizedPath && !initSolution())
+        {
+            return 0;
+        }
+
         if (verbose)
         {
             SABA_INFO << "Path length: " << optimizedPath->getLength() << std::endl;
@@ -122,7 +127,7 @@ namespace Saba
             }
         }
 
-        int nodes = endIndex - startIndex - 1 + newP;
+        int nodes = endIndex - startIndex - 1 - newP;
 
         if (verbose)
         {
@@ -202,7 +207,7 @@ namespace Saba
 
         unsigned int i = 0;
 
-        while (i < optimizedPath->getNrOfPoints() - 2)
+        while (i + 2 < optimizedPath->getNrOfPoints())
         {
             Eigen::VectorXf startConfig = optimizedPath->getPoint(i);
             Eigen::VectorXf endConfig = optimizedPath->getPoint(i + 2);
-- 
2.43.0


From 24f51ff609e70bec1da211cb397daae9d9a1154f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:18 +0000
Subject: [PATCH 075/136] fix: ElasticBandProcessor: neighbor force,
 visualization status and short paths

---
 MotionPlanning/PostProcessing/ElasticBandProcessor.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/MotionPlanning/PostProcessing/ElasticBandProcessor.cpp b/MotionPlanning/PostProcessing/ElasticBandProcessor.cpp
index 1596a84..142729b 100644
--- a/MotionPlanning/PostProcessing/ElasticBandProcessor.cpp
+++ b/MotionPlanning/PostProcessing/ElasticBandProcessor.cpp
@@ -174,7 +174,7 @@ using namespace VirtualRobot;
          Eigen::VectorXf fc;
 
 
-        for (unsigned int i=1;i<optimizedPath->getNrOfPoints()-1;i++)
+        for (unsigned int i=1;i+1<optimizedPath->getNrOfPoints();i++)
         {
 
             Eigen::VectorXf& before = optimizedPath->getPointRef(i-1);
@@ -222,7 +222,7 @@ using namespace VirtualRobot;
     {
         float ssd = 2 * cspace->getSamplingSize()*cspace->getSamplingSize();
 
-        for (unsigned int i=1;i<optimizedPath->getNrOfPoints()-2;i++)
+        for (unsigned int i=1;i+2<optimizedPath->getNrOfPoints();i++)
         {
             Eigen::VectorXf& before = optimizedPath->getPointRef(i-1);
             Eigen::VectorXf& act = optimizedPath->getPointRef(i);
@@ -273,7 +273,7 @@ using namespace VirtualRobot;
         unsigned int b = i;
         unsigned int c = i;
         if (i<optimizedPath->getNrOfPoints()-1)
-            a=i+1;
+            c=i+1;
 
         Eigen::VectorXf& before = optimizedPath->getPointRef(a);
         Eigen::VectorXf& act = optimizedPath->getPointRef(b);
@@ -304,6 +304,7 @@ using namespace VirtualRobot;
     {
         initSolution();
 
+        bool visStatus = rns->getRobot()->getUpdateVisualizationStatus();
         rns->getRobot()->setUpdateVisualization(false);
 
         for (int i=0;i<optimizeSteps;i++)
@@ -325,7 +326,7 @@ using namespace VirtualRobot;
             }
         }
 
-        rns->getRobot()->setUpdateVisualization(true);
+        rns->getRobot()->setUpdateVisualization(visStatus);
 
 
         return optimizedPath;
-- 
2.43.0


From 15644ae1ccccc363545d52c7fe51d3226c9d51d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:33 +0000
Subject: [PATCH 076/136] fix: stop flags of planners and path processors are
 atomic

---
 MotionPlanning/Planner/MotionPlanner.h        | 3 ++-
 MotionPlanning/PostProcessing/PathProcessor.h | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/MotionPlanning/Planner/MotionPlanner.h b/MotionPlanning/Planner/MotionPlanner.h
index 68c9359..cc7f9e9 100644
--- a/MotionPlanning/Planner/MotionPlanner.h
+++ b/MotionPlanning/Planner/MotionPlanner.h
@@ -23,6 +23,7 @@
 #pragma once
 
 #include "../Saba.h"
+#include <atomic>
 #include "../CSpace/CSpace.h"
 #include "../CSpace/CSpaceNode.h"
 #include "../CSpace/CSpaceTree.h"
@@ -142,7 +143,7 @@ namespace Saba
         CSpacePtr cspace;                   //!< the cspace on which are operating
         CSpacePathPtr solution;             //!< the solution
 
-        bool stopSearch;                    //!< indicates that the search should be interrupted
+        std::atomic<bool> stopSearch;       //!< indicates that the search should be interrupted
 
         unsigned int dimension;             //!< dimension of c-space
 
diff --git a/MotionPlanning/PostProcessing/PathProcessor.h b/MotionPlanning/PostProcessing/PathProcessor.h
index 80494e0..14f7c25 100644
--- a/MotionPlanning/PostProcessing/PathProcessor.h
+++ b/MotionPlanning/PostProcessing/PathProcessor.h
@@ -23,6 +23,7 @@
 #pragma once
 
 #include "../Saba.h"
+#include <atomic>
 
 namespace Saba
 {
@@ -65,7 +66,7 @@ namespace Saba
         unsigned int dim;
         bool verbose;
 
-        bool stopOptimization; // allows to stop a running optimization process
+        std::atomic<bool> stopOptimization; // allows to stop a running optimization process
     };
 
 } // namespace
-- 
2.43.0


From 37883f9467c6752167aeb6ad66652fae44d0414d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:33 +0000
Subject: [PATCH 077/136] fix: PlanningThread and PathProcessingThread: stop,
 restart and destruction

---
 MotionPlanning/Planner/PlanningThread.cpp     | 26 +++++++++-------
 .../PostProcessing/PathProcessingThread.cpp   | 30 ++++++++++++-------
 2 files changed, 35 insertions(+), 21 deletions(-)

diff --git a/MotionPlanning/Planner/PlanningThread.cpp b/MotionPlanning/Planner/PlanningThread.cpp
index 18365c3..f0b122a 100644
--- a/MotionPlanning/Planner/PlanningThread.cpp
+++ b/MotionPlanning/Planner/PlanningThread.cpp
@@ -34,6 +34,12 @@ namespace Saba
             return;
         }
 
+        // wait for the end of a previous run
+        if (planningThread.joinable())
+        {
+            planningThread.join();
+        }
+
         // since the start method is the only way to start the thread we can set the varaibles for indicating the state.
         threadStarted = true;
         plannerFinished = false;
@@ -43,14 +49,7 @@ namespace Saba
 
     void PlanningThread::interrupt(bool waitUntilStopped)
     {
-        if (!isRunning())
-        {
-            // thread not started, nothing to do
-            return;
-        }
-
-        // this is not perfect: we are setting a bool without protecting it with a mutex. But it works...
-        if (planner)
+        if (isRunning() && planner)
         {
             planner->stopExecution();
         }
@@ -58,9 +57,16 @@ namespace Saba
         // todo: catch boost::thread_interrupted in MotionPlanners and be sure to call boost::threa::interrupt points during planning...
         //thread.interrupt();
 
-        if (waitUntilStopped)
+        if (waitUntilStopped && planningThread.joinable())
         {
-            planningThread.join();
+            // a stop request that arrives before the execution starts is lost, so we have to repeat it
+            while (!planningThread.timed_join(boost::posix_time::milliseconds(10)))
+            {
+                if (planner)
+                {
+                    planner->stopExecution();
+                }
+            }
         }
     }
 
diff --git a/MotionPlanning/PostProcessing/PathProcessingThread.cpp b/MotionPlanning/PostProcessing/PathProcessingThread.cpp
index 2417168..7f25e5c 100644
--- a/MotionPlanning/PostProcessing/PathProcessingThread.cpp
+++ b/MotionPlanning/PostProcessing/PathProcessingThread.cpp
@@ -37,6 +37,12 @@ namespace Saba
             return;
         }
 
+        // wait for the end of a previous run
+        if (processingThread.joinable())
+        {
+            processingThread.join();
+        }
+
         // since the start method is the only way to start the thread we can set the variables for indicating the state.
         threadStarted = true;
         processingFinished = false;
@@ -48,14 +54,7 @@ namespace Saba
 
     void PathProcessingThread::interrupt(bool waitUntilStopped)
     {
-        if (!isRunning())
-        {
-            // thread not started, nothing to do
-            return;
-        }
-
-        // this is not perfect: we are setting a bool without protecting it with a mutex. But it works...
-        if (pathProcessor)
+        if (isRunning() && pathProcessor)
         {
             pathProcessor->stopExecution();
         }
@@ -63,9 +62,16 @@ namespace Saba
         // todo: catch boost::thread_interrupted in MotionPlanners and be sure to call boost::threa::interrupt points during planning...
         //thread.interrupt();
 
-        if (waitUntilStopped)
+        if (waitUntilStopped && processingThread.joinable())
         {
-            processingThread.join();
+            // a stop request that arrives before the execution starts is lost, so we have to repeat it
+            while (!processingThread.timed_join(boost::posix_time::milliseconds(10)))
+            {
+                if (pathProcessor)
+                {
+                    pathProcessor->stopExecution();
+                }
+            }
         }
     }
 
@@ -117,7 +123,9 @@ namespace Saba
 
     Saba::CSpacePathPtr PathProcessingThread::getProcessedPath()
     {
-        if (isRunning())
+        boost::lock_guard<boost::mutex> lock(mutex);
+
+        if (threadStarted)
         {
             return Saba::CSpacePathPtr();    // no results yet
         }
-- 
2.43.0


From 81d83491751c699df60b1664d09de533d481db96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:33 +0000
Subject: [PATCH 078/136] fix: PlanningThread and PathProcessingThread survive
 exceptions of the worker

---
 MotionPlanning/Planner/PlanningThread.cpp             | 11 ++++++++++-
 .../PostProcessing/PathProcessingThread.cpp           | 11 ++++++++++-
 2 files changed, 20 insertions(+), 2 deletions(-)

diff --git a/MotionPlanning/Planner/PlanningThread.cpp b/MotionPlanning/Planner/PlanningThread.cpp
index f0b122a..031b063 100644
--- a/MotionPlanning/Planner/PlanningThread.cpp
+++ b/MotionPlanning/Planner/PlanningThread.cpp
@@ -96,7 +96,16 @@ namespace Saba
 
         VR_ASSERT(planner);
 
-        bool res = planner->plan(true);
+        bool res = false;
+
+        try
+        {
+            res = planner->plan(true);
+        }
+        catch (const std::exception& e)
+        {
+            VR_ERROR << "Planning failed: " << e.what() << endl;
+        }
 
         mutex.lock();
         threadStarted = false;
diff --git a/MotionPlanning/PostProcessing/PathProcessingThread.cpp b/MotionPlanning/PostProcessing/PathProcessingThread.cpp
index 7f25e5c..781a280 100644
--- a/MotionPlanning/PostProcessing/PathProcessingThread.cpp
+++ b/MotionPlanning/PostProcessing/PathProcessingThread.cpp
@@ -101,7 +101,16 @@ namespace Saba
 
         VR_ASSERT(pathProcessor);
 
-        CSpacePathPtr res = pathProcessor->optimize(optimizeSteps);
+        CSpacePathPtr res;
+
+        try
+        {
+            res = pathProcessor->optimize(optimizeSteps);
+        }
+        catch (const std::exception& e)
+        {
+            VR_ERROR << "Path processing failed: " << e.what() << endl;
+        }
 
         mutex.lock();
 
-- 
2.43.0


From d9c57c8cbb03e750f064c3d5f6c358b7d027cd5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:33 +0000
Subject: [PATCH 079/136] fix: planners lock the shared robot when they switch
 its visualization

---
 MotionPlanning/Planner/BiRrt.cpp         | 19 ++---------
 MotionPlanning/Planner/GraspIkRrt.cpp    | 15 ++-------
 MotionPlanning/Planner/MotionPlanner.cpp | 43 ++++++++++++++++++++++++
 MotionPlanning/Planner/MotionPlanner.h   |  6 ++++
 MotionPlanning/Planner/Rrt.cpp           | 19 ++---------
 5 files changed, 58 insertions(+), 44 deletions(-)

diff --git a/MotionPlanning/Planner/BiRrt.cpp b/MotionPlanning/Planner/BiRrt.cpp
index 72a83df..08c5859 100644
--- a/MotionPlanning/Planner/BiRrt.cpp
+++ b/MotionPlanning/Planner/BiRrt.cpp
@@ -92,14 +92,7 @@ namespace Saba
         solution.reset();
         goalNode.reset();
 
-        RobotPtr robot = cspace->getRobot();
-        bool bVisStatus = true;
-
-        if (robot)
-        {
-            bVisStatus = robot->getUpdateVisualizationStatus();
-            robot->setUpdateVisualization(false);
-        }
+        bool bVisStatus = disableVisualization();
 
         ExtensionResult extResultA;
         ExtensionResult extResultB;
@@ -227,10 +220,7 @@ namespace Saba
                 std::cout << "Encountered timeout of " << planningTimeout << " ms - aborting" << std::endl;
                 planningTime = (float)diffClock;
 
-                if (robot && bVisStatus)
-                {
-                    robot->setUpdateVisualization(bVisStatus);
-                }
+                restoreVisualization(bVisStatus);
 
                 return false;
             }
@@ -260,10 +250,7 @@ namespace Saba
             }
         }
 
-        if (robot && bVisStatus)
-        {
-            robot->setUpdateVisualization(bVisStatus);
-        }
+        restoreVisualization(bVisStatus);
 
         if (found)
         {
diff --git a/MotionPlanning/Planner/GraspIkRrt.cpp b/MotionPlanning/Planner/GraspIkRrt.cpp
index f694d85..7d32c92 100644
--- a/MotionPlanning/Planner/GraspIkRrt.cpp
+++ b/MotionPlanning/Planner/GraspIkRrt.cpp
@@ -212,10 +212,7 @@ namespace Saba
         solution.reset();
         goalNode.reset();
 
-        RobotPtr robot = cspace->getRobot();
-        bool bVisStatus = true;
-        bVisStatus = robot->getUpdateVisualizationStatus();
-        robot->setUpdateVisualization(false);
+        bool bVisStatus = disableVisualization();
 
 
 
@@ -236,10 +233,7 @@ namespace Saba
                 std::cout << "Encountered timeout of " << planningTimeout << " ms - aborting" << std::endl;
                 planningTime = (float)diffClock;
 
-                if (robot && bVisStatus)
-                {
-                    robot->setUpdateVisualization(bVisStatus);
-                }
+                restoreVisualization(bVisStatus);
 
                 return false;
             }
@@ -269,10 +263,7 @@ namespace Saba
             }
         }
 
-        if (robot && bVisStatus)
-        {
-            robot->setUpdateVisualization(bVisStatus);
-        }
+        restoreVisualization(bVisStatus);
 
         if (found)
         {
diff --git a/MotionPlanning/Planner/MotionPlanner.cpp b/MotionPlanning/Planner/MotionPlanner.cpp
index ad1b8e3..4c7a53b 100644
--- a/MotionPlanning/Planner/MotionPlanner.cpp
+++ b/MotionPlanning/Planner/MotionPlanner.cpp
@@ -202,6 +202,49 @@ namespace Saba
         return solution;
     }
 
+    bool MotionPlanner::disableVisualization()
+    {
+        VirtualRobot::RobotPtr robot = cspace->getRobot();
+        const bool exclusive = cspace->hasExclusiveRobotAccess();
+
+        if (exclusive)
+        {
+            CSpace::lock();
+        }
+
+        bool status = robot->getUpdateVisualizationStatus();
+        robot->setUpdateVisualization(false);
+
+        if (exclusive)
+        {
+            CSpace::unlock();
+        }
+
+        return status;
+    }
+
+    void MotionPlanner::restoreVisualization(bool status)
+    {
+        if (!status)
+        {
+            return;
+        }
+
+        const bool exclusive = cspace->hasExclusiveRobotAccess();
+
+        if (exclusive)
+        {
+            CSpace::lock();
+        }
+
+        cspace->getRobot()->setUpdateVisualization(true);
+
+        if (exclusive)
+        {
+            CSpace::unlock();
+        }
+    }
+
     void MotionPlanner::reset()
     {
         startConfig.setZero(1);
diff --git a/MotionPlanning/Planner/MotionPlanner.h b/MotionPlanning/Planner/MotionPlanner.h
index cc7f9e9..bdee44f 100644
--- a/MotionPlanning/Planner/MotionPlanner.h
+++ b/MotionPlanning/Planner/MotionPlanner.h
@@ -143,6 +143,12 @@ namespace Saba
         CSpacePtr cspace;                   //!< the cspace on which are operating
         CSpacePathPtr solution;             //!< the solution
 
+        //! Disables the visualization update of the robot. With exclusive access to the robot (see CSpace::exclusiveRobotAccess) the robot is locked. \return The old status.
+        bool disableVisualization();
+
+        //! Enables the visualization update of the robot if it was enabled before (status).
+        void restoreVisualization(bool status);
+
         std::atomic<bool> stopSearch;       //!< indicates that the search should be interrupted
 
         unsigned int dimension;             //!< dimension of c-space
diff --git a/MotionPlanning/Planner/Rrt.cpp b/MotionPlanning/Planner/Rrt.cpp
index 6620d64..df989fe 100644
--- a/MotionPlanning/Planner/Rrt.cpp
+++ b/MotionPlanning/Planner/Rrt.cpp
@@ -92,14 +92,7 @@ namespace Saba
         solution.reset();
         goalNode.reset();
 
-        RobotPtr robot = cspace->getRobot();
-        bool bVisStatus = true;
-
-        if (robot)
-        {
-            bVisStatus = robot->getUpdateVisualizationStatus();
-            robot->setUpdateVisualization(false);
-        }
+        bool bVisStatus = disableVisualization();
 
         ExtensionResult extResult = eError;
 
@@ -194,10 +187,7 @@ namespace Saba
                 std::cout << "Encountered timeout of " << planningTimeout << " ms - aborting" << std::endl;
                 planningTime = (float)diffClock;
 
-                if (robot && bVisStatus)
-                {
-                    robot->setUpdateVisualization(bVisStatus);
-                }
+                restoreVisualization(bVisStatus);
 
                 return false;
             }
@@ -227,10 +217,7 @@ namespace Saba
             }
         }
 
-        if (robot && bVisStatus)
-        {
-            robot->setUpdateVisualization(bVisStatus);
-        }
+        restoreVisualization(bVisStatus);
 
         if (found)
         {
-- 
2.43.0


From 166767c6b8eb8c1baff6c68ded09ea1bf07d4304 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:46 +0000
Subject: [PATCH 080/136] fix: read the transparency of a vertex color from its
 fourth entry

---
 VirtualRobot/Visualization/TriMeshModel.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/VirtualRobot/Visualization/TriMeshModel.cpp b/VirtualRobot/Visualization/TriMeshModel.cpp
index 06f6cac..6e65847 100644
--- a/VirtualRobot/Visualization/TriMeshModel.cpp
+++ b/VirtualRobot/Visualization/TriMeshModel.cpp
@@ -91,9 +91,9 @@ namespace VirtualRobot
     void TriMeshModel::addTriangleWithFace(const Eigen::Vector3f& vertex1, const Eigen::Vector3f& vertex2, const Eigen::Vector3f& vertex3, const Eigen::Vector4f& vertexColor1, const Eigen::Vector4f& vertexColor2, const Eigen::Vector4f& vertexColor3)
     {
         Eigen::Vector3f normal = TriMeshModel::CreateNormal(vertex1, vertex2, vertex3);
-        VisualizationFactory::Color color1(vertexColor1(0), vertexColor1(1), vertexColor1(2), vertexColor1(4));
-        VisualizationFactory::Color color2(vertexColor2(0), vertexColor2(1), vertexColor2(2), vertexColor2(4));
-        VisualizationFactory::Color color3(vertexColor3(0), vertexColor3(1), vertexColor3(2), vertexColor3(4));
+        VisualizationFactory::Color color1(vertexColor1(0), vertexColor1(1), vertexColor1(2), vertexColor1(3));
+        VisualizationFactory::Color color2(vertexColor2(0), vertexColor2(1), vertexColor2(2), vertexColor2(3));
+        VisualizationFactory::Color color3(vertexColor3(0), vertexColor3(1), vertexColor3(2), vertexColor3(3));
         addTriangleWithFace(vertex1, vertex2, vertex3, normal, color1, color2, color3);
     }
 
-- 
2.43.0


From 2104df05df280ec461aad28ace36a386f2d68705 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:46 +0000
Subject: [PATCH 081/136] fix: append meshes whose faces have no colors

---
 VirtualRobot/Visualization/TriMeshModel.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/VirtualRobot/Visualization/TriMeshModel.cpp b/VirtualRobot/Visualization/TriMeshModel.cpp
index 6e65847..6afe4b1 100644
--- a/VirtualRobot/Visualization/TriMeshModel.cpp
+++ b/VirtualRobot/Visualization/TriMeshModel.cpp
@@ -101,8 +101,12 @@ namespace VirtualRobot
     {
         for(const auto& face : mesh.faces)
         {
+            auto getColor = [&mesh](unsigned int id)
+            {
+                return id == UINT_MAX ? VisualizationFactory::Color::Gray() : mesh.colors.at(id);
+            };
             addTriangleWithFace(mesh.vertices.at(face.id1), mesh.vertices.at(face.id2), mesh.vertices.at(face.id3),
-                                face.normal, mesh.colors.at(face.idColor1), mesh.colors.at(face.idColor2), mesh.colors.at(face.idColor3));
+                                face.normal, getColor(face.idColor1), getColor(face.idColor2), getColor(face.idColor3));
         }
 //        VR_INFO << " size after : " << vertices.size() << std::endl;
     }
-- 
2.43.0


From 9b7dbfb4dec4fcd2e4934fa74a5020fa986fb648 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:46 +0000
Subject: [PATCH 082/136] fix: clear the normals of a mesh together with its
 faces

---
 VirtualRobot/Visualization/TriMeshModel.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/VirtualRobot/Visualization/TriMeshModel.cpp b/VirtualRobot/Visualization/TriMeshModel.cpp
index 6afe4b1..55cb0f7 100644
--- a/VirtualRobot/Visualization/TriMeshModel.cpp
+++ b/VirtualRobot/Visualization/TriMeshModel.cpp
@@ -227,6 +227,7 @@ namespace VirtualRobot
     void TriMeshModel::clear()
     {
         vertices.clear();
+        normals.clear();
         colors.clear();
         faces.clear();
         materials.clear();
-- 
2.43.0


From 3d04baa24c05a24cded9e0a438f020ddc88d0c6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:46 +0000
Subject: [PATCH 083/136] fix: give every face corner a normal in
 addMissingNormals

---
 VirtualRobot/Visualization/TriMeshModel.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/VirtualRobot/Visualization/TriMeshModel.cpp b/VirtualRobot/Visualization/TriMeshModel.cpp
index 55cb0f7..b36f313 100644
--- a/VirtualRobot/Visualization/TriMeshModel.cpp
+++ b/VirtualRobot/Visualization/TriMeshModel.cpp
@@ -256,7 +256,7 @@ namespace VirtualRobot
             }
             if(face.idNormal2 == UINT_MAX)
             {
-                if(normalId == UINT_MAX)
+                if(normalId != UINT_MAX)
                     face.idNormal2 = normalId;
                 else
                 {
@@ -266,7 +266,7 @@ namespace VirtualRobot
             }
             if(face.idNormal3 == UINT_MAX)
             {
-                if(normalId == UINT_MAX)
+                if(normalId != UINT_MAX)
                     face.idNormal3 = normalId;
                 else
                 {
-- 
2.43.0


From 1b96a7708f7059b9567bf8459e72e843d4772082 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:46 +0000
Subject: [PATCH 084/136] fix: initialize the face normal and keep corner
 attributes together when flipping a face

---
 VirtualRobot/MathTools.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/VirtualRobot/MathTools.h b/VirtualRobot/MathTools.h
index 9aa166e..8d4f08d 100644
--- a/VirtualRobot/MathTools.h
+++ b/VirtualRobot/MathTools.h
@@ -403,7 +403,7 @@ namespace VirtualRobot
                 : id1(UINT_MAX), id2(UINT_MAX), id3(UINT_MAX),
                   idColor1(UINT_MAX), idColor2(UINT_MAX), idColor3(UINT_MAX),
                   idNormal1(UINT_MAX), idNormal2(UINT_MAX), idNormal3(UINT_MAX),
-                  idMaterial(UINT_MAX) {}
+                  idMaterial(UINT_MAX), normal(Eigen::Vector3f::Zero()) {}
 
             /**
              * Flips the orientation of the contained vertex and the normal.
@@ -411,6 +411,8 @@ namespace VirtualRobot
             void flipOrientation()
             {
                 std::swap(id3, id1);
+                std::swap(idColor3, idColor1);
+                std::swap(idNormal3, idNormal1);
                 normal *= -1.0f;
             }
             void set(unsigned int id1, unsigned int id2, unsigned int id3)
-- 
2.43.0


From a067bce8182eccc8856a2c4c30a54c01b384761a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:46 +0000
Subject: [PATCH 085/136] fix: overwrite every color of a mesh in setColor

---
 VirtualRobot/Visualization/TriMeshModel.cpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/VirtualRobot/Visualization/TriMeshModel.cpp b/VirtualRobot/Visualization/TriMeshModel.cpp
index b36f313..a4ef2c7 100644
--- a/VirtualRobot/Visualization/TriMeshModel.cpp
+++ b/VirtualRobot/Visualization/TriMeshModel.cpp
@@ -599,9 +599,7 @@ namespace VirtualRobot
 
     void TriMeshModel::setColor(VisualizationFactory::Color color)
     {
-        colors.clear();
-        for (size_t i=0; i<vertices.size(); i++)
-            colors.push_back(color);
+        colors.assign(std::max(colors.size(), vertices.size()), color);
     }
 
 
-- 
2.43.0


From aa87102496e112ab4e38ed44011445201cbf7814 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:46 +0000
Subject: [PATCH 086/136] fix: update the bounding box of an inflated mesh

---
 VirtualRobot/Visualization/TriMeshModel.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/VirtualRobot/Visualization/TriMeshModel.cpp b/VirtualRobot/Visualization/TriMeshModel.cpp
index a4ef2c7..0d26192 100644
--- a/VirtualRobot/Visualization/TriMeshModel.cpp
+++ b/VirtualRobot/Visualization/TriMeshModel.cpp
@@ -581,6 +581,9 @@ namespace VirtualRobot
             }
         }
 
+        boundingBox.clear();
+        boundingBox.addPoints(vertices);
+
         if(updateNormals)
         {
             normals.clear();
-- 
2.43.0


From 8e5e701e54555cfa37aa1f4b89896b148096a88e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:46 +0000
Subject: [PATCH 087/136] fix: order the corners of a mirrored bounding box

---
 VirtualRobot/BoundingBox.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/VirtualRobot/BoundingBox.cpp b/VirtualRobot/BoundingBox.cpp
index 1af12ff..bfe5872 100644
--- a/VirtualRobot/BoundingBox.cpp
+++ b/VirtualRobot/BoundingBox.cpp
@@ -188,6 +188,11 @@ namespace VirtualRobot
         {
             min(i) *= scaleFactor(i);
             max(i) *= scaleFactor(i);
+
+            if (min(i) > max(i))
+            {
+                std::swap(min(i), max(i));
+            }
         }
     }
 
-- 
2.43.0


From 92329b4da5b0dccd87307c1f151770bf91b27e7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:46 +0000
Subject: [PATCH 088/136] fix: compare against the box extents in
 BoundingBox::isInside

---
 VirtualRobot/BoundingBox.cpp | 31 +++++++++----------------------
 1 file changed, 9 insertions(+), 22 deletions(-)

diff --git a/VirtualRobot/BoundingBox.cpp b/VirtualRobot/BoundingBox.cpp
index bfe5872..e0d3363 100644
--- a/VirtualRobot/BoundingBox.cpp
+++ b/VirtualRobot/BoundingBox.cpp
@@ -224,32 +224,19 @@ namespace VirtualRobot
 
     bool BoundingBox::isInside(Eigen::Vector3f point) const
     {
-        Eigen::Vector3f p0(min(0), min(1), min(2));
-        Eigen::Vector3f p1(min(0), min(1), max(2));
-        Eigen::Vector3f p2(min(0), max(1), min(2));
-        Eigen::Vector3f p4(max(0), min(1), min(2));
-
-        Eigen::Vector3f v01 = p0 - p1;
-        Eigen::Vector3f v02 = p0 - p2;
-        Eigen::Vector3f v04 = p0 - p4;
-
-        point(0) = std::isnan(point(0)) ? (max(0) + min(0)) / 2 : point(0);
-        point(1) = std::isnan(point(1)) ? (max(1) + min(1)) / 2 : point(1);
-        point(2) = std::isnan(point(2)) ? (max(2) + min(2)) / 2 : point(2);
-
-        auto isBetween = [](float x, float a, float b) {
-            if (a <= b)
+        for (int i = 0; i < 3; i++)
+        {
+            if (std::isnan(min(i)) || std::isnan(max(i)))
             {
-                return a <= x && x <= b;
+                return false;
             }
-            else
+
+            if (!std::isnan(point(i)) && (point(i) < min(i) || point(i) > max(i)))
             {
-                return b <= x && x <= a;
+                return false;
             }
-        };
+        }
 
-        return isBetween(v01.dot(point), v01.dot(p0), v01.dot(p1))
-                && isBetween(v02.dot(point), v02.dot(p0), v02.dot(p2))
-                && isBetween(v04.dot(point), v04.dot(p0), v04.dot(p4));
+        return true;
     }
 }
-- 
2.43.0


From c0f6940dcbc64df3a0c42b531cf04654edbf02a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:46 +0000
Subject: [PATCH 089/136] fix: no plane goes through an empty bounding box

---
 VirtualRobot/BoundingBox.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/VirtualRobot/BoundingBox.cpp b/VirtualRobot/BoundingBox.cpp
index e0d3363..f673fed 100644
--- a/VirtualRobot/BoundingBox.cpp
+++ b/VirtualRobot/BoundingBox.cpp
@@ -15,7 +15,7 @@ namespace VirtualRobot
 
         std::vector < Eigen::Vector3f > points = getPoints();
 
-        for (int i = 0; i < 8; i++)
+        for (size_t i = 0; i < points.size(); i++)
             if (MathTools::onNormalPointingSide(points[i], p))
             {
                 left = true;
-- 
2.43.0


From 0c35112e88c29e7424a1cbe8862ee2e257138caa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:46 +0000
Subject: [PATCH 090/136] fix: refuse binary STL data that ends early

---
 VirtualRobot/Import/MeshImport/STLReader.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/VirtualRobot/Import/MeshImport/STLReader.cpp b/VirtualRobot/Import/MeshImport/STLReader.cpp
index 39021a4..fe1e023 100644
--- a/VirtualRobot/Import/MeshImport/STLReader.cpp
+++ b/VirtualRobot/Import/MeshImport/STLReader.cpp
@@ -446,6 +446,12 @@ namespace VirtualRobot
         _in.read(dummy, 80);
         nT = read_int(_in, swapFlag);
 
+        if (!_in)
+        {
+            VR_ERROR << "[STLReader] : unexpected end of data\n";
+            return false;
+        }
+
         // read triangles
         while (nT)
         {
@@ -463,6 +469,12 @@ namespace VirtualRobot
                 v[1] = read_float(_in, swapFlag);
                 v[2] = read_float(_in, swapFlag);
 
+                if (!_in)
+                {
+                    VR_ERROR << "[STLReader] : unexpected end of data\n";
+                    return false;
+                }
+
                 v *= scaling;
 
                 // has vector been referenced before?
-- 
2.43.0


From 812d4bd1c978128d2599032595c8e0e6579b4a5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:46 +0000
Subject: [PATCH 091/136] fix: read small text STL files

---
 VirtualRobot/Import/MeshImport/STLReader.cpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/VirtualRobot/Import/MeshImport/STLReader.cpp b/VirtualRobot/Import/MeshImport/STLReader.cpp
index fe1e023..1fdb23a 100644
--- a/VirtualRobot/Import/MeshImport/STLReader.cpp
+++ b/VirtualRobot/Import/MeshImport/STLReader.cpp
@@ -589,11 +589,17 @@ namespace VirtualRobot
 
         // read number of triangles
         char dummy[100];
-        if(80 != std::fread(dummy, 1, 80, in))
+        size_t header = std::fread(dummy, 1, 84, in);
+
+        if (header != 84)
         {
-            throw std::runtime_error{__FILE__ " error in line " + std::to_string(__LINE__) + " failed to read 80 bytes."};
+            // too small for a binary file
+            fclose(in);
+            return STLA;
         }
-        size_t nT = read_int(in, swapFlag);
+
+        std::fseek(in, 80, SEEK_SET);
+        size_t nT = static_cast<unsigned int>(read_int(in, swapFlag));
 
 
         // compute file size from nT
-- 
2.43.0


From aada5528ad53d6893397eefe26785e51c6604285 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:46 +0000
Subject: [PATCH 092/136] fix: read the normals of upper case text STL files

---
 VirtualRobot/Import/MeshImport/STLReader.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/VirtualRobot/Import/MeshImport/STLReader.cpp b/VirtualRobot/Import/MeshImport/STLReader.cpp
index 1fdb23a..f5b9144 100644
--- a/VirtualRobot/Import/MeshImport/STLReader.cpp
+++ b/VirtualRobot/Import/MeshImport/STLReader.cpp
@@ -256,7 +256,7 @@ namespace VirtualRobot
             trimStdString(line);
 
             // Normal found?
-            if (line.find("facet normal") != std::string::npos)
+            if (line.find("facet normal") != std::string::npos || line.find("FACET NORMAL") != std::string::npos)
             {
                 std::stringstream strstream(line);
 
-- 
2.43.0


From d53d28129f9b8ecc28c77c6a432ed23ad4464193 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:02 +0000
Subject: [PATCH 093/136] fix: draw faces without a color in the default color

---
 .../CoinVisualization/CoinVisualizationFactory.cpp              | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/VirtualRobot/Visualization/CoinVisualization/CoinVisualizationFactory.cpp b/VirtualRobot/Visualization/CoinVisualization/CoinVisualizationFactory.cpp
index 28aab45..bfc1a24 100644
--- a/VirtualRobot/Visualization/CoinVisualization/CoinVisualizationFactory.cpp
+++ b/VirtualRobot/Visualization/CoinVisualization/CoinVisualizationFactory.cpp
@@ -1886,7 +1886,7 @@ namespace VirtualRobot
             v.push_back(v3);
             //            SoSeparator* s = CreatePolygonVisualization(v,color,lineColor,lineSize);
 
-            VisualizationFactory::Color triColor = (model->colors.size() == 0) ? color : model->colors[model->faces[i].idColor1];
+            VisualizationFactory::Color triColor = (model->faces[i].idColor1 >= model->colors.size()) ? color : model->colors[model->faces[i].idColor1];
 
             SoSeparator* s;
 
-- 
2.43.0


From e773e7b78c28932f673646eaee4d7e666fe8563f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:47 +0000
Subject: [PATCH 094/136] fix: place the collision data of new, inflated and
 scaled collision models

---
 VirtualRobot/CollisionDetection/CollisionModel.cpp             | 2 ++
 VirtualRobot/CollisionDetection/CollisionModelImplementation.h | 1 +
 2 files changed, 3 insertions(+)

diff --git a/VirtualRobot/CollisionDetection/CollisionModel.cpp b/VirtualRobot/CollisionDetection/CollisionModel.cpp
index 4dd7f19..09eac14 100644
--- a/VirtualRobot/CollisionDetection/CollisionModel.cpp
+++ b/VirtualRobot/CollisionDetection/CollisionModel.cpp
@@ -97,6 +97,7 @@ namespace VirtualRobot
 #else
             collisionModelImplementation.reset(new CollisionModelDummy(colChecker));
 #endif
+            collisionModelImplementation->setGlobalPose(globalPose);
         }
         if(!origVisualization)
             margin = 0.0;
@@ -397,6 +398,7 @@ namespace VirtualRobot
 #else
             collisionModelImplementation.reset(new CollisionModelDummy(colChecker));
 #endif
+            collisionModelImplementation->setGlobalPose(globalPose);
         }
 
         if (visualization)
diff --git a/VirtualRobot/CollisionDetection/CollisionModelImplementation.h b/VirtualRobot/CollisionDetection/CollisionModelImplementation.h
index 85bb588..016426a 100644
--- a/VirtualRobot/CollisionDetection/CollisionModelImplementation.h
+++ b/VirtualRobot/CollisionDetection/CollisionModelImplementation.h
@@ -51,6 +51,7 @@ namespace VirtualRobot
         {
             this->modelData = modelData;
             this->id = id;
+            this->globalPose.setIdentity();
         };
 
         /*!Standard Destructor
-- 
2.43.0


From 9089b4cef6762f84fad21a602394617a173ab41b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:47 +0000
Subject: [PATCH 095/136] fix: keep the margin when cloning an inflated
 collision model without its mesh

---
 VirtualRobot/CollisionDetection/CollisionModel.cpp | 11 +----------
 1 file changed, 1 insertion(+), 10 deletions(-)

diff --git a/VirtualRobot/CollisionDetection/CollisionModel.cpp b/VirtualRobot/CollisionDetection/CollisionModel.cpp
index 09eac14..ba196f2 100644
--- a/VirtualRobot/CollisionDetection/CollisionModel.cpp
+++ b/VirtualRobot/CollisionDetection/CollisionModel.cpp
@@ -140,16 +140,7 @@ namespace VirtualRobot
         else
         {
             p.reset(new CollisionModel(visuOrigNew, nameNew, colChecker, idNew, this->collisionModelImplementation));
-            if(visualization)
-            {
-                p->visualization = visualization->clone(false, scaling);
-                p->margin = margin;
-            }
-            else
-            {                
-                p->inflateModel(margin);
-            }
-
+            p->inflateModel(margin);
         }
         p->setGlobalPose(getGlobalPose());
         p->setUpdateVisualization(getUpdateVisualizationStatus());
-- 
2.43.0


From eaa4e88b9a6baaba84ab180069f81eb5b86ca5c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:47 +0000
Subject: [PATCH 096/136] fix: do not share the unscaled mesh with a scaled
 visualization

---
 .../Visualization/CoinVisualization/CoinVisualizationNode.cpp   | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/VirtualRobot/Visualization/CoinVisualization/CoinVisualizationNode.cpp b/VirtualRobot/Visualization/CoinVisualization/CoinVisualizationNode.cpp
index 256773d..b6f0efb 100644
--- a/VirtualRobot/Visualization/CoinVisualization/CoinVisualizationNode.cpp
+++ b/VirtualRobot/Visualization/CoinVisualization/CoinVisualizationNode.cpp
@@ -342,7 +342,7 @@ namespace VirtualRobot
         {
             newModel->unrefNoDelete();
         }
-        if(!deepCopy)
+        if(!deepCopy && scaling == 1.0f)
             p->triMeshModel = this->triMeshModel;
         //else -> lazy generation
 
-- 
2.43.0


From e6b4e61e605d7652444db933d6ef3f1dbefe297f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:38 +0000
Subject: [PATCH 097/136] fix: derive the physics of objects loaded from file
 and keep their pose

---
 VirtualRobot/XML/ObjectIO.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/VirtualRobot/XML/ObjectIO.cpp b/VirtualRobot/XML/ObjectIO.cpp
index 5cbbd92..a0f2d13 100644
--- a/VirtualRobot/XML/ObjectIO.cpp
+++ b/VirtualRobot/XML/ObjectIO.cpp
@@ -82,7 +82,6 @@ namespace VirtualRobot
         std::string objectXML(buffer.str());
 
         VirtualRobot::ManipulationObjectPtr res = createManipulationObjectFromString(objectXML, basePath);
-        res->initialize();
         THROW_VR_EXCEPTION_IF(!res, "Error while parsing file.");
         return res;
     }
@@ -347,6 +346,7 @@ namespace VirtualRobot
             object->addGraspSet(graspSet);
         }
 
+        object->initialize();
         object->setGlobalPose(globalPose);
 
         return object;
@@ -449,6 +449,7 @@ namespace VirtualRobot
 
         // build object
         ObstaclePtr object(new Obstacle(objName, visualizationNode, collisionModel, physics));
+        object->initialize();
         object->setGlobalPose(globalPose);
         return object;
     }
-- 
2.43.0


From b6486348fa91f560ab9a04bd9877c6842d4225b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:38 +0000
Subject: [PATCH 098/136] fix: scale the center of mass of a scaled obstacle

---
 VirtualRobot/Obstacle.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/VirtualRobot/Obstacle.cpp b/VirtualRobot/Obstacle.cpp
index 1338b2c..bf9cb83 100644
--- a/VirtualRobot/Obstacle.cpp
+++ b/VirtualRobot/Obstacle.cpp
@@ -285,7 +285,8 @@ namespace VirtualRobot
             clonedCollisionModel = collisionModel->clone(colChecker, scaling);
         }
 
-        Obstacle* result = new Obstacle(name, clonedVisualizationNode, clonedCollisionModel, physics, colChecker);
+        Physics p = physics.scale(scaling);
+        Obstacle* result = new Obstacle(name, clonedVisualizationNode, clonedCollisionModel, p, colChecker);
 
         if (!result)
         {
-- 
2.43.0


From 91701a2eb72996810d5ae7018f81043a8d293773 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:38 +0000
Subject: [PATCH 099/136] fix: keep a center of mass set by hand

---
 VirtualRobot/SceneObject.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/VirtualRobot/SceneObject.cpp b/VirtualRobot/SceneObject.cpp
index 8f6b08f..e0f1b84 100644
--- a/VirtualRobot/SceneObject.cpp
+++ b/VirtualRobot/SceneObject.cpp
@@ -674,6 +674,7 @@ namespace VirtualRobot
     void SceneObject::setCoMLocal(const Eigen::Vector3f &comLocal)
     {
         physics.localCoM = comLocal;
+        physics.comLocation = Physics::eCustom;
     }
 
     Eigen::Vector3f SceneObject::getCoMGlobal()
-- 
2.43.0


From b960cdf26ed722ba95c096829da2b160f70c7008 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:24 +0000
Subject: [PATCH 100/136] fix: restore the TCP of configurations when loading a
 scene

---
 VirtualRobot/XML/SceneIO.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/VirtualRobot/XML/SceneIO.cpp b/VirtualRobot/XML/SceneIO.cpp
index bf3af0d..fe49fa1 100644
--- a/VirtualRobot/XML/SceneIO.cpp
+++ b/VirtualRobot/XML/SceneIO.cpp
@@ -134,6 +134,12 @@ namespace VirtualRobot
         for (size_t i = 0; i < configDefinitions.size(); i++)
         {
             RobotConfigPtr rc(new RobotConfig(robot, configNames[i], configDefinitions[i]));
+
+            if (!tcpNames[i].empty())
+            {
+                rc->setTCP(tcpNames[i]);
+            }
+
             scene->registerRobotConfig(robot, rc);
         }
 
-- 
2.43.0


From 4fb3e599e32dbfcece0b31db2d8bbf1b79430cba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:24 +0000
Subject: [PATCH 101/136] fix: always store the pose of linked manipulation
 objects

---
 VirtualRobot/ManipulationObject.cpp | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/VirtualRobot/ManipulationObject.cpp b/VirtualRobot/ManipulationObject.cpp
index 813efeb..8a16995 100644
--- a/VirtualRobot/ManipulationObject.cpp
+++ b/VirtualRobot/ManipulationObject.cpp
@@ -151,14 +151,12 @@ namespace VirtualRobot
             ss << pre << t << "<File>" << relFile << "</File>\n";
             Eigen::Matrix4f gp = getGlobalPose();
 
-            if (!gp.isIdentity())
-            {
-                ss << pre << t << "<GlobalPose>\n";
-                ss << pre << t  << t  << "<Transform>\n";
-                ss << MathTools::getTransformXMLString(gp, tabs + 3);
-                ss << pre << t  << t  << "</Transform>\n";
-                ss << pre << t << "</GlobalPose>\n";
-            }
+            // the linked file may define another pose, so that identity has to be stored too
+            ss << pre << t << "<GlobalPose>\n";
+            ss << pre << t  << t  << "<Transform>\n";
+            ss << MathTools::getTransformXMLString(gp, tabs + 3);
+            ss << pre << t  << t  << "</Transform>\n";
+            ss << pre << t << "</GlobalPose>\n";
         }
         else
         {
-- 
2.43.0


From 6dbd5e277f7b79a6854ad50e6d6d0f4e3ac6e118 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:56 +0000
Subject: [PATCH 102/136] fix: do not read the freed buffer when reporting XML
 errors

---
 VirtualRobot/XML/ObjectIO.cpp | 8 ++++++--
 VirtualRobot/XML/RobotIO.cpp  | 4 +++-
 VirtualRobot/XML/SceneIO.cpp  | 4 +++-
 3 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/VirtualRobot/XML/ObjectIO.cpp b/VirtualRobot/XML/ObjectIO.cpp
index a0f2d13..e5bea70 100644
--- a/VirtualRobot/XML/ObjectIO.cpp
+++ b/VirtualRobot/XML/ObjectIO.cpp
@@ -477,10 +477,12 @@ namespace VirtualRobot
         }
         catch (rapidxml::parse_error& e)
         {
+            // the position points into the buffer
+            const std::string position(e.where<char>());
             delete[] y;
             THROW_VR_EXCEPTION("Could not parse data in xml definition" << endl
                                << "Error message:" << e.what() << endl
-                               << "Position: " << endl << e.where<char>() << endl);
+                               << "Position: " << endl << position << endl);
             return ManipulationObjectPtr();
         }
         catch (VirtualRobot::VirtualRobotException&)
@@ -529,10 +531,12 @@ namespace VirtualRobot
         }
         catch (rapidxml::parse_error& e)
         {
+            // the position points into the buffer
+            const std::string position(e.where<char>());
             delete[] y;
             THROW_VR_EXCEPTION("Could not parse data in xml definition" << endl
                                << "Error message:" << e.what() << endl
-                               << "Position: " << endl << e.where<char>() << endl);
+                               << "Position: " << endl << position << endl);
             return ObstaclePtr();
         }
         catch (VirtualRobot::VirtualRobotException&)
diff --git a/VirtualRobot/XML/RobotIO.cpp b/VirtualRobot/XML/RobotIO.cpp
index 13e550c..e141a24 100644
--- a/VirtualRobot/XML/RobotIO.cpp
+++ b/VirtualRobot/XML/RobotIO.cpp
@@ -1383,10 +1383,12 @@ namespace VirtualRobot
         }
         catch (rapidxml::parse_error& e)
         {
+            // the position points into the buffer
+            const std::string position(e.where<char>());
             delete[] y;
             THROW_VR_EXCEPTION("Could not parse data in xml definition" << endl
                                << "Error message:" << e.what() << endl
-                               << "Position: " << endl << e.where<char>() << endl);
+                               << "Position: " << endl << position << endl);
             return RobotPtr();
         }
         catch (VirtualRobot::VirtualRobotException&)
diff --git a/VirtualRobot/XML/SceneIO.cpp b/VirtualRobot/XML/SceneIO.cpp
index fe49fa1..855bfc5 100644
--- a/VirtualRobot/XML/SceneIO.cpp
+++ b/VirtualRobot/XML/SceneIO.cpp
@@ -366,10 +366,12 @@ namespace VirtualRobot
         }
         catch (rapidxml::parse_error& e)
         {
+            // the position points into the buffer
+            const std::string position(e.where<char>());
             delete[] y;
             THROW_VR_EXCEPTION("Could not parse data in xml definition" << endl
                                << "Error message:" << e.what() << endl
-                               << "Position: " << endl << e.where<char>() << endl);
+                               << "Position: " << endl << position << endl);
             return ScenePtr();
         }
         catch (VirtualRobot::VirtualRobotException&)
-- 
2.43.0


From 83844603ce730a93cffa2490b854bb544e7b0991 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:56 +0000
Subject: [PATCH 103/136] fix: report missing attributes of primitives

---
 VirtualRobot/XML/BaseIO.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/VirtualRobot/XML/BaseIO.cpp b/VirtualRobot/XML/BaseIO.cpp
index e215414..f523be6 100644
--- a/VirtualRobot/XML/BaseIO.cpp
+++ b/VirtualRobot/XML/BaseIO.cpp
@@ -1212,23 +1212,23 @@ namespace VirtualRobot
             if (pName == "box")
             {
                 Primitive::Box* box = new Primitive::Box;
-                box->width = convertToFloat(primitiveXMLNode->first_attribute("width", 0, false)->value()) * lenFactor;
-                box->height = convertToFloat(primitiveXMLNode->first_attribute("height", 0, false)->value()) * lenFactor;
-                box->depth = convertToFloat(primitiveXMLNode->first_attribute("depth", 0, false)->value()) * lenFactor;
                 primitive.reset(box);
+                box->width = getFloatByAttributeName(primitiveXMLNode, "width") * lenFactor;
+                box->height = getFloatByAttributeName(primitiveXMLNode, "height") * lenFactor;
+                box->depth = getFloatByAttributeName(primitiveXMLNode, "depth") * lenFactor;
             }
             else if (pName == "sphere")
             {
                 Primitive::Sphere* sphere = new Primitive::Sphere;
-                sphere->radius = convertToFloat(primitiveXMLNode->first_attribute("radius", 0, false)->value()) * lenFactor;
                 primitive.reset(sphere);
+                sphere->radius = getFloatByAttributeName(primitiveXMLNode, "radius") * lenFactor;
             }
             else if (pName == "cylinder")
             {
                 Primitive::Cylinder* cylinder = new Primitive::Cylinder;
-                cylinder->radius = convertToFloat(primitiveXMLNode->first_attribute("radius", 0, false)->value()) * lenFactor;
-                cylinder->height = convertToFloat(primitiveXMLNode->first_attribute("height", 0, false)->value()) * lenFactor;
                 primitive.reset(cylinder);
+                cylinder->radius = getFloatByAttributeName(primitiveXMLNode, "radius") * lenFactor;
+                cylinder->height = getFloatByAttributeName(primitiveXMLNode, "height") * lenFactor;
             }
             else
             {
-- 
2.43.0


From 796e4be315fa7fcf8213cd09ba59535c20d6380f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:56 +0000
Subject: [PATCH 104/136] fix: fall back to the correct joint limit when an
 attribute is missing

---
 VirtualRobot/XML/RobotIO.cpp | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/VirtualRobot/XML/RobotIO.cpp b/VirtualRobot/XML/RobotIO.cpp
index e141a24..d4ffc23 100644
--- a/VirtualRobot/XML/RobotIO.cpp
+++ b/VirtualRobot/XML/RobotIO.cpp
@@ -104,14 +104,12 @@ namespace VirtualRobot
             if (unit.isLength())
             {
                 VR_WARNING << "No 'lo' attribute in <Limits> tag. Assuming -1000 [mm]." << endl;
-                jointLimitLo = -1000.0f;
-                unit = Units("mm");
+                jointLimitLo = unit.isMeter() ? -1.0f : -1000.0f;
             }
             else
             {
                 VR_WARNING << "No 'lo' attribute in <Limits> tag. Assuming -180 [deg]." << endl;
-                jointLimitLo = float(-M_PI);
-                unit = Units("rad");
+                jointLimitLo = unit.isDegree() ? -180.0f : float(-M_PI);
             }
         }
 
@@ -124,14 +122,12 @@ namespace VirtualRobot
             if (unit.isLength())
             {
                 VR_WARNING << "No 'hi' attribute in <Limits> tag. Assuming 1000 [mm]." << endl;
-                jointLimitLo = 1000.0f;
-                unit = Units("mm");
+                jointLimitHi = unit.isMeter() ? 1.0f : 1000.0f;
             }
             else
             {
                 VR_WARNING << "No 'hi' attribute in <Limits> tag. Assuming 180 [deg]." << endl;
-                jointLimitHi = float(M_PI);
-                unit = Units("rad");
+                jointLimitHi = unit.isDegree() ? 180.0f : float(M_PI);
             }
         }
 
-- 
2.43.0


From 90fedee98c6aaae89c9bd5264532cd539cbffb2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:56 +0000
Subject: [PATCH 105/136] fix: do not abort on trajectories without dimension

---
 VirtualRobot/XML/BaseIO.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/VirtualRobot/XML/BaseIO.cpp b/VirtualRobot/XML/BaseIO.cpp
index f523be6..b366c3b 100644
--- a/VirtualRobot/XML/BaseIO.cpp
+++ b/VirtualRobot/XML/BaseIO.cpp
@@ -1748,8 +1748,7 @@ namespace VirtualRobot
         RobotNodeSetPtr rns = r->getRobotNodeSet(nodeSetName);
         THROW_VR_EXCEPTION_IF(!rns, "Could not find RNS with name " << nodeSetName << " in robot " << robotName);
 
-        assert(dim>=0);
-        if (static_cast<unsigned int>(dim) != rns->getSize())
+        if (dim < 0 || static_cast<unsigned int>(dim) != rns->getSize())
         {
             VR_WARNING << " Invalid dim attribute (" << dim << "). Setting dimension to " << rns->getSize() << endl;
             dim = rns->getSize();
-- 
2.43.0


From 5e6c5c3fa185e8accaf6ffc253ce105907ccf90d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:15 +0000
Subject: [PATCH 106/136] fix: reject robots whose nodes do not form a tree

---
 VirtualRobot/RobotFactory.cpp | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/VirtualRobot/RobotFactory.cpp b/VirtualRobot/RobotFactory.cpp
index 00c2270..ad60c54 100644
--- a/VirtualRobot/RobotFactory.cpp
+++ b/VirtualRobot/RobotFactory.cpp
@@ -79,12 +79,25 @@ namespace VirtualRobot
                 }
 
                 RobotNodePtr c = robot->getRobotNode(childName);
-                node->attachChild(c);
+                THROW_VR_EXCEPTION_IF(!node->attachChild(c), "Robot " << robot->getName() << ": could not attach RobotNode " << childName << " to " << node->getName());
             }
 
             iterC++;
         }
 
+        // the nodes have to form a tree
+        THROW_VR_EXCEPTION_IF(rootNode->getParent(), "Robot " << robot->getName() << ": root node " << rootNode->getName() << " has a parent");
+
+        for (auto & robotNode : robotNodes)
+        {
+            size_t depth = 0;
+
+            for (SceneObjectPtr p = robotNode->getParent(); p; p = p->getParent())
+            {
+                THROW_VR_EXCEPTION_IF(++depth > robotNodes.size(), "Robot " << robot->getName() << ": RobotNode " << robotNode->getName() << " is part of or below a cycle");
+            }
+        }
+
         // register root (performs an initialization of all robot nodes)
         robot->setRootNode(rootNode);
 
-- 
2.43.0


From 82aa5071fb4907c09ed20c34a82cd67c863f9e2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:15 +0000
Subject: [PATCH 107/136] fix: reject text STL files with unreadable vertices

---
 VirtualRobot/Import/MeshImport/STLReader.cpp | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/VirtualRobot/Import/MeshImport/STLReader.cpp b/VirtualRobot/Import/MeshImport/STLReader.cpp
index f5b9144..a260502 100644
--- a/VirtualRobot/Import/MeshImport/STLReader.cpp
+++ b/VirtualRobot/Import/MeshImport/STLReader.cpp
@@ -239,6 +239,7 @@ namespace VirtualRobot
         std::string line;
 
         bool facet_normal(false);
+        bool found(false);
 
         while (_in && !_in.eof())
         {
@@ -255,6 +256,11 @@ namespace VirtualRobot
             // Trim Both leading and trailing spaces
             trimStdString(line);
 
+            if (line.find("endsolid") != std::string::npos || line.find("ENDSOLID") != std::string::npos)
+            {
+                found = true;
+            }
+
             // Normal found?
             if (line.find("facet normal") != std::string::npos || line.find("FACET NORMAL") != std::string::npos)
             {
@@ -280,6 +286,7 @@ namespace VirtualRobot
             {
 
                 vhandles.clear();
+                found = true;
 
                 for (i = 0; i < 3; ++i)
                 {
@@ -296,6 +303,12 @@ namespace VirtualRobot
                     strstream >> v[1];
                     strstream >> v[2];
 
+                    if (strstream.fail())
+                    {
+                        VR_ERROR << "[STLReader] : invalid vertex: " << line << std::endl;
+                        return false;
+                    }
+
                     v *= scaling;
 
                     // has vector been referenced before?
@@ -337,7 +350,12 @@ namespace VirtualRobot
             }
         }
 
-        return true;
+        if (!found)
+        {
+            VR_ERROR << "[STLReader] : neither a facet nor the end of a solid found" << std::endl;
+        }
+
+        return found;
     }
 
     //-----------------------------------------------------------------------------
-- 
2.43.0


From 9a0a637e41578d63be4daaf45c29a118f7a445a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:15 +0000
Subject: [PATCH 108/136] fix: report files that include themselves

---
 VirtualRobot/XML/ObjectIO.cpp | 28 ++++++++++++++++++++++++++++
 VirtualRobot/XML/RobotIO.cpp  | 26 ++++++++++++++++++++++++++
 2 files changed, 54 insertions(+)

diff --git a/VirtualRobot/XML/ObjectIO.cpp b/VirtualRobot/XML/ObjectIO.cpp
index e5bea70..b03b387 100644
--- a/VirtualRobot/XML/ObjectIO.cpp
+++ b/VirtualRobot/XML/ObjectIO.cpp
@@ -11,12 +11,36 @@
 #include "../Visualization/TriMeshModel.h"
 
 #include <iostream>
+#include <set>
 
 using namespace std;
 
 namespace VirtualRobot
 {
 
+    namespace
+    {
+        // files that are currently being loaded, used to detect files including each other
+        thread_local std::set<std::string> filesInProgress;
+
+        struct FileInProgress
+        {
+            explicit FileInProgress(const std::string& file) : name(boost::filesystem::weakly_canonical(file).string())
+            {
+                THROW_VR_EXCEPTION_IF(!filesInProgress.insert(name).second, "File " << file << " includes itself");
+            }
+
+            ~FileInProgress()
+            {
+                filesInProgress.erase(name);
+            }
+
+            FileInProgress(const FileInProgress&) = delete;
+            FileInProgress& operator=(const FileInProgress&) = delete;
+
+            const std::string name;
+        };
+    }
 
 
     ObjectIO::ObjectIO()
@@ -27,6 +51,8 @@ namespace VirtualRobot
 
     VirtualRobot::ObstaclePtr ObjectIO::loadObstacle(const std::string& xmlFile)
     {
+        FileInProgress guard(xmlFile);
+
         // load file
         std::ifstream in(xmlFile.c_str());
 
@@ -58,6 +84,8 @@ namespace VirtualRobot
 
     VirtualRobot::ManipulationObjectPtr ObjectIO::loadManipulationObject(const std::string& xmlFile)
     {
+        FileInProgress guard(xmlFile);
+
         // load file
         std::ifstream in(xmlFile.c_str());
 
diff --git a/VirtualRobot/XML/RobotIO.cpp b/VirtualRobot/XML/RobotIO.cpp
index d4ffc23..fde7e11 100644
--- a/VirtualRobot/XML/RobotIO.cpp
+++ b/VirtualRobot/XML/RobotIO.cpp
@@ -21,10 +21,34 @@
 #include <vector>
 #include <fstream>
 #include <iostream>
+#include <set>
 
 namespace VirtualRobot
 {
 
+    namespace
+    {
+        // files that are currently being loaded, used to detect files including each other
+        thread_local std::set<std::string> filesInProgress;
+
+        struct FileInProgress
+        {
+            explicit FileInProgress(const std::string& file) : name(boost::filesystem::weakly_canonical(file).string())
+            {
+                THROW_VR_EXCEPTION_IF(!filesInProgress.insert(name).second, "File " << file << " includes itself");
+            }
+
+            ~FileInProgress()
+            {
+                filesInProgress.erase(name);
+            }
+
+            FileInProgress(const FileInProgress&) = delete;
+            FileInProgress& operator=(const FileInProgress&) = delete;
+
+            const std::string name;
+        };
+    }
 
     std::map<std::string, int> RobotIO::robot_name_counter;
 
@@ -1429,6 +1453,8 @@ namespace VirtualRobot
             return RobotPtr();
         }
 
+        FileInProgress guard(fullFile);
+
         // load file
         std::ifstream in(fullFile.c_str());
 
-- 
2.43.0


From 165978f4ce86badec43c1079e81c10471a3fbff3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:57 +0000
Subject: [PATCH 109/136] fix: do not build a collision model without
 visualization

---
 VirtualRobot/XML/ObjectIO.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/VirtualRobot/XML/ObjectIO.cpp b/VirtualRobot/XML/ObjectIO.cpp
index b03b387..aa319a8 100644
--- a/VirtualRobot/XML/ObjectIO.cpp
+++ b/VirtualRobot/XML/ObjectIO.cpp
@@ -323,7 +323,7 @@ namespace VirtualRobot
                 visualizationNode = processVisualizationTag(node, objName, basePath, useAsColModel);
                 visuProcessed = true;
 
-                if (useAsColModel)
+                if (useAsColModel && visualizationNode)
                 {
                     THROW_VR_EXCEPTION_IF(colProcessed, "Two collision tags defined in ManipulationObject '" << objName << "'." << endl);
                     std::string colModelName = objName;
@@ -441,7 +441,7 @@ namespace VirtualRobot
                 visualizationNode = processVisualizationTag(node, objName, basePath, useAsColModel);
                 visuProcessed = true;
 
-                if (useAsColModel)
+                if (useAsColModel && visualizationNode)
                 {
                     THROW_VR_EXCEPTION_IF(colProcessed, "Two collision tags defined in Obstacle '" << objName << "'." << endl);
                     std::string colModelName = objName;
-- 
2.43.0


From bba7d70bc9e21a39a45648242ab5bff1464073a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:56 +0000
Subject: [PATCH 110/136] fix: do not wait for actor joints that do not move

---
 VirtualRobot/EndEffector/EndEffectorActor.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/VirtualRobot/EndEffector/EndEffectorActor.cpp b/VirtualRobot/EndEffector/EndEffectorActor.cpp
index a51a98f..90ec1fe 100644
--- a/VirtualRobot/EndEffector/EndEffectorActor.cpp
+++ b/VirtualRobot/EndEffector/EndEffectorActor.cpp
@@ -118,7 +118,11 @@ namespace VirtualRobot
 
             actorStatus[actor.robotNode] = eMoving;
 
-            if (v <= actor.robotNode->getJointLimitHi() && v >= actor.robotNode->getJointLimitLo())
+            if (v == oldV)
+            {
+                actorStatus[actor.robotNode] = eFinished;
+            }
+            else if (v <= actor.robotNode->getJointLimitHi() && v >= actor.robotNode->getJointLimitLo())
             {
                 robot->setJointValue(actor.robotNode, v);
                 //n->robotNode->setJointValue(v);
-- 
2.43.0


From 8f2ed8d5168be5cf280bcce55faf160867ea689a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:01 +0000
Subject: [PATCH 111/136] fix: let the constraint solver apply impulses

---
 SimDynamics/DynamicsEngine/BulletEngine/BulletEngine.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/SimDynamics/DynamicsEngine/BulletEngine/BulletEngine.cpp b/SimDynamics/DynamicsEngine/BulletEngine/BulletEngine.cpp
index 7fa7948..dbd5dfc 100644
--- a/SimDynamics/DynamicsEngine/BulletEngine/BulletEngine.cpp
+++ b/SimDynamics/DynamicsEngine/BulletEngine/BulletEngine.cpp
@@ -24,7 +24,7 @@ namespace SimDynamics
         bulletSolverIterations = 250;
         bulletSolverGlobalContactForceMixing = 0.0;
         bulletSolverGlobalErrorReductionParameter = btScalar(0.6);
-        bulletSolverSuccessiveOverRelaxation = btScalar(0.0);
+        bulletSolverSuccessiveOverRelaxation = btScalar(1.0); // scales all impulses, must not be 0
         //bulletSolverContactSurfaceLayer = btScalar(0.001);
         bulletSolverSplitImpulsePenetrationThreshold = btScalar(-0.01);
     }
-- 
2.43.0


From 16467e9dc39713418cda88e2acdd6bfe969012e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:01 +0000
Subject: [PATCH 112/136] fix: do not add an object to the physics world twice

---
 SimDynamics/DynamicsEngine/BulletEngine/BulletEngine.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/SimDynamics/DynamicsEngine/BulletEngine/BulletEngine.cpp b/SimDynamics/DynamicsEngine/BulletEngine/BulletEngine.cpp
index dbd5dfc..c13bb98 100644
--- a/SimDynamics/DynamicsEngine/BulletEngine/BulletEngine.cpp
+++ b/SimDynamics/DynamicsEngine/BulletEngine/BulletEngine.cpp
@@ -203,6 +203,12 @@ namespace SimDynamics
             return false;
         }
 
+        if (std::find(objects.begin(), objects.end(), o) != objects.end())
+        {
+            // already part of the world
+            return true;
+        }
+
         int btColFlag;
 
         switch (o->getSimType())
-- 
2.43.0


From 8b9f2c43e9a436fe482834981905e65413f2f59b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:01 +0000
Subject: [PATCH 113/136] fix: keep the orientation when setting the position
 of a dynamics object

---
 SimDynamics/DynamicsEngine/BulletEngine/BulletObject.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/SimDynamics/DynamicsEngine/BulletEngine/BulletObject.cpp b/SimDynamics/DynamicsEngine/BulletEngine/BulletObject.cpp
index 95a6633..b5327ca 100644
--- a/SimDynamics/DynamicsEngine/BulletEngine/BulletObject.cpp
+++ b/SimDynamics/DynamicsEngine/BulletEngine/BulletObject.cpp
@@ -276,7 +276,7 @@ namespace SimDynamics
     void BulletObject::setPosition(const Eigen::Vector3f& posMM)
     {
         MutexLockPtr lock = getScopedLock();
-        Eigen::Matrix4f pose = Eigen::Matrix4f::Identity();
+        Eigen::Matrix4f pose = sceneObject->getGlobalPose();
         pose.block(0, 3, 3, 1) = posMM;
         setPose(pose);
     }
-- 
2.43.0


From 7c953b19a5e2a186e32e6e8aa4c66e1b92c3fe64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:01 +0000
Subject: [PATCH 114/136] fix: place the center of mass in the frame of the new
 pose

---
 SimDynamics/DynamicsEngine/BulletEngine/SimoxMotionState.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/SimDynamics/DynamicsEngine/BulletEngine/SimoxMotionState.cpp b/SimDynamics/DynamicsEngine/BulletEngine/SimoxMotionState.cpp
index ce9f4a0..799e971 100644
--- a/SimDynamics/DynamicsEngine/BulletEngine/SimoxMotionState.cpp
+++ b/SimDynamics/DynamicsEngine/BulletEngine/SimoxMotionState.cpp
@@ -181,9 +181,9 @@ namespace SimDynamics
     {
         initalGlobalPose = pose;
         /* convert to local coord system, apply comoffset and convert back*/
-        Eigen::Matrix4f poseLocal = sceneObject->getGlobalPose().inverse() * pose;
+        Eigen::Matrix4f poseLocal = Eigen::Matrix4f::Identity();
         poseLocal.block(0, 3, 3, 1) += com;
-        Eigen::Matrix4f poseGlobal = sceneObject->getGlobalPose() * poseLocal;
+        Eigen::Matrix4f poseGlobal = pose * poseLocal;
         m_startWorldTrans = BulletEngine::getPoseBullet(poseGlobal);
         //m_startWorldTrans.getOrigin() -= _comOffset.getOrigin();
         updateTransform();
-- 
2.43.0


From d2e48ee57c7ac2fa7def54d7ac861f648bd054a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:01 +0000
Subject: [PATCH 115/136] fix: set linear velocities in the unit they are read
 in

---
 SimDynamics/DynamicsEngine/BulletEngine/BulletObject.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/SimDynamics/DynamicsEngine/BulletEngine/BulletObject.cpp b/SimDynamics/DynamicsEngine/BulletEngine/BulletObject.cpp
index b5327ca..beca597 100644
--- a/SimDynamics/DynamicsEngine/BulletEngine/BulletObject.cpp
+++ b/SimDynamics/DynamicsEngine/BulletEngine/BulletObject.cpp
@@ -337,7 +337,7 @@ namespace SimDynamics
             return;
         }
 
-        btVector3 btVel = BulletEngine::getVecBullet(vel, false);
+        btVector3 btVel = BulletEngine::getVecBullet(vel);
         rigidBody->activate();
         rigidBody->setLinearVelocity(btVel);
     }
-- 
2.43.0


From aa35da5079b1a91e09f286835d238602db76afaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:01 +0000
Subject: [PATCH 116/136] fix: consider the center of mass of dynamics objects
 without model

---
 SimDynamics/DynamicsEngine/BulletEngine/BulletObject.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/SimDynamics/DynamicsEngine/BulletEngine/BulletObject.cpp b/SimDynamics/DynamicsEngine/BulletEngine/BulletObject.cpp
index beca597..d222c1b 100644
--- a/SimDynamics/DynamicsEngine/BulletEngine/BulletObject.cpp
+++ b/SimDynamics/DynamicsEngine/BulletEngine/BulletObject.cpp
@@ -45,6 +45,11 @@ namespace SimDynamics
         {
             VR_WARNING << "Building empty collision shape for object " << o->getName() << endl;
             collisionShape.reset(new btEmptyShape());
+            Eigen::Matrix4f comLoc;
+            comLoc.setIdentity();
+            comLoc.block(0, 3, 3, 1) = o->getCoMGlobal();
+            comLoc = (o->getGlobalPose().inverse() * comLoc);
+            com = comLoc.block(0, 3, 3, 1);
         }
         else
         {
-- 
2.43.0


From 46209507a2b90ab109b0804f6a5dc5084c8318ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:01 +0000
Subject: [PATCH 117/136] fix: use half the height for cylinder shapes

---
 SimDynamics/DynamicsEngine/BulletEngine/BulletObject.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/SimDynamics/DynamicsEngine/BulletEngine/BulletObject.cpp b/SimDynamics/DynamicsEngine/BulletEngine/BulletObject.cpp
index d222c1b..92d2548 100644
--- a/SimDynamics/DynamicsEngine/BulletEngine/BulletObject.cpp
+++ b/SimDynamics/DynamicsEngine/BulletEngine/BulletObject.cpp
@@ -201,7 +201,8 @@ namespace SimDynamics
         else if (primitive->type == Primitive::Cylinder::TYPE)
         {
             Primitive::Cylinder* cyl = boost::dynamic_pointer_cast<Primitive::Cylinder>(primitive).get();
-            btCylinderShape* cylShape = new btCylinderShape(btVector3(cyl->radius / 1000.0  * ScaleFactor, cyl->height / 1000.0  * ScaleFactor, cyl->radius / 1000.0  * ScaleFactor));
+            btCylinderShape* cylShape = new btCylinderShape(btVector3(cyl->radius / 1000.0  * ScaleFactor, cyl->height / 2000.0  * ScaleFactor, // half extents
+                         cyl->radius / 1000.0  * ScaleFactor));
             result = cylShape;
         }
         else
-- 
2.43.0


From 70cde8160f50612a4a36b3e8a466d088d189513c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:01 +0000
Subject: [PATCH 118/136] fix: let the physics engine interpolate from the pose
 that was set

---
 SimDynamics/DynamicsEngine/BulletEngine/BulletObject.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/SimDynamics/DynamicsEngine/BulletEngine/BulletObject.cpp b/SimDynamics/DynamicsEngine/BulletEngine/BulletObject.cpp
index 92d2548..c5f61ed 100644
--- a/SimDynamics/DynamicsEngine/BulletEngine/BulletObject.cpp
+++ b/SimDynamics/DynamicsEngine/BulletEngine/BulletObject.cpp
@@ -295,6 +295,7 @@ namespace SimDynamics
         poseLocal.block(0, 3, 3, 1) += com;
         Eigen::Matrix4f poseGlobal = pose * poseLocal;
         this->rigidBody->setWorldTransform(BulletEngine::getPoseBullet(poseGlobal));
+        this->rigidBody->setInterpolationWorldTransform(this->rigidBody->getWorldTransform());
 
         // notify motionState of non-robot nodes
         if(!boost::dynamic_pointer_cast<VirtualRobot::RobotNode>(sceneObject))
-- 
2.43.0


From dd8bba379b6511fc2f97ccb899799acfc1486d31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:05 +0000
Subject: [PATCH 119/136] fix: measure simulated joints from the model's zero
 position

---
 SimDynamics/DynamicsEngine/BulletEngine/BulletRobot.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/SimDynamics/DynamicsEngine/BulletEngine/BulletRobot.cpp b/SimDynamics/DynamicsEngine/BulletEngine/BulletRobot.cpp
index 1e65be5..71612f0 100644
--- a/SimDynamics/DynamicsEngine/BulletEngine/BulletRobot.cpp
+++ b/SimDynamics/DynamicsEngine/BulletEngine/BulletRobot.cpp
@@ -376,7 +376,8 @@ namespace SimDynamics
             boost::shared_ptr<RobotNodePrismatic> rnPrisJoint = boost::dynamic_pointer_cast<RobotNodePrismatic>(joint);
 
             double limMin, limMax;
-            btScalar diff = joint->getJointValueOffset();
+            // the link is created at joint value zero, the pose of the joint includes its offset
+            btScalar diff = 0;
             limMin = (joint->getJointLimitLo() + diff) / 1000 * BulletObject::ScaleFactor; //mm -> m
             limMax = (joint->getJointLimitHi() + diff) / 1000 * BulletObject::ScaleFactor; //mm -> m
 
@@ -405,7 +406,8 @@ namespace SimDynamics
             Eigen::Vector3f axisGlobal = rnRevJoint->getJointRotationAxis();
             Eigen::Vector3f axisLocal = rnRevJoint->getJointRotationAxisInJointCoordSystem();
             btScalar limMinBT, limMaxBT;
-            btScalar diff = joint->getJointValueOffset();//startAngleBT + startAngle);
+            // the link is created at joint value zero, the pose of the joint includes its offset
+            btScalar diff = 0;
             limMinBT = btScalar(limMin) + diff;//diff - limMax;//
             limMaxBT = btScalar(limMax) + diff;//diff - limMin;//
             jointbt = createHingeJoint(btBody1, btBody2, coordSystemNode1, coordSystemNode2, anchor_inNode1, anchor_inNode2, axisGlobal, axisLocal, coordSystemJoint, limMinBT, limMaxBT);
-- 
2.43.0


From 3e1eb701b5b2f344a5d3dd9b810ec9da1ce49334 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:05 +0000
Subject: [PATCH 120/136] fix: refuse a second wrapper of a robot before its
 bodies are added

---
 .../DynamicsEngine/BulletEngine/BulletEngine.cpp     | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/SimDynamics/DynamicsEngine/BulletEngine/BulletEngine.cpp b/SimDynamics/DynamicsEngine/BulletEngine/BulletEngine.cpp
index c13bb98..3c61289 100644
--- a/SimDynamics/DynamicsEngine/BulletEngine/BulletEngine.cpp
+++ b/SimDynamics/DynamicsEngine/BulletEngine/BulletEngine.cpp
@@ -432,6 +432,16 @@ namespace SimDynamics
             return false;
         }
 
+        if (find(robots.begin(), robots.end(), r) != robots.end())
+        {
+            return true;
+        }
+
+        if (!DynamicsEngine::addRobot(r))
+        {
+            return false;
+        }
+
         std::vector<BulletRobot::LinkInfo> links = btRobot->getLinks();
         std::vector<DynamicsObjectPtr> nodes = btRobot->getDynamicsRobotNodes();
 
@@ -445,7 +455,7 @@ namespace SimDynamics
             addLink(link);
         }
 
-        return DynamicsEngine::addRobot(r);
+        return true;
     }
 
     void BulletEngine::addExternalCallback(BulletStepCallback function, void* data)
-- 
2.43.0


From 4fcdb034d51eb23d60866407b5b731759ea5a5dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:05 +0000
Subject: [PATCH 121/136] fix: momenta of simulated robots in SI units

---
 .../BulletEngine/BulletRobot.cpp              | 39 +++++++++++--------
 1 file changed, 23 insertions(+), 16 deletions(-)

diff --git a/SimDynamics/DynamicsEngine/BulletEngine/BulletRobot.cpp b/SimDynamics/DynamicsEngine/BulletEngine/BulletRobot.cpp
index 71612f0..1841129 100644
--- a/SimDynamics/DynamicsEngine/BulletEngine/BulletRobot.cpp
+++ b/SimDynamics/DynamicsEngine/BulletEngine/BulletRobot.cpp
@@ -1312,7 +1312,7 @@ namespace SimDynamics
         {
             VirtualRobot::RobotNodePtr node = (*set)[i];
             BulletObjectPtr bo = boost::dynamic_pointer_cast<BulletObject>(getDynamicsRobotNode(node));
-            Eigen::Vector3f vel = bo->getLinearVelocity() / 1000.0  * BulletObject::ScaleFactor;
+            Eigen::Vector3f vel = bo->getLinearVelocity() / 1000.0;
 
             linMomentum += node->getMass() * vel;
         }
@@ -1320,6 +1320,19 @@ namespace SimDynamics
         return linMomentum;
     }
 
+    // inertia of a body around its CoM in kg m^2, expressed in the global frame (zero for bodies that cannot be moved)
+    static Eigen::Matrix3f getInertiaWorld(const boost::shared_ptr<btRigidBody>& body)
+    {
+        Eigen::Matrix3f inertia = Eigen::Matrix3f::Zero();
+
+        if (body->getInvMass() > 0)
+        {
+            inertia = BulletEngine::getRotMatrix(body->getInvInertiaTensorWorld()).block(0, 0, 3, 3).inverse();
+        }
+
+        return inertia / (BulletObject::MassFactor * BulletObject::ScaleFactor * BulletObject::ScaleFactor);
+    }
+
     Eigen::Vector3f BulletRobot::getAngularMomentumGlobal(const VirtualRobot::RobotNodeSetPtr& set)
     {
         MutexLockPtr lock = getScopedLock();
@@ -1329,13 +1342,13 @@ namespace SimDynamics
         {
             VirtualRobot::RobotNodePtr node = (*set)[i];
             BulletObjectPtr bo = boost::dynamic_pointer_cast<BulletObject>(getDynamicsRobotNode(node));
-            Eigen::Vector3f vel = bo->getLinearVelocity() / 1000.0  * BulletObject::ScaleFactor;
-            Eigen::Vector3f ang = bo->getAngularVelocity() / 1000.0  * BulletObject::ScaleFactor;
-            Eigen::Vector3f com = bo->getComGlobal().block(0, 3, 3, 1) / 1000.0  * BulletObject::ScaleFactor;
+            Eigen::Vector3f vel = bo->getLinearVelocity() / 1000.0;
+            Eigen::Vector3f ang = bo->getAngularVelocity();
+            Eigen::Vector3f com = bo->getComGlobal().block(0, 3, 3, 1) / 1000.0;
             double mass = node->getMass();
 
             boost::shared_ptr<btRigidBody> body = bo->getRigidBody();
-            Eigen::Matrix3f intertiaWorld = BulletEngine::getRotMatrix(body->getInvInertiaTensorWorld()).inverse().block(0, 0, 3, 3);
+            Eigen::Matrix3f intertiaWorld = getInertiaWorld(body);
 
             angMomentum += com.cross(mass * vel) + intertiaWorld * ang;
         }
@@ -1347,27 +1360,21 @@ namespace SimDynamics
     {
         MutexLockPtr lock = getScopedLock();
         Eigen::Vector3f angMomentum = Eigen::Vector3f::Zero();
-        Eigen::Vector3f com = getComGlobal(set) / 1000.0  * BulletObject::ScaleFactor;
+        Eigen::Vector3f com = getComGlobal(set) / 1000.0;
         Eigen::Vector3f comVel = getComVelocityGlobal(set) / 1000;
 
         for (unsigned int i = 0; i < set->getSize(); i++)
         {
             VirtualRobot::RobotNodePtr node = (*set)[i];
             BulletObjectPtr bo = boost::dynamic_pointer_cast<BulletObject>(getDynamicsRobotNode(node));
-            Eigen::Vector3f bodyVel = bo->getLinearVelocity() / 1000.0  * BulletObject::ScaleFactor;
-            Eigen::Vector3f ang = bo->getAngularVelocity() / 1000.0  * BulletObject::ScaleFactor;
-            Eigen::Vector3f bodyCoM = bo->getComGlobal().block(0, 3, 3, 1) / 1000.0  * BulletObject::ScaleFactor;
+            Eigen::Vector3f bodyVel = bo->getLinearVelocity() / 1000.0;
+            Eigen::Vector3f ang = bo->getAngularVelocity();
+            Eigen::Vector3f bodyCoM = bo->getComGlobal().block(0, 3, 3, 1) / 1000.0;
             double mass = node->getMass();
 
             boost::shared_ptr<btRigidBody> body = bo->getRigidBody();
 
-            btVector3 invIntertiaDiag = body->getInvInertiaDiagLocal();
-            Eigen::Matrix3f intertiaLocal = Eigen::Matrix3f::Zero();
-            intertiaLocal(0, 0) = 1 / invIntertiaDiag.getX();
-            intertiaLocal(1, 1) = 1 / invIntertiaDiag.getY();
-            intertiaLocal(2, 2) = 1 / invIntertiaDiag.getZ();
-
-            angMomentum += mass * (bodyCoM - com).cross(bodyVel - comVel) + intertiaLocal * ang;
+            angMomentum += mass * (bodyCoM - com).cross(bodyVel - comVel) + getInertiaWorld(body) * ang;
         }
 
         return angMomentum;
-- 
2.43.0


From c51c066783e7be6d77c0151c9b6acfdcf28f70c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:05 +0000
Subject: [PATCH 122/136] fix: stop a joint that has no actuation target

---
 SimDynamics/DynamicsEngine/DynamicsRobot.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/SimDynamics/DynamicsEngine/DynamicsRobot.cpp b/SimDynamics/DynamicsEngine/DynamicsRobot.cpp
index ad3ac8b..f85d0b4 100644
--- a/SimDynamics/DynamicsEngine/DynamicsRobot.cpp
+++ b/SimDynamics/DynamicsEngine/DynamicsRobot.cpp
@@ -210,7 +210,7 @@ namespace SimDynamics
 //            target.jointValueTarget = oldTargetIt->second.jointValueTarget;
 //        }
 //        else
-        if(std::abs(jointVelocity) < 1e-10)
+        if(std::abs(jointVelocity) < 1e-10 && oldTargetIt != actuationTargets.end())
         {
             //do not move
             target.jointValueTarget = oldTargetIt->second.jointValueTarget;
-- 
2.43.0


From aa2b847fceede28c297773d7ea98c396d64df78c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:59:21 +0000
Subject: [PATCH 123/136] fix: build friction cones with the opening angle of
 the friction coefficient

---
 GraspPlanning/ContactConeGenerator.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/GraspPlanning/ContactConeGenerator.cpp b/GraspPlanning/ContactConeGenerator.cpp
index 31e84c3..9b79b37 100644
--- a/GraspPlanning/ContactConeGenerator.cpp
+++ b/GraspPlanning/ContactConeGenerator.cpp
@@ -39,8 +39,8 @@ namespace GraspStudio
         for (int i = 0; i < frictionConeSamples; i++)
         {
             Eigen::Vector3f p;
-            p(0) = unitForce * (float)(cos(frictionConeAngle) * cos(i * 2.0 * M_PI / frictionConeSamples));
-            p(1) = unitForce * (float)(cos(frictionConeAngle) * sin(i * 2.0 * M_PI / frictionConeSamples));
+            p(0) = (float)(frictionConeRad * cos(i * 2.0 * M_PI / frictionConeSamples));
+            p(1) = (float)(frictionConeRad * sin(i * 2.0 * M_PI / frictionConeSamples));
             p(2) = (float)frictionConeHeight;
             frictionConeRimPoints.push_back(p);
         }
-- 
2.43.0


From 2767e7d3b4b4ecf870732e0975d8f87f276ba0e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:59:21 +0000
Subject: [PATCH 124/136] fix: use the contact points passed to a grasp quality
 measure

---
 VirtualRobot/Grasping/BasicGraspQualityMeasure.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/VirtualRobot/Grasping/BasicGraspQualityMeasure.cpp b/VirtualRobot/Grasping/BasicGraspQualityMeasure.cpp
index 8abfe98..6297085 100644
--- a/VirtualRobot/Grasping/BasicGraspQualityMeasure.cpp
+++ b/VirtualRobot/Grasping/BasicGraspQualityMeasure.cpp
@@ -70,13 +70,13 @@ namespace VirtualRobot
     BasicGraspQualityMeasure::~BasicGraspQualityMeasure()
     = default;
 
-    void BasicGraspQualityMeasure::setContactPoints(const std::vector<VirtualRobot::MathTools::ContactPoint>& /*contactPoints6d*/)
+    void BasicGraspQualityMeasure::setContactPoints(const std::vector<VirtualRobot::MathTools::ContactPoint>& contactPoints6d)
     {
         this->contactPoints.clear();
         this->contactPointsM.clear();
         std::vector<MathTools::ContactPoint>::const_iterator objPointsIter;
 
-        for (objPointsIter = contactPoints.begin(); objPointsIter != contactPoints.end(); objPointsIter++)
+        for (objPointsIter = contactPoints6d.begin(); objPointsIter != contactPoints6d.end(); objPointsIter++)
         {
             MathTools::ContactPoint point = (*objPointsIter);
             point.p -= centerOfModel;
-- 
2.43.0


From 5f4c43fa2077f9a8d058204a2ba5b6c6d48c9815 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:59:21 +0000
Subject: [PATCH 125/136] fix: take the minimum facet offset in the not
 normalized wrench space measure

---
 .../GraspQualityMeasureWrenchSpaceNotNormalized.cpp             | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/GraspPlanning/GraspQuality/GraspQualityMeasureWrenchSpaceNotNormalized.cpp b/GraspPlanning/GraspQuality/GraspQualityMeasureWrenchSpaceNotNormalized.cpp
index 7433974..237f107 100644
--- a/GraspPlanning/GraspQuality/GraspQualityMeasureWrenchSpaceNotNormalized.cpp
+++ b/GraspPlanning/GraspQuality/GraspQualityMeasureWrenchSpaceNotNormalized.cpp
@@ -294,7 +294,7 @@ namespace GraspStudio
                 nWrongFacets++;
                 continue;
             }
-            fRes = std::max(fRes, -dist);
+            fRes = std::min(fRes, -dist);
         }
 
         if (nWrongFacets > 0)
-- 
2.43.0


From d0298454c8a9c1d3551770443b4ba0f4bb786f4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:59:21 +0000
Subject: [PATCH 126/136] fix: drop the grasp wrench space when there are no
 contacts

---
 GraspPlanning/GraspQuality/GraspQualityMeasureWrenchSpace.cpp    | 1 +
 .../GraspQuality/GraspQualityMeasureWrenchSpaceNotNormalized.cpp | 1 +
 2 files changed, 2 insertions(+)

diff --git a/GraspPlanning/GraspQuality/GraspQualityMeasureWrenchSpace.cpp b/GraspPlanning/GraspQuality/GraspQualityMeasureWrenchSpace.cpp
index 86f4408..3809deb 100644
--- a/GraspPlanning/GraspQuality/GraspQualityMeasureWrenchSpace.cpp
+++ b/GraspPlanning/GraspQuality/GraspQualityMeasureWrenchSpace.cpp
@@ -132,6 +132,7 @@ namespace GraspStudio
         {
             if (verbose && printAll)
                 printf("Contact points not set.\n");
+            convexHullGWS.reset();
             return;
         }
 
diff --git a/GraspPlanning/GraspQuality/GraspQualityMeasureWrenchSpaceNotNormalized.cpp b/GraspPlanning/GraspQuality/GraspQualityMeasureWrenchSpaceNotNormalized.cpp
index 237f107..3861a57 100644
--- a/GraspPlanning/GraspQuality/GraspQualityMeasureWrenchSpaceNotNormalized.cpp
+++ b/GraspPlanning/GraspQuality/GraspQualityMeasureWrenchSpaceNotNormalized.cpp
@@ -64,6 +64,7 @@ namespace GraspStudio
         {
             if (verbose && printAll)
                 printf("Contact points not set.\n");
+            convexHullGWS.reset();
             return;
         }
 
-- 
2.43.0


From 0f65ad123381d0580800f2feb60edb2f2e4a0787 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:59:21 +0000
Subject: [PATCH 127/136] fix: no force closure without a wrench space hull

---
 GraspPlanning/GraspQuality/GraspQualityMeasureWrenchSpace.cpp   | 2 +-
 .../GraspQualityMeasureWrenchSpaceNotNormalized.cpp             | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/GraspPlanning/GraspQuality/GraspQualityMeasureWrenchSpace.cpp b/GraspPlanning/GraspQuality/GraspQualityMeasureWrenchSpace.cpp
index 3809deb..87c63b5 100644
--- a/GraspPlanning/GraspQuality/GraspQualityMeasureWrenchSpace.cpp
+++ b/GraspPlanning/GraspQuality/GraspQualityMeasureWrenchSpace.cpp
@@ -375,7 +375,7 @@ namespace GraspStudio
     }
     bool GraspQualityMeasureWrenchSpace::isOriginInGWSHull()
     {
-        if (!GWSCalculated || !convexHullGWS)
+        if (!GWSCalculated || !convexHullGWS || convexHullGWS->faces.empty())
         {
             return false;
         }
diff --git a/GraspPlanning/GraspQuality/GraspQualityMeasureWrenchSpaceNotNormalized.cpp b/GraspPlanning/GraspQuality/GraspQualityMeasureWrenchSpaceNotNormalized.cpp
index 3861a57..813a401 100644
--- a/GraspPlanning/GraspQuality/GraspQualityMeasureWrenchSpaceNotNormalized.cpp
+++ b/GraspPlanning/GraspQuality/GraspQualityMeasureWrenchSpaceNotNormalized.cpp
@@ -257,7 +257,7 @@ namespace GraspStudio
     }
     bool GraspQualityMeasureWrenchSpaceNotNormalized::isOriginInGWSHull()
     {
-        if (!GWSCalculated || !convexHullGWS)
+        if (!GWSCalculated || !convexHullGWS || convexHullGWS->faces.empty())
         {
             return false;
         }
-- 
2.43.0


From aff0b93332bcad531036ddff01067621db63b264 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:59:21 +0000
Subject: [PATCH 128/136] fix: relate grid poses to the grasp center like
 sampled poses

---
 GraspPlanning/GraspQuality/GraspEvaluationPoseUncertainty.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/GraspPlanning/GraspQuality/GraspEvaluationPoseUncertainty.cpp b/GraspPlanning/GraspQuality/GraspEvaluationPoseUncertainty.cpp
index 5d960bc..b98658f 100644
--- a/GraspPlanning/GraspQuality/GraspEvaluationPoseUncertainty.cpp
+++ b/GraspPlanning/GraspQuality/GraspEvaluationPoseUncertainty.cpp
@@ -28,7 +28,7 @@ std::vector<Eigen::Matrix4f> GraspEvaluationPoseUncertainty::generatePoses(
         const Eigen::Matrix4f &objectGP, const Eigen::Matrix4f &graspCenterGP)
 {
 	std::vector<Eigen::Matrix4f> result;
-	Eigen::Matrix4f trafoGraspCenterToObjectCenter = objectGP * graspCenterGP.inverse();
+	Eigen::Matrix4f trafoGraspCenterToObjectCenter = graspCenterGP.inverse() * objectGP;
 	Eigen::Matrix4f initPose = graspCenterGP;
 	Eigen::Vector3f rpy;
 	MathTools::eigen4f2rpy(initPose, rpy);
-- 
2.43.0


From 80ad1d612b13cd9ba1f0e9b2cdf5e0c9a2312de5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:59:21 +0000
Subject: [PATCH 129/136] fix: check for a missing end effector before it is
 used

---
 GraspPlanning/GraspQuality/GraspEvaluationPoseUncertainty.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/GraspPlanning/GraspQuality/GraspEvaluationPoseUncertainty.cpp b/GraspPlanning/GraspQuality/GraspEvaluationPoseUncertainty.cpp
index b98658f..7d6bc1b 100644
--- a/GraspPlanning/GraspQuality/GraspEvaluationPoseUncertainty.cpp
+++ b/GraspPlanning/GraspQuality/GraspEvaluationPoseUncertainty.cpp
@@ -194,14 +194,14 @@ GraspEvaluationPoseUncertainty::PoseEvalResult GraspEvaluationPoseUncertainty::e
     result.quality = 0.0f;
     result.initialCollision = false;
 
-     SceneObjectSetPtr eefColModel = eef->createSceneObjectSet();
-
     if (!eef || !qm)
     {
         VR_ERROR << "Missing parameters" << endl;
         return result;
     }
 
+    SceneObjectSetPtr eefColModel = eef->createSceneObjectSet();
+
     if (preshape)
     {
         eef->getRobot()->setJointValues(preshape);
-- 
2.43.0


From 369c60c0798e7d64f87a7bbcff6e9735135ee6cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:59:21 +0000
Subject: [PATCH 130/136] fix: move the end effector by the delta pose also
 when a preshape defines a TCP

---
 GraspPlanning/ApproachMovementGenerator.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/GraspPlanning/ApproachMovementGenerator.cpp b/GraspPlanning/ApproachMovementGenerator.cpp
index 3d5093a..b744c68 100644
--- a/GraspPlanning/ApproachMovementGenerator.cpp
+++ b/GraspPlanning/ApproachMovementGenerator.cpp
@@ -67,14 +67,14 @@ namespace GraspStudio
 
     bool ApproachMovementGenerator::updateEEFPose(const Eigen::Vector3f& deltaPosition)
     {
-        Eigen::Matrix4f pose = eef_cloned->getGCP()->getGlobalPose();
+        Eigen::Matrix4f pose = getEEFPose();
         math::Helpers::Position(pose) += deltaPosition;
         return setEEFPose(pose);
     }
 
     bool ApproachMovementGenerator::updateEEFPose(const Eigen::Matrix4f& deltaPose)
     {
-        Eigen::Matrix4f pose = eef_cloned->getGCP()->getGlobalPose();
+        Eigen::Matrix4f pose = getEEFPose();
         pose = deltaPose * pose;
         return setEEFPose(pose);
     }
-- 
2.43.0


From 24a12bfa1539f1b621e83bb2476230e016b73301 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:59:21 +0000
Subject: [PATCH 131/136] fix: approach the object where it is

---
 GraspPlanning/ApproachMovementSurfaceNormal.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/GraspPlanning/ApproachMovementSurfaceNormal.cpp b/GraspPlanning/ApproachMovementSurfaceNormal.cpp
index d5264e9..c2c6c98 100644
--- a/GraspPlanning/ApproachMovementSurfaceNormal.cpp
+++ b/GraspPlanning/ApproachMovementSurfaceNormal.cpp
@@ -60,6 +60,11 @@ namespace GraspStudio
           position(2) = (objectModel->vertices[nVert1].z + objectModel->vertices[nVert2].z + objectModel->vertices[nVert3].z) / 3.0f;*/
         
         storeApproachDir = (objectModel->faces[faceIndex]).normal;
+        // the mesh is given in the coordinate system of the object
+        const Eigen::Matrix4f objectPose = object->getGlobalPose();
+        storePos = MathTools::transformPosition(storePos, objectPose);
+        storeApproachDir = objectPose.block<3, 3>(0, 0) * storeApproachDir;
+
         if (std::abs(storeApproachDir.squaredNorm() - 1) > 1e-6f)
         {
             std::cout << "Normal in trimesh not normalized!";
-- 
2.43.0


From 749144363626e400bcfb6041aff02219d1a6b19e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:59:21 +0000
Subject: [PATCH 132/136] fix: check the retreated hand itself for collisions

---
 GraspPlanning/ApproachMovementSurfaceNormal.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/GraspPlanning/ApproachMovementSurfaceNormal.cpp b/GraspPlanning/ApproachMovementSurfaceNormal.cpp
index c2c6c98..a5496b6 100644
--- a/GraspPlanning/ApproachMovementSurfaceNormal.cpp
+++ b/GraspPlanning/ApproachMovementSurfaceNormal.cpp
@@ -108,7 +108,7 @@ namespace GraspStudio
             Eigen::Vector3f delta = approachDir * distance;
             updateEEFPose(delta);
 
-            if (!eef_cloned->getCollisionChecker()->checkCollision(object, eef->createSceneObjectSet()))
+            if (!eef_cloned->getCollisionChecker()->checkCollision(object->getCollisionModel(), eef_cloned->createSceneObjectSet()))
             {
                 poseB = getEEFPose();
             } // else remain at original pose
-- 
2.43.0


From c9508e288586386ab5c421b634409bdc69158246 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:59:21 +0000
Subject: [PATCH 133/136] fix: use the face area distribution when asked to

---
 GraspPlanning/ApproachMovementSurfaceNormal.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/GraspPlanning/ApproachMovementSurfaceNormal.cpp b/GraspPlanning/ApproachMovementSurfaceNormal.cpp
index a5496b6..ecc02ab 100644
--- a/GraspPlanning/ApproachMovementSurfaceNormal.cpp
+++ b/GraspPlanning/ApproachMovementSurfaceNormal.cpp
@@ -29,6 +29,7 @@ namespace GraspStudio
         if (useFaceAreaDistribution)
         {
             std::vector<float> areas = objectModel->getFaceAreas();
+            useFaceAreasDistrib = true;
             distribFaceAreas = std::discrete_distribution<std::size_t>(areas.begin(), areas.end());
         }
     }
-- 
2.43.0


From c82b8e3c9215b083e1683cde3bde9c804b3ad5a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:12 +0000
Subject: [PATCH 134/136] fix: do not time out at once when no timeout is given

---
 GraspPlanning/GraspPlanner/GenericGraspPlanner.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/GraspPlanning/GraspPlanner/GenericGraspPlanner.cpp b/GraspPlanning/GraspPlanner/GenericGraspPlanner.cpp
index 2ef3d9d..0002fae 100644
--- a/GraspPlanning/GraspPlanner/GenericGraspPlanner.cpp
+++ b/GraspPlanning/GraspPlanner/GenericGraspPlanner.cpp
@@ -306,8 +306,8 @@ namespace GraspStudio
 
     bool GenericGraspPlanner::timeout()
     {
-        return timeOutDuration.count() <= 0
-               || std::chrono::system_clock::now() > (startTime + timeOutDuration);
+        return timeOutDuration.count() > 0
+               && std::chrono::system_clock::now() > (startTime + timeOutDuration);
     }
 
 } // namespace
-- 
2.43.0


From 08fd7d04dd885690093690b3108509d4a0dba69a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:12 +0000
Subject: [PATCH 135/136] fix: restore the setup when a grasp has no contacts
 to evaluate

---
 .../GraspEvaluationPoseUncertainty.cpp             | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/GraspPlanning/GraspQuality/GraspEvaluationPoseUncertainty.cpp b/GraspPlanning/GraspQuality/GraspEvaluationPoseUncertainty.cpp
index 7d6bc1b..cd860d9 100644
--- a/GraspPlanning/GraspQuality/GraspEvaluationPoseUncertainty.cpp
+++ b/GraspPlanning/GraspQuality/GraspEvaluationPoseUncertainty.cpp
@@ -333,6 +333,13 @@ GraspEvaluationPoseUncertainty::PoseEvalResults GraspEvaluationPoseUncertainty::
     Eigen::Matrix4f objectPoseInit = object->getGlobalPose();
     VirtualRobot::RobotConfigPtr initialConf = eef->getConfiguration();
 
+    auto restoreSetup = [&]()
+    {
+        eef->getRobot()->setGlobalPose(eefRobotPoseInit);
+        object->setGlobalPose(objectPoseInit);
+        eef->getRobot()->setConfig(initialConf);
+    };
+
     std::string graspPreshapeName = grasp->getPreshapeName();
     VirtualRobot::RobotConfigPtr graspPS;
     if (eef->hasPreshape(graspPreshapeName))
@@ -358,6 +365,7 @@ GraspEvaluationPoseUncertainty::PoseEvalResults GraspEvaluationPoseUncertainty::
     if (contacts.empty())
     {
         VR_INFO << "No contacts for grasp " << grasp->getName() << " found" << std::endl;
+        restoreSetup();
         return res;
     }
     
@@ -365,14 +373,12 @@ GraspEvaluationPoseUncertainty::PoseEvalResults GraspEvaluationPoseUncertainty::
     if (poses.empty())
     {
         VR_INFO << "No poses for grasp found" << std::endl;
+        restoreSetup();
         return res;
     }
     res = evaluatePoses(eef, object, poses, qm, graspPS);
 
-    // restore setup
-    eef->getRobot()->setGlobalPose(eefRobotPoseInit);
-    object->setGlobalPose(objectPoseInit);
-    eef->getRobot()->setConfig(initialConf);
+    restoreSetup();
 
     return res;
 }
-- 
2.43.0


From 4361d44e49fff36e43fabeae5d48dc42c04d956a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:40 +0000
Subject: [PATCH 136/136] fix: keep the centre of mass of prismatic nodes with
 scaled visualization

---
 VirtualRobot/Nodes/RobotNodePrismatic.cpp | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/VirtualRobot/Nodes/RobotNodePrismatic.cpp b/VirtualRobot/Nodes/RobotNodePrismatic.cpp
index 9197bf6..cce64ae 100644
--- a/VirtualRobot/Nodes/RobotNodePrismatic.cpp
+++ b/VirtualRobot/Nodes/RobotNodePrismatic.cpp
@@ -82,8 +82,18 @@ namespace VirtualRobot
 
     bool RobotNodePrismatic::initialize(SceneObjectPtr parent, const std::vector<SceneObjectPtr>& children)
     {
+        if (initialized)
+        {
+            // the models may already be scaled: keep the unscaled center of mass
+            return RobotNode::initialize(parent, children);
+        }
+
+        // determine the center of mass before anything is scaled
+        const bool scaleLater = visuScaling;
+        visuScaling = false;
         bool res = RobotNode::initialize(parent, children);
         unscaledLocalCoM = physics.localCoM;
+        visuScaling = scaleLater;
         return res;
     }
 
@@ -172,6 +182,12 @@ namespace VirtualRobot
         ReadLockPtr lock = getRobot()->getReadLock();
         Physics p = physics.scale(scaling);
 
+        if (visuScaling)
+        {
+            // the clone scales its center of mass according to its own joint value
+            p.localCoM = unscaledLocalCoM * scaling;
+        }
+
         if (optionalDHParameter.isSet)
         {
             result.reset(new RobotNodePrismatic(newRobot, name, jointLimitLo, jointLimitHi, optionalDHParameter.aMM()*scaling, optionalDHParameter.dMM()*scaling, optionalDHParameter.alphaRadian(), optionalDHParameter.thetaRadian(), visualizationModel, collisionModel, jointValueOffset, p, colChecker, nodeType));
-- 
2.43.0

