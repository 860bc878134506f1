From fc159d523424b58d89c65809fc1c824647977cc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:28 +0000
Subject: [PATCH 01/63] fix: keep inactive bodies disabled when their type
 changes and awake them when they are activated again

---
 src/body/RigidBody.cpp | 27 +++++++++++++++++++++++----
 1 file changed, 23 insertions(+), 4 deletions(-)

diff --git a/src/body/RigidBody.cpp b/src/body/RigidBody.cpp
index 7018701..6fc0423 100644
--- a/src/body/RigidBody.cpp
+++ b/src/body/RigidBody.cpp
@@ -108,8 +108,14 @@ void RigidBody::setType(BodyType type) {
         mWorld.mRigidBodyComponents.setInverseInertiaTensorLocal(mEntity, inverseInertiaTensorLocal);
     }
 
-    // Disable/Enable the body if necessary (components of static bodies are disabled)
-    mWorld.setBodyDisabled(mEntity, type == BodyType::STATIC);
+    // Disable/Enable the body if necessary (components of static bodies and inactive bodies are disabled)
+    const bool isActive = mWorld.mBodyComponents.getIsActive(mEntity);
+    mWorld.setBodyDisabled(mEntity, type == BodyType::STATIC || !isActive);
+
+    // A non-static body that is not active is sleeping
+    if (!isActive && type != BodyType::STATIC) {
+        mWorld.mRigidBodyComponents.setIsSleeping(mEntity, true);
+    }
 
     // Awake the body
     setIsSleeping(false);
@@ -1187,7 +1193,20 @@ void RigidBody::setIsActive(bool isActive) {
     // If the state does not change
     if (mWorld.mBodyComponents.getIsActive(mEntity) == isActive) return;
 
-    setIsSleeping(!isActive);
+    if (isActive) {
+
+        Body::setIsActive(true);
+
+        // The components of the body must be enabled again (components of static bodies are disabled)
+        mWorld.setBodyDisabled(mEntity, mWorld.mRigidBodyComponents.getBodyType(mEntity) == BodyType::STATIC);
 
-    Body::setIsActive(isActive);
+        // Awake the body (this can only be done once the body is active)
+        setIsSleeping(false);
+    }
+    else {
+
+        setIsSleeping(true);
+
+        Body::setIsActive(false);
+    }
 }
-- 
2.43.0


From 1a061c4984da427d303dbef8824f9c0099e0f805 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:28 +0000
Subject: [PATCH 02/63] fix: enable the overlapping pairs of a static body when
 it becomes dynamic or kinematic

---
 src/body/RigidBody.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/body/RigidBody.cpp b/src/body/RigidBody.cpp
index 6fc0423..27295fb 100644
--- a/src/body/RigidBody.cpp
+++ b/src/body/RigidBody.cpp
@@ -125,6 +125,11 @@ void RigidBody::setType(BodyType type) {
         // Disable overlapping pairs if both bodies are disabled (sleeping or static)
         checkForDisabledOverlappingPairs();
     }
+    else if (isActive) {
+
+        // Enable the overlapping pairs that were disabled because the body was static
+        enableOverlappingPairs();
+    }
 
     // Reset the force and torque on the body
     mWorld.mRigidBodyComponents.setExternalForce(mEntity, Vector3::zero());
@@ -1145,7 +1150,7 @@ void RigidBody::checkForDisabledOverlappingPairs() {
             const bool isBody2Disabled = mWorld.mRigidBodyComponents.getIsEntityDisabled(body2Entity);
 
             // If both bodies of the pair are disabled, we disable the overlapping pair
-            if (isBody1Disabled && isBody2Disabled) {
+            if (isBody1Disabled && isBody2Disabled && pair->isEnabled) {
 
                 mWorld.mCollisionDetection.disableOverlappingPair(overlappingPairs[j]);
             }
-- 
2.43.0


From f5303cf13a654f2802cf329487023e5589225834 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:57 +0000
Subject: [PATCH 03/63] fix: remember that a disabled overlapping pair needs to
 be tested for overlap again

---
 include/reactphysics3d/engine/OverlappingPairs.h | 13 +++++--------
 src/engine/OverlappingPairs.cpp                  |  4 ++++
 2 files changed, 9 insertions(+), 8 deletions(-)

diff --git a/include/reactphysics3d/engine/OverlappingPairs.h b/include/reactphysics3d/engine/OverlappingPairs.h
index b1c0ed3..d0afb61 100644
--- a/include/reactphysics3d/engine/OverlappingPairs.h
+++ b/include/reactphysics3d/engine/OverlappingPairs.h
@@ -458,15 +458,12 @@ RP3D_FORCE_INLINE bodypair OverlappingPairs::computeBodiesIndexPair(Entity body1
 // Set if we need to test a given pair for overlap
 RP3D_FORCE_INLINE void OverlappingPairs::setNeedToTestOverlap(uint64 pairId, bool needToTestOverlap) {
 
-    assert(mMapConvexPairIdToPairIndex.containsKey(pairId) || mMapConcavePairIdToPairIndex.containsKey(pairId));
+    // Note that the pair might be disabled here
+    OverlappingPair* pair = getOverlappingPair(pairId);
 
-    auto it = mMapConvexPairIdToPairIndex.find(pairId);
-    if (it != mMapConvexPairIdToPairIndex.end()) {
-        mConvexPairs[static_cast<uint32>(it->second)].needToTestOverlap = needToTestOverlap;
-    }
-    else {
-        mConcavePairs[static_cast<uint32>(mMapConcavePairIdToPairIndex[pairId])].needToTestOverlap = needToTestOverlap;
-    }
+    assert(pair != nullptr);
+
+    pair->needToTestOverlap = needToTestOverlap;
 }
 
 // Return a reference to an overlapping pair
diff --git a/src/engine/OverlappingPairs.cpp b/src/engine/OverlappingPairs.cpp
index 4f94da2..59026d8 100644
--- a/src/engine/OverlappingPairs.cpp
+++ b/src/engine/OverlappingPairs.cpp
@@ -316,6 +316,7 @@ void OverlappingPairs::enableConvexPairWithIndex(uint64 pairIndex) {
                             pair->narrowPhaseAlgorithmType, true);
     mConvexPairs[newPairIndex].collidingInCurrentFrame = pair->collidingInCurrentFrame;
     mConvexPairs[newPairIndex].collidingInPreviousFrame = pair->collidingInPreviousFrame;
+    mConvexPairs[newPairIndex].needToTestOverlap = pair->needToTestOverlap;
 
     // Remove the previous overlapping pair from the convex array
     removeDisabledConvexPairWithIndex(pairIndex, false);
@@ -340,6 +341,7 @@ void OverlappingPairs::disableConvexPairWithIndex(uint64 pairIndex) {
                             pair->narrowPhaseAlgorithmType, false);
     mDisabledConvexPairs[newPairIndex].collidingInCurrentFrame = pair->collidingInCurrentFrame;
     mDisabledConvexPairs[newPairIndex].collidingInPreviousFrame = pair->collidingInPreviousFrame;
+    mDisabledConvexPairs[newPairIndex].needToTestOverlap = pair->needToTestOverlap;
 
     // Remove the previous overlapping pair from the convex array
     removeConvexPairWithIndex(pairIndex, false);
@@ -364,6 +366,7 @@ void OverlappingPairs::enableConcavePairWithIndex(uint64 pairIndex) {
                             pair->narrowPhaseAlgorithmType, pair->isShape1Convex, mPoolAllocator, mHeapAllocator, true);
     mConcavePairs[newPairIndex].collidingInCurrentFrame = pair->collidingInCurrentFrame;
     mConcavePairs[newPairIndex].collidingInPreviousFrame = pair->collidingInPreviousFrame;
+    mConcavePairs[newPairIndex].needToTestOverlap = pair->needToTestOverlap;
 
     // Remove the previous overlapping pair from the concave array
     removeDisabledConcavePairWithIndex(pairIndex, false);
@@ -388,6 +391,7 @@ void OverlappingPairs::disableConcavePairWithIndex(uint64 pairIndex) {
                             pair->narrowPhaseAlgorithmType, pair->isShape1Convex, mPoolAllocator, mHeapAllocator, false, false);
     mDisabledConcavePairs[newPairIndex].collidingInCurrentFrame = pair->collidingInCurrentFrame;
     mDisabledConcavePairs[newPairIndex].collidingInPreviousFrame = pair->collidingInPreviousFrame;
+    mDisabledConcavePairs[newPairIndex].needToTestOverlap = pair->needToTestOverlap;
 
     // Remove the previous overlapping pair from the concave array
     removeConcavePairWithIndex(pairIndex, false);
-- 
2.43.0


From 9a0ecdf01dd2b838f96e7ccc8a28dee7b15411cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:08 +0000
Subject: [PATCH 04/63] fix: do not compute contacts of trigger colliders in
 testCollision()

---
 src/systems/CollisionDetectionSystem.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/systems/CollisionDetectionSystem.cpp b/src/systems/CollisionDetectionSystem.cpp
index d2a3b83..7a9a888 100644
--- a/src/systems/CollisionDetectionSystem.cpp
+++ b/src/systems/CollisionDetectionSystem.cpp
@@ -494,12 +494,16 @@ void CollisionDetectionSystem::computeMiddlePhaseCollisionSnapshot(Array<uint64>
 
         NarrowPhaseAlgorithmType algorithmType = mOverlappingPairs.mConvexPairs[pairIndex].narrowPhaseAlgorithmType;
 
+        // No contacts are computed for a trigger
+        const bool needToReportContacts = reportContacts && !mCollidersComponents.mIsTrigger[collider1Index] &&
+                                          !mCollidersComponents.mIsTrigger[collider2Index];
+
         // No middle-phase is necessary, simply create a narrow phase info
         // for the narrow-phase collision detection
         narrowPhaseInput.addNarrowPhaseTest(pairId, collider1Entity, collider2Entity, collisionShape1, collisionShape2,
                                                   mCollidersComponents.mLocalToWorldTransforms[collider1Index],
                                                   mCollidersComponents.mLocalToWorldTransforms[collider2Index],
-                                                  algorithmType, reportContacts, &mOverlappingPairs.mConvexPairs[pairIndex].lastFrameCollisionInfo, mMemoryManager.getSingleFrameAllocator());
+                                                  algorithmType, needToReportContacts, &mOverlappingPairs.mConvexPairs[pairIndex].lastFrameCollisionInfo, mMemoryManager.getSingleFrameAllocator());
 
     }
 
@@ -1027,7 +1031,7 @@ void CollisionDetectionSystem::createSnapshotContacts(Array<ContactPair>& contac
     for (uint32 p=0; p < nbContactPairs; p++) {
 
         ContactPair& contactPair = contactPairs[p];
-        assert(contactPair.nbPotentialContactManifolds > 0);
+        assert(contactPair.isTrigger || contactPair.nbPotentialContactManifolds > 0);
 
         contactPair.contactManifoldsIndex = static_cast<uint32>(contactManifolds.size());
         contactPair.nbContactManifolds = contactPair.nbPotentialContactManifolds;
-- 
2.43.0


From cb190be1ea0d5ab813fc58fdf46e4081d98cd515 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:40 +0000
Subject: [PATCH 05/63] fix: keep the lost contact pairs collected between two
 updates valid until they are reported

---
 src/systems/CollisionDetectionSystem.cpp | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/systems/CollisionDetectionSystem.cpp b/src/systems/CollisionDetectionSystem.cpp
index 7a9a888..adb5b93 100644
--- a/src/systems/CollisionDetectionSystem.cpp
+++ b/src/systems/CollisionDetectionSystem.cpp
@@ -66,7 +66,7 @@ CollisionDetectionSystem::CollisionDetectionSystem(PhysicsWorld* world, Collider
                      mNarrowPhaseInput(mMemoryManager.getSingleFrameAllocator(), mOverlappingPairs), mPotentialContactPoints(mMemoryManager.getSingleFrameAllocator()),
                      mPotentialContactManifolds(mMemoryManager.getSingleFrameAllocator()), mContactPairs1(mMemoryManager.getPoolAllocator()),
                      mContactPairs2(mMemoryManager.getPoolAllocator()), mPreviousContactPairs(&mContactPairs1), mCurrentContactPairs(&mContactPairs2),
-                     mLostContactPairs(mMemoryManager.getSingleFrameAllocator()), mPreviousMapPairIdToContactPairIndex(mMemoryManager.getHeapAllocator()),
+                     mLostContactPairs(mMemoryManager.getHeapAllocator()), mPreviousMapPairIdToContactPairIndex(mMemoryManager.getHeapAllocator()),
                      mContactManifolds1(mMemoryManager.getPoolAllocator()), mContactManifolds2(mMemoryManager.getPoolAllocator()),
                      mPreviousContactManifolds(&mContactManifolds1), mCurrentContactManifolds(&mContactManifolds2),
                      mContactPoints1(mMemoryManager.getPoolAllocator()), mContactPoints2(mMemoryManager.getPoolAllocator()),
@@ -1180,6 +1180,17 @@ void CollisionDetectionSystem::removeCollider(Collider* collider) {
         removeOverlappingPair(overlappingPairs[0], false);
     }
 
+    // Remove the lost contact pairs involving this collider that have not been reported yet
+    for (uint64 i=0; i < mLostContactPairs.size(); ) {
+
+        if (mLostContactPairs[i].collider1Entity == collider->getEntity() || mLostContactPairs[i].collider2Entity == collider->getEntity()) {
+            mLostContactPairs.removeAt(i);
+        }
+        else {
+            i++;
+        }
+    }
+
     mMapBroadPhaseIdToColliderEntity.remove(colliderBroadPhaseId);
 
     // Remove the body from the broad-phase
@@ -1726,7 +1737,7 @@ void CollisionDetectionSystem::reportContactsAndTriggers() {
 
     mOverlappingPairs.updateCollidingInPreviousFrame();
 
-    mLostContactPairs.clear(true);
+    mLostContactPairs.clear();
 }
 
 // Report all contacts to the user
-- 
2.43.0


From be7610a1fb7bff41343377744f776cb9b2cfbe12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:23 +0000
Subject: [PATCH 06/63] fix: do not use references to component arrays that
 move when neighbor bodies are awaken

---
 src/body/RigidBody.cpp      | 4 ++--
 src/engine/PhysicsWorld.cpp | 6 +++---
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/body/RigidBody.cpp b/src/body/RigidBody.cpp
index 27295fb..e3fc5e9 100644
--- a/src/body/RigidBody.cpp
+++ b/src/body/RigidBody.cpp
@@ -1094,8 +1094,8 @@ void RigidBody::enableOverlappingPairs() {
 // Awake the disabled neighbor bodies
 void RigidBody::awakeNeighborDisabledBodies() {
 
-    // For each collider of the body
-    const Array<Entity>& colliderEntities = mWorld.mBodyComponents.getColliders(mEntity);
+    // For each collider of the body (this is a copy because the components can be moved when we awake a neighbor body)
+    const Array<Entity> colliderEntities = mWorld.mBodyComponents.getColliders(mEntity);
     for (uint32 i=0; i < colliderEntities.size(); i++) {
 
         // Get the currently overlapping pairs for this collider
diff --git a/src/engine/PhysicsWorld.cpp b/src/engine/PhysicsWorld.cpp
index 80a425c..76c3e71 100644
--- a/src/engine/PhysicsWorld.cpp
+++ b/src/engine/PhysicsWorld.cpp
@@ -454,9 +454,9 @@ void PhysicsWorld::destroyRigidBody(RigidBody* rigidBody) {
     rigidBody->removeAllColliders();
 
     // Destroy all the joints in which the rigid body to be destroyed is involved
-    const Array<Entity>& joints = mRigidBodyComponents.getJoints(rigidBody->getEntity());
-    while (joints.size() > 0) {
-        destroyJoint(mJointsComponents.getJoint(joints[0]));
+    // (destroying a joint can awake bodies and therefore move their components, we must not keep a reference to the array of joints)
+    while (mRigidBodyComponents.getJoints(rigidBody->getEntity()).size() > 0) {
+        destroyJoint(mJointsComponents.getJoint(mRigidBodyComponents.getJoints(rigidBody->getEntity())[0]));
     }
 
     // Destroy the corresponding entity and its components
-- 
2.43.0


From 1df77f9dd2f1bc3dd6a01a5b0f933b2e3f44eb7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:32 +0000
Subject: [PATCH 07/63] fix: remove the first vertex of a triangle mesh too
 when no valid triangle uses it

---
 src/collision/TriangleMesh.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/collision/TriangleMesh.cpp b/src/collision/TriangleMesh.cpp
index 7c3029d..c2c44dc 100644
--- a/src/collision/TriangleMesh.cpp
+++ b/src/collision/TriangleMesh.cpp
@@ -217,7 +217,7 @@ bool TriangleMesh::copyData(const TriangleVertexArray& triangleVertexArray, std:
 void TriangleMesh::removeUnusedVertices(Array<bool>& areUsedVertices) {
 
     // For each vertex of the user mesh
-    for (uint32 i=mVertices.size() - 1; i > 0; i--) {
+    for (uint32 i=static_cast<uint32>(mVertices.size()); i-- > 0; ) {
 
         // If the vertex is not used
         if (!areUsedVertices[i]) {
-- 
2.43.0


From 6b5b9f02a784c99579aa8516c42815b9b21d66e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:18 +0000
Subject: [PATCH 08/63] fix: reject convex meshes whose faces do not form a
 closed surface instead of failing on them

---
 src/collision/ConvexMesh.cpp | 50 +++++++++++++++++++++++++++++++++---
 1 file changed, 47 insertions(+), 3 deletions(-)

diff --git a/src/collision/ConvexMesh.cpp b/src/collision/ConvexMesh.cpp
index e301ea6..88ed59a 100644
--- a/src/collision/ConvexMesh.cpp
+++ b/src/collision/ConvexMesh.cpp
@@ -30,6 +30,8 @@
 #include <reactphysics3d/utils/DefaultLogger.h>
 #include <reactphysics3d/engine/PhysicsCommon.h>
 #include <reactphysics3d/utils/Message.h>
+#include <reactphysics3d/containers/Map.h>
+#include <reactphysics3d/containers/Pair.h>
 #include <cstdlib>
 #include <vector>
 
@@ -64,11 +66,16 @@ bool ConvexMesh::init(const PolygonVertexArray& polygonVertexArray, std::vector<
     // Create the half-edge structure of the mesh
     isValid &= createHalfEdgeStructure(polygonVertexArray, errors);
 
+    // If the mesh is not valid, we cannot use its faces
+    if (!isValid) return false;
+
     // Compute the faces normals
     isValid &= computeFacesNormals(errors);
 
     // Compute the volume of the mesh
-    computeVolume();
+    if (isValid) {
+        computeVolume();
+    }
 
    return isValid;
 }
@@ -126,6 +133,9 @@ bool ConvexMesh::createHalfEdgeStructure(const PolygonVertexArray& polygonVertex
 
     uint32 nbEdges = 0;
 
+    // Number of half-edges for each (ordered) pair of vertices
+    Map<Pair<uint32, uint32>, uint32> halfEdges(mMemoryAllocator);
+
     // For each polygon face of the mesh
     const uint32 nbFaces = polygonVertexArray.getNbFaces();
     for (uint32 f=0; f < nbFaces; f++) {
@@ -154,6 +164,29 @@ bool ConvexMesh::createHalfEdgeStructure(const PolygonVertexArray& polygonVertex
                      "Error when creating a ConvexMesh: Mesh has a face with less than three vertices.",  __FILE__, __LINE__);
         }
 
+        // For each half-edge of the face
+        for (uint32 v=0; v < faceVertices.size(); v++) {
+
+            const uint32 v1 = faceVertices[v];
+            const uint32 v2 = faceVertices[v + 1 < faceVertices.size() ? v + 1 : 0];
+
+            if (v1 >= nbVertices) {
+
+                errors.push_back(Message(std::string("The face with index " + std::to_string(f) + " has a vertex with index " +
+                                                     std::to_string(v1) + " but the mesh only has " + std::to_string(nbVertices) + " vertices")));
+                isValid = false;
+            }
+
+            // Each half-edge must be unique and must not be degenerate
+            const Pair<uint32, uint32> halfEdge(v1, v2);
+            if (v1 == v2 || halfEdges.containsKey(halfEdge)) {
+
+                errors.push_back(Message(std::string("The face with index " + std::to_string(f) + " has a degenerate or duplicated edge")));
+                isValid = false;
+            }
+            halfEdges.add(Pair<Pair<uint32, uint32>, uint32>(halfEdge, f), true);
+        }
+
         // Addd the face into the half-edge structure
         mHalfEdgeStructure.addFace(faceVertices);
     }
@@ -172,11 +205,22 @@ bool ConvexMesh::createHalfEdgeStructure(const PolygonVertexArray& polygonVertex
         isValid = false;
     }
 
-    //if (isValid) {
+    // Each half-edge must have a twin half-edge in an adjacent face
+    for (auto it = halfEdges.begin(); it != halfEdges.end(); ++it) {
+
+        if (!halfEdges.containsKey(Pair<uint32, uint32>(it->first.second, it->first.first))) {
+
+            errors.push_back(Message(std::string("The face with index " + std::to_string(it->second) + " has an edge without adjacent face")));
+            isValid = false;
+        }
+    }
+
+    // If the mesh is valid
+    if (isValid) {
 
         // Initialize the half-edge structure
         mHalfEdgeStructure.computeHalfEdges();
-    //}
+    }
 
     return isValid;
 }
-- 
2.43.0


From 8104186c66ad66e216b4d332d8e863e129b2690a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:05 +0000
Subject: [PATCH 09/63] fix: use the current mass matrix in the position
 correction of the limits of a hinge joint

---
 src/systems/SolveHingeJointSystem.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/systems/SolveHingeJointSystem.cpp b/src/systems/SolveHingeJointSystem.cpp
index f96e28a..7cb13b0 100644
--- a/src/systems/SolveHingeJointSystem.cpp
+++ b/src/systems/SolveHingeJointSystem.cpp
@@ -542,9 +542,10 @@ void SolveHingeJointSystem::solvePositionConstraint() {
             if (mHingeJointComponents.mIsLowerLimitViolated[i] || mHingeJointComponents.mIsUpperLimitViolated[i]) {
 
                 // Compute the inverse of the mass matrix K=JM^-1J^t for the limits (1x1 matrix)
-                mHingeJointComponents.mInverseMassMatrixLimitMotor[i] = a1.dot(mHingeJointComponents.mI1[i] * a1) + a1.dot(mHingeJointComponents.mI2[i] * a1);
-                mHingeJointComponents.mInverseMassMatrixLimitMotor[i] = (inverseMassMatrixLimitMotor > decimal(0.0)) ?
-                                          decimal(1.0) / mHingeJointComponents.mInverseMassMatrixLimitMotor[i] : decimal(0.0);
+                inverseMassMatrixLimitMotor = a1.dot(mHingeJointComponents.mI1[i] * a1) + a1.dot(mHingeJointComponents.mI2[i] * a1);
+                inverseMassMatrixLimitMotor = (inverseMassMatrixLimitMotor > decimal(0.0)) ?
+                                          decimal(1.0) / inverseMassMatrixLimitMotor : decimal(0.0);
+                mHingeJointComponents.mInverseMassMatrixLimitMotor[i] = inverseMassMatrixLimitMotor;
             }
 
             // If the lower limit is violated
-- 
2.43.0


From ba5e63dc322d9b5a78996d681040809af38af2c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:25 +0000
Subject: [PATCH 10/63] fix: support ball-and-socket joints with an anchor
 point at the center of mass of a body

---
 src/constraint/BallAndSocketJoint.cpp         |  5 +++
 src/systems/SolveBallAndSocketJointSystem.cpp | 40 ++++++++++---------
 2 files changed, 27 insertions(+), 18 deletions(-)

diff --git a/src/constraint/BallAndSocketJoint.cpp b/src/constraint/BallAndSocketJoint.cpp
index 1476b56..bca012f 100644
--- a/src/constraint/BallAndSocketJoint.cpp
+++ b/src/constraint/BallAndSocketJoint.cpp
@@ -123,6 +123,11 @@ decimal BallAndSocketJoint::getConeHalfAngle() const {
     const Vector3 r1World = transformBody1.getOrientation() * r1Local;
     const Vector3 r2World = transformBody2.getOrientation() * r2Local;
 
+    // There is no cone axis if an anchor point is at the center of mass of its body
+    if (r1World.lengthSquare() <= MACHINE_EPSILON || r2World.lengthSquare() <= MACHINE_EPSILON) {
+        return decimal(0.0);
+    }
+
     return SolveBallAndSocketJointSystem::computeCurrentConeHalfAngle(r1World.getUnit(), -r2World.getUnit());
 }
 
diff --git a/src/systems/SolveBallAndSocketJointSystem.cpp b/src/systems/SolveBallAndSocketJointSystem.cpp
index 70c851d..f34bf12 100644
--- a/src/systems/SolveBallAndSocketJointSystem.cpp
+++ b/src/systems/SolveBallAndSocketJointSystem.cpp
@@ -116,24 +116,24 @@ void SolveBallAndSocketJointSystem::initBeforeSolve() {
             mBallAndSocketJointComponents.mBiasVector[i] = biasFactor * (x2 + r2World - x1 - r1World);
         }
 
-        const Vector3 r1WorldUnit = r1World.getUnit();
-        const Vector3 r2WorldUnit = r2World.getUnit();
-        mBallAndSocketJointComponents.mConeLimitACrossB[i] = r1WorldUnit.cross(-r2WorldUnit);
-
-        // Compute the current angle around the hinge axis
-        decimal coneAngle = computeCurrentConeHalfAngle(r1WorldUnit, -r2WorldUnit);
-
-        // Check if the cone limit constraints is violated or not
-        decimal coneLimitError = mBallAndSocketJointComponents.mConeLimitHalfAngle[i] - coneAngle;
-        bool oldIsConeLimitViolated = mBallAndSocketJointComponents.mIsConeLimitViolated[i];
-        bool isConeLimitViolated = coneLimitError < 0;
-        mBallAndSocketJointComponents.mIsConeLimitViolated[i] = isConeLimitViolated;
-        if (!isConeLimitViolated || isConeLimitViolated != oldIsConeLimitViolated) {
-            mBallAndSocketJointComponents.mConeLimitImpulse[i] = decimal(0.0);
-        }
+        // If the cone limit is enabled (there is no cone axis if an anchor point is at the center of mass of its body)
+        if (mBallAndSocketJointComponents.mIsConeLimitEnabled[i] && r1World.lengthSquare() > MACHINE_EPSILON && r2World.lengthSquare() > MACHINE_EPSILON) {
 
-        // If the cone limit is enabled
-        if (mBallAndSocketJointComponents.mIsConeLimitEnabled[i]) {
+            const Vector3 r1WorldUnit = r1World.getUnit();
+            const Vector3 r2WorldUnit = r2World.getUnit();
+            mBallAndSocketJointComponents.mConeLimitACrossB[i] = r1WorldUnit.cross(-r2WorldUnit);
+
+            // Compute the current angle around the hinge axis
+            decimal coneAngle = computeCurrentConeHalfAngle(r1WorldUnit, -r2WorldUnit);
+
+            // Check if the cone limit constraints is violated or not
+            decimal coneLimitError = mBallAndSocketJointComponents.mConeLimitHalfAngle[i] - coneAngle;
+            bool oldIsConeLimitViolated = mBallAndSocketJointComponents.mIsConeLimitViolated[i];
+            bool isConeLimitViolated = coneLimitError < 0;
+            mBallAndSocketJointComponents.mIsConeLimitViolated[i] = isConeLimitViolated;
+            if (!isConeLimitViolated || isConeLimitViolated != oldIsConeLimitViolated) {
+                mBallAndSocketJointComponents.mConeLimitImpulse[i] = decimal(0.0);
+            }
 
             // Compute the inverse of the mass matrix K=JM^-1J^t for the cone limit
             decimal inverseMassMatrixConeLimit = mBallAndSocketJointComponents.mConeLimitACrossB[i].dot(mBallAndSocketJointComponents.mI1[i] * mBallAndSocketJointComponents.mConeLimitACrossB[i]) +
@@ -148,6 +148,10 @@ void SolveBallAndSocketJointSystem::initBeforeSolve() {
                 mBallAndSocketJointComponents.mBConeLimit[i] = biasFactor * coneLimitError;
             }
         }
+        else {
+            mBallAndSocketJointComponents.mIsConeLimitViolated[i] = false;
+            mBallAndSocketJointComponents.mConeLimitImpulse[i] = decimal(0.0);
+        }
 
         // If warm-starting is not enabled
         if (!mIsWarmStartingActive) {
@@ -343,7 +347,7 @@ void SolveBallAndSocketJointSystem::solvePositionConstraint() {
 
         // --------------- Limits Constraints --------------- //
 
-        if (mBallAndSocketJointComponents.mIsConeLimitEnabled[i]) {
+        if (mBallAndSocketJointComponents.mIsConeLimitEnabled[i] && r1World.lengthSquare() > MACHINE_EPSILON && r2World.lengthSquare() > MACHINE_EPSILON) {
 
             // Check if the cone limit constraints is violated or not
             const Vector3 r1WorldUnit = r1World.getUnit();
-- 
2.43.0


From 828083d758302c58a5124192a5cee47e7171e628 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:24 +0000
Subject: [PATCH 11/63] fix: do not keep the colliding flag of a world query
 when an overlapping pair is disabled

---
 src/engine/OverlappingPairs.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/engine/OverlappingPairs.cpp b/src/engine/OverlappingPairs.cpp
index 59026d8..716b789 100644
--- a/src/engine/OverlappingPairs.cpp
+++ b/src/engine/OverlappingPairs.cpp
@@ -339,7 +339,8 @@ void OverlappingPairs::disableConvexPairWithIndex(uint64 pairIndex) {
     // Create a new pair to be added into the array of disable pairs
     mDisabledConvexPairs.emplace(pair->pairID, pair->broadPhaseId1, pair->broadPhaseId2, pair->collider1, pair->collider2,
                             pair->narrowPhaseAlgorithmType, false);
-    mDisabledConvexPairs[newPairIndex].collidingInCurrentFrame = pair->collidingInCurrentFrame;
+    // (the flag of the current frame might come from a world query made since the last update)
+    mDisabledConvexPairs[newPairIndex].collidingInCurrentFrame = pair->collidingInPreviousFrame;
     mDisabledConvexPairs[newPairIndex].collidingInPreviousFrame = pair->collidingInPreviousFrame;
     mDisabledConvexPairs[newPairIndex].needToTestOverlap = pair->needToTestOverlap;
 
@@ -389,7 +390,8 @@ void OverlappingPairs::disableConcavePairWithIndex(uint64 pairIndex) {
     // Create a new pair to be added into the array of disable pairs
     mDisabledConcavePairs.emplace(pair->pairID, pair->broadPhaseId1, pair->broadPhaseId2, pair->collider1, pair->collider2,
                             pair->narrowPhaseAlgorithmType, pair->isShape1Convex, mPoolAllocator, mHeapAllocator, false, false);
-    mDisabledConcavePairs[newPairIndex].collidingInCurrentFrame = pair->collidingInCurrentFrame;
+    // (the flag of the current frame might come from a world query made since the last update)
+    mDisabledConcavePairs[newPairIndex].collidingInCurrentFrame = pair->collidingInPreviousFrame;
     mDisabledConcavePairs[newPairIndex].collidingInPreviousFrame = pair->collidingInPreviousFrame;
     mDisabledConcavePairs[newPairIndex].needToTestOverlap = pair->needToTestOverlap;
 
-- 
2.43.0


From 4cd93a06b9617c2330edb05f2f81784aa025280c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:24 +0000
Subject: [PATCH 12/63] fix: report a contact that is lost and found again
 between two updates as a stay

---
 src/systems/CollisionDetectionSystem.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/systems/CollisionDetectionSystem.cpp b/src/systems/CollisionDetectionSystem.cpp
index adb5b93..4fc35f2 100644
--- a/src/systems/CollisionDetectionSystem.cpp
+++ b/src/systems/CollisionDetectionSystem.cpp
@@ -328,6 +328,15 @@ void CollisionDetectionSystem::updateOverlappingPairs(const Array<Pair<int32, in
 
                                 // Add the new overlapping pair
                                 mOverlappingPairs.addPair(collider1Index, collider2Index, isShape1Convex && isShape2Convex);
+
+                                // If the same pair has been lost since the last update (because of a world query), it is not lost anymore
+                                for (uint64 l=0; l < mLostContactPairs.size(); l++) {
+                                    if (mLostContactPairs[l].pairId == pairId) {
+                                        mOverlappingPairs.getOverlappingPair(pairId)->collidingInPreviousFrame = true;
+                                        mLostContactPairs.removeAt(l);
+                                        break;
+                                    }
+                                }
                             }
                         }
                     }
-- 
2.43.0


From a0a92923f3694f4dfbe59fcc27f807d238ab8e99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:51 +0000
Subject: [PATCH 13/63] fix: do not report a collision between polyhedra that
 only overlap along the axis of the previous frame

---
 .../collision/narrowphase/SAT/SATAlgorithm.h  |  6 +-
 .../narrowphase/SAT/SATAlgorithm.cpp          | 69 ++++++++++++++-----
 2 files changed, 57 insertions(+), 18 deletions(-)

diff --git a/include/reactphysics3d/collision/narrowphase/SAT/SATAlgorithm.h b/include/reactphysics3d/collision/narrowphase/SAT/SATAlgorithm.h
index 74e3bf2..c3926fb 100644
--- a/include/reactphysics3d/collision/narrowphase/SAT/SATAlgorithm.h
+++ b/include/reactphysics3d/collision/narrowphase/SAT/SATAlgorithm.h
@@ -133,7 +133,11 @@ class SATAlgorithm {
         bool computePolyhedronVsPolyhedronFaceContactPoints(bool isMinPenetrationFaceNormalPolyhedron1, const ConvexPolyhedronShape* polyhedron1,
                                                             const ConvexPolyhedronShape* polyhedron2, const Transform& polyhedron1ToPolyhedron2,
                                                             const Transform& polyhedron2ToPolyhedron1, uint32 minFaceIndex,
-                                                            NarrowPhaseInfoBatch& narrowPhaseInfoBatch, uint32 batchIndex) const;
+                                                            NarrowPhaseInfoBatch& narrowPhaseInfoBatch, uint32 batchIndex,
+                                                            bool isPreviousAxis) const;
+
+        /// Return true if a point (in the local-space of the polyhedron) is inside a polyhedron
+        bool isPointInsidePolyhedron(const ConvexPolyhedronShape* polyhedron, const Vector3& point) const;
 
 
     public :
diff --git a/src/collision/narrowphase/SAT/SATAlgorithm.cpp b/src/collision/narrowphase/SAT/SATAlgorithm.cpp
index 841f190..29ddbf3 100644
--- a/src/collision/narrowphase/SAT/SATAlgorithm.cpp
+++ b/src/collision/narrowphase/SAT/SATAlgorithm.cpp
@@ -545,7 +545,7 @@ bool SATAlgorithm::testCollisionConvexPolyhedronVsConvexPolyhedron(NarrowPhaseIn
                     // Compute the contact points between two faces of two convex polyhedra.
                     if(computePolyhedronVsPolyhedronFaceContactPoints(isMinPenetrationFaceNormalPolyhedron1, polyhedron1, polyhedron2,
                                               polyhedron1ToPolyhedron2, polyhedron2ToPolyhedron1, minFaceIndex,
-                                              narrowPhaseInfoBatch, batchIndex)) {
+                                              narrowPhaseInfoBatch, batchIndex, true)) {
 
                         lastFrameCollisionInfo->satIsAxisFacePolyhedron1 = isMinPenetrationFaceNormalPolyhedron1;
                         lastFrameCollisionInfo->satIsAxisFacePolyhedron2 = !isMinPenetrationFaceNormalPolyhedron1;
@@ -585,7 +585,7 @@ bool SATAlgorithm::testCollisionConvexPolyhedronVsConvexPolyhedron(NarrowPhaseIn
                     // Compute the contact points between two faces of two convex polyhedra.
                     if(computePolyhedronVsPolyhedronFaceContactPoints(isMinPenetrationFaceNormalPolyhedron1, polyhedron1, polyhedron2,
                                               polyhedron1ToPolyhedron2, polyhedron2ToPolyhedron1, minFaceIndex,
-                                              narrowPhaseInfoBatch, batchIndex)) {
+                                              narrowPhaseInfoBatch, batchIndex, true)) {
 
                         lastFrameCollisionInfo->satIsAxisFacePolyhedron1 = isMinPenetrationFaceNormalPolyhedron1;
                         lastFrameCollisionInfo->satIsAxisFacePolyhedron2 = !isMinPenetrationFaceNormalPolyhedron1;
@@ -641,18 +641,11 @@ bool SATAlgorithm::testCollisionConvexPolyhedronVsConvexPolyhedron(NarrowPhaseIn
                         computeClosestPointBetweenTwoSegments(edge1A, edge1B, edge2A, edge2B,
                               closestPointPolyhedron1Edge, closestPointPolyhedron2Edge);
 
-                        // Here we try to project the closest point on edge1 onto the segment of edge 2 to see if
-                        // the projected point falls onto the segment. We also try to project the closest point
-                        // on edge 2 to see if it falls onto the segment of edge 1. If one of the point does not
-                        // fall onto the opposite segment, it means the edges are not colliding (the contact manifold
-                        // is empty). Therefore, we need to run the whole SAT algorithm again.
-                        const Vector3 vec1 = closestPointPolyhedron1Edge - edge2A;
-                        const Vector3 vec2 = closestPointPolyhedron2Edge - edge1A;
-                        const decimal edge1LengthSquare = edge1Direction.lengthSquare();
-                        const decimal edge2LengthSquare = edge2Direction.lengthSquare();
-                        decimal t1 = vec1.dot(edge2Direction) / edge2LengthSquare;
-                        decimal t2 = vec2.dot(edge1Direction) / edge1LengthSquare;
-                        if (t1 >= decimal(0.0) && t1 <= decimal(1) && t2 >= decimal(0.0) && t2 <= decimal(1.0)) {
+                        // Here we test if the closest point of one of the edges is inside the other polyhedron. If it is not
+                        // the case, the polyhedra might not be overlapping anymore (the other axes have not been tested).
+                        // Therefore, we need to run the whole SAT algorithm again.
+                        if (isPointInsidePolyhedron(polyhedron2, closestPointPolyhedron1Edge) ||
+                            isPointInsidePolyhedron(polyhedron1, polyhedron2ToPolyhedron1 * closestPointPolyhedron2Edge)) {
 
                             // If we need to report contact points
                             if (narrowPhaseInfoBatch.narrowPhaseInfos[batchIndex].reportContacts) {
@@ -830,7 +823,7 @@ bool SATAlgorithm::testCollisionConvexPolyhedronVsConvexPolyhedron(NarrowPhaseIn
             // Compute the contact points between two faces of two convex polyhedra.
             bool contactsFound = computePolyhedronVsPolyhedronFaceContactPoints(isMinPenetrationFaceNormalPolyhedron1, polyhedron1,
                                                                                 polyhedron2, polyhedron1ToPolyhedron2, polyhedron2ToPolyhedron1,
-                                                                                minFaceIndex, narrowPhaseInfoBatch, batchIndex);
+                                                                                minFaceIndex, narrowPhaseInfoBatch, batchIndex, false);
 
             // There should be clipping points here. If it is not the case, it might be
             // because of a numerical issue
@@ -889,11 +882,14 @@ bool SATAlgorithm::testCollisionConvexPolyhedronVsConvexPolyhedron(NarrowPhaseIn
 }
 
 // Compute the contact points between two faces of two convex polyhedra.
-/// The method returns true if contact points have been found
+/// The method returns true if contact points have been found. If the face is the one of the previous frame (isPreviousAxis is
+/// true), the other axes have not been tested and an overlap along the face normal is not enough to know that the polyhedra are
+/// still overlapping. In this case, no contact is reported unless we find a point that belongs to both polyhedra.
 bool SATAlgorithm::computePolyhedronVsPolyhedronFaceContactPoints(bool isMinPenetrationFaceNormalPolyhedron1,
                                                                   const ConvexPolyhedronShape* polyhedron1, const ConvexPolyhedronShape* polyhedron2,
                                                                   const Transform& polyhedron1ToPolyhedron2, const Transform& polyhedron2ToPolyhedron1,
-                                                                  uint32 minFaceIndex, NarrowPhaseInfoBatch& narrowPhaseInfoBatch, uint32 batchIndex) const {
+                                                                  uint32 minFaceIndex, NarrowPhaseInfoBatch& narrowPhaseInfoBatch, uint32 batchIndex,
+                                                                  bool isPreviousAxis) const {
 
     RP3D_PROFILE("SATAlgorithm::computePolyhedronVsPolyhedronFaceContactPoints", mProfiler);
 
@@ -995,6 +991,31 @@ bool SATAlgorithm::computePolyhedronVsPolyhedronFaceContactPoints(bool isMinPene
     const Vector3 referenceFaceVertex = referencePolyhedron->getVertexPosition(referencePolyhedron->getHalfEdge(firstEdgeIndex).vertexIndex);
     bool contactPointsFound = false;
     const uint32 nbClipPolygonVertices = static_cast<uint32>(clippedPolygonVertices.size());
+
+    // If we are using the axis of the previous frame
+    if (isPreviousAxis) {
+
+        // Compute the center of the clipped points that are below the reference face
+        Vector3 center(0, 0, 0);
+        uint32 nbPoints = 0;
+        for (uint32 i=0; i < nbClipPolygonVertices; i++) {
+            if ((referenceFaceVertex - clippedPolygonVertices[i]).dot(axisReferenceSpace) > decimal(0.0)) {
+                center += clippedPolygonVertices[i];
+                nbPoints++;
+            }
+        }
+        if (nbPoints == 0) return false;
+        center /= decimal(nbPoints);
+
+        // The center is on the incident face and its projection is on the reference face. If none of them is
+        // inside the other polyhedron, the polyhedra might not be overlapping anymore
+        const Vector3 projectedCenter = projectPointOntoPlane(center, axisReferenceSpace, referenceFaceVertex);
+        if (!isPointInsidePolyhedron(referencePolyhedron, center) &&
+            !isPointInsidePolyhedron(incidentPolyhedron, referenceToIncidentTransform * projectedCenter)) {
+            return false;
+        }
+    }
+
     for (uint32 i=0; i < nbClipPolygonVertices; i++) {
 
         // Compute the penetration depth of this contact point (can be different from the minPenetration depth which is
@@ -1035,6 +1056,20 @@ bool SATAlgorithm::computePolyhedronVsPolyhedronFaceContactPoints(bool isMinPene
     return contactPointsFound;
 }
 
+// Return true if a point (in the local-space of the polyhedron) is inside a polyhedron
+bool SATAlgorithm::isPointInsidePolyhedron(const ConvexPolyhedronShape* polyhedron, const Vector3& point) const {
+
+    for (uint32 f = 0; f < polyhedron->getNbFaces(); f++) {
+
+        const Vector3 faceVertex = polyhedron->getVertexPosition(polyhedron->getFace(f).faceVertices[0]);
+        if ((point - faceVertex).dot(polyhedron->getFaceNormal(f)) > decimal(0.0)) {
+            return false;
+        }
+    }
+
+    return true;
+}
+
 
 // Compute and return the distance between the two edges in the direction of the candidate separating axis
 decimal SATAlgorithm::computeDistanceBetweenEdges(const Vector3& edge1A, const Vector3& edge2A,
-- 
2.43.0


From df9e6f33472c1667480c3d16f027ca978991aa2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:30 +0000
Subject: [PATCH 14/63] fix: update the broad-phase when the collision shape of
 a static or sleeping body is resized

---
 src/collision/Collider.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/collision/Collider.cpp b/src/collision/Collider.cpp
index 53bc137..93c1d0b 100644
--- a/src/collision/Collider.cpp
+++ b/src/collision/Collider.cpp
@@ -210,6 +210,12 @@ unsigned short Collider::getCollideWithMaskBits() const {
 // Notify the collider that the size of the collision shape has been changed by the user
 void Collider::setHasCollisionShapeChangedSize(bool hasCollisionShapeChangedSize) {
     mBody->mWorld.mCollidersComponents.setHasCollisionShapeChangedSize(mEntity, hasCollisionShapeChangedSize);
+
+    // Update the broad-phase state of the collider now because only the colliders of the bodies that are
+    // awake are updated at each frame
+    if (hasCollisionShapeChangedSize) {
+        mBody->mWorld.mCollisionDetection.updateCollider(mEntity);
+    }
 }
 
 // Set a new material for this rigid body
-- 
2.43.0


From 3384cbebf8f4bea2c1ad6b4acb3c0c3a8bb6e8d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:30 +0000
Subject: [PATCH 15/63] fix: take the scale into account in the support
 function of a convex mesh

---
 src/collision/shapes/ConvexMeshShape.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/collision/shapes/ConvexMeshShape.cpp b/src/collision/shapes/ConvexMeshShape.cpp
index ee6c33e..646230d 100644
--- a/src/collision/shapes/ConvexMeshShape.cpp
+++ b/src/collision/shapes/ConvexMeshShape.cpp
@@ -85,8 +85,8 @@ Vector3 ConvexMeshShape::getLocalSupportPointWithoutMargin(const Vector3& direct
     // For each vertex of the mesh
     for (uint32 i=0; i<mConvexMesh->getNbVertices(); i++) {
 
-        // Compute the dot product of the current vertex
-        decimal dotProduct = direction.dot(mConvexMesh->getVertex(i));
+        // Compute the dot product of the current vertex (with the scale of the shape)
+        decimal dotProduct = direction.dot(mConvexMesh->getVertex(i) * mScale);
 
         // If the current dot product is larger than the maximum one
         if (dotProduct > maxDotProduct) {
-- 
2.43.0


From 36d486202ea15c3ef99315baacfb35aa064bd87d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:13 +0000
Subject: [PATCH 16/63] fix: collide again after the last joint that disables
 the collision between two bodies is destroyed

---
 src/engine/PhysicsWorld.cpp | 29 ++++++++++++++++++++++++-----
 1 file changed, 24 insertions(+), 5 deletions(-)

diff --git a/src/engine/PhysicsWorld.cpp b/src/engine/PhysicsWorld.cpp
index 76c3e71..8c0016b 100644
--- a/src/engine/PhysicsWorld.cpp
+++ b/src/engine/PhysicsWorld.cpp
@@ -610,15 +610,34 @@ void PhysicsWorld::destroyJoint(Joint* joint) {
     RP3D_LOG(mConfig.worldName, Logger::Level::Information, Logger::Category::Joint,
              "Joint " + std::to_string(joint->getEntity().id) + ": joint destroyed",  __FILE__, __LINE__);
 
+    RigidBody* body1 = joint->getBody1();
+    RigidBody* body2 = joint->getBody2();
+
     // If the collision between the two bodies of the constraint was disabled
     if (!joint->isCollisionEnabled()) {
 
-        // Remove the pair of bodies from the set of body pairs that cannot collide with each other
-        mCollisionDetection.removeNoCollisionPair(joint->getBody1()->getEntity(), joint->getBody2()->getEntity());
-    }
+        // Check if another joint also disables the collision between the two bodies
+        bool isCollisionStillDisabled = false;
+        const Array<Entity>& joints = mRigidBodyComponents.getJoints(body1->getEntity());
+        for (uint32 i=0; i < joints.size(); i++) {
+            if (joints[i] != joint->getEntity() && !mJointsComponents.getIsCollisionEnabled(joints[i]) &&
+                (mJointsComponents.getBody1Entity(joints[i]) == body2->getEntity() ||
+                 mJointsComponents.getBody2Entity(joints[i]) == body2->getEntity())) {
+                isCollisionStillDisabled = true;
+            }
+        }
 
-    RigidBody* body1 = joint->getBody1();
-    RigidBody* body2 = joint->getBody2();
+        if (!isCollisionStillDisabled) {
+
+            // Remove the pair of bodies from the set of body pairs that cannot collide with each other
+            mCollisionDetection.removeNoCollisionPair(body1->getEntity(), body2->getEntity());
+
+            // Ask the broad-phase to test the colliders again because they might already be overlapping
+            for (uint32 i=0; i < body1->getNbColliders(); i++) {
+                mCollisionDetection.askForBroadPhaseCollisionCheck(body1->getCollider(i));
+            }
+        }
+    }
 
     // Wake up the two bodies of the joint
     body1->setIsSleeping(false);
-- 
2.43.0


From a168e0e77236a21c6a3e19c3644ece8ce7a1911c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:13 +0000
Subject: [PATCH 17/63] fix: apply the new collision filtering of a collider to
 its existing overlapping pairs

---
 .../systems/CollisionDetectionSystem.h        |  3 +++
 src/collision/Collider.cpp                    |  6 +++++
 src/systems/CollisionDetectionSystem.cpp      | 24 +++++++++++++++++++
 3 files changed, 33 insertions(+)

diff --git a/include/reactphysics3d/systems/CollisionDetectionSystem.h b/include/reactphysics3d/systems/CollisionDetectionSystem.h
index ed91dc9..537063a 100644
--- a/include/reactphysics3d/systems/CollisionDetectionSystem.h
+++ b/include/reactphysics3d/systems/CollisionDetectionSystem.h
@@ -345,6 +345,9 @@ class CollisionDetectionSystem {
         /// Remove a pair of bodies that cannot collide with each other
         void removeNoCollisionPair(Entity body1Entity, Entity body2Entity);
 
+        /// Remove the overlapping pairs of a collider that are not allowed by the collision filtering anymore
+        void removeFilteredOverlappingPairs(Entity colliderEntity);
+
         /// Ask for a collision shape to be tested again during broad-phase.
         void askForBroadPhaseCollisionCheck(Collider* collider);
 
diff --git a/src/collision/Collider.cpp b/src/collision/Collider.cpp
index 93c1d0b..37f3262 100644
--- a/src/collision/Collider.cpp
+++ b/src/collision/Collider.cpp
@@ -73,6 +73,9 @@ void Collider::setCollisionCategoryBits(unsigned short collisionCategoryBits) {
 
     int broadPhaseId = mBody->mWorld.mCollidersComponents.getBroadPhaseId(mEntity);
 
+    // Remove the overlapping pairs that are not allowed to collide anymore
+    mBody->mWorld.mCollisionDetection.removeFilteredOverlappingPairs(mEntity);
+
     // Ask the broad-phase collision detection to test this collider next frame
     mBody->mWorld.mCollisionDetection.askForBroadPhaseCollisionCheck(this);
 
@@ -91,6 +94,9 @@ void Collider::setCollideWithMaskBits(unsigned short collideWithMaskBits) {
 
     int broadPhaseId = mBody->mWorld.mCollidersComponents.getBroadPhaseId(mEntity);
 
+    // Remove the overlapping pairs that are not allowed to collide anymore
+    mBody->mWorld.mCollisionDetection.removeFilteredOverlappingPairs(mEntity);
+
     // Ask the broad-phase collision detection to test this collider next frame
     mBody->mWorld.mCollisionDetection.askForBroadPhaseCollisionCheck(this);
 
diff --git a/src/systems/CollisionDetectionSystem.cpp b/src/systems/CollisionDetectionSystem.cpp
index 4fc35f2..bf9b085 100644
--- a/src/systems/CollisionDetectionSystem.cpp
+++ b/src/systems/CollisionDetectionSystem.cpp
@@ -266,6 +266,30 @@ void CollisionDetectionSystem::addNoCollisionPair(Entity body1Entity, Entity bod
     }
 }
 
+// Remove the overlapping pairs of a collider that are not allowed by the collision filtering anymore
+void CollisionDetectionSystem::removeFilteredOverlappingPairs(Entity colliderEntity) {
+
+    Array<uint64> toBeRemoved(mMemoryManager.getPoolAllocator());
+    const Array<uint64>& overlappingPairs = mCollidersComponents.getOverlappingPairs(colliderEntity);
+    for (uint32 i = 0; i < overlappingPairs.size(); i++) {
+
+        const OverlappingPairs::OverlappingPair* pair = mOverlappingPairs.getOverlappingPair(overlappingPairs[i]);
+        assert(pair != nullptr);
+
+        const uint32 collider1Index = mCollidersComponents.getEntityIndex(pair->collider1);
+        const uint32 collider2Index = mCollidersComponents.getEntityIndex(pair->collider2);
+
+        if ((mCollidersComponents.mCollideWithMaskBits[collider1Index] & mCollidersComponents.mCollisionCategoryBits[collider2Index]) == 0 ||
+            (mCollidersComponents.mCollisionCategoryBits[collider1Index] & mCollidersComponents.mCollideWithMaskBits[collider2Index]) == 0) {
+            toBeRemoved.add(overlappingPairs[i]);
+        }
+    }
+
+    for (uint32 i = 0; i < toBeRemoved.size(); i++) {
+        removeOverlappingPair(toBeRemoved[i], true);
+    }
+}
+
 // Take an array of overlapping nodes in the broad-phase and create new overlapping pairs if necessary
 void CollisionDetectionSystem::updateOverlappingPairs(const Array<Pair<int32, int32>>& overlappingNodes) {
 
-- 
2.43.0


From 937686b7dfd24154a616c7720fcb4194fdc62534 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:04 +0000
Subject: [PATCH 18/63] fix: keep the closest point of the previous GJK
 iteration when the new one is farther because of numerical errors

---
 .../narrowphase/GJK/GJKAlgorithm.cpp          | 26 ++++++++++++++++---
 1 file changed, 22 insertions(+), 4 deletions(-)

diff --git a/src/collision/narrowphase/GJK/GJKAlgorithm.cpp b/src/collision/narrowphase/GJK/GJKAlgorithm.cpp
index e447c52..3fd544e 100644
--- a/src/collision/narrowphase/GJK/GJKAlgorithm.cpp
+++ b/src/collision/narrowphase/GJK/GJKAlgorithm.cpp
@@ -63,6 +63,7 @@ void GJKAlgorithm::testCollision(NarrowPhaseInfoBatch& narrowPhaseInfoBatch, uin
         decimal vDotw;
         decimal prevDistSquare;
         bool contactFound = false;
+        bool areClosestPointsComputed = false;
 
         assert(narrowPhaseInfoBatch.narrowPhaseInfos[batchIndex].collisionShape1->isConvex());
         assert(narrowPhaseInfoBatch.narrowPhaseInfos[batchIndex].collisionShape2->isConvex());
@@ -141,6 +142,10 @@ void GJKAlgorithm::testCollision(NarrowPhaseInfoBatch& narrowPhaseInfoBatch, uin
                 break;
             }
 
+            // Keep the current closest point
+            const Vector3 prevV = v;
+            simplex.computeClosestPointsOfAandB(pA, pB);
+
             // Add the new support point to the simplex
             simplex.addPoint(w, suppA, suppB);
 
@@ -168,10 +173,21 @@ void GJKAlgorithm::testCollision(NarrowPhaseInfoBatch& narrowPhaseInfoBatch, uin
             // If the distance to the closest point doesn't improve a lot
             if (prevDistSquare - distSquare <= MACHINE_EPSILON * prevDistSquare) {
 
-                simplex.backupClosestPointInSimplex(v);
+                // The distance can only become larger because of numerical errors (with an almost flat simplex
+                // for instance). In this case, the previous closest point is the best one.
+                if (distSquare > prevDistSquare) {
+                    v = prevV;
+                    distSquare = prevDistSquare;
+                }
+                else {
+
+                    simplex.backupClosestPointInSimplex(v);
+                    simplex.computeClosestPointsOfAandB(pA, pB);
 
-                // Get the new squared distance
-                distSquare = v.lengthSquare();
+                    // Get the new squared distance
+                    distSquare = v.lengthSquare();
+                }
+                areClosestPointsComputed = true;
 
                 // Contact point has been found
                 contactFound = true;
@@ -187,7 +203,9 @@ void GJKAlgorithm::testCollision(NarrowPhaseInfoBatch& narrowPhaseInfoBatch, uin
         if (contactFound && distSquare > MACHINE_EPSILON) {
 
             // Compute the closet points of both objects (without the margins)
-            simplex.computeClosestPointsOfAandB(pA, pB);
+            if (!areClosestPointsComputed) {
+                simplex.computeClosestPointsOfAandB(pA, pB);
+            }
 
             // Project those two points on the margins to have the closest points of both
             // object with the margins
-- 
2.43.0


From a8dcafb321b26dbebbed5f5ccd96f351d6cacc79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:01 +0000
Subject: [PATCH 19/63] fix: do not change the raycast info of a previous hit
 when a collider is not hit by the ray

---
 src/collision/Collider.cpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/collision/Collider.cpp b/src/collision/Collider.cpp
index 37f3262..7420116 100644
--- a/src/collision/Collider.cpp
+++ b/src/collision/Collider.cpp
@@ -189,10 +189,13 @@ bool Collider::raycast(const Ray& ray, RaycastInfo& raycastInfo) {
     const CollisionShape* collisionShape = mBody->mWorld.mCollidersComponents.getCollisionShape(mEntity);
     bool isHit = collisionShape->raycast(rayLocal, raycastInfo, this, mMemoryManager.getPoolAllocator());
 
-    // Convert the raycast info into world-space
-    raycastInfo.worldPoint = localToWorldTransform * raycastInfo.worldPoint;
-    raycastInfo.worldNormal = localToWorldTransform.getOrientation() * raycastInfo.worldNormal;
-    raycastInfo.worldNormal.normalize();
+    // Convert the raycast info into world-space (without hit, the info must not be changed because
+    // it might already contain the hit of another collider)
+    if (isHit) {
+        raycastInfo.worldPoint = localToWorldTransform * raycastInfo.worldPoint;
+        raycastInfo.worldNormal = localToWorldTransform.getOrientation() * raycastInfo.worldNormal;
+        raycastInfo.worldNormal.normalize();
+    }
 
     return isHit;
 }
-- 
2.43.0


From 5f333afe5dbbcfde0298e1ad7181e9d07af46dc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:01 +0000
Subject: [PATCH 20/63] fix: use the scale of the convex mesh shape in raycast
 and point tests

---
 src/collision/shapes/ConvexMeshShape.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/collision/shapes/ConvexMeshShape.cpp b/src/collision/shapes/ConvexMeshShape.cpp
index 646230d..aafb0c9 100644
--- a/src/collision/shapes/ConvexMeshShape.cpp
+++ b/src/collision/shapes/ConvexMeshShape.cpp
@@ -122,7 +122,7 @@ bool ConvexMeshShape::raycast(const Ray& ray, RaycastInfo& raycastInfo, Collider
         const HalfEdgeStructure::Face& face = halfEdgeStructure.getFace(f);
         const Vector3& faceNormal = getFaceNormal(f);
         const HalfEdgeStructure::Vertex& faceVertex = halfEdgeStructure.getVertex(face.faceVertices[0]);
-        const Vector3& facePoint = mConvexMesh->getVertex(faceVertex.vertexPointIndex);
+        const Vector3 facePoint = mConvexMesh->getVertex(faceVertex.vertexPointIndex) * mScale;
         decimal denom = faceNormal.dot(direction);
         decimal planeD = faceNormal.dot(facePoint);
         decimal dist = planeD -  faceNormal.dot(ray.point1);
@@ -192,7 +192,7 @@ bool ConvexMeshShape::testPointInside(const Vector3& localPoint, Collider* /*col
         const HalfEdgeStructure::Face& face = halfEdgeStructure.getFace(f);
         const Vector3& faceNormal = getFaceNormal(f);
         const HalfEdgeStructure::Vertex& faceVertex = halfEdgeStructure.getVertex(face.faceVertices[0]);
-        const Vector3& facePoint = mConvexMesh->getVertex(faceVertex.vertexPointIndex);
+        const Vector3 facePoint = mConvexMesh->getVertex(faceVertex.vertexPointIndex) * mScale;
 
         // If the point is out of the face plane, it is outside of the convex mesh
         if (computePointToPlaneDistance(localPoint, faceNormal, facePoint) > decimal(0.0)) return false;
-- 
2.43.0


From 9e83535482976d622379af0dcc0b031cd2474a3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:01 +0000
Subject: [PATCH 21/63] fix: double-sided triangle raycast reports a hit
 outside of the triangle when the ray crosses the line of an edge

---
 src/collision/shapes/TriangleShape.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/collision/shapes/TriangleShape.cpp b/src/collision/shapes/TriangleShape.cpp
index 349ef87..448e377 100644
--- a/src/collision/shapes/TriangleShape.cpp
+++ b/src/collision/shapes/TriangleShape.cpp
@@ -179,7 +179,7 @@ bool TriangleShape::raycast(const Ray& ray, RaycastInfo& raycastInfo, Collider*
         if (w > decimal(0.0)) return false;
     }
     else if (mRaycastTestType == TriangleRaycastSide::FRONT_AND_BACK) {
-        if (!sameSign(u, w)) return false;
+        if (!sameSign(u, w) || !sameSign(v, w)) return false;
     }
 
     // If the line PQ is in the triangle plane (case where u=v=w=0)
-- 
2.43.0


From 145407f8a22346cef4e78f3d8444cb61283dc306 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:01 +0000
Subject: [PATCH 22/63] fix: apply the scale of the height field to the normal
 of a raycast hit

---
 src/collision/shapes/HeightFieldShape.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/collision/shapes/HeightFieldShape.cpp b/src/collision/shapes/HeightFieldShape.cpp
index 2765732..3c2d84d 100644
--- a/src/collision/shapes/HeightFieldShape.cpp
+++ b/src/collision/shapes/HeightFieldShape.cpp
@@ -86,6 +86,8 @@ bool HeightFieldShape::raycast(const Ray& ray, RaycastInfo& raycastInfo, Collide
 
         // Scale back the contact point because we used a ray scale with inverse height-field scale
         raycastInfo.worldPoint = raycastInfo.worldPoint * mScale;
+        raycastInfo.worldNormal = raycastInfo.worldNormal * inverseScale;
+        raycastInfo.worldNormal.normalize();
 
         return true;
     }
-- 
2.43.0


From dc2b65bef422817e6401dbd91225c9b88f4a22aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:01 +0000
Subject: [PATCH 23/63] fix: infinite loop in height field raycast when the ray
 is parallel to the grid along the border

---
 src/collision/HeightField.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/collision/HeightField.cpp b/src/collision/HeightField.cpp
index 4ee2700..7bc516f 100644
--- a/src/collision/HeightField.cpp
+++ b/src/collision/HeightField.cpp
@@ -280,8 +280,10 @@ bool HeightField::raycast(const Ray& ray, RaycastInfo& raycastInfo, Collider* co
         decimal nextJ = static_cast<decimal>(stepJ >= 0 ? j + 1 : j);
         decimal sizeI = aabbSize.x / nbCellsI;
         decimal sizeJ = aabbSize.z / nbCellsJ;
-        decimal tMaxI = ((nextI * sizeI) - outHitGridPoint.x) / rayDirection.x;
-        decimal tMaxJ = ((nextJ * sizeJ) - outHitGridPoint.z) / rayDirection.z;
+
+        // If the ray is parallel to an axis of the grid, it never reaches the next cell along this axis
+        decimal tMaxI = stepI != 0 ? ((nextI * sizeI) - outHitGridPoint.x) / rayDirection.x : DECIMAL_LARGEST;
+        decimal tMaxJ = stepJ != 0 ? ((nextJ * sizeJ) - outHitGridPoint.z) / rayDirection.z : DECIMAL_LARGEST;
         decimal tDeltaI = sizeI / std::abs(rayDirection.x);
         decimal tDeltaJ = sizeJ / std::abs(rayDirection.z);
 
-- 
2.43.0


From c8dcb65c508e8d4214a2eda3c51279ea262cd379 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:01 +0000
Subject: [PATCH 24/63] fix: raycast against a capsule misses with a short ray
 or a small capsule that is not parallel to the ray

---
 src/collision/shapes/CapsuleShape.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/collision/shapes/CapsuleShape.cpp b/src/collision/shapes/CapsuleShape.cpp
index c774ca3..84448d7 100644
--- a/src/collision/shapes/CapsuleShape.cpp
+++ b/src/collision/shapes/CapsuleShape.cpp
@@ -98,7 +98,7 @@ bool CapsuleShape::raycast(const Ray& ray, RaycastInfo& raycastInfo, Collider* c
 
     const Vector3 n = ray.point2 - ray.point1;
 
-    const decimal epsilon = decimal(0.01);
+    const decimal epsilon = decimal(0.00001);
     Vector3 p(decimal(0), -mHalfHeight, decimal(0));
     Vector3 q(decimal(0), mHalfHeight, decimal(0));
     Vector3 d = q - p;
@@ -123,7 +123,7 @@ bool CapsuleShape::raycast(const Ray& ray, RaycastInfo& raycastInfo, Collider* c
     decimal c = dDotD * k - mDotD * mDotD;
 
     // If the ray is parallel to the capsule axis
-    if (std::abs(a) < epsilon) {
+    if (std::abs(a) < epsilon * dDotD * nDotN) {
 
         // If the origin is outside the surface of the capusle's cylinder, we return no hit
         if (c > decimal(0.0)) return false;
-- 
2.43.0


From da2935505eeda66f8b07280d08896b717cba0e3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:33 +0000
Subject: [PATCH 25/63] fix: test the overlapping pairs of sleeping bodies in
 the overlap and collision queries

---
 .../systems/CollisionDetectionSystem.h        |   6 +-
 src/engine/OverlappingPairs.cpp               |  10 ++
 src/systems/CollisionDetectionSystem.cpp      | 105 ++++++++++++++++--
 3 files changed, 109 insertions(+), 12 deletions(-)

diff --git a/include/reactphysics3d/systems/CollisionDetectionSystem.h b/include/reactphysics3d/systems/CollisionDetectionSystem.h
index 537063a..d2537d0 100644
--- a/include/reactphysics3d/systems/CollisionDetectionSystem.h
+++ b/include/reactphysics3d/systems/CollisionDetectionSystem.h
@@ -187,7 +187,11 @@ class CollisionDetectionSystem {
         /// Compute the middle-phase collision detection
         void computeMiddlePhase(NarrowPhaseInput& narrowPhaseInput, bool needToReportContacts, bool isWorldQuery);
 
-        // Compute the middle-phase collision detection
+        /// Add the narrow-phase tests of some given pairs of colliders for a world query
+        void addNarrowPhaseTests(const Array<uint64>& convexPairs, const Array<uint64>& concavePairs,
+                                 NarrowPhaseInput& narrowPhaseInput, bool reportContacts);
+
+        /// Compute the middle-phase collision detection
         void computeMiddlePhaseCollisionSnapshot(Array<uint64>& convexPairs, Array<uint64>& concavePairs, NarrowPhaseInput& narrowPhaseInput,
                                                  bool reportContacts);
 
diff --git a/src/engine/OverlappingPairs.cpp b/src/engine/OverlappingPairs.cpp
index 716b789..a455334 100644
--- a/src/engine/OverlappingPairs.cpp
+++ b/src/engine/OverlappingPairs.cpp
@@ -153,6 +153,9 @@ void OverlappingPairs::removeDisabledConcavePairWithIndex(uint64 pairIndex, bool
     assert(mMapDisabledConcavePairIdToPairIndex[mDisabledConcavePairs[pairIndex].pairID] == pairIndex);
     mMapDisabledConcavePairIdToPairIndex.remove(mDisabledConcavePairs[pairIndex].pairID);
 
+    // Destroy all the LastFrameCollisionInfo objects (created by the world queries)
+    mDisabledConcavePairs[pairIndex].destroyLastFrameCollisionInfos();
+
     const uint64 nbDisabledPairs = mDisabledConcavePairs.size();
 
     // Change the mapping between the pairId and the index in the disabled pairs array if we swap the last item with the one to remove
@@ -465,6 +468,13 @@ void OverlappingPairs::clearObsoleteLastFrameCollisionInfos() {
 
         mConcavePairs[i].clearObsoleteLastFrameInfos();
     }
+
+    // For each disabled concave overlapping pair
+    const uint64 nbDisabledConcavePairs = mDisabledConcavePairs.size();
+    for (uint64 i=0; i < nbDisabledConcavePairs; i++) {
+
+        mDisabledConcavePairs[i].clearObsoleteLastFrameInfos();
+    }
 }
 
 // Set the collidingInPreviousFrame value with the collidinginCurrentFrame value for each pair
diff --git a/src/systems/CollisionDetectionSystem.cpp b/src/systems/CollisionDetectionSystem.cpp
index bf9b085..b0a95f3 100644
--- a/src/systems/CollisionDetectionSystem.cpp
+++ b/src/systems/CollisionDetectionSystem.cpp
@@ -489,6 +489,33 @@ void CollisionDetectionSystem::computeMiddlePhase(NarrowPhaseInput& narrowPhaseI
             }
         }
     }
+
+    // The pairs without any enabled body (sleeping bodies) are also part of the world queries
+    if (isWorldQuery) {
+
+        Array<uint64> convexPairs(mMemoryManager.getPoolAllocator());
+        Array<uint64> concavePairs(mMemoryManager.getPoolAllocator());
+
+        const uint64 nbDisabledConvexPairs = mOverlappingPairs.mDisabledConvexPairs.size();
+        for (uint64 i=0; i < nbDisabledConvexPairs; i++) {
+
+            const OverlappingPairs::ConvexOverlappingPair& pair = mOverlappingPairs.mDisabledConvexPairs[i];
+            if (mCollidersComponents.getIsWorldQueryCollider(pair.collider1) && mCollidersComponents.getIsWorldQueryCollider(pair.collider2)) {
+                convexPairs.add(pair.pairID);
+            }
+        }
+
+        const uint64 nbDisabledConcavePairs = mOverlappingPairs.mDisabledConcavePairs.size();
+        for (uint64 i=0; i < nbDisabledConcavePairs; i++) {
+
+            const OverlappingPairs::ConcaveOverlappingPair& pair = mOverlappingPairs.mDisabledConcavePairs[i];
+            if (mCollidersComponents.getIsWorldQueryCollider(pair.collider1) && mCollidersComponents.getIsWorldQueryCollider(pair.collider2)) {
+                concavePairs.add(pair.pairID);
+            }
+        }
+
+        addNarrowPhaseTests(convexPairs, concavePairs, narrowPhaseInput, needToReportContacts);
+    }
 }
 
 // Compute the middle-phase collision detection
@@ -503,17 +530,23 @@ void CollisionDetectionSystem::computeMiddlePhaseCollisionSnapshot(Array<uint64>
     // Remove the obsolete last frame collision infos and mark all the others as obsolete
     mOverlappingPairs.clearObsoleteLastFrameCollisionInfos();
 
+    addNarrowPhaseTests(convexPairs, concavePairs, narrowPhaseInput, reportContacts);
+}
+
+// Add the narrow-phase tests of some given pairs of colliders for a world query
+void CollisionDetectionSystem::addNarrowPhaseTests(const Array<uint64>& convexPairs, const Array<uint64>& concavePairs,
+                                                   NarrowPhaseInput& narrowPhaseInput, bool reportContacts) {
+
     // For each possible convex vs convex pair of bodies
     const uint64 nbConvexPairs = convexPairs.size();
     for (uint64 p=0; p < nbConvexPairs; p++) {
 
         const uint64 pairId = convexPairs[p];
 
-        const uint64 pairIndex = mOverlappingPairs.mMapConvexPairIdToPairIndex[pairId];
-        assert(pairIndex < mOverlappingPairs.mConvexPairs.size());
+        OverlappingPairs::ConvexOverlappingPair& pair = static_cast<OverlappingPairs::ConvexOverlappingPair&>(*mOverlappingPairs.getOverlappingPair(pairId));
 
-        const Entity collider1Entity = mOverlappingPairs.mConvexPairs[pairIndex].collider1;
-        const Entity collider2Entity = mOverlappingPairs.mConvexPairs[pairIndex].collider2;
+        const Entity collider1Entity = pair.collider1;
+        const Entity collider2Entity = pair.collider2;
 
         const uint32 collider1Index = mCollidersComponents.getEntityIndex(collider1Entity);
         const uint32 collider2Index = mCollidersComponents.getEntityIndex(collider2Entity);
@@ -525,7 +558,7 @@ void CollisionDetectionSystem::computeMiddlePhaseCollisionSnapshot(Array<uint64>
         CollisionShape* collisionShape1 = mCollidersComponents.mCollisionShapes[collider1Index];
         CollisionShape* collisionShape2 = mCollidersComponents.mCollisionShapes[collider2Index];
 
-        NarrowPhaseAlgorithmType algorithmType = mOverlappingPairs.mConvexPairs[pairIndex].narrowPhaseAlgorithmType;
+        NarrowPhaseAlgorithmType algorithmType = pair.narrowPhaseAlgorithmType;
 
         // No contacts are computed for a trigger
         const bool needToReportContacts = reportContacts && !mCollidersComponents.mIsTrigger[collider1Index] &&
@@ -536,7 +569,7 @@ void CollisionDetectionSystem::computeMiddlePhaseCollisionSnapshot(Array<uint64>
         narrowPhaseInput.addNarrowPhaseTest(pairId, collider1Entity, collider2Entity, collisionShape1, collisionShape2,
                                                   mCollidersComponents.mLocalToWorldTransforms[collider1Index],
                                                   mCollidersComponents.mLocalToWorldTransforms[collider2Index],
-                                                  algorithmType, needToReportContacts, &mOverlappingPairs.mConvexPairs[pairIndex].lastFrameCollisionInfo, mMemoryManager.getSingleFrameAllocator());
+                                                  algorithmType, needToReportContacts, &pair.lastFrameCollisionInfo, mMemoryManager.getSingleFrameAllocator());
 
     }
 
@@ -545,13 +578,13 @@ void CollisionDetectionSystem::computeMiddlePhaseCollisionSnapshot(Array<uint64>
     for (uint32 p=0; p < nbConcavePairs; p++) {
 
         const uint64 pairId = concavePairs[p];
-        const uint64 pairIndex = mOverlappingPairs.mMapConcavePairIdToPairIndex[pairId];
+        OverlappingPairs::ConcaveOverlappingPair& pair = static_cast<OverlappingPairs::ConcaveOverlappingPair&>(*mOverlappingPairs.getOverlappingPair(pairId));
 
-        assert(mCollidersComponents.getBroadPhaseId(mOverlappingPairs.mConcavePairs[pairIndex].collider1) != -1);
-        assert(mCollidersComponents.getBroadPhaseId(mOverlappingPairs.mConcavePairs[pairIndex].collider2) != -1);
-        assert(mCollidersComponents.getBroadPhaseId(mOverlappingPairs.mConcavePairs[pairIndex].collider1) != mCollidersComponents.getBroadPhaseId(mOverlappingPairs.mConcavePairs[pairIndex].collider2));
+        assert(mCollidersComponents.getBroadPhaseId(pair.collider1) != -1);
+        assert(mCollidersComponents.getBroadPhaseId(pair.collider2) != -1);
+        assert(mCollidersComponents.getBroadPhaseId(pair.collider1) != mCollidersComponents.getBroadPhaseId(pair.collider2));
 
-        computeConvexVsConcaveMiddlePhase(mOverlappingPairs.mConcavePairs[pairIndex], mMemoryManager.getSingleFrameAllocator(), narrowPhaseInput, reportContacts);
+        computeConvexVsConcaveMiddlePhase(pair, mMemoryManager.getSingleFrameAllocator(), narrowPhaseInput, reportContacts);
     }
 }
 
@@ -1957,6 +1990,17 @@ void CollisionDetectionSystem::filterOverlappingPairs(Entity bodyEntity, Array<u
         }
     }
 
+    // For each disabled convex pair (sleeping bodies)
+    const uint32 nbDisabledConvexPairs = static_cast<uint32>(mOverlappingPairs.mDisabledConvexPairs.size());
+    for (uint32 i=0; i < nbDisabledConvexPairs; i++) {
+
+        if (mCollidersComponents.getBody(mOverlappingPairs.mDisabledConvexPairs[i].collider1) == bodyEntity ||
+            mCollidersComponents.getBody(mOverlappingPairs.mDisabledConvexPairs[i].collider2) == bodyEntity) {
+
+            convexPairs.add(mOverlappingPairs.mDisabledConvexPairs[i].pairID);
+        }
+    }
+
     // For each concave pairs
     const uint32 nbConcavePairs = static_cast<uint32>(mOverlappingPairs.mConcavePairs.size());
     for (uint32 i=0; i < nbConcavePairs; i++) {
@@ -1967,6 +2011,17 @@ void CollisionDetectionSystem::filterOverlappingPairs(Entity bodyEntity, Array<u
             concavePairs.add(mOverlappingPairs.mConcavePairs[i].pairID);
         }
     }
+
+    // For each disabled concave pair (sleeping bodies)
+    const uint32 nbDisabledConcavePairs = static_cast<uint32>(mOverlappingPairs.mDisabledConcavePairs.size());
+    for (uint32 i=0; i < nbDisabledConcavePairs; i++) {
+
+        if (mCollidersComponents.getBody(mOverlappingPairs.mDisabledConcavePairs[i].collider1) == bodyEntity ||
+            mCollidersComponents.getBody(mOverlappingPairs.mDisabledConcavePairs[i].collider2) == bodyEntity) {
+
+            concavePairs.add(mOverlappingPairs.mDisabledConcavePairs[i].pairID);
+        }
+    }
 }
 
 // Filter the overlapping pairs to keep only the pairs where two given bodies are involved
@@ -1986,6 +2041,20 @@ void CollisionDetectionSystem::filterOverlappingPairs(Entity body1Entity, Entity
         }
     }
 
+    // For each disabled convex pair (sleeping bodies)
+    const uint32 nbDisabledConvexPairs = static_cast<uint32>(mOverlappingPairs.mDisabledConvexPairs.size());
+    for (uint32 i=0; i < nbDisabledConvexPairs; i++) {
+
+        const Entity collider1Body = mCollidersComponents.getBody(mOverlappingPairs.mDisabledConvexPairs[i].collider1);
+        const Entity collider2Body = mCollidersComponents.getBody(mOverlappingPairs.mDisabledConvexPairs[i].collider2);
+
+        if ((collider1Body == body1Entity && collider2Body == body2Entity) ||
+            (collider1Body == body2Entity && collider2Body == body1Entity)) {
+
+            convexPairs.add(mOverlappingPairs.mDisabledConvexPairs[i].pairID);
+        }
+    }
+
     // For each concave pair
     const uint32 nbConcavePairs = static_cast<uint32>(mOverlappingPairs.mConcavePairs.size());
     for (uint32 i=0; i < nbConcavePairs; i++) {
@@ -1999,6 +2068,20 @@ void CollisionDetectionSystem::filterOverlappingPairs(Entity body1Entity, Entity
             concavePairs.add(mOverlappingPairs.mConcavePairs[i].pairID);
         }
     }
+
+    // For each disabled concave pair (sleeping bodies)
+    const uint32 nbDisabledConcavePairs = static_cast<uint32>(mOverlappingPairs.mDisabledConcavePairs.size());
+    for (uint32 i=0; i < nbDisabledConcavePairs; i++) {
+
+        const Entity collider1Body = mCollidersComponents.getBody(mOverlappingPairs.mDisabledConcavePairs[i].collider1);
+        const Entity collider2Body = mCollidersComponents.getBody(mOverlappingPairs.mDisabledConcavePairs[i].collider2);
+
+        if ((collider1Body == body1Entity && collider2Body == body2Entity) ||
+            (collider1Body == body2Entity && collider2Body == body1Entity)) {
+
+            concavePairs.add(mOverlappingPairs.mDisabledConcavePairs[i].pairID);
+        }
+    }
 }
 
 // Return the world event listener
-- 
2.43.0


From deaab6e759b3704f8a67583e2e602f570422eace Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:41 +0000
Subject: [PATCH 26/63] fix: joints between heavy bodies are not solved because
 of an absolute threshold on the determinant of their mass matrix

---
 include/reactphysics3d/mathematics/Matrix2x2.h | 12 ++++++++++++
 include/reactphysics3d/mathematics/Matrix3x3.h | 12 ++++++++++++
 src/mathematics/Matrix2x2.cpp                  |  2 +-
 src/systems/SolveBallAndSocketJointSystem.cpp  |  4 ++--
 src/systems/SolveFixedJointSystem.cpp          |  8 ++++----
 src/systems/SolveHingeJointSystem.cpp          |  8 ++++----
 src/systems/SolveSliderJointSystem.cpp         |  8 ++++----
 7 files changed, 39 insertions(+), 15 deletions(-)

diff --git a/include/reactphysics3d/mathematics/Matrix2x2.h b/include/reactphysics3d/mathematics/Matrix2x2.h
index 6410012..e2bccbc 100644
--- a/include/reactphysics3d/mathematics/Matrix2x2.h
+++ b/include/reactphysics3d/mathematics/Matrix2x2.h
@@ -86,6 +86,9 @@ class Matrix2x2 {
         /// Return the inverse matrix
         Matrix2x2 getInverse(decimal determinant) const;
 
+        /// Return true if a symmetric positive semi-definite matrix with a given determinant is invertible
+        bool isInvertible(decimal determinant) const;
+
         /// Return the matrix with absolute values
         Matrix2x2 getAbsoluteMatrix() const;
 
@@ -210,6 +213,15 @@ RP3D_FORCE_INLINE decimal Matrix2x2::getTrace() const {
     return (mRows[0][0] + mRows[1][1]);
 }
 
+// Return true if a symmetric positive semi-definite matrix with a given determinant is invertible
+/// The determinant is compared with the size of the diagonal because it can be very small only
+/// because of the unit of the values in the matrix (inverse of large masses for instance).
+RP3D_FORCE_INLINE bool Matrix2x2::isInvertible(decimal determinant) const {
+
+    const decimal halfTrace = getTrace() / decimal(2.0);
+    return std::abs(determinant) > MACHINE_EPSILON * halfTrace * halfTrace;
+}
+
 // Set the matrix to the identity matrix
 RP3D_FORCE_INLINE void Matrix2x2::setToIdentity() {
     mRows[0][0] = 1.0; mRows[0][1] = 0.0;
diff --git a/include/reactphysics3d/mathematics/Matrix3x3.h b/include/reactphysics3d/mathematics/Matrix3x3.h
index 9ea7b80..0fa3f72 100644
--- a/include/reactphysics3d/mathematics/Matrix3x3.h
+++ b/include/reactphysics3d/mathematics/Matrix3x3.h
@@ -89,6 +89,9 @@ class Matrix3x3 {
         /// Return the inverse matrix
         Matrix3x3 getInverse(decimal determinant) const;
 
+        /// Return true if a symmetric positive semi-definite matrix with a given determinant is invertible
+        bool isInvertible(decimal determinant) const;
+
         /// Return the matrix with absolute values
         Matrix3x3 getAbsoluteMatrix() const;
 
@@ -223,6 +226,15 @@ RP3D_FORCE_INLINE decimal Matrix3x3::getTrace() const {
     return (mRows[0][0] + mRows[1][1] + mRows[2][2]);
 }
 
+// Return true if a symmetric positive semi-definite matrix with a given determinant is invertible
+/// The determinant is compared with the size of the diagonal because it can be very small only
+/// because of the unit of the values in the matrix (inverse of large masses for instance).
+RP3D_FORCE_INLINE bool Matrix3x3::isInvertible(decimal determinant) const {
+
+    const decimal thirdTrace = getTrace() / decimal(3.0);
+    return std::abs(determinant) > MACHINE_EPSILON * thirdTrace * thirdTrace * thirdTrace;
+}
+
 // Set the matrix to the identity matrix
 RP3D_FORCE_INLINE void Matrix3x3::setToIdentity() {
     mRows[0][0] = 1.0; mRows[0][1] = 0.0; mRows[0][2] = 0.0;
diff --git a/src/mathematics/Matrix2x2.cpp b/src/mathematics/Matrix2x2.cpp
index 9dd03e5..2cba10a 100644
--- a/src/mathematics/Matrix2x2.cpp
+++ b/src/mathematics/Matrix2x2.cpp
@@ -32,7 +32,7 @@ using namespace reactphysics3d;
 Matrix2x2 Matrix2x2::getInverse(decimal determinant) const {
 
     // Check if the determinant is equal to zero
-    assert(std::abs(determinant) > MACHINE_EPSILON);
+    assert(determinant != decimal(0.0));
 
     decimal invDeterminant = decimal(1.0) / determinant;
 
diff --git a/src/systems/SolveBallAndSocketJointSystem.cpp b/src/systems/SolveBallAndSocketJointSystem.cpp
index f34bf12..90c7a9d 100644
--- a/src/systems/SolveBallAndSocketJointSystem.cpp
+++ b/src/systems/SolveBallAndSocketJointSystem.cpp
@@ -100,7 +100,7 @@ void SolveBallAndSocketJointSystem::initBeforeSolve() {
         // Compute the inverse mass matrix K^-1
         mBallAndSocketJointComponents.mInverseMassMatrix[i].setToZero();
         decimal massMatrixDeterminant = massMatrix.getDeterminant();
-        if (std::abs(massMatrixDeterminant) > MACHINE_EPSILON) {
+        if (massMatrix.isInvertible(massMatrixDeterminant)) {
             if (mRigidBodyComponents.mBodyTypes[componentIndexBody1] == BodyType::DYNAMIC ||
                 mRigidBodyComponents.mBodyTypes[componentIndexBody2] == BodyType::DYNAMIC) {
                 mBallAndSocketJointComponents.mInverseMassMatrix[i] = massMatrix.getInverse(massMatrixDeterminant);
@@ -402,7 +402,7 @@ void SolveBallAndSocketJointSystem::solvePositionConstraint() {
                                skewSymmetricMatrixU2 * mBallAndSocketJointComponents.mI2[i] * skewSymmetricMatrixU2.getTranspose();
         mBallAndSocketJointComponents.mInverseMassMatrix[i].setToZero();
         decimal massMatrixDeterminant = massMatrix.getDeterminant();
-        if (std::abs(massMatrixDeterminant) > MACHINE_EPSILON) {
+        if (massMatrix.isInvertible(massMatrixDeterminant)) {
 
             if (mRigidBodyComponents.mBodyTypes[componentIndexBody1] == BodyType::DYNAMIC ||
                 mRigidBodyComponents.mBodyTypes[componentIndexBody2] == BodyType::DYNAMIC) {
diff --git a/src/systems/SolveFixedJointSystem.cpp b/src/systems/SolveFixedJointSystem.cpp
index 048da03..4387f31 100644
--- a/src/systems/SolveFixedJointSystem.cpp
+++ b/src/systems/SolveFixedJointSystem.cpp
@@ -93,7 +93,7 @@ void SolveFixedJointSystem::initBeforeSolve() {
         // Compute the inverse mass matrix K^-1 for the 3 translation constraints
         mFixedJointComponents.mInverseMassMatrixTranslation[i].setToZero();
         decimal massMatrixDeterminant = massMatrix.getDeterminant();
-        if (std::abs(massMatrixDeterminant) > MACHINE_EPSILON) {
+        if (massMatrix.isInvertible(massMatrixDeterminant)) {
             if (mRigidBodyComponents.mBodyTypes[componentIndexBody1] == BodyType::DYNAMIC ||
                 mRigidBodyComponents.mBodyTypes[componentIndexBody2] == BodyType::DYNAMIC) {
                 mFixedJointComponents.mInverseMassMatrixTranslation[i] = massMatrix.getInverse(massMatrixDeterminant);
@@ -116,7 +116,7 @@ void SolveFixedJointSystem::initBeforeSolve() {
         // Compute the inverse of the mass matrix K=JM^-1J^t for the 3 rotation contraints (3x3 matrix)
         mFixedJointComponents.mInverseMassMatrixRotation[i] = mFixedJointComponents.mI1[i] + mFixedJointComponents.mI2[i];
         decimal massMatrixRotationDeterminant = mFixedJointComponents.mInverseMassMatrixRotation[i].getDeterminant();
-        if (std::abs(massMatrixRotationDeterminant) > MACHINE_EPSILON) {
+        if (mFixedJointComponents.mInverseMassMatrixRotation[i].isInvertible(massMatrixRotationDeterminant)) {
             if (mRigidBodyComponents.mBodyTypes[componentIndexBody1] == BodyType::DYNAMIC ||
                 mRigidBodyComponents.mBodyTypes[componentIndexBody2] == BodyType::DYNAMIC) {
                 mFixedJointComponents.mInverseMassMatrixRotation[i] = mFixedJointComponents.mInverseMassMatrixRotation[i].getInverse(massMatrixRotationDeterminant);
@@ -342,7 +342,7 @@ void SolveFixedJointSystem::solvePositionConstraint() {
                                skewSymmetricMatrixU2 * mFixedJointComponents.mI2[i] * skewSymmetricMatrixU2.getTranspose();
         mFixedJointComponents.mInverseMassMatrixTranslation[i].setToZero();
         decimal massMatrixDeterminant = massMatrix.getDeterminant();
-        if (std::abs(massMatrixDeterminant) > MACHINE_EPSILON) {
+        if (massMatrix.isInvertible(massMatrixDeterminant)) {
 
             if (mRigidBodyComponents.mBodyTypes[componentIndexBody1] == BodyType::DYNAMIC ||
                 mRigidBodyComponents.mBodyTypes[componentIndexBody2] == BodyType::DYNAMIC) {
@@ -389,7 +389,7 @@ void SolveFixedJointSystem::solvePositionConstraint() {
         // contraints (3x3 matrix)
         mFixedJointComponents.mInverseMassMatrixRotation[i] = mFixedJointComponents.mI1[i] + mFixedJointComponents.mI2[i];
         decimal massMatrixRotationDeterminant = mFixedJointComponents.mInverseMassMatrixRotation[i].getDeterminant();
-        if (std::abs(massMatrixRotationDeterminant) > MACHINE_EPSILON) {
+        if (mFixedJointComponents.mInverseMassMatrixRotation[i].isInvertible(massMatrixRotationDeterminant)) {
 
             if (mRigidBodyComponents.mBodyTypes[componentIndexBody1] == BodyType::DYNAMIC ||
                 mRigidBodyComponents.mBodyTypes[componentIndexBody2] == BodyType::DYNAMIC) {
diff --git a/src/systems/SolveHingeJointSystem.cpp b/src/systems/SolveHingeJointSystem.cpp
index 7cb13b0..d9dc9c1 100644
--- a/src/systems/SolveHingeJointSystem.cpp
+++ b/src/systems/SolveHingeJointSystem.cpp
@@ -110,7 +110,7 @@ void SolveHingeJointSystem::initBeforeSolve() {
         Matrix3x3& inverseMassMatrixTranslation = mHingeJointComponents.mInverseMassMatrixTranslation[i];
         inverseMassMatrixTranslation.setToZero();
         decimal massMatrixDeterminant = massMatrix.getDeterminant();
-        if (std::abs(massMatrixDeterminant) > MACHINE_EPSILON) {
+        if (massMatrix.isInvertible(massMatrixDeterminant)) {
             if (mRigidBodyComponents.mBodyTypes[componentIndexBody1] == BodyType::DYNAMIC ||
                 mRigidBodyComponents.mBodyTypes[componentIndexBody2] == BodyType::DYNAMIC) {
                 mHingeJointComponents.mInverseMassMatrixTranslation[i] = massMatrix.getInverse(massMatrixDeterminant);
@@ -144,7 +144,7 @@ void SolveHingeJointSystem::initBeforeSolve() {
         const Matrix2x2 matrixKRotation(el11, el12, el21, el22);
         mHingeJointComponents.mInverseMassMatrixRotation[i].setToZero();
         decimal matrixKRotationDeterminant = matrixKRotation.getDeterminant();
-        if (std::abs(matrixKRotationDeterminant) > MACHINE_EPSILON) {
+        if (matrixKRotation.isInvertible(matrixKRotationDeterminant)) {
             if (mRigidBodyComponents.mBodyTypes[componentIndexBody1] == BodyType::DYNAMIC ||
                 mRigidBodyComponents.mBodyTypes[componentIndexBody2] == BodyType::DYNAMIC) {
                 mHingeJointComponents.mInverseMassMatrixRotation[i] = matrixKRotation.getInverse(matrixKRotationDeterminant);
@@ -621,7 +621,7 @@ void SolveHingeJointSystem::solvePositionConstraint() {
         const Matrix2x2 matrixKRotation(el11, el12, el21, el22);
         mHingeJointComponents.mInverseMassMatrixRotation[i].setToZero();
         decimal matrixDeterminant = matrixKRotation.getDeterminant();
-        if (std::abs(matrixDeterminant) > MACHINE_EPSILON) {
+        if (matrixKRotation.isInvertible(matrixDeterminant)) {
             if (mRigidBodyComponents.mBodyTypes[componentIndexBody1] == BodyType::DYNAMIC ||
                 mRigidBodyComponents.mBodyTypes[componentIndexBody2] == BodyType::DYNAMIC) {
                 mHingeJointComponents.mInverseMassMatrixRotation[i] = matrixKRotation.getInverse(matrixDeterminant);
@@ -667,7 +667,7 @@ void SolveHingeJointSystem::solvePositionConstraint() {
                                skewSymmetricMatrixU2 * mHingeJointComponents.mI2[i] * skewSymmetricMatrixU2.getTranspose();
         mHingeJointComponents.mInverseMassMatrixTranslation[i].setToZero();
         matrixDeterminant = massMatrix.getDeterminant();
-        if (std::abs(matrixDeterminant) > MACHINE_EPSILON) {
+        if (massMatrix.isInvertible(matrixDeterminant)) {
 
             if (mRigidBodyComponents.mBodyTypes[componentIndexBody1] == BodyType::DYNAMIC ||
                 mRigidBodyComponents.mBodyTypes[componentIndexBody2] == BodyType::DYNAMIC) {
diff --git a/src/systems/SolveSliderJointSystem.cpp b/src/systems/SolveSliderJointSystem.cpp
index 3f8a721..02809f5 100644
--- a/src/systems/SolveSliderJointSystem.cpp
+++ b/src/systems/SolveSliderJointSystem.cpp
@@ -185,7 +185,7 @@ void SolveSliderJointSystem::initBeforeSolve() {
         Matrix2x2 matrixKTranslation(el11, el12, el21, el22);
         mSliderJointComponents.mInverseMassMatrixTranslation[i].setToZero();
         decimal matrixKTranslationDeterminant = matrixKTranslation.getDeterminant();
-        if (std::abs(matrixKTranslationDeterminant) > MACHINE_EPSILON) {
+        if (matrixKTranslation.isInvertible(matrixKTranslationDeterminant)) {
             if (mRigidBodyComponents.mBodyTypes[componentIndexBody1] == BodyType::DYNAMIC ||
                 mRigidBodyComponents.mBodyTypes[componentIndexBody2] == BodyType::DYNAMIC) {
 
@@ -197,7 +197,7 @@ void SolveSliderJointSystem::initBeforeSolve() {
         // contraints (3x3 matrix)
         mSliderJointComponents.mInverseMassMatrixRotation[i] = i1 + i2;
         decimal massMatrixRotationDeterminant = mSliderJointComponents.mInverseMassMatrixRotation[i].getDeterminant();
-        if (std::abs(massMatrixRotationDeterminant) > MACHINE_EPSILON) {
+        if (mSliderJointComponents.mInverseMassMatrixRotation[i].isInvertible(massMatrixRotationDeterminant)) {
             if (mRigidBodyComponents.mBodyTypes[componentIndexBody1] == BodyType::DYNAMIC ||
                 mRigidBodyComponents.mBodyTypes[componentIndexBody2] == BodyType::DYNAMIC) {
 
@@ -700,7 +700,7 @@ void SolveSliderJointSystem::solvePositionConstraint() {
         // contraints (3x3 matrix)
         mSliderJointComponents.mInverseMassMatrixRotation[i] = mSliderJointComponents.mI1[i] + mSliderJointComponents.mI2[i];
         decimal massMatrixRotationDeterminant = mSliderJointComponents.mInverseMassMatrixRotation[i].getDeterminant();
-        if (std::abs(massMatrixRotationDeterminant) > MACHINE_EPSILON) {
+        if (mSliderJointComponents.mInverseMassMatrixRotation[i].isInvertible(massMatrixRotationDeterminant)) {
 
             if (mRigidBodyComponents.mBodyTypes[componentIndexBody1] == BodyType::DYNAMIC || mRigidBodyComponents.mBodyTypes[componentIndexBody2] == BodyType::DYNAMIC) {
 
@@ -784,7 +784,7 @@ void SolveSliderJointSystem::solvePositionConstraint() {
         Matrix2x2 matrixKTranslation(el11, el12, el21, el22);
         mSliderJointComponents.mInverseMassMatrixTranslation[i].setToZero();
         decimal matrixKTranslationDeterminant = matrixKTranslation.getDeterminant();
-        if (std::abs(matrixKTranslationDeterminant) > MACHINE_EPSILON) {
+        if (matrixKTranslation.isInvertible(matrixKTranslationDeterminant)) {
 
             if (mRigidBodyComponents.mBodyTypes[componentIndexBody1] == BodyType::DYNAMIC || mRigidBodyComponents.mBodyTypes[componentIndexBody2] == BodyType::DYNAMIC) {
 
-- 
2.43.0


From a0740a92f35f25ca4feda3d26742ef674262a70a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:24 +0000
Subject: [PATCH 27/63] fix: a collision query on a sleeping body makes the
 next contact be reported as an old one when the body wakes up

---
 src/engine/OverlappingPairs.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/engine/OverlappingPairs.cpp b/src/engine/OverlappingPairs.cpp
index a455334..03463a8 100644
--- a/src/engine/OverlappingPairs.cpp
+++ b/src/engine/OverlappingPairs.cpp
@@ -317,7 +317,7 @@ void OverlappingPairs::enableConvexPairWithIndex(uint64 pairIndex) {
     // Create a new pair to be added into the array of pairs
     mConvexPairs.emplace(pair->pairID, pair->broadPhaseId1, pair->broadPhaseId2, pair->collider1, pair->collider2,
                             pair->narrowPhaseAlgorithmType, true);
-    mConvexPairs[newPairIndex].collidingInCurrentFrame = pair->collidingInCurrentFrame;
+    mConvexPairs[newPairIndex].collidingInCurrentFrame = pair->collidingInPreviousFrame;
     mConvexPairs[newPairIndex].collidingInPreviousFrame = pair->collidingInPreviousFrame;
     mConvexPairs[newPairIndex].needToTestOverlap = pair->needToTestOverlap;
 
@@ -368,7 +368,7 @@ void OverlappingPairs::enableConcavePairWithIndex(uint64 pairIndex) {
     // Create a new pair to be added into the array of disable pairs
     mConcavePairs.emplace(pair->pairID, pair->broadPhaseId1, pair->broadPhaseId2, pair->collider1, pair->collider2,
                             pair->narrowPhaseAlgorithmType, pair->isShape1Convex, mPoolAllocator, mHeapAllocator, true);
-    mConcavePairs[newPairIndex].collidingInCurrentFrame = pair->collidingInCurrentFrame;
+    mConcavePairs[newPairIndex].collidingInCurrentFrame = pair->collidingInPreviousFrame;
     mConcavePairs[newPairIndex].collidingInPreviousFrame = pair->collidingInPreviousFrame;
     mConcavePairs[newPairIndex].needToTestOverlap = pair->needToTestOverlap;
 
-- 
2.43.0


From 7d9720baf49f62f95a05060d147ba31369e8a9ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:33 +0000
Subject: [PATCH 28/63] fix: the twist friction impulse of the previous step is
 applied twice in the warm-starting of the contact solver

---
 src/systems/ContactSolverSystem.cpp | 6 ------
 1 file changed, 6 deletions(-)

diff --git a/src/systems/ContactSolverSystem.cpp b/src/systems/ContactSolverSystem.cpp
index a7ab187..797a984 100644
--- a/src/systems/ContactSolverSystem.cpp
+++ b/src/systems/ContactSolverSystem.cpp
@@ -458,12 +458,6 @@ void ContactSolverSystem::warmStart() {
 
             // Update the velocities of the body 2 by applying the impulse P
             mRigidBodyComponents.mConstrainedAngularVelocities[rigidBody2Index] += mContactConstraints[c].angularLockAxisFactorBody2 * (mContactConstraints[c].inverseInertiaTensorBody2 * angularImpulseBody2);
-
-            // Update the velocities of the body 1 by applying the impulse P
-            mRigidBodyComponents.mConstrainedAngularVelocities[rigidBody1Index] -= mContactConstraints[c].angularLockAxisFactorBody1 * (mContactConstraints[c].inverseInertiaTensorBody1 * angularImpulseBody2);
-
-            // Update the velocities of the body 1 by applying the impulse P
-            mRigidBodyComponents.mConstrainedAngularVelocities[rigidBody2Index] += mContactConstraints[c].angularLockAxisFactorBody2 * (mContactConstraints[c].inverseInertiaTensorBody2 * angularImpulseBody2);
         }
         else {  // If it is a new contact manifold
 
-- 
2.43.0


From 8b55ad960301d48686bada7ef1fe0401facb13b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:51 +0000
Subject: [PATCH 29/63] fix: the motor of a slider joint pushes the bodies at
 their centers of mass and creates angular momentum

---
 src/systems/SolveSliderJointSystem.cpp | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/systems/SolveSliderJointSystem.cpp b/src/systems/SolveSliderJointSystem.cpp
index 02809f5..7757c25 100644
--- a/src/systems/SolveSliderJointSystem.cpp
+++ b/src/systems/SolveSliderJointSystem.cpp
@@ -219,8 +219,13 @@ void SolveSliderJointSystem::initBeforeSolve() {
             const decimal body2MassInverse = mRigidBodyComponents.mInverseMasses[componentIndexBody2];
             const decimal sumInverseMass = body1MassInverse + body2MassInverse;
 
+            const Vector3& r2CrossSliderAxis = mSliderJointComponents.mR2CrossSliderAxis[i];
+            const Vector3& r1PlusUCrossSliderAxis = mSliderJointComponents.mR1PlusUCrossSliderAxis[i];
+
             // Compute the inverse of mass matrix K=JM^-1J^t for the motor (1x1 matrix)
-            mSliderJointComponents.mInverseMassMatrixMotor[i] = sumInverseMass;
+            mSliderJointComponents.mInverseMassMatrixMotor[i] = sumInverseMass +
+                                      r1PlusUCrossSliderAxis.dot(mSliderJointComponents.mI1[i] * r1PlusUCrossSliderAxis) +
+                                      r2CrossSliderAxis.dot(mSliderJointComponents.mI2[i] * r2CrossSliderAxis);
             mSliderJointComponents.mInverseMassMatrixMotor[i] = (mSliderJointComponents.mInverseMassMatrixMotor[i] > decimal(0.0)) ?
                         decimal(1.0) / mSliderJointComponents.mInverseMassMatrixMotor[i] : decimal(0.0);
         }
@@ -292,6 +297,7 @@ void SolveSliderJointSystem::warmstart() {
 
         // Compute the impulse P=J^T * lambda for the motor constraint of body 1
         linearImpulseBody1 += impulseMotor;
+        angularImpulseBody1 += mSliderJointComponents.mImpulseMotor[i] * mSliderJointComponents.mR1PlusUCrossSliderAxis[i];
 
         // Apply the impulse to the body 1
         v1 += inverseMassBody1 * mRigidBodyComponents.mLinearLockAxisFactors[componentIndexBody1] * linearImpulseBody1;
@@ -311,6 +317,7 @@ void SolveSliderJointSystem::warmstart() {
 
         // Compute the impulse P=J^T * lambda for the motor constraint of body 2
         linearImpulseBody2 += -impulseMotor;
+        angularImpulseBody2 += -mSliderJointComponents.mImpulseMotor[i] * mSliderJointComponents.mR2CrossSliderAxis[i];
 
         // Apply the impulse to the body 2
         v2 += inverseMassBody2 * mRigidBodyComponents.mLinearLockAxisFactors[componentIndexBody2] * linearImpulseBody2;
@@ -436,7 +443,8 @@ void SolveSliderJointSystem::solveVelocityConstraint() {
         if (mSliderJointComponents.mIsMotorEnabled[i]) {
 
             // Compute J*v for the motor
-            const decimal JvMotor = sliderAxisWorld.dot(v1) - sliderAxisWorld.dot(v2);
+            const decimal JvMotor = sliderAxisWorld.dot(v1) + r1PlusUCrossSliderAxis.dot(w1)
+                                   - sliderAxisWorld.dot(v2) - r2CrossSliderAxis.dot(w2);
 
             // Compute the Lagrange multiplier lambda for the motor
             const decimal maxMotorImpulse = mSliderJointComponents.mMaxMotorForce[i] * mTimeStep;
@@ -447,15 +455,19 @@ void SolveSliderJointSystem::solveVelocityConstraint() {
 
             // Compute the impulse P=J^T * lambda for the motor of body 1
             const Vector3 linearImpulseBody1 = deltaLambdaMotor * sliderAxisWorld;
+            const Vector3 angularImpulseBody1 = deltaLambdaMotor * r1PlusUCrossSliderAxis;
 
             // Apply the impulse to the body 1
             v1 += inverseMassBody1 * mRigidBodyComponents.mLinearLockAxisFactors[componentIndexBody1] * linearImpulseBody1;
+            w1 += mRigidBodyComponents.mAngularLockAxisFactors[componentIndexBody1] * (mSliderJointComponents.mI1[i] * angularImpulseBody1);
 
             // Compute the impulse P=J^T * lambda for the motor of body 2
             const Vector3 linearImpulseBody2 = -deltaLambdaMotor * sliderAxisWorld;
+            const Vector3 angularImpulseBody2 = -deltaLambdaMotor * r2CrossSliderAxis;
 
             // Apply the impulse to the body 2
             v2 += inverseMassBody2 * mRigidBodyComponents.mLinearLockAxisFactors[componentIndexBody2] * linearImpulseBody2;
+            w2 += mRigidBodyComponents.mAngularLockAxisFactors[componentIndexBody2] * (mSliderJointComponents.mI2[i] * angularImpulseBody2);
         }
 
         // --------------- Rotation Constraints --------------- //
-- 
2.43.0


From 5858d16b23779bda2db1d3d6b5cf0269ad8336e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:41 +0000
Subject: [PATCH 30/63] fix: joints attached to a static body whose center of
 mass is not its origin pull the other body away from the anchor

---
 src/body/RigidBody.cpp | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/body/RigidBody.cpp b/src/body/RigidBody.cpp
index e3fc5e9..51b1eb1 100644
--- a/src/body/RigidBody.cpp
+++ b/src/body/RigidBody.cpp
@@ -77,7 +77,7 @@ void RigidBody::setType(BodyType type) {
         mWorld.mRigidBodyComponents.setAngularVelocity(mEntity, Vector3::zero());
 
         const Transform& transform = getTransform();
-        mWorld.mRigidBodyComponents.setConstrainedPosition(mEntity, transform.getPosition());
+        mWorld.mRigidBodyComponents.setConstrainedPosition(mEntity, mWorld.mRigidBodyComponents.getCenterOfMassWorld(mEntity));
         mWorld.mRigidBodyComponents.setConstrainedOrientation(mEntity, transform.getOrientation());
     }
 
@@ -350,6 +350,11 @@ void RigidBody::setLocalCenterOfMass(const Vector3& centerOfMass) {
     // Compute the center of mass in world-space coordinates
     mWorld.mRigidBodyComponents.setCenterOfMassWorld(mEntity, mWorld.mTransformComponents.getTransform(mEntity) * centerOfMass);
 
+    // The constrained position of a static body (used to solve the joints) is only updated here
+    if (getType() == BodyType::STATIC) {
+        mWorld.mRigidBodyComponents.setConstrainedPosition(mEntity, mWorld.mRigidBodyComponents.getCenterOfMassWorld(mEntity));
+    }
+
     // Update the linear velocity of the center of mass
     Vector3 linearVelocity = mWorld.mRigidBodyComponents.getLinearVelocity(mEntity);
     const Vector3& angularVelocity = mWorld.mRigidBodyComponents.getAngularVelocity(mEntity);
@@ -387,6 +392,11 @@ void RigidBody::updateLocalCenterOfMassFromColliders() {
     mWorld.mRigidBodyComponents.setCenterOfMassLocal(mEntity, centerOfMassLocal);
     mWorld.mRigidBodyComponents.setCenterOfMassWorld(mEntity, centerOfMassWorld);
 
+    // The constrained position of a static body (used to solve the joints) is only updated here
+    if (getType() == BodyType::STATIC) {
+        mWorld.mRigidBodyComponents.setConstrainedPosition(mEntity, mWorld.mRigidBodyComponents.getCenterOfMassWorld(mEntity));
+    }
+
     // Update the linear velocity of the center of mass
     Vector3 linearVelocity = mWorld.mRigidBodyComponents.getLinearVelocity(mEntity);
     const Vector3& angularVelocity = mWorld.mRigidBodyComponents.getAngularVelocity(mEntity);
@@ -569,6 +579,11 @@ void RigidBody::updateMassPropertiesFromColliders() {
     mWorld.mRigidBodyComponents.setCenterOfMassLocal(mEntity, centerOfMassLocal);
     mWorld.mRigidBodyComponents.setCenterOfMassWorld(mEntity, centerOfMassWorld);
 
+    // The constrained position of a static body (used to solve the joints) is only updated here
+    if (getType() == BodyType::STATIC) {
+        mWorld.mRigidBodyComponents.setConstrainedPosition(mEntity, mWorld.mRigidBodyComponents.getCenterOfMassWorld(mEntity));
+    }
+
     // If it is a dynamic body
     const BodyType type = mWorld.mRigidBodyComponents.getBodyType(mEntity);
     if (type == BodyType::DYNAMIC) {
@@ -862,7 +877,7 @@ void RigidBody::setTransform(const Transform& transform) {
 
     if (getType() == BodyType::STATIC) {
 
-        mWorld.mRigidBodyComponents.setConstrainedPosition(mEntity, transform.getPosition());
+        mWorld.mRigidBodyComponents.setConstrainedPosition(mEntity, centerOfMassWorld);
         mWorld.mRigidBodyComponents.setConstrainedOrientation(mEntity, transform.getOrientation());
     }
 
-- 
2.43.0


From a5d3a89871784d905d64113a335abb7e24966722 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:47 +0000
Subject: [PATCH 31/63] fix: the motor of a hinge joint accelerates the bodies
 away from its target speed

---
 src/systems/SolveHingeJointSystem.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/systems/SolveHingeJointSystem.cpp b/src/systems/SolveHingeJointSystem.cpp
index d9dc9c1..ea11db7 100644
--- a/src/systems/SolveHingeJointSystem.cpp
+++ b/src/systems/SolveHingeJointSystem.cpp
@@ -390,11 +390,11 @@ void SolveHingeJointSystem::solveVelocityConstraint() {
         if (mHingeJointComponents.mIsMotorEnabled[i]) {
 
             // Compute J*v for the motor
-            const decimal JvMotor = a1.dot(w1 - w2);
+            const decimal JvMotor = a1.dot(w2 - w1);
 
             // Compute the Lagrange multiplier lambda for the motor
             const decimal maxMotorImpulse = mHingeJointComponents.mMaxMotorTorque[i] * mTimeStep;
-            decimal deltaLambdaMotor = mHingeJointComponents.mInverseMassMatrixLimitMotor[i] * (-JvMotor - mHingeJointComponents.mMotorSpeed[i]);
+            decimal deltaLambdaMotor = mHingeJointComponents.mInverseMassMatrixLimitMotor[i] * (-JvMotor + mHingeJointComponents.mMotorSpeed[i]);
             decimal lambdaTemp = mHingeJointComponents.mImpulseMotor[i];
             mHingeJointComponents.mImpulseMotor[i] = clamp(mHingeJointComponents.mImpulseMotor[i] + deltaLambdaMotor, -maxMotorImpulse, maxMotorImpulse);
             deltaLambdaMotor = mHingeJointComponents.mImpulseMotor[i] - lambdaTemp;
-- 
2.43.0


From 87b60c4f88f80fb715daf086a983cc27ba65e65b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:08 +0000
Subject: [PATCH 32/63] fix: the angle of a hinge joint is wrong when its
 bodies had different orientations at the creation and body 1 has turned

---
 src/constraint/HingeJoint.cpp         | 7 +++----
 src/systems/SolveHingeJointSystem.cpp | 8 ++------
 2 files changed, 5 insertions(+), 10 deletions(-)

diff --git a/src/constraint/HingeJoint.cpp b/src/constraint/HingeJoint.cpp
index 1743034..835301c 100644
--- a/src/constraint/HingeJoint.cpp
+++ b/src/constraint/HingeJoint.cpp
@@ -74,11 +74,10 @@ HingeJoint::HingeJoint(Entity entity, PhysicsWorld &world, const HingeJointInfo&
     mWorld.mHingeJointsComponents.setHingeLocalAxisBody1(mEntity, hingeLocalAxisBody1);
     mWorld.mHingeJointsComponents.setHingeLocalAxisBody2(mEntity, hingeLocalAxisBody2);
 
-    // Compute the inverse of the initial orientation difference between the two bodies
-    Quaternion initOrientationDifferenceInv = transform2.getOrientation() *
-                                    transform1.getOrientation().getInverse();
+    // Compute the inverse of the initial orientation difference between the two bodies (in the local-space of body 1)
+    Quaternion initOrientationDifferenceInv = transform2.getOrientation().getInverse() *
+                                    transform1.getOrientation();
     initOrientationDifferenceInv.normalize();
-    initOrientationDifferenceInv.inverse();
     mWorld.mHingeJointsComponents.setInitOrientationDifferenceInv(mEntity, initOrientationDifferenceInv);
 }
 
diff --git a/src/systems/SolveHingeJointSystem.cpp b/src/systems/SolveHingeJointSystem.cpp
index ea11db7..5778ff9 100644
--- a/src/systems/SolveHingeJointSystem.cpp
+++ b/src/systems/SolveHingeJointSystem.cpp
@@ -761,12 +761,8 @@ decimal SolveHingeJointSystem::computeCurrentHingeAngle(Entity jointEntity, cons
 
     decimal hingeAngle;
 
-    // Compute the current orientation difference between the two bodies
-    Quaternion currentOrientationDiff = orientationBody2 * orientationBody1.getInverse();
-    currentOrientationDiff.normalize();
-
-    // Compute the relative rotation considering the initial orientation difference
-    Quaternion relativeRotation = currentOrientationDiff * mHingeJointComponents.getInitOrientationDifferenceInv(jointEntity);
+    // Compute the relative rotation (in world-space) considering the initial orientation difference
+    Quaternion relativeRotation = orientationBody2 * mHingeJointComponents.getInitOrientationDifferenceInv(jointEntity) * orientationBody1.getInverse();
     relativeRotation.normalize();
 
     // A quaternion q = [cos(theta/2); sin(theta/2) * rotAxis] where rotAxis is a unit
-- 
2.43.0


From 38df01f4c2654fedd85c16d42901bb82d0570d4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:57 +0000
Subject: [PATCH 33/63] fix: a body can fall asleep too early after the
 sleeping has been disabled and enabled again

---
 src/engine/PhysicsWorld.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/engine/PhysicsWorld.cpp b/src/engine/PhysicsWorld.cpp
index 8c0016b..3c8f444 100644
--- a/src/engine/PhysicsWorld.cpp
+++ b/src/engine/PhysicsWorld.cpp
@@ -962,6 +962,9 @@ void PhysicsWorld::enableSleeping(bool isSleepingEnabled) {
 
             // Wake up the rigid body
             (*it)->setIsSleeping(false);
+
+            // The time already spent below the sleep velocities is not updated while sleeping is disabled
+            mRigidBodyComponents.setSleepTime((*it)->getEntity(), decimal(0.0));
         }
     }
 
-- 
2.43.0


From 37b54589854aa0028818ff2d51e26fcc654ecfd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:44 +0000
Subject: [PATCH 34/63] fix: the position correction of a hinge joint diverges
 at its limits because each part ignores what the previous one has just
 corrected

---
 src/systems/SolveHingeJointSystem.cpp | 31 +++++++++++++++++----------
 1 file changed, 20 insertions(+), 11 deletions(-)

diff --git a/src/systems/SolveHingeJointSystem.cpp b/src/systems/SolveHingeJointSystem.cpp
index 5778ff9..c778c1d 100644
--- a/src/systems/SolveHingeJointSystem.cpp
+++ b/src/systems/SolveHingeJointSystem.cpp
@@ -495,15 +495,6 @@ void SolveHingeJointSystem::solvePositionConstraint() {
         RigidBody::computeWorldInertiaTensorInverse(q2.getMatrix(), mRigidBodyComponents.mInverseInertiaTensorsLocal[componentIndexBody2],
                                                     mHingeJointComponents.mI2[i]);
 
-        // Compute the vector from body center to the anchor point in world-space
-        mHingeJointComponents.mR1World[i] = q1 * (mHingeJointComponents.mLocalAnchorPointBody1[i] - mRigidBodyComponents.mCentersOfMassLocal[componentIndexBody1]);
-        mHingeJointComponents.mR2World[i] = q2 * (mHingeJointComponents.mLocalAnchorPointBody2[i] - mRigidBodyComponents.mCentersOfMassLocal[componentIndexBody2]);
-
-        // Compute the corresponding skew-symmetric matrices
-        Matrix3x3 skewSymmetricMatrixU1 = Matrix3x3::computeSkewSymmetricMatrixForCrossProduct(mHingeJointComponents.mR1World[i]);
-        Matrix3x3 skewSymmetricMatrixU2 = Matrix3x3::computeSkewSymmetricMatrixForCrossProduct(mHingeJointComponents.mR2World[i]);
-
-
         Vector3& b2CrossA1 = mHingeJointComponents.mB2CrossA1[i];
         Vector3& c2CrossA1 = mHingeJointComponents.mC2CrossA1[i];
 
@@ -515,8 +506,8 @@ void SolveHingeJointSystem::solvePositionConstraint() {
         a1.normalize();
         mHingeJointComponents.mA1[i] = a1;
         a2.normalize();
-        const Vector3 b2 = a2.getOneUnitOrthogonalVector();
-        const Vector3 c2 = a2.cross(b2);
+        Vector3 b2 = a2.getOneUnitOrthogonalVector();
+        Vector3 c2 = a2.cross(b2);
         b2CrossA1 = b2.cross(a1);
         mHingeJointComponents.mB2CrossA1[i] = b2CrossA1;
         c2CrossA1 = c2.cross(a1);
@@ -605,6 +596,16 @@ void SolveHingeJointSystem::solvePositionConstraint() {
 
         // --------------- Rotation Constraints --------------- //
 
+        // The limits might have moved the bodies: recompute the vectors needed in the Jacobian
+        a1 = q1 * mHingeJointComponents.mHingeLocalAxisBody1[i];
+        a2 = q2 * mHingeJointComponents.mHingeLocalAxisBody2[i];
+        a1.normalize();
+        a2.normalize();
+        b2 = a2.getOneUnitOrthogonalVector();
+        c2 = a2.cross(b2);
+        b2CrossA1 = b2.cross(a1);
+        c2CrossA1 = c2.cross(a1);
+
         // Compute the inverse mass matrix K=JM^-1J^t for the 2 rotation constraints (2x2 matrix)
         Vector3 I1B2CrossA1 = mHingeJointComponents.mI1[i] * b2CrossA1;
         Vector3 I1C2CrossA1 = mHingeJointComponents.mI1[i] * c2CrossA1;
@@ -656,6 +657,14 @@ void SolveHingeJointSystem::solvePositionConstraint() {
 
         // --------------- Translation Constraints --------------- //
 
+        // Compute the vector from body center to the anchor point in world-space
+        mHingeJointComponents.mR1World[i] = q1 * (mHingeJointComponents.mLocalAnchorPointBody1[i] - mRigidBodyComponents.mCentersOfMassLocal[componentIndexBody1]);
+        mHingeJointComponents.mR2World[i] = q2 * (mHingeJointComponents.mLocalAnchorPointBody2[i] - mRigidBodyComponents.mCentersOfMassLocal[componentIndexBody2]);
+
+        // Compute the corresponding skew-symmetric matrices
+        Matrix3x3 skewSymmetricMatrixU1 = Matrix3x3::computeSkewSymmetricMatrixForCrossProduct(mHingeJointComponents.mR1World[i]);
+        Matrix3x3 skewSymmetricMatrixU2 = Matrix3x3::computeSkewSymmetricMatrixForCrossProduct(mHingeJointComponents.mR2World[i]);
+
         // Compute the matrix K=JM^-1J^t (3x3 matrix) for the 3 translation constraints
         const decimal body1InverseMass = mRigidBodyComponents.mInverseMasses[componentIndexBody1];
         const decimal body2InverseMass = mRigidBodyComponents.mInverseMasses[componentIndexBody2];
-- 
2.43.0


From 8c6b907466602a36bf168b859e7901e159b4ef31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:23 +0000
Subject: [PATCH 35/63] fix: the position correction of the cone limit of a
 ball and socket joint overshoots because its axis is not a unit vector

---
 src/systems/SolveBallAndSocketJointSystem.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/systems/SolveBallAndSocketJointSystem.cpp b/src/systems/SolveBallAndSocketJointSystem.cpp
index 90c7a9d..28ac88a 100644
--- a/src/systems/SolveBallAndSocketJointSystem.cpp
+++ b/src/systems/SolveBallAndSocketJointSystem.cpp
@@ -122,6 +122,7 @@ void SolveBallAndSocketJointSystem::initBeforeSolve() {
             const Vector3 r1WorldUnit = r1World.getUnit();
             const Vector3 r2WorldUnit = r2World.getUnit();
             mBallAndSocketJointComponents.mConeLimitACrossB[i] = r1WorldUnit.cross(-r2WorldUnit);
+            mBallAndSocketJointComponents.mConeLimitACrossB[i].normalize();
 
             // Compute the current angle around the hinge axis
             decimal coneAngle = computeCurrentConeHalfAngle(r1WorldUnit, -r2WorldUnit);
@@ -353,6 +354,7 @@ void SolveBallAndSocketJointSystem::solvePositionConstraint() {
             const Vector3 r1WorldUnit = r1World.getUnit();
             const Vector3 r2WorldUnit = r2World.getUnit();
             mBallAndSocketJointComponents.mConeLimitACrossB[i] = r1WorldUnit.cross(-r2WorldUnit);
+            mBallAndSocketJointComponents.mConeLimitACrossB[i].normalize();
             decimal coneAngle = computeCurrentConeHalfAngle(r1WorldUnit, -r2WorldUnit);
             decimal coneLimitError = mBallAndSocketJointComponents.mConeLimitHalfAngle[i] - coneAngle;
             mBallAndSocketJointComponents.mIsConeLimitViolated[i] = coneLimitError < 0;
-- 
2.43.0


From 5a95f9b114845fe495b211a66328db1cfe0ec323 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:28 +0000
Subject: [PATCH 36/63] fix: the position correction of a ball and socket joint
 ignores the rotation that its cone limit has just applied

---
 src/systems/SolveBallAndSocketJointSystem.cpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/systems/SolveBallAndSocketJointSystem.cpp b/src/systems/SolveBallAndSocketJointSystem.cpp
index 28ac88a..2de5400 100644
--- a/src/systems/SolveBallAndSocketJointSystem.cpp
+++ b/src/systems/SolveBallAndSocketJointSystem.cpp
@@ -338,10 +338,6 @@ void SolveBallAndSocketJointSystem::solvePositionConstraint() {
         const Vector3& r1World = mBallAndSocketJointComponents.mR1World[i];
         const Vector3& r2World = mBallAndSocketJointComponents.mR2World[i];
 
-        // Compute the corresponding skew-symmetric matrices
-        Matrix3x3 skewSymmetricMatrixU1 = Matrix3x3::computeSkewSymmetricMatrixForCrossProduct(r1World);
-        Matrix3x3 skewSymmetricMatrixU2 = Matrix3x3::computeSkewSymmetricMatrixForCrossProduct(r2World);
-
         // Get the inverse mass and inverse inertia tensors of the bodies
         const decimal inverseMassBody1 = mRigidBodyComponents.mInverseMasses[componentIndexBody1];
         const decimal inverseMassBody2 = mRigidBodyComponents.mInverseMasses[componentIndexBody2];
@@ -395,6 +391,14 @@ void SolveBallAndSocketJointSystem::solvePositionConstraint() {
 
         // --------------- Joint Constraints --------------- //
 
+        // The cone limit might have moved the bodies: recompute the vectors from body centers to the anchor points
+        mBallAndSocketJointComponents.mR1World[i] = q1 * (mBallAndSocketJointComponents.mLocalAnchorPointBody1[i] - mRigidBodyComponents.mCentersOfMassLocal[componentIndexBody1]);
+        mBallAndSocketJointComponents.mR2World[i] = q2 * (mBallAndSocketJointComponents.mLocalAnchorPointBody2[i] - mRigidBodyComponents.mCentersOfMassLocal[componentIndexBody2]);
+
+        // Compute the corresponding skew-symmetric matrices
+        Matrix3x3 skewSymmetricMatrixU1 = Matrix3x3::computeSkewSymmetricMatrixForCrossProduct(r1World);
+        Matrix3x3 skewSymmetricMatrixU2 = Matrix3x3::computeSkewSymmetricMatrixForCrossProduct(r2World);
+
         // Recompute the inverse mass matrix K=J^TM^-1J of of the 3 translation constraints
         decimal inverseMassBodies = inverseMassBody1 + inverseMassBody2;
         Matrix3x3 massMatrix = Matrix3x3(inverseMassBodies, 0, 0,
-- 
2.43.0


From 175c3690fe89b60ed45f8114121bddc389a48e14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:43 +0000
Subject: [PATCH 37/63] fix: do not reuse the previous penetration axis of a
 triangle of a concave mesh

---
 src/collision/narrowphase/SAT/SATAlgorithm.cpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/collision/narrowphase/SAT/SATAlgorithm.cpp b/src/collision/narrowphase/SAT/SATAlgorithm.cpp
index 29ddbf3..ada5f68 100644
--- a/src/collision/narrowphase/SAT/SATAlgorithm.cpp
+++ b/src/collision/narrowphase/SAT/SATAlgorithm.cpp
@@ -511,6 +511,12 @@ bool SATAlgorithm::testCollisionConvexPolyhedronVsConvexPolyhedron(NarrowPhaseIn
         Vector3 minEdgeVsEdgeSeparatingAxisPolyhedron2Space;
         const bool isShape1Triangle = polyhedron1->getName() == CollisionShapeName::TRIANGLE;
 
+        // The penetration depth along the previous axis keeps growing when a polyhedron slides over a triangle of a
+        // concave mesh that it first touched from the side. Therefore, we do not reuse the previous axis of minimum
+        // penetration depth if one of the two shapes is a triangle
+        const bool canClipWithPreviousAxis = mClipWithPreviousAxisIfStillColliding && !isShape1Triangle &&
+                                             polyhedron2->getName() != CollisionShapeName::TRIANGLE;
+
         LastFrameCollisionInfo* lastFrameCollisionInfo = narrowPhaseInfoBatch.narrowPhaseInfos[batchIndex].lastFrameCollisionInfo;
 
         // If the last frame collision info is valid and was also using SAT algorithm
@@ -535,7 +541,7 @@ bool SATAlgorithm::testCollisionConvexPolyhedronVsConvexPolyhedron(NarrowPhaseIn
                 }
 
                 // The two shapes were overlapping in the previous frame and still seem to overlap in this one
-                if (lastFrameCollisionInfo->wasColliding && mClipWithPreviousAxisIfStillColliding && penetrationDepth > decimal(0.0)) {
+                if (lastFrameCollisionInfo->wasColliding && canClipWithPreviousAxis && penetrationDepth > decimal(0.0)) {
 
                     minPenetrationDepth = penetrationDepth;
                     minFaceIndex = lastFrameCollisionInfo->satMinAxisFaceIndex;
@@ -575,7 +581,7 @@ bool SATAlgorithm::testCollisionConvexPolyhedronVsConvexPolyhedron(NarrowPhaseIn
                 }
 
                 // The two shapes were overlapping in the previous frame and still seem to overlap in this one
-                if (lastFrameCollisionInfo->wasColliding && mClipWithPreviousAxisIfStillColliding && penetrationDepth > decimal(0.0)) {
+                if (lastFrameCollisionInfo->wasColliding && canClipWithPreviousAxis && penetrationDepth > decimal(0.0)) {
 
                     minPenetrationDepth = penetrationDepth;
                     minFaceIndex = lastFrameCollisionInfo->satMinAxisFaceIndex;
@@ -633,7 +639,7 @@ bool SATAlgorithm::testCollisionConvexPolyhedronVsConvexPolyhedron(NarrowPhaseIn
                     }
 
                     // If the shapes were overlapping on the previous axis and still seem to overlap in this frame
-                    if (lastFrameCollisionInfo->wasColliding && mClipWithPreviousAxisIfStillColliding && penetrationDepth > decimal(0.0) &&
+                    if (lastFrameCollisionInfo->wasColliding && canClipWithPreviousAxis && penetrationDepth > decimal(0.0) &&
                         penetrationDepth < DECIMAL_LARGEST) {
 
                         // Compute the closest points between the two edges (in the local-space of poylhedron 2)
-- 
2.43.0


From 0844a8819b2828321e531bf2276adc4a8f5c1eda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:58 +0000
Subject: [PATCH 38/63] fix: do not take the rounding error of the normal
 velocity for the direction of the friction

---
 src/systems/ContactSolverSystem.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/systems/ContactSolverSystem.cpp b/src/systems/ContactSolverSystem.cpp
index 797a984..517b42a 100644
--- a/src/systems/ContactSolverSystem.cpp
+++ b/src/systems/ContactSolverSystem.cpp
@@ -792,9 +792,11 @@ void ContactSolverSystem::computeFrictionVectors(const Vector3& deltaVelocity, C
     Vector3 tangentVelocity(deltaVelocity.x - normalVelocity.x, deltaVelocity.y - normalVelocity.y,
                             deltaVelocity.z - normalVelocity.z);
 
-    // If the velocty difference in the tangential plane is not zero
+    // If the velocty difference in the tangential plane is not zero (and is not only the rounding error of
+    // the normal velocity, in which case it would not be orthogonal to the contact normal)
     const decimal lengthTangentVelocity = tangentVelocity.length();
-    if (lengthTangentVelocity > MACHINE_EPSILON) {
+    if (lengthTangentVelocity > MACHINE_EPSILON &&
+        lengthTangentVelocity > decimal(100.0) * MACHINE_EPSILON * std::abs(deltaVDotNormal)) {
 
         // Compute the first friction vector in the direction of the tangent
         // velocity difference
-- 
2.43.0


From 905cf44bbf8ba8f859495785cf84a30e8dcbb7c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:26 +0000
Subject: [PATCH 39/63] fix: the vertex normals of a triangle mesh whose face
 normals cancel out at a vertex are null (or an assert fails)

---
 src/collision/TriangleMesh.cpp | 29 ++++++++++++++++++++++++++---
 1 file changed, 26 insertions(+), 3 deletions(-)

diff --git a/src/collision/TriangleMesh.cpp b/src/collision/TriangleMesh.cpp
index c2c44dc..f19df06 100644
--- a/src/collision/TriangleMesh.cpp
+++ b/src/collision/TriangleMesh.cpp
@@ -324,10 +324,33 @@ void TriangleMesh::computeVerticesNormals() {
     // Normalize the computed vertices normals
     for (uint32 v=0; v < mVertices.size(); v++) {
 
-        assert(mVerticesNormals[v].lengthSquare() >= mEpsilon * mEpsilon);
+        // The normals of the faces around a vertex can cancel each other out (for instance when
+        // a face exists in both orientations). There is no meaningful average in this case
+        if (mVerticesNormals[v].lengthSquare() > MACHINE_EPSILON) {
 
-        // Normalize the normal
-        mVerticesNormals[v].normalize();
+            // Normalize the normal
+            mVerticesNormals[v].normalize();
+        }
+        else {
+
+            mVerticesNormals[v].setToZero();
+        }
+    }
+
+    // Use the normal of one of its faces for a vertex without an average normal
+    for (uint32 i=0; i < mTriangles.size(); i++) {
+
+        Vector3& vertexNormal = mVerticesNormals[mTriangles[i]];
+
+        if (vertexNormal.isZero()) {
+
+            const uint32 f = i - i % 3;
+            const Vector3& v0 = mVertices[mTriangles[f]];
+            const Vector3& v1 = mVertices[mTriangles[f + 1]];
+            const Vector3& v2 = mVertices[mTriangles[f + 2]];
+
+            vertexNormal = (v1 - v0).cross(v2 - v0).getUnit();
+        }
     }
 }
 
-- 
2.43.0


From 18954494a901939e50039b5eb2c6fd6569746fb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:31 +0000
Subject: [PATCH 40/63] fix: assert fails instead of reporting an error for a
 triangle mesh without any extent

---
 src/collision/TriangleMesh.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/collision/TriangleMesh.cpp b/src/collision/TriangleMesh.cpp
index f19df06..43654d5 100644
--- a/src/collision/TriangleMesh.cpp
+++ b/src/collision/TriangleMesh.cpp
@@ -92,7 +92,13 @@ bool TriangleMesh::copyData(const TriangleVertexArray& triangleVertexArray, std:
 
     bool isValid = true;
 
-    assert(mEpsilon > 0);
+    // If there are no vertices or if they are all at the origin
+    if (mEpsilon <= decimal(0.0)) {
+
+        messages.push_back(Message("The mesh does not have any valid triangle faces"));
+
+        return false;
+    }
 
     const decimal epsilonSquare = mEpsilon * mEpsilon;
 
-- 
2.43.0


From 8328429c22ae3f50278b464b68746f2d495da42d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:36 +0000
Subject: [PATCH 41/63] fix: assert fails in the support function of a convex
 mesh that does not contain its local origin

---
 src/collision/shapes/ConvexMeshShape.cpp | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/collision/shapes/ConvexMeshShape.cpp b/src/collision/shapes/ConvexMeshShape.cpp
index aafb0c9..8cdf413 100644
--- a/src/collision/shapes/ConvexMeshShape.cpp
+++ b/src/collision/shapes/ConvexMeshShape.cpp
@@ -95,8 +95,6 @@ Vector3 ConvexMeshShape::getLocalSupportPointWithoutMargin(const Vector3& direct
         }
     }
 
-    assert(maxDotProduct >= decimal(0.0));
-
     // Return the vertex with the largest dot product in the support direction
     return mConvexMesh->getVertex(indexMaxDotProduct) * mScale;
 }
-- 
2.43.0


From e1ad586dbbdcdf9953474691566484bccaf648c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:28 +0000
Subject: [PATCH 42/63] fix: data race in the initialization of the size lookup
 table shared by all the pool allocators

---
 include/reactphysics3d/memory/PoolAllocator.h |  8 +--
 src/memory/PoolAllocator.cpp                  | 49 ++++++++++---------
 2 files changed, 32 insertions(+), 25 deletions(-)

diff --git a/include/reactphysics3d/memory/PoolAllocator.h b/include/reactphysics3d/memory/PoolAllocator.h
index 7898545..a75b81a 100644
--- a/include/reactphysics3d/memory/PoolAllocator.h
+++ b/include/reactphysics3d/memory/PoolAllocator.h
@@ -102,9 +102,6 @@ class PoolAllocator : public MemoryAllocator {
         /// corresponding heap we will use for the allocation.
         static int mMapSizeToHeapIndex[MAX_UNIT_SIZE + 1];
 
-        /// True if the mMapSizeToHeapIndex array has already been initialized
-        static bool isMapSizeToHeadIndexInitialized;
-
         /// Mutex
         std::mutex mMutex;
 
@@ -131,6 +128,11 @@ class PoolAllocator : public MemoryAllocator {
         int mNbTimesAllocateMethodCalled;
 #endif
 
+        // -------------------- Methods -------------------- //
+
+        /// Initialize the lookup table that maps the size to allocate to the corresponding heap
+        static bool initMapSizeToHeapIndex();
+
     public :
 
         // -------------------- Methods -------------------- //
diff --git a/src/memory/PoolAllocator.cpp b/src/memory/PoolAllocator.cpp
index df04b8e..6a933c6 100644
--- a/src/memory/PoolAllocator.cpp
+++ b/src/memory/PoolAllocator.cpp
@@ -32,7 +32,6 @@
 using namespace reactphysics3d;
 
 // Initialization of static variables
-bool PoolAllocator::isMapSizeToHeadIndexInitialized = false;
 size_t PoolAllocator::mUnitSizes[NB_HEAPS];
 int PoolAllocator::mMapSizeToHeapIndex[MAX_UNIT_SIZE + 1];
 
@@ -51,31 +50,37 @@ PoolAllocator::PoolAllocator(MemoryAllocator& baseAllocator) : mBaseAllocator(ba
         mNbTimesAllocateMethodCalled = 0;
 #endif
 
-    // If the mMapSizeToHeapIndex has not been initialized yet
-    if (!isMapSizeToHeadIndexInitialized) {
+    // Initialize the lookup table the first time a pool allocator is created (the initialization
+    // of a static local variable is thread-safe)
+    static const bool isMapSizeToHeadIndexInitialized = initMapSizeToHeapIndex();
+    assert(isMapSizeToHeadIndexInitialized);
+    (void)isMapSizeToHeadIndexInitialized;
+}
 
-        // Initialize the array that contains the sizes of the memory units that will
-        // be allocated in each different heap
-        for (uint i=0; i < NB_HEAPS; i++) {
-            mUnitSizes[i] = (i+1) * MIN_UNIT_SIZE;
-        }
+// Initialize the lookup table that maps the size to allocate to the corresponding heap
+bool PoolAllocator::initMapSizeToHeapIndex() {
 
-        // Initialize the lookup table that maps the size to allocated to the
-        // corresponding heap we will use for the allocation
-        uint j = 0;
-        mMapSizeToHeapIndex[0] = -1;    // This element should not be used
-        for (uint i=1; i <= MAX_UNIT_SIZE; i++) {
-            if (i <= mUnitSizes[j]) {
-                mMapSizeToHeapIndex[i] = j;
-            }
-            else {
-                j++;
-                mMapSizeToHeapIndex[i] = j;
-            }
-        }
+    // Initialize the array that contains the sizes of the memory units that will
+    // be allocated in each different heap
+    for (uint i=0; i < NB_HEAPS; i++) {
+        mUnitSizes[i] = (i+1) * MIN_UNIT_SIZE;
+    }
 
-        isMapSizeToHeadIndexInitialized = true;
+    // Initialize the lookup table that maps the size to allocated to the
+    // corresponding heap we will use for the allocation
+    uint j = 0;
+    mMapSizeToHeapIndex[0] = -1;    // This element should not be used
+    for (uint i=1; i <= MAX_UNIT_SIZE; i++) {
+        if (i <= mUnitSizes[j]) {
+            mMapSizeToHeapIndex[i] = j;
+        }
+        else {
+            j++;
+            mMapSizeToHeapIndex[i] = j;
+        }
     }
+
+    return true;
 }
 
 // Destructor
-- 
2.43.0


From fd38d90b91d48c87df552153ece4d40f99a4da38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:32 +0000
Subject: [PATCH 43/63] fix: the heap allocator requests a size that is not a
 multiple of the alignment from its base allocator

---
 src/memory/HeapAllocator.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/memory/HeapAllocator.cpp b/src/memory/HeapAllocator.cpp
index 8f317eb..69bf6f2 100644
--- a/src/memory/HeapAllocator.cpp
+++ b/src/memory/HeapAllocator.cpp
@@ -323,6 +323,9 @@ void HeapAllocator::reserve(size_t sizeToAllocate) {
 
     const size_t sizeHeader = std::ceil(sizeof(MemoryUnitHeader) / float(GLOBAL_ALIGNMENT)) * GLOBAL_ALIGNMENT;
 
+    // Make sure the size is an integral multiple of the alignment (required by the base allocator)
+    sizeToAllocate = (sizeToAllocate + GLOBAL_ALIGNMENT - 1) / GLOBAL_ALIGNMENT * GLOBAL_ALIGNMENT;
+
     // Allocate memory
     void* memory = mBaseAllocator.allocate(sizeToAllocate + sizeHeader);
     assert(memory != nullptr);
-- 
2.43.0


From c4f77095ee89ccb220e02fd7ea434c160bfaf452 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:06 +0000
Subject: [PATCH 44/63] fix: data race on the number of worlds when threads
 create worlds of independent PhysicsCommon instances

---
 include/reactphysics3d/engine/PhysicsWorld.h |  3 ++-
 src/engine/PhysicsWorld.cpp                  | 10 +++++-----
 2 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/include/reactphysics3d/engine/PhysicsWorld.h b/include/reactphysics3d/engine/PhysicsWorld.h
index b1a3bae..06da5e5 100644
--- a/include/reactphysics3d/engine/PhysicsWorld.h
+++ b/include/reactphysics3d/engine/PhysicsWorld.h
@@ -27,6 +27,7 @@
 #define REACTPHYSICS3D_PHYSICS_WORLD_H
 
 // Libraries
+#include <atomic>
 #include <reactphysics3d/mathematics/mathematics.h>
 #include <reactphysics3d/containers/Array.h>
 #include <reactphysics3d/constraint/Joint.h>
@@ -229,7 +230,7 @@ class PhysicsWorld {
 #endif
 
         /// Total number of worlds
-        static uint32 mNbWorlds;
+        static std::atomic<uint32> mNbWorlds;
 
         /// All the islands of bodies of the current frame
         Islands mIslands;
diff --git a/src/engine/PhysicsWorld.cpp b/src/engine/PhysicsWorld.cpp
index 3c8f444..12c2274 100644
--- a/src/engine/PhysicsWorld.cpp
+++ b/src/engine/PhysicsWorld.cpp
@@ -43,7 +43,7 @@ using namespace std;
 
 // Static initializations
 
-uint32 PhysicsWorld::mNbWorlds = 0;
+std::atomic<uint32> PhysicsWorld::mNbWorlds(0);
 
 // Constructor
 /**
@@ -78,14 +78,16 @@ PhysicsWorld::PhysicsWorld(MemoryManager& memoryManager, PhysicsCommon& physicsC
                 mSleepLinearVelocity(mConfig.defaultSleepLinearVelocity),
                 mSleepAngularVelocity(mConfig.defaultSleepAngularVelocity), mTimeBeforeSleep(mConfig.defaultTimeBeforeSleep) {
 
+    const uint32 nbWorlds = mNbWorlds++;
+
     // Automatically generate a name for the world
     if (mName == "") {
 
         std::stringstream ss;
         ss << "world";
 
-        if (mNbWorlds > 0) {
-            ss << mNbWorlds;
+        if (nbWorlds > 0) {
+            ss << nbWorlds;
         }
 
         mName = ss.str();
@@ -105,8 +107,6 @@ PhysicsWorld::PhysicsWorld(MemoryManager& memoryManager, PhysicsCommon& physicsC
 
 #endif
 
-    mNbWorlds++;
-
     mTransformComponents.init();
     mCollidersComponents.init();
     mBodyComponents.init();
-- 
2.43.0


From 772e43a806deb8def4e3157146cd73a18115ccbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:35 +0000
Subject: [PATCH 45/63] fix: the logger stays locked forever and the other
 destinations miss the message when a log destination throws

---
 src/utils/DefaultLogger.cpp | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/src/utils/DefaultLogger.cpp b/src/utils/DefaultLogger.cpp
index 1cdc57e..4eb221d 100644
--- a/src/utils/DefaultLogger.cpp
+++ b/src/utils/DefaultLogger.cpp
@@ -26,6 +26,7 @@
 // Libraries
 #include <reactphysics3d/utils/DefaultLogger.h>
 #include <reactphysics3d/memory/MemoryManager.h>
+#include <exception>
 
 using namespace reactphysics3d;
 
@@ -107,13 +108,23 @@ void DefaultLogger::log(Level level, const std::string& physicsWorldName, Catego
     auto now = std::chrono::system_clock::now();
     auto time = std::chrono::system_clock::to_time_t(now);
 
-    mMutex.lock();
+    std::exception_ptr exception;
 
-    // For each destination
-    for (auto it = mDestinations.begin(); it != mDestinations.end(); ++it) {
+    {
+        std::lock_guard<std::mutex> lock(mMutex);
 
-        (*it)->write(time, physicsWorldName, message, level, category, filename, lineNumber);
+        // For each destination
+        for (auto it = mDestinations.begin(); it != mDestinations.end(); ++it) {
+
+            // A destination that fails must not prevent the other ones from receiving the message
+            try {
+                (*it)->write(time, physicsWorldName, message, level, category, filename, lineNumber);
+            }
+            catch (...) {
+                if (!exception) exception = std::current_exception();
+            }
+        }
     }
 
-    mMutex.unlock();
+    if (exception) std::rethrow_exception(exception);
 }
-- 
2.43.0


From 5f90ee3b634f5e5f95308a04266395cf981f1f6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:40 +0000
Subject: [PATCH 46/63] fix: data race when log destinations are added or
 removed while other threads are logging

---
 src/utils/DefaultLogger.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/utils/DefaultLogger.cpp b/src/utils/DefaultLogger.cpp
index 4eb221d..6312414 100644
--- a/src/utils/DefaultLogger.cpp
+++ b/src/utils/DefaultLogger.cpp
@@ -69,6 +69,7 @@ void DefaultLogger::addFileDestination(const std::string& filePath, uint logLeve
     const size_t allocatedSize = std::ceil(sizeof(FileDestination) / float(GLOBAL_ALIGNMENT)) * GLOBAL_ALIGNMENT;
 
     FileDestination* destination = new (mAllocator.allocate(allocatedSize)) FileDestination(filePath, logLevelFlag, getFormatter(format));
+    std::lock_guard<std::mutex> lock(mMutex);
     mDestinations.add(destination);
 }
 
@@ -79,12 +80,15 @@ void DefaultLogger::addStreamDestination(std::ostream& outputStream, uint logLev
     const size_t allocatedSize = std::ceil(sizeof(StreamDestination) / float(GLOBAL_ALIGNMENT)) * GLOBAL_ALIGNMENT;
 
     StreamDestination* destination = new (mAllocator.allocate(allocatedSize)) StreamDestination(outputStream, logLevelFlag, getFormatter(format));
+    std::lock_guard<std::mutex> lock(mMutex);
     mDestinations.add(destination);
 }
 
 // Remove all logs destination previously set
 void DefaultLogger::removeAllDestinations() {
 
+    std::lock_guard<std::mutex> lock(mMutex);
+
     // Delete all the destinations
     for (uint32 i=0; i<mDestinations.size(); i++) {
 
-- 
2.43.0


From e592299d6c595b922006912356d60dc6104bf635 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:05 +0000
Subject: [PATCH 47/63] fix: assert fails when a log file cannot be opened

---
 include/reactphysics3d/utils/DefaultLogger.h | 2 --
 1 file changed, 2 deletions(-)

diff --git a/include/reactphysics3d/utils/DefaultLogger.h b/include/reactphysics3d/utils/DefaultLogger.h
index 1088d1e..17832db 100644
--- a/include/reactphysics3d/utils/DefaultLogger.h
+++ b/include/reactphysics3d/utils/DefaultLogger.h
@@ -404,8 +404,6 @@ class DefaultLogger : public Logger {
                    :Destination(maxLevelFlag, formatter), mFilePath(filePath),
                     mFileStream(filePath, std::ios::binary) {
 
-                    assert(mFileStream.is_open());
-
                     // Write the header
                     mFileStream << formatter->getHeader() << std::endl;
                 }
-- 
2.43.0


From 65ccd0511a4c11f09b3834ad7285c41973f30c22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:11 +0000
Subject: [PATCH 48/63] fix: the library keeps using the current logger after
 it has been destroyed

---
 src/engine/PhysicsCommon.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/engine/PhysicsCommon.cpp b/src/engine/PhysicsCommon.cpp
index fa536d6..78e14fd 100644
--- a/src/engine/PhysicsCommon.cpp
+++ b/src/engine/PhysicsCommon.cpp
@@ -799,6 +799,11 @@ void PhysicsCommon::destroyDefaultLogger(DefaultLogger* logger) {
  */
 void PhysicsCommon::deleteDefaultLogger(DefaultLogger* logger) {
 
+   // The destroyed logger must not be used anymore by the library
+   if (mLogger == logger) {
+       mLogger = nullptr;
+   }
+
    // Call the destructor of the logger
    logger->~DefaultLogger();
 
-- 
2.43.0


From f8ace68a5e7d932cac2d48c90d82a0100b178629 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:26 +0000
Subject: [PATCH 49/63] fix: the program is terminated when a logger with a
 failing destination is destroyed

---
 include/reactphysics3d/utils/DefaultLogger.h | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/include/reactphysics3d/utils/DefaultLogger.h b/include/reactphysics3d/utils/DefaultLogger.h
index 17832db..b06958b 100644
--- a/include/reactphysics3d/utils/DefaultLogger.h
+++ b/include/reactphysics3d/utils/DefaultLogger.h
@@ -411,8 +411,13 @@ class DefaultLogger : public Logger {
                 /// Destructor
                 virtual ~FileDestination() override {
 
-                    // Write the tail
-                    mFileStream << formatter->getTail() << std::endl;
+                    // Write the tail (a destructor must not throw)
+                    try {
+                        mFileStream << formatter->getTail() << std::endl;
+                    }
+                    catch (...) {
+
+                    }
 
                     if (mFileStream.is_open()) {
 
@@ -460,8 +465,13 @@ class DefaultLogger : public Logger {
                 /// Destructor
                 virtual ~StreamDestination() override {
 
-                    // Writer the tail
-                    mOutputStream << formatter->getTail() << std::endl;
+                    // Writer the tail (a destructor must not throw)
+                    try {
+                        mOutputStream << formatter->getTail() << std::endl;
+                    }
+                    catch (...) {
+
+                    }
                 }
 
                 /// Write a message into the output stream
-- 
2.43.0


From c96341ece263a7bb4849004542be7a15d1f0fb86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:31 +0000
Subject: [PATCH 50/63] fix: memory leak when a log destination that cannot be
 created throws

---
 src/utils/DefaultLogger.cpp | 26 ++++++++++++++++++++++++--
 1 file changed, 24 insertions(+), 2 deletions(-)

diff --git a/src/utils/DefaultLogger.cpp b/src/utils/DefaultLogger.cpp
index 6312414..5eb9253 100644
--- a/src/utils/DefaultLogger.cpp
+++ b/src/utils/DefaultLogger.cpp
@@ -68,7 +68,18 @@ void DefaultLogger::addFileDestination(const std::string& filePath, uint logLeve
     // Make sure capacity is an integral multiple of alignment
     const size_t allocatedSize = std::ceil(sizeof(FileDestination) / float(GLOBAL_ALIGNMENT)) * GLOBAL_ALIGNMENT;
 
-    FileDestination* destination = new (mAllocator.allocate(allocatedSize)) FileDestination(filePath, logLevelFlag, getFormatter(format));
+    void* allocatedMemory = mAllocator.allocate(allocatedSize);
+    FileDestination* destination = nullptr;
+    try {
+        destination = new (allocatedMemory) FileDestination(filePath, logLevelFlag, getFormatter(format));
+    }
+    catch (...) {
+
+        // The header could not be written
+        mAllocator.release(allocatedMemory, allocatedSize);
+        throw;
+    }
+
     std::lock_guard<std::mutex> lock(mMutex);
     mDestinations.add(destination);
 }
@@ -79,7 +90,18 @@ void DefaultLogger::addStreamDestination(std::ostream& outputStream, uint logLev
     // Make sure capacity is an integral multiple of alignment
     const size_t allocatedSize = std::ceil(sizeof(StreamDestination) / float(GLOBAL_ALIGNMENT)) * GLOBAL_ALIGNMENT;
 
-    StreamDestination* destination = new (mAllocator.allocate(allocatedSize)) StreamDestination(outputStream, logLevelFlag, getFormatter(format));
+    void* allocatedMemory = mAllocator.allocate(allocatedSize);
+    StreamDestination* destination = nullptr;
+    try {
+        destination = new (allocatedMemory) StreamDestination(outputStream, logLevelFlag, getFormatter(format));
+    }
+    catch (...) {
+
+        // The header could not be written
+        mAllocator.release(allocatedMemory, allocatedSize);
+        throw;
+    }
+
     std::lock_guard<std::mutex> lock(mMutex);
     mDestinations.add(destination);
 }
-- 
2.43.0


From e69d22ae70a9df30a268a6db21696f08599d6284 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:23 +0000
Subject: [PATCH 51/63] fix: a truncated message is logged when an allocation
 fails while the message is formatted

---
 include/reactphysics3d/utils/DefaultLogger.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/reactphysics3d/utils/DefaultLogger.h b/include/reactphysics3d/utils/DefaultLogger.h
index b06958b..5e546be 100644
--- a/include/reactphysics3d/utils/DefaultLogger.h
+++ b/include/reactphysics3d/utils/DefaultLogger.h
@@ -145,6 +145,9 @@ class DefaultLogger : public Logger {
                                            Level level, Category category, const char* filename, int lineNumber) override {
                     std::stringstream ss;
 
+                    // Do not return a truncated text if an allocation fails
+                    ss.exceptions(std::ios::badbit);
+
                     auto localTime = getLocalTime(time);
 
                     // Time
@@ -310,6 +313,9 @@ class DefaultLogger : public Logger {
 
                     std::stringstream ss;
 
+                    // Do not return a truncated text if an allocation fails
+                    ss.exceptions(std::ios::badbit);
+
                     auto localTime = getLocalTime(time);
 
                     ss << "<div class='line " + toLowerCase(getCategoryName(category)) + " " + toLowerCase(getLevelName(level)) + "'>";
-- 
2.43.0


From 87241fd990ffa173893072ba2834ec72d65b9bcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:34 +0000
Subject: [PATCH 52/63] fix: allocate the size of a HeightField, not of a
 TriangleMesh, for a height field

---
 src/engine/PhysicsCommon.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/engine/PhysicsCommon.cpp b/src/engine/PhysicsCommon.cpp
index 78e14fd..16cf3d2 100644
--- a/src/engine/PhysicsCommon.cpp
+++ b/src/engine/PhysicsCommon.cpp
@@ -484,7 +484,7 @@ HeightField* PhysicsCommon::createHeightField(int nbGridColumns, int nbGridRows,
                                               decimal integerHeightScale) {
 
     // Create the height-field
-    HeightField* heightField = new (mMemoryManager.allocate(MemoryManager::AllocationType::Pool, sizeof(TriangleMesh))) HeightField(mMemoryManager.getHeapAllocator(), mTriangleShapeHalfEdgeStructure);
+    HeightField* heightField = new (mMemoryManager.allocate(MemoryManager::AllocationType::Pool, sizeof(HeightField))) HeightField(mMemoryManager.getHeapAllocator(), mTriangleShapeHalfEdgeStructure);
 
     // Initialize the height-field
     bool isValid = heightField->init(nbGridColumns, nbGridRows, heightFieldData, dataType, messages,
-- 
2.43.0


From 0543901a1b493362926a7e2c81c335d1de253237 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:12 +0000
Subject: [PATCH 53/63] fix: reuse the empty slots of a Deque instead of
 growing its memory for ever

---
 include/reactphysics3d/containers/Deque.h | 41 +++++++++++++++++++++--
 1 file changed, 39 insertions(+), 2 deletions(-)

diff --git a/include/reactphysics3d/containers/Deque.h b/include/reactphysics3d/containers/Deque.h
index 2a7977b..908d751 100644
--- a/include/reactphysics3d/containers/Deque.h
+++ b/include/reactphysics3d/containers/Deque.h
@@ -120,6 +120,43 @@ class Deque {
             mFirstItemIndex = newStartIndex;
         }
 
+        /// Move the items to the middle of the allocated memory
+        void recenter() {
+
+            const uint64 newStartIndex = (mCapacity - mSize) / 2;
+
+            if (newStartIndex < mFirstItemIndex) {
+                for (uint64 i=0; i < mSize; i++) {
+                    moveItem(mFirstItemIndex + i, newStartIndex + i);
+                }
+            }
+            else if (newStartIndex > mFirstItemIndex) {
+                for (uint64 i=mSize; i > 0; i--) {
+                    moveItem(mFirstItemIndex + i - 1, newStartIndex + i - 1);
+                }
+            }
+
+            mFirstItemIndex = newStartIndex;
+        }
+
+        /// Move an item into an empty slot
+        void moveItem(uint64 sourceIndex, uint64 destinationIndex) {
+            new (static_cast<void*>(&(mBuffer[destinationIndex]))) T(mBuffer[sourceIndex]);
+            mBuffer[sourceIndex].~T();
+        }
+
+        /// Make sure that there is an empty slot before the first item and after the last item
+        void makeRoom() {
+
+            // If at least half of the slots are empty, we do not need to allocate more memory
+            if (mSize > 0 && mSize <= mCapacity / 2) {
+                recenter();
+            }
+            else {
+                reserve(mCapacity == 0 ? GLOBAL_ALIGNMENT : mCapacity * 2);
+            }
+        }
+
     public:
 
         /// Class Iterator
@@ -314,7 +351,7 @@ class Deque {
             // If we need to add the item in a another chunk
             if (mFirstItemIndex + mSize >= mCapacity) {
 
-                reserve(mCapacity == 0 ? GLOBAL_ALIGNMENT : mCapacity * 2);
+                makeRoom();
             }
 
             assert(mFirstItemIndex + mSize < mCapacity);
@@ -334,7 +371,7 @@ class Deque {
             // If we need to add the item in a another chunk
             if (mFirstItemIndex == 0) {
 
-                reserve(mCapacity == 0 ? GLOBAL_ALIGNMENT : mCapacity * 2);
+                makeRoom();
             }
 
             assert(mFirstItemIndex > 0);
-- 
2.43.0


From 126c684f8b5ebc13bd45d5f4bd9305f98f8d821a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:49 +0000
Subject: [PATCH 54/63] fix: a ray on the plane of an AABB face no longer
 misses what is inside the AABB

---
 .../reactphysics3d/collision/shapes/AABB.h    | 28 ++++++++++---------
 1 file changed, 15 insertions(+), 13 deletions(-)

diff --git a/include/reactphysics3d/collision/shapes/AABB.h b/include/reactphysics3d/collision/shapes/AABB.h
index e180706..a0e8944 100644
--- a/include/reactphysics3d/collision/shapes/AABB.h
+++ b/include/reactphysics3d/collision/shapes/AABB.h
@@ -289,29 +289,31 @@ RP3D_FORCE_INLINE bool AABB::testRayIntersect(const Vector3& rayOrigin, const Ve
     // t1 = -t2 = +- INFINITY. Since max(n, -INFINITY) = min(n, INFINITY) = n for all n, tMin and tMax will stay unchanged. Secondly, if the i
     // coordinate of the ray's origin is outside the box (rayOrigin[i] < mMinCoordinates[i] or rayOrigin[i] > mMaxCoordinates[i]) we have
     // t1 = t2 = +- INFINITY and therefore either tMin = +INFINITY or tMax = -INFINITY. One of those values will stay until the end and make the
-    // method to return false. Unfortunately, if the ray lies exactly on a slab (rayOrigin[i] = mMinCoordinates[i] or rayOrigin[i] = mMaxCoordinates[i]) we
-    // have t1 = (mMinCoordinates[i] - rayOrigin[i]) * rayDirectionInverse[i] = 0 * INFINITY = NaN which is a problem for the remaining of the algorithm.
-    // This will cause the method to return true when the ray is not intersecting the AABB and therefore cause to traverse more nodes than necessary in
-    // the BVH tree. Because this should be rare, it is not really a big issue.
+    // method to return false. If the ray is parallel to a slab and lies exactly on one of its two planes (rayOrigin[i] = mMinCoordinates[i] or
+    // rayOrigin[i] = mMaxCoordinates[i]), we would have t1 or t2 = 0 * INFINITY = NaN. In this case, the slab must not change tMin and tMax.
+    // Moreover, the AABB is enlarged by a small margin such that, with the rounding errors, a ray that hits something on the boundary of the
+    // AABB is not reported as not intersecting the AABB.
     // Reference: https://tavianator.com/2011/ray_box.html
 
-    decimal t1 = (mMinCoordinates[0] - rayOrigin[0]) * rayDirectionInverse[0];
-    decimal t2 = (mMaxCoordinates[0] - rayOrigin[0]) * rayDirectionInverse[0];
+    decimal tMin = decimal(0.0);
+    decimal tMax = rayMaxFraction;
+
+    for (int i = 0; i < 3; i++) {
 
-    decimal tMin = std::min(t1, t2);
-    decimal tMax = std::max(t1, t2);
-    tMax = std::min(tMax, rayMaxFraction);
+        const decimal maxCoordinate = std::max(std::abs(rayOrigin[i]), std::max(std::abs(mMinCoordinates[i]), std::abs(mMaxCoordinates[i])));
+        const decimal margin = decimal(8.0) * MACHINE_EPSILON * maxCoordinate;
 
-    for (int i = 1; i < 3; i++) {
+        const decimal t1 = (mMinCoordinates[i] - margin - rayOrigin[i]) * rayDirectionInverse[i];
+        const decimal t2 = (mMaxCoordinates[i] + margin - rayOrigin[i]) * rayDirectionInverse[i];
 
-        t1 = (mMinCoordinates[i] - rayOrigin[i]) * rayDirectionInverse[i];
-        t2 = (mMaxCoordinates[i] - rayOrigin[i]) * rayDirectionInverse[i];
+        // If the ray is parallel to the slab and lies exactly on one of its planes
+        if (t1 != t1 || t2 != t2) continue;
 
         tMin = std::max(tMin, std::min(t1, t2));
         tMax = std::min(tMax, std::max(t1, t2));
     }
 
-    return tMax >= std::max(tMin, decimal(0.0));
+    return tMax >= tMin;
 }
 
 // Compute the intersection of a ray and the AABB
-- 
2.43.0


From 57b7789d20fafa77ddab2a78e0b8b5aafa5bd6ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:55 +0000
Subject: [PATCH 55/63] fix: rays do not pass between two adjacent triangles
 anymore

---
 src/collision/shapes/TriangleShape.cpp | 28 ++++++++++++++++++++------
 1 file changed, 22 insertions(+), 6 deletions(-)

diff --git a/src/collision/shapes/TriangleShape.cpp b/src/collision/shapes/TriangleShape.cpp
index 448e377..05e7ad3 100644
--- a/src/collision/shapes/TriangleShape.cpp
+++ b/src/collision/shapes/TriangleShape.cpp
@@ -149,10 +149,26 @@ bool TriangleShape::raycast(const Ray& ray, RaycastInfo& raycastInfo, Collider*
     const Vector3 pb = mPoints[1] - ray.point1;
     const Vector3 pc = mPoints[2] - ray.point1;
 
-    // Test if the line PQ is inside the eges BC, CA and AB. We use the triple
-    // product for this test.
-    const Vector3 m = pq.cross(pc);
-    decimal u = pb.dot(m);
+    // Project the vertices of the triangle along the ray, onto the plane that is orthogonal to the largest
+    // component of the ray direction. A vertex that is shared by several triangles is projected at the same
+    // position for all of them. Therefore, a ray cannot pass between two adjacent triangles
+    // (see "Watertight Ray/Triangle Intersection" by Woop et al.)
+    const Vector3 absPQ = pq.getAbsoluteVector();
+    const int kz = absPQ.getMaxAxis();
+    if (absPQ[kz] == decimal(0.0)) return false;
+    const int kx = pq[kz] > decimal(0.0) ? (kz + 1) % 3 : (kz + 2) % 3;
+    const int ky = 3 - kz - kx;
+    const decimal sx = pq[kx] / pq[kz];
+    const decimal sy = pq[ky] / pq[kz];
+    const decimal ax = pa[kx] - sx * pa[kz];
+    const decimal ay = pa[ky] - sy * pa[kz];
+    const decimal bx = pb[kx] - sx * pb[kz];
+    const decimal by = pb[ky] - sy * pb[kz];
+    const decimal cx = pc[kx] - sx * pc[kz];
+    const decimal cy = pc[ky] - sy * pc[kz];
+
+    // Test if the line PQ is inside the eges BC, CA and AB
+    decimal u = cx * by - cy * bx;
     if (mRaycastTestType == TriangleRaycastSide::FRONT) {
         if (u < decimal(0.0)) return false;
     }
@@ -160,7 +176,7 @@ bool TriangleShape::raycast(const Ray& ray, RaycastInfo& raycastInfo, Collider*
         if (u > decimal(0.0)) return false;
     }
 
-    decimal v = -pa.dot(m);
+    decimal v = ax * cy - ay * cx;
     if (mRaycastTestType == TriangleRaycastSide::FRONT) {
         if (v < decimal(0.0)) return false;
     }
@@ -171,7 +187,7 @@ bool TriangleShape::raycast(const Ray& ray, RaycastInfo& raycastInfo, Collider*
         if (!sameSign(u, v)) return false;
     }
 
-    decimal w = pa.dot(pq.cross(pb));
+    decimal w = bx * ay - by * ax;
     if (mRaycastTestType == TriangleRaycastSide::FRONT) {
         if (w < decimal(0.0)) return false;
     }
-- 
2.43.0


From e68a5fce3caff39526cacd29dcbe53edf62cbb8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:23 +0000
Subject: [PATCH 56/63] fix: rays through the edges of the cells of a height
 field are not missed anymore

---
 .../reactphysics3d/collision/HeightField.h    |   4 +-
 src/collision/HeightField.cpp                 | 135 ++++++++----------
 2 files changed, 61 insertions(+), 78 deletions(-)

diff --git a/include/reactphysics3d/collision/HeightField.h b/include/reactphysics3d/collision/HeightField.h
index 6ba859f..5248463 100644
--- a/include/reactphysics3d/collision/HeightField.h
+++ b/include/reactphysics3d/collision/HeightField.h
@@ -132,8 +132,8 @@ class HeightField {
         /// Compute the shape Id for a given triangle
         uint32 computeTriangleShapeId(uint32 iIndex, uint32 jIndex, uint32 secondTriangleIncrement) const;
 
-        /// Compute the first grid cell of the heightfield intersected by a ray
-        bool computeEnteringRayGridCoordinates(const Ray& ray, int32& i, int32& j, Vector3& outHitPoint) const;
+        /// Compute the range of cells along an axis of the grid between two grid coordinates extended by a margin
+        void computeCellsRange(decimal coord1, decimal coord2, decimal margin, int32 nbCells, int32& first, int32& last) const;
 
         /// Use a callback method on all triangles of the concave shape inside a given AABB
         void computeOverlappingTriangles(const AABB& aabb, Array<Vector3>& triangleVertices,
diff --git a/src/collision/HeightField.cpp b/src/collision/HeightField.cpp
index 7bc516f..4177350 100644
--- a/src/collision/HeightField.cpp
+++ b/src/collision/HeightField.cpp
@@ -262,59 +262,66 @@ bool HeightField::raycast(const Ray& ray, RaycastInfo& raycastInfo, Collider* co
 
     bool isHit = false;
 
-    // Compute the grid coordinates where the ray is entering the AABB of the height field
-    int32 i, j;
-    Vector3 outHitGridPoint;
-    if (computeEnteringRayGridCoordinates(ray, i, j, outHitGridPoint)) {
-
-        const int32 nbCellsI = mNbColumns - 1;
-        const int32 nbCellsJ = mNbRows - 1;
-
-        const Vector3 aabbSize = mBounds.getExtent();
-
-        const Vector3 rayDirection = ray.point2 - ray.point1;
-
-        int32 stepI = rayDirection.x > 0 ? 1 : (rayDirection.x < 0 ? -1 : 0);
-        int32 stepJ = rayDirection.z > 0 ? 1 : (rayDirection.z < 0 ? -1 : 0);
-        decimal nextI = static_cast<decimal>(stepI >= 0 ? i + 1 : i);
-        decimal nextJ = static_cast<decimal>(stepJ >= 0 ? j + 1 : j);
-        decimal sizeI = aabbSize.x / nbCellsI;
-        decimal sizeJ = aabbSize.z / nbCellsJ;
-
-        // If the ray is parallel to an axis of the grid, it never reaches the next cell along this axis
-        decimal tMaxI = stepI != 0 ? ((nextI * sizeI) - outHitGridPoint.x) / rayDirection.x : DECIMAL_LARGEST;
-        decimal tMaxJ = stepJ != 0 ? ((nextJ * sizeJ) - outHitGridPoint.z) / rayDirection.z : DECIMAL_LARGEST;
-        decimal tDeltaI = sizeI / std::abs(rayDirection.x);
-        decimal tDeltaJ = sizeJ / std::abs(rayDirection.z);
-
-        decimal smallestHitFraction = ray.maxFraction;
+    const Vector3 rayDirection = ray.point2 - ray.point1;
+    const Vector3 rayDirectionInverse(decimal(1.0) / rayDirection.x, decimal(1.0) / rayDirection.y, decimal(1.0) / rayDirection.z);
+
+    // If the ray does not hit the AABB of the height-field
+    if (!mBounds.testRayIntersect(ray.point1, rayDirectionInverse, ray.maxFraction)) return false;
+
+    // Origin and direction of the ray in the grid (the side of a cell has a length of one)
+    const int32 nbCells[2] = {static_cast<int32>(mNbColumns) - 1, static_cast<int32>(mNbRows) - 1};
+    const decimal origin[2] = {ray.point1.x + mWidth * decimal(0.5), ray.point1.z + mLength * decimal(0.5)};
+    const decimal direction[2] = {rayDirection.x, rayDirection.z};
+
+    // With the rounding errors, a ray that passes through an edge or a vertex can be in any of the adjacent
+    // cells. Therefore, all the cells are extended by a small margin.
+    const decimal margin = decimal(0.01);
+
+    // Walk along the axis of the grid where the ray is moving the most
+    const int32 axis1 = std::abs(direction[0]) >= std::abs(direction[1]) ? 0 : 1;
+    const int32 axis2 = 1 - axis1;
+
+    int32 first1, last1;
+    computeCellsRange(origin[axis1], origin[axis1] + direction[axis1] * ray.maxFraction, margin, nbCells[axis1], first1, last1);
+
+    decimal smallestHitFraction = ray.maxFraction;
+
+    int32 cell[2];
+    for (cell[axis1] = first1; cell[axis1] <= last1; cell[axis1]++) {
+
+        // Compute the part of the ray that is inside this line of cells
+        decimal tMin = decimal(0.0);
+        decimal tMax = ray.maxFraction;
+        if (direction[axis1] != decimal(0.0)) {
+            const decimal t1 = (static_cast<decimal>(cell[axis1]) - margin - origin[axis1]) / direction[axis1];
+            const decimal t2 = (static_cast<decimal>(cell[axis1] + 1) + margin - origin[axis1]) / direction[axis1];
+            tMin = std::max(tMin, std::min(t1, t2));
+            tMax = std::min(tMax, std::max(t1, t2));
+            if (tMin > tMax) continue;
+        }
 
-        while (i >= 0 && i < nbCellsI && j >= 0 && j < nbCellsJ) {
+        int32 first2, last2;
+        computeCellsRange(origin[axis2] + direction[axis2] * tMin, origin[axis2] + direction[axis2] * tMax, margin, nbCells[axis2],
+                          first2, last2);
 
-           // Compute the four point of the current quad
-           const Vector3 p1 = getVertexAt(i, j);
-           const Vector3 p2 = getVertexAt(i, j + 1);
-           const Vector3 p3 = getVertexAt(i + 1, j);
-           const Vector3 p4 = getVertexAt(i + 1, j + 1);
+        for (cell[axis2] = first2; cell[axis2] <= last2; cell[axis2]++) {
 
-           // Raycast against the first triangle of the cell
-           uint32 shapeId = computeTriangleShapeId(i, j, 0);
-           isHit |= raycastTriangle(ray, p1, p2, p3, shapeId, collider, raycastInfo, smallestHitFraction, testSide, allocator);
+            const int32 i = cell[0];
+            const int32 j = cell[1];
 
-           // Raycast against the second triangle of the cell
-           shapeId = computeTriangleShapeId(i, j, 1);
-           isHit |= raycastTriangle(ray, p3, p2, p4, shapeId, collider, raycastInfo, smallestHitFraction, testSide, allocator);
+            // Compute the four point of the current quad
+            const Vector3 p1 = getVertexAt(i, j);
+            const Vector3 p2 = getVertexAt(i, j + 1);
+            const Vector3 p3 = getVertexAt(i + 1, j);
+            const Vector3 p4 = getVertexAt(i + 1, j + 1);
 
-           if (stepI == 0 && stepJ == 0) break;
+            // Raycast against the first triangle of the cell
+            uint32 shapeId = computeTriangleShapeId(i, j, 0);
+            isHit |= raycastTriangle(ray, p1, p2, p3, shapeId, collider, raycastInfo, smallestHitFraction, testSide, allocator);
 
-           if (tMaxI < tMaxJ) {
-                tMaxI += tDeltaI;
-                i += stepI;
-            }
-            else {
-                tMaxJ += tDeltaJ;
-                j += stepJ;
-            }
+            // Raycast against the second triangle of the cell
+            shapeId = computeTriangleShapeId(i, j, 1);
+            isHit |= raycastTriangle(ray, p3, p2, p4, shapeId, collider, raycastInfo, smallestHitFraction, testSide, allocator);
         }
     }
 
@@ -365,36 +372,12 @@ bool HeightField::raycastTriangle(const Ray& ray, const Vector3& p1, const Vecto
     return false;
 }
 
-// Compute the first grid cell of the heightfield intersected by a ray.
-/// This method returns true if the ray hit the AABB of the height field and false otherwise
-bool HeightField::computeEnteringRayGridCoordinates(const Ray& ray, int32& i, int32& j, Vector3& outHitGridPoint) const {
-
-    decimal stepI, stepJ;
-    const Vector3 aabbSize = mBounds.getExtent();
+// Compute the range of cells along an axis of the grid between two grid coordinates extended by a margin
+void HeightField::computeCellsRange(decimal coord1, decimal coord2, decimal margin, int32 nbCells, int32& first, int32& last) const {
 
-    assert(mNbColumns > 0);
-    assert(mNbRows > 0);
-
-    const int32 nbCellsI = mNbColumns - 1;
-    const int32 nbCellsJ = mNbRows - 1;
-
-    if (mBounds.raycast(ray, outHitGridPoint)) {
-
-        // Map the hit point into the grid range [0, mNbColumns - 1], [0, mNbRows - 1]
-        outHitGridPoint -= mBounds.getMin();
-
-        stepI = aabbSize.x / nbCellsI;
-        stepJ = aabbSize.z / nbCellsJ;
-        i = clamp(int(outHitGridPoint.x / stepI), 0, nbCellsI - 1);
-        j = clamp(int(outHitGridPoint.z / stepJ), 0, nbCellsJ - 1);
-
-        assert(i >= 0 && i < nbCellsI);
-        assert(i >= 0 && j < nbCellsJ);
-
-        return true;
-    }
-
-    return false;
+    const decimal maxCell = static_cast<decimal>(nbCells - 1);
+    first = static_cast<int32>(clamp(std::floor(std::min(coord1, coord2) - margin), decimal(0.0), maxCell));
+    last = static_cast<int32>(clamp(std::floor(std::max(coord1, coord2) + margin), decimal(0.0), maxCell));
 }
 
 // Return the vertex (local-coordinates) of the height field at a given (x,y) position
-- 
2.43.0


From a2e0fbcea35640adecdd713464c14c00a413f2d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:29 +0000
Subject: [PATCH 57/63] fix: a slider joint with Baumgarte correction does not
 disable the position correction of the next slider joints

---
 src/systems/SolveSliderJointSystem.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/systems/SolveSliderJointSystem.cpp b/src/systems/SolveSliderJointSystem.cpp
index 7757c25..a391a94 100644
--- a/src/systems/SolveSliderJointSystem.cpp
+++ b/src/systems/SolveSliderJointSystem.cpp
@@ -536,7 +536,7 @@ void SolveSliderJointSystem::solvePositionConstraint() {
 
         // If the error position correction technique is not the non-linear-gauss-seidel, we do
         // do not execute this method
-        if (mJointComponents.mPositionCorrectionTechniques[jointIndex] != JointsPositionCorrectionTechnique::NON_LINEAR_GAUSS_SEIDEL) return;
+        if (mJointComponents.mPositionCorrectionTechniques[jointIndex] != JointsPositionCorrectionTechnique::NON_LINEAR_GAUSS_SEIDEL) continue;
 
         // Get the bodies entities
         const Entity body1Entity = mJointComponents.mBody1Entities[jointIndex];
-- 
2.43.0


From 38581bc2bb0421c02d0fd387fb19ea9ee2383a64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:42 +0000
Subject: [PATCH 58/63] fix: the lever arms of all the slider joints are kept
 when their component arrays grow

---
 src/components/SliderJointComponents.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/components/SliderJointComponents.cpp b/src/components/SliderJointComponents.cpp
index 9f8787f..3d73cac 100644
--- a/src/components/SliderJointComponents.cpp
+++ b/src/components/SliderJointComponents.cpp
@@ -185,12 +185,12 @@ void SliderJointComponents::allocate(uint32 nbComponentsToAllocate) {
         memcpy(newIsUpperLimitViolated, mIsUpperLimitViolated, mNbComponents * sizeof(bool));
         memcpy(newMotorSpeed, mMotorSpeed, mNbComponents * sizeof(decimal));
         memcpy(newMaxMotorForce, mMaxMotorForce, mNbComponents * sizeof(decimal));
-        memcpy(newR2CrossN1, mR2CrossN1, mNbComponents * sizeof(decimal));
-        memcpy(newR2CrossN2, mR2CrossN2, mNbComponents * sizeof(decimal));
-        memcpy(newR2CrossSliderAxis, mR2CrossSliderAxis, mNbComponents * sizeof(decimal));
-        memcpy(newR1PlusUCrossN1, mR1PlusUCrossN1, mNbComponents * sizeof(decimal));
-        memcpy(newR1PlusUCrossN2, mR1PlusUCrossN2, mNbComponents * sizeof(decimal));
-        memcpy(newR1PlusUCrossSliderAxis, mR1PlusUCrossSliderAxis, mNbComponents * sizeof(decimal));
+        memcpy(newR2CrossN1, mR2CrossN1, mNbComponents * sizeof(Vector3));
+        memcpy(newR2CrossN2, mR2CrossN2, mNbComponents * sizeof(Vector3));
+        memcpy(newR2CrossSliderAxis, mR2CrossSliderAxis, mNbComponents * sizeof(Vector3));
+        memcpy(newR1PlusUCrossN1, mR1PlusUCrossN1, mNbComponents * sizeof(Vector3));
+        memcpy(newR1PlusUCrossN2, mR1PlusUCrossN2, mNbComponents * sizeof(Vector3));
+        memcpy(newR1PlusUCrossSliderAxis, mR1PlusUCrossSliderAxis, mNbComponents * sizeof(Vector3));
 
         // Deallocate previous memory
         mMemoryAllocator.release(mBuffer, mNbAllocatedComponents * mComponentDataSize);
-- 
2.43.0


From dcc1a3ffcf5646fac4e59ac9cb25c8a2aad24544 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:04 +0000
Subject: [PATCH 59/63] fix: the mass of the limits of a slider joint is
 computed with the lever arm of the current step

---
 src/systems/SolveSliderJointSystem.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/systems/SolveSliderJointSystem.cpp b/src/systems/SolveSliderJointSystem.cpp
index a391a94..c1d75a3 100644
--- a/src/systems/SolveSliderJointSystem.cpp
+++ b/src/systems/SolveSliderJointSystem.cpp
@@ -97,6 +97,7 @@ void SolveSliderJointSystem::initBeforeSolve() {
         mSliderJointComponents.mR1PlusUCrossN1[i] = r1PlusU.cross(mSliderJointComponents.mN1[i]);
         mSliderJointComponents.mR1PlusUCrossN2[i] = r1PlusU.cross(mSliderJointComponents.mN2[i]);
         mSliderJointComponents.mR1PlusUCrossSliderAxis[i] = r1PlusU.cross(mSliderJointComponents.mSliderAxisWorld[i]);
+        mSliderJointComponents.mR2CrossSliderAxis[i] = mSliderJointComponents.mR2[i].cross(mSliderJointComponents.mSliderAxisWorld[i]);
 
         // Check if the limit constraints are violated or not
         decimal uDotSliderAxis = u.dot(mSliderJointComponents.mSliderAxisWorld[i]);
@@ -155,7 +156,6 @@ void SolveSliderJointSystem::initBeforeSolve() {
         // Compute the cross products used in the Jacobians
         mSliderJointComponents.mR2CrossN1[i] = mSliderJointComponents.mR2[i].cross(mSliderJointComponents.mN1[i]);
         mSliderJointComponents.mR2CrossN2[i] = mSliderJointComponents.mR2[i].cross(mSliderJointComponents.mN2[i]);
-        mSliderJointComponents.mR2CrossSliderAxis[i] = mSliderJointComponents.mR2[i].cross(mSliderJointComponents.mSliderAxisWorld[i]);
 
         const Vector3& r2CrossN1 = mSliderJointComponents.mR2CrossN1[i];
         const Vector3& r2CrossN2 = mSliderJointComponents.mR2CrossN2[i];
-- 
2.43.0


From 25f04cb791013d7cdf9bd9f896b18e107aaa52bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:32 +0000
Subject: [PATCH 60/63] fix: a body that becomes static or falls asleep does
 not drag what it touches with its former velocity

---
 src/body/RigidBody.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/body/RigidBody.cpp b/src/body/RigidBody.cpp
index 51b1eb1..e4fcbc1 100644
--- a/src/body/RigidBody.cpp
+++ b/src/body/RigidBody.cpp
@@ -75,6 +75,8 @@ void RigidBody::setType(BodyType type) {
         // Reset the velocity to zero
         mWorld.mRigidBodyComponents.setLinearVelocity(mEntity, Vector3::zero());
         mWorld.mRigidBodyComponents.setAngularVelocity(mEntity, Vector3::zero());
+        mWorld.mRigidBodyComponents.setConstrainedLinearVelocity(mEntity, Vector3::zero());
+        mWorld.mRigidBodyComponents.setConstrainedAngularVelocity(mEntity, Vector3::zero());
 
         const Transform& transform = getTransform();
         mWorld.mRigidBodyComponents.setConstrainedPosition(mEntity, mWorld.mRigidBodyComponents.getCenterOfMassWorld(mEntity));
@@ -1065,6 +1067,8 @@ void RigidBody::setIsSleeping(bool isSleeping) {
 
         mWorld.mRigidBodyComponents.setLinearVelocity(mEntity, Vector3::zero());
         mWorld.mRigidBodyComponents.setAngularVelocity(mEntity, Vector3::zero());
+        mWorld.mRigidBodyComponents.setConstrainedLinearVelocity(mEntity, Vector3::zero());
+        mWorld.mRigidBodyComponents.setConstrainedAngularVelocity(mEntity, Vector3::zero());
         mWorld.mRigidBodyComponents.setExternalForce(mEntity, Vector3::zero());
         mWorld.mRigidBodyComponents.setExternalTorque(mEntity, Vector3::zero());
     }
-- 
2.43.0


From 1dac6a66e10e47e05dcde68a3cce179b7f95d281 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:43 +0000
Subject: [PATCH 61/63] fix: a sleeping body is awake again when a body that it
 was touching has left it

---
 src/engine/PhysicsWorld.cpp              | 12 ++++++++++++
 src/systems/CollisionDetectionSystem.cpp |  6 +++---
 2 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/engine/PhysicsWorld.cpp b/src/engine/PhysicsWorld.cpp
index 12c2274..3a469ea 100644
--- a/src/engine/PhysicsWorld.cpp
+++ b/src/engine/PhysicsWorld.cpp
@@ -717,6 +717,18 @@ void PhysicsWorld::createIslands() {
 
     assert(mProcessContactPairsOrderIslands.size() == 0);
 
+    // Awake the sleeping bodies that are not in contact anymore with a body that they were touching (it might have been supporting them)
+    const Array<ContactPair>& lostContactPairs = mCollisionDetection.mLostContactPairs;
+    for (uint64 i=0; i < lostContactPairs.size(); i++) {
+
+        if (!lostContactPairs[i].isTrigger && mCollidersComponents.getIsSimulationCollider(lostContactPairs[i].collider1Entity) &&
+            mCollidersComponents.getIsSimulationCollider(lostContactPairs[i].collider2Entity)) {
+
+            mRigidBodyComponents.getRigidBody(lostContactPairs[i].body1Entity)->setIsSleeping(false);
+            mRigidBodyComponents.getRigidBody(lostContactPairs[i].body2Entity)->setIsSleeping(false);
+        }
+    }
+
     // Reset all the isAlreadyInIsland variables of bodies and joints
     const uint32 nbRigidBodyComponents = mRigidBodyComponents.getNbComponents();
     for (uint32 b=0; b < nbRigidBodyComponents; b++) {
diff --git a/src/systems/CollisionDetectionSystem.cpp b/src/systems/CollisionDetectionSystem.cpp
index b0a95f3..0060ad8 100644
--- a/src/systems/CollisionDetectionSystem.cpp
+++ b/src/systems/CollisionDetectionSystem.cpp
@@ -97,6 +97,9 @@ void CollisionDetectionSystem::computeCollisionDetection() {
     
     // Compute the narrow-phase collision detection
     computeNarrowPhase();
+
+    // Compute the lost contacts (contact pairs that were colliding in previous frame but not in this one)
+    computeLostContactPairs();
 }
 
 // Compute the broad-phase collision detection
@@ -1024,9 +1027,6 @@ void CollisionDetectionSystem::createContacts() {
     // Initialize the current contacts with the contacts from the previous frame (for warmstarting)
     initContactsWithPreviousOnes();
 
-    // Compute the lost contacts (contact pairs that were colliding in previous frame but not in this one)
-    computeLostContactPairs();
-
     mPreviousContactPoints->clear();
     mPreviousContactManifolds->clear();
     mPreviousContactPairs->clear();
-- 
2.43.0


From aa9a5894c6556a3524a13363790e0ab8e9ea1a4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:56 +0000
Subject: [PATCH 62/63] fix: draw every face of a convex mesh completely in the
 debug renderer

---
 src/utils/DebugRenderer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utils/DebugRenderer.cpp b/src/utils/DebugRenderer.cpp
index cc32900..4ab2d57 100644
--- a/src/utils/DebugRenderer.cpp
+++ b/src/utils/DebugRenderer.cpp
@@ -314,7 +314,7 @@ void DebugRenderer::drawConvexMesh(const Transform& transform, const ConvexMeshS
         const uint32 nbFaceVertices = static_cast<uint32>(face.faceVertices.size());
         for (uint32 v = 2; v < nbFaceVertices; v++) {
 
-            uint32 v1Index = face.faceVertices[v - 2];
+            uint32 v1Index = face.faceVertices[0];
             uint32 v2Index = face.faceVertices[v - 1];
             uint32 v3Index = face.faceVertices[v];
 
-- 
2.43.0


From 562121af45e8fbf6b37f5ffddfd980d9a09e7b53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:01 +0000
Subject: [PATCH 63/63] fix: do not draw spheres and capsules when only the
 shape normals are displayed

---
 src/utils/DebugRenderer.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/utils/DebugRenderer.cpp b/src/utils/DebugRenderer.cpp
index 4ab2d57..7a48737 100644
--- a/src/utils/DebugRenderer.cpp
+++ b/src/utils/DebugRenderer.cpp
@@ -444,13 +444,17 @@ void DebugRenderer::drawCollisionShapeOfCollider(const Collider* collider) {
         case CollisionShapeName::SPHERE:
         {
             const SphereShape* sphereShape = static_cast<const SphereShape*>(collider->getCollisionShape());
-            drawSphere(collider->getLocalToWorldTransform().getPosition(), sphereShape->getRadius(), colorShape);
+            if (getIsDebugItemDisplayed(DebugItem::COLLISION_SHAPE)) {
+                drawSphere(collider->getLocalToWorldTransform().getPosition(), sphereShape->getRadius(), colorShape);
+            }
             break;
         }
         case CollisionShapeName::CAPSULE:
         {
             const CapsuleShape* capsuleShape = static_cast<const CapsuleShape*>(collider->getCollisionShape());
-            drawCapsule(collider->getLocalToWorldTransform(), capsuleShape->getRadius(), capsuleShape->getHeight(), colorShape);
+            if (getIsDebugItemDisplayed(DebugItem::COLLISION_SHAPE)) {
+                drawCapsule(collider->getLocalToWorldTransform(), capsuleShape->getRadius(), capsuleShape->getHeight(), colorShape);
+            }
             break;
         }
         case CollisionShapeName::CONVEX_MESH:
-- 
2.43.0

