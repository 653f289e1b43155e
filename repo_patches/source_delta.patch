From 994060be4ceb943c1ca09657eeb6f0dbe7922963 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 21:56:36 +0000
Subject: [PATCH 01/32] fix: compare interval bounds directly so that touching
 intervals always overlap

---
 include/Simu/math/Interval.hpp | 19 +++----------------
 1 file changed, 3 insertions(+), 16 deletions(-)

diff --git a/include/Simu/math/Interval.hpp b/include/Simu/math/Interval.hpp
index fdcb49d..823cc09 100644
--- a/include/Simu/math/Interval.hpp
+++ b/include/Simu/math/Interval.hpp
@@ -55,22 +55,9 @@ public:
 
     auto overlaps(const Interval& other) const
     {
-        // divisions by 2 can be factorised out and removed from both sides.
-        // Geometrical interpretation is easier with:
-        //
-        // span = (max - min)/2 + (other.max - other.min)/2
-        //      is the sum of half widths
-        //
-        // dist = std::abs((max_ + min_)/2 - (other.max_ + other.min_)/2)
-        //      is the absolute distance between midpoints.
-        //
-        // we have intersection if
-        // dist <= span, or equivalently if 2*dist <= 2*span to remove divisions
-
-        T span = (max_ - min_) + (other.max_ - other.min_);
-        T dist = std::abs((max_ + min_) - (other.max_ + other.min_));
-
-        return dist <= span;
+        // comparing bounds directly involves no arithmetic, hence no rounding
+        // and no overflow.
+        return min_ <= other.max_ && other.min_ <= max_;
     }
 
 private:
-- 
2.43.0


From 43bf20e3dff6950ee87bac46f31eea7e242056c6 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 21:56:50 +0000
Subject: [PATCH 02/32] fix: a bounding box of no vertices is invalid instead
 of uninitialized

---
 include/Simu/physics/BoundingBox.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/Simu/physics/BoundingBox.hpp b/include/Simu/physics/BoundingBox.hpp
index 391be1a..4ceb808 100644
--- a/include/Simu/physics/BoundingBox.hpp
+++ b/include/Simu/physics/BoundingBox.hpp
@@ -128,7 +128,7 @@ private:
 
 
 template <VertexIterator2D It>
-BoundingBox::BoundingBox(It begin, It end)
+BoundingBox::BoundingBox(It begin, It end) : BoundingBox{}
 {
     if (begin == end)
         return;
-- 
2.43.0


From ae11052f600a97efc9685df2cd6284437753308a Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 22:28:28 +0000
Subject: [PATCH 03/32] fix: element-wise <= and >= on matrices follow the
 scalar comparison for unordered values

---
 include/Simu/math/Matrix.inl.hpp | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/include/Simu/math/Matrix.inl.hpp b/include/Simu/math/Matrix.inl.hpp
index b152174..ade9bbf 100644
--- a/include/Simu/math/Matrix.inl.hpp
+++ b/include/Simu/math/Matrix.inl.hpp
@@ -685,7 +685,13 @@ template <class T, class U, Uint32 m, Uint32 n>
 ComparisonMatrix<m, n>
 operator<=(const Matrix<T, m, n>& lhs, const Matrix<U, m, n>& rhs)
 {
-    return !(lhs > rhs);
+    ComparisonMatrix<m, n> res;
+    for (Uint32 i = 0; i < lhs.size(); ++i)
+    {
+        res[i] = lhs[i] <= rhs[i];
+    }
+
+    return res;
 }
 
 template <class T, class U, Uint32 m, Uint32 n>
@@ -705,7 +711,13 @@ template <class T, class U, Uint32 m, Uint32 n>
 ComparisonMatrix<m, n>
 operator>=(const Matrix<T, m, n>& lhs, const Matrix<U, m, n>& rhs)
 {
-    return !(lhs < rhs);
+    ComparisonMatrix<m, n> res;
+    for (Uint32 i = 0; i < lhs.size(); ++i)
+    {
+        res[i] = lhs[i] >= rhs[i];
+    }
+
+    return res;
 }
 
 template <Uint32 m, Uint32 n>
-- 
2.43.0


From e6359a1188c56cc96e69bf548a0663837e06d2aa Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 22:50:10 +0000
Subject: [PATCH 04/32] fix: closest point on a triangle with coincident
 vertices ignores the null edge

---
 src/Simu/math/BarycentricCoordinates.cpp | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/Simu/math/BarycentricCoordinates.cpp b/src/Simu/math/BarycentricCoordinates.cpp
index 3537c27..5a51cce 100644
--- a/src/Simu/math/BarycentricCoordinates.cpp
+++ b/src/Simu/math/BarycentricCoordinates.cpp
@@ -53,12 +53,22 @@ TriangleBarycentric::TriangleBarycentric(Vec2 A, Vec2 B, Vec2 C, Vec2 Q)
         closestPoint = C;
     else // edge regions
     {
-        if ((u <= 0) && (BC.u >= 0) && (BC.v >= 0))
+        bool inBC = (u <= 0) && (BC.u >= 0) && (BC.v >= 0);
+        bool inCA = (v <= 0) && (CA.u >= 0) && (CA.v >= 0);
+        bool inAB = (w <= 0) && (AB.u >= 0) && (AB.v >= 0);
+
+        // an edge of null length is only a vertex of the other two edges, which
+        //  must be considered first.
+        if (inBC && any(B != C))
             closestPoint = BC.closestPoint;
-        else if ((v <= 0) && (CA.u >= 0) && (CA.v >= 0))
+        else if (inCA && any(C != A))
             closestPoint = CA.closestPoint;
-        else if ((w <= 0) && (AB.u >= 0) && (AB.v >= 0))
+        else if (inAB)
             closestPoint = AB.closestPoint;
+        else if (inBC)
+            closestPoint = BC.closestPoint;
+        else if (inCA)
+            closestPoint = CA.closestPoint;
         else // interior region
         {
             if ((u >= 0) && (v >= 0) && (w >= 0))
-- 
2.43.0


From 3a9775de7bacb849a5c3d9d578851422e09032f9 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 00:37:47 +0000
Subject: [PATCH 05/32] fix: separation of polygons searches until the distance
 is minimal

---
 include/Simu/math/Gjk.inl.hpp | 43 ++++++++++++++++-------------------
 1 file changed, 20 insertions(+), 23 deletions(-)

diff --git a/include/Simu/math/Gjk.inl.hpp b/include/Simu/math/Gjk.inl.hpp
index 9d18d5a..a7f9ca7 100644
--- a/include/Simu/math/Gjk.inl.hpp
+++ b/include/Simu/math/Gjk.inl.hpp
@@ -205,34 +205,31 @@ Vec2 Gjk<T>::separation()
     if (areColliding())
         return Vec2{};
 
-    while (true)
+    // Closest edge to the origin that is known, initially a single vertex. The
+    // furthest vertex towards the origin replaces one of its ends until the
+    // distance to the origin does not decrease.
+    Vertex from    = simplex_.pointStack[0];
+    Vertex to      = from;
+    Vec2   closest = from;
+
+    while (any(closest != Vec2{0.f, 0.f}))
     {
-        Vec2   dir = simplex_.nextDirection();
-        Vertex v   = furthestVertexInDirection(dir);
+        Vertex v = furthestVertexInDirection(-closest);
+
+        Vec2 fromSide = LineBarycentric{from, v, Vec2{0, 0}}.closestPoint;
+        Vec2 toSide   = LineBarycentric{v, to, Vec2{0, 0}}.closestPoint;
+
+        bool fromSideIsCloser = normSquared(fromSide) < normSquared(toSide);
+        Vec2 next             = fromSideIsCloser ? fromSide : toSide;
 
-        if (simplex_.hasPoint(v))
+        if (normSquared(next) >= normSquared(closest))
             break;
-        else
-            simplex_.pushPoint(v);
-    }
 
-    switch (simplex_.nIterations)
-    {
-        case 1: return -simplex_.pointStack[0];
-        case 2:
-            return -LineBarycentric{
-                simplex_.pointStack[0], simplex_.pointStack[1], Vec2{0, 0}
-            }
-                        .closestPoint;
-        default:
-            return -TriangleBarycentric{
-                simplex_.pointStack[0],
-                simplex_.pointStack[1],
-                simplex_.pointStack[2],
-                Vec2{0.f, 0.f}
-            }
-                        .closestPoint;
+        (fromSideIsCloser ? to : from) = v;
+        closest                        = next;
     }
+
+    return -closest;
 }
 
 template <Geometry T>
-- 
2.43.0


From c714ad013c940dddc27c4af91f7c6f0fee4282ce Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 00:38:39 +0000
Subject: [PATCH 06/32] fix: penetration of polygons that only touch does not
 start from a degenerate polytope

---
 include/Simu/math/Gjk.inl.hpp | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/include/Simu/math/Gjk.inl.hpp b/include/Simu/math/Gjk.inl.hpp
index a7f9ca7..b18a624 100644
--- a/include/Simu/math/Gjk.inl.hpp
+++ b/include/Simu/math/Gjk.inl.hpp
@@ -127,11 +127,27 @@ Polytope::Polytope(const Simplex& simplex)
     Vertex second = simplex.pointStack[1];
     Vertex third  = simplex.pointStack[2];
 
+    Orientation o = orientation(first, second, third, 0.f);
+
+    // collinear vertices, some of them possibly equal, only make a segment:
+    //  the vertex that lies between the other two is left out.
+    if (o == Orientation::collinear)
+    {
+        if (dot(first - second, third - second) <= 0.f)
+            vertices = {first, third};
+        else if (dot(second - first, third - first) <= 0.f)
+            vertices = {second, third};
+        else
+            vertices = {first, second};
+
+        return;
+    }
+
     vertices.emplace_back(first);
     vertices.emplace_back(second);
     vertices.emplace_back(third);
 
-    if (orientation(first, second, third, 0.f) == Orientation::negative)
+    if (o == Orientation::negative)
         std::reverse(vertices.begin(), vertices.end());
 }
 
-- 
2.43.0


From 494eb36bce86bce89bc857c57e2e5ed353e628f0 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 01:11:41 +0000
Subject: [PATCH 07/32] fix: moving an R-tree leaves an empty tree instead of
 an uninitialized one

---
 include/Simu/physics/RTree.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/Simu/physics/RTree.hpp b/include/Simu/physics/RTree.hpp
index 5f70f3a..04a84f8 100644
--- a/include/Simu/physics/RTree.hpp
+++ b/include/Simu/physics/RTree.hpp
@@ -76,7 +76,10 @@ public:
     RTree(const RTree& other)            = delete;
     RTree& operator=(const RTree& other) = delete;
 
-    RTree(RTree&& other) noexcept { *this = std::move(other); }
+    RTree(RTree&& other) noexcept : RTree{other.alloc_}
+    {
+        *this = std::move(other);
+    }
     RTree& operator=(RTree&& other) noexcept
     {
         std::swap(alloc_, other.alloc_);
-- 
2.43.0


From a68b9fd9ecae526e54c2ec67208309db47b8cfe2 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 02:17:29 +0000
Subject: [PATCH 08/32] fix: adding or removing a collider of a rotated body
 does not move its geometry

The local centroid is the point that the body's geometry rotates around:
changing it moved all of the geometry of a body whose orientation is not null.
---
 include/Simu/physics/Body.hpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/include/Simu/physics/Body.hpp b/include/Simu/physics/Body.hpp
index e8fd43c..bec9b67 100644
--- a/include/Simu/physics/Body.hpp
+++ b/include/Simu/physics/Body.hpp
@@ -182,7 +182,14 @@ public:
 
     Transform toLocalSpace() const { return toWorldSpace().inverse(); }
 
-    void setLocalCentroid(Vec2 c) { localCentroid_.set(c); }
+    // does not move anything in world space: local space rotates around another
+    //  point, which the translation makes up for.
+    void setLocalCentroid(Vec2 c)
+    {
+        Vec2 offset = localCentroid() - c;
+        pos_ *= Translation{offset - orientation_ * offset};
+        localCentroid_.set(c);
+    }
 
 private:
 
-- 
2.43.0


From e2aac1b5523e17aab3dcb24380cc3bd444deacac Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 02:17:46 +0000
Subject: [PATCH 09/32] fix: the center of mass keeps its material velocity
 when colliders are added or removed

The correction was computed before the centroid moved, so it was always null.
---
 src/Simu/physics/Body.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Simu/physics/Body.cpp b/src/Simu/physics/Body.cpp
index 8760ceb..4d3ada5 100644
--- a/src/Simu/physics/Body.cpp
+++ b/src/Simu/physics/Body.cpp
@@ -52,9 +52,9 @@ Collider* Body::addCollider(const ColliderDescriptor& descriptor)
     // see removeCollider.
     // Here we assume the new collider has the Body's velocity, ignoring
     //  conservation of momentums.
+    position_.setLocalCentroid(colliders_.properties().centroid);
     Vec2 dvAtCentroid = angularVelocity() * perp(centroid() - oldCentroid);
     setVelocity(velocity() + dvAtCentroid);
-    position_.setLocalCentroid(colliders_.properties().centroid);
 
     update();
     world_->addCollider(c);
@@ -75,9 +75,9 @@ void Body::removeCollider(Collider* collider)
     //  of the Body's momentum.
     //  => velocities don't change for the Body, except at the center of mass
 
+    position_.setLocalCentroid(colliders_.properties().centroid);
     Vec2 dvAtCentroid = angularVelocity() * perp(centroid() - oldCentroid);
     setVelocity(velocity() + dvAtCentroid);
-    position_.setLocalCentroid(colliders_.properties().centroid);
 
     update();
 }
-- 
2.43.0


From b81dd5c087294f14a62d0f23d4906a7d416f33ff Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 02:21:42 +0000
Subject: [PATCH 10/32] fix: destroying a body does not read its colliders
 after they are released

---
 include/Simu/physics/Body.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/Simu/physics/Body.hpp b/include/Simu/physics/Body.hpp
index bec9b67..86c85f5 100644
--- a/include/Simu/physics/Body.hpp
+++ b/include/Simu/physics/Body.hpp
@@ -223,8 +223,8 @@ public:
 
     ~Body() override
     {
-        for (Collider& c : colliders_.colliders_)
-            removeCollider(&c);
+        while (!colliders_.isEmpty())
+            removeCollider(&colliders_.colliders_.front());
     }
 
     Collider* addCollider(const ColliderDescriptor& descriptor);
-- 
2.43.0


From 0a51458ca58051b66fdcd01348864f16decbad6c Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 02:31:02 +0000
Subject: [PATCH 11/32] fix: a distance constraint accepts a minimal distance
 without a maximal one

---
 include/Simu/physics/DistanceConstraint.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/Simu/physics/DistanceConstraint.hpp b/include/Simu/physics/DistanceConstraint.hpp
index 024aec0..d4b9f50 100644
--- a/include/Simu/physics/DistanceConstraint.hpp
+++ b/include/Simu/physics/DistanceConstraint.hpp
@@ -152,7 +152,7 @@ public:
         );
 
         SIMU_ASSERT(
-            maxDistance > 0.f,
+            !maxDistance.has_value() || maxDistance.value() > 0.f,
             "Cannot enforce a maximal distance <= 0. Use an Hinge constraint "
             "for a distance of 0."
         );
-- 
2.43.0


From a203bde59010db5b1949e200cf6acc665974738e Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 02:31:02 +0000
Subject: [PATCH 12/32] fix: correcting positions of a limits solver without
 limits does not read an absent limit

---
 include/Simu/physics/ConstraintSolver.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/Simu/physics/ConstraintSolver.hpp b/include/Simu/physics/ConstraintSolver.hpp
index aee48c0..9e1320e 100644
--- a/include/Simu/physics/ConstraintSolver.hpp
+++ b/include/Simu/physics/ConstraintSolver.hpp
@@ -424,7 +424,10 @@ public:
         {
             case Func::equality:
             {
-                posLambda = f.clampPositionLambda(solve(effMass, -(C - L_.value())));
+                if (L_.has_value())
+                    C -= L_.value();
+
+                posLambda = f.clampPositionLambda(solve(effMass, -C));
                 break;
             }
             case Func::lower:
-- 
2.43.0


From 9bfe1e99c0bea2c256f393bae47bf41af6ce0edd Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 02:44:20 +0000
Subject: [PATCH 13/32] fix: the complementarity solver does not lose its
 solution where rounding rejects every case

---
 include/Simu/math/Matrix.hpp     |  1 +
 include/Simu/math/Matrix.inl.hpp | 27 ++++++++++++++++++++++++++-
 2 files changed, 27 insertions(+), 1 deletion(-)

diff --git a/include/Simu/math/Matrix.hpp b/include/Simu/math/Matrix.hpp
index 7a7c0d3..7c68ef1 100644
--- a/include/Simu/math/Matrix.hpp
+++ b/include/Simu/math/Matrix.hpp
@@ -24,6 +24,7 @@
 
 #pragma once
 
+#include <array>
 #include <initializer_list>
 #include <type_traits>
 #include <cmath>
diff --git a/include/Simu/math/Matrix.inl.hpp b/include/Simu/math/Matrix.inl.hpp
index ade9bbf..57b6687 100644
--- a/include/Simu/math/Matrix.inl.hpp
+++ b/include/Simu/math/Matrix.inl.hpp
@@ -563,7 +563,7 @@ public:
         if (all(-b >= Vector<T, 2>::filled(0.f)))
             return x;
 
-        return x; // all null
+        return leastViolating(b);
     }
 
     Matrix<T, 2, 2> original() const { return solver.original(); }
@@ -571,6 +571,31 @@ public:
 
 private:
 
+    // rounding can narrowly reject every case, the one that fails by the least holds.
+    template <class U>
+    Vector<Promoted<T, U>, 2> leastViolating(const Vector<U, 2>& b) const
+    {
+        const auto zero = Vector<T, 2>::filled(0.f);
+
+        const std::array<Vector<T, 2>, 3> candidates{
+            Vector<T, 2>{b[0] * invA11, 0.f},
+            Vector<T, 2>{0.f, b[1] * invA22},
+            std::max(Vector<T, 2>{solver.solve(b)}, zero)
+        };
+
+        auto slack = [&](const Vector<T, 2>& x) {
+            Vector<T, 2> residual = original() * x - b;
+            return std::min(residual[0], residual[1]);
+        };
+
+        Vector<T, 2> best{};
+        for (const auto& x : candidates)
+            if (all(x >= zero) && slack(x) > slack(best))
+                best = x;
+
+        return best;
+    }
+
     Solver<T, 2> solver;
     float        invA11;
     float        invA22;
-- 
2.43.0


From 53ed1487b38f9281450d78bd0bf8410ceddaf640 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 03:15:31 +0000
Subject: [PATCH 14/32] fix: overlapping colliders keep the contact at the end
 of an edge inside of the other collider

---
 include/Simu/math/Edges.hpp              | 12 +++++++-----
 include/Simu/physics/ContactManifold.hpp |  7 +++++--
 2 files changed, 12 insertions(+), 7 deletions(-)

diff --git a/include/Simu/math/Edges.hpp b/include/Simu/math/Edges.hpp
index 98e4b60..fdbdf24 100644
--- a/include/Simu/math/Edges.hpp
+++ b/include/Simu/math/Edges.hpp
@@ -72,13 +72,15 @@ public:
         bool isInside(Vec2 p) const { return dot(-normal(), p - to()) > 0.f; }
 
         // requires that the geometry be positively oriented.
+        // returns the end of this edge, its to() or from(), if it is inside of other.
+        // otherwise, this is cut where it crosses the infinite line of other, or is
+        //  nearest to crossing it.
         // TODO: Incomplete...
-        // if the edges are parallel, assumes they overlap and return this->from()
-        // otherwise assumes this intersects the infinite line of other and returns the point of intersection
-        Vertex clipInside(const Edge& other) const
+        // if the edges are parallel, assumes they overlap and returns the end
+        Vertex clipInside(const Edge& other, Vertex end) const
         {
-            if (dot(direction(), other.normal()) == 0.f)
-                return from();
+            if (!other.isOutside(end) || dot(direction(), other.normal()) == 0.f)
+                return end;
 
             Vec2 parametricCoefficients = solve(
                 Mat2::fromCols({direction(), other.direction()}),
diff --git a/include/Simu/physics/ContactManifold.hpp b/include/Simu/physics/ContactManifold.hpp
index ef76c5a..9a137d5 100644
--- a/include/Simu/physics/ContactManifold.hpp
+++ b/include/Simu/physics/ContactManifold.hpp
@@ -224,11 +224,14 @@ private:
 
         Vec2 n = -contactNormal_;
 
-        Vertex contact1 = contactEdges[inc].clipInside(previousOfRef);
+        // the edges face each other, they have opposite directions.
+        const Edge& incEdge = contactEdges[inc];
+
+        Vertex contact1 = incEdge.clipInside(previousOfRef, incEdge.to());
         if (dot(contact1 - contactEdges[ref].from(), n) >= 0.f)
             contacts_[inc][nContacts_++] = contact1;
 
-        Vertex contact2 = contactEdges[inc].clipInside(nextOfRef);
+        Vertex contact2 = incEdge.clipInside(nextOfRef, incEdge.from());
         if (dot(contact2 - contactEdges[ref].from(), n) >= 0.f)
         {
             contacts_[inc][nContacts_++] = contact2;
-- 
2.43.0


From af221b34673908331aa826d94897bff936fcd6c4 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 04:00:52 +0000
Subject: [PATCH 15/32] fix: overlapping structural bodies do not abort the
 step

---
 src/Simu/physics/World.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Simu/physics/World.cpp b/src/Simu/physics/World.cpp
index f7c66cb..398af3f 100644
--- a/src/Simu/physics/World.cpp
+++ b/src/Simu/physics/World.cpp
@@ -290,7 +290,7 @@ void World::updateBodies(float dt)
 
         const Body* b0 = colliders[0]->body();
         const Body* b1 = colliders[1]->body();
-        if (b0 == b1)
+        if (b0 == b1 || (b0->isStructural() && b1->isStructural()))
             return;
 
         for (Constraint* c : b0->constraints())
-- 
2.43.0


From e8728fe442eb51ab3e0e373556ab7ead587ac607 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 04:00:52 +0000
Subject: [PATCH 16/32] fix: bodies forget their contacts when the contact
 factory changes

---
 include/Simu/physics/World.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/Simu/physics/World.hpp b/include/Simu/physics/World.hpp
index 4cddc10..1b35b7f 100644
--- a/include/Simu/physics/World.hpp
+++ b/include/Simu/physics/World.hpp
@@ -138,6 +138,9 @@ public:
 
     void setContactFactory(ContactFactory makeContact)
     {
+        for (auto& body : bodies_)
+            body->contacts_.clear();
+
         contacts_.clear();
         makeContactConstraint_ = makeContact;
     }
-- 
2.43.0


From 2cc5de14babcb2e8932ab804a34b3a9540b96724 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 04:08:34 +0000
Subject: [PATCH 17/32] fix: structural bodies without colliders can be
 constrained

---
 include/Simu/physics/Bodies.inl.hpp | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/include/Simu/physics/Bodies.inl.hpp b/include/Simu/physics/Bodies.inl.hpp
index f564d19..7955b51 100644
--- a/include/Simu/physics/Bodies.inl.hpp
+++ b/include/Simu/physics/Bodies.inl.hpp
@@ -88,10 +88,15 @@ Bodies::Bodies(std::initializer_list<Body*> bodies, std::optional<Dominance> dom
         Vec2{bodies_[0]->dominance(), bodies_[1]->dominance()}
     );
 
-    invMasses_.m0 = d[0] * bodies_[0]->invMass();
-    invMasses_.I0 = d[0] * bodies_[0]->invInertia();
-    invMasses_.m1 = d[1] * bodies_[1]->invMass();
-    invMasses_.I1 = d[1] * bodies_[1]->invInertia();
+    // without colliders a body's inverse mass is infinite, but it can be structural.
+    auto scale = [](float dominance, float inverse) {
+        return dominance == 0.f ? 0.f : dominance * inverse;
+    };
+
+    invMasses_.m0 = scale(d[0], bodies_[0]->invMass());
+    invMasses_.I0 = scale(d[0], bodies_[0]->invInertia());
+    invMasses_.m1 = scale(d[1], bodies_[1]->invMass());
+    invMasses_.I1 = scale(d[1], bodies_[1]->invInertia());
 }
 
 
-- 
2.43.0


From d4a395ce24d5ad225f629f6877bdb806fdd437e8 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 04:14:05 +0000
Subject: [PATCH 18/32] fix: contacts are told that they are removed, before
 any object is released

---
 src/Simu/physics/World.cpp | 41 +++++++++++++++++++-------------------
 1 file changed, 20 insertions(+), 21 deletions(-)

diff --git a/src/Simu/physics/World.cpp b/src/Simu/physics/World.cpp
index 398af3f..cc0c08b 100644
--- a/src/Simu/physics/World.cpp
+++ b/src/Simu/physics/World.cpp
@@ -192,7 +192,8 @@ private:
     template <class Iter>
     bool isDead(Iter it)
     {
-        return access(it)->isDead();
+        PhysicsObject* object = access(it);
+        return object != nullptr && object->isDead();
     }
 
     template <class Iter>
@@ -206,6 +207,11 @@ private:
     {
         return it->get();
     }
+
+    PhysicsObject* access(typename ContactList::iterator it)
+    {
+        return it->second.existingContact.get();
+    }
 };
 
 
@@ -223,32 +229,23 @@ void World::removeCollider(Collider* collider)
 
 void World::cleanup()
 {
-    for (auto it = contacts_.begin(); it != contacts_.end();)
-    {
-        ContactConstraint* contact = it->second.existingContact.get();
-        if (contact != nullptr && contact->isDead())
-        {
-            for (Body* b : contact->bodies())
-            {
-                std::erase(b->contacts_, contact);
-                b->wake();
-            }
-
-            it = contacts_.erase(it);
-        }
-        else
-        {
-            ++it;
-        }
-    }
-
-
     Cleaner cleaner{};
 
+    auto deadContacts    = cleaner.deadObjects(contacts_);
     auto deadConstraints = cleaner.deadObjects(constraints_);
     auto deadForces      = cleaner.deadObjects(forces_);
     auto deadBodies      = cleaner.deadObjects(bodies_);
 
+    for (auto c : deadContacts)
+    {
+        ContactConstraint* contact = c->second.existingContact.get();
+        for (Body* body : contact->bodies())
+        {
+            std::erase(body->contacts_, contact);
+            body->wake();
+        }
+    }
+
     for (auto c : deadConstraints)
     {
         for (Body* body : (*c)->bodies())
@@ -258,10 +255,12 @@ void World::cleanup()
         }
     }
 
+    cleaner.onDestruction(*this, deadContacts);
     cleaner.onDestruction(*this, deadConstraints);
     cleaner.onDestruction(*this, deadForces);
     cleaner.onDestruction(*this, deadBodies);
 
+    cleaner.erase(contacts_, deadContacts);
     cleaner.erase(constraints_, deadConstraints);
     cleaner.erase(forces_, deadForces);
     cleaner.erase(bodies_, deadBodies);
-- 
2.43.0


From c19282997134bb9aa39ea398ed41133e04202d1a Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 04:34:41 +0000
Subject: [PATCH 19/32] fix: bodies that spin clockwise are not immobile

---
 include/Simu/physics/Body.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/Simu/physics/Body.hpp b/include/Simu/physics/Body.hpp
index 86c85f5..a26e9cf 100644
--- a/include/Simu/physics/Body.hpp
+++ b/include/Simu/physics/Body.hpp
@@ -24,6 +24,7 @@
 
 #pragma once
 
+#include <cmath>
 #include <type_traits>
 
 #include "Simu/config.hpp"
@@ -399,7 +400,7 @@ private:
     bool isImmobile(float velocityTreshold, float angularVelocityTreshold) const
     {
         return normSquared(velocity()) < velocityTreshold * velocityTreshold
-               && angularVelocity() < angularVelocityTreshold;
+               && std::abs(angularVelocity()) < angularVelocityTreshold;
     }
 
     void
-- 
2.43.0


From 8416c3a0f70e1615bb27ce5cff8081ff0b7da67c Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 04:34:41 +0000
Subject: [PATCH 20/32] fix: sleeping bodies that start to move are awake

---
 include/Simu/physics/Body.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/Simu/physics/Body.hpp b/include/Simu/physics/Body.hpp
index a26e9cf..9334731 100644
--- a/include/Simu/physics/Body.hpp
+++ b/include/Simu/physics/Body.hpp
@@ -409,7 +409,10 @@ private:
         if (isImmobile(velocityTreshold, angularVelocityTreshold))
             timeImmobile_ += dt;
         else
+        {
             timeImmobile_ = 0.f;
+            wake();
+        }
     }
 
     bool canSleep(float minTimeImmobile) const
-- 
2.43.0


From d2996724d5c066e57f8941e3b7d502664f77be42 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 04:34:42 +0000
Subject: [PATCH 21/32] fix: time spent with sleeping disabled does not count
 as immobile

---
 include/Simu/physics/World.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/Simu/physics/World.hpp b/include/Simu/physics/World.hpp
index 1b35b7f..f81aff7 100644
--- a/include/Simu/physics/World.hpp
+++ b/include/Simu/physics/World.hpp
@@ -297,7 +297,10 @@ public:
     {
         if (!settings.enableSleeping && settings_.enableSleeping)
             for (Body& body : bodies())
+            {
                 body.wake();
+                body.timeImmobile_ = 0.f; // is not updated when sleeping is disabled
+            }
 
         settings_ = settings;
     }
-- 
2.43.0


From 85fb3bb0b5fd3c3022fc58b374e376329b8a6a3c Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 05:30:49 +0000
Subject: [PATCH 22/32] fix: scrolling zooms in or out by its amount

---
 src/Simu/app/Scene.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/Simu/app/Scene.cpp b/src/Simu/app/Scene.cpp
index 6b78987..3093cc5 100644
--- a/src/Simu/app/Scene.cpp
+++ b/src/Simu/app/Scene.cpp
@@ -109,8 +109,7 @@ bool Scene::onKeypress(Keyboard::Input input)
 
 bool Scene::onMouseScroll(Vec2 scroll)
 {
-    float zoomRatio = (scroll[1] < 0.f) ? 4.f / 5.f : 5.f / 4.f;
-    camera().setZoom(camera().zoom() * std::abs(scroll[1]) * zoomRatio);
+    camera().setZoom(camera().zoom() * std::pow(5.f / 4.f, scroll[1]));
     return true;
 }
 
-- 
2.43.0


From be9076376fed74883f014ea7310950df5231f0a8 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 05:30:49 +0000
Subject: [PATCH 23/32] fix: the grabber does not use its constraint after it
 was removed

---
 include/Simu/app/Tool.hpp | 13 ++++++++++---
 src/Simu/app/Tool.cpp     | 39 +++++++++++++++++++++++++++++----------
 2 files changed, 39 insertions(+), 13 deletions(-)

diff --git a/include/Simu/app/Tool.hpp b/include/Simu/app/Tool.hpp
index ab694b5..559ba9d 100644
--- a/include/Simu/app/Tool.hpp
+++ b/include/Simu/app/Tool.hpp
@@ -24,6 +24,8 @@
 
 #pragma once
 
+#include <memory>
+
 #include "Simu/app/Event.hpp"
 #include "Simu/app/VisiblePhysics.hpp"
 
@@ -89,10 +91,15 @@ public:
 
 private:
 
-    VisibleMouseConstraint* makeMouseConstraint(Body* b, Vec2 pos);
+    // The world may remove the constraint, ie when its body is removed or the world cleared.
+    class Grab;
+    typedef std::shared_ptr<VisibleMouseConstraint*> Handle;
+
+    Handle makeMouseConstraint(Body* b, Vec2 pos);
 
-    VisibleMouseConstraint* mc_ = nullptr;
-    Scene&                  scene_;
+    // set to nullptr by the constraint when it is destroyed.
+    Handle mc_ = std::make_shared<VisibleMouseConstraint*>(nullptr);
+    Scene& scene_;
 };
 
 
diff --git a/src/Simu/app/Tool.cpp b/src/Simu/app/Tool.cpp
index 0602932..b70f469 100644
--- a/src/Simu/app/Tool.cpp
+++ b/src/Simu/app/Tool.cpp
@@ -36,6 +36,22 @@ namespace simu
 // Grabber
 ////////////////////////////////////////////////////////////
 
+class Grabber::Grab : public VisibleMouseConstraint
+{
+public:
+
+    Grab(Body* b, Vec2 pos, Renderer* renderer, Handle handle)
+        : VisibleMouseConstraint{b, pos, renderer}, handle_{std::move(handle)}
+    {
+    }
+
+    ~Grab() override { *handle_ = nullptr; }
+
+private:
+
+    Handle handle_;
+};
+
 bool Grabber::onMousePress(Mouse::Input input)
 {
     if (input.button != Mouse::Button::left)
@@ -46,8 +62,8 @@ bool Grabber::onMousePress(Mouse::Input input)
         scene_.world().forEachAt(input.pos, [&, this](Body* b) {
             if (!b->isStructural())
             {
-                if (mc_ != nullptr)
-                    mc_->kill();
+                if (*mc_ != nullptr)
+                    (*mc_)->kill();
 
                 mc_ = this->makeMouseConstraint(b, input.pos);
             }
@@ -55,10 +71,10 @@ bool Grabber::onMousePress(Mouse::Input input)
     }
     else if (input.action == Mouse::Action::release)
     {
-        if (mc_ != nullptr)
+        if (*mc_ != nullptr)
         {
-            mc_->kill();
-            mc_ = nullptr;
+            (*mc_)->kill();
+            *mc_ = nullptr;
         }
     }
     else
@@ -71,20 +87,23 @@ bool Grabber::onMousePress(Mouse::Input input)
 
 bool Grabber::onMouseMove(Vec2 pos)
 {
-    if (mc_ != nullptr)
+    if (*mc_ != nullptr)
     {
-        mc_->updateMousePos(pos);
+        (*mc_)->updateMousePos(pos);
         return true;
     }
 
     return false;
 }
 
-VisibleMouseConstraint* Grabber::makeMouseConstraint(Body* b, Vec2 pos)
+Grabber::Handle Grabber::makeMouseConstraint(Body* b, Vec2 pos)
 {
-    return scene_.world().makeConstraint<VisibleMouseConstraint>(
-        b, pos, scene_.app()->renderer()
+    auto handle = std::make_shared<VisibleMouseConstraint*>(nullptr);
+    *handle     = scene_.world().makeConstraint<Grab>(
+        b, pos, scene_.app()->renderer(), handle
     );
+
+    return handle;
 }
 
 
-- 
2.43.0


From c2513f9a0d45ebb1594fa58620a7a0fb68766902 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 05:30:49 +0000
Subject: [PATCH 24/32] fix: points of more than 255 vertices can be drawn

---
 src/Simu/app/Renderer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Simu/app/Renderer.cpp b/src/Simu/app/Renderer.cpp
index 7ef4073..083aab0 100644
--- a/src/Simu/app/Renderer.cpp
+++ b/src/Simu/app/Renderer.cpp
@@ -116,7 +116,7 @@ void Renderer::drawPoint(Vec2 P, Rgba color)
 {
     v_.clear();
 
-    for (Uint8 i = 0; i < getPointPrecision(); ++i)
+    for (Uint32 i = 0; i < getPointPrecision(); ++i)
     {
         v_.emplace_back(P + pointOffsets_[i]);
     }
-- 
2.43.0


From 54554f51897b50caeecccc553305803d33d729ab Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 05:30:49 +0000
Subject: [PATCH 25/32] fix: contours have the width asked for

---
 src/Simu/app/Renderer.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/Simu/app/Renderer.cpp b/src/Simu/app/Renderer.cpp
index 083aab0..eebe1ea 100644
--- a/src/Simu/app/Renderer.cpp
+++ b/src/Simu/app/Renderer.cpp
@@ -64,8 +64,11 @@ void Renderer::drawContouredPolygon(
     for (auto e1 = edges.begin(); e1 != edges.end(); ++e1)
     {
         auto e2 = edges.next(e1);
-        v_[i++]
-            += (e1->normalizedNormal() + e2->normalizedNormal()) * contourWidth;
+        Vec2 n1 = e1->normalizedNormal();
+        Vec2 n2 = e2->normalizedNormal();
+
+        // where both contour edges, at contourWidth of their edge, meet.
+        v_[i++] += (n1 + n2) * (contourWidth / (1.f + dot(n1, n2)));
     }
 
     const Vertices& cOuter = v_;
-- 
2.43.0


From 0ff186d450946542e2f6a75ab48ec14723321c18 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 05:33:50 +0000
Subject: [PATCH 26/32] fix: the pause button follows the scene, also when it
 is paused by the key

---
 src/Simu/app/Application.cpp | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/src/Simu/app/Application.cpp b/src/Simu/app/Application.cpp
index 6b52477..e69dcbc 100644
--- a/src/Simu/app/Application.cpp
+++ b/src/Simu/app/Application.cpp
@@ -289,7 +289,6 @@ void Application::doGui(float dt)
         // for scene
         float playSpeed   = 1.f;
         bool  restart     = false;
-        bool  pauseToggle = false;
         bool  step        = false;
 
         bool showProfiler       = true;
@@ -459,20 +458,19 @@ void Application::doGui(float dt)
         if (ImGui::Button("+"))
             scene_->setPlaySpeed(scene_->playSpeed() * 2.f);
 
-        if (ImGui::Button(menu.pauseToggle ? "Play (P)" : "Pause (P)"))
+        if (ImGui::Button(scene_->isPaused() ? "Play (P)" : "Pause (P)"))
         {
-            menu.pauseToggle = !menu.pauseToggle;
-            if (menu.pauseToggle)
-                scene_->pause();
-            else
+            if (scene_->isPaused())
                 scene_->resume();
+            else
+                scene_->pause();
         }
 
         if (ImGui::Button("Restart (R)"))
             scene_->reset();
 
         // TODO:
-        // if (menu.pauseToggle)
+        // if (scene_->isPaused())
         //     if (ImGui::Button("Step (S)"))
         //         scene_->step();
 
-- 
2.43.0


From 6a0c07bf2f04b5652d87bf9985c6f6a7ffd3f8b0 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 05:55:15 +0000
Subject: [PATCH 27/32] fix: FreeListAllocator refuses counts whose size in
 bytes overflows

---
 include/Simu/utility/Memory.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/Simu/utility/Memory.hpp b/include/Simu/utility/Memory.hpp
index d52c569..02762d5 100644
--- a/include/Simu/utility/Memory.hpp
+++ b/include/Simu/utility/Memory.hpp
@@ -26,7 +26,9 @@
 
 #include <cstdlib>
 #include <cstddef>
+#include <limits>
 #include <memory>
+#include <new>
 #include <functional>
 #include <list>
 
@@ -224,7 +226,7 @@ private:
 template <class T>
 T* Block::allocate(std::size_t n)
 {
-    if (n == 0)
+    if (n == 0 || n > sz / sizeof(T))
         return nullptr;
 
     std::size_t minSize = n * sizeof(T);
@@ -323,6 +325,9 @@ FreeListAllocator<T, sz>::allocate(size_type n)
     if (n == 0)
         return nullptr;
 
+    if (n > (std::numeric_limits<size_type>::max() - alignof(T)) / sizeof(T))
+        throw std::bad_array_new_length{};
+
     for (auto& block : *blocks_)
     {
         pointer p = block.template allocate<T>(n);
-- 
2.43.0


From f29fce3ca725d995d7e0680d7804c6882bf760ac Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 05:55:15 +0000
Subject: [PATCH 28/32] fix: makeUnique: owners that hold a base release the
 object that was made

---
 include/Simu/utility/Memory.hpp | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/include/Simu/utility/Memory.hpp b/include/Simu/utility/Memory.hpp
index 02762d5..5e90e13 100644
--- a/include/Simu/utility/Memory.hpp
+++ b/include/Simu/utility/Memory.hpp
@@ -55,14 +55,15 @@ UniquePtr<T> makeUnique(const Alloc& alloc, Args&&... args)
     typedef ReboundTo<Alloc, T> A;
     A                           a{alloc};
 
-    Deleter d = [=](void* obj) mutable {
-        T* typed = static_cast<T*>(obj);
-        std::allocator_traits<A>::destroy(a, typed);
-        std::allocator_traits<A>::deallocate(a, typed, 1);
-    };
-
     T* obj = std::allocator_traits<A>::allocate(a, 1);
     std::allocator_traits<A>::construct(a, obj, std::forward<Args>(args)...);
+
+    // the owner may hold a pointer to a base of T, which can be at another address.
+    Deleter d = [=](void*) mutable {
+        std::allocator_traits<A>::destroy(a, obj);
+        std::allocator_traits<A>::deallocate(a, obj, 1);
+    };
+
     return {obj, d};
 }
 
-- 
2.43.0


From 5dce8ba8ceb972c60898cda41c2bceca82343682 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 05:55:15 +0000
Subject: [PATCH 29/32] fix: makeUnique gives the memory back when the
 constructor throws

---
 include/Simu/utility/Memory.hpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/include/Simu/utility/Memory.hpp b/include/Simu/utility/Memory.hpp
index 5e90e13..26f4e66 100644
--- a/include/Simu/utility/Memory.hpp
+++ b/include/Simu/utility/Memory.hpp
@@ -56,7 +56,15 @@ UniquePtr<T> makeUnique(const Alloc& alloc, Args&&... args)
     A                           a{alloc};
 
     T* obj = std::allocator_traits<A>::allocate(a, 1);
-    std::allocator_traits<A>::construct(a, obj, std::forward<Args>(args)...);
+    try
+    {
+        std::allocator_traits<A>::construct(a, obj, std::forward<Args>(args)...);
+    }
+    catch (...)
+    {
+        std::allocator_traits<A>::deallocate(a, obj, 1);
+        throw;
+    }
 
     // the owner may hold a pointer to a base of T, which can be at another address.
     Deleter d = [=](void*) mutable {
-- 
2.43.0


From d79099fd3b05041f51bbf9238790789dc89cbfea Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 05:55:44 +0000
Subject: [PATCH 30/32] fix: makeUnique of arrays compiles and gives all back
 when an element throws

---
 include/Simu/utility/Memory.hpp | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/include/Simu/utility/Memory.hpp b/include/Simu/utility/Memory.hpp
index 26f4e66..09bdeb5 100644
--- a/include/Simu/utility/Memory.hpp
+++ b/include/Simu/utility/Memory.hpp
@@ -87,7 +87,7 @@ UniquePtr<T> makeUnique(const Alloc& alloc, std::size_t size)
     A                               a{alloc};
 
     Deleter d = [=](void* arr) mutable {
-        U* typed = static_cast<T*>(arr);
+        U* typed = static_cast<U*>(arr);
 
         for (std::size_t i = 0; i < size; ++i)
             std::allocator_traits<A>::destroy(a, typed + i);
@@ -95,10 +95,22 @@ UniquePtr<T> makeUnique(const Alloc& alloc, std::size_t size)
         std::allocator_traits<A>::deallocate(a, typed, size);
     };
 
-    T* arr = std::allocator_traits<A>::allocate(a, size);
+    U* arr = std::allocator_traits<A>::allocate(a, size);
 
-    for (std::size_t i = 0; i < size; ++i)
-        std::allocator_traits<A>::construct(a, arr + i);
+    std::size_t made = 0;
+    try
+    {
+        for (; made < size; ++made)
+            std::allocator_traits<A>::construct(a, arr + made);
+    }
+    catch (...)
+    {
+        while (made-- > 0)
+            std::allocator_traits<A>::destroy(a, arr + made);
+
+        std::allocator_traits<A>::deallocate(a, arr, size);
+        throw;
+    }
 
     return {arr, d};
 }
-- 
2.43.0


From fe6aefded7483f6e0440e0c91ef7fa4d6de3df94 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 06:08:42 +0000
Subject: [PATCH 31/32] fix: constraints use the masses that their bodies have
 when they are solved

---
 include/Simu/physics/Bodies.hpp     |  7 +++++++
 include/Simu/physics/Bodies.inl.hpp | 10 +++++++++-
 2 files changed, 16 insertions(+), 1 deletion(-)

diff --git a/include/Simu/physics/Bodies.hpp b/include/Simu/physics/Bodies.hpp
index 11baef7..e47bd3d 100644
--- a/include/Simu/physics/Bodies.hpp
+++ b/include/Simu/physics/Bodies.hpp
@@ -239,6 +239,9 @@ private:
         SIMU_ASSERT(index0 != Body::NO_INDEX, "");
         SIMU_ASSERT(index1 != Body::NO_INDEX, "");
 
+        // colliders may have been added or removed.
+        updateMasses();
+
         proxies_ = Proxies{
             SolverProxy{ps + index0, vs + index0},
             SolverProxy{ps + index1, vs + index1},
@@ -256,8 +259,12 @@ private:
         return proxies_;
     }
 
+    inline void updateMasses();
+
     std::array<Body*, n> bodies_;
 
+    Dominance dominances_;
+
     Proxies proxies_{};
 
     InvMasses invMasses_;
diff --git a/include/Simu/physics/Bodies.inl.hpp b/include/Simu/physics/Bodies.inl.hpp
index 7955b51..a02596b 100644
--- a/include/Simu/physics/Bodies.inl.hpp
+++ b/include/Simu/physics/Bodies.inl.hpp
@@ -84,15 +84,23 @@ Bodies::Bodies(std::initializer_list<Body*> bodies, std::optional<Dominance> dom
         bodies_[i++] = body;
     }
 
-    Dominance d = dominances.value_or(
+    dominances_ = dominances.value_or(
         Vec2{bodies_[0]->dominance(), bodies_[1]->dominance()}
     );
 
+    updateMasses();
+}
+
+
+void Bodies::updateMasses()
+{
     // without colliders a body's inverse mass is infinite, but it can be structural.
     auto scale = [](float dominance, float inverse) {
         return dominance == 0.f ? 0.f : dominance * inverse;
     };
 
+    const Dominance& d = dominances_;
+
     invMasses_.m0 = scale(d[0], bodies_[0]->invMass());
     invMasses_.I0 = scale(d[0], bodies_[0]->invInertia());
     invMasses_.m1 = scale(d[1], bodies_[1]->invMass());
-- 
2.43.0


From 147187695629fbc354104af8d2993300f1b472bd Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 06:16:04 +0000
Subject: [PATCH 32/32] fix: objects that kill each other, or are killed again,
 are told once

---
 include/Simu/physics/PhysicsObject.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/Simu/physics/PhysicsObject.hpp b/include/Simu/physics/PhysicsObject.hpp
index 99ed49d..82a9b5c 100644
--- a/include/Simu/physics/PhysicsObject.hpp
+++ b/include/Simu/physics/PhysicsObject.hpp
@@ -66,6 +66,10 @@ public:
     bool isDead() const { return killed_ || shouldDie(); }
     void kill()
     {
+        // objects can kill each other.
+        if (killed_)
+            return;
+
         killed_ = true;
         onKill();
     }
-- 
2.43.0

