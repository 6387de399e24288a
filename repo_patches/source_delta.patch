From 60616f10564c7d1cfdf20b528863c5e34ca27135 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:30 +0000
Subject: [PATCH 01/49] fix: SlerpConst returned NaN for vectors of the same
 direction

---
 vector.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/vector.go b/vector.go
index cea4a8c..e367a40 100644
--- a/vector.go
+++ b/vector.go
@@ -124,6 +124,10 @@ func LerpConst(f1, f2, d float64) float64 {
 func (v Vector) SlerpConst(other Vector, a float64) Vector {
 	dot := v.Normalize().Dot(other.Normalize())
 	omega := math.Acos(Clamp(dot, -1, 1))
+	if omega == 0 {
+		// The vectors point the same way: there is nothing to limit.
+		return other
+	}
 	return v.SLerp(other, math.Min(a, omega)/omega)
 }
 
-- 
2.43.0


From 05b7c93ecc90013a79f2a12eadf7ac508cc5e508 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:27 +0000
Subject: [PATCH 02/49] fix: PolyShape.SetRadius left the shape's area and
 density for the old radius

---
 poly.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/poly.go b/poly.go
index fbc370b..88bd9a7 100644
--- a/poly.go
+++ b/poly.go
@@ -33,6 +33,18 @@ func (poly PolyShape) Radius() float64 {
 
 func (poly *PolyShape) SetRadius(r float64) {
 	poly.r = r
+
+	count := poly.count
+	verts := make([]Vector, count)
+	for i := range verts {
+		verts[i] = poly.planes[i+count].v0
+	}
+
+	mass := poly.massInfo.m
+	poly.massInfo = PolyShapeMassInfo(mass, count, verts, r)
+	if mass > 0 {
+		poly.body.AccumulateMassFromShapes()
+	}
 }
 
 func (poly *PolyShape) CacheData(transform Transform) BB {
-- 
2.43.0


From c1ca31cb22f2e75638acdbf00c94606bf87d80ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:59 +0000
Subject: [PATCH 03/49] fix: Circle.PointQuery gave a NaN point at the circle's
 center

---
 circle.go | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/circle.go b/circle.go
index 11fce2d..db051b1 100644
--- a/circle.go
+++ b/circle.go
@@ -54,15 +54,16 @@ func (circle *Circle) PointQuery(p Vector, info *PointQueryInfo) {
 	d := delta.Length()
 	r := circle.r
 
-	info.Shape = circle.Shape
-	info.Point = circle.tc.Add(delta.Mult(r / d))
-	info.Distance = d - r
-
+	// Use an arbitrary direction if the point is at the center.
+	g := Vector{0, 1}
 	if d > MAGIC_EPSILON {
-		info.Gradient = delta.Mult(1 / d)
-	} else {
-		info.Gradient = Vector{0, 1}
+		g = delta.Mult(1 / d)
 	}
+
+	info.Shape = circle.Shape
+	info.Point = circle.tc.Add(g.Mult(r))
+	info.Distance = d - r
+	info.Gradient = g
 }
 
 func (circle *Circle) SegmentQuery(a, b Vector, radius float64, info *SegmentQueryInfo) {
-- 
2.43.0


From bb1f073f6317b4eacba5a8ba737d59481b1851ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:59 +0000
Subject: [PATCH 04/49] fix: Segment.PointQuery on the segment's line gave an
 untransformed gradient and a point off the surface

---
 segment.go | 19 +++++++------------
 1 file changed, 7 insertions(+), 12 deletions(-)

diff --git a/segment.go b/segment.go
index 5f0fe87..9454c0f 100644
--- a/segment.go
+++ b/segment.go
@@ -89,22 +89,17 @@ func (seg *Segment) PointQuery(p Vector, info *PointQueryInfo) {
 	delta := p.Sub(closest)
 	d := delta.Length()
 	r := seg.r
-	g := delta.Mult(1 / d)
-
-	info.Shape = seg.Shape
-	if d != 0 {
-		info.Point = closest.Add(g.Mult(r))
-	} else {
-		info.Point = closest
-	}
-	info.Distance = d - r
 
 	// Use the segment's normal if the distance is very small.
+	g := seg.tn
 	if d > MAGIC_EPSILON {
-		info.Gradient = g
-	} else {
-		info.Gradient = seg.n
+		g = delta.Mult(1 / d)
 	}
+
+	info.Shape = seg.Shape
+	info.Point = closest.Add(g.Mult(r))
+	info.Distance = d - r
+	info.Gradient = g
 }
 
 func (seg *Segment) SegmentQuery(a, b Vector, r2 float64, info *SegmentQueryInfo) {
-- 
2.43.0


From 7dbbb8496d6c63f55d4bfb93467dd71e2cbd3a58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:59 +0000
Subject: [PATCH 05/49] fix: PolyShape.PointQuery gave a NaN point for a point
 on the polygon's boundary

---
 poly.go | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/poly.go b/poly.go
index 88bd9a7..056afe1 100644
--- a/poly.go
+++ b/poly.go
@@ -110,17 +110,17 @@ func (poly *PolyShape) PointQuery(p Vector, info *PointQueryInfo) {
 	} else {
 		dist = -minDist
 	}
-	g := p.Sub(closestPoint).Mult(1.0 / dist)
+
+	// Use the edge's normal if the distance is very small.
+	g := closestNormal
+	if minDist > MAGIC_EPSILON {
+		g = p.Sub(closestPoint).Mult(1.0 / dist)
+	}
 
 	info.Shape = poly.Shape
 	info.Point = closestPoint.Add(g.Mult(r))
 	info.Distance = dist - r
-
-	if minDist > MAGIC_EPSILON {
-		info.Gradient = g
-	} else {
-		info.Gradient = closestNormal
-	}
+	info.Gradient = g
 }
 
 func (poly *PolyShape) SegmentQuery(a, b Vector, r2 float64, info *SegmentQueryInfo) {
-- 
2.43.0


From 5b879a48a4416c27d867d3884556ea266cef621d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:00 +0000
Subject: [PATCH 06/49] fix: Segment.SegmentQuery missed or misplaced end cap
 hits of queries starting beyond an end

---
 segment.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/segment.go b/segment.go
index 9454c0f..b453507 100644
--- a/segment.go
+++ b/segment.go
@@ -1,5 +1,7 @@
 package cp
 
+import "math"
+
 type Segment struct {
 	*Shape
 
@@ -120,7 +122,8 @@ func (seg *Segment) SegmentQuery(a, b Vector, r2 float64, info *SegmentQueryInfo
 	segB := seg.tb.Add(segOffset)
 	delta := b.Sub(a)
 
-	if delta.Cross(segA)*delta.Cross(segB) <= 0 {
+	// A query starting between the segment's sides can only hit the end caps.
+	if math.Abs(d) >= r && delta.Cross(segA)*delta.Cross(segB) <= 0 {
 		dOffset := d
 		if d > 0 {
 			dOffset -= r
-- 
2.43.0


From 2ea841f723e5cdb73abecfaf0aecb77bc56f3c38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:15 +0000
Subject: [PATCH 07/49] fix: ShapesCollide reported penetration as a positive
 distance when the shapes are given out of order

---
 shape.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/shape.go b/shape.go
index 51f7123..1ddaaed 100644
--- a/shape.go
+++ b/shape.go
@@ -264,7 +264,7 @@ func ShapesCollide(a, b *Shape) ContactPointSet {
 			set.Points[i].PointA = p1
 			set.Points[i].PointB = p2
 		}
-		set.Points[i].Distance = p2.Sub(p1).Dot(set.Normal)
+		set.Points[i].Distance = p2.Sub(p1).Dot(info.n)
 	}
 
 	return set
-- 
2.43.0


From 2e8c0404a3684724457226242b9334a5a3771c14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:16 +0000
Subject: [PATCH 08/49] fix: a circle's contact with a bevelled polygon was
 placed off the polygon's surface

---
 collision.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/collision.go b/collision.go
index 58f03a1..87c078d 100644
--- a/collision.go
+++ b/collision.go
@@ -170,7 +170,7 @@ func CircleToPoly(info *CollisionInfo) {
 
 	if points.d <= circle.r+poly.r {
 		info.n = points.n
-		info.PushContact(points.a.Add(info.n.Mult(circle.r)), points.b.Add(info.n.Mult(poly.r)), 0)
+		info.PushContact(points.a.Add(info.n.Mult(circle.r)), points.b.Add(info.n.Mult(-poly.r)), 0)
 	}
 }
 
-- 
2.43.0


From 2984ad635dd4f646e421e6220e34b48c8ccfa2d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:12 +0000
Subject: [PATCH 09/49] fix: shapes with coinciding centers could collide with
 a zero normal

---
 collision.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/collision.go b/collision.go
index 87c078d..15a3460 100644
--- a/collision.go
+++ b/collision.go
@@ -367,6 +367,10 @@ func GJK(ctx SupportContext, collisionId *uint32) ClosestPoints {
 	} else {
 		// No cached indexes, use the shapes' bounding box centers as a guess for a starting axis.
 		axis := ctx.shape1.bb.Center().Sub(ctx.shape2.bb.Center()).Perp()
+		if axis == (Vector{}) {
+			// The centers coincide, so any axis will do.
+			axis = Vector{1, 0}
+		}
 		v0 = ctx.Support(axis)
 		v1 = ctx.Support(axis.Neg())
 	}
-- 
2.43.0


From 6bbcc058996bd7f03a6321ae7bf0a6ecef4baee5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:53 +0000
Subject: [PATCH 10/49] fix: shapes touching at coinciding vertexes collided
 with a zero or meaningless normal

---
 collision.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/collision.go b/collision.go
index 15a3460..84fed01 100644
--- a/collision.go
+++ b/collision.go
@@ -245,7 +245,11 @@ func (v0 MinkowskiPoint) ClosestPoints(v1 MinkowskiPoint) ClosestPoints {
 
 	// Vertex/vertex collisions need special treatment since the MSA won't be shared with an axis of the minkowski difference.
 	d2 := p.Length()
-	n2 := p.Mult(1 / (d2 + 1e-15))
+	if d2 < 1e-10 {
+		// The direction between coinciding vertexes is just rounding noise, the edge's normal is a valid MSA too.
+		return ClosestPoints{pa, pb, n, d, id}
+	}
+	n2 := p.Mult(1 / d2)
 
 	return ClosestPoints{pa, pb, n2, d2, id}
 }
-- 
2.43.0


From a301a52995c9f09c4f794325c8cde9e6d3dea717 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:29 +0000
Subject: [PATCH 11/49] fix: Segment.SetEndpoints flipped the segment's normal,
 unlike NewSegment

---
 segment.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/segment.go b/segment.go
index b453507..bc0f21a 100644
--- a/segment.go
+++ b/segment.go
@@ -64,7 +64,7 @@ func (seg *Segment) TransformB() Vector {
 func (seg *Segment) SetEndpoints(a, b Vector) {
 	seg.a = a
 	seg.b = b
-	seg.n = b.Sub(a).Normalize().Perp()
+	seg.n = b.Sub(a).Normalize().ReversePerp()
 
 	mass := seg.massInfo.m
 	seg.massInfo = NewSegmentMassInfo(seg.massInfo.m, seg.a, seg.b, seg.r)
-- 
2.43.0


From 09c741ab84e9c26889be908d2ece5d8273185157 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:29 +0000
Subject: [PATCH 12/49] fix: separated shapes in line with each other's edges
 were taken to overlap

---
 collision.go | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/collision.go b/collision.go
index 84fed01..1c5dc38 100644
--- a/collision.go
+++ b/collision.go
@@ -238,17 +238,15 @@ func (v0 MinkowskiPoint) ClosestPoints(v1 MinkowskiPoint) ClosestPoints {
 	n := delta.ReversePerp().Normalize()
 	d := n.Dot(p)
 
-	if d <= 0 || (-1 < t && t < 1) {
+	// If the vertexes coincide, the direction between them is just rounding noise.
+	// If the origin is on the edge's line but past its end, d is near zero and the shapes are not overlapping.
+	d2 := p.Length()
+	if d < -0.5*d2 || d2 < 1e-10 || (-1 < t && t < 1) {
 		// If the shapes are overlapping, or we have a regular vertex/edge collision, we are done.
 		return ClosestPoints{pa, pb, n, d, id}
 	}
 
 	// Vertex/vertex collisions need special treatment since the MSA won't be shared with an axis of the minkowski difference.
-	d2 := p.Length()
-	if d2 < 1e-10 {
-		// The direction between coinciding vertexes is just rounding noise, the edge's normal is a valid MSA too.
-		return ClosestPoints{pa, pb, n, d, id}
-	}
 	n2 := p.Mult(1 / d2)
 
 	return ClosestPoints{pa, pb, n2, d2, id}
-- 
2.43.0


From 652852c6b0372f0396e1883de405d1d5eaa58312 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:29 +0000
Subject: [PATCH 13/49] fix: GJK stopped at an inner edge when a vertex lies on
 the origin

---
 collision.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/collision.go b/collision.go
index 1c5dc38..b54d0ee 100644
--- a/collision.go
+++ b/collision.go
@@ -398,6 +398,10 @@ func GJKRecurse(ctx SupportContext, v0, v1 MinkowskiPoint, iteration int) Closes
 		n = v1.ab.Sub(v0.ab).Perp()
 	} else {
 		n = v0.ab.LerpT(v1.ab, t).Neg()
+		if n.LengthSq() < 1e-20 {
+			// The origin lies on the vertex, so only the edge can tell where to search.
+			n = v1.ab.Sub(v0.ab).Perp()
+		}
 	}
 	p := ctx.Support(n)
 
-- 
2.43.0


From c316efc0bb33b23ff4b4e22a3a26e9def3d061bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:29 +0000
Subject: [PATCH 14/49] fix: an edge parallel to the collision normal was
 clipped to its far end

---
 collision.go | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/collision.go b/collision.go
index b54d0ee..d572b06 100644
--- a/collision.go
+++ b/collision.go
@@ -310,6 +310,19 @@ func SupportEdgeForPoly(poly *PolyShape, n Vector) Edge {
 	}
 }
 
+// flatten reduces an edge that is parallel to the normal to its foremost endpoint, the only one that can touch.
+func (e *Edge) flatten(n Vector) {
+	delta := e.b.p.Sub(e.a.p)
+	if math.Abs(delta.Cross(n)) > 1e-6*delta.Length() {
+		return
+	}
+	if delta.Dot(n) > 0 {
+		e.a.p = e.b.p
+	} else {
+		e.b.p = e.a.p
+	}
+}
+
 // ContactPoints finds contact point pairs on two support edges' surfaces
 func ContactPoints(e1, e2 Edge, points ClosestPoints, info *CollisionInfo) {
 	mindist := e1.r + e2.r
@@ -321,6 +334,9 @@ func ContactPoints(e1, e2 Edge, points ClosestPoints, info *CollisionInfo) {
 	n := points.n
 	info.n = points.n
 
+	e1.flatten(n)
+	e2.flatten(n.Neg())
+
 	dE1A := e1.a.p.Cross(n)
 	dE1B := e1.b.p.Cross(n)
 	dE2A := e2.a.p.Cross(n)
-- 
2.43.0


From 731ba60e7dae7fda73a66d6c4c375c8fe0e4ced5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:19 +0000
Subject: [PATCH 15/49] fix: GJK started from a cached feature on the origin
 never got away from it

---
 collision.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/collision.go b/collision.go
index d572b06..1a42fd6 100644
--- a/collision.go
+++ b/collision.go
@@ -378,11 +378,15 @@ func HashPair(a, b HashValue) HashValue {
 func GJK(ctx SupportContext, collisionId *uint32) ClosestPoints {
 	var v0, v1 MinkowskiPoint
 
-	if *collisionId != 0 {
+	cached := *collisionId != 0
+	if cached {
 		// Use the minkowski points from the last frame as a starting point using the cached indexes.
 		v0 = NewMinkowskiPoint(ctx.shape1.Point((*collisionId>>24)&0xFF), ctx.shape2.Point((*collisionId>>16)&0xFF))
 		v1 = NewMinkowskiPoint(ctx.shape1.Point((*collisionId>>8)&0xFF), ctx.shape2.Point((*collisionId)&0xFF))
-	} else {
+		// No direction can be told from a point on the origin.
+		cached = v0.ab.LengthSq() > 1e-20 && v1.ab.LengthSq() > 1e-20
+	}
+	if !cached {
 		// No cached indexes, use the shapes' bounding box centers as a guess for a starting axis.
 		axis := ctx.shape1.bb.Center().Sub(ctx.shape2.bb.Center()).Perp()
 		if axis == (Vector{}) {
-- 
2.43.0


From 354951592c1981df17dddee34a194a8e73d16a0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:55 +0000
Subject: [PATCH 16/49] fix: GJK could not start on collinear segments

---
 collision.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/collision.go b/collision.go
index 1a42fd6..b5d10a8 100644
--- a/collision.go
+++ b/collision.go
@@ -395,6 +395,12 @@ func GJK(ctx SupportContext, collisionId *uint32) ClosestPoints {
 		}
 		v0 = ctx.Support(axis)
 		v1 = ctx.Support(axis.Neg())
+		if v0.collisionId == v1.collisionId {
+			// Collinear segments have no extent along the axis, only across it.
+			axis = axis.Perp()
+			v0 = ctx.Support(axis)
+			v1 = ctx.Support(axis.Neg())
+		}
 	}
 
 	points := GJKRecurse(ctx, v0, v1, 1)
-- 
2.43.0


From fa0afb79fb6383f5d4549afba5069a73fd2218fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:51 +0000
Subject: [PATCH 17/49] fix: EPA collapsed a flat hull to a single point

---
 collision.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/collision.go b/collision.go
index b5d10a8..36af2cb 100644
--- a/collision.go
+++ b/collision.go
@@ -508,6 +508,11 @@ func EPARecurse(ctx SupportContext, count int, hull []MinkowskiPoint, iteration
 			}
 		}
 
+		if count2 < 3 {
+			// The hull is flat, and p only seemed to be beyond it by rounding.
+			return v0.ClosestPoints(v1)
+		}
+
 		return EPARecurse(ctx, count2, hull2, iteration+1)
 	}
 
-- 
2.43.0


From 38ed6a146fa115eebef73db1d1603bbf4367d028 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:08 +0000
Subject: [PATCH 18/49] fix: GJK circled the hull when a vertex lies on the
 origin

---
 collision.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/collision.go b/collision.go
index 36af2cb..65005ae 100644
--- a/collision.go
+++ b/collision.go
@@ -420,6 +420,7 @@ func GJKRecurse(ctx SupportContext, v0, v1 MinkowskiPoint, iteration int) Closes
 	}
 	t := v0.ab.ClosestT(v1.ab)
 	var n Vector
+	onVertex := false
 	if -1.0 < t && t < 1.0 {
 		n = v1.ab.Sub(v0.ab).Perp()
 	} else {
@@ -427,6 +428,7 @@ func GJKRecurse(ctx SupportContext, v0, v1 MinkowskiPoint, iteration int) Closes
 		if n.LengthSq() < 1e-20 {
 			// The origin lies on the vertex, so only the edge can tell where to search.
 			n = v1.ab.Sub(v0.ab).Perp()
+			onVertex = true
 		}
 	}
 	p := ctx.Support(n)
@@ -441,6 +443,11 @@ func GJKRecurse(ctx SupportContext, v0, v1 MinkowskiPoint, iteration int) Closes
 		return v0.ClosestPoints(v1)
 	}
 
+	if onVertex {
+		// Either half of the edge ends on the origin, so there is no telling which one is closer.
+		return EPA(ctx, v0, p, v1)
+	}
+
 	if v0.ab.ClosestDist(p.ab) < p.ab.ClosestDist(v1.ab) {
 		return GJKRecurse(ctx, v0, p, iteration+1)
 	}
-- 
2.43.0


From 16d7d4eb82798ef0e7f828bf619af1d3a1e82c7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:31 +0000
Subject: [PATCH 19/49] fix: PolyLine.SimplifyCurves never returned or indexed
 out of range on short pieces

---
 polyline.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/polyline.go b/polyline.go
index 81f7c52..b17ec0a 100644
--- a/polyline.go
+++ b/polyline.go
@@ -34,8 +34,7 @@ func (pl *PolyLine) IsClosed() bool {
 
 func (pl *PolyLine) IsShort(count, start, end int, min float64) bool {
 	var length float64
-	// Next doesn't have side effects and its return value is ignored (SA4017)go-staticcheck
-	for i := start; i != end; Next(i, count) {
+	for i := start; i != end; i = Next(i, count) {
 		length += pl.Verts[i].Distance(pl.Verts[Next(i, count)])
 		if length > min {
 			return false
@@ -77,7 +76,7 @@ func DouglasPeucker(verts []Vector, reduced *PolyLine, length, start, end int, m
 	b := verts[end]
 
 	// Check if the length is below the threshold
-	if a.Near(b, min) && reduced.IsShort(length, start, end, min) {
+	if a.Near(b, min) && (&PolyLine{Verts: verts}).IsShort(length, start, end, min) {
 		return reduced
 	}
 
-- 
2.43.0


From 341ab6ba9677dbfa30bee64bf0bc53e69627ce67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:31 +0000
Subject: [PATCH 20/49] fix: PolyLine.SimplifyVertexes left a closed line open
 when it merged the first vertex

---
 polyline.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/polyline.go b/polyline.go
index b17ec0a..4efc93a 100644
--- a/polyline.go
+++ b/polyline.go
@@ -61,6 +61,7 @@ func (pl *PolyLine) SimplifyVertexes(tol float64) *PolyLine {
 
 	if pl.IsClosed() && Sharpness(reduced.Verts[len(reduced.Verts)-2], reduced.Verts[0], reduced.Verts[1]) < minSharp {
 		reduced.Verts[0] = reduced.Verts[len(reduced.Verts)-2]
+		reduced.Verts = reduced.Verts[:len(reduced.Verts)-1]
 	}
 	return &reduced
 }
-- 
2.43.0


From ba7999a830db60ccf40851334285f4efd325cb98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:20 +0000
Subject: [PATCH 21/49] fix: PolyLine.SimplifyCurves dropped hairpins by
 measuring from the infinite line

---
 polyline.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/polyline.go b/polyline.go
index 4efc93a..03fa56e 100644
--- a/polyline.go
+++ b/polyline.go
@@ -85,11 +85,12 @@ func DouglasPeucker(verts []Vector, reduced *PolyLine, length, start, end int, m
 	var max float64
 	maxi := start
 
-	n := b.Sub(a).Perp().Normalize()
-	d := n.Dot(a)
-
 	for i := Next(start, length); i != end; i = Next(i, length) {
-		dist := math.Abs(n.Dot(verts[i]) - d)
+		// The piece may extend beyond the segment that replaces it, so its line won't do.
+		dist := verts[i].Distance(a)
+		if !a.Equal(b) {
+			dist = verts[i].Distance(verts[i].ClosestPointOnSegment(a, b))
+		}
 
 		if dist > max {
 			max = dist
-- 
2.43.0


From 8cffc23298a1f1ae288bc51551d044dcf8c29dc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:31 +0000
Subject: [PATCH 22/49] fix: SetType of a sleeping body left it in the sleeping
 lists

---
 body.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/body.go b/body.go
index 308e868..b8d522a 100644
--- a/body.go
+++ b/body.go
@@ -150,6 +150,9 @@ func (body *Body) SetType(newType int) {
 		return
 	}
 
+	// A sleeping body has to be woken while it still counts as dynamic.
+	body.Activate()
+
 	if newType == BODY_STATIC {
 		body.sleepingIdleTime = INFINITY
 	} else {
-- 
2.43.0


From 2d556869f53e0ecf98a6dbab8a5b4c478ecfbbba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:54 +0000
Subject: [PATCH 23/49] fix: SetType of a static body left what slept on it
 asleep, corrupting the contact graph

---
 body.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/body.go b/body.go
index b8d522a..eac3062 100644
--- a/body.go
+++ b/body.go
@@ -153,6 +153,15 @@ func (body *Body) SetType(newType int) {
 	// A sleeping body has to be woken while it still counts as dynamic.
 	body.Activate()
 
+	// What sleeps on or is joined to a static body does not sleep with it, and has to be
+	// woken before the body starts to move.
+	if oldType == BODY_STATIC {
+		body.ActivateStatic(nil)
+		body.EachConstraint(func(constraint *Constraint) {
+			constraint.ActivateBodies()
+		})
+	}
+
 	if newType == BODY_STATIC {
 		body.sleepingIdleTime = INFINITY
 	} else {
-- 
2.43.0


From 059faadd7def7744741636b640e9c03b6f0ffa21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:43 +0000
Subject: [PATCH 24/49] fix: sensor and rejected contacts of a body woken
 during a step got errant separate calls

---
 body.go            | 10 ++++++++++
 hashset_arbiter.go |  2 +-
 space.go           |  3 +++
 3 files changed, 14 insertions(+), 1 deletion(-)

diff --git a/body.go b/body.go
index eac3062..e808b39 100644
--- a/body.go
+++ b/body.go
@@ -62,6 +62,8 @@ type Body struct {
 	sleepingRoot     *Body
 	sleepingNext     *Body
 	sleepingIdleTime float64
+	sleptStamp       uint // Stamp of the space when the body last fell asleep
+	wokenStamp       uint // Stamp of the space when the body was last woken
 }
 
 // String returns body id as string
@@ -450,6 +452,14 @@ func (body *Body) IsSleeping() bool {
 	return body.sleepingRoot != nil
 }
 
+// restedInStep returns true if the body was static or asleep when the space's current step collided
+// its shapes, though it may have been woken since.
+func (body *Body) restedInStep(space *Space) bool {
+	return body.GetType() == BODY_STATIC ||
+		body.IsSleeping() && body.sleptStamp != space.stamp ||
+		body.wokenStamp == space.stamp
+}
+
 // AddShape adds shape to the body and returns added shape
 func (body *Body) AddShape(shape *Shape) *Shape {
 	body.shapeList = append(body.shapeList, shape)
diff --git a/hashset_arbiter.go b/hashset_arbiter.go
index f2bce0d..cc5e620 100644
--- a/hashset_arbiter.go
+++ b/hashset_arbiter.go
@@ -9,7 +9,7 @@ func SpaceArbiterSetFilter(arb *Arbiter, space *Space) bool {
 	a := arb.body_a
 	b := arb.body_b
 
-	if (a.GetType() == BODY_STATIC || a.IsSleeping()) && (b.GetType() == BODY_STATIC || b.IsSleeping()) {
+	if a.restedInStep(space) && b.restedInStep(space) {
 		return true
 	}
 
diff --git a/space.go b/space.go
index a3a1bfe..e11de47 100644
--- a/space.go
+++ b/space.go
@@ -156,6 +156,7 @@ func (space *Space) Activate(body *Body) {
 
 	assert(body.sleepingRoot == nil && body.sleepingNext == nil, "Activating body non-NULL node pointers.")
 
+	body.wokenStamp = space.stamp
 	space.dynamicBodies = append(space.dynamicBodies, body)
 
 	for _, shape := range body.shapeList {
@@ -204,6 +205,8 @@ func (space *Space) Activate(body *Body) {
 func (space *Space) Deactivate(body *Body) {
 	assert(body.GetType() == BODY_DYNAMIC, "Attempting to deactivate non-dynamic body.")
 
+	body.sleptStamp = space.stamp
+
 	for i, v := range space.dynamicBodies {
 		if v == body {
 			space.dynamicBodies = append(space.dynamicBodies[:i], space.dynamicBodies[i+1:]...)
-- 
2.43.0


From 470f849dbbf2bb4d1febc7776ef37759b21ec088 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:43 +0000
Subject: [PATCH 25/49] fix: waking a body in a collision callback corrupted
 the contact graph

---
 space.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/space.go b/space.go
index e11de47..0708cb6 100644
--- a/space.go
+++ b/space.go
@@ -582,6 +582,9 @@ func (space *Space) ProcessComponents(dt float64) {
 			}
 		}
 
+		// An arbiter restored by a callback that woke its bodies is in their lists already.
+		arb.Unthread()
+
 		a.PushArbiter(arb)
 		b.PushArbiter(arb)
 	}
-- 
2.43.0


From 226a5d0b8c6e76a2a3c1e29b8b90e6dadf3ad0c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:45 +0000
Subject: [PATCH 26/49] fix: a wildcard handler's refusal kept the other
 shape's wildcard handler from being called

---
 arbiter.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/arbiter.go b/arbiter.go
index 3bca89c..8adcd06 100644
--- a/arbiter.go
+++ b/arbiter.go
@@ -386,11 +386,15 @@ func DoNothing(_ *Arbiter, _ *Space, _ interface{}) {
 }
 
 func DefaultBegin(arb *Arbiter, space *Space, _ interface{}) bool {
-	return arb.CallWildcardBeginA(space) && arb.CallWildcardBeginB(space)
+	retA := arb.CallWildcardBeginA(space)
+	retB := arb.CallWildcardBeginB(space)
+	return retA && retB
 }
 
 func DefaultPreSolve(arb *Arbiter, space *Space, _ interface{}) bool {
-	return arb.CallWildcardPreSolveA(space) && arb.CallWildcardPreSolveB(space)
+	retA := arb.CallWildcardPreSolveA(space)
+	retB := arb.CallWildcardPreSolveB(space)
+	return retA && retB
 }
 
 func DefaultPostSolve(arb *Arbiter, space *Space, _ interface{}) {
-- 
2.43.0


From 5df9d42dccac1d496da00158fe42a2041e6d323e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:47 +0000
Subject: [PATCH 27/49] fix: post-solve callbacks got their handler instead of
 its user data

---
 space.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/space.go b/space.go
index 0708cb6..23c4ae3 100644
--- a/space.go
+++ b/space.go
@@ -781,7 +781,7 @@ func (space *Space) Step(dt float64) {
 
 		// run the post-solve callbacks
 		for _, arb := range space.arbiters {
-			arb.handler.PostSolveFunc(arb, space, arb.handler)
+			arb.handler.PostSolveFunc(arb, space, arb.handler.UserData)
 		}
 	}
 	space.Unlock(true)
-- 
2.43.0


From 125a404d08aaa2f86197ef1244c2653d25c76a13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:52 +0000
Subject: [PATCH 28/49] fix: ShapeQuery reports a collision whatever shape is
 found last

The result was overwritten for every shape found, so touching a solid shape
and then a sensor reported no collision.
---
 space.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/space.go b/space.go
index 23c4ae3..25842ef 100644
--- a/space.go
+++ b/space.go
@@ -1120,7 +1120,7 @@ func (space *Space) ShapeQuery(shape *Shape, callback func(shape *Shape, points
 			if callback != nil {
 				callback(b, &contactPointSet)
 			}
-			anyCollision = !(a.sensor || b.sensor)
+			anyCollision = anyCollision || !(a.sensor || b.sensor)
 		}
 
 		return collisionId
-- 
2.43.0


From 5c9bbd6186da6dd3b3c5a5da36bd5263d2f4b116 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:53 +0000
Subject: [PATCH 29/49] fix: spatial hash segment queries that start on a cell
 border

A segment starting exactly on the left or bottom border of a cell and heading
left or down was one cell behind on its whole way and missed shapes.
---
 spacehash.go | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/spacehash.go b/spacehash.go
index bd2f098..1a163d0 100644
--- a/spacehash.go
+++ b/spacehash.go
@@ -286,16 +286,13 @@ func (hash *SpaceHash) SegmentQuery(obj interface{}, a, b Vector, t_exit float64
 		dtdy = INFINITY
 	}
 
-	var nextH, nextV float64
-	if tempH != 0 {
+	// A segment that starts on the border of its cell and heads out of it leaves the cell at once.
+	nextH, nextV := INFINITY, INFINITY
+	if dx != 0 {
 		nextH = tempH * dtdx
-	} else {
-		nextH = dtdx
 	}
-	if tempV != 0 {
+	if dy != 0 {
 		nextV = tempV * dtdy
-	} else {
-		nextV = dtdy
 	}
 
 	for t < t_exit {
-- 
2.43.0


From b9fd3f59062b2cc321ec99ff8b7ed438b54522c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:53 +0000
Subject: [PATCH 30/49] fix: thick segment queries see shapes beside the center
 line

Space.SegmentQuery and SegmentQueryFirst only tested shapes whose bounding box
the center line of the segment crosses, whatever its radius.
---
 space.go | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/space.go b/space.go
index 25842ef..8daf7b2 100644
--- a/space.go
+++ b/space.go
@@ -1046,12 +1046,27 @@ func queryFirst(obj interface{}, shape *Shape, data interface{}) float64 {
 	return out.Alpha
 }
 
+// eachInSegmentQuery calls f with the shapes of an index that a segment query might hit.
+// The indexes follow the center line of the segment only, a thick segment looks at all shapes near it.
+func eachInSegmentQuery(index *SpatialIndex, context *SegmentQueryContext, t_exit float64, f SpatialIndexSegmentQuery, data interface{}) {
+	if context.radius <= 0 {
+		index.class.SegmentQuery(context, context.start, context.end, t_exit, f, data)
+		return
+	}
+
+	bb := NewBBForCircle(context.start, context.radius).Merge(NewBBForCircle(context.end, context.radius))
+	index.class.Query(context, bb, func(obj interface{}, shape *Shape, collisionId uint32, data interface{}) uint32 {
+		f(obj, shape, data)
+		return collisionId
+	}, data)
+}
+
 func (space *Space) SegmentQuery(start, end Vector, radius float64, filter ShapeFilter, f SpaceSegmentQueryFunc, data interface{}) {
 	context := SegmentQueryContext{start, end, radius, filter, f}
 	space.Lock()
 
-	space.staticShapes.class.SegmentQuery(&context, start, end, 1, segmentQuery, data)
-	space.dynamicShapes.class.SegmentQuery(&context, start, end, 1, segmentQuery, data)
+	eachInSegmentQuery(space.staticShapes, &context, 1, segmentQuery, data)
+	eachInSegmentQuery(space.dynamicShapes, &context, 1, segmentQuery, data)
 
 	space.Unlock(true)
 }
@@ -1059,8 +1074,8 @@ func (space *Space) SegmentQuery(start, end Vector, radius float64, filter Shape
 func (space *Space) SegmentQueryFirst(start, end Vector, radius float64, filter ShapeFilter) SegmentQueryInfo {
 	info := SegmentQueryInfo{nil, end, Vector{}, 1}
 	context := &SegmentQueryContext{start, end, radius, filter, nil}
-	space.staticShapes.class.SegmentQuery(context, start, end, 1, queryFirst, &info)
-	space.dynamicShapes.class.SegmentQuery(context, start, end, info.Alpha, queryFirst, &info)
+	eachInSegmentQuery(space.staticShapes, context, 1, queryFirst, &info)
+	eachInSegmentQuery(space.dynamicShapes, context, info.Alpha, queryFirst, &info)
 	return info
 }
 
-- 
2.43.0


From e9f983d9d3e7b03fea4be76c29ade0e25d3535ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:16 +0000
Subject: [PATCH 31/49] fix: spatial hash queries nested in callbacks

Queries mark the shapes they have seen with a stamp. A query made by the
callback of another query skipped the shapes the outer one had seen and made
the outer one report shapes twice, and one made by a collision callback only
saw the shapes that had been hashed again by then.
---
 spacehash.go | 49 ++++++++++++++++++++++++++++++++++++++++++-------
 1 file changed, 42 insertions(+), 7 deletions(-)

diff --git a/spacehash.go b/spacehash.go
index 1a163d0..6b8c0cf 100644
--- a/spacehash.go
+++ b/spacehash.go
@@ -167,6 +167,13 @@ func floor(f float64) int {
 func (hash *SpaceHash) ReindexQuery(f SpatialIndexQuery, data interface{}) {
 	hash.clearTable()
 
+	// The callbacks may query this index, so find all pairs before calling f.
+	var pairs [][2]*Shape
+	add := func(obj interface{}, other *Shape, collisionId uint32, _ interface{}) uint32 {
+		pairs = append(pairs, [2]*Shape{obj.(*Shape), other})
+		return collisionId
+	}
+
 	hash.handleSet.Each(func(hand *Handle) {
 		// queryRehash_helper
 
@@ -187,7 +194,7 @@ func (hash *SpaceHash) ReindexQuery(f SpatialIndexQuery, data interface{}) {
 				}
 
 				hand.retain()
-				hash.queryHelper(&bin, hand.obj, f, data)
+				hash.queryHelper(&bin, hand.obj, add, nil)
 
 				newBin := hash.getEmptyBin()
 				newBin.handle = hand
@@ -199,6 +206,10 @@ func (hash *SpaceHash) ReindexQuery(f SpatialIndexQuery, data interface{}) {
 		hash.stamp++
 	})
 
+	for _, pair := range pairs {
+		f(pair[0], pair[1], 0, data)
+	}
+
 	hash.CollideStatic(hash.staticIndex, f, data)
 }
 
@@ -211,18 +222,33 @@ func (hash *SpaceHash) Query(obj interface{}, bb BB, f SpatialIndexQuery, data i
 
 	n := hash.numCells
 
+	// f may query this index again, so find all shapes before calling it.
+	var found []*Shape
+	add := func(_ interface{}, other *Shape, collisionId uint32, _ interface{}) uint32 {
+		found = append(found, other)
+		return collisionId
+	}
+
 	for i := l; i <= r; i++ {
 		for j := b; j <= t; j++ {
-			hash.queryHelper(&hash.table[hashFunc(HashValue(i), HashValue(j), HashValue(n))], obj, f, data)
+			hash.queryHelper(&hash.table[hashFunc(HashValue(i), HashValue(j), HashValue(n))], obj, add, nil)
 		}
 	}
 
 	hash.stamp++
+
+	for _, other := range found {
+		f(obj, other, 0, data)
+	}
 }
 
-func (hash *SpaceHash) segmentQueryHelper(binPtr **SpaceHashBin, obj interface{}, f SpatialIndexSegmentQuery, data interface{}) float64 {
-	t := 1.0
+// segmentQueryHit is a shape found in a cell that a segment enters at t.
+type segmentQueryHit struct {
+	obj *Shape
+	t   float64
+}
 
+func (hash *SpaceHash) segmentQueryHelper(binPtr **SpaceHashBin, t float64, hits []segmentQueryHit) []segmentQueryHit {
 restart:
 	for bin := *binPtr; bin != nil; bin = bin.next {
 		hand := bin.handle
@@ -231,7 +257,7 @@ restart:
 		if hand.stamp == hash.stamp {
 			continue
 		} else if other != nil {
-			t = math.Min(t, f(obj, other, data))
+			hits = append(hits, segmentQueryHit{other, t})
 			hand.stamp = hash.stamp
 		} else {
 			hash.removeOrphanedHandles(binPtr)
@@ -239,7 +265,7 @@ restart:
 		}
 	}
 
-	return t
+	return hits
 }
 
 // modified from http://playtechs.blogspot.com/2007/03/raytracing-on-grid.html
@@ -295,9 +321,11 @@ func (hash *SpaceHash) SegmentQuery(obj interface{}, a, b Vector, t_exit float64
 		nextV = tempV * dtdy
 	}
 
+	// f may query this index again, so find all shapes before calling it.
+	var hits []segmentQueryHit
 	for t < t_exit {
 		idx := hashFunc(HashValue(cellX), HashValue(cellY), HashValue(hash.numCells))
-		t_exit = math.Min(t_exit, hash.segmentQueryHelper(&hash.table[idx], obj, f, data))
+		hits = hash.segmentQueryHelper(&hash.table[idx], t, hits)
 
 		if nextV < nextH {
 			cellY += yInc
@@ -311,6 +339,13 @@ func (hash *SpaceHash) SegmentQuery(obj interface{}, a, b Vector, t_exit float64
 	}
 
 	hash.stamp++
+
+	// Shapes in cells that the segment enters after t_exit can't be hit before it.
+	for _, hit := range hits {
+		if hit.t < t_exit {
+			t_exit = math.Min(t_exit, f(obj, hit.obj, data))
+		}
+	}
 }
 
 type SpaceHashBin struct {
-- 
2.43.0


From eaa279c556f80359738396572951f25641cb32ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:40 +0000
Subject: [PATCH 32/49] fix: convex hull listed nearly collinear points out of
 order

Points on one line as far as rounding can tell could be taken as corners on
the wrong side of the pivot, so that the hull doubled back on itself and a
polygon shape built from it had an edge facing inwards.
---
 poly.go | 30 ++++++++++++++++++++++++++++++
 1 file changed, 30 insertions(+)

diff --git a/poly.go b/poly.go
index 056afe1..979ff78 100644
--- a/poly.go
+++ b/poly.go
@@ -313,6 +313,7 @@ func QHullReduce(tol float64, verts []Vector, count int, a, pivot, b Vector, res
 		return 1
 	}
 
+	count = qHullCull(verts, count, a, pivot, b)
 	leftCount := QHullPartition(verts, count, a, pivot, tol)
 	var index int
 	if leftCount-1 >= 0 {
@@ -329,6 +330,35 @@ func QHullReduce(tol float64, verts []Vector, count int, a, pivot, b Vector, res
 	return index + QHullReduce(tol, verts[leftCount+1:], rightCount-1, pivot, verts[leftCount], b, result[index:])
 }
 
+// qHullCull moves the points that are clearly outside of exactly one of the edges from a to pivot and from
+// pivot to b to the front, and returns how many there are. The others are not corners of the hull:
+// they are inside it, or on one of the edges as far as rounding can tell.
+func qHullCull(verts []Vector, count int, a, pivot, b Vector) int {
+	head := 0
+	for i := 0; i < count; i++ {
+		if v := verts[i]; qHullSide(a, pivot, v)*qHullSide(pivot, b, v) < 0 {
+			verts[i], verts[head] = verts[head], v
+			head++
+		}
+	}
+	return head
+}
+
+// qHullSide is positive if v is outside of the edge from a to b, negative if it is inside, and 0 if that is a matter of rounding.
+func qHullSide(a, b, v Vector) int {
+	delta := b.Sub(a)
+	v = v.Sub(a)
+	value := v.Cross(delta)
+	roundoff := 1e-15 * (math.Abs(v.X*delta.Y) + math.Abs(v.Y*delta.X))
+	switch {
+	case value > roundoff:
+		return 1
+	case value < -roundoff:
+		return -1
+	}
+	return 0
+}
+
 func QHullPartition(verts []Vector, count int, a, b Vector, tol float64) int {
 	if count == 0 {
 		return 0
-- 
2.43.0


From 5f59c39d15b31879b8bce68e6d186314d4389f72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:04 +0000
Subject: [PATCH 33/49] fix: contacts counted cached impulses unscaled when the
 time step changed

The impulse cached from the last step is applied scaled by the ratio of the time steps, but
the accumulated impulse it is clamped against kept its old value. After a change of time step
contacts could pull, and reported impulses they had not applied.
---
 arbiter.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/arbiter.go b/arbiter.go
index 8adcd06..4d83862 100644
--- a/arbiter.go
+++ b/arbiter.go
@@ -116,9 +116,12 @@ func (arbiter *Arbiter) ApplyCachedImpulse(dt_coef float64) {
 	}
 
 	for i := 0; i < arbiter.count; i++ {
-		contact := arbiter.contacts[i]
+		contact := &arbiter.contacts[i]
+		// The impulse accumulated from here on includes what is applied now.
+		contact.jnAcc *= dt_coef
+		contact.jtAcc *= dt_coef
 		j := arbiter.n.Rotate(Vector{contact.jnAcc, contact.jtAcc})
-		apply_impulses(arbiter.body_a, arbiter.body_b, contact.r1, contact.r2, j.Mult(dt_coef))
+		apply_impulses(arbiter.body_a, arbiter.body_b, contact.r1, contact.r2, j)
 	}
 }
 
-- 
2.43.0


From 1b331eeb50a364eb5b3a4dfe1c911a82139803f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:04 +0000
Subject: [PATCH 34/49] fix: joints counted cached impulses unscaled when the
 time step changed

Same as for contacts: after a change of time step one-sided joints could push bodies further
out of or far back into range, joints exceeded their maximum force, and the reported impulse
was not the one applied.
---
 gearjoint.go        | 4 +++-
 groovejoint.go      | 4 +++-
 pinjoint.go         | 4 +++-
 pivotjoint.go       | 4 +++-
 ratchetjoint.go     | 4 +++-
 rotarylimitjoint.go | 4 +++-
 simplemotor.go      | 4 +++-
 slidejoint.go       | 4 +++-
 8 files changed, 24 insertions(+), 8 deletions(-)

diff --git a/gearjoint.go b/gearjoint.go
index 6afeeee..0da8544 100644
--- a/gearjoint.go
+++ b/gearjoint.go
@@ -40,7 +40,9 @@ func (joint *GearJoint) ApplyCachedImpulse(dt_coef float64) {
 	a := joint.a
 	b := joint.b
 
-	j := joint.jAcc * dt_coef
+	// The impulse accumulated from here on includes what is applied now.
+	joint.jAcc *= dt_coef
+	j := joint.jAcc
 	a.w -= j * a.i_inv * joint.ratio_inv
 	b.w += j * b.i_inv
 }
diff --git a/groovejoint.go b/groovejoint.go
index 2025805..3065c89 100644
--- a/groovejoint.go
+++ b/groovejoint.go
@@ -62,7 +62,9 @@ func (joint *GrooveJoint) ApplyCachedImpulse(dt_coef float64) {
 	a := joint.a
 	b := joint.b
 
-	apply_impulses(a, b, joint.r1, joint.r2, joint.jAcc.Mult(dt_coef))
+	// The impulse accumulated from here on includes what is applied now.
+	joint.jAcc = joint.jAcc.Mult(dt_coef)
+	apply_impulses(a, b, joint.r1, joint.r2, joint.jAcc)
 }
 
 func (joint *GrooveJoint) grooveConstrain(j Vector, dt float64) Vector {
diff --git a/pinjoint.go b/pinjoint.go
index 40b1437..9ca60df 100644
--- a/pinjoint.go
+++ b/pinjoint.go
@@ -61,7 +61,9 @@ func (joint *PinJoint) PreStep(dt float64) {
 }
 
 func (joint *PinJoint) ApplyCachedImpulse(dt_coef float64) {
-	j := joint.n.Mult(joint.jnAcc*dt_coef)
+	// The impulse accumulated from here on includes what is applied now.
+	joint.jnAcc *= dt_coef
+	j := joint.n.Mult(joint.jnAcc)
 	apply_impulses(joint.a, joint.b, joint.r1, joint.r2, j)
 }
 
diff --git a/pivotjoint.go b/pivotjoint.go
index d970921..cca77f5 100644
--- a/pivotjoint.go
+++ b/pivotjoint.go
@@ -56,7 +56,9 @@ func (joint *PivotJoint) PreStep(dt float64) {
 }
 
 func (joint *PivotJoint) ApplyCachedImpulse(dt_coef float64) {
-	apply_impulses(joint.a, joint.b, joint.r1, joint.r2, joint.jAcc.Mult(dt_coef))
+	// The impulse accumulated from here on includes what is applied now.
+	joint.jAcc = joint.jAcc.Mult(dt_coef)
+	apply_impulses(joint.a, joint.b, joint.r1, joint.r2, joint.jAcc)
 }
 
 func (joint *PivotJoint) ApplyImpulse(dt float64) {
diff --git a/ratchetjoint.go b/ratchetjoint.go
index 3ab0fc7..b151814 100644
--- a/ratchetjoint.go
+++ b/ratchetjoint.go
@@ -57,7 +57,9 @@ func (joint *RatchetJoint) ApplyCachedImpulse(dt_coef float64) {
 	a := joint.a
 	b := joint.b
 
-	j := joint.jAcc*dt_coef
+	// The impulse accumulated from here on includes what is applied now.
+	joint.jAcc *= dt_coef
+	j := joint.jAcc
 	a.w -= j*a.i_inv
 	b.w += j*b.i_inv
 }
diff --git a/rotarylimitjoint.go b/rotarylimitjoint.go
index 7825343..0d6c75b 100644
--- a/rotarylimitjoint.go
+++ b/rotarylimitjoint.go
@@ -45,7 +45,9 @@ func (joint *RotaryLimitJoint) ApplyCachedImpulse(dt_coef float64) {
 	a := joint.a
 	b := joint.b
 
-	j := joint.jAcc*dt_coef
+	// The impulse accumulated from here on includes what is applied now.
+	joint.jAcc *= dt_coef
+	j := joint.jAcc
 	a.w -= j*a.i_inv
 	b.w += j*b.i_inv
 }
diff --git a/simplemotor.go b/simplemotor.go
index 65f3982..308dacf 100644
--- a/simplemotor.go
+++ b/simplemotor.go
@@ -30,7 +30,9 @@ func (motor *SimpleMotor) ApplyCachedImpulse(dt_coef float64) {
 	a := motor.a
 	b := motor.b
 
-	j := motor.jAcc * dt_coef
+	// The impulse accumulated from here on includes what is applied now.
+	motor.jAcc *= dt_coef
+	j := motor.jAcc
 	a.w -= j * a.i_inv
 	b.w += j * b.i_inv
 }
diff --git a/slidejoint.go b/slidejoint.go
index 8a730c2..926243d 100644
--- a/slidejoint.go
+++ b/slidejoint.go
@@ -59,7 +59,9 @@ func (joint *SlideJoint) ApplyCachedImpulse(dt_coef float64) {
 	a := joint.a
 	b := joint.b
 
-	j := joint.n.Mult(joint.jnAcc * dt_coef)
+	// The impulse accumulated from here on includes what is applied now.
+	joint.jnAcc *= dt_coef
+	j := joint.n.Mult(joint.jnAcc)
 	apply_impulses(a, b, joint.r1, joint.r2, j)
 }
 
-- 
2.43.0


From d594f23c8df2027188fc5086684cbf3926741d74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:23 +0000
Subject: [PATCH 35/49] fix: contacts that parted and touch again start without
 their old impulse

Within collisionPersistence steps of separating, a pair that touches again is
a first contact and its cached impulse is not applied, but the accumulated
impulse started from the old value, so the solver could take it back (pulling
the bodies together) and TotalImpulse reported what was not applied.
---
 arbiter.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/arbiter.go b/arbiter.go
index 4d83862..8f2c407 100644
--- a/arbiter.go
+++ b/arbiter.go
@@ -201,6 +201,11 @@ func (arb *Arbiter) Update(info *CollisionInfo, space *Space) {
 	arb.b = b
 	arb.body_b = b.body
 
+	// Shapes that parted and touch again do not take up the impulses of their last contact.
+	if arb.state == CP_ARBITER_STATE_CACHED {
+		arb.count = 0
+	}
+
 	// Iterate over the possible pairs to look for hash value matches.
 	for i := 0; i < info.count; i++ {
 		con := &info.arr[i]
-- 
2.43.0


From dc7e3b11076854f50db3cc0410b5edfe12e5f6e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:25 +0000
Subject: [PATCH 36/49] fix: changing the gravity woke only some of the
 sleeping bodies

---
 space.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/space.go b/space.go
index 8daf7b2..eaae9d4 100644
--- a/space.go
+++ b/space.go
@@ -116,9 +116,9 @@ func (space *Space) Gravity() Vector {
 func (space *Space) SetGravity(gravity Vector) {
 	space.gravity = gravity
 
-	// Wake up all of the bodies since the gravity changed.
-	for _, component := range space.sleepingComponents {
-		component.Activate()
+	// Wake up all of the bodies since the gravity changed. Activating a component removes it from the list.
+	for len(space.sleepingComponents) > 0 {
+		space.sleepingComponents[0].Activate()
 	}
 }
 
-- 
2.43.0


From 00a5fac7cf694ffe147e4fc3fc60fe2ffcf7179e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:25 +0000
Subject: [PATCH 37/49] fix: changing a shape's surface velocity left its body
 asleep

---
 shape.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/shape.go b/shape.go
index 1ddaaed..3442852 100644
--- a/shape.go
+++ b/shape.go
@@ -146,6 +146,7 @@ func (s *Shape) SetFriction(u float64) {
 }
 
 func (s *Shape) SetSurfaceV(surfaceV Vector) {
+	s.body.Activate()
 	s.surfaceV = surfaceV
 }
 
-- 
2.43.0


From c004df3cef61b4586938cd712963526c8c3322ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:06 +0000
Subject: [PATCH 38/49] fix: EachBody missed bodies when its callback or an
 earlier one woke some

---
 space.go | 24 +++++++++++-------------
 1 file changed, 11 insertions(+), 13 deletions(-)

diff --git a/space.go b/space.go
index eaae9d4..2a53803 100644
--- a/space.go
+++ b/space.go
@@ -903,23 +903,21 @@ func (space *Space) EachBody(f func(body *Body)) {
 	space.Lock()
 	defer space.Unlock(true)
 
-	for _, body := range space.dynamicBodies {
-		f(body)
+	// The callback may wake bodies, which takes their components apart and keeps them in
+	// rousedBodies until the space is unlocked.
+	bodies := make([]*Body, 0, len(space.dynamicBodies)+len(space.staticBodies))
+	bodies = append(bodies, space.dynamicBodies...)
+	bodies = append(bodies, space.staticBodies...)
+	bodies = append(bodies, space.rousedBodies...)
+	for _, root := range space.sleepingComponents {
+		for body := root; body != nil; body = body.sleepingNext {
+			bodies = append(bodies, body)
+		}
 	}
 
-	for _, body := range space.staticBodies {
+	for _, body := range bodies {
 		f(body)
 	}
-
-	for _, root := range space.sleepingComponents {
-		body := root
-
-		for body != nil {
-			next := body.sleepingNext
-			f(body)
-			body = next
-		}
-	}
 }
 
 func (space *Space) EachShape(f func(*Shape)) {
-- 
2.43.0


From 270277dd2d47ae91e70f1a249a1f78f297062d80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:41 +0000
Subject: [PATCH 39/49] fix: post-step callbacks added by post-step callbacks
 were dropped

---
 space.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/space.go b/space.go
index 2a53803..81b3a84 100644
--- a/space.go
+++ b/space.go
@@ -809,7 +809,9 @@ func (space *Space) Unlock(runPostStep bool) {
 	if runPostStep && !space.skipPostStep {
 		space.skipPostStep = true
 
-		for _, callback := range space.postStepCallbacks {
+		// Callbacks may add more callbacks.
+		for i := 0; i < len(space.postStepCallbacks); i++ {
+			callback := space.postStepCallbacks[i]
 			f := callback.callback
 
 			// Mark the func as NULL in case calling it calls cpSpaceRunPostStepCallbacks() again.
-- 
2.43.0


From 06f479fc217d6fd4fefc47e69395d20b1e39d0d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:44 +0000
Subject: [PATCH 40/49] fix: mix the ids of contact points so that contacts do
 not take over each other's impulses

---
 collision.go | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/collision.go b/collision.go
index 65005ae..ac1d0f4 100644
--- a/collision.go
+++ b/collision.go
@@ -264,20 +264,28 @@ type Edge struct {
 	n    Vector
 }
 
+// pointHash identifies a point of a shape. It is well mixed, so that different pairs of points have different hash pairs:
+// with small numbers the terms of nested hash pairs cancel, and contacts took over each other's impulses.
+func pointHash(shape HashValue, point int) HashValue {
+	h := (uint64(shape)<<16 + uint64(point)) * 0x9e3779b97f4a7c15
+	h = (h ^ h>>32) * 0xd6e8feb86659fd93
+	return HashValue(h ^ h>>32)
+}
+
 func SupportEdgeForSegment(seg *Segment, n Vector) Edge {
 	hashid := seg.Shape.hashid
 	if seg.tn.Dot(n) > 0 {
 		return Edge{
-			a: EdgePoint{seg.ta, HashPair(hashid, 0)},
-			b: EdgePoint{seg.tb, HashPair(hashid, 1)},
+			a: EdgePoint{seg.ta, pointHash(hashid, 0)},
+			b: EdgePoint{seg.tb, pointHash(hashid, 1)},
 			r: seg.r,
 			n: seg.tn,
 		}
 	}
 
 	return Edge{
-		a: EdgePoint{seg.tb, HashPair(hashid, 1)},
-		b: EdgePoint{seg.ta, HashPair(hashid, 0)},
+		a: EdgePoint{seg.tb, pointHash(hashid, 1)},
+		b: EdgePoint{seg.ta, pointHash(hashid, 0)},
 		r: seg.r,
 		n: seg.tn.Neg(),
 	}
@@ -295,16 +303,16 @@ func SupportEdgeForPoly(poly *PolyShape, n Vector) Edge {
 
 	if n.Dot(planes[i1].n) > n.Dot(planes[i2].n) {
 		return Edge{
-			EdgePoint{planes[i0].v0, HashPair(hashId, HashValue(i0))},
-			EdgePoint{planes[i1].v0, HashPair(hashId, HashValue(i1))},
+			EdgePoint{planes[i0].v0, pointHash(hashId, i0)},
+			EdgePoint{planes[i1].v0, pointHash(hashId, i1)},
 			poly.r,
 			planes[i1].n,
 		}
 	}
 
 	return Edge{
-		EdgePoint{planes[i1].v0, HashPair(hashId, HashValue(i1))},
-		EdgePoint{planes[i2].v0, HashPair(hashId, HashValue(i2))},
+		EdgePoint{planes[i1].v0, pointHash(hashId, i1)},
+		EdgePoint{planes[i2].v0, pointHash(hashId, i2)},
 		poly.r,
 		planes[i2].n,
 	}
-- 
2.43.0


From 921270f57c90eab124e749a9f18f686e7ee261a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:37 +0000
Subject: [PATCH 41/49] fix: overlaps of polygons with more than 256 corners
 were cut short by ambiguous corner ids

---
 collision.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/collision.go b/collision.go
index ac1d0f4..64c4140 100644
--- a/collision.go
+++ b/collision.go
@@ -497,7 +497,8 @@ func EPARecurse(ctx SupportContext, count int, hull []MinkowskiPoint, iteration
 
 	p := ctx.Support(v1.ab.Sub(v0.ab).Perp())
 
-	duplicate := p.collisionId == v0.collisionId || p.collisionId == v1.collisionId
+	// The ids of polygons with more than 256 corners are not unique, so compare the points.
+	duplicate := p.ab.Equal(v0.ab) || p.ab.Equal(v1.ab)
 
 	if !duplicate && v0.ab.PointGreater(v1.ab, p.ab) && iteration < maxEpaIterations {
 		// Rebuild the convex hull by inserting p.
-- 
2.43.0


From ef36e3406f2bcc1f4f607aefffa116152cb211a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:06:39 +0000
Subject: [PATCH 42/49] fix: MomentForPoly of two vertices ignored the offset

---
 everything.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/everything.go b/everything.go
index 5527359..8a0ede1 100644
--- a/everything.go
+++ b/everything.go
@@ -236,7 +236,7 @@ func MomentForSegment(mass float64, a, b Vector, r float64) float64 {
 // The offset is added to each vertex.
 func MomentForPoly(mass float64, count int, verts []Vector, offset Vector, r float64) float64 {
 	if count == 2 {
-		return MomentForSegment(mass, verts[0], verts[1], 0)
+		return MomentForSegment(mass, verts[0].Add(offset), verts[1].Add(offset), 0)
 	}
 
 	var sum1 float64
-- 
2.43.0


From 824d9aa77dfe594f976cb231fe74a841fe810fd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:19:25 +0000
Subject: [PATCH 43/49] fix: a pin joint with coinciding anchors stored up
 impulse and released it all when they parted

---
 pinjoint.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pinjoint.go b/pinjoint.go
index 9ca60df..0f2711c 100644
--- a/pinjoint.go
+++ b/pinjoint.go
@@ -55,6 +55,11 @@ func (joint *PinJoint) PreStep(dt float64) {
 	}
 
 	joint.nMass = 1/k_scalar(a, b, joint.r1, joint.r2, joint.n)
+	if dist == 0 {
+		// Without a direction nothing can be applied, so no impulse may build up for later steps.
+		joint.nMass = 0
+		joint.jnAcc = 0
+	}
 
 	maxBias := joint.maxBias
 	joint.bias = Clamp(-bias_coef(joint.errorBias, dt)*(dist - joint.Dist)/dt, -maxBias, maxBias)
-- 
2.43.0


From f0c41b91a564cde7a2f292cc1d9fc853a1f2f573 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:38:03 +0000
Subject: [PATCH 44/49] fix: drawing a spring whose anchors coincide passed NaN
 coordinates to the drawer

---
 draw.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/draw.go b/draw.go
index 73973bd..716a3a3 100644
--- a/draw.go
+++ b/draw.go
@@ -131,7 +131,10 @@ func DrawConstraint(constraint *Constraint, options Drawer) {
 		delta := b.Sub(a)
 		cos := delta.X
 		sin := delta.Y
-		s := 1.0 / delta.Length()
+		s := 0.0
+		if length := delta.Length(); length != 0 {
+			s = 1.0 / length
+		}
 
 		r1 := Vector{cos, -sin * s}
 		r2 := Vector{sin, cos * s}
-- 
2.43.0


From e2729d026a812813552e13bed6114bedd669c271 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:28:43 +0000
Subject: [PATCH 45/49] fix: SetType on a body kept out of the space left its
 shapes in the wrong index

---
 body.go | 37 +++++++++++++++++--------------------
 1 file changed, 17 insertions(+), 20 deletions(-)

diff --git a/body.go b/body.go
index e808b39..46ba267 100644
--- a/body.go
+++ b/body.go
@@ -187,6 +187,23 @@ func (body *Body) SetType(newType int) {
 		body.w = 0
 	}
 
+	// The shapes may be in a space that the body itself is not in, or not be in one although the body is.
+	for _, shape := range body.shapeList {
+		if space := shape.space; space != nil {
+			assert(space.locked == 0, "Space is locked")
+
+			fromIndex, toIndex := space.dynamicShapes, space.dynamicShapes
+			if oldType == BODY_STATIC {
+				fromIndex = space.staticShapes
+			}
+			if newType == BODY_STATIC {
+				toIndex = space.staticShapes
+			}
+			fromIndex.class.Remove(shape, shape.hashid)
+			toIndex.class.Insert(shape, shape.hashid)
+		}
+	}
+
 	// If the body is added to a space already, we'll need to update some space data structures.
 	if body.space == nil {
 		return
@@ -214,26 +231,6 @@ func (body *Body) SetType(newType int) {
 		}
 		body.space.staticBodies = append(body.space.staticBodies, body)
 	}
-
-	var fromIndex, toIndex *SpatialIndex
-	if oldType == BODY_STATIC {
-		fromIndex = body.space.staticShapes
-	} else {
-		fromIndex = body.space.dynamicShapes
-	}
-
-	if newType == BODY_STATIC {
-		toIndex = body.space.staticShapes
-	} else {
-		toIndex = body.space.dynamicShapes
-	}
-
-	if oldType != newType {
-		for _, shape := range body.shapeList {
-			fromIndex.class.Remove(shape, shape.hashid)
-			toIndex.class.Insert(shape, shape.hashid)
-		}
-	}
 }
 
 // GetType returns the type of the body.
-- 
2.43.0


From eefb8a26b9777fef83ed208797a485d04ac7f8d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:29:03 +0000
Subject: [PATCH 46/49] fix: a shape query with a segment that has no body
 panicked

---
 collision.go | 8 ++++----
 segment.go   | 8 ++++++++
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/collision.go b/collision.go
index 64c4140..d9d20a6 100644
--- a/collision.go
+++ b/collision.go
@@ -130,7 +130,7 @@ func CircleToSegment(info *CollisionInfo) {
 		}
 		n := info.n
 
-		rot := segment.Shape.body.Rotation()
+		rot := segment.rotation()
 		if (closestT != 0.0 || n.Dot(segment.a_tangent.Rotate(rot)) >= 0.0) &&
 			(closestT != 1.0 || n.Dot(segment.b_tangent.Rotate(rot)) >= 0.0) {
 			info.PushContact(center.Add(n.Mult(circle.r)), closest.Add(n.Mult(-segment.r)), 0)
@@ -146,8 +146,8 @@ func SegmentToSegment(info *CollisionInfo) {
 	points := GJK(context, &info.collisionId)
 
 	n := points.n
-	rot1 := seg1.body.Rotation()
-	rot2 := seg2.body.Rotation()
+	rot1 := seg1.rotation()
+	rot2 := seg2.rotation()
 
 	if points.d > (seg1.r + seg2.r) {
 		return
@@ -179,9 +179,9 @@ func SegmentToPoly(info *CollisionInfo) {
 	points := GJK(context, &info.collisionId)
 
 	n := points.n
-	rot := info.a.body.Rotation()
 
 	segment := info.a.Class.(*Segment)
+	rot := segment.rotation()
 	polyshape := info.b.Class.(*PolyShape)
 
 	// If the closest points are nearer than the sum of the radii...
diff --git a/segment.go b/segment.go
index bc0f21a..7f7d099 100644
--- a/segment.go
+++ b/segment.go
@@ -85,6 +85,14 @@ func (seg *Segment) B() Vector {
 	return seg.b
 }
 
+// rotation is the rotation of the segment's body, or none for a shape without one, as used in shape queries.
+func (seg *Segment) rotation() Vector {
+	if seg.body == nil {
+		return Vector{1, 0}
+	}
+	return seg.body.Rotation()
+}
+
 func (seg *Segment) PointQuery(p Vector, info *PointQueryInfo) {
 	closest := p.ClosestPointOnSegment(seg.ta, seg.tb)
 
-- 
2.43.0


From 707d46bffa13f47f7f1cd1011521bb0fec027aa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:33:41 +0000
Subject: [PATCH 47/49] fix: a shape attached to a body but not added to the
 space got into the space's indexes when the body slept

---
 space.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/space.go b/space.go
index 81b3a84..07bf1cd 100644
--- a/space.go
+++ b/space.go
@@ -160,6 +160,10 @@ func (space *Space) Activate(body *Body) {
 	space.dynamicBodies = append(space.dynamicBodies, body)
 
 	for _, shape := range body.shapeList {
+		// The body may have shapes that were not added to the space.
+		if shape.space != space {
+			continue
+		}
 		space.staticShapes.class.Remove(shape, shape.hashid)
 		space.dynamicShapes.class.Insert(shape, shape.hashid)
 	}
@@ -215,6 +219,9 @@ func (space *Space) Deactivate(body *Body) {
 	}
 
 	for _, shape := range body.shapeList {
+		if shape.space != space {
+			continue
+		}
 		space.dynamicShapes.class.Remove(shape, shape.hashid)
 		space.staticShapes.class.Insert(shape, shape.hashid)
 	}
-- 
2.43.0


From 725e36a5861c36be4d32c206ba71a1c7e4fa0ec4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:56:06 +0000
Subject: [PATCH 48/49] fix: visit every shape of a body when the callback
 removes the one it is given

Body.EachShape went through the live list, in which removing a shape puts the last one
in its place, so that one was never visited: a loop that removes a body's shapes left half of them.
---
 body.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/body.go b/body.go
index 46ba267..632820d 100644
--- a/body.go
+++ b/body.go
@@ -612,8 +612,9 @@ func (body *Body) EachArbiter(f func(*Arbiter)) {
 
 // EachShape calls f once for each shape attached to this body
 func (body *Body) EachShape(f func(*Shape)) {
-	for i := 0; i < len(body.shapeList); i++ {
-		f(body.shapeList[i])
+	// The callback may remove the shape it is given.
+	for _, shape := range append([]*Shape(nil), body.shapeList...) {
+		f(shape)
 	}
 }
 
-- 
2.43.0


From 2cc6f5129d0e0af71436e6559c9dcf52cccacfc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:26:45 +0000
Subject: [PATCH 49/49] fix: a dynamic body in no space was put to sleep for
 ever and lost track of its contacts

---
 space.go | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/space.go b/space.go
index 07bf1cd..d19a3fe 100644
--- a/space.go
+++ b/space.go
@@ -581,10 +581,10 @@ func (space *Space) ProcessComponents(dt float64) {
 		b := arb.body_b
 
 		if sleep {
-			if b.GetType() == BODY_KINEMATIC || a.IsSleeping() {
+			if b.holdsAwake() || a.IsSleeping() {
 				a.Activate()
 			}
-			if a.GetType() == BODY_KINEMATIC || b.IsSleeping() {
+			if a.holdsAwake() || b.IsSleeping() {
 				b.Activate()
 			}
 		}
@@ -599,10 +599,10 @@ func (space *Space) ProcessComponents(dt float64) {
 	if sleep {
 		// Bodies should be held active if connected by a joint to a kinematic.
 		for _, constraint := range space.constraints {
-			if constraint.b.GetType() == BODY_KINEMATIC {
+			if constraint.b.holdsAwake() {
 				constraint.a.Activate()
 			}
-			if constraint.a.GetType() == BODY_KINEMATIC {
+			if constraint.a.holdsAwake() {
 				constraint.b.Activate()
 			}
 		}
@@ -638,6 +638,11 @@ func (space *Space) ProcessComponents(dt float64) {
 	}
 }
 
+// holdsAwake returns true if what touches the body or is joined to it must not fall asleep.
+func (body *Body) holdsAwake() bool {
+	return body.GetType() == BODY_KINEMATIC || body.GetType() == BODY_DYNAMIC && body.space == nil
+}
+
 func ComponentActive(root *Body, threshold float64) bool {
 	for item := root; item != nil; item = item.sleepingNext {
 		if item.sleepingIdleTime < threshold {
@@ -650,7 +655,8 @@ func ComponentActive(root *Body, threshold float64) bool {
 func FloodFillComponent(root *Body, body *Body) {
 	// Kinematic bodies cannot be put to sleep and prevent bodies they are touching from sleeping.
 	// Static bodies are effectively sleeping all the time.
-	if body.GetType() != BODY_DYNAMIC {
+	// Dynamic bodies that are in no space do not idle.
+	if body.GetType() != BODY_DYNAMIC || body.space == nil {
 		return
 	}
 
-- 
2.43.0

