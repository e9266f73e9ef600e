From 77433ae7dbf4d45e739da1e413ff32e764eb9a97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:49 +0000
Subject: [PATCH 01/51] fix: Elongate2D translated the shape instead of
 elongating it

The negative elongation vector had the sign of the positive one.
---
 sdf2.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sdf2.go b/sdf2.go
index 900ae78..16b2762 100644
--- a/sdf2.go
+++ b/sdf2.go
@@ -504,7 +504,7 @@ func Elongate2D(sdf SDF2, h r2.Vec) SDF2 {
 	s := elongate2{
 		sdf: sdf,
 		hp:  r2.Scale(0.5, h),
-		hn:  r2.Scale(0.5, h),
+		hn:  r2.Scale(-0.5, h),
 	}
 	// bounding box
 	bb := d2.Box(sdf.Bounds())
-- 
2.43.0


From dc3f1441b2c5a442ac576b8c8ce83cf562275ff4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:50 +0000
Subject: [PATCH 02/51] fix: ScaleTwistExtrude scale slope

The slope must be (1/scale - 1)/height as in ScaleExtrude, so that the
section goes from 1 at the bottom to scale at the top.
---
 utils.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/utils.go b/utils.go
index 7303faf..04a07cb 100644
--- a/utils.go
+++ b/utils.go
@@ -233,8 +233,7 @@ func ScaleExtrude(height float64, scale r2.Vec) ExtrudeFunc {
 func ScaleTwistExtrude(height, twist float64, scale r2.Vec) ExtrudeFunc {
 	k := twist / height
 	inv := r2.Vec{X: 1 / scale.X, Y: 1 / scale.Y}
-	m := r2.Sub(inv, d2.DivElem(r2.Vec{X: 1, Y: 1}, d2.Elem(height))) // slope
-	// m := inv.Sub(r2.Vec{1, 1}).DivScalar(height) // slope
+	m := d2.DivElem(r2.Sub(inv, r2.Vec{X: 1, Y: 1}), d2.Elem(height)) // slope
 	b := r2.Add(d2.DivElem(inv, d2.Elem(2)), d2.Elem(0.5))
 	// b := inv.DivScalar(2).AddScalar(0.5) // intercept
 	return func(p r3.Vec) r2.Vec {
-- 
2.43.0


From b915a314a24710bc9be435b919b2d00bf6f96033 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:16 +0000
Subject: [PATCH 03/51] fix: twist extrusion bounds did not contain the solid

Use the bounding box vertex farthest from the origin instead of the
maximum vertex, and account for twisting happening before scaling.
---
 sdf3.go | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/sdf3.go b/sdf3.go
index ac49676..b0ff48e 100644
--- a/sdf3.go
+++ b/sdf3.go
@@ -137,8 +137,7 @@ func TwistExtrude3D(sdf SDF2, height, twist float64) SDF3 {
 	s.height = height / 2
 	s.extrude = TwistExtrude(height, twist)
 	// work out the bounding box
-	bb := sdf.Bounds()
-	l := r2.Norm(bb.Max)
+	l := maxVertexNorm(d2.Box(sdf.Bounds()))
 	s.bb = r3.Box{Min: r3.Vec{X: -l, Y: -l, Z: -s.height}, Max: r3.Vec{X: l, Y: l, Z: s.height}}
 	return &s
 }
@@ -163,13 +162,21 @@ func ScaleTwistExtrude3D(sdf SDF2, height, twist float64, scale r2.Vec) SDF3 {
 	s.height = height / 2
 	s.extrude = ScaleTwistExtrude(height, twist, scale)
 	// work out the bounding box
-	bb := d2.Box(sdf.Bounds())
-	bb = bb.Extend(d2.Box{Min: d2.MulElem(bb.Min, scale), Max: d2.MulElem(bb.Max, scale)})
-	l := r2.Norm(bb.Max)
-	s.bb = r3.Box{Min: r3.Vec{X: -l, Y: -l, Z: -s.height}, Max: r3.Vec{X: l, Y: l, Z: s.height}}
+	// The section is twisted before it is scaled by a factor between 1 and scale.
+	l := r2.Scale(maxVertexNorm(d2.Box(sdf.Bounds())), d2.MaxElem(scale, r2.Vec{X: 1, Y: 1}))
+	s.bb = r3.Box{Min: r3.Vec{X: -l.X, Y: -l.Y, Z: -s.height}, Max: r3.Vec{X: l.X, Y: l.Y, Z: s.height}}
 	return &s
 }
 
+// maxVertexNorm returns the greatest distance from the origin to a vertex of the box.
+func maxVertexNorm(bb d2.Box) float64 {
+	var l float64
+	for _, v := range bb.Vertices() {
+		l = math.Max(l, r2.Norm(v))
+	}
+	return l
+}
+
 // Evaluate returns the minimum distance to an extrusion.
 func (s *extrude3) Evaluate(p r3.Vec) float64 {
 	// sdf for the projected 2d surface
-- 
2.43.0


From f24dba8388db958d9597d0dba6325c3d13f28e69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:17 +0000
Subject: [PATCH 04/51] fix: Orient3D mirrored solids for directions opposite
 to base

rotateToVec returned a point reflection, which is not a rotation.
---
 matrix.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/matrix.go b/matrix.go
index 3efb58a..e6462a2 100644
--- a/matrix.go
+++ b/matrix.go
@@ -515,12 +515,12 @@ func rotateToVec(a, b r3.Vec) m44 {
 
 	// are the vectors opposite (180 degrees apart)?
 	if d3.EqualWithin(r3.Scale(-1, a), b, epsilon) {
-		return m44{
-			-1, 0, 0, 0,
-			0, -1, 0, 0,
-			0, 0, -1, 0,
-			0, 0, 0, 1,
+		// Half turn about an axis perpendicular to a.
+		axis := r3.Cross(a, r3.Vec{X: 1})
+		if math.Abs(a.X) > sqrtHalf {
+			axis = r3.Cross(a, r3.Vec{Y: 1})
 		}
+		return Rotate3D(axis, pi)
 	}
 	// general case
 	// See:	https://math.stackexchange.com/questions/180418/calculate-rotation-matrix-to-align-vector-a-to-vector-b-in-3d
-- 
2.43.0


From f72e62a4c971813cc45d723ffd6440f66d31a90f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:17 +0000
Subject: [PATCH 05/51] fix: LineOf, Multi and Orient panicked for patterns of
 fewer than two objects

Unions need two operands: return the single object, or an empty SDF when
the line pattern places none.
---
 sdf2.go |  8 +++++++-
 sdf3.go | 12 ++++++++++++
 2 files changed, 19 insertions(+), 1 deletion(-)

diff --git a/sdf2.go b/sdf2.go
index 16b2762..060ade7 100644
--- a/sdf2.go
+++ b/sdf2.go
@@ -564,7 +564,10 @@ func LineOf2D(s SDF2, p0, p1 r2.Vec, pattern string) SDF2 {
 			x = r2.Add(x, dx)
 		}
 	}
-	if len(objects) == 1 {
+	switch len(objects) {
+	case 0:
+		return empty2From(s)
+	case 1:
 		return objects[0]
 	}
 	return Union2D(objects...)
@@ -582,6 +585,9 @@ func Multi2D(s SDF2, positions d2.Set) SDF2 {
 	for i, p := range positions {
 		objects[i] = Transform2D(s, Translate2D(p))
 	}
+	if len(objects) == 1 {
+		return objects[0]
+	}
 	return Union2D(objects...)
 }
 
diff --git a/sdf3.go b/sdf3.go
index b0ff48e..4f18e48 100644
--- a/sdf3.go
+++ b/sdf3.go
@@ -878,6 +878,12 @@ func LineOf3D(s SDF3, p0, p1 r3.Vec, pattern string) SDF3 {
 			x = r3.Add(x, dx)
 		}
 	}
+	switch len(objects) {
+	case 0:
+		return empty3From(s)
+	case 1:
+		return objects[0]
+	}
 	return Union3D(objects...)
 }
 
@@ -893,6 +899,9 @@ func Multi3D(s SDF3, positions d3.Set) SDF3 {
 	for i, p := range positions {
 		objects[i] = Transform3D(s, Translate3D(p))
 	}
+	if len(objects) == 1 {
+		return objects[0]
+	}
 	return Union3D(objects...)
 }
 
@@ -908,6 +917,9 @@ func Orient3D(s SDF3, base r3.Vec, directions d3.Set) SDF3 {
 	for i, d := range directions {
 		objects[i] = Transform3D(s, rotateToVec(base, d))
 	}
+	if len(objects) == 1 {
+		return objects[0]
+	}
 	return Union3D(objects...)
 }
 
-- 
2.43.0


From cedd2e10940be029e66daff646424672aee9d856 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:44 +0000
Subject: [PATCH 06/51] fix: Loft3D evaluated to NaN at z=0 when height is
 twice the rounding

---
 sdf3.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/sdf3.go b/sdf3.go
index 4f18e48..bdb4ae2 100644
--- a/sdf3.go
+++ b/sdf3.go
@@ -312,7 +312,10 @@ func Loft3D(sdf0, sdf1 SDF2, height, round float64) SDF3 {
 // Evaluate returns the minimum distance to a loft extrusion.
 func (s *loft3) Evaluate(p r3.Vec) float64 {
 	// work out the mix value as a function of height
-	k := clamp((0.5*p.Z/s.height)+0.5, 0, 1)
+	k := 0.5
+	if s.height > 0 {
+		k = clamp((0.5*p.Z/s.height)+0.5, 0, 1)
+	}
 	// mix the 2D SDFs
 	a0 := s.sdf0.Evaluate(r2.Vec{X: p.X, Y: p.Y})
 	a1 := s.sdf1.Evaluate(r2.Vec{X: p.X, Y: p.Y})
-- 
2.43.0


From c0ba69fbd06b9a54b29116da76f78188a51c1647 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:45 +0000
Subject: [PATCH 07/51] fix: Revolve3D bounds for multiples of a full
 revolution

---
 sdf3.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sdf3.go b/sdf3.go
index bdb4ae2..fdbd196 100644
--- a/sdf3.go
+++ b/sdf3.go
@@ -65,7 +65,7 @@ func Revolve3D(sdf SDF2, theta float64) SDF3 {
 	s.norm = r2.Vec{X: -sin, Y: cos}
 	// work out the bounding box
 	var vset d2.Set
-	if theta == 0 {
+	if s.theta == 0 {
 		vset = []r2.Vec{{X: 1, Y: 1}, {X: -1, Y: -1}}
 	} else {
 		vset = []r2.Vec{{X: 0, Y: 0}, {X: 1, Y: 0}, {X: cos, Y: sin}}
-- 
2.43.0


From 8c2576279cd4a6f828bad8320c110ec38aba82ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:12 +0000
Subject: [PATCH 08/51] fix: Polygon wrote to and kept the caller's vertex
 slice

Closing the loop appended to the argument, overwriting memory beyond it
when the slice had spare capacity.
---
 form2/must2/poly.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/form2/must2/poly.go b/form2/must2/poly.go
index 9d79db0..3a748dd 100644
--- a/form2/must2/poly.go
+++ b/form2/must2/poly.go
@@ -26,8 +26,9 @@ func Polygon(vertex []r2.Vec) sdf.SDF2 {
 		panic("number of vertices < 3")
 	}
 
+	// Work on a copy: the caller keeps its slice.
+	s.vertex = append([]r2.Vec(nil), vertex...)
 	// Close the loop (if necessary)
-	s.vertex = vertex
 	if !d2.EqualWithin(vertex[0], vertex[n-1], tolerance) {
 		s.vertex = append(s.vertex, vertex[0])
 	}
-- 
2.43.0


From 04ada4da02657d21ca9f2aaefa972f704e589b2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:12 +0000
Subject: [PATCH 09/51] fix: Polygon with repeated consecutive vertices
 evaluated to NaN

---
 form2/must2/poly.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/form2/must2/poly.go b/form2/must2/poly.go
index 3a748dd..dd7744a 100644
--- a/form2/must2/poly.go
+++ b/form2/must2/poly.go
@@ -26,8 +26,14 @@ func Polygon(vertex []r2.Vec) sdf.SDF2 {
 		panic("number of vertices < 3")
 	}
 
-	// Work on a copy: the caller keeps its slice.
-	s.vertex = append([]r2.Vec(nil), vertex...)
+	// Work on a copy: the caller keeps its slice. Repeated vertices are dropped
+	// since a zero length segment has no direction.
+	s.vertex = []r2.Vec{vertex[0]}
+	for _, v := range vertex[1:] {
+		if v != s.vertex[len(s.vertex)-1] {
+			s.vertex = append(s.vertex, v)
+		}
+	}
 	// Close the loop (if necessary)
 	if !d2.EqualWithin(vertex[0], vertex[n-1], tolerance) {
 		s.vertex = append(s.vertex, vertex[0])
-- 
2.43.0


From 8ee9fa27aab48bc40748178cc03f9637175ba786 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:13 +0000
Subject: [PATCH 10/51] fix: NaN polygon vertices for semicircular and
 impossible arcs

Rounding made the square root or arc cosine argument leave its domain when
the radius is half the chord. Smaller radii keep the straight line, like
smoothing does when the radius does not fit.
---
 form2/must2/poly.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/form2/must2/poly.go b/form2/must2/poly.go
index dd7744a..65da697 100644
--- a/form2/must2/poly.go
+++ b/form2/must2/poly.go
@@ -243,14 +243,18 @@ func (p *PolygonBuilder) arcVertex(i int) bool {
 	mid := r2.Scale(0.5, r2.Add(a, b))
 	// distance from a to midpoint
 	dMid := r2.Norm(r2.Sub(mid, a))
+	if radius < dMid*(1-tolerance) {
+		// unable to make the arc - radius is less than half the chord
+		return false
+	}
 	// distance from midpoint to center of arc
-	dCenter := math.Sqrt((radius * radius) - (dMid * dMid))
+	dCenter := math.Sqrt(math.Max(0, (radius*radius)-(dMid*dMid)))
 	// center of arc
 	c := r2.Add(mid, r2.Scale(dCenter, n))
 	// work out the angle
 	ac := r2.Unit(r2.Sub(a, c))
 	bc := r2.Unit(r2.Sub(b, c))
-	dtheta := -side * math.Acos(r2.Dot(ac, bc)) / float64(v.facets)
+	dtheta := -side * math.Acos(math.Max(-1, r2.Dot(ac, bc))) / float64(v.facets)
 	// rotation matrix
 	m := sdf.Rotate(dtheta)
 	// radius vector
-- 
2.43.0


From 178e07d7c689d6047ee2949b63b7df9c1af50105 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:13 +0000
Subject: [PATCH 11/51] fix: smoothing collinear or folded polygon vertices
 gave NaN vertices

---
 form2/must2/poly.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/form2/must2/poly.go b/form2/must2/poly.go
index 65da697..17807e5 100644
--- a/form2/must2/poly.go
+++ b/form2/must2/poly.go
@@ -303,7 +303,11 @@ func (p *PolygonBuilder) smoothVertex(i int) bool {
 	// work out the angle
 	v0 := r2.Unit(r2.Sub(vp.vertex, v.vertex))
 	v1 := r2.Unit(r2.Sub(vn.vertex, v.vertex))
-	theta := math.Acos(r2.Dot(v0, v1))
+	if r2.Norm(r2.Add(v0, v1)) < tolerance {
+		// straight line - nothing to smooth
+		return false
+	}
+	theta := math.Acos(math.Max(-1, math.Min(1, r2.Dot(v0, v1))))
 	// distance from vertex to circle tangent
 	d1 := v.radius / math.Tan(theta/2.0)
 	if d1 > r2.Norm(r2.Sub(vp.vertex, v.vertex)) || d1 > r2.Norm(r2.Sub(vn.vertex, v.vertex)) {
-- 
2.43.0


From 659c4bf26e856a4f6746b003e01aaed62f8df3c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:14 +0000
Subject: [PATCH 12/51] fix: PolygonBuilder ignored unresolvable relative
 vertices

The error was dropped and the offsets were used as absolute positions.
---
 form2/must2/poly.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/form2/must2/poly.go b/form2/must2/poly.go
index 17807e5..7ee224b 100644
--- a/form2/must2/poly.go
+++ b/form2/must2/poly.go
@@ -357,7 +357,7 @@ func (p *PolygonBuilder) relToAbs() error {
 		v := &p.vlist[i]
 		if v.relative {
 			pv := p.prevVertex(i)
-			if pv.relative {
+			if pv == nil || pv.relative {
 				return fmt.Errorf("relative vertex needs an absolute reference")
 			}
 			v.vertex = r2.Add(v.vertex, pv.vertex)
@@ -368,7 +368,9 @@ func (p *PolygonBuilder) relToAbs() error {
 }
 
 func (p *PolygonBuilder) fixups() {
-	p.relToAbs()
+	if err := p.relToAbs(); err != nil {
+		panic(err)
+	}
 	p.createArcs()
 	p.smoothVertices()
 }
-- 
2.43.0


From aa7760db8a4f6266f42cd08cc02ee7e5d056ed45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:00 +0000
Subject: [PATCH 13/51] fix: Union2D blending left out objects with distant
 bounding boxes

---
 sdf2.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/sdf2.go b/sdf2.go
index 060ade7..86eaba7 100644
--- a/sdf2.go
+++ b/sdf2.go
@@ -372,9 +372,10 @@ func (s *slice2) Bounds() r2.Box {
 
 // union2 is a union of multiple SDF2 objects.
 type union2 struct {
-	sdf []SDF2
-	min MinFunc
-	bb  r2.Box
+	sdf   []SDF2
+	min   MinFunc
+	blend bool // a custom minimum function was set
+	bb    r2.Box
 }
 
 // Union2D returns the union of multiple SDF2 objects.
@@ -400,6 +401,10 @@ func Union2D(sdf ...SDF2) SDF2Union {
 
 // Evaluate returns the minimum distance to the SDF2 union.
 func (s *union2) Evaluate(p r2.Vec) float64 {
+	if s.blend {
+		// A blend may involve every object, not only the nearest ones.
+		return s.EvaluateSlow(p)
+	}
 	// work out the min/max distance for every bounding box
 	vs := make([]r2.Vec, len(s.sdf))
 	minDist2 := -1.0
@@ -448,6 +453,7 @@ func (s *union2) EvaluateSlow(p r2.Vec) float64 {
 // SetMin sets the minimum function to control SDF2 blending.
 func (s *union2) SetMin(min MinFunc) {
 	s.min = min
+	s.blend = true
 }
 
 // BoundingBox returns the bounding box of an SDF2 union.
-- 
2.43.0


From 89af6b5081fd4a86fa5f9a1435b463a1e4e6303c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:00 +0000
Subject: [PATCH 14/51] fix: Union2D overestimated the distance when an object
 is empty

---
 sdf2.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/sdf2.go b/sdf2.go
index 86eaba7..584e5d0 100644
--- a/sdf2.go
+++ b/sdf2.go
@@ -433,6 +433,11 @@ func (s *union2) Evaluate(p r2.Vec) float64 {
 			}
 		}
 	}
+	if d > math.Sqrt(vs[minIndex].Y) {
+		// The nearest bounding box contains no object, so
+		// it says nothing about the distance of the others.
+		return s.EvaluateSlow(p)
+	}
 	return d
 }
 
-- 
2.43.0


From a34c16e2a9742d2f4cf40e400d561d9454b78906 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:01 +0000
Subject: [PATCH 15/51] fix: MinExp gave infinite distances away from the
 surface

---
 utils.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/utils.go b/utils.go
index 04a07cb..376094c 100644
--- a/utils.go
+++ b/utils.go
@@ -104,7 +104,9 @@ func MinRound(k float64) MinFunc {
 // MinExp returns a minimum function with exponential smoothing (k = 32).
 func MinExp(k float64) MinFunc {
 	return func(a, b float64) float64 {
-		return -math.Log(math.Exp(-k*a)+math.Exp(-k*b)) / k
+		// Factor out the minimum so that the exponentials do not overflow or vanish.
+		m := math.Min(a, b)
+		return m - math.Log1p(math.Exp(-k*math.Abs(a-b)))/k
 	}
 }
 
-- 
2.43.0


From c92df64b49e8f5f75263b7a6ef6f235675243697 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:25 +0000
Subject: [PATCH 16/51] fix: RenderAll dropped triangles read along with io.EOF

---
 render/io.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/render/io.go b/render/io.go
index 57653ad..8c4c9d2 100644
--- a/render/io.go
+++ b/render/io.go
@@ -15,10 +15,11 @@ func RenderAll(r Renderer) ([]r3.Triangle, error) {
 	buf := make([]r3.Triangle, 1024)
 	for {
 		nt, err = r.ReadTriangles(buf)
+		// As with io.Reader, triangles may be read along with an error.
+		result = append(result, buf[:nt]...)
 		if err != nil {
 			break
 		}
-		result = append(result, buf[:nt]...)
 	}
 	if err == io.EOF {
 		return result, nil
-- 
2.43.0


From 78da19b8bcfb1b6b485172a09ca31b0bad800c0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:26 +0000
Subject: [PATCH 17/51] fix: octree renderer panicked on empty SDFs

---
 render/octree_renderer.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/render/octree_renderer.go b/render/octree_renderer.go
index eea2b56..bd476b7 100644
--- a/render/octree_renderer.go
+++ b/render/octree_renderer.go
@@ -45,6 +45,9 @@ func NewOctreeRenderer(s sdf.SDF3, meshCells int) *octree {
 	bb := d3.Box(s.Bounds())
 	bb = bb.ScaleAboutCenter(1.01)
 	longAxis := d3.Max(bb.Size())
+	if longAxis == 0 {
+		return &octree{} // An empty SDF has nothing to render.
+	}
 	// We want to test the smallest cube (side == resolution) for emptiness
 	// so the level = 0 cube is at half resolution.
 	resolution := 0.5 * d3.Max(bb.Size()) / float64(meshCells)
-- 
2.43.0


From 0f6dcdc11cfb3bd19e7f2173020e7f2d09a7f942 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:26 +0000
Subject: [PATCH 18/51] fix: STL reader failed when the last bytes were read
 along with io.EOF

---
 render/stl.go | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/render/stl.go b/render/stl.go
index f1c5230..ac4cc20 100644
--- a/render/stl.go
+++ b/render/stl.go
@@ -192,13 +192,8 @@ func readBinarySTL(r io.Reader) (output []r3.Triangle, readErr error) {
 		}
 	}()
 	for i = 0; i < int(header.Count); i++ {
-		var n int
-		for n < 50 {
-			nr, err := r.Read(buf[n:])
-			if err != nil {
-				return nil, err
-			}
-			n += nr
+		if _, err := io.ReadFull(r, buf[:]); err != nil {
+			return nil, err
 		}
 		d.get(buf[:])
 		if err := d.validate(); err != nil {
-- 
2.43.0


From fe6db6d4ececca8f9f2d007802fee0caf9e8ef90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:36 +0000
Subject: [PATCH 19/51] fix: triangles of neighboring cubes did not share
 vertices exactly

---
 render/marchingcubes.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/render/marchingcubes.go b/render/marchingcubes.go
index c187565..00d1d90 100644
--- a/render/marchingcubes.go
+++ b/render/marchingcubes.go
@@ -56,6 +56,11 @@ func mcToTriangles(dst []r3.Triangle, p [8]r3.Vec, v [8]float64, x float64) (n i
 
 // mcInterpolate
 func mcInterpolate(p1, p2 r3.Vec, v1, v2, x float64) r3.Vec {
+	if p2.X < p1.X || p2.Y < p1.Y || p2.Z < p1.Z {
+		// Cubes that share an edge must calculate the exact same point,
+		// whichever end of the edge they start from.
+		p1, p2, v1, v2 = p2, p1, v2, v1
+	}
 	closeToV1 := math.Abs(x-v1) < marchingCubesEpsilon
 	closeToV2 := math.Abs(x-v2) < marchingCubesEpsilon
 
-- 
2.43.0


From ea20592d13ccdf1a92693dfc16309772580d9ee5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:59 +0000
Subject: [PATCH 20/51] fix: blended arrays and rotated unions gave NaN for
 blends undefined at infinity

---
 sdf2.go | 18 ++++++++++++++----
 sdf3.go | 18 ++++++++++++++----
 2 files changed, 28 insertions(+), 8 deletions(-)

diff --git a/sdf2.go b/sdf2.go
index 584e5d0..6ba4bf8 100644
--- a/sdf2.go
+++ b/sdf2.go
@@ -198,11 +198,17 @@ func (s *array2) SetMin(min MinFunc) {
 
 // Evaluate returns the minimum distance to a grid array of SDF2s.
 func (s *array2) Evaluate(p r2.Vec) float64 {
-	d := math.MaxFloat64
+	var d float64
+	first := true
 	for j := 0; j < s.num[0]; j++ {
 		for k := 0; k < s.num[1]; k++ {
 			x := r2.Sub(p, r2.Vec{X: float64(j) * s.step.X, Y: float64(k) * s.step.Y})
-			d = s.min(d, s.sdf.Evaluate(x))
+			if first {
+				first = false
+				d = s.sdf.Evaluate(x)
+			} else {
+				d = s.min(d, s.sdf.Evaluate(x))
+			}
 		}
 	}
 	return d
@@ -249,11 +255,15 @@ func RotateUnion2D(sdf SDF2, num int, step m33) SDF2 {
 
 // Evaluate returns the minimum distance to a union of rotated SDF2s.
 func (s *rotateUnion2) Evaluate(p r2.Vec) float64 {
-	d := math.MaxFloat64
+	var d float64
 	rot := identity2d()
 	for i := 0; i < s.num; i++ {
 		x := rot.MulPosition(p)
-		d = s.min(d, s.sdf.Evaluate(x))
+		if i == 0 {
+			d = s.sdf.Evaluate(x)
+		} else {
+			d = s.min(d, s.sdf.Evaluate(x))
+		}
 		rot = rot.Mul(s.step)
 	}
 	return d
diff --git a/sdf3.go b/sdf3.go
index fdbd196..f832098 100644
--- a/sdf3.go
+++ b/sdf3.go
@@ -644,12 +644,18 @@ func (s *array3) SetMin(min MinFunc) {
 
 // Evaluate returns the minimum distance to an XYZ SDF3 array.
 func (s *array3) Evaluate(p r3.Vec) float64 {
-	d := math.MaxFloat64
+	var d float64
+	first := true
 	for j := 0; j < s.num[0]; j++ {
 		for k := 0; k < s.num[1]; k++ {
 			for l := 0; l < s.num[2]; l++ {
 				x := r3.Sub(p, r3.Vec{X: float64(j) * s.step.X, Y: float64(k) * s.step.Y, Z: float64(l) * s.step.Z})
-				d = s.min(d, s.sdf.Evaluate(x))
+				if first {
+					first = false
+					d = s.sdf.Evaluate(x)
+				} else {
+					d = s.min(d, s.sdf.Evaluate(x))
+				}
 			}
 		}
 	}
@@ -698,11 +704,15 @@ func RotateUnion3D(sdf SDF3, num int, step m44) SDF3Union {
 
 // Evaluate returns the minimum distance to a rotate/union object.
 func (s *rotateUnion) Evaluate(p r3.Vec) float64 {
-	d := math.MaxFloat64
+	var d float64
 	rot := identity3d()
 	for i := 0; i < s.num; i++ {
 		x := rot.MulPosition(p)
-		d = s.min(d, s.sdf.Evaluate(x))
+		if i == 0 {
+			d = s.sdf.Evaluate(x)
+		} else {
+			d = s.min(d, s.sdf.Evaluate(x))
+		}
 		rot = rot.Mul(s.step)
 	}
 	return d
-- 
2.43.0


From babc66fa82c3877a364bc5ab7095d3361231dee2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:12 +0000
Subject: [PATCH 21/51] fix: must3.InchesPerMillimetre was 20

---
 form3/must3/util.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/form3/must3/util.go b/form3/must3/util.go
index 157e512..afc9a5c 100644
--- a/form3/must3/util.go
+++ b/form3/must3/util.go
@@ -3,7 +3,7 @@ package must3
 import "math"
 
 const (
-	InchesPerMillimetre = 20
+	InchesPerMillimetre = 1.0 / 25.4
 )
 
 func d2r(degrees float64) float64 { return degrees * math.Pi / 180. }
-- 
2.43.0


From 7692860987ffae6632159b342e76cd615f9253f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:27 +0000
Subject: [PATCH 22/51] fix: form3.ChamferedCylinder panicked instead of
 returning an error

---
 form3/basic.go | 24 ++++++++++--------------
 1 file changed, 10 insertions(+), 14 deletions(-)

diff --git a/form3/basic.go b/form3/basic.go
index 6f7b901..e9ae955 100644
--- a/form3/basic.go
+++ b/form3/basic.go
@@ -2,11 +2,9 @@ package form3
 
 import (
 	"fmt"
-	"math"
 	"runtime/debug"
 
 	"github.com/soypat/sdf"
-	form2 "github.com/soypat/sdf/form2/must2"
 	"github.com/soypat/sdf/form3/must3"
 	"gonum.org/v1/gonum/spatial/r3"
 )
@@ -78,16 +76,14 @@ func Cone(height, r0, r1, round float64) (s sdf.SDF3, err error) {
 }
 
 // ChamferedCylinder intersects a chamfered cylinder with an SDF3.
-func ChamferedCylinder(s sdf.SDF3, kb, kt float64) (sdf.SDF3, error) {
-	// get the length and radius from the bounding box
-	l := s.Bounds().Max.Z
-	r := s.Bounds().Max.X
-	p := form2.NewPolygon()
-	p.Add(0, -l)
-	p.Add(r, -l).Chamfer(r * kb)
-	p.Add(r, l).Chamfer(r * kt)
-	p.Add(0, l)
-	s0 := form2.Polygon(p.Vertices())
-	cc := sdf.Revolve3D(s0, 2*math.Pi)
-	return sdf.Intersect3D(s, cc), nil
+func ChamferedCylinder(s sdf.SDF3, kb, kt float64) (cc sdf.SDF3, err error) {
+	defer func() {
+		if a := recover(); a != nil {
+			err = &shapeErr{
+				panicObj: a,
+				stack:    string(debug.Stack()),
+			}
+		}
+	}()
+	return must3.ChamferedCylinder(s, kb, kt), err
 }
-- 
2.43.0


From 759374ae5c7f7e85015ba89d512fc9f93248873b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:28 +0000
Subject: [PATCH 23/51] fix: EuroRackPanel panicked for the default hole
 diameter and bad parameters

---
 form2/obj2/panel.go | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/form2/obj2/panel.go b/form2/obj2/panel.go
index b20e43b..9a6be40 100644
--- a/form2/obj2/panel.go
+++ b/form2/obj2/panel.go
@@ -1,6 +1,8 @@
 package obj2
 
 import (
+	"errors"
+
 	"github.com/soypat/sdf"
 	form2 "github.com/soypat/sdf/form2/must2"
 	"gonum.org/v1/gonum/spatial/r2"
@@ -97,18 +99,19 @@ func (k EuroRackParams) USize() float64 {
 
 // EuroRackPanel returns a 2d eurorack synthesizer module panel (in mm).
 func EuroRackPanel(k EuroRackParams) (s sdf.SDF2, err error) {
-	// TODO use error handling.
 	if k.U < 1 {
-		panic("k.U < 1")
+		return nil, errors.New("k.U < 1")
 	}
 	if k.HP <= 1 {
-		panic("k.HP <= 1")
+		return nil, errors.New("k.HP <= 1")
 	}
 	if k.CornerRadius < 0 {
-		panic("k.CornerRadius < 0")
+		return nil, errors.New("k.CornerRadius < 0")
+	}
+	if k.HoleDiameter < 0 {
+		return nil, errors.New("k.HoleDiameter < 0")
 	}
-	if k.HoleDiameter <= 0 {
-		panic("got <=0 hole diameter. file issue at github.com/soypat/sdf if this panic is incorrect")
+	if k.HoleDiameter == 0 {
 		k.HoleDiameter = erHoleDiameter
 	}
 
-- 
2.43.0


From 301b32b0f1de6ae1d926b8d999bb2368f3e33162 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:28 +0000
Subject: [PATCH 24/51] fix: 3D panels panicked for bad parameters instead of
 returning an error

---
 form3/obj3/panel.go | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/form3/obj3/panel.go b/form3/obj3/panel.go
index ea69aa0..c20ef25 100644
--- a/form3/obj3/panel.go
+++ b/form3/obj3/panel.go
@@ -1,6 +1,8 @@
 package obj3
 
 import (
+	"errors"
+
 	"github.com/soypat/sdf"
 	"github.com/soypat/sdf/form2/obj2"
 	form3 "github.com/soypat/sdf/form3/must3"
@@ -11,7 +13,7 @@ import (
 // Panel3D returns a 3d panel with holes on the edges.
 func Panel(k obj2.PanelParams) (s3 sdf.SDF3, err error) {
 	if k.Thickness <= 0 {
-		panic("k.Thickness <= 0")
+		return nil, errors.New("k.Thickness <= 0")
 	}
 	s, err := obj2.Panel(k)
 	if err != nil {
@@ -23,7 +25,7 @@ func Panel(k obj2.PanelParams) (s3 sdf.SDF3, err error) {
 // EuroRackPanel returns a 3d eurorack synthesizer module panel (in mm).
 func EuroRackPanel(k obj2.EuroRackParams) (sdf.SDF3, error) {
 	if k.Thickness <= 0 {
-		panic("k.Thickness <= 0")
+		return nil, errors.New("k.Thickness <= 0")
 	}
 	panel2d, err := obj2.EuroRackPanel(k)
 	if err != nil {
@@ -59,18 +61,17 @@ type PanelHoleParams struct {
 
 // PanelHole returns a panel hole and an indent for a retention pin.
 func PanelHole(k *PanelHoleParams) (sdf.SDF3, error) {
-	// TODO add error handling.
 	if k.Diameter <= 0 {
-		panic("k.Diameter <= 0")
+		return nil, errors.New("k.Diameter <= 0")
 	}
 	if k.Thickness <= 0 {
-		panic("k.Thickness <= 0")
+		return nil, errors.New("k.Thickness <= 0")
 	}
 	if d3.LTZero(k.Indent) {
-		panic("k.Indent < 0")
+		return nil, errors.New("k.Indent < 0")
 	}
 	if k.Offset < 0 {
-		panic("k.Offset")
+		return nil, errors.New("k.Offset < 0")
 	}
 	var indent, s sdf.SDF3
 	// build the hole
-- 
2.43.0


From b388d7f8b6b619539b889ddba0b1e510a1768766 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:53 +0000
Subject: [PATCH 25/51] fix: Standoff without a hole panicked

---
 form3/obj3/standoff.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/form3/obj3/standoff.go b/form3/obj3/standoff.go
index e0a2b36..5d390be 100644
--- a/form3/obj3/standoff.go
+++ b/form3/obj3/standoff.go
@@ -35,6 +35,9 @@ func Standoff(k StandoffParams) (s sdf.SDF3, err error) {
 	}
 	// Add the pillar hole/stub
 	hole := pillarHole(k)
+	if hole == nil {
+		return s, nil
+	}
 	if k.HoleDepth >= 0.0 {
 		s = sdf.Difference3D(s, hole)
 	} else {
-- 
2.43.0


From 5928ab8d5c5bf876fb9badd0b124d1c384da989e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:53 +0000
Subject: [PATCH 26/51] fix: Standoff with small webs cut off the pillar

---
 form3/obj3/standoff.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/form3/obj3/standoff.go b/form3/obj3/standoff.go
index 5d390be..164478e 100644
--- a/form3/obj3/standoff.go
+++ b/form3/obj3/standoff.go
@@ -30,7 +30,7 @@ func Standoff(k StandoffParams) (s sdf.SDF3, err error) {
 		webs := sdf.RotateCopy3D(pillarWeb(k), k.NumberWebs)
 		s = sdf.Union3D(s, webs)
 		// Cut off any part of the webs that protrude from the top of the pillar
-		cut := form3.Cylinder(k.PillarHeight, k.WebDiameter, 0)
+		cut := form3.Cylinder(k.PillarHeight, math.Max(k.WebDiameter, k.PillarDiameter), 0)
 		s = sdf.Intersect3D(s, cut)
 	}
 	// Add the pillar hole/stub
-- 
2.43.0


From bf5a588447f37d5b90b25d3ff9c42416a09609e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:54 +0000
Subject: [PATCH 27/51] fix: Standoff panicked for bad dimensions instead of
 returning an error

---
 form3/obj3/standoff.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/form3/obj3/standoff.go b/form3/obj3/standoff.go
index 164478e..b66d9af 100644
--- a/form3/obj3/standoff.go
+++ b/form3/obj3/standoff.go
@@ -1,6 +1,7 @@
 package obj3
 
 import (
+	"errors"
 	"math"
 
 	"github.com/soypat/sdf"
@@ -25,6 +26,14 @@ type StandoffParams struct {
 
 // Standoff returns a single board standoff.
 func Standoff(k StandoffParams) (s sdf.SDF3, err error) {
+	switch {
+	case k.PillarHeight <= 0 || k.PillarDiameter <= 0:
+		return nil, errors.New("pillar dimensions <= 0")
+	case k.HoleDiameter < 0:
+		return nil, errors.New("hole diameter < 0")
+	case k.NumberWebs > 0 && (k.WebHeight <= 0 || k.WebDiameter <= 0 || k.WebWidth <= 0):
+		return nil, errors.New("web dimensions <= 0")
+	}
 	s = pillar(k)
 	if k.NumberWebs > 0 {
 		webs := sdf.RotateCopy3D(pillarWeb(k), k.NumberWebs)
-- 
2.43.0


From 6bb7f52848bd060064bdcf5a9c439868b4ef74e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:54 +0000
Subject: [PATCH 28/51] fix: Bolt ignored invalid parameters

---
 form3/obj3/thread/bolt.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/form3/obj3/thread/bolt.go b/form3/obj3/thread/bolt.go
index 38058a0..eae73d1 100644
--- a/form3/obj3/thread/bolt.go
+++ b/form3/obj3/thread/bolt.go
@@ -31,6 +31,9 @@ func Bolt(k BoltParms) (s sdf.SDF3, err error) {
 	case k.Tolerance < 0:
 		err = errors.New("tolerance < 0")
 	}
+	if err != nil {
+		return nil, err
+	}
 	param := k.Thread.ThreadParams()
 	// head
 	var head sdf.SDF3
-- 
2.43.0


From 508bd47377bfcbc3f5ebf47fa4e1cfde8e7aa0ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:55 +0000
Subject: [PATCH 29/51] fix: screw taper used the arctangent of the taper angle
 as slope

---
 form3/obj3/thread/thread.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/form3/obj3/thread/thread.go b/form3/obj3/thread/thread.go
index 61a7ae9..97ebecc 100644
--- a/form3/obj3/thread/thread.go
+++ b/form3/obj3/thread/thread.go
@@ -71,7 +71,7 @@ func Screw(length float64, thread Threader) (sdf.SDF3, error) {
 	bb := s.thread.Bounds()
 	r := bb.Max.Y
 	// add the taper increment
-	r += s.length * math.Tan(s.taper)
+	r += s.length * math.Abs(math.Tan(s.taper))
 	s.bb = r3.Box{Min: r3.Vec{X: -r, Y: -r, Z: -s.length}, Max: r3.Vec{X: r, Y: r, Z: s.length}}
 	return &s, nil
 }
@@ -83,7 +83,7 @@ func (s *screw) Evaluate(p r3.Vec) float64 {
 	// the distance from the 3d z-axis maps to the 2d y-axis
 	p0.Y = math.Sqrt(p.X*p.X + p.Y*p.Y)
 	if s.taper != 0 {
-		p0.Y += p.Z * math.Atan(s.taper)
+		p0.Y += p.Z * math.Tan(s.taper)
 	}
 	// the x/y angle and the z-height map to the 2d x-axis
 	// ie: the position along thread pitch
-- 
2.43.0


From 641e8d8a74c3f38c3f69c664f8f9557d91c8e303 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:55 +0000
Subject: [PATCH 30/51] fix: Knurl panicked for bad parameters instead of
 returning an error

---
 form3/obj3/thread/knurl.go | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/form3/obj3/thread/knurl.go b/form3/obj3/thread/knurl.go
index 94365d6..482d66a 100644
--- a/form3/obj3/thread/knurl.go
+++ b/form3/obj3/thread/knurl.go
@@ -1,6 +1,7 @@
 package thread
 
 import (
+	"errors"
 	"math"
 
 	"github.com/soypat/sdf"
@@ -44,24 +45,23 @@ func (k KnurlParams) ThreadParams() Parameters {
 
 // Knurl returns a knurled cylinder.
 func Knurl(k KnurlParams) (s sdf.SDF3, err error) {
-	// TODO fix error handling.
 	if k.Length <= 0 {
-		panic("Length <= 0")
+		return nil, errors.New("Length <= 0")
 	}
 	if k.Radius <= 0 {
-		panic("Radius <= 0")
+		return nil, errors.New("Radius <= 0")
 	}
 	if k.Pitch <= 0 {
-		panic("Pitch <= 0")
+		return nil, errors.New("Pitch <= 0")
 	}
 	if k.Height <= 0 {
-		panic("Height <= 0")
+		return nil, errors.New("Height <= 0")
 	}
 	if k.Theta < 0 {
-		panic("Theta < 0")
+		return nil, errors.New("Theta < 0")
 	}
 	if k.Theta >= 90.*math.Pi/180. {
-		panic("Theta >= 90")
+		return nil, errors.New("Theta >= 90")
 	}
 	// Work out the number of starts using the desired helix angle.
 	k.starts = int(2 * math.Pi * k.Radius * math.Tan(k.Theta) / k.Pitch)
-- 
2.43.0


From 28654396a690c6500238ca09bde6b93db7a6a19b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:44 +0000
Subject: [PATCH 31/51] fix: Nut ignored the requested tolerance

---
 form3/obj3/thread/nut.go    |  2 +-
 form3/obj3/thread/thread.go | 17 +++++++++++++++++
 2 files changed, 18 insertions(+), 1 deletion(-)

diff --git a/form3/obj3/thread/nut.go b/form3/obj3/thread/nut.go
index a364f9f..a344747 100644
--- a/form3/obj3/thread/nut.go
+++ b/form3/obj3/thread/nut.go
@@ -71,7 +71,7 @@ func Nut(k NutParms) (s sdf.SDF3, err error) {
 		return nil, err
 	}
 	// internal thread
-	thread, err := Screw(nh, k.Thread)
+	thread, err := Screw(nh, tolerant{k.Thread, k.Tolerance})
 	if err != nil {
 		return nil, err
 	}
diff --git a/form3/obj3/thread/thread.go b/form3/obj3/thread/thread.go
index 97ebecc..9ea40fd 100644
--- a/form3/obj3/thread/thread.go
+++ b/form3/obj3/thread/thread.go
@@ -27,6 +27,23 @@ type Threader interface {
 	ThreadParams() Parameters
 }
 
+// tolerant is a Threader with a profile of larger radius.
+type tolerant struct {
+	Threader
+	tolerance float64
+}
+
+// Thread implements the Threader interface.
+func (t tolerant) Thread() (sdf.SDF2, error) {
+	profile, err := t.Threader.Thread()
+	if err != nil || t.tolerance == 0 {
+		return profile, err
+	}
+	moved := sdf.Transform2D(profile, sdf.Translate2D(r2.Vec{Y: t.tolerance}))
+	// The union fills the gap left at the screw axis.
+	return sdf.Union2D(profile, moved), nil
+}
+
 type ScrewParameters struct {
 	Length float64
 	Taper  float64
-- 
2.43.0


From f8db248c6fb18e444009df16308a9c4a5a7e8ab5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:53 +0000
Subject: [PATCH 32/51] fix: tapered screws were hollow along the axis

---
 form3/obj3/thread/thread.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/form3/obj3/thread/thread.go b/form3/obj3/thread/thread.go
index 9ea40fd..52f4d6e 100644
--- a/form3/obj3/thread/thread.go
+++ b/form3/obj3/thread/thread.go
@@ -100,7 +100,8 @@ func (s *screw) Evaluate(p r3.Vec) float64 {
 	// the distance from the 3d z-axis maps to the 2d y-axis
 	p0.Y = math.Sqrt(p.X*p.X + p.Y*p.Y)
 	if s.taper != 0 {
-		p0.Y += p.Z * math.Tan(s.taper)
+		// the axis is inside of the screw at any height
+		p0.Y = math.Abs(p0.Y + p.Z*math.Tan(s.taper))
 	}
 	// the x/y angle and the z-height map to the 2d x-axis
 	// ie: the position along thread pitch
-- 
2.43.0


From 36ad33b803a13685d47f9640b2baf0e53797df88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:51:54 +0000
Subject: [PATCH 33/51] fix: Multi2D panicked for no positions unlike Multi3D

---
 sdf2.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sdf2.go b/sdf2.go
index 6ba4bf8..499eadc 100644
--- a/sdf2.go
+++ b/sdf2.go
@@ -600,7 +600,7 @@ func Multi2D(s SDF2, positions d2.Set) SDF2 {
 		panic("nil sdf argument")
 	}
 	if len(positions) == 0 {
-		panic("empty positions")
+		return empty2From(s)
 	}
 	objects := make([]SDF2, len(positions))
 	for i, p := range positions {
-- 
2.43.0


From 5b8c22c60450d73a4f0a64b0dc4ef63b1b358023 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:51:55 +0000
Subject: [PATCH 34/51] fix: unions changed along with the caller's slice of
 operands

---
 sdf2.go | 2 +-
 sdf3.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/sdf2.go b/sdf2.go
index 499eadc..32931c8 100644
--- a/sdf2.go
+++ b/sdf2.go
@@ -393,7 +393,7 @@ func Union2D(sdf ...SDF2) SDF2Union {
 	if len(sdf) <= 1 {
 		panic("union requires at least 2 sdfs")
 	}
-	s := union2{sdf: sdf}
+	s := union2{sdf: append([]SDF2(nil), sdf...)}
 	for _, x := range s.sdf {
 		if x == nil {
 			panic("nil argument found")
diff --git a/sdf3.go b/sdf3.go
index f832098..1e2d0db 100644
--- a/sdf3.go
+++ b/sdf3.go
@@ -431,7 +431,7 @@ func Union3D(sdf ...SDF3) SDF3Union {
 		panic("union require at least 2 sdfs")
 	}
 	s := union3{
-		sdf: sdf,
+		sdf: append([]SDF3(nil), sdf...),
 	}
 	for i, x := range s.sdf {
 		if x == nil {
-- 
2.43.0


From 2c00c9b9f8a37f07a985412a634b224b6a27fe55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:52:15 +0000
Subject: [PATCH 35/51] fix: RotateCopy2D panicked for no copies unlike
 RotateCopy3D

---
 sdf2.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sdf2.go b/sdf2.go
index 32931c8..b0c1b1a 100644
--- a/sdf2.go
+++ b/sdf2.go
@@ -290,7 +290,7 @@ type rotateCopy2 struct {
 func RotateCopy2D(sdf SDF2, n int) SDF2 {
 	// check the number of steps
 	if n <= 0 {
-		panic("invalid number of steps")
+		return empty2From(sdf)
 	}
 	s := rotateCopy2{}
 	s.sdf = sdf
-- 
2.43.0


From bc43df9a8cee9e4450b9c64d8182631b193dd736 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:16:47 +0000
Subject: [PATCH 36/51] fix: imported models mixed up the ends of triangle
 sides

---
 helpers/sdfexp/spatial2.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/helpers/sdfexp/spatial2.go b/helpers/sdfexp/spatial2.go
index f6c8459..01c2d19 100644
--- a/helpers/sdfexp/spatial2.go
+++ b/helpers/sdfexp/spatial2.go
@@ -66,12 +66,12 @@ func distToLine(p r2.Vec, ln [2]r2.Vec) (r2.Vec, int) {
 	perpend2 := r2.Add(ln[1], perpendicular)
 	e2 := edgeEquation(p, [2]r2.Vec{ln[1], perpend2})
 	if e2 > 0 {
-		return r2.Sub(p, ln[1]), 0
+		return r2.Sub(p, ln[1]), 1
 	}
 	perpend1 := r2.Add(ln[0], perpendicular)
 	e1 := edgeEquation(p, [2]r2.Vec{ln[0], perpend1})
 	if e1 < 0 {
-		return r2.Sub(p, ln[0]), 1
+		return r2.Sub(p, ln[0]), 0
 	}
 	e3 := distToLineInfinite(p, ln) //edgeEquation(p, line)
 	return r2.Scale(-e3, r2.Unit(perpendicular)), 2
-- 
2.43.0


From ba4289aa00c6bbefa81ac443ed4dd644ba87053c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:38 +0000
Subject: [PATCH 37/51] fix: imported models gave distances to other than the
 nearest triangle

---
 helpers/sdfexp/import.go   | 41 +++++++++++++++++++++++++++----
 helpers/sdfexp/spatial3.go | 49 ++++++++++++++++++++------------------
 2 files changed, 63 insertions(+), 27 deletions(-)

diff --git a/helpers/sdfexp/import.go b/helpers/sdfexp/import.go
index 10fcbc7..822df37 100644
--- a/helpers/sdfexp/import.go
+++ b/helpers/sdfexp/import.go
@@ -31,11 +31,41 @@ type ImportedSDF3 struct {
 }
 
 func (s ImportedSDF3) Evaluate(q r3.Vec) float64 {
-	tri, dist2 := s.tree.Nearest(&meshTriangle{C: q})
-	kd := tri.(*meshTriangle)
-	return kd.CopySign(q, math.Sqrt(dist2))
+	near := nearestKeeper{dist2: math.Inf(1), radius: s.mesh.radius}
+	s.tree.NearestSet(&near, &meshTriangle{C: q})
+	closest, feature := near.tri.closest(q)
+	return near.tri.CopySign(q, closest, feature, math.Sqrt(near.dist2))
 }
 
+// nearestKeeper implements kdtree.Keeper. It keeps the nearest triangle.
+type nearestKeeper struct {
+	tri    *meshTriangle
+	dist2  float64 // squared distance to tri.
+	radius float64 // no triangle reaches further than this from its centroid.
+}
+
+// Keep keeps c if it is nearer than the triangle kept so far.
+func (k *nearestKeeper) Keep(c kdtree.ComparableDist) {
+	if k.tri == nil || c.Dist < k.dist2 || math.IsNaN(k.dist2) {
+		k.tri, k.dist2 = c.Comparable.(*meshTriangle), c.Dist
+	}
+}
+
+// Max returns the distance up to which the centroids of nearer triangles may
+// lie, since the tree is sorted by centroids.
+func (k *nearestKeeper) Max() kdtree.ComparableDist {
+	d := math.Sqrt(k.dist2) + k.radius
+	return kdtree.ComparableDist{Comparable: k.tri, Dist: d * d}
+}
+
+// The following methods complete heap.Interface for kdtree.Keeper.
+
+func (k *nearestKeeper) Len() int           { return 1 }
+func (k *nearestKeeper) Less(i, j int) bool { return false }
+func (k *nearestKeeper) Swap(i, j int)      {}
+func (k *nearestKeeper) Push(x interface{}) { k.Keep(x.(kdtree.ComparableDist)) }
+func (k *nearestKeeper) Pop() interface{}   { return k.Max() }
+
 func (s ImportedSDF3) Bounds() r3.Box {
 	return r3.Box{
 		Min: s.mesh.bb.Min,
@@ -45,7 +75,9 @@ func (s ImportedSDF3) Bounds() r3.Box {
 
 type mesh struct {
 	// bb is the bounding box of the whole mesh.
-	bb        d3.Box
+	bb d3.Box
+	// radius is the maximum distance of a vertex to the centroid of its triangle.
+	radius    float64
 	vertices  []pseudoVertex
 	triangles []meshTriangle
 	// access to edge pseudo normals using vertex index.
@@ -112,6 +144,7 @@ func newMesh(triangles []r3.Triangle, tol float64) (*mesh, error) {
 			m:    m,
 		}
 		for j, vert := range triangles[i] {
+			m.radius = math.Max(m.radius, r3.Norm(r3.Sub(vert, sdfT.C)))
 			// Scale vert to be integer in resolution-space.
 			v := r3.Scale(ri, vert)
 			vi := [3]int64{int64(v.X), int64(v.Y), int64(v.Z)}
diff --git a/helpers/sdfexp/spatial3.go b/helpers/sdfexp/spatial3.go
index 7882f5f..ba88777 100644
--- a/helpers/sdfexp/spatial3.go
+++ b/helpers/sdfexp/spatial3.go
@@ -13,14 +13,12 @@ import (
 // with special focus on kdTriangle type.
 
 type meshTriangle struct {
-	C           r3.Vec          // Centroid
-	lastFeature triangleFeature // result from last distance calculation
-	lastClosest r3.Vec
-	Vertices    [3]int
-	m           *mesh        // to be able to construct triangle geometry.
-	N           r3.Vec       // Pseudo Face normal (scaled by 2*pi)
-	T           d3.Transform // Canalis transformation matrix.
-	InvT        d3.Transform // inverse of T
+	C        r3.Vec // Centroid
+	Vertices [3]int
+	m        *mesh        // to be able to construct triangle geometry.
+	N        r3.Vec       // Pseudo Face normal (scaled by 2*pi)
+	T        d3.Transform // Canalis transformation matrix.
+	InvT     d3.Transform // inverse of T
 }
 
 func (t *meshTriangle) Compare(c kdtree.Comparable, d kdtree.Dim) float64 {
@@ -46,7 +44,14 @@ func (t *meshTriangle) Distance(c kdtree.Comparable) float64 {
 		}
 		point, t = t, point // make sure `t` is the triangle.
 	}
-	pxy := t.T.Transform(point.C)
+	closest, _ := t.closest(point.C)
+	return r3.Norm2(r3.Sub(point.C, closest))
+}
+
+// closest returns the point on the triangle closest to p and
+// the feature of the triangle it lies on.
+func (t *meshTriangle) closest(p r3.Vec) (r3.Vec, triangleFeature) {
+	pxy := t.T.Transform(p)
 	txy := t.triangle()
 	for i := range txy {
 		txy[i] = t.T.Transform(txy[i])
@@ -54,30 +59,28 @@ func (t *meshTriangle) Distance(c kdtree.Comparable) float64 {
 	// We find the closest point to the transformed triangle
 	// in 2D space and then transform the results back to 3D space
 	onTriangle, feat := closestOnTriangle2(lowerVec(pxy), [3]r2.Vec{lowerVec(txy[0]), lowerVec(txy[1]), lowerVec(txy[2])})
-	t.lastFeature = feat
-	t.lastClosest = t.InvT.Transform(r3.Vec{X: onTriangle.X, Y: onTriangle.Y})
-	return r3.Norm2(r3.Sub(point.C, t.lastClosest))
+	return t.InvT.Transform(r3.Vec{X: onTriangle.X, Y: onTriangle.Y}), feat
 }
 
 // CopySign returns a value with the magnitude of dist
-// and the sign depending on whether the last call to Distance was
-// inside or outside the solid defined by the mesh (SDF).
-// Copysign expects p to be the same vector as last call to Distance.
-func (t *meshTriangle) CopySign(p r3.Vec, dist float64) (signed float64) {
-	if t.lastFeature <= featureV2 {
-		// Distance last called nearest to triangle vertex.
-		vertex := t.m.vertices[t.Vertices[t.lastFeature]]
+// and the sign depending on whether p is inside or outside the solid
+// defined by the mesh (SDF).
+// Copysign expects the results of the closest method for p.
+func (t *meshTriangle) CopySign(p, closest r3.Vec, feature triangleFeature, dist float64) (signed float64) {
+	if feature <= featureV2 {
+		// Nearest to triangle vertex.
+		vertex := t.m.vertices[t.Vertices[feature]]
 		signed = r3.Dot(vertex.N, r3.Sub(p, vertex.V))
-	} else if t.lastFeature <= featureE2 {
-		vertex1 := t.lastFeature - 3
+	} else if feature <= featureE2 {
+		vertex1 := feature - 3
 		edge := [2]int{t.Vertices[vertex1], t.Vertices[(vertex1+1)%3]}
 		if edge[0] > edge[1] {
 			edge[0], edge[1] = edge[1], edge[0]
 		}
 		norm := t.m.pseudoEdgeN[edge]
-		signed = r3.Dot(norm, r3.Sub(p, t.lastClosest))
+		signed = r3.Dot(norm, r3.Sub(p, closest))
 	} else {
-		signed = r3.Dot(t.N, r3.Sub(p, t.lastClosest))
+		signed = r3.Dot(t.N, r3.Sub(p, closest))
 	}
 	return math.Copysign(dist, signed)
 }
-- 
2.43.0


From cb0934d1f69268b40e1c3df01bfd13e93cc05c64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:35 +0000
Subject: [PATCH 38/51] fix: ImportModelV2 gave wrong signs at sharp edges and
 corners

---
 helpers/sdfexp/bih.go | 24 +++++++++++++++++++++++-
 1 file changed, 23 insertions(+), 1 deletion(-)

diff --git a/helpers/sdfexp/bih.go b/helpers/sdfexp/bih.go
index de24743..ab286b2 100644
--- a/helpers/sdfexp/bih.go
+++ b/helpers/sdfexp/bih.go
@@ -198,7 +198,29 @@ func (bi *BIH) minDistTri(target r3.Vec, idx int) (r3.Vec, int) {
 		r3.Add(
 			r3.Scale(p[0], edge0),
 			r3.Scale(p[1], edge1)))
-	return r3.Sub(target, closest), FACE | idx
+	return r3.Sub(target, closest), bi.feature(p, idx)
+}
+
+// feature returns the flag and index of the normal that applies to the point
+// of triangle idx given by its coordinates along the first and last edge.
+func (bi *BIH) feature(p [2]float64, idx int) int {
+	const tol = 1e-12
+	onA, onB, onC := p[0]+p[1] >= 1-tol, p[0] <= tol, p[1] <= tol // opposite edge to a, b and c
+	switch {
+	case onB && onC:
+		return VERTEX | bi.Indices[idx][0]
+	case onA && onC:
+		return VERTEX | bi.Indices[idx][1]
+	case onA && onB:
+		return VERTEX | bi.Indices[idx][2]
+	case onC:
+		return EDGE | 3*idx
+	case onA:
+		return EDGE | (3*idx + 1)
+	case onB:
+		return EDGE | (3*idx + 2)
+	}
+	return FACE | idx
 }
 
 func (bi *BIH) getMinEdge02(a11 float64, b1 float64) (p [2]float64) {
-- 
2.43.0


From 56167aae4c4f8439c4eeacc838713490ef4510f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:27 +0000
Subject: [PATCH 39/51] fix: ImportModelV2 hung on surfaces that are not
 manifold

---
 helpers/sdfexp/bih.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/helpers/sdfexp/bih.go b/helpers/sdfexp/bih.go
index ab286b2..bb58f0e 100644
--- a/helpers/sdfexp/bih.go
+++ b/helpers/sdfexp/bih.go
@@ -584,7 +584,8 @@ func ImportModelV2(model []r3.Triangle, tol float64) (*BIH, error) {
 				edge_vert := tri[next_j[j]]
 				next_tri, ok := edges[[2]int{edge_vert, idx}]
 				//fmt.Printf("next tri %v %v %v\n", mesh[next_tri], edge_vert, idx)
-				for ok && next_tri != i {
+				// surfaces that are not manifold may lead astray into a circle
+				for n := 0; ok && next_tri != i && n < len(mesh); n++ {
 					alpha, wnormal = calc_alpha_wnormal(mesh[next_tri], idx, vertices)
 					normal_tot = r3.Add(normal_tot, wnormal)
 					weights += alpha
-- 
2.43.0


From ac31563a9e001450f742d7bab2b19fb245cb093a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:28:55 +0000
Subject: [PATCH 40/51] fix: tetrahedron meshes were folded by a mixup of box
 vertices

---
 helpers/sdfexp/bccmesh.go | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/helpers/sdfexp/bccmesh.go b/helpers/sdfexp/bccmesh.go
index 3c47b3f..e8dfcc8 100644
--- a/helpers/sdfexp/bccmesh.go
+++ b/helpers/sdfexp/bccmesh.go
@@ -22,7 +22,7 @@ type bccMatrix struct {
 
 type bccidx int
 
-// BCC node indices. follow same ordering as BoundingBox.Vertices.
+// BCC node indices. bccVertices follows the same ordering.
 const (
 	i000 bccidx = iota
 	ix00
@@ -36,6 +36,20 @@ const (
 	nBCC // number of BCC nodes.
 )
 
+// bccVertices returns the box vertices in order of the BCC node indices.
+func bccVertices(bb d3.Box) [ictr]r3.Vec {
+	return [ictr]r3.Vec{
+		i000: bb.Min,
+		ix00: {X: bb.Max.X, Y: bb.Min.Y, Z: bb.Min.Z},
+		ixy0: {X: bb.Max.X, Y: bb.Max.Y, Z: bb.Min.Z},
+		i0y0: {X: bb.Min.X, Y: bb.Max.Y, Z: bb.Min.Z},
+		i00z: {X: bb.Min.X, Y: bb.Min.Y, Z: bb.Max.Z},
+		ix0z: {X: bb.Max.X, Y: bb.Min.Y, Z: bb.Max.Z},
+		ixyz: bb.Max,
+		i0yz: {X: bb.Min.X, Y: bb.Max.Y, Z: bb.Max.Z},
+	}
+}
+
 var unmeshed = [nBCC]int{-1, -1, -1 /**/, -1, -1, -1 /**/, -1, -1, -1}
 
 type bccNode struct {
@@ -144,7 +158,7 @@ func (t *bccMesh) meshTetraBCC() (nodes []r3.Vec, tetras [][4]int) {
 	tetras = make([][4]int, 0, len(t.matrix.nodes))
 	t.matrix.foreach(func(_, _, _ int, node *bccNode) {
 		bb := d3.Box(node.box())
-		vert := bb.Vertices()
+		vert := bccVertices(bb)
 		nctr := n
 		node.bccnod[ictr] = nctr
 		n++
-- 
2.43.0


From 7694d591b6248cd438fc96ca7ab896b219c88042 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:29:15 +0000
Subject: [PATCH 41/51] fix: tetrahedron mesh smoothing stopped at the first
 boundary node

---
 helpers/sdfexp/omesh.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/helpers/sdfexp/omesh.go b/helpers/sdfexp/omesh.go
index 671ad40..4aded16 100644
--- a/helpers/sdfexp/omesh.go
+++ b/helpers/sdfexp/omesh.go
@@ -36,8 +36,8 @@ func newOmesh(nodes []r3.Vec, tetras [][4]int) *omesh {
 			on.tetras = append(on.tetras, otetra{tetidx: tetidx, hint: i})
 			// Add tetrahedron's incident nodes to onode connectivity if not present.
 			for j := 0; j < 3; j++ {
-				var existing int
-				c := tetra[(i+j+1)%3]
+				existing := -1
+				c := tetra[(i+j+1)%4]
 				// Lot of work goes into making sure connectivity is unique list.
 				for _, existing = range on.connectivity {
 					if c == existing {
@@ -82,8 +82,11 @@ func (om *omesh) compressAndSmooth(compress float64, s sdf.SDF3) {
 	}
 	// Apply laplacian smoothing to all non-boundary nodes after compression.
 	for i, nod := range om.nodes {
+		if len(nod.connectivity) == 0 {
+			continue // node is not part of the mesh.
+		}
 		if _, ok := boundary[i]; ok {
-			return // don't smooth boundary nodes.
+			continue // don't smooth boundary nodes.
 		}
 		var sum r3.Vec
 		for _, conn := range nod.connectivity {
-- 
2.43.0


From bf700adf65689cf993541801614a4f0b5e3762af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:29:55 +0000
Subject: [PATCH 42/51] fix: tetrahedron meshes left out parts near the bounds

---
 helpers/sdfexp/bccmesh.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/helpers/sdfexp/bccmesh.go b/helpers/sdfexp/bccmesh.go
index e8dfcc8..12a0bb8 100644
--- a/helpers/sdfexp/bccmesh.go
+++ b/helpers/sdfexp/bccmesh.go
@@ -134,6 +134,11 @@ func makeBCCMesh(b r3.Box, resolution float64) *bccMesh {
 	if div[0] < 3 || div[1] < 3 || div[2] < 3 {
 		panic("resolution too low")
 	}
+	// Add a layer of cells all around since tetrahedrons join the centers of cells.
+	b.Min = r3.Sub(b.Min, d3.Elem(resolution))
+	for i := range div {
+		div[i] += 2
+	}
 	Nnod := div[0] * div[1] * div[2]
 	mesh := &bccMesh{
 		resolution: resolution,
-- 
2.43.0


From 78bc953166fc6191211d45e3e9767ff14dc4fc66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:32:30 +0000
Subject: [PATCH 43/51] fix: tetrahedron mesh nodes in the surface were left
 inside the model

---
 helpers/sdfexp/omesh.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/helpers/sdfexp/omesh.go b/helpers/sdfexp/omesh.go
index 4aded16..f34342a 100644
--- a/helpers/sdfexp/omesh.go
+++ b/helpers/sdfexp/omesh.go
@@ -22,6 +22,9 @@ type otetra struct {
 type omesh struct {
 	nodes  []onode
 	tetras [][4]int
+	// outer nodes are those that were not inside the model before
+	// compression. All nodes on the outside of the mesh are among these.
+	outer map[int]bool
 }
 
 func newOmesh(nodes []r3.Vec, tetras [][4]int) *omesh {
@@ -70,11 +73,15 @@ func (om *omesh) compressAndSmooth(compress float64, s sdf.SDF3) {
 	if compress > 1 || compress < 0 {
 		panic("compress must be positive and less equal to 1")
 	}
+	if om.outer == nil {
+		om.outer = make(map[int]bool)
+		om.foreach(func(i int, on *onode) { om.outer[i] = s.Evaluate(on.pos) >= 0 })
+	}
 	boundary := make(map[int]struct{})
 	// first we compress boundary nodes towards sdf surface.
 	for i, nod := range om.nodes {
 		d := s.Evaluate(nod.pos)
-		if d > 0 {
+		if d > 0 || om.outer[i] {
 			boundary[i] = struct{}{}
 			n := r3.Scale(compress*d, r3.Unit(gradient(nod.pos, 1e-6, s.Evaluate)))
 			om.nodes[i].pos = r3.Sub(nod.pos, n)
-- 
2.43.0


From 2eb052cfb7e435f0a1e690a997555353019f5898 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:32:43 +0000
Subject: [PATCH 44/51] fix: tetrahedron mesh nodes midway between surfaces
 became NaN

---
 helpers/sdfexp/omesh.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/helpers/sdfexp/omesh.go b/helpers/sdfexp/omesh.go
index f34342a..4666966 100644
--- a/helpers/sdfexp/omesh.go
+++ b/helpers/sdfexp/omesh.go
@@ -83,7 +83,11 @@ func (om *omesh) compressAndSmooth(compress float64, s sdf.SDF3) {
 		d := s.Evaluate(nod.pos)
 		if d > 0 || om.outer[i] {
 			boundary[i] = struct{}{}
-			n := r3.Scale(compress*d, r3.Unit(gradient(nod.pos, 1e-6, s.Evaluate)))
+			g := gradient(nod.pos, 1e-6, s.Evaluate)
+			if g == (r3.Vec{}) {
+				continue // as far from one side of a gap as from the other.
+			}
+			n := r3.Scale(compress*d, r3.Unit(g))
 			om.nodes[i].pos = r3.Sub(nod.pos, n)
 		}
 	}
-- 
2.43.0


From 8b5d250ab91d93012b208d18125fa5320de8a00b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:55:42 +0000
Subject: [PATCH 45/51] fix: NaN polygon vertices for flat arcs and arcs
 between repeated vertices

---
 form2/must2/poly.go | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/form2/must2/poly.go b/form2/must2/poly.go
index 7ee224b..99c6742 100644
--- a/form2/must2/poly.go
+++ b/form2/must2/poly.go
@@ -243,8 +243,8 @@ func (p *PolygonBuilder) arcVertex(i int) bool {
 	mid := r2.Scale(0.5, r2.Add(a, b))
 	// distance from a to midpoint
 	dMid := r2.Norm(r2.Sub(mid, a))
-	if radius < dMid*(1-tolerance) {
-		// unable to make the arc - radius is less than half the chord
+	if dMid == 0 || radius < dMid*(1-tolerance) {
+		// unable to make the arc - no chord or radius is less than half the chord
 		return false
 	}
 	// distance from midpoint to center of arc
@@ -252,9 +252,7 @@ func (p *PolygonBuilder) arcVertex(i int) bool {
 	// center of arc
 	c := r2.Add(mid, r2.Scale(dCenter, n))
 	// work out the angle
-	ac := r2.Unit(r2.Sub(a, c))
-	bc := r2.Unit(r2.Sub(b, c))
-	dtheta := -side * math.Acos(math.Max(-1, r2.Dot(ac, bc))) / float64(v.facets)
+	dtheta := -side * 2 * math.Atan2(dMid, dCenter) / float64(v.facets)
 	// rotation matrix
 	m := sdf.Rotate(dtheta)
 	// radius vector
-- 
2.43.0


From b142a81bbd8b4ea1d394528d8424a8e8fc4eba4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:55:43 +0000
Subject: [PATCH 46/51] fix: smoothing polygon vertices repeated by their
 neighbor gave NaN vertices

---
 form2/must2/poly.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/form2/must2/poly.go b/form2/must2/poly.go
index 99c6742..1125017 100644
--- a/form2/must2/poly.go
+++ b/form2/must2/poly.go
@@ -298,6 +298,10 @@ func (p *PolygonBuilder) smoothVertex(i int) bool {
 		// can't smooth the endpoints of an open polygon
 		return false
 	}
+	if vp.vertex == v.vertex || vn.vertex == v.vertex {
+		// unable to smooth - no angle at repeated vertices
+		return false
+	}
 	// work out the angle
 	v0 := r2.Unit(r2.Sub(vp.vertex, v.vertex))
 	v1 := r2.Unit(r2.Sub(vn.vertex, v.vertex))
-- 
2.43.0


From 505e6c5283080250e76146525988e54d12041863 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:36:55 +0000
Subject: [PATCH 47/51] fix: Bolt panicked for heads too large for the thread
 instead of returning an error

---
 form3/obj3/thread/bolt.go | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/form3/obj3/thread/bolt.go b/form3/obj3/thread/bolt.go
index eae73d1..eecbc7b 100644
--- a/form3/obj3/thread/bolt.go
+++ b/form3/obj3/thread/bolt.go
@@ -4,6 +4,7 @@ import (
 	"errors"
 
 	"github.com/soypat/sdf"
+	"github.com/soypat/sdf/form3"
 	"github.com/soypat/sdf/form3/must3"
 	"gonum.org/v1/gonum/spatial/r3"
 )
@@ -45,17 +46,23 @@ func Bolt(k BoltParms) (s sdf.SDF3, err error) {
 	}
 	switch k.Style {
 	case NutHex:
-		head, _ = HexHead(hr, hh, "b")
+		head, err = HexHead(hr, hh, "b")
 	case NutKnurl:
-		head, _ = KnurledHead(hr, hh, hr*0.25)
+		head, err = KnurledHead(hr, hh, hr*0.25)
 	default:
 		return nil, errors.New("unknown style for bolt: " + k.Style.String())
 	}
+	if err != nil {
+		return nil, err
+	}
 
 	// shank
 	shankLength := k.ShankLength + hh/2
 	shankOffset := shankLength / 2
-	var shank sdf.SDF3 = must3.Cylinder(shankLength, param.Radius, hh*0.08)
+	shank, err := form3.Cylinder(shankLength, param.Radius, hh*0.08)
+	if err != nil {
+		return nil, err
+	}
 	shank = sdf.Transform3D(shank, sdf.Translate3D(r3.Vec{X: 0, Y: 0, Z: shankOffset}))
 
 	// external thread
-- 
2.43.0


From 00eb2ecc5b24f762b22cf22de997bcc7ff8a76dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:00:15 +0000
Subject: [PATCH 48/51] fix: long tapered screws were hollow along the axis

---
 form3/obj3/thread/thread.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/form3/obj3/thread/thread.go b/form3/obj3/thread/thread.go
index 52f4d6e..36c6cda 100644
--- a/form3/obj3/thread/thread.go
+++ b/form3/obj3/thread/thread.go
@@ -56,6 +56,7 @@ type screw struct {
 	lead   float64  // distance per turn (starts * pitch)
 	length float64  // total length of screw
 	taper  float64  // thread taper angle
+	core   float64  // radius well within the thread
 	// starts int     // number of thread starts
 	bb r3.Box // bounding box
 }
@@ -87,6 +88,7 @@ func Screw(length float64, thread Threader) (sdf.SDF3, error) {
 	// The max-y axis of the sdf2 bounding box is the radius of the thread.
 	bb := s.thread.Bounds()
 	r := bb.Max.Y
+	s.core = r / 4
 	// add the taper increment
 	r += s.length * math.Abs(math.Tan(s.taper))
 	s.bb = r3.Box{Min: r3.Vec{X: -r, Y: -r, Z: -s.length}, Max: r3.Vec{X: r, Y: r, Z: s.length}}
@@ -100,8 +102,11 @@ func (s *screw) Evaluate(p r3.Vec) float64 {
 	// the distance from the 3d z-axis maps to the 2d y-axis
 	p0.Y = math.Sqrt(p.X*p.X + p.Y*p.Y)
 	if s.taper != 0 {
-		// the axis is inside of the screw at any height
-		p0.Y = math.Abs(p0.Y + p.Z*math.Tan(s.taper))
+		p0.Y += p.Z * math.Tan(s.taper)
+		if p0.Y < 0 {
+			// the axis is inside of the screw at any height
+			p0.Y = math.Min(-p0.Y, s.core)
+		}
 	}
 	// the x/y angle and the z-height map to the 2d x-axis
 	// ie: the position along thread pitch
-- 
2.43.0


From 61e91ede083f718ee9f025407eedfd1b8680b083 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:52:04 +0000
Subject: [PATCH 49/51] fix: rotateToVec stays accurate for nearly opposite
 directions

---
 matrix.go | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/matrix.go b/matrix.go
index e6462a2..b4e315b 100644
--- a/matrix.go
+++ b/matrix.go
@@ -513,14 +513,21 @@ func rotateToVec(a, b r3.Vec) m44 {
 		return identity3d()
 	}
 
-	// are the vectors opposite (180 degrees apart)?
-	if d3.EqualWithin(r3.Scale(-1, a), b, epsilon) {
-		// Half turn about an axis perpendicular to a.
-		axis := r3.Cross(a, r3.Vec{X: 1})
-		if math.Abs(a.X) > sqrtHalf {
-			axis = r3.Cross(a, r3.Vec{Y: 1})
+	// More than a quarter turn: a half turn takes a to -a, what remains is less
+	// than a quarter turn. The general case loses precision as 1+dot(a,b) nears zero.
+	if r3.Dot(a, b) < 0 {
+		axis := r3.Cross(a, b)
+		if r3.Norm(axis) < tolerance {
+			// (nearly) opposite vectors: any axis perpendicular to a will do.
+			axis = r3.Cross(a, r3.Vec{X: 1})
+			if math.Abs(a.X) > sqrtHalf {
+				axis = r3.Cross(a, r3.Vec{Y: 1})
+			}
 		}
-		return Rotate3D(axis, pi)
+		axis = r3.Unit(axis)
+		axis = r3.Sub(axis, r3.Scale(r3.Dot(axis, a), a))
+		minusA := r3.Scale(-1, a)
+		return rotateToVec(minusA, b).Mul(Rotate3D(axis, pi))
 	}
 	// general case
 	// See:	https://math.stackexchange.com/questions/180418/calculate-rotation-matrix-to-align-vector-a-to-vector-b-in-3d
-- 
2.43.0


From 01b56d526008bc2a3e29650380e9491e6f09f64b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:03:33 +0000
Subject: [PATCH 50/51] fix: signs of imported models with very thin triangles

---
 helpers/sdfexp/bih.go    | 4 ++--
 helpers/sdfexp/import.go | 3 ++-
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/helpers/sdfexp/bih.go b/helpers/sdfexp/bih.go
index bb58f0e..2e1f595 100644
--- a/helpers/sdfexp/bih.go
+++ b/helpers/sdfexp/bih.go
@@ -445,8 +445,8 @@ func calc_alpha_wnormal(tri [3]int, vert_idx int, vertices []r3.Vec) (float64, r
 	ca := r3.Sub(c, a)
 	norm := r3.Cross(ba, ca)
 
-	cosalpha := r3.Dot(ba, ca) / (dist(ba) * dist(ca))
-	alpha := math.Acos(cosalpha)
+	// The arctangent is also accurate (and never NaN) for thin triangles.
+	alpha := math.Atan2(dist(norm), r3.Dot(ba, ca))
 	return alpha, r3.Scale(alpha, r3.Unit(norm))
 }
 
diff --git a/helpers/sdfexp/import.go b/helpers/sdfexp/import.go
index 822df37..0244519 100644
--- a/helpers/sdfexp/import.go
+++ b/helpers/sdfexp/import.go
@@ -159,7 +159,8 @@ func newMesh(triangles []r3.Triangle, tol float64) (*mesh, error) {
 			}
 			// Calculate vertex pseudo normal
 			s1, s2 := r3.Sub(vert, tri[(j+1)%3]), r3.Sub(vert, tri[(j+2)%3])
-			alpha := math.Acos(r3.Cos(s1, s2))
+			// The arctangent is also accurate (and never NaN) for thin triangles.
+			alpha := math.Atan2(r3.Norm(r3.Cross(s1, s2)), r3.Dot(s1, s2))
 			m.vertices[vertexIdx].N = r3.Add(m.vertices[vertexIdx].N, r3.Scale(alpha, norm))
 			sdfT.Vertices[j] = vertexIdx
 		}
-- 
2.43.0


From 5f76ee8c3b3a80637ed77ed3ddb191881eeb7726 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:47:58 +0000
Subject: [PATCH 51/51] fix: rounded hex heads taller than the rounding sphere
 keep both ends

---
 form3/obj3/thread/hexhead.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/form3/obj3/thread/hexhead.go b/form3/obj3/thread/hexhead.go
index 937ab59..68c43b7 100644
--- a/form3/obj3/thread/hexhead.go
+++ b/form3/obj3/thread/hexhead.go
@@ -30,16 +30,18 @@ func HexHead(radius float64, height float64, round string) (s sdf.SDF3, err erro
 	if round != "" {
 		topRound := radius * 1.6
 		d := radius * math.Cos(30.0*math.Pi/180.0)
-		sphere3d, err := form3.Sphere(topRound)
+		// The caps of the capsule are a head height apart, so that
+		// the rounding of one end never reaches the other end.
+		capsule, err := form3.Capsule(height+2*topRound, topRound)
 		if err != nil {
 			return nil, err
 		}
-		zOfs := math.Sqrt(topRound*topRound-d*d) - height/2
+		zOfs := math.Sqrt(topRound*topRound - d*d)
 		if round == "t" || round == "tb" {
-			hex3d = sdf.Intersect3D(hex3d, sdf.Transform3D(sphere3d, sdf.Translate3D(r3.Vec{X: 0, Y: 0, Z: -zOfs})))
+			hex3d = sdf.Intersect3D(hex3d, sdf.Transform3D(capsule, sdf.Translate3D(r3.Vec{X: 0, Y: 0, Z: -zOfs})))
 		}
 		if round == "b" || round == "tb" {
-			hex3d = sdf.Intersect3D(hex3d, sdf.Transform3D(sphere3d, sdf.Translate3D(r3.Vec{X: 0, Y: 0, Z: zOfs})))
+			hex3d = sdf.Intersect3D(hex3d, sdf.Transform3D(capsule, sdf.Translate3D(r3.Vec{X: 0, Y: 0, Z: zOfs})))
 		}
 	}
 	return hex3d, nil // TODO error handling.
-- 
2.43.0

