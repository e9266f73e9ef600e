package harness

import (
	"fmt"
	"math"
	"testing"

	"github.com/soypat/sdf"
	"github.com/soypat/sdf/form2/must2"
	"github.com/soypat/sdf/form3"
	"gonum.org/v1/gonum/spatial/r2"
	"gonum.org/v1/gonum/spatial/r3"
)

// points2 returns query points around n: spread over the grown reference box,
// close to the surface (found by bisection of the reference), and points with
// zero coordinates.
func (c *Case) points2(n *S2, k int) []r2.Vec {
	ps := c.Pts2("q")
	out := []r2.Vec{n.w, {}, {X: n.w.X}, {Y: n.w.Y}}
	box := growBox2(n.rb, 0.2, 0.3)
	for i := 0; i < k; i++ {
		out = append(out, ps.in(i, box))
	}
	l := n.size() + absmax2(n.rb)
	for i := 0; i < k/2; i++ {
		u := ps.at(i + 1000)
		a := 2 * math.Pi * u.X
		in, ou := n.w, r2.Add(n.w, v2(3*l*math.Cos(a), 3*l*math.Sin(a)))
		if n.ref(ou) <= 0 {
			continue
		}
		for j := 0; j < 60; j++ {
			m := r2.Scale(0.5, r2.Add(in, ou))
			if n.ref(m) < 0 {
				in = m
			} else {
				ou = m
			}
		}
		e := math.Pow(10, -1-4*u.Y) * (n.size() + 1e-3)
		d := v2(e*math.Cos(a), e*math.Sin(a))
		out = append(out, r2.Sub(in, d), r2.Add(ou, d))
	}
	return append(out, r2.Scale(20, box.Min), r2.Add(box.Max, v2(50*l, 0)))
}

func (c *Case) points3(n *S3, k int) []r3.Vec {
	ps := c.Pts3("q")
	out := []r3.Vec{n.w, {}, {X: n.w.X}, {Y: n.w.Y}, {Z: n.w.Z}, {X: n.w.X, Y: n.w.Y}}
	box := growBox3(n.rb, 0.2, 0.3)
	for i := 0; i < k; i++ {
		out = append(out, ps.in(i, box))
	}
	l := n.size() + absmax3(n.rb)
	for i := 0; i < k/2; i++ {
		u := ps.at(i + 1000)
		z := 2*u.X - 1
		a := 2 * math.Pi * u.Y
		r := math.Sqrt(1 - z*z)
		dir := v3(r*math.Cos(a), r*math.Sin(a), z)
		in, ou := n.w, r3.Add(n.w, r3.Scale(3*l, dir))
		if n.ref(ou) <= 0 {
			continue
		}
		for j := 0; j < 60; j++ {
			m := r3.Scale(0.5, r3.Add(in, ou))
			if n.ref(m) < 0 {
				in = m
			} else {
				ou = m
			}
		}
		e := math.Pow(10, -1-4*u.Z) * (n.size() + 1e-3)
		d := r3.Scale(e, dir)
		out = append(out, r3.Sub(in, d), r3.Add(ou, d))
	}
	return append(out, r3.Scale(20, box.Min), r3.Add(box.Max, v3(50*l, 0, 0)))
}

// jitter reports whether the reference takes the value g within rounding error
// of p: fields such as an asymmetric rotational copy jump across sector planes.
func jitter2(n *S2, p r2.Vec, g float64) bool {
	e := n.tol(p)
	for i := 0; i < 8; i++ {
		a := float64(i) * math.Pi / 4
		v := n.ref(r2.Add(p, v2(e*math.Cos(a), e*math.Sin(a))))
		if math.Abs(v-g) <= 100*e {
			return true
		}
	}
	return false
}

func jitter3(n *S3, p r3.Vec, g float64) bool {
	e := n.tol(p)
	for i := 0; i < 27; i++ {
		v := n.ref(r3.Add(p, v3(e*float64(i%3-1), e*float64(i/3%3-1), e*float64(i/9-1))))
		if math.Abs(v-g) <= 100*e {
			return true
		}
	}
	return false
}

// agree2 compares the SDF with its reference: membership everywhere, value too
// when the reference fixes it.
func agree2(c *Case, n *S2, pts []r2.Vec) {
	in, out := 0, 0
	for _, p := range pts {
		r, g := n.ref(p), n.s.Evaluate(p)
		tol := n.tol(p) * 10
		if math.IsNaN(r) {
			continue
		}
		if math.IsNaN(g) {
			c.Failf("%s: Evaluate(%v) = NaN, reference %v", n.desc, p, r)
		}
		if math.Abs(r) > tol && (g < 0) != (r < 0) {
			if jitter2(n, p, g) {
				c.Label("at a discontinuity")
				continue
			}
			c.Failf("%s: membership of %v: got %v, reference %v", n.desc, p, g, r)
		}
		if n.val && math.Abs(g-r) > tol+1e-9*math.Abs(r) {
			if jitter2(n, p, g) {
				c.Label("at a discontinuity")
				continue
			}
			c.Failf("%s: distance at %v: got %v, reference %v", n.desc, p, g, r)
		}
		if r < 0 {
			in++
		} else {
			out++
		}
	}
	if in >= 3 && out >= 3 {
		c.NonTrivial()
	}
}

func agree3(c *Case, n *S3, pts []r3.Vec) {
	in, out := 0, 0
	for _, p := range pts {
		r, g := n.ref(p), n.s.Evaluate(p)
		tol := n.tol(p) * 10
		if math.IsNaN(r) {
			continue
		}
		if math.IsNaN(g) {
			c.Failf("%s: Evaluate(%v) = NaN, reference %v", n.desc, p, r)
		}
		if math.Abs(r) > tol && (g < 0) != (r < 0) {
			if jitter3(n, p, g) {
				c.Label("at a discontinuity")
				continue
			}
			c.Failf("%s: membership of %v: got %v, reference %v", n.desc, p, g, r)
		}
		if n.val && math.Abs(g-r) > tol+1e-9*math.Abs(r) {
			if jitter3(n, p, g) {
				c.Label("at a discontinuity")
				continue
			}
			c.Failf("%s: distance at %v: got %v, reference %v", n.desc, p, g, r)
		}
		if r < 0 {
			in++
		} else {
			out++
		}
	}
	if in >= 3 && out >= 3 {
		c.NonTrivial()
	}
}

const ruleInOut = "at least 3 query points inside and 3 outside the solid according to the reference"

func near(a, b, tol float64) bool { return math.Abs(a-b) <= tol }

func sameBox3(a, b r3.Box, tol float64) bool {
	d, e := r3.Sub(a.Min, b.Min), r3.Sub(a.Max, b.Max)
	return math.Max(math.Max(math.Abs(d.X), math.Abs(d.Y)), math.Abs(d.Z)) <= tol && math.Max(math.Max(math.Abs(e.X), math.Abs(e.Y)), math.Abs(e.Z)) <= tol
}

func sameBox2(a, b r2.Box, tol float64) bool {
	d, e := r2.Sub(a.Min, b.Min), r2.Sub(a.Max, b.Max)
	return math.Max(math.Abs(d.X), math.Abs(d.Y)) <= tol && math.Max(math.Abs(e.X), math.Abs(e.Y)) <= tol
}

// --- C01 primitives ----------------------------------------------------------

func TestC01_Primitives2D(t *testing.T) {
	check(t, 1500, ruleInOut, func(c *Case) {
		n := c.prim2("a")
		c.Desc("%s", n.desc)
		pts := c.points2(n, 24)
		// corners and edges of the bounds are the interesting places
		for i := 0; i < 9; i++ {
			fx, fy := float64(i%3)/2, float64(i/3)/2
			p := v2(n.rb.Min.X+fx*(n.rb.Max.X-n.rb.Min.X), n.rb.Min.Y+fy*(n.rb.Max.Y-n.rb.Min.Y))
			pts = append(pts, p, r2.Scale(1.25, p), r2.Scale(0.5, p))
		}
		agree2(c, n, pts)
		if !sameBox2(n.s.Bounds(), n.rb, 1e-9*(1+n.size())) {
			c.Failf("%s: bounds %v, extent %v", n.desc, n.s.Bounds(), n.rb)
		}
	})
}

func TestC01_Primitives3D(t *testing.T) {
	check(t, 1500, ruleInOut, func(c *Case) {
		n := c.prim3("a")
		c.Desc("%s", n.desc)
		pts := c.points3(n, 24)
		for i := 0; i < 27; i++ {
			fx, fy, fz := float64(i%3)/2, float64(i/3%3)/2, float64(i/9)/2
			p := v3(n.rb.Min.X+fx*(n.rb.Max.X-n.rb.Min.X), n.rb.Min.Y+fy*(n.rb.Max.Y-n.rb.Min.Y), n.rb.Min.Z+fz*(n.rb.Max.Z-n.rb.Min.Z))
			pts = append(pts, p, r3.Scale(1.25, p), r3.Scale(0.5, p))
		}
		agree3(c, n, pts)
		for _, p := range pts {
			if n.ref(p) < -n.tol(p)*10 && outside3(n.s.Bounds(), p) > n.tol(p) {
				c.Failf("%s: %v is inside the solid and outside its bounds %v", n.desc, p, n.s.Bounds())
			}
		}
	})
}

// TestC01_Tight: boxes, spheres and cylinders have the tight bounding box.
func TestC01_Tight3D(t *testing.T) {
	check(t, 500, "every case", func(c *Case) {
		var n *S3
		switch c.Pick("kind", "sphere", "box", "cyl", "capsule") {
		case "sphere":
			n = sphere3(c.LogF("r", 0.01, 100))
		case "box":
			x, y, z := c.LogF("x", 0.01, 100), c.LogF("y", 0.01, 100), c.LogF("z", 0.01, 100)
			n = box3(x, y, z, c.F("round", 0, 0.5)*math.Min(x, math.Min(y, z)))
		case "cyl":
			h, r := c.LogF("h", 0.01, 100), c.LogF("r", 0.01, 100)
			n = cylinder3(h, r, c.F("round", 0, 1)*math.Min(r, h/2))
		case "capsule":
			r, l := c.LogF("r", 0.01, 100), c.LogF("l", 0.01, 100)
			n = cylinder3(2*r+l, r, r)
			// the dedicated constructor makes the same solid
			s, err := form3.Capsule(2*r+l, r)
			if err != nil {
				c.Failf("capsule: %v", err)
			}
			for i, p := range c.points3(n, 20) {
				if a, b := s.Evaluate(p), n.s.Evaluate(p); !near(a, b, n.tol(p)) {
					c.Failf("capsule(h %v, r %v) point %d %v: %v, rounded cylinder %v", 2*r+l, r, i, p, a, b)
				}
			}
		}
		c.Desc("%s", n.desc)
		c.NonTrivial()
		if !sameBox3(n.s.Bounds(), n.rb, 1e-9*(1e-3+n.size())) {
			c.Failf("%s: bounds %v, extent %v", n.desc, n.s.Bounds(), n.rb)
		}
	})
}

// --- C02 bounds --------------------------------------------------------------

func TestC02_Bounds2D(t *testing.T) {
	check(t, 1200, ruleInOut, func(c *Case) {
		n := c.op2("t", c.I("depth", 1, 3), ops2all)
		c.Desc("%s", n.desc)
		bounds2(c, n)
	})
}

func TestC02_Slice2D(t *testing.T) {
	check(t, 400, ruleInOut, func(c *Case) {
		n := c.slice2("s", c.tree3("t", c.I("depth", 0, 2), ops3all))
		c.Desc("%s", n.desc)
		bounds2(c, n)
	})
}

func bounds2(c *Case, n *S2) {
	bb := n.s.Bounds()
	in, out := 0, 0
	for _, p := range c.points2(n, 60) {
		tol := 20 * n.tol(p)
		if n.s.Evaluate(p) < -tol {
			in++
			if outside2(bb, p) > tol {
				c.Failf("%s: point %v is inside (%v) but outside the bounds %v", n.desc, p, n.s.Evaluate(p), bb)
			}
		} else {
			out++
		}
	}
	if in >= 3 && out >= 3 {
		c.NonTrivial()
	}
	climb2(c, n, bb)
}

// climb2 searches for inside points ever further in each axis direction.
func climb2(c *Case, n *S2, bb r2.Box) {
	ps := c.Pts2("climb")
	k := 0
	for _, dir := range []r2.Vec{{X: 1}, {X: -1}, {Y: 1}, {Y: -1}} {
		best, ok := n.w, n.s.Evaluate(n.w) < 0
		if !ok {
			return
		}
		step := 0.3 * n.size()
		for i := 0; i < 60; i++ {
			k++
			u := ps.at(k)
			q := r2.Add(best, r2.Scale(step, r2.Add(v2(2*u.X-1, 2*u.Y-1), r2.Scale(0.5, dir))))
			if r2.Dot(r2.Sub(q, best), dir) > 0 && n.s.Evaluate(q) < -20*n.tol(q) {
				best = q
			} else {
				step *= 0.9
			}
		}
		if outside2(bb, best) > 20*n.tol(best) {
			c.Failf("%s: point %v is inside (%v) but outside the bounds %v", n.desc, best, n.s.Evaluate(best), bb)
		}
	}
}

// climb3 searches for inside points ever further in each axis direction.
func climb3(c *Case, n *S3, bb r3.Box) {
	ps := c.Pts3("climb")
	k := 0
	for _, dir := range []r3.Vec{{X: 1}, {X: -1}, {Y: 1}, {Y: -1}, {Z: 1}, {Z: -1}} {
		best, ok := n.w, n.s.Evaluate(n.w) < 0
		if !ok {
			return
		}
		step := 0.3 * n.size()
		for i := 0; i < 60; i++ {
			k++
			u := ps.at(k)
			q := r3.Add(best, r3.Scale(step, r3.Add(v3(2*u.X-1, 2*u.Y-1, 2*u.Z-1), r3.Scale(0.5, dir))))
			if r3.Dot(r3.Sub(q, best), dir) > 0 && n.s.Evaluate(q) < -20*n.tol(q) {
				best = q
			} else {
				step *= 0.9
			}
		}
		if outside3(bb, best) > 20*n.tol(best) {
			c.Failf("%s: point %v is inside (%v) but outside the bounds %v", n.desc, best, n.s.Evaluate(best), bb)
		}
	}
}

func TestC02_Bounds3D(t *testing.T) {
	check(t, 1500, ruleInOut, func(c *Case) {
		n := c.op3("t", c.I("depth", 1, 3), ops3all, ops3all)
		c.Desc("%s", n.desc)
		bb := n.s.Bounds()
		in, out := 0, 0
		for _, p := range c.points3(n, 60) {
			tol := 20 * n.tol(p)
			if n.s.Evaluate(p) < -tol {
				in++
				if outside3(bb, p) > tol {
					c.Failf("%s: point %v is inside (%v) but outside the bounds %v", n.desc, p, n.s.Evaluate(p), bb)
				}
			} else {
				out++
			}
		}
		if in >= 3 && out >= 3 {
			c.NonTrivial()
		}
		climb3(c, n, bb)
	})
}

// --- C03..C07: membership and value per family of operations ------------------

func fam2(t *testing.T, n int, ops []string) {
	check(t, n, ruleInOut, func(c *Case) {
		c.iso = true
		s := c.op2("t", c.I("depth", 1, 3), ops)
		c.Desc("%s", s.desc)
		agree2(c, s, c.points2(s, 40))
	})
}

func fam3(t *testing.T, n int, ops []string) {
	check(t, n, ruleInOut, func(c *Case) {
		c.iso = true
		s := c.op3("t", c.I("depth", 1, 3), ops, ops3all)
		c.Desc("%s", s.desc)
		agree3(c, s, c.points3(s, 40))
	})
}

func TestC03_Boolean2D(t *testing.T) { fam2(t, 1500, ops2bool) }
func TestC03_Boolean3D(t *testing.T) { fam3(t, 1500, ops3bool) }

// TestC03_Union2DPruning: the union of many far-apart and nested exact shapes
// still equals the minimum over all of them.
func TestC03_Union2DMany(t *testing.T) {
	check(t, 500, ruleInOut, func(c *Case) {
		k := c.Cnt("k", 2, 9, 40)
		var ch []*S2
		for i := 0; i < k; i++ {
			nm := fmt.Sprintf("u%d", i)
			w := c.Pick(nm+".spread", "near", "far", "same")
			ext := map[string]float64{"near": 2, "far": 15, "same": 0}[w]
			ch = append(ch, c.prim2(nm).translate(c.V2(nm+".at", -ext, ext)))
		}
		n := union2(ch)
		c.Desc("%s", n.desc)
		agree2(c, n, c.points2(n, 60))
		slow, ok := n.s.(interface{ EvaluateSlow(r2.Vec) float64 })
		if ok {
			for _, p := range c.points2(n, 10) {
				if a, b := slow.EvaluateSlow(p), n.ref(p); !near(a, b, 10*n.tol(p)) {
					c.Failf("%s: EvaluateSlow(%v) = %v, minimum %v", n.desc, p, a, b)
				}
			}
		}
	})
}

func TestC04_Transform2D(t *testing.T) { fam2(t, 1200, ops2xform) }
func TestC04_Transform3D(t *testing.T) { fam3(t, 1200, ops3xform) }

func TestC05_Pattern2D(t *testing.T) { fam2(t, 1500, ops2pattern) }
func TestC05_Pattern3D(t *testing.T) { fam3(t, 1500, ops3pattern) }

func TestC06_From2D(t *testing.T) { fam3(t, 2000, ops3from2) }
func TestC06_Slice(t *testing.T) {
	check(t, 800, ruleInOut, func(c *Case) {
		c.iso = true
		a := c.tree3("t", c.I("depth", 0, 2), ops3all)
		pt := r3.Add(a.w, c.V3("pt", -a.wd, a.wd))
		nrm := c.direction("n")
		o, u, v := sliceBasis(pt, nrm)
		un := r3.Scale(1/r3.Norm(nrm), nrm)
		tol := 1e-9 * (1 + r3.Norm(pt))
		// the 2D frame is an orthonormal frame of the plane with origin pt
		if r3.Norm(r3.Sub(o, pt)) > tol || math.Abs(r3.Norm(u)-1) > tol || math.Abs(r3.Norm(v)-1) > tol ||
			math.Abs(r3.Dot(u, v)) > tol || math.Abs(r3.Dot(u, un)) > tol || math.Abs(r3.Dot(v, un)) > tol {
			c.Failf("slice at %v normal %v: frame o=%v u=%v v=%v", pt, nrm, o, u, v)
		}
		if d := r3.Dot(r3.Cross(un, u), v); math.Abs(d-1) > tol {
			c.Failf("slice at %v normal %v: frame u=%v v=%v is not right handed about the normal", pt, nrm, u, v)
		}
		n := c.slice2("s", a)
		c.Desc("%s", n.desc)
		agree2(c, n, c.points2(n, 40))
	})
}

func TestC07_Offset2D(t *testing.T) { fam2(t, 1000, ops2other) }
func TestC07_Offset3D(t *testing.T) { fam3(t, 1000, ops3other) }

// TestC07_Values3D: offsets, shells and elongations of any size, however large
// against the object, change the values of the object as documented.
func TestC07_Values3D(t *testing.T) {
	check(t, 800, "an amount above a quarter of the object's size", func(c *Case) {
		a := c.tree3("t", c.I("depth", 0, 2), ops3all)
		sz := a.size()
		k := c.F("k", -4, 4) * sz
		h := r3.Scale(sz, c.V3("h", -4, 4))
		if c.I("h.zero", 0, 3) == 0 {
			h = v3(h.X, 0, 0)
		}
		c.Desc("%s changed by %v, %v", a.desc, k, h)
		off, sh, el := sdf.Offset3D(a.s, k), sdf.Shell3D(a.s, k), sdf.Elongate3D(a.s, h)
		if math.Abs(k) > 0.25*sz {
			c.NonTrivial()
		}
		in := func(v, h float64) float64 { return v - math.Max(-math.Abs(h)/2, math.Min(math.Abs(h)/2, v)) }
		for _, p := range c.points3(a, 30) {
			p = r3.Add(a.w, r3.Scale(c.Pick2("spread", 1, 1, 4), r3.Sub(p, a.w)))
			d := a.s.Evaluate(p)
			tol := 1e-12 * (math.Abs(d) + math.Abs(k))
			if g := off.Evaluate(p); !near(g, d-k, tol) {
				c.Failf("offset at %v: got %v, want %v - %v", p, g, d, k)
			}
			if g := sh.Evaluate(p); k > 0 && !near(g, math.Abs(d)-k/2, tol) || k <= 0 && g < 0 {
				c.Failf("shell at %v: got %v, distance %v thickness %v", p, g, d, k)
			}
			q := v3(in(p.X, h.X), in(p.Y, h.Y), in(p.Z, h.Z))
			if g, w := el.Evaluate(p), a.s.Evaluate(q); !near(g, w, 1e-9*(math.Abs(w)+r3.Norm(p)+r3.Norm(h))) {
				c.Label("elongation differs by rounding")
				if smooth3(a.s, q) && !near(g, w, 1e-6*(math.Abs(w)+r3.Norm(p)+r3.Norm(h))) {
					c.Failf("elongation at %v: got %v, the object at %v has %v", p, g, q, w)
				}
			}
		}
	})
}

// smooth3 reports whether s changes little around p.
func smooth3(s sdf.SDF3, p r3.Vec) bool {
	d, e := s.Evaluate(p), 1e-9*(1+r3.Norm(p))
	for _, o := range []r3.Vec{{X: e}, {X: -e}, {Y: e}, {Y: -e}, {Z: e}, {Z: -e}} {
		if !near(s.Evaluate(r3.Add(p, o)), d, 1e-7*(1+math.Abs(d)+r3.Norm(p))) {
			return false
		}
	}
	return true
}

// TestC07_Values2D is the same for 2D objects.
func TestC07_Values2D(t *testing.T) {
	check(t, 500, "an amount above a quarter of the object's size", func(c *Case) {
		a := c.tree2("t", c.I("depth", 0, 2))
		sz := a.size()
		k := c.F("k", -4, 4) * sz
		h := r2.Scale(sz, c.V2("h", -4, 4))
		c.Desc("%s changed by %v, %v", a.desc, k, h)
		off, el := sdf.Offset2D(a.s, k), sdf.Elongate2D(a.s, h)
		if math.Abs(k) > 0.25*sz {
			c.NonTrivial()
		}
		in := func(v, h float64) float64 { return v - math.Max(-math.Abs(h)/2, math.Min(math.Abs(h)/2, v)) }
		for _, p := range c.points2(a, 30) {
			p = r2.Add(a.w, r2.Scale(c.Pick2("spread", 1, 1, 4), r2.Sub(p, a.w)))
			d := a.s.Evaluate(p)
			if g := off.Evaluate(p); !near(g, d-k, 1e-12*(math.Abs(d)+math.Abs(k))) {
				c.Failf("offset at %v: got %v, want %v - %v", p, g, d, k)
			}
			q := v2(in(p.X, h.X), in(p.Y, h.Y))
			if g, w := el.Evaluate(p), a.s.Evaluate(q); !near(g, w, 1e-6*(math.Abs(w)+r2.Norm(p)+r2.Norm(h))) {
				e := 1e-9 * (1 + r2.Norm(q))
				for _, o := range []r2.Vec{{X: e}, {X: -e}, {Y: e}, {Y: -e}} {
					if !near(a.s.Evaluate(r2.Add(q, o)), w, 1e-7*(1+math.Abs(w)+r2.Norm(q))) {
						return
					}
				}
				c.Failf("elongation at %v: got %v, the object at %v has %v", p, g, q, w)
			}
		}
	})
}

// --- C09: never overestimate ---------------------------------------------------

func TestC09_LowerBound3D(t *testing.T) {
	check(t, 800, "at least 8 surface points found", func(c *Case) {
		n := c.op3("t", c.I("depth", 1, 3), ops3lip, ops3lip)
		c.Desc("%s", n.desc)
		if !n.lip {
			c.Label("not a bound")
			return
		}
		ps := c.points3(n, 50)
		surf := surface3(n, ps, func(p r3.Vec) float64 { return n.s.Evaluate(p) })
		if len(surf) >= 8 {
			c.NonTrivial()
		}
		for _, p := range ps {
			d := n.s.Evaluate(p)
			for _, q := range surf {
				if dist := r3.Norm(r3.Sub(p, q)); math.Abs(d) > dist+20*n.tol(p) {
					c.Failf("%s: Evaluate(%v) = %v but the surface point %v is only %v away", n.desc, p, d, q, dist)
				}
			}
		}
	})
}

func TestC09_LowerBound2D(t *testing.T) {
	check(t, 800, "at least 8 surface points found", func(c *Case) {
		n := c.op2("t", c.I("depth", 1, 3), cat(ops2bool, []string{"xform", "scaleU", "center", "centerScale"}, ops2pattern, ops2other))
		c.Desc("%s", n.desc)
		if !n.lip {
			c.Label("not a bound")
			return
		}
		ps := c.points2(n, 50)
		var surf []r2.Vec
		ev := n.s.Evaluate
		for i := 1; i < len(ps); i++ {
			a, b := ps[i-1], ps[i]
			fa, fb := ev(a), ev(b)
			if (fa < 0) == (fb < 0) {
				continue
			}
			for j := 0; j < 60; j++ {
				m := r2.Scale(0.5, r2.Add(a, b))
				if (ev(m) < 0) == (fa < 0) {
					a = m
				} else {
					b = m
				}
			}
			surf = append(surf, r2.Scale(0.5, r2.Add(a, b)))
		}
		if len(surf) >= 8 {
			c.NonTrivial()
		}
		for _, p := range ps {
			d := ev(p)
			for _, q := range surf {
				if dist := r2.Norm(r2.Sub(p, q)); math.Abs(d) > dist+20*n.tol(p) {
					c.Failf("%s: Evaluate(%v) = %v but the surface point %v is only %v away", n.desc, p, d, q, dist)
				}
			}
		}
	})
}

func surface3(n *S3, ps []r3.Vec, ev func(r3.Vec) float64) (surf []r3.Vec) {
	for i := 1; i < len(ps); i++ {
		a, b := ps[i-1], ps[i]
		fa, fb := ev(a), ev(b)
		if (fa < 0) == (fb < 0) {
			continue
		}
		for j := 0; j < 60; j++ {
			m := r3.Scale(0.5, r3.Add(a, b))
			if (ev(m) < 0) == (fa < 0) {
				a = m
			} else {
				b = m
			}
		}
		surf = append(surf, r3.Scale(0.5, r3.Add(a, b)))
	}
	return
}

var _ = sdf.Union3D
var _ = must2.Circle
