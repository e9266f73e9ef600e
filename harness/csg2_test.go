package harness

import (
	"math"
	"testing"

	"github.com/soypat/sdf"
	"gonum.org/v1/gonum/spatial/r2"
	"gonum.org/v1/gonum/spatial/r3"
)

// TestC04_Matrix3D: composition, inversion, determinant, comparison and box
// mapping of the 4x4 matrices agree with the step-by-step reference maps.
func TestC04_Matrix3D(t *testing.T) {
	check(t, 1500, "at least two different steps", func(c *Case) {
		st := c.steps3("m", true)
		m, det := sdf.Translate3D(r3.Vec{}), 1.0
		kinds := map[string]bool{}
		for _, x := range st {
			kinds[x.kind] = true
			k := sdf.Translate3D(x.v)
			switch x.kind {
			case "rx":
				k = sdf.RotateX(x.a)
			case "ry":
				k = sdf.RotateY(x.a)
			case "rz":
				k = sdf.RotateZ(x.a)
			case "rv":
				k = sdf.Rotate3D(x.v, x.a)
			case "mxy":
				k, det = sdf.MirrorXY(), -det
			case "mxz":
				k, det = sdf.MirrorXZ(), -det
			case "myz":
				k, det = sdf.MirrorYZ(), -det
			case "mx=y":
				k, det = sdf.MirrorXeqY(), -det
			case "scale":
				k = sdf.Scale3D(x.v)
				det *= x.v.X * x.v.Y * x.v.Z
			}
			m = k.Mul(m)
		}
		c.Desc("steps %v", st)
		if len(kinds) > 1 {
			c.NonTrivial()
		}
		inv := m.Inverse()
		if g := m.Determinant(); !near(g, det, 1e-9*(1+math.Abs(det))) {
			c.Failf("determinant %v, want %v", g, det)
		}
		ps := c.Pts3("q")
		big := boxAround3(r3.Vec{}, v3(5, 5, 5))
		for i := 0; i < 12; i++ {
			p := ps.in(i, big)
			q := st.fwd(p)
			if g := m.MulPosition(p); r3.Norm(r3.Sub(g, q)) > 1e-9*(1+r3.Norm(q)) {
				c.Failf("M*%v = %v, want %v", p, g, q)
			}
			if g := inv.MulPosition(q); r3.Norm(r3.Sub(g, p)) > 1e-8*(1+r3.Norm(p)+r3.Norm(q)) {
				c.Failf("inverse(M)*M*%v = %v", p, g)
			}
			if g := m.Mul(inv).MulPosition(p); r3.Norm(r3.Sub(g, p)) > 1e-8*(1+r3.Norm(p)+r3.Norm(m.MulPosition(r3.Vec{}))) {
				c.Failf("(M*inverse(M))*%v = %v", p, g)
			}
		}
		a, b := ps.in(40, big), ps.in(41, big)
		box := r3.Box{Min: v3(math.Min(a.X, b.X), math.Min(a.Y, b.Y), math.Min(a.Z, b.Z)), Max: v3(math.Max(a.X, b.X), math.Max(a.Y, b.Y), math.Max(a.Z, b.Z))}
		if g, w := m.MulBox(box), mapBox3(box, st.fwd); !sameBox3(g, w, 1e-9*(1+absmax3(w))) {
			c.Failf("box %v maps to %v, want %v", box, g, w)
		}
	})
}

func TestC04_Matrix2D(t *testing.T) {
	check(t, 1500, "at least two different steps", func(c *Case) {
		st := c.steps2("m", true)
		m, det := sdf.Translate2D(r2.Vec{}), 1.0
		lin, linRef := sdf.Rotate(0), steps2{}
		kinds := map[string]bool{}
		for _, x := range st {
			kinds[x.kind] = true
			k := sdf.Translate2D(x.v)
			switch x.kind {
			case "rot":
				k = sdf.Rotate2D(x.a)
				lin = sdf.Rotate(x.a).Mul(lin)
				linRef = append(linRef, x)
			case "mx":
				k, det = sdf.MirrorX(), -det
			case "my":
				k, det = sdf.MirrorY(), -det
			case "scale":
				k = sdf.Scale2D(x.v)
				det *= x.v.X * x.v.Y
			}
			m = k.Mul(m)
		}
		c.Desc("steps %v", st)
		if len(kinds) > 1 {
			c.NonTrivial()
		}
		inv := m.Inverse()
		if g := m.Determinant(); !near(g, det, 1e-9*(1+math.Abs(det))) {
			c.Failf("determinant %v, want %v", g, det)
		}
		if g := lin.Determinant(); !near(g, 1, 1e-9) {
			c.Failf("determinant of a rotation %v", g)
		}
		ps := c.Pts2("q")
		big := r2.Box{Min: v2(-5, -5), Max: v2(5, 5)}
		for i := 0; i < 12; i++ {
			p := ps.in(i, big)
			q := st.fwd(p)
			if g := m.MulPosition(p); r2.Norm(r2.Sub(g, q)) > 1e-9*(1+r2.Norm(q)) {
				c.Failf("M*%v = %v, want %v", p, g, q)
			}
			if g := inv.MulPosition(q); r2.Norm(r2.Sub(g, p)) > 1e-8*(1+r2.Norm(p)+r2.Norm(q)) {
				c.Failf("inverse(M)*M*%v = %v", p, g)
			}
			if g := m.Mul(inv).MulPosition(p); r2.Norm(r2.Sub(g, p)) > 1e-8*(1+r2.Norm(p)+r2.Norm(m.MulPosition(r2.Vec{}))) {
				c.Failf("(M*inverse(M))*%v = %v", p, g)
			}
			lq := linRef.fwd(p)
			if g := lin.MulPosition(p); r2.Norm(r2.Sub(g, lq)) > 1e-9*(1+r2.Norm(p)) {
				c.Failf("2x2 rotation of %v = %v, want %v", p, g, lq)
			}
			if g := lin.Inverse().MulPosition(lq); r2.Norm(r2.Sub(g, p)) > 1e-9*(1+r2.Norm(p)) {
				c.Failf("2x2 inverse rotation of %v = %v, want %v", lq, g, p)
			}
			// linear combination of matrices
			s := float64(i) - 4
			if g, w := m.MulScalar(s).Add(inv).MulPosition(p), r2.Add(r2.Scale(s, m.MulPosition(p)), inv.MulPosition(p)); r2.Norm(r2.Sub(g, w)) > 1e-8*(1+r2.Norm(w)) {
				c.Failf("(%v*M+inverse(M))*%v = %v, want %v", s, p, g, w)
			}
		}
		// determinants and inverses of linear combinations: the last row is
		// (0, 0, w) there
		s, w := c.F("comb.s", -3, 3), c.F("comb.t", -3, 3)
		x, y := m.MulScalar(s).Add(inv.MulScalar(w)), m.Add(inv)
		x0 := x.MulPosition(r2.Vec{})
		ex, ey := r2.Sub(x.MulPosition(v2(1, 0)), x0), r2.Sub(x.MulPosition(v2(0, 1)), x0)
		size := 1 + r2.Norm(x0) + r2.Norm(ex) + r2.Norm(ey)
		dx := (s + w) * r2.Cross(ex, ey)
		if g := x.Determinant(); !near(g, dx, 1e-9*size*size*size) {
			c.Failf("determinant of %v*M+%v*inverse(M) is %v, want %v", s, w, g, dx)
		}
		if g, w := x.Mul(y).Determinant(), x.Determinant()*y.Determinant(); !near(g, w, 1e-9*math.Pow(size+r2.Norm(m.MulPosition(v2(1, 1)))+r2.Norm(inv.MulPosition(v2(1, 1))), 6)) {
			c.Failf("determinant of a product %v, product of the determinants %v", g, w)
		}
		if math.Abs(dx) > 1e-3*size*size*size {
			xi := x.Inverse()
			if g := xi.Determinant() * dx; !near(g, 1, 1e-6) {
				c.Failf("determinant of the inverse of a combination times its determinant: %v", g)
			}
			p := ps.in(42, big)
			for _, e := range []r2.Vec{x.Mul(xi).MulPosition(p), xi.Mul(x).MulPosition(p)} {
				if r2.Norm(r2.Sub(e, p)) > 1e-6*(1+r2.Norm(p)) {
					c.Failf("combination times its inverse maps %v to %v", p, e)
				}
			}
		}
		a, b := ps.in(40, big), ps.in(41, big)
		box := r2.Box{Min: v2(math.Min(a.X, b.X), math.Min(a.Y, b.Y)), Max: v2(math.Max(a.X, b.X), math.Max(a.Y, b.Y))}
		if g, w := m.MulBox(box), mapBox2(box, st.fwd); !sameBox2(g, w, 1e-9*(1+absmax2(w))) {
			c.Failf("box %v maps to %v, want %v", box, g, w)
		}
	})
}

// empty3 reports an error when s is not an empty solid.
func nothing3(c *Case, what string, s sdf.SDF3, around r3.Box) {
	ps := c.Pts3("nothing")
	for i := 0; i < 20; i++ {
		if p := ps.in(i, growBox3(around, 0.3, 0.1)); !(s.Evaluate(p) > 0) {
			c.Failf("%s: expected an empty solid, Evaluate(%v) = %v", what, p, s.Evaluate(p))
		}
	}
	if b := s.Bounds(); !(finite(absmax3(b))) {
		c.Failf("%s: bounds of an empty solid %v", what, b)
	}
}

func nothing2(c *Case, what string, s sdf.SDF2, around r2.Box) {
	ps := c.Pts2("nothing2")
	for i := 0; i < 20; i++ {
		if p := ps.in(i, growBox2(around, 0.3, 0.1)); !(s.Evaluate(p) > 0) {
			c.Failf("%s: expected an empty area, Evaluate(%v) = %v", what, p, s.Evaluate(p))
		}
	}
	if b := s.Bounds(); !(finite(absmax2(b))) {
		c.Failf("%s: bounds of an empty area %v", what, b)
	}
}

// TestC05_Empty: patterns that place no copy are empty, whatever the object.
func TestC05_Empty(t *testing.T) {
	check(t, 300, "always", func(c *Case) {
		a, b := c.tree3("a", 1, cat(ops3bool, ops3xform)), c.tree2("b", 1)
		k := -c.I("num", 0, 3)
		n1, n2 := c.I("n1", 1, 3), c.I("n2", 1, 3)
		pat := []string{"", "-", "----", "oX ."}[c.I("pat", 0, 3)]
		c.Desc("%s, %s, num %d, pattern %q", a.desc, b.desc, k, pat)
		c.NonTrivial()
		nothing3(c, "Array3D", sdf.Array3D(a.s, sdf.V3i{k, n1, n2}, v3(1, 1, 1)), a.rb)
		nothing3(c, "Array3D", sdf.Array3D(a.s, sdf.V3i{n1, k, n2}, v3(1, 1, 1)), a.rb)
		nothing3(c, "Array3D", sdf.Array3D(a.s, sdf.V3i{n1, n2, k}, v3(1, 1, 1)), a.rb)
		nothing3(c, "RotateUnion3D", sdf.RotateUnion3D(a.s, k, sdf.RotateZ(1)), a.rb)
		nothing3(c, "RotateCopy3D", sdf.RotateCopy3D(a.s, k), a.rb)
		nothing3(c, "LineOf3D", sdf.LineOf3D(a.s, r3.Vec{}, v3(1, 2, 3), pat), a.rb)
		nothing3(c, "Multi3D", sdf.Multi3D(a.s, nil), a.rb)
		nothing3(c, "Orient3D", sdf.Orient3D(a.s, v3(0, 0, 1), nil), a.rb)
		nothing2(c, "Array2D", sdf.Array2D(b.s, sdf.V2i{k, n1}, v2(1, 1)), b.rb)
		nothing2(c, "Array2D", sdf.Array2D(b.s, sdf.V2i{n1, k}, v2(1, 1)), b.rb)
		nothing2(c, "RotateUnion2D", sdf.RotateUnion2D(b.s, k, sdf.Rotate2D(1)), b.rb)
		nothing2(c, "LineOf2D", sdf.LineOf2D(b.s, r2.Vec{}, v2(1, 2), pat), b.rb)
		nothing2(c, "Multi2D", sdf.Multi2D(b.s, nil), b.rb)
		nothing2(c, "RotateCopy2D", sdf.RotateCopy2D(b.s, k), b.rb)
	})
}

// TestC05_OrientSpecial: turning an object to face another direction is a
// rotation (it keeps its handedness) which maps base to that direction, also
// when the two are opposite, nearly opposite or nearly equal.
func TestC05_OrientSpecial(t *testing.T) {
	check(t, 800, "always", func(c *Case) {
		base := c.direction("base")
		ub := r3.Unit(base)
		// An offset from ub by the angle delta.
		delta := 0.0
		if !c.B("exact") {
			delta = c.LogF("delta", 1e-14, 1.5)
		}
		side := r3.Cross(ub, c.direction("side"))
		if r3.Norm(side) < 1e-2*r3.Norm(ub) {
			side = r3.Cross(ub, v3(0.3, -0.7, 0.2))
			if r3.Norm(side) < 1e-2 {
				side = r3.Cross(ub, v3(1, 0, 0))
			}
		}
		side = r3.Unit(side)
		to := r3.Add(r3.Scale(math.Cos(delta), ub), r3.Scale(math.Sin(delta), side))
		opposite := c.B("opposite") || delta == 0
		if opposite {
			to = r3.Scale(-1, to)
		}
		d := r3.Scale(c.LogF("scale", 0.1, 10), to)
		to = r3.Unit(d)
		// Three coordinate fields recover the applied map q(p).
		f := func(i int) sdf.SDF3 { return sdf.Orient3D(coordSDF{i}, base, []r3.Vec{d}) }
		if c.B("several") {
			// the same single direction, listed twice: union of identical copies
			f = func(i int) sdf.SDF3 { return sdf.Orient3D(coordSDF{i}, base, []r3.Vec{d, d}) }
		}
		x, y, z := f(0), f(1), f(2)
		q := func(p r3.Vec) r3.Vec { return v3(x.Evaluate(p), y.Evaluate(p), z.Evaluate(p)) }
		c.Desc("base %v to %v, %v rad from it, opposite: %v", base, d, delta, opposite)
		c.NonTrivial()
		// q is the inverse map: it takes the direction to base.
		if g := q(to); r3.Norm(r3.Sub(g, ub)) > 1e-9 {
			c.Failf("direction %v is taken from %v, not from base %v", to, g, ub)
		}
		ex, ey, ez := q(v3(1, 0, 0)), q(v3(0, 1, 0)), q(v3(0, 0, 1))
		if det := r3.Dot(r3.Cross(ex, ey), ez); !near(det, 1, 1e-9) {
			c.Failf("not a rotation: determinant %v", det)
		}
		for _, e := range [][2]r3.Vec{{ex, ey}, {ey, ez}, {ez, ex}} {
			if !near(r3.Norm(e[0]), 1, 1e-9) || !near(r3.Dot(e[0], e[1]), 0, 1e-9) {
				c.Failf("not a rotation: %v %v %v", ex, ey, ez)
			}
		}
		// The shortest such rotation: what is perpendicular to both stays.
		n := r3.Cross(ub, to)
		if s := r3.Norm(n); s > 1e-6 {
			n = r3.Scale(1/s, n)
			if g := q(n); r3.Norm(r3.Sub(g, n)) > 1e-8/s+1e-9 {
				c.Failf("%v, perpendicular to both directions, is taken from %v", n, g)
			}
		}
	})
}

// TestC03_EmptyOperand: an operand without any inside point (a disjoint
// intersection, or an object cut away) leaves the union of the others.
func TestC03_EmptyOperand(t *testing.T) {
	check(t, 500, ruleInOut, func(c *Case) {
		a := c.prim2("a").translate(c.V2("a.at", -2, 2))
		e1, e2 := c.prim2("e1"), c.prim2("e2")
		at := c.V2("e.at", -6, 6)
		e1 = e1.translate(at)
		e2 = e2.translate(r2.Add(at, v2(4+2*(e1.size()+e2.size()+absmax2(e1.rb)+absmax2(e2.rb)), 0)))
		empty := sdf.SDF2(sdf.Intersect2D(e1.s, e2.s))
		switch c.Pick("kind", "intersect", "diff", "array") {
		case "diff":
			empty = sdf.Difference2D(e1.s, sdf.Offset2D(e1.s, 0.5))
		case "array":
			empty = sdf.Array2D(e1.s, sdf.V2i{0, 2}, v2(1, 1))
		}
		objs := []sdf.SDF2{a.s, empty}
		if c.B("swap") {
			objs = []sdf.SDF2{empty, a.s}
		}
		u := sdf.Union2D(objs...)
		c.Desc("%s with an empty operand at %v", a.desc, at)
		in, out := 0, 0
		for _, p := range c.points2(a, 40) {
			r, g := a.ref(p), u.Evaluate(p)
			tol := 10 * (a.tol(p) + 1e-9*r2.Norm(at))
			if math.Abs(r) > tol && (g < 0) != (r < 0) {
				c.Failf("membership of %v: got %v, want %v", p, g, r)
			}
			if g > r+tol {
				c.Failf("distance at %v: got %v, the nearest object is at %v", p, g, r)
			}
			if r < 0 {
				in++
			} else {
				out++
			}
		}
		if in >= 3 && out >= 3 {
			c.NonTrivial()
		}
	})
}
