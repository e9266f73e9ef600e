package harness

import (
	"bytes"
	"math"
	"testing"

	"github.com/soypat/sdf"
	"github.com/soypat/sdf/form2/must2"
	"github.com/soypat/sdf/form3/must3"
	"gonum.org/v1/gonum/spatial/r2"
	"gonum.org/v1/gonum/spatial/r3"
)

// TestC02_RevolveSector: partial revolutions reach their extremes either at
// their two ends or where they cross an axis; both lie within the bounds.
func TestC02_RevolveSector(t *testing.T) {
	check(t, 1200, "the sector crosses an axis or ends within 0.4 rad of one", func(c *Case) {
		q := c.I("quarter", 0, 4)
		theta := float64(q) * math.Pi / 2
		switch c.Pick("end", "near", "close", "any", "exact") {
		case "near":
			theta += c.F("tilt", -0.4, 0.4)
		case "close":
			theta += c.LogF("tilt", 1e-7, 0.1) * (1 - 2*float64(c.I("sign", 0, 1)))
		case "any":
			theta = c.F("theta", 0.02, 2*math.Pi)
		}
		if theta <= 1e-6 {
			theta = 0.01 + c.F("small", 0, 1)
		}
		if theta > 2*math.Pi {
			theta -= c.F("wrap", 0.001, 1) * theta
		}
		u := c.unit()
		var prof sdf.SDF2
		kind := c.Pick("profile", "disc", "box", "tip")
		h := v2(u*c.LogF("hx", 0.02, 2), u*c.LogF("hy", 0.02, 2))
		at := v2(u*c.F("x", -1, 3), u*c.F("y", -3, 3))
		if at.X < 0 && c.B("right") {
			at.X = -at.X
		}
		switch kind {
		case "disc":
			h.Y = h.X
			prof = must2.Circle(h.X)
		case "box":
			prof = must2.Box(r2.Scale(2, h), 0)
		case "tip":
			prof = must2.Polygon([]r2.Vec{{X: h.X}, {Y: h.Y}, {X: -h.X}, {Y: -h.Y}})
		}
		if at.X+h.X < 0.05*u {
			at.X = 0.05*u - h.X + 0.3*h.X
		}
		s := sdf.Revolve3D(sdf.Transform2D(prof, sdf.Translate2D(at)), theta)
		bb := s.Bounds()
		c.Desc("%s half %v at %v revolved by %v", kind, h, at, theta)
		reach := at.X + h.X
		tol := 1e-9 * (reach + math.Abs(at.Y) + h.Y)
		turn := math.Mod(theta, 2*math.Pi)
		angles := []float64{1e-9, turn - 1e-9}
		for i := 1; i < 4; i++ {
			if a := float64(i) * math.Pi / 2; a < turn {
				angles = append(angles, a)
				c.NonTrivial()
			} else if a < turn+0.4 {
				c.NonTrivial()
			}
		}
		for i, a := range angles {
			for _, f := range []float64{1e-6, 1e-3, 0.05} {
				r := reach - f*math.Min(h.X, reach)
				p := v3(r*math.Cos(a), r*math.Sin(a), at.Y)
				if d := s.Evaluate(p); d < -1e-12*reach && outside3(bb, p) > tol {
					c.Failf("%s half %v at %v revolved by %v: %v (angle %v) is inside (%v) and outside the bounds %v", kind, h, at, theta, p, a, d, bb)
				} else if d > tol+1e-8*reach {
					c.Failf("%s half %v at %v revolved by %v: angle %v (%d), radius %v of %v is not part of it: %v", kind, h, at, theta, a, i, r, reach, d)
				}
			}
		}
	})
}

// TestC03_Nil: an operation without one of its operands is refused when it is
// built, not when it is evaluated.
func TestC03_Nil(t *testing.T) {
	check(t, 60, "every case", func(c *Case) {
		a, b := c.prim2("a").s, c.prim3("b").s
		k := c.Cnt("k", 2, 5, 30)
		at := c.I("at", 0, k-1)
		s2, s3 := make([]sdf.SDF2, k), make([]sdf.SDF3, k)
		for i := range s2 {
			if s2[i], s3[i] = a, b; i == at {
				s2[i], s3[i] = nil, nil
			}
		}
		c.Desc("operand %d of %d missing", at, k)
		c.NonTrivial()
		for _, e := range []struct {
			what string
			f    func()
		}{
			{"Union2D", func() { sdf.Union2D(s2...) }},
			{"Union3D", func() { sdf.Union3D(s3...) }},
			{"Difference2D of nil", func() { sdf.Difference2D(nil, a) }},
			{"Difference2D by nil", func() { sdf.Difference2D(a, nil) }},
			{"Difference3D of nil", func() { sdf.Difference3D(nil, b) }},
			{"Difference3D by nil", func() { sdf.Difference3D(b, nil) }},
			{"Intersect2D of nil", func() { sdf.Intersect2D(nil, a) }},
			{"Intersect2D with nil", func() { sdf.Intersect2D(a, nil) }},
			{"Intersect3D of nil", func() { sdf.Intersect3D(nil, b) }},
			{"Intersect3D with nil", func() { sdf.Intersect3D(b, nil) }},
		} {
			if !panics(e.f) {
				c.Failf("%s is accepted", e.what)
			}
		}
	})
}

// TestC02_RotateCopies: the corners of boxes anywhere in the first sector,
// turned to every copy, lie within the bounds.
func TestC02_RotateCopies(t *testing.T) {
	check(t, 1200, "the corner farthest from the axis is off the X axis", func(c *Case) {
		k := c.Cnt("k", 1, 9, 40)
		half := math.Pi / float64(k)
		u := c.unit()
		// a box between two corners of the sector
		corner := func(name string) r2.Vec {
			a := c.F(name+".a", -0.999, 0.999) * math.Min(half, math.Pi)
			r := u * c.LogF(name+".r", 0.05, 5)
			return v2(r*math.Cos(a), r*math.Sin(a))
		}
		p, q := corner("p"), corner("q")
		box := r2.Box{Min: v2(math.Min(p.X, q.X), math.Min(p.Y, q.Y)), Max: v2(math.Max(p.X, q.X), math.Max(p.Y, q.Y))}
		size := r2.Sub(box.Max, box.Min)
		if size.X < 0.01*u || size.Y < 0.01*u {
			c.Exclude("flat box")
			return
		}
		ctr := r2.Scale(0.5, r2.Add(box.Min, box.Max))
		flat := sdf.Transform2D(must2.Box(size, 0), sdf.Translate2D(ctr))
		s2 := sdf.RotateCopy2D(flat, k)
		s3 := sdf.RotateCopy3D(sdf.Extrude3D(flat, u), k)
		c.Desc("%d copies of box %v", k, box)
		tol := 1e-9 * r2.Norm(r2.Add(size, v2(math.Abs(ctr.X), math.Abs(ctr.Y))))
		for _, v := range []r2.Vec{box.Min, {X: box.Max.X, Y: box.Min.Y}, box.Max, {X: box.Min.X, Y: box.Max.Y}} {
			v = r2.Add(v, r2.Scale(1e-5, r2.Sub(ctr, v)))
			if math.Abs(math.Atan2(v.Y, v.X)) > half*0.9999 {
				continue // not part of the copied sector
			}
			if math.Abs(math.Atan2(v.Y, v.X)) > 0.1*half {
				c.NonTrivial()
			}
			for i := 0; i < k; i++ {
				w := rot2(v, 2*half*float64(i))
				if d := s2.Evaluate(w); d > tol {
					c.Failf("%d copies of box %v: corner %v of copy %d is missing, distance %v", k, box, w, i, d)
				} else if d < -tol*1e-2 && outside2(s2.Bounds(), w) > tol {
					c.Failf("%d copies of box %v: corner %v of copy %d is inside and outside the bounds %v", k, box, w, i, s2.Bounds())
				}
				x := v3(w.X, w.Y, 0.499999*u)
				if d := s3.Evaluate(x); d > tol {
					c.Failf("%d solid copies of box %v: corner %v of copy %d is missing, distance %v", k, box, x, i, d)
				} else if d < -tol*1e-2 && outside3(s3.Bounds(), x) > tol {
					c.Failf("%d solid copies of box %v: corner %v of copy %d is inside and outside the bounds %v", k, box, x, i, s3.Bounds())
				}
			}
		}
	})
}

// TestC05_Huge: patterns of up to thousands of copies place every one of them.
func TestC05_Huge(t *testing.T) {
	check(t, 30, "more than 100 copies", func(c *Case) {
		k := int(c.LogF("k", 50, 3000))
		if k > 100 {
			c.NonTrivial()
		}
		u := c.unit()
		gap := u * c.F("gap", 2.2, 5) // discs of radius u
		disc, ball := must2.Circle(u), must3.Sphere(u)
		kind := c.Pick("kind", "array2x", "array2y", "array3x", "array3y", "array3z", "line2", "line3", "multi2", "multi3",
			"union2", "union3", "turn2", "turn3", "copy2", "copy3", "move2", "move3")
		c.Desc("%s of %d copies %v apart", kind, k, gap)
		ring := gap / (2 * math.Sin(math.Pi/float64(k))) // radius of a ring of copies
		dir := c.V3("dir", -1, 1)
		if kind[len(kind)-1] == '2' {
			dir.Z = 0
		}
		if r3.Norm(dir) < 0.1 {
			dir = v3(1, 0, 0)
		}
		dir = r3.Unit(dir)
		step := 2 * math.Pi / float64(k)
		flat := func(p r3.Vec) r2.Vec { return v2(p.X, p.Y) }
		at := func(i int) r3.Vec { return r3.Scale(gap*float64(i), dir) }
		onRing := func(i int) r3.Vec { return v3(ring*math.Cos(step*float64(i)), ring*math.Sin(step*float64(i)), 0) }
		all := bytes.Repeat([]byte("x"), k)
		var s2 sdf.SDF2
		var s3 sdf.SDF3
		switch kind {
		case "array2x":
			dir = v3(1, 0, 0)
			s2 = sdf.Array2D(disc, sdf.V2i{k, 1}, v2(gap, gap))
		case "array2y":
			dir = v3(0, 1, 0)
			s2 = sdf.Array2D(disc, sdf.V2i{1, k}, v2(gap, gap))
		case "array3x":
			dir = v3(1, 0, 0)
			s3 = sdf.Array3D(ball, sdf.V3i{k, 1, 1}, v3(gap, gap, gap))
		case "array3y":
			dir = v3(0, 1, 0)
			s3 = sdf.Array3D(ball, sdf.V3i{1, k, 1}, v3(gap, gap, gap))
		case "array3z":
			dir = v3(0, 0, 1)
			s3 = sdf.Array3D(ball, sdf.V3i{1, 1, k}, v3(gap, gap, gap))
		case "line2":
			s2 = sdf.LineOf2D(disc, r2.Vec{}, flat(at(k)), string(all))
		case "line3":
			s3 = sdf.LineOf3D(ball, r3.Vec{}, at(k), string(all))
		case "multi2", "union2":
			pos, ops := make([]r2.Vec, k), make([]sdf.SDF2, k)
			for i := range pos {
				pos[i] = flat(at(i))
				ops[i] = sdf.Transform2D(disc, sdf.Translate2D(pos[i]))
			}
			if s2 = sdf.Union2D(ops...); kind == "multi2" {
				s2 = sdf.Multi2D(disc, pos)
			}
		case "multi3", "union3":
			pos, ops := make([]r3.Vec, k), make([]sdf.SDF3, k)
			for i := range pos {
				pos[i] = at(i)
				ops[i] = sdf.Transform3D(ball, sdf.Translate3D(pos[i]))
			}
			if s3 = sdf.Union3D(ops...); kind == "multi3" {
				s3 = sdf.Multi3D(ball, pos)
			}
		case "turn2":
			at = onRing
			s2 = sdf.RotateUnion2D(sdf.Transform2D(disc, sdf.Translate2D(flat(at(0)))), k, sdf.Rotate2D(step))
		case "turn3":
			at = onRing
			s3 = sdf.RotateUnion3D(sdf.Transform3D(ball, sdf.Translate3D(at(0))), k, sdf.RotateZ(step))
		case "copy2":
			at = onRing
			s2 = sdf.RotateCopy2D(sdf.Transform2D(disc, sdf.Translate2D(flat(at(0)))), k)
		case "copy3":
			at = onRing
			s3 = sdf.RotateCopy3D(sdf.Transform3D(ball, sdf.Translate3D(at(0))), k)
		case "move2":
			s2 = sdf.RotateUnion2D(disc, k, sdf.Translate2D(flat(at(1))))
		case "move3":
			s3 = sdf.RotateUnion3D(ball, k, sdf.Translate3D(at(1)))
		}
		eval := func(p r3.Vec) float64 {
			if s2 != nil {
				return s2.Evaluate(flat(p))
			}
			return s3.Evaluate(p)
		}
		tol := 1e-9 * (gap*float64(k) + u)
		for i, j := range []int{0, k - 1, k - 2, k / 2, c.I("i", 0, k-1), c.I("j", 0, k-1), c.I("l", 0, k-1)} {
			p := at(j)
			if d := eval(p); !near(d, -u, tol) {
				c.Failf("%s of %d copies %v apart: value %v at the center of copy %d, want %v", kind, k, gap, d, j, -u)
			}
			if s2 != nil && outside2(s2.Bounds(), flat(p)) > 0 || s3 != nil && outside3(s3.Bounds(), p) > 0 {
				c.Failf("%s of %d copies %v apart: copy %d is outside the bounds", kind, k, gap, j)
			}
			if j > 0 && i < 4 {
				mid := r3.Scale(0.5, r3.Add(p, at(j-1)))
				if d := eval(mid); !near(d, gap/2-u, tol) {
					c.Failf("%s of %d copies %v apart: value %v between copies %d and %d, want %v", kind, k, gap, d, j-1, j, gap/2-u)
				}
			}
		}
		if at(1) != onRing(1) { // one step further on there is none
			if d := eval(at(k)); !near(d, gap-u, tol) {
				c.Failf("%s of %d copies %v apart: value %v after the last copy, want %v", kind, k, gap, d, gap-u)
			}
		}
	})
}
