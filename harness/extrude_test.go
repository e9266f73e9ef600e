package harness

import (
	"fmt"
	"math"
	"testing"

	"github.com/soypat/sdf"
	"gonum.org/v1/gonum/spatial/r2"
	"gonum.org/v1/gonum/spatial/r3"
)

// TestC06_ExtrudeFunc: an extrusion evaluates its profile at the point its
// extrusion function maps to, be it one of the library's or the user's.
func TestC06_ExtrudeFunc(t *testing.T) {
	check(t, 500, ruleInOut, func(c *Case) {
		a := c.tree2("a", 1)
		h := c.LogF("h", 0.3, 6)
		tw := c.angle("tw")
		sc := v2(c.LogF("sx", 0.3, 3), c.LogF("sy", 0.3, 3))
		m := [4]float64{c.F("m0", -2, 2), c.F("m1", -2, 2), c.F("m2", -2, 2), c.F("m3", -2, 2)}
		user := func(p r3.Vec) r2.Vec { return v2(m[0]*p.X+m[1]*p.Y+p.Z, m[2]*p.X+m[3]*p.Y-p.Z*p.Z) }
		kind := c.Pick("kind", "normal", "twist", "scale", "scaleTwist", "user", "user")
		var f sdf.ExtrudeFunc
		var want func(p r3.Vec) r2.Vec
		inv := func(z float64) r2.Vec {
			k := z/h + 0.5
			return v2(1+(1/sc.X-1)*k, 1+(1/sc.Y-1)*k)
		}
		switch kind {
		case "normal":
			f, want = sdf.NormalExtrude, func(p r3.Vec) r2.Vec { return v2(p.X, p.Y) }
		case "twist":
			f, want = sdf.TwistExtrude(h, tw), func(p r3.Vec) r2.Vec { return rot2(v2(p.X, p.Y), p.Z*tw/h) }
		case "scale":
			f, want = sdf.ScaleExtrude(h, sc), func(p r3.Vec) r2.Vec { i := inv(p.Z); return v2(p.X*i.X, p.Y*i.Y) }
		case "scaleTwist":
			f, want = sdf.ScaleTwistExtrude(h, tw, sc), func(p r3.Vec) r2.Vec {
				i := inv(p.Z)
				return rot2(v2(p.X*i.X, p.Y*i.Y), p.Z*tw/h)
			}
		default:
			f, want = user, user
		}
		c.Desc("%s extrusion over %v of %s", kind, h, a.desc)
		c.Label(kind)
		s := []sdf.SDF3{sdf.Extrude3D(a.s, h), sdf.TwistExtrude3D(a.s, h, tw), sdf.ScaleExtrude3D(a.s, h, sc)}[c.I("base", 0, 2)]
		x, ok := s.(interface{ SetExtrude(sdf.ExtrudeFunc) })
		if !ok {
			c.Exclude("no SetExtrude")
		}
		x.SetExtrude(f)
		ps := c.Pts3("p")
		r := radius2(a.rb) + 1
		in, out := 0, 0
		for i := 0; i < 40; i++ {
			p := ps.in(i, r3.Box{Min: v3(-r, -r, -0.7*h), Max: v3(r, r, 0.7*h)})
			q := want(p)
			if g := f(p); !(r2.Norm(r2.Sub(g, q)) <= 1e-12*(1+r2.Norm(q))*(1+math.Abs(tw))) {
				c.Failf("%s maps %v to %v, want %v", kind, p, g, q)
			}
			w := math.Max(a.s.Evaluate(q), math.Abs(p.Z)-h/2)
			if g := s.Evaluate(p); math.IsNaN(g) || !near(g, w, 1e-9*(1+math.Abs(w)+r2.Norm(q))) && (g < 0) != (w < 0) {
				c.Failf("%v at %v, the profile at %v gives %v", g, p, q, w)
			}
			if w < 0 {
				in++
			} else {
				out++
			}
		}
		if in >= 3 && out >= 3 {
			c.NonTrivial()
		}
	})
}

// TestC06_Impossible: extrusions, lofts and revolutions by impossible heights,
// roundings or angles contain nothing.
func TestC06_Impossible(t *testing.T) {
	check(t, 300, "always", func(c *Case) {
		a, b := c.tree2("a", 1), c.tree2("b", 1)
		h := c.LogF("h", 0.3, 6)
		neg := -c.F("neg", 0, 5)
		r := h * c.F("r", 0.5001, 3)
		nr := -h * c.F("nr", 0.001, 3)
		c.Desc("%s, %s, heights %v and %v, roundings %v and %v", a.desc, b.desc, h, neg, r, nr)
		c.NonTrivial()
		box := r3.Box{Min: v3(a.rb.Min.X, a.rb.Min.Y, -h/2), Max: v3(a.rb.Max.X, a.rb.Max.Y, h/2)}
		for _, e := range []struct {
			what string
			s    sdf.SDF3
		}{
			{"ExtrudeRounded3D of height <= 0", sdf.ExtrudeRounded3D(a.s, neg, 0.1)},
			{"ExtrudeRounded3D with negative rounding", sdf.ExtrudeRounded3D(a.s, h, nr)},
			{"ExtrudeRounded3D with too much rounding", sdf.ExtrudeRounded3D(a.s, h, r)},
			{"Loft3D of height <= 0", sdf.Loft3D(a.s, b.s, neg, 0)},
			{"Loft3D with negative rounding", sdf.Loft3D(a.s, b.s, h, nr)},
			{"Loft3D with too much rounding", sdf.Loft3D(a.s, b.s, h, r)},
			{"Revolve3D by an angle <= 0", sdf.Revolve3D(a.s, neg)},
		} {
			nothing3(c, fmt.Sprintf("%s of %s", e.what, a.desc), e.s, box)
		}
	})
}
