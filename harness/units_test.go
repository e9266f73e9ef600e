package harness

import (
	"math"
	"testing"

	"github.com/soypat/sdf"
	"gonum.org/v1/gonum/spatial/r2"
	"gonum.org/v1/gonum/spatial/r3"
)

// units draws a factor as used to convert between units of length: from
// micrometres to metres and back, or to feet.
func (c *Case) units(name string) float64 {
	if c.B(name + ".dec") {
		return math.Pow(10, float64(c.I(name+".e", -6, 6)))
	}
	return c.LogF(name, 1e-6, 1e6)
}

// TestC04_Units3D: changing the unit of length, by a strong scaling before and
// after other steps, moves the solid exactly as a moderate one does.
func TestC04_Units3D(t *testing.T) {
	check(t, 600, "the factor is below 1/100 or above 100", func(c *Case) {
		o := c.prim3("o")
		a, b := c.steps3("a", false), c.steps3("b", false)
		k := c.units("k")
		kv := v3(k, k, k)
		switch c.I("how", 0, 7) {
		case 0:
			kv.X *= c.LogF("kx", 0.01, 100)
		case 1:
			kv.Y = -k
		}
		// the second steps happen in the new unit
		for i := range b {
			if b[i].kind == "tr" {
				b[i].v = r3.Scale(k, b[i].v)
			}
		}
		st := append(append(append(steps3(nil), a...), steps3{{kind: "scale", v: kv}}...), b...)
		c.Desc("%s, %v", o.desc, st)
		if k < 1e-2 || k > 1e2 {
			c.NonTrivial()
		}
		m := matrix3(sdf.Translate3D(r3.Vec{}), st)
		det := kv.X * kv.Y * kv.Z
		for _, x := range st {
			if x.kind[0] == 'm' {
				det = -det
			}
		}
		if g := m.Determinant(); !near(g/det, 1, 1e-9) {
			c.Failf("determinant %v, want %v", g, det)
		}
		s := sdf.Transform3D(o.s, m)
		su := sdf.ScaleUniform3D(o.s, k)
		inv := m.Inverse()
		kmax := math.Max(math.Abs(kv.X), math.Abs(kv.Y))
		for _, p := range c.points3(o, 30) {
			q := st.fwd(p)
			// what the rounding of positions in the new unit is worth in the old one
			tol := 1e-9 * (1 + r3.Norm(p) + diag3(o.s.Bounds())) * kmax / math.Min(math.Min(math.Abs(kv.X), math.Abs(kv.Y)), math.Abs(kv.Z))
			if g := r3.Norm(r3.Sub(m.MulPosition(p), q)); g > 1e-9*(k+r3.Norm(q)) {
				c.Failf("M*%v = %v, want %v", p, m.MulPosition(p), q)
			}
			if g := r3.Norm(r3.Sub(inv.MulPosition(q), p)); g > 10*tol {
				c.Failf("inverse(M)*%v = %v, want %v", q, inv.MulPosition(q), p)
			}
			w := o.s.Evaluate(p)
			if g := s.Evaluate(q); o.lip && !near(g, w, 100*tol) {
				c.Failf("transformed at %v: %v, original at %v: %v", q, g, p, w)
			}
			if g := su.Evaluate(r3.Scale(k, p)); !near(g, k*w, 1e-9*k*(1+r3.Norm(p)+math.Abs(w))) {
				c.Failf("%v times larger at %v: %v, original at %v: %v", k, r3.Scale(k, p), g, p, w)
			}
		}
		if g, w := s.Bounds(), mapBox3(o.s.Bounds(), st.fwd); !sameBox3(w, g, 1e-9*absmax3(w)) {
			c.Failf("bounds %v do not contain %v", g, w)
		}
	})
}

func TestC04_Units2D(t *testing.T) {
	check(t, 600, "the factor is below 1/100 or above 100", func(c *Case) {
		o := c.prim2("o")
		a, b := c.steps2("a", false), c.steps2("b", false)
		k := c.units("k")
		kv := v2(k, k)
		switch c.I("how", 0, 7) {
		case 0:
			kv.X *= c.LogF("kx", 0.01, 100)
		case 1:
			kv.Y = -k
		}
		for i := range b {
			if b[i].kind == "tr" {
				b[i].v = r2.Scale(k, b[i].v)
			}
		}
		st := append(append(append(steps2(nil), a...), steps2{{kind: "scale", v: kv}}...), b...)
		c.Desc("%s, %v", o.desc, st)
		if k < 1e-2 || k > 1e2 {
			c.NonTrivial()
		}
		m := matrix2(sdf.Translate2D(r2.Vec{}), st)
		det := kv.X * kv.Y
		for _, x := range st {
			if x.kind[0] == 'm' {
				det = -det
			}
		}
		if g := m.Determinant(); !near(g/det, 1, 1e-9) {
			c.Failf("determinant %v, want %v", g, det)
		}
		s := sdf.Transform2D(o.s, m)
		su := sdf.ScaleUniform2D(o.s, k)
		inv := m.Inverse()
		kmax := math.Max(math.Abs(kv.X), math.Abs(kv.Y))
		for _, p := range c.points2(o, 30) {
			q := st.fwd(p)
			tol := 1e-9 * (1 + r2.Norm(p) + diag2(o.s.Bounds())) * kmax / math.Min(math.Abs(kv.X), math.Abs(kv.Y))
			if g := r2.Norm(r2.Sub(m.MulPosition(p), q)); g > 1e-9*(k+r2.Norm(q)) {
				c.Failf("M*%v = %v, want %v", p, m.MulPosition(p), q)
			}
			if g := r2.Norm(r2.Sub(inv.MulPosition(q), p)); g > 10*tol {
				c.Failf("inverse(M)*%v = %v, want %v", q, inv.MulPosition(q), p)
			}
			w := o.s.Evaluate(p)
			if g := s.Evaluate(q); o.lip && !near(g, w, 100*tol) {
				c.Failf("transformed at %v: %v, original at %v: %v", q, g, p, w)
			}
			if g := su.Evaluate(r2.Scale(k, p)); !near(g, k*w, 1e-9*k*(1+r2.Norm(p)+math.Abs(w))) {
				c.Failf("%v times larger at %v: %v, original at %v: %v", k, r2.Scale(k, p), g, p, w)
			}
		}
		if g, w := s.Bounds(), mapBox2(o.s.Bounds(), st.fwd); !sameBox2(w, g, 1e-9*absmax2(w)) {
			c.Failf("bounds %v do not contain %v", g, w)
		}
	})
}

// TestC04_Integers: integer vectors add, subtract and convert component by
// component.
func TestC04_Integers(t *testing.T) {
	check(t, 300, "no component is zero", func(c *Case) {
		in := func(name string) int {
			if c.B(name + ".big") {
				return c.I(name, -1<<40, 1<<40)
			}
			return c.I(name, -9, 9)
		}
		a, b, k := sdf.V3i{in("a0"), in("a1"), in("a2")}, sdf.V3i{in("b0"), in("b1"), in("b2")}, in("k")
		a2, b2 := sdf.V2i{a[0], a[1]}, sdf.V2i{b[0], b[1]}
		c.Desc("a %v b %v k %d", a, b, k)
		if a[0]*a[1]*a[2] != 0 && b != (sdf.V3i{}) && k != 0 {
			c.NonTrivial()
		}
		eq := func(what string, got, want interface{}) {
			if got != want {
				c.Failf("%s of %v, %v, %d is %v, want %v", what, a, b, k, got, want)
			}
		}
		eq("V3i.Add", a.Add(b), sdf.V3i{a[0] + b[0], a[1] + b[1], a[2] + b[2]})
		eq("V3i.AddScalar", a.AddScalar(k), sdf.V3i{a[0] + k, a[1] + k, a[2] + k})
		eq("V3i.SubScalar", a.SubScalar(k), sdf.V3i{a[0] - k, a[1] - k, a[2] - k})
		eq("V2i.Add", a2.Add(b2), sdf.V2i{a[0] + b[0], a[1] + b[1]})
		eq("V2i.AddScalar", a2.AddScalar(k), sdf.V2i{a[0] + k, a[1] + k})
		eq("V2i.SubScalar", a2.SubScalar(k), sdf.V2i{a[0] - k, a[1] - k})
		f3 := v3(float64(a[0]), float64(a[1]), float64(a[2]))
		eq("ToV3", a.ToV3(), f3)
		eq("R3FromI", sdf.R3FromI(a), f3)
		eq("R2FromI", sdf.R2FromI(a2), v2(f3.X, f3.Y))
		// conversion to integers drops the fraction
		q := c.F("fraction", 0, 0.999)
		add := func(x float64) float64 {
			if math.Abs(x) > 1e6 {
				return x
			}
			return x + math.Copysign(q, x)
		}
		eq("R3ToI", sdf.R3ToI(v3(add(f3.X), add(f3.Y), add(f3.Z))), a)
		eq("R2ToI", sdf.R2ToI(v2(add(f3.X), add(f3.Y))), a2)
	})
}
