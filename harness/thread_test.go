package harness

import (
	"errors"
	"fmt"
	"math"
	"testing"

	"github.com/soypat/sdf"
	"github.com/soypat/sdf/form2/must2"
	"github.com/soypat/sdf/form3/obj3/thread"
	"gonum.org/v1/gonum/spatial/r2"
	"gonum.org/v1/gonum/spatial/r3"
)

// A profile is one period of a thread outline: height over the screw axis at
// position x in [-pitch/2, pitch/2].
type profile struct {
	pts []r2.Vec // by increasing x
}

func (f profile) at(x float64) float64 {
	v := f.pts
	for i := 1; i < len(v); i++ {
		if x <= v[i].X {
			if v[i].X == v[i-1].X {
				return v[i].Y
			}
			return v[i-1].Y + (v[i].Y-v[i-1].Y)*(x-v[i-1].X)/(v[i].X-v[i-1].X)
		}
	}
	return v[len(v)-1].Y
}

// slope bounds the steepness of the outline.
func (f profile) slope() float64 {
	m := 1.0
	for i := 1; i < len(f.pts); i++ {
		if dx := f.pts[i].X - f.pts[i-1].X; dx > 1e-12 {
			m = math.Max(m, math.Abs(f.pts[i].Y-f.pts[i-1].Y)/dx)
		}
	}
	return m
}

func (f profile) max() float64 {
	m := math.Inf(-1)
	for _, p := range f.pts {
		m = math.Max(m, p.Y)
	}
	return m
}

func (f profile) min() float64 {
	m := math.Inf(1)
	for _, p := range f.pts {
		m = math.Min(m, p.Y)
	}
	return m
}

// period wraps x into [-p/2, p/2).
func period(x, p float64) float64 {
	x = math.Mod(x, p)
	if x < -p/2 {
		x += p
	}
	if x >= p/2 {
		x -= p
	}
	return x
}

// threadForm is a thread with the outline its standard prescribes.
type threadForm struct {
	th         thread.Threader
	f          profile
	pitch, rad float64
	starts     int
	taper      float64
	f2f        float64 // 0: not fixed by the test
	name       string
}

// isoOutline: 60 degree form. External: crest flat p/8 at the nominal radius,
// root rounded with p/8/cos30. Internal: crest rounded, root flat p/4.
func isoOutline(d, p float64, ext bool) profile {
	h := p * math.Sqrt(3) / 2 // height of the sharp triangle
	top := d/2 + h/8          // sharp apex
	bot := top - h
	var v []r2.Vec
	if ext {
		rad := p / 8 / math.Cos(math.Pi/6)
		a := filletPoints(v2(p/16, d/2), v2(p/2, bot), v2(p-p/16, d/2), rad, 5)
		for i := 5; i >= 0; i-- {
			if q := a[i]; q.X >= p/2-1e-12 {
				v = append(v, v2(q.X-p, q.Y))
			}
		}
		// mirrored order: collect left half from the shifted right half
		for i, j := 0, len(v)-1; i < j; i, j = i+1, j-1 {
			v[i], v[j] = v[j], v[i]
		}
		mid := (a[2].Y + a[3].Y) / 2
		v = append([]r2.Vec{v2(-p/2, mid)}, v...)
		v = append(v, v2(-p/16, d/2), v2(p/16, d/2))
		for _, q := range a {
			if q.X < p/2 {
				v = append(v, q)
			}
		}
		v = append(v, v2(p/2, mid))
		return profile{v}
	}
	minor := bot + h/4
	v = append(v, v2(-p/2, minor), v2(-p*3/8, minor))
	v = append(v, filletPoints(v2(-p*3/8, minor), v2(0, top), v2(p*3/8, minor), p/16/math.Cos(math.Pi/6), 5)...)
	v = append(v, v2(p*3/8, minor), v2(p/2, minor))
	return profile{v}
}

func acmeOutline(d, p float64) profile {
	// 29 degrees included angle, depth p/2, crest and root equal at mid depth.
	t := math.Tan(14.5 * math.Pi / 180)
	a, b := p/4-p/4*t, p/4+p/4*t
	r, h := d/2, d/2-p/2
	return profile{[]r2.Vec{{X: -p / 2, Y: h}, {X: -b, Y: h}, {X: -a, Y: r}, {X: a, Y: r}, {X: b, Y: h}, {X: p / 2, Y: h}}}
}

// buttressOutline: 45/7 degrees, engagement 0.6 p.
func buttressOutline(d, p float64, crest1, root, crest2 float64) profile {
	t7 := math.Tan(7 * math.Pi / 180)
	h := p / (1 + t7)      // sharp height
	depth := 0.3*p + 0.5*h // crest to sharp root
	tr := h - depth        // truncation at the crest
	a := v2(-p/2+tr, d/2)  // end of the crest, start of the 45 degree flank
	b := v2(-p/2+h, d/2-depth)
	e := v2(p/2-tr*t7, d/2) // end of the 7 degree flank
	v := []r2.Vec{{X: -p / 2, Y: d / 2}}
	corner := func(prev, x, next r2.Vec, rad float64) {
		if rad == 0 {
			v = append(v, x)
			return
		}
		v = append(v, filletPoints(prev, x, next, rad, 5)...)
	}
	corner(v2(-p, d/2), a, b, crest1)
	corner(a, b, e, root)
	corner(b, e, v2(p, d/2), crest2)
	v = append(v, v2(p/2, d/2))
	// The rounded 7 degree crest may reach past the period.
	for i := range v {
		if v[i].X < -p/2 {
			v[i].X = -p / 2
		}
	}
	return profile{v}
}

// nominal NPT pipe sizes: outside diameter and threads per inch (ASME B1.20.1).
var nptTable = []struct{ n, d, tpi, f2f float64 }{
	{1. / 8, 0.405, 27, 11.2}, {1. / 4, 0.540, 18, 15.7}, {3. / 8, 0.675, 18, 17.5}, {1. / 2, 0.840, 14, 22.4},
	{3. / 4, 1.050, 14, 26.9}, {1, 1.315, 11.5, 35.1}, {1.25, 1.660, 11.5, 44.5}, {1.5, 1.900, 11.5, 50.8},
	{2, 2.375, 11.5, 63.5}, {2.5, 2.875, 8, 76.2}, {3, 3.5, 8, 88.9}, {4, 4.5, 8, 117.3},
}

// isoHexSizes lists hexagon sizes of metric threads on which the standards
// (ISO 272, ISO 4014, ISO 4032) agree: diameter, width across the flats.
var isoHexSizes = [][2]float64{
	{1.6, 3.2}, {2, 4}, {2.5, 5}, {4, 7}, {5, 8}, {6, 10}, {8, 13}, {10, 17}, {12, 19}, {16, 24}, {20, 30},
	{24, 36}, {30, 46}, {36, 55}, {42, 65}, {48, 75}, {56, 85}, {64, 95},
}

func (c *Case) threadForm(name string) threadForm {
	d := c.Len(name+".d", 2, 60)
	p := d * c.F(name+".p/d", 0.05, 0.35)
	kind := c.Pick(name+".form", "ISO ext", "ISO int", "UTS ext", "UTS int", "Acme", "ANSI buttress", "plastic buttress", "NPT", "NPT nominal")
	t := threadForm{pitch: p, rad: d / 2, starts: 1}
	switch kind {
	case "ISO ext", "ISO int":
		t.th, t.f = thread.ISO{D: d, P: p, Ext: kind == "ISO ext"}, isoOutline(d, p, kind == "ISO ext")
	case "UTS ext", "UTS int":
		t.th, t.f = thread.UTS{D: d, TPI: 1 / p, Ext: kind == "UTS ext"}, isoOutline(d, p, kind == "UTS ext")
	case "Acme":
		t.th, t.f = thread.Acme{D: d, P: p}, acmeOutline(d, p)
	case "ANSI buttress":
		t.th, t.f = thread.ANSIButtress{D: d, P: p}, buttressOutline(d, p, 0, 0.0714*p, 0)
	case "plastic buttress":
		t.th, t.f = thread.PlasticButtress{D: d, P: p}, buttressOutline(d, p, 0.15*p, 0.15*p, 0.05*p)
	case "NPT":
		t.th, t.f, t.taper = thread.NPT{D: d, TPI: 1 / p}, isoOutline(d, p, false), math.Atan(1./32)
		if c.B(name + ".f2f") {
			t.f2f = d * c.F(name+".f2fv", 1.2, 2)
			t.th = thread.NPT{D: d, TPI: 1 / p, F2F: t.f2f}
		}
	case "NPT nominal":
		e := nptTable[c.I(name+".size", 0, len(nptTable)-1)]
		var n thread.NPT
		if err := n.SetFromNominal(e.n + c.F(name+".off", -0.03, 0.03)); err != nil {
			c.Failf("SetFromNominal(%v): %v", e.n, err)
		}
		t.th, t.pitch, t.rad, t.taper, t.f2f = n, 1/e.tpi, e.d/2, math.Atan(1./32), e.f2f/25.4
		t.f = isoOutline(e.d, 1/e.tpi, false)
	}
	t.name = fmt.Sprintf("%s %+v", kind, t.th)
	return t
}

// --- C19 thread profiles -----------------------------------------------------

func TestC19_Profiles(t *testing.T) {
	check(t, 1200, "every case: 40 positions along the pitch", func(c *Case) {
		f := c.threadForm("t")
		c.NonTrivial()
		c.Desc("%s", f.name)
		s, err := f.th.Thread()
		if err != nil {
			c.Failf("%s: %v", f.name, err)
		}
		pp := f.th.ThreadParams()
		if !near(pp.Pitch, f.pitch, 1e-9*f.pitch) || !near(pp.Radius, f.rad, 1e-9*f.rad) || pp.Starts != 1 || !near(pp.Taper, f.taper, 1e-12) {
			c.Failf("%s: parameters %+v, want pitch %v radius %v starts 1 taper %v", f.name, pp, f.pitch, f.rad, f.taper)
		}
		if f.f2f != 0 && !near(pp.HexF2F, f.f2f, 1e-9*f.f2f) {
			c.Failf("%s: hex size %v, want %v", f.name, pp.HexF2F, f.f2f)
		}
		if m := isoHexSizes[c.I("m", 0, len(isoHexSizes)-1)]; true {
			q := thread.ISO{D: m[0], P: m[0] * c.F("m.p", 0.05, 0.35), Ext: c.B("m.ext")}.ThreadParams()
			if q.HexF2F != m[1] {
				c.Failf("M%v: hexagon of %v across the flats, ISO says %v", m[0], q.HexF2F, m[1])
			}
		}
		if f.rad < 30 && pp.HexF2F < 2.2*f.rad && f.f2f == 0 {
			c.Failf("%s: hex size %v leaves no wall around the thread", f.name, pp.HexF2F)
		}
		u := c.U("x0")
		tol := 1e-7 * (f.rad + f.pitch)
		for i := 0; i < 40; i++ {
			x := (frac(u+float64(i)*0.6180339887) - 0.5) * f.pitch
			want := f.f.at(x)
			// height of the outline by bisection, cross-checked on a scan
			lo, hi := tol, f.rad*2+f.pitch
			for k := 1; k < 12; k++ {
				y := want * float64(k) / 12
				if s.Evaluate(v2(x, y)) >= 0 {
					c.Failf("%s: profile is hollow at (%v, %v), outline height %v", f.name, x, y, want)
				}
			}
			for k := 1; k < 6; k++ {
				y := want + f.pitch*float64(k)/2
				if s.Evaluate(v2(x, y)) < 0 {
					c.Failf("%s: profile has material at (%v, %v), outline height %v", f.name, x, y, want)
				}
			}
			for j := 0; j < 60; j++ {
				m := (lo + hi) / 2
				if s.Evaluate(v2(x, m)) < 0 {
					lo = m
				} else {
					hi = m
				}
			}
			if !near(lo, want, tol*f.f.slope()*10) {
				c.Failf("%s: outline height at x=%v (%.4f pitch) is %v, want %v", f.name, x, x/f.pitch, lo, want)
			}
		}
		// The screw's radius comes from the profile's bounds.
		if m := s.Bounds().Max.Y; m < f.f.max()-tol || m > f.rad+f.pitch {
			c.Failf("%s: profile bounds reach %v, outline reaches %v", f.name, m, f.f.max())
		}
	})
}

// Metamorphic: profiles scale with size, and a larger diameter only lifts the
// outline.
func TestC19_Scaling(t *testing.T) {
	check(t, 500, "every case: 20 points", func(c *Case) {
		d := c.Len("d", 2, 60)
		p := d * c.F("p/d", 0.05, 0.3)
		k := c.LogF("k", 0.1, 10)
		up := c.F("up", 0, 1) * d
		kind := c.Pick("form", "ISO ext", "ISO int", "UTS ext", "UTS int", "Acme", "ANSI buttress", "plastic buttress", "NPT")
		mk := func(d, p float64) sdf.SDF2 {
			var th thread.Threader
			switch kind {
			case "ISO ext", "ISO int":
				th = thread.ISO{D: d, P: p, Ext: kind == "ISO ext"}
			case "UTS ext", "UTS int":
				th = thread.UTS{D: d, TPI: 1 / p, Ext: kind == "UTS ext"}
			case "Acme":
				th = thread.Acme{D: d, P: p}
			case "ANSI buttress":
				th = thread.ANSIButtress{D: d, P: p}
			case "plastic buttress":
				th = thread.PlasticButtress{D: d, P: p}
			case "NPT":
				th = thread.NPT{D: d, TPI: 1 / p}
			}
			s, err := th.Thread()
			if err != nil {
				c.Failf("%s d %v p %v: %v", kind, d, p, err)
			}
			return s
		}
		c.NonTrivial()
		c.Desc("%s d %v p %v k %v up %v", kind, d, p, k, up)
		a, b, l := mk(d, p), mk(k*d, k*p), mk(d+2*up, p)
		q := c.Pts2("q")
		for i := 0; i < 20; i++ {
			x := q.in(i, r2.Box{Min: v2(-p/2, d*0.3), Max: v2(p/2, d*0.7)})
			va, vb, vl := a.Evaluate(x), b.Evaluate(r2.Scale(k, x)), l.Evaluate(v2(x.X, x.Y+up))
			tol := 1e-9 * d
			if !near(vb, k*va, tol*k) {
				c.Failf("%s d %v p %v: value %v at %v, %v for the thread scaled by %v", kind, d, p, va, x, vb, k)
			}
			if (vl < -tol && va > tol) || (vl > tol && va < -tol) {
				c.Failf("%s d %v p %v: value %v at %v but %v for the same outline lifted by %v", kind, d, p, va, x, vl, up)
			}
		}
	})
}

func TestC19_NominalPipe(t *testing.T) {
	check(t, 400, "every case", func(c *Case) {
		c.NonTrivial()
		x := c.F("n", -0.5, 5)
		if c.B("near") {
			x = nptTable[c.I("i", 0, len(nptTable)-1)].n + c.F("off", -0.06, 0.06)
		}
		c.Desc("nominal size %v", x)
		n := thread.NPT{D: 7, TPI: 9, F2F: 11}
		err := n.SetFromNominal(x)
		for _, e := range nptTable {
			d := math.Abs(e.n - x)
			if near(d, 1./32, 1e-9) {
				return
			}
			if d < 1./32 {
				if err != nil || n.D != e.d || n.TPI != e.tpi || !near(n.F2F, e.f2f/25.4, 1e-12) {
					c.Failf("SetFromNominal(%v) = %v, %+v; want %+v", x, err, n, e)
				}
				return
			}
		}
		if err == nil {
			c.Failf("SetFromNominal(%v) succeeded: %+v", x, n)
		}
		if n != (thread.NPT{D: 7, TPI: 9, F2F: 11}) {
			c.Failf("failed SetFromNominal(%v) changed the thread to %+v", x, n)
		}
	})
}

// --- C18 screws ----------------------------------------------------------------

type userThread struct {
	s   sdf.SDF2
	p   thread.Parameters
	err error
}

func (u userThread) Thread() (sdf.SDF2, error)       { return u.s, u.err }
func (u userThread) ThreadParams() thread.Parameters { return u.p }

// userForm is a generated thread profile with any outline, starts and taper.
func (c *Case) userForm(name string) threadForm {
	rad := c.Len(name+".r", 0.5, 10)
	p := rad * c.LogF(name+".p", 0.1, 2)
	n := c.Cnt(name+".n", 2, 6, 20)
	x0 := c.F(name+".x0", -0.5, 0.5) * p
	var xs, ys []float64
	for i := 0; i < n; i++ {
		xs = append(xs, x0+p*(float64(i)+c.F(fmt.Sprintf("%s.dx%d", name, i), 0, 0.8))/float64(n))
		ys = append(ys, rad*c.F(fmt.Sprintf("%s.y%d", name, i), 0.4, 1))
	}
	// three periods, open bottom below the axis
	var v []r2.Vec
	for k := -2; k <= 2; k++ {
		for i := range xs {
			v = append(v, v2(xs[i]+float64(k)*p, ys[i]))
		}
	}
	bottom := 0.0
	if c.B(name + ".deep") {
		bottom = -rad * c.F(name+".bottom", 0.5, 2)
	}
	poly := append([]r2.Vec{{X: v[0].X, Y: bottom}}, v...)
	poly = append(poly, v2(v[len(v)-1].X, bottom))
	f := threadForm{pitch: p, rad: rad, starts: c.Cnt(name+".starts", -4, 4, 12), f: profile{v}}
	if c.B(name + ".tapered") {
		f.taper = c.F(name+".taper", -0.4, 0.4)
	}
	f.th = userThread{s: must2.Polygon(poly), p: thread.Parameters{Name: "user", Radius: rad, Pitch: p, Starts: f.starts, Taper: f.taper, HexF2F: 4 * rad}}
	f.name = fmt.Sprintf("user thread %v pitch %v starts %d taper %v", poly, p, f.starts, f.taper)
	return f
}

// screwRef: the profile wound around the z axis. Positive starts are right
// handed: going once around counterclockwise climbs starts pitches.
func (f threadForm) ref(length, grow float64) func(p r3.Vec) float64 {
	t := math.Tan(f.taper)
	k := f.f.slope() + 1
	return func(p r3.Vec) float64 {
		x := period(p.Z-float64(f.starts)*f.pitch*math.Atan2(p.Y, p.X)/(2*math.Pi), f.pitch)
		top := f.f.at(x) + grow - p.Z*t
		return math.Max((math.Hypot(p.X, p.Y)-top)/k, math.Abs(p.Z)-length/2)
	}
}

func (f threadForm) screwBox(length float64) r3.Box {
	r := f.f.max() + length/2*math.Abs(math.Tan(f.taper))
	return r3.Box{Min: v3(-r, -r, -length/2), Max: v3(r, r, length/2)}
}

// screwPoints: generated points plus points on both sides of the outline.
func (f threadForm) screwPoints(c *Case, length, grow float64, k int) []r3.Vec {
	ps := c.Pts3("q")
	b := growBox3(f.screwBox(length), 0.15, 0)
	var out []r3.Vec
	for i := 0; i < k; i++ {
		out = append(out, ps.in(i, b))
	}
	t := math.Tan(f.taper)
	for i := 0; i < k/4; i++ {
		u := ps.at(i + 6000)
		z := length * (u.X - 0.5)
		r := math.Abs(z*t)*u.Y*1.5 + f.rad*1e-3
		out = append(out, rotAxis(v3(r, 0, z), v3(0, 0, 1), 7*u.Z))
	}
	for i := 0; i < k; i++ {
		u := ps.at(i + 3000)
		th, z := math.Pi*(2*u.X-1), length*(u.Y-0.5)*1.02
		x := period(z-float64(f.starts)*f.pitch*th/(2*math.Pi), f.pitch)
		r := f.f.at(x) + grow - z*t + (u.Z-0.5)*0.2*f.pitch
		if r > 0 {
			out = append(out, v3(r*math.Cos(th), r*math.Sin(th), z))
		}
	}
	return out
}

func TestC18_Screw(t *testing.T) {
	check(t, 1500, ruleInOut, func(c *Case) {
		var f threadForm
		if c.B("user") {
			f = c.userForm("t")
		} else {
			f = c.threadForm("t")
		}
		l := f.pitch * c.Fac("l", 0.3, 20)
		if f.taper < 0 || f.taper > 0.05 {
			l = math.Min(l, f.rad*c.LogF("long", 2, 20)) // far beyond the tip
		}
		c.Desc("screw length %v of %s", l, f.name)
		c.Label(fmt.Sprintf("starts %d", f.starts))
		s, err := thread.Screw(l, f.th)
		if err != nil {
			c.Failf("Screw(%v, %s): %v", l, f.name, err)
		}
		ref := f.ref(l, 0)
		pts := f.screwPoints(c, l, 0, 40)
		in, out := 0, 0
		bb := s.Bounds()
		for _, p := range pts {
			tol := 1e-7 * (l + f.rad)
			r, g := ref(p), s.Evaluate(p)
			if !finite(g) {
				c.Failf("screw of %s: Evaluate(%v) = %v", f.name, p, g)
			}
			if h := math.Hypot(p.X, p.Y); math.Abs(h+p.Z*math.Tan(f.taper)) < tol*10 {
				continue
			}
			if math.Abs(r) > tol && (g < 0) != (r < 0) {
				c.Failf("screw length %v of %s: membership of %v: got %v, reference %v", l, f.name, p, g, r)
			}
			if g < -tol && outside3(bb, p) > tol {
				c.Failf("screw of %s: inside point %v is outside of the bounds %v", f.name, p, bb)
			}
			if r < 0 {
				in++
			} else {
				out++
			}
		}
		if in >= 3 && out >= 3 {
			c.NonTrivial()
		}
		// length and diameter of the bounds
		if !near(bb.Max.Z, l/2, 1e-9*l) || !near(bb.Min.Z, -l/2, 1e-9*l) {
			c.Failf("screw of %s: bounds %v for length %v", f.name, bb, l)
		}
	})
}

// Metamorphic relations of an untapered screw away from its ends.
func TestC18_Helix(t *testing.T) {
	check(t, 600, "every case: 20 points, four relations", func(c *Case) {
		f := c.userForm("t")
		if f.taper != 0 {
			u := f.th.(userThread)
			u.p.Taper, f.taper = 0, 0
			f.th = u
		}
		m := f.th.(userThread)
		m.p.Starts = -m.p.Starts
		l := f.pitch * c.F("l", 30, 40)
		s, err := thread.Screw(l, f.th)
		s2, err2 := thread.Screw(l, m)
		if err != nil || err2 != nil {
			c.Failf("Screw: %v %v", err, err2)
		}
		c.NonTrivial()
		c.Desc("screw length %v of %s", l, f.name)
		q := c.Pts3("q")
		phi := c.F("phi", -math.Pi, math.Pi)
		n := float64(c.I("k", -5, 5))
		for i := 0; i < 20; i++ {
			p := q.in(i, boxAround3(r3.Vec{}, v3(f.rad*1.1, f.rad*1.1, f.pitch*3)))
			v := s.Evaluate(p)
			tol := 1e-7 * (f.rad + f.pitch)
			lead := float64(f.starts) * f.pitch
			side := func(w float64) bool { return (v < -tol && w > tol) || (v > tol && w < -tol) }
			if w := s.Evaluate(r3.Add(rotAxis(p, v3(0, 0, 1), phi), v3(0, 0, lead*phi/(2*math.Pi)))); side(w) {
				c.Failf("%s: %v at %v, %v after the screw motion by %v", f.name, v, p, w, phi)
			}
			if w := s.Evaluate(r3.Add(p, v3(0, 0, n*f.pitch))); side(w) {
				c.Failf("%s: %v at %v, %v moved by %v pitches", f.name, v, p, w, n)
			}
			if f.starts != 0 {
				if w := s.Evaluate(rotAxis(p, v3(0, 0, 1), 2*math.Pi*n/float64(f.starts))); side(w) {
					c.Failf("%s: %v at %v, %v turned to another start", f.name, v, p, w)
				}
			}
			if w := s2.Evaluate(v3(p.X, -p.Y, p.Z)); side(w) {
				c.Failf("%s: %v at %v, %v mirrored for the opposite hand", f.name, v, p, w)
			}
		}
	})
}

func TestC18_Errors(t *testing.T) {
	check(t, 200, "every case", func(c *Case) {
		f := c.userForm("t")
		c.NonTrivial()
		c.Desc("%s", f.name)
		for _, l := range []float64{0, -c.LogF("l", 1e-3, 100)} {
			if s, err := thread.Screw(l, f.th); err == nil || s != nil {
				c.Failf("Screw(%v) = %v, %v", l, s, err)
			}
		}
		if s, err := thread.Screw(1, nil); err == nil || s != nil {
			c.Failf("Screw of a nil thread = %v, %v", s, err)
		}
		u := f.th.(userThread)
		u.err = errors.New("bad thread")
		if s, err := thread.Screw(1, u); err != u.err || s != nil {
			c.Failf("Screw of a thread with an error = %v, %v", s, err)
		}
	})
}
