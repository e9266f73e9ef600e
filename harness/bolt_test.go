package harness

import (
	"errors"
	"fmt"
	"math"
	"testing"

	"github.com/soypat/sdf"
	"github.com/soypat/sdf/form3/obj3/thread"
	"gonum.org/v1/gonum/spatial/r2"
	"gonum.org/v1/gonum/spatial/r3"
)

// --- C20 heads, knurls, nuts and bolts ------------------------------------------

type member = func(p r3.Vec) float64 // <0 inside; only the sign is meaningful

func cylRef(h, r, round float64) member {
	return func(p r3.Vec) float64 {
		return rectSDF2(v2(math.Hypot(p.X, p.Y), p.Z), v2(r-round, h/2-round)) - round
	}
}

func at(m member, o r3.Vec) member { return func(p r3.Vec) float64 { return m(r3.Sub(p, o)) } }

func maxOf(ms ...member) member {
	return func(p r3.Vec) float64 {
		v := math.Inf(-1)
		for _, m := range ms {
			v = math.Max(v, m(p))
		}
		return v
	}
}

func minOf(ms ...member) member {
	return func(p r3.Vec) float64 {
		v := math.Inf(1)
		for _, m := range ms {
			v = math.Min(v, m(p))
		}
		return v
	}
}

func neg(m member) member { return func(p r3.Vec) float64 { return -m(p) } }

// hexRef is a hexagonal prism with corners rounded by 8% of the radius; top
// and bottom may be rounded by a sphere of 1.6 radii touching the flats' rims.
func hexRef(radius, h float64, round string) member {
	cr := 0.08 * radius
	var v []r2.Vec
	for i := 0; i < 6; i++ {
		a := float64(i) * math.Pi / 3
		v = append(v, v2((radius-cr)*math.Cos(a), (radius-cr)*math.Sin(a)))
	}
	big := 1.6 * radius
	d := radius * math.Cos(math.Pi/6)
	off := h/2 - math.Sqrt(big*big-d*d) // height of the centre of the rounding sphere
	top := round == "t" || round == "tb"
	bottom := round == "b" || round == "tb"
	return func(p r3.Vec) float64 {
		m := math.Max(polySDF(v2(p.X, p.Y), v)-cr, math.Abs(p.Z)-h/2)
		if top {
			// only beyond the centre does the sphere round the end
			m = math.Max(m, r3.Norm(v3(p.X, p.Y, math.Max(0, p.Z-off)))-big)
		}
		if bottom {
			m = math.Max(m, r3.Norm(v3(p.X, p.Y, math.Max(0, -p.Z-off)))-big)
		}
		return m
	}
}

// knurlRef: the common part of a left and a right handed multi start screw with
// a triangular profile.
func knurlRef(l, r, pitch, height, theta float64) member {
	starts := math.Floor(2 * math.Pi * r * math.Tan(theta) / pitch)
	one := func(s float64) member {
		return func(p r3.Vec) float64 {
			x := period(p.Z-s*pitch*math.Atan2(p.Y, p.X)/(2*math.Pi), pitch)
			top := r + height*(1-math.Abs(x)/(pitch/2))
			return math.Max((math.Hypot(p.X, p.Y)-top)/(2+2*height/pitch), math.Abs(p.Z)-l/2)
		}
	}
	return maxOf(one(starts), one(-starts))
}

func knurledHeadRef(r, h, pitch float64) member {
	round := 0.05 * r
	l := pitch * math.Floor((h-round)/pitch)
	return minOf(cylRef(h, r, round), knurlRef(l, r, pitch, 0.3*pitch, math.Pi/4))
}

// judge compares membership at the points, away from the reference surface.
func judge(c *Case, what string, s sdf.SDF3, ref member, pts []r3.Vec, tol float64) {
	if err := disagreement(c, s, ref, pts, tol); err != nil {
		c.Failf("%s: %v", what, err)
	}
}

func disagreement(c *Case, s sdf.SDF3, ref member, pts []r3.Vec, tol float64) error {
	in, out := 0, 0
	bb := s.Bounds()
	for _, p := range pts {
		r, g := ref(p), s.Evaluate(p)
		if !finite(g) {
			return fmt.Errorf("Evaluate(%v) = %v", p, g)
		}
		if g < -tol && outside3(bb, p) > tol {
			return fmt.Errorf("inside point %v is outside of the bounds %v", p, bb)
		}
		if math.Abs(r) <= tol || math.IsNaN(r) {
			continue
		}
		if (g < 0) != (r < 0) {
			return fmt.Errorf("membership of %v: got %v, reference %v", p, g, r)
		}
		if r < 0 {
			in++
		} else {
			out++
		}
	}
	if in >= 3 && out >= 3 {
		c.NonTrivial()
	}
	return nil
}

// surfacePoints returns points spread in b and points near the reference's
// surface, found by bisection along rays from points inside.
func surfacePoints(c *Case, ref member, b r3.Box, k int) []r3.Vec {
	ps := c.Pts3("sp")
	var out, in []r3.Vec
	big := growBox3(b, 0.1, 0)
	for i := 0; i < k; i++ {
		p := ps.in(i, big)
		// keep off the axis, where every profile of revolution has a seam
		out = append(out, p)
		if ref(p) < 0 {
			in = append(in, p)
		}
	}
	for i, a := range in {
		u := ps.at(i + 5000)
		z := 2*u.X - 1
		r := math.Sqrt(1 - z*z)
		dir := v3(r*math.Cos(2*math.Pi*u.Y), r*math.Sin(2*math.Pi*u.Y), z)
		o := r3.Add(a, r3.Scale(2*diag3(big), dir))
		if ref(o) < 0 {
			continue
		}
		x, y := a, o
		for j := 0; j < 50; j++ {
			m := r3.Scale(0.5, r3.Add(x, y))
			if ref(m) < 0 {
				x = m
			} else {
				y = m
			}
		}
		e := r3.Scale(diag3(b)*math.Pow(10, -2-3*u.Z), dir)
		out = append(out, r3.Sub(x, e), r3.Add(y, e))
	}
	return out
}

func offAxis(pts []r3.Vec, r float64) (o []r3.Vec) {
	for _, p := range pts {
		if math.Hypot(p.X, p.Y) > r {
			o = append(o, p)
		}
	}
	return
}

func TestC20_HexHead(t *testing.T) {
	check(t, 600, ruleInOut, func(c *Case) {
		r := c.Len("r", 0.5, 50)
		h := r * c.F("h/r", 0.2, 1.5)
		if c.I("tall", 0, 4) == 0 {
			h = r * c.LogF("tall.h/r", 0.02, 10)
		}
		round := c.Pick("round", "", "t", "b", "tb")
		c.Desc("hex head radius %v height %v round %q", r, h, round)
		s, err := thread.HexHead(r, h, round)
		if err != nil {
			c.Failf("HexHead: %v", err)
		}
		ref := hexRef(r, h, round)
		b := boxAround3(r3.Vec{}, v3(r, r, h/2))
		judge(c, "hex head", s, ref, surfacePoints(c, ref, b, 60), 1e-8*(r+h))
	})
}

func TestC20_Knurl(t *testing.T) {
	check(t, 600, ruleInOut, func(c *Case) {
		r := c.Len("r", 0.5, 50)
		pitch := r * c.LogF("p/r", 0.05, 0.8)
		if c.B("head") {
			h := pitch*c.F("h/p", 1, 5) + 0.05*r
			if h < 0.1*r {
				h = 0.1 * r
			}
			if q := (h - 0.05*r) / pitch; near(q, math.Round(q), 1e-6) {
				h += 0.01 * pitch
			}
			c.Desc("knurled head radius %v height %v pitch %v", r, h, pitch)
			s, err := thread.KnurledHead(r, h, pitch)
			if err != nil {
				c.Failf("KnurledHead: %v", err)
			}
			if q := 2 * math.Pi * r / pitch; near(q, math.Round(q), 1e-6) {
				return
			}
			ref := knurledHeadRef(r, h, pitch)
			b := boxAround3(r3.Vec{}, v3(r+0.3*pitch, r+0.3*pitch, h/2))
			judge(c, "knurled head", s, ref, offAxis(surfacePoints(c, ref, b, 80), 1e-3*r), 1e-7*(r+h))
			return
		}
		l := pitch * c.LogF("l/p", 0.3, 8)
		ht := pitch * c.F("ht/p", 0.05, 1)
		th := c.F("theta", 0, 1.3)
		if q := 2 * math.Pi * r * math.Tan(th) / pitch; near(q, math.Round(q), 1e-6) && th > 0 {
			return
		}
		c.Desc("knurl length %v radius %v pitch %v height %v theta %v", l, r, pitch, ht, th)
		s, err := thread.Knurl(thread.KnurlParams{Length: l, Radius: r, Pitch: pitch, Height: ht, Theta: th})
		if err != nil {
			c.Failf("Knurl: %v", err)
		}
		ref := knurlRef(l, r, pitch, ht, th)
		b := boxAround3(r3.Vec{}, v3(r+ht, r+ht, l/2))
		pts := surfacePoints(c, ref, b, 40)
		ps := c.Pts3("rim")
		for i := 0; i < 60; i++ {
			u := ps.at(i)
			out := r + ht*(1.2*u.X-0.1)
			pts = append(pts, rotAxis(v3(out, 0, l*(u.Y-0.5)), v3(0, 0, 1), 2*math.Pi*u.Z))
		}
		judge(c, "knurl", s, ref, offAxis(pts, 1e-3*r), 1e-7*(r+l))
	})
}

func TestC20_Nut(t *testing.T) {
	check(t, 700, ruleInOut, func(c *Case) {
		f := c.threadForm("t")
		if f.rad > 28 {
			return // the hex size table ends at 95 mm
		}
		style := []thread.NutStyle{thread.NutCircular, thread.NutHex, thread.NutKnurl}[c.I("style", 0, 2)]
		tol := 0.0
		if c.B("tolerant") {
			tol = f.pitch * c.F("tol", 0, 0.5)
		}
		c.Desc("nut style %v tolerance %v of %s", style, tol, f.name)
		c.Label(style.String())
		k := thread.NutParms{Thread: f.th, Style: style, Tolerance: tol}
		s, err := thread.Nut(k)
		if err != nil {
			c.Failf("Nut: %v", err)
		}
		pp := f.th.ThreadParams()
		r := pp.HexF2F / 2 / math.Cos(math.Pi/6)
		h := 2 * r * 5 / 12
		if !near(pp.HexRadius(), r, 1e-9*r) || !near(pp.HexHeight(), h, 1e-9*h) {
			c.Failf("hex flat to flat %v: radius %v height %v", pp.HexF2F, pp.HexRadius(), pp.HexHeight())
		}
		var body member
		br := r
		switch style {
		case thread.NutCircular:
			br = 1.1 * r
			body = cylRef(h, br, 0)
		case thread.NutHex:
			body = hexRef(r, h, "tb")
		case thread.NutKnurl:
			body = knurledHeadRef(r, h, r/4)
			br = r * 1.1
		}
		ref := maxOf(body, neg(f.ref(h, tol)))
		b := boxAround3(r3.Vec{}, v3(br, br, h/2))
		pts := surfacePoints(c, ref, b, 60)
		pts = append(pts, f.screwPoints(c, h*0.98, tol, 40)...)
		judge(c, "nut", s, ref, offAxis(pts, 1e-3*r+h/32), 1e-7*(r+h))
	})
}

// boltParts returns the reference solid of a bolt and its total extent.
func (f threadForm) boltRef(style thread.NutStyle, total, shank, tol float64) (head, stem, th member, box r3.Box, z0, z1 float64) {
	pp := f.th.ThreadParams()
	r := pp.HexF2F / 2 / math.Cos(math.Pi/6)
	h := 2 * r * 5 / 12
	br := r
	if style == thread.NutHex {
		head = hexRef(r, h, "b")
	} else {
		head = knurledHeadRef(r, h, r/4)
		br = 1.1 * r
	}
	z0 = shank + h/2
	stem = at(cylRef(z0, f.rad, 0.08*h), v3(0, 0, z0/2))
	l := total - shank
	z1 = z0 + l
	screw := f.ref(l, -tol)
	// The end is chamfered at 45 degrees over half the thread radius.
	rm := f.rBounds() - tol + l/2*math.Tan(f.taper)
	th = at(func(p r3.Vec) float64 {
		m := screw(p)
		// the corner of the chamfer is cut symmetrically
		cut := 0.5 * rm / math.Sqrt2
		zone := (math.Hypot(p.X, p.Y) + p.Z - (rm + l/2 - cut)) / math.Sqrt2
		if cut > 0.99*l {
			if zone > 0 && m < 0 {
				return math.NaN() // too short for the chamfer: not judged
			}
			return m
		}
		return math.Max(m, zone)
	}, v3(0, 0, z0+l/2))
	br = math.Max(br, rm)
	return head, stem, th, r3.Box{Min: v3(-br, -br, -h/2), Max: v3(br, br, z1)}, z0, z1
}

// rBounds: the radius that screws take from their profile is the largest
// height of the whole polygon, not just of one period.
func (f threadForm) rBounds() float64 {
	s, err := f.th.Thread()
	if err != nil {
		return math.NaN()
	}
	return s.Bounds().Max.Y
}

func (c *Case) bolt(name string) (f threadForm, k thread.BoltParms, desc string) {
	for f = c.threadForm(name); f.rad > 28 || f.th.ThreadParams().HexHeight()*0.08 > 0.99*f.rad; {
		f.th, f.f, f.pitch, f.rad, f.taper = thread.ISO{D: 8, P: 1.25, Ext: true}, isoOutline(8, 1.25, true), 1.25, 4, 0
		f.name = "ISO M8 ext"
	}
	k = thread.BoltParms{Thread: f.th, Style: []thread.NutStyle{thread.NutHex, thread.NutKnurl}[c.I(name+".style", 0, 1)]}
	k.TotalLength = f.rad * c.LogF(name+".total", 1, 8)
	if c.B(name + ".shanked") {
		k.ShankLength = k.TotalLength * c.F(name+".shank", 0, 0.85)
	}
	return f, k, fmt.Sprintf("bolt style %v total %v shank %v of %s", k.Style, k.TotalLength, k.ShankLength, f.name)
}

func TestC20_Bolt(t *testing.T) {
	check(t, 700, ruleInOut, func(c *Case) {
		f, k, desc := c.bolt("b")
		c.Desc("%s", desc)
		s, err := thread.Bolt(k)
		if err != nil {
			c.Failf("Bolt: %v", err)
		}
		head, stem, th, box, z0, z1 := f.boltRef(k.Style, k.TotalLength, k.ShankLength, 0)
		ref := minOf(head, stem, th)
		pts := surfacePoints(c, ref, box, 80)
		l := z1 - z0
		for _, p := range f.screwPoints(c, l*0.98, 0, 40) {
			pts = append(pts, r3.Add(p, v3(0, 0, z0+l/2)))
		}
		judge(c, desc, s, ref, offAxis(pts, 1e-3*f.rad+l/32*f.taper*40), 1e-7*(f.rad+z1))
		if m := s.Bounds().Max.Z; !near(m, z1, 1e-7*(1+z1)) {
			c.Failf("%s: reaches z = %v, want %v", desc, m, z1)
		}
	})
}

const boltToleranceID = "bolt-tolerance-ignored"

// The finding: Bolt returns the same solid for any tolerance (an existing test
// pins the image of a bolt with a tolerance, so it is not repaired).
func TestC20_BoltTolerance(t *testing.T) {
	known(t, boltToleranceID, "thread.Bolt ignores BoltParms.Tolerance: the external thread is not reduced (M16x2, tolerance 0.3)", func() error {
		s, err := thread.Bolt(thread.BoltParms{Thread: thread.ISO{D: 16, P: 2, Ext: true}, Style: thread.NutHex, TotalLength: 40, ShankLength: 10, Tolerance: 0.3})
		if err != nil {
			return err
		}
		for i := 0; i < 200; i++ {
			a := 0.1 * float64(i)
			p := v3(7.85*math.Cos(a), 7.85*math.Sin(a), 25+0.05*float64(i))
			if v := s.Evaluate(p); v < -1e-9 {
				return fmt.Errorf("point %v at radius 7.85 is inside the thread (%v) of nominal radius 8 less 0.3", p, v)
			}
		}
		return nil
	})
	// For generated bolts the thread is either reduced as documented or, while
	// the finding stands, exactly that of tolerance zero.
	check(t, 200, ruleInOut, func(c *Case) {
		f, k, desc := c.bolt("b")
		k.Tolerance = f.pitch * c.F("tol", 0.05, 0.3)
		c.Desc("%s tolerance %v", desc, k.Tolerance)
		s, err := thread.Bolt(k)
		if err != nil {
			c.Failf("Bolt: %v", err)
		}
		var errs []error
		for _, tol := range []float64{k.Tolerance, 0} {
			head, stem, th, box, z0, z1 := f.boltRef(k.Style, k.TotalLength, k.ShankLength, tol)
			ref := minOf(head, stem, th)
			pts := surfacePoints(c, ref, box, 60)
			l := z1 - z0
			for _, p := range f.screwPoints(c, l*0.98, -tol, 30) {
				pts = append(pts, r3.Add(p, v3(0, 0, z0+l/2)))
			}
			e := disagreement(c, s, ref, offAxis(pts, 1e-3*f.rad+l/32*f.taper*40), 1e-7*(f.rad+z1))
			if e == nil {
				return
			}
			errs = append(errs, e)
		}
		c.Failf("%s tolerance %v: %v; without tolerance: %v", desc, k.Tolerance, errs[0], errs[1])
	})
}

// A bolt made to the external form turns freely in a nut of the internal form.
func TestC20_Fit(t *testing.T) {
	check(t, 400, "every case: 60 points around the thread surfaces", func(c *Case) {
		d := c.Len("d", 2, 40)
		p := d * c.F("p/d", 0.05, 0.25)
		tol := p * c.F("tol", 0, 0.3)
		inch := c.B("UTS")
		var e, i thread.Threader = thread.ISO{D: d, P: p, Ext: true}, thread.ISO{D: d, P: p}
		if inch {
			e, i = thread.UTS{D: d, TPI: 1 / p, Ext: true}, thread.UTS{D: d, TPI: 1 / p}
		}
		nut, err := thread.Nut(thread.NutParms{Thread: i, Style: thread.NutHex, Tolerance: tol})
		if err != nil {
			c.Failf("Nut: %v", err)
		}
		h := i.ThreadParams().HexHeight()
		l := h + 4*p
		screw, err := thread.Screw(l, e)
		if err != nil {
			c.Failf("Screw: %v", err)
		}
		c.NonTrivial()
		c.Desc("thread d %v pitch %v tolerance %v", d, p, tol)
		f := threadForm{th: e, f: isoOutline(d, p, true), pitch: p, rad: d / 2, starts: 1}
		for _, q := range f.screwPoints(c, h, 0, 30) {
			a, b := nut.Evaluate(q), screw.Evaluate(q)
			if a < -1e-9*d && b < -1e-9*d {
				c.Failf("d %v pitch %v tolerance %v: point %v is inside of both nut (%v) and bolt thread (%v)", d, p, tol, q, a, b)
			}
			// radial clearance
			hq := math.Hypot(q.X, q.Y)
			q2 := r3.Add(q, r3.Scale(0.98*tol/hq, v3(q.X, q.Y, 0)))
			if a := nut.Evaluate(q2); a < -1e-9*d && b < -1e-9*d {
				c.Failf("d %v pitch %v: radial clearance at %v is less than the tolerance %v", d, p, q, tol)
			}
		}
	})
}

func TestC20_Errors(t *testing.T) {
	check(t, 400, "every case", func(c *Case) {
		f, k, desc := c.bolt("b")
		bad := c.Pick("bad", "nil thread", "total", "shank", "shank all", "tolerance", "style", "thread error", "hex", "nut nil", "nut tolerance", "nut style", "nut thread", "nut hex", "knurl", "oversized head", "ok")
		c.NonTrivial()
		c.Desc("%s with bad %s", desc, bad)
		c.Label(bad)
		x := c.LogF("x", 1e-3, 10)
		var s sdf.SDF3
		var err error
		want := true
		pp := f.th.ThreadParams()
		pp.HexF2F = -x * float64(c.I("zero", 0, 1))
		noHex := userThread{s: circle2(f.rad).s, p: pp}
		u := userThread{p: f.th.ThreadParams(), err: errors.New("bad thread")}
		if p := catch(func() error {
			switch bad {
			case "nil thread":
				k.Thread = nil
			case "total":
				k.TotalLength, k.ShankLength = -x, 0
			case "shank":
				k.ShankLength = -x
			case "shank all":
				k.ShankLength = k.TotalLength + x*float64(c.I("more", 0, 1))
			case "tolerance":
				k.Tolerance = -x
			case "style":
				k.Style = thread.NutStyle(c.Pick("s", "a", "b")[0])
				if c.B("circular") {
					k.Style = thread.NutCircular
				}
			case "thread error":
				k.Thread = u
			case "hex":
				k.Thread = noHex
			case "oversized head": // the shank's rounding exceeds its radius
				pp.HexF2F = f.rad * c.LogF("f2f", 35, 1000)
				k.Thread = userThread{s: circle2(f.rad).s, p: pp}
			case "nut nil":
				s, err = thread.Nut(thread.NutParms{Style: thread.NutHex})
				return nil
			case "nut tolerance":
				s, err = thread.Nut(thread.NutParms{Thread: f.th, Style: thread.NutHex, Tolerance: -x})
				return nil
			case "nut style":
				s, err = thread.Nut(thread.NutParms{Thread: f.th, Style: thread.NutStyle(17 * c.I("st", 0, 1))})
				return nil
			case "nut thread":
				s, err = thread.Nut(thread.NutParms{Thread: u, Style: thread.NutHex})
				return nil
			case "nut hex":
				s, err = thread.Nut(thread.NutParms{Thread: noHex, Style: thread.NutHex})
				return nil
			case "knurl":
				q := thread.KnurlParams{Length: 1, Radius: 1, Pitch: 0.2, Height: 0.1, Theta: 0.5}
				z := -x * float64(c.I("z", 0, 1))
				switch c.I("which", 0, 5) {
				case 0:
					q.Length = z
				case 1:
					q.Radius = z
				case 2:
					q.Pitch = z
				case 3:
					q.Height = z
				case 4:
					q.Theta = -x
				case 5:
					q.Theta = math.Pi/2 + x*float64(c.I("more", 0, 1))
				}
				s, err = thread.Knurl(q)
				return nil
			case "ok":
				want = false
			}
			s, err = thread.Bolt(k)
			return nil
		}); p != nil {
			c.Failf("%s with bad %s: %v", desc, bad, p)
		}
		if (err != nil) != want || (s == nil) != want {
			c.Failf("%s with bad %s: %v, error %v", desc, bad, s, err)
		}
	})
}
