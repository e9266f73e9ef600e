package harness

import (
	"fmt"
	"math"
	"testing"

	"github.com/soypat/sdf"
	"github.com/soypat/sdf/form2"
	"github.com/soypat/sdf/form2/must2"
	"github.com/soypat/sdf/form2/obj2"
	"github.com/soypat/sdf/form3"
	"github.com/soypat/sdf/form3/must3"
	"github.com/soypat/sdf/form3/obj3"
	"github.com/soypat/sdf/helpers/matter"
	"gonum.org/v1/gonum/spatial/r2"
	"gonum.org/v1/gonum/spatial/r3"
)

// --- C21 constructors that return errors -----------------------------------------

// size draws a dimension that may be invalid: negative, zero or positive.
func (c *Case) dim(name string) float64 {
	switch c.I(name+".k", 0, 9) {
	case 0:
		return 0
	case 1:
		return -c.LogF(name, 1e-3, 10)
	default:
		return c.LogF(name, 1e-3, 10)
	}
}

// round draws a rounding that may be negative or too large.
func (c *Case) rounding(name string, max float64) float64 {
	switch c.I(name+".k", 0, 7) {
	case 0:
		return -c.LogF(name, 1e-3, 10)
	case 1:
		return math.Abs(max) * c.F(name, 1.001, 3)
	case 2, 3:
		return 0
	default:
		return math.Abs(max) * c.F(name, 0, 0.999)
	}
}

func TestC21_Constructors(t *testing.T) {
	check(t, 2500, "the parameters are invalid, or the solid was compared with its panicking twin at 12 points", func(c *Case) {
		kind := c.Pick("kind", "circle", "box2", "line", "polygon", "nagon", "box", "sphere", "cylinder", "capsule", "cone", "chamfer")
		var e2, m2 sdf.SDF2
		var e3, m3 sdf.SDF3
		var err error
		invalid, unsure, ve := false, false, []r2.Vec(nil)
		var mk func() // the error returning constructor
		var mu func() // the panicking one
		switch kind {
		case "circle":
			r := c.dim("r")
			c.Desc("circle %v", r)
			invalid = r < 0
			mk = func() { e2, err = form2.Circle(r) }
			mu = func() { m2 = must2.Circle(r) }
		case "box2":
			v := v2(c.LogF("w", 1e-3, 10), c.LogF("h", 1e-3, 10))
			rd := c.F("round", 0, 0.5) * math.Min(v.X, v.Y)
			if c.I("odd", 0, 4) == 0 { // not documented
				v, unsure = v2(c.dim("x"), c.dim("y")), true
				rd = c.rounding("oddround", math.Min(v.X, v.Y)/2)
			}
			c.Desc("box2 %v %v", v, rd)
			mk = func() { e2, err = form2.Box(v, rd) }
			mu = func() { m2 = must2.Box(v, rd) }
		case "line":
			l, rd := c.LogF("l", 1e-3, 10), c.LogF("round", 1e-3, 5)
			if c.I("odd", 0, 4) == 0 { // not documented
				l, rd, unsure = c.dim("oddl"), c.rounding("oddround", 1), true
			}
			c.Desc("line %v %v", l, rd)
			mk = func() { e2, err = form2.Line(l, rd) }
			mu = func() { m2 = must2.Line(l, rd) }
		case "polygon":
			n := c.Cnt("n", 0, 7, 40)
			invalid = n < 3
			ve = c.starPoly("v", n, 0.5, 3, v2(0, 0))
			c.Desc("polygon %v", ve)
			mk = func() { e2, err = form2.Polygon(ve) }
			mu = func() { m2 = must2.Polygon(ve) }
		case "nagon":
			n, r := c.Cnt("n", 3, 30, 200), c.LogF("r", 1e-3, 10)
			if c.I("few", 0, 5) == 0 {
				n, invalid = c.I("few.n", -3, 2), true
			}
			c.Desc("nagon %v %v", n, r)
			mk = func() {
				v, e := form2.Nagon(n, r)
				if e != nil {
					err = e
					return
				}
				e2, err = form2.Polygon(v)
			}
			mu = func() { m2 = must2.Polygon(must2.Nagon(n, r)) }
		case "box":
			v := v3(c.dim("x"), c.dim("y"), c.dim("z"))
			lim := math.Min(v.X, math.Min(v.Y, v.Z)) / 2
			rd := c.rounding("round", lim)
			invalid = v.X <= 0 || v.Y <= 0 || v.Z <= 0 || rd < 0
			unsure = !invalid && rd > lim // not documented
			c.Desc("box %v %v", v, rd)
			mk = func() { e3, err = form3.Box(v, rd) }
			mu = func() { m3 = must3.Box(v, rd) }
		case "sphere":
			r := c.dim("r")
			invalid = r <= 0
			c.Desc("sphere %v", r)
			mk = func() { e3, err = form3.Sphere(r) }
			mu = func() { m3 = must3.Sphere(r) }
		case "cylinder":
			h, r := c.dim("h"), c.dim("r")
			if c.B("hpos") {
				h = c.LogF("h2", 1e-3, 10)
			}
			rd := c.rounding("round", math.Min(math.Abs(r), math.Abs(h)/2))
			invalid = r <= 0 || rd < 0 || rd > r || h < 2*rd
			unsure = !invalid && h <= 0
			c.Desc("cylinder h %v r %v round %v", h, r, rd)
			mk = func() { e3, err = form3.Cylinder(h, r, rd) }
			mu = func() { m3 = must3.Cylinder(h, r, rd) }
		case "capsule":
			r := c.dim("r")
			h := 2 * r * c.F("h/r", 0.5, 3)
			invalid = r <= 0 || h < 2*r
			c.Desc("capsule h %v r %v", h, r)
			mk = func() { e3, err = form3.Capsule(h, r) }
			mu = func() { m3 = must3.Cylinder(h, r, r) }
		case "cone":
			h, r0, r1 := c.dim("h"), c.LogF("r0", 1e-2, 10), c.LogF("r1", 1e-2, 10)
			rd := c.rounding("round", math.Abs(h)/2)
			invalid = h <= 0 || rd < 0 || h < 2*rd
			c.Desc("cone h %v r0 %v r1 %v round %v", h, r0, r1, rd)
			mk = func() { e3, err = form3.Cone(h, r0, r1, rd) }
			mu = func() { m3 = must3.Cone(h, r0, r1, rd) }
		case "chamfer":
			h, r := c.LogF("h", 0.5, 10), c.LogF("r", 0.5, 10)
			var s sdf.SDF3 = must3.Cylinder(h, r, 0)
			kb, kt := c.F("kb", 0, 0.9)*math.Min(1, h/2/r), c.F("kt", 0, 0.9)*math.Min(1, h/2/r)
			if c.I("nil", 0, 4) == 0 {
				s, invalid = nil, true
			}
			c.Desc("chamfered cylinder h %v r %v kb %v kt %v (nil: %v)", h, r, kb, kt, s == nil)
			mk = func() { e3, err = form3.ChamferedCylinder(s, kb, kt) }
			mu = func() { m3 = must3.ChamferedCylinder(s, kb, kt) }
		}
		c.Label(fmt.Sprintf("%s invalid %v", kind, invalid))
		if panics(mk) {
			c.Failf("the error returning constructor panicked")
		}
		p := panics(mu)
		if unsure {
			if p != (err != nil) {
				c.Failf("error %v, but the panicking constructor panics: %v", err, p)
			}
			if p {
				return
			}
		} else if (err != nil) != invalid {
			c.Failf("invalid parameters %v, error %v", invalid, err)
		}
		if !unsure && p != invalid {
			c.Failf("invalid parameters %v, the panicking constructor panics: %v", invalid, p)
		}
		c.NonTrivial()
		if invalid {
			if e2 != nil || e3 != nil {
				c.Failf("a solid is returned along with error %v", err)
			}
			if err.Error() == "" {
				c.Failf("empty error message")
			}
			return
		}
		if e2 != nil {
			q := c.Pts2("q")
			if e2.Bounds() != m2.Bounds() {
				c.Failf("bounds %v, panicking twin %v", e2.Bounds(), m2.Bounds())
			}
			for i := 0; i < 12; i++ {
				x := q.in(i, growBox2(e2.Bounds(), 0.3, 0.1))
				if a, b := e2.Evaluate(x), m2.Evaluate(x); !same(a, b) {
					c.Failf("value at %v: %v, panicking twin %v", x, a, b)
				}
			}
			return
		}
		q := c.Pts3("q")
		if e3.Bounds() != m3.Bounds() {
			c.Failf("bounds %v, panicking twin %v", e3.Bounds(), m3.Bounds())
		}
		for i := 0; i < 12; i++ {
			x := q.in(i, growBox3(e3.Bounds(), 0.3, 0.1))
			if a, b := e3.Evaluate(x), m3.Evaluate(x); !same(a, b) {
				c.Failf("value at %v: %v, panicking twin %v", x, a, b)
			}
		}
	})
}

// ChamferedCylinder cuts both rims of a cylinder symmetrically.
func TestC21_ChamferedCylinder(t *testing.T) {
	check(t, 500, ruleInOut, func(c *Case) {
		h, r := c.LogF("h", 0.5, 10), c.LogF("r", 0.5, 10)
		m := math.Min(1, h/2/r) * 0.95
		kb, kt := c.F("kb", 0, 1)*m, c.F("kt", 0, 1)*m
		if kb < 1e-3 {
			kb = 0
		}
		if kt < 1e-3 {
			kt = 0
		}
		c.Desc("chamfered cylinder h %v r %v kb %v kt %v", h, r, kb, kt)
		s := must3.ChamferedCylinder(must3.Cylinder(h, r, 0), kb, kt)
		ref := func(p r3.Vec) float64 {
			q := math.Hypot(p.X, p.Y)
			v := math.Max(q-r, math.Abs(p.Z)-h/2)
			v = math.Max(v, (q+p.Z-(r+h/2-kt*r/math.Sqrt2))/math.Sqrt2)
			return math.Max(v, (q-p.Z-(r+h/2-kb*r/math.Sqrt2))/math.Sqrt2)
		}
		b := boxAround3(r3.Vec{}, v3(r, r, h/2))
		judge(c, "chamfered cylinder", s, ref, offAxis(surfacePoints(c, ref, b, 60), 1e-4*r), 1e-8*(r+h))
	})
}

// --- C22 panels and standoffs -------------------------------------------------------

// holes returns the centers of the holes of a pattern between two points.
func holes(p0, p1 r2.Vec, pattern string) (o []r2.Vec) {
	n := len(pattern)
	if n == 0 {
		return nil
	}
	for i, ch := range pattern {
		if ch == 'x' {
			// one hole sits at the start; n are spread from the start, a
			// step of 1/n of the edge apart
			o = append(o, r2.Add(p0, r2.Scale(float64(i)/float64(n), r2.Sub(p1, p0))))
		}
	}
	return o
}

// panelRef is the panel's membership.
func panelRef(k obj2.PanelParams) func(p r2.Vec) float64 {
	if k.HoleDiameter <= 0 {
		return func(p r2.Vec) float64 {
			return rectSDF2(p, v2(k.Size.X/2-k.CornerRadius, k.Size.Y/2-k.CornerRadius)) - k.CornerRadius
		}
	}
	m := k.HoleMargin // top, right, bottom, left
	x0, x1 := -k.Size.X/2+m[3], k.Size.X/2-m[1]
	y0, y1 := -k.Size.Y/2+m[2], k.Size.Y/2-m[0]
	c := []r2.Vec{{X: x0, Y: y1}, {X: x1, Y: y1}, {X: x1, Y: y0}, {X: x0, Y: y0}}
	var hs []r2.Vec
	for i := 0; i < 4; i++ {
		hs = append(hs, holes(c[i], c[(i+1)%4], k.HolePattern[i])...)
	}
	return func(p r2.Vec) float64 {
		v := rectSDF2(p, v2(k.Size.X/2-k.CornerRadius, k.Size.Y/2-k.CornerRadius)) - k.CornerRadius
		for _, h := range hs {
			v = math.Max(v, k.HoleDiameter/2-r2.Norm(r2.Sub(p, h)))
		}
		return v
	}
}

func (c *Case) panel(name string) obj2.PanelParams {
	k := obj2.PanelParams{Size: v2(c.Len(name+".w", 5, 200), c.Len(name+".h", 5, 200))}
	m := math.Min(k.Size.X, k.Size.Y)
	if c.B(name + ".rounded") {
		k.CornerRadius = m * c.F(name+".corner", 0, 0.5)
	}
	if c.I(name+".plain", 0, 5) > 0 {
		k.HoleDiameter = m * c.F(name+".hole", 0.02, 0.2)
	}
	for i := range k.HoleMargin {
		k.HoleMargin[i] = m * c.F(fmt.Sprintf("%s.m%d", name, i), 0.02, 0.4)
		n := c.Cnt(fmt.Sprintf("%s.n%d", name, i), 0, 5, 16)
		for j := 0; j < n; j++ {
			k.HolePattern[i] += c.Pick(fmt.Sprintf("%s.p%d.%d", name, i, j), "x", ".")
		}
	}
	return k
}

// planar returns points around the outline and holes of a 2D reference.
func planar(c *Case, ref func(r2.Vec) float64, b r2.Box, k int) (o []r2.Vec) {
	ps := c.Pts2("pl")
	big := growBox2(b, 0.1, 0)
	for i := 0; i < k; i++ {
		p, q := ps.in(i, big), ps.in(i+7777, big)
		o = append(o, p)
		if (ref(p) < 0) == (ref(q) < 0) {
			continue
		}
		for j := 0; j < 45; j++ {
			m := r2.Scale(0.5, r2.Add(p, q))
			if (ref(m) < 0) == (ref(p) < 0) {
				p = m
			} else {
				q = m
			}
		}
		d := r2.Sub(q, p)
		if r2.Norm(d) == 0 {
			d = v2(1, 1)
		}
		e := r2.Scale(diag2(b)*math.Pow(10, -2-3*ps.at(i).X)/r2.Norm(d), d)
		o = append(o, r2.Sub(p, e), r2.Add(q, e))
	}
	return o
}

func judge2(c *Case, what string, s sdf.SDF2, ref func(r2.Vec) float64, pts []r2.Vec, tol float64) {
	in, out := 0, 0
	bb := s.Bounds()
	for _, p := range pts {
		r, g := ref(p), s.Evaluate(p)
		if !finite(g) {
			c.Failf("%s: Evaluate(%v) = %v", what, p, g)
		}
		if g < -tol && outside2(bb, p) > tol {
			c.Failf("%s: inside point %v is outside of the bounds %v", what, p, bb)
		}
		if math.Abs(r) <= tol {
			continue
		}
		if (g < 0) != (r < 0) {
			c.Failf("%s: membership of %v: got %v, reference %v", what, p, g, r)
		}
		if r < 0 {
			in++
		} else {
			out++
		}
	}
	if in >= 3 && out >= 3 {
		c.NonTrivial()
	}
}

func TestC22_Panel(t *testing.T) {
	check(t, 800, ruleInOut, func(c *Case) {
		k := c.panel("p")
		k.Thickness = c.LogF("thickness", 0.5, 20)
		c.Desc("panel %+v", k)
		ref := panelRef(k)
		b := r2.Box{Min: r2.Scale(-0.5, k.Size), Max: r2.Scale(0.5, k.Size)}
		pts := planar(c, ref, b, 80)
		tol := 1e-9 * diag2(b)
		s2, err := obj2.Panel(k)
		if err != nil {
			c.Failf("Panel: %v", err)
		}
		judge2(c, "2D panel", s2, ref, pts, tol)
		s3, err := obj3.Panel(k)
		if err != nil {
			c.Failf("3D Panel: %v", err)
		}
		ref3 := func(p r3.Vec) float64 { return math.Max(ref(v2(p.X, p.Y)), math.Abs(p.Z)-k.Thickness/2) }
		judge(c, "3D panel", s3, ref3, lift(c, pts, k.Thickness), tol)
	})
}

// lift gives planar points heights in and around a plate.
func lift(c *Case, pts []r2.Vec, th float64) (o []r3.Vec) {
	u := c.U("lift")
	for i, p := range pts {
		z := frac(u + float64(i)*0.6180339887)
		o = append(o, v3(p.X, p.Y, (z-0.5)*th*1.3))
	}
	return o
}

func TestC22_EuroRack(t *testing.T) {
	check(t, 600, ruleInOut, func(c *Case) {
		k := obj2.EuroRackParams{U: float64(c.Cnt("U", 1, 6, 12)), HP: float64(c.Cnt("HP", 2, 60, 168)), Thickness: c.LogF("thickness", 0.5, 5), Ridge: c.B("ridge")}
		if c.B("fractional") {
			k.U, k.HP = c.F("u", 1, 6), c.F("hp", 2, 40)
		}
		const hp, u = 5.08, 44.45
		w, h := k.HP*hp-0.24, k.U*u-4.85
		if !near(k.HPSize(), w, 1e-9) || !near(k.USize(), h, 1e-9) {
			c.Failf("%+v: size %v x %v, want %v x %v", k, k.HPSize(), k.USize(), w, h)
		}
		if c.B("rounded") {
			k.CornerRadius = math.Min(w, h) * c.F("corner", 0, 0.4)
		}
		if c.B("holes") {
			k.HoleDiameter = c.F("hole", 1, 5)
		}
		c.Desc("eurorack %+v", k)
		d := k.HoleDiameter
		if d == 0 {
			d = 3.2 // documented default
		}
		x, y := w/2-7.5, h/2-3
		hs := []r2.Vec{{X: -x, Y: y}, {X: -x, Y: -y}}
		if k.HP >= 8 {
			hs = append(hs, v2(x, y), v2(x, -y))
		}
		ref := func(p r2.Vec) float64 {
			v := rectSDF2(p, v2(w/2-k.CornerRadius, h/2-k.CornerRadius)) - k.CornerRadius
			for _, q := range hs {
				v = math.Max(v, d/2-r2.Norm(r2.Sub(p, q)))
			}
			return v
		}
		b := r2.Box{Min: v2(-w/2, -h/2), Max: v2(w/2, h/2)}
		pts := planar(c, ref, b, 80)
		for _, q := range hs {
			for i := 0; i < 6; i++ {
				pts = append(pts, r2.Add(q, rot2(v2(d/2*(0.9+0.2*float64(i%2)), 0), float64(i))))
			}
		}
		s, err := obj2.EuroRackPanel(k)
		if err != nil {
			c.Failf("EuroRackPanel: %v", err)
		}
		judge2(c, "eurorack panel", s, ref, pts, 1e-8*(w+h))
		s3, err := obj3.EuroRackPanel(k)
		if err != nil {
			c.Failf("3D EuroRackPanel: %v", err)
		}
		th := k.Thickness
		ref3 := func(p r3.Vec) float64 {
			v := math.Max(ref(v2(p.X, p.Y)), math.Abs(p.Z)-th/2)
			if k.Ridge {
				// a ridge of height 1.5 and width 1 thickness on either side
				q := v3(math.Abs(p.X)-(w-th)/2, p.Y, p.Z-(th/2+0.75*th))
				v = math.Min(v, rectSDF3(q, v3(th/2, (h-18)/2, 0.75*th)))
			}
			return v
		}
		p3 := lift(c, pts, th)
		q := c.Pts3("ridge")
		for i := 0; i < 40; i++ {
			z := q.in(i, r3.Box{Min: v3(w/2-2*th, -h/2, 0), Max: v3(w/2+0.5*th, h/2, 2.5*th)})
			if i%2 == 0 {
				z.X = -z.X
			}
			p3 = append(p3, z)
		}
		judge(c, "3D eurorack panel", s3, ref3, p3, 1e-8*(w+h))
	})
}

func TestC22_PanelHole(t *testing.T) {
	check(t, 600, ruleInOut, func(c *Case) {
		k := obj3.PanelHoleParams{Diameter: c.Len("d", 1, 20), Thickness: c.Len("t", 0.5, 10)}
		if c.I("indented", 0, 3) > 0 {
			k.Indent = v3(c.LogF("ix", 0.2, 3), c.LogF("iy", 0.2, 3), k.Thickness*c.F("iz", 0.1, 0.9))
			k.Offset = k.Diameter * c.F("ofs", 0.1, 1)
			if c.B("turned") {
				k.Orientation = c.turn("or")
			}
			// without one of its sides, or without offset, there is no indent
			switch c.I("flat", 0, 9) {
			case 0:
				k.Indent.X = 0
			case 1:
				k.Indent.Y = 0
			case 2:
				k.Indent.Z = 0
			case 3:
				k.Offset = 0
			}
		}
		c.Desc("panel hole %+v", k)
		s, err := obj3.PanelHole(&k)
		if err != nil {
			c.Failf("PanelHole: %v", err)
		}
		ref := func(p r3.Vec) float64 {
			v := cylRef(k.Thickness, k.Diameter/2, 0)(p)
			if k.Offset > 0 && k.Indent.X*k.Indent.Y*k.Indent.Z > 0 {
				q := rotAxis(p, v3(0, 0, 1), -k.Orientation)
				v = math.Min(v, rectSDF3(r3.Sub(q, v3(k.Offset, 0, (k.Thickness-k.Indent.Z)/2)), r3.Scale(0.5, k.Indent)))
			}
			return v
		}
		r := math.Max(k.Diameter/2, k.Offset+k.Indent.X/2+k.Indent.Y)
		b := boxAround3(r3.Vec{}, v3(r, r, k.Thickness/2))
		judge(c, "panel hole", s, ref, surfacePoints(c, ref, b, 80), 1e-8*(r+k.Thickness))
	})
}

func TestC22_Standoff(t *testing.T) {
	check(t, 800, ruleInOut, func(c *Case) {
		k := obj3.StandoffParams{PillarHeight: c.Len("h", 2, 40), PillarDiameter: c.Len("d", 2, 15)}
		switch c.I("hole", 0, 4) {
		case 0: // none
			if c.B("depth") {
				k.HoleDepth = c.F("hd", -1, 1) * k.PillarHeight
			} else {
				k.HoleDiameter = k.PillarDiameter / 2
			}
		case 1: // stub
			k.HoleDepth = -k.PillarHeight * c.F("hd", 0.1, 0.5)
			k.HoleDiameter = k.PillarDiameter * c.F("hdia", 0.2, 0.9)
		default:
			k.HoleDepth = k.PillarHeight * c.F("hd", 0.1, 1.4)
			k.HoleDiameter = k.PillarDiameter * c.F("hdia", 0.2, 0.9)
		}
		if c.B("webbed") {
			k.NumberWebs = c.Cnt("webs", 1, 6, 14)
			k.WebHeight = k.PillarHeight * c.F("wh", 0.2, 1.6)
			k.WebDiameter = k.PillarDiameter * c.F("wd", 0.5, 4)
			// webs stay within their sector outside of the pillar
			k.WebWidth = k.PillarDiameter * math.Min(1, math.Tan(math.Pi/math.Max(2.5, float64(k.NumberWebs)))) * c.F("ww", 0.05, 0.65)
		}
		c.Desc("standoff %+v", k)
		s, err := obj3.Standoff(k)
		if err != nil {
			c.Failf("Standoff: %v", err)
		}
		h := k.PillarHeight
		pillar := cylRef(h, k.PillarDiameter/2, 0)
		ref := func(p r3.Vec) float64 {
			v := pillar(p)
			for i := 0; i < k.NumberWebs; i++ {
				q := rotAxis(p, v3(0, 0, 1), -2*math.Pi*float64(i)/float64(k.NumberWebs))
				// right triangle: radius WebDiameter/2 at the base, WebHeight on the axis
				z := q.Z + h/2
				m := math.Max(math.Abs(q.Y)-k.WebWidth/2, math.Max(-q.X, -z))
				m = math.Max(m, (q.X/(k.WebDiameter/2)+z/k.WebHeight-1)*math.Min(k.WebDiameter/2, k.WebHeight)/2)
				v = math.Min(v, math.Max(m, z-h))
			}
			if k.HoleDiameter > 0 && k.HoleDepth > 0 {
				v = math.Max(v, -math.Max(math.Hypot(p.X, p.Y)-k.HoleDiameter/2, math.Max(p.Z-h/2, h/2-k.HoleDepth-p.Z)))
			}
			if k.HoleDiameter > 0 && k.HoleDepth < 0 {
				v = math.Min(v, math.Max(math.Hypot(p.X, p.Y)-k.HoleDiameter/2, math.Max(h/2-p.Z, p.Z-h/2+k.HoleDepth)))
			}
			return v
		}
		r := math.Max(k.PillarDiameter/2, k.WebDiameter/2+k.WebWidth/2)
		b := r3.Box{Min: v3(-r, -r, -h/2), Max: v3(r, r, h/2+math.Max(0, -k.HoleDepth))}
		pts := surfacePoints(c, ref, b, 80)
		var keep []r3.Vec
		for _, p := range pts {
			if top := p.Z - h/2; k.HoleDiameter > 0 && math.Abs(top) < 1e-9*h {
				continue // hole and stub share the pillar's top plane
			}
			keep = append(keep, p)
		}
		judge(c, "standoff", s, ref, keep, 1e-8*(r+h))
	})
}

func TestC22_Errors(t *testing.T) {
	check(t, 400, "every case", func(c *Case) {
		bad := c.Pick("bad", "panel thickness", "rack thickness", "rack U", "rack HP", "rack corner", "rack hole", "hole diameter", "hole thickness", "hole indent", "hole offset", "pillar", "pillar hole", "webs")
		x := c.LogF("x", 1e-3, 10)
		z := -x * float64(c.I("zero", 0, 1)) // zero or negative
		var s any
		var err error
		c.NonTrivial()
		c.Desc("%s, %v", bad, z)
		c.Label(bad)
		rack := obj2.EuroRackParams{U: 3, HP: 10, HoleDiameter: 3, Thickness: 2}
		hole := obj3.PanelHoleParams{Diameter: 5, Thickness: 2, Indent: v3(1, 1, 1), Offset: 3}
		st := obj3.StandoffParams{PillarHeight: 10, PillarDiameter: 5, HoleDepth: 5, HoleDiameter: 2, NumberWebs: 3, WebHeight: 5, WebDiameter: 10, WebWidth: 1}
		is3 := c.B("3D")
		e := catch(func() error {
			var a sdf.SDF2
			var b sdf.SDF3
			done := func() error {
				switch {
				case a != nil:
					s = a
				case b != nil:
					s = b
				}
				return nil
			}
			switch bad {
			case "panel thickness":
				k := c.panel("p")
				k.Thickness = z
				b, err = obj3.Panel(k)
				return done()
			case "rack thickness":
				rack.Thickness = z
				b, err = obj3.EuroRackPanel(rack)
				return done()
			case "rack U":
				rack.U = 1 - x
			case "rack HP":
				rack.HP = 1 + z
			case "rack corner":
				rack.CornerRadius = -x
			case "rack hole":
				rack.HoleDiameter = -x
			case "hole diameter":
				hole.Diameter = z
			case "hole thickness":
				hole.Thickness = z
			case "hole indent":
				switch c.I("axis", 0, 2) {
				case 0:
					hole.Indent.X = -x
				case 1:
					hole.Indent.Y = -x
				case 2:
					hole.Indent.Z = -x
				}
			case "hole offset":
				hole.Offset = -x
			case "pillar":
				if c.B("height") {
					st.PillarHeight = z
				} else {
					st.PillarDiameter = z
				}
			case "pillar hole":
				st.HoleDiameter = -x
			case "webs":
				switch c.I("which", 0, 2) {
				case 0:
					st.WebHeight = z
				case 1:
					st.WebDiameter = z
				case 2:
					st.WebWidth = z
				}
			}
			switch bad[:4] {
			case "rack":
				if is3 {
					b, err = obj3.EuroRackPanel(rack)
				} else {
					a, err = obj2.EuroRackPanel(rack)
				}
			case "hole":
				b, err = obj3.PanelHole(&hole)
			default:
				b, err = obj3.Standoff(st)
			}
			return done()
		})
		if e != nil {
			c.Failf("%s: %v", bad, e)
		}
		if err == nil || s != nil {
			c.Failf("%s %v: accepted (%v, %v)", bad, z, s, err)
		}
	})
}

// --- C23 units and materials ----------------------------------------------------------

func TestC23_Materials(t *testing.T) {
	check(t, 600, ruleInOut, func(c *Case) {
		if !near(must2.InchesPerMillimetre*25.4, 1, 1e-12) || !near(must3.InchesPerMillimetre*25.4, 1, 1e-12) || !near(obj2.InchesPerMillimetre*25.4, 1, 1e-12) {
			c.Failf("inches per millimetre: %v %v %v", must2.InchesPerMillimetre, must3.InchesPerMillimetre, obj2.InchesPerMillimetre)
		}
		n := c.tree3("t", c.I("depth", 0, 2), ops3all)
		real := c.LogF("dim", 1e-3, 1e3)
		c.Desc("%s, dimension %v", n.desc, real)
		var m matter.Material = matter.PLA
		shrink, pull := 0.003, 0.45
		if c.B("ideal") {
			m, shrink, pull = matter.Ideal{}, 0, 0
		}
		// A part scaled for the material has the nominal size after shrinking.
		k := 1 + shrink
		s := m.Scale(n.s)
		if got, want := m.InternalDimScale(real), real*k+pull; !near(got, want, 1e-9*(1+want)) {
			c.Failf("InternalDimScale(%v) = %v, want %v", real, got, want)
		}
		if d := m.InternalDimScale(real*2) - m.InternalDimScale(real); d < real {
			c.Failf("internal dimensions %v and %v differ by only %v after compensation", real, 2*real, d)
		}
		in, out := 0, 0
		for _, p := range c.points3(n, 24) {
			a, b := n.s.Evaluate(p)*k, s.Evaluate(r3.Scale(k, p))
			if math.Abs(a-b) > 1e-7*(1+math.Abs(a)+n.size()) && !jitter3(&S3{ref: n.s.Evaluate, rb: n.rb}, p, b/k) {
				c.Failf("%s: value %v at %v, %v in the part scaled by %v", n.desc, a/k, p, b, k)
			}
			if b < 0 {
				in++
			} else {
				out++
			}
		}
		if in >= 3 && out >= 3 {
			c.NonTrivial()
		}
		bb, sb := n.s.Bounds(), s.Bounds()
		if !sameBox3(r3.Box{Min: r3.Scale(k, bb.Min), Max: r3.Scale(k, bb.Max)}, sb, 1e-7*(1+absmax3(sb))) {
			c.Failf("%s: bounds %v, scaled %v", n.desc, bb, sb)
		}
	})
}
