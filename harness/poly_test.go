package harness

import (
	"fmt"
	"math"
	"testing"

	"github.com/soypat/sdf/form2"
	"github.com/soypat/sdf/form2/must2"
	"gonum.org/v1/gonum/spatial/r2"
)

// --- C10 polygon builder -------------------------------------------------------

// bv is the model of one builder vertex.
type bv struct {
	p      r2.Vec
	kind   string // "", "smooth", "arc"
	radius float64
	facets int
}

func turn(a, b, c r2.Vec) float64 { // signed exterior angle at b
	u, v := r2.Sub(b, a), r2.Sub(c, b)
	return math.Atan2(u.X*v.Y-u.Y*v.X, u.X*v.X+u.Y*v.Y)
}

// arcPoints returns the interior points of the arc of n facets from a to b. A
// positive radius puts the centre to the right of the chord.
func arcPoints(a, b r2.Vec, radius float64, n int) []r2.Vec {
	side := math.Copysign(1, radius)
	r := math.Abs(radius)
	ch := r2.Norm(r2.Sub(b, a))
	u := r2.Scale(1/ch, r2.Sub(b, a))
	right := v2(u.Y, -u.X)
	h := math.Sqrt(math.Max(0, r*r-ch*ch/4))
	ctr := r2.Add(r2.Scale(0.5, r2.Add(a, b)), r2.Scale(side*h, right))
	sweep := 2 * math.Asin(math.Min(1, ch/2/r)) // minor arc
	var out []r2.Vec
	for j := 1; j < n; j++ {
		out = append(out, r2.Add(ctr, rot2(r2.Sub(a, ctr), -side*sweep*float64(j)/float64(n))))
	}
	return out
}

// filletPoints rounds the corner b of path a-b-c with n facets.
func filletPoints(a, b, c r2.Vec, radius float64, n int) []r2.Vec {
	t := turn(a, b, c) // exterior angle
	u := r2.Scale(1/r2.Norm(r2.Sub(b, a)), r2.Sub(b, a))
	cut := radius * math.Tan(math.Abs(t)/2) // tangent length
	p0 := r2.Sub(b, r2.Scale(cut, u))
	left := v2(-u.Y, u.X)
	ctr := r2.Add(p0, r2.Scale(math.Copysign(radius, t), left))
	var out []r2.Vec
	for j := 0; j <= n; j++ {
		out = append(out, r2.Add(ctr, rot2(r2.Sub(p0, ctr), t*float64(j)/float64(n))))
	}
	return out
}

func TestC10_Builder(t *testing.T) {
	check(t, 2000, "the polygon has at least one relative, polar, smoothed, chamfered or arced vertex", func(c *Case) {
		b := must2.NewPolygon()
		if c.B("viaForm2") {
			b = form2.NewPolygon()
		}
		n, u := c.Cnt("n", 3, 8, 24), c.unit()
		closed := c.B("closed")
		base := c.starPoly("s", n, u, 4*u, c.V2("ctr", -5*u, 5*u))
		var m []bv
		if c.B("set") {
			b.AddV2Set(base[:1])
			m = append(m, bv{p: base[0]})
			base = base[1:]
		}
		for i, p := range base {
			nm := fmt.Sprintf("v%d", i)
			if c.I(nm+".drop", 0, 4) == 0 {
				b.Add(c.F(nm+".dx", -9, 9), c.F(nm+".dy", -9, 9)).Smooth(1, 3)
				b.Drop()
			}
			var x, y float64
			rel := len(m) > 0 && c.B(nm+".rel")
			q := p
			if rel {
				q = r2.Sub(p, m[len(m)-1].p)
				c.NonTrivial()
			}
			x, y = q.X, q.Y
			polar := c.B(nm + ".polar")
			if polar {
				x, y = math.Hypot(q.X, q.Y), math.Atan2(q.Y, q.X)
				c.NonTrivial()
			}
			v := b.AddV2(v2(x, y))
			if polar {
				v = v.Polar()
			}
			if rel {
				v = v.Rel()
			}
			_ = v
			m = append(m, bv{p: p})
		}
		// Second pass: decorate. The builder keeps references to its vertices only
		// until the next Add, so decorations are drawn up front by rebuilding.
		b2 := must2.NewPolygon()
		prevOf := func(i int) (int, bool) {
			if i > 0 {
				return i - 1, true
			}
			return len(m) - 1, closed
		}
		for i := range m {
			nm := fmt.Sprintf("k%d", i)
			pi, hasPrev := prevOf(i)
			if !hasPrev {
				continue
			}
			if c.I(nm, 0, 2) == 1 {
				ch := r2.Norm(r2.Sub(m[i].p, m[pi].p))
				m[i].kind, m[i].facets = "arc", c.Cnt(nm+".f", 1, 8, 300)
				m[i].radius = ch / 2 * c.LogF(nm+".r", 1, 8) // exactly half the chord: a semicircle
				if c.B(nm + ".neg") {
					m[i].radius = -m[i].radius
				}
			}
		}
		// expand arcs
		type ev struct {
			p  r2.Vec
			id int
		}
		var path []ev
		for i := range m {
			if m[i].kind == "arc" {
				pi, _ := prevOf(i)
				for _, q := range arcPoints(m[pi].p, m[i].p, m[i].radius, m[i].facets) {
					path = append(path, ev{q, -1})
				}
			}
			path = append(path, ev{m[i].p, i})
		}
		at := func(j int) (r2.Vec, bool) {
			if j >= 0 && j < len(path) {
				return path[j].p, true
			}
			return path[(j+len(path))%len(path)].p, closed
		}
		var want []r2.Vec
		for j, e := range path {
			a, okA := at(j - 1)
			d, okD := at(j + 1)
			if e.id >= 0 && m[e.id].kind == "" {
				nm := fmt.Sprintf("f%d", e.id)
				what := c.Pick(nm, "none", "smooth", "chamfer")
				if what != "none" {
					f, r := 1, 0.0
					if okA && okD {
						tn := math.Abs(turn(a, e.p, d))
						lim := 0.45 * math.Min(r2.Norm(r2.Sub(a, e.p)), r2.Norm(r2.Sub(d, e.p)))
						r = c.F(nm+".r", 0.05, 1) * lim / math.Tan(math.Min(tn, 3.1)/2)
						if tn < 1e-3 || tn > 3.1 || !finite(r) || r < 1e-6*u || r > 1e3*u {
							want = append(want, e.p)
							continue
						}
					} else {
						r = 1 // ends of an open path cannot be smoothed
					}
					if what == "smooth" {
						f = c.Cnt(nm+".f", 1, 7, 300)
					}
					m[e.id].kind, m[e.id].radius, m[e.id].facets = what, r, f
					if okA && okD {
						want = append(want, filletPoints(a, e.p, d, r, f)...)
						continue
					}
				}
			}
			want = append(want, e.p)
		}
		for _, v := range m {
			x := b2.Add(v.p.X, v.p.Y)
			switch v.kind {
			case "arc":
				x.Arc(v.radius, v.facets)
			case "smooth":
				x.Smooth(v.radius, v.facets)
			case "chamfer":
				x.Chamfer(v.radius * math.Sqrt2)
			}
			if v.kind != "" {
				c.NonTrivial()
				c.Label(v.kind)
			}
		}
		rev := c.B("reverse")
		c.Desc("closed=%v reverse=%v vertices=%+v", closed, rev, m)
		if closed {
			b.Close()
			b2.Close()
		}
		if b.Closed() != closed {
			c.Failf("Closed() = %v after Close=%v", b.Closed(), closed)
		}
		var plain []r2.Vec
		for _, v := range m {
			plain = append(plain, v.p)
		}
		if rev {
			b.Reverse()
			b2.Reverse()
			reverse2(plain)
			reverse2(want)
		}
		sameVerts(c, "relative/polar/dropped vertices", b.Vertices(), plain, 2e-8*(1+u))
		// acos near a straight or folded angle costs about half the digits
		got := b2.Vertices()
		sameVerts(c, "smoothed/chamfered/arced vertices", got, want, 1e-6*(1+u))
		sameVerts(c, "second call of Vertices", b2.Vertices(), got, 0)
		sameVerts(c, "second call of Vertices", b.Vertices(), plain, 2e-8*(1+u))
	})
}

func reverse2(v []r2.Vec) {
	for i, j := 0, len(v)-1; i < j; i, j = i+1, j-1 {
		v[i], v[j] = v[j], v[i]
	}
}

func sameVerts(c *Case, what string, got, want []r2.Vec, tol float64) {
	if len(got) != len(want) {
		c.Failf("%s: %d vertices, want %d\n  got  %v\n  want %v", what, len(got), len(want), got, want)
	}
	for i := range got {
		if d := r2.Norm(r2.Sub(got[i], want[i])); !(d <= tol*(1+r2.Norm(want[i]))) {
			c.Failf("%s: vertex %d is %v, want %v\n  got  %v\n  want %v", what, i, got[i], want[i], got, want)
		}
	}
}

// TestC10_Unsmoothable: a fillet that does not fit leaves its corner alone.
func TestC10_Unsmoothable(t *testing.T) {
	check(t, 500, "every case", func(c *Case) {
		v := c.starPoly("s", c.Cnt("n", 3, 7, 20), 1, 4, v2(0, 0))
		i := c.I("i", 0, len(v)-1)
		a, e, d := v[(i+len(v)-1)%len(v)], v[i], v[(i+1)%len(v)]
		tn := math.Abs(turn(a, e, d))
		if tn < 0.05 || tn > 3.1 {
			c.Skip("flat corner")
		}
		r := math.Min(r2.Norm(r2.Sub(a, e)), r2.Norm(r2.Sub(d, e))) / math.Tan(tn/2) * c.F("over", 1.01, 5)
		b := must2.NewPolygon()
		for j, p := range v {
			x := b.AddV2(p)
			if j == i {
				x.Smooth(r, c.I("f", 1, 5))
			}
		}
		b.Close()
		c.NonTrivial()
		c.Desc("%v smooth %d radius %v", v, i, r)
		sameVerts(c, "unsmoothable corner", b.Vertices(), v, 0)
	})
}

// TestC10_Degenerate: collinear corners, semicircular arcs, arcs with too small
// a radius and unresolvable relative vertices never produce NaN vertices.
func TestC10_Degenerate(t *testing.T) {
	check(t, 800, "every case", func(c *Case) {
		o, u := c.V2("o", -5, 5), c.angle("a")
		l := c.LogF("l", 0.1, 10)
		d := v2(l*math.Cos(u), l*math.Sin(u))
		nrm := v2(-d.Y, d.X)
		c.NonTrivial()
		switch c.Pick("kind", "collinear", "spike", "semicircle", "shortarc", "allrel", "firstrel", "flatarc", "repeated") {
		case "collinear":
			b := must2.NewPolygon()
			b.AddV2(o)
			mid := r2.Add(o, r2.Scale(c.F("k", 0.2, 0.8), d))
			b.AddV2(mid).Smooth(c.F("r", 0.01, 0.1)*l, c.I("f", 1, 5))
			b.AddV2(r2.Add(o, d))
			b.AddV2(r2.Add(o, nrm))
			b.Close()
			c.Desc("collinear %v %v %v", o, mid, r2.Add(o, d))
			for _, p := range b.Vertices() {
				if !finite(p.X+p.Y) || segDist(p, o, r2.Add(o, d)) > 1e-6*(1+l) && r2.Norm(r2.Sub(p, r2.Add(o, nrm))) > 1e-9*(1+l) {
					c.Failf("smoothing a vertex on a straight edge gives %v", b.Vertices())
				}
			}
		case "spike":
			b := must2.NewPolygon()
			b.AddV2(o)
			b.AddV2(r2.Add(o, d)).Smooth(c.F("r", 0.01, 0.1)*l, c.I("f", 1, 5))
			b.AddV2(r2.Add(o, r2.Scale(0.5, d)))
			c.Desc("spike at %v", r2.Add(o, d))
			for _, p := range b.Vertices() {
				if !finite(p.X + p.Y) {
					c.Failf("smoothing a folded back vertex gives %v", b.Vertices())
				}
			}
		case "semicircle":
			b := must2.NewPolygon()
			b.AddV2(o)
			e := r2.Add(o, d)
			f := c.Cnt("f", 1, 12, 80)
			r := r2.Norm(r2.Sub(e, o)) / 2
			b.AddV2(e).Arc(r, f)
			c.Desc("semicircle %v %v r %v facets %d", o, e, r, f)
			sameVerts(c, "semicircular arc", b.Vertices(), append(append([]r2.Vec{o}, arcPoints(o, e, r, f)...), e), 1e-6)
		case "shortarc":
			b := must2.NewPolygon()
			b.AddV2(o)
			e := r2.Add(o, d)
			r := r2.Norm(r2.Sub(e, o)) / 2 * c.F("k", 0.1, 0.99)
			b.AddV2(e).Arc(r, c.Cnt("f", 1, 12, 80))
			c.Desc("arc %v %v with radius %v below half the chord", o, e, r)
			for _, p := range b.Vertices() {
				if !finite(p.X + p.Y) {
					c.Failf("an arc whose radius is too small gives %v", b.Vertices())
				}
			}
		case "allrel":
			b := must2.NewPolygon()
			b.AddV2(o).Rel()
			b.AddV2(d).Rel()
			b.AddV2(nrm).Rel()
			b.Close()
			c.Desc("only relative vertices")
			if !panics(func() { b.Vertices() }) {
				c.Failf("a polygon with no absolute vertex was accepted: %v", b.Vertices())
			}
		case "flatarc":
			// an arc of huge radius is almost straight
			b := must2.NewPolygon()
			b.AddV2(o)
			e := r2.Add(o, d)
			f := c.Cnt("f", 1, 12, 80)
			r := l * c.LogF("k", 10, 1e13)
			if c.B("neg") {
				r = -r
			}
			b.AddV2(e).Arc(r, f)
			c.Desc("arc %v %v r %v facets %d", o, e, r, f)
			want := []r2.Vec{o}
			half := math.Asin(l / 2 / math.Abs(r))
			for j := 1; j < f; j++ {
				phi := half * (2*float64(j)/float64(f) - 1)
				// heights above the chord, written to keep all digits
				h := 2 * r * math.Sin((half+phi)/2) * math.Sin((half-phi)/2)
				x := math.Abs(r)*math.Sin(phi)/l + 0.5
				want = append(want, r2.Add(o, r2.Add(r2.Scale(x, d), r2.Scale(h/l, nrm))))
			}
			sameVerts(c, "flat arc", b.Vertices(), append(want, e), 1e-9+1e-14*math.Abs(r))
		case "repeated":
			// arcs and fillets at a vertex repeated by its neighbor
			b := must2.NewPolygon()
			pts := []r2.Vec{o, o, r2.Add(o, d), r2.Add(o, nrm)}
			k := c.I("rep", 0, 3)
			pts[1] = pts[k]
			which := c.I("which", 0, 3)
			for i, p := range pts {
				v := b.AddV2(p)
				if i == which {
					if c.B("arc") {
						v.Arc(c.F("r", 0.6, 3)*l, c.I("f", 1, 5))
					} else {
						v.Smooth(c.F("r", 0.01, 3)*l, c.I("f", 1, 5))
					}
				}
			}
			if c.B("close") {
				b.Close()
			}
			c.Desc("vertices %v, special %d", pts, which)
			for _, p := range b.Vertices() {
				if !finite(p.X+p.Y) || r2.Norm(r2.Sub(p, o)) > 9*l {
					c.Failf("repeated vertices give %v", b.Vertices())
				}
			}
		case "firstrel":
			// a closed polygon's first vertex may refer to the last one
			b := must2.NewPolygon()
			b.AddV2(d).Rel()
			b.AddV2(nrm)
			b.AddV2(o)
			b.Close()
			c.Desc("first vertex relative to last")
			sameVerts(c, "first vertex relative to last", b.Vertices(), []r2.Vec{r2.Add(o, d), nrm, o}, 1e-12)
		}
	})
}

func TestC10_Nagon(t *testing.T) {
	check(t, 300, "every case", func(c *Case) {
		n, r := c.Cnt("n", 3, 40, 1000), c.LogF("r", 1e-4, 1e4)
		c.NonTrivial()
		c.Desc("nagon(%d, %v)", n, r)
		var want []r2.Vec
		for i := 0; i < n; i++ {
			a := 2 * math.Pi * float64(i) / float64(n)
			want = append(want, v2(r*math.Cos(a), r*math.Sin(a)))
		}
		sameVerts(c, "regular polygon", must2.Nagon(n, r), want, 1e-9*(1+r))
		v, err := form2.Nagon(n, r)
		if err != nil {
			c.Failf("form2.Nagon: %v", err)
		}
		sameVerts(c, "regular polygon", v, want, 1e-9*(1+r))
	})
}

// --- C11 polygon distance ------------------------------------------------------

func gcd(a, b int) int {
	for b != 0 {
		a, b = b, a%b
	}
	return a
}

func (c *Case) anyPoly() []r2.Vec {
	var v []r2.Vec
	switch c.Pick("shape", "star", "random", "grid", "starN", "thin") {
	case "star":
		v = c.starPoly("s", c.Cnt("n", 3, 12, 150), 0.3, 4, c.V2("ctr", -3, 3))
	case "random": // usually self intersecting
		for i, n := 0, c.Cnt("n", 3, 9, 70); i < n; i++ {
			v = append(v, c.V2(fmt.Sprintf("p%d", i), -4, 4))
		}
	case "grid": // axis aligned and diagonal edges, collinear and repeated points
		for i, n := 0, c.Cnt("n", 3, 9, 40); i < n; i++ {
			v = append(v, v2(float64(c.I(fmt.Sprintf("x%d", i), -3, 3)), float64(c.I(fmt.Sprintf("y%d", i), -3, 3))))
		}
	case "starN": // pentagram like, winding number two inside
		n, k := c.Cnt("n", 5, 9, 41), c.Cnt("k", 1, 3, 9)
		if g := gcd(n, k); n/g < 3 {
			k = 1
		}
		for i := 0; i < n; i++ {
			a := 2 * math.Pi * float64(i*k) / float64(n)
			v = append(v, v2(2*math.Cos(a), 2*math.Sin(a)))
		}
	case "thin":
		l, w := c.LogF("l", 1, 100), c.LogF("w", 1e-3, 0.1)
		a := c.angle("a")
		for _, p := range []r2.Vec{{X: 0, Y: 0}, {X: l, Y: 0}, {X: l, Y: w}, {X: 0, Y: w}} {
			v = append(v, rot2(p, a))
		}
	}
	if u := c.unit(); u != 1 {
		for i := range v {
			v[i] = r2.Scale(u, v[i])
		}
	}
	if c.I("afar", 0, 9) == 0 {
		o := c.V2("far", -400*c.unit(), 400*c.unit())
		for i := range v {
			v[i] = r2.Add(v[i], o)
		}
	}
	if c.I("dup", 0, 3) == 0 { // a repeated vertex
		i := c.I("dupAt", 0, len(v)-1)
		v = append(v[:i+1], v[i:]...)
	}
	if c.I("near", 0, 3) == 0 { // vertices very close together
		for j, n := 0, c.I("near.n", 1, 4); j < n; j++ {
			nm := fmt.Sprintf("near%d", j)
			i := c.I(nm+".at", 0, len(v)-2)
			d := r2.Scale(c.unit()*c.LogF(nm+".d", 1e-7, 1e-2), rot2(v2(1, 0), c.angle(nm+".a")))
			w := append([]r2.Vec(nil), v[:i+1]...)
			v = append(append(w, r2.Add(v[i], d)), v[i+1:]...)
		}
	}
	return v
}

func TestC11_Distance(t *testing.T) {
	check(t, 3000, "query points on both sides of the outline", func(c *Case) {
		v := c.anyPoly()
		sc := 1.0
		if c.I("tiny", 0, 7) == 0 { // much smaller or larger than a unit
			sc = c.LogF("scale", 1e-5, 1e4)
			for i := range v {
				v[i] = r2.Scale(sc, v[i])
			}
			if d := r2.Norm(r2.Sub(v[0], v[len(v)-1])); d > 0 && d < 1e-8 {
				c.Skip("ends closer than the closing tolerance")
			}
		}
		orig := append([]r2.Vec(nil), v...)
		if c.I("close", 0, 2) == 0 { // explicitly closed
			v = append(v, v[0])
		}
		// the caller's array extends beyond the polygon
		back := append(append([]r2.Vec(nil), v...), v2(77, 78), v2(79, 80))
		c.Desc("%v", v)
		distinct := map[r2.Vec]bool{}
		for _, p := range v {
			distinct[p] = true
		}
		if len(distinct) < 3 {
			c.Skip("fewer than three distinct vertices")
		}
		s := must2.Polygon(back[:len(v)])
		for i, p := range v {
			if back[i] != p {
				c.Failf("the constructor changed the caller's vertex %d: %v", i, back[i])
			}
		}
		if back[len(v)] != v2(77, 78) || back[len(v)+1] != v2(79, 80) {
			c.Failf("the constructor overwrote the caller's memory beyond the vertices: %v", back[len(v):])
		}
		for i := range back { // later edits of the caller's slice are the caller's business
			back[i] = v2(1e3, -1e3)
		}
		rb := r2.Box{Min: orig[0], Max: orig[0]}
		for _, p := range orig {
			rb = hull2(rb, r2.Box{Min: p, Max: p})
		}
		if !sameBox2(s.Bounds(), rb, 1e-12*(sc+diag2(rb))) {
			c.Failf("bounds %v, extent %v", s.Bounds(), rb)
		}
		ps := c.Pts2("q")
		var q []r2.Vec
		u := sc * c.unit()
		for i := 0; i < 40; i++ {
			q = append(q, ps.in(i, growBox2(rb, 0.3, 0.5*sc)))
		}
		for i := range orig {
			a, b := orig[i], orig[(i+1)%len(orig)]
			k := ps.at(i + 100).X
			m := r2.Add(a, r2.Scale(k, r2.Sub(b, a)))
			// level with a vertex, on an edge, beside an edge
			q = append(q, a, m, v2(a.X+4*u*(k-0.5), a.Y), v2(a.X, a.Y+4*u*(k-0.5)), v2(-9*u, a.Y), v2(9*u, a.Y),
				v2(m.X+0.01*u, m.Y), v2(m.X-0.01*u, m.Y), v2(m.X, m.Y+0.01*u), v2(m.X, m.Y-0.01*u), v2(u*math.Round(m.X/u), u*math.Round(m.Y/u)), r2.Scale(30, a))
		}
		in, out := 0, 0
		for _, p := range q {
			want := polySDF(p, orig)
			got := s.Evaluate(p)
			tol := 1e-9 * (sc + diag2(rb) + r2.Norm(p))
			if math.IsNaN(got) || !near(math.Abs(got), math.Abs(want), tol) || math.Abs(want) > tol && (got < 0) != (want < 0) {
				c.Failf("Evaluate(%v) = %v, brute force %v", p, got, want)
			}
			if want < 0 {
				in++
			} else if want > 0 {
				out++
			}
		}
		if in > 0 && out > 0 {
			c.NonTrivial()
		}
		// vertex order and starting point do not matter
		k := c.I("start", 0, len(orig)-1)
		w := append(append([]r2.Vec(nil), orig[k:]...), orig[:k]...)
		if d := r2.Norm(r2.Sub(w[0], w[len(w)-1])); d > 0 && d < 1e-8 {
			return // closer than the closing tolerance
		}
		r := append([]r2.Vec(nil), w...)
		reverse2(r)
		s1, s2 := must2.Polygon(w), must2.Polygon(r)
		for _, p := range q {
			a, b, d := s.Evaluate(p), s1.Evaluate(p), s2.Evaluate(p)
			tol := 1e-9 * (sc + diag2(rb) + r2.Norm(p))
			if math.Abs(a) > tol && (!near(a, b, tol) || !near(a, d, tol)) {
				c.Failf("at %v: %v, starting at vertex %d %v, reversed %v", p, a, k, b, d)
			}
		}
	})
}
