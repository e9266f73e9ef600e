package harness

import (
	"fmt"
	"math"
	"sync"
	"testing"
	"time"

	"github.com/soypat/sdf"
	"github.com/soypat/sdf/helpers/sdfexp"
	"gonum.org/v1/gonum/spatial/r3"
)

// --- C25 imported meshes ----------------------------------------------------------

// closestOnTri is the point of a triangle closest to p.
func closestOnTri(p r3.Vec, t r3.Triangle) r3.Vec {
	a, b, c := t[0], t[1], t[2]
	n := r3.Cross(r3.Sub(b, a), r3.Sub(c, a))
	best, bd := a, math.Inf(1)
	try := func(q r3.Vec) {
		if d := r3.Norm2(r3.Sub(p, q)); d < bd {
			best, bd = q, d
		}
	}
	if n2 := r3.Norm2(n); n2 > 0 { // the foot of the perpendicular, if it is inside
		q := r3.Sub(p, r3.Scale(r3.Dot(r3.Sub(p, a), n)/n2, n))
		in := true
		for i := 0; i < 3; i++ {
			if r3.Dot(n, r3.Cross(r3.Sub(t[(i+1)%3], t[i]), r3.Sub(q, t[i]))) < 0 {
				in = false
			}
		}
		if in {
			return q
		}
	}
	for i := 0; i < 3; i++ {
		u, v := t[i], t[(i+1)%3]
		e := r3.Sub(v, u)
		l := r3.Norm2(e)
		s := 0.0
		if l > 0 {
			s = clampf(r3.Dot(r3.Sub(p, u), e)/l, 0, 1)
		}
		try(r3.Add(u, r3.Scale(s, e)))
		try(v)
	}
	return best
}

func meshDist(m []r3.Triangle, p r3.Vec) float64 {
	d := math.Inf(1)
	for _, t := range m {
		d = math.Min(d, r3.Norm2(r3.Sub(p, closestOnTri(p, t))))
	}
	return math.Sqrt(d)
}

func boxOf(m []r3.Triangle) r3.Box {
	b := r3.Box{Min: m[0][0], Max: m[0][0]}
	for _, t := range m {
		for _, v := range t {
			b = hull3(b, r3.Box{Min: v, Max: v})
		}
	}
	return b
}

// nearBox3 allows for rounding error.
func nearBox3(a, b r3.Box) bool {
	tol := 1e-12 * (diag3(b) + absmax3(b))
	return r3.Norm(r3.Sub(a.Min, b.Min)) <= tol && r3.Norm(r3.Sub(a.Max, b.Max)) <= tol
}

// slimness is the smallest height over longest side of any triangle.
func slimness(m []r3.Triangle) float64 {
	s := math.Inf(1)
	for _, t := range m {
		l := math.Max(r3.Norm(r3.Sub(t[0], t[1])), math.Max(r3.Norm(r3.Sub(t[1], t[2])), r3.Norm(r3.Sub(t[2], t[0]))))
		s = math.Min(s, r3.Norm(r3.Cross(r3.Sub(t[1], t[0]), r3.Sub(t[2], t[0])))/(l*l))
	}
	return s
}

// closedMesh draws a closed surface whose triangles face outwards.
func (c *Case) closedMesh(name string) (m []r3.Triangle, desc string) {
	kind := c.Pick(name+".kind", "tetra", "prism", "bipyramid", "ball", "ball", "torus", "hollow", "pair", "rendered")
	c.Label(kind)
	quad := func(a, b, d, e r3.Vec) { m = append(m, r3.Triangle{a, b, d}, r3.Triangle{a, d, e}) }
	switch kind {
	case "tetra":
		v := [4]r3.Vec{c.V3(name+".0", -1, 1), c.V3(name+".1", -1, 1), c.V3(name+".2", -1, 1), c.V3(name+".3", -1, 1)}
		m = []r3.Triangle{{v[0], v[1], v[2]}, {v[0], v[3], v[1]}, {v[1], v[3], v[2]}, {v[2], v[3], v[0]}}
		if l := diag3(boxOf(m)); math.Abs(meshVolume(m)) < 1e-4*l*l*l {
			c.Exclude("flat tetrahedron")
		}
	case "prism", "bipyramid":
		n := c.I(name+".n", 4, 9) // the origin is inside
		p := c.starPoly(name+".v", n, 0.2, 2, v2(0, 0))
		h := c.LogF(name+".h", 0.2, 4)
		up, dn := v3(0, 0, h), v3(0, 0, -h*c.F(name+".h2", 0.3, 1))
		for i := range p {
			a, b := p[i], p[(i+1)%n]
			if kind == "prism" {
				quad(v3(a.X, a.Y, 0), v3(b.X, b.Y, 0), v3(b.X, b.Y, h), v3(a.X, a.Y, h))
				m = append(m, r3.Triangle{v3(a.X, a.Y, h), v3(b.X, b.Y, h), up}, r3.Triangle{v3(a.X, a.Y, 0), v3(0, 0, 0), v3(b.X, b.Y, 0)})
			} else {
				m = append(m, r3.Triangle{v3(a.X, a.Y, 0), v3(b.X, b.Y, 0), up}, r3.Triangle{v3(b.X, b.Y, 0), v3(a.X, a.Y, 0), dn})
			}
		}
	case "ball", "hollow", "pair":
		k := c.I(name+".level", 0, 2)
		m = c.bumpyBall(name, k)
		if kind == "hollow" {
			f := c.F(name+".inner", 0.2, 0.8)
			for _, t := range m[:len(m):len(m)] {
				m = append(m, r3.Triangle{r3.Scale(f, t[0]), r3.Scale(f, t[2]), r3.Scale(f, t[1])})
			}
		}
		if kind == "pair" {
			d := r3.Unit(c.direction(name + ".dir"))
			o := r3.Scale(c.F(name+".gap", 3.3, 5), d)
			for _, t := range m[:len(m):len(m)] {
				m = append(m, r3.Triangle{r3.Add(t[0], o), r3.Add(t[1], o), r3.Add(t[2], o)})
			}
		}
	case "torus":
		n, k := c.I(name+".n", 3, 10), c.I(name+".k", 3, 6)
		r := c.F(name+".r", 0.1, 0.9)
		at := func(i, j int) r3.Vec {
			a, b := 2*math.Pi*float64(i%n)/float64(n), 2*math.Pi*float64(j%k)/float64(k)
			rr := r * (1 + 0.3*math.Sin(3*a+2*b))
			return v3((1.3+rr*math.Cos(b))*math.Cos(a), (1.3+rr*math.Cos(b))*math.Sin(a), rr*math.Sin(b))
		}
		for i := 0; i < n; i++ {
			for j := 0; j < k; j++ {
				quad(at(i, j), at(i+1, j), at(i+1, j+1), at(i, j+1))
			}
		}
	case "rendered":
		so := c.prim3(name + ".solid")
		m = renderAll(c, so.s, c.I(name+".cells", 3, 9))
		return m, fmt.Sprintf("render of %s", so.desc)
	}
	if meshVolume(m) < 0 {
		for i, t := range m {
			m[i] = r3.Triangle{t[0], t[2], t[1]}
		}
	}
	// place, turn and reorder it
	o, ax, an, sc := c.V3(name+".o", -5, 5), c.direction(name+".ax"), c.angle(name+".an"), c.Fac(name+".sc", 0.05, 20)
	if c.B(name + ".centered") {
		o = r3.Vec{}
	}
	mv := map[r3.Vec]r3.Vec{}
	sh := c.I(name+".order", 0, 1<<20)
	out := make([]r3.Triangle, 0, len(m))
	for i, t := range m {
		for j, v := range t {
			w, ok := mv[v]
			if !ok {
				w = r3.Add(o, r3.Scale(sc, rotAxis(v, ax, an)))
				mv[v] = w
			}
			t[j] = w
		}
		k := (i + sh) % 3
		out = append(out, r3.Triangle{t[k], t[(k+1)%3], t[(k+2)%3]})
	}
	for i := len(out) - 1; i > 0; i-- {
		sh = (sh*1103515245 + 12345) & (1<<31 - 1)
		j := sh % (i + 1)
		out[i], out[j] = out[j], out[i]
	}
	return out, fmt.Sprintf("%s of %d triangles, scale %v, at %v", kind, len(out), sc, o)
}

// bumpyBall is a refined octahedron with a radius that varies per vertex.
func (c *Case) bumpyBall(name string, level int) []r3.Triangle {
	x, y, z := v3(1, 0, 0), v3(0, 1, 0), v3(0, 0, 1)
	var m []r3.Triangle
	for i := 0; i < 8; i++ {
		s := func(b int, v r3.Vec) r3.Vec {
			if i>>b&1 == 1 {
				return r3.Sub(r3.Vec{}, v)
			}
			return v
		}
		m = append(m, r3.Triangle{s(0, x), s(1, y), s(2, z)})
		if p := len(m) - 1; r3.Dot(m[p][0], r3.Cross(m[p][1], m[p][2])) < 0 {
			m[p][1], m[p][2] = m[p][2], m[p][1]
		}
	}
	for ; level > 0; level-- {
		var o []r3.Triangle
		for _, t := range m {
			mid := func(i, j int) r3.Vec { return r3.Unit(r3.Add(t[i], t[j])) }
			a, b, d := mid(0, 1), mid(1, 2), mid(2, 0)
			o = append(o, r3.Triangle{t[0], a, d}, r3.Triangle{a, t[1], b}, r3.Triangle{d, b, t[2]}, r3.Triangle{a, b, d})
		}
		m = o
	}
	amp, ph, fr := c.F(name+".amp", 0, 0.6), c.V3(name+".ph", 0, 6), c.V3(name+".fr", 1, 4)
	for i := range m {
		for j, v := range m[i] {
			r := 1 + amp*math.Sin(fr.X*v.X+ph.X)*math.Sin(fr.Y*v.Y+ph.Y)*math.Cos(fr.Z*v.Z+ph.Z)
			m[i][j] = r3.Scale(r, v)
		}
	}
	return m
}

// meshPoints draws points around a mesh, among them ones close to faces, edges
// and vertices.
func (c *Case) meshPoints(name string, m []r3.Triangle, k int) (o []r3.Vec) {
	b := boxOf(m)
	ps := c.Pts3(name)
	sz := diag3(b)
	for i := 0; i < k; i++ {
		u := ps.at(i)
		t := m[int(frac(u.X*97.31)*float64(len(m)))]
		off := r3.Scale(sz*math.Pow(10, -4*frac(u.Y*31.7)), r3.Unit(r3.Sub(ps.at(i+1000), v3(0.5, 0.5, 0.5))))
		switch i % 5 {
		case 0:
			o = append(o, ps.in(i, growBox3(b, 0.2, 0)))
		case 1:
			o = append(o, ps.in(i, growBox3(b, 3, 0)))
		case 2: // at a vertex
			o = append(o, r3.Add(t[0], off))
		case 3: // at an edge
			o = append(o, r3.Add(r3.Add(t[0], r3.Scale(u.Z, r3.Sub(t[1], t[0]))), off))
		case 4: // at a face
			o = append(o, r3.Add(r3.Scale(1./3, r3.Add(t[0], r3.Add(t[1], t[2]))), off))
		}
	}
	return
}

type importer struct {
	name string
	f    func(m []r3.Triangle, tol float64) (sdf.SDF3, error)
}

var importers = []importer{
	{"ImportModel", func(m []r3.Triangle, tol float64) (sdf.SDF3, error) { return sdfexp.ImportModel(m, tol) }},
	{"ImportModelV2", func(m []r3.Triangle, tol float64) (sdf.SDF3, error) { return sdfexp.ImportModelV2(m, tol) }},
}

const ruleImport = "decided points inside and outside"

// TestC25_Distance: an imported mesh evaluates to the signed distance of the
// polyhedron and has its bounds.
func TestC25_Distance(t *testing.T) {
	check(t, 400, ruleImport, func(c *Case) {
		m, desc := c.closedMesh("m")
		if len(m) < 4 || slimness(m) < 1e-3 {
			c.Exclude("sliver triangles")
		}
		keep := append([]r3.Triangle(nil), m...)
		im := importers[c.I("importer", 0, len(importers)-1)]
		c.Label(im.name)
		c.Desc("%s of %s", im.name, desc)
		s, err := im.f(m, 0)
		if err != nil {
			c.Failf("%s of %s: %v", im.name, desc, err)
		}
		for i := range m {
			if m[i] != keep[i] {
				c.Failf("%s changed triangle %d of its argument", im.name, i)
			}
		}
		b := boxOf(m)
		if !nearBox3(s.Bounds(), b) {
			c.Failf("%s has bounds %v, its vertices %v", im.name, s.Bounds(), b)
		}
		size := diag3(b) + absmax3(b)
		in, out := false, false
		for _, p := range c.meshPoints("p", m, 60) {
			d := meshDist(m, p)
			g := s.Evaluate(p)
			if !near(math.Abs(g), d, 1e-8*size) {
				c.Failf("%s of %s at %v: distance %v, the nearest triangle is at %v", im.name, desc, p, g, d)
			}
			if d < 1e-6*size {
				continue
			}
			w := meshWinding(m, p)
			inside := w > 0.5
			in, out = in || inside, out || !inside
			if (g < 0) != inside {
				c.Failf("%s of %s at %v: distance %v, the surface winds %v times around the point", im.name, desc, p, g, w)
			}
		}
		if in && out {
			c.NonTrivial()
		}
	})
}

// TestC25_Tolerance: vertex tolerances below the shortest side change nothing,
// and ones that cannot separate vertices are errors.
func TestC25_Tolerance(t *testing.T) {
	check(t, 200, "every case", func(c *Case) {
		m, desc := c.closedMesh("m")
		if len(m) < 4 || slimness(m) < 1e-3 {
			c.Exclude("sliver triangles")
		}
		lo, hi := math.Inf(1), 0.0
		for _, t := range m {
			for j := range t {
				l := r3.Norm(r3.Sub(t[j], t[(j+1)%3]))
				lo, hi = math.Min(lo, l), math.Max(hi, l)
			}
		}
		im := importers[c.I("importer", 0, len(importers)-1)]
		c.NonTrivial()
		c.Desc("%s of %s", im.name, desc)
		for _, tol := range []float64{hi * c.F("big", 0.501, 100), -lo * c.F("neg", 0.01, 1)} {
			if _, err := im.f(append([]r3.Triangle(nil), m...), tol); err == nil {
				c.Failf("%s of %s accepts a vertex tolerance of %v for sides from %v to %v", im.name, desc, tol, lo, hi)
			}
		}
		tol := lo * c.LogF("tol/lo", 1e-5, 0.1)
		s0, err0 := im.f(append([]r3.Triangle(nil), m...), 0)
		s1, err1 := im.f(append([]r3.Triangle(nil), m...), tol)
		if err0 != nil || err1 != nil {
			c.Failf("%s of %s: %v, with tolerance %v (sides from %v): %v", im.name, desc, err0, tol, lo, err1)
		}
		size := diag3(s0.Bounds()) + absmax3(s0.Bounds())
		for _, p := range c.meshPoints("p", m, 30) {
			a, b := s0.Evaluate(p), s1.Evaluate(p)
			if !near(a, b, 1e-8*size) && !near(math.Abs(a), 0, 1e-6*size) {
				c.Failf("%s of %s at %v: %v, with vertex tolerance %v: %v", im.name, desc, p, a, tol, b)
			}
		}
		if _, err := im.f(nil, 0); err == nil {
			c.Failf("%s accepts a model without triangles", im.name)
		}
	})
}

// TestC25_Concurrent: goroutines may share an imported mesh.
func TestC25_Concurrent(t *testing.T) {
	check(t, 60, ruleImport, func(c *Case) {
		m, desc := c.closedMesh("m")
		if len(m) < 4 || slimness(m) < 1e-3 {
			c.Exclude("sliver triangles")
		}
		im := importers[c.I("importer", 0, len(importers)-1)]
		c.Desc("%s of %s", im.name, desc)
		s, err := im.f(m, 0)
		if err != nil {
			c.Failf("%s of %s: %v", im.name, desc, err)
		}
		pts := c.meshPoints("p", m, 80)
		var want []float64
		in, out := false, false
		for _, p := range pts {
			d := s.Evaluate(p)
			want = append(want, d)
			in, out = in || d < 0, out || d > 0
		}
		if in && out {
			c.NonTrivial()
		}
		var wg sync.WaitGroup
		bad := make([]string, 4)
		for w := range bad {
			w := w
			wg.Add(1)
			go func() {
				defer wg.Done()
				for r := 0; r < 3; r++ {
					for i := range pts {
						j := (i*(2*w+1) + w) % len(pts)
						if v := s.Evaluate(pts[j]); v != want[j] {
							bad[w] = fmt.Sprintf("%v in goroutine %d, %v alone, at %v", v, w, want[j], pts[j])
						}
					}
				}
			}()
		}
		wg.Wait()
		for _, e := range bad {
			if e != "" {
				c.Failf("%s of %s: %s", im.name, desc, e)
			}
		}
	})
}

// TestC25_Reimport: a rendered solid imports as that solid up to the size of
// the cells it was rendered with.
func TestC25_Reimport(t *testing.T) {
	check(t, 80, ruleImport, func(c *Case) {
		n := c.prim3("a").transformed2(c)
		cells := c.I("cells", 8, 24)
		m := renderAll(c, n.s, cells)
		if len(m) < 4 {
			c.Exclude("empty mesh")
		}
		im := importers[c.I("importer", 0, len(importers)-1)]
		c.Desc("%s of %s rendered at %d cells", im.name, n.desc, cells)
		s, err := im.f(m, 0)
		if err != nil {
			c.Failf("%s of %s at %d cells: %v", im.name, n.desc, cells, err)
		}
		h := 1.1 * longest(n.s.Bounds()) / float64(cells)
		in, out := false, false
		for _, p := range c.points3(n, 40) {
			d, g := n.ref(p), s.Evaluate(p)
			if math.Abs(d) < 2*h {
				continue
			}
			in, out = in || d < 0, out || d > 0
			if (d < 0) != (g < 0) || math.IsNaN(g) {
				c.Failf("%s of %s rendered at %d cells: %v at %v, where the solid has %v", im.name, n.desc, cells, g, p, d)
			}
		}
		if in && out {
			c.NonTrivial()
		}
	})
}

// transformed2 moves and turns a solid.
func (n *S3) transformed2(c *Case) *S3 {
	st := c.steps3("st", false)
	return n.transformed(applySteps3(n.s, st), st)
}

// TestC25_Soup: for any triangles, closed or not, the value's magnitude is the
// distance to the nearest one.
func TestC25_Soup(t *testing.T) {
	check(t, 400, "every case", func(c *Case) {
		var vs []r3.Vec
		for i, k := 0, c.I("vertices", 3, 9); i < k; i++ {
			vs = append(vs, c.V3(fmt.Sprintf("v%d", i), -2, 2))
		}
		var m []r3.Triangle
		for i, k := 0, c.I("triangles", 1, 20); i < k; i++ {
			nm := fmt.Sprintf("t%d", i)
			a := c.I(nm+".a", 0, len(vs)-1)
			b := (a + 1 + c.I(nm+".b", 0, len(vs)-2)) % len(vs)
			d := c.I(nm+".c", 0, len(vs)-1)
			for d == a || d == b {
				d = (d + 1) % len(vs)
			}
			m = append(m, r3.Triangle{vs[a], vs[b], vs[d]})
		}
		if slimness(m) < 1e-2 {
			c.Exclude("sliver triangles")
		}
		im := importers[c.I("importer", 0, len(importers)-1)]
		c.Desc("%s of %d triangles over %d vertices", im.name, len(m), len(vs))
		c.NonTrivial()
		var s sdf.SDF3
		var err error
		if c.ends(func() { s, err = im.f(append([]r3.Triangle(nil), m...), 1e-7) }); err != nil {
			c.Failf("%s of %v: %v", im.name, m, err)
		}
		if b := boxOf(m); !nearBox3(s.Bounds(), b) {
			c.Failf("%s has bounds %v, its vertices %v", im.name, s.Bounds(), b)
		}
		for _, p := range c.meshPoints("p", m, 40) {
			if d, g := meshDist(m, p), s.Evaluate(p); !near(math.Abs(g), d, 1e-6) {
				c.Failf("%s of %v at %v: distance %v, the nearest triangle is at %v", im.name, m, p, g, d)
			}
		}
	})
}

// ends fails when f takes longer than any input of the checks should.
func (c *Case) ends(f func()) {
	done := make(chan any, 1)
	go func() {
		defer func() { done <- recover() }()
		f()
	}()
	select {
	case e := <-done:
		if e != nil {
			c.Failf("panic: %v", e)
		}
	case <-time.After(10 * time.Second):
		c.Failf("not done after 10 s")
	}
}
