package harness

import (
	"fmt"
	"math"
	"sync"
	"testing"

	"github.com/soypat/sdf"
	"github.com/soypat/sdf/form2/must2"
	"github.com/soypat/sdf/form2/obj2"
	"github.com/soypat/sdf/form3/must3"
	"github.com/soypat/sdf/form3/obj3"
	"github.com/soypat/sdf/form3/obj3/thread"
	"github.com/soypat/sdf/render"
	"gonum.org/v1/gonum/spatial/r2"
	"gonum.org/v1/gonum/spatial/r3"
)

// --- C24 evaluation is a pure function -------------------------------------------

// subject is a 2D or a 3D solid seen through one interface.
type subject struct {
	name   string
	eval   func(p r3.Vec) float64
	bounds func() r3.Box
	s3     sdf.SDF3
}

func subj3(name string, s sdf.SDF3) subject {
	return subject{name, s.Evaluate, s.Bounds, s}
}

func subj2(name string, s sdf.SDF2) subject {
	return subject{name, func(p r3.Vec) float64 { return s.Evaluate(v2(p.X, p.Y)) },
		func() r3.Box {
			b := s.Bounds()
			return r3.Box{Min: v3(b.Min.X, b.Min.Y, 0), Max: v3(b.Max.X, b.Max.Y, 0)}
		}, nil}
}

// subject draws any solid of the library.
func (c *Case) subject(name string) subject {
	switch k := c.Pick(name+".kind", "tree2", "tree3", "tree3", "wide2", "wide3", "blend3", "screw", "bolt", "panel", "text"); k {
	case "tree2":
		n := c.op2(name, c.I(name+".depth", 1, 3), ops2all)
		return subj2(n.desc, n.s)
	case "tree3":
		n := c.op3(name, c.I(name+".depth", 1, 3), ops3all, ops3all)
		return subj3(n.desc, n.s)
	case "wide2":
		var ch []sdf.SDF2
		d := ""
		for i, k := 0, c.I(name+".k", 2, 12); i < k; i++ {
			n := c.prim2(fmt.Sprintf("%s.%d", name, i)).translate(c.V2(fmt.Sprintf("%s.at%d", name, i), -8, 8))
			ch, d = append(ch, n.s), d+n.desc+" "
		}
		return subj2("union of "+d, sdf.Union2D(ch...))
	case "wide3":
		var ch []sdf.SDF3
		d := ""
		for i, k := 0, c.I(name+".k", 2, 8); i < k; i++ {
			n := c.prim3(fmt.Sprintf("%s.%d", name, i)).translate(c.V3(fmt.Sprintf("%s.at%d", name, i), -8, 8))
			ch, d = append(ch, n.s), d+n.desc+" "
		}
		return subj3("union of "+d, sdf.Union3D(ch...))
	case "blend3":
		n := c.prim3(name + ".a")
		u := sdf.Array3D(n.s, sdf.V3i{2, 2, 1}, c.V3(name+".step", 0.5, 3))
		bl := c.foldBlend(name + ".blend")
		u.SetMin(bl.f)
		return subj3(bl.name+" blended array of "+n.desc, u)
	case "screw":
		f := c.threadForm(name)
		s, err := thread.Screw(f.pitch*c.F(name+".l/p", 1, 6), f.th)
		if err != nil {
			c.Failf("Screw(%s): %v", f.name, err)
		}
		return subj3("screw "+f.name, s)
	case "bolt":
		_, k, d := c.bolt(name)
		s, err := thread.Bolt(k)
		if err != nil {
			c.Exclude("bolt rejected")
		}
		return subj3("bolt "+d, s)
	case "panel":
		s, err := obj3.Panel(obj2.PanelParams{Size: v2(c.F(name+".w", 20, 50), c.F(name+".h", 20, 50)), CornerRadius: c.F(name+".r", 0, 5),
			HoleDiameter: c.F(name+".d", 1, 3), HoleMargin: [4]float64{3, 3, 3, 3}, HolePattern: [4]string{"xx", "x", "xx", ".x"}, Thickness: 2})
		if err != nil {
			c.Failf("Panel: %v", err)
		}
		return subj3("panel", s)
	default:
		v := c.anyPoly()
		return subj2(fmt.Sprintf("polygon %v", v), must2.Polygon(v))
	}
}

// pointsIn draws points around a box; some of them are repeated ones.
func (c *Case) pointsIn(name string, b r3.Box, k int) (o []r3.Vec) {
	ps := c.Pts3(name)
	for i := 0; i < k; i++ {
		switch i % 4 {
		case 0, 1:
			o = append(o, ps.in(i, growBox3(b, 0.1, 0.1)))
		case 2:
			o = append(o, ps.in(i, growBox3(b, 2, 1)))
		default:
			q := o[c.I(fmt.Sprintf("%s.rep%d", name, i%16), 0, len(o)-1)]
			o = append(o, v3(q.X, q.Y, math.Nextafter(q.Z, 1)))
		}
	}
	return
}

// TestC24_Repeatable: a solid's value at a point and its bounds do not depend
// on what was evaluated before, nor on uses of the solid as an operand or model.
func TestC24_Repeatable(t *testing.T) {
	check(t, 2000, "values of both signs, compared again in two other orders", func(c *Case) {
		c.iso = false
		s := c.subject("s")
		c.Desc("%s", s.name)
		pts := c.pointsIn("p", s.bounds(), 60)
		b := s.bounds()
		want := make([]float64, len(pts))
		neg, pos := false, false
		for i, p := range pts {
			want[i] = s.eval(p)
			neg, pos = neg || want[i] < 0, pos || want[i] > 0
		}
		if neg && pos {
			c.NonTrivial()
		}
		again := func(after string, order func(i int) int) {
			for i := range pts {
				j := order(i)
				if v := s.eval(pts[j]); !same(v, want[j]) {
					c.Failf("%s at %v is %v %s, was %v", s.name, pts[j], v, after, want[j])
				}
			}
			if s.bounds() != b {
				c.Failf("bounds of %s are %v %s, were %v", s.name, s.bounds(), after, b)
			}
		}
		again("in reverse order", func(i int) int { return len(pts) - 1 - i })
		if s.s3 != nil {
			sz := diag3(b)
			u := sdf.Union3D(s.s3, must3.Sphere(1+sz))
			u.SetMin(sdf.MinPoly(1, 0.3))
			d := sdf.Difference3D(s.s3, must3.Sphere(1+sz/3))
			d.SetMax(sdf.MaxPoly(1, 0.3))
			derived := []sdf.SDF3{u, d, sdf.Transform3D(s.s3, sdf.RotateX(1)), sdf.Offset3D(s.s3, 0.1), sdf.Array3D(s.s3, sdf.V3i{2, 1, 2}, v3(1, 1, 1)),
				sdf.RotateCopy3D(s.s3, 3), sdf.Intersect3D(s.s3, u), sdf.Cut3D(s.s3, r3.Vec{}, v3(0, 1, 1)), sdf.ScaleUniform3D(s.s3, 2)}
			for i, e := range derived {
				e.Bounds()
				for j := 0; j < 5; j++ {
					e.Evaluate(pts[(7*i+j)%len(pts)])
				}
			}
			again("after uses as an operand", func(i int) int { return (i*37 + 11) % len(pts) })
			if c.B("render") && sz > 0 && finite(sz) {
				cells := c.I("cells", 2, 6)
				m, err := render.RenderAll(render.NewOctreeRenderer(s.s3, cells))
				m2, err2 := render.RenderAll(render.NewOctreeRenderer(s.s3, cells))
				if err != nil || err2 != nil {
					c.Failf("RenderAll(%s): %v, %v", s.name, err, err2)
				}
				if e := diffMeshes(m, m2); e != "" {
					c.Failf("%s rendered twice at %d cells: %s", s.name, cells, e)
				}
				again("after rendering", func(i int) int { return (i*17 + 3) % len(pts) })
			}
		}
		again("in the same order", func(i int) int { return i })
	})
}

// same compares bit patterns, up to NaN.
func same(a, b float64) bool {
	return math.Float64bits(a) == math.Float64bits(b) || a != a && b != b || a == 0 && b == 0
}

// TestC24_Concurrent: goroutines that evaluate one solid at the same time get
// what one goroutine gets. Built with the race detector.
func TestC24_Concurrent(t *testing.T) {
	check(t, 600, "values of both signs", func(c *Case) {
		s := c.subject("s")
		c.Desc("%s", s.name)
		pts := c.pointsIn("p", s.bounds(), 40)
		workers := c.Cnt("workers", 2, 5, 24)
		got := make([][]float64, workers)
		bs := make([]r3.Box, workers)
		seq := func() (o []float64) {
			for _, p := range pts {
				o = append(o, s.eval(p))
			}
			return
		}
		var want []float64
		first := c.B("sequential first")
		if first {
			want = seq()
		}
		strides := []int{1, 3, 7, 11} // coprime to the number of points: permutations
		var wg sync.WaitGroup
		start := make(chan struct{})
		for w := 0; w < workers; w++ {
			w := w
			got[w] = make([]float64, len(pts))
			wg.Add(1)
			go func() {
				defer wg.Done()
				<-start
				for r := 0; r < 3; r++ {
					for i := range pts {
						j := (i*strides[w%4] + w + r) % len(pts)
						got[w][j] = s.eval(pts[j])
					}
					bs[w] = s.bounds()
				}
			}()
		}
		close(start)
		wg.Wait()
		if !first {
			want = seq()
		}
		neg, pos := false, false
		for w := range got {
			if bs[w] != s.bounds() {
				c.Failf("%s: bounds %v in goroutine %d, %v", s.name, bs[w], w, s.bounds())
			}
			for i := range pts {
				neg, pos = neg || want[i] < 0, pos || want[i] > 0
				if !same(got[w][i], want[i]) {
					c.Failf("%s at %v: %v in goroutine %d, %v alone", s.name, pts[i], got[w][i], w, want[i])
				}
			}
		}
		if neg && pos {
			c.NonTrivial()
		}
	})
}

// TestC24_ConcurrentRenders: meshes of one model made at the same time, at
// different resolutions, are the ones made alone.
func TestC24_ConcurrentRenders(t *testing.T) {
	check(t, 60, ruleMesh, func(c *Case) {
		so := c.solid("s")
		k := c.Cnt("renders", 2, 4, 12)
		cells := make([]int, k)
		for i := range cells {
			cells[i] = c.I(fmt.Sprintf("cells%d", i), 2, 10)
		}
		c.Desc("%s at %v cells", so.desc, cells)
		got := make([][]r3.Triangle, k)
		errs := make([]error, k)
		var wg sync.WaitGroup
		for i := range cells {
			i := i
			wg.Add(1)
			go func() {
				defer wg.Done()
				got[i], errs[i] = render.RenderAll(render.NewOctreeRenderer(so.s, cells[i]))
			}()
		}
		wg.Wait()
		for i := range cells {
			if errs[i] != nil {
				c.Failf("RenderAll: %v", errs[i])
			}
			want := renderAll(c, so.s, cells[i])
			if len(want) >= 12 {
				c.NonTrivial()
			}
			if e := diffMeshes(got[i], want); e != "" {
				c.Failf("%s at %d cells, rendered concurrently: %s", so.desc, cells[i], e)
			}
		}
	})
}

// TestC24_Arguments: constructors neither write to the slices they are given
// nor depend on them once they have returned.
func TestC24_Arguments(t *testing.T) {
	check(t, 1200, "every case: 30 points before and after the caller reuses its slices", func(c *Case) {
		c.iso = false
		a3, a2 := c.prim3("a3"), c.prim2("a2")
		k := c.I("k", 2, 6)
		p3, p2 := make([]r3.Vec, k), make([]r2.Vec, k)
		for i := range p3 {
			p3[i], p2[i] = c.V3(fmt.Sprintf("p3.%d", i), -4, 4), c.V2(fmt.Sprintf("p2.%d", i), -4, 4)
		}
		var o3 []sdf.SDF3
		var o2 []sdf.SDF2
		for i := range p3 {
			o3, o2 = append(o3, sdf.Transform3D(a3.s, sdf.Translate3D(p3[i]))), append(o2, sdf.Transform2D(a2.s, sdf.Translate2D(p2[i])))
		}
		poly := c.starPoly("v", c.I("n", 3, 8), 0.5, 3, v2(0, 0))
		poly = append(poly, poly[0])[:len(poly)+c.I("close", 0, 1)] // spare capacity
		k3, k2, kp := append([]r3.Vec(nil), p3...), append([]r2.Vec(nil), p2...), append([]r2.Vec(nil), poly[:cap(poly)]...)
		ko3, ko2 := append([]sdf.SDF3(nil), o3...), append([]sdf.SDF2(nil), o2...)
		var s subject
		kind := c.Pick("kind", "multi3", "multi2", "orient", "union3", "union2", "polygon", "builder")
		c.Label(kind)
		switch kind {
		case "multi3":
			s = subj3(kind, sdf.Multi3D(a3.s, p3))
		case "multi2":
			s = subj2(kind, sdf.Multi2D(a2.s, p2))
		case "orient":
			s = subj3(kind, sdf.Orient3D(a3.s, v3(0, 0, 1), p3))
		case "union3":
			s = subj3(kind, sdf.Union3D(o3...))
		case "union2":
			s = subj2(kind, sdf.Union2D(o2...))
		case "polygon":
			s = subj2(kind, must2.Polygon(poly))
		case "builder":
			b := must2.NewPolygon()
			b.AddV2Set(poly)
			s = subj2(kind, must2.Polygon(b.Vertices()))
		}
		c.Desc("%s of %s / %s, %v %v %v", kind, a3.desc, a2.desc, p3, p2, poly)
		for i := range k3 {
			if p3[i] != k3[i] || p2[i] != k2[i] || o3[i] != ko3[i] || o2[i] != ko2[i] {
				c.Failf("%s changed element %d of its argument", kind, i)
			}
		}
		for i, v := range poly[:cap(poly)] {
			if v != kp[i] {
				c.Failf("%s wrote %v over element %d (%v) of the vertex slice of length %d", kind, v, i, kp[i], len(poly))
			}
		}
		pts := c.pointsIn("p", s.bounds(), 30)
		want := make([]float64, len(pts))
		for i, p := range pts {
			want[i] = s.eval(p)
		}
		bb := s.bounds()
		c.NonTrivial()
		for i := range p3 {
			p3[i], p2[i], o3[i], o2[i] = v3(100, 0, 0), v2(100, 0), must3.Sphere(20), must2.Circle(20)
		}
		for i := range poly[:cap(poly)] {
			poly[:cap(poly)][i] = v2(50, float64(i))
		}
		for i, p := range pts {
			if v := s.eval(p); !same(v, want[i]) {
				c.Failf("%s at %v is %v after the caller reused its slices, was %v", kind, p, v, want[i])
			}
		}
		if s.bounds() != bb {
			c.Failf("%s has bounds %v after the caller reused its slices, had %v", kind, s.bounds(), bb)
		}
	})
}

// TestC24_Builder: a polygon builder's vertices can be read again, and changing
// what it returned changes nothing.
func TestC24_Builder(t *testing.T) {
	check(t, 800, "a vertex was smoothed, chamfered or replaced by an arc", func(c *Case) {
		b := must2.NewPolygon()
		n := c.I("n", 3, 8)
		ops := 0
		for i := 0; i < n; i++ {
			nm := fmt.Sprintf("v%d", i)
			p := c.V2(nm, -5, 5)
			v := b.AddV2(p)
			d := ""
			if i > 0 && c.B(nm+".rel") {
				v.Rel()
				d = " rel"
			}
			switch c.I(nm+".op", 0, 4) {
			case 0:
				v.Smooth(c.LogF(nm+".r", 0.01, 4), c.I(nm+".f", 1, 6))
				ops, d = ops+1, d+" smooth"
			case 1:
				v.Chamfer(c.LogF(nm+".r", 0.01, 4))
				ops, d = ops+1, d+" chamfer"
			case 2:
				v.Arc(c.F(nm+".r", -12, 12), c.I(nm+".f", 1, 6))
				ops, d = ops+1, d+" arc"
			}
			c.Desc("%v%s", p, d)
		}
		if c.B("close") {
			b.Close()
		}
		if c.B("reverse") {
			b.Reverse()
		}
		v := b.Vertices()
		if ops > 0 && len(v) != n {
			c.NonTrivial()
		}
		keep := append([]r2.Vec(nil), v...)
		for i := range v {
			v[i] = v2(77, 77)
		}
		for r := 0; r < 2; r++ {
			w := b.Vertices()
			if len(w) != len(keep) {
				c.Failf("%d vertices, %d when read again", len(keep), len(w))
			}
			for i := range w {
				if w[i] != keep[i] && (finite(w[i].X) || finite(keep[i].X)) {
					c.Failf("vertex %d is %v, %v when read again", i, keep[i], w[i])
				}
			}
		}
	})
}
