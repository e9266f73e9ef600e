package harness

import (
	"errors"
	"fmt"
	"io"
	"math"
	"os"
	"sort"
	"testing"

	"github.com/soypat/sdf"
	"github.com/soypat/sdf/render"
	"gonum.org/v1/gonum/spatial/r3"
)

func (c *Case) meshCells() int {
	hi := 30
	if thorough() {
		hi = 48
	}
	switch c.I("cells.kind", 0, 4) {
	case 0:
		return []int{2, 3, 4, 8, 16, 32}[c.I("cells.pow", 0, 5)]
	case 1:
		return c.I("cells.small", 2, 8)
	}
	return c.I("cells", 2, hi)
}

func renderAll(c *Case, s sdf.SDF3, cells int) []r3.Triangle {
	m, err := render.RenderAll(render.NewOctreeRenderer(s, cells))
	if err != nil {
		c.Failf("RenderAll: %v", err)
	}
	return m
}

const ruleMesh = "the mesh has at least 12 triangles"

// TestC12_Watertight: the mesh is closed and consistently oriented.
func TestC12_Watertight(t *testing.T) {
	check(t, 400, ruleMesh, func(c *Case) {
		so := c.solid("s")
		cells := c.meshCells()
		c.Desc("%s at %d cells", so.desc, cells)
		m := renderAll(c, so.s, cells)
		watertight(c, so.s, m)
	})
}

// TestC12_Aligned: solids whose flat faces lie exactly on, or within rounding
// of, likely sampling planes of the renderer (cut through the middle, 101 or
// 202 cells).
func TestC12_Aligned(t *testing.T) {
	check(t, 60, ruleMesh, func(c *Case) {
		a := c.prim3("a")
		s := a.s
		d := a.desc
		if c.B("cut") {
			n := []r3.Vec{{X: 1}, {Y: 1}, {Z: 1}, {Z: -1}, {X: 1, Y: 1}, {X: 1, Y: 1, Z: 1}}[c.I("n", 0, 5)]
			at := r3.Scale(c.Pick2("eps", 0, 1e-17, -1e-16, 1e-14, 1e-13, -1e-12, 1e-10), n)
			s = sdf.Cut3D(s, at, n)
			d = fmt.Sprintf("cut(%s at %v along %v)", d, at, n)
		}
		cells := []int{2, 4, 6, 8, 10, 16, 20, 32, 101}[c.I("cells", 0, 8)]
		c.Desc("%s at %d cells", d, cells)
		m := renderAll(c, s, cells)
		watertight(c, s, m)
	})
}

// Pick2 picks a number.
func (c *Case) Pick2(name string, opts ...float64) float64 { return opts[c.I(name, 0, len(opts)-1)] }

func watertight(c *Case, s sdf.SDF3, m []r3.Triangle) {
	if len(m) >= 12 {
		c.NonTrivial()
	}
	size := diag3(s.Bounds()) + absmax3(s.Bounds())
	for _, t := range m {
		for _, v := range t {
			if !finite(v.X) || !finite(v.Y) || !finite(v.Z) {
				c.Failf("vertex %v", v)
			}
		}
	}
	if e := openEdges(m, 1e-9*size, 1e-8*size); e != "" {
		c.Failf("%d triangles, mesh not closed: %s", len(m), e)
	}
	if v := meshVolume(m); v < -1e-9*size*size*size {
		c.Failf("mesh of %d triangles encloses a volume of %v: normals point inwards", len(m), v)
	}
}

// TestC13_Solid: away from the surface by more than a cell, the mesh encloses
// exactly the points inside the solid.
func TestC13_Solid(t *testing.T) {
	check(t, 350, ruleInside, func(c *Case) {
		so := c.solid("s")
		fidelity(c, so, c.meshCells())
	})
}

// TestC13_Fine: the same at resolutions that take more levels of cubes.
func TestC13_Fine(t *testing.T) {
	check(t, 5, ruleInside, func(c *Case) { fidelity(c, c.scattered("s"), c.fineCells()) })
}

// TestC12_Fine: fine meshes are closed.
func TestC12_Fine(t *testing.T) {
	check(t, 5, ruleMesh, func(c *Case) {
		so, cells := c.scattered("s"), c.fineCells()
		c.Desc("%s at %d cells", so.desc, cells)
		watertight(c, so.s, renderAll(c, so.s, cells))
	})
}

// TestC13_Slender: the same for rods and strips rendered with many hundred
// cells along their length.
func TestC13_Slender(t *testing.T) {
	check(t, 6, ruleInside, func(c *Case) {
		so, cells := c.slender("s")
		fidelity(c, so, cells)
	})
}

// TestC12_Slender: meshes with many hundred cells along their length are closed.
func TestC12_Slender(t *testing.T) {
	check(t, 6, ruleMesh, func(c *Case) {
		so, cells := c.slender("s")
		c.Desc("%s at %d cells", so.desc, cells)
		watertight(c, so.s, renderAll(c, so.s, cells))
	})
}

// slender draws a rod in some direction and a number of cells for about fifty
// thousand triangles at most.
func (c *Case) slender(name string) (solid, int) {
	l, cells := c.F(name+".l", 20, 60), c.I(name+".cells", 140, 2000)
	// about eight triangles for every cell of the length of a rod one cell thick
	d := math.Min(l/20, c.LogF(name+".d", 0.3, 1)*50000/8/float64(cells)*l/float64(cells))
	var n *S3
	switch c.Pick(name+".kind", "box", "rod", "cone", "tube") {
	case "box":
		n = box3(d, d*c.F(name+".y", 0.4, 1), l, 0)
	case "rod":
		n = cylinder3(l, d/2, d/2*c.Pick2(name+".round", 0, 0.5, 1))
	case "cone":
		if n = cone3(l, d/2, d/8, 0); n == nil { // too thin to find its inside
			n = cylinder3(l, d/2, 0)
		}
	default:
		a, b := cylinder3(l, d/2, 0), cylinder3(l*2, d/5, 0)
		n = &S3{s: sdf.Difference3D(a.s, b.s), desc: a.desc + " less " + b.desc, rb: a.rb, w: v3(d*0.35, 0, 0), wd: d * 0.1,
			ref: func(p r3.Vec) float64 { return math.Max(a.ref(p), -b.ref(p)) }}
	}
	// Turn the length into an axis, or nearly, so that the bounds stay slim.
	st := steps3{{kind: "rz", a: c.angle(name + ".spin")}}
	tilt := 0.0
	if c.B(name + ".tilted") {
		tilt = c.F(name+".tilt", -1, 1) * 5 * d / l
	}
	switch c.I(name+".along", 0, 2) {
	case 0:
		st = append(st, step3{kind: "rv", v: v3(0, 1, 0), a: math.Pi/2 + tilt})
	case 1:
		st = append(st, step3{kind: "rv", v: v3(1, 0, 0), a: math.Pi/2 + tilt})
	default:
		st = append(st, step3{kind: "rv", v: v3(1, 0, 0), a: tilt})
	}
	n = n.transformed(applySteps3(n.s, st), st)
	return solid{s: n.s, desc: n.desc, pts: c.points3(n, 40)}, cells
}

const ruleInside = "a decided point inside and one outside"

func (c *Case) fineCells() int {
	if c.I("fine.kind", 0, 3) == 0 {
		return []int{50, 64, 100, 128}[c.I("fine.pow", 0, 3)]
	}
	return c.I("fine", 40, 140)
}

// scattered draws one solid or a few small ones far apart.
func (c *Case) scattered(name string) solid {
	n := c.prim3(name + "0")
	for i, k := 1, c.I(name+".more", 0, 2); i < k+1; i++ {
		b := c.prim3(fmt.Sprintf("%s%d", name, i)).translate(c.V3(fmt.Sprintf("%s.at%d", name, i), -12, 12))
		a := n
		n = &S3{s: sdf.Union3D(a.s, b.s), desc: a.desc + " + " + b.desc, ref: func(p r3.Vec) float64 { return math.Min(a.ref(p), b.ref(p)) },
			rb: hull3(a.rb, b.rb), w: a.w, wd: a.wd}
	}
	return solid{s: n.s, desc: n.desc, pts: c.points3(n, 40)}
}

// fidelity fails when the mesh of a solid does not follow its surface.
func fidelity(c *Case, so solid, cells int) {
	c.Desc("%s at %d cells", so.desc, cells)
	m := renderAll(c, so.s, cells)
	h := 1.1 * longest(so.s.Bounds()) / float64(cells)
	in, out := 0, 0
	for _, p := range so.pts {
		d := so.s.Evaluate(p)
		if math.Abs(d) < h*1.7321 {
			continue
		}
		want := 0.0
		if d < 0 {
			want = 1
			in++
		} else {
			out++
		}
		if g := meshWinding(m, p); !near(g, want, 0.02) {
			c.Failf("point %v at distance %v (cell %v): the mesh of %d triangles winds %v times around it", p, d, h, len(m), g)
		}
	}
	if in > 0 && out > 0 {
		c.NonTrivial()
	}
	// Every vertex lies on a cell edge crossed by the surface.
	for _, t := range m {
		for _, v := range t {
			if d := so.s.Evaluate(v); !(math.Abs(d) <= 0.505*h+1e-9*absmax3(so.s.Bounds())) {
				c.Failf("vertex %v is %v away from the surface, cell %v", v, d, h)
			}
		}
	}
}

// TestC13_Smooth: on smooth solids the vertices converge with the square of
// the cell size, and outward normals match the gradient.
func TestC13_Smooth(t *testing.T) {
	check(t, 150, ruleMesh, func(c *Case) {
		r := c.LogF("r", 0.5, 3)
		cells := c.I("cells", 12, 36)
		var n *S3
		// rc: smallest radius of curvature
		rc := r
		switch c.Pick("kind", "sphere", "rbox", "rcyl", "capsule") {
		case "sphere":
			n = sphere3(r)
		case "rbox":
			n = box3(2*r+c.F("x", 0, 2), 2*r+c.F("y", 0, 2), 2*r+c.F("z", 0, 2), r*0.999)
			rc = 0.999 * r
		case "rcyl":
			n = cylinder3(2*r+c.F("h", 0, 2), r+c.F("extra", 0, 2), r*0.999)
			rc = 0.999 * r
		case "capsule":
			n = cylinder3(2*r+c.F("h", 0, 3), r, r)
		}
		at := c.V3("at", -3, 3)
		st := steps3{{kind: "rv", v: c.direction("axis"), a: c.angle("a")}, {kind: "tr", v: at}}
		n = n.transformed(applySteps3(n.s, st), st)
		h := 1.011 * longest(n.s.Bounds()) / float64(cells)
		c.Desc("%s at %d cells", n.desc, cells)
		if rc < 3*h {
			c.Label("too coarse")
			return
		}
		m := renderAll(c, n.s, cells)
		if len(m) >= 12 {
			c.NonTrivial()
		}
		tol := h*h/(8*(rc-1.8*h))*1.2 + n.tol(at)
		for _, t := range m {
			for _, v := range t {
				if d := n.ref(v); !(math.Abs(d) <= tol) {
					c.Failf("vertex %v is %v away from the surface; interpolation error should be below %v (cell %v, curvature radius %v)", v, d, tol, h, rc)
				}
			}
		}
		// Deep enough volume agreement: the mesh is inscribed within tol.
		if d := n.ref(n.w); meshWinding(m, n.w) < 0.99 {
			c.Failf("centre (distance %v) not enclosed", d)
		}
	})
}

// --- streaming -----------------------------------------------------------------

func sortedTris(m []r3.Triangle) []r3.Triangle {
	o := make([]r3.Triangle, len(m))
	for i, t := range m {
		// rotate the smallest vertex first
		k := 0
		for j := 1; j < 3; j++ {
			if lessVec(t[j], t[k]) {
				k = j
			}
		}
		o[i] = r3.Triangle{t[k], t[(k+1)%3], t[(k+2)%3]}
	}
	sort.Slice(o, func(i, j int) bool {
		for k := 0; k < 3; k++ {
			if lessVec(o[i][k], o[j][k]) {
				return true
			}
			if lessVec(o[j][k], o[i][k]) {
				return false
			}
		}
		return false
	})
	return o
}

// lessVec is a total order of vectors, with NaN above every number.
func lessVec(a, b r3.Vec) bool {
	p, q := [3]float64{a.X, a.Y, a.Z}, [3]float64{b.X, b.Y, b.Z}
	for k := range p {
		if p[k] < q[k] || !math.IsNaN(p[k]) && math.IsNaN(q[k]) {
			return true
		}
		if p[k] > q[k] || math.IsNaN(p[k]) && !math.IsNaN(q[k]) {
			return false
		}
	}
	return false
}

// diffMeshes compares meshes as sets of triangles.
func diffMeshes(a, b []r3.Triangle) string {
	if len(a) != len(b) {
		return fmt.Sprintf("%d and %d triangles", len(a), len(b))
	}
	ka, kb := sortedTris(a), sortedTris(b)
	for i := range ka {
		if !sameTri(ka[i], kb[i]) {
			return fmt.Sprintf("triangle %v against %v", ka[i], kb[i])
		}
	}
	return ""
}

// sameTri: equal, with NaN equal to NaN.
func sameTri(a, b r3.Triangle) bool {
	for i := range a {
		if !(same(a[i].X, b[i].X) || a[i].X == b[i].X) || !(same(a[i].Y, b[i].Y) || a[i].Y == b[i].Y) || !(same(a[i].Z, b[i].Z) || a[i].Z == b[i].Z) {
			return false
		}
	}
	return true
}

func (c *Case) sizes(name string) []int {
	k := c.I(name+".k", 1, 12)
	o := make([]int, k)
	for i := range o {
		switch c.I(fmt.Sprintf("%s.kind%d", name, i), 0, 3) {
		case 0:
			o[i] = c.I(fmt.Sprintf("%s.%d", name, i), 1, 6)
		case 1:
			o[i] = c.I(fmt.Sprintf("%s.%d", name, i), 1, 40)
		default:
			o[i] = c.I(fmt.Sprintf("%s.%d", name, i), 1, 1500)
		}
	}
	return o
}

// TestC14_Chunks: reading with any sequence of buffer sizes gives the same
// triangles as reading in one go, ends with io.EOF, and stays at io.EOF.
func TestC14_Chunks(t *testing.T) {
	check(t, 200, "the mesh has more triangles than the first buffer holds", func(c *Case) {
		so := c.solid("s")
		cells := c.meshCells()
		sz := c.sizes("buf")
		c.Desc("%s at %d cells, buffers %v", so.desc, cells, sz)
		r := render.NewOctreeRenderer(so.s, cells)
		got, err := drain(r, sz)
		if err != nil {
			c.Failf("ReadTriangles: %v", err)
		}
		whole, err := drain(render.NewOctreeRenderer(so.s, cells), []int{200000})
		if err != nil {
			c.Failf("ReadTriangles: %v", err)
		}
		if len(whole) > sz[0] {
			c.NonTrivial()
		}
		if d := diffMeshes(got, whole); d != "" {
			c.Failf("buffers %v against one big buffer: %s", sz, d)
		}
		for i := 0; i < 3; i++ {
			if n, err := r.ReadTriangles(make([]r3.Triangle, 7)); n != 0 || err != io.EOF {
				c.Failf("after the end: %d, %v", n, err)
			}
		}
		if d := diffMeshes(renderAll(c, so.s, cells), whole); d != "" {
			c.Failf("RenderAll against one big buffer: %s", d)
		}
	})
}

// scripted is a renderer that returns given triangles in given steps.
type scripted struct {
	tris  []r3.Triangle
	steps []int // most triangles returned per call; the last one repeats
	last  bool  // return the error together with the last triangles
	err   error
	calls int
}

func (s *scripted) ReadTriangles(dst []r3.Triangle) (int, error) {
	if len(dst) == 0 {
		panic("empty buffer")
	}
	k := s.steps[s.calls%len(s.steps)]
	if s.calls > 4000 && k == 0 {
		k = 1
	}
	s.calls++
	if len(s.tris) == 0 {
		return 0, s.err
	}
	if k > len(s.tris) {
		k = len(s.tris)
	}
	n := copy(dst, s.tris[:min(k, len(dst))])
	s.tris = s.tris[n:]
	// A reader may use the rest of the buffer as scratch space.
	for i := n; i < len(dst); i++ {
		dst[i] = r3.Triangle{{X: math.NaN()}}
	}
	if len(s.tris) == 0 && s.last {
		return n, s.err
	}
	return n, nil
}

func (c *Case) triangles(name string, n int) []r3.Triangle {
	ps := c.Pts3(name)
	sc := c.LogF(name+".scale", 1e-3, 1e4)
	o := make([]r3.Triangle, n)
	for i := range o {
		base := r3.Scale(sc, r3.Sub(ps.at(4*i), v3(0.5, 0.5, 0.5)))
		e := math.Pow(10, -2*ps.at(4*i+3).X)
		a := r3.Sub(ps.at(4*i+1), v3(0.5, 0.5, 0.5))
		b := r3.Sub(ps.at(4*i+2), v3(0.5, 0.5, 0.5))
		if r3.Norm(r3.Cross(a, b)) < 0.02 {
			a, b = v3(1, 0, 0.1), v3(0, 1, 0.2)
		}
		o[i] = r3.Triangle{base, r3.Add(base, r3.Scale(sc*e, a)), r3.Add(base, r3.Scale(sc*e, b))}
	}
	return o
}

var errScript = errors.New("renderer failed")

func (c *Case) script(maxTris int) (*scripted, []r3.Triangle) {
	n := c.I("tris", 0, 30)
	if c.B("many") {
		n = c.I("tris.many", 0, maxTris)
	}
	m := c.triangles("t", n)
	s := &scripted{tris: append([]r3.Triangle{}, m...), last: c.B("last"), err: io.EOF}
	k := c.I("steps", 1, 6)
	for i := 0; i < k; i++ {
		s.steps = append(s.steps, []int{0, 1, 3, 100, 1024, 5000}[c.I(fmt.Sprintf("step%d", i), 0, 5)])
	}
	if c.I("fail", 0, 3) == 0 {
		// any error but io.EOF itself, also one that looks like the end
		s.err = []error{errScript, errScript, io.ErrUnexpectedEOF, io.ErrClosedPipe, fmt.Errorf("reading the model: %w", io.EOF), os.ErrNotExist}[c.I("fail.kind", 0, 5)]
	}
	c.Desc("renderer of %d triangles, at most %v per call, error %v (with the last triangles: %v)", n, s.steps, s.err, s.last)
	return s, m
}

// TestC14_RenderAll: all triangles that any renderer produces, whatever way it
// hands them out, and any error but io.EOF, arrive.
func TestC14_RenderAll(t *testing.T) {
	check(t, 400, "at least one triangle", func(c *Case) {
		s, want := c.script(6000)
		if len(want) > 0 {
			c.NonTrivial()
		}
		werr := s.err
		got, err := render.RenderAll(s)
		if werr != io.EOF {
			if !errors.Is(err, werr) {
				c.Failf("error %v lost, got %v", werr, err)
			}
			return
		}
		if err != nil {
			c.Failf("unexpected error %v", err)
		}
		if len(got) != len(want) {
			c.Failf("%d triangles, want %d", len(got), len(want))
		}
		for i := range got {
			if got[i] != want[i] {
				c.Failf("triangle %d is %v, want %v", i, got[i], want[i])
			}
		}
	})
}

// TestC14_Huge: models of up to millions of triangles arrive in full.
func TestC14_Huge(t *testing.T) {
	check(t, 1, "more than 65536 triangles", func(c *Case) {
		n := int(c.LogF("n", 1<<15, 1<<21))
		want := grid(n, 1)
		s := &scripted{tris: want, steps: []int{c.I("step", 500, 5000)}, last: c.B("last"), err: io.EOF}
		c.Desc("%d triangles, at most %v per call", n, s.steps)
		if n > 65536 {
			c.NonTrivial()
		}
		var got []r3.Triangle
		if c.B("buffer") {
			var b render.TriangleBuffer
			for left := want; len(left) > 0; {
				k := min(len(left), c.I("write", 1000, 100000))
				b.Write(left[:k])
				left = left[k:]
			}
			if b.Len() != n {
				c.Failf("buffer of %d triangles has length %d", n, b.Len())
			}
			buf := make([]r3.Triangle, c.I("read", 1000, 100000))
			for len(got) <= n {
				k := b.Read(buf)
				if k == 0 {
					break
				}
				got = append(got, buf[:k]...)
			}
		} else {
			var err error
			if got, err = render.RenderAll(s); err != nil {
				c.Failf("RenderAll of %d triangles: %v", n, err)
			}
		}
		if len(got) != n {
			c.Failf("%d of %d triangles", len(got), n)
		}
		for i := range got {
			if got[i] != want[i] {
				c.Failf("triangle %d is %v, want %v", i, got[i], want[i])
			}
		}
	})
}

// TestC14_Buffer: TriangleBuffer is a first-in first-out queue.
func TestC14_Buffer(t *testing.T) {
	check(t, 400, "at least 3 writes and 3 reads of triangles", func(c *Case) {
		var b render.TriangleBuffer
		var model []r3.Triangle
		src := c.triangles("t", 200)
		ops := c.I("ops", 1, 30)
		w, r := 0, 0
		for i := 0; i < ops; i++ {
			if c.B(fmt.Sprintf("w%d", i)) {
				k := c.I(fmt.Sprintf("n%d", i), 0, 12)
				in := make([]r3.Triangle, k)
				for j := range in {
					in[j] = src[(w*7+j)%len(src)]
				}
				if n := b.Write(in); n != k {
					c.Failf("Write of %d returned %d", k, n)
				}
				model = append(model, in...)
				for j := range in {
					in[j] = r3.Triangle{} // the caller may reuse its slice
				}
				w++
			} else {
				k := c.I(fmt.Sprintf("n%d", i), 0, 12)
				out := make([]r3.Triangle, k)
				n := b.Read(out)
				if n != min(k, len(model)) {
					c.Failf("Read into %d returned %d with %d stored", k, n, len(model))
				}
				for j := 0; j < n; j++ {
					if out[j] != model[j] {
						c.Failf("Read triangle %d is %v, want %v", j, out[j], model[j])
					}
				}
				model = model[n:]
				if n > 0 {
					r++
				}
			}
			if b.Len() != len(model) {
				c.Failf("Len %d, want %d", b.Len(), len(model))
			}
		}
		c.Desc("%d operations", ops)
		if w >= 3 && r >= 3 {
			c.NonTrivial()
		}
	})
}

// TestC14_Empty: an empty solid renders to nothing.
func TestC14_Empty(t *testing.T) {
	check(t, 60, "always", func(c *Case) {
		a := c.prim3("a").translate(c.V3("at", -2, 2))
		s := sdf.SDF3(sdf.Array3D(a.s, sdf.V3i{0, 1, 1}, v3(1, 1, 1)))
		switch c.Pick("kind", "array", "line", "intersect", "cut") {
		case "line":
			s = sdf.LineOf3D(a.s, r3.Vec{}, v3(1, 0, 0), "--")
		case "intersect":
			s = sdf.Intersect3D(a.s, sdf.Transform3D(a.s, sdf.Translate3D(v3(2*a.size()+1, 0, 0))))
		case "cut":
			s = sdf.Cut3D(a.s, v3(0, 0, 2*(a.size()+absmax3(a.rb))), v3(0, 0, 1))
		}
		cells := c.I("cells", 2, 20)
		c.Desc("nothing of %s, %d cells", a.desc, cells)
		c.NonTrivial()
		if m := renderAll(c, s, cells); len(m) != 0 {
			c.Failf("%d triangles", len(m))
		}
	})
}
