package harness

import (
	"fmt"
	"io"
	"math"
	"sort"

	"github.com/soypat/sdf"
	"github.com/soypat/sdf/render"
	"gonum.org/v1/gonum/spatial/r3"
)

// --- independent mesh tools ---------------------------------------------------

// weld numbers the vertices of the mesh; vertices within tol of each other
// (transitively) are the same.
func weld(tris []r3.Triangle, tol float64) (ids [][3]int, pos []r3.Vec) {
	type cell [3]int64
	index := map[r3.Vec]int{}
	var all []r3.Vec
	ids = make([][3]int, len(tris))
	for i, t := range tris {
		for j, v := range t {
			k, ok := index[v]
			if !ok {
				k = len(all)
				index[v] = k
				all = append(all, v)
			}
			ids[i][j] = k
		}
	}
	parent := make([]int, len(all))
	for i := range parent {
		parent[i] = i
	}
	find := func(i int) int {
		for parent[i] != i {
			parent[i] = parent[parent[i]]
			i = parent[i]
		}
		return i
	}
	if tol <= 0 {
		return ids, all
	}
	grid := map[cell][]int{}
	at := func(v r3.Vec) cell {
		return cell{int64(math.Floor(v.X / tol)), int64(math.Floor(v.Y / tol)), int64(math.Floor(v.Z / tol))}
	}
	for i, v := range all {
		c := at(v)
		for dx := int64(-1); dx <= 1; dx++ {
			for dy := int64(-1); dy <= 1; dy++ {
				for dz := int64(-1); dz <= 1; dz++ {
					for _, j := range grid[cell{c[0] + dx, c[1] + dy, c[2] + dz}] {
						if r3.Norm(r3.Sub(v, all[j])) <= tol {
							parent[find(i)] = find(j)
						}
					}
				}
			}
		}
		grid[c] = append(grid[c], i)
	}
	for i := range ids {
		for j := range ids[i] {
			ids[i][j] = find(ids[i][j])
		}
	}
	return ids, all
}

// openEdges returns a description of an edge at which the mesh is not closed
// and consistently oriented, or "". The directed edges of all triangles have to
// cancel (up to collinear subdivision of an edge).
func openEdges(tris []r3.Triangle, tol, split float64) string {
	ids, pos := weld(tris, tol)
	net := map[[2]int]int{}
	add := func(a, b, k int) {
		if a == b {
			return
		}
		if a > b {
			a, b, k = b, a, -k
		}
		net[[2]int{a, b}] += k
		if net[[2]int{a, b}] == 0 {
			delete(net, [2]int{a, b})
		}
	}
	for _, t := range ids {
		add(t[0], t[1], 1)
		add(t[1], t[2], 1)
		add(t[2], t[0], 1)
	}
	if len(net) == 0 {
		return ""
	}
	// Split the remaining edges at remaining vertices that lie on them.
	verts := map[int]bool{}
	var edges [][2]int
	for e := range net {
		verts[e[0]], verts[e[1]] = true, true
		edges = append(edges, e)
	}
	if len(edges) < 4000 {
		for _, e := range edges {
			k := net[e]
			a, b := pos[e[0]], pos[e[1]]
			l := r3.Norm(r3.Sub(b, a))
			type on struct {
				t float64
				v int
			}
			var mid []on
			for v := range verts {
				if v == e[0] || v == e[1] {
					continue
				}
				t := r3.Dot(r3.Sub(pos[v], a), r3.Sub(b, a)) / (l * l)
				if t <= 0 || t >= 1 {
					continue
				}
				if r3.Norm(r3.Sub(pos[v], r3.Add(a, r3.Scale(t, r3.Sub(b, a))))) <= split {
					mid = append(mid, on{t, v})
				}
			}
			if len(mid) == 0 || k == 0 {
				continue
			}
			sort.Slice(mid, func(i, j int) bool { return mid[i].t < mid[j].t })
			add(e[0], e[1], -k)
			prev := e[0]
			for _, m := range mid {
				add(prev, m.v, k)
				prev = m.v
			}
			add(prev, e[1], k)
		}
	}
	if len(net) == 0 {
		return ""
	}
	var keys [][2]int
	for e := range net {
		keys = append(keys, e)
	}
	sort.Slice(keys, func(i, j int) bool {
		return keys[i][0] < keys[j][0] || keys[i][0] == keys[j][0] && keys[i][1] < keys[j][1]
	})
	e := keys[0]
	return fmt.Sprintf("%d unbalanced edges, e.g. %v-%v (net %d, length %v)", len(net), pos[e[0]], pos[e[1]], net[e], r3.Norm(r3.Sub(pos[e[0]], pos[e[1]])))
}

// meshWinding is the generalised winding number of the mesh around p.
func meshWinding(tris []r3.Triangle, p r3.Vec) float64 {
	s := 0.0
	for _, t := range tris {
		a, b, c := r3.Sub(t[0], p), r3.Sub(t[1], p), r3.Sub(t[2], p)
		la, lb, lc := r3.Norm(a), r3.Norm(b), r3.Norm(c)
		num := r3.Dot(a, r3.Cross(b, c))
		den := la*lb*lc + r3.Dot(a, b)*lc + r3.Dot(b, c)*la + r3.Dot(c, a)*lb
		s += 2 * math.Atan2(num, den)
	}
	return s / (4 * math.Pi)
}

func meshVolume(tris []r3.Triangle) float64 {
	s := 0.0
	for _, t := range tris {
		s += r3.Dot(t[0], r3.Cross(t[1], t[2])) / 6
	}
	return s
}

// drain reads everything from a renderer with the given sizes of buffer
// (repeating the last one).
func drain(r render.Renderer, sizes []int) (out []r3.Triangle, err error) {
	idle := 0
	for i := 0; ; i++ {
		k := sizes[len(sizes)-1]
		if i < len(sizes) {
			k = sizes[i]
		}
		buf := make([]r3.Triangle, k)
		n, err := r.ReadTriangles(buf)
		if n < 0 || n > k {
			return nil, fmt.Errorf("read %d triangles into a buffer of %d", n, k)
		}
		out = append(out, buf[:n]...)
		if err == io.EOF {
			return out, nil
		}
		if err != nil {
			return out, err
		}
		if n == 0 {
			idle++
		} else {
			idle = 0
		}
		if idle > 100000 {
			return nil, fmt.Errorf("no progress in %d calls", idle)
		}
	}
}

// countSDF is a wrapper that hides the concrete type of an SDF.
type opaqueSDF struct{ sdf.SDF3 }

// noiseSDF is a user defined solid: a random field with gradient at most one,
// inside a box. It produces every kind of sign pattern on a sampling grid.
type noiseSDF struct {
	f    []r3.Vec // frequencies
	ph   []float64
	l    float64
	half r3.Vec
	ofs  float64
}

func (s noiseSDF) Evaluate(p r3.Vec) float64 {
	v := s.ofs
	for i, f := range s.f {
		v += math.Sin(r3.Dot(f, p)+s.ph[i]) / s.l
	}
	return math.Max(v, rectSDF3(p, s.half))
}

func (s noiseSDF) Bounds() r3.Box { return boxAround3(r3.Vec{}, s.half) }

func (c *Case) noise(name string) noiseSDF {
	s := noiseSDF{half: v3(c.F(name+".hx", 0.5, 2), c.F(name+".hy", 0.5, 2), c.F(name+".hz", 0.5, 2))}
	k := c.I(name+".k", 1, 5)
	for i := 0; i < k; i++ {
		f := r3.Scale(c.LogF(fmt.Sprintf("%s.m%d", name, i), 1, 12), r3.Unit(c.direction(fmt.Sprintf("%s.f%d", name, i))))
		s.f = append(s.f, f)
		s.ph = append(s.ph, c.F(fmt.Sprintf("%s.p%d", name, i), 0, 7))
		s.l += r3.Norm(f)
	}
	s.ofs = c.F(name+".ofs", -0.3, 0.3) / s.l
	return s
}

// solid is something to render: a field that never overestimates the distance.
type solid struct {
	s     sdf.SDF3
	desc  string
	pts   []r3.Vec // query points, some deep inside
	sharp bool
}

func (c *Case) solid(name string) solid {
	switch k := c.Pick(name+".what", "tree", "tree", "tree", "prim", "noise"); k {
	case "noise":
		n := c.noise(name)
		so := solid{s: n, desc: fmt.Sprintf("noise%+v", n)}
		ps := c.Pts3("q")
		for i := 0; i < 80; i++ {
			so.pts = append(so.pts, ps.in(i, growBox3(n.Bounds(), 0.1, 0)))
		}
		c.Label("solid:noise")
		return so
	case "prim":
		n := c.prim3(name).translate(c.V3(name+".at", -3, 3))
		c.Label("solid:prim")
		return solid{s: n.s, desc: n.desc, pts: c.points3(n, 50)}
	}
	n := c.op3(name, c.I(name+".depth", 1, 2), ops3lip, ops3lip)
	if !n.lip || !n.val {
		n = c.prim3(name + ".sub")
	}
	c.Label("solid:tree")
	return solid{s: n.s, desc: n.desc, pts: c.points3(n, 50)}
}

func longest(b r3.Box) float64 {
	d := r3.Sub(b.Max, b.Min)
	return math.Max(d.X, math.Max(d.Y, d.Z))
}
