package harness

import (
	"fmt"
	"math"
	"sort"
	"testing"

	"github.com/soypat/sdf"
	"github.com/soypat/sdf/helpers/sdfexp"
	"gonum.org/v1/gonum/spatial/r3"
)

// --- C26 tetrahedral meshes --------------------------------------------------------

// tetraSolid draws a solid and a resolution that gives a few cells per side.
func (c *Case) tetraSolid(name string) (s sdf.SDF3, desc string, res float64, n *S3) {
	n = c.prim3(name)
	mid := false
	whole := c.I(name+".whole", 0, 3) == 0 // nodes in the faces of the box
	switch c.I(name+".what", 0, 4) {
	case 0:
		n = n.transformed2(c)
	case 2: // a gap with nodes midway
		if c.I(name+".box", 0, 2) > 0 {
			x := c.LogF(name+".bx", 0.5, 2)
			n = box3(x, x*c.F(name+".by", 0.7, 2), x*c.F(name+".bz", 0.7, 2), 0)
		}
		b := n.s.Bounds()
		d := r3.Sub(b.Max, b.Min)
		gap := d.X * []float64{0.25, 0.5, 0.125, c.F(name+".gap", 0.02, 0.6)}[c.I(name+".gapk", 0, 3)]
		x := b.Max.X + gap/2
		n.s = sdf.Union3D(sdf.Transform3D(n.s, sdf.Translate3D(r3.Vec{X: -x})), sdf.Transform3D(n.s, sdf.Translate3D(r3.Vec{X: x - b.Min.X - b.Max.X})))
		n.exact = false
		mid = c.I(name+".mid", 0, 3) > 0
		n.desc = fmt.Sprintf("two of %s at a gap of %v", n.desc, gap)
	case 1:
		n = c.op3on(name+".op", c.Pick(name+".k", "union", "diff", "intersect"), n, 1, ops3lip)
		if !n.lip || !n.val {
			c.Exclude("not a lower bound")
		}
	}
	b := n.s.Bounds()
	d := r3.Sub(b.Max, b.Min)
	lo := math.Min(d.X, math.Min(d.Y, d.Z))
	res = lo / c.F(name+".div", 2.05, 7)
	if whole || mid {
		side := d.X
		if !mid {
			side = []float64{d.X, d.Y, d.Z}[c.I(name+".side", 0, 2)]
		}
		res = side / math.Ceil(side/lo*float64(c.I(name+".n", 3, 8)))
	}
	if d.X*d.Y*d.Z/(res*res*res) > 6000 || math.Ceil(lo/res) < 3 {
		c.Exclude("mesh too large or too coarse")
	}
	return n.s, fmt.Sprintf("%s at resolution %v", n.desc, res), res, n
}

// hull returns the faces that belong to one tetrahedron, with the orientation
// that tetrahedron gives them, or what is wrong with the faces.
func hull(nodes []r3.Vec, tets [][4]int) (m []r3.Triangle, bad string) {
	type side struct {
		f   [3]int
		odd bool
	}
	open := map[[3]int]side{}
	done := map[[3]int]bool{}
	for i, t := range tets {
		for k := range t {
			if t[k] < 0 || t[k] >= len(nodes) {
				return nil, fmt.Sprintf("tetrahedron %d has node %d of %d", i, t[k], len(nodes))
			}
			for l := 0; l < k; l++ {
				if t[k] == t[l] {
					return nil, fmt.Sprintf("tetrahedron %d has node %d twice", i, t[k])
				}
			}
		}
		for _, f := range [][3]int{{t[1], t[2], t[3]}, {t[0], t[3], t[2]}, {t[0], t[1], t[3]}, {t[0], t[2], t[1]}} {
			key := f
			sort.Ints(key[:])
			odd := f != key && f != [3]int{key[1], key[2], key[0]} && f != [3]int{key[2], key[0], key[1]}
			o, ok := open[key]
			switch {
			case done[key]:
				return nil, fmt.Sprintf("face %v belongs to more than two tetrahedra", f)
			case !ok:
				open[key] = side{f, odd}
			case o.odd == odd:
				return nil, fmt.Sprintf("tetrahedra at face %v are on the same side of it", f)
			default:
				done[key] = true
				delete(open, key)
			}
		}
	}
	keys := make([][3]int, 0, len(open))
	for k := range open {
		keys = append(keys, k)
	}
	sort.Slice(keys, func(i, j int) bool {
		a, b := keys[i], keys[j]
		return a[0] < b[0] || a[0] == b[0] && (a[1] < b[1] || a[1] == b[1] && a[2] < b[2])
	})
	for _, k := range keys {
		f := open[k].f
		m = append(m, r3.Triangle{nodes[f[0]], nodes[f[1]], nodes[f[2]]})
	}
	return m, ""
}

// TestC26_Mesh: the tetrahedra fit together face to face and fill the solid.
func TestC26_Mesh(t *testing.T) {
	check(t, 120, "decided points inside and outside", func(c *Case) {
		s, desc, res, n := c.tetraSolid("s")
		c.Desc("%s", desc)
		nodes, tets := sdfexp.UniformTetrahedronMesh(res, s)
		m, bad := hull(nodes, tets)
		if bad != "" {
			c.Failf("%s: %s", desc, bad)
		}
		used := map[int]bool{}
		for _, t := range tets {
			for _, i := range t {
				used[i] = true
			}
		}
		for i := range used {
			p := nodes[i]
			if !finite(p.X) || !finite(p.Y) || !finite(p.Z) {
				c.Failf("%s: node %d at %v", desc, i, p)
			}
		}
		if n.exact {
			for _, t := range m {
				for _, p := range t {
					if d := s.Evaluate(p); !(math.Abs(d) < 1e-3*res) {
						c.Failf("%s: node %v of the hull at distance %v (cells of %v) from the surface", desc, p, d, res)
					}
				}
			}
		}
		whole, folded := 0.0, 0.0
		for _, t := range tets {
			a := nodes[t[0]]
			if v := r3.Dot(r3.Cross(r3.Sub(nodes[t[1]], a), r3.Sub(nodes[t[2]], a)), r3.Sub(nodes[t[3]], a)); v > 0 {
				folded += v
			} else {
				whole -= v
			}
		}
		folded = math.Min(whole, folded) / (whole + folded)
		in, out := false, false
		for _, p := range c.points3(n, 60) {
			d := n.s.Evaluate(p)
			if math.Abs(d) < 2*res {
				continue
			}
			w := math.Abs(meshWinding(m, p))
			want := 0.0
			if d < 0 {
				want = 1
			}
			in, out = in || d < 0, out || d > 0
			if !near(w, want, 0.02) {
				c.Failf("%s: point %v at distance %v (cells of %v) lies in %v of %d tetrahedra", desc, p, d, res, w, len(tets))
			}
		}
		if n.exact && in && folded > 0.05 {
			c.Failf("%s: %v of the volume of %d tetrahedra is folded over", desc, folded, len(tets))
		}
		if in && out {
			c.NonTrivial()
		}
	})
}
