package harness

import (
	"fmt"
	"math"
	"testing"

	"gonum.org/v1/gonum/spatial/r3"
)

// needles splits some triangles at a point close to one of their corners, so
// that the same surface has very thin triangles.
func (c *Case) needles(name string, m []r3.Triangle) []r3.Triangle {
	o := append([]r3.Triangle(nil), m...)
	for i, n := 0, c.I(name+".num", 1, 4); i < n; i++ {
		nm := fmt.Sprintf("%s.%d", name, i)
		k := c.I(nm+".tri", 0, len(m)-1)
		t := o[k]
		if j := c.I(nm+".corner", 0, 2); j > 0 {
			t = r3.Triangle{t[j], t[(j+1)%3], t[(j+2)%3]}
		}
		e, u := c.LogF(nm+".e", 1e-9, 1e-2), c.F(nm+".u", 0.2, 0.8)
		if l := slimness([]r3.Triangle{t}) * r3.Norm(r3.Sub(t[0], t[1])); e*l < 1e-8*absmax3(boxOf(m)) {
			continue // rounding would turn the thin triangles
		}
		q := r3.Add(t[0], r3.Scale(e, r3.Add(r3.Scale(u, r3.Sub(t[1], t[0])), r3.Scale(1-u, r3.Sub(t[2], t[0])))))
		o[k] = r3.Triangle{t[0], t[1], q}
		o = append(o, r3.Triangle{t[1], t[2], q}, r3.Triangle{t[2], t[0], q})
	}
	return o
}

// TestC25_Needles: splitting triangles into very thin ones does not change the
// surface, nor the side of it a point is on.
func TestC25_Needles(t *testing.T) {
	check(t, 300, ruleImport, func(c *Case) {
		base, desc := c.closedMesh("m")
		if len(base) < 4 || slimness(base) < 1e-3 {
			c.Exclude("sliver triangles")
		}
		m := c.needles("needle", base)
		if len(m) == len(base) {
			c.Skip("nothing to split")
		}
		im := importers[c.I("importer", 0, len(importers)-1)]
		c.Label(im.name)
		c.Desc("%s of %s split into %d", im.name, desc, len(m))
		s, err := im.f(append([]r3.Triangle(nil), m...), 0)
		if err != nil {
			c.Failf("%s of %s: %v", im.name, desc, err)
		}
		b := boxOf(base)
		size := diag3(b) + absmax3(b)
		in, out := false, false
		pts := c.meshPoints("p", base, 40)
		pts = append(pts, c.meshPoints("q", m[len(base):], 40)...)
		for _, p := range pts {
			d := meshDist(base, p)
			if d < 1e-6*size {
				continue
			}
			g := s.Evaluate(p)
			w := meshWinding(base, p)
			inside := w > 0.5
			in, out = in || inside, out || !inside
			if (g < 0) != inside || math.IsNaN(g) {
				c.Failf("%s of %s at %v: distance %v, the surface winds %v times around the point", im.name, desc, p, g, w)
			}
			if !near(math.Abs(g), d, 1e-7*size) {
				c.Failf("%s of %s at %v: distance %v, the nearest triangle is at %v", im.name, desc, p, g, d)
			}
		}
		if in && out {
			c.NonTrivial()
		}
	})
}
