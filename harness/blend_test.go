package harness

import (
	"fmt"
	"math"
	"testing"

	"github.com/soypat/sdf"
	"gonum.org/v1/gonum/spatial/r2"
	"gonum.org/v1/gonum/spatial/r3"
)

// blendRef is an independent statement of a blend function.
type blend struct {
	name string
	f    func(a, b float64) float64 // the library's
	ref  func(a, b float64) float64 // independent formula, nil if none
	k    float64
	pos  bool // defined for positive distances only
}

// foldBlend draws a blend for patterns: also the power blend, defined for
// positive distances only, and one a user could supply.
func (c *Case) foldBlend(name string) blend {
	switch c.Pick(name+".kind", "any", "any", "pow", "user") {
	case "pow":
		k := float64(c.I(name+".pk", 1, 8))
		return blend{"MinPow", sdf.MinPow(k), func(a, b float64) float64 {
			m, x := math.Min(a, b), math.Max(a, b)
			return m * math.Pow(1+math.Pow(m/x, k), -1/k)
		}, k, true}
	case "user":
		f := func(a, b float64) float64 { return math.Max(a*b/(a+b), 0.4*math.Min(a, b)) }
		return blend{"a*b/(a+b)", f, f, 0, true}
	}
	return c.minBlend(name)
}

func positive(vs []float64) bool {
	for _, v := range vs {
		if v < 1e-3 {
			return false
		}
	}
	return true
}

func polyRef(n int, k float64) func(a, b float64) float64 {
	return func(a, b float64) float64 {
		m := math.Min(a, b)
		d := math.Abs(a - b)
		if d >= k {
			return m
		}
		h := 1 - d/k
		p := 1.0
		for i := 0; i < n; i++ {
			p *= h
		}
		return m - k*p/(2*float64(n))
	}
}

func roundRef(k float64) func(a, b float64) float64 {
	return func(a, b float64) float64 {
		if a >= k || b >= k {
			return math.Min(a, b)
		}
		// Quarter circle of radius k around (k,k) in (a,b) space.
		return k - math.Hypot(k-a, k-b)
	}
}

func expRef(k float64) func(a, b float64) float64 {
	return func(a, b float64) float64 {
		m, d := math.Min(a, b), math.Abs(a-b)
		return m - math.Log1p(math.Exp(-k*d))/k
	}
}

// minBlend draws a blend usable on any distances.
func (c *Case) minBlend(name string) blend {
	k := c.LogF(name+".k", 0.01, 4)
	switch c.Pick(name, "poly0", "poly1", "poly2", "poly3", "polyN", "round", "exp") {
	case "poly0":
		return blend{"MinPoly(0)", sdf.MinPoly(0, k), func(a, b float64) float64 { return math.Min(math.Min(a, b), (a+b-k)/math.Sqrt2) }, k, false}
	case "poly1":
		return blend{"MinPoly(1)", sdf.MinPoly(1, k), math.Min, k, false}
	case "poly2":
		return blend{"MinPoly(2)", sdf.MinPoly(2, k), polyRef(2, k), k, false}
	case "poly3":
		return blend{"MinPoly(3)", sdf.MinPoly(3, k), polyRef(3, k), k, false}
	case "polyN":
		n := c.I(name+".n", 4, 9)
		return blend{fmt.Sprintf("MinPoly(%d)", n), sdf.MinPoly(n, k), polyRef(n, k), k, false}
	case "round":
		return blend{"MinRound", sdf.MinRound(k), roundRef(k), k, false}
	}
	k = c.LogF(name+".ke", 0.5, 200)
	return blend{"MinExp", sdf.MinExp(k), expRef(k), k, false}
}

func (c *Case) maxBlend(name string) blend {
	k := c.LogF(name+".k", 0.01, 4)
	n := c.Cnt(name+".n", 2, 8, 30)
	p := polyRef(n, k)
	return blend{fmt.Sprintf("MaxPoly(%d)", n), sdf.MaxPoly(n, k), func(a, b float64) float64 { return -p(-a, -b) }, k, false}
}

// TestC08_Laws: every blend equals its independent formula and obeys the laws
// a user relies on when joining shapes.
func TestC08_Laws(t *testing.T) {
	check(t, 2500, "a pair with |a-b| below the smoothing radius and one above", func(c *Case) {
		isMax := c.B("max")
		var bl blend
		if isMax {
			bl = c.maxBlend("blend")
		} else {
			bl = c.minBlend("blend")
		}
		ps := c.Pts2("q")
		c.Desc("%s k %v", bl.name, bl.k)
		c.Label(bl.name)
		within, out := 0, 0
		for i := 0; i < 60; i++ {
			u := ps.at(i)
			sc := math.Pow(10, float64(i%7)-2) * bl.k
			if bl.name == "MinExp" {
				sc = math.Pow(10, float64(i%7)-2) / bl.k
			}
			a, b := (2*u.X-1)*sc, (2*u.Y-1)*sc
			switch i % 10 {
			case 3:
				b = a
			case 5:
				b = a + bl.k
			case 7:
				a = 0
			}
			g, s, w := bl.f(a, b), bl.f(b, a), bl.ref(a, b)
			tol := 1e-9 * (1 + math.Abs(a) + math.Abs(b) + bl.k)
			if math.IsNaN(g) || math.Abs(g-w) > tol {
				c.Failf("%s(k=%v)(%v,%v) = %v, want %v", bl.name, bl.k, a, b, g, w)
			}
			if math.Abs(g-s) > tol {
				c.Failf("%s(k=%v) not symmetric: (%v,%v) = %v, swapped %v", bl.name, bl.k, a, b, g, s)
			}
			if !isMax && g > math.Min(a, b)+tol {
				c.Failf("%s(k=%v)(%v,%v) = %v above the minimum", bl.name, bl.k, a, b, g)
			}
			if isMax && g < math.Max(a, b)-tol {
				c.Failf("%s(k=%v)(%v,%v) = %v below the maximum", bl.name, bl.k, a, b, g)
			}
			// moving either shape closer never moves the blend away
			if e := bl.f(a-0.1*sc, b); e > g+tol {
				c.Failf("%s(k=%v) not monotone at (%v,%v)", bl.name, bl.k, a, b)
			}
			if math.Abs(a-b) < bl.k {
				within++
			} else {
				out++
			}
		}
		if within > 0 && out > 0 {
			c.NonTrivial()
		}
	})
}

// TestC08_Pow: for positive distances MinPow is a generalised mean: symmetric,
// between min*2^(-1/k) and min, and equal to (a^-k + b^-k)^(-1/k).
func TestC08_Pow(t *testing.T) {
	check(t, 500, "always", func(c *Case) {
		k := c.LogF("k", 1, 16)
		f := sdf.MinPow(k)
		a, b := c.LogF("a", 0.01, 20), c.LogF("b", 0.01, 20)
		g, m := f(a, b), math.Min(a, b)
		c.Desc("MinPow(%v)(%v,%v)", k, a, b)
		c.NonTrivial()
		w := m * math.Pow(1+math.Pow(m/math.Max(a, b), k), -1/k)
		if !near(g, w, 1e-9*(1+m)) {
			c.Failf("got %v, want %v", g, w)
		}
		if h := f(b, a); !near(g, h, 1e-9*(1+m)) {
			c.Failf("not symmetric: %v, %v", g, h)
		}
	})
}

func foldMin(f func(a, b float64) float64, vs []float64) float64 {
	d := vs[0]
	for _, v := range vs[1:] {
		d = f(d, v)
	}
	return d
}

const ruleBlend = "the blend changes the distance of some query point"

// TestC08_Fold2D: setting a blend on a union, pattern, difference or
// intersection makes the result that blend folded over every operand.
func TestC08_Fold2D(t *testing.T) {
	check(t, 2000, ruleBlend, func(c *Case) {
		kind := c.Pick("kind", "union", "array", "rotunion", "diff", "intersect")
		a := c.prim2("a").translate(c.V2("a.at", -2, 2))
		c.Label(kind)
		var s sdf.SDF2
		var vals func(p r2.Vec) []float64
		isMax := false
		n := a
		switch kind {
		case "union":
			k := c.Cnt("k", 2, 6, 20)
			ch := []*S2{a}
			objs := []sdf.SDF2{a.s}
			for i := 1; i < k; i++ {
				nm := fmt.Sprintf("u%d", i)
				ext := map[string]float64{"near": 1.5, "far": 8}[c.Pick(nm+".spread", "near", "far")]
				o := c.prim2(nm).translate(c.V2(nm+".at", -ext, ext))
				ch, objs = append(ch, o), append(objs, o.s)
			}
			n = union2(ch)
			s = sdf.Union2D(objs...)
			vals = func(p r2.Vec) (o []float64) {
				for _, x := range objs {
					o = append(o, x.Evaluate(p))
				}
				return
			}
		case "array":
			nx, ny := c.Cnt("nx", 1, 4, 9), c.Cnt("ny", 1, 4, 9)
			st := c.V2("step", -3, 3)
			s = sdf.Array2D(a.s, sdf.V2i{nx, ny}, st)
			vals = func(p r2.Vec) (o []float64) {
				for i := 0; i < nx; i++ {
					for j := 0; j < ny; j++ {
						o = append(o, a.s.Evaluate(v2(p.X-float64(i)*st.X, p.Y-float64(j)*st.Y)))
					}
				}
				return
			}
		case "rotunion":
			k := c.Cnt("k", 1, 7, 24)
			ang := c.turn("ang")
			s = sdf.RotateUnion2D(a.s, k, sdf.Rotate2D(ang))
			vals = func(p r2.Vec) (o []float64) {
				for i := 0; i < k; i++ {
					o = append(o, a.s.Evaluate(rot2(p, -float64(i)*ang)))
				}
				return
			}
		case "diff", "intersect":
			b := c.prim2("b").translate(c.V2("b.at", -2, 2))
			isMax = true
			sg := 1.0
			if kind == "diff" {
				s, sg = sdf.Difference2D(a.s, b.s), -1
			} else {
				s = sdf.Intersect2D(a.s, b.s)
			}
			vals = func(p r2.Vec) []float64 { return []float64{a.s.Evaluate(p), sg * b.s.Evaluate(p)} }
		}
		var bl blend
		if isMax {
			bl = c.maxBlend("blend")
			if c.I("replaced", 0, 3) == 0 {
				// a blend set before is replaced
				s.(sdf.SDF2Diff).SetMax(c.maxBlend("earlier").f)
				if c.B("plain") {
					bl = blend{"math.Max", math.Max, math.Max, 0, false}
				}
			}
			s.(sdf.SDF2Diff).SetMax(bl.f)
		} else {
			bl = c.foldBlend("blend")
			u, ok := s.(sdf.SDF2Union)
			if !ok {
				c.Exclude(kind + " has no blend setter")
			}
			if c.I("replaced", 0, 3) == 0 {
				u.SetMin(c.minBlend("earlier").f)
				if c.B("plain") {
					bl = blend{"math.Min", math.Min, math.Min, 0, false}
				}
			}
			u.SetMin(bl.f)
		}
		c.Desc("%s of %s, %s k %v", kind, n.desc, bl.name, bl.k)
		for _, p := range c.points2(n, 40) {
			vs := vals(p)
			if bl.pos && !positive(vs) {
				continue
			}
			w, plain := foldMin(bl.ref, vs), foldMin(math.Min, vs)
			if isMax {
				plain = math.Max(vs[0], vs[1])
			}
			g := s.Evaluate(p)
			if math.Abs(w-plain) > 1e-6 {
				c.NonTrivial()
			}
			if !near(g, w, 1e-7*(1+math.Abs(w)+math.Abs(plain))) {
				c.Failf("at %v: got %v, blend of %v is %v", p, g, vs, w)
			}
		}
	})
}

func TestC08_Fold3D(t *testing.T) {
	check(t, 2000, ruleBlend, func(c *Case) {
		kind := c.Pick("kind", "union", "array", "rotunion", "diff", "intersect")
		a := c.prim3("a").translate(c.V3("a.at", -2, 2))
		c.Label(kind)
		var s sdf.SDF3
		var vals func(p r3.Vec) []float64
		isMax := false
		n := a
		switch kind {
		case "union":
			k := c.Cnt("k", 2, 5, 14)
			objs := []sdf.SDF3{a.s}
			for i := 1; i < k; i++ {
				nm := fmt.Sprintf("u%d", i)
				o := c.prim3(nm).translate(c.V3(nm+".at", -2.5, 2.5))
				objs = append(objs, o.s)
			}
			s = sdf.Union3D(objs...)
			vals = func(p r3.Vec) (o []float64) {
				for _, x := range objs {
					o = append(o, x.Evaluate(p))
				}
				return
			}
		case "array":
			nx, ny, nz := c.Cnt("nx", 1, 3, 6), c.Cnt("ny", 1, 3, 6), c.Cnt("nz", 1, 3, 6)
			st := c.V3("step", -3, 3)
			s = sdf.Array3D(a.s, sdf.V3i{nx, ny, nz}, st)
			vals = func(p r3.Vec) (o []float64) {
				for i := 0; i < nx; i++ {
					for j := 0; j < ny; j++ {
						for k := 0; k < nz; k++ {
							o = append(o, a.s.Evaluate(v3(p.X-float64(i)*st.X, p.Y-float64(j)*st.Y, p.Z-float64(k)*st.Z)))
						}
					}
				}
				return
			}
		case "rotunion":
			k := c.Cnt("k", 1, 7, 24)
			ang := c.turn("ang")
			ax := c.direction("axis")
			s = sdf.RotateUnion3D(a.s, k, sdf.Rotate3D(ax, ang))
			vals = func(p r3.Vec) (o []float64) {
				for i := 0; i < k; i++ {
					o = append(o, a.s.Evaluate(rotAxis(p, ax, -float64(i)*ang)))
				}
				return
			}
		case "diff", "intersect":
			b := c.prim3("b").translate(c.V3("b.at", -2, 2))
			isMax = true
			sg := 1.0
			if kind == "diff" {
				s, sg = sdf.Difference3D(a.s, b.s), -1
			} else {
				s = sdf.Intersect3D(a.s, b.s)
			}
			vals = func(p r3.Vec) []float64 { return []float64{a.s.Evaluate(p), sg * b.s.Evaluate(p)} }
		}
		var bl blend
		if isMax {
			bl = c.maxBlend("blend")
			if c.I("replaced", 0, 3) == 0 {
				// a blend set before is replaced
				s.(sdf.SDF3Diff).SetMax(c.maxBlend("earlier").f)
				if c.B("plain") {
					bl = blend{"math.Max", math.Max, math.Max, 0, false}
				}
			}
			s.(sdf.SDF3Diff).SetMax(bl.f)
		} else {
			bl = c.foldBlend("blend")
			if c.I("replaced", 0, 3) == 0 {
				s.(sdf.SDF3Union).SetMin(c.minBlend("earlier").f)
				if c.B("plain") {
					bl = blend{"math.Min", math.Min, math.Min, 0, false}
				}
			}
			s.(sdf.SDF3Union).SetMin(bl.f)
		}
		c.Desc("%s of %s, %s k %v", kind, n.desc, bl.name, bl.k)
		for _, p := range c.points3(n, 40) {
			vs := vals(p)
			if bl.pos && !positive(vs) {
				continue
			}
			w, plain := foldMin(bl.ref, vs), foldMin(math.Min, vs)
			if isMax {
				plain = math.Max(vs[0], vs[1])
			}
			g := s.Evaluate(p)
			if math.Abs(w-plain) > 1e-6 {
				c.NonTrivial()
			}
			if !near(g, w, 1e-7*(1+math.Abs(w)+math.Abs(plain))) {
				c.Failf("at %v: got %v, blend of %v is %v", p, g, vs, w)
			}
		}
	})
}

// TestC08_Nested3D: an object with its own blend keeps that blend wherever it is
// used: as operand of another operation (blended or not), and below
// transforms, offsets, shells, cuts and patterns.
func TestC08_Nested3D(t *testing.T) {
	check(t, 1000, ruleBlend, func(c *Case) {
		type obj struct {
			s sdf.SDF3
			f func(p r3.Vec) float64
		}
		n := &S3{}
		leaf := func(nm string) obj {
			a := c.prim3(nm).translate(c.V3(nm+".at", -1.5, 1.5))
			if n.s == nil {
				n = a
			}
			return obj{a.s, a.s.Evaluate}
		}
		plain := true
		var make func(nm string, depth int) obj
		make = func(nm string, depth int) obj {
			if depth == 0 {
				return leaf(nm)
			}
			a := make(nm+"a", depth-1)
			kind := c.Pick(nm+".kind", "union", "union", "diff", "intersect", "array", "shell", "offset", "cut", "scale")
			switch kind {
			case "union", "diff", "intersect":
				b := make(nm+"b", c.I(nm+".bd", 0, depth-1))
				own := c.I(nm+".own", 0, 2) > 0
				if kind == "union" {
					u := sdf.Union3D(a.s, b.s)
					f := math.Min
					if own {
						bl := c.minBlend(nm + ".blend")
						u.SetMin(bl.f)
						f, plain = bl.ref, false
					}
					return obj{u, func(p r3.Vec) float64 { return f(a.f(p), b.f(p)) }}
				}
				u, sg := sdf.Intersect3D(a.s, b.s), 1.0
				if kind == "diff" {
					u, sg = sdf.Difference3D(a.s, b.s), -1
				}
				f := math.Max
				if own {
					bl := c.maxBlend(nm + ".blend")
					u.SetMax(bl.f)
					f, plain = bl.ref, false
				}
				return obj{u, func(p r3.Vec) float64 { return f(a.f(p), sg*b.f(p)) }}
			case "array":
				k, st := c.I(nm+".num", 1, 3), c.V3(nm+".step", -2, 2)
				u := sdf.Array3D(a.s, sdf.V3i{k, 1, 1}, st)
				f := math.Min
				if c.B(nm + ".own") {
					bl := c.minBlend(nm + ".blend")
					u.SetMin(bl.f)
					f, plain = bl.ref, false
				}
				return obj{u, func(p r3.Vec) float64 {
					d := a.f(p)
					for i := 1; i < k; i++ {
						d = f(d, a.f(v3(p.X-float64(i)*st.X, p.Y, p.Z)))
					}
					return d
				}}
			case "shell":
				th := c.LogF(nm+".th", 0.05, 1)
				return obj{sdf.Shell3D(a.s, th), func(p r3.Vec) float64 { return math.Abs(a.f(p)) - th/2 }}
			case "offset":
				o := c.F(nm+".off", -0.5, 0.5)
				return obj{sdf.Offset3D(a.s, o), func(p r3.Vec) float64 { return a.f(p) - o }}
			case "cut":
				pt, nr := c.V3(nm+".pt", -1, 1), r3.Unit(c.direction(nm+".n"))
				return obj{sdf.Cut3D(a.s, pt, nr), func(p r3.Vec) float64 { return math.Max(a.f(p), -r3.Dot(nr, r3.Sub(p, pt))) }}
			}
			k := c.LogF(nm+".k", 0.3, 3)
			return obj{sdf.ScaleUniform3D(a.s, k), func(p r3.Vec) float64 { return k * a.f(r3.Scale(1/k, p)) }}
		}
		o := make("o", c.I("depth", 1, 3))
		c.Desc("%s and others", n.desc)
		for _, p := range c.points3(n, 40) {
			g, w := o.s.Evaluate(p), o.f(p)
			if !plain {
				c.NonTrivial()
			}
			if !near(g, w, 1e-7*(1+math.Abs(w)+r3.Norm(p))) {
				c.Failf("at %v: got %v, want %v", p, g, w)
			}
		}
	})
}

func TestC08_Nested2D(t *testing.T) {
	check(t, 1000, ruleBlend, func(c *Case) {
		type obj struct {
			s sdf.SDF2
			f func(p r2.Vec) float64
		}
		n := &S2{}
		plain := true
		var make func(nm string, depth int) obj
		make = func(nm string, depth int) obj {
			if depth == 0 {
				a := c.prim2(nm).translate(c.V2(nm+".at", -1.5, 1.5))
				if n.s == nil {
					n = a
				}
				return obj{a.s, a.s.Evaluate}
			}
			a := make(nm+"a", depth-1)
			kind := c.Pick(nm+".kind", "union", "union", "diff", "intersect", "array", "offset", "cut", "scale")
			switch kind {
			case "union", "diff", "intersect":
				b := make(nm+"b", c.I(nm+".bd", 0, depth-1))
				own := c.I(nm+".own", 0, 2) > 0
				if kind == "union" {
					u := sdf.Union2D(a.s, b.s)
					// Without its own blend a union skips operands whose bounds are
					// far; a blend may reach beyond the bounds.
					bl := c.minBlend(nm + ".blend")
					u.SetMin(bl.f)
					plain = false
					return obj{u, func(p r2.Vec) float64 { return bl.ref(a.f(p), b.f(p)) }}
				}
				u, sg := sdf.Intersect2D(a.s, b.s), 1.0
				if kind == "diff" {
					u, sg = sdf.Difference2D(a.s, b.s), -1
				}
				f := math.Max
				if own {
					bl := c.maxBlend(nm + ".blend")
					u.SetMax(bl.f)
					f, plain = bl.ref, false
				}
				return obj{u, func(p r2.Vec) float64 { return f(a.f(p), sg*b.f(p)) }}
			case "array":
				k, st := c.I(nm+".num", 1, 3), c.V2(nm+".step", -2, 2)
				u := sdf.Array2D(a.s, sdf.V2i{k, 1}, st)
				f := math.Min
				if c.B(nm + ".own") {
					bl := c.minBlend(nm + ".blend")
					u.SetMin(bl.f)
					f, plain = bl.ref, false
				}
				return obj{u, func(p r2.Vec) float64 {
					d := a.f(p)
					for i := 1; i < k; i++ {
						d = f(d, a.f(v2(p.X-float64(i)*st.X, p.Y)))
					}
					return d
				}}
			case "offset":
				o := c.F(nm+".off", -0.5, 0.5)
				return obj{sdf.Offset2D(a.s, o), func(p r2.Vec) float64 { return a.f(p) - o }}
			case "cut":
				pt, l := c.V2(nm+".pt", -1, 1), rot2(v2(1, 0), c.angle(nm+".n"))
				return obj{sdf.Cut2D(a.s, pt, l), func(p r2.Vec) float64 {
					return math.Max(a.f(p), r2.Dot(v2(-l.Y, l.X), r2.Sub(p, pt)))
				}}
			}
			k := c.LogF(nm+".k", 0.3, 3)
			return obj{sdf.ScaleUniform2D(a.s, k), func(p r2.Vec) float64 { return k * a.f(r2.Scale(1/k, p)) }}
		}
		o := make("o", c.I("depth", 1, 3))
		c.Desc("%s and others", n.desc)
		for _, p := range c.points2(n, 40) {
			g, w := o.s.Evaluate(p), o.f(p)
			if !plain {
				c.NonTrivial()
			}
			if !near(g, w, 1e-7*(1+math.Abs(w)+r2.Norm(p))) {
				c.Failf("at %v: got %v, want %v", p, g, w)
			}
		}
	})
}
