package harness

import (
	"fmt"
	"math"

	"github.com/soypat/sdf"
	"github.com/soypat/sdf/form2/must2"
	"gonum.org/v1/gonum/spatial/r2"
	"gonum.org/v1/gonum/spatial/r3"
)

// S2 is a generated 2D solid: the SDF under test plus an independent reference.
type S2 struct {
	s    sdf.SDF2
	ref  func(p r2.Vec) float64 // reference field; its sign is set membership
	rb   r2.Box                 // loose reference bounding box
	w    r2.Vec                 // witness: a point inside
	wd   float64                // its reference depth (>0)
	desc string
	// exact: the reference is the exact signed distance. lip: it never exceeds
	// the distance to the surface. val: the SDF's value equals the reference.
	exact, lip, val bool
	symX            bool // mirror symmetric about the x axis
	// sub: for every t>=0 {ref < t} lies inside the SDF's bounds grown by t.
	sub bool
}

func (n *S2) size() float64 { return diag2(n.rb) }

// tol is the numeric slack at p.
func (n *S2) tol(p r2.Vec) float64 {
	return 1e-9 * (1 + n.size() + absmax2(n.rb) + math.Abs(p.X) + math.Abs(p.Y))
}

// settle finds a witness; when the solid looks empty it returns alt instead.
func (n *S2) settle(alt *S2) *S2 {
	best := math.Inf(1)
	try := func(p r2.Vec) {
		if d := n.ref(p); d < best {
			best, n.w = d, p
		}
	}
	if alt != nil {
		try(alt.w)
		sz := alt.wd * 4
		for i := 0; i < 24; i++ {
			try(pts2{}.in(i, r2.Box{Min: r2.Sub(alt.w, v2(sz, sz)), Max: r2.Add(alt.w, v2(sz, sz))}))
		}
	}
	for i := 0; i < 160; i++ {
		try(pts2{}.in(i, n.rb))
	}
	n.wd = -best
	if n.wd < 1e-3*(1e-9+n.size()) {
		return alt
	}
	return n
}

func hull2(a, b r2.Box) r2.Box {
	return r2.Box{Min: v2(math.Min(a.Min.X, b.Min.X), math.Min(a.Min.Y, b.Min.Y)), Max: v2(math.Max(a.Max.X, b.Max.X), math.Max(a.Max.Y, b.Max.Y))}
}

func mapBox2(b r2.Box, f func(r2.Vec) r2.Vec) r2.Box {
	o := r2.Box{Min: v2(math.Inf(1), math.Inf(1)), Max: v2(math.Inf(-1), math.Inf(-1))}
	for i := 0; i < 4; i++ {
		p := b.Min
		if i&1 != 0 {
			p.X = b.Max.X
		}
		if i&2 != 0 {
			p.Y = b.Max.Y
		}
		q := f(p)
		o = hull2(o, r2.Box{Min: q, Max: q})
	}
	return o
}

func radius2(b r2.Box) float64 {
	r := 0.0
	for _, x := range []float64{b.Min.X, b.Max.X} {
		for _, y := range []float64{b.Min.Y, b.Max.Y} {
			r = math.Max(r, math.Hypot(x, y))
		}
	}
	return r
}

// --- primitives ------------------------------------------------------------

func circle2(r float64) *S2 {
	return &S2{s: must2.Circle(r), ref: func(p r2.Vec) float64 { return math.Hypot(p.X, p.Y) - r },
		rb: r2.Box{Min: v2(-r, -r), Max: v2(r, r)}, w: v2(0, 0), wd: r, desc: fmt.Sprintf("circle(%v)", r), exact: true, lip: true, val: true, symX: true, sub: true}
}

func box2(w, h, round float64) *S2 {
	return &S2{s: must2.Box(v2(w, h), round), ref: func(p r2.Vec) float64 { return rectSDF2(p, v2(w/2-round, h/2-round)) - round },
		rb: r2.Box{Min: v2(-w/2, -h/2), Max: v2(w/2, h/2)}, w: v2(0, 0), wd: math.Min(w, h) / 2, desc: fmt.Sprintf("box2(%v,%v round %v)", w, h, round), exact: true, lip: true, val: true, symX: true, sub: true}
}

func line2(l, round float64) *S2 {
	return &S2{s: must2.Line(l, round), ref: func(p r2.Vec) float64 { return segDist(p, v2(-l/2, 0), v2(l/2, 0)) - round },
		rb: r2.Box{Min: v2(-l/2-round, -round), Max: v2(l/2+round, round)}, w: v2(0, 0), wd: round, desc: fmt.Sprintf("line(%v,%v)", l, round), exact: true, lip: true, val: true, symX: true, sub: true}
}

func poly2(v []r2.Vec) *S2 {
	vs := append([]r2.Vec(nil), v...)
	rb := r2.Box{Min: vs[0], Max: vs[0]}
	for _, p := range vs {
		rb = hull2(rb, r2.Box{Min: p, Max: p})
	}
	n := &S2{s: must2.Polygon(append([]r2.Vec(nil), v...)), ref: func(p r2.Vec) float64 { return polySDF(p, vs) }, rb: rb, desc: fmt.Sprintf("poly%v", vs), exact: true, lip: true, val: true, sub: true}
	return n.settle(nil)
}

// starPoly draws a star shaped polygon around ctr.
func (c *Case) starPoly(name string, n int, rmin, rmax float64, ctr r2.Vec) []r2.Vec {
	v := make([]r2.Vec, n)
	a0 := c.F(name+".a0", 0, 2*math.Pi)
	for i := range v {
		r := c.F(fmt.Sprintf("%s.r%d", name, i), rmin, rmax)
		a := a0 + 2*math.Pi*(float64(i)+c.F(fmt.Sprintf("%s.da%d", name, i), 0, 0.6))/float64(n)
		v[i] = r2.Add(ctr, v2(r*math.Cos(a), r*math.Sin(a)))
	}
	if c.B(name + ".rev") {
		for i, j := 0, len(v)-1; i < j; i, j = i+1, j-1 {
			v[i], v[j] = v[j], v[i]
		}
	}
	return v
}

func (c *Case) prim2(name string) *S2 {
	switch c.Pick(name, "circle", "box", "rbox", "line", "nagon", "poly", "tri") {
	case "circle":
		return circle2(c.Len(name+".r", 0.2, 4))
	case "box":
		return box2(c.Len(name+".w", 0.2, 6), c.Len(name+".h", 0.2, 6), 0)
	case "rbox":
		w, h := c.Len(name+".w", 0.2, 6), c.Len(name+".h", 0.2, 6)
		return box2(w, h, c.F(name+".round", 0, 0.5)*math.Min(w, h))
	case "line":
		return line2(c.Len(name+".l", 0.2, 6), c.Len(name+".round", 0.1, 2))
	case "nagon":
		return poly2(must2.Nagon(c.Cnt(name+".n", 3, 9, 60), c.Len(name+".r", 0.3, 4)))
	case "tri":
		v := c.starPoly(name, 3, 0.5*c.unit(), 3*c.unit(), v2(0, 0))
		if n := poly2(v); n != nil {
			return n
		}
	case "poly":
		if n := poly2(c.starPoly(name, c.Cnt(name+".n", 4, 9, 40), 0.4*c.unit(), 4*c.unit(), c.Pos2(name+".ctr", -2, 2))); n != nil {
			return n
		}
	}
	return circle2(1)
}

// --- transforms ------------------------------------------------------------

type step2 struct {
	kind string
	v    r2.Vec
	a    float64
}

func (s step2) String() string {
	switch s.kind {
	case "rot":
		return fmt.Sprintf("rot(%v)", s.a)
	case "tr", "scale":
		return fmt.Sprintf("%s(%v,%v)", s.kind, s.v.X, s.v.Y)
	}
	return s.kind
}

func (s step2) fwd(p r2.Vec) r2.Vec {
	switch s.kind {
	case "tr":
		return v2(p.X+s.v.X, p.Y+s.v.Y)
	case "rot":
		return rot2(p, s.a)
	case "mx":
		return v2(p.X, -p.Y)
	case "my":
		return v2(-p.X, p.Y)
	case "scale":
		return v2(p.X*s.v.X, p.Y*s.v.Y)
	}
	panic(s.kind)
}

func (s step2) inv(p r2.Vec) r2.Vec {
	switch s.kind {
	case "tr":
		return v2(p.X-s.v.X, p.Y-s.v.Y)
	case "rot":
		return rot2(p, -s.a)
	case "scale":
		return v2(p.X/s.v.X, p.Y/s.v.Y)
	}
	return s.fwd(p)
}

type steps2 []step2

func (st steps2) fwd(p r2.Vec) r2.Vec {
	for _, s := range st {
		p = s.fwd(p)
	}
	return p
}

func (st steps2) inv(p r2.Vec) r2.Vec {
	for i := len(st) - 1; i >= 0; i-- {
		p = st[i].inv(p)
	}
	return p
}

func (st steps2) rigid() bool {
	for _, s := range st {
		if s.kind == "scale" {
			return false
		}
	}
	return true
}

// specialAngle draws an angle, often a multiple of 45 degrees.
func (c *Case) angle(name string) float64 {
	if c.B(name + ".special") {
		return float64(c.I(name+".k", -8, 8)) * math.Pi / 4
	}
	if c.I(name+".turns", 0, 9) == 0 {
		return c.F(name, -40, 40)
	}
	return c.F(name, -2*math.Pi, 2*math.Pi)
}

// turn draws an angle of up to a full turn either way.
func (c *Case) turn(name string) float64 {
	if c.B(name + ".special") {
		return float64(c.I(name+".k", -8, 8)) * math.Pi / 4
	}
	return c.F(name, -2*math.Pi, 2*math.Pi)
}

func (c *Case) steps2(name string, scale bool) steps2 {
	n, ratio := c.Cnt(name+".n", 1, 3, 7), 1.0
	st := make(steps2, n)
	for i := range st {
		nm := fmt.Sprintf("%s.%d", name, i)
		kinds := []string{"tr", "rot", "mx", "my"}
		if scale {
			kinds = append(kinds, "scale")
		}
		k := c.Pick(nm, kinds...)
		st[i].kind = k
		switch k {
		case "tr":
			st[i].v = c.Pos2(nm+".v", -4, 4)
		case "rot":
			st[i].a = c.angle(nm + ".a")
		case "scale":
			st[i].v = v2(c.Fac(nm+".sx", 0.4, 2.5), c.Fac(nm+".sy", 0.4, 2.5))
			switch c.I(nm+".how", 0, 5) {
			case 0: // keeps the area
				st[i].v.Y = 1 / st[i].v.X
			case 1: // the same along both axes
				st[i].v.Y = st[i].v.X
			case 2: // along one axis
				st[i].v.Y = 1
			}
			// Stretching too much in one direction loses the digits in the other.
			v := st[i].v
			hi, lo := math.Max(v.X, v.Y), math.Min(v.X, v.Y)
			if ratio*hi/lo > 1e3 {
				st[i].v = v2(v.X, v.X)
			} else {
				ratio *= hi / lo
			}
			if c.B(nm + ".neg") {
				st[i].v.X = -st[i].v.X
			}
		}
	}
	return st
}

// matrix2 composes the library's matrices onto m (first step innermost).
func matrix2[M interface{ Mul(M) M }](m M, st steps2) M {
	for _, x := range st {
		var k any = sdf.Translate2D(x.v)
		switch x.kind {
		case "rot":
			k = sdf.Rotate2D(x.a)
		case "mx":
			k = sdf.MirrorX()
		case "my":
			k = sdf.MirrorY()
		case "scale":
			k = sdf.Scale2D(x.v)
		}
		m = k.(M).Mul(m)
	}
	return m
}

func applySteps2(s sdf.SDF2, st steps2) sdf.SDF2 {
	return sdf.Transform2D(s, matrix2(sdf.Translate2D(r2.Vec{}), st))
}

func (n *S2) transformed(s sdf.SDF2, st steps2) *S2 {
	ch := *n
	rigid := st.rigid()
	o := &S2{s: s, ref: func(p r2.Vec) float64 { return ch.ref(st.inv(p)) }, rb: mapBox2(ch.rb, st.fwd), w: st.fwd(ch.w), wd: ch.wd,
		desc: fmt.Sprintf("T%v(%s)", []step2(st), ch.desc), exact: ch.exact && rigid, lip: ch.lip && rigid, val: ch.val, sub: ch.exact && rigid}
	return o
}

func (n *S2) translate(v r2.Vec) *S2 {
	st := steps2{{kind: "tr", v: v}}
	o := n.transformed(sdf.Transform2D(n.s, sdf.Translate2D(v)), st)
	o.sub = n.sub
	return o
}

// --- operations ------------------------------------------------------------

var ops2bool = []string{"union", "diff", "intersect", "cut"}
var ops2xform = []string{"xform", "scaleU", "center", "centerScale", "scaleN"}
var ops2pattern = []string{"array", "rotUnion", "rotCopy", "lineOf", "multi"}
var ops2other = []string{"offset", "elongate"}

func cat(a ...[]string) (o []string) {
	for _, x := range a {
		o = append(o, x...)
	}
	return
}

var ops2all = cat(ops2bool, ops2xform, ops2pattern, ops2other)

// tree2 draws a 2D tree of at most the given depth.
func (c *Case) tree2(name string, depth int) *S2 {
	if depth <= 0 || c.I(name+".leaf", 0, 3) == 0 {
		return c.prim2(name).opaque(c)
	}
	return c.op2(name, depth, ops2all).opaque(c)
}

// opaque replaces the reference by the solid's own field in iso mode.
func (n *S2) opaque(c *Case) *S2 {
	if !c.iso {
		return n
	}
	o := *n
	o.ref, o.val = n.s.Evaluate, true
	return &o
}

// near2 draws a solid whose witness is placed near a's.
func (c *Case) near2(name string, a *S2, depth int) *S2 {
	b := c.tree2(name, depth)
	k := 0.7 * math.Min(a.size(), b.size())
	off := c.V2(name+".off", -k, k)
	return b.translate(r2.Add(r2.Sub(a.w, b.w), off)).opaque(c)
}

func (c *Case) op2(name string, depth int, ops []string) *S2 {
	op := c.Pick(name+".op", ops...)
	c.Label("op2:" + op)
	a := c.tree2(name+"a", depth-1)
	n := c.op2on(name, op, a, depth)
	if !finite(n.rb.Min.X + n.rb.Max.X + n.rb.Min.Y + n.rb.Max.Y) {
		return a
	}
	return n
}

func (c *Case) op2on(name, op string, a *S2, depth int) *S2 {
	switch op {
	case "union":
		k := c.many(name+".k", 2, 4, 14, depth)
		ch := []*S2{a}
		for i := 1; i < k; i++ {
			nm := fmt.Sprintf("%s.u%d", name, i)
			if c.B(nm + ".far") {
				ch = append(ch, c.tree2(nm, depth-1).translate(c.Pos2(nm+".at", -8, 8)).opaque(c))
			} else {
				ch = append(ch, c.near2(nm, a, depth-1))
			}
		}
		return union2(ch)
	case "diff":
		b := c.near2(name+"b", a, depth-1)
		return (&S2{s: sdf.Difference2D(a.s, b.s), ref: func(p r2.Vec) float64 { return math.Max(a.ref(p), -b.ref(p)) }, rb: a.rb,
			desc: fmt.Sprintf("diff(%s, %s)", a.desc, b.desc), lip: a.lip && b.lip, val: a.val && b.val, sub: a.sub}).settle(a)
	case "intersect":
		b := c.near2(name+"b", a, depth-1)
		return (&S2{s: sdf.Intersect2D(a.s, b.s), ref: func(p r2.Vec) float64 { return math.Max(a.ref(p), b.ref(p)) }, rb: a.rb,
			desc: fmt.Sprintf("intersect(%s, %s)", a.desc, b.desc), lip: a.lip && b.lip, val: a.val && b.val, sub: a.sub}).settle(a)
	case "cut":
		pt := r2.Add(a.w, c.V2(name+".pt", -a.wd, a.wd))
		ang := c.angle(name + ".dir")
		l := c.magnitude(name)
		dir := v2(l*math.Cos(ang), l*math.Sin(ang))
		return (&S2{s: sdf.Cut2D(a.s, pt, dir), ref: func(p r2.Vec) float64 {
			// right of the line: cross(dir, p-pt) < 0
			q := r2.Sub(p, pt)
			return math.Max(a.ref(p), (dir.X*q.Y-dir.Y*q.X)/l)
		}, rb: a.rb, desc: fmt.Sprintf("cut(%s at %v dir %v)", a.desc, pt, dir), lip: a.lip, val: a.val, sub: a.sub}).settle(a)
	case "xform":
		st := c.steps2(name+".st", false)
		return a.transformed(applySteps2(a.s, st), st)
	case "scaleN":
		st := c.steps2(name+".st", true)
		return a.transformed(applySteps2(a.s, st), st)
	case "scaleU":
		k := c.Fac(name+".k", 0.3, 3)
		return &S2{s: sdf.ScaleUniform2D(a.s, k), ref: func(p r2.Vec) float64 { return k * a.ref(v2(p.X/k, p.Y/k)) },
			rb: r2.Box{Min: r2.Scale(k, a.rb.Min), Max: r2.Scale(k, a.rb.Max)}, w: r2.Scale(k, a.w), wd: k * a.wd,
			desc: fmt.Sprintf("scaleU(%v, %s)", k, a.desc), exact: a.exact, lip: a.lip, val: a.val, symX: a.symX, sub: a.sub}
	case "center", "centerScale":
		bb := a.s.Bounds()
		ctr := r2.Scale(0.5, r2.Add(bb.Min, bb.Max))
		k := 1.0
		var s sdf.SDF2
		if op == "centerScale" {
			k = c.Fac(name+".k", 0.3, 3)
			s = sdf.CenterAndScale2D(a.s, k)
		} else {
			s = sdf.Center2D(a.s)
		}
		f := func(p r2.Vec) r2.Vec { return r2.Scale(k, r2.Sub(p, ctr)) }
		return &S2{s: s, ref: func(p r2.Vec) float64 { return k * a.ref(r2.Add(v2(p.X/k, p.Y/k), ctr)) },
			rb: r2.Box{Min: f(a.rb.Min), Max: f(a.rb.Max)}, w: f(a.w), wd: k * a.wd, desc: fmt.Sprintf("%s(%v, %s)", op, k, a.desc), exact: a.exact, lip: a.lip, val: a.val, sub: a.sub}
	case "array":
		nx, ny := c.many(name+".nx", 1, 3, 8, depth), c.many(name+".ny", 1, 3, 8, depth)
		st := c.Pos2(name+".step", -5, 5)
		if depth <= 2 && c.I(name+".row", 0, 5) == 0 {
			// a long row of copies that may overlap over many steps
			if c.B(name + ".aside") {
				a = a.translate(r2.Scale(a.size(), c.V2(name+".off", -1, 1))).opaque(c)
			}
			nx, ny = c.I(name+".long", 6, 60), c.I(name+".few", 1, 2)
			st = r2.Scale(c.Pick2(name+".tight", 0.02, 0.1, 0.4)*a.size()/5, st)
			if c.B(name + ".column") {
				nx, ny = ny, nx
			}
		}
		var cp []func(r2.Vec) float64
		rb := a.rb
		for i := 0; i < nx; i++ {
			for j := 0; j < ny; j++ {
				o := v2(float64(i)*st.X, float64(j)*st.Y)
				cp = append(cp, func(p r2.Vec) float64 { return a.ref(r2.Sub(p, o)) })
				rb = hull2(rb, r2.Box{Min: r2.Add(a.rb.Min, o), Max: r2.Add(a.rb.Max, o)})
			}
		}
		return &S2{s: sdf.Array2D(a.s, sdf.V2i{nx, ny}, st), ref: minOf2(cp), rb: rb, w: a.w, wd: a.wd,
			desc: fmt.Sprintf("array(%dx%d step %v, %s)", nx, ny, st, a.desc), lip: a.lip, val: a.val, sub: a.sub}
	case "rotUnion":
		k := c.many(name+".num", 1, 6, 24, depth)
		st := c.steps2(name+".st", false)
		var cp []func(r2.Vec) float64
		rb := a.rb
		var acc steps2
		for i := 0; i < k; i++ {
			ac := append(steps2(nil), acc...)
			cp = append(cp, func(p r2.Vec) float64 { return a.ref(ac.inv(p)) })
			rb = hull2(rb, mapBox2(a.rb, ac.fwd))
			acc = append(acc, st...)
		}
		m := sdf.Translate2D(v2(0, 0))
		for _, x := range st {
			q := sdf.Translate2D(x.v)
			switch x.kind {
			case "rot":
				q = sdf.Rotate2D(x.a)
			case "mx":
				q = sdf.MirrorX()
			case "my":
				q = sdf.MirrorY()
			}
			m = q.Mul(m)
		}
		return &S2{s: sdf.RotateUnion2D(a.s, k, m), ref: minOf2(cp), rb: rb, w: a.w, wd: a.wd,
			desc: fmt.Sprintf("rotUnion(%d, %v, %s)", k, st, a.desc), lip: a.lip, val: a.val}
	case "rotCopy":
		k := c.many(name+".num", 1, 7, 40, 1)
		sym := a.symX
		b := a
		if k > 1 {
			// place the child inside its sector: centre it at (d,0)
			half := diag2(a.rb)/2 + math.Abs(a.rb.Max.Y+a.rb.Min.Y)/2 + 1e-9
			ctr := r2.Scale(0.5, r2.Add(a.rb.Min, a.rb.Max))
			if sym {
				ctr.Y = 0
			}
			d := half*(1+c.F(name+".gap", 0.01, 1))/math.Sin(math.Min(math.Pi/float64(k), math.Pi/2)) + 0
			b = a.translate(v2(d-ctr.X, -ctr.Y)).opaque(c)
			b.symX = sym
		}
		var cp []func(r2.Vec) float64
		for i := 0; i < k; i++ {
			an := 2 * math.Pi * float64(i) / float64(k)
			cp = append(cp, func(p r2.Vec) float64 { return b.ref(rot2(p, -an)) })
		}
		r := radius2(b.rb)
		return &S2{s: sdf.RotateCopy2D(b.s, k), ref: minOf2(cp), rb: r2.Box{Min: v2(-r, -r), Max: v2(r, r)}, w: b.w, wd: b.wd,
			desc: fmt.Sprintf("rotCopy(%d, %s)", k, b.desc), lip: b.lip && (k == 1 || (sym && b.exact)), val: b.val && (k == 1 || (sym && b.exact))}
	case "lineOf":
		p0, p1 := c.Pos2(name+".p0", -5, 5), c.Pos2(name+".p1", -5, 5)
		pat := c.pattern(name + ".pat")
		var cp []func(r2.Vec) float64
		rb := r2.Box{Min: v2(math.Inf(1), math.Inf(1)), Max: v2(math.Inf(-1), math.Inf(-1))}
		var w r2.Vec
		for i, ch := range pat {
			if ch == 'x' {
				o := r2.Add(p0, r2.Scale(float64(i)/float64(len(pat)), r2.Sub(p1, p0)))
				cp = append(cp, func(p r2.Vec) float64 { return a.ref(r2.Sub(p, o)) })
				rb = hull2(rb, r2.Box{Min: r2.Add(a.rb.Min, o), Max: r2.Add(a.rb.Max, o)})
				w = r2.Add(a.w, o)
			}
		}
		return &S2{s: sdf.LineOf2D(a.s, p0, p1, pat), ref: minOf2(cp), rb: rb, w: w, wd: a.wd,
			desc: fmt.Sprintf("lineOf(%s %v-%v %q)", a.desc, p0, p1, pat), lip: a.lip, val: a.val && (a.exact || len(cp) == 1), sub: a.sub}
	case "multi":
		k := c.many(name+".k", 1, 5, 30, depth)
		var pos []r2.Vec
		var cp []func(r2.Vec) float64
		rb := r2.Box{Min: v2(math.Inf(1), math.Inf(1)), Max: v2(math.Inf(-1), math.Inf(-1))}
		for i := 0; i < k; i++ {
			o := c.Pos2(fmt.Sprintf("%s.p%d", name, i), -6, 6)
			pos = append(pos, o)
			cp = append(cp, func(p r2.Vec) float64 { return a.ref(r2.Sub(p, o)) })
			rb = hull2(rb, r2.Box{Min: r2.Add(a.rb.Min, o), Max: r2.Add(a.rb.Max, o)})
		}
		return &S2{s: sdf.Multi2D(a.s, pos), ref: minOf2(cp), rb: rb, w: r2.Add(a.w, pos[0]), wd: a.wd,
			desc: fmt.Sprintf("multi(%s %v)", a.desc, pos), lip: a.lip, val: a.val && (a.exact || k == 1), sub: a.sub}
	case "offset":
		d := c.F(name+".d", -0.8, 2)
		if d < 0 {
			d *= a.wd
		} else {
			d *= c.unit()
		}
		// Offsetting is a parallel curve only for distance fields whose sublevel
		// sets grow with the bounds.
		if !a.sub || !a.lip || !a.val {
			a = c.prim2(name + ".ex").opaque(c)
			if d < 0 {
				d = -0.5 * a.wd
			}
		}
		rb := r2.Box{Min: r2.Sub(a.rb.Min, v2(math.Max(d, 0), math.Max(d, 0))), Max: r2.Add(a.rb.Max, v2(math.Max(d, 0), math.Max(d, 0)))}
		return &S2{s: sdf.Offset2D(a.s, d), ref: func(p r2.Vec) float64 { return a.ref(p) - d }, rb: rb, w: a.w, wd: a.wd + d,
			desc: fmt.Sprintf("offset(%v, %s)", d, a.desc), lip: a.lip, val: a.val, symX: a.symX, sub: a.sub && d >= 0}
	case "elongate":
		h := c.Pos2(name+".h", -3, 3)
		if c.B(name + ".zx") {
			h.X = 0
		}
		hh := v2(math.Abs(h.X)/2, math.Abs(h.Y)/2)
		// Elongation splits the solid at the origin's axes; put its witness there.
		b := a.translate(r2.Scale(-1, a.w)).opaque(c)
		return &S2{s: sdf.Elongate2D(b.s, h), ref: func(p r2.Vec) float64 {
			return b.ref(v2(p.X-clampf(p.X, -hh.X, hh.X), p.Y-clampf(p.Y, -hh.Y, hh.Y)))
		}, rb: hull2(r2.Box{Min: r2.Sub(b.rb.Min, hh), Max: r2.Add(b.rb.Max, hh)}, r2.Box{Min: r2.Scale(-1, hh), Max: hh}), w: v2(0, 0), wd: b.wd,
			desc: fmt.Sprintf("elongate(%v, %s)", h, b.desc), lip: b.lip, val: b.val, sub: b.sub}
	}
	panic("op2 " + op)
}

func minOf2(cp []func(r2.Vec) float64) func(r2.Vec) float64 {
	return func(p r2.Vec) float64 {
		d := cp[0](p)
		for _, f := range cp[1:] {
			d = math.Min(d, f(p))
		}
		return d
	}
}

// union2 builds the union; its value is the minimum whenever all operands are
// exact distances (the implementation may skip operands that cannot be nearest).
func union2(ch []*S2) *S2 {
	var ss []sdf.SDF2
	n := &S2{lip: true, val: true, sub: true, rb: ch[0].rb, w: ch[0].w, wd: ch[0].wd}
	var cp []func(r2.Vec) float64
	for i, x := range ch {
		ss = append(ss, x.s)
		cp = append(cp, x.ref)
		n.rb = hull2(n.rb, x.rb)
		n.lip = n.lip && x.lip
		n.val = n.val && x.val && x.exact
		n.sub = n.sub && x.sub
		if i > 0 {
			n.desc += ", "
		}
		n.desc += x.desc
	}
	n.desc = "union(" + n.desc + ")"
	n.ref = minOf2(cp)
	n.s = sdf.Union2D(ss...)
	return n
}

func (c *Case) pattern(name string) string {
	n := c.Cnt(name+".len", 1, 6, 24)
	b := make([]byte, n)
	for i := range b {
		b[i] = ".x"[c.I(fmt.Sprintf("%s.%d", name, i), 0, 1)]
		if b[i] == '.' { // anything but an x leaves a gap
			b[i] = "....- _X"[c.I(fmt.Sprintf("%s.gap%d", name, i), 0, 7)]
		}
	}
	// at least one object
	b[c.I(name+".one", 0, n-1)] = 'x'
	return string(b)
}

// slice draws a planar slice of a 3D solid.
func (c *Case) slice2(name string, a *S3) *S2 {
	pt := r3.Add(a.w, c.V3(name+".pt", -a.wd/2, a.wd/2))
	nrm := c.direction(name + ".n")
	s := sdf.Slice2D(a.s, pt, nrm)
	// recover the plane basis by slicing coordinate functions
	o, u, v := sliceBasis(pt, nrm)
	at := func(p r2.Vec) r3.Vec { return r3.Add(o, r3.Add(r3.Scale(p.X, u), r3.Scale(p.Y, v))) }
	r := diag3(a.rb) + r3.Norm(r3.Sub(pt, a.w))
	n := &S2{s: s, ref: func(p r2.Vec) float64 { return a.ref(at(p)) }, rb: r2.Box{Min: v2(-r, -r), Max: v2(r, r)},
		desc: fmt.Sprintf("slice(%s at %v n %v)", a.desc, pt, nrm), lip: a.lip, val: a.val, w: v2(0, 0)}
	n.wd = -n.ref(v2(0, 0))
	return n
}

// coordSDF is a user supplied SDF3 that returns one coordinate.
type coordSDF struct{ axis int }

func (s coordSDF) Evaluate(p r3.Vec) float64 {
	switch s.axis {
	case 0:
		return p.X
	case 1:
		return p.Y
	}
	return p.Z
}

func (s coordSDF) Bounds() r3.Box { return r3.Box{Min: v3(-1, -1, -1), Max: v3(1, 1, 1)} }

func sliceBasis(pt, nrm r3.Vec) (o, u, v r3.Vec) {
	var x, y, z [3]float64
	const l = 1 << 24 // far apart: the difference of nearby points loses digits
	for i, p := range []r2.Vec{{}, {X: l}, {Y: l}} {
		x[i] = sdf.Slice2D(coordSDF{0}, pt, nrm).Evaluate(p)
		y[i] = sdf.Slice2D(coordSDF{1}, pt, nrm).Evaluate(p)
		z[i] = sdf.Slice2D(coordSDF{2}, pt, nrm).Evaluate(p)
	}
	o = v3(x[0], y[0], z[0])
	u = r3.Scale(1.0/l, r3.Sub(v3(x[1], y[1], z[1]), o))
	v = r3.Scale(1.0/l, r3.Sub(v3(x[2], y[2], z[2]), o))
	return
}

// magnitude draws the length of a vector whose length must not matter.
func (c *Case) magnitude(name string) float64 {
	switch c.I(name+".mag", 0, 9) {
	case 0:
		return c.LogF(name+".len", 1e-6, 1e6)
	case 1:
		return 1
	}
	return c.LogF(name+".len", 0.1, 10)
}

// direction draws a non-zero 3D direction, often with zero components.
func (c *Case) direction(name string) r3.Vec {
	var d r3.Vec
	if c.B(name + ".special") {
		d = v3(float64(c.I(name+".sx", -1, 1)), float64(c.I(name+".sy", -1, 1)), float64(c.I(name+".sz", -1, 1)))
	} else {
		d = c.V3(name, -1, 1)
	}
	if r3.Norm(d) < 1e-3 {
		d = v3(0, 0, 1)
	}
	if c.I(name+".tilt", 0, 5) == 0 { // close to another direction
		if c.B(name + ".axial") {
			d = [...]r3.Vec{{X: 1}, {Y: 1}, {Z: 1}, {X: -1}, {Y: -1}, {Z: -1}}[c.I(name+".axis", 0, 5)]
		}
		d = r3.Add(d, r3.Scale(c.LogF(name+".by", 1e-6, 0.3), c.V3(name+".to", -1, 1)))
	}
	return r3.Scale(c.magnitude(name), d)
}
