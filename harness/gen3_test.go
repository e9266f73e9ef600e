package harness

import (
	"fmt"
	"math"

	"github.com/soypat/sdf"
	"github.com/soypat/sdf/form3/must3"
	"gonum.org/v1/gonum/spatial/r2"
	"gonum.org/v1/gonum/spatial/r3"
)

// S3 is a generated 3D solid with its reference. See S2.
type S3 struct {
	s               sdf.SDF3
	ref             func(p r3.Vec) float64
	rb              r3.Box
	w               r3.Vec
	wd              float64
	desc            string
	exact, lip, val bool
	symX            bool // mirror symmetric about the xz plane
	axisZ           bool // rotationally symmetric about z
	sub             bool
}

func (n *S3) size() float64 { return diag3(n.rb) }

func (n *S3) tol(p r3.Vec) float64 {
	return 1e-9 * (1 + n.size() + absmax3(n.rb) + math.Abs(p.X) + math.Abs(p.Y) + math.Abs(p.Z))
}

func hull3(a, b r3.Box) r3.Box {
	return r3.Box{Min: v3(math.Min(a.Min.X, b.Min.X), math.Min(a.Min.Y, b.Min.Y), math.Min(a.Min.Z, b.Min.Z)),
		Max: v3(math.Max(a.Max.X, b.Max.X), math.Max(a.Max.Y, b.Max.Y), math.Max(a.Max.Z, b.Max.Z))}
}

func emptyBox3() r3.Box {
	i := math.Inf(1)
	return r3.Box{Min: v3(i, i, i), Max: v3(-i, -i, -i)}
}

func corners3(b r3.Box) (o [8]r3.Vec) {
	for i := range o {
		p := b.Min
		if i&1 != 0 {
			p.X = b.Max.X
		}
		if i&2 != 0 {
			p.Y = b.Max.Y
		}
		if i&4 != 0 {
			p.Z = b.Max.Z
		}
		o[i] = p
	}
	return
}

func mapBox3(b r3.Box, f func(r3.Vec) r3.Vec) r3.Box {
	o := emptyBox3()
	for _, p := range corners3(b) {
		q := f(p)
		o = hull3(o, r3.Box{Min: q, Max: q})
	}
	return o
}

func (n *S3) settle(alt *S3) *S3 {
	best := math.Inf(1)
	try := func(p r3.Vec) {
		if d := n.ref(p); d < best {
			best, n.w = d, p
		}
	}
	if alt != nil {
		try(alt.w)
		sz := alt.wd * 4
		for i := 0; i < 48; i++ {
			try(pts3{}.in(i, boxAround3(alt.w, v3(sz, sz, sz))))
		}
	}
	try(r3.Scale(0.5, r3.Add(n.rb.Min, n.rb.Max)))
	for i := 0; i < 200; i++ {
		try(pts3{}.in(i, n.rb))
	}
	n.wd = -best
	if n.wd < 1e-3*(1e-9+n.size()) {
		return alt
	}
	return n
}

// --- primitives ------------------------------------------------------------

func sphere3(r float64) *S3 {
	return &S3{s: must3.Sphere(r), ref: func(p r3.Vec) float64 { return math.Sqrt(p.X*p.X+p.Y*p.Y+p.Z*p.Z) - r }, rb: boxAround3(r3.Vec{}, v3(r, r, r)), wd: r,
		desc: fmt.Sprintf("sphere(%v)", r), exact: true, lip: true, val: true, symX: true, axisZ: true, sub: true}
}

func box3(x, y, z, round float64) *S3 {
	return &S3{s: must3.Box(v3(x, y, z), round), ref: func(p r3.Vec) float64 { return rectSDF3(p, v3(x/2-round, y/2-round, z/2-round)) - round },
		rb: boxAround3(r3.Vec{}, v3(x/2, y/2, z/2)), wd: math.Min(x, math.Min(y, z)) / 2, desc: fmt.Sprintf("box(%v,%v,%v round %v)", x, y, z, round), exact: true, lip: true, val: true, symX: true, sub: true}
}

func cylinder3(h, r, round float64) *S3 {
	return &S3{s: must3.Cylinder(h, r, round), ref: func(p r3.Vec) float64 {
		return rectSDF2(v2(math.Hypot(p.X, p.Y), p.Z), v2(r-round, h/2-round)) - round
	}, rb: boxAround3(r3.Vec{}, v3(r, r, h/2)), wd: math.Min(r, h/2), desc: fmt.Sprintf("cylinder(h %v r %v round %v)", h, r, round), exact: true, lip: true, val: true, symX: true, axisZ: true, sub: true}
}

// cone3 is a truncated cone; with rounding the inner (inset) cone is grown by round.
func cone3(h, r0, r1, round float64) *S3 {
	a := math.Atan2(r0-r1, h) // half angle of the slope
	// Inset both radii so that the cone grown by round touches the original
	// slope and caps: moving the slope inwards by round shifts it radially by
	// round/cos(a), and moving a cap inwards by round shifts the radius by
	// +-round*tan(a).
	i0 := r0 - round/math.Cos(a) - round*math.Tan(a)
	i1 := r1 - round/math.Cos(a) + round*math.Tan(a)
	hh := h/2 - round
	if i0 < 0 || i1 < 0 || hh < 0 {
		return nil
	}
	poly := []r2.Vec{{X: -i0, Y: -hh}, {X: i0, Y: -hh}, {X: i1, Y: hh}, {X: -i1, Y: hh}}
	rm := math.Max(i0, i1) + round
	n := &S3{s: must3.Cone(h, r0, r1, round), ref: func(p r3.Vec) float64 { return polySDF(v2(math.Hypot(p.X, p.Y), p.Z), poly) - round },
		rb: boxAround3(r3.Vec{}, v3(rm, rm, h/2)), desc: fmt.Sprintf("cone(h %v r0 %v r1 %v round %v)", h, r0, r1, round), exact: true, lip: true, val: true, symX: true, axisZ: true, sub: true}
	return n.settle(nil)
}

func (c *Case) prim3(name string) *S3 {
	switch c.Pick(name, "sphere", "box", "rbox", "cyl", "rcyl", "capsule", "cone", "rcone") {
	case "sphere":
		return sphere3(c.Len(name+".r", 0.2, 4))
	case "box":
		return box3(c.Len(name+".x", 0.2, 6), c.Len(name+".y", 0.2, 6), c.Len(name+".z", 0.2, 6), 0)
	case "rbox":
		x, y, z := c.Len(name+".x", 0.2, 6), c.Len(name+".y", 0.2, 6), c.Len(name+".z", 0.2, 6)
		return box3(x, y, z, c.F(name+".round", 0, 0.5)*math.Min(x, math.Min(y, z)))
	case "cyl":
		return cylinder3(c.Len(name+".h", 0.2, 6), c.Len(name+".r", 0.2, 4), 0)
	case "rcyl":
		h, r := c.Len(name+".h", 0.2, 6), c.Len(name+".r", 0.2, 4)
		return cylinder3(h, r, c.F(name+".round", 0, 1)*math.Min(r, h/2))
	case "capsule":
		r := c.Len(name+".r", 0.2, 2)
		return cylinder3(2*r+c.unit()*c.F(name+".l", 0, 5), r, r)
	case "cone":
		if n := cone3(c.Len(name+".h", 0.2, 6), c.unit()*c.F(name+".r0", 0, 3), c.unit()*c.F(name+".r1", 0.1, 3), 0); n != nil {
			return n
		}
	case "rcone":
		h, r0, r1 := c.Len(name+".h", 0.3, 6), c.Len(name+".r0", 0.3, 3), c.Len(name+".r1", 0.3, 3)
		if n := cone3(h, r0, r1, c.F(name+".round", 0, 0.45)*math.Min(h/2, math.Min(r0, r1))); n != nil {
			return n
		}
	}
	return sphere3(1)
}

// --- transforms ------------------------------------------------------------

type step3 struct {
	kind string
	v    r3.Vec
	a    float64
}

func (s step3) String() string { return fmt.Sprintf("%s(%v,%v)", s.kind, s.v, s.a) }

func (s step3) fwd(p r3.Vec) r3.Vec {
	switch s.kind {
	case "tr":
		return r3.Add(p, s.v)
	case "rx":
		return rotAxis(p, v3(1, 0, 0), s.a)
	case "ry":
		return rotAxis(p, v3(0, 1, 0), s.a)
	case "rz":
		return rotAxis(p, v3(0, 0, 1), s.a)
	case "rv":
		return rotAxis(p, s.v, s.a)
	case "mxy":
		return v3(p.X, p.Y, -p.Z)
	case "mxz":
		return v3(p.X, -p.Y, p.Z)
	case "myz":
		return v3(-p.X, p.Y, p.Z)
	case "mx=y":
		return v3(p.Y, p.X, p.Z)
	case "scale":
		return v3(p.X*s.v.X, p.Y*s.v.Y, p.Z*s.v.Z)
	}
	panic(s.kind)
}

func (s step3) inv(p r3.Vec) r3.Vec {
	switch s.kind {
	case "tr":
		return r3.Sub(p, s.v)
	case "rx", "ry", "rz", "rv":
		s.a = -s.a
	case "scale":
		return v3(p.X/s.v.X, p.Y/s.v.Y, p.Z/s.v.Z)
	}
	return s.fwd(p)
}

type steps3 []step3

func (st steps3) fwd(p r3.Vec) r3.Vec {
	for _, s := range st {
		p = s.fwd(p)
	}
	return p
}

func (st steps3) inv(p r3.Vec) r3.Vec {
	for i := len(st) - 1; i >= 0; i-- {
		p = st[i].inv(p)
	}
	return p
}

func (st steps3) rigid() bool {
	for _, s := range st {
		if s.kind == "scale" {
			return false
		}
	}
	return true
}

func (c *Case) steps3(name string, scale bool) steps3 {
	n, ratio := c.Cnt(name+".n", 1, 3, 7), 1.0
	st := make(steps3, n)
	for i := range st {
		nm := fmt.Sprintf("%s.%d", name, i)
		kinds := []string{"tr", "rx", "ry", "rz", "rv", "tr", "rv", "mxy", "mxz", "myz", "mx=y"}
		if scale {
			kinds = append(kinds, "scale", "scale", "scale", "scale")
		}
		k := c.Pick(nm, kinds...)
		st[i].kind = k
		switch k {
		case "tr":
			st[i].v = c.Pos3(nm+".v", -4, 4)
		case "rx", "ry", "rz":
			st[i].a = c.angle(nm + ".a")
		case "rv":
			st[i].a = c.angle(nm + ".a")
			st[i].v = c.direction(nm + ".v")
		case "scale":
			st[i].v = v3(c.Fac(nm+".sx", 0.4, 2.5), c.Fac(nm+".sy", 0.4, 2.5), c.Fac(nm+".sz", 0.4, 2.5))
			switch c.I(nm+".how", 0, 5) {
			case 0: // keeps the volume
				st[i].v.Z = 1 / (st[i].v.X * st[i].v.Y)
			case 1:
				st[i].v.Y, st[i].v.Z = 1/st[i].v.X, 1
			case 2: // the same along all axes
				st[i].v.Y, st[i].v.Z = st[i].v.X, st[i].v.X
			case 3: // along one axis
				st[i].v.X, st[i].v.Z = 1, 1
			}
			// Stretching too much in one direction loses the digits in another.
			v := st[i].v
			hi, lo := math.Max(math.Max(v.X, v.Y), v.Z), math.Min(math.Min(v.X, v.Y), v.Z)
			if ratio*hi/lo > 1e3 {
				st[i].v = v3(v.X, v.X, v.X)
			} else {
				ratio *= hi / lo
			}
			if c.B(nm + ".neg") {
				st[i].v.Y = -st[i].v.Y
			}
		}
	}
	return st
}

// matrix3 composes the library's matrices onto m (first step innermost); their
// type is not exported.
func matrix3[M interface{ Mul(M) M }](m M, st steps3) M {
	for _, x := range st {
		var k any = sdf.Translate3D(x.v)
		switch x.kind {
		case "rx":
			k = sdf.RotateX(x.a)
		case "ry":
			k = sdf.RotateY(x.a)
		case "rz":
			k = sdf.RotateZ(x.a)
		case "rv":
			k = sdf.Rotate3D(x.v, x.a)
		case "mxy":
			k = sdf.MirrorXY()
		case "mxz":
			k = sdf.MirrorXZ()
		case "myz":
			k = sdf.MirrorYZ()
		case "mx=y":
			k = sdf.MirrorXeqY()
		case "scale":
			k = sdf.Scale3D(x.v)
		}
		m = k.(M).Mul(m)
	}
	return m
}

func applySteps3(s sdf.SDF3, st steps3) sdf.SDF3 {
	return sdf.Transform3D(s, matrix3(sdf.Translate3D(r3.Vec{}), st))
}

func rotUnionSteps3(s sdf.SDF3, num int, st steps3) sdf.SDF3 {
	return sdf.RotateUnion3D(s, num, matrix3(sdf.Translate3D(r3.Vec{}), st))
}

func (n *S3) transformed(s sdf.SDF3, st steps3) *S3 {
	ch := *n
	rigid := st.rigid()
	return &S3{s: s, ref: func(p r3.Vec) float64 { return ch.ref(st.inv(p)) }, rb: mapBox3(ch.rb, st.fwd), w: st.fwd(ch.w), wd: ch.wd,
		desc: fmt.Sprintf("T%v(%s)", []step3(st), ch.desc), exact: ch.exact && rigid, lip: ch.lip && rigid, val: ch.val, sub: ch.exact && rigid}
}

func (n *S3) translate(v r3.Vec) *S3 {
	st := steps3{{kind: "tr", v: v}}
	o := n.transformed(sdf.Transform3D(n.s, sdf.Translate3D(v)), st)
	o.sub = n.sub
	return o
}

// --- operations ------------------------------------------------------------

var ops3bool = []string{"union", "diff", "intersect", "cut"}
var ops3xform = []string{"xform", "scaleU", "scaleN"}
var ops3pattern = []string{"array", "rotUnion", "rotCopy", "lineOf", "multi", "orient"}
var ops3other = []string{"offset", "elongate", "shell"}
var ops3from2 = []string{"extrude", "twist", "scaleEx", "scaleTwist", "rounded", "loft", "revolve", "revolveP"}
var ops3all = cat(ops3bool, ops3xform, ops3pattern, ops3other, ops3from2)

// ops3lip are the operations for which the field stays a lower bound.
var ops3lip = cat(ops3bool, []string{"xform", "scaleU"}, ops3pattern, ops3other, []string{"extrude", "rounded", "revolve", "revolveP"})

func (c *Case) tree3(name string, depth int, ops []string) *S3 {
	if depth <= 0 || c.I(name+".leaf", 0, 3) == 0 {
		return c.prim3(name).opaque(c)
	}
	return c.op3(name, depth, ops, ops).opaque(c)
}

func (n *S3) opaque(c *Case) *S3 {
	if !c.iso {
		return n
	}
	o := *n
	o.ref, o.val = n.s.Evaluate, true
	return &o
}

func (c *Case) near3(name string, a *S3, depth int, ops []string) *S3 {
	b := c.tree3(name, depth, ops)
	k := 0.6 * math.Min(a.size(), b.size())
	off := c.V3(name+".off", -k, k)
	return b.translate(r3.Add(r3.Sub(a.w, b.w), off)).opaque(c)
}

// op3 draws a root operation from ops over subtrees that use sub.
func (c *Case) op3(name string, depth int, ops, sub []string) *S3 {
	op := c.Pick(name+".op", ops...)
	c.Label("op3:" + op)
	var n *S3
	for _, o := range ops3from2 {
		if o == op {
			n = c.from2(name, op, depth)
			return n
		}
	}
	a := c.tree3(name+"a", depth-1, sub)
	return c.op3on(name, op, a, depth, sub)
}

func minOf3(cp []func(r3.Vec) float64) func(r3.Vec) float64 {
	return func(p r3.Vec) float64 {
		d := cp[0](p)
		for _, f := range cp[1:] {
			d = math.Min(d, f(p))
		}
		return d
	}
}

func shiftBox3(b r3.Box, o r3.Vec) r3.Box {
	return r3.Box{Min: r3.Add(b.Min, o), Max: r3.Add(b.Max, o)}
}

func (c *Case) op3on(name, op string, a *S3, depth int, sub []string) *S3 {
	switch op {
	case "union":
		k := c.many(name+".k", 2, 3, 10, depth)
		n := &S3{lip: a.lip, val: a.val, sub: a.sub, rb: a.rb, w: a.w, wd: a.wd, desc: "union(" + a.desc}
		ss := []sdf.SDF3{a.s}
		cp := []func(r3.Vec) float64{a.ref}
		for i := 1; i < k; i++ {
			nm := fmt.Sprintf("%s.u%d", name, i)
			var b *S3
			if c.B(nm + ".far") {
				b = c.tree3(nm, depth-1, sub).translate(c.Pos3(nm+".at", -8, 8)).opaque(c)
			} else {
				b = c.near3(nm, a, depth-1, sub)
			}
			ss, cp = append(ss, b.s), append(cp, b.ref)
			n.rb = hull3(n.rb, b.rb)
			n.lip, n.val, n.sub = n.lip && b.lip, n.val && b.val, n.sub && b.sub
			n.desc += ", " + b.desc
		}
		n.desc += ")"
		n.ref = minOf3(cp)
		n.s = sdf.Union3D(ss...)
		return n
	case "diff":
		b := c.near3(name+"b", a, depth-1, sub)
		return (&S3{s: sdf.Difference3D(a.s, b.s), ref: func(p r3.Vec) float64 { return math.Max(a.ref(p), -b.ref(p)) }, rb: a.rb,
			desc: fmt.Sprintf("diff(%s, %s)", a.desc, b.desc), lip: a.lip && b.lip, val: a.val && b.val, sub: a.sub}).settle(a)
	case "intersect":
		b := c.near3(name+"b", a, depth-1, sub)
		return (&S3{s: sdf.Intersect3D(a.s, b.s), ref: func(p r3.Vec) float64 { return math.Max(a.ref(p), b.ref(p)) }, rb: a.rb,
			desc: fmt.Sprintf("intersect(%s, %s)", a.desc, b.desc), lip: a.lip && b.lip, val: a.val && b.val, sub: a.sub}).settle(a)
	case "cut":
		pt := r3.Add(a.w, c.V3(name+".pt", -a.wd, a.wd))
		nrm := c.direction(name + ".n")
		l := r3.Norm(nrm)
		return (&S3{s: sdf.Cut3D(a.s, pt, nrm), ref: func(p r3.Vec) float64 {
			q := r3.Sub(p, pt) // the side the normal points to remains
			return math.Max(a.ref(p), -(q.X*nrm.X+q.Y*nrm.Y+q.Z*nrm.Z)/l)
		}, rb: a.rb, desc: fmt.Sprintf("cut(%s at %v n %v)", a.desc, pt, nrm), lip: a.lip, val: a.val, sub: a.sub}).settle(a)
	case "xform":
		st := c.steps3(name+".st", false)
		return a.transformed(applySteps3(a.s, st), st)
	case "scaleN":
		st := c.steps3(name+".st", true)
		return a.transformed(applySteps3(a.s, st), st)
	case "scaleU":
		k := c.Fac(name+".k", 0.3, 3)
		return &S3{s: sdf.ScaleUniform3D(a.s, k), ref: func(p r3.Vec) float64 { return k * a.ref(v3(p.X/k, p.Y/k, p.Z/k)) },
			rb: r3.Box{Min: r3.Scale(k, a.rb.Min), Max: r3.Scale(k, a.rb.Max)}, w: r3.Scale(k, a.w), wd: k * a.wd,
			desc: fmt.Sprintf("scaleU(%v, %s)", k, a.desc), exact: a.exact, lip: a.lip, val: a.val, symX: a.symX, axisZ: a.axisZ, sub: a.sub}
	case "array":
		nx, ny, nz := c.many(name+".nx", 1, 3, 5, depth), c.many(name+".ny", 1, 3, 5, depth), c.many(name+".nz", 1, 3, 5, depth)
		st := c.Pos3(name+".step", -5, 5)
		if depth <= 2 && c.I(name+".row", 0, 5) == 0 {
			// a long row of copies that may overlap over many steps
			if c.B(name + ".aside") {
				a = a.translate(r3.Scale(a.size(), c.V3(name+".off", -1, 1))).opaque(c)
			}
			k := c.I(name+".long", 6, 60)
			st = r3.Scale(c.Pick2(name+".tight", 0.02, 0.1, 0.4)*a.size()/5, st)
			switch c.I(name+".axis", 0, 2) {
			case 0:
				nx, ny, nz = k, 1, c.I(name+".few", 1, 2)
			case 1:
				nx, ny, nz = c.I(name+".few", 1, 2), k, 1
			default:
				nx, ny, nz = 1, c.I(name+".few", 1, 2), k
			}
		}
		var cp []func(r3.Vec) float64
		rb := a.rb
		for i := 0; i < nx; i++ {
			for j := 0; j < ny; j++ {
				for k := 0; k < nz; k++ {
					o := v3(float64(i)*st.X, float64(j)*st.Y, float64(k)*st.Z)
					cp = append(cp, func(p r3.Vec) float64 { return a.ref(r3.Sub(p, o)) })
					rb = hull3(rb, shiftBox3(a.rb, o))
				}
			}
		}
		return &S3{s: sdf.Array3D(a.s, sdf.V3i{nx, ny, nz}, st), ref: minOf3(cp), rb: rb, w: a.w, wd: a.wd,
			desc: fmt.Sprintf("array(%dx%dx%d step %v, %s)", nx, ny, nz, st, a.desc), lip: a.lip, val: a.val, sub: a.sub}
	case "rotUnion":
		k := c.many(name+".num", 1, 5, 24, depth)
		st := c.steps3(name+".st", false)
		if c.B(name + ".zonly") {
			st = steps3{{kind: "rz", a: c.angle(name + ".rz")}}
		} else if depth <= 2 && c.I(name+".coil", 0, 5) == 0 {
			// many copies along a helix that overlap their neighbors
			k = c.I(name+".long", 6, 60)
			st = steps3{{kind: "rz", a: c.F(name+".da", -0.3, 0.3)}, {kind: "tr", v: v3(0, 0, c.F(name+".dz", -0.2, 0.2)*a.size())}}
		}
		var cp []func(r3.Vec) float64
		rb := a.rb
		var acc steps3
		for i := 0; i < k; i++ {
			ac := append(steps3(nil), acc...)
			cp = append(cp, func(p r3.Vec) float64 { return a.ref(ac.inv(p)) })
			rb = hull3(rb, mapBox3(a.rb, ac.fwd))
			acc = append(acc, st...)
		}
		return &S3{s: rotUnionSteps3(a.s, k, st), ref: minOf3(cp), rb: rb, w: a.w, wd: a.wd,
			desc: fmt.Sprintf("rotUnion(%d, %v, %s)", k, []step3(st), a.desc), lip: a.lip, val: a.val}
	case "rotCopy":
		k := c.many(name+".num", 1, 7, 40, 1)
		b := a
		if k > 1 {
			ctr := r3.Scale(0.5, r3.Add(a.rb.Min, a.rb.Max))
			if a.symX {
				ctr.Y = 0
			}
			hx := math.Max(a.rb.Max.X-ctr.X, ctr.X-a.rb.Min.X)
			hy := math.Max(a.rb.Max.Y-ctr.Y, ctr.Y-a.rb.Min.Y)
			half := math.Hypot(hx, hy) + 1e-9
			d := half * (1 + c.F(name+".gap", 0.01, 1)) / math.Sin(math.Min(math.Pi/float64(k), math.Pi/2))
			b = a.translate(v3(d-ctr.X, -ctr.Y, 0)).opaque(c)
			b.symX = a.symX
		}
		sym := b.symX && b.exact
		var cp []func(r3.Vec) float64
		rb := emptyBox3()
		for i := 0; i < k; i++ {
			an := 2 * math.Pi * float64(i) / float64(k)
			cp = append(cp, func(p r3.Vec) float64 { return b.ref(rotAxis(p, v3(0, 0, 1), -an)) })
			rb = hull3(rb, mapBox3(b.rb, func(p r3.Vec) r3.Vec { return rotAxis(p, v3(0, 0, 1), an) }))
		}
		return &S3{s: sdf.RotateCopy3D(b.s, k), ref: minOf3(cp), rb: rb, w: b.w, wd: b.wd,
			desc: fmt.Sprintf("rotCopy(%d, %s)", k, b.desc), lip: b.lip && (k == 1 || sym), val: b.val && (k == 1 || sym)}
	case "lineOf":
		p0, p1 := c.Pos3(name+".p0", -5, 5), c.Pos3(name+".p1", -5, 5)
		pat := c.pattern(name + ".pat")
		var cp []func(r3.Vec) float64
		rb := emptyBox3()
		var w r3.Vec
		for i, ch := range pat {
			if ch == 'x' {
				o := r3.Add(p0, r3.Scale(float64(i)/float64(len(pat)), r3.Sub(p1, p0)))
				cp = append(cp, func(p r3.Vec) float64 { return a.ref(r3.Sub(p, o)) })
				rb = hull3(rb, shiftBox3(a.rb, o))
				w = r3.Add(a.w, o)
			}
		}
		return &S3{s: sdf.LineOf3D(a.s, p0, p1, pat), ref: minOf3(cp), rb: rb, w: w, wd: a.wd,
			desc: fmt.Sprintf("lineOf(%s %v-%v %q)", a.desc, p0, p1, pat), lip: a.lip, val: a.val, sub: a.sub}
	case "multi":
		k := c.many(name+".k", 1, 4, 20, depth)
		var pos []r3.Vec
		var cp []func(r3.Vec) float64
		rb := emptyBox3()
		for i := 0; i < k; i++ {
			o := c.Pos3(fmt.Sprintf("%s.p%d", name, i), -6, 6)
			pos = append(pos, o)
			cp = append(cp, func(p r3.Vec) float64 { return a.ref(r3.Sub(p, o)) })
			rb = hull3(rb, shiftBox3(a.rb, o))
		}
		return &S3{s: sdf.Multi3D(a.s, pos), ref: minOf3(cp), rb: rb, w: r3.Add(a.w, pos[0]), wd: a.wd,
			desc: fmt.Sprintf("multi(%s %v)", a.desc, pos), lip: a.lip, val: a.val, sub: a.sub}
	case "orient":
		k := c.many(name+".k", 1, 4, 20, depth)
		base := c.direction(name + ".base")
		var dirs []r3.Vec
		var cp []func(r3.Vec) float64
		rb := emptyBox3()
		var w r3.Vec
		for i := 0; i < k; i++ {
			d := c.direction(fmt.Sprintf("%s.d%d", name, i))
			if c.I(fmt.Sprintf("%s.same%d", name, i), 0, 5) == 0 {
				d = r3.Scale(2, base)
			}
			ub, ud := r3.Scale(1/r3.Norm(base), base), r3.Scale(1/r3.Norm(d), d)
			ax := r3.Cross(ub, ud)
			an := math.Atan2(r3.Norm(ax), r3.Dot(ub, ud))
			if r3.Norm(ax) < 1e-4 {
				if r3.Dot(ub, ud) < 0 {
					// any half turn that flips base is acceptable: the choice is the
					// library's, so such directions are tested separately.
					d = r3.Add(r3.Scale(r3.Norm(d), perp(ub)), d)
					ud = r3.Scale(1/r3.Norm(d), d)
					ax = r3.Cross(ub, ud)
					an = math.Atan2(r3.Norm(ax), r3.Dot(ub, ud))
				} else {
					// parallel
					d, ax, an = r3.Scale(r3.Norm(d), ub), v3(0, 0, 1), 0
				}
			}
			dirs = append(dirs, d)
			cp = append(cp, func(p r3.Vec) float64 { return a.ref(rotAxis(p, ax, -an)) })
			rb = hull3(rb, mapBox3(a.rb, func(p r3.Vec) r3.Vec { return rotAxis(p, ax, an) }))
			w = rotAxis(a.w, ax, an)
		}
		return &S3{s: sdf.Orient3D(a.s, base, dirs), ref: minOf3(cp), rb: rb, w: w, wd: a.wd,
			desc: fmt.Sprintf("orient(%s base %v dirs %v)", a.desc, base, dirs), lip: a.lip, val: a.val}
	case "offset":
		if !a.sub || !a.lip || !a.val {
			a = c.prim3(name + ".ex").opaque(c)
		}
		d := c.F(name+".d", -0.8, 2)
		if d < 0 {
			d *= a.wd
		} else {
			d *= c.unit()
		}
		g := math.Max(d, 0)
		return &S3{s: sdf.Offset3D(a.s, d), ref: func(p r3.Vec) float64 { return a.ref(p) - d }, rb: r3.Box{Min: r3.Sub(a.rb.Min, v3(g, g, g)), Max: r3.Add(a.rb.Max, v3(g, g, g))}, w: a.w, wd: a.wd + d,
			desc: fmt.Sprintf("offset(%v, %s)", d, a.desc), lip: a.lip, val: a.val, symX: a.symX, axisZ: a.axisZ, sub: a.sub && d >= 0}
	case "shell":
		if !a.sub || !a.lip || !a.val {
			a = c.prim3(name + ".ex").opaque(c)
		}
		t := c.Len(name+".t", 0.05, 1)
		n := &S3{s: sdf.Shell3D(a.s, t), ref: func(p r3.Vec) float64 { return math.Abs(a.ref(p)) - t/2 }, rb: r3.Box{Min: r3.Sub(a.rb.Min, v3(t, t, t)), Max: r3.Add(a.rb.Max, v3(t, t, t))},
			desc: fmt.Sprintf("shell(%v, %s)", t, a.desc), lip: a.lip, val: a.val, symX: a.symX, axisZ: a.axisZ, sub: a.sub}
		// witness: bisect from the inside of a to the outside
		in, out := a.w, r3.Add(a.w, v3(2*n.size(), 0, 0))
		for i := 0; i < 60; i++ {
			m := r3.Scale(0.5, r3.Add(in, out))
			if a.ref(m) < 0 {
				in = m
			} else {
				out = m
			}
		}
		n.w, n.wd = in, -n.ref(in)
		if n.wd < 0.01*t {
			return a
		}
		return n
	case "elongate":
		h := c.Pos3(name+".h", -3, 3)
		if c.B(name + ".zx") {
			h.X = 0
		}
		if c.B(name + ".zz") {
			h.Z = 0
		}
		hh := v3(math.Abs(h.X)/2, math.Abs(h.Y)/2, math.Abs(h.Z)/2)
		b := a.translate(r3.Scale(-1, a.w)).opaque(c)
		return &S3{s: sdf.Elongate3D(b.s, h), ref: func(p r3.Vec) float64 {
			return b.ref(v3(p.X-clampf(p.X, -hh.X, hh.X), p.Y-clampf(p.Y, -hh.Y, hh.Y), p.Z-clampf(p.Z, -hh.Z, hh.Z)))
		}, rb: r3.Box{Min: r3.Sub(b.rb.Min, hh), Max: r3.Add(b.rb.Max, hh)}, wd: b.wd,
			desc: fmt.Sprintf("elongate(%v, %s)", h, b.desc), lip: b.lip, val: b.val, sub: b.sub}
	}
	panic("op3 " + op)
}

func perp(u r3.Vec) r3.Vec {
	if math.Abs(u.X) < 0.9 {
		return r3.Cross(u, v3(1, 0, 0))
	}
	return r3.Cross(u, v3(0, 1, 0))
}

// from2 makes a solid from 2D profiles.
func (c *Case) from2(name, op string, depth int) *S3 {
	a := c.tree2(name+"p", depth-1)
	if c.B(name+".shift") && op != "revolve" {
		a = a.translate(c.Pos2(name+".sh", -3, 3)).opaque(c)
	}
	h := c.unit() * c.LogF(name+".h", 0.3, 6)
	up := func(b r2.Box, z float64) r3.Box {
		return r3.Box{Min: v3(b.Min.X, b.Min.Y, -z), Max: v3(b.Max.X, b.Max.Y, z)}
	}
	sect := func(p r3.Vec, q r2.Vec) float64 { return math.Max(a.ref(q), math.Abs(p.Z)-h/2) }
	switch op {
	case "extrude":
		return &S3{s: sdf.Extrude3D(a.s, h), ref: func(p r3.Vec) float64 { return sect(p, v2(p.X, p.Y)) }, rb: up(a.rb, h/2), w: v3(a.w.X, a.w.Y, 0), wd: math.Min(a.wd, h/2),
			desc: fmt.Sprintf("extrude(h %v, %s)", h, a.desc), lip: a.lip, symX: a.symX, sub: a.sub}
	case "twist":
		tw := c.turn(name + ".tw")
		r := radius2(a.rb)
		return &S3{s: sdf.TwistExtrude3D(a.s, h, tw), ref: func(p r3.Vec) float64 { return sect(p, rot2(v2(p.X, p.Y), p.Z*tw/h)) },
			rb: up(r2.Box{Min: v2(-r, -r), Max: v2(r, r)}, h/2), w: v3(a.w.X, a.w.Y, 0), wd: math.Min(a.wd, h/2), desc: fmt.Sprintf("twist(h %v tw %v, %s)", h, tw, a.desc)}
	case "scaleEx", "scaleTwist":
		sc := v2(c.LogF(name+".sx", 0.3, 3), c.LogF(name+".sy", 0.3, 3))
		// cross-section factor: 1 at the bottom, sc at the top, with the
		// reciprocal varying linearly in z.
		inv := func(z float64) r2.Vec {
			k := z/h + 0.5
			return v2(1+(1/sc.X-1)*k, 1+(1/sc.Y-1)*k)
		}
		m := math.Max(1, math.Max(sc.X, sc.Y))
		if op == "scaleEx" {
			rb := hull2(a.rb, r2.Box{Min: v2(a.rb.Min.X*sc.X, a.rb.Min.Y*sc.Y), Max: v2(a.rb.Max.X*sc.X, a.rb.Max.Y*sc.Y)})
			n := &S3{s: sdf.ScaleExtrude3D(a.s, h, sc), ref: func(p r3.Vec) float64 {
				i := inv(clampf(p.Z, -h/2, h/2))
				return sect(p, v2(p.X*i.X, p.Y*i.Y))
			}, rb: up(rb, h/2), desc: fmt.Sprintf("scaleEx(h %v sc %v, %s)", h, sc, a.desc)}
			i := inv(0)
			n.w = v3(a.w.X/i.X, a.w.Y/i.Y, 0)
			n.wd = -n.ref(n.w)
			return n
		}
		tw := c.turn(name + ".tw")
		r := radius2(a.rb) * m
		n := &S3{s: sdf.ScaleTwistExtrude3D(a.s, h, tw, sc), ref: func(p r3.Vec) float64 {
			i := inv(clampf(p.Z, -h/2, h/2))
			return sect(p, rot2(v2(p.X*i.X, p.Y*i.Y), p.Z*tw/h))
		}, rb: up(r2.Box{Min: v2(-r, -r), Max: v2(r, r)}, h/2), desc: fmt.Sprintf("scaleTwist(h %v tw %v sc %v, %s)", h, tw, sc, a.desc)}
		i := inv(0)
		n.w = v3(a.w.X/i.X, a.w.Y/i.Y, 0)
		n.wd = -n.ref(n.w)
		return n
	case "rounded":
		if !a.sub || !a.val || !a.lip {
			a = c.prim2(name + ".ex").opaque(c)
		}
		r := c.F(name+".round", 0, 0.5) * h
		return &S3{s: sdf.ExtrudeRounded3D(a.s, h, r), ref: func(p r3.Vec) float64 {
			x, y := a.ref(v2(p.X, p.Y)), math.Abs(p.Z)-(h/2-r)
			if r == 0 {
				return math.Max(x, math.Abs(p.Z)-h/2)
			}
			return math.Hypot(math.Max(x, 0), math.Max(y, 0)) + math.Min(math.Max(x, y), 0) - r
		}, rb: up(r2.Box{Min: r2.Sub(a.rb.Min, v2(r, r)), Max: r2.Add(a.rb.Max, v2(r, r))}, h/2), w: v3(a.w.X, a.w.Y, 0), wd: math.Min(a.wd+r, h/2),
			desc: fmt.Sprintf("rounded(h %v r %v, %s)", h, r, a.desc), lip: a.lip, symX: a.symX, sub: a.sub, exact: false}
	case "loft":
		if !a.sub || !a.val {
			a = c.prim2(name + ".ex").opaque(c)
		}
		b := c.prim2(name + ".b")
		b = b.translate(r2.Add(r2.Sub(a.w, b.w), c.V2(name+".off", -a.wd, a.wd))).opaque(c)
		r := c.F(name+".round", 0, 0.6) * h
		hh := h/2 - r
		if hh < 0.01*h {
			r, hh = h/2, 0 // the flat limit
		}
		n := &S3{s: sdf.Loft3D(a.s, b.s, h, r), ref: func(p r3.Vec) float64 {
			k := 0.5
			if hh > 0 {
				k = clampf(0.5*p.Z/hh+0.5, 0, 1)
			}
			q := v2(p.X, p.Y)
			x, y := (1-k)*a.ref(q)+k*b.ref(q), math.Abs(p.Z)-hh
			return math.Hypot(math.Max(x, 0), math.Max(y, 0)) + math.Min(math.Max(x, y), 0) - r
		}, rb: up(r2.Box{Min: r2.Sub(hull2(a.rb, b.rb).Min, v2(r, r)), Max: r2.Add(hull2(a.rb, b.rb).Max, v2(r, r))}, h/2),
			desc: fmt.Sprintf("loft(h %v r %v, %s -> %s)", h, r, a.desc, b.desc)}
		return n.settle(sphere3(1))
	case "revolve", "revolveP":
		theta := 2 * math.Pi
		if op == "revolveP" {
			if c.B(name + ".special") {
				theta = float64(c.I(name+".q", 1, 17)) * math.Pi / 4
			} else {
				theta = c.F(name+".theta", 0.05, 2*math.Pi)
			}
		}
		arg := theta // angles beyond a full turn wrap around
		if theta = math.Mod(theta, 2*math.Pi); theta < 1e-9 {
			theta = 2 * math.Pi
		}
		full := theta == 2*math.Pi
		// make sure the profile has a part at positive x
		if a.w.X < 0.05*c.unit() {
			a = a.translate(v2(0.05*c.unit()+a.wd+c.unit()*c.F(name+".rx", 0, 3)-a.w.X, 0)).opaque(c)
		}
		r := math.Max(math.Abs(a.rb.Min.X), math.Abs(a.rb.Max.X))
		n := &S3{s: sdf.Revolve3D(a.s, arg), ref: func(p r3.Vec) float64 {
			rho := math.Hypot(p.X, p.Y)
			d := a.ref(v2(rho, p.Z))
			if full {
				return d
			}
			phi := math.Atan2(p.Y, p.X)
			if phi < 0 {
				phi += 2 * math.Pi
			}
			// distance to the two half planes bounding the wedge
			near := func(da float64) float64 {
				da = math.Abs(da)
				da = math.Min(da, 2*math.Pi-da)
				if da > math.Pi/2 {
					return rho
				}
				return rho * math.Sin(da)
			}
			w := math.Min(near(phi), near(phi-theta))
			if phi < theta {
				w = -w
			}
			return math.Max(d, w)
		}, rb: r3.Box{Min: v3(-r, -r, a.rb.Min.Y), Max: v3(r, r, a.rb.Max.Y)}, desc: fmt.Sprintf("revolve(%v, %s)", arg, a.desc),
			lip: a.lip, val: a.val && full, axisZ: full, symX: full, sub: false}
		wa := theta / 2
		n.w = v3(a.w.X*math.Cos(wa), a.w.X*math.Sin(wa), a.w.Y)
		n.wd = -n.ref(n.w)
		return n
	}
	panic("from2 " + op)
}
