package render

import (
	"bytes"
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"math"
	"sort"
	"testing"

	"github.com/soypat/sdf"
	"github.com/soypat/sdf/form3/must3"
	"gonum.org/v1/gonum/spatial/r3"
)

func vLess(a, b r3.Vec) bool {
	if a.X != b.X {
		return a.X < b.X
	}
	if a.Y != b.Y {
		return a.Y < b.Y
	}
	return a.Z < b.Z
}

func vSorted(m []r3.Triangle) []r3.Triangle {
	o := append([]r3.Triangle{}, m...)
	sort.Slice(o, func(i, j int) bool {
		for k := 0; k < 3; k++ {
			if o[i][k] != o[j][k] {
				return vLess(o[i][k], o[j][k])
			}
		}
		return false
	})
	return o
}

func vDrain(r Renderer, sizes []int) (out []r3.Triangle, err error) {
	for i := 0; i < 1000000; i++ {
		buf := make([]r3.Triangle, sizes[i%len(sizes)])
		n, err := r.ReadTriangles(buf)
		out = append(out, buf[:n]...)
		if err == io.EOF {
			return out, nil
		}
		if err != nil {
			return out, err
		}
	}
	return out, errors.New("no end")
}

type vNoise struct {
	f  []r3.Vec
	ph []float64
	l  float64
}

func (s vNoise) Evaluate(p r3.Vec) float64 {
	v := 0.0
	for i, f := range s.f {
		v += math.Sin(r3.Dot(f, p)+s.ph[i]) / s.l
	}
	return math.Max(v, math.Max(math.Abs(p.X), math.Max(math.Abs(p.Y), math.Abs(p.Z)))-1)
}

func (s vNoise) Bounds() r3.Box {
	return r3.Box{Min: r3.Vec{X: -1, Y: -1, Z: -1}, Max: r3.Vec{X: 1, Y: 1, Z: 1}}
}

func (c *Case) vSolid() (sdf.SDF3, string) {
	switch c.Pick("solid", "sphere", "box", "union", "noise") {
	case "sphere":
		r := c.LogF("r", 0.1, 10)
		return must3.Sphere(r), fmt.Sprint("sphere ", r)
	case "box":
		v := c.V3("box", 0.2, 4)
		return must3.Box(v, 0), fmt.Sprint("box ", v)
	case "union":
		a, b := must3.Sphere(c.LogF("r", 0.1, 2)), must3.Box(c.V3("box", 0.2, 4), 0)
		at := c.V3("at", -2, 2)
		return sdf.Union3D(a, sdf.Transform3D(b, sdf.Translate3D(at))), fmt.Sprint("union at ", at)
	}
	n := vNoise{}
	for i := 0; i < 3; i++ {
		f := c.V3(fmt.Sprint("f", i), -9, 9)
		n.f, n.ph, n.l = append(n.f, f), append(n.ph, c.F(fmt.Sprint("p", i), 0, 7)), n.l+r3.Norm(f)+0.01
	}
	return n, fmt.Sprintf("noise %v", n)
}

// TestC14_Concurrent: rendering with several goroutines gives the same
// triangles, whatever the number of goroutines and the buffer sizes.
func TestC14_Concurrent(t *testing.T) {
	check(t, 120, "the mesh has at least 100 triangles and 2 or more goroutines run", func(c *Case) {
		s, desc := c.vSolid()
		cells := c.I("cells", 2, 24)
		workers := c.I("workers", 1, 9)
		sizes := make([]int, c.I("k", 1, 6))
		for i := range sizes {
			sizes[i] = c.I(fmt.Sprint("size", i), 1, []int{12, 200, 3000}[c.I(fmt.Sprint("sk", i), 0, 2)])
		}
		c.Desc("%s at %d cells, %d goroutines, buffers %v", desc, cells, workers, sizes)
		want, err := vDrain(NewOctreeRenderer(s, cells), []int{100000})
		if err != nil {
			c.Failf("serial: %v", err)
		}
		oc := NewOctreeRenderer(s, cells)
		oc.concurrent = workers
		got, err := vDrain(oc, sizes)
		if err != nil {
			c.Failf("concurrent: %v", err)
		}
		if len(want) >= 100 && workers > 1 {
			c.NonTrivial()
		}
		if len(got) != len(want) {
			c.Failf("%d triangles, serially %d", len(got), len(want))
		}
		a, b := vSorted(got), vSorted(want)
		for i := range a {
			if a[i] != b[i] {
				c.Failf("triangle %v, serially %v", a[i], b[i])
			}
		}
		if oc.triangles != len(got) {
			c.Failf("counted %d triangles of %d", oc.triangles, len(got))
		}
		if oc.cubes != oc.cubesP {
			c.Failf("%d cubes found, %d processed", oc.cubes, oc.cubesP)
		}
	})
}

// vReader hands out b in pieces; the error may come along with the last bytes.
type vReader struct {
	b     []byte
	sizes []int
	i     int
	along bool
	err   error
}

func (r *vReader) Read(p []byte) (int, error) {
	if len(r.b) == 0 {
		return 0, r.err
	}
	k := r.sizes[r.i%len(r.sizes)]
	r.i++
	if k > len(p) {
		k = len(p)
	}
	n := copy(p[:k], r.b)
	r.b = r.b[n:]
	if len(r.b) == 0 && r.along {
		return n, r.err
	}
	return n, nil
}

func (c *Case) vReader(b []byte) *vReader {
	r := &vReader{b: b, along: c.B("along"), err: io.EOF}
	for i := 0; i < c.I("pieces", 1, 4); i++ {
		r.sizes = append(r.sizes, c.I(fmt.Sprint("piece", i), 1, []int{3, 60, 400}[c.I(fmt.Sprint("pk", i), 0, 2)]))
	}
	return r
}

func (c *Case) vTriangles(n int) []r3.Triangle {
	ps := c.Pts3("t")
	sc := c.LogF("scale", 1e-2, 1e3)
	o := make([]r3.Triangle, n)
	for i := range o {
		h := r3.Vec{X: 0.5, Y: 0.5, Z: 0.5}
		base := r3.Sub(ps.at(3*i), h)
		a, b := r3.Sub(ps.at(3*i+1), h), r3.Sub(ps.at(3*i+2), h)
		if r3.Norm(r3.Cross(a, b)) < 0.03 {
			a, b = r3.Vec{X: 1, Z: 0.1}, r3.Vec{Y: 1, Z: 0.2}
		}
		o[i] = r3.Triangle{r3.Scale(sc, base), r3.Scale(sc, r3.Add(base, a)), r3.Scale(sc, r3.Add(base, b))}
	}
	return o
}

func v32(v r3.Vec) r3.Vec {
	return r3.Vec{X: float64(float32(v.X)), Y: float64(float32(v.Y)), Z: float64(float32(v.Z))}
}

// TestC16_RoundTrip: a written STL is read back with every vertex to single
// precision, in whatever pieces the bytes arrive.
func TestC16_RoundTrip(t *testing.T) {
	check(t, 600, "at least two triangles", func(c *Case) {
		n := c.I("n", 1, 30)
		if c.I("many", 0, 40) == 0 {
			n = c.I("nn", 31, 6000) // many buffers' worth
			c.Label("many")
		}
		m := c.vTriangles(n)
		var b bytes.Buffer
		if err := WriteSTL(&b, m); err != nil {
			c.Failf("WriteSTL: %v", err)
		}
		r := c.vReader(b.Bytes())
		if c.B("trailing") {
			r.b = append(r.b, 1, 2, 3)
		}
		c.Desc("%d triangles in pieces of %v, EOF with the last piece: %v", len(m), r.sizes, r.along)
		got, err := readBinarySTL(r)
		if err != nil {
			c.Failf("readBinarySTL: %v", err)
		}
		if len(m) > 1 {
			c.NonTrivial()
		}
		if len(got) != len(m) {
			c.Failf("%d triangles, want %d", len(got), len(m))
		}
		for i := range m {
			for j := range m[i] {
				if got[i][j] != v32(m[i][j]) {
					c.Failf("triangle %d vertex %d is %v, want %v", i, j, got[i][j], m[i][j])
				}
			}
		}
	})
}

// TestC16_Huge: files of up to millions of triangles are read in full.
func TestC16_Huge(t *testing.T) {
	check(t, 1, "more than 65536 triangles", func(c *Case) {
		n := int(c.LogF("n", 1<<15, 1<<21))
		if n > 65536 {
			c.NonTrivial()
		}
		c.Desc("%d triangles", n)
		at := func(i int) r3.Triangle {
			b := r3.Vec{X: float64(i % 1000), Y: float64(i / 1000 % 1000), Z: float64(i/1000000 + i%17)}
			return r3.Triangle{b, r3.Add(b, r3.Vec{X: 1}), r3.Add(b, r3.Vec{Y: 1, Z: 1})}
		}
		m := make([]r3.Triangle, n)
		for i := range m {
			m[i] = at(i)
		}
		b := bytes.NewBuffer(make([]byte, 0, 84+50*n))
		if err := WriteSTL(b, m); err != nil {
			c.Failf("WriteSTL: %v", err)
		}
		got, err := readBinarySTL(b)
		if err != nil {
			c.Failf("reading %d triangles: %v", n, err)
		}
		if len(got) != n {
			c.Failf("%d of %d triangles", len(got), n)
		}
		for i := range got {
			if got[i] != m[i] {
				c.Failf("triangle %d is %v, want %v", i, got[i], m[i])
			}
		}
	})
}

// TestC16_Damaged: damaged files give an error or the intact triangles; never a
// panic, a silent loss, or a non-finite vertex.
func TestC16_Damaged(t *testing.T) {
	check(t, 1500, "the damage is past the header", func(c *Case) {
		m := c.vTriangles(c.I("n", 1, 12))
		var b bytes.Buffer
		if err := WriteSTL(&b, m); err != nil {
			c.Failf("WriteSTL: %v", err)
		}
		f := b.Bytes()
		kind := c.Pick("kind", "truncate", "count", "nan", "normal", "collapse", "flip", "readerror", "same")
		c.Label(kind)
		want := len(m)
		mustFail, mayWarn := false, false
		var rerr error = io.EOF
		switch kind {
		case "truncate":
			at := c.I("at", 0, len(f)-1)
			f = f[:at]
			mustFail = true
			if at > 84 {
				c.NonTrivial()
			}
		case "count":
			k := c.I("count", 0, 2*len(m))
			binary.LittleEndian.PutUint32(f[80:], uint32(k))
			want, mustFail = k, k == 0 || k > len(m)
			c.NonTrivial()
		case "nan":
			i := c.I("tri", 0, len(m)-1)
			o := 84 + 50*i + 4*c.I("float", 0, 11)
			binary.LittleEndian.PutUint32(f[o:], []uint32{0x7fc00000, 0x7f800000, 0xff800000, 0x7f800001}[c.I("bits", 0, 3)])
			mustFail = true
			c.NonTrivial()
		case "normal":
			i := c.I("tri", 0, len(m)-1)
			o := 84 + 50*i
			n := r3.Unit(m[i].Normal())
			q := r3.Cross(n, r3.Vec{X: 0.3, Y: 0.5, Z: 0.8})
			for j, x := range []float64{q.X + 2, q.Y, q.Z} {
				binary.LittleEndian.PutUint32(f[o+4*j:], math.Float32bits(float32(x)))
			}
			mustFail, mayWarn = true, true
			c.NonTrivial()
		case "collapse": // two vertices of a triangle are the same
			o := 84 + 50*c.I("tri", 0, len(m)-1) + 12
			k := c.I("vertex", 0, 2)
			copy(f[o+12*k:o+12*k+12], append([]byte(nil), f[o+12*((k+1)%3):o+12*((k+1)%3)+12]...))
			mustFail, mayWarn = true, true
			c.NonTrivial()
		case "flip":
			k := c.I("flips", 1, 4)
			for i := 0; i < k; i++ {
				f[c.I(fmt.Sprint("byte", i), 0, len(f)-1)] ^= 1 << uint(c.I(fmt.Sprint("bit", i), 0, 7))
			}
			mayWarn = true
			want = int(binary.LittleEndian.Uint32(f[80:]))
			c.NonTrivial()
		case "readerror":
			f = f[:c.I("at", 0, len(f)-1)]
			rerr = io.ErrClosedPipe
			mustFail = true
			if len(f) > 84 {
				c.NonTrivial()
			}
		}
		r := c.vReader(f)
		r.err = rerr
		c.Desc("%d triangles, damage %s, pieces %v", len(m), kind, r.sizes)
		got, err := readBinarySTL(r)
		warn := errors.Is(err, errCalculatedNormalMismatch)
		if mustFail && err == nil {
			c.Failf("no error, %d triangles", len(got))
		}
		if kind == "readerror" && len(f) > 84 && !errors.Is(err, io.ErrClosedPipe) {
			c.Failf("read error lost: %v", err)
		}
		if kind == "normal" && !warn {
			c.Failf("normal mismatch reported as %v", err)
		}
		if !mustFail && !mayWarn && err != nil {
			c.Failf("unexpected error %v", err)
		}
		if warn && !mayWarn {
			c.Failf("unexpected normal mismatch: %v", err)
		}
		if (err == nil || warn) && len(got) != want {
			c.Failf("%d triangles, the file announces %d (error %v)", len(got), want, err)
		}
		for i, t := range got {
			for j, v := range t {
				if math.IsNaN(v.X+v.Y+v.Z) || math.IsInf(v.X+v.Y+v.Z, 0) {
					c.Failf("triangle %d vertex %d is %v", i, j, v)
				}
			}
		}
	})
}

// TestC16_Mismatched: however many triangles carry a normal that disagrees with
// their vertices, the reader says so; and a file it calls merely mismatched is
// read in full.
func TestC16_Mismatched(t *testing.T) {
	check(t, 12, "more than 10000 normals disagree", func(c *Case) {
		n := c.I("n", 1, 14000)
		if c.B("limit") {
			n = c.I("n2", 9990, 10040)
		}
		m := c.vTriangles(n)
		var b bytes.Buffer
		if err := WriteSTL(&b, m); err != nil {
			c.Failf("WriteSTL: %v", err)
		}
		f := b.Bytes()
		one := -1 // all of them, or one in so many
		if c.B("some") {
			one = c.I("one", 1, 3000)
		}
		bad := 0
		for i := range m {
			if one > 0 && (i+1)%one != 0 {
				continue
			}
			bad++
			o := 84 + 50*i
			nn := r3.Unit(m[i].Normal())
			q := r3.Cross(nn, r3.Vec{X: 0.3, Y: 0.5, Z: 0.8})
			for j, x := range []float64{q.X + 2, q.Y, q.Z} {
				binary.LittleEndian.PutUint32(f[o+4*j:], math.Float32bits(float32(x)))
			}
		}
		r := c.vReader(f)
		c.Desc("%d triangles, %d with a wrong normal", n, bad)
		if bad > 10000 {
			c.NonTrivial()
		}
		got, err := readBinarySTL(r)
		if bad > 0 && err == nil {
			c.Failf("no error, %d triangles read", len(got))
		}
		if bad == 0 && err != nil {
			c.Failf("unexpected error %v", err)
		}
		if errors.Is(err, errCalculatedNormalMismatch) || err == nil {
			if len(got) != n {
				c.Failf("%d triangles, want %d (error %v)", len(got), n, err)
			}
		}
		if len(got) > n {
			c.Failf("%d triangles from a file of %d", len(got), n)
		}
		for i := range got {
			for j := range got[i] {
				if got[i][j] != v32(m[i][j]) {
					c.Failf("triangle %d vertex %d is %v, want %v", i, j, got[i][j], m[i][j])
				}
			}
		}
	})
}

// TestC16_Garbage: arbitrary bytes never make the reader panic.
func TestC16_Garbage(t *testing.T) {
	check(t, 600, "more bytes than a header", func(c *Case) {
		n := c.I("n", 0, 400)
		f := make([]byte, n)
		seed := c.mixRand("seed")
		for i := range f {
			f[i] = byte(seed())
		}
		if n >= 84 {
			c.NonTrivial()
			if c.B("few") {
				binary.LittleEndian.PutUint32(f[80:], uint32(c.I("count", 0, 9)))
			}
		}
		c.Desc("%d random bytes", n)
		got, err := readBinarySTL(c.vReader(f))
		if err == nil && len(got)*50+84 > n {
			c.Failf("%d triangles from %d bytes", len(got), n)
		}
	})
}

// mixRand is a small generator seeded by a drawn number.
func (c *Case) mixRand(name string) func() uint32 {
	s := uint32(c.I(name, 1, 1<<30))
	return func() uint32 {
		s ^= s << 13
		s ^= s >> 17
		s ^= s << 5
		return s >> 7
	}
}
