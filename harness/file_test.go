package harness

import (
	"archive/zip"
	"bytes"
	"encoding/binary"
	"encoding/xml"
	"errors"
	"fmt"
	"io"
	"math"
	"os"
	"path/filepath"
	"strconv"
	"strings"
	"testing"

	"github.com/soypat/sdf/render"
	"gonum.org/v1/gonum/spatial/r3"
)

// checkSTL compares binary STL bytes with the triangles they must contain.
func checkSTL(b []byte, want []r3.Triangle) error {
	if len(b) != 84+50*len(want) {
		return fmt.Errorf("%d bytes for %d triangles", len(b), len(want))
	}
	if n := binary.LittleEndian.Uint32(b[80:]); int(n) != len(want) {
		return fmt.Errorf("header announces %d of %d triangles", n, len(want))
	}
	if bytes.HasPrefix(b, []byte("solid")) {
		return errors.New("header reads as ASCII STL")
	}
	f := func(o int) float64 { return float64(math.Float32frombits(binary.LittleEndian.Uint32(b[o:]))) }
	for i, t := range want {
		o := 84 + 50*i
		for j, v := range t {
			at := o + 12 + 12*j
			if g := v3(f(at), f(at+4), f(at+8)); g != v3(float64(float32(v.X)), float64(float32(v.Y)), float64(float32(v.Z))) {
				return fmt.Errorf("triangle %d vertex %d is %v, want %v", i, j, g, v)
			}
		}
		n := r3.Cross(r3.Sub(t[1], t[0]), r3.Sub(t[2], t[0]))
		n = r3.Scale(1/r3.Norm(n), n)
		if g := v3(f(o), f(o+4), f(o+8)); !(r3.Norm(r3.Sub(g, n)) < 1e-5) {
			return fmt.Errorf("triangle %d normal is %v, want %v", i, g, n)
		}
		if b[o+48] != 0 || b[o+49] != 0 {
			return fmt.Errorf("triangle %d attribute count %d", i, binary.LittleEndian.Uint16(b[o+48:]))
		}
	}
	return nil
}

func scratch(c *Case) string {
	d, err := os.MkdirTemp("", "verif-file")
	if err != nil {
		panic(err)
	}
	c.Cleanup(func() { os.RemoveAll(d) })
	return d
}

// TestC15_Write: WriteSTL is a faithful binary STL of any triangles.
func TestC15_Write(t *testing.T) {
	check(t, 400, "at least one triangle", func(c *Case) {
		n := c.I("n", 0, 40)
		m := c.triangles("t", n)
		in := append([]r3.Triangle{}, m...)
		c.Desc("%d triangles, first %v", n, first(m))
		var b bytes.Buffer
		err := render.WriteSTL(&b, in)
		if n == 0 {
			if err == nil {
				c.Failf("no error for an empty model")
			}
			return
		}
		c.NonTrivial()
		if err != nil {
			c.Failf("WriteSTL: %v", err)
		}
		if err := checkSTL(b.Bytes(), m); err != nil {
			c.Failf("%v", err)
		}
		for i := range m {
			if in[i] != m[i] {
				c.Failf("WriteSTL modified the model")
			}
		}
	})
}

func first(m []r3.Triangle) any {
	if len(m) == 0 {
		return "none"
	}
	return m[0]
}

// TestC15_Create: CreateSTL writes all triangles of any renderer, whatever way
// it hands them out, over whatever the file held before; renderer errors arrive.
func TestC15_Create(t *testing.T) {
	check(t, 150, "at least one triangle", func(c *Case) {
		s, want := c.script(3000)
		werr := s.err
		path := filepath.Join(scratch(c), "m.stl")
		if c.B("existing") {
			c.Label("existing file")
			os.WriteFile(path, bytes.Repeat([]byte("solid old "), c.I("old", 1, 30000)), 0o600)
		}
		if len(want) > 0 {
			c.NonTrivial()
		}
		err := render.CreateSTL(path, s)
		if werr != io.EOF {
			if !errors.Is(err, werr) {
				c.Failf("error %v lost, got %v", werr, err)
			}
			return
		}
		if err != nil {
			c.Failf("CreateSTL: %v", err)
		}
		b, err := os.ReadFile(path)
		if err != nil {
			c.Failf("%v", err)
		}
		if err := checkSTL(b, want); err != nil {
			c.Failf("%v", err)
		}
	})
}

// TestC15_Large: a model that needs many buffers.
func TestC15_Large(t *testing.T) {
	check(t, 3, "more than 40000 triangles", func(c *Case) {
		n := []int{c.I("n", 40000, 60000), c.I("n2", 65536, 140000)}[c.I("huge", 0, 1)]
		m := c.triangles("t", n)
		s := &scripted{tris: m, steps: []int{c.I("step", 1, 40000), c.I("step2", 1, 40000)}, last: c.B("last"), err: io.EOF}
		c.Desc("%d triangles, at most %v per call", n, s.steps)
		c.NonTrivial()
		path := filepath.Join(scratch(c), "m.stl")
		if err := render.CreateSTL(path, s); err != nil {
			c.Failf("CreateSTL: %v", err)
		}
		b, err := os.ReadFile(path)
		if err != nil {
			c.Failf("%v", err)
		}
		if err := checkSTL(b, m); err != nil {
			c.Failf("%v", err)
		}
	})
}

// grid is a relief of n triangles whose coordinates single precision can hold.
func grid(n int, scale float64) []r3.Triangle {
	m := make([]r3.Triangle, n)
	for i := range m {
		b := v3(scale*float64(i%1000), scale*float64(i/1000%1000), scale*float64(i/1000000+i%17))
		m[i] = r3.Triangle{b, r3.Add(b, v3(scale, 0, 0)), r3.Add(b, v3(0, scale, scale))}
	}
	return m
}

// TestC15_Huge: counts up to millions of triangles, where narrow counters and
// limits of implementations would show.
func TestC15_Huge(t *testing.T) {
	check(t, 1, "more than 65536 triangles", func(c *Case) {
		n := int(c.LogF("n", 1<<15, 1<<21))
		m := grid(n, []float64{0.25, 1, 16}[c.I("scale", 0, 2)])
		if n > 65536 {
			c.NonTrivial()
		}
		if c.B("create") {
			c.Desc("creating %d triangles", n)
			path := filepath.Join(scratch(c), "m.stl")
			s := &scripted{tris: m, steps: []int{c.I("step", 1000, 40000)}, last: c.B("last"), err: io.EOF}
			if err := render.CreateSTL(path, s); err != nil {
				c.Failf("CreateSTL of %d triangles: %v", n, err)
			}
			b, err := os.ReadFile(path)
			if err == nil {
				err = checkSTL(b, m)
			}
			if err != nil {
				c.Failf("CreateSTL of %d triangles: %v", n, err)
			}
			return
		}
		c.Desc("writing %d triangles", n)
		b := bytes.NewBuffer(make([]byte, 0, 84+50*n))
		err := render.WriteSTL(b, m)
		if err == nil {
			err = checkSTL(b.Bytes(), m)
		}
		if err != nil {
			c.Failf("WriteSTL of %d triangles: %v", n, err)
		}
	})
}

// TestC15_Render: a rendered solid reaches the file unchanged, by either way
// of writing it.
func TestC15_Render(t *testing.T) {
	check(t, 40, ruleMesh, func(c *Case) {
		so := c.solid("s")
		cells := c.meshCells()
		c.Desc("%s at %d cells", so.desc, cells)
		m := renderAll(c, so.s, cells)
		if len(m) >= 12 {
			c.NonTrivial()
		}
		path := filepath.Join(scratch(c), "m.stl")
		if err := render.CreateSTL(path, render.NewOctreeRenderer(so.s, cells)); err != nil {
			c.Failf("CreateSTL: %v", err)
		}
		b, err := os.ReadFile(path)
		if err != nil {
			c.Failf("%v", err)
		}
		if err := sameSTL(b, m); err != nil {
			c.Failf("%v", err)
		}
		if len(m) == 0 {
			return
		}
		var w bytes.Buffer
		if err := render.WriteSTL(&w, m); err != nil {
			c.Failf("WriteSTL: %v", err)
		}
		if err := sameSTL(w.Bytes(), m); err != nil {
			c.Failf("%v", err)
		}
	})
}

// sameSTL compares the triangles in the file with m as sets, in single
// precision (slivers may have any normal).
func sameSTL(b []byte, m []r3.Triangle) error {
	if len(b) != 84+50*len(m) || int(binary.LittleEndian.Uint32(b[80:])) != len(m) {
		return fmt.Errorf("%d bytes and a count of %d for %d triangles", len(b), binary.LittleEndian.Uint32(b[80:84]), len(m))
	}
	f := func(o int) float64 { return float64(math.Float32frombits(binary.LittleEndian.Uint32(b[o:]))) }
	got := make([]r3.Triangle, len(m))
	for i := range got {
		for j := range got[i] {
			at := 84 + 50*i + 12 + 12*j
			got[i][j] = v3(f(at), f(at+4), f(at+8))
		}
	}
	want := make([]r3.Triangle, len(m))
	for i, t := range m {
		for j, v := range t {
			want[i][j] = v3(float64(float32(v.X)), float64(float32(v.Y)), float64(float32(v.Z)))
		}
	}
	if d := diffMeshes(got, want); d != "" {
		return fmt.Errorf("file against mesh: %s", d)
	}
	return nil
}

type failWriter struct {
	left  int
	short bool
}

var errWrite = errors.New("disk full")

func (w *failWriter) Write(b []byte) (int, error) {
	if len(b) <= w.left {
		w.left -= len(b)
		return len(b), nil
	}
	n := w.left
	w.left = 0
	if w.short {
		n = 0
	}
	return n, errWrite
}

// TestC15_Faults: a write that fails anywhere is reported.
func TestC15_Faults(t *testing.T) {
	check(t, 300, "the write fails after the header", func(c *Case) {
		n := c.I("n", 1, 30)
		m := c.triangles("t", n)
		at := c.I("at", 0, 84+50*n-1)
		c.Desc("%d triangles, write fails after %d bytes", n, at)
		if at > 84 {
			c.NonTrivial()
		}
		if err := render.WriteSTL(&failWriter{left: at, short: c.B("short")}, m); !errors.Is(err, errWrite) {
			c.Failf("WriteSTL returned %v", err)
		}
		dir := scratch(c)
		eof := func() *scripted {
			return &scripted{tris: append([]r3.Triangle{}, m...), steps: []int{7}, err: io.EOF}
		}
		for _, p := range []string{filepath.Join(dir, "none", "m.stl"), dir} {
			if err := render.CreateSTL(p, eof()); err == nil {
				c.Failf("CreateSTL(%s): no error", p)
			}
		}
		full := filepath.Join(dir, "full")
		if os.Symlink("/dev/full", full) == nil {
			if st, err := os.Stat(full); err == nil && st.Mode()&os.ModeCharDevice != 0 {
				c.Label("full device")
				if err := render.CreateSTL(full, eof()); err == nil {
					c.Failf("CreateSTL on a full device: no error")
				}
			}
		}
	})
}

// --- 3MF -------------------------------------------------------------------------

type mfModel struct {
	XMLName   xml.Name `xml:"model"`
	Unit      string   `xml:"unit,attr"`
	Resources struct {
		Objects []struct {
			ID   string `xml:"id,attr"`
			Type string `xml:"type,attr"`
			Mesh struct {
				Vertices []struct {
					X string `xml:"x,attr"`
					Y string `xml:"y,attr"`
					Z string `xml:"z,attr"`
				} `xml:"vertices>vertex"`
				Triangles []struct {
					V1 string `xml:"v1,attr"`
					V2 string `xml:"v2,attr"`
					V3 string `xml:"v3,attr"`
				} `xml:"triangles>triangle"`
			} `xml:"mesh"`
		} `xml:"object"`
	} `xml:"resources"`
	Build struct {
		Items []struct {
			ObjectID  string `xml:"objectid,attr"`
			Transform string `xml:"transform,attr"`
		} `xml:"item"`
	} `xml:"build"`
}

// read3MF follows the package from its root relationship to the model, as a
// consumer does.
func read3MF(path string) ([]r3.Triangle, error) {
	z, err := zip.OpenReader(path)
	if err != nil {
		return nil, err
	}
	defer z.Close()
	part := map[string][]byte{}
	for _, f := range z.File {
		r, err := f.Open()
		if err != nil {
			return nil, err
		}
		b, err := io.ReadAll(r)
		if err != nil {
			return nil, err
		}
		if _, dup := part[f.Name]; dup {
			return nil, fmt.Errorf("part %s twice", f.Name)
		}
		part[f.Name] = b
	}
	var ct struct {
		XMLName xml.Name `xml:"http://schemas.openxmlformats.org/package/2006/content-types Types"`
		Default []struct {
			Extension   string `xml:",attr"`
			ContentType string `xml:",attr"`
		} `xml:"Default"`
	}
	if err := xml.Unmarshal(part["[Content_Types].xml"], &ct); err != nil {
		return nil, fmt.Errorf("content types: %v", err)
	}
	types := map[string]string{}
	for _, d := range ct.Default {
		types[d.Extension] = d.ContentType
	}
	if types["rels"] != "application/vnd.openxmlformats-package.relationships+xml" {
		return nil, fmt.Errorf("content type of rels %q", types["rels"])
	}
	var rel struct {
		XMLName      xml.Name `xml:"http://schemas.openxmlformats.org/package/2006/relationships Relationships"`
		Relationship []struct {
			Target string `xml:",attr"`
			ID     string `xml:"Id,attr"`
			Type   string `xml:",attr"`
		} `xml:"Relationship"`
	}
	if err := xml.Unmarshal(part["_rels/.rels"], &rel); err != nil {
		return nil, fmt.Errorf("relationships: %v", err)
	}
	name := ""
	for _, r := range rel.Relationship {
		if r.Type == "http://schemas.microsoft.com/3dmanufacturing/2013/01/3dmodel" {
			name = strings.TrimPrefix(r.Target, "/")
		}
	}
	if types[strings.TrimPrefix(filepath.Ext(name), ".")] != "application/vnd.ms-package.3dmanufacturing-3dmodel+xml" {
		return nil, fmt.Errorf("content type of the model part %q", name)
	}
	body, ok := part[name]
	if !ok {
		return nil, fmt.Errorf("model part %q missing", name)
	}
	var m mfModel
	if err := xml.Unmarshal(body, &m); err != nil {
		return nil, err
	}
	if m.XMLName.Space != "http://schemas.microsoft.com/3dmanufacturing/core/2015/02" {
		return nil, fmt.Errorf("namespace %q", m.XMLName.Space)
	}
	if m.Unit != "millimeter" {
		return nil, fmt.Errorf("unit %q", m.Unit)
	}
	var out []r3.Triangle
	objs := map[string]int{}
	for i, o := range m.Resources.Objects {
		if _, dup := objs[o.ID]; dup {
			return nil, fmt.Errorf("object id %s twice", o.ID)
		}
		if k, err := strconv.Atoi(o.ID); err != nil || k < 1 {
			return nil, fmt.Errorf("object id %q", o.ID)
		}
		if o.Type != "model" && o.Type != "" {
			return nil, fmt.Errorf("object type %q", o.Type)
		}
		objs[o.ID] = i
	}
	for _, it := range m.Build.Items {
		i, ok := objs[it.ObjectID]
		if !ok {
			return nil, fmt.Errorf("build item refers to %q", it.ObjectID)
		}
		if it.Transform != "" {
			return nil, fmt.Errorf("unexpected transform %q", it.Transform)
		}
		o := m.Resources.Objects[i]
		vs := make([]r3.Vec, len(o.Mesh.Vertices))
		for j, v := range o.Mesh.Vertices {
			for k, s := range []string{v.X, v.Y, v.Z} {
				f, err := strconv.ParseFloat(s, 64)
				if err != nil {
					return nil, fmt.Errorf("coordinate %q", s)
				}
				switch k {
				case 0:
					vs[j].X = f
				case 1:
					vs[j].Y = f
				case 2:
					vs[j].Z = f
				}
			}
		}
		used := map[int]bool{}
		for _, t := range o.Mesh.Triangles {
			var tr r3.Triangle
			for k, s := range []string{t.V1, t.V2, t.V3} {
				j, err := strconv.Atoi(s)
				if err != nil || j < 0 || j >= len(vs) {
					return nil, fmt.Errorf("triangle index %q of %d vertices", s, len(vs))
				}
				tr[k] = vs[j]
				used[j] = true
			}
			out = append(out, tr)
		}
		dup := map[r3.Vec]int{}
		for j, v := range vs {
			if i, ok := dup[v]; ok {
				return nil, fmt.Errorf("vertices %d and %d are the same point %v", i, j, v)
			}
			dup[v] = j
		}
		if len(used) != len(vs) {
			return nil, fmt.Errorf("%d of %d vertices unused", len(vs)-len(used), len(vs))
		}
	}
	return out, nil
}

// shared triangles: a soup where vertices are reused, as in a real mesh.
func (c *Case) sharedTriangles(n int) []r3.Triangle {
	k := c.I("verts", 3, 40)
	ps := c.Pts3("v")
	sc := c.LogF("scale", 1e-6, 1e5)
	vs := make([]r3.Vec, k)
	for i := range vs {
		vs[i] = r3.Scale(sc, r3.Sub(ps.at(i), v3(0.5, 0.5, 0.5)))
		if i%5 == 4 {
			vs[i].Z = vs[i-1].Z // equal coordinates
		}
		if i%7 == 6 {
			vs[i].X = 0
		}
	}
	o := make([]r3.Triangle, n)
	for i := range o {
		a := int(ps.at(1000+3*i).X * float64(k))
		b := int(ps.at(1000+3*i).Y * float64(k))
		d := int(ps.at(1000+3*i).Z * float64(k))
		if b == a {
			b = (a + 1) % k
		}
		for d == a || d == b {
			d = (d + 1) % k
		}
		o[i] = r3.Triangle{vs[a], vs[b], vs[d]}
		if i%2 == 1 {
			// the same vertices with zeros of the other sign
			for j := range o[i] {
				o[i][j] = r3.Vec{X: negZero(o[i][j].X), Y: negZero(o[i][j].Y), Z: negZero(o[i][j].Z)}
			}
		}
	}
	return o
}

// negZero turns +0 into -0.
func negZero(x float64) float64 {
	if x == 0 {
		return math.Copysign(0, -1)
	}
	return x
}

func quietly(f func()) {
	old := os.Stdout
	if null, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0); err == nil {
		os.Stdout = null
		defer func() { os.Stdout = old; null.Close() }()
	}
	f()
}

// TestC17_RoundTrip: a 3MF file read back following the standard contains the
// same triangles bit for bit, with shared vertices.
func TestC17_RoundTrip(t *testing.T) {
	check(t, 250, "at least one triangle", func(c *Case) {
		var want []r3.Triangle
		var r render.Renderer
		werr, size := io.EOF, 0.0
		if c.B("solid") {
			so := c.solid("s")
			cells := c.I("cells", 2, 16)
			c.Desc("%s at %d cells", so.desc, cells)
			want = renderAll(c, so.s, cells)
			r = render.NewOctreeRenderer(so.s, cells)
			size = diag3(so.s.Bounds()) + absmax3(so.s.Bounds())
		} else {
			s, _ := c.script(300)
			want = c.sharedTriangles(len(s.tris))
			s.tris = append([]r3.Triangle{}, want...)
			werr = s.err
			r = s
		}
		if len(want) > 0 {
			c.NonTrivial()
		}
		path := filepath.Join(scratch(c), "m.3mf")
		if c.B("existing") {
			os.WriteFile(path, bytes.Repeat([]byte("PK old "), c.I("old", 1, 30000)), 0o600)
		}
		var err error
		quietly(func() { err = render.Create3MF(path, r) })
		if werr != io.EOF {
			if !errors.Is(err, werr) {
				c.Failf("error %v lost, got %v", werr, err)
			}
			return
		}
		if err != nil {
			c.Failf("Create3MF: %v", err)
		}
		got, err := read3MF(path)
		if err != nil {
			c.Failf("reading back: %v", err)
		}
		if d := diffMeshes(got, want); d != "" {
			c.Failf("file against triangles: %s", d)
		}
		if size > 0 {
			if e := openEdges(got, 0, 1e-10*size); e != "" {
				c.Failf("%d triangles, not manifold by vertex index: %s", len(got), e)
			}
		}
	})
}

// TestC17_Faults: a file that cannot be created or written is reported.
func TestC17_Faults(t *testing.T) {
	check(t, 60, "a device without space was there to write to", func(c *Case) {
		n := c.I("n", 0, 400)
		m := c.triangles("t", n)
		c.Desc("%d triangles", n)
		eof := func() *scripted {
			return &scripted{tris: append([]r3.Triangle{}, m...), steps: []int{7}, err: io.EOF}
		}
		dir := scratch(c)
		paths := []string{filepath.Join(dir, "none", "m.3mf"), dir}
		full := filepath.Join(dir, "full")
		if os.Symlink("/dev/full", full) == nil {
			if st, err := os.Stat(full); err == nil && st.Mode()&os.ModeCharDevice != 0 {
				paths = append(paths, full)
				c.NonTrivial()
			}
		}
		for _, p := range paths {
			var err error
			quietly(func() { err = render.Create3MF(p, eof()) })
			if err == nil {
				c.Failf("Create3MF(%s): no error", p)
			}
		}
	})
}

// TestC17_Large: a mesh with more vertices than two bytes can number.
func TestC17_Large(t *testing.T) {
	check(t, 1, "more than 65536 vertices", func(c *Case) {
		n := c.I("n", 22000, 30000)
		m := c.triangles("t", n)
		if c.B("shared") { // a grid, each vertex in up to six triangles
			m = m[:0]
			k := c.I("k", 257, 300)
			at := func(i, j int) r3.Vec { return v3(float64(i), float64(j), float64(i*j%17)) }
			for i := 0; i < k; i++ {
				for j := 0; j < k; j++ {
					m = append(m, r3.Triangle{at(i, j), at(i+1, j), at(i+1, j+1)}, r3.Triangle{at(i, j), at(i+1, j+1), at(i, j+1)})
				}
			}
		}
		c.Desc("%d triangles", len(m))
		c.NonTrivial()
		path := filepath.Join(scratch(c), "m.3mf")
		var err error
		quietly(func() {
			err = render.Create3MF(path, &scripted{tris: append([]r3.Triangle{}, m...), steps: []int{c.I("step", 1000, 5000)}, err: io.EOF})
		})
		if err != nil {
			c.Failf("Create3MF: %v", err)
		}
		got, err := read3MF(path)
		if err != nil {
			c.Failf("reading back: %v", err)
		}
		if d := diffMeshes(got, m); d != "" {
			c.Failf("file against triangles: %s", d)
		}
	})
}
