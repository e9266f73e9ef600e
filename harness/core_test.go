package harness

import (
	"encoding/binary"
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"math"
	"os"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"testing"

	"gonum.org/v1/gonum/spatial/r2"
	"gonum.org/v1/gonum/spatial/r3"
	"pgregory.net/rapid"
)

// ---------------------------------------------------------------------------
// Statistics: what one run generated. Written as JSON to $VERIF_STATS.

type propStats struct {
	Evaluations int            `json:"evaluations"`
	Hashes      map[string]int `json:"-"`
	Keys        []string       `json:"keys"`   // hashes of distinct non-trivial cases
	Labels      map[string]int `json:"labels"` // distribution of generated classes
	Rules       []string       `json:"rules"`
	Samples     []string       `json:"samples"`
	Known       []string       `json:"known"`
	Excluded    map[string]int `json:"excluded"`
}

var (
	statsMu sync.Mutex
	stats   = &propStats{Hashes: map[string]int{}, Labels: map[string]int{}, Excluded: map[string]int{}}
)

func TestMain(m *testing.M) {
	flag.Parse()
	rc := m.Run()
	if path := os.Getenv("VERIF_STATS"); path != "" {
		statsMu.Lock()
		for k := range stats.Hashes {
			stats.Keys = append(stats.Keys, k)
		}
		sort.Strings(stats.Keys)
		b, err := json.Marshal(stats)
		statsMu.Unlock()
		if err == nil {
			err = os.WriteFile(path, b, 0o644)
		}
		if err != nil {
			fmt.Fprintln(os.Stderr, "verif: cannot write stats:", err)
			os.Exit(3)
		}
	}
	os.Exit(rc)
}

// Case is one generated case. All randomness goes through rapid.
type Case struct {
	*rapid.T
	h       uint64
	labels  []string
	nontriv bool
	desc    strings.Builder
	// iso: references of a tree's operands are the operands' own fields, so
	// that a check judges the root operation alone.
	iso bool
	// len is the length unit once drawn; plain keeps to everyday magnitudes.
	len   float64
	lens  []float64 // lengths drawn so far
	plain bool
}

func (c *Case) mix(b uint64) {
	f := fnv.New64a()
	var buf [16]byte
	binary.LittleEndian.PutUint64(buf[:], c.h)
	binary.LittleEndian.PutUint64(buf[8:], b)
	f.Write(buf[:])
	c.h = f.Sum64()
}

var unitGen = rapid.Float64Range(1, math.Nextafter(2, 0))

// U draws from [0,1), roughly uniform with varied binary precision (so that
// "round" values such as 0, 0.5 and 0.25 are produced too).
func (c *Case) U(name string) float64 {
	u := unitGen.Draw(c.T, name) - 1
	c.mix(math.Float64bits(u))
	return u
}

// F draws from [lo,hi].
func (c *Case) F(name string, lo, hi float64) float64 {
	return lo + (hi-lo)*c.U(name)
}

// LogF draws from [lo,hi], log-uniformly.
func (c *Case) LogF(name string, lo, hi float64) float64 {
	return lo * math.Pow(hi/lo, c.U(name))
}

func (c *Case) I(name string, lo, hi int) int {
	v := rapid.IntRange(lo, hi).Draw(c.T, name)
	c.mix(uint64(v))
	return v
}

func (c *Case) B(name string) bool {
	v := rapid.Bool().Draw(c.T, name)
	c.mix(uint64(map[bool]int{true: 1}[v]))
	return v
}

func (c *Case) Pick(name string, opts ...string) string {
	i := rapid.IntRange(0, len(opts)-1).Draw(c.T, name)
	c.mix(uint64(i))
	return opts[i]
}

func (c *Case) V2(name string, lo, hi float64) r2.Vec {
	return r2.Vec{X: c.F(name+".x", lo, hi), Y: c.F(name+".y", lo, hi)}
}

func (c *Case) V3(name string, lo, hi float64) r3.Vec {
	return r3.Vec{X: c.F(name+".x", lo, hi), Y: c.F(name+".y", lo, hi), Z: c.F(name+".z", lo, hi)}
}

// unit is the case's length unit: mostly 1, now and then very different.
func (c *Case) unit() float64 {
	if c.len == 0 {
		c.len = 1
		if !c.plain && c.I("unit", 0, 5) == 0 {
			c.len = []float64{25.4, 1e-2, 1e3}[c.I("unit.i", 0, 2)]
		}
	}
	return c.len
}

// Len draws a length from [lo,hi] units, log-uniformly, sometimes from a wider range.
func (c *Case) Len(name string, lo, hi float64) float64 {
	u := c.unit()
	if c.plain {
		return u * c.LogF(name, lo, hi)
	}
	var l float64
	switch k := c.I(name+".tail", 0, 19); k {
	case 0, 1:
		l = u * c.LogF(name, lo/10, hi*5)
	case 2, 3:
		// the same as an earlier length, its half or its double
		l = u * c.LogF(name, lo, hi)
		if n := len(c.lens); n > 0 {
			e := c.lens[c.I(name+".same", 0, n-1)] * []float64{1, 1, 0.5, 2}[c.I(name+".times", 0, 3)]
			if lo*u <= e && e <= hi*u {
				l = e
			}
		}
	case 4, 5:
		// a round number
		l = u * c.LogF(name, lo, hi)
		if r := math.Round(2*l) / 2; lo*u <= r && r <= hi*u && r > 0 {
			l = r
		}
	default:
		l = u * c.LogF(name, lo, hi)
	}
	c.lens = append(c.lens, l)
	return l
}

// Fac draws a dimensionless factor from [lo,hi], sometimes from a wider range.
func (c *Case) Fac(name string, lo, hi float64) float64 {
	if !c.plain && c.I(name+".tail", 0, 9) == 0 {
		return c.LogF(name, lo/30, hi*30)
	}
	return c.LogF(name, lo, hi)
}

// Pos2 draws a position or displacement in units, sometimes with a zero
// coordinate and sometimes far away.
func (c *Case) Pos2(name string, lo, hi float64) r2.Vec {
	v := c.Pos3(name, lo, hi)
	return r2.Vec{X: v.X, Y: v.Y}
}

func (c *Case) Pos3(name string, lo, hi float64) r3.Vec {
	u := c.unit()
	v := c.V3(name, lo*u, hi*u)
	if c.plain {
		return v
	}
	switch c.I(name+".kind", 0, 15) {
	case 0:
		v = r3.Scale(12, v)
	case 1:
		v.X = 0
	case 2:
		v.Y = 0
	case 3:
		v.Z = 0
	case 4:
		v = r3.Scale(1e-3, v)
	}
	return v
}

// Cnt draws a count from [lo,hi], now and then from (hi,big].
func (c *Case) Cnt(name string, lo, hi, big int) int {
	if !c.plain && c.I(name+".big", 0, 9) == 0 {
		return c.I(name, hi, big)
	}
	return c.I(name, lo, hi)
}

// many is Cnt for the number of operands or copies; only shallow trees get the
// big counts.
func (c *Case) many(name string, lo, hi, big, depth int) int {
	if depth > 1 {
		return c.I(name, lo, hi)
	}
	return c.Cnt(name, lo, hi, big)
}

func (c *Case) Label(s string)          { c.labels = append(c.labels, s) }
func (c *Case) NonTrivial()             { c.nontriv = true }
func (c *Case) Desc(f string, a ...any) { fmt.Fprintf(&c.desc, f, a...); c.desc.WriteString("; ") }
func (c *Case) Exclude(reason string) {
	statsMu.Lock()
	stats.Excluded[reason]++
	statsMu.Unlock()
	c.Skip(reason)
}
func (c *Case) Failf(f string, a ...any) {
	c.Fatalf("case: %s\n  %s", c.desc.String(), fmt.Sprintf(f, a...))
}

func tierMult() float64 {
	if s := os.Getenv("VERIF_MULT"); s != "" {
		if f, err := strconv.ParseFloat(s, 64); err == nil && f > 0 {
			return f
		}
	}
	return 1
}

func thorough() bool { return os.Getenv("VERIF_TIER") == "thorough" }

// check runs f over n generated cases (scaled by the tier).
func check(t *testing.T, n int, rule string, f func(c *Case)) {
	n = int(math.Ceil(float64(n) * tierMult()))
	if fl := flag.Lookup("rapid.checks"); fl != nil {
		fl.Value.Set(strconv.Itoa(n))
	}
	if fl := flag.Lookup("rapid.shrinktime"); fl != nil {
		fl.Value.Set("20s")
	}
	statsMu.Lock()
	stats.Rules = append(stats.Rules, t.Name()+": "+rule)
	statsMu.Unlock()
	perTest := 0
	rapid.Check(t, func(rt *rapid.T) {
		c := &Case{T: rt, h: uint64(len(t.Name()))}
		f(c)
		statsMu.Lock()
		defer statsMu.Unlock()
		stats.Evaluations++
		for _, l := range c.labels {
			stats.Labels[t.Name()+"/"+l]++
		}
		if c.nontriv {
			stats.Hashes[strconv.FormatUint(c.h, 36)]++
			if perTest < 2 && c.desc.Len() > 0 {
				perTest++
				stats.Samples = append(stats.Samples, t.Name()+": "+trunc(c.desc.String(), 600))
			}
		}
	})
}

func trunc(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

// known replays one specific recorded finding. f returns a non-nil error (or
// panics) while the defect is present. The finding's id must be listed in
// known-findings.txt (passed in $VERIF_KNOWN); an unlisted failing finding is
// a violation.
func known(t *testing.T, id, what string, f func() error) {
	err := catch(f)
	if err == nil {
		return
	}
	for _, l := range strings.Split(os.Getenv("VERIF_KNOWN"), ",") {
		if l == id {
			statsMu.Lock()
			stats.Known = append(stats.Known, id+" "+what)
			statsMu.Unlock()
			return
		}
	}
	t.Fatalf("fixed case %s fails: %s: %v", id, what, err)
}

// fixed is a plain regression: a specific input that once failed.
func fixed(t *testing.T, what string, f func() error) {
	statsMu.Lock()
	stats.Evaluations++
	statsMu.Unlock()
	if err := catch(f); err != nil {
		t.Fatalf("regression %s: %v", what, err)
	}
}

func catch(f func() error) (err error) {
	defer func() {
		if r := recover(); r != nil {
			err = fmt.Errorf("panic: %v\n%s", r, trunc(string(debug.Stack()), 3000))
		}
	}()
	return f()
}

// panics reports whether f panics.
func panics(f func()) (p bool) {
	defer func() {
		if recover() != nil {
			p = true
		}
	}()
	f()
	return false
}

// ---------------------------------------------------------------------------
// Deterministic point sets, parameterised by drawn offsets (R-sequences).

type pts3 struct{ o r3.Vec }

func (c *Case) Pts3(name string) pts3 {
	return pts3{r3.Vec{X: c.U(name + ".x"), Y: c.U(name + ".y"), Z: c.U(name + ".z")}}
}

func frac(x float64) float64 { return x - math.Floor(x) }

// at returns the i-th point of the set in [0,1)^3.
func (p pts3) at(i int) r3.Vec {
	const g = 1.2207440846057596
	f := float64(i + 1)
	return r3.Vec{X: frac(p.o.X + f/g), Y: frac(p.o.Y + f/(g*g)), Z: frac(p.o.Z + f/(g*g*g))}
}

func (p pts3) in(i int, b r3.Box) r3.Vec {
	u := p.at(i)
	return r3.Vec{X: b.Min.X + u.X*(b.Max.X-b.Min.X), Y: b.Min.Y + u.Y*(b.Max.Y-b.Min.Y), Z: b.Min.Z + u.Z*(b.Max.Z-b.Min.Z)}
}

type pts2 struct{ o r2.Vec }

func (c *Case) Pts2(name string) pts2 { return pts2{r2.Vec{X: c.U(name + ".x"), Y: c.U(name + ".y")}} }

func (p pts2) at(i int) r2.Vec {
	const g = 1.32471795724474602596
	f := float64(i + 1)
	return r2.Vec{X: frac(p.o.X + f/g), Y: frac(p.o.Y + f/(g*g))}
}

func (p pts2) in(i int, b r2.Box) r2.Vec {
	u := p.at(i)
	return r2.Vec{X: b.Min.X + u.X*(b.Max.X-b.Min.X), Y: b.Min.Y + u.Y*(b.Max.Y-b.Min.Y)}
}

// ---------------------------------------------------------------------------
// Small geometry helpers (independent of the code under test).

func v2(x, y float64) r2.Vec    { return r2.Vec{X: x, Y: y} }
func v3(x, y, z float64) r3.Vec { return r3.Vec{X: x, Y: y, Z: z} }

func boxAround3(c r3.Vec, h r3.Vec) r3.Box { return r3.Box{Min: r3.Sub(c, h), Max: r3.Add(c, h)} }

func growBox3(b r3.Box, f, abs float64) r3.Box {
	d := r3.Vec{X: (b.Max.X-b.Min.X)*f + abs, Y: (b.Max.Y-b.Min.Y)*f + abs, Z: (b.Max.Z-b.Min.Z)*f + abs}
	return r3.Box{Min: r3.Sub(b.Min, d), Max: r3.Add(b.Max, d)}
}

func growBox2(b r2.Box, f, abs float64) r2.Box {
	d := r2.Vec{X: (b.Max.X-b.Min.X)*f + abs, Y: (b.Max.Y-b.Min.Y)*f + abs}
	return r2.Box{Min: r2.Sub(b.Min, d), Max: r2.Add(b.Max, d)}
}

func diag3(b r3.Box) float64 { return r3.Norm(r3.Sub(b.Max, b.Min)) }
func diag2(b r2.Box) float64 { return r2.Norm(r2.Sub(b.Max, b.Min)) }

func outside3(b r3.Box, p r3.Vec) float64 {
	return math.Max(math.Max(math.Max(b.Min.X-p.X, p.X-b.Max.X), math.Max(b.Min.Y-p.Y, p.Y-b.Max.Y)), math.Max(b.Min.Z-p.Z, p.Z-b.Max.Z))
}

func outside2(b r2.Box, p r2.Vec) float64 {
	return math.Max(math.Max(b.Min.X-p.X, p.X-b.Max.X), math.Max(b.Min.Y-p.Y, p.Y-b.Max.Y))
}

func absmax3(b r3.Box) float64 {
	return math.Max(math.Max(math.Max(math.Abs(b.Min.X), math.Abs(b.Max.X)), math.Max(math.Abs(b.Min.Y), math.Abs(b.Max.Y))), math.Max(math.Abs(b.Min.Z), math.Abs(b.Max.Z)))
}

func absmax2(b r2.Box) float64 {
	return math.Max(math.Max(math.Abs(b.Min.X), math.Abs(b.Max.X)), math.Max(math.Abs(b.Min.Y), math.Abs(b.Max.Y)))
}

func clampf(x, a, b float64) float64 { return math.Max(a, math.Min(b, x)) }

func rot2(p r2.Vec, a float64) r2.Vec {
	s, c := math.Sin(a), math.Cos(a)
	return v2(c*p.X-s*p.Y, s*p.X+c*p.Y)
}

// rotAxis rotates p about axis k (any length) by a, right handed (Rodrigues).
func rotAxis(p, k r3.Vec, a float64) r3.Vec {
	n := math.Sqrt(k.X*k.X + k.Y*k.Y + k.Z*k.Z)
	k = r3.Scale(1/n, k)
	s, c := math.Sin(a), math.Cos(a)
	return r3.Add(r3.Add(r3.Scale(c, p), r3.Scale(s, r3.Cross(k, p))), r3.Scale(r3.Dot(k, p)*(1-c), k))
}

// segDist returns the distance from p to segment ab.
func segDist(p, a, b r2.Vec) float64 {
	ab, ap := r2.Sub(b, a), r2.Sub(p, a)
	l2 := ab.X*ab.X + ab.Y*ab.Y
	t := 0.0
	if l2 > 0 {
		t = clampf((ap.X*ab.X+ap.Y*ab.Y)/l2, 0, 1)
	}
	return math.Hypot(ap.X-t*ab.X, ap.Y-t*ab.Y)
}

// polyWinding computes the winding number of p by summing signed angles.
func polyWinding(p r2.Vec, v []r2.Vec) int {
	s := 0.0
	for i := range v {
		a, b := r2.Sub(v[i], p), r2.Sub(v[(i+1)%len(v)], p)
		s += math.Atan2(a.X*b.Y-a.Y*b.X, a.X*b.X+a.Y*b.Y)
	}
	return int(math.Round(s / (2 * math.Pi)))
}

// polySDF is the brute force signed distance (non zero winding = inside).
func polySDF(p r2.Vec, v []r2.Vec) float64 {
	d := math.Inf(1)
	for i := range v {
		d = math.Min(d, segDist(p, v[i], v[(i+1)%len(v)]))
	}
	if d > 0 && polyWinding(p, v) != 0 {
		return -d
	}
	return d
}

// rectSDF2 is the exact distance of an axis aligned rectangle with half size h.
func rectSDF2(p, h r2.Vec) float64 {
	dx, dy := math.Abs(p.X)-h.X, math.Abs(p.Y)-h.Y
	if dx <= 0 && dy <= 0 {
		return math.Max(dx, dy)
	}
	return math.Hypot(math.Max(dx, 0), math.Max(dy, 0))
}

func rectSDF3(p, h r3.Vec) float64 {
	dx, dy, dz := math.Abs(p.X)-h.X, math.Abs(p.Y)-h.Y, math.Abs(p.Z)-h.Z
	if dx <= 0 && dy <= 0 && dz <= 0 {
		return math.Max(dx, math.Max(dy, dz))
	}
	dx, dy, dz = math.Max(dx, 0), math.Max(dy, 0), math.Max(dz, 0)
	return math.Sqrt(dx*dx + dy*dy + dz*dz)
}

func finite(x float64) bool { return !math.IsNaN(x) && !math.IsInf(x, 0) }
