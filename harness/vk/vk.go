// Package vk is the small kit every property check is written with: a wrapper
// around rapid.Check that fixes the seed and the number of cases, counts what
// was generated, and a few generators and comparisons for matrices.
package vk

import (
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"io/ioutil"
	"log"
	"math"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"testing"
	"time"

	"golang.org/x/exp/rand"
	"gonum.org/v1/gonum/mat"
	"pgregory.net/rapid"
)

// C is one generated case.
type C struct {
	*rapid.T
	st      *stats
	skipped bool
}

// Skip leaves the case out.
func (c *C) Skip(args ...interface{}) {
	c.skipped = true
	c.T.Skip(args...)
}

type stats struct {
	mu          sync.Mutex
	Test        string         `json:"test"`
	Rule        string         `json:"rule"`
	Evaluations int            `json:"evaluations"`
	Nontrivial  int            `json:"nontrivial"`
	Distinct    int            `json:"distinct_nontrivial"`
	Samples     []string       `json:"samples"`
	Classes     map[string]int `json:"classes"`
	seen        map[uint64]bool
	caseStart   time.Time
	lastMark    string
}

func envInt(k string, d int) int {
	if v, err := strconv.Atoi(os.Getenv(k)); err == nil {
		return v
	}
	return d
}

// Thorough says whether the thorough tier runs.
func Thorough() bool { return os.Getenv("VERIF_TIER") == "thorough" }

func shrinkTime() string {
	if s := os.Getenv("VK_SHRINK"); s != "" {
		return s
	}
	return "15s"
}

// Prop runs f on n generated cases (more in the thorough tier).
func Prop(t *testing.T, n int, rule string, f func(c *C)) {
	t.Helper()
	log.SetOutput(ioutil.Discard)
	st := &stats{Test: t.Name(), Rule: rule, Classes: map[string]int{}, seen: map[uint64]bool{}}
	mult := envInt("VK_MULT", 1)
	h := fnv.New64a()
	fmt.Fprintf(h, "%d|%s|%s", envInt("VERIF_SEED", 1), os.Getenv("VK_ROUND"), t.Name())
	seed := h.Sum64()&0x7fffffffffff | 1
	flag.Set("rapid.checks", strconv.Itoa(n*mult))
	if flag.Lookup("rapid.failfile").Value.String() == "" {
		flag.Set("rapid.seed", strconv.FormatUint(seed, 10))
	}
	flag.Set("rapid.shrinktime", shrinkTime())
	stop := make(chan struct{})
	go st.watch(stop)
	defer func() {
		close(stop)
		st.write()
	}()
	// when the budget is used up the remaining cases are left out (a failure found before is still shrunk)
	budget, began, failing := time.Duration(envInt("VK_BUDGET", 0))*time.Second, time.Now(), false
	rapid.Check(t, func(rt *rapid.T) {
		if budget > 0 && !failing && time.Since(began) > budget {
			return
		}
		done, c := false, &C{T: rt, st: st}
		defer func() { failing = failing || !c.skipped && (!done || rt.Failed()) }()
		st.mu.Lock()
		st.Evaluations++
		st.caseStart = time.Now()
		st.mu.Unlock()
		f(c)
		done = true
		st.mu.Lock()
		st.caseStart = time.Time{}
		st.mu.Unlock()
	})
}

// a case takes milliseconds; one that has not come back after two minutes is
// reported as non-terminating.
func (st *stats) watch(stop chan struct{}) {
	for {
		select {
		case <-stop:
			return
		case <-time.After(time.Second):
		}
		st.mu.Lock()
		hung := !st.caseStart.IsZero() && time.Since(st.caseStart) > 150*time.Second
		st.mu.Unlock()
		if hung {
			fmt.Printf("VK-HANG %s: a case has not returned for 150 s; last case: %s\n", st.Test, st.lastMark)
			os.Stdout.Sync()
			os.Exit(97)
		}
	}
}

func (st *stats) write() {
	dir := os.Getenv("VK_STATS")
	if dir == "" {
		return
	}
	st.mu.Lock()
	defer st.mu.Unlock()
	st.Distinct = len(st.seen)
	b, _ := json.Marshal(st)
	ioutil.WriteFile(filepath.Join(dir, strings.Replace(st.Test, "/", "_", -1)+".json"), b, 0o644)
}

// Mark describes the case; nontrivial by the rule given to Prop.
func (c *C) Mark(nontrivial bool, format string, args ...interface{}) {
	s := fmt.Sprintf(format, args...)
	h := fnv.New64a()
	h.Write([]byte(s))
	k := h.Sum64()
	c.Logf("case: %s", s)
	c.st.mu.Lock()
	defer c.st.mu.Unlock()
	c.st.lastMark = s
	if !nontrivial {
		return
	}
	c.st.Nontrivial++
	if !c.st.seen[k] {
		c.st.seen[k] = true
		if len(c.st.Samples) < 3 {
			if len(s) > 600 {
				s = s[:600] + "..."
			}
			c.st.Samples = append(c.st.Samples, s)
		}
	}
}

// Class counts a label, to see what the generator really makes.
func (c *C) Class(label string) {
	c.st.mu.Lock()
	c.st.Classes[label]++
	c.st.mu.Unlock()
}

// Int draws an int in [lo,hi].
func (c *C) Int(label string, lo, hi int) int { return rapid.IntRange(lo, hi).Draw(c.T, label) }

// Bool draws a bool.
func (c *C) Bool(label string) bool { return rapid.Bool().Draw(c.T, label) }

// Float draws a float in [lo,hi], often a short one.
func (c *C) Float(label string, lo, hi float64) float64 {
	if rapid.Bool().Draw(c.T, label+"_short") {
		k := rapid.IntRange(0, 8).Draw(c.T, label+"_8th")
		return lo + (hi-lo)*float64(k)/8
	}
	return rapid.Float64Range(lo, hi).Draw(c.T, label)
}

// Pick draws one of the strings.
func (c *C) Pick(label string, vs ...string) string { return rapid.SampledFrom(vs).Draw(c.T, label) }

// PickF draws one of the floats.
func (c *C) PickF(label string, vs ...float64) float64 {
	return rapid.SampledFrom(vs).Draw(c.T, label)
}

// PickI draws one of the ints.
func (c *C) PickI(label string, vs ...int) int { return rapid.SampledFrom(vs).Draw(c.T, label) }

// Seed draws a PRNG seed.
func (c *C) Seed(label string) uint64 {
	return uint64(rapid.IntRange(1, 1<<30).Draw(c.T, label))
}

// Rnd draws a seed and gives a PRNG for bulk data: the case stays a pure function of the drawn seed.
func (c *C) Rnd(label string) *rand.Rand { return rand.New(rand.NewSource(c.Seed(label))) }

// Kinds of matrices.
const (
	Grid   = "grid"   // small integers: many ties, duplicates, zeros
	Unif   = "unif"   // floats in [-10,10]
	Gauss  = "gauss"  // standard normal
	Scaled = "scaled" // columns with their own scale and offset
	Mixed  = "mixed"  // grid columns and float columns, constant columns
)

// AnyKind draws a kind.
func (c *C) AnyKind(label string) string { return c.Pick(label, Grid, Unif, Gauss, Scaled, Mixed) }

// Mat draws an r x c matrix of the given kind. Small matrices are drawn cell by
// cell, so they shrink; large ones come from a drawn seed.
func (c *C) Mat(label string, r, cols int, kind string) *mat.Dense {
	X := mat.NewDense(r, cols, nil)
	d := X.RawMatrix().Data
	if r*cols <= 24 && (kind == Grid || kind == Unif) {
		for i := range d {
			if kind == Grid {
				d[i] = float64(rapid.IntRange(-3, 3).Draw(c.T, label))
			} else {
				// multiples of 1/1024: denormal and nearly equal cells only add rounding questions
				d[i] = math.Round(rapid.Float64Range(-10, 10).Draw(c.T, label)*1024) / 1024
			}
		}
		return X
	}
	rnd := c.Rnd(label + "_seed")
	for j := 0; j < cols; j++ {
		k := kind
		if k == Mixed {
			k = []string{Grid, Unif, Gauss, Scaled, "const"}[rnd.Intn(5)]
		}
		scale, off := 1., 0.
		if k == Scaled {
			scale = math.Pow(10, float64(rnd.Intn(7)-3))
			if rnd.Intn(8) == 0 {
				scale = math.Pow(10, float64(rnd.Intn(19)-9))
			}
			off = float64(rnd.Intn(21)-10) * scale
		}
		cst := float64(rnd.Intn(7) - 3)
		for i := 0; i < r; i++ {
			switch k {
			case Grid:
				X.Set(i, j, float64(rnd.Intn(7)-3))
			case Unif:
				X.Set(i, j, rnd.Float64()*20-10)
			case "const":
				X.Set(i, j, cst)
			default:
				X.Set(i, j, off+scale*rnd.NormFloat64())
			}
		}
	}
	return X
}

// Generic wraps a matrix so that only the mat.Matrix methods are visible.
type Generic struct{ M mat.Matrix }

// Dims implements mat.Matrix
func (g Generic) Dims() (int, int) { return g.M.Dims() }

// At implements mat.Matrix
func (g Generic) At(i, j int) float64 { return g.M.At(i, j) }

// T implements mat.Matrix
func (g Generic) T() mat.Matrix { return mat.Transpose{Matrix: g} }

// Strided returns a copy of X stored as a window of a larger matrix full of junk.
func Strided(X *mat.Dense, top, left, right, bottom int, junk float64) (*mat.Dense, *mat.Dense) {
	r, cc := X.Dims()
	big := mat.NewDense(r+top+bottom, cc+left+right, nil)
	for i := range big.RawMatrix().Data {
		big.RawMatrix().Data[i] = junk
	}
	w := big.Slice(top, top+r, left, left+cc).(*mat.Dense)
	w.Copy(X)
	return w, big
}

// Layout is a matrix handed to the code under test together with what it held
// before, so that a write to it can be seen.
type Layout struct {
	Name   string
	M      mat.Matrix
	D      *mat.Dense // nil for the generic layout
	back   *mat.Dense
	before []float64
}

// Lay draws a storage layout for X: compact, a window of a larger matrix (in its
// middle or in its last corner), or
// (when generic is allowed) a matrix that only has the mat.Matrix methods.
func (c *C) Lay(label string, X *mat.Dense, generic bool) *Layout {
	opts := []string{"compact", "window", "corner"}
	if generic {
		opts = append(opts, "generic")
	}
	return NewLayout(c.Pick(label+"_layout", opts...), X)
}

// NewLayout makes the named layout.
func NewLayout(name string, X *mat.Dense) *Layout {
	l := &Layout{Name: name}
	switch name {
	case "window":
		l.D, l.back = Strided(X, 1, 2, 3, 1, 777.25)
		l.M = l.D
	case "corner": // the storage ends with the last cell
		l.D, l.back = Strided(X, 1, 2, 0, 0, 777.25)
		l.M = l.D
	case "generic":
		l.back = mat.DenseCopyOf(X)
		l.M = Generic{l.back}
	default:
		l.D = mat.DenseCopyOf(X)
		l.back = l.D
		l.M = l.D
	}
	l.before = append([]float64(nil), l.back.RawMatrix().Data...)
	return l
}

// Scribble overwrites the stored values, as a caller may once a call has returned.
func (l *Layout) Scribble() {
	d := l.back.RawMatrix().Data
	for i := range d {
		d[i] = -1234.5 + float64(i)
	}
	l.before = append([]float64(nil), d...)
}

// Changed tells whether the stored values were written to.
func (l *Layout) Changed() bool {
	for i, v := range l.back.RawMatrix().Data {
		if v != l.before[i] && !(math.IsNaN(v) && math.IsNaN(l.before[i])) {
			return true
		}
	}
	return false
}

// Close compares two floats; NaN equals NaN, infinities must agree.
func Close(a, b, rtol, atol float64) bool {
	if math.IsNaN(a) || math.IsNaN(b) {
		return math.IsNaN(a) && math.IsNaN(b)
	}
	if a == b {
		return true
	}
	if math.IsInf(a, 0) || math.IsInf(b, 0) {
		return false
	}
	return math.Abs(a-b) <= atol+rtol*math.Max(math.Abs(a), math.Abs(b))
}

// Diff returns "" when the matrices agree, else where they do not.
func Diff(got, want mat.Matrix, rtol, atol float64) string {
	gr, gc := got.Dims()
	wr, wc := want.Dims()
	if gr != wr || gc != wc {
		return fmt.Sprintf("dims %dx%d, want %dx%d", gr, gc, wr, wc)
	}
	for i := 0; i < gr; i++ {
		for j := 0; j < gc; j++ {
			if !Close(got.At(i, j), want.At(i, j), rtol, atol) {
				return fmt.Sprintf("at (%d,%d): got %v, want %v", i, j, got.At(i, j), want.At(i, j))
			}
		}
	}
	return ""
}

// DiffS compares slices.
func DiffS(got, want []float64, rtol, atol float64) string {
	if len(got) != len(want) {
		return fmt.Sprintf("len %d, want %d", len(got), len(want))
	}
	for i := range got {
		if !Close(got[i], want[i], rtol, atol) {
			return fmt.Sprintf("at %d: got %v, want %v", i, got[i], want[i])
		}
	}
	return ""
}

// Eq fails the case when the matrices differ.
func (c *C) Eq(what string, got, want mat.Matrix, rtol, atol float64) {
	if got == nil || isNilDense(got) {
		c.Fatalf("%s: nil result", what)
	}
	if s := Diff(got, want, rtol, atol); s != "" {
		c.Fatalf("%s: %s\n got %v\nwant %v", what, s, M(got), M(want))
	}
}

// EqCols is Eq with an absolute tolerance per column.
func (c *C) EqCols(what string, got, want mat.Matrix, rtol float64, atol []float64) {
	if got == nil || isNilDense(got) {
		c.Fatalf("%s: nil result", what)
	}
	gr, gc := got.Dims()
	wr, wc := want.Dims()
	if gr != wr || gc != wc {
		c.Fatalf("%s: dims %dx%d, want %dx%d", what, gr, gc, wr, wc)
	}
	for i := 0; i < gr; i++ {
		for j := 0; j < gc; j++ {
			if !Close(got.At(i, j), want.At(i, j), rtol, atol[j]) {
				c.Fatalf("%s: at (%d,%d): got %v, want %v\n got %v\nwant %v", what, i, j, got.At(i, j), want.At(i, j), M(got), M(want))
			}
		}
	}
}

// MaxAbs is the largest magnitude in each column of the matrices.
func MaxAbs(Xs ...mat.Matrix) []float64 {
	_, p := Xs[0].Dims()
	o := make([]float64, p)
	for _, X := range Xs {
		r, _ := X.Dims()
		for j := range o {
			for i := 0; i < r; i++ {
				o[j] = math.Max(o[j], math.Abs(X.At(i, j)))
			}
		}
	}
	return o
}

// Mult multiplies the entries of a by f(j).
func Mult(a []float64, f func(j int) float64) []float64 {
	o := make([]float64, len(a))
	for j := range a {
		o[j] = a[j] * f(j)
	}
	return o
}

func isNilDense(m mat.Matrix) bool {
	d, ok := m.(*mat.Dense)
	return ok && d == nil
}

// EqS fails the case when the slices differ.
func (c *C) EqS(what string, got, want []float64, rtol, atol float64) {
	if s := DiffS(got, want, rtol, atol); s != "" {
		c.Fatalf("%s: %s\n got %v\nwant %v", what, s, got, want)
	}
}

// EqF fails the case when the floats differ.
func (c *C) EqF(what string, got, want, rtol, atol float64) {
	if !Close(got, want, rtol, atol) {
		c.Fatalf("%s: got %v, want %v", what, got, want)
	}
}

// Unchanged fails the case when a layout was written to.
func (c *C) Unchanged(what string, ls ...*Layout) {
	for i, l := range ls {
		if l.Changed() {
			c.Fatalf("%s wrote to its input %d (%s layout)", what, i, l.Name)
		}
	}
}

// M prints a matrix on one line (or a digest of a large one).
func M(m mat.Matrix) string {
	if m == nil || isNilDense(m) {
		return "nil"
	}
	r, c := m.Dims()
	var b strings.Builder
	h := fnv.New64a()
	for i := 0; i < r; i++ {
		if i > 0 {
			b.WriteString("; ")
		}
		for j := 0; j < c; j++ {
			if j > 0 {
				b.WriteString(" ")
			}
			s := strconv.FormatFloat(m.At(i, j), 'g', -1, 64)
			b.WriteString(s)
			h.Write([]byte(s + " "))
		}
	}
	if r*c > 60 {
		return fmt.Sprintf("%dx%d[%.200s ... #%x]", r, c, b.String(), h.Sum64())
	}
	return fmt.Sprintf("%dx%d[%s]", r, c, b.String())
}

// Col returns a column.
func Col(m mat.Matrix, j int) []float64 { return mat.Col(nil, j, m) }

// Row returns a row.
func Row(m mat.Matrix, i int) []float64 { return mat.Row(nil, i, m) }

// Copy returns a compact copy.
func Copy(m mat.Matrix) *mat.Dense { return mat.DenseCopyOf(m) }

// Panics runs f and returns what it panicked with, or nil.
func Panics(f func()) (p interface{}) {
	defer func() { p = recover() }()
	f()
	return nil
}

// Finite tells whether all cells are finite.
func Finite(m mat.Matrix) bool {
	r, c := m.Dims()
	for i := 0; i < r; i++ {
		for j := 0; j < c; j++ {
			if v := m.At(i, j); math.IsNaN(v) || math.IsInf(v, 0) {
				return false
			}
		}
	}
	return true
}

// Size draws a size in [lo,mid], one time out of four in [lo,hi], and one time out of 60 beyond, up to 4*hi.
func (c *C) Size(label string, lo, mid, hi int) int {
	switch t := rapid.IntRange(0, 59).Draw(c.T, label+"_big"); {
	case t == 59:
		return rapid.IntRange(hi, 4*hi).Draw(c.T, label)
	case t >= 45:
		return rapid.IntRange(lo, hi).Draw(c.T, label)
	}
	return rapid.IntRange(lo, mid).Draw(c.T, label)
}

// Huge is Size with, one time out of 250, a size in [hi,huge].
func (c *C) Huge(label string, lo, mid, hi, huge int) int {
	if rapid.IntRange(0, 249).Draw(c.T, label+"_huge") == 249 {
		return rapid.IntRange(hi, huge).Draw(c.T, label)
	}
	return c.Size(label, lo, mid, hi)
}

// SizeTo draws a size in [lo,mid], and one time out of four in [lo,hi].
func (c *C) SizeTo(label string, lo, mid, hi int) int {
	if rapid.IntRange(0, 3).Draw(c.T, label+"_big") == 3 {
		return rapid.IntRange(lo, hi).Draw(c.T, label)
	}
	return rapid.IntRange(lo, mid).Draw(c.T, label)
}

// Apply returns a compact matrix with f applied to each cell.
func Apply(X mat.Matrix, f func(i, j int, v float64) float64) *mat.Dense {
	r, c := X.Dims()
	o := mat.NewDense(r, c, nil)
	for i := 0; i < r; i++ {
		for j := 0; j < c; j++ {
			o.Set(i, j, f(i, j, X.At(i, j)))
		}
	}
	return o
}

// Rows returns a compact copy of the given rows.
func Rows(X mat.Matrix, idx ...int) *mat.Dense {
	_, c := X.Dims()
	o := mat.NewDense(len(idx), c, nil)
	for k, i := range idx {
		for j := 0; j < c; j++ {
			o.Set(k, j, X.At(i, j))
		}
	}
	return o
}

// RowRange returns a compact copy of rows a..b-1.
func RowRange(X mat.Matrix, a, b int) *mat.Dense {
	idx := make([]int, 0, b-a)
	for i := a; i < b; i++ {
		idx = append(idx, i)
	}
	return Rows(X, idx...)
}

// Quantile is the smallest sorted value whose rank reaches p*n (p dyadic).
func Quantile(p float64, xs []float64) float64 {
	s := append([]float64(nil), xs...)
	sort.Float64s(s)
	for i, v := range s {
		if float64(i+1) >= p*float64(len(s)) {
			return v
		}
	}
	return s[len(s)-1]
}

// MeanVar returns the mean and the population variance.
func MeanVar(xs []float64) (m, v float64) {
	for _, x := range xs {
		m += x
	}
	m /= float64(len(xs))
	for _, x := range xs {
		v += (x - m) * (x - m)
	}
	v /= float64(len(xs))
	return
}

// IsConst tells whether all values are equal.
func IsConst(xs []float64) bool {
	for _, x := range xs {
		if x != xs[0] {
			return false
		}
	}
	return true
}

// Uniq returns the sorted distinct values.
func Uniq(xs []float64) []float64 {
	s := append([]float64(nil), xs...)
	sort.Float64s(s)
	o := s[:0]
	for i, v := range s {
		if i == 0 || v != o[len(o)-1] {
			o = append(o, v)
		}
	}
	return append([]float64(nil), o...)
}

var knownOnce sync.Map

// Known reports a recorded defect: id must be listed under its property in KNOWN_FINDINGS.md,
// otherwise the case fails.
func (c *C) Known(id, what string) {
	c.Helper()
	b, _ := os.ReadFile(os.Getenv("VK_KNOWN"))
	prop := os.Getenv("VK_ID")
	if !strings.Contains(string(b), "\nfinding: property="+prop+" id="+id+" ") {
		c.Fatalf("unlisted defect %s: %s", id, what)
	}
	if _, done := knownOnce.LoadOrStore(id, true); !done {
		fmt.Printf("\nKNOWN-FINDING: property=%s %s: %s\n", prop, id, what)
	}
}
