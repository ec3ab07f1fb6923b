// C38: data set loaders and generators return what the file or the stated model says.
package c38

import (
	"bytes"
	"compress/gzip"
	"encoding/binary"
	"encoding/csv"
	"encoding/json"
	"fmt"
	"go/build"
	"io/ioutil"
	"math"
	"os"
	"path/filepath"
	"strconv"
	"strings"
	"testing"

	"github.com/pa-m/sklearn/base"
	"github.com/pa-m/sklearn/datasets"
	"golang.org/x/exp/rand"
	"gonum.org/v1/gonum/mat"
	"verifharness/vk"
)

type variable struct {
	name, doc string
	m         *mat.Dense
}

func u32(b *bytes.Buffer, v int) {
	var t [4]byte
	binary.LittleEndian.PutUint32(t[:], uint32(v))
	b.Write(t[:])
}

// write gives the octave binary file of the variables and where each one starts.
func write(vs []variable) (data []byte, starts []int) {
	var b bytes.Buffer
	b.WriteString("Octave-1-L")
	b.WriteByte(0)
	for _, v := range vs {
		starts = append(starts, b.Len())
		u32(&b, len(v.name))
		b.WriteString(v.name)
		u32(&b, len(v.doc))
		b.WriteString(v.doc)
		b.WriteByte(0)
		b.WriteByte(0xff)
		u32(&b, len("matrix"))
		b.WriteString("matrix")
		b.Write([]byte{0xfe, 0xff, 0xff, 0xff})
		r, c := v.m.Dims()
		u32(&b, r)
		u32(&b, c)
		b.WriteByte(7)
		for j := 0; j < c; j++ {
			for i := 0; i < r; i++ {
				var t [8]byte
				binary.LittleEndian.PutUint64(t[:], math.Float64bits(v.m.At(i, j)))
				b.Write(t[:])
			}
		}
	}
	return b.Bytes(), append(starts, b.Len())
}

func drawVars(c *vk.C, big bool) []variable {
	n := c.Int("variables", 0, 4)
	vs := make([]variable, n)
	r := c.Rnd("cells")
	for k := range vs {
		rows, cols := c.Size("rows", 1, 7, 20), c.Size("cols", 1, 7, 20)
		if big && c.Int("bigvar", 0, 3) == 0 {
			rows, cols = c.Int("rows", 20, 300), c.Int("cols", 10, 60)
			c.Class("big variable")
		}
		m := mat.NewDense(rows, cols, nil)
		kind := c.Pick("values", "distinct", "ints", "random", "special")
		for i := 0; i < rows; i++ {
			for j := 0; j < cols; j++ {
				switch kind {
				case "distinct":
					m.Set(i, j, float64(i*cols+j))
				case "ints":
					m.Set(i, j, float64(r.Intn(10)))
				case "random":
					m.Set(i, j, r.NormFloat64())
				default:
					m.Set(i, j, []float64{0, math.Copysign(0, -1), math.Inf(1), math.Inf(-1), math.MaxFloat64, 5e-324, math.Pi}[r.Intn(7)])
				}
			}
		}
		vs[k] = variable{name: c.Pick("stem", "x", "Theta", "y_", "a_rather_long_variable_name") + strconv.Itoa(k), m: m}
		if c.Int("documented", 0, 5) == 0 {
			vs[k].doc = strings.Repeat("d", c.Int("doc", 1, 20))
			c.Class("documented variable")
		}
	}
	return vs
}

func scratch(c *vk.C) string {
	d, err := ioutil.TempDir("", "c38")
	if err != nil {
		panic(err)
	}
	c.Cleanup(func() { os.RemoveAll(d) })
	return d
}

func store(c *vk.C, dir string, data []byte, zip bool) string {
	name := filepath.Join(dir, c.Pick("name", "f.dat", "f", "f.gz.dat", "f.gz_", "gz"))
	if zip {
		name += ".gz"
		var b bytes.Buffer
		w, _ := gzip.NewWriterLevel(&b, c.PickI("level", gzip.BestCompression, gzip.BestSpeed, gzip.NoCompression, gzip.HuffmanOnly))
		for len(data) > 0 { // flushing in odd places cuts the compressed stream in blocks
			k := c.Int("block", 1, 4000)
			if k > len(data) || c.Int("rest", 0, 4) == 0 {
				k = len(data)
			}
			w.Write(data[:k])
			data = data[k:]
			if c.Bool("flush") {
				w.Flush()
			}
		}
		w.Close()
		data = b.Bytes()
	}
	if err := ioutil.WriteFile(name, data, 0o644); err != nil {
		panic(err)
	}
	return name
}

func sameVars(c *vk.C, got map[string]*mat.Dense, want []variable) {
	if len(got) != len(want) {
		c.Fatalf("%d variables read, %d written", len(got), len(want))
	}
	for _, v := range want {
		g, ok := got[v.name]
		if !ok || g == nil {
			c.Fatalf("variable %s not read", v.name)
		}
		gr, gc := g.Dims()
		wr, wc := v.m.Dims()
		if gr != wr || gc != wc {
			c.Fatalf("variable %s read as %dx%d, written as %dx%d", v.name, gr, gc, wr, wc)
		}
		for i := 0; i < wr; i++ {
			for j := 0; j < wc; j++ {
				if math.Float64bits(g.At(i, j)) != math.Float64bits(v.m.At(i, j)) {
					c.Fatalf("variable %s cell %d,%d read %g written %g", v.name, i, j, g.At(i, j), v.m.At(i, j))
				}
			}
		}
	}
}

func TestOctaveRoundTrip(t *testing.T) {
	vk.Prop(t, 100, "at least one variable of more than one cell", func(c *vk.C) {
		vs := drawVars(c, true)
		data, _ := write(vs)
		zip := c.Bool("gzip")
		desc, cells := "", 0
		for _, v := range vs {
			r, k := v.m.Dims()
			desc += fmt.Sprintf(" %s:%dx%d", v.name, r, k)
			if r*k > 1 {
				cells++
			}
		}
		c.Mark(cells > 0, "octave gzip=%v bytes=%d%s", zip, len(data), desc)
		sameVars(c, datasets.LoadOctaveBin(store(c, scratch(c), data, zip)), vs)
	})
}

// A file cut anywhere but between two variables is refused; cut there it holds the variables before.
func TestOctaveTruncated(t *testing.T) {
	vk.Prop(t, 200, "cut inside a variable", func(c *vk.C) {
		vs := drawVars(c, false)
		data, starts := write(vs)
		cut := c.Int("cut", 0, len(data))
		if c.Int("near", 0, 2) == 0 {
			cut = starts[c.Int("which", 0, len(starts)-1)] + c.Int("plus", -2, 14)
			if cut < 0 || cut > len(data) {
				cut = len(data)
			}
		}
		complete := -1
		for k, s := range starts {
			if s == cut {
				complete = k
			}
		}
		zip := c.Bool("gzip")
		c.Mark(complete < 0, "octave gzip=%v cut %d of %d complete=%d", zip, cut, len(data), complete)
		name := store(c, scratch(c), data[:cut], zip)
		var got map[string]*mat.Dense
		p := vk.Panics(func() { got = datasets.LoadOctaveBin(name) })
		if complete >= 0 {
			if p != nil {
				c.Fatalf("file of %d complete variables refused: %v", complete, p)
			}
			sameVars(c, got, vs[:complete])
		} else if p == nil {
			c.Fatalf("file cut at byte %d of %d was read without an error, %d variables", cut, len(data), len(got))
		}
	})
}

// A file of another kind is refused.
func TestOctaveMagic(t *testing.T) {
	vk.Prop(t, 30, "magic changed", func(c *vk.C) {
		vs := drawVars(c, false)
		data, _ := write(vs)
		k := c.Int("byte", 0, 9)
		data[k] ^= byte(1 << uint(c.Int("bit", 0, 7)))
		c.Mark(true, "magic byte %d", k)
		name := store(c, scratch(c), data, c.Bool("gzip"))
		if vk.Panics(func() { datasets.LoadOctaveBin(name) }) == nil {
			c.Fatalf("file with magic %q was read", data[:10])
		}
	})
}

func TestMakeRegression(t *testing.T) {
	vk.Prop(t, 300, "several samples, several informative features or a bias", func(c *vk.C) {
		kw := map[string]interface{}{}
		n, p, inf, nt := 100, 100, 10, 1
		if c.Int("n?", 0, 5) > 0 {
			n = c.Size("n", 1, 30, 90)
			kw["n_samples"] = n
		}
		if c.Int("p?", 0, 5) > 0 {
			p = c.Size("p", 1, 12, 30)
			kw["n_features"] = p
		}
		if c.Int("inf?", 0, 5) > 0 {
			inf = c.Size("inf", 1, 14, 30)
			kw["n_informative"] = inf
		}
		if c.Bool("t?") {
			nt = c.Size("t", 1, 4, 8)
			kw["n_targets"] = nt
		}
		if inf > p {
			inf = p
		}
		bias := make([]float64, nt)
		kind := c.Pick("bias", "none", "float", "slice", "matrix")
		switch kind {
		case "float":
			b := c.Float("b", -5, 5)
			for i := range bias {
				bias[i] = b
			}
			kw["bias"] = b
		case "slice", "matrix":
			for i := range bias {
				bias[i] = c.Float("b", -5, 5)
			}
			kw["bias"] = append([]float64(nil), bias...)
			if kind == "matrix" {
				kw["bias"] = c.Lay("bias layout", mat.NewDense(1, nt, append([]float64(nil), bias...)), true).M
			}
		}
		for _, k := range []string{"shuffle", "coef"} {
			if c.Int(k, 0, 2) == 0 {
				kw[k] = true
			}
		}
		seed := c.Seed("seed")
		seeded := c.Bool("seeded")
		gen := func() (X, y, coef *mat.Dense) {
			if seeded {
				kw["random_state"] = rand.New(rand.NewSource(seed))
			}
			return datasets.MakeRegression(kw)
		}
		c.Mark(n > 1 && (inf > 1 || kind != "none"), "regression n=%d p=%d informative=%d targets=%d bias=%s%v seeded=%v", n, p, inf, nt, kind, bias, seeded)
		X, y, coef := gen()
		dims := func(m *mat.Dense) string { r, c := m.Dims(); return fmt.Sprintf("%dx%d", r, c) }
		if g, w := dims(X)+" "+dims(y)+" "+dims(coef), fmt.Sprintf("%dx%d %dx%d %dx%d", n, p, n, nt, inf, nt); g != w {
			c.Fatalf("shapes %s want %s", g, w)
		}
		want := mat.NewDense(n, nt, nil)
		for i := 0; i < n; i++ {
			for o := 0; o < nt; o++ {
				s := bias[o]
				for j := 0; j < inf; j++ {
					s += X.At(i, j) * coef.At(j, o)
				}
				want.Set(i, o, s)
			}
		}
		c.Eq("y", y, want, 1e-9, 1e-9)
		moments(c, "X", X.RawMatrix().Data)
		moments(c, "coef", coef.RawMatrix().Data)
		X2, y2, coef2 := gen()
		if seeded {
			c.Eq("X with the same seed", X2, X, 0, 0)
			c.Eq("y with the same seed", y2, y, 0, 0)
			c.Eq("coef with the same seed", coef2, coef, 0, 0)
		} else if mat.Equal(X, X2) {
			c.Fatalf("two unseeded calls give the same X")
		}
	})
}

// moments checks standard normal mean and variance up to 7 standard errors, and that not all cells agree.
func moments(c *vk.C, what string, xs []float64) {
	n := float64(len(xs))
	if n < 12 {
		return
	}
	s, q := 0., 0.
	for _, x := range xs {
		s += x
		q += x * x
	}
	if m := s / n; math.Abs(m) > 7/math.Sqrt(n) {
		c.Fatalf("%s: mean %g of %g standard normal draws", what, m, n)
	}
	if v := q / n; v < .02 || v > 1+7*math.Sqrt(2/n)+100/n {
		c.Fatalf("%s: mean square %g of %g standard normal draws", what, v, n)
	}
	if vk.IsConst(xs) {
		c.Fatalf("%s: all draws equal", what)
	}
}

// onlySource hides all but the source methods of a generator.
type onlySource struct{ s rand.Source }

func (o onlySource) Seed(s uint64)  { o.s.Seed(s) }
func (o onlySource) Uint64() uint64 { return o.s.Uint64() }

func TestMakeBlobs(t *testing.T) {
	vk.Prop(t, 300, "several centers and samples", func(c *vk.C) {
		cfg := datasets.MakeBlobsConfig{Shuffle: c.Bool("shuffle")}
		n, p, k, std := 100, 2, 3, 1.
		if c.Int("n?", 0, 4) > 0 {
			n = c.Int("n", 1, 300)
			cfg.NSamples = n
		}
		if c.Int("p?", 0, 4) > 0 {
			p = c.Int("p", 1, 6)
			cfg.NFeatures = p
		}
		if c.Int("std?", 0, 4) > 0 {
			std = c.PickF("std", .01, .5, 2, 1e-6, 40, 1e4)
			cfg.ClusterStd = std
		}
		var centers *mat.Dense
		ck := c.Pick("centers", "default", "int", "matrix", "matrix")
		switch ck {
		case "int":
			k = c.Int("k", 1, 6)
			cfg.Centers = k
		case "matrix":
			k = c.Int("k", 1, 6)
			if c.Int("other width", 0, 3) == 0 {
				p = c.Int("width", 1, 6)
				c.Class("NFeatures differs from the centers")
			}
			centers = c.Mat("centers", k, p, vk.Unif)
			cfg.Centers = c.Lay("centers layout", vk.Copy(centers), true).M
		}
		lo, hi := -10., 10.
		if c.Bool("box") {
			lo = c.Float("lo", -20, 20)
			hi = lo + c.Float("width", .5, 30)
			cfg.CenterBox = []float64{lo, hi}
		}
		seed := c.Seed("seed")
		source := c.Pick("source", "none", "rand", "source", "source")
		gen := func() (X, Y *mat.Dense) {
			cc := cfg
			switch source {
			case "rand":
				cc.RandomState = rand.New(rand.NewSource(seed))
			case "source":
				cc.RandomState = onlySource{rand.NewSource(seed)}
			}
			before := cc
			X, Y = datasets.MakeBlobs(&cc)
			if fmt.Sprint(before.NSamples, before.NFeatures, before.ClusterStd, before.CenterBox, before.Shuffle) != fmt.Sprint(cc.NSamples, cc.NFeatures, cc.ClusterStd, cc.CenterBox, cc.Shuffle) {
				c.Fatalf("configuration changed from %v to %v", before, cc)
			}
			return
		}
		c.Mark(k > 1 && n > 1, "blobs n=%d p=%d k=%d(%s) std=%g box=[%g,%g] shuffle=%v source=%s", n, p, k, ck, std, lo, hi, cfg.Shuffle, source)
		X, Y := gen()
		xr, xc := X.Dims()
		yr, yc := Y.Dims()
		if xr != n || xc != p || yr != n || yc != 1 {
			c.Fatalf("X %dx%d Y %dx%d, want %dx%d %dx1", xr, xc, yr, yc, n, p, n)
		}
		count := make([]int, k)
		mean := mat.NewDense(k, p, nil)
		for i := 0; i < n; i++ {
			l := Y.At(i, 0)
			if l != math.Floor(l) || l < 0 || l >= float64(k) {
				c.Fatalf("label %g of sample %d with %d centers", l, i, k)
			}
			count[int(l)]++
			for j := 0; j < p; j++ {
				mean.Set(int(l), j, mean.At(int(l), j)+X.At(i, j))
			}
		}
		for l := range count {
			// the labels are uniform: an empty one is only plausible with few samples
			if count[l] == 0 && n > 40*k {
				c.Fatalf("no sample of center %d among %d of %d centers", l, n, k)
			}
			if count[l] == 0 {
				continue
			}
			m := float64(count[l])
			for j := 0; j < p; j++ {
				v := mean.At(l, j) / m
				mean.Set(l, j, v)
				if centers == nil && (v < lo-7*std/math.Sqrt(m) || v > hi+7*std/math.Sqrt(m)) {
					c.Fatalf("mean %g of blob %d (%g samples, std %g) outside the box [%g,%g]", v, l, m, std, lo, hi)
				}
				if centers != nil && math.Abs(v-centers.At(l, j)) > 7*std/math.Sqrt(m)+1e-9 {
					c.Fatalf("mean %g of blob %d (%g samples, std %g), center %g", v, l, m, std, centers.At(l, j))
				}
			}
		}
		// within-blob deviations
		var dev []float64
		for i := 0; i < n; i++ {
			l := int(Y.At(i, 0))
			for j := 0; j < p; j++ {
				ref, f := mean.At(l, j), 0.
				if centers != nil {
					ref, f = centers.At(l, j), 1
				} else if count[l] > 1 {
					f = math.Sqrt(float64(count[l]) / float64(count[l]-1))
				} else {
					continue
				}
				d := (X.At(i, j) - ref) / std * f
				if math.Abs(d) > 9*math.Max(1, f) {
					c.Fatalf("sample %d is %g deviations from its center", i, d)
				}
				dev = append(dev, d)
			}
		}
		if std > 1e-5 {
			moments(c, "deviations", dev)
		}
		if source != "none" {
			X2, Y2 := gen()
			c.Eq("X with the same source", X2, X, 0, 0)
			c.Eq("Y with the same source", Y2, Y, 0, 0)
		} else if n > 3 && std > .1 {
			if X2, _ := gen(); mat.Equal(X, X2) {
				c.Fatalf("two unseeded calls give the same data")
			}
		}
	})
}

func repoDir() string {
	pkg, err := build.Import("github.com/pa-m/sklearn", ".", build.FindOnly)
	if err != nil {
		panic(err)
	}
	return pkg.Dir
}

func csvCells(name string, header bool) [][]string {
	b, err := ioutil.ReadFile(filepath.Join(repoDir(), "datasets/data", name))
	if err != nil {
		panic(err)
	}
	if header {
		b = b[bytes.IndexByte(b, '\n')+1:]
	}
	cells, err := csv.NewReader(bytes.NewReader(b)).ReadAll()
	if err != nil {
		panic(err)
	}
	return cells
}

func fromCells(cells [][]string, lo, hi int) *mat.Dense {
	m := mat.NewDense(len(cells), hi-lo, nil)
	for i := range cells {
		for j := lo; j < hi; j++ {
			v, err := strconv.ParseFloat(strings.TrimSpace(cells[i][j]), 64)
			if err != nil {
				panic(err)
			}
			m.Set(i, j-lo, v)
		}
	}
	return m
}

// Every load gives the file's cells, and is independent of what the caller did to earlier ones.
func TestLoaders(t *testing.T) {
	type pair struct{ X, Y *mat.Dense }
	type loader struct {
		name string
		load func() pair
		want pair
	}
	var all []loader
	for _, l := range []struct {
		name, file string
		load       func() *datasets.MLDataset
	}{{"iris", "iris.json", datasets.LoadIris}, {"cancer", "cancer.json", datasets.LoadBreastCancer}, {"diabetes", "diabetes.json", datasets.LoadDiabetes},
		{"boston", "boston.json", datasets.LoadBoston}, {"wine", "wine.json", datasets.LoadWine}} {
		b, err := ioutil.ReadFile(filepath.Join(repoDir(), "datasets/data", l.file))
		if err != nil {
			panic(err)
		}
		var raw struct {
			Data   [][]float64
			Target []float64
		}
		if err := json.Unmarshal(b, &raw); err != nil {
			panic(err)
		}
		X, Y := mat.NewDense(len(raw.Data), len(raw.Data[0]), nil), mat.NewDense(len(raw.Data), 1, nil)
		for i := range raw.Data {
			X.SetRow(i, raw.Data[i])
			Y.Set(i, 0, raw.Target[i])
		}
		load := l.load
		all = append(all, loader{l.name, func() pair { ds := load(); return pair{ds.X, ds.Y} }, pair{X, Y}},
			loader{l.name + " GetXY", func() pair { X, Y := load().GetXY(); return pair{X, Y} }, pair{X, Y}})
	}
	exam, chip, air := csvCells("ex2data1.txt", false), csvCells("ex2data2.txt", false), csvCells("international-airline-passengers.csv", true)
	all = append(all,
		loader{"exam", func() pair { X, Y := datasets.LoadExamScore(); return pair{X, Y} }, pair{fromCells(exam, 0, 2), fromCells(exam, 2, 3)}},
		loader{"microchip", func() pair { X, Y := datasets.LoadMicroChipTest(); return pair{X, Y} }, pair{fromCells(chip, 0, 2), fromCells(chip, 2, 3)}},
		loader{"airlines", func() pair { Y := datasets.LoadInternationalAirlinesPassengers(); return pair{Y, Y} }, pair{fromCells(air, 1, 2), fromCells(air, 1, 2)}})
	vk.Prop(t, 2, "some data set loaded twice with the first copy overwritten", func(c *vk.C) {
		seen := map[int]bool{}
		desc, twice := "", false
		for k := c.Int("loads", 1, 6); k > 0; k-- {
			i := c.Int("which", 0, len(all)-1)
			l := all[i]
			desc += " " + l.name
			twice = twice || seen[i]
			seen[i] = true
			got := l.load()
			c.Eq(l.name+" X", got.X, l.want.X, 0, 0)
			c.Eq(l.name+" Y", got.Y, l.want.Y, 0, 0)
			if c.Bool("overwrite") {
				got.X.Scale(0, got.X)
				got.Y.Scale(2, got.Y)
			}
		}
		c.Mark(twice, "loads%s", desc)
	})
}

// GetXY gives the data set's cells as fresh matrices.
func TestGetXY(t *testing.T) {
	vk.Prop(t, 100, "more than one cell", func(c *vk.C) {
		n, p := c.Size("n", 1, 20, 80), c.Size("p", 1, 6, 15)
		X, Y := c.Mat("X", n, p, c.AnyKind("kind")), c.Mat("Y", n, 1, vk.Grid)
		ds := &datasets.MLDataset{}
		for i := 0; i < n; i++ {
			ds.Data = append(ds.Data, vk.Row(X, i))
			ds.Target = append(ds.Target, Y.At(i, 0))
		}
		named := c.Bool("named")
		if named {
			for j := 0; j < p; j++ {
				ds.FeatureNames = append(ds.FeatureNames, fmt.Sprint("f", j))
			}
		}
		c.Mark(n*p > 1, "GetXY %dx%d named=%v", n, p, named)
		gx, gy := ds.GetXY()
		c.Eq("X", gx, X, 0, 0)
		c.Eq("Y", gy, Y, 0, 0)
		gx.Scale(3, gx)
		gx.Set(0, 0, 77)
		gx, gy = ds.GetXY()
		c.Eq("X again", gx, X, 0, 0)
		c.Eq("Y again", gy, Y, 0, 0)
	})
}

// Drawn centres are spread over the whole box.
func TestBlobCentersSpread(t *testing.T) {
	vk.Prop(t, 3, "always", func(c *vk.C) {
		p, lo := c.Int("p", 1, 3), c.Float("lo", -20, 20)
		w := c.Float("width", .5, 30)
		X, Y := datasets.MakeBlobs(&datasets.MakeBlobsConfig{NSamples: 4000, NFeatures: p, Centers: 400, ClusterStd: 1e-7 * w, CenterBox: []float64{lo, lo + w}, RandomState: base.NewLockedSource(c.Seed("seed")), Shuffle: c.Bool("shuffle")})
		c.Mark(true, "400 centres of %d features in [%g,%g]", p, lo, lo+w)
		ctr := map[int][]float64{}
		for i := 0; i < 4000; i++ {
			l := int(Y.At(i, 0))
			if old, ok := ctr[l]; ok {
				for j := range old {
					if math.Abs(old[j]-X.At(i, j)) > 1e-5*w {
						c.Fatalf("samples of label %d at %v and %v: deviation is %g", l, old, X.RawRowView(i), 1e-7*w)
					}
				}
			}
			ctr[l] = vk.Row(X, i)
		}
		for j := 0; j < p; j++ {
			var q [4]int
			for _, v := range ctr {
				b := int(math.Floor((v[j] - lo) / w * 4))
				if b < 0 {
					b = 0
				}
				if b > 3 {
					b = 3
				}
				q[b]++
			}
			for b := range q {
				if float64(q[b]) < .08*float64(len(ctr)) {
					c.Fatalf("feature %d: %v centres in the quarters of the box", j, q)
				}
			}
			for l := 1; l < p; l++ {
				same := 0
				for _, v := range ctr {
					if math.Abs(v[0]-v[l]) < 1e-4*w {
						same++
					}
				}
				if same > len(ctr)/10 {
					c.Fatalf("coordinates 0 and %d of %d centres are equal", l, same)
				}
			}
		}
	})
}
