// C13: every transformer is a function of what it was fitted on: storage layout, row grouping,
// earlier fits and clones make no difference, and its inputs are left alone.
package c13

import (
	"fmt"
	"math"
	"testing"

	"github.com/pa-m/sklearn/base"
	pp "github.com/pa-m/sklearn/preprocessing"
	"gonum.org/v1/gonum/mat"
	"verifharness/vk"
)

var names = []string{"minmax", "standard", "robust", "maxabs", "normalizer", "binarizer", "kernelcenterer", "quantile",
	"power", "boxcox", "poly", "onehot", "kbins", "imputer", "pca", "function",
	"labelbinarizer", "labelencoder", "multilabel"}

func onY(name string) bool {
	return name == "labelbinarizer" || name == "labelencoder" || name == "multilabel"
}

func mk(c *vk.C, name string) func() base.Transformer {
	b1, b2, k := c.Bool("b1"), c.Bool("b2"), c.Int("k", 2, 6)
	return func() base.Transformer {
		switch name {
		case "minmax":
			return pp.NewMinMaxScaler([]float64{-1, float64(k)})
		case "standard":
			s := pp.NewStandardScaler()
			s.WithMean, s.WithStd = b1, b2 || !b1
			return s
		case "robust":
			return pp.NewRobustScaler(b1, b2, nil)
		case "maxabs":
			return pp.NewMaxAbsScaler()
		case "normalizer":
			s := pp.NewNormalizer()
			s.Norm = []string{"l1", "l2", "max"}[k%3]
			return s
		case "binarizer":
			return pp.NewBinarizer()
		case "kernelcenterer":
			return pp.NewKernelCenterer()
		case "quantile":
			return pp.NewQuantileTransformer(k, "uniform", nil)
		case "power", "boxcox":
			s := pp.NewPowerTransformer()
			if name == "boxcox" {
				s.Method = "box-cox"
			}
			s.Standardize = b1
			return s
		case "poly":
			s := pp.NewPolynomialFeatures(1 + k%2)
			s.IncludeBias, s.InteractionOnly = b1, b2
			return s
		case "onehot":
			return pp.NewOneHotEncoder()
		case "kbins":
			s := pp.NewKBinsDiscretizer(k)
			if b1 {
				s.Strategy = "uniform"
			}
			if b2 {
				s.Encode = "ordinal"
			}
			return s
		case "imputer":
			s := pp.NewImputer()
			if b1 {
				s.Strategy = "median"
			}
			return s
		case "pca":
			s := pp.NewPCA()
			s.NComponents = 1
			return s
		case "function":
			return pp.NewFunctionTransformer(func(X, Y *mat.Dense) (*mat.Dense, *mat.Dense) {
				return vk.Apply(X, func(_, _ int, v float64) float64 { return v * float64(k) }), Y
			}, nil)
		case "labelbinarizer":
			return pp.NewLabelBinarizer(0, 1)
		case "labelencoder":
			return pp.NewLabelEncoder()
		}
		return pp.NewMultiLabelBinarizer()
	}
}

// shape and values the transformer accepts
func gen(c *vk.C, label, name string, n, p int) *mat.Dense {
	kind := c.AnyKind(label + "kind")
	switch name {
	case "onehot", "labelbinarizer", "labelencoder", "multilabel":
		kind = vk.Grid
	case "power", "boxcox", "pca":
		kind = vk.Gauss
	}
	X := c.Mat(label, n, p, kind)
	switch name {
	case "boxcox":
		X.Apply(func(_, _ int, v float64) float64 { return math.Exp(v / 2) }, X)
	case "imputer":
		r := c.Rnd(label + "holes")
		for j := 0; j < p; j++ {
			for i := 1; i < n; i++ {
				if r.Intn(4) == 0 {
					X.Set(i, j, math.NaN())
				}
			}
		}
	}
	return X
}

func dims(c *vk.C, label, name string) (n, p int) {
	n, p = c.Size(label+"n", 2, 8, 30), c.Size(label+"p", 1, 4, 12)
	switch name {
	case "kernelcenterer":
		n = p + 1
		p = n
	case "power", "boxcox":
		n += 5
		if p > 4 {
			p = 4
		}
	case "poly":
		if p > 6 {
			p = 6
		}
	}
	return
}

// run gives one matrix: the transformed X, or the transformed Y for the label transformers.
func run(m base.Transformer, name string, A mat.Matrix) *mat.Dense {
	if onY(name) {
		_, T := m.Transform(nil, A)
		return vk.Copy(T)
	}
	T, _ := m.Transform(A, nil)
	return vk.Copy(T)
}

// run2 is run without the copy: the matrix the transformer handed out
func run2(m base.Transformer, name string, A mat.Matrix) *mat.Dense {
	if onY(name) {
		_, Y := m.Transform(nil, A)
		return Y
	}
	X, _ := m.Transform(A, nil)
	return X
}

func fit(m base.Transformer, name string, A mat.Matrix) {
	if onY(name) {
		m.Fit(nil, A)
	} else {
		m.Fit(A, nil)
	}
}

func TestTransformers(t *testing.T) {
	vk.Prop(t, 4000, "every transformer of the library, any accepted data: layouts, FitTransform, row grouping, refit, clone history; non-trivial: more than one row and a non-compact layout or a refit", func(c *vk.C) {
		name := c.Pick("transformer", names...)
		c.Class(name)
		mkf := mk(c, name)
		n, p := dims(c, "X", name)
		X := gen(c, "X", name, n, p)
		zn := c.Size("zn", 1, 6, 20)
		Z := gen(c, "Z", name, zn, p)
		if name == "boxcox" || name == "power" {
			Z = gen(c, "Z2", name, zn, p)
		}
		refit := c.Bool("refit")
		lx, lz := c.Lay("X", X, true), c.Lay("Z", Z, true)
		c.Mark(n > 1 && (lx.Name != "compact" || refit), "%s %s/%s refit=%v fit %s apply %s", name, lx.Name, lz.Name, refit, vk.M(X), vk.M(Z))

		ref := mkf()
		fit(ref, name, vk.Copy(X))
		want := run(ref, name, vk.Copy(Z))
		wantX := run(ref, name, vk.Copy(X))

		m := mkf()
		if refit {
			dn, dp := dims(c, "D", name)
			D := gen(c, "D", name, dn, dp)
			fit(m, name, D)
			if c.Bool("used") {
				run(m, name, D)
			}
		}
		fit(m, name, lx.M)
		c.Unchanged("Fit", lx)
		lx.Scribble() // the caller may do anything with its matrix now
		first := run2(m, name, lz.M)
		c.Eq("same fit, other layout or history", first, want, 1e-9, 1e-9)
		c.Unchanged("Transform", lz)

		lx = vk.NewLayout(lx.Name, X)
		f := mkf()
		var T *mat.Dense
		if onY(name) {
			_, T = f.FitTransform(nil, lx.M)
		} else {
			T, _ = f.FitTransform(lx.M, nil)
		}
		c.Eq("FitTransform", T, wantX, 1e-9, 1e-9)
		c.Unchanged("FitTransform", lx)

		// the other matrix is passed through untouched
		lo := c.Lay("other", c.Mat("O", zn, 2, vk.Grid), true)
		var O *mat.Dense
		if onY(name) {
			O, _ = m.Transform(lo.M, lz.M)
		} else {
			_, O = m.Transform(lz.M, lo.M)
		}
		c.Eq("the other matrix", O, lo.M, 0, 0)
		c.Unchanged("Transform", lo, lz)

		// row by row = all at once
		if name != "function" {
			k := c.Int("split", 0, zn-1)
			part := run(m, name, Z.Slice(k, zn, 0, p))
			_, wc := want.Dims()
			c.Eq("rows on their own", part, want.Slice(k, zn, 0, wc), 1e-9, 1e-9)
		}

		c.Eq("an earlier result after later transforms", first, want, 1e-9, 1e-9)

		// a clone behaves like the original and neither disturbs the other
		cl := m.TransformerClone()
		c.Eq("clone", run(cl, name, lz.M), want, 1e-9, 1e-9)
		en, ep := dims(c, "E", name)
		if c.Bool("sameshape") {
			en, ep = n, p
		}
		E := gen(c, "E", name, en, ep)
		fe := mkf()
		fit(fe, name, vk.Copy(E))
		wantE := run(fe, name, vk.Copy(E))
		if c.Bool("refitClone") {
			fit(cl, name, E)
			c.Eq("original after its clone was refitted", run(m, name, lz.M), want, 1e-9, 1e-9)
			c.Eq("refitted clone", run(cl, name, E), wantE, 1e-9, 1e-9)
		} else {
			fit(m, name, E)
			c.Eq("clone after the original was refitted", run(cl, name, lz.M), want, 1e-9, 1e-9)
			c.Eq("refitted original", run(m, name, E), wantE, 1e-9, 1e-9)
		}
		if fmt.Sprintf("%T", cl) != fmt.Sprintf("%T", m) {
			c.Fatalf("clone is a %T", cl)
		}
	})
}
