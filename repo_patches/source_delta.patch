From 842a25e56a2f8b033a1521356c25cb711bb3cab0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:39:46 +0000
Subject: [PATCH 001/177] fix: MatRowSlice reads and writes rows of its own
 range

---
 base/matrix.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/base/matrix.go b/base/matrix.go
index eb6b8b1..d8bfa29 100644
--- a/base/matrix.go
+++ b/base/matrix.go
@@ -61,7 +61,7 @@ func (m MatRowSlice) Dims() (int, int) { _, c := m.Matrix.Dims(); return m.End -
 
 // At for MatRowSlice
 func (m MatRowSlice) At(i, j int) float64 {
-	if i < 0 || i > m.End-m.Start {
+	if i < 0 || i >= m.End-m.Start {
 		panic("indexing error")
 	}
 	return m.Matrix.At(i+m.Start, j)
@@ -70,7 +70,7 @@ func (m MatRowSlice) At(i, j int) float64 {
 // Set for MatRowSlice
 func (m MatRowSlice) Set(i, j int, v float64) {
 	if Mutable, ok := m.Matrix.(mat.Mutable); ok {
-		Mutable.Set(i-m.Start, j, v)
+		Mutable.Set(i+m.Start, j, v)
 	} else {
 		panic("underling Matrix is not Mutable")
 	}
-- 
2.43.0


From 6476d8ef04ca372e43e09089bd26f7761329dae7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:39:46 +0000
Subject: [PATCH 002/177] fix: LockedSource.SourceClone takes the lock while it
 copies the state

---
 base/source.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/base/source.go b/base/source.go
index 663d941..8db1e63 100644
--- a/base/source.go
+++ b/base/source.go
@@ -57,6 +57,8 @@ func (s *LockedSource) Seed(seed uint64) {
 
 // SourceClone ...
 func (s *LockedSource) SourceClone() Source {
+	s.lk.Lock()
+	defer s.lk.Unlock()
 	return &LockedSource{src: s.src.SourceClone().(*randomkit.RKState)}
 }
 
-- 
2.43.0


From af0742f656c421ca9f67bed933850986502ce876 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:43:31 +0000
Subject: [PATCH 003/177] fix: IncrementalMeanAndVar merges batches with the
 Chan formula

---
 preprocessing/data.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/preprocessing/data.go b/preprocessing/data.go
index ade9f73..84535bf 100644
--- a/preprocessing/data.go
+++ b/preprocessing/data.go
@@ -522,8 +522,8 @@ func IncrementalMeanAndVar(X, lastMean, lastVariance *mat.Dense,
 		//     (lastSum / lastOverNewCount - newSum) ** 2)
 		tmp.CloneFrom(lastSum)
 		tmp.Scale(1./lastOverNewCount, tmp)
-		tmp.Add(tmp, newSum)
-		tmp.Mul(tmp, tmp)
+		tmp.Sub(tmp, newSum)
+		tmp.MulElem(tmp, tmp)
 		tmp.Scale(lastOverNewCount/float(updatedSampleCount), tmp)
 
 		updatedUnnormalizedVariance.CloneFrom(lastUnnormalizedVariance)
-- 
2.43.0


From 871fb5b5376c64b559154dc1be970d5f6ecd300b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:43:31 +0000
Subject: [PATCH 004/177] fix: MeanStdDev and NumpyLike.Var divide by the
 number of rows

---
 preprocessing/data.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/preprocessing/data.go b/preprocessing/data.go
index 84535bf..9a6f884 100644
--- a/preprocessing/data.go
+++ b/preprocessing/data.go
@@ -248,7 +248,7 @@ func MeanStdDev(X mat.Matrix) (mean, std *mat.Dense) {
 			mat.Col(tmp, col, X)
 			meancol, stdcol := stat.MeanStdDev(tmp, nil)
 			mean.Set(0, col, meancol)
-			std.Set(0, col, stdcol*float64(n-1)/float64(n))
+			std.Set(0, col, stdcol*math.Sqrt(float64(m-1)/float64(m)))
 		}
 	})
 
@@ -284,7 +284,7 @@ func (NumpyLike) Var(X mat.Matrix) *mat.Dense {
 			mat.Col(tmp, col, X)
 			floats.AddConst(-mean.At(0, col), tmp)
 			floats.Mul(tmp, tmp)
-			variance.Set(0, col, floats.Sum(tmp)/float64(n))
+			variance.Set(0, col, floats.Sum(tmp)/float64(m))
 		}
 	})
 	return variance
@@ -1386,7 +1386,7 @@ func yeoJohnsonOptimize(x []float64) float64 {
 			sumlog1p += tmp
 		}
 		yeoJohnsonTransform(xTrans, x, lmbda)
-		loglike := -float64(nSamples)/2*math.Log(NumpyLike{}.Var(mat.NewDense(nSamples, 1, xTrans)).At(0, 0)) +
+		loglike := -float64(nSamples)/2*math.Log(float64(nSamples)*NumpyLike{}.Var(mat.NewDense(nSamples, 1, xTrans)).At(0, 0)) +
 			(lmbda-1)*sumlog1p
 		return -loglike
 	}
@@ -1483,7 +1483,7 @@ func boxCoxOptimize(x []float64) float64 {
 			sumlog += math.Log(xi)
 		}
 		boxCoxTransform(xTrans, x, lmbda)
-		loglike := -float64(nSamples)/2*math.Log(NumpyLike{}.Var(mat.NewDense(nSamples, 1, xTrans)).At(0, 0)) +
+		loglike := -float64(nSamples)/2*math.Log(float64(nSamples)*NumpyLike{}.Var(mat.NewDense(nSamples, 1, xTrans)).At(0, 0)) +
 			(lmbda-1)*sumlog
 		return -loglike
 	}
-- 
2.43.0


From 48020c4ebf67c216ad544f45afddc87234e07983 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:43:32 +0000
Subject: [PATCH 005/177] fix: DenseMean ignores what its destination held
 before

---
 preprocessing/data.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/preprocessing/data.go b/preprocessing/data.go
index 9a6f884..9ac0d7b 100644
--- a/preprocessing/data.go
+++ b/preprocessing/data.go
@@ -656,7 +656,8 @@ func DenseMean(Xmean *mat.Dense, X mat.Matrix) *mat.Dense {
 	if Xmean == nil {
 		Xmean = mat.NewDense(1, nFeatures, nil)
 	}
-	Xmean.Apply(func(i int, j int, v float64) float64 {
+	Xmean.Apply(func(i int, j int, _ float64) float64 {
+		v := 0.
 		for i := 0; i < nSamples; i++ {
 			v += X.At(i, j)
 		}
-- 
2.43.0


From 9c81e476ae20969738999d83682c45cf750f4c55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:43:32 +0000
Subject: [PATCH 006/177] fix: RobustScaler allocates its statistics on each
 fit

---
 preprocessing/data.go | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/preprocessing/data.go b/preprocessing/data.go
index 9ac0d7b..119a228 100644
--- a/preprocessing/data.go
+++ b/preprocessing/data.go
@@ -362,15 +362,13 @@ func (scaler *RobustScaler) PartialFit(Xmatrix, Ymatrix mat.Matrix) Transformer
 	if nSamples == 0 {
 		return scaler
 	}
-	if scaler.Center && (scaler.Median == nil) {
+	if scaler.Center {
 		scaler.Median = mat.NewDense(1, nFeatures, nil)
 	}
-	if scaler.Scale && (scaler.QuantileDivider == nil) {
+	if scaler.Scale {
 		scaler.QuantileDivider = mat.NewDense(1, nFeatures, nil)
 	}
-	if scaler.Tmp == nil {
-		scaler.Tmp = mat.NewDense(1, nSamples, nil)
-	}
+	scaler.Tmp = mat.NewDense(1, nSamples, nil)
 
 	for c := 0; c < nFeatures; c++ {
 		for r := 0; r < nSamples; r++ {
-- 
2.43.0


From 0c8e3116a686ec6d1d0d32651f259cf0a279b4af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:43:33 +0000
Subject: [PATCH 007/177] fix: clones of MinMaxScaler, StandardScaler and
 MaxAbsScaler do not share statistics

---
 preprocessing/data.go | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/preprocessing/data.go b/preprocessing/data.go
index 119a228..b61828e 100644
--- a/preprocessing/data.go
+++ b/preprocessing/data.go
@@ -26,6 +26,13 @@ type InverseTransformer interface {
 	InverseTransform(X, Y *mat.Dense) (Xout, Yout *mat.Dense)
 }
 
+func denseClone(X *mat.Dense) *mat.Dense {
+	if X == nil {
+		return nil
+	}
+	return mat.DenseCopyOf(X)
+}
+
 // MinMaxScaler rescale data between FeatureRange
 type MinMaxScaler struct {
 	FeatureRange                            []float
@@ -41,6 +48,9 @@ func NewMinMaxScaler(featureRange []float) *MinMaxScaler {
 // TransformerClone ...
 func (scaler *MinMaxScaler) TransformerClone() base.Transformer {
 	var clone = *scaler
+	clone.FeatureRange = append([]float(nil), scaler.FeatureRange...)
+	clone.Scale, clone.Min = denseClone(scaler.Scale), denseClone(scaler.Min)
+	clone.DataMin, clone.DataMax, clone.DataRange = denseClone(scaler.DataMin), denseClone(scaler.DataMax), denseClone(scaler.DataRange)
 	return &clone
 }
 
@@ -143,6 +153,7 @@ func NewStandardScaler() *StandardScaler {
 // TransformerClone ...
 func (scaler *StandardScaler) TransformerClone() base.Transformer {
 	var clone = *scaler
+	clone.Scale, clone.Mean, clone.Var = denseClone(scaler.Scale), denseClone(scaler.Mean), denseClone(scaler.Var)
 	return &clone
 }
 
@@ -920,6 +931,8 @@ func NewMaxAbsScaler() *MaxAbsScaler { return &MaxAbsScaler{} }
 // TransformerClone ...
 func (m *MaxAbsScaler) TransformerClone() base.Transformer {
 	var clone = *m
+	clone.Scale = append([]float64(nil), m.Scale...)
+	clone.MaxAbs = append([]float64(nil), m.MaxAbs...)
 	return &clone
 }
 
-- 
2.43.0


From 435216719a23edf437ce79c8a807caeff13f8817 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:43:34 +0000
Subject: [PATCH 008/177] fix: clones of LabelEncoder do not share classes

---
 preprocessing/label.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/preprocessing/label.go b/preprocessing/label.go
index 70ed591..f7547bd 100644
--- a/preprocessing/label.go
+++ b/preprocessing/label.go
@@ -281,6 +281,12 @@ func NewLabelEncoder() *LabelEncoder { return &LabelEncoder{} }
 // TransformerClone ...
 func (m *LabelEncoder) TransformerClone() base.Transformer {
 	clone := *m
+	clone.Classes = make([][]float64, len(m.Classes))
+	clone.Support = make([][]float64, len(m.Support))
+	for i := range m.Classes {
+		clone.Classes[i] = append([]float64(nil), m.Classes[i]...)
+		clone.Support[i] = append([]float64(nil), m.Support[i]...)
+	}
 	return &clone
 }
 
-- 
2.43.0


From d03d0bf9804e036ba19e0500bfdf5ae0b87f6d4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:43:35 +0000
Subject: [PATCH 009/177] fix: MaxAbsScaler starts afresh on Fit and can start
 with PartialFit

---
 preprocessing/data.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/preprocessing/data.go b/preprocessing/data.go
index b61828e..6593eec 100644
--- a/preprocessing/data.go
+++ b/preprocessing/data.go
@@ -939,15 +939,17 @@ func (m *MaxAbsScaler) TransformerClone() base.Transformer {
 // Fit for MaxAbsScaler ...
 func (m *MaxAbsScaler) Fit(Xmatrix, Ymatrix mat.Matrix) base.Fiter {
 	X, Y := base.ToDense(Xmatrix), base.ToDense(Ymatrix)
-	Xmat := X.RawMatrix()
-	m.MaxAbs = make([]float64, Xmat.Cols)
-	m.Scale = make([]float64, Xmat.Cols)
+	m.NSamplesSeen = 0
 	return m.PartialFit(X, Y)
 }
 
 // PartialFit for MaxAbsScaler ...
 func (m *MaxAbsScaler) PartialFit(X, Y *mat.Dense) base.Transformer {
 	Xmat := X.RawMatrix()
+	if m.NSamplesSeen == 0 {
+		m.MaxAbs = make([]float64, Xmat.Cols)
+		m.Scale = make([]float64, Xmat.Cols)
+	}
 	for jX := 0; jX < Xmat.Rows*Xmat.Stride; jX = jX + Xmat.Stride {
 		for i, v := range Xmat.Data[jX : jX+Xmat.Cols] {
 			if v < 0. {
-- 
2.43.0


From 118665c360ebc92df19520162685679dd22c23df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:43:35 +0000
Subject: [PATCH 010/177] fix: Normalizer handles non square data and its
 InverseTransform returns data

---
 preprocessing/data.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/preprocessing/data.go b/preprocessing/data.go
index 6593eec..820ce52 100644
--- a/preprocessing/data.go
+++ b/preprocessing/data.go
@@ -1055,7 +1055,7 @@ func (m *Normalizer) Transform(Xmatrix, Y mat.Matrix) (Xout, Yout *mat.Dense) {
 		m.nrmValues = make([]float64, NSamples)
 		for i := 0; i < NSamples; i++ {
 			mat.Row(tmp, i, X)
-			nrm := mat.Norm(mat.NewVecDense(NSamples, tmp), norm)
+			nrm := mat.Norm(mat.NewVecDense(NFeatures, tmp), norm)
 			m.nrmValues[i] = nrm
 			if nrm != 0 {
 				floats.Scale(1/nrm, tmp)
@@ -1075,7 +1075,12 @@ func (m *Normalizer) FitTransform(X, Y mat.Matrix) (Xout, Yout *mat.Dense) {
 
 // InverseTransform for Normalizer ...
 func (m *Normalizer) InverseTransform(X, Y *mat.Dense) (Xout, Yout *mat.Dense) {
+	Yout = Y
+	if X == nil {
+		return
+	}
 	NSamples, NFeatures := X.Dims()
+	Xout = mat.NewDense(NSamples, NFeatures, nil)
 	if m.Axis == 0 {
 		tmp := make([]float64, NSamples)
 		for i := 0; i < NFeatures; i++ {
-- 
2.43.0


From d8bd10546514349aab9488cf8ea78c5b0aa39d15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:43:36 +0000
Subject: [PATCH 011/177] fix: Binarizer writes its output with the stride of
 the output

---
 preprocessing/data.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/preprocessing/data.go b/preprocessing/data.go
index 820ce52..5e6fa91 100644
--- a/preprocessing/data.go
+++ b/preprocessing/data.go
@@ -900,13 +900,13 @@ func (m *Binarizer) Transform(X, Y mat.Matrix) (Xout, Yout *mat.Dense) {
 	Xout = mat.NewDense(rmx.Rows, rmx.Cols, nil)
 	rmXout := Xout.RawMatrix()
 	Yout = base.ToDense(Y)
-	for r, xpos := 0, 0; r < rmx.Rows; r, xpos = r+1, xpos+rmx.Stride {
+	for r, xpos, opos := 0, 0, 0; r < rmx.Rows; r, xpos, opos = r+1, xpos+rmx.Stride, opos+rmXout.Stride {
 		for c := 0; c < rmx.Cols; c++ {
 
 			if rmx.Data[xpos+c] > m.Threshold {
-				rmXout.Data[xpos+c] = 1
+				rmXout.Data[opos+c] = 1
 			} else {
-				rmXout.Data[xpos+c] = 0
+				rmXout.Data[opos+c] = 0
 			}
 		}
 	}
-- 
2.43.0


From fb7b559abc6d6eaf74dc92a65fae73cf0d70a930 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:43:36 +0000
Subject: [PATCH 012/177] fix: KernelCenterer output has the shape of its input

---
 preprocessing/data.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/preprocessing/data.go b/preprocessing/data.go
index 5e6fa91..5a28dea 100644
--- a/preprocessing/data.go
+++ b/preprocessing/data.go
@@ -1146,7 +1146,7 @@ func (m *KernelCenterer) Transform(Xmatrix, Y mat.Matrix) (Xout, Yout *mat.Dense
 		}
 	})
 	Xmat := X.RawMatrix()
-	Xout = mat.NewDense(Xmat.Cols, Xmat.Cols, nil)
+	Xout = mat.NewDense(Xmat.Rows, Xmat.Cols, nil)
 	Xoutmat := Xout.RawMatrix()
 	for j, jX, jXout := 0, 0, 0; j < Xmat.Rows; j, jX, jXout = j+1, jX+Xmat.Stride, jXout+Xoutmat.Stride {
 		for i, v := range Xmat.Data[jX : jX+Xmat.Cols] {
-- 
2.43.0


From fff10c217de5b11788527696f877a8cfa01c9c77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:43:37 +0000
Subject: [PATCH 013/177] fix: InverseTransform of MaxAbsScaler and
 OneHotEncoder accept a nil X

---
 preprocessing/data.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/preprocessing/data.go b/preprocessing/data.go
index 5a28dea..4eb44da 100644
--- a/preprocessing/data.go
+++ b/preprocessing/data.go
@@ -779,6 +779,9 @@ func (m *OneHotEncoder) FitTransform(X, Y mat.Matrix) (Xout, Yout *mat.Dense) {
 
 // InverseTransform compute Yout classes from one hot encoded format
 func (m *OneHotEncoder) InverseTransform(X, Y *mat.Dense) (Xout, Yout *mat.Dense) {
+	if X == nil {
+		return X, Y
+	}
 	nSamples, _ := X.Dims()
 	nFeatures := len(m.NValues)
 	Yout = Y
@@ -993,6 +996,9 @@ func (m *MaxAbsScaler) FitTransform(X, Y mat.Matrix) (Xout, Yout *mat.Dense) {
 
 // InverseTransform for MaxAbsScaler ...
 func (m *MaxAbsScaler) InverseTransform(X, Y *mat.Dense) (Xout, Yout *mat.Dense) {
+	if X == nil {
+		return X, Y
+	}
 	Xmat := X.RawMatrix()
 	Xout = mat.NewDense(Xmat.Rows, Xmat.Cols, nil)
 	Xoutmat := Xout.RawMatrix()
-- 
2.43.0


From 98ff0849d5e3f5d6118367377d9eccb238f530d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:43:38 +0000
Subject: [PATCH 014/177] fix: OneHotEncoder.InverseTransform returns the
 encoded values

---
 preprocessing/data.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/preprocessing/data.go b/preprocessing/data.go
index 4eb44da..0763b41 100644
--- a/preprocessing/data.go
+++ b/preprocessing/data.go
@@ -791,7 +791,7 @@ func (m *OneHotEncoder) InverseTransform(X, Y *mat.Dense) (Xout, Yout *mat.Dense
 		cstart, cend := m.FeatureIndices[feature], m.FeatureIndices[feature+1]
 		for sample := 0; sample < nSamples; sample++ {
 			classNo := floats.MaxIdx(X.RawRowView(sample)[cstart:cend])
-			Xout.Set(sample, feature, float64(classNo))
+			Xout.Set(sample, feature, m.Values[feature][classNo])
 		}
 	}
 	return
-- 
2.43.0


From 99b0eb3985fa9dae44efa919bc2a420bea97b039 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:43:38 +0000
Subject: [PATCH 015/177] fix: OneHotEncoder encodes a value it has not seen as
 no category

---
 preprocessing/data.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/preprocessing/data.go b/preprocessing/data.go
index 0763b41..409e657 100644
--- a/preprocessing/data.go
+++ b/preprocessing/data.go
@@ -764,7 +764,9 @@ func (m *OneHotEncoder) Transform(X, Y mat.Matrix) (Xout, Yout *mat.Dense) {
 		for sample := 0; sample < NSamples; sample++ {
 			v := X.At(sample, feature)
 			//fmt.Printf("sample %d feature %d baseColumn %d nClasses %d y %g min:%d yint %d\n", sample, feature, baseColumn, m.NumClasses[feature], Y.At(sample, feature), m.Min[feature], yint)
-			Xout.Set(sample, baseColumn+cmap[v], 1.)
+			if classNo, ok := cmap[v]; ok {
+				Xout.Set(sample, baseColumn+classNo, 1.)
+			}
 		}
 		baseColumn += m.NValues[feature]
 	}
-- 
2.43.0


From 3ae2c4296d725857edbeca79b05ee373e5f1fa50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:43:39 +0000
Subject: [PATCH 016/177] fix: PolynomialFeatures.InverseTransform returns Y

---
 preprocessing/data.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/preprocessing/data.go b/preprocessing/data.go
index 409e657..d5717ad 100644
--- a/preprocessing/data.go
+++ b/preprocessing/data.go
@@ -648,7 +648,7 @@ func (poly *PolynomialFeatures) InverseTransform(X, Y *mat.Dense) (Xout, Yout *m
 			}
 		}
 	}
-	Xout = mat.NewDense(nSamples, XoutCols, nil)
+	Xout, Yout = mat.NewDense(nSamples, XoutCols, nil), Y
 
 	for _, pair := range jts {
 		//fmt.Println(jts)
-- 
2.43.0


From c02aef185d31a193d43e8d3c0a8dd972cad6f158 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:43:40 +0000
Subject: [PATCH 017/177] fix: Shuffler handles nil arguments and
 InverseTransform leaves its input alone

---
 preprocessing/data.go | 33 +++++++++++++++++++++++++++------
 1 file changed, 27 insertions(+), 6 deletions(-)

diff --git a/preprocessing/data.go b/preprocessing/data.go
index d5717ad..4f87cb7 100644
--- a/preprocessing/data.go
+++ b/preprocessing/data.go
@@ -10,6 +10,7 @@ import (
 	"github.com/pa-m/sklearn/base"
 
 	"github.com/pa-m/optimize"
+	"gonum.org/v1/gonum/blas/blas64"
 	"gonum.org/v1/gonum/floats"
 	"gonum.org/v1/gonum/mat"
 	"gonum.org/v1/gonum/stat"
@@ -826,10 +827,23 @@ func (m *Shuffler) Fit(Xmatrix, Ymatrix mat.Matrix) base.Fiter {
 	return m
 }
 
+func shufflerCopy(X mat.Matrix) *mat.Dense {
+	if D := base.ToDense(X); D != nil {
+		return mat.DenseCopyOf(D)
+	}
+	return nil
+}
+
 // Transform for Shuffler
 func (m *Shuffler) Transform(X, Y mat.Matrix) (Xout, Yout *mat.Dense) {
-	Xout, Yout = mat.DenseCopyOf(X), mat.DenseCopyOf(Y)
-	xmat, ymat := Xout.RawMatrix(), Yout.RawMatrix()
+	Xout, Yout = shufflerCopy(X), shufflerCopy(Y)
+	var xmat, ymat blas64.General
+	if Xout != nil {
+		xmat = Xout.RawMatrix()
+	}
+	if Yout != nil {
+		ymat = Yout.RawMatrix()
+	}
 	var dstxpos, dstypos, j int
 	var v float64
 	for i, srcxpos, srcypos := 0, 0, 0; i < len(m.Perm); i, srcxpos, srcypos = i+1, srcxpos+xmat.Stride, srcypos+ymat.Stride {
@@ -858,19 +872,26 @@ func (m *Shuffler) FitTransform(X, Y mat.Matrix) (Xout, Yout *mat.Dense) {
 
 // InverseTransform for Shuffler
 func (m *Shuffler) InverseTransform(X, Y *mat.Dense) (Xout, Yout *mat.Dense) {
-	xmat, ymat := X.RawMatrix(), Y.RawMatrix()
+	Xout, Yout = shufflerCopy(X), shufflerCopy(Y)
+	var xmat, ymat blas64.General
+	if Xout != nil {
+		xmat = Xout.RawMatrix()
+	}
+	if Yout != nil {
+		ymat = Yout.RawMatrix()
+	}
 	var srcxpos, srcypos, dstxpos, dstypos, j int
 	var v float64
 	for i := len(m.Perm) - 1; i >= 0; i-- {
 		if m.Perm[i] > i {
 			srcxpos, dstxpos = m.Perm[i]*xmat.Stride, i*xmat.Stride
 			srcypos, dstypos = m.Perm[i]*ymat.Stride, i*ymat.Stride
-			for j = 0; j < xmat.Stride; j++ {
+			for j = 0; j < xmat.Cols; j++ {
 				v = xmat.Data[srcxpos+j]
 				xmat.Data[srcxpos+j] = xmat.Data[dstxpos+j]
 				xmat.Data[dstxpos+j] = v
 			}
-			for j = 0; j < ymat.Stride; j++ {
+			for j = 0; j < ymat.Cols; j++ {
 				v := ymat.Data[srcypos+j]
 				ymat.Data[srcypos+j] = ymat.Data[dstypos+j]
 				ymat.Data[dstypos+j] = v
@@ -879,7 +900,7 @@ func (m *Shuffler) InverseTransform(X, Y *mat.Dense) (Xout, Yout *mat.Dense) {
 		}
 	}
 
-	return X, Y
+	return Xout, Yout
 }
 
 // Binarizer Binarize data (set feature values to 0 or 1) according to a threshold
-- 
2.43.0


From e43c1ba2502ff4f7d3c592603c74c6bb88ff85e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:43:40 +0000
Subject: [PATCH 018/177] fix: QuantileTransformer sorts the data, handles
 every column, ties and values out of range

---
 preprocessing/data.go | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/preprocessing/data.go b/preprocessing/data.go
index 4f87cb7..83f7fcd 100644
--- a/preprocessing/data.go
+++ b/preprocessing/data.go
@@ -1218,6 +1218,7 @@ func (m *QuantileTransformer) Fit(Xmatrix, Ymatrix mat.Matrix) base.Fiter {
 	}
 	for feature := 0; feature < nFeatures; feature++ {
 		values := XT.RawRowView(feature)
+		sort.Float64s(values)
 		quantiles := Q.RawRowView(feature)
 		for i := range m.references {
 			realSample := float64(i) / float64(m.NQuantiles-1) * float64(nSamples-1)
@@ -1240,13 +1241,24 @@ func (m *QuantileTransformer) Transform(Xmatrix, Ymatrix mat.Matrix) (Xout, Yout
 	nSamples, nFeatures := X.Dims()
 	eps := 1e-7
 	Xout = mat.NewDense(nSamples, nFeatures, nil)
-	for c := 0; c < nFeatures && c < len(m.references); c++ {
+	for c := 0; c < nFeatures; c++ {
+		for i := 0; i < nSamples; i++ {
+			if X.At(i, c) < m.Quantiles.At(0, c) {
+				Xout.Set(i, c, m.references[0]+eps)
+			} else if X.At(i, c) > m.Quantiles.At(m.NQuantiles-1, c) {
+				Xout.Set(i, c, m.references[m.NQuantiles-1]-eps)
+			}
+		}
 		for q := m.NQuantiles - 2; q >= 0; q-- {
 			x0, x1 := m.Quantiles.At(q, c), m.Quantiles.At(q+1, c)
 			for i := 0; i < nSamples; i++ {
 				x := X.At(i, c)
 				if x >= x0 && x <= x1 {
-					Xout.Set(i, c, math.Min(m.references[m.NQuantiles-1]-eps, math.Max(m.references[0]+eps, m.references[q]+(x-x0)/(x1-x0)*(m.references[q+1]-m.references[q]))))
+					p := 0.
+					if x1 > x0 {
+						p = (x - x0) / (x1 - x0)
+					}
+					Xout.Set(i, c, math.Min(m.references[m.NQuantiles-1]-eps, math.Max(m.references[0]+eps, m.references[q]+p*(m.references[q+1]-m.references[q]))))
 				}
 			}
 		}
-- 
2.43.0


From 9cdb379a8e561a4408c964855d15586dc6366b27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:43:41 +0000
Subject: [PATCH 019/177] fix: PowerTransformer.Transform leaves its input
 alone

---
 preprocessing/data.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/preprocessing/data.go b/preprocessing/data.go
index 83f7fcd..bd0cf98 100644
--- a/preprocessing/data.go
+++ b/preprocessing/data.go
@@ -1350,7 +1350,7 @@ func (m *PowerTransformer) fit(X, Y mat.Matrix, forceTransform bool) (Xout *mat.
 // Transform apply the power transform to each feature using the fitted lambdas
 func (m *PowerTransformer) Transform(X, Y mat.Matrix) (Xout, Yout *mat.Dense) {
 	nSamples, nFeatures := X.Dims()
-	Xout = base.ToDense(X)
+	Xout = mat.NewDense(nSamples, nFeatures, nil)
 	Yout = base.ToDense(Y)
 	var transformFunc func(out, x []float64, lmbda float64)
 	switch m.Method {
-- 
2.43.0


From 16d3719de85f3d9a1badd7c1d0bd930c95d6d9bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:43:42 +0000
Subject: [PATCH 020/177] fix: yeo-johnson takes its lambda=0 and lambda=2
 branches

---
 preprocessing/data.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/preprocessing/data.go b/preprocessing/data.go
index bd0cf98..84f2e35 100644
--- a/preprocessing/data.go
+++ b/preprocessing/data.go
@@ -1462,7 +1462,7 @@ func yeoJohnsonOptimize(x []float64) float64 {
 
 // yeoJohnsonTransform returns in out transformed input x following Yeo-Johnson transform with parameter lambda
 func yeoJohnsonTransform(out, x []float64, lmbda float64) {
-	spacing := math.Nextafter(1, 1) - 1
+	spacing := math.Nextafter(1, 2) - 1
 
 	//# when x >= 0
 	if math.Abs(lmbda) < spacing {
@@ -1497,7 +1497,7 @@ func yeoJohnsonTransform(out, x []float64, lmbda float64) {
 
 // yeoJohnsonInverseTransform returns inverse-transformed input x following Yeo-Johnson inverse transform with parameter lambda
 func yeoJohnsonInverseTransform(xinv, x []float64, lmbda float64) {
-	spacing := math.Nextafter(1, 1) - 1
+	spacing := math.Nextafter(1, 2) - 1
 	abs := math.Abs
 	exp := math.Exp
 	power := math.Pow
-- 
2.43.0


From 5a4da55198e4325efab6011d5083612b97150247 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:43:42 +0000
Subject: [PATCH 021/177] fix: box-cox inverse transform accepts the images of
 values below 1

---
 preprocessing/data.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/preprocessing/data.go b/preprocessing/data.go
index 84f2e35..0708924 100644
--- a/preprocessing/data.go
+++ b/preprocessing/data.go
@@ -1575,7 +1575,7 @@ func boxCoxInverseTransform(out, x []float64, lmbda float64) {
 		f = math.Exp
 	}
 	for pos, xi := range x {
-		if xi > 0 || (xi >= 0 && lmbda > 0) {
+		if xl := xi*lmbda + 1; xl > 0 || (xl >= 0 && lmbda > 0) {
 			out[pos] = f(xi)
 		} else {
 			out[pos] = math.NaN()
-- 
2.43.0


From fd7a8cebe76c9f4a653c6e23a62c12052785194a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:43:43 +0000
Subject: [PATCH 022/177] fix: LabelBinarizer fills NegLabel in the columns of
 the other classes

---
 preprocessing/label.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/preprocessing/label.go b/preprocessing/label.go
index f7547bd..80b2719 100644
--- a/preprocessing/label.go
+++ b/preprocessing/label.go
@@ -68,10 +68,11 @@ func (m *LabelBinarizer) Transform(X, Y mat.Matrix) (Xout, Yout *mat.Dense) {
 		}
 		for i, yi, yo0 := 0, 0, 0; i < y.Rows; i, yi, yo0 = i+1, yi+y.Stride, yo0+yo.Stride {
 			val := y.Data[yi+j]
+			for classNo := range m.Classes[j] {
+				yo.Data[yo0+baseCol+classNo] = m.NegLabel
+			}
 			if classNo, ok := cmap[val]; ok {
 				yo.Data[yo0+baseCol+classNo] = m.PosLabel
-			} else {
-				yo.Data[yo0+baseCol+classNo] = m.NegLabel
 			}
 		}
 		baseCol += len(m.Classes[j])
-- 
2.43.0


From 6e82c725a624d45a50262205f3dc6c2cb1e1f032 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:43:43 +0000
Subject: [PATCH 023/177] fix: LabelBinarizer.InverseTransform visits each
 output once

---
 preprocessing/label.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/preprocessing/label.go b/preprocessing/label.go
index 80b2719..a1d12cd 100644
--- a/preprocessing/label.go
+++ b/preprocessing/label.go
@@ -94,7 +94,7 @@ func (m *LabelBinarizer) InverseTransform(X, Y *mat.Dense) (Xout, Yout *mat.Dens
 
 	Yout = mat.NewDense(NSamples, NOutputs, nil)
 	y, yo := Y.RawMatrix(), Yout.RawMatrix()
-	for j, baseCol := 0, 0; baseCol < y.Cols; j, baseCol = j+1, baseCol+len(m.Classes[j]) {
+	for j, baseCol := 0, 0; j < NOutputs; j++ {
 		for i, yi, yo0 := 0, 0, 0; i < y.Rows; i, yi, yo0 = i+1, yi+y.Stride, yo0+yo.Stride {
 			classNo := floats.MaxIdx(y.Data[yi+baseCol : yi+baseCol+len(m.Classes[j])])
 
-- 
2.43.0


From 19fcab44d827593ba750b514631d25d13b7f319f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:43:44 +0000
Subject: [PATCH 024/177] fix: LabelEncoder encodes labels it has not seen as
 -1 and decodes unknown codes as NaN

---
 preprocessing/label.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/preprocessing/label.go b/preprocessing/label.go
index a1d12cd..85f5e96 100644
--- a/preprocessing/label.go
+++ b/preprocessing/label.go
@@ -335,7 +335,7 @@ func (m *LabelEncoder) Transform(X, Y mat.Matrix) (Xout, Yout *mat.Dense) {
 	for jY, jYout := 0, 0; jY < Ymat.Rows*Ymat.Stride; jY, jYout = jY+Ymat.Stride, jYout+Youtmat.Stride {
 		for i, v := range Ymat.Data[jY : jY+Ymat.Cols] {
 			pos := sort.SearchFloat64s(m.Classes[i], v)
-			if pos < 0 || pos >= len(m.Classes[i]) {
+			if pos >= len(m.Classes[i]) || m.Classes[i][pos] != v {
 				pos = -1
 			}
 			Youtmat.Data[jYout+i] = float64(pos)
@@ -358,9 +358,9 @@ func (m *LabelEncoder) InverseTransform(X, Y *mat.Dense) (Xout, Yout *mat.Dense)
 	Youtmat := Yout.RawMatrix()
 	for jY, jYout := 0, 0; jY < Ymat.Rows*Ymat.Stride; jY, jYout = jY+Ymat.Stride, jYout+Youtmat.Stride {
 		for i, v := range Ymat.Data[jY : jY+Ymat.Cols] {
-			if int(v) < 0 || int(v) > len(m.Classes[i]) {
+			if int(v) < 0 || int(v) >= len(m.Classes[i]) {
 				Youtmat.Data[jYout+i] = math.NaN()
-				break
+				continue
 			}
 			Youtmat.Data[jYout+i] = m.Classes[i][int(v)]
 		}
-- 
2.43.0


From 44d7424e0d89e26fac3e2384b7b2c10c63b0ec89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:43:45 +0000
Subject: [PATCH 025/177] fix: MultiLabelBinarizer.Transform accepts any matrix

---
 preprocessing/label.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/preprocessing/label.go b/preprocessing/label.go
index 85f5e96..21fd72b 100644
--- a/preprocessing/label.go
+++ b/preprocessing/label.go
@@ -169,7 +169,7 @@ func (m *MultiLabelBinarizer) Fit2(X mat.Matrix, Y interface{}) *MultiLabelBinar
 // Transform for MultiLabelBinarizer ...
 // Y type must be the same passed int Fit
 func (m *MultiLabelBinarizer) Transform(X, Y mat.Matrix) (Xout, Yout *mat.Dense) {
-	return m.Transform2(X, Y)
+	return m.Transform2(X, base.ToDense(Y))
 }
 
 // FitTransform fit to dat, then transform it
-- 
2.43.0


From 27344b044af362b07f95f8e44cf44bef74b8f152 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:43:46 +0000
Subject: [PATCH 026/177] fix: KBinsDiscretizer sorts the data before it takes
 quantiles

---
 preprocessing/discretization.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/preprocessing/discretization.go b/preprocessing/discretization.go
index 1d7e268..9bdcdb1 100644
--- a/preprocessing/discretization.go
+++ b/preprocessing/discretization.go
@@ -3,6 +3,7 @@ package preprocessing
 import (
 	"fmt"
 	"math"
+	"sort"
 
 	"github.com/pa-m/sklearn/base"
 	"gonum.org/v1/gonum/floats"
@@ -39,6 +40,7 @@ func (m *KBinsDiscretizer) Fit(X, Y mat.Matrix) base.Fiter {
 		tmp := make([]float64, NSamples)
 		for f := start; f < end; f++ {
 			mat.Col(tmp, f, X)
+			sort.Float64s(tmp)
 			min, max := floats.Min(tmp), floats.Max(tmp)
 			m.BinEdges[f] = make([]float64, m.NBins+1)
 			for b := 0; b <= m.NBins; b++ {
-- 
2.43.0


From 2dfa933ae70e88c6ce8ebb3f701b786e4d7b535f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:43:46 +0000
Subject: [PATCH 027/177] fix: KBinsDiscretizer.Transform returns Y and encodes
 onehot

---
 preprocessing/discretization.go | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/preprocessing/discretization.go b/preprocessing/discretization.go
index 9bdcdb1..f6e9d7a 100644
--- a/preprocessing/discretization.go
+++ b/preprocessing/discretization.go
@@ -62,11 +62,11 @@ func (m *KBinsDiscretizer) Fit(X, Y mat.Matrix) base.Fiter {
 // Transform discretizes the Data
 func (m *KBinsDiscretizer) Transform(X, Y mat.Matrix) (Xout, Yout *mat.Dense) {
 	NSamples, NFeatures := X.Dims()
+	Yout = base.ToDense(Y)
 	switch m.Encode {
 	case "ordinal":
 		Xout = mat.NewDense(NSamples, NFeatures, nil)
-	case "onehot":
-	case "onehot-dense":
+	case "onehot", "onehot-dense":
 		Xout = mat.NewDense(NSamples, NFeatures*m.NBins, nil)
 	}
 	base.Parallelize(-1, NFeatures, func(th, start, end int) {
@@ -84,8 +84,7 @@ func (m *KBinsDiscretizer) Transform(X, Y mat.Matrix) (Xout, Yout *mat.Dense) {
 				switch m.Encode {
 				case "ordinal":
 					Xout.Set(i, f, float64(ith))
-				case "onehot":
-				case "onehot-dense":
+				case "onehot", "onehot-dense":
 					Xout.Set(i, f*m.NBins+ith, 1)
 				}
 			}
-- 
2.43.0


From 2e8ce936dcce0a2265fa64a02666e31ecb12c5d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:43:47 +0000
Subject: [PATCH 028/177] fix: PCA handles fewer samples than features and
 inverts reduced projections

---
 preprocessing/pca.go | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/preprocessing/pca.go b/preprocessing/pca.go
index 067575b..0d5ff57 100644
--- a/preprocessing/pca.go
+++ b/preprocessing/pca.go
@@ -27,7 +27,10 @@ func (m *PCA) TransformerClone() base.Transformer {
 // Fit computes the svd of X
 func (m *PCA) Fit(Xmatrix, Ymatrix mat.Matrix) base.Fiter {
 	X := base.ToDense(Xmatrix)
-	_, c := X.Dims()
+	r, c := X.Dims()
+	if r < c {
+		c = r
+	}
 	m.SVD.Factorize(X, mat.SVDThin)
 	m.SingularValues = make([]float64, c)
 	m.ExplainedVarianceRatio = make([]float64, c)
@@ -80,9 +83,9 @@ func (m *PCA) InverseTransform(X, Y *mat.Dense) (Xout, Yout *mat.Dense) {
 	var v = new(mat.Dense)
 	m.SVD.VTo(v)
 	nSamples, _ := X.Dims()
-	_, vCols := v.Dims()
-	Xout = mat.NewDense(nSamples, vCols, nil)
-	Xout.Mul(X, v.T())
+	vRows, _ := v.Dims()
+	Xout = mat.NewDense(nSamples, vRows, nil)
+	Xout.Mul(X, base.MatDenseSlice(v, 0, vRows, 0, m.NComponents).T())
 	Yout = Y
 	return
 }
-- 
2.43.0


From 3dd6b739786bedc9b10f09820a0b0765fbfc3ec9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:45:22 +0000
Subject: [PATCH 029/177] fix: StandardScaler leaves unscaled the columns that
 are constant up to rounding

---
 preprocessing/data.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/preprocessing/data.go b/preprocessing/data.go
index 0708924..2e112d8 100644
--- a/preprocessing/data.go
+++ b/preprocessing/data.go
@@ -184,8 +184,9 @@ func (scaler *StandardScaler) PartialFit(X, Y *mat.Dense) Transformer {
 
 	}
 	scaler.Mean, scaler.Var, scaler.NSamplesSeen = IncrementalMeanAndVar(X, scaler.Mean, scaler.Var, scaler.NSamplesSeen)
+	eps := math.Nextafter(1, 2) - 1
 	scaler.Scale.Apply(func(i int, j int, vj float64) float64 {
-		if vj == 0. {
+		if bound := float(scaler.NSamplesSeen) * eps * scaler.Mean.At(0, j); vj <= bound*bound {
 			vj = 1.
 		}
 		return math.Sqrt(vj)
-- 
2.43.0


From 5d77e0bf07656474265bb45daf04e3286911b67e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:45:22 +0000
Subject: [PATCH 030/177] fix: PCA clones do not share the storage of the
 decomposition

---
 preprocessing/pca.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/preprocessing/pca.go b/preprocessing/pca.go
index 0d5ff57..1e13deb 100644
--- a/preprocessing/pca.go
+++ b/preprocessing/pca.go
@@ -31,6 +31,7 @@ func (m *PCA) Fit(Xmatrix, Ymatrix mat.Matrix) base.Fiter {
 	if r < c {
 		c = r
 	}
+	m.SVD = mat.SVD{}
 	m.SVD.Factorize(X, mat.SVDThin)
 	m.SingularValues = make([]float64, c)
 	m.ExplainedVarianceRatio = make([]float64, c)
-- 
2.43.0


From 5f85201e048cca6f765d08c02e642100f831ced4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:48:46 +0000
Subject: [PATCH 031/177] fix: LabelEncoder counts a new label once

---
 preprocessing/label.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/preprocessing/label.go b/preprocessing/label.go
index 21fd72b..80df233 100644
--- a/preprocessing/label.go
+++ b/preprocessing/label.go
@@ -321,7 +321,7 @@ func (m *LabelEncoder) PartialFit(X, Y *mat.Dense) base.Transformer {
 			copy(m.Classes[i][pos+1:l+1], m.Classes[i][pos:l])
 			copy(m.Support[i][pos+1:l+1], m.Support[i][pos:l])
 			m.Classes[i][pos] = v
-			m.Support[i][pos] += 1.
+			m.Support[i][pos] = 1.
 		}
 	}
 	return m
-- 
2.43.0


From b40f66aa69bf45c25d1655aeda0dbe0cabf2d323 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:52:44 +0000
Subject: [PATCH 032/177] fix: QuantileTransformer interpolates equal values to
 that value

---
 preprocessing/data.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/preprocessing/data.go b/preprocessing/data.go
index 2e112d8..5b0b512 100644
--- a/preprocessing/data.go
+++ b/preprocessing/data.go
@@ -1228,7 +1228,7 @@ func (m *QuantileTransformer) Fit(Xmatrix, Ymatrix mat.Matrix) base.Fiter {
 				quantiles[i] = values[i0]
 			} else {
 				p := realSample - float64(i0)
-				quantiles[i] = (values[i0]*(1-p) + values[i0+1]*(p))
+				quantiles[i] = values[i0] + (values[i0+1]-values[i0])*p
 			}
 		}
 	}
-- 
2.43.0


From 75ff840f960e2f890c34c1c821e160c101f3766d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:55:45 +0000
Subject: [PATCH 033/177] fix: ConfusionMatrix has a class for labels that are
 only predicted

---
 metrics/classification.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/metrics/classification.go b/metrics/classification.go
index 6c4d763..44608cd 100644
--- a/metrics/classification.go
+++ b/metrics/classification.go
@@ -74,7 +74,7 @@ func FBetaScore(Ytrue, Ypred *mat.Dense, beta float64, average string, sampleWei
 func PrecisionRecallFScoreSupport(YTrue, YPred *mat.Dense, beta float64, labels []float64, posLabel int, average string, warnFor []string, sampleWeight []float64) (precision, recall, fscore, support float64) {
 	type sumstype struct{ tpsum, truesum, predsum float64 }
 	type prfstype struct{ p, r, f, s float64 }
-	cm, _, _, le := internalConfusionMatrix(YTrue, YPred, sampleWeight)
+	cm, _, _, _ := internalConfusionMatrix(YTrue, YPred, sampleWeight)
 	cmmat := cm.RawMatrix()
 	NClasses := cmmat.Rows
 	sumsperclass := make([]sumstype, NClasses)
@@ -93,8 +93,8 @@ func PrecisionRecallFScoreSupport(YTrue, YPred *mat.Dense, beta float64, labels
 			fscore = ((1 + beta2) * precision * recall /
 				(beta2*precision + recall))
 		}
-		if c >= 0 && c < len(le.Support[0]) {
-			support = float64(le.Support[0][c])
+		if c >= 0 {
+			support = g.truesum
 		}
 
 		return
@@ -154,7 +154,7 @@ func ConfusionMatrix(YTrue, YPred *mat.Dense, sampleWeight []float64) *mat.Dense
 func internalConfusionMatrix(YTrue, YPred *mat.Dense, sampleWeight []float64) (*mat.Dense, *mat.Dense, *mat.Dense, *preprocessing.LabelEncoder) {
 	le := preprocessing.NewLabelEncoder()
 	le.Fit(nil, YTrue)
-	//le.PartialFit(nil, YPred)
+	le.PartialFit(nil, YPred)
 	_, yt := le.Transform(nil, YTrue)
 	_, yp := le.Transform(nil, YPred)
 	//var tn, fp, fn, tp int
-- 
2.43.0


From f60ef65e6d0fac8eba57a513fdf41975900214dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:55:45 +0000
Subject: [PATCH 034/177] fix: weighted average of precision, recall and fscore
 uses the supports

---
 metrics/classification.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/metrics/classification.go b/metrics/classification.go
index 44608cd..29dff0e 100644
--- a/metrics/classification.go
+++ b/metrics/classification.go
@@ -127,8 +127,7 @@ func PrecisionRecallFScoreSupport(YTrue, YPred *mat.Dense, beta float64, labels
 			}
 		}
 
-		m := prfstype{stat.Mean(p, nil), stat.Mean(r, nil), stat.Mean(f, nil), stat.Mean(s, nil)}
-		precision, recall, fscore, support = m.p, m.r, m.f, 0
+		precision, recall, fscore, support = stat.Mean(p, s), stat.Mean(r, s), stat.Mean(f, s), 0
 	}
 	// for average=micro
 	if average == "micro" {
-- 
2.43.0


From 4402aed4d56407d3e1fbb9c142521cb03f34486d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:55:46 +0000
Subject: [PATCH 035/177] fix: MeanSquaredError and MeanAbsoluteError weight
 samples by their own weight

---
 metrics/regression.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/metrics/regression.go b/metrics/regression.go
index a3ad59e..a412235 100644
--- a/metrics/regression.go
+++ b/metrics/regression.go
@@ -160,7 +160,7 @@ func MeanSquaredError(yTrue, yPred mat.Matrix, sampleWeight *mat.Dense, multiout
 			ydiff := yPred.At(i, j) - yTrue.At(i, j)
 			w := 1.
 			if sampleWeight != nil {
-				w = sampleWeight.At(0, j)
+				w = sampleWeight.At(i, 0)
 			}
 			N += w * (ydiff * ydiff)
 			D += w
@@ -227,7 +227,7 @@ func MeanAbsoluteError(yTrue, yPred mat.Matrix, sampleWeight *mat.Dense, multiou
 			ydiff := yPred.At(i, j) - yTrue.At(i, j)
 			w := 1.
 			if sampleWeight != nil {
-				w = sampleWeight.At(0, j)
+				w = sampleWeight.At(i, 0)
 			}
 			N += w * math.Abs(ydiff)
 			D += w
-- 
2.43.0


From f113487f2e085359d552bf6e2bc07642dbdce746 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:55:46 +0000
Subject: [PATCH 036/177] fix: averageBinaryScore micro weights and samples
 average

---
 metrics/base.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/metrics/base.go b/metrics/base.go
index 1c263a2..4a783fc 100644
--- a/metrics/base.go
+++ b/metrics/base.go
@@ -30,8 +30,8 @@ func averageBinaryScore(binaryMetric func(Ytrue, Yscore *mat.Dense, sampleWeight
 	case "micro":
 		if scoreWeight != nil {
 			tmp := make([]float64, m*n)
-			for i := 0; i < n; i++ {
-				copy(tmp[i*m:(i+1)*m], scoreWeight)
+			for i := range tmp {
+				tmp[i] = scoreWeight[i/n]
 			}
 			scoreWeight = tmp
 		}
@@ -64,7 +64,8 @@ func averageBinaryScore(binaryMetric func(Ytrue, Yscore *mat.Dense, sampleWeight
 		// # swap average_weight <-> score_weight
 		averageWeight = scoreWeight
 		scoreWeight = nil
-		notAverageAxis = 0
+		yt, ys = mat.DenseCopyOf(Ytrue.T()), mat.DenseCopyOf(Yscore.T())
+		ytmat, ysmat = yt.RawMatrix(), ys.RawMatrix()
 
 	case "macro", "":
 	default:
-- 
2.43.0


From cfa3576edd731b95f34e37e0bd9b81c2ef3c014e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:55:46 +0000
Subject: [PATCH 037/177] fix: AUC integrates over the given points only

---
 metrics/ranking.go | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/metrics/ranking.go b/metrics/ranking.go
index 7312186..42b6e71 100644
--- a/metrics/ranking.go
+++ b/metrics/ranking.go
@@ -108,11 +108,8 @@ func AUC(fpr, tpr []float64) float64 {
 	if !sort.Float64sAreSorted(fpr) {
 		fmt.Println("AUC: tpr is not sorted")
 	}
-	xp, yp := 0., 0.
-	for i := range fpr {
-		x, y := fpr[i], tpr[i]
-		auc += (x - xp) * (y + yp) / 2.
-		xp, yp = x, y
+	for i := 1; i < len(fpr); i++ {
+		auc += (fpr[i] - fpr[i-1]) * (tpr[i] + tpr[i-1]) / 2.
 	}
 	return auc
 }
-- 
2.43.0


From 28ffb77cb0357a8495e43d0822f1dc9cd19fe5a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:13:23 +0000
Subject: [PATCH 038/177] fix: MinkowskiDistanceP of vectors of length 1 is a
 power in neighbors

---
 neighbors/distance.go | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/neighbors/distance.go b/neighbors/distance.go
index 9353cc6..33aa5d9 100644
--- a/neighbors/distance.go
+++ b/neighbors/distance.go
@@ -11,9 +11,6 @@ type Distance func(a, b mat.Vector) float64
 
 // MinkowskiDistanceP ...
 func MinkowskiDistanceP(a, b mat.Vector, p float64) float64 {
-	if a.Len() == 1 {
-		return math.Abs(b.At(0, 0) - a.At(0, 0))
-	}
 	var dp float64
 	rva, isrva := a.(mat.RawVectorer)
 	rvb, isrvb := b.(mat.RawVectorer)
-- 
2.43.0


From 0b228fe1f6e4cdb802135e89772c199a21b67a31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:13:23 +0000
Subject: [PATCH 039/177] fix: MinkowskiDistanceP of vectors of length 1 is a
 power in cluster

---
 cluster/distance.go | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/cluster/distance.go b/cluster/distance.go
index 98ff7ed..562122a 100644
--- a/cluster/distance.go
+++ b/cluster/distance.go
@@ -11,9 +11,6 @@ type Distance func(a, b mat.Vector) float64
 
 // MinkowskiDistanceP ...
 func MinkowskiDistanceP(a, b mat.Vector, p float64) float64 {
-	if a.Len() == 1 {
-		return math.Abs(b.At(0, 0) - a.At(0, 0))
-	}
 	var dp float64
 	rva, isrva := a.(mat.RawVectorer)
 	rvb, isrvb := b.(mat.RawVectorer)
-- 
2.43.0


From 96a36ca9dd00d1aad0910f7c2d5f270fafa0c88a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:13:23 +0000
Subject: [PATCH 040/177] fix: distances in cluster handle vectors with an
 increment

---
 cluster/distance.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cluster/distance.go b/cluster/distance.go
index 562122a..69427f1 100644
--- a/cluster/distance.go
+++ b/cluster/distance.go
@@ -14,6 +14,8 @@ func MinkowskiDistanceP(a, b mat.Vector, p float64) float64 {
 	var dp float64
 	rva, isrva := a.(mat.RawVectorer)
 	rvb, isrvb := b.(mat.RawVectorer)
+	isrva = isrva && rva.RawVector().Inc == 1
+	isrvb = isrvb && rvb.RawVector().Inc == 1
 	if math.IsInf(p, 1) {
 
 		if isrva && isrvb {
-- 
2.43.0


From 75728e3c8d04fce97e318ea9e176575c1df4bc05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:13:23 +0000
Subject: [PATCH 041/177] fix: distances in neighbors handle vectors with an
 increment

---
 neighbors/distance.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/neighbors/distance.go b/neighbors/distance.go
index 33aa5d9..e645858 100644
--- a/neighbors/distance.go
+++ b/neighbors/distance.go
@@ -14,6 +14,8 @@ func MinkowskiDistanceP(a, b mat.Vector, p float64) float64 {
 	var dp float64
 	rva, isrva := a.(mat.RawVectorer)
 	rvb, isrvb := b.(mat.RawVectorer)
+	isrva = isrva && rva.RawVector().Inc == 1
+	isrvb = isrvb && rvb.RawVector().Inc == 1
 	if math.IsInf(p, 1) {
 
 		if isrva && isrvb {
@@ -60,7 +62,7 @@ func EuclideanDistance(a, b mat.Vector) float64 {
 	var d2 float64
 	avd, avdok := a.(mat.RawVectorer)
 	bvd, bvdok := b.(mat.RawVectorer)
-	if avdok && bvdok {
+	if avdok && bvdok && avd.RawVector().Inc == 1 && bvd.RawVector().Inc == 1 {
 		arv, brv, vb, d := avd.RawVector(), bvd.RawVector(), 0., 0.
 		for j, va := range arv.Data {
 			vb = brv.Data[j]
-- 
2.43.0


From 5c9db7514e73191f4b50847da9ce0ea50e50747c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:13:24 +0000
Subject: [PATCH 042/177] fix: KDTree build ends when points repeat

---
 neighbors/kdtree.go | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/neighbors/kdtree.go b/neighbors/kdtree.go
index 789091b..d34e877 100644
--- a/neighbors/kdtree.go
+++ b/neighbors/kdtree.go
@@ -275,13 +275,20 @@ func (tr *KDTree) _build(idx []int, maxes, mins []float64) Node {
 			}
 		}
 		split = M
-		lessIdx, greaterIdx = lgfill(split)
+		lessIdx, greaterIdx = make([]int, 0), make([]int, 0)
+		for _, idx1 := range idx {
+			if tr.Data.At(idx1, d) < split {
+				lessIdx = append(lessIdx, idx1)
+			} else {
+				greaterIdx = append(greaterIdx, idx1)
+			}
+		}
 	}
 	if len(lessIdx) == 0 {
 		// # _still_ zero? all must have the same value
 		split = tr.Data.At(idx[0], d)
-		lessIdx = _arange(len(idx) - 1)
-		greaterIdx = []int{len(idx) - 1}
+		lessIdx = idx[:len(idx)-1]
+		greaterIdx = idx[len(idx)-1:]
 	}
 	lessmaxes := copyFloatSlice(maxes)
 	lessmaxes[d] = split
-- 
2.43.0


From 87928531cc53a779342df1a4a55d859ff47b0093 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:13:24 +0000
Subject: [PATCH 043/177] fix: KDTree.Query honours its distance upper bound
 and marks missing neighbors

---
 neighbors/kdtree.go | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/neighbors/kdtree.go b/neighbors/kdtree.go
index d34e877..dcdc290 100644
--- a/neighbors/kdtree.go
+++ b/neighbors/kdtree.go
@@ -374,16 +374,15 @@ func (tr *KDTree) _query(X mat.Vector, k int, eps, p float64, distanceUpperBound
 
 			for _, fitSample := range idx {
 				ds := MinkowskiDistanceP(X, tr.Data.RowView(fitSample), p)
-				if ds < distanceUpperBound {
+				if ds < distanceUpperBound || (ds == distanceUpperBound && len(neighbors) < k) {
 					if len(neighbors) == k {
 						nHeappop()
 					}
+					nHeappush(nEle{float64: -ds, int: fitSample})
+					if len(neighbors) == k {
+						distanceUpperBound = -neighbors[0].float64
+					}
 				}
-				nHeappush(nEle{float64: -ds, int: fitSample})
-				if len(neighbors) == k {
-					distanceUpperBound = -neighbors[0].float64
-				}
-
 			}
 
 		} else {
@@ -483,7 +482,12 @@ func (tr *KDTree) Query(X mat.Matrix, k int, eps, p, distanceUpperBound float64)
 		if XRowViewer == nil {
 			row = make([]float64, NFeatures)
 		}
+		nFit, _ := tr.Data.Dims()
 		for sample := start; sample < end; sample++ {
+			for ik := 0; ik < k; ik++ {
+				ii.Set(sample, ik, float64(nFit))
+				dd.Set(sample, ik, math.Inf(1))
+			}
 			callback := func(ik int, dist float64, ind int) {
 				ii.Set(sample, ik, float64(ind))
 				dd.Set(sample, ik, dist)
-- 
2.43.0


From 9d3f109764e23602ad53b831a6e17ccda89c4190 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:13:24 +0000
Subject: [PATCH 044/177] fix: RadiusNeighbors with a tree includes the points
 on the boundary

---
 neighbors/unsupervised.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/neighbors/unsupervised.go b/neighbors/unsupervised.go
index a9cda8c..cc05002 100644
--- a/neighbors/unsupervised.go
+++ b/neighbors/unsupervised.go
@@ -170,7 +170,8 @@ func (m *NearestNeighbors) RadiusNeighbors(X *mat.Dense, radius float64) (distan
 					}
 
 				}
-				m.Tree._query(X.RowView(sample), NFitSamples, 0, m.P, radius, callback)
+				// the callback decides: the slack keeps rounding from pruning points on the boundary
+				m.Tree._query(X.RowView(sample), NFitSamples, 0, m.P, radius*(1+1e-9), callback)
 			}
 		})
 	}
-- 
2.43.0


From f43cea56a99082823251e3fdbbefc018f5efa419 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:13:24 +0000
Subject: [PATCH 045/177] fix: NearestNeighbors.Fit forgets the tree of an
 earlier fit

---
 neighbors/unsupervised.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/neighbors/unsupervised.go b/neighbors/unsupervised.go
index cc05002..0b6a80c 100644
--- a/neighbors/unsupervised.go
+++ b/neighbors/unsupervised.go
@@ -52,6 +52,7 @@ func (m *NearestNeighbors) Fit(X, Y mat.Matrix) {
 	}
 	m.X = mat.DenseCopyOf(X)
 	useKDTree := strings.Contains(strings.ToLower(m.Algorithm), "tree") || (m.Algorithm == "auto" && r*c > 1000)
+	m.Tree = nil
 	if useKDTree {
 		if m.LeafSize <= 0 {
 			m.LeafSize = 30
-- 
2.43.0


From f02bbfef33cdc3021a6e647d7e5a80de4f287d80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:13:25 +0000
Subject: [PATCH 046/177] fix: NearestNeighbors knows the l1 and l2 metrics

---
 neighbors/unsupervised.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/neighbors/unsupervised.go b/neighbors/unsupervised.go
index 0b6a80c..00b4a24 100644
--- a/neighbors/unsupervised.go
+++ b/neighbors/unsupervised.go
@@ -38,10 +38,10 @@ func NewNearestNeighbors() *NearestNeighbors {
 func (m *NearestNeighbors) Fit(X, Y mat.Matrix) {
 	r, c := X.Dims()
 	switch m.Metric {
-	case "manhattan", "cityblock":
+	case "manhattan", "cityblock", "l1":
 		m.P = 1
 		m.Distance = MinkowskiDistance(m.P)
-	case "euclidean":
+	case "euclidean", "l2":
 		m.P = 2
 		m.Distance = MinkowskiDistance(m.P)
 	default:
-- 
2.43.0


From 2287ff960882e5fb07903280f679a5aef414f443 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:13:25 +0000
Subject: [PATCH 047/177] fix: KNeighborsGraph in distance mode weighs the
 edges by distance

---
 neighbors/unsupervised.go | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/neighbors/unsupervised.go b/neighbors/unsupervised.go
index 00b4a24..f826bc3 100644
--- a/neighbors/unsupervised.go
+++ b/neighbors/unsupervised.go
@@ -105,22 +105,18 @@ func (m *NearestNeighbors) KNeighborsGraph(X *mat.Dense, NNeighbors int, mode st
 	NSamplesFit, _ := m.X.Dims()
 	distances, indices := m.KNeighbors(X, NNeighbors)
 	graph = mat.NewDense(NSamples, NSamplesFit, nil)
-	var source *mat.Dense
-
-	switch mode {
-	case "connectivity":
-		source = indices
-	default:
-		source = distances
-	}
 	base.Parallelize(m.NJobs, NSamples, func(th, start, end int) {
 		for sample := start; sample < end; sample++ {
 			for ik := 0; ik < NNeighbors; ik++ {
-				index := int(source.At(sample, ik))
+				index := int(indices.At(sample, ik))
 				if sample == index && !includeSelf {
 					continue
 				}
-				graph.Set(sample, index, 1.)
+				if mode == "connectivity" {
+					graph.Set(sample, index, 1.)
+				} else {
+					graph.Set(sample, index, distances.At(sample, ik))
+				}
 			}
 		}
 	})
-- 
2.43.0


From 5ccebcd9d0525a943ad17107245c673707cf4cff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:13:25 +0000
Subject: [PATCH 048/177] fix: Rectangle.Split returns rectangles with their
 bounds in place

---
 neighbors/kdtree.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/neighbors/kdtree.go b/neighbors/kdtree.go
index dcdc290..2809e73 100644
--- a/neighbors/kdtree.go
+++ b/neighbors/kdtree.go
@@ -55,10 +55,10 @@ func (r *Rectangle) Split(d int, split float64) (less, greater *Rectangle) {
 	cp := copyFloatSlice
 	mid := cp(r.Maxes)
 	mid[d] = split
-	less = NewRectangle(r.Mins, mid)
+	less = NewRectangle(mid, r.Mins)
 	mid = cp(r.Mins)
 	mid[d] = split
-	greater = NewRectangle(mid, r.Maxes)
+	greater = NewRectangle(r.Maxes, mid)
 	return less, greater
 }
 
-- 
2.43.0


From 7be4ace473b2a79e83c5af6088ea6ced4bdf3c30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:13:25 +0000
Subject: [PATCH 049/177] fix: Rectangle distances accept every order p

---
 neighbors/kdtree.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/neighbors/kdtree.go b/neighbors/kdtree.go
index 2809e73..0fb152c 100644
--- a/neighbors/kdtree.go
+++ b/neighbors/kdtree.go
@@ -72,7 +72,7 @@ func (r *Rectangle) MinDistancePoint(x []float64, p float64) float64 {
 	for d := 0; d < l; d++ {
 		v[d] = math.Max(0, math.Max(r.Mins[d]-x[d], x[d]-r.Maxes[d]))
 	}
-	return mat.Norm(mat.NewVecDense(l, v), p)
+	return floats.Norm(v, p)
 }
 
 // MaxDistancePoint return the maximum distance between input and points in the hyperrectangle.
@@ -85,7 +85,7 @@ func (r *Rectangle) MaxDistancePoint(x []float64, p float64) float64 {
 	for d := 0; d < l; d++ {
 		v[d] = math.Max(r.Maxes[d]-x[d], x[d]-r.Mins[d])
 	}
-	return mat.Norm(mat.NewVecDense(l, v), p)
+	return floats.Norm(v, p)
 }
 
 // MinDistanceRectangle compute the minimum distance between points in the two hyperrectangles.
@@ -98,7 +98,7 @@ func (r *Rectangle) MinDistanceRectangle(other *Rectangle, p float64) float64 {
 	for d := 0; d < l; d++ {
 		v[d] = math.Max(0, math.Max(r.Mins[d]-other.Maxes[d], other.Mins[d]-r.Maxes[d]))
 	}
-	return mat.Norm(mat.NewVecDense(l, v), p)
+	return floats.Norm(v, p)
 }
 
 // MaxDistanceRectangle compute the maximum distance between points in the two hyperrectangles.
@@ -111,7 +111,7 @@ func (r *Rectangle) MaxDistanceRectangle(other *Rectangle, p float64) float64 {
 	for d := 0; d < l; d++ {
 		v[d] = math.Max(r.Maxes[d]-other.Mins[d], other.Maxes[d]-r.Mins[d])
 	}
-	return mat.Norm(mat.NewVecDense(l, v), p)
+	return floats.Norm(v, p)
 }
 
 // KDTree for quick nearest-neighbor lookup
-- 
2.43.0


From 920e8083058712cd94309b4deb70ad53098edc28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:14:33 +0000
Subject: [PATCH 050/177] fix: NearestNeighbors computes the cosine metric

---
 neighbors/unsupervised.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/neighbors/unsupervised.go b/neighbors/unsupervised.go
index f826bc3..06fd80e 100644
--- a/neighbors/unsupervised.go
+++ b/neighbors/unsupervised.go
@@ -44,6 +44,8 @@ func (m *NearestNeighbors) Fit(X, Y mat.Matrix) {
 	case "euclidean", "l2":
 		m.P = 2
 		m.Distance = MinkowskiDistance(m.P)
+	case "cosine":
+		m.Distance = cosineDistance
 	default:
 		m.Distance = MinkowskiDistance(m.P)
 	}
@@ -52,6 +54,7 @@ func (m *NearestNeighbors) Fit(X, Y mat.Matrix) {
 	}
 	m.X = mat.DenseCopyOf(X)
 	useKDTree := strings.Contains(strings.ToLower(m.Algorithm), "tree") || (m.Algorithm == "auto" && r*c > 1000)
+	useKDTree = useKDTree && m.Metric != "cosine" // the tree only knows minkowski distances
 	m.Tree = nil
 	if useKDTree {
 		if m.LeafSize <= 0 {
@@ -61,6 +64,10 @@ func (m *NearestNeighbors) Fit(X, Y mat.Matrix) {
 	}
 }
 
+func cosineDistance(a, b mat.Vector) float64 {
+	return 1 - mat.Dot(a, b)/math.Sqrt(mat.Dot(a, a)*mat.Dot(b, b))
+}
+
 // KNeighbors returns distances and indices of first NNeighbors
 func (m *NearestNeighbors) KNeighbors(X mat.Matrix, NNeighbors int) (distances, indices *mat.Dense) {
 	NSamples, NFeatures := X.Dims()
-- 
2.43.0


From 3c4e59bfb1c91fd803354385c273bd17f0f34797 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:14:33 +0000
Subject: [PATCH 051/177] fix: KNeighborsClassifier votes do not depend on map
 order

---
 neighbors/classification.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/neighbors/classification.go b/neighbors/classification.go
index dfa9770..42a7857 100644
--- a/neighbors/classification.go
+++ b/neighbors/classification.go
@@ -125,8 +125,8 @@ func (m *KNeighborsClassifier) _predict(X, Y *mat.Dense, wantProba bool) *KNeigh
 					}
 				}
 				wmax, clwmax := 0., 0.
-				for cl, w := range classw {
-					if w > wmax {
+				for _, cl := range m.Classes[o] {
+					if w := classw[cl]; w > wmax {
 						wmax = w
 						clwmax = cl
 					}
-- 
2.43.0


From 12305db47f38f53cc7a3056fb2076254e7262c90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:14:33 +0000
Subject: [PATCH 052/177] fix: KNeighborsClassifier.PredictProba gives 0 to
 classes without a neighbor

---
 neighbors/classification.go | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/neighbors/classification.go b/neighbors/classification.go
index 42a7857..6e0eef9 100644
--- a/neighbors/classification.go
+++ b/neighbors/classification.go
@@ -133,9 +133,7 @@ func (m *KNeighborsClassifier) _predict(X, Y *mat.Dense, wantProba bool) *KNeigh
 				}
 				if wantProba {
 					for icl, cl := range m.Classes[0] {
-						if clw, found := classw[cl]; found {
-							Y.Set(sample, icl, clw/sumweights)
-						}
+						Y.Set(sample, icl, classw[cl]/sumweights)
 					}
 				} else {
 					Y.Set(sample, o, clwmax)
-- 
2.43.0


From 6a19b46fd1bf6697036ae61188926b5f3c658510 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:14:33 +0000
Subject: [PATCH 053/177] fix: KNeighborsClassifier keeps its own copy of the
 targets

---
 neighbors/classification.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neighbors/classification.go b/neighbors/classification.go
index 6e0eef9..e48f5d5 100644
--- a/neighbors/classification.go
+++ b/neighbors/classification.go
@@ -36,7 +36,7 @@ func NewKNeighborsClassifier(K int, Weights string) *KNeighborsClassifier {
 func (m *KNeighborsClassifier) Fit(Xmatrix, Ymatrix mat.Matrix) base.Fiter {
 	X, Y := base.ToDense(Xmatrix), base.ToDense(Ymatrix)
 	m.Xscaled = mat.DenseCopyOf(X)
-	m.Y = Y
+	m.Y = mat.DenseCopyOf(Y)
 	m.nOutputs = Y.RawMatrix().Cols
 	if m.Distance == nil {
 		m.Distance = EuclideanDistance
-- 
2.43.0


From 8355391f2c7f57194ac448331482693d5ac86fd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:14:34 +0000
Subject: [PATCH 054/177] fix: KNeighborsClassifier can be cloned and tells it
 is a classifier

---
 neighbors/classification.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/neighbors/classification.go b/neighbors/classification.go
index e48f5d5..7818822 100644
--- a/neighbors/classification.go
+++ b/neighbors/classification.go
@@ -32,6 +32,15 @@ func NewKNeighborsClassifier(K int, Weights string) *KNeighborsClassifier {
 	return &KNeighborsClassifier{NearestNeighbors: *NewNearestNeighbors(), K: K, Weight: Weights}
 }
 
+// PredicterClone return a (possibly unfitted) copy of predicter
+func (m *KNeighborsClassifier) PredicterClone() base.Predicter {
+	clone := *m
+	return &clone
+}
+
+// IsClassifier returns true for KNeighborsClassifier
+func (*KNeighborsClassifier) IsClassifier() bool { return true }
+
 // Fit ...
 func (m *KNeighborsClassifier) Fit(Xmatrix, Ymatrix mat.Matrix) base.Fiter {
 	X, Y := base.ToDense(Xmatrix), base.ToDense(Ymatrix)
-- 
2.43.0


From fad4cd174949bd2d69a64387ff523433ae99f234 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:14:34 +0000
Subject: [PATCH 055/177] fix: class counts are in the order of the classes

---
 neighbors/classification.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/neighbors/classification.go b/neighbors/classification.go
index 7818822..9a113d3 100644
--- a/neighbors/classification.go
+++ b/neighbors/classification.go
@@ -180,9 +180,11 @@ func getClasses(Y mat.Matrix) (classes [][]float64, counts [][]int) {
 		clcounts := make([]int, 0)
 		for cl := range clmap {
 			clvalues = append(clvalues, cl)
-			clcounts = append(clcounts, clcnt[cl])
 		}
 		sort.Float64s(clvalues)
+		for _, cl := range clvalues {
+			clcounts = append(clcounts, clcnt[cl])
+		}
 		classes = append(classes, clvalues)
 		counts = append(counts, clcounts)
 	}
-- 
2.43.0


From b577764e6baa5c10c4203e983464fd9ea0b952b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:14:34 +0000
Subject: [PATCH 056/177] fix: NearestCentroid searches with its metric

---
 neighbors/nearest_centroid.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/neighbors/nearest_centroid.go b/neighbors/nearest_centroid.go
index e7c5aa0..f2ba45c 100644
--- a/neighbors/nearest_centroid.go
+++ b/neighbors/nearest_centroid.go
@@ -27,7 +27,7 @@ type NearestCentroid struct {
 // NewNearestCentroid ...
 // if Metric is "manhattan", centroids are computed using median else mean
 func NewNearestCentroid(metric string, shrinkThreshold float64) *NearestCentroid {
-	return &NearestCentroid{Metric: metric, ShrinkThreshold: shrinkThreshold}
+	return &NearestCentroid{NearestNeighbors: *NewNearestNeighbors(), Metric: metric, ShrinkThreshold: shrinkThreshold}
 }
 
 // Fit ...
@@ -65,7 +65,9 @@ func (m *NearestCentroid) Fit(Xmatrix, Ymatrix mat.Matrix) base.Fiter {
 			Centroids.Set(icl, feature, centroidXfeat)
 		}
 	})
+	m.NearestNeighbors.Metric = m.Metric
 	m.NearestNeighbors.Fit(Centroids, mat.Matrix(nil))
+	m.Centroids = Centroids
 	return m
 }
 
-- 
2.43.0


From d2ed10f8806d86d99c0427a7106078e1759528eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:14:35 +0000
Subject: [PATCH 057/177] fix: NearestCentroid sorts the values it takes the
 median of

---
 neighbors/nearest_centroid.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/neighbors/nearest_centroid.go b/neighbors/nearest_centroid.go
index f2ba45c..eae741c 100644
--- a/neighbors/nearest_centroid.go
+++ b/neighbors/nearest_centroid.go
@@ -2,6 +2,7 @@ package neighbors
 
 import (
 	"runtime"
+	"sort"
 
 	"github.com/pa-m/sklearn/base"
 	"github.com/pa-m/sklearn/metrics"
@@ -58,6 +59,7 @@ func (m *NearestCentroid) Fit(Xmatrix, Ymatrix mat.Matrix) base.Fiter {
 				}
 			}
 			if useMedian {
+				sort.Float64s(col[0:rows])
 				centroidXfeat = stat.Quantile(.5, stat.Empirical, col[0:rows], nil)
 			} else {
 				centroidXfeat = stat.Mean(col[0:rows], nil)
-- 
2.43.0


From 374fee7d576bed39c14ba44c02a695b5a192551f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:14:35 +0000
Subject: [PATCH 058/177] fix: NearestCentroid can be cloned, has one output
 and tells it is a classifier

---
 neighbors/nearest_centroid.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/neighbors/nearest_centroid.go b/neighbors/nearest_centroid.go
index eae741c..8b861de 100644
--- a/neighbors/nearest_centroid.go
+++ b/neighbors/nearest_centroid.go
@@ -31,6 +31,18 @@ func NewNearestCentroid(metric string, shrinkThreshold float64) *NearestCentroid
 	return &NearestCentroid{NearestNeighbors: *NewNearestNeighbors(), Metric: metric, ShrinkThreshold: shrinkThreshold}
 }
 
+// PredicterClone return a (possibly unfitted) copy of predicter
+func (m *NearestCentroid) PredicterClone() base.Predicter {
+	clone := *m
+	return &clone
+}
+
+// IsClassifier returns true for NearestCentroid
+func (*NearestCentroid) IsClassifier() bool { return true }
+
+// GetNOutputs returns output columns number for Y to pass to predict
+func (*NearestCentroid) GetNOutputs() int { return 1 }
+
 // Fit ...
 func (m *NearestCentroid) Fit(Xmatrix, Ymatrix mat.Matrix) base.Fiter {
 	X, Y := base.ToDense(Xmatrix), base.ToDense(Ymatrix)
-- 
2.43.0


From ca91fe48028c269d5a0ea46d0a2e056cd41d5193 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:14:35 +0000
Subject: [PATCH 059/177] fix: DBSCAN core samples have at least MinSamples
 neighbors

---
 cluster/dbscan.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cluster/dbscan.go b/cluster/dbscan.go
index bdebd83..b22f078 100644
--- a/cluster/dbscan.go
+++ b/cluster/dbscan.go
@@ -113,7 +113,7 @@ func (m *DBSCAN) Fit(Xmatrix, Ymatrix mat.Matrix) base.Fiter {
 	// # A list of all core samples found.
 	isCore := make([]bool, NSamples)
 	for sample := range NNeighbors {
-		if NNeighbors[sample] > m.MinSamples {
+		if NNeighbors[sample] >= m.MinSamples {
 			isCore[sample] = true
 			m.CoreSampleIndices = append(m.CoreSampleIndices, sample)
 		}
-- 
2.43.0


From 51571b0791fd63e20bc16ef92245a435ea77c4ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:14:35 +0000
Subject: [PATCH 060/177] fix: DBSCAN.Fit forgets the core samples of an
 earlier fit

---
 cluster/dbscan.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cluster/dbscan.go b/cluster/dbscan.go
index b22f078..28b466a 100644
--- a/cluster/dbscan.go
+++ b/cluster/dbscan.go
@@ -112,6 +112,7 @@ func (m *DBSCAN) Fit(Xmatrix, Ymatrix mat.Matrix) base.Fiter {
 	}
 	// # A list of all core samples found.
 	isCore := make([]bool, NSamples)
+	m.CoreSampleIndices = nil
 	for sample := range NNeighbors {
 		if NNeighbors[sample] >= m.MinSamples {
 			isCore[sample] = true
-- 
2.43.0


From d51f5e976c93603ea4068a09818de9f56bd9bdd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:14:35 +0000
Subject: [PATCH 061/177] fix: DBSCAN passes its minkowski order to the
 neighbors search

---
 cluster/dbscan.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cluster/dbscan.go b/cluster/dbscan.go
index 28b466a..3a0ce04 100644
--- a/cluster/dbscan.go
+++ b/cluster/dbscan.go
@@ -83,7 +83,7 @@ func (m *DBSCAN) Fit(Xmatrix, Ymatrix mat.Matrix) base.Fiter {
 	X := base.ToDense(Xmatrix)
 	m.NeighborsModel = neighbors.NewNearestNeighbors()
 	m.NeighborsModel.Algorithm = m.Algorithm
-	m.NeighborsModel.Distance = MinkowskiDistance(m.P)
+	m.NeighborsModel.P = m.P
 	m.NeighborsModel.Metric = m.Metric
 	m.NeighborsModel.NJobs = m.NJobs
 	m.NeighborsModel.LeafSize = m.LeafSize
-- 
2.43.0


From efe75c5e998d24919d308614180e2c74c94b9572 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:14:36 +0000
Subject: [PATCH 062/177] fix: KMeans keeps the centroid of an empty cluster
 and sums in a fixed order

---
 cluster/kmeans.go | 23 +++++++++++------------
 1 file changed, 11 insertions(+), 12 deletions(-)

diff --git a/cluster/kmeans.go b/cluster/kmeans.go
index c92be35..58fdf91 100644
--- a/cluster/kmeans.go
+++ b/cluster/kmeans.go
@@ -79,19 +79,18 @@ func (m *KMeans) Fit(Xmatrix, Ymatrix mat.Matrix) base.Fiter {
 		// find nearest centroids
 		m.predict(X, NearestCentroid, CentroidCount, &changed)
 		// recompute centroids
-		m.Centroids.Sub(m.Centroids, m.Centroids)
-		var mu sync.Mutex // mu locks m.Centroids modifications
-		base.Parallelize(m.NJobs, NSamples, func(th, start, end int) {
-			row := make([]float64, NFeatures)
-			for sample := start; sample < end; sample++ {
-				ic := NearestCentroid[sample]
-				mu.Lock()
-				c := m.Centroids.RowView(ic)
-				mat.Row(row, sample, X)
-				c.(*mat.VecDense).AddScaledVec(c, 1./float64(CentroidCount[ic]), mat.NewVecDense(NFeatures, row))
-				mu.Unlock()
+		for ic, count := range CentroidCount {
+			if count > 0 {
+				c := m.Centroids.RowView(ic).(*mat.VecDense)
+				c.SubVec(c, c)
 			}
-		})
+		}
+		for sample := 0; sample < NSamples; sample++ {
+			ic := NearestCentroid[sample]
+			c := m.Centroids.RowView(ic)
+			mat.Row(row, sample, X)
+			c.(*mat.VecDense).AddScaledVec(c, 1./float64(CentroidCount[ic]), mat.NewVecDense(NFeatures, row))
+		}
 		if changed {
 			unchangeCount = 0
 		} else {
-- 
2.43.0


From 81a9e25877eee49384f8bf205f5efa1b4f41f0ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:23:03 +0000
Subject: [PATCH 063/177] fix: KMeans.Fit ends when samples only move between
 coinciding centroids

---
 cluster/kmeans.go | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/cluster/kmeans.go b/cluster/kmeans.go
index 58fdf91..ceda68e 100644
--- a/cluster/kmeans.go
+++ b/cluster/kmeans.go
@@ -2,6 +2,7 @@ package cluster
 
 import (
 	"fmt"
+	"math"
 	"runtime"
 	"sync"
 
@@ -68,12 +69,14 @@ func (m *KMeans) Fit(Xmatrix, Ymatrix mat.Matrix) base.Fiter {
 	epoch := 0
 	changed := true
 	unchangeCount := 0
+	// rounding can move samples between equally near centroids forever: stop when the cost stays the same
+	bestCost, staleCount := math.Inf(1), 0
 
 	if m.NJobs <= 0 {
 		m.NJobs = runtime.NumCPU()
 	}
 
-	for unchangeCount < 2 {
+	for unchangeCount < 2 && staleCount < 10 {
 		epoch++
 		changed = false
 		// find nearest centroids
@@ -91,6 +94,17 @@ func (m *KMeans) Fit(Xmatrix, Ymatrix mat.Matrix) base.Fiter {
 			mat.Row(row, sample, X)
 			c.(*mat.VecDense).AddScaledVec(c, 1./float64(CentroidCount[ic]), mat.NewVecDense(NFeatures, row))
 		}
+		cost := 0.
+		for sample := 0; sample < NSamples; sample++ {
+			mat.Row(row, sample, X)
+			d := m.Distance(mat.NewVecDense(NFeatures, row), m.Centroids.RowView(NearestCentroid[sample]))
+			cost += d * d
+		}
+		if cost < bestCost*(1-1e-12) {
+			bestCost, staleCount = cost, 0
+		} else {
+			staleCount++
+		}
 		if changed {
 			unchangeCount = 0
 		} else {
-- 
2.43.0


From 19910ddb04a1a1ed80737911982629f1ae14aa71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:28:05 +0000
Subject: [PATCH 064/177] fix: KFold.GetNSplits knows the default number of
 splits

---
 model_selection/split.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/model_selection/split.go b/model_selection/split.go
index efc4397..b42c5a8 100644
--- a/model_selection/split.go
+++ b/model_selection/split.go
@@ -107,6 +107,9 @@ func (splitter *KFold) Split(X, Y *mat.Dense) (ch chan Split) {
 
 // GetNSplits for KFold
 func (splitter *KFold) GetNSplits(X, Y *mat.Dense) int {
+	if splitter.NSplits <= 0 {
+		return 3
+	}
 	return splitter.NSplits
 }
 
-- 
2.43.0


From f863c490843c154f87c78b6d797b6d49f4605147 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:28:05 +0000
Subject: [PATCH 065/177] fix: CrossValidate accepts a nil splitter

---
 model_selection/validation.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/model_selection/validation.go b/model_selection/validation.go
index 7e5fc44..f564140 100644
--- a/model_selection/validation.go
+++ b/model_selection/validation.go
@@ -39,13 +39,13 @@ func CrossValidate(estimator base.Predicter, X, Y *mat.Dense, groups []int, scor
 	if NJobs <= 0 {
 		NJobs = runtime.NumCPU()
 	}
+	if cv == Splitter(nil) {
+		cv = &KFold{NSplits: 3, Shuffle: true}
+	}
 	NSplits := cv.GetNSplits(X, Y)
 	if NJobs > NSplits {
 		NJobs = NSplits
 	}
-	if cv == Splitter(nil) {
-		cv = &KFold{NSplits: 3, Shuffle: true}
-	}
 	res.Estimator = make([]base.Predicter, NSplits)
 	res.TestScore = make([]float64, NSplits)
 	res.FitTime = make([]time.Duration, NSplits)
-- 
2.43.0


From 0c28bd13dfeab613d8b4f87eb34d23a4e4d8c83a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:28:05 +0000
Subject: [PATCH 066/177] fix: ParameterGrid enumerates the full product in a
 fixed order

---
 model_selection/search.go | 29 +++++++++++++++--------------
 1 file changed, 15 insertions(+), 14 deletions(-)

diff --git a/model_selection/search.go b/model_selection/search.go
index 6550a8b..e98945f 100644
--- a/model_selection/search.go
+++ b/model_selection/search.go
@@ -3,6 +3,7 @@ package modelselection
 import (
 	"fmt"
 	"reflect"
+	"sort"
 	"strings"
 
 	"github.com/pa-m/sklearn/base"
@@ -15,27 +16,27 @@ import (
 func ParameterGrid(paramGrid map[string][]interface{}) (out []map[string]interface{}) {
 	makeArr := func(name string, values []interface{}, prevArr []map[string]interface{}) (out []map[string]interface{}) {
 
-		if len(prevArr) == 0 {
+		for _, map1 := range prevArr {
 			for _, v := range values {
-				out = append(out, map[string]interface{}{name: v})
-			}
-		} else {
-			for _, map1 := range prevArr {
-				for _, v := range values {
-					map2 := make(map[string]interface{})
-					for k1, v1 := range map1 {
-						map2[k1] = v1
-					}
-					map2[name] = v
-					out = append(out, map2)
+				map2 := make(map[string]interface{})
+				for k1, v1 := range map1 {
+					map2[k1] = v1
 				}
+				map2[name] = v
+				out = append(out, map2)
 			}
 		}
 
 		return
 	}
-	for k, v := range paramGrid {
-		out = makeArr(k, v, out)
+	names := make([]string, 0, len(paramGrid))
+	for k := range paramGrid {
+		names = append(names, k)
+	}
+	sort.Strings(names)
+	out = []map[string]interface{}{{}}
+	for _, k := range names {
+		out = makeArr(k, paramGrid[k], out)
 	}
 	return
 }
-- 
2.43.0


From 223ee91b57b662f17635998a15ea0f3c2868596b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:28:06 +0000
Subject: [PATCH 067/177] fix: Pipeline.Predict skips steps that have no
 inverse

---
 pipeline/pipeline.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pipeline/pipeline.go b/pipeline/pipeline.go
index 19e0f0a..7a43455 100644
--- a/pipeline/pipeline.go
+++ b/pipeline/pipeline.go
@@ -128,7 +128,9 @@ func (p *Pipeline) Predict(X mat.Matrix, Y mat.Mutable) *mat.Dense {
 	}
 	for iStep := len(p.NamedSteps) - 2; iStep >= 0; iStep-- {
 		step := p.NamedSteps[iStep]
-		_, Ytmp = step.Fiter.(preprocessing.InverseTransformer).InverseTransform(nil, Ytmp)
+		if inverser, ok := step.Fiter.(preprocessing.InverseTransformer); ok {
+			_, Ytmp = inverser.InverseTransform(nil, Ytmp)
+		}
 	}
 	return base.FromDense(Y, base.ToDense(Ytmp))
 }
-- 
2.43.0


From 2dbe5e03d76a2337975a49d9e85146f1f9b966f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:28:06 +0000
Subject: [PATCH 068/177] fix: Pipeline.Score compares with the targets its
 estimator was fitted on

---
 pipeline/pipeline.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pipeline/pipeline.go b/pipeline/pipeline.go
index 7a43455..34f281b 100644
--- a/pipeline/pipeline.go
+++ b/pipeline/pipeline.go
@@ -108,7 +108,7 @@ func (p *Pipeline) Score(X, Y mat.Matrix) float64 {
 	if !ok {
 		panic(fmt.Errorf("pipeline.Score: last step is not a Predicter"))
 	}
-	return predicter.Score(Xtmp, Y)
+	return predicter.Score(Xtmp, Ytmp)
 }
 
 // GetNOutputs returns output columns number for Y
-- 
2.43.0


From 9e65829c5d7a0cfa62a928be6ad2dfb17e081c2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:33:46 +0000
Subject: [PATCH 069/177] fix: FunctionTransformer without an inverse function
 inverts to the identity

---
 preprocessing/functiontransformer.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/preprocessing/functiontransformer.go b/preprocessing/functiontransformer.go
index ad2c425..743f8a9 100644
--- a/preprocessing/functiontransformer.go
+++ b/preprocessing/functiontransformer.go
@@ -43,6 +43,9 @@ func (m *FunctionTransformer) FitTransform(X, Y mat.Matrix) (Xout, Yout *mat.Den
 
 // InverseTransform ...
 func (m *FunctionTransformer) InverseTransform(X, Y *mat.Dense) (X1, Y1 *mat.Dense) {
+	if m.InverseFunc == nil {
+		return X, Y
+	}
 	X1, Y1 = m.InverseFunc(X, Y)
 	return
 }
-- 
2.43.0


From 83d2d9d9a80b0ad6d63695f11c0297841d62f539 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:33:46 +0000
Subject: [PATCH 070/177] fix: Pipeline.Predict allocates a nil destination

---
 pipeline/pipeline.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pipeline/pipeline.go b/pipeline/pipeline.go
index 34f281b..3adb2d2 100644
--- a/pipeline/pipeline.go
+++ b/pipeline/pipeline.go
@@ -122,6 +122,9 @@ func (p *Pipeline) GetNOutputs() int {
 // Predict for pipeline calls steps Transform then InverseTransform for InverseTransformer steps
 func (p *Pipeline) Predict(X mat.Matrix, Y mat.Mutable) *mat.Dense {
 	Xtmp, Ytmp := base.ToDense(X), base.ToDense(Y)
+	if nSamples, _ := X.Dims(); Ytmp.IsEmpty() && p.NOutputs > 0 {
+		Ytmp = mat.NewDense(nSamples, p.NOutputs, nil)
+	}
 	for istep := range p.NamedSteps {
 		p.transformStep(istep, &Xtmp, &Ytmp)
 
-- 
2.43.0


From 8044e6103ff376bd515c56225a257514dd57fe5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:33:46 +0000
Subject: [PATCH 071/177] fix: Pipeline.GetNOutputs is the width of its
 predictions

---
 pipeline/pipeline.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pipeline/pipeline.go b/pipeline/pipeline.go
index 3adb2d2..5a54dad 100644
--- a/pipeline/pipeline.go
+++ b/pipeline/pipeline.go
@@ -116,6 +116,9 @@ func (p *Pipeline) GetNOutputs() int {
 	if len(p.NamedSteps) == 0 {
 		return 0
 	}
+	if p.NOutputs > 0 {
+		return p.NOutputs
+	}
 	return p.NamedSteps[len(p.NamedSteps)-1].Fiter.(base.Predicter).GetNOutputs()
 }
 
-- 
2.43.0


From 085d022a55c1400505e4f13bba2d204ae82be890 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:37:09 +0000
Subject: [PATCH 072/177] fix: linear models do not share or keep the intercept
 of an earlier fit

---
 linear_model/Base.go | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/linear_model/Base.go b/linear_model/Base.go
index 83e981d..72bb74c 100644
--- a/linear_model/Base.go
+++ b/linear_model/Base.go
@@ -558,9 +558,7 @@ func LinFitGOM(X, Ytrue *mat.Dense, opts *LinFitOptions) *LinFitResult {
 
 func (regr *LinearModel) setIntercept(XOffset, YOffset, XScale mat.Matrix) {
 	_, nOutputs := regr.Coef.Dims()
-	if regr.Intercept == nil {
-		regr.Intercept = mat.NewDense(1, nOutputs, nil)
-	}
+	regr.Intercept = mat.NewDense(1, nOutputs, nil)
 
 	regr.Coef.Apply(func(j, o int, coef float64) float64 { return coef / XScale.At(0, j) }, regr.Coef)
 	if regr.FitIntercept {
-- 
2.43.0


From e22c00d84dfb30db8d834b310d125ffc77cae02d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:37:09 +0000
Subject: [PATCH 073/177] fix: PreprocessData leaves constant columns at scale
 1

---
 linear_model/Base.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/linear_model/Base.go b/linear_model/Base.go
index 72bb74c..e7e050d 100644
--- a/linear_model/Base.go
+++ b/linear_model/Base.go
@@ -623,7 +623,9 @@ func PreprocessData(X, Y *mat.Dense, FitIntercept, Normalize bool, SampleWeight
 			scale := 1.
 			if FitIntercept && Normalize {
 				scale = mat.Norm(Xout.ColView(feature), 2)
-				if scale != 0. {
+				if scale == 0. {
+					scale = 1.
+				} else {
 					for jXout := 0; jXout < Xoutmat.Rows*Xoutmat.Stride; jXout = jXout + Xoutmat.Stride {
 						Xoutmat.Data[jXout+feature] /= scale
 					}
-- 
2.43.0


From 39d9834283975f3c1bfd682dad85e6509ff7ec4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:37:09 +0000
Subject: [PATCH 074/177] fix: PreprocessData copies each column in its own
 goroutine

---
 linear_model/Base.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/linear_model/Base.go b/linear_model/Base.go
index e7e050d..96e99b4 100644
--- a/linear_model/Base.go
+++ b/linear_model/Base.go
@@ -618,7 +618,9 @@ func PreprocessData(X, Y *mat.Dense, FitIntercept, Normalize bool, SampleWeight
 					Xoutmat.Data[jXout+feature] = Xmat.Data[jX+feature] - mean
 				}
 			} else {
-				Xout.Copy(X)
+				for jX, jXout := 0, 0; jX < Xmat.Rows*Xmat.Stride; jX, jXout = jX+Xmat.Stride, jXout+Xoutmat.Stride {
+					Xoutmat.Data[jXout+feature] = Xmat.Data[jX+feature]
+				}
 			}
 			scale := 1.
 			if FitIntercept && Normalize {
-- 
2.43.0


From b67ccfe01e9452e3bcea9a1ecf6b9a6d673b0b16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:37:10 +0000
Subject: [PATCH 075/177] fix: SGDRegressor gradient is the gradient of its
 loss

---
 linear_model/Base.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/linear_model/Base.go b/linear_model/Base.go
index 96e99b4..6afa75e 100644
--- a/linear_model/Base.go
+++ b/linear_model/Base.go
@@ -222,7 +222,7 @@ func (regr *SGDRegressor) Fit(Xmatrix, Ymatrix mat.Matrix) base.Fiter {
 			tmp.Sub(tmp, Y.ColView(o))       // Ydiff
 			gradmat := mat.NewDense(nFeatures, 1, nil)
 			gradmat.Mul(X.T(), tmp) // X dot Ydiff
-			al1 := regr.Alpha * regr.L1Ratio / float(nSamples)
+			al1 := regr.Alpha * regr.L1Ratio / 2. / float(nSamples)
 			al2 := regr.Alpha * (1. - regr.L1Ratio) / float(nSamples)
 			sgn := func(x float) float {
 				if x < 0. {
@@ -234,7 +234,7 @@ func (regr *SGDRegressor) Fit(Xmatrix, Ymatrix mat.Matrix) base.Fiter {
 				return 0.
 			}
 			gradmat.Apply(func(j int, o int, gradj float64) float64 {
-				grad[j] = gradj + al1*sgn(gradj) + al2*gradj
+				grad[j] = gradj/float(nSamples) + al1*sgn(coef[j]) + al2*coef[j]
 				return grad[j]
 			}, gradmat)
 		}
-- 
2.43.0


From 72bf933e450f05d068fedd716987042cf2a05bde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:37:10 +0000
Subject: [PATCH 076/177] fix: regularization gradient is the gradient of the
 regularization term

---
 linear_model/loss.go | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/linear_model/loss.go b/linear_model/loss.go
index 5b197a8..95ace94 100644
--- a/linear_model/loss.go
+++ b/linear_model/loss.go
@@ -56,7 +56,7 @@ func SquareLoss(Ytrue, X mat.Matrix, Theta, Ypred, Ydiff, grad *mat.Dense, Alpha
 		}
 	}
 	if Alpha > 0. {
-		J += regularization(Theta, grad, Alpha, L1Ratio, disableRegularizationOfFirstFeature)
+		J += regularization(Theta, grad, Alpha, L1Ratio, .5, disableRegularizationOfFirstFeature)
 	}
 	J /= 2. * float64(nSamples)
 	if grad != nil {
@@ -103,7 +103,7 @@ func LogLoss(Ytrue, X mat.Matrix, Theta, Ypred, Ydiff, grad *mat.Dense, Alpha, L
 
 	// add regularization to cost and grad
 	if Alpha > 0. {
-		J += regularization(Theta, grad, Alpha, L1Ratio, disableRegularizationOfFirstFeature)
+		J += regularization(Theta, grad, Alpha, L1Ratio, 1, disableRegularizationOfFirstFeature)
 	}
 	J /= float64(nSamples)
 	if grad != nil {
@@ -246,7 +246,8 @@ func panicIfNaN(v float64) float64 {
 	return v
 }
 
-func regularization(Theta, grad *mat.Dense, Alpha, L1Ratio float64, disableRegularizationOfFirstFeature bool) float64 {
+// regularization returns the regularization term and adds gradFactor times its gradient to grad
+func regularization(Theta, grad *mat.Dense, Alpha, L1Ratio, gradFactor float64, disableRegularizationOfFirstFeature bool) float64 {
 	JRegul := 0.
 	// add regularization to cost and grad
 	if Alpha > 0. {
@@ -277,11 +278,11 @@ func regularization(Theta, grad *mat.Dense, Alpha, L1Ratio float64, disableRegul
 				for o := 0; o < NOutputs; o++ {
 					g := grad.At(j, o)
 					t := Theta.At(j, o)
-					if L1Ratio > 0. {
-						g += L1Ratio * t / featureL1
+					if L1Ratio > 0. && featureL1 > 0. {
+						g += gradFactor * Alpha * L1Ratio * t / featureL1
 					}
 					if L1Ratio < 1. {
-						g += (1. - L1Ratio) * t
+						g += gradFactor * Alpha * (1. - L1Ratio) * 2. * t
 					}
 					grad.Set(j, o, g)
 				}
-- 
2.43.0


From f4e0f7ef7e11609e359cc8c6577fb988bbc62981 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:37:10 +0000
Subject: [PATCH 077/177] fix: LogLoss and CrossEntropyLoss gradients depend on
 the features

---
 linear_model/loss.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/linear_model/loss.go b/linear_model/loss.go
index 95ace94..2fd82fa 100644
--- a/linear_model/loss.go
+++ b/linear_model/loss.go
@@ -95,7 +95,7 @@ func LogLoss(Ytrue, X mat.Matrix, Theta, Ypred, Ydiff, grad *mat.Dense, Alpha, L
 			g := 0.
 			for i := 0; i < nSamples; i++ {
 				h := Ypred.At(i, o)
-				g += -Ytrue.At(i, o) * activation.Fprime(h) / h
+				g += -Ytrue.At(i, o) * activation.Fprime(h) / h * X.At(i, j)
 			}
 			return g
 		}, Theta)
@@ -155,11 +155,11 @@ func CrossEntropyLoss(Ytrue, X mat.Matrix, Theta, Ypred, Ydiff, grad *mat.Dense,
 					y := Ytrue.At(i, o)
 					hprime := activation.Fprime(h)
 					if y == 1. {
-						g += -y * hprime / h
+						g += -y * hprime / h * X.At(i, j)
 					} else if y == 0. {
-						g += (1. - y) * hprime / (1. - h)
+						g += (1. - y) * hprime / (1. - h) * X.At(i, j)
 					} else {
-						g += -y*hprime/h + (1.-y)*hprime/(1.-h)
+						g += (-y*hprime/h + (1.-y)*hprime/(1.-h)) * X.At(i, j)
 					}
 					if math.IsNaN(g) {
 						panic(fmt.Errorf("g is NaN h=%g y=%g ", h, y))
-- 
2.43.0


From 5d18c6333214655c72d66221ee649ce1cfcfd711 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:37:11 +0000
Subject: [PATCH 078/177] fix: losses with a non-identity activation accept
 mini-batches

---
 linear_model/loss.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/linear_model/loss.go b/linear_model/loss.go
index 2fd82fa..eeefc8c 100644
--- a/linear_model/loss.go
+++ b/linear_model/loss.go
@@ -45,9 +45,10 @@ func SquareLoss(Ytrue, X mat.Matrix, Theta, Ypred, Ydiff, grad *mat.Dense, Alpha
 			grad.Mul(X.T(), Ydiff) //<- for identity only
 
 		} else {
+			nRows, _ := Ypred.Dims()
 			grad.Apply(func(j, o int, theta float64) float64 {
 				g := 0.
-				for i := 0; i < nSamples; i++ {
+				for i := 0; i < nRows; i++ {
 					h := Ypred.At(i, o)
 					g += Ydiff.At(i, o) * X.At(i, j) * activation.Fprime(h)
 				}
@@ -91,9 +92,10 @@ func LogLoss(Ytrue, X mat.Matrix, Theta, Ypred, Ydiff, grad *mat.Dense, Alpha, L
 	}, Ypred)
 	//grad.Mul(X.T(), Ydiff)
 	if grad != nil {
+		nRows, _ := Ypred.Dims()
 		grad.Apply(func(j, o int, theta float64) float64 {
 			g := 0.
-			for i := 0; i < nSamples; i++ {
+			for i := 0; i < nRows; i++ {
 				h := Ypred.At(i, o)
 				g += -Ytrue.At(i, o) * activation.Fprime(h) / h * X.At(i, j)
 			}
@@ -148,9 +150,10 @@ func CrossEntropyLoss(Ytrue, X mat.Matrix, Theta, Ypred, Ydiff, grad *mat.Dense,
 			grad.Mul(X.T(), Ydiff)
 		} else {
 			// // for Logistic activation only
+			nRows, _ := Ypred.Dims()
 			grad.Apply(func(j, o int, theta float64) float64 {
 				g := 0.
-				for i := 0; i < nSamples; i++ {
+				for i := 0; i < nRows; i++ {
 					h := Ypred.At(i, o)
 					y := Ytrue.At(i, o)
 					hprime := activation.Fprime(h)
-- 
2.43.0


From 9b0dcb514d17cab6e19083027b436ce73cdcb502 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:37:11 +0000
Subject: [PATCH 079/177] fix: BayesianRidge computes its evidence updates

---
 linear_model/bayes.go | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/linear_model/bayes.go b/linear_model/bayes.go
index 87522b6..6acd84c 100644
--- a/linear_model/bayes.go
+++ b/linear_model/bayes.go
@@ -138,18 +138,14 @@ func (regr *BayesianRidge) Fit(Xmatrix, Ymatrix mat.Matrix) base.Fiter {
 		diff.Sub(diff, Y)
 
 		rmse := mat.Norm(diff, 2)
+		rmse *= rmse
 
 		// gamma = (np.sum((alpha * eigenVals) /(lambda + alpha*eigenVals)))
 		gamma := 0.
 		{
-			var left, right []float
-			copy(left, eigenVals)
-
-			floats.Scale(alpha, left)
-			copy(right, left)
-			floats.AddConst(lambda, right)
-			floats.Div(left, right)
-			gamma = floats.Sum(left)
+			for _, evi := range eigenVals {
+				gamma += alpha * evi / (lambda + alpha*evi)
+			}
 		}
 		//lambda = ((gamma + 2*lambda1) /(np.sum(coef**2) + 2*lambda2))
 		coef2.MulElem(coef, coef)
-- 
2.43.0


From da503974dc663b998e4882f95062fee1af5dca89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:37:11 +0000
Subject: [PATCH 080/177] fix: BayesianRidge keeps the alpha its coefficients
 were computed with

---
 linear_model/bayes.go | 1 -
 1 file changed, 1 deletion(-)

diff --git a/linear_model/bayes.go b/linear_model/bayes.go
index 6acd84c..4e932dc 100644
--- a/linear_model/bayes.go
+++ b/linear_model/bayes.go
@@ -188,7 +188,6 @@ func (regr *BayesianRidge) Fit(Xmatrix, Ymatrix mat.Matrix) base.Fiter {
 	//sigma = np.dot(Vh.T,Vh / (eigenVals + lambda / alpha)[:, np.newaxis])
 	//regr.sigma = (1. / alpha) * sigma
 	sigma = calcsigma(VhT, eigenVals, lambda, alpha)
-	regr.Alpha = alpha
 	regr.Sigma = mat.NewDense(nFeatures, nFeatures, nil)
 	regr.Sigma.Scale(1./alpha, sigma)
 
-- 
2.43.0


From 1bb80288d5b755369445ca9812cde45df30ccf58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:37:12 +0000
Subject: [PATCH 081/177] fix: BayesianRidge.Predict2 returns the standard
 deviation

---
 linear_model/bayes.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/linear_model/bayes.go b/linear_model/bayes.go
index 4e932dc..addda83 100644
--- a/linear_model/bayes.go
+++ b/linear_model/bayes.go
@@ -247,13 +247,14 @@ func (regr *BayesianRidge) Predict2(X, Y, yStd *mat.Dense) {
 	sigmasSquaredData.Apply(func(i int, _ int, _ float64) float64 {
 		v := 0.
 		for j := 0; j < nFeatures; j++ {
-			x := Xn.At(i, j)
-			v += x * regr.Sigma.At(0, j) * x
+			for k := 0; k < nFeatures; k++ {
+				v += Xn.At(i, j) * regr.Sigma.At(j, k) * Xn.At(i, k)
+			}
 		}
 		return v
 	}, sigmasSquaredData)
 	*yStd = *mat.NewDense(nSamples, 1, nil)
 	yStd.Apply(func(i int, j int, sigmasSquaredData float64) float64 {
-		return sigmasSquaredData + 1./regr.Alpha
+		return math.Sqrt(sigmasSquaredData + 1./regr.Alpha)
 	}, sigmasSquaredData)
 }
-- 
2.43.0


From c11c9a2dd318b61906b4a999235d3bb10bcb0182 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:37:40 +0000
Subject: [PATCH 082/177] fix: ElasticNet warm start begins from a copy of
 matching coefficients

---
 linear_model/coordinatedescent.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/linear_model/coordinatedescent.go b/linear_model/coordinatedescent.go
index 37d1257..74fa4dd 100644
--- a/linear_model/coordinatedescent.go
+++ b/linear_model/coordinatedescent.go
@@ -60,7 +60,9 @@ func (regr *ElasticNet) Fit(Xmatrix, Ymatrix mat.Matrix) base.Fiter {
 
 	l1reg := regr.Alpha * regr.L1Ratio * float64(NSamples)
 	l2reg := regr.Alpha * (1. - regr.L1Ratio) * float64(NSamples)
-	if !regr.WarmStart {
+	if regr.WarmStart && regr.Coef != nil && regr.Coef.RawMatrix().Rows == NFeatures && regr.Coef.RawMatrix().Cols == NOutputs {
+		regr.Coef = mat.DenseCopyOf(regr.Coef)
+	} else {
 		regr.Coef = mat.NewDense(NFeatures, NOutputs, nil)
 	}
 	random := strings.EqualFold("random", regr.Selection)
-- 
2.43.0


From e6f308593a8fdcedf812c36cc20b21d396f36bdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:37:40 +0000
Subject: [PATCH 083/177] fix: EnetPath uses all the alphas it is given

---
 linear_model/coordinatedescent.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/linear_model/coordinatedescent.go b/linear_model/coordinatedescent.go
index 74fa4dd..83b15b5 100644
--- a/linear_model/coordinatedescent.go
+++ b/linear_model/coordinatedescent.go
@@ -143,7 +143,7 @@ func EnetPath(X, Y *mat.Dense, L1Ratio, eps float64, NAlphas int, Alphas *[]floa
 	if Alphas == nil {
 		alphaGrid(X, Y, L1Ratio, eps, alphas)
 	} else {
-		copy(alphas, *Alphas)
+		alphas = append([]float64(nil), *Alphas...)
 	}
 	NAlphas = len(alphas)
 	coefs = make([]*mat.Dense, NAlphas)
-- 
2.43.0


From 6b490d6a060fd7becb1a122b392d23e0af24c7df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:37:41 +0000
Subject: [PATCH 084/177] fix: LogisticRegression.Fit forgets the labels and
 losses of an earlier fit

---
 linear_model/logistic.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/linear_model/logistic.go b/linear_model/logistic.go
index ddeda9e..a448045 100644
--- a/linear_model/logistic.go
+++ b/linear_model/logistic.go
@@ -327,6 +327,7 @@ func (m *LogisticRegression) initialize(yCols int, layerUnits []int, isMultiClas
 	off += layerUnits[0] * layerUnits[1]
 
 	m.BestLoss = math.Inf(1)
+	m.LossCurve = nil
 }
 
 // IsClassifier return true if LossFuncName is not square_loss
@@ -345,6 +346,7 @@ func (m *LogisticRegression) Fit(X, Y mat.Matrix) base.Fiter {
 		xb = mat.DenseCopyOf(X)
 		yb = mat.DenseCopyOf(Y)
 	}
+	m.lb = nil
 	if m.IsClassifier() && !isBinarized(yb) {
 		m.lb = preprocessing.NewLabelBinarizer(0, 1)
 		xbin, ybin := m.lb.FitTransform(X, Y)
-- 
2.43.0


From 94b3856a48a7886dbf4373206b74e2b3699f7af6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:37:41 +0000
Subject: [PATCH 085/177] fix: LogisticRegression ends with the best parameters

---
 linear_model/logistic.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/linear_model/logistic.go b/linear_model/logistic.go
index a448045..e80a533 100644
--- a/linear_model/logistic.go
+++ b/linear_model/logistic.go
@@ -446,6 +446,8 @@ func (m *LogisticRegression) fitLbfgs(X, y blas64.General, activations []blas64.
 	if err != nil {
 		log.Panic(err)
 	}
+	copy(m.packedParameters, res.X)
+	m.Loss = res.F
 	if res.Status != optimize.GradientThreshold && res.Status != optimize.FunctionConvergence {
 		log.Printf("lbfgs optimizer: Maximum iterations (%d) reached and the optimization hasn't converged yet.\n", m.MaxIter)
 	}
-- 
2.43.0


From 366d7afa559dbc78b9c1215950c48bf3a2a53474 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:37:41 +0000
Subject: [PATCH 086/177] fix: LogisticRegression handles targets with a stride

---
 linear_model/logistic.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/linear_model/logistic.go b/linear_model/logistic.go
index e80a533..16f1c1c 100644
--- a/linear_model/logistic.go
+++ b/linear_model/logistic.go
@@ -251,9 +251,9 @@ func (m *LogisticRegression) backprop(X, y blas64.General, activations []blas64.
 	{
 		H := activations[len(activations)-1]
 		D := deltas
-		for r, pos := 0, 0; r < y.Rows; r, pos = r+1, pos+y.Stride {
-			for o, posc := 0, pos; o < y.Cols; o, posc = o+1, posc+1 {
-				D.Data[posc] = H.Data[posc] - y.Data[posc]
+		for r := 0; r < y.Rows; r++ {
+			for o := 0; o < y.Cols; o++ {
+				D.Data[r*D.Stride+o] = H.Data[r*H.Stride+o] - y.Data[r*y.Stride+o]
 			}
 		}
 	}
-- 
2.43.0


From 380073e441e1e496528ca6556a1edef8761211e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:37:41 +0000
Subject: [PATCH 087/177] fix: LogisticRegression softmax does not overflow

---
 linear_model/logistic.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/linear_model/logistic.go b/linear_model/logistic.go
index 16f1c1c..d12792c 100644
--- a/linear_model/logistic.go
+++ b/linear_model/logistic.go
@@ -81,9 +81,10 @@ var logregActivation = map[string]func(z blas64.General){
 	"softmax": func(z blas64.General) {
 		for row, zpos := 0, 0; row < z.Rows; row, zpos = row+1, zpos+z.Stride {
 			sum := float64(0)
+			max := floats.Max(z.Data[zpos : zpos+z.Cols])
 			for col := 0; col < z.Cols; col++ {
 
-				z.Data[zpos+col] = math.Exp(z.Data[zpos+col])
+				z.Data[zpos+col] = math.Exp(z.Data[zpos+col] - max)
 				sum += z.Data[zpos+col]
 			}
 			for col := 0; col < z.Cols; col++ {
-- 
2.43.0


From 0f3b8098510f8b1dc6ac25192a53661159917338 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:37:53 +0000
Subject: [PATCH 088/177] fix: LogisticRegression.Fit accepts any mix of matrix
 types

---
 linear_model/logistic.go | 10 +---------
 1 file changed, 1 insertion(+), 9 deletions(-)

diff --git a/linear_model/logistic.go b/linear_model/logistic.go
index d12792c..53a8464 100644
--- a/linear_model/logistic.go
+++ b/linear_model/logistic.go
@@ -338,15 +338,7 @@ func (m *LogisticRegression) IsClassifier() bool {
 
 // Fit compute Coef and Intercept
 func (m *LogisticRegression) Fit(X, Y mat.Matrix) base.Fiter {
-	var xb, yb *mat.Dense
-	if xg, ok := X.(*mat.Dense); ok {
-		if yg, ok := Y.(*mat.Dense); ok {
-			xb, yb = xg, yg
-		}
-	} else {
-		xb = mat.DenseCopyOf(X)
-		yb = mat.DenseCopyOf(Y)
-	}
+	xb, yb := base.ToDense(X), base.ToDense(Y)
 	m.lb = nil
 	if m.IsClassifier() && !isBinarized(yb) {
 		m.lb = preprocessing.NewLabelBinarizer(0, 1)
-- 
2.43.0


From 0ced3cbf00292782096d1fef9ba39e1f8a358bd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:43:56 +0000
Subject: [PATCH 089/177] fix: LinearRegression solves rank deficient least
 squares

---
 linear_model/Base.go | 28 +++++++++++++++++++++++++++-
 1 file changed, 27 insertions(+), 1 deletion(-)

diff --git a/linear_model/Base.go b/linear_model/Base.go
index 6afa75e..6b69150 100644
--- a/linear_model/Base.go
+++ b/linear_model/Base.go
@@ -92,11 +92,37 @@ func (regr *LinearRegression) Fit(Xmatrix, Ymatrix mat.Matrix) base.Fiter {
 	X, Y, regr.XOffset, YOffset, regr.XScale = PreprocessData(X0, Y0, regr.FitIntercept, regr.Normalize, nil)
 	// use least squares
 	regr.Coef = &mat.Dense{}
-	regr.Coef.Solve(X, Y)
+	if err := regr.Coef.Solve(X, Y); err != nil {
+		regr.Coef = minNormSolve(X, Y)
+	}
 	regr.LinearModel.setIntercept(regr.XOffset, YOffset, regr.XScale)
 	return regr
 }
 
+// minNormSolve returns the minimum norm least squares solution of X dot Coef = Y, for any rank of X
+func minNormSolve(X, Y *mat.Dense) *mat.Dense {
+	nSamples, nFeatures := X.Dims()
+	var svd mat.SVD
+	if !svd.Factorize(X, mat.SVDThin) {
+		panic("svd failed")
+	}
+	var U, V, UTY, Coef mat.Dense
+	svd.UTo(&U)
+	svd.VTo(&V)
+	S := svd.Values(nil)
+	rcond := math.Nextafter(1, 2) - 1
+	cutoff := S[0] * rcond * math.Max(float64(nSamples), float64(nFeatures))
+	UTY.Mul(U.T(), Y)
+	UTY.Apply(func(i, j int, v float64) float64 {
+		if S[i] <= cutoff {
+			return 0
+		}
+		return v / S[i]
+	}, &UTY)
+	Coef.Mul(&V, &UTY)
+	return &Coef
+}
+
 // GetNOutputs returns output columns number for Y to pass to predict
 func (regr *LinearModel) GetNOutputs() int {
 	_, nOutputs := regr.Coef.Dims()
-- 
2.43.0


From 3cc64edcde910fb29eb313ca28ad1070f60a5650 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:54:33 +0000
Subject: [PATCH 090/177] fix: LinearRegression is not misled by nearly
 dependent columns

---
 linear_model/Base.go | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/linear_model/Base.go b/linear_model/Base.go
index 6b69150..c6a4e43 100644
--- a/linear_model/Base.go
+++ b/linear_model/Base.go
@@ -91,10 +91,7 @@ func (regr *LinearRegression) Fit(Xmatrix, Ymatrix mat.Matrix) base.Fiter {
 	var X, Y, YOffset *mat.Dense
 	X, Y, regr.XOffset, YOffset, regr.XScale = PreprocessData(X0, Y0, regr.FitIntercept, regr.Normalize, nil)
 	// use least squares
-	regr.Coef = &mat.Dense{}
-	if err := regr.Coef.Solve(X, Y); err != nil {
-		regr.Coef = minNormSolve(X, Y)
-	}
+	regr.Coef = minNormSolve(X, Y)
 	regr.LinearModel.setIntercept(regr.XOffset, YOffset, regr.XScale)
 	return regr
 }
-- 
2.43.0


From ee03514ce8ee3d80b989b0135a1b9ae557e2e5f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:57:10 +0000
Subject: [PATCH 091/177] fix: coordinate descent does not report more
 iterations than allowed

---
 linear_model/cdfast.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/linear_model/cdfast.go b/linear_model/cdfast.go
index bc90623..caa18cb 100644
--- a/linear_model/cdfast.go
+++ b/linear_model/cdfast.go
@@ -154,7 +154,10 @@ func enetCoordinateDescent(w *mat.VecDense, alpha, beta float64, X *mat.Dense, Y
 		}
 
 	}
-	return &CDResult{Gap: gap, Eps: tol, NIter: nIter + 1}
+	if nIter < maxIter {
+		nIter++
+	}
+	return &CDResult{Gap: gap, Eps: tol, NIter: nIter}
 }
 
 func enetCoordinateDescentMultiTask(w *mat.Dense, l1reg, l2reg float64, X *mat.Dense, Y *mat.Dense, maxIter int, tol float64, rng *rand.Rand, random, positive bool) *CDResult {
@@ -329,5 +332,8 @@ func enetCoordinateDescentMultiTask(w *mat.Dense, l1reg, l2reg float64, X *mat.D
 		}
 
 	}
-	return &CDResult{Gap: gap, Eps: tol, NIter: nIter + 1}
+	if nIter < maxIter {
+		nIter++
+	}
+	return &CDResult{Gap: gap, Eps: tol, NIter: nIter}
 }
-- 
2.43.0


From 6fc848b59081c21a9fbccac444eda85f5fa4a899 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:15:14 +0000
Subject: [PATCH 092/177] fix: LogisticRegression.Fit does not panic when the
 line search cannot improve any more

---
 linear_model/logistic.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/linear_model/logistic.go b/linear_model/logistic.go
index 53a8464..f919291 100644
--- a/linear_model/logistic.go
+++ b/linear_model/logistic.go
@@ -436,7 +436,7 @@ func (m *LogisticRegression) fitLbfgs(X, y blas64.General, activations []blas64.
 		m.beforeMinimize(problem, w)
 	}
 	res, err := optimize.Minimize(problem, w, settings, method)
-	if err != nil {
+	if err != nil && err != optimize.ErrLinesearcherFailure && err != optimize.ErrNoProgress {
 		log.Panic(err)
 	}
 	copy(m.packedParameters, res.X)
-- 
2.43.0


From 13a18fa9f1dfab81ca5faefbd7c624a9c9eb667a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:15:44 +0000
Subject: [PATCH 093/177] fix: LogisticRegression keeps the best parameters
 when it is cut off early

---
 linear_model/logistic.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/linear_model/logistic.go b/linear_model/logistic.go
index f919291..4a99fd7 100644
--- a/linear_model/logistic.go
+++ b/linear_model/logistic.go
@@ -404,6 +404,7 @@ func (m *LogisticRegression) fitLbfgs(X, y blas64.General, activations []blas64.
 		},
 	}
 
+	bestParameters := make([]float64, len(m.packedParameters))
 	var mu sync.Mutex // sync access to m.Loss on LossCurve
 	problem := optimize.Problem{
 		Func: func(w []float64) float64 {
@@ -414,7 +415,10 @@ func (m *LogisticRegression) fitLbfgs(X, y blas64.General, activations []blas64.
 			mu.Lock()
 			m.Loss = float64(loss)
 			m.LossCurve = append(m.LossCurve, m.Loss)
-			m.BestLoss = math.Min(m.BestLoss, m.Loss)
+			if m.Loss < m.BestLoss {
+				m.BestLoss = m.Loss
+				copy(bestParameters, w)
+			}
 			mu.Unlock()
 			return loss
 		},
@@ -432,6 +436,7 @@ func (m *LogisticRegression) fitLbfgs(X, y blas64.General, activations []blas64.
 	for i := range w {
 		w[i] = float64(m.packedParameters[i])
 	}
+	copy(bestParameters, w)
 	if m.beforeMinimize != nil {
 		m.beforeMinimize(problem, w)
 	}
@@ -439,8 +444,8 @@ func (m *LogisticRegression) fitLbfgs(X, y blas64.General, activations []blas64.
 	if err != nil && err != optimize.ErrLinesearcherFailure && err != optimize.ErrNoProgress {
 		log.Panic(err)
 	}
-	copy(m.packedParameters, res.X)
-	m.Loss = res.F
+	copy(m.packedParameters, bestParameters)
+	m.Loss = m.BestLoss
 	if res.Status != optimize.GradientThreshold && res.Status != optimize.FunctionConvergence {
 		log.Printf("lbfgs optimizer: Maximum iterations (%d) reached and the optimization hasn't converged yet.\n", m.MaxIter)
 	}
-- 
2.43.0


From f44db6b439eebd593cd326c4d8f191f33c3e041e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:26:59 +0000
Subject: [PATCH 094/177] fix: GaussianNB can be fitted a second time

---
 naive_bayes/naivebayes.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/naive_bayes/naivebayes.go b/naive_bayes/naivebayes.go
index 6869611..62fbf48 100644
--- a/naive_bayes/naivebayes.go
+++ b/naive_bayes/naivebayes.go
@@ -153,6 +153,7 @@ func (m *GaussianNB) PartialFit(X, Y mat.Matrix, classes []float64, refit bool,
 	m.Epsilon = m.VarSmoothing * floats.Max(varX)
 	if refit {
 		m.Classes = nil
+		m.Theta = nil
 	}
 	firstCall := m.Theta == nil
 	if firstCall {
-- 
2.43.0


From fec16d0851021e0b574436c1b93bb1989cfdac45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:27:00 +0000
Subject: [PATCH 095/177] fix: GaussianNB.PartialFit removes the smoothing of
 the previous call, not of this one

---
 naive_bayes/naivebayes.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/naive_bayes/naivebayes.go b/naive_bayes/naivebayes.go
index 62fbf48..b4c04c9 100644
--- a/naive_bayes/naivebayes.go
+++ b/naive_bayes/naivebayes.go
@@ -150,6 +150,7 @@ func (m *GaussianNB) PartialFit(X, Y mat.Matrix, classes []float64, refit bool,
 	_, xc := X.Dims()
 
 	_, varX, _ := meanvar(matfiltered{Matrix: X, filter: func(int) bool { return true }}, sampleWeight)
+	previousEpsilon := m.Epsilon
 	m.Epsilon = m.VarSmoothing * floats.Max(varX)
 	if refit {
 		m.Classes = nil
@@ -196,7 +197,7 @@ func (m *GaussianNB) PartialFit(X, Y mat.Matrix, classes []float64, refit bool,
 		}
 		//# Put epsilon back in each time
 		//self.sigma_[:, :] -= self.epsilon_
-		m.Sigma.Apply(func(_, _ int, v float64) float64 { return v - m.Epsilon }, m.Sigma)
+		m.Sigma.Apply(func(_, _ int, v float64) float64 { return v - previousEpsilon }, m.Sigma)
 	}
 	classes = m.Classes
 	uniqueY := npUnique(colAsVector(Y, 0))
-- 
2.43.0


From 727faf0b0ea1aad580134ad58d17753a8bb70dab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:27:00 +0000
Subject: [PATCH 096/177] fix: a cloned GaussianNB does not depend on its
 origin

---
 naive_bayes/naivebayes.go | 54 +++++++++++++++++++++++----------------
 1 file changed, 32 insertions(+), 22 deletions(-)

diff --git a/naive_bayes/naivebayes.go b/naive_bayes/naivebayes.go
index b4c04c9..2f2add4 100644
--- a/naive_bayes/naivebayes.go
+++ b/naive_bayes/naivebayes.go
@@ -126,6 +126,14 @@ func (m *BaseNB) Score(X, Y mat.Matrix) float64 {
 // PredicterClone return a cloned GaussianNB as base.Predicter
 func (m *GaussianNB) PredicterClone() base.Predicter {
 	clone := *m
+	clone.Classes = append([]float64(nil), m.Classes...)
+	clone.ClassPrior = append([]float64(nil), m.ClassPrior...)
+	clone.ClassCount = append([]float64(nil), m.ClassCount...)
+	if m.Theta != nil {
+		clone.Theta = mat.DenseCopyOf(m.Theta)
+		clone.Sigma = mat.DenseCopyOf(m.Sigma)
+		clone.jointLogLikelihood = clone.gaussianJointLogLikelihood
+	}
 	return &clone
 }
 
@@ -236,32 +244,34 @@ func (m *GaussianNB) PartialFit(X, Y mat.Matrix, classes []float64, refit bool,
 		//self.class_prior_ = self.class_count_ / self.class_count_.sum()
 		floats.ScaleTo(m.ClassPrior, 1/floats.Sum(m.ClassCount), m.ClassCount)
 	}
-	m.jointLogLikelihood = func(jll, xrow []float64) {
-		/*
-		   joint_log_likelihood = []
-		      for i in range(np.size(self.classes_)):
-		          jointi = np.log(self.class_prior_[i])
-		          n_ij = - 0.5 * np.sum(np.log(2. * np.pi * self.sigma_[i, :]))
-		          n_ij -= 0.5 * np.sum(((X - self.theta_[i, :]) ** 2) /
-		                               (self.sigma_[i, :]), 1)
-		          joint_log_likelihood.append(jointi + n_ij)
+	m.jointLogLikelihood = m.gaussianJointLogLikelihood
+	return m
+}
 
+func (m *GaussianNB) gaussianJointLogLikelihood(jll, xrow []float64) {
+	/*
+	   joint_log_likelihood = []
+	      for i in range(np.size(self.classes_)):
+	          jointi = np.log(self.class_prior_[i])
+	          n_ij = - 0.5 * np.sum(np.log(2. * np.pi * self.sigma_[i, :]))
+	          n_ij -= 0.5 * np.sum(((X - self.theta_[i, :]) ** 2) /
+	                               (self.sigma_[i, :]), 1)
+	          joint_log_likelihood.append(jointi + n_ij)
 
-		*/
-		for i := range m.Classes {
-			jointi := math.Log(m.ClassPrior[i])
-			nij := 0.
-			sigmai := m.Sigma.RawRowView(i)
-			thetai := m.Theta.RawRowView(i)
-			for j := 0; j < len(xrow); j++ {
-				nij -= .5 * math.Log(2*math.Pi*sigmai[j])
-				xd := xrow[j] - thetai[j]
-				nij -= .5 * xd * xd / sigmai[j]
-			}
-			jll[i] = jointi + nij
+
+	*/
+	for i := range m.Classes {
+		jointi := math.Log(m.ClassPrior[i])
+		nij := 0.
+		sigmai := m.Sigma.RawRowView(i)
+		thetai := m.Theta.RawRowView(i)
+		for j := 0; j < len(xrow); j++ {
+			nij -= .5 * math.Log(2*math.Pi*sigmai[j])
+			xd := xrow[j] - thetai[j]
+			nij -= .5 * xd * xd / sigmai[j]
 		}
+		jll[i] = jointi + nij
 	}
-	return m
 }
 
 type matfiltered struct {
-- 
2.43.0


From b7777dac168fa72baf0fc1fbf4139239f58f0d1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:27:00 +0000
Subject: [PATCH 097/177] fix: GaussianNB.Predict accepts an empty destination

---
 naive_bayes/naivebayes.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/naive_bayes/naivebayes.go b/naive_bayes/naivebayes.go
index 2f2add4..5065817 100644
--- a/naive_bayes/naivebayes.go
+++ b/naive_bayes/naivebayes.go
@@ -29,7 +29,7 @@ func (m *BaseNB) GetNOutputs() int {
 // Predict perform classification on an array of test vectors X
 func (m *BaseNB) Predict(X mat.Matrix, Y mat.Mutable) *mat.Dense {
 	Ypred := base.ToDense(Y)
-	if Y == mat.Mutable(nil) {
+	if Ypred.IsEmpty() {
 		NSamples, _ := X.Dims()
 		Ypred = mat.NewDense(NSamples, m.GetNOutputs(), nil)
 	}
-- 
2.43.0


From ee6e1e8d5bcc0a551cd4c0bf41407e2cc47a0b8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:27:00 +0000
Subject: [PATCH 098/177] fix: Interp1d does not alias the slices it is given

---
 interpolate/interpolate.go | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/interpolate/interpolate.go b/interpolate/interpolate.go
index 42c073d..3283c8b 100644
--- a/interpolate/interpolate.go
+++ b/interpolate/interpolate.go
@@ -33,12 +33,10 @@ func Interp1d(x, y []float64) func(x float64) float64 {
 	}
 
 	var both *xy
-	if sort.Float64sAreSorted(x) {
-		both = &xy{x, y}
-	} else {
-		both = &xy{make([]float64, len(x)), make([]float64, len(x))}
-		copy(both.x, x)
-		copy(both.y, y)
+	both = &xy{make([]float64, len(x)), make([]float64, len(x))}
+	copy(both.x, x)
+	copy(both.y, y)
+	if !sort.Float64sAreSorted(x) {
 		sort.Sort(both)
 	}
 	return func(x float64) float64 {
-- 
2.43.0


From 16b57d8c3dfa2c744f0ee978a6d255fac8c61d93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:27:00 +0000
Subject: [PATCH 099/177] fix: Interp2d handles a grid with a single x

---
 interpolate/interpolate.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/interpolate/interpolate.go b/interpolate/interpolate.go
index 3283c8b..a6cd5b8 100644
--- a/interpolate/interpolate.go
+++ b/interpolate/interpolate.go
@@ -98,7 +98,7 @@ func Interp2d(x, y, z []float64) func(x, y float64) float64 {
 			ix3++
 		}
 		x2 := xsorted[ix2]
-		for ix2 > 1 && xsorted[ix2-1] == x2 {
+		for ix2 > 0 && xsorted[ix2-1] == x2 {
 			ix2--
 		}
 		zxlow := Interp1d(ysorted[ix0:ix1], zsorted[ix0:ix1])(y)
-- 
2.43.0


From 8f64e946b919de97b1db06cb15abb9c93764aea6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:27:00 +0000
Subject: [PATCH 100/177] fix: CubicSpline does not alias the slices it is
 given

---
 interpolate/cubic.go | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/interpolate/cubic.go b/interpolate/cubic.go
index b1a0364..35e8eae 100644
--- a/interpolate/cubic.go
+++ b/interpolate/cubic.go
@@ -52,12 +52,10 @@ func CubicSpline(xs, ys []float64) func(x float64) float64 {
 	}
 
 	var both *xy
-	if sort.Float64sAreSorted(xs) {
-		both = &xy{xs, ys}
-	} else {
-		both = &xy{make([]float64, len(xs)), make([]float64, len(xs))}
-		copy(both.x, xs)
-		copy(both.y, ys)
+	both = &xy{make([]float64, len(xs)), make([]float64, len(xs))}
+	copy(both.x, xs)
+	copy(both.y, ys)
+	if !sort.Float64sAreSorted(xs) {
 		sort.Sort(both)
 	}
 
-- 
2.43.0


From dc6b0aa2807ad5700283c277581724c28bc7adc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:27:20 +0000
Subject: [PATCH 101/177] fix: GaussianNB.PartialFit merges variances with the
 previous mean, not the merged one

---
 naive_bayes/naivebayes.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/naive_bayes/naivebayes.go b/naive_bayes/naivebayes.go
index 5065817..3522f98 100644
--- a/naive_bayes/naivebayes.go
+++ b/naive_bayes/naivebayes.go
@@ -370,8 +370,8 @@ func (m *GaussianNB) updateMeanVariance(nPast float64, mu, va []float64, X matfi
 	newMu, newVa, nNew := meanvar(X, sw.sw)
 	nTotal := nPast + nNew
 	for c := 0; c < xc; c++ {
-		setTotalMu(c, (nPast*mu[c]+nNew*newMu[c])/nTotal)
 		dmu := mu[c] - newMu[c]
+		setTotalMu(c, (nPast*mu[c]+nNew*newMu[c])/nTotal)
 		setTotalVar(c, (nPast*va[c]+nNew*newVa[c]+nNew*nPast/nTotal*dmu*dmu)/nTotal)
 	}
 	setClassCount(nTotal)
-- 
2.43.0


From d539639b45964116c4cde32cf550ced272b45e4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:29:34 +0000
Subject: [PATCH 102/177] fix: SVC accepts a step that lowers the second
 multiplier

---
 svm/svm.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/svm/svm.go b/svm/svm.go
index 06749b9..69e1678 100644
--- a/svm/svm.go
+++ b/svm/svm.go
@@ -112,7 +112,7 @@ func svmTrain(X *mat.Dense, Y []float64, C, Epsilon float64, KernelFunction func
 				// % Clip
 				alphas[j] = math.Max(L, math.Min(H, alphas[j]))
 				// % Check if change in alpha is significant
-				if alphas[j]-alphajold < Tol {
+				if math.Abs(alphas[j]-alphajold) < Tol {
 					alphas[j] = alphajold
 					continue
 				}
-- 
2.43.0


From 41b9a8930fd46f04ba1262cc45170d01e4493071 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:29:34 +0000
Subject: [PATCH 103/177] fix: SVC trains on 0/1 targets as documented

---
 svm/svm.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/svm/svm.go b/svm/svm.go
index 69e1678..461101b 100644
--- a/svm/svm.go
+++ b/svm/svm.go
@@ -49,6 +49,15 @@ type Model struct {
 // %           SVMLight (http://svmlight.joachims.org/)
 func svmTrain(X *mat.Dense, Y []float64, C, Epsilon float64, KernelFunction func(X1, X2 []float64) float64, Tol float64, MaxPasses int, CacheSize uint, RandomState base.RandomState) *Model {
 	m, n := X.Dims()
+	// negative examples may be given as 0 or -1
+	targets := make([]float64, len(Y))
+	for i, y := range Y {
+		targets[i] = y
+		if y == 0 {
+			targets[i] = -1
+		}
+	}
+	Y = targets
 	alphas := make([]float64, m)
 	b := 0.
 	E := make([]float64, m)
-- 
2.43.0


From 71c11f28e910810743a6de5a4455b489f4396eb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:29:34 +0000
Subject: [PATCH 104/177] fix: SVC.Fit does not panic when there is no support
 vector

---
 svm/svm.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/svm/svm.go b/svm/svm.go
index 461101b..43fa89d 100644
--- a/svm/svm.go
+++ b/svm/svm.go
@@ -163,13 +163,16 @@ func svmTrain(X *mat.Dense, Y []float64, C, Epsilon float64, KernelFunction func
 		}
 	}
 	model := &Model{
-		X:              mat.NewDense(len(idx), n, nil),
+		X:              &mat.Dense{},
 		Y:              make([]float64, len(idx)),
 		KernelFunction: KernelFunction,
 		B:              b,
 		Alphas:         make([]float64, len(idx)),
 		Support:        idx,
 	}
+	if len(idx) > 0 {
+		model.X = mat.NewDense(len(idx), n, nil)
+	}
 	for ii, i := range idx {
 		model.X.SetRow(ii, X.RawRowView(i))
 		model.Y[ii] = Y[i]
-- 
2.43.0


From cbfd03e34851bcab204fd8319a845c1b01f1b0e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:29:34 +0000
Subject: [PATCH 105/177] fix: SVR.Fit does not panic when every target is
 within epsilon of zero

---
 svm/svr.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/svm/svr.go b/svm/svr.go
index 780f841..a21b874 100644
--- a/svm/svr.go
+++ b/svm/svr.go
@@ -177,12 +177,15 @@ func svrTrain(X *mat.Dense, Y []float64, C, Epsilon float64, KernelFunction func
 	}
 
 	model := &Model{
-		X:              mat.NewDense(len(idx), n, nil),
+		X:              &mat.Dense{},
 		KernelFunction: KernelFunction,
 		B:              b,
 		Alphas:         make([]float64, len(idx)),
 		Support:        idx,
 	}
+	if len(idx) > 0 {
+		model.X = mat.NewDense(len(idx), n, nil)
+	}
 	for ii, i := range idx {
 		model.X.SetRow(ii, X.RawRowView(i))
 		model.Alphas[ii] = alphas[i]
-- 
2.43.0


From 77e3e2e0d885148e5abc0bd4755270d66d59e2ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:29:34 +0000
Subject: [PATCH 106/177] fix: SVM outputs fitted in parallel do not race for
 the random state

---
 svm/svm.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/svm/svm.go b/svm/svm.go
index 43fa89d..17049a4 100644
--- a/svm/svm.go
+++ b/svm/svm.go
@@ -304,11 +304,18 @@ func (m *BaseLibSVM) fit(X, Y *mat.Dense, svmTrain func(X *mat.Dense, Y []float6
 	}
 	m.Support = make([][]int, Noutputs)
 	m.SupportVectors = make([][][]float64, Noutputs)
+	randomStates := make([]base.Source, Noutputs)
+	for output := range randomStates {
+		randomStates[output] = m.RandomState
+		if m.RandomState != nil && Noutputs > 1 {
+			randomStates[output] = rand.NewSource(m.RandomState.Uint64())
+		}
+	}
 	base.Parallelize(-1, Noutputs, func(th, start, end int) {
 		y := make([]float64, NSamples)
 		for output := start; output < end; output++ {
 			mat.Col(y, output, Y)
-			m.Model[output] = svmTrain(X, y, m.C, m.Epsilon, K, m.Tol, m.MaxIter, m.CacheSize, m.RandomState)
+			m.Model[output] = svmTrain(X, y, m.C, m.Epsilon, K, m.Tol, m.MaxIter, m.CacheSize, randomStates[output])
 			model := m.Model[output]
 			m.Support[output] = model.Support
 			m.SupportVectors[output] = make([][]float64, len(model.Support))
-- 
2.43.0


From ac3f93a70a2ee76a12678c15f1d4303c164e5730 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:29:35 +0000
Subject: [PATCH 107/177] fix: SVR looks for a second multiplier on both sides
 of the tube

---
 svm/svr.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/svm/svr.go b/svm/svr.go
index a21b874..942899a 100644
--- a/svm/svr.go
+++ b/svm/svr.go
@@ -107,7 +107,7 @@ func svrTrain(X *mat.Dense, Y []float64, C, Epsilon float64, KernelFunction func
 						continue
 					}
 					E[j3] = f(j3) - Y[j3]
-					if (E[j3] < -Epsilon) || (E[j] > Epsilon) {
+					if (E[j3] < -Epsilon) || (E[j3] > Epsilon) {
 						j = j3
 						break
 					}
-- 
2.43.0


From 432c2a991d2058ac8686da2c8c5a54089825c7e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:36:02 +0000
Subject: [PATCH 108/177] fix: SVR optimises a pair of multipliers exactly, so
 that training ends

---
 svm/svr.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/svm/svr.go b/svm/svr.go
index 942899a..fbe6d6a 100644
--- a/svm/svr.go
+++ b/svm/svr.go
@@ -132,7 +132,7 @@ func svrTrain(X *mat.Dense, Y []float64, C, Epsilon float64, KernelFunction func
 
 				if alphas[i]*alphas[j] < 0 {
 					aai, aaj := abs(alphas[i]), abs(alphas[j])
-					if aai > delta || aaj > delta {
+					if aai > delta && aaj > delta {
 						alphas[j] -= sgn(alphas[j]) * delta
 					} else {
 						alphas[j] = step(aaj-aai) * s
-- 
2.43.0


From 61e7180d559cf9c9a6257e6e690a1764e1387b1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:36:02 +0000
Subject: [PATCH 109/177] fix: SVR skips pairs without curvature

---
 svm/svr.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/svm/svr.go b/svm/svr.go
index fbe6d6a..f4279ce 100644
--- a/svm/svr.go
+++ b/svm/svr.go
@@ -117,6 +117,9 @@ func svrTrain(X *mat.Dense, Y []float64, C, Epsilon float64, KernelFunction func
 				Kij := K(i, j)
 				Kjj := K(j, j)
 				eta = 2*Kij - Kii - Kjj
+				if eta >= 0 {
+					continue
+				}
 				alphaiold, alphajold := alphas[i], alphas[j]
 				s := alphaiold + alphajold
 				delta := -2 * Epsilon / eta
-- 
2.43.0


From 684d79c1d2dc32254e48de2ed82478ff5e7a4109 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:44:05 +0000
Subject: [PATCH 110/177] fix: WhiteKernel.CloneWithTheta sets the noise level
 of the clone

---
 gaussian_process/kernels/kernels.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gaussian_process/kernels/kernels.go b/gaussian_process/kernels/kernels.go
index 9302e93..2887f20 100644
--- a/gaussian_process/kernels/kernels.go
+++ b/gaussian_process/kernels/kernels.go
@@ -436,7 +436,7 @@ func (k WhiteKernel) Bounds() mat.Matrix {
 // CloneWithTheta ...
 func (k WhiteKernel) CloneWithTheta(theta mat.Matrix) Kernel {
 	clone := k
-	matCopy(k.Theta().(mat.Mutable), theta)
+	matCopy(clone.Theta().(mat.Mutable), theta)
 	return &clone
 }
 
-- 
2.43.0


From 5e1a6f0612dfe5d0ee2aca58e4e6ef4419c4f444 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:44:05 +0000
Subject: [PATCH 111/177] fix: kernels can be cloned without a theta

---
 gaussian_process/kernels/matutil.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/gaussian_process/kernels/matutil.go b/gaussian_process/kernels/matutil.go
index 6147008..42e4e11 100644
--- a/gaussian_process/kernels/matutil.go
+++ b/gaussian_process/kernels/matutil.go
@@ -49,6 +49,9 @@ func (m matFromFunc) T() mat.Matrix {
 }
 
 func matCopy(dst mat.Mutable, src mat.Matrix) {
+	if src == mat.Matrix(nil) {
+		return
+	}
 	r, c := src.Dims()
 	for i := 0; i < r; i++ {
 		for j := 0; j < c; j++ {
-- 
2.43.0


From e6b2522cc60791f09c766f00f67e027c88c318c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:44:06 +0000
Subject: [PATCH 112/177] fix: Exponentiation exposes the hyperparameters of
 its kernel without recursing forever

---
 gaussian_process/kernels/kernels.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gaussian_process/kernels/kernels.go b/gaussian_process/kernels/kernels.go
index 2887f20..c8a609c 100644
--- a/gaussian_process/kernels/kernels.go
+++ b/gaussian_process/kernels/kernels.go
@@ -281,7 +281,7 @@ type Exponentiation struct {
 
 // hyperparameters ...
 func (k Exponentiation) hyperparameters() hyperparameters {
-	hps := k.hyperparameters()
+	hps := k.Kernel.hyperparameters()
 	params := make(hyperparameters, len(hps))
 	for i, p := range hps {
 		p.Name = "kernel_" + p.Name
-- 
2.43.0


From 29a0fb46e3f34c3f3f3f66365fade39881bd09bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:44:06 +0000
Subject: [PATCH 113/177] fix: Exponentiation keeps its exponent when cloned

---
 gaussian_process/kernels/kernels.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/gaussian_process/kernels/kernels.go b/gaussian_process/kernels/kernels.go
index c8a609c..c21fd3e 100644
--- a/gaussian_process/kernels/kernels.go
+++ b/gaussian_process/kernels/kernels.go
@@ -290,6 +290,11 @@ func (k Exponentiation) hyperparameters() hyperparameters {
 	return params
 }
 
+// CloneWithTheta ...
+func (k Exponentiation) CloneWithTheta(theta mat.Matrix) Kernel {
+	return &Exponentiation{Kernel: k.Kernel.CloneWithTheta(theta), Exponent: k.Exponent}
+}
+
 // Eval return the kernel k(X, Y) and optionally its gradient
 func (k *Exponentiation) Eval(X, Y mat.Matrix, evalGradient bool) (*mat.Dense, *t.Dense) {
 	K, Kg := k.Kernel.Eval(X, Y, evalGradient)
-- 
2.43.0


From ebc2762b13ffd2294120472aba046931069a1eb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:44:06 +0000
Subject: [PATCH 114/177] fix: the gradient of Exponentiation follows the chain
 rule

---
 gaussian_process/kernels/kernels.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/gaussian_process/kernels/kernels.go b/gaussian_process/kernels/kernels.go
index c21fd3e..de3c315 100644
--- a/gaussian_process/kernels/kernels.go
+++ b/gaussian_process/kernels/kernels.go
@@ -298,16 +298,17 @@ func (k Exponentiation) CloneWithTheta(theta mat.Matrix) Kernel {
 // Eval return the kernel k(X, Y) and optionally its gradient
 func (k *Exponentiation) Eval(X, Y mat.Matrix, evalGradient bool) (*mat.Dense, *t.Dense) {
 	K, Kg := k.Kernel.Eval(X, Y, evalGradient)
-	K.Apply(func(_, _ int, v float64) float64 {
-		return math.Pow(v, k.Exponent)
-	}, K)
 	if evalGradient {
 		Kdata := K.RawMatrix().Data
 		Kgdata := Kg.Data().([]float64)
+		nparams := Kg.Shape()[2]
 		for i := range Kgdata {
-			Kgdata[i] *= k.Exponent * math.Pow(Kdata[i], k.Exponent-1)
+			Kgdata[i] *= k.Exponent * math.Pow(Kdata[i/nparams], k.Exponent-1)
 		}
 	}
+	K.Apply(func(_, _ int, v float64) float64 {
+		return math.Pow(v, k.Exponent)
+	}, K)
 	return K, Kg
 }
 
-- 
2.43.0


From fa24c07ab3084305aa311903801bd06f4d42add6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:44:07 +0000
Subject: [PATCH 115/177] fix: combined kernels with fixed hyperparameters can
 be cloned with a theta

---
 gaussian_process/kernels/kernels.go | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/gaussian_process/kernels/kernels.go b/gaussian_process/kernels/kernels.go
index de3c315..f92d262 100644
--- a/gaussian_process/kernels/kernels.go
+++ b/gaussian_process/kernels/kernels.go
@@ -2,7 +2,6 @@ package kernels
 
 import (
 	"fmt"
-	"github.com/pa-m/sklearn/base"
 	"math"
 
 	"gonum.org/v1/gonum/floats"
@@ -126,12 +125,11 @@ func (k KernelOperator) CloneWithTheta(theta mat.Matrix) Kernel {
 	if theta == mat.Matrix(nil) {
 		return KernelOperator{K1: k.K1.CloneWithTheta(nil), K2: k.K2.CloneWithTheta(nil)}
 	}
-	var td = base.ToDense(theta)
 	n1, _ := k.K1.Theta().Dims()
 	n2, _ := k.K2.Theta().Dims()
 	return KernelOperator{
-		K1: k.K1.CloneWithTheta(td.Slice(0, n1, 0, 1)),
-		K2: k.K2.CloneWithTheta(td.Slice(n1, n1+n2, 0, 1)),
+		K1: k.K1.CloneWithTheta(matFromFunc{r: n1, c: 1, at: theta.At}),
+		K2: k.K2.CloneWithTheta(matFromFunc{r: n2, c: 1, at: func(i, j int) float64 { return theta.At(n1+i, j) }}),
 	}
 }
 
-- 
2.43.0


From cf3274dfb8e4d3ec92bf326f69c0c7340a1d0969 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:44:07 +0000
Subject: [PATCH 116/177] fix: an RBF kernel without bounds is fixed

---
 gaussian_process/kernels/kernels.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/gaussian_process/kernels/kernels.go b/gaussian_process/kernels/kernels.go
index f92d262..8816fb1 100644
--- a/gaussian_process/kernels/kernels.go
+++ b/gaussian_process/kernels/kernels.go
@@ -520,8 +520,10 @@ type RBF struct {
 func (k *RBF) hyperparameters() hyperparameters {
 	params := make(hyperparameters, len(k.LengthScale))
 	for i := range k.LengthScale {
-		params[i] = hyperparameter{Name: fmt.Sprintf("length_scale_%d", i), PValue: &k.LengthScale[i], PBounds: &k.LengthScaleBounds[i]}
-
+		params[i] = hyperparameter{Name: fmt.Sprintf("length_scale_%d", i), PValue: &k.LengthScale[i]}
+		if i < len(k.LengthScaleBounds) {
+			params[i].PBounds = &k.LengthScaleBounds[i]
+		}
 	}
 	return params
 }
-- 
2.43.0


From f249da99c8dcb8b7069e6ca8889b6e14e94c43b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:44:07 +0000
Subject: [PATCH 117/177] fix: the gradient of an anisotropic RBF kernel has
 one slice per free length scale

---
 gaussian_process/kernels/kernels.go | 45 +++++++++++++++--------------
 1 file changed, 23 insertions(+), 22 deletions(-)

diff --git a/gaussian_process/kernels/kernels.go b/gaussian_process/kernels/kernels.go
index 8816fb1..96e8c42 100644
--- a/gaussian_process/kernels/kernels.go
+++ b/gaussian_process/kernels/kernels.go
@@ -588,28 +588,29 @@ func (k *RBF) Eval(X, Y mat.Matrix, evalGradient bool) (K *mat.Dense, Kg *t.Dens
 		}
 	}
 	if evalGradient && Y == X {
-		if k.hyperparameters()[0].IsFixed() {
-			Kg = t.NewDense(t.Float64, t.Shape{nx, nx, 0}, t.WithBacking(nil))
-		} else {
-			Kg = t.NewDense(t.Float64, t.Shape{nx, nx, 1}, t.WithBacking(make([]float64, nx*nx)))
-			it := Kg.Iterator()
-			Kgdata := Kg.Data().([]float64)
-			Kdata := K.RawMatrix().Data
-			xr, xc, xd := mat.NewVecDense(nfeat, nil), mat.NewVecDense(nfeat, nil), mat.NewVecDense(nfeat, nil)
-			for i, e := it.Start(); e == nil; i, e = it.Next() {
-				r, c := i/nx, i%nx
-				mat.Row(xr.RawVector().Data, r, X)
-				mat.Row(xc.RawVector().Data, c, X)
-				xd.SubVec(xr, xc)
-				switch len(k.LengthScale) {
-				case 1:
-					xd.ScaleVec(1/k.LengthScale[0], xd)
-				case nfeat:
-					xd.DivElemVec(xd, mat.NewVecDense(nfeat, k.LengthScale))
-				default:
-					panic("dim error")
-				}
-				Kgdata[i] = Kdata[i] * mat.Dot(xd, xd)
+		var free []int
+		for i, param := range k.hyperparameters() {
+			if !param.IsFixed() {
+				free = append(free, i)
+			}
+		}
+		Kg = t.NewDense(t.Float64, t.Shape{nx, nx, len(free)}, t.WithBacking(make([]float64, nx*nx*len(free))))
+		it := Kg.Iterator()
+		Kgdata := Kg.Data().([]float64)
+		Kdata := K.RawMatrix().Data
+		xd := mat.NewVecDense(nfeat, nil)
+		for i, e := it.Start(); e == nil; i, e = it.Next() {
+			ij := i / len(free)
+			mat.Row(Xrow, ij/nx, X)
+			mat.Row(Yrow, ij%nx, X)
+			for feat := 0; feat < nfeat; feat++ {
+				xd.SetVec(feat, scale(Xrow, feat)-scale(Yrow, feat))
+			}
+			if k.IsAnisotropic() {
+				d := xd.AtVec(free[i%len(free)])
+				Kgdata[i] = Kdata[ij] * d * d
+			} else {
+				Kgdata[i] = Kdata[ij] * mat.Dot(xd, xd)
 			}
 		}
 	}
-- 
2.43.0


From 64e74f96a9e2f1d937de744e62e289a2f2e4b3c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:44:07 +0000
Subject: [PATCH 118/177] fix: the gradient of WhiteKernel covers repeated rows
 like its value

---
 gaussian_process/kernels/kernels.go | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/gaussian_process/kernels/kernels.go b/gaussian_process/kernels/kernels.go
index 96e8c42..dac9b6a 100644
--- a/gaussian_process/kernels/kernels.go
+++ b/gaussian_process/kernels/kernels.go
@@ -474,9 +474,7 @@ func (k *WhiteKernel) Eval(X, Y mat.Matrix, evalGradient bool) (*mat.Dense, *t.D
 			it := Kg.Iterator()
 			Kgdata := Kg.Data().([]float64)
 			for i, e := it.Start(); e == nil; i, e = it.Next() {
-				if i%(nx+1) == 0 {
-					Kgdata[i] = k.NoiseLevel
-				}
+				Kgdata[i] = Kr.Data[i]
 			}
 		}
 	}
-- 
2.43.0


From 0d4183b26c1ba0e35551d153f24f456c2f2e71e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:44:07 +0000
Subject: [PATCH 119/177] fix: gaussianprocess.Regressor.Fit accepts one alpha
 per sample

---
 gaussian_process/gpr.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gaussian_process/gpr.go b/gaussian_process/gpr.go
index d540063..8f5c2da 100644
--- a/gaussian_process/gpr.go
+++ b/gaussian_process/gpr.go
@@ -74,7 +74,7 @@ func (m *Regressor) GetNOutputs() int {
 
 // Fit Gaussian process regression model
 func (m *Regressor) Fit(X, Y mat.Matrix) base.Fiter {
-	_, ry := Y.Dims()
+	ry, _ := Y.Dims()
 	m.Xtrain = mat.DenseCopyOf(X)
 	m.Ytrain = mat.DenseCopyOf(Y)
 	if len(m.Alpha) != 1 && len(m.Alpha) != ry {
-- 
2.43.0


From 4ac1e9f436eab8c3ca55a338195b80962406c616 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:44:08 +0000
Subject: [PATCH 120/177] fix: gaussianprocess.Regressor.Fit computes the log
 marginal likelihood

---
 gaussian_process/gpr.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/gaussian_process/gpr.go b/gaussian_process/gpr.go
index 8f5c2da..71cc955 100644
--- a/gaussian_process/gpr.go
+++ b/gaussian_process/gpr.go
@@ -80,6 +80,7 @@ func (m *Regressor) Fit(X, Y mat.Matrix) base.Fiter {
 	if len(m.Alpha) != 1 && len(m.Alpha) != ry {
 		panic(fmt.Errorf("alpha must be a scalar or an array with same number of entries as y.(%d != %d)", len(m.Alpha), ry))
 	}
+	m.LogMarginalLikelihoodValue, _ = m.LogMarginalLikelihood(m.KernelOpt.Theta(), false)
 	return m
 }
 
-- 
2.43.0


From f318acffc0877d737838dc96cb5851479123a1c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:44:08 +0000
Subject: [PATCH 121/177] fix: the log marginal likelihood gradient of a kernel
 without free hyperparameters is empty

---
 gaussian_process/gpr.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gaussian_process/gpr.go b/gaussian_process/gpr.go
index 71cc955..62f31e7 100644
--- a/gaussian_process/gpr.go
+++ b/gaussian_process/gpr.go
@@ -211,7 +211,7 @@ func (m *Regressor) LogMarginalLikelihood(Theta mat.Matrix, evalGradient bool) (
 	// log_likelihood = log_likelihood_dims.sum(-1)  # sum over dimensions
 	lml = mat.Sum(lldims)
 	//if eval_gradient:  # compare Equation 5.9 from GPML
-	if evalGradient {
+	if evalGradient && Kg.Shape()[2] > 0 {
 		// tmp = np.einsum("ik,jk->ijk", alpha, alpha)  # k: output-dimension
 		// tmp -= cho_solve((L, True), np.eye(K.shape[0]))[:, :, np.newaxis]
 		// # Compute "0.5 * trace(tmp.dot(K_gradient))" without
-- 
2.43.0


From c0193239bf2da0f155815a4de502aa0273f3c618 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:44:08 +0000
Subject: [PATCH 122/177] fix: gaussianprocess.Regressor predicts the posterior
 once it is fitted

---
 gaussian_process/gpr.go | 46 +++++++++++++++++++++++++++++++----------
 1 file changed, 35 insertions(+), 11 deletions(-)

diff --git a/gaussian_process/gpr.go b/gaussian_process/gpr.go
index 62f31e7..d25e8fd 100644
--- a/gaussian_process/gpr.go
+++ b/gaussian_process/gpr.go
@@ -89,11 +89,7 @@ func (m *Regressor) PredictEx(X mat.Matrix, Y mat.Mutable, returnStd, returnCov
 	NSamples, _ := X.Dims()
 	var Ymean, Ycov *mat.Dense
 	var Ystd *mat.DiagDense
-	if _, ok := Y.(*mat.Dense); ok {
-		Ymean = Y.(*mat.Dense)
-	} else {
-		Ymean = mat.NewDense(NSamples, m.GetNOutputs(), nil)
-	}
+	Ymean = mat.NewDense(NSamples, m.GetNOutputs(), nil)
 	if m.Xtrain == nil {
 		// # Unfitted;predict based on GP prior
 		// y_mean = np.zeros(X.shape[0])
@@ -113,12 +109,40 @@ func (m *Regressor) PredictEx(X mat.Matrix, Y mat.Mutable, returnStd, returnCov
 		//y_mean = self._y_train_mean + y_mean  # undo normal.
 
 		Ktrans, _ := m.Kernel.Eval(X, m.Xtrain, false)
-		Ymean.Mul(Ktrans, mat.NewDense(NSamples, 1, m.Alpha))
-		Ymean.Add(Ymean, m.YtrainMean)
-		if returnStd {
-			// TODO
-		} else if returnCov {
-			// TODO
+		K, _ := m.Kernel.Eval(m.Xtrain, nil, false)
+		ntrain, _ := K.Dims()
+		Ksym := mat.NewSymDense(ntrain, nil)
+		for i := 0; i < ntrain; i++ {
+			for j := i; j < ntrain; j++ {
+				Ksym.SetSym(i, j, K.At(i, j))
+			}
+			Ksym.SetSym(i, i, K.At(i, i)+m.Alpha[i%len(m.Alpha)])
+		}
+		cho := &mat.Cholesky{}
+		if !cho.Factorize(Ksym) {
+			panic("kernel is not returning a positive definite matrix, try increasing Alpha")
+		}
+		dual := &mat.Dense{}
+		if err := cho.SolveTo(dual, m.Ytrain); err != nil {
+			panic(err)
+		}
+		Ymean.Mul(Ktrans, dual)
+		if returnStd || returnCov {
+			// Ycov = K(X,X) - Ktrans (K+alpha)^-1 Ktrans^T
+			v, explained := &mat.Dense{}, &mat.Dense{}
+			if err := cho.SolveTo(v, Ktrans.T()); err != nil {
+				panic(err)
+			}
+			explained.Mul(Ktrans, v)
+			if returnCov {
+				Ycov, _ = m.Kernel.Eval(X, nil, false)
+				Ycov.Sub(Ycov, explained)
+			} else {
+				Ystd = m.Kernel.Diag(X)
+				for i := 0; i < NSamples; i++ {
+					Ystd.SetDiag(i, math.Sqrt(math.Max(0, Ystd.At(i, i)-explained.At(i, i))))
+				}
+			}
 		}
 	}
 	return base.FromDense(Y, Ymean), Ystd, Ycov
-- 
2.43.0


From 6ba544bfea059b64ea995a5c6949dfde543e9cf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:44:08 +0000
Subject: [PATCH 123/177] fix: gaussianprocess.Regressor.Score does not refit
 on the data it scores

---
 gaussian_process/gpr.go | 1 -
 1 file changed, 1 deletion(-)

diff --git a/gaussian_process/gpr.go b/gaussian_process/gpr.go
index d25e8fd..215077a 100644
--- a/gaussian_process/gpr.go
+++ b/gaussian_process/gpr.go
@@ -156,7 +156,6 @@ func (m *Regressor) Predict(X mat.Matrix, Y mat.Mutable) *mat.Dense {
 
 // Score returns R2 score
 func (m *Regressor) Score(X, Y mat.Matrix) float64 {
-	m.Fit(X, Y)
 	pred := m.Predict(X, nil)
 	return metrics.R2Score(Y, pred, nil, "").At(0, 0)
 }
-- 
2.43.0


From 8fae21adcb6b3a9d5ff14db1d472ca4f94e3c1d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:44:08 +0000
Subject: [PATCH 124/177] fix: a cloned gaussianprocess.Regressor has its own
 factorization

---
 gaussian_process/gpr.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/gaussian_process/gpr.go b/gaussian_process/gpr.go
index 215077a..d7920c4 100644
--- a/gaussian_process/gpr.go
+++ b/gaussian_process/gpr.go
@@ -59,6 +59,7 @@ func (m *Regressor) PredicterClone() base.Predicter {
 		clone.KernelOpt = m.KernelOpt.CloneWithTheta(m.KernelOpt.Theta())
 	}
 	if m.L != nil {
+		clone.L = &mat.Cholesky{}
 		clone.L.Clone(m.L)
 	}
 	return &clone
-- 
2.43.0


From 7105581080dbc660a9bd61898c3528961919aa19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:45:05 +0000
Subject: [PATCH 125/177] fix: gaussianprocess.Regressor.Predict accepts an
 empty destination

---
 gaussian_process/gpr.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/gaussian_process/gpr.go b/gaussian_process/gpr.go
index d7920c4..d6e71e1 100644
--- a/gaussian_process/gpr.go
+++ b/gaussian_process/gpr.go
@@ -90,7 +90,10 @@ func (m *Regressor) PredictEx(X mat.Matrix, Y mat.Mutable, returnStd, returnCov
 	NSamples, _ := X.Dims()
 	var Ymean, Ycov *mat.Dense
 	var Ystd *mat.DiagDense
-	Ymean = mat.NewDense(NSamples, m.GetNOutputs(), nil)
+	if Ymean = base.ToDense(Y); Ymean.IsEmpty() {
+		*Ymean = *mat.NewDense(NSamples, m.GetNOutputs(), nil)
+	}
+	Ymean.Zero()
 	if m.Xtrain == nil {
 		// # Unfitted;predict based on GP prior
 		// y_mean = np.zeros(X.shape[0])
-- 
2.43.0


From 2b9f454fb20d3cbc4ce43617cd417e771f3b1ab6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:55:28 +0000
Subject: [PATCH 126/177] fix: the tanh activation of MLPs is tanh(z), not
 tanh(-z)

---
 neural_network/basemlp32.go | 2 +-
 neural_network/basemlp64.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/neural_network/basemlp32.go b/neural_network/basemlp32.go
index bcdbc41..a0a23b3 100644
--- a/neural_network/basemlp32.go
+++ b/neural_network/basemlp32.go
@@ -88,7 +88,7 @@ var Activations32 = map[string]func(z blas32General){
 	"tanh": func(z blas32General) {
 		for row, zpos := 0, 0; row < z.Rows; row, zpos = row+1, zpos+z.Stride {
 			for col := 0; col < z.Cols; col++ {
-				z.Data[zpos+col] = M32.Tanh(-z.Data[zpos+col])
+				z.Data[zpos+col] = M32.Tanh(z.Data[zpos+col])
 			}
 		}
 	},
diff --git a/neural_network/basemlp64.go b/neural_network/basemlp64.go
index d50f893..bc64be9 100644
--- a/neural_network/basemlp64.go
+++ b/neural_network/basemlp64.go
@@ -88,7 +88,7 @@ var Activations64 = map[string]func(z blas64General){
 	"tanh": func(z blas64General) {
 		for row, zpos := 0, 0; row < z.Rows; row, zpos = row+1, zpos+z.Stride {
 			for col := 0; col < z.Cols; col++ {
-				z.Data[zpos+col] = M64.Tanh(-z.Data[zpos+col])
+				z.Data[zpos+col] = M64.Tanh(z.Data[zpos+col])
 			}
 		}
 	},
-- 
2.43.0


From 46c2e0c1b21294a2601ec78e8b887307364c69c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:55:28 +0000
Subject: [PATCH 127/177] fix: the softmax activation of MLPs does not overflow

---
 neural_network/basemlp32.go | 8 +++++++-
 neural_network/basemlp64.go | 8 +++++++-
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/neural_network/basemlp32.go b/neural_network/basemlp32.go
index a0a23b3..6326df5 100644
--- a/neural_network/basemlp32.go
+++ b/neural_network/basemlp32.go
@@ -104,9 +104,15 @@ var Activations32 = map[string]func(z blas32General){
 	"softmax": func(z blas32General) {
 		for row, zpos := 0, 0; row < z.Rows; row, zpos = row+1, zpos+z.Stride {
 			sum := float32(0)
+			zmax := M32.Inf(-1)
+			for col := 0; col < z.Cols; col++ {
+				if z.Data[zpos+col] > zmax {
+					zmax = z.Data[zpos+col]
+				}
+			}
 			for col := 0; col < z.Cols; col++ {
 
-				z.Data[zpos+col] = M32.Exp(z.Data[zpos+col])
+				z.Data[zpos+col] = M32.Exp(z.Data[zpos+col] - zmax)
 				sum += z.Data[zpos+col]
 			}
 			for col := 0; col < z.Cols; col++ {
diff --git a/neural_network/basemlp64.go b/neural_network/basemlp64.go
index bc64be9..a4a9717 100644
--- a/neural_network/basemlp64.go
+++ b/neural_network/basemlp64.go
@@ -104,9 +104,15 @@ var Activations64 = map[string]func(z blas64General){
 	"softmax": func(z blas64General) {
 		for row, zpos := 0, 0; row < z.Rows; row, zpos = row+1, zpos+z.Stride {
 			sum := float64(0)
+			zmax := M64.Inf(-1)
+			for col := 0; col < z.Cols; col++ {
+				if z.Data[zpos+col] > zmax {
+					zmax = z.Data[zpos+col]
+				}
+			}
 			for col := 0; col < z.Cols; col++ {
 
-				z.Data[zpos+col] = M64.Exp(z.Data[zpos+col])
+				z.Data[zpos+col] = M64.Exp(z.Data[zpos+col] - zmax)
 				sum += z.Data[zpos+col]
 			}
 			for col := 0; col < z.Cols; col++ {
-- 
2.43.0


From 102600fcd27f1b8bf88b77401b98531c4a75084c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:55:28 +0000
Subject: [PATCH 128/177] fix: MLP backpropagation handles targets whose stride
 is not their width

---
 neural_network/basemlp32.go | 6 +++---
 neural_network/basemlp64.go | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/neural_network/basemlp32.go b/neural_network/basemlp32.go
index 6326df5..170e3fa 100644
--- a/neural_network/basemlp32.go
+++ b/neural_network/basemlp32.go
@@ -380,9 +380,9 @@ func (mlp *BaseMultilayerPerceptron32) backprop(X, y blas32General, activations,
 	{
 		H := activations[len(activations)-1]
 		D := deltas[last]
-		for r, pos := 0, 0; r < y.Rows; r, pos = r+1, pos+y.Stride {
-			for o, posc := 0, pos; o < y.Cols; o, posc = o+1, posc+1 {
-				D.Data[posc] = H.Data[posc] - y.Data[posc]
+		for r, ypos, hpos, dpos := 0, 0, 0, 0; r < y.Rows; r, ypos, hpos, dpos = r+1, ypos+y.Stride, hpos+H.Stride, dpos+D.Stride {
+			for o := 0; o < y.Cols; o++ {
+				D.Data[dpos+o] = H.Data[hpos+o] - y.Data[ypos+o]
 			}
 		}
 	}
diff --git a/neural_network/basemlp64.go b/neural_network/basemlp64.go
index a4a9717..76c20d5 100644
--- a/neural_network/basemlp64.go
+++ b/neural_network/basemlp64.go
@@ -380,9 +380,9 @@ func (mlp *BaseMultilayerPerceptron64) backprop(X, y blas64General, activations,
 	{
 		H := activations[len(activations)-1]
 		D := deltas[last]
-		for r, pos := 0, 0; r < y.Rows; r, pos = r+1, pos+y.Stride {
-			for o, posc := 0, pos; o < y.Cols; o, posc = o+1, posc+1 {
-				D.Data[posc] = H.Data[posc] - y.Data[posc]
+		for r, ypos, hpos, dpos := 0, 0, 0, 0; r < y.Rows; r, ypos, hpos, dpos = r+1, ypos+y.Stride, hpos+H.Stride, dpos+D.Stride {
+			for o := 0; o < y.Cols; o++ {
+				D.Data[dpos+o] = H.Data[hpos+o] - y.Data[ypos+o]
 			}
 		}
 	}
-- 
2.43.0


From 051c1fb6a43886db940b8cf578786c85d300b216 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:55:28 +0000
Subject: [PATCH 129/177] fix: the loss of an MLP epoch is averaged over the
 training rows

---
 neural_network/basemlp32.go | 4 ++--
 neural_network/basemlp64.go | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/neural_network/basemlp32.go b/neural_network/basemlp32.go
index 170e3fa..170db44 100644
--- a/neural_network/basemlp32.go
+++ b/neural_network/basemlp32.go
@@ -815,9 +815,9 @@ func (mlp *BaseMultilayerPerceptron32) fitStochastic(X, y blas32General, activat
 				mlp.optimizer.updateParams(packedGrads)
 			}
 			mlp.NIter++
-			mlp.Loss = accumulatedLoss / float32(nSamples)
+			mlp.Loss = accumulatedLoss / float32(nSamples-testSize)
 
-			mlp.t += nSamples
+			mlp.t += nSamples - testSize
 			mlp.LossCurve = append(mlp.LossCurve, mlp.Loss)
 			if mlp.Verbose {
 				fmt.Printf("Iteration %d, loss = %.8f\n", mlp.NIter, mlp.Loss)
diff --git a/neural_network/basemlp64.go b/neural_network/basemlp64.go
index 76c20d5..2e6f19e 100644
--- a/neural_network/basemlp64.go
+++ b/neural_network/basemlp64.go
@@ -815,9 +815,9 @@ func (mlp *BaseMultilayerPerceptron64) fitStochastic(X, y blas64General, activat
 				mlp.optimizer.updateParams(packedGrads)
 			}
 			mlp.NIter++
-			mlp.Loss = accumulatedLoss / float64(nSamples)
+			mlp.Loss = accumulatedLoss / float64(nSamples-testSize)
 
-			mlp.t += nSamples
+			mlp.t += nSamples - testSize
 			mlp.LossCurve = append(mlp.LossCurve, mlp.Loss)
 			if mlp.Verbose {
 				fmt.Printf("Iteration %d, loss = %.8f\n", mlp.NIter, mlp.Loss)
-- 
2.43.0


From 25e8f85d9c0ca2c794ca291d45cdf1699f51a1c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:55:29 +0000
Subject: [PATCH 130/177] fix: refitting an MLP starts from fresh stopping
 criteria and loss curve

---
 neural_network/basemlp32.go | 4 ++++
 neural_network/basemlp64.go | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/neural_network/basemlp32.go b/neural_network/basemlp32.go
index 170db44..b886e2f 100644
--- a/neural_network/basemlp32.go
+++ b/neural_network/basemlp32.go
@@ -486,6 +486,10 @@ func (mlp *BaseMultilayerPerceptron32) initialize(yCols int, layerUnits []int, i
 	}
 
 	mlp.BestLoss = M32.Inf(1)
+	mlp.BestValidationScore = M32.Inf(-1)
+	mlp.NoImprovementCount = 0
+	mlp.LossCurve = nil
+	mlp.ValidationScores = nil
 }
 
 func (mlp *BaseMultilayerPerceptron32) fit(X, y blas32General, incremental bool) {
diff --git a/neural_network/basemlp64.go b/neural_network/basemlp64.go
index 2e6f19e..95acd19 100644
--- a/neural_network/basemlp64.go
+++ b/neural_network/basemlp64.go
@@ -486,6 +486,10 @@ func (mlp *BaseMultilayerPerceptron64) initialize(yCols int, layerUnits []int, i
 	}
 
 	mlp.BestLoss = M64.Inf(1)
+	mlp.BestValidationScore = M64.Inf(-1)
+	mlp.NoImprovementCount = 0
+	mlp.LossCurve = nil
+	mlp.ValidationScores = nil
 }
 
 func (mlp *BaseMultilayerPerceptron64) fit(X, y blas64General, incremental bool) {
-- 
2.43.0


From e30f1d89e9bfe366917412420b1c24f04b34c053 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:55:29 +0000
Subject: [PATCH 131/177] fix: early stopping of MLPs never trains on the
 validation rows

---
 neural_network/basemlp32.go | 2 +-
 neural_network/basemlp64.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/neural_network/basemlp32.go b/neural_network/basemlp32.go
index b886e2f..6ac87ac 100644
--- a/neural_network/basemlp32.go
+++ b/neural_network/basemlp32.go
@@ -795,7 +795,7 @@ func (mlp *BaseMultilayerPerceptron32) fitStochastic(X, y blas32General, activat
 		}
 		for it := 0; it < mlp.MaxIter; it++ {
 			if mlp.Shuffle {
-				rndShuffle(nSamples, indexedXY{idx: sort.IntSlice(idx), X: general32FastSwap(X), Y: general32FastSwap(y)}.Swap)
+				rndShuffle(nSamples-testSize, indexedXY{idx: sort.IntSlice(idx), X: general32FastSwap(X), Y: general32FastSwap(y)}.Swap)
 			}
 			accumulatedLoss := float32(0.0)
 			for batch := [2]int{0, batchSize}; batch[0] < nSamples-testSize; batch = [2]int{batch[1], batch[1] + batchSize} {
diff --git a/neural_network/basemlp64.go b/neural_network/basemlp64.go
index 95acd19..83fc74c 100644
--- a/neural_network/basemlp64.go
+++ b/neural_network/basemlp64.go
@@ -795,7 +795,7 @@ func (mlp *BaseMultilayerPerceptron64) fitStochastic(X, y blas64General, activat
 		}
 		for it := 0; it < mlp.MaxIter; it++ {
 			if mlp.Shuffle {
-				rndShuffle(nSamples, indexedXY{idx: sort.IntSlice(idx), X: general64FastSwap(X), Y: general64FastSwap(y)}.Swap)
+				rndShuffle(nSamples-testSize, indexedXY{idx: sort.IntSlice(idx), X: general64FastSwap(X), Y: general64FastSwap(y)}.Swap)
 			}
 			accumulatedLoss := float64(0.0)
 			for batch := [2]int{0, batchSize}; batch[0] < nSamples-testSize; batch = [2]int{batch[1], batch[1] + batchSize} {
-- 
2.43.0


From 8b46b58fc76cf687cd2b80f2d0a3c83d0b2d7272 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:55:29 +0000
Subject: [PATCH 132/177] fix: early stopping of MLPs scores binarized
 validation targets

---
 neural_network/basemlp32.go | 3 ++-
 neural_network/basemlp64.go | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/neural_network/basemlp32.go b/neural_network/basemlp32.go
index 6ac87ac..a5846cb 100644
--- a/neural_network/basemlp32.go
+++ b/neural_network/basemlp32.go
@@ -944,8 +944,9 @@ func (mlp *BaseMultilayerPerceptron32) predict(X, Y blas32General) {
 
 func (mlp *BaseMultilayerPerceptron32) score(X, Y blas32General) float32 {
 	H := blas32General{Rows: Y.Rows, Cols: Y.Cols, Stride: Y.Stride, Data: make([]float32, len(Y.Data))}
-	mlp.predict(X, H)
+	mlp.predictProbas(X, H)
 	if mlp.LossFuncName != "square_loss" {
+		toLogits32(H)
 		// accuracy
 		return accuracyScore32(Y, H)
 	}
diff --git a/neural_network/basemlp64.go b/neural_network/basemlp64.go
index 83fc74c..ba1ad03 100644
--- a/neural_network/basemlp64.go
+++ b/neural_network/basemlp64.go
@@ -944,8 +944,9 @@ func (mlp *BaseMultilayerPerceptron64) predict(X, Y blas64General) {
 
 func (mlp *BaseMultilayerPerceptron64) score(X, Y blas64General) float64 {
 	H := blas64General{Rows: Y.Rows, Cols: Y.Cols, Stride: Y.Stride, Data: make([]float64, len(Y.Data))}
-	mlp.predict(X, H)
+	mlp.predictProbas(X, H)
 	if mlp.LossFuncName != "square_loss" {
+		toLogits64(H)
 		// accuracy
 		return accuracyScore64(Y, H)
 	}
-- 
2.43.0


From 01084aa383fa8e39131d5020ba023605097e8a54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:55:30 +0000
Subject: [PATCH 133/177] fix: the R2 score of MLPs handles targets whose
 stride is not their width

---
 neural_network/basemlp32.go | 4 ++--
 neural_network/basemlp64.go | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/neural_network/basemlp32.go b/neural_network/basemlp32.go
index a5846cb..6ceb744 100644
--- a/neural_network/basemlp32.go
+++ b/neural_network/basemlp32.go
@@ -1117,8 +1117,8 @@ func r2Score32(yTrue, yPred blas32General) float32 {
 		yTrueAvg /= float32(yTrue.Rows)
 		// yDen = YTrue-YTrueAvg
 
-		for r, ypos := 0, 0; r < yTrue.Rows; r, ypos = r+1, ypos+yTrue.Stride {
-			t := yPred.Data[ypos+c] - yTrue.Data[ypos+c]
+		for r, ypos, ppos := 0, 0, 0; r < yTrue.Rows; r, ypos, ppos = r+1, ypos+yTrue.Stride, ppos+yPred.Stride {
+			t := yPred.Data[ppos+c] - yTrue.Data[ypos+c]
 			yNum += t * t
 			t = yTrue.Data[ypos+c] - yTrueAvg
 			yDen += t * t
diff --git a/neural_network/basemlp64.go b/neural_network/basemlp64.go
index ba1ad03..696b776 100644
--- a/neural_network/basemlp64.go
+++ b/neural_network/basemlp64.go
@@ -1117,8 +1117,8 @@ func r2Score64(yTrue, yPred blas64General) float64 {
 		yTrueAvg /= float64(yTrue.Rows)
 		// yDen = YTrue-YTrueAvg
 
-		for r, ypos := 0, 0; r < yTrue.Rows; r, ypos = r+1, ypos+yTrue.Stride {
-			t := yPred.Data[ypos+c] - yTrue.Data[ypos+c]
+		for r, ypos, ppos := 0, 0, 0; r < yTrue.Rows; r, ypos, ppos = r+1, ypos+yTrue.Stride, ppos+yPred.Stride {
+			t := yPred.Data[ppos+c] - yTrue.Data[ypos+c]
 			yNum += t * t
 			t = yTrue.Data[ypos+c] - yTrueAvg
 			yDen += t * t
-- 
2.43.0


From 86c61a64d2e65bdfcec8663d9c70ab798d314366 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:55:30 +0000
Subject: [PATCH 134/177] fix: the R2 score of MLPs accepts constant targets

---
 neural_network/basemlp32.go | 6 +++++-
 neural_network/basemlp64.go | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/neural_network/basemlp32.go b/neural_network/basemlp32.go
index 6ceb744..87af53c 100644
--- a/neural_network/basemlp32.go
+++ b/neural_network/basemlp32.go
@@ -1124,7 +1124,11 @@ func r2Score32(yTrue, yPred blas32General) float32 {
 			yDen += t * t
 		}
 		if yDen == 0 {
-			panic("yDen=0")
+			// constant targets: 1 for perfect predictions, else 0
+			if yNum == 0 {
+				r2acc++
+			}
+			continue
 		}
 		r2 := 1 - yNum/yDen
 		r2acc += r2
diff --git a/neural_network/basemlp64.go b/neural_network/basemlp64.go
index 696b776..e22cd35 100644
--- a/neural_network/basemlp64.go
+++ b/neural_network/basemlp64.go
@@ -1124,7 +1124,11 @@ func r2Score64(yTrue, yPred blas64General) float64 {
 			yDen += t * t
 		}
 		if yDen == 0 {
-			panic("yDen=0")
+			// constant targets: 1 for perfect predictions, else 0
+			if yNum == 0 {
+				r2acc++
+			}
+			continue
 		}
 		r2 := 1 - yNum/yDen
 		r2acc += r2
-- 
2.43.0


From 765fe528996c55407bd53376ff1416630f8a83d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:55:30 +0000
Subject: [PATCH 135/177] fix: MLPRegressor fits a regression when all targets
 are 0 or 1

---
 neural_network/basemlp32.go             | 9 +--------
 neural_network/basemlp64.go             | 9 +--------
 neural_network/multilayer_perceptron.go | 1 +
 3 files changed, 3 insertions(+), 16 deletions(-)

diff --git a/neural_network/basemlp32.go b/neural_network/basemlp32.go
index 87af53c..ce49399 100644
--- a/neural_network/basemlp32.go
+++ b/neural_network/basemlp32.go
@@ -512,14 +512,7 @@ func (mlp *BaseMultilayerPerceptron32) fit(X, y blas32General, incremental bool)
 	}
 	if !mlp.WarmStart && !incremental {
 		//# First time training the model
-		var isClassifier, isMulticlass = true, y.Cols > 1
-		for _, yval := range y.Data {
-			if yval != 0 && yval != 1 {
-				isClassifier = false
-				break
-			}
-		}
-		mlp.initialize(y.Cols, layerUnits, isClassifier, isMulticlass)
+		mlp.initialize(y.Cols, layerUnits, mlp.IsClassifier(), y.Cols > 1)
 	}
 
 	//    # lbfgs does not support mini-batches
diff --git a/neural_network/basemlp64.go b/neural_network/basemlp64.go
index e22cd35..70d37d3 100644
--- a/neural_network/basemlp64.go
+++ b/neural_network/basemlp64.go
@@ -512,14 +512,7 @@ func (mlp *BaseMultilayerPerceptron64) fit(X, y blas64General, incremental bool)
 	}
 	if !mlp.WarmStart && !incremental {
 		//# First time training the model
-		var isClassifier, isMulticlass = true, y.Cols > 1
-		for _, yval := range y.Data {
-			if yval != 0 && yval != 1 {
-				isClassifier = false
-				break
-			}
-		}
-		mlp.initialize(y.Cols, layerUnits, isClassifier, isMulticlass)
+		mlp.initialize(y.Cols, layerUnits, mlp.IsClassifier(), y.Cols > 1)
 	}
 
 	//    # lbfgs does not support mini-batches
diff --git a/neural_network/multilayer_perceptron.go b/neural_network/multilayer_perceptron.go
index 436735f..558178b 100644
--- a/neural_network/multilayer_perceptron.go
+++ b/neural_network/multilayer_perceptron.go
@@ -45,6 +45,7 @@ func (mlp *MLPRegressor) PredicterClone() base.Predicter {
 // Fit ...
 func (mlp *MLPRegressor) Fit(Xmatrix, Ymatrix mat.Matrix) base.Fiter {
 	X, Y := base.ToDense(Xmatrix), base.ToDense(Ymatrix)
+	mlp.LossFuncName = "square_loss"
 	mlp.fit(X.RawMatrix(), Y.RawMatrix(), false)
 	return mlp
 }
-- 
2.43.0


From 74deb324a6843ee863d33fecd393dcbfcfaba1a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:55:31 +0000
Subject: [PATCH 136/177] fix: MLPRegressor.Fit shuffles a copy of the samples

---
 neural_network/multilayer_perceptron.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neural_network/multilayer_perceptron.go b/neural_network/multilayer_perceptron.go
index 558178b..4c71749 100644
--- a/neural_network/multilayer_perceptron.go
+++ b/neural_network/multilayer_perceptron.go
@@ -46,7 +46,7 @@ func (mlp *MLPRegressor) PredicterClone() base.Predicter {
 func (mlp *MLPRegressor) Fit(Xmatrix, Ymatrix mat.Matrix) base.Fiter {
 	X, Y := base.ToDense(Xmatrix), base.ToDense(Ymatrix)
 	mlp.LossFuncName = "square_loss"
-	mlp.fit(X.RawMatrix(), Y.RawMatrix(), false)
+	mlp.BaseMultilayerPerceptron64.Fit(X, Y)
 	return mlp
 }
 
-- 
2.43.0


From 8c65f61532f7673e59019a2720723a093b797f4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:55:31 +0000
Subject: [PATCH 137/177] fix: MLP Fit and Predict accept matrices of different
 kinds for X and Y

---
 neural_network/basemlp32.go | 16 ++++++++--------
 neural_network/basemlp64.go | 16 ++++++++--------
 2 files changed, 16 insertions(+), 16 deletions(-)

diff --git a/neural_network/basemlp32.go b/neural_network/basemlp32.go
index ce49399..0731036 100644
--- a/neural_network/basemlp32.go
+++ b/neural_network/basemlp32.go
@@ -581,10 +581,10 @@ func (mlp *BaseMultilayerPerceptron32) IsClassifier() bool {
 // Fit compute Coefs and Intercepts
 func (mlp *BaseMultilayerPerceptron32) Fit(X, Y Matrix) {
 	var xb, yb blas32.General
-	if xg, ok := X.(RawMatrixer32); ok && !mlp.Shuffle {
-		if yg, ok := Y.(RawMatrixer32); ok {
-			xb, yb = xg.RawMatrix(), yg.RawMatrix()
-		}
+	xg, xok := X.(RawMatrixer32)
+	yg, yok := Y.(RawMatrixer32)
+	if xok && yok && !mlp.Shuffle {
+		xb, yb = xg.RawMatrix(), yg.RawMatrix()
 	} else {
 		var tmp General32
 		tmp = General32(xb)
@@ -613,10 +613,10 @@ func (mlp *BaseMultilayerPerceptron32) GetNOutputs() int {
 // Predict do forward pass and fills Y (Y must be Mutable)
 func (mlp *BaseMultilayerPerceptron32) Predict(X mat.Matrix, Y Mutable) {
 	var xb, yb General32
-	if xg, ok := X.(RawMatrixer32); ok {
-		if yg, ok := Y.(RawMatrixer32); ok {
-			xb, yb = General32(xg.RawMatrix()), General32(yg.RawMatrix())
-		}
+	xg, xok := X.(RawMatrixer32)
+	yg, yok := Y.(RawMatrixer32)
+	if xok && yok {
+		xb, yb = General32(xg.RawMatrix()), General32(yg.RawMatrix())
 	} else {
 		xb.Copy(X)
 		yb.Copy(Y)
diff --git a/neural_network/basemlp64.go b/neural_network/basemlp64.go
index 70d37d3..8b732fe 100644
--- a/neural_network/basemlp64.go
+++ b/neural_network/basemlp64.go
@@ -581,10 +581,10 @@ func (mlp *BaseMultilayerPerceptron64) IsClassifier() bool {
 // Fit compute Coefs and Intercepts
 func (mlp *BaseMultilayerPerceptron64) Fit(X, Y Matrix) {
 	var xb, yb blas64.General
-	if xg, ok := X.(RawMatrixer64); ok && !mlp.Shuffle {
-		if yg, ok := Y.(RawMatrixer64); ok {
-			xb, yb = xg.RawMatrix(), yg.RawMatrix()
-		}
+	xg, xok := X.(RawMatrixer64)
+	yg, yok := Y.(RawMatrixer64)
+	if xok && yok && !mlp.Shuffle {
+		xb, yb = xg.RawMatrix(), yg.RawMatrix()
 	} else {
 		var tmp General64
 		tmp = General64(xb)
@@ -613,10 +613,10 @@ func (mlp *BaseMultilayerPerceptron64) GetNOutputs() int {
 // Predict do forward pass and fills Y (Y must be Mutable)
 func (mlp *BaseMultilayerPerceptron64) Predict(X mat.Matrix, Y Mutable) {
 	var xb, yb General64
-	if xg, ok := X.(RawMatrixer64); ok {
-		if yg, ok := Y.(RawMatrixer64); ok {
-			xb, yb = General64(xg.RawMatrix()), General64(yg.RawMatrix())
-		}
+	xg, xok := X.(RawMatrixer64)
+	yg, yok := Y.(RawMatrixer64)
+	if xok && yok {
+		xb, yb = General64(xg.RawMatrix()), General64(yg.RawMatrix())
 	} else {
 		xb.Copy(X)
 		yb.Copy(Y)
-- 
2.43.0


From 35654e734b8e49ec00aa262f87704685ce0abcb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:55:31 +0000
Subject: [PATCH 138/177] fix: refitting an MLP on binarized targets forgets
 the previous classes

---
 neural_network/basemlp32.go | 1 +
 neural_network/basemlp64.go | 1 +
 2 files changed, 2 insertions(+)

diff --git a/neural_network/basemlp32.go b/neural_network/basemlp32.go
index 0731036..45082ff 100644
--- a/neural_network/basemlp32.go
+++ b/neural_network/basemlp32.go
@@ -594,6 +594,7 @@ func (mlp *BaseMultilayerPerceptron32) Fit(X, Y Matrix) {
 		tmp.Copy(Y)
 		yb = tmp.RawMatrix()
 	}
+	mlp.lb = nil
 	if mlp.IsClassifier() && !isBinarized32(yb) {
 		mlp.lb = NewLabelBinarizer32(0, 1)
 		xbin, ybin := mlp.lb.FitTransform(General32(xb), General32(yb))
diff --git a/neural_network/basemlp64.go b/neural_network/basemlp64.go
index 8b732fe..c3e1361 100644
--- a/neural_network/basemlp64.go
+++ b/neural_network/basemlp64.go
@@ -594,6 +594,7 @@ func (mlp *BaseMultilayerPerceptron64) Fit(X, Y Matrix) {
 		tmp.Copy(Y)
 		yb = tmp.RawMatrix()
 	}
+	mlp.lb = nil
 	if mlp.IsClassifier() && !isBinarized64(yb) {
 		mlp.lb = NewLabelBinarizer64(0, 1)
 		xbin, ybin := mlp.lb.FitTransform(General64(xb), General64(yb))
-- 
2.43.0


From 52550bc8482cfc9fb7c2102e77118cefc618aff6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:55:32 +0000
Subject: [PATCH 139/177] fix: the LabelBinarizer of neural_network fills the
 other classes with NegLabel

---
 neural_network/basemlp32.go | 5 +++--
 neural_network/basemlp64.go | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/neural_network/basemlp32.go b/neural_network/basemlp32.go
index 45082ff..9a0731e 100644
--- a/neural_network/basemlp32.go
+++ b/neural_network/basemlp32.go
@@ -1329,10 +1329,11 @@ func (m *LabelBinarizer32) Transform(X, Y mat.Matrix) (Xout, Yout General32) {
 		}
 		for i, yi, yo0 := 0, 0, 0; i < y.Rows; i, yi, yo0 = i+1, yi+y.Stride, yo0+yo.Stride {
 			val := y.Data[yi+j]
+			for classNo := range m.Classes[j] {
+				yo.Data[yo0+baseCol+classNo] = m.NegLabel
+			}
 			if classNo, ok := cmap[val]; ok {
 				yo.Data[yo0+baseCol+classNo] = m.PosLabel
-			} else {
-				yo.Data[yo0+baseCol+classNo] = m.NegLabel
 			}
 		}
 		baseCol += len(m.Classes[j])
diff --git a/neural_network/basemlp64.go b/neural_network/basemlp64.go
index c3e1361..b851710 100644
--- a/neural_network/basemlp64.go
+++ b/neural_network/basemlp64.go
@@ -1329,10 +1329,11 @@ func (m *LabelBinarizer64) Transform(X, Y mat.Matrix) (Xout, Yout General64) {
 		}
 		for i, yi, yo0 := 0, 0, 0; i < y.Rows; i, yi, yo0 = i+1, yi+y.Stride, yo0+yo.Stride {
 			val := y.Data[yi+j]
+			for classNo := range m.Classes[j] {
+				yo.Data[yo0+baseCol+classNo] = m.NegLabel
+			}
 			if classNo, ok := cmap[val]; ok {
 				yo.Data[yo0+baseCol+classNo] = m.PosLabel
-			} else {
-				yo.Data[yo0+baseCol+classNo] = m.NegLabel
 			}
 		}
 		baseCol += len(m.Classes[j])
-- 
2.43.0


From eb92487bc6450e3c1927706607a53768a1ebec10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:55:32 +0000
Subject: [PATCH 140/177] fix: the LabelBinarizer of neural_network inverts
 several columns

---
 neural_network/basemlp32.go | 1 -
 neural_network/basemlp64.go | 1 -
 2 files changed, 2 deletions(-)

diff --git a/neural_network/basemlp32.go b/neural_network/basemlp32.go
index 9a0731e..25fdcd1 100644
--- a/neural_network/basemlp32.go
+++ b/neural_network/basemlp32.go
@@ -1361,7 +1361,6 @@ func (m *LabelBinarizer32) InverseTransform(X, Y General32) (Xout, Yout General3
 
 			yo.Data[yo0+j] = m.Classes[j][classNo]
 		}
-		baseCol += len(m.Classes[j])
 	}
 	return
 }
diff --git a/neural_network/basemlp64.go b/neural_network/basemlp64.go
index b851710..fc473c0 100644
--- a/neural_network/basemlp64.go
+++ b/neural_network/basemlp64.go
@@ -1361,7 +1361,6 @@ func (m *LabelBinarizer64) InverseTransform(X, Y General64) (Xout, Yout General6
 
 			yo.Data[yo0+j] = m.Classes[j][classNo]
 		}
-		baseCol += len(m.Classes[j])
 	}
 	return
 }
-- 
2.43.0


From ca6239d79e662447e434f997039e77fc96adc68d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:55:32 +0000
Subject: [PATCH 141/177] fix: RowSlice of General matrices stays inside
 windows of larger matrices

---
 neural_network/general.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/neural_network/general.go b/neural_network/general.go
index 849345d..812dcfb 100644
--- a/neural_network/general.go
+++ b/neural_network/general.go
@@ -240,13 +240,19 @@ func (mat General64) Slice(i, j, k, l int) Matrix {
 // RowSlice provides view on submatrix(startRow,endRow) as General32
 // returned matrix can be casted to *General32
 func (mat General32) RowSlice(i, j int) General32 {
-	return General32{Rows: j - i, Cols: mat.Cols, Stride: mat.Stride, Data: mat.Data[i*mat.Stride : j*mat.Stride]}
+	if j <= i {
+		return General32{Cols: mat.Cols, Stride: mat.Stride}
+	}
+	return General32{Rows: j - i, Cols: mat.Cols, Stride: mat.Stride, Data: mat.Data[i*mat.Stride : (j-1)*mat.Stride+mat.Cols]}
 }
 
 // RowSlice provides view on submatrix(startRow,endRow) as General64
 // returned matrix can be casted to *General64
 func (mat General64) RowSlice(i, j int) General64 {
-	return General64{Rows: j - i, Cols: mat.Cols, Stride: mat.Stride, Data: mat.Data[i*mat.Stride : j*mat.Stride]}
+	if j <= i {
+		return General64{Cols: mat.Cols, Stride: mat.Stride}
+	}
+	return General64{Rows: j - i, Cols: mat.Cols, Stride: mat.Stride, Data: mat.Data[i*mat.Stride : (j-1)*mat.Stride+mat.Cols]}
 }
 
 // Copy fills receiver with input matrix
-- 
2.43.0


From 15f3fa2d0964c339cfa169b3096c8e8fd0464d3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:55:33 +0000
Subject: [PATCH 142/177] fix: Copy of General matrices takes the stride of the
 source into account

---
 neural_network/general.go | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/neural_network/general.go b/neural_network/general.go
index 812dcfb..e56d371 100644
--- a/neural_network/general.go
+++ b/neural_network/general.go
@@ -264,9 +264,7 @@ func (mat *General32) Copy(a Matrix) {
 	} else {
 		*mat = General32{Rows: rows, Cols: cols, Stride: cols, Data: mat.Data[:size]}
 	}
-	if g, ok := a.(*General32); ok {
-		copy(mat.Data, g.Data)
-	} else if g, ok := a.(RawMatrixer32); ok && mat.Stride == g.RawMatrix().Stride {
+	if g, ok := a.(RawMatrixer32); ok && mat.Stride == g.RawMatrix().Stride {
 		copy(mat.Data, g.RawMatrix().Data)
 	} else if rrv, ok := a.(RawRowViewer32); ok {
 		for r, rowpos := 0, 0; r < rows; r, rowpos = r+1, rowpos+mat.Stride {
@@ -290,9 +288,7 @@ func (mat *General64) Copy(a Matrix) {
 	} else {
 		*mat = General64{Rows: rows, Cols: cols, Stride: cols, Data: mat.Data[:size]}
 	}
-	if g, ok := a.(General64); ok {
-		copy(mat.Data, g.Data)
-	} else if g, ok := a.(RawMatrixer64); ok && mat.Stride == g.RawMatrix().Stride {
+	if g, ok := a.(RawMatrixer64); ok && mat.Stride == g.RawMatrix().Stride {
 		copy(mat.Data, g.RawMatrix().Data)
 	} else if rrv, ok := a.(RawRowViewer64); ok {
 		for r, rowpos := 0, 0; r < rows; r, rowpos = r+1, rowpos+mat.Stride {
-- 
2.43.0


From 8dc4af0f3a232f470e406d73232a2ef64bfbd264 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:55:33 +0000
Subject: [PATCH 143/177] fix: SumRows of General matrices sums the rows

---
 neural_network/general.go | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/neural_network/general.go b/neural_network/general.go
index e56d371..288957e 100644
--- a/neural_network/general.go
+++ b/neural_network/general.go
@@ -305,18 +305,24 @@ func (mat *General64) Copy(a Matrix) {
 
 // SumRows sums rows of a into mat
 func (mat *General32) SumRows(a General32) {
-	for i, mpos, apos := 0, 0, 0; i < a.Rows; i, mpos, apos = i+1, mpos+mat.Stride, apos+a.Stride {
+	for c := 0; c < a.Cols; c++ {
+		mat.Data[c] = 0
+	}
+	for i, apos := 0, 0; i < a.Rows; i, apos = i+1, apos+a.Stride {
 		for c := 0; c < a.Cols; c++ {
-			mat.Data[c] = a.Data[apos+c]
+			mat.Data[c] += a.Data[apos+c]
 		}
 	}
 }
 
 // SumRows sums rows of a into mat
 func (mat *General64) SumRows(a General64) {
-	for i, mpos, apos := 0, 0, 0; i < a.Rows; i, mpos, apos = i+1, mpos+mat.Stride, apos+a.Stride {
+	for c := 0; c < a.Cols; c++ {
+		mat.Data[c] = 0
+	}
+	for i, apos := 0, 0; i < a.Rows; i, apos = i+1, apos+a.Stride {
 		for c := 0; c < a.Cols; c++ {
-			mat.Data[c] = a.Data[apos+c]
+			mat.Data[c] += a.Data[apos+c]
 		}
 	}
 }
-- 
2.43.0


From f8ae888017b07ae4bc88e3deba0b181b3e9b7391 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:56:18 +0000
Subject: [PATCH 144/177] fix: MLP class predictions respect the stride of the
 destination

---
 neural_network/basemlp32.go | 4 +---
 neural_network/basemlp64.go | 4 +---
 2 files changed, 2 insertions(+), 6 deletions(-)

diff --git a/neural_network/basemlp32.go b/neural_network/basemlp32.go
index 25fdcd1..40b6e9a 100644
--- a/neural_network/basemlp32.go
+++ b/neural_network/basemlp32.go
@@ -928,9 +928,7 @@ func (mlp *BaseMultilayerPerceptron32) predict(X, Y blas32General) {
 	mlp.predictProbas(X, ybin.RawMatrix())
 	if mlp.lb != nil {
 		_, Yclasses := mlp.lb.InverseTransform(General32(X), ybin)
-		var tmp = General32(Y)
-		tmp.Copy(Yclasses)
-		Y = tmp.RawMatrix()
+		FromDense32(General32(Y), Yclasses)
 	} else if mlp.IsClassifier() {
 		toLogits32(Y)
 	}
diff --git a/neural_network/basemlp64.go b/neural_network/basemlp64.go
index fc473c0..627abe5 100644
--- a/neural_network/basemlp64.go
+++ b/neural_network/basemlp64.go
@@ -928,9 +928,7 @@ func (mlp *BaseMultilayerPerceptron64) predict(X, Y blas64General) {
 	mlp.predictProbas(X, ybin.RawMatrix())
 	if mlp.lb != nil {
 		_, Yclasses := mlp.lb.InverseTransform(General64(X), ybin)
-		var tmp = General64(Y)
-		tmp.Copy(Yclasses)
-		Y = tmp.RawMatrix()
+		FromDense64(General64(Y), Yclasses)
 	} else if mlp.IsClassifier() {
 		toLogits64(Y)
 	}
-- 
2.43.0


From 7faca8f234c995e44ff7d6cd9716536dda0cf417 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:56:18 +0000
Subject: [PATCH 145/177] fix: fitting an MLP leaves its BatchSize parameter
 unchanged

---
 neural_network/basemlp32.go | 25 +++++++++++++------------
 neural_network/basemlp64.go | 25 +++++++++++++------------
 2 files changed, 26 insertions(+), 24 deletions(-)

diff --git a/neural_network/basemlp32.go b/neural_network/basemlp32.go
index 40b6e9a..5265c49 100644
--- a/neural_network/basemlp32.go
+++ b/neural_network/basemlp32.go
@@ -516,17 +516,18 @@ func (mlp *BaseMultilayerPerceptron32) fit(X, y blas32General, incremental bool)
 	}
 
 	//    # lbfgs does not support mini-batches
+	batchSize := mlp.BatchSize
 	if strings.EqualFold(mlp.Solver, "lbfgs") {
-		mlp.BatchSize = nSamples
-	} else if mlp.BatchSize <= 0 {
-		mlp.BatchSize = nSamples
-		if mlp.BatchSize > 200 {
-			mlp.BatchSize = 200
+		batchSize = nSamples
+	} else if batchSize <= 0 {
+		batchSize = nSamples
+		if batchSize > 200 {
+			batchSize = 200
 		}
 	} else {
-		if mlp.BatchSize > nSamples {
+		if batchSize > nSamples {
 			log.Printf("Got batchsize larger than sample size.  It is going to be clipped.\n")
-			mlp.BatchSize = nSamples
+			batchSize = nSamples
 		}
 	}
 	// # Initialize lists
@@ -536,16 +537,16 @@ func (mlp *BaseMultilayerPerceptron32) fit(X, y blas32General, incremental bool)
 	// compute size of activations and deltas
 	off := 0
 	for _, nFanOut := range layerUnits[1:] {
-		size := mlp.BatchSize * nFanOut
+		size := batchSize * nFanOut
 		off += size + size
 	}
 	mem := make([]float32, off)
 	off = 0
 	for _, nFanOut := range layerUnits[1:] {
-		size := mlp.BatchSize * nFanOut
-		activations = append(activations, blas32General{Rows: mlp.BatchSize, Cols: nFanOut, Stride: nFanOut, Data: mem[off : off+size]})
+		size := batchSize * nFanOut
+		activations = append(activations, blas32General{Rows: batchSize, Cols: nFanOut, Stride: nFanOut, Data: mem[off : off+size]})
 		off += size
-		deltas = append(deltas, blas32General{Rows: mlp.BatchSize, Cols: nFanOut, Stride: nFanOut, Data: mem[off : off+size]})
+		deltas = append(deltas, blas32General{Rows: batchSize, Cols: nFanOut, Stride: nFanOut, Data: mem[off : off+size]})
 		off += size
 	}
 
@@ -767,7 +768,7 @@ func (mlp *BaseMultilayerPerceptron32) fitStochastic(X, y blas32General, activat
 		// if isClassifier(self):
 		// 	yVal = self.LabelBinarizer32.inverseTransform(yVal)
 	}
-	batchSize := mlp.BatchSize
+	batchSize := activations[len(activations)-1].Rows
 	idx := make([]int, nSamples)
 	for i := range idx {
 		idx[i] = i
diff --git a/neural_network/basemlp64.go b/neural_network/basemlp64.go
index 627abe5..a6a0a28 100644
--- a/neural_network/basemlp64.go
+++ b/neural_network/basemlp64.go
@@ -516,17 +516,18 @@ func (mlp *BaseMultilayerPerceptron64) fit(X, y blas64General, incremental bool)
 	}
 
 	//    # lbfgs does not support mini-batches
+	batchSize := mlp.BatchSize
 	if strings.EqualFold(mlp.Solver, "lbfgs") {
-		mlp.BatchSize = nSamples
-	} else if mlp.BatchSize <= 0 {
-		mlp.BatchSize = nSamples
-		if mlp.BatchSize > 200 {
-			mlp.BatchSize = 200
+		batchSize = nSamples
+	} else if batchSize <= 0 {
+		batchSize = nSamples
+		if batchSize > 200 {
+			batchSize = 200
 		}
 	} else {
-		if mlp.BatchSize > nSamples {
+		if batchSize > nSamples {
 			log.Printf("Got batchsize larger than sample size.  It is going to be clipped.\n")
-			mlp.BatchSize = nSamples
+			batchSize = nSamples
 		}
 	}
 	// # Initialize lists
@@ -536,16 +537,16 @@ func (mlp *BaseMultilayerPerceptron64) fit(X, y blas64General, incremental bool)
 	// compute size of activations and deltas
 	off := 0
 	for _, nFanOut := range layerUnits[1:] {
-		size := mlp.BatchSize * nFanOut
+		size := batchSize * nFanOut
 		off += size + size
 	}
 	mem := make([]float64, off)
 	off = 0
 	for _, nFanOut := range layerUnits[1:] {
-		size := mlp.BatchSize * nFanOut
-		activations = append(activations, blas64General{Rows: mlp.BatchSize, Cols: nFanOut, Stride: nFanOut, Data: mem[off : off+size]})
+		size := batchSize * nFanOut
+		activations = append(activations, blas64General{Rows: batchSize, Cols: nFanOut, Stride: nFanOut, Data: mem[off : off+size]})
 		off += size
-		deltas = append(deltas, blas64General{Rows: mlp.BatchSize, Cols: nFanOut, Stride: nFanOut, Data: mem[off : off+size]})
+		deltas = append(deltas, blas64General{Rows: batchSize, Cols: nFanOut, Stride: nFanOut, Data: mem[off : off+size]})
 		off += size
 	}
 
@@ -767,7 +768,7 @@ func (mlp *BaseMultilayerPerceptron64) fitStochastic(X, y blas64General, activat
 		// if isClassifier(self):
 		// 	yVal = self.LabelBinarizer64.inverseTransform(yVal)
 	}
-	batchSize := mlp.BatchSize
+	batchSize := activations[len(activations)-1].Rows
 	idx := make([]int, nSamples)
 	for i := range idx {
 		idx[i] = i
-- 
2.43.0


From cc416f56faf702393e480449becd610559a5fbfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:56:19 +0000
Subject: [PATCH 146/177] fix: the first fit of an MLP with WarmStart
 initializes it

---
 neural_network/basemlp32.go | 2 +-
 neural_network/basemlp64.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/neural_network/basemlp32.go b/neural_network/basemlp32.go
index 5265c49..dfaf5c8 100644
--- a/neural_network/basemlp32.go
+++ b/neural_network/basemlp32.go
@@ -510,7 +510,7 @@ func (mlp *BaseMultilayerPerceptron32) fit(X, y blas32General, incremental bool)
 	if mlp.RandomState == nil {
 		mlp.RandomState = rand.New(base.NewLockedSource(uint64(time.Now().UnixNano())))
 	}
-	if !mlp.WarmStart && !incremental {
+	if mlp.Coefs == nil || !mlp.WarmStart && !incremental {
 		//# First time training the model
 		mlp.initialize(y.Cols, layerUnits, mlp.IsClassifier(), y.Cols > 1)
 	}
diff --git a/neural_network/basemlp64.go b/neural_network/basemlp64.go
index a6a0a28..bcf9e6f 100644
--- a/neural_network/basemlp64.go
+++ b/neural_network/basemlp64.go
@@ -510,7 +510,7 @@ func (mlp *BaseMultilayerPerceptron64) fit(X, y blas64General, incremental bool)
 	if mlp.RandomState == nil {
 		mlp.RandomState = rand.New(base.NewLockedSource(uint64(time.Now().UnixNano())))
 	}
-	if !mlp.WarmStart && !incremental {
+	if mlp.Coefs == nil || !mlp.WarmStart && !incremental {
 		//# First time training the model
 		mlp.initialize(y.Cols, layerUnits, mlp.IsClassifier(), y.Cols > 1)
 	}
-- 
2.43.0


From 1e08383a5df25325df59d2f3e1bda34a39582cb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:56:19 +0000
Subject: [PATCH 147/177] fix: MLP batch normalization does not divide by zero
 for inactive units

---
 neural_network/basemlp32.go | 4 +++-
 neural_network/basemlp64.go | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/neural_network/basemlp32.go b/neural_network/basemlp32.go
index dfaf5c8..ceb055f 100644
--- a/neural_network/basemlp32.go
+++ b/neural_network/basemlp32.go
@@ -309,7 +309,9 @@ func (mlp *BaseMultilayerPerceptron32) batchNormalize(activations []blas32Genera
 func (mlp *BaseMultilayerPerceptron32) batchNormalizeDeltas(deltas blas32General, batchNorm []float32) {
 	for r, rpos := 0, 0; r < deltas.Rows; r, rpos = r+1, rpos+deltas.Stride {
 		for o := 0; o < deltas.Cols; o++ {
-			deltas.Data[rpos+o] /= batchNorm[o]
+			if batchNorm[o] > 0 {
+				deltas.Data[rpos+o] /= batchNorm[o]
+			}
 		}
 	}
 }
diff --git a/neural_network/basemlp64.go b/neural_network/basemlp64.go
index bcf9e6f..9ab6926 100644
--- a/neural_network/basemlp64.go
+++ b/neural_network/basemlp64.go
@@ -309,7 +309,9 @@ func (mlp *BaseMultilayerPerceptron64) batchNormalize(activations []blas64Genera
 func (mlp *BaseMultilayerPerceptron64) batchNormalizeDeltas(deltas blas64General, batchNorm []float64) {
 	for r, rpos := 0, 0; r < deltas.Rows; r, rpos = r+1, rpos+deltas.Stride {
 		for o := 0; o < deltas.Cols; o++ {
-			deltas.Data[rpos+o] /= batchNorm[o]
+			if batchNorm[o] > 0 {
+				deltas.Data[rpos+o] /= batchNorm[o]
+			}
 		}
 	}
 }
-- 
2.43.0


From 2977ea71c901201fa9de1ae3cfb1bbbf715b262a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:56:19 +0000
Subject: [PATCH 148/177] fix: the lbfgs solver of MLPs keeps the minimum it
 found

---
 neural_network/basemlp32.go | 5 +++++
 neural_network/basemlp64.go | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/neural_network/basemlp32.go b/neural_network/basemlp32.go
index ceb055f..ab45d16 100644
--- a/neural_network/basemlp32.go
+++ b/neural_network/basemlp32.go
@@ -729,6 +729,11 @@ func (mlp *BaseMultilayerPerceptron32) fitLbfgs(X, y blas32General, activations,
 	if err != nil {
 		log.Panic(err)
 	}
+	// the last evaluation is not always the best one
+	for i := range res.X {
+		mlp.packedParameters[i] = float32(res.X[i])
+	}
+	mlp.Loss = float32(res.F)
 	if res.Status != optimize.GradientThreshold && res.Status != optimize.FunctionConvergence {
 		log.Printf("lbfgs optimizer: Maximum iterations (%d) reached and the optimization hasn't converged yet.\n", mlp.MaxIter)
 	}
diff --git a/neural_network/basemlp64.go b/neural_network/basemlp64.go
index 9ab6926..c9096ad 100644
--- a/neural_network/basemlp64.go
+++ b/neural_network/basemlp64.go
@@ -729,6 +729,11 @@ func (mlp *BaseMultilayerPerceptron64) fitLbfgs(X, y blas64General, activations,
 	if err != nil {
 		log.Panic(err)
 	}
+	// the last evaluation is not always the best one
+	for i := range res.X {
+		mlp.packedParameters[i] = float64(res.X[i])
+	}
+	mlp.Loss = float64(res.F)
 	if res.Status != optimize.GradientThreshold && res.Status != optimize.FunctionConvergence {
 		log.Printf("lbfgs optimizer: Maximum iterations (%d) reached and the optimization hasn't converged yet.\n", mlp.MaxIter)
 	}
-- 
2.43.0


From d8af76b4b4205c5833c45ba4a7d73085090ddec2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:56:33 +0000
Subject: [PATCH 149/177] fix: Unmarshal of an MLP restores the hidden layer
 sizes

---
 neural_network/basemlp32.go | 3 +++
 neural_network/basemlp64.go | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/neural_network/basemlp32.go b/neural_network/basemlp32.go
index ab45d16..dc51db9 100644
--- a/neural_network/basemlp32.go
+++ b/neural_network/basemlp32.go
@@ -1199,6 +1199,9 @@ func (mlp *BaseMultilayerPerceptron32) Unmarshal(buf []byte) error {
 			}
 			mlp.NLayers = len(b64coefs) + 1
 			mlp.HiddenLayerSizes = make([]int, mlp.NLayers-2)
+			for il := range mlp.HiddenLayerSizes {
+				mlp.HiddenLayerSizes[il] = b64coefs[il].Cols
+			}
 
 			NInputs := b64coefs[0].Rows
 			mlp.NOutputs = b64coefs[len(b64coefs)-1].Cols
diff --git a/neural_network/basemlp64.go b/neural_network/basemlp64.go
index c9096ad..74f007a 100644
--- a/neural_network/basemlp64.go
+++ b/neural_network/basemlp64.go
@@ -1199,6 +1199,9 @@ func (mlp *BaseMultilayerPerceptron64) Unmarshal(buf []byte) error {
 			}
 			mlp.NLayers = len(b64coefs) + 1
 			mlp.HiddenLayerSizes = make([]int, mlp.NLayers-2)
+			for il := range mlp.HiddenLayerSizes {
+				mlp.HiddenLayerSizes[il] = b64coefs[il].Cols
+			}
 
 			NInputs := b64coefs[0].Rows
 			mlp.NOutputs = b64coefs[len(b64coefs)-1].Cols
-- 
2.43.0


From 86c6e46fd87e44dc0f2228e080bbd4f5d1c6297e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:56:34 +0000
Subject: [PATCH 150/177] fix: Unmarshal of an MLP restores the output
 activation

---
 neural_network/basemlp32.go             | 6 +++++-
 neural_network/basemlp64.go             | 6 +++++-
 neural_network/multilayer_perceptron.go | 1 +
 3 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/neural_network/basemlp32.go b/neural_network/basemlp32.go
index dc51db9..4fc9d20 100644
--- a/neural_network/basemlp32.go
+++ b/neural_network/basemlp32.go
@@ -1213,7 +1213,11 @@ func (mlp *BaseMultilayerPerceptron32) Unmarshal(buf []byte) error {
 				packedSize += (1 + layerUnits[il]) * layerUnits[il+1]
 			}
 			layerUnits[mlp.NLayers-1] = mlp.NOutputs
-			mlp.initialize(mlp.NOutputs, layerUnits, true, mlp.NOutputs > 1)
+			isClassifier, isMultiClass := mlp.IsClassifier(), mlp.NOutputs > 1
+			if outActivation, ok := mp["out_activation_"].(string); ok {
+				isClassifier, isMultiClass = outActivation != "identity", outActivation == "softmax"
+			}
+			mlp.initialize(mlp.NOutputs, layerUnits, isClassifier, isMultiClass)
 
 			for i := 0; i < mlp.NLayers-1; i++ {
 				intercept64 := floats64FromInterface(intercepts2[i])
diff --git a/neural_network/basemlp64.go b/neural_network/basemlp64.go
index 74f007a..fdbf112 100644
--- a/neural_network/basemlp64.go
+++ b/neural_network/basemlp64.go
@@ -1213,7 +1213,11 @@ func (mlp *BaseMultilayerPerceptron64) Unmarshal(buf []byte) error {
 				packedSize += (1 + layerUnits[il]) * layerUnits[il+1]
 			}
 			layerUnits[mlp.NLayers-1] = mlp.NOutputs
-			mlp.initialize(mlp.NOutputs, layerUnits, true, mlp.NOutputs > 1)
+			isClassifier, isMultiClass := mlp.IsClassifier(), mlp.NOutputs > 1
+			if outActivation, ok := mp["out_activation_"].(string); ok {
+				isClassifier, isMultiClass = outActivation != "identity", outActivation == "softmax"
+			}
+			mlp.initialize(mlp.NOutputs, layerUnits, isClassifier, isMultiClass)
 
 			for i := 0; i < mlp.NLayers-1; i++ {
 				intercept64 := floats64FromInterface(intercepts2[i])
diff --git a/neural_network/multilayer_perceptron.go b/neural_network/multilayer_perceptron.go
index 4c71749..a52557c 100644
--- a/neural_network/multilayer_perceptron.go
+++ b/neural_network/multilayer_perceptron.go
@@ -20,6 +20,7 @@ func NewMLPRegressor(hiddenLayerSizes []int, activation string, solver string, A
 	mlp := &MLPRegressor{
 		BaseMultilayerPerceptron64: *NewBaseMultilayerPerceptron64(),
 	}
+	mlp.LossFuncName = "square_loss"
 	mlp.HiddenLayerSizes = hiddenLayerSizes
 	mlp.Activation = activation
 	mlp.Solver = solver
-- 
2.43.0


From 4c69647f5027dfe2f140958e73b1a6238abe4a9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:56:34 +0000
Subject: [PATCH 151/177] fix: SetParams of MLPs accepts json names and
 converts numbers

---
 neural_network/basemlp32.go | 19 +++++++++++++++----
 neural_network/basemlp64.go | 19 +++++++++++++++----
 2 files changed, 30 insertions(+), 8 deletions(-)

diff --git a/neural_network/basemlp32.go b/neural_network/basemlp32.go
index 4fc9d20..02312fc 100644
--- a/neural_network/basemlp32.go
+++ b/neural_network/basemlp32.go
@@ -1155,11 +1155,22 @@ func accuracyScore32(Y, H blas32General) float32 {
 func (mlp *BaseMultilayerPerceptron32) SetParams(params map[string]interface{}) {
 	r := reflect.Indirect(reflect.ValueOf(mlp))
 	for k, v := range params {
-		field := r.FieldByNameFunc(func(s string) bool {
-			return strings.EqualFold(s, k)
+		sf, ok := r.Type().FieldByNameFunc(func(s string) bool {
+			if strings.EqualFold(s, k) {
+				return true
+			}
+			sf, _ := r.Type().FieldByName(s)
+			return sf.Tag.Get("json") == k
 		})
-		if field.Kind() != 0 {
-			field.Set(reflect.ValueOf(v))
+		if !ok || v == nil || sf.PkgPath != "" {
+			continue
+		}
+		field, value := r.FieldByIndex(sf.Index), reflect.ValueOf(v)
+		switch {
+		case value.Type().AssignableTo(field.Type()):
+			field.Set(value)
+		case field.Kind() != reflect.String && value.Kind() != reflect.String && value.Type().ConvertibleTo(field.Type()):
+			field.Set(value.Convert(field.Type()))
 		}
 	}
 }
diff --git a/neural_network/basemlp64.go b/neural_network/basemlp64.go
index fdbf112..eaca0a1 100644
--- a/neural_network/basemlp64.go
+++ b/neural_network/basemlp64.go
@@ -1155,11 +1155,22 @@ func accuracyScore64(Y, H blas64General) float64 {
 func (mlp *BaseMultilayerPerceptron64) SetParams(params map[string]interface{}) {
 	r := reflect.Indirect(reflect.ValueOf(mlp))
 	for k, v := range params {
-		field := r.FieldByNameFunc(func(s string) bool {
-			return strings.EqualFold(s, k)
+		sf, ok := r.Type().FieldByNameFunc(func(s string) bool {
+			if strings.EqualFold(s, k) {
+				return true
+			}
+			sf, _ := r.Type().FieldByName(s)
+			return sf.Tag.Get("json") == k
 		})
-		if field.Kind() != 0 {
-			field.Set(reflect.ValueOf(v))
+		if !ok || v == nil || sf.PkgPath != "" {
+			continue
+		}
+		field, value := r.FieldByIndex(sf.Index), reflect.ValueOf(v)
+		switch {
+		case value.Type().AssignableTo(field.Type()):
+			field.Set(value)
+		case field.Kind() != reflect.String && value.Kind() != reflect.String && value.Type().ConvertibleTo(field.Type()):
+			field.Set(value.Convert(field.Type()))
 		}
 	}
 }
-- 
2.43.0


From f7519589d31e7a82e92035270e6af49c40a91a6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:57:09 +0000
Subject: [PATCH 152/177] fix: clones of MLPs share neither parameters nor
 random state with the original

---
 neural_network/multilayer_perceptron.go | 38 +++++++++++++++++++++++--
 1 file changed, 35 insertions(+), 3 deletions(-)

diff --git a/neural_network/multilayer_perceptron.go b/neural_network/multilayer_perceptron.go
index a52557c..15375cf 100644
--- a/neural_network/multilayer_perceptron.go
+++ b/neural_network/multilayer_perceptron.go
@@ -36,11 +36,44 @@ func (mlp *MLPRegressor) PredicterClone() base.Predicter {
 	if mlp == nil {
 		return nil
 	}
+	return &MLPRegressor{BaseMultilayerPerceptron64: mlp.clone()}
+}
+
+// clone returns a copy of mlp which shares neither parameters nor random state with it
+func (mlp *BaseMultilayerPerceptron64) clone() BaseMultilayerPerceptron64 {
 	clone := *mlp
 	if sourceCloner, ok := clone.RandomState.(base.SourceCloner); ok && sourceCloner != base.SourceCloner(nil) {
 		clone.RandomState = sourceCloner.SourceClone()
 	}
-	return &clone
+	clone.HiddenLayerSizes = append([]int(nil), mlp.HiddenLayerSizes...)
+	clone.LossCurve = append([]float64(nil), mlp.LossCurve...)
+	clone.ValidationScores = append([]float64(nil), mlp.ValidationScores...)
+	clone.optimizer, clone.packedGrads, clone.bestParameters, clone.batchNorm = nil, nil, nil, nil
+	if mlp.Coefs != nil {
+		clone.packedParameters = nil
+		for i := range mlp.Coefs {
+			clone.packedParameters = append(clone.packedParameters, mlp.Intercepts[i]...)
+			clone.packedParameters = append(clone.packedParameters, mlp.Coefs[i].Data...)
+		}
+		clone.Coefs = append([]blas64General(nil), mlp.Coefs...)
+		clone.Intercepts = append([][]float64(nil), mlp.Intercepts...)
+		off := 0
+		for i := range clone.Coefs {
+			n := len(mlp.Intercepts[i])
+			clone.Intercepts[i] = clone.packedParameters[off : off+n]
+			off += n
+			n = len(mlp.Coefs[i].Data)
+			clone.Coefs[i].Data = clone.packedParameters[off : off+n]
+			off += n
+		}
+		if mlp.BatchNormalize {
+			clone.batchNorm = make([][]float64, len(mlp.batchNorm))
+			for i := range clone.batchNorm {
+				clone.batchNorm[i] = append([]float64(nil), mlp.batchNorm[i]...)
+			}
+		}
+	}
+	return clone
 }
 
 // Fit ...
@@ -93,8 +126,7 @@ func NewMLPClassifier(hiddenLayerSizes []int, activation string, solver string,
 
 // PredicterClone returns an (possibly unfitted) copy of predicter
 func (mlp *MLPClassifier) PredicterClone() base.Predicter {
-	clone := *mlp
-	return &clone
+	return &MLPClassifier{BaseMultilayerPerceptron64: mlp.clone()}
 }
 
 // IsClassifier returns true for MLPClassifier
-- 
2.43.0


From d6ce9d68bb7b6057acb4b89b674d774bbb764c3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:04:03 +0000
Subject: [PATCH 153/177] fix: the lbfgs solver of MLPs keeps the best weights
 it evaluated when it is stopped early

---
 neural_network/basemlp32.go | 12 ++++++++----
 neural_network/basemlp64.go | 12 ++++++++----
 2 files changed, 16 insertions(+), 8 deletions(-)

diff --git a/neural_network/basemlp32.go b/neural_network/basemlp32.go
index 02312fc..004d24f 100644
--- a/neural_network/basemlp32.go
+++ b/neural_network/basemlp32.go
@@ -692,6 +692,8 @@ func (mlp *BaseMultilayerPerceptron32) fitLbfgs(X, y blas32General, activations,
 		Concurrent: runtime.GOMAXPROCS(0),
 	}
 
+	bestLoss := M32.Inf(1)
+	bestParameters := append([]float32(nil), mlp.packedParameters...)
 	var mu sync.Mutex // sync access to mlp.Loss on LossCurve
 	problem := optimize.Problem{
 		Func: func(w []float64) float64 {
@@ -705,6 +707,10 @@ func (mlp *BaseMultilayerPerceptron32) fitLbfgs(X, y blas32General, activations,
 			if mlp.BestLoss > mlp.Loss {
 				mlp.BestLoss = mlp.Loss
 			}
+			if bestLoss > mlp.Loss {
+				bestLoss = mlp.Loss
+				copy(bestParameters, mlp.packedParameters)
+			}
 			mu.Unlock()
 			return loss
 		},
@@ -730,10 +736,8 @@ func (mlp *BaseMultilayerPerceptron32) fitLbfgs(X, y blas32General, activations,
 		log.Panic(err)
 	}
 	// the last evaluation is not always the best one
-	for i := range res.X {
-		mlp.packedParameters[i] = float32(res.X[i])
-	}
-	mlp.Loss = float32(res.F)
+	copy(mlp.packedParameters, bestParameters)
+	mlp.Loss = bestLoss
 	if res.Status != optimize.GradientThreshold && res.Status != optimize.FunctionConvergence {
 		log.Printf("lbfgs optimizer: Maximum iterations (%d) reached and the optimization hasn't converged yet.\n", mlp.MaxIter)
 	}
diff --git a/neural_network/basemlp64.go b/neural_network/basemlp64.go
index eaca0a1..8818125 100644
--- a/neural_network/basemlp64.go
+++ b/neural_network/basemlp64.go
@@ -692,6 +692,8 @@ func (mlp *BaseMultilayerPerceptron64) fitLbfgs(X, y blas64General, activations,
 		Concurrent: runtime.GOMAXPROCS(0),
 	}
 
+	bestLoss := M64.Inf(1)
+	bestParameters := append([]float64(nil), mlp.packedParameters...)
 	var mu sync.Mutex // sync access to mlp.Loss on LossCurve
 	problem := optimize.Problem{
 		Func: func(w []float64) float64 {
@@ -705,6 +707,10 @@ func (mlp *BaseMultilayerPerceptron64) fitLbfgs(X, y blas64General, activations,
 			if mlp.BestLoss > mlp.Loss {
 				mlp.BestLoss = mlp.Loss
 			}
+			if bestLoss > mlp.Loss {
+				bestLoss = mlp.Loss
+				copy(bestParameters, mlp.packedParameters)
+			}
 			mu.Unlock()
 			return loss
 		},
@@ -730,10 +736,8 @@ func (mlp *BaseMultilayerPerceptron64) fitLbfgs(X, y blas64General, activations,
 		log.Panic(err)
 	}
 	// the last evaluation is not always the best one
-	for i := range res.X {
-		mlp.packedParameters[i] = float64(res.X[i])
-	}
-	mlp.Loss = float64(res.F)
+	copy(mlp.packedParameters, bestParameters)
+	mlp.Loss = bestLoss
 	if res.Status != optimize.GradientThreshold && res.Status != optimize.FunctionConvergence {
 		log.Printf("lbfgs optimizer: Maximum iterations (%d) reached and the optimization hasn't converged yet.\n", mlp.MaxIter)
 	}
-- 
2.43.0


From a15be2ae6923648020c9a3b038b213156633d5c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:04:17 +0000
Subject: [PATCH 154/177] fix: fitting an MLP with lbfgs does not panic when
 the line search cannot improve on the current weights

---
 neural_network/basemlp32.go | 6 +++++-
 neural_network/basemlp64.go | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/neural_network/basemlp32.go b/neural_network/basemlp32.go
index 004d24f..3b0ffa7 100644
--- a/neural_network/basemlp32.go
+++ b/neural_network/basemlp32.go
@@ -733,7 +733,11 @@ func (mlp *BaseMultilayerPerceptron32) fitLbfgs(X, y blas32General, activations,
 	}
 	res, err := optimize.Minimize(problem, w, settings, method)
 	if err != nil {
-		log.Panic(err)
+		if res == nil {
+			log.Panic(err)
+		}
+		// the line search found no better point
+		log.Printf("lbfgs optimizer: %v\n", err)
 	}
 	// the last evaluation is not always the best one
 	copy(mlp.packedParameters, bestParameters)
diff --git a/neural_network/basemlp64.go b/neural_network/basemlp64.go
index 8818125..649e6dd 100644
--- a/neural_network/basemlp64.go
+++ b/neural_network/basemlp64.go
@@ -733,7 +733,11 @@ func (mlp *BaseMultilayerPerceptron64) fitLbfgs(X, y blas64General, activations,
 	}
 	res, err := optimize.Minimize(problem, w, settings, method)
 	if err != nil {
-		log.Panic(err)
+		if res == nil {
+			log.Panic(err)
+		}
+		// the line search found no better point
+		log.Printf("lbfgs optimizer: %v\n", err)
 	}
 	// the last evaluation is not always the best one
 	copy(mlp.packedParameters, bestParameters)
-- 
2.43.0


From 9d390f934d0bdbea6f32b0c2dbfeb3b4b98b87c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:13:35 +0000
Subject: [PATCH 155/177] fix: LoadOctaveBin reads on when the reader returns
 fewer bytes than asked for

---
 datasets/octave.go | 14 ++------------
 1 file changed, 2 insertions(+), 12 deletions(-)

diff --git a/datasets/octave.go b/datasets/octave.go
index 57b53be..4bb807a 100644
--- a/datasets/octave.go
+++ b/datasets/octave.go
@@ -4,7 +4,6 @@ import (
 	"bufio"
 	"compress/gzip"
 	"encoding/binary"
-	"fmt"
 	"io"
 	"os"
 	"strings"
@@ -25,18 +24,9 @@ func LoadOctaveBin(filename string) map[string]*mat.Dense {
 	}
 	read := func(f *PosReader, n int) ([]byte, error) {
 		b := make([]byte, n)
-		nread, err := f.Reader.Read(b)
-		if err != nil {
-			return b, err
-		}
+		nread, err := io.ReadFull(f.Reader, b)
 		f.Pos += nread
-		if nread != n {
-			panic(fmt.Errorf("%d/%d bytes read", nread, n))
-		}
-		if err != nil {
-			panic(err)
-		}
-		return b, nil
+		return b, err
 	}
 	readUint32 := func(f *PosReader) (uint32, error) {
 
-- 
2.43.0


From fd9abbf12f53f34dea90ccdcad2d882f373f9b1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:13:35 +0000
Subject: [PATCH 156/177] fix: LoadOctaveBin does not silently drop a variable
 whose name is cut off

---
 datasets/octave.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/datasets/octave.go b/datasets/octave.go
index 4bb807a..f6a09b8 100644
--- a/datasets/octave.go
+++ b/datasets/octave.go
@@ -43,6 +43,9 @@ func LoadOctaveBin(filename string) map[string]*mat.Dense {
 			return "", err
 		}
 		b, err := read(f, int(lenString))
+		if err == io.EOF {
+			err = io.ErrUnexpectedEOF
+		}
 		if err != nil {
 			return "", err
 		}
-- 
2.43.0


From 57f3422dc9c2f100507392a89a429d495779a154 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:13:36 +0000
Subject: [PATCH 157/177] fix: LoadOctaveBin skips the documentation of a
 variable

---
 datasets/octave.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/datasets/octave.go b/datasets/octave.go
index f6a09b8..22d0ea0 100644
--- a/datasets/octave.go
+++ b/datasets/octave.go
@@ -84,9 +84,10 @@ func LoadOctaveBin(filename string) map[string]*mat.Dense {
 		}
 		check(err)
 		//fmt.Printf("varname:%s\n", VarName)
-		//read doclength (4)
-		read(f, 4)
-		//read doc (1 byte)
+		//read doclength (4) and doc
+		_, err = readString(f)
+		check(err)
+		//read global flag (1 byte)
 		read(f, 1)
 		// read datatype
 		b, err = read(f, 1)
-- 
2.43.0


From 224193094b69b689dfdb54276885518ead52ea9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:13:36 +0000
Subject: [PATCH 158/177] fix: MakeBlobs uses the width of the given centers

---
 datasets/samples_generator.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/datasets/samples_generator.go b/datasets/samples_generator.go
index ed296dd..93a077a 100644
--- a/datasets/samples_generator.go
+++ b/datasets/samples_generator.go
@@ -138,7 +138,7 @@ func MakeBlobs(config *MakeBlobsConfig) (X, Y *mat.Dense) {
 		Centers = mat.NewDense(3, config.NFeatures, nil)
 	}
 
-	NCenters, _ := Centers.Dims()
+	NCenters, NFeatures := Centers.Dims()
 	if config.ClusterStd <= 0. {
 		config.ClusterStd = 1.
 	}
@@ -171,13 +171,13 @@ func MakeBlobs(config *MakeBlobsConfig) (X, Y *mat.Dense) {
 		}
 	}
 
-	X = mat.NewDense(config.NSamples, config.NFeatures, nil)
+	X = mat.NewDense(config.NSamples, NFeatures, nil)
 	Y = mat.NewDense(config.NSamples, 1, nil)
 	base.Parallelize(runtime.NumCPU(), config.NSamples, func(th, start, end int) {
-		mu := make([]float64, config.NFeatures)
-		sigma := mat.NewSymDense(config.NFeatures, nil)
+		mu := make([]float64, NFeatures)
+		sigma := mat.NewSymDense(NFeatures, nil)
 
-		for i := 0; i < config.NFeatures; i++ {
+		for i := 0; i < NFeatures; i++ {
 			sigma.SetSym(i, i, 1)
 		}
 		sigma.ScaleSym(config.ClusterStd*config.ClusterStd, sigma)
-- 
2.43.0


From 5a857a944daa25b7f918660fa26c99557bc39cc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:13:36 +0000
Subject: [PATCH 159/177] fix: MakeBlobs draws all its random numbers from
 RandomState, in a fixed order

---
 datasets/samples_generator.go | 32 ++++++++++++--------------------
 1 file changed, 12 insertions(+), 20 deletions(-)

diff --git a/datasets/samples_generator.go b/datasets/samples_generator.go
index 93a077a..b35dd71 100644
--- a/datasets/samples_generator.go
+++ b/datasets/samples_generator.go
@@ -2,16 +2,13 @@ package datasets
 
 import (
 	"math"
-	"runtime"
 	"sort"
 
 	"golang.org/x/exp/rand"
 
 	"github.com/pa-m/sklearn/base"
 	"github.com/pa-m/sklearn/preprocessing"
-	"gonum.org/v1/gonum/floats"
 	"gonum.org/v1/gonum/mat"
-	"gonum.org/v1/gonum/stat/distmv"
 )
 
 // MakeRegression Generate a random regression problem
@@ -148,6 +145,8 @@ func MakeBlobs(config *MakeBlobsConfig) (X, Y *mat.Dense) {
 	randNormFloat64 := rand.NormFloat64
 	randIntn := rand.Intn
 	if config.RandomState != nil {
+		rnd := rand.New(config.RandomState)
+		randNormFloat64, randIntn = rnd.NormFloat64, rnd.Intn
 		if normFloat64er, ok := config.RandomState.(base.NormFloat64er); ok {
 			randNormFloat64 = normFloat64er.NormFloat64
 		}
@@ -173,25 +172,18 @@ func MakeBlobs(config *MakeBlobsConfig) (X, Y *mat.Dense) {
 
 	X = mat.NewDense(config.NSamples, NFeatures, nil)
 	Y = mat.NewDense(config.NSamples, 1, nil)
-	base.Parallelize(runtime.NumCPU(), config.NSamples, func(th, start, end int) {
-		mu := make([]float64, NFeatures)
-		sigma := mat.NewSymDense(NFeatures, nil)
-
-		for i := 0; i < NFeatures; i++ {
-			sigma.SetSym(i, i, 1)
-		}
-		sigma.ScaleSym(config.ClusterStd*config.ClusterStd, sigma)
-		normal, _ := distmv.NewNormal(mu, sigma, nil)
-		_ = normal
-		for sample := start; sample < end; sample++ {
-			cluster := randIntn(NCenters)
-			Y.Set(sample, 0, float64(cluster))
-			normal.Rand(X.RawRowView(sample))
-			floats.Add(X.RawRowView(sample), Centers.RawRowView(cluster))
+	for sample := 0; sample < config.NSamples; sample++ {
+		cluster := randIntn(NCenters)
+		Y.Set(sample, 0, float64(cluster))
+		row := X.RawRowView(sample)
+		for j := range row {
+			row[j] = Centers.At(cluster, j) + config.ClusterStd*randNormFloat64()
 		}
-	})
+	}
 	if config.Shuffle {
-		X, Y = preprocessing.NewShuffler().FitTransform(X, Y)
+		shuffler := preprocessing.NewShuffler()
+		shuffler.RandomState = config.RandomState
+		X, Y = shuffler.FitTransform(X, Y)
 	}
 	return
 }
-- 
2.43.0


From a0cfb3d4fd86f436b0508363e3128978725eca88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:13:36 +0000
Subject: [PATCH 160/177] fix: MakeBlobs leaves the caller's configuration as
 it was

---
 datasets/samples_generator.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/datasets/samples_generator.go b/datasets/samples_generator.go
index b35dd71..2d71720 100644
--- a/datasets/samples_generator.go
+++ b/datasets/samples_generator.go
@@ -117,6 +117,8 @@ func MakeBlobs(config *MakeBlobsConfig) (X, Y *mat.Dense) {
 	if config == nil {
 		config = &MakeBlobsConfig{}
 	}
+	defaulted := *config
+	config = &defaulted
 	if config.NSamples <= 0 {
 		config.NSamples = 100
 	}
-- 
2.43.0


From 7602cfdfee4411ffa85011a920c000746deaeca0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:13:37 +0000
Subject: [PATCH 161/177] fix: datasets without feature names give the matrices
 of their data

---
 datasets/base.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/datasets/base.go b/datasets/base.go
index 11003b7..beef38a 100644
--- a/datasets/base.go
+++ b/datasets/base.go
@@ -88,6 +88,9 @@ func LoadWine() (ds *MLDataset) {
 // GetXY returns X,Y matrices for dataset
 func (ds *MLDataset) GetXY() (X, Y *mat.Dense) {
 	nSamples, nFeatures, nOutputs := len(ds.Data), len(ds.FeatureNames), 1
+	if nSamples > 0 {
+		nFeatures = len(ds.Data[0])
+	}
 	X = mat.NewDense(nSamples, nFeatures, nil)
 	X.Apply(func(i, j int, _ float64) float64 {
 		return ds.Data[i][j]
-- 
2.43.0


From 48d0ef18d7f8806f0d6b05cb25a3c9a7904f9bfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:20:59 +0000
Subject: [PATCH 162/177] fix: fitting a MinMaxScaler does not write to the
 training data

---
 preprocessing/data.go | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/preprocessing/data.go b/preprocessing/data.go
index 5b0b512..4b6806f 100644
--- a/preprocessing/data.go
+++ b/preprocessing/data.go
@@ -84,11 +84,12 @@ func (scaler *MinMaxScaler) PartialFit(Xmatrix, Ymatrix mat.Matrix) Transformer
 		scaler.DataMin.CloneFrom(X.RowView(0).T())
 		scaler.DataMax.CloneFrom(X.RowView(0).T())
 	}
-	X.Apply(func(i int, j int, x float64) float64 {
-		scaler.DataMin.Set(0, j, math.Min(scaler.DataMin.At(0, j), x))
-		scaler.DataMax.Set(0, j, math.Max(scaler.DataMax.At(0, j), x))
-		return x
-	}, X)
+	for i := 0; i < nSamples; i++ {
+		for j, x := range X.RawRowView(i) {
+			scaler.DataMin.Set(0, j, math.Min(scaler.DataMin.At(0, j), x))
+			scaler.DataMax.Set(0, j, math.Max(scaler.DataMax.At(0, j), x))
+		}
+	}
 	scaler.NSamplesSeen += nSamples
 	// dataRange = dataMax - dataMin
 	scaler.DataRange.Sub(scaler.DataMax, scaler.DataMin)
-- 
2.43.0


From f1cfc033918a4c2dc5eca84873056b441768bd66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:22:52 +0000
Subject: [PATCH 163/177] fix: starting a tensor iterator goes back to the
 first element

---
 gaussian_process/tensor/tensor.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/gaussian_process/tensor/tensor.go b/gaussian_process/tensor/tensor.go
index cf9e8a9..4bef153 100644
--- a/gaussian_process/tensor/tensor.go
+++ b/gaussian_process/tensor/tensor.go
@@ -53,6 +53,7 @@ type DenseIterator struct {
 
 // Start returns 0
 func (it *DenseIterator) Start() (i int, e error) {
+	it.index = 0
 	i = it.index
 	if i >= len(it.t.data.([]float64)) {
 		e = ErrEndReached
-- 
2.43.0


From 2c364cf6111c8f1616b2b094464b1130137c713a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:31:29 +0000
Subject: [PATCH 164/177] fix: an unknown discretization strategy is refused
 before the workers start

---
 preprocessing/discretization.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/preprocessing/discretization.go b/preprocessing/discretization.go
index f6e9d7a..e0fb74d 100644
--- a/preprocessing/discretization.go
+++ b/preprocessing/discretization.go
@@ -34,6 +34,11 @@ func (m *KBinsDiscretizer) TransformerClone() Transformer {
 
 // Fit fits the transformer
 func (m *KBinsDiscretizer) Fit(X, Y mat.Matrix) base.Fiter {
+	switch m.Strategy {
+	case "quantile", "uniform":
+	default:
+		panic(fmt.Errorf("not implemented strategy %s", m.Strategy))
+	}
 	NSamples, NFeatures := X.Dims()
 	m.BinEdges = make([][]float64, NFeatures)
 	base.Parallelize(-1, NFeatures, func(th, start, end int) {
@@ -49,8 +54,6 @@ func (m *KBinsDiscretizer) Fit(X, Y mat.Matrix) base.Fiter {
 					m.BinEdges[f][b] = stat.Quantile(float64(b)/float64(m.NBins), stat.Empirical, tmp, nil)
 				case "uniform":
 					m.BinEdges[f][b] = min + float64(b)/float64(m.NBins)*(max-min)
-				default:
-					panic(fmt.Errorf("not implemented strategy %s", m.Strategy))
 				}
 			}
 		}
-- 
2.43.0


From cc3fdb08a5b4dbeeb4d76c5530e826d0dbf5a497 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:31:31 +0000
Subject: [PATCH 165/177] fix: a Gaussian process that refuses alpha keeps its
 training data

---
 gaussian_process/gpr.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gaussian_process/gpr.go b/gaussian_process/gpr.go
index d6e71e1..9a80a29 100644
--- a/gaussian_process/gpr.go
+++ b/gaussian_process/gpr.go
@@ -76,11 +76,11 @@ func (m *Regressor) GetNOutputs() int {
 // Fit Gaussian process regression model
 func (m *Regressor) Fit(X, Y mat.Matrix) base.Fiter {
 	ry, _ := Y.Dims()
-	m.Xtrain = mat.DenseCopyOf(X)
-	m.Ytrain = mat.DenseCopyOf(Y)
 	if len(m.Alpha) != 1 && len(m.Alpha) != ry {
 		panic(fmt.Errorf("alpha must be a scalar or an array with same number of entries as y.(%d != %d)", len(m.Alpha), ry))
 	}
+	m.Xtrain = mat.DenseCopyOf(X)
+	m.Ytrain = mat.DenseCopyOf(Y)
 	m.LogMarginalLikelihoodValue, _ = m.LogMarginalLikelihood(m.KernelOpt.Theta(), false)
 	return m
 }
-- 
2.43.0


From 066e3fd4814c269d38cedc1a417eae9d2be71a66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:31:32 +0000
Subject: [PATCH 166/177] fix: an SVM that refuses its kernel keeps its model

---
 svm/svm.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/svm/svm.go b/svm/svm.go
index 17049a4..26961db 100644
--- a/svm/svm.go
+++ b/svm/svm.go
@@ -278,7 +278,6 @@ func (m *BaseLibSVM) fit(X, Y *mat.Dense, svmTrain func(X *mat.Dense, Y []float6
 	if m.Gamma <= 0. {
 		m.Gamma = 1. / float64(NFeatures)
 	}
-	m.Model = make([]*Model, Noutputs)
 	var K func(a, b []float64) float64
 	switch v := m.Kernel.(type) {
 	case func(a, b []float64) float64:
@@ -299,6 +298,7 @@ func (m *BaseLibSVM) fit(X, Y *mat.Dense, svmTrain func(X *mat.Dense, Y []float6
 	default:
 		panic(fmt.Errorf("unknown kernel %#v", v))
 	}
+	m.Model = make([]*Model, Noutputs)
 	if m.MaxIter <= 0 {
 		m.MaxIter = math.MaxInt32
 	}
-- 
2.43.0


From ece5f2d1ba328d1ca88376d4c1e1fe1d9d07f92e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:31:33 +0000
Subject: [PATCH 167/177] fix: Gaussian naive Bayes checks a batch before it
 changes the model

---
 naive_bayes/naivebayes.go | 55 ++++++++++++++++++++-------------------
 1 file changed, 28 insertions(+), 27 deletions(-)

diff --git a/naive_bayes/naivebayes.go b/naive_bayes/naivebayes.go
index 3522f98..1f3bbe4 100644
--- a/naive_bayes/naivebayes.go
+++ b/naive_bayes/naivebayes.go
@@ -156,29 +156,13 @@ func (m *GaussianNB) PartialFit(X, Y mat.Matrix, classes []float64, refit bool,
 	//# deviation of the largest dimension.
 	//	self.epsilon_ = self.var_smoothing * np.var(X, axis=0).max()
 	_, xc := X.Dims()
-
-	_, varX, _ := meanvar(matfiltered{Matrix: X, filter: func(int) bool { return true }}, sampleWeight)
-	previousEpsilon := m.Epsilon
-	m.Epsilon = m.VarSmoothing * floats.Max(varX)
-	if refit {
-		m.Classes = nil
-		m.Theta = nil
-	}
-	firstCall := m.Theta == nil
+	firstCall := refit || m.Theta == nil
 	if firstCall {
-		m.Classes = classes
-		nFeatures := xc
-		nClasses := len(m.Classes)
-		m.Theta = mat.NewDense(nClasses, nFeatures, nil)
-		m.Sigma = mat.NewDense(nClasses, nFeatures, nil)
-		m.ClassCount = make([]float64, nClasses)
-		//# Initialise the class prior
-		//# Take into account the priors
 		if m.Priors != nil {
 			//priors = np.asarray(self.priors)
 			priors := m.Priors
 			//# Check that the provide prior match the number of classes
-			if len(priors) != nClasses {
+			if len(priors) != len(classes) {
 				panic("Number of priors must match number of classes.")
 			}
 			//# Check that the sum is 1
@@ -191,23 +175,15 @@ func (m *GaussianNB) PartialFit(X, Y mat.Matrix, classes []float64, refit bool,
 			if priorsMin < 0 {
 				panic("Priors must be non-negative.")
 			}
-			m.ClassPrior = make([]float64, len(priors))
-			copy(m.ClassPrior, priors)
-		} else {
-			m.ClassPrior = make([]float64, len(m.Classes))
 		}
-
 	} else {
+		classes = m.Classes
 		width := func(X mat.Matrix) int { _, c := X.Dims(); return c }
 		wx, wt := width(X), width(m.Theta)
 		if wx != wt {
 			panic(fmt.Errorf("Number of features %d does not match previous data %d", wx, wt))
 		}
-		//# Put epsilon back in each time
-		//self.sigma_[:, :] -= self.epsilon_
-		m.Sigma.Apply(func(_, _ int, v float64) float64 { return v - previousEpsilon }, m.Sigma)
 	}
-	classes = m.Classes
 	uniqueY := npUnique(colAsVector(Y, 0))
 	var uniqueYnotinClasses []float64
 	classmap := map[float64]int{}
@@ -222,6 +198,31 @@ func (m *GaussianNB) PartialFit(X, Y mat.Matrix, classes []float64, refit bool,
 	if len(uniqueYnotinClasses) > 0 {
 		panic(fmt.Errorf("The target labels %g in y do not exist in the initial classes %g", uniqueYnotinClasses, classes))
 	}
+
+	_, varX, _ := meanvar(matfiltered{Matrix: X, filter: func(int) bool { return true }}, sampleWeight)
+	previousEpsilon := m.Epsilon
+	m.Epsilon = m.VarSmoothing * floats.Max(varX)
+	if firstCall {
+		m.Classes = classes
+		nFeatures := xc
+		nClasses := len(m.Classes)
+		m.Theta = mat.NewDense(nClasses, nFeatures, nil)
+		m.Sigma = mat.NewDense(nClasses, nFeatures, nil)
+		m.ClassCount = make([]float64, nClasses)
+		//# Initialise the class prior
+		//# Take into account the priors
+		if m.Priors != nil {
+			m.ClassPrior = make([]float64, len(m.Priors))
+			copy(m.ClassPrior, m.Priors)
+		} else {
+			m.ClassPrior = make([]float64, len(m.Classes))
+		}
+
+	} else {
+		//# Put epsilon back in each time
+		//self.sigma_[:, :] -= self.epsilon_
+		m.Sigma.Apply(func(_, _ int, v float64) float64 { return v - previousEpsilon }, m.Sigma)
+	}
 	base.Parallelize(runtime.GOMAXPROCS(0), len(uniqueY), func(th, start, end int) {
 		for i := start; i < end; i++ {
 			yi := uniqueY[i]
-- 
2.43.0


From 8e97fa889234fbf3f88ee16c0848111aabb8625b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:32:03 +0000
Subject: [PATCH 168/177] fix: reading a malformed network returns an error

---
 neural_network/basemlp32.go | 24 +++++++++++++++----
 neural_network/basemlp64.go | 24 +++++++++++++++----
 neural_network/unmarshal.go | 46 ++++++++++++++++++++++++-------------
 3 files changed, 70 insertions(+), 24 deletions(-)

diff --git a/neural_network/basemlp32.go b/neural_network/basemlp32.go
index 3b0ffa7..a92a127 100644
--- a/neural_network/basemlp32.go
+++ b/neural_network/basemlp32.go
@@ -1189,7 +1189,7 @@ func (mlp *BaseMultilayerPerceptron32) Unmarshal(buf []byte) error {
 	mp := Map{}
 	err := json.Unmarshal(buf, &mp)
 	if err != nil {
-		panic(err)
+		return err
 	}
 	if params, ok := mp["params"]; ok {
 		if pmap, ok := params.(Map); ok {
@@ -1214,7 +1214,24 @@ func (mlp *BaseMultilayerPerceptron32) Unmarshal(buf []byte) error {
 			}
 			b64coefs := make([]blas64General, len(c64))
 			for i := range b64coefs {
-				b64coefs[i] = blas64FromInterface(c64[i])
+				if b64coefs[i], err = blas64FromInterface(c64[i]); err != nil {
+					return fmt.Errorf("coefs_ of layer %d: %v", i, err)
+				}
+				if i > 0 && b64coefs[i].Rows != b64coefs[i-1].Cols {
+					return fmt.Errorf("coefs_ of layer %d have %d rows, expected %d", i, b64coefs[i].Rows, b64coefs[i-1].Cols)
+				}
+			}
+			if len(intercepts2) != len(c64) {
+				return fmt.Errorf("intercepts_ has %d layers, expected %d", len(intercepts2), len(c64))
+			}
+			b64intercepts := make([][]float64, len(intercepts2))
+			for i := range b64intercepts {
+				if b64intercepts[i], err = floats64FromInterface(intercepts2[i]); err != nil {
+					return fmt.Errorf("intercepts_ of layer %d: %v", i, err)
+				}
+				if len(b64intercepts[i]) != b64coefs[i].Cols {
+					return fmt.Errorf("intercepts_ of layer %d has %d values, expected %d", i, len(b64intercepts[i]), b64coefs[i].Cols)
+				}
 			}
 			mlp.NLayers = len(b64coefs) + 1
 			mlp.HiddenLayerSizes = make([]int, mlp.NLayers-2)
@@ -1239,9 +1256,8 @@ func (mlp *BaseMultilayerPerceptron32) Unmarshal(buf []byte) error {
 			mlp.initialize(mlp.NOutputs, layerUnits, isClassifier, isMultiClass)
 
 			for i := 0; i < mlp.NLayers-1; i++ {
-				intercept64 := floats64FromInterface(intercepts2[i])
 				for off := 0; off < len(mlp.Intercepts[i]); off++ {
-					mlp.Intercepts[i][off] = float32(intercept64[off])
+					mlp.Intercepts[i][off] = float32(b64intercepts[i][off])
 				}
 				g := General32(mlp.Coefs[i])
 				(&g).Copy(General64(b64coefs[i]))
diff --git a/neural_network/basemlp64.go b/neural_network/basemlp64.go
index 649e6dd..f69ec87 100644
--- a/neural_network/basemlp64.go
+++ b/neural_network/basemlp64.go
@@ -1189,7 +1189,7 @@ func (mlp *BaseMultilayerPerceptron64) Unmarshal(buf []byte) error {
 	mp := Map{}
 	err := json.Unmarshal(buf, &mp)
 	if err != nil {
-		panic(err)
+		return err
 	}
 	if params, ok := mp["params"]; ok {
 		if pmap, ok := params.(Map); ok {
@@ -1214,7 +1214,24 @@ func (mlp *BaseMultilayerPerceptron64) Unmarshal(buf []byte) error {
 			}
 			b64coefs := make([]blas64General, len(c64))
 			for i := range b64coefs {
-				b64coefs[i] = blas64FromInterface(c64[i])
+				if b64coefs[i], err = blas64FromInterface(c64[i]); err != nil {
+					return fmt.Errorf("coefs_ of layer %d: %v", i, err)
+				}
+				if i > 0 && b64coefs[i].Rows != b64coefs[i-1].Cols {
+					return fmt.Errorf("coefs_ of layer %d have %d rows, expected %d", i, b64coefs[i].Rows, b64coefs[i-1].Cols)
+				}
+			}
+			if len(intercepts2) != len(c64) {
+				return fmt.Errorf("intercepts_ has %d layers, expected %d", len(intercepts2), len(c64))
+			}
+			b64intercepts := make([][]float64, len(intercepts2))
+			for i := range b64intercepts {
+				if b64intercepts[i], err = floats64FromInterface(intercepts2[i]); err != nil {
+					return fmt.Errorf("intercepts_ of layer %d: %v", i, err)
+				}
+				if len(b64intercepts[i]) != b64coefs[i].Cols {
+					return fmt.Errorf("intercepts_ of layer %d has %d values, expected %d", i, len(b64intercepts[i]), b64coefs[i].Cols)
+				}
 			}
 			mlp.NLayers = len(b64coefs) + 1
 			mlp.HiddenLayerSizes = make([]int, mlp.NLayers-2)
@@ -1239,9 +1256,8 @@ func (mlp *BaseMultilayerPerceptron64) Unmarshal(buf []byte) error {
 			mlp.initialize(mlp.NOutputs, layerUnits, isClassifier, isMultiClass)
 
 			for i := 0; i < mlp.NLayers-1; i++ {
-				intercept64 := floats64FromInterface(intercepts2[i])
 				for off := 0; off < len(mlp.Intercepts[i]); off++ {
-					mlp.Intercepts[i][off] = float64(intercept64[off])
+					mlp.Intercepts[i][off] = float64(b64intercepts[i][off])
 				}
 				g := General64(mlp.Coefs[i])
 				(&g).Copy(General64(b64coefs[i]))
diff --git a/neural_network/unmarshal.go b/neural_network/unmarshal.go
index e3f6a1c..9c4f312 100644
--- a/neural_network/unmarshal.go
+++ b/neural_network/unmarshal.go
@@ -1,26 +1,40 @@
 package neuralnetwork
 
-func floats64FromInterface(in interface{}) []float64 {
-	t1 := in.([]interface{})
+import "fmt"
+
+func floats64FromInterface(in interface{}) ([]float64, error) {
+	t1, ok := in.([]interface{})
+	if !ok {
+		return nil, fmt.Errorf("expected an array of numbers, found %T", in)
+	}
 	t2 := make([]float64, len(t1))
 	for i := range t1 {
-		t2[i] = t1[i].(float64)
+		if t2[i], ok = t1[i].(float64); !ok {
+			return nil, fmt.Errorf("expected a number, found %T", t1[i])
+		}
 	}
-	return t2
+	return t2, nil
 }
 
-func blas64FromInterface(in interface{}) blas64General {
-	t1 := in.([]interface{})
-	rows := len(t1)
-	t10 := t1[0].([]interface{})
-	cols := len(t10)
-	t2 := blas64General{Rows: rows, Cols: cols, Stride: cols, Data: make([]float64, rows*cols)}
-	for r, pos := 0, 0; r < rows; r, pos = r+1, pos+t2.Stride {
-		t3 := floats64FromInterface(t1[r])
-		for c := 0; c < cols; c++ {
-			t2.Data[pos+c] = t3[c]
+func blas64FromInterface(in interface{}) (blas64General, error) {
+	t1, ok := in.([]interface{})
+	if !ok {
+		return blas64General{}, fmt.Errorf("expected an array of rows, found %T", in)
+	}
+	var t2 blas64General
+	for r := range t1 {
+		t3, err := floats64FromInterface(t1[r])
+		if err != nil {
+			return blas64General{}, err
 		}
-
+		if r > 0 && len(t3) != t2.Cols {
+			return blas64General{}, fmt.Errorf("row %d has %d values, expected %d", r, len(t3), t2.Cols)
+		}
+		t2.Rows, t2.Cols, t2.Stride = r+1, len(t3), len(t3)
+		t2.Data = append(t2.Data, t3...)
+	}
+	if t2.Rows == 0 || t2.Cols == 0 {
+		return blas64General{}, fmt.Errorf("expected a non-empty matrix")
 	}
-	return t2
+	return t2, nil
 }
-- 
2.43.0


From a33872a9626794b30aaafff0666515fb17870ed2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:53:52 +0000
Subject: [PATCH 169/177] fix: a network with an empty hidden layer is refused

---
 neural_network/basemlp32.go | 2 +-
 neural_network/basemlp64.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/neural_network/basemlp32.go b/neural_network/basemlp32.go
index a92a127..3e5e3b3 100644
--- a/neural_network/basemlp32.go
+++ b/neural_network/basemlp32.go
@@ -498,7 +498,7 @@ func (mlp *BaseMultilayerPerceptron32) fit(X, y blas32General, incremental bool)
 	// # Validate input parameters.
 	mlp.validateHyperparameters()
 	for _, s := range mlp.HiddenLayerSizes {
-		if s < 0 {
+		if s <= 0 {
 			log.Panicf("hiddenLayerSizes must be > 0, got %v.", mlp.HiddenLayerSizes)
 		}
 	}
diff --git a/neural_network/basemlp64.go b/neural_network/basemlp64.go
index f69ec87..334f865 100644
--- a/neural_network/basemlp64.go
+++ b/neural_network/basemlp64.go
@@ -498,7 +498,7 @@ func (mlp *BaseMultilayerPerceptron64) fit(X, y blas64General, incremental bool)
 	// # Validate input parameters.
 	mlp.validateHyperparameters()
 	for _, s := range mlp.HiddenLayerSizes {
-		if s < 0 {
+		if s <= 0 {
 			log.Panicf("hiddenLayerSizes must be > 0, got %v.", mlp.HiddenLayerSizes)
 		}
 	}
-- 
2.43.0


From cb558311842db1b461ae44af317e8839da7f2173 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:53:54 +0000
Subject: [PATCH 170/177] fix: a classifier that refuses its settings keeps its
 classes

---
 linear_model/logistic.go    |  6 +++---
 neural_network/basemlp32.go | 11 ++++++-----
 neural_network/basemlp64.go | 11 ++++++-----
 3 files changed, 15 insertions(+), 13 deletions(-)

diff --git a/linear_model/logistic.go b/linear_model/logistic.go
index 4a99fd7..8e84cd9 100644
--- a/linear_model/logistic.go
+++ b/linear_model/logistic.go
@@ -338,6 +338,9 @@ func (m *LogisticRegression) IsClassifier() bool {
 
 // Fit compute Coef and Intercept
 func (m *LogisticRegression) Fit(X, Y mat.Matrix) base.Fiter {
+	// # Validate input parameters.
+	m.validateHyperparameters()
+
 	xb, yb := base.ToDense(X), base.ToDense(Y)
 	m.lb = nil
 	if m.IsClassifier() && !isBinarized(yb) {
@@ -345,9 +348,6 @@ func (m *LogisticRegression) Fit(X, Y mat.Matrix) base.Fiter {
 		xbin, ybin := m.lb.FitTransform(X, Y)
 		xb, yb = xbin, ybin
 	}
-	// # Validate input parameters.
-	m.validateHyperparameters()
-
 	x, y := xb.RawMatrix(), yb.RawMatrix()
 	nSamples, nFeatures := x.Rows, x.Cols
 
diff --git a/neural_network/basemlp32.go b/neural_network/basemlp32.go
index 3e5e3b3..8c58aed 100644
--- a/neural_network/basemlp32.go
+++ b/neural_network/basemlp32.go
@@ -497,11 +497,6 @@ func (mlp *BaseMultilayerPerceptron32) initialize(yCols int, layerUnits []int, i
 func (mlp *BaseMultilayerPerceptron32) fit(X, y blas32General, incremental bool) {
 	// # Validate input parameters.
 	mlp.validateHyperparameters()
-	for _, s := range mlp.HiddenLayerSizes {
-		if s <= 0 {
-			log.Panicf("hiddenLayerSizes must be > 0, got %v.", mlp.HiddenLayerSizes)
-		}
-	}
 	X, y = mlp.validateInput(X, y, incremental)
 	nSamples, nFeatures := X.Rows, X.Cols
 
@@ -583,6 +578,7 @@ func (mlp *BaseMultilayerPerceptron32) IsClassifier() bool {
 
 // Fit compute Coefs and Intercepts
 func (mlp *BaseMultilayerPerceptron32) Fit(X, Y Matrix) {
+	mlp.validateHyperparameters()
 	var xb, yb blas32.General
 	xg, xok := X.(RawMatrixer32)
 	yg, yok := Y.(RawMatrixer32)
@@ -631,6 +627,11 @@ func (mlp *BaseMultilayerPerceptron32) Predict(X mat.Matrix, Y Mutable) {
 }
 
 func (mlp *BaseMultilayerPerceptron32) validateHyperparameters() {
+	for _, s := range mlp.HiddenLayerSizes {
+		if s <= 0 {
+			log.Panicf("hiddenLayerSizes must be > 0, got %v.", mlp.HiddenLayerSizes)
+		}
+	}
 	if mlp.MaxIter <= 0 {
 		log.Panicf("maxIter must be > 0, got %d.", mlp.MaxIter)
 	}
diff --git a/neural_network/basemlp64.go b/neural_network/basemlp64.go
index 334f865..d85c5d9 100644
--- a/neural_network/basemlp64.go
+++ b/neural_network/basemlp64.go
@@ -497,11 +497,6 @@ func (mlp *BaseMultilayerPerceptron64) initialize(yCols int, layerUnits []int, i
 func (mlp *BaseMultilayerPerceptron64) fit(X, y blas64General, incremental bool) {
 	// # Validate input parameters.
 	mlp.validateHyperparameters()
-	for _, s := range mlp.HiddenLayerSizes {
-		if s <= 0 {
-			log.Panicf("hiddenLayerSizes must be > 0, got %v.", mlp.HiddenLayerSizes)
-		}
-	}
 	X, y = mlp.validateInput(X, y, incremental)
 	nSamples, nFeatures := X.Rows, X.Cols
 
@@ -583,6 +578,7 @@ func (mlp *BaseMultilayerPerceptron64) IsClassifier() bool {
 
 // Fit compute Coefs and Intercepts
 func (mlp *BaseMultilayerPerceptron64) Fit(X, Y Matrix) {
+	mlp.validateHyperparameters()
 	var xb, yb blas64.General
 	xg, xok := X.(RawMatrixer64)
 	yg, yok := Y.(RawMatrixer64)
@@ -631,6 +627,11 @@ func (mlp *BaseMultilayerPerceptron64) Predict(X mat.Matrix, Y Mutable) {
 }
 
 func (mlp *BaseMultilayerPerceptron64) validateHyperparameters() {
+	for _, s := range mlp.HiddenLayerSizes {
+		if s <= 0 {
+			log.Panicf("hiddenLayerSizes must be > 0, got %v.", mlp.HiddenLayerSizes)
+		}
+	}
 	if mlp.MaxIter <= 0 {
 		log.Panicf("maxIter must be > 0, got %d.", mlp.MaxIter)
 	}
-- 
2.43.0


From 886c9f5641db968b26562bc71100e549031abfc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:40 +0000
Subject: [PATCH 171/177] fix: asking for more neighbours than samples is
 refused before the workers start

---
 neighbors/unsupervised.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/neighbors/unsupervised.go b/neighbors/unsupervised.go
index 06fd80e..c83e270 100644
--- a/neighbors/unsupervised.go
+++ b/neighbors/unsupervised.go
@@ -1,6 +1,7 @@
 package neighbors
 
 import (
+	"fmt"
 	"math"
 	"runtime"
 	"sort"
@@ -71,6 +72,9 @@ func cosineDistance(a, b mat.Vector) float64 {
 // KNeighbors returns distances and indices of first NNeighbors
 func (m *NearestNeighbors) KNeighbors(X mat.Matrix, NNeighbors int) (distances, indices *mat.Dense) {
 	NSamples, NFeatures := X.Dims()
+	if nFit, _ := m.X.Dims(); NNeighbors > nFit {
+		panic(fmt.Errorf("NNeighbors>NSamples %d>%d", NNeighbors, nFit))
+	}
 	if m.Tree != nil {
 		return m.Tree.Query(X, NNeighbors, 1e-15, m.P, math.Inf(1))
 	}
-- 
2.43.0


From 44ac84bc32abb6baffe2cf8a61534a0f8eee17ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:40 +0000
Subject: [PATCH 172/177] fix: a neighbour model that refuses K keeps its data

---
 neighbors/classification.go | 6 +++---
 neighbors/regression.go     | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/neighbors/classification.go b/neighbors/classification.go
index 9a113d3..977157c 100644
--- a/neighbors/classification.go
+++ b/neighbors/classification.go
@@ -43,6 +43,9 @@ func (*KNeighborsClassifier) IsClassifier() bool { return true }
 
 // Fit ...
 func (m *KNeighborsClassifier) Fit(Xmatrix, Ymatrix mat.Matrix) base.Fiter {
+	if m.K <= 0 {
+		panic(fmt.Errorf("K<=0"))
+	}
 	X, Y := base.ToDense(Xmatrix), base.ToDense(Ymatrix)
 	m.Xscaled = mat.DenseCopyOf(X)
 	m.Y = mat.DenseCopyOf(Y)
@@ -50,9 +53,6 @@ func (m *KNeighborsClassifier) Fit(Xmatrix, Ymatrix mat.Matrix) base.Fiter {
 	if m.Distance == nil {
 		m.Distance = EuclideanDistance
 	}
-	if m.K <= 0 {
-		panic(fmt.Errorf("K<=0"))
-	}
 	m.NearestNeighbors.Fit(X, Y)
 	m.Classes, _ = getClasses(Y)
 	return m
diff --git a/neighbors/regression.go b/neighbors/regression.go
index e6b0761..c2d106c 100644
--- a/neighbors/regression.go
+++ b/neighbors/regression.go
@@ -42,15 +42,15 @@ func (*KNeighborsRegressor) IsClassifier() bool { return false }
 
 // Fit ...
 func (m *KNeighborsRegressor) Fit(Xmatrix, Ymatrix mat.Matrix) base.Fiter {
+	if m.K <= 0 {
+		panic(fmt.Errorf("K<=0"))
+	}
 	X, Y := base.ToDense(Xmatrix), base.ToDense(Ymatrix)
 	m.Xscaled = mat.DenseCopyOf(X)
 	m.Y = mat.DenseCopyOf(Y)
 	if m.Distance == nil {
 		m.Distance = EuclideanDistance
 	}
-	if m.K <= 0 {
-		panic(fmt.Errorf("K<=0"))
-	}
 	m.NearestNeighbors.Fit(X, Y)
 	return m
 }
-- 
2.43.0


From ec341d1b405f0a2e9fc9bd5b31ef7a3868fb659a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:08:26 +0000
Subject: [PATCH 173/177] fix: a row slice ends with its last cell, inside any
 window

---
 base/matrix.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/base/matrix.go b/base/matrix.go
index d8bfa29..de0e0cb 100644
--- a/base/matrix.go
+++ b/base/matrix.go
@@ -177,7 +177,7 @@ func MatGeneralRowSlice(M blas64.General, i, k int) blas64.General {
 		Rows:   k - i,
 		Cols:   M.Cols,
 		Stride: M.Stride,
-		Data:   M.Data[i*M.Stride : k*M.Stride],
+		Data:   M.Data[i*M.Stride : (k-1)*M.Stride+M.Cols],
 	}
 }
 
-- 
2.43.0


From 616f64eda0dade9b7471d146a74c3012cf261f00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:17:52 +0000
Subject: [PATCH 174/177] fix: R2Score holds for targets in small units and is
 0 or 1 for constant ones

---
 metrics/regression.go | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/metrics/regression.go b/metrics/regression.go
index a412235..c3f9213 100644
--- a/metrics/regression.go
+++ b/metrics/regression.go
@@ -109,8 +109,16 @@ func R2Score(yTrue, yPred mat.Matrix, sampleWeight *mat.Dense, multioutput strin
 
 	r2score := mat.NewDense(1, nOutputs, nil)
 	r2score.Apply(func(i int, j int, v float64) float64 {
-		d := math.Max(denominator.At(i, j), 1e-20)
-		return 1. - numerator.At(i, j)/d
+		n, d := numerator.At(i, j), denominator.At(i, j)
+		// rounding of the average aside, targets are constant
+		if bound := float64(nSamples) * 0x1p-52 * yTrueAvg.At(i, j); d <= sampleWeightSum*bound*bound {
+			denominator.Set(i, j, 0)
+			if n == 0 {
+				return 1.
+			}
+			return 0.
+		}
+		return 1. - n/d
 	}, r2score)
 	switch multioutput {
 	case "raw_values":
@@ -118,9 +126,11 @@ func R2Score(yTrue, yPred mat.Matrix, sampleWeight *mat.Dense, multioutput strin
 	case "variance_weighted":
 		r2 := mat.NewDense(1, 1, nil)
 		r2.Mul(denominator, r2score.T())
-		sumden := mat.Sum(denominator)
-		r2.Scale(1./sumden, r2)
-		return r2
+		if sumden := mat.Sum(denominator); sumden > 0 {
+			r2.Scale(1./sumden, r2)
+			return r2
+		}
+		return mat.NewDense(1, 1, []float64{mat.Sum(r2score) / float64(nOutputs)})
 	default: // "uniform_average":
 		return mat.NewDense(1, 1, []float64{mat.Sum(r2score) / float64(nOutputs)})
 	}
-- 
2.43.0


From 3a72d93f2a3dcca767882d2c65d7af2fa02f1458 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:25:52 +0000
Subject: [PATCH 175/177] fix: the Box-Cox exponent is the most likely one for
 data in small or large units

---
 preprocessing/data.go | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/preprocessing/data.go b/preprocessing/data.go
index 4b6806f..c19bb0f 100644
--- a/preprocessing/data.go
+++ b/preprocessing/data.go
@@ -1538,15 +1538,20 @@ func yeoJohnsonInverseTransform(xinv, x []float64, lmbda float64) {
 
 func boxCoxOptimize(x []float64) float64 {
 	xTrans := make([]float64, len(x))
+	// the likeliest exponent is the same in any unit; with a geometric mean of 1 the powers stay away from 0 and
+	// the sum of logarithms is 0
+	var meanlog float64
+	for _, xi := range x {
+		meanlog += math.Log(xi) / float64(len(x))
+	}
+	xUnit := make([]float64, len(x))
+	for i, xi := range x {
+		xUnit[i] = xi / math.Exp(meanlog)
+	}
 	negLogLikelihood := func(lmbda float64) float64 { // Return the negative log likelihood of the observed data x as a function of lambda
 		nSamples := len(x)
-		var sumlog float64
-		for _, xi := range x {
-			sumlog += math.Log(xi)
-		}
-		boxCoxTransform(xTrans, x, lmbda)
-		loglike := -float64(nSamples)/2*math.Log(float64(nSamples)*NumpyLike{}.Var(mat.NewDense(nSamples, 1, xTrans)).At(0, 0)) +
-			(lmbda-1)*sumlog
+		boxCoxTransform(xTrans, xUnit, lmbda)
+		loglike := -float64(nSamples) / 2 * math.Log(float64(nSamples)*NumpyLike{}.Var(mat.NewDense(nSamples, 1, xTrans)).At(0, 0))
 		return -loglike
 	}
 	maxFev := func(n int) bool { return n >= 500 }
-- 
2.43.0


From 78cbaca108f9ad28d2b35b41beb783f5a0d7f669 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:03:00 +0000
Subject: [PATCH 176/177] fix: an SGDOptimizer used as gonum method reports its
 status instead of panicking when it is done

---
 base/optimizers.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/base/optimizers.go b/base/optimizers.go
index 3ee6bbc..e4adeb1 100644
--- a/base/optimizers.go
+++ b/base/optimizers.go
@@ -79,6 +79,7 @@ type SGDOptimizer struct {
 
 	status optimize.Status
 	err    error
+	method *optimize.GradientDescent
 }
 
 // NewSGDOptimizer returns an initialized *SGDOptimizer with stepsize 1e-4 and momentum 0.9
@@ -321,7 +322,8 @@ func colNorm(m mat.Matrix, o int) float64 {
 func (s *SGDOptimizer) Init(dim, tasks int) int {
 	s.status = optimize.NotTerminated
 	s.err = nil
-	return 1
+	s.method = &optimize.GradientDescent{}
+	return s.method.Init(dim, tasks)
 }
 
 func (s *SGDOptimizer) initLocal(loc *optimize.Location) (op optimize.Operation, err error) {
@@ -343,7 +345,15 @@ func (s *SGDOptimizer) initLocal(loc *optimize.Location) (op optimize.Operation,
 
 // Run implements optimize.Method.Run for SGDOptimizer
 func (s *SGDOptimizer) Run(operation chan<- optimize.Task, result <-chan optimize.Task, tasks []optimize.Task) {
-	(&optimize.GradientDescent{}).Run(operation, result, tasks)
+	s.method.Run(operation, result, tasks)
+}
+
+// Status implements optimize.Statuser for SGDOptimizer
+func (s *SGDOptimizer) Status() (optimize.Status, error) {
+	if s.method == nil {
+		return s.status, s.err
+	}
+	return s.method.Status()
 }
 
 // Uses  is for when SGDOptimizer is used as an optimize.Method
-- 
2.43.0


From 8a329069fe4e75d022cc1061c17271f81f40bff3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:03:00 +0000
Subject: [PATCH 177/177] fix: clones of an SGDRegressor do not share the state
 of their optimizer

---
 linear_model/Base.go | 23 ++++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/linear_model/Base.go b/linear_model/Base.go
index c6a4e43..219c225 100644
--- a/linear_model/Base.go
+++ b/linear_model/Base.go
@@ -11,6 +11,7 @@ import (
 
 	//"gonum.org/v1/gonum/diff/fd"
 	"math"
+	"reflect"
 	"runtime"
 
 	"golang.org/x/exp/rand"
@@ -281,7 +282,7 @@ func (regr *SGDRegressor) Fit(Xmatrix, Ymatrix mat.Matrix) base.Fiter {
 		// printer.HeadingInterval = 1
 		// settings.Recorder = printer
 
-		method := regr.Method
+		method := copyMethod(regr.Method)
 		res, err := optimize.Minimize(p, initialcoefs, settings, method)
 		unused(err)
 		//fmt.Printf("res=%s %#v\n", res.Status.String(), res)
@@ -309,6 +310,26 @@ func (regr *SGDRegressor) Predict(X mat.Matrix, Ymutable mat.Mutable) *mat.Dense
 	return base.FromDense(Ymutable, Y)
 }
 
+// copyMethod returns a copy of method with line searchers and the like of its own, because an optimization
+// leaves its state in its method
+func copyMethod(method optimize.Method) optimize.Method {
+	v := reflect.ValueOf(method)
+	if v.Kind() != reflect.Ptr || v.IsNil() || v.Elem().Kind() != reflect.Struct {
+		return method
+	}
+	m := reflect.New(v.Type().Elem())
+	m.Elem().Set(v.Elem())
+	for i := 0; i < m.Elem().NumField(); i++ {
+		f := m.Elem().Field(i)
+		if f.Kind() == reflect.Interface && f.CanSet() && f.Elem().Kind() == reflect.Ptr && !f.Elem().IsNil() {
+			c := reflect.New(f.Elem().Type().Elem())
+			c.Elem().Set(f.Elem().Elem())
+			f.Set(c)
+		}
+	}
+	return m.Interface().(optimize.Method)
+}
+
 func unused(...interface{}) {}
 
 // LinFitOptions are options for LinFit
-- 
2.43.0

