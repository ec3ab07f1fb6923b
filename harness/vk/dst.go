package vk

import (
	"strconv"

	"gonum.org/v1/gonum/mat"
)

// Mut is a mutable matrix that is nothing more than the interface.
type Mut struct{ D *mat.Dense }

// Dims of the matrix
func (m Mut) Dims() (int, int) { return m.D.Dims() }

// At reads a cell
func (m Mut) At(i, j int) float64 { return m.D.At(i, j) }

// T is the transpose
func (m Mut) T() mat.Matrix { return mat.Transpose{Matrix: m} }

// Set writes a cell
func (m Mut) Set(i, j int, v float64) { m.D.Set(i, j, v) }

// Dst is a destination for predictions, filled with junk.
type Dst struct {
	Name string
	M    mat.Mutable
	D    *mat.Dense
	big  *mat.Dense
	raw  []float64
}

const dstJunk = -777.125

// Dst draws a destination of r x cols: none, compact, window or interface-only.
func (c *C) Dst(label string, r, cols int) *Dst {
	d := &Dst{Name: c.Pick(label+"_dst", "compact", "nil", "window", "mutable")}
	if d.Name == "nil" {
		return d
	}
	d.D = mat.NewDense(r, cols, nil)
	for i := range d.D.RawMatrix().Data {
		d.D.RawMatrix().Data[i] = 31.5
	}
	switch d.Name {
	case "compact":
		d.M = d.D
		d.raw = d.D.RawMatrix().Data
	case "window":
		d.D, d.big = Strided(d.D, 1, 2, 1, 1, dstJunk)
		d.M = d.D
	default:
		d.M = Mut{d.D}
	}
	return d
}

// EqDst checks what was returned, what was written, and that nothing around the destination was.
func (c *C) EqDst(what string, ret *mat.Dense, d *Dst, want mat.Matrix, rtol, atol float64) {
	c.Helper()
	c.Eq(what+" (returned)", ret, want, rtol, atol)
	if d.Name == "nil" {
		return
	}
	c.Eq(what+" (destination "+d.Name+")", d.D, want, rtol, atol)
	if d.raw != nil {
		r, cols := want.Dims()
		c.Eq(what+" (storage of destination "+d.Name+")", mat.NewDense(r, cols, d.raw), want, rtol, atol)
	}
	if d.big != nil {
		r, cols := d.D.Dims()
		c.Eq(what+" (storage of destination "+d.Name+")", d.big.Slice(1, 1+r, 2, 2+cols), want, rtol, atol)
		br, bc := d.big.Dims()
		for i := 0; i < br; i++ {
			for j := 0; j < bc; j++ {
				if (i < 1 || i > r || j < 2 || j >= 2+cols) && d.big.At(i, j) != dstJunk {
					c.Fatalf("%s wrote outside its destination, at (%d,%d)", what, i, j)
				}
			}
		}
	}
}

// G prints a number shortly.
func G(v float64) string { return strconv.FormatFloat(v, 'g', -1, 64) }
