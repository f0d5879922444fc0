package refraster

import "math"

// FGrid accumulates exact (floating-point) signed areas per pixel.
type FGrid struct {
	W, H int
	a    []float64 // W+2 columns per row: running differences
}

// NewFGrid returns an empty grid for [0,w) x [0,h) pixels.
func NewFGrid(w, h int) *FGrid { return &FGrid{w, h, make([]float64, (w+3)*h)} }

// Reset empties the grid.
func (g *FGrid) Reset(w, h int) {
	n := (w + 3) * h
	g.W, g.H = w, h
	if cap(g.a) < n {
		g.a = make([]float64, n)
		return
	}
	g.a = g.a[:n]
	for i := range g.a {
		g.a[i] = 0
	}
}

// Add accumulates the segment from (x0,y0) to (x1,y1), in pixels.
func (g *FGrid) Add(x0, y0, x1, y1 float64) {
	if y0 == y1 {
		return
	}
	dir := 1.0
	if y0 > y1 {
		x0, y0, x1, y1 = x1, y1, x0, y0
		dir = -1
	}
	dxdy := (x1 - x0) / (y1 - y0)
	if y0 < 0 {
		x0 -= y0 * dxdy
		y0 = 0
	}
	x := x0
	ymax := math.Min(float64(g.H), y1)
	for y := int(y0); float64(y) < ymax; y++ {
		ya := math.Max(float64(y), y0)
		yb := math.Min(float64(y+1), ymax)
		if yb <= ya {
			continue
		}
		dy := yb - ya
		xn := x + dxdy*dy
		g.row(y, x, xn, dir*dy)
		x = xn
	}
}

// row distributes a piece of height d (signed) running from x0 to x1 in row y.
func (g *FGrid) row(y int, x0, x1, d float64) {
	if x0 > x1 {
		x0, x1 = x1, x0
	}
	r := g.a[y*(g.W+3) : (y+1)*(g.W+3)]
	put := func(x float64, d float64) { // vertical piece at x
		if x >= float64(g.W) {
			return
		}
		if x < 0 {
			r[0] += d
			return
		}
		i := int(x)
		f := x - float64(i)
		r[i] += d * (1 - f)
		r[i+1] += d * f
	}
	if x1-x0 < 1e-9 {
		put((x0+x1)/2, d)
		return
	}
	// Split at pixel boundaries; within a pixel the mean x is exact.
	x := x0
	for x < x1 {
		n := math.Floor(x) + 1
		if n > x1 {
			n = x1
		}
		if x < 0 && n <= 0 {
			n = math.Min(0, x1)
		}
		if x >= float64(g.W) {
			return
		}
		put2 := d * (n - x) / (x1 - x0)
		m := (x + n) / 2
		if x < 0 {
			r[0] += put2
		} else {
			i := int(x)
			f := m - float64(i)
			r[i] += put2 * (1 - f)
			r[i+1] += put2 * f
		}
		x = n
	}
}

// Areas appends the signed coverage (1 = a full pixel) of every pixel.
func (g *FGrid) Areas(out []float64) []float64 {
	out = out[:0]
	for y := 0; y < g.H; y++ {
		s := 0.0
		for x := 0; x < g.W; x++ {
			s += g.a[y*(g.W+3)+x]
			out = append(out, s)
		}
	}
	return out
}
