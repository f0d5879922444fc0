// Package refraster is the reference model of the rasterizer: the signed area
// of a path within each pixel, in closed form, on an unbounded grid.
//
// A segment's crossing of a row boundary is resolved to 1/64 pixel, and within
// a row its crossing of a column boundary likewise, always rounding towards
// negative infinity relative to the segment's start. Everything else is exact
// integer arithmetic. Unlike the implementation there is no incremental state:
// every crossing is computed directly from the segment's end points.
package refraster

// Seg is a directed line segment in 26.6 co-ordinates.
type Seg struct{ X0, Y0, X1, Y1 int }

func floorDiv(a, b int) int {
	q := a / b
	if (a%b != 0) && ((a < 0) != (b < 0)) {
		q--
	}
	return q
}

type key struct{ x, y int }

// Grid is the accumulated area and cover per cell, restricted to a window. The
// window only limits storage; cells left of it are folded into column X0-1.
type Grid struct {
	X0, Y0, W, H int
	area, cover  []int // (W+1) columns per row: column 0 is everything to the left
}

// NewGrid returns an empty grid for the window [x0,x0+w) x [y0,y0+h).
func NewGrid(x0, y0, w, h int) *Grid {
	return &Grid{x0, y0, w, h, make([]int, (w+1)*h), make([]int, (w+1)*h)}
}

// Reset empties the grid.
func (g *Grid) Reset(x0, y0, w, h int) {
	n := (w + 1) * h
	g.X0, g.Y0, g.W, g.H = x0, y0, w, h
	if cap(g.area) < n {
		g.area, g.cover = make([]int, n), make([]int, n)
		return
	}
	g.area, g.cover = g.area[:n], g.cover[:n]
	for i := range g.area {
		g.area[i], g.cover[i] = 0, 0
	}
}

func (g *Grid) acc(x, y, area, cover int) {
	y -= g.Y0
	if y < 0 || y >= g.H {
		return
	}
	x -= g.X0
	if x >= g.W {
		return
	}
	if x < 0 {
		x = -1
	}
	i := y*(g.W+1) + x + 1
	g.area[i] += area
	g.cover[i] += cover
}

// Add accumulates a segment.
func (g *Grid) Add(s Seg) {
	if s.Y0 == s.Y1 {
		return
	}
	dx := s.X1 - s.X0
	ady := s.Y1 - s.Y0
	dir := 1
	if ady < 0 {
		ady, dir = -ady, -1
	}
	// xAt is the resolved x at height y.
	xAt := func(y int) int {
		if y == s.Y1 {
			return s.X1
		}
		return s.X0 + floorDiv((y-s.Y0)*dir*dx, ady)
	}
	// Rows the segment passes through, in order. A row is [64r, 64r+64].
	y := s.Y0
	for y != s.Y1 {
		var row, next int
		if dir > 0 {
			row = floorDiv(y, 64)
			next = min(64*row+64, s.Y1)
		} else {
			row = floorDiv(y-1, 64)
			next = max(64*row, s.Y1)
		}
		if row >= g.Y0 && row < g.Y0+g.H {
			g.row(row, xAt(y), y-64*row, xAt(next), next-64*row)
		}
		y = next
	}
}

// row accumulates the part of a segment within one row.
func (g *Grid) row(row, x0, y0, x1, y1 int) {
	dy := y1 - y0
	adx := x1 - x0
	dir := 1
	if adx < 0 {
		adx, dir = -adx, -1
	}
	if adx == 0 {
		// Vertical within the row. On a column boundary the piece belongs to
		// the column on its right, with zero area.
		c := floorDiv(x0, 64)
		g.acc(c, row, 2*(x0-64*c)*dy, dy)
		return
	}
	yAt := func(x int) int {
		if x == x1 {
			return y1
		}
		return y0 + floorDiv((x-x0)*dir*dy, adx)
	}
	// Columns far left of the window all fold into one; skip quickly.
	x := x0
	for x != x1 {
		var col, next int
		if dir > 0 {
			col = floorDiv(x, 64)
			next = min(64*col+64, x1)
		} else {
			col = floorDiv(x-1, 64)
			next = max(64*col, x1)
		}
		dc := yAt(next) - yAt(x)
		g.acc(col, row, ((x-64*col)+(next-64*col))*dc, dc)
		x = next
	}
}

// Alpha converts a signed area (8192 is a full pixel, counted once) to 16 bits.
func Alpha(area int, nonZero bool) uint32 {
	a := floorDiv(area+1, 2)
	if a < 0 {
		a = -a
	}
	if nonZero {
		if a > 0xfff {
			a = 0xfff
		}
	} else {
		a %= 0x2000
		if a > 0x1000 {
			a = 0x2000 - a
		}
		if a == 0x1000 {
			a = 0xfff
		}
	}
	return uint32(a<<4 | a>>8)
}

// Areas returns the signed area of every pixel of the window, row by row.
func (g *Grid) Areas(out []int) []int {
	out = out[:0]
	for y := 0; y < g.H; y++ {
		cover := g.cover[y*(g.W+1)]
		for x := 0; x < g.W; x++ {
			i := y*(g.W+1) + x + 1
			cover += g.cover[i]
			out = append(out, cover*128-g.area[i])
		}
	}
	return out
}

// Alphas returns the alpha of every pixel of the window, row by row.
func (g *Grid) Alphas(nonZero bool, out []uint32) []uint32 {
	out = out[:0]
	for y := 0; y < g.H; y++ {
		cover := g.cover[y*(g.W+1)]
		for x := 0; x < g.W; x++ {
			i := y*(g.W+1) + x + 1
			cover += g.cover[i]
			out = append(out, Alpha(cover*128-g.area[i], nonZero))
		}
	}
	return out
}
