package checks

import (
	"fmt"

	"verif/internal/refraster"

	"github.com/golang/freetype/raster"
	"golang.org/x/image/math/fixed"
)

func pt(x, y int) fixed.Point26_6 {
	return fixed.Point26_6{X: fixed.Int26_6(x), Y: fixed.Int26_6(y)}
}

// grid is a pixel grid filled from spans, checking the span contract.
type grid struct {
	w, h   int
	dx, dy int
	px     []uint32
	err    error
	last   raster.Span
	n      int
	any    bool
	dones  int
	batch  int
}

func (g *grid) reset(w, h int) {
	*g = grid{w: w, h: h, px: g.px[:0]}
	n := w * h
	if cap(g.px) < n {
		g.px = make([]uint32, n)
	} else {
		g.px = g.px[:n]
		for i := range g.px {
			g.px[i] = 0
		}
	}
}

// Paint implements raster.Painter.
func (g *grid) Paint(ss []raster.Span, done bool) {
	if g.err != nil {
		return
	}
	if g.dones > 0 {
		g.err = fmt.Errorf("Paint called after the final batch")
		return
	}
	g.batch++
	for _, s := range ss {
		g.n++
		if s.X0 >= s.X1 {
			g.err = fmt.Errorf("span %+v has no width", s)
			return
		}
		if s.Y-g.dy < 0 || s.Y-g.dy >= g.h || s.X0-g.dx < 0 || s.X1-g.dx > g.w {
			g.err = fmt.Errorf("span %+v outside the bounds %dx%d (offset %d,%d)", s, g.w, g.h, g.dx, g.dy)
			return
		}
		if s.Alpha == 0 || s.Alpha > 0xffff {
			g.err = fmt.Errorf("span %+v has alpha out of range", s)
			return
		}
		if g.any && (s.Y < g.last.Y || s.Y == g.last.Y && s.X0 < g.last.X1) {
			g.err = fmt.Errorf("span %+v follows %+v", s, g.last)
			return
		}
		g.any, g.last = true, s
		row := g.px[(s.Y-g.dy)*g.w:]
		for x := s.X0 - g.dx; x < s.X1-g.dx; x++ {
			row[x] = s.Alpha
		}
	}
	if done {
		g.dones++
	}
	// Paint may use all of ss as scratch space during the call.
	for i := range ss {
		ss[i] = raster.Span{Y: -77, X0: -88, X1: 1 << 20, Alpha: 0xdeadbeef}
	}
}

func (g *grid) finish() error {
	if g.err != nil {
		return g.err
	}
	if g.dones != 1 {
		return fmt.Errorf("%d final batches", g.dones)
	}
	return nil
}

func diffAlphas(got, want []uint32, w int) error {
	for i := range want {
		if got[i] != want[i] {
			return fmt.Errorf("pixel (%d,%d): alpha %#x, want %#x", i%w, i/w, got[i], want[i])
		}
	}
	return nil
}

// poly adds closed polygon ps to r and g.
func addPoly(r *raster.Rasterizer, g *refraster.Grid, ps [][2]int, dx, dy int) {
	if len(ps) == 0 {
		return
	}
	r.Start(pt(ps[0][0]+dx, ps[0][1]+dy))
	n := len(ps)
	for i := 1; i <= n; i++ {
		p, q := ps[i-1], ps[i%n]
		r.Add1(pt(q[0]+dx, q[1]+dy))
		if g != nil {
			g.Add(refraster.Seg{X0: p[0] + dx, Y0: p[1] + dy, X1: q[0] + dx, Y1: q[1] + dy})
		}
	}
}
