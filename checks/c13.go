package checks

import (
	"fmt"
	"slices"

	"verif/internal/mc"
	"verif/internal/refraster"

	"github.com/golang/freetype/raster"
)

// spanCase describes a synthetic drawing: on each of Rows rows, N bars.
type spanCase struct {
	W, H   int
	Dx, Dy int
	NZ     bool
	Row0   int // first row with bars
	Rows   int
	Skip   int // distance between rows with bars
	Bars   []int
	Kind   int // 0 pixel-aligned bars, 1 half-pixel bars, 2 slanted bars, 3 nested opposite pairs, 4 reverse order, 5 wide half-pixel bars
}

// c13: a fresh rasterizer per case, since buffer growth is part of the state.
func execSpans(x *mc.X, c spanCase) error {
	k := rw(x)
	if c.Kind == 5 {
		c.W *= 4
	}
	r := raster.NewRasterizer(c.W, c.H)
	k.r, k.w, k.h = r, c.W, c.H
	r.Dx, r.Dy, r.UseNonZeroWinding = c.Dx, c.Dy, c.NZ
	k.ref.Reset(0, 0, c.W, c.H)
	for i := 0; i < c.Rows; i++ {
		y := (c.Row0 + i*c.Skip) * 64
		n := c.Bars[i%len(c.Bars)]
		for j := 0; j < n; j++ {
			jj := j
			if c.Kind == 4 {
				jj = n - 1 - j
			}
			x0 := jj * 128
			if c.Kind == 5 {
				x0 *= 4
			}
			switch c.Kind {
			case 0, 4:
				addPoly(r, k.ref, [][2]int{{x0, y}, {x0 + 64, y}, {x0 + 64, y + 64}, {x0, y + 64}}, 0, 0)
			case 1:
				addPoly(r, k.ref, [][2]int{{x0 + 32, y}, {x0 + 96, y}, {x0 + 96, y + 64}, {x0 + 32, y + 64}}, 0, 0)
			case 5:
				addPoly(r, k.ref, [][2]int{{x0 + 32, y}, {x0 + 400, y}, {x0 + 400, y + 64}, {x0 + 32, y + 64}}, 0, 0)
			case 2:
				addPoly(r, k.ref, [][2]int{{x0, y}, {x0 + 64, y}, {x0 + 100, y + 128}, {x0 + 40, y + 128}}, 0, 0)
			case 3:
				addPoly(r, k.ref, [][2]int{{x0, y}, {x0 + 256, y}, {x0 + 256, y + 64}, {x0, y + 64}}, 0, 0)
				addPoly(r, k.ref, [][2]int{{x0 + 64, y + 64}, {x0 + 192, y + 64}, {x0 + 192, y}, {x0 + 64, y}}, 0, 0)
			}
			x.Step(5)
		}
	}
	for pass := 0; pass < 2; pass++ { // rasterizing twice must not lose anything either
		g := &k.g
		g.reset(c.W, c.H)
		g.dx, g.dy = c.Dx, c.Dy
		r.Rasterize(g)
		x.Step(1)
		if err := g.finish(); err != nil {
			return fmt.Errorf("pass %d: %v", pass, err)
		}
		k.want = k.ref.Alphas(c.NZ, k.want)
		if err := diffAlphas(g.px, k.want, c.W); err != nil {
			return fmt.Errorf("pass %d: %v", pass, err)
		}
		h := mc.NewHash()
		for _, a := range k.want {
			h.Int(int(a))
		}
		h.Int(c.W)
		x.StateU(uint64(h))
		h.Int(g.batch)
		h.Int(g.n)
		x.Outcome(uint64(h))
		x.Validated()
	}
	k.r, k.w, k.h = raster.NewRasterizer(0, 0), 0, 0
	return nil
}

// patternCase is a row of bars: some, then a last one repeated, of the kinds
// that add 1, 2, 3 or 4 spans, or touch the next one.
type patternCase struct {
	Lead []int
	Rep  int
	N    int
	W    int // 0 for wide enough
	Dx   int
}

func execPattern(x *mc.X, c patternCase) error {
	k := rw(x)
	var polys [][][2]int
	px := 0
	for i := 0; i < c.N; i++ {
		kind := c.Rep
		if i < len(c.Lead) {
			kind = c.Lead[i]
		}
		box := func(x0, x1, y0, y1 int) {
			polys = append(polys, [][2]int{{x0, y0}, {x1, y0}, {x1, y1}, {x0, y1}})
		}
		switch kind {
		case 0: // Within a pixel.
			box(px+10, px+50, 0, 64)
			px += 128
		case 1: // Two partial pixels.
			box(px+32, px+96, 0, 50)
			px += 192
		case 2: // Partial, run, partial.
			box(px+32, px+224, 0, 64)
			px += 320
		case 3: // A run, and one of another height right after it.
			box(px, px+192, 0, 64)
			box(px+192, px+320, 3, 40)
			px += 320
		case 4: // A run that ends where the next one begins.
			box(px, px+128, 0, 64)
			px += 128
		}
	}
	w := c.W
	if w == 0 {
		w = px/64 + 2
	}
	r := raster.NewRasterizer(w, 1)
	k.r, k.w, k.h = r, w, 1
	k.ref.Reset(0, 0, w, 1)
	r.Dx, r.UseNonZeroWinding = c.Dx, true
	for _, p := range polys {
		addPoly(r, k.ref, p, 0, 0)
		x.Step(5)
	}
	k.g.reset(w, 1)
	k.g.dx, k.g.dy = c.Dx, 0
	r.Rasterize(&k.g)
	x.Step(1)
	n := k.g.n
	if err := k.g.finish(); err != nil {
		return err
	}
	k.want = k.ref.Alphas(true, k.want)
	if err := diffAlphas(k.g.px, k.want, w); err != nil {
		return err
	}
	h := mc.NewHash()
	for _, a := range k.want {
		h.Int(int(a))
	}
	x.StateU(uint64(h))
	h.Int(n)
	x.Outcome(uint64(h))
	x.Validated()
	k.r, k.w, k.h = raster.NewRasterizer(0, 0), 0, 0
	return nil
}

// polyOff is a polygon with an output offset and contract checking.
type polyOff struct {
	polyCase
	Dx, Dy int
}

func execPolyOff(x *mc.X, c polyOff) error {
	k := rw(x)
	k.begin(c.W, c.H)
	k.r.Dx, k.r.Dy = c.Dx, c.Dy
	for _, ps := range c.P {
		addPoly(k.r, k.ref, ps, 0, 0)
		x.Step(len(ps) + 1)
	}
	for _, nz := range []bool{true, false} {
		k.g.reset(c.W, c.H)
		k.g.dx, k.g.dy = c.Dx, c.Dy
		k.r.UseNonZeroWinding = nz
		k.r.Rasterize(&k.g)
		x.Step(1)
		if err := k.g.finish(); err != nil {
			return err
		}
		k.want = k.ref.Alphas(nz, k.want)
		if err := diffAlphas(k.g.px, k.want, c.W); err != nil {
			return fmt.Errorf("nonzero=%v: %v", nz, err)
		}
		h := mc.NewHash()
		for _, a := range k.want {
			h.Int(int(a))
		}
		h.Int(c.W)
		x.StateU(uint64(h))
		x.Outcome(uint64(h))
		x.Validated()
	}
	return nil
}

// curveCase: contract (not coverage) for curves, checked via grid.Paint.
type curveSpan struct {
	W, H, Dx, Dy int
	P            [4][2]int
	Cubic        bool
}

func execCurveSpan(x *mc.X, c curveSpan) error {
	k := rw(x)
	k.begin(c.W, c.H)
	k.r.Dx, k.r.Dy = c.Dx, c.Dy
	k.r.Start(pt(c.P[0][0], c.P[0][1]))
	if c.Cubic {
		k.r.Add3(pt(c.P[1][0], c.P[1][1]), pt(c.P[2][0], c.P[2][1]), pt(c.P[3][0], c.P[3][1]))
	} else {
		k.r.Add2(pt(c.P[1][0], c.P[1][1]), pt(c.P[2][0], c.P[2][1]))
	}
	k.r.Add1(pt(c.P[0][0], c.P[0][1]))
	x.Step(3)
	var first []uint32
	for pass := 0; pass < 2; pass++ {
		k.g.reset(c.W, c.H)
		k.g.dx, k.g.dy = c.Dx, c.Dy
		k.r.Rasterize(&k.g)
		x.Step(1)
		if err := k.g.finish(); err != nil {
			return err
		}
		if pass == 0 {
			first = append(first, k.g.px...)
		} else if err := diffAlphas(k.g.px, first, c.W); err != nil {
			return fmt.Errorf("second rasterization differs: %v", err)
		}
	}
	h := mc.NewHash()
	for _, a := range first {
		h.Int(int(a))
	}
	x.StateU(uint64(h))
	x.Outcome(uint64(h))
	x.Validated()
	_ = refraster.Seg{}
	return nil
}

var c13 = &mc.Check{
	ID: "C13",
	Rule: "all counts of bars per row (hence spans, cells, batches) around every buffer size, all sequences of 5 kinds of bars that add 1 to 4 spans (3 leading ones, then one repeated), over rows, heights around 64, offsets and both winding rules; all triangles on a lattice under output offsets; " +
		"all small curves; each batch checked against the painter contract and the union of spans compared pixel by pixel with the signed-area model",
	Assumptions: []string{"the painter may scribble over the span slice, as documented"},
	Run: func(c *mc.Ctx) {
		mc.Explore(c, "bars", func(yield func(spanCase) bool) {
			maxN := c.N(150, 400)
			for kind := 0; kind <= 5; kind++ {
				for n := 0; n <= maxN; n++ {
					for _, off := range [][2]int{{0, 0}, {-5, 7}} {
						for _, cut := range []int{0, 1, 40, 1000} { // bounds narrower than the drawing
							w := 2*n + 4 - cut
							if w < 0 {
								continue
							}
							if !yield(spanCase{W: w, H: 3, Dx: off[0], Dy: off[1], NZ: n%2 == 0, Row0: n % 3, Rows: 1, Skip: 1, Bars: []int{n}, Kind: kind}) {
								return
							}
						}
					}
				}
			}
		}, execSpans)
		mc.Explore(c, "bars-rows", func(yield func(spanCase) bool) {
			ns := []int{0, 1, 2, 15, 16, 20, 21, 30, 31, 32, 33, 61, 62, 63, 64, 65, 66, 93, 94, 95, 125, 126, 127, 128}
			for kind := 0; kind <= 5; kind++ {
				for _, a := range ns {
					for _, b := range ns {
						for _, d := range ns {
							if !c.Thorough() && (a+b+d)%3 != 0 {
								continue
							}
							w := 2*max(a, max(b, d)) + 3
							if !yield(spanCase{W: w, H: 5, Dx: 3, Dy: -2, NZ: true, Row0: 0, Rows: 4, Skip: 1, Bars: []int{a, b, d}, Kind: kind}) {
								return
							}
						}
					}
				}
			}
		}, execSpans)
		// All sequences of kinds of bars, so that batches fill up at all phases.
		mc.Explore(c, "patterns", func(yield func(patternCase) bool) {
			for lead := 0; lead <= c.N(3, 5); lead++ {
				if !tuples(lead, 5, func(t []int) bool {
					for rep := 0; rep < 5; rep++ {
						for _, n := range []int{16, 24, 33, 48, 67, 140} {
							for _, w := range []int{0, 61, 150} {
								if !yield(patternCase{slices.Clone(t), rep, n, w, n%3 - 1}) {
									return false
								}
							}
						}
					}
					return true
				}) {
					return
				}
			}
		}, execPattern)
		// Many rows: heights around the row buffer, one to three bars each.
		mc.Explore(c, "heights", func(yield func(spanCase) bool) {
			for h := 0; h <= c.N(140, 300); h++ {
				for _, n := range []int{1, 2, 3} {
					for kind := 0; kind <= 5; kind++ {
						for _, skip := range []int{1, 2, 7} {
							if !yield(spanCase{W: 12, H: h, Dx: 0, Dy: 1, NZ: false, Row0: -2, Rows: (h+4)/skip + 1, Skip: skip, Bars: []int{n}, Kind: kind}) {
								return
							}
						}
					}
				}
			}
		}, execSpans)
		// Cell buffer growth: total cells from few to several thousand.
		mc.Explore(c, "cells", func(yield func(spanCase) bool) {
			for n := 1; n <= c.N(70, 200); n++ {
				for rows := 1; rows <= 40; rows++ {
					if n*rows > 3200 || (!c.Thorough() && (n+rows)%2 == 1 && n*rows > 300) {
						continue
					}
					for _, kind := range []int{0, 2, 4} {
						if !yield(spanCase{W: 2*n + 2, H: rows + 1, Dx: 0, Dy: 0, NZ: true, Row0: 0, Rows: rows, Skip: 1, Bars: []int{n}, Kind: kind}) {
							return
						}
					}
				}
			}
		}, execSpans)
		// Rows of thousands of spans, tens of thousands of cells, far offsets.
		mc.Explore(c, "large", func(yield func(spanCase) bool) {
			for _, n := range []int{255, 256, 257, 1000, 4100, 20000, 33000} {
				for _, rows := range []int{1, 2, 5} {
					for kind := 0; kind <= 5; kind++ {
						for i, off := range [][2]int{{0, 0}, {1 << 20, -1 << 20}, {-1 << 29, 1 << 29}, {32767, 65535}} {
							if n >= 4100 && (i > 0 || n > 4100 && kind != 4) {
								continue // a row's cells are inserted in a linear list
							}
							if !yield(spanCase{W: 2*n + 3, H: rows + 1, Dx: off[0], Dy: off[1], NZ: i&1 == 0, Row0: 0, Rows: rows, Skip: 1, Bars: []int{n}, Kind: kind}) {
								return
							}
						}
					}
				}
			}
		}, execSpans)
		xs := []int{-200, -64, -1, 0, 30, 64, 120, 192, 300}
		mc.Explore(c, "triangles-offset", func(yield func(polyOff) bool) {
			ps := lattice(xs, xs)
			for i, p := range ps {
				for _, q := range ps {
					for _, r := range ps[i:] {
						w, h := 3, 3
						if (p[0]+q[1])&64 != 0 {
							w, h = 1, 4
						}
						far := [][2]int{{0, 0}, {1 << 20, -1 << 16}, {-1 << 30, 1 << 30}, {32765, 65534}}[(p[0]+r[1])&3]
						if !yield(polyOff{polyCase{w, h, [][][2]int{{p, q, r}}, false}, p[1] - 3 + far[0], q[0] + far[1]}) {
							return
						}
					}
				}
			}
		}, execPolyOff)
		mc.Explore(c, "curves", func(yield func(curveSpan) bool) {
			a := []int{-100, 0, 64, 130, 500}
			ps := lattice(a, a)
			for _, p := range ps {
				for _, q := range ps {
					for _, r := range ps {
						if !yield(curveSpan{3, 3, 1, -1, [4][2]int{p, q, r}, false}) {
							return
						}
						if !yield(curveSpan{30, 4, -9, 11, [4][2]int{p, q, r, {q[1], p[0]}}, true}) {
							return
						}
					}
				}
			}
		}, execCurveSpan)
	},
}
