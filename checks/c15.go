package checks

import (
	"fmt"
	"math"
	"sync/atomic"

	"verif/internal/mc"
	"verif/internal/refraster"

	"github.com/golang/freetype/raster"
)

// curveCase is a closed path in 26.6 units: from P[0], one segment of degree
// Deg[i] after another, consuming that many points of P each, and a straight
// line back to P[0]. It is drawn into W x H pixels.
type curveCase struct {
	W, H   int
	P      [][2]int
	Deg    []int
	OX, OY int // added to every point
}

type c15worker struct {
	r    *raster.Rasterizer
	w, h int
	g    grid
	f    refraster.FGrid
	want []float64
}

var c15max [8]atomic.Uint64 // largest errors seen

func noteMax(i int, v float64) {
	for {
		o := c15max[i].Load()
		if v <= math.Float64frombits(o) || c15max[i].CompareAndSwap(o, math.Float64bits(v)) {
			return
		}
	}
}

// tol is the tolerance for one pixel's coverage. The subdivision tolerance
// depends on the bounds, in three classes; these are about 1.4 times the
// largest errors measured (which the evidence lists) and the bugs of interest
// exceed them by far at some size of curve.
func (c *curveCase) tol() (float64, int) {
	cubic := 0
	for _, d := range c.Deg {
		if d == 3 {
			cubic = 1
		}
	}
	switch m := max(c.W, c.H); {
	case m <= 24:
		return []float64{0.10, 0.15}[cubic], 0 + cubic
	case m <= 120:
		return []float64{0.17, 0.20}[cubic], 2 + cubic
	}
	return []float64{0.30, 0.33}[cubic], 4 + cubic
}

func execC15(x *mc.X, c curveCase) error {
	k, _ := x.Scratch.(*c15worker)
	if k == nil {
		k = &c15worker{r: raster.NewRasterizer(0, 0)}
		x.Scratch = k
	}
	if k.w != c.W || k.h != c.H {
		k.r.SetBounds(c.W, c.H)
		k.w, k.h = c.W, c.H
	} else {
		k.r.Clear()
	}
	k.r.UseNonZeroWinding = true
	k.f.Reset(c.W, c.H)
	P := func(i int) (float64, float64) {
		return float64(c.P[i][0]+c.OX) / 64, float64(c.P[i][1]+c.OY) / 64
	}
	I := func(i int) (p [2]int) { return [2]int{c.P[i][0] + c.OX, c.P[i][1] + c.OY} }
	fx := func(i int) (f [2]int) { return I(i) }
	a := fx(0)
	k.r.Start(pt(a[0], a[1]))
	px, py := P(0)
	minx, maxx, miny, maxy := px, px, py, py
	see := func(qx, qy float64) {
		k.f.Add(px, py, qx, qy)
		px, py = qx, qy
		minx, maxx, miny, maxy = math.Min(minx, qx), math.Max(maxx, qx), math.Min(miny, qy), math.Max(maxy, qy)
	}
	i := 0
	span := 0
	for j := range c.P {
		span = max(span, max(abs(c.P[j][0]-c.P[0][0]), abs(c.P[j][1]-c.P[0][1])))
	}
	n := 128
	if span > 64*100 {
		n = 512
	}
	if span > 1<<19 {
		n = 2048
	}
	if span > 1<<21 {
		n = 8192
	}
	for _, d := range c.Deg {
		switch d {
		case 1:
			b := fx(i + 1)
			k.r.Add1(pt(b[0], b[1]))
			see(P(i + 1))
		case 2:
			b, e := fx(i+1), fx(i+2)
			k.r.Add2(pt(b[0], b[1]), pt(e[0], e[1]))
			ax, ay := P(i)
			bx, by := P(i + 1)
			ex, ey := P(i + 2)
			for s := 1; s <= n; s++ {
				t := float64(s) / float64(n)
				u := 1 - t
				see(u*u*ax+2*u*t*bx+t*t*ex, u*u*ay+2*u*t*by+t*t*ey)
			}
		case 3:
			b, e, g := fx(i+1), fx(i+2), fx(i+3)
			k.r.Add3(pt(b[0], b[1]), pt(e[0], e[1]), pt(g[0], g[1]))
			ax, ay := P(i)
			bx, by := P(i + 1)
			ex, ey := P(i + 2)
			gx, gy := P(i + 3)
			for s := 1; s <= n; s++ {
				t := float64(s) / float64(n)
				u := 1 - t
				see(u*u*u*ax+3*u*u*t*bx+3*u*t*t*ex+t*t*t*gx, u*u*u*ay+3*u*u*t*by+3*u*t*t*ey+t*t*t*gy)
			}
		}
		i += d
		x.Step(1)
	}
	k.r.Add1(pt(a[0], a[1]))
	see(P(0))
	k.g.reset(c.W, c.H)
	k.r.Rasterize(&k.g)
	x.Step(2)
	if err := k.g.finish(); err != nil {
		return err
	}
	k.want = k.f.Areas(k.want)
	h := mc.NewHash()
	worst, wi := 0.0, 0
	for i, a := range k.want {
		w := math.Min(math.Abs(a), 1)
		got := float64(k.g.px[i]) / 65535
		if e := math.Abs(w - got); e > worst {
			worst, wi = e, i
		}
		// Outside the curve's box, grown by a little, nothing at all: a gap at
		// an end point leaks along a whole row.
		if got != 0 {
			X, Y := float64(i%c.W), float64(i/c.W)
			if X > maxx+0.25 || X+1 < minx-0.25 || Y > maxy+0.25 || Y+1 < miny-0.25 {
				return fmt.Errorf("pixel (%d,%d): coverage %.4f outside the curve's box", i%c.W, i/c.W, got)
			}
		}
		h.Int(int(k.g.px[i]))
	}
	x.StateU(uint64(h))
	x.Outcome(uint64(h))
	x.Validated()
	tol, class := c.tol()
	noteMax(class, worst)
	if worst > tol {
		return fmt.Errorf("pixel (%d,%d): coverage %.4f, true curve %.4f", wi%c.W, wi/c.W, float64(k.g.px[wi])/65535, k.want[wi])
	}
	return nil
}

func abs(a int) int {
	if a < 0 {
		return -a
	}
	return a
}

// straightCase: a curve whose control points lie on its chord, in a triangle
// with a third point E, must fill like the chord itself.
type straightCase struct {
	W, H    int
	A, C, E [2]int
	T       []int // control points' positions along the chord, in 1/8
}

func execStraight(x *mc.X, c straightCase) error {
	k := rw(x)
	k.begin(c.W, c.H)
	at := func(t int) [2]int {
		return [2]int{c.A[0] + (c.C[0]-c.A[0])*t/8, c.A[1] + (c.C[1]-c.A[1])*t/8}
	}
	k.r.Start(pt(c.A[0], c.A[1]))
	b := at(c.T[0])
	if len(c.T) == 1 {
		k.r.Add2(pt(b[0], b[1]), pt(c.C[0], c.C[1]))
	} else {
		d := at(c.T[1])
		k.r.Add3(pt(b[0], b[1]), pt(d[0], d[1]), pt(c.C[0], c.C[1]))
	}
	k.r.Add1(pt(c.E[0], c.E[1]))
	k.r.Add1(pt(c.A[0], c.A[1]))
	k.g.reset(c.W, c.H)
	k.r.UseNonZeroWinding = true
	k.r.Rasterize(&k.g)
	x.Step(5)
	if err := k.g.finish(); err != nil {
		return err
	}
	for _, e := range [][4]int{{c.A[0], c.A[1], c.C[0], c.C[1]}, {c.C[0], c.C[1], c.E[0], c.E[1]}, {c.E[0], c.E[1], c.A[0], c.A[1]}} {
		k.ref.Add(refraster.Seg{X0: e[0], Y0: e[1], X1: e[2], Y1: e[3]})
	}
	k.want = k.ref.Alphas(true, k.want)
	h := mc.NewHash()
	for i := range k.want {
		e := math.Abs(float64(k.want[i])-float64(k.g.px[i])) / 65535
		noteMax(6, e)
		if e > 0.09 {
			return fmt.Errorf("pixel (%d,%d): coverage %.4f, with a straight line %.4f", i%c.W, i/c.W, float64(k.g.px[i])/65535, float64(k.want[i])/65535)
		}
		h.Int(int(k.g.px[i]))
	}
	x.StateU(uint64(h))
	x.Outcome(uint64(h))
	x.Validated()
	return nil
}

func latticeN(n, w, h int) (ps [][2]int) {
	for y := 0; y <= n; y++ {
		for x := 0; x <= n; x++ {
			ps = append(ps, [2]int{x * w / n, y * h / n})
		}
	}
	return ps
}

var c15 = &mc.Check{
	ID: "C15",
	Rule: "every quadratic on an n x n lattice, every cubic on a smaller one, every chain of a quadratic and a cubic on a 3 x 3 one, scaled to sizes from sub-pixel to 2^18 pixels (larger ones seen through a window), " +
		"for each subdivision class of bounds; every pixel's coverage compared with that of the mathematical curve; all straight degenerate curves compared with their chord",
	Assumptions: []string{"tolerance 0.10-0.33 of a pixel's coverage depending on the bounds, about 1.4 times the largest error measured"},
	Run: func(c *mc.Ctx) {
		type sz struct{ w, h, ext int } // ext: lattice extent in 1/64 pixels (of the larger side)
		sizes := []sz{{3, 3, 90}, {6, 6, 320}, {22, 22, 1300}, {24, 10, 1500}, {25, 20, 1550}, {60, 60, 3700}, {20, 118, 7400}, {121, 60, 7600}, {150, 150, 9400}}
		for _, s := range sizes {
			name := fmt.Sprintf("%dx%d", s.w, s.h)
			ew, eh := s.ext*s.w/max(s.w, s.h), s.ext*s.h/max(s.w, s.h)
			big := s.w*s.h > 5000
			mc.Explore(c, "quadratics-"+name, func(yield func(curveCase) bool) {
				n := c.N(4, 5)
				if big {
					n--
				}
				ps := latticeN(n, ew, eh)
				for _, p := range ps {
					for _, q := range ps {
						for _, r := range ps {
							if !yield(curveCase{s.w, s.h, [][2]int{p, q, r}, []int{2}, 20, 30}) {
								return
							}
						}
					}
				}
			}, execC15)
			mc.Explore(c, "cubics-"+name, func(yield func(curveCase) bool) {
				n := 2
				if c.Thorough() && !big {
					n = 3
				}
				ps := latticeN(n, ew, eh)
				for _, p := range ps {
					for _, q := range ps {
						for _, r := range ps {
							for _, t := range ps {
								if !yield(curveCase{s.w, s.h, [][2]int{p, q, r, t}, []int{3}, 5, 41}) {
									return
								}
							}
						}
					}
				}
			}, execC15)
		}
		// Curves far larger than the bounds, seen through a window. The window
		// is moved along the curve's lattice.
		for _, s := range []sz{{20, 20, 20000}, {100, 100, 60000}, {200, 50, 200000}, {100, 100, 1 << 20}, {20, 20, 1 << 22}, {200, 50, 1 << 24}} {
			ts := []float64{0.03, 0.3, 0.5, 0.77}
			if c.Thorough() {
				ts = []float64{0, 0.03, 0.11, 0.25, 0.3, 0.5, 0.62, 0.77, 0.9, 1}
			}
			mc.Explore(c, fmt.Sprintf("windows-%dx%d-%d", s.w, s.h, s.ext), func(yield func(curveCase) bool) {
				ps := latticeN(2, s.ext, s.ext)
				for _, p := range ps {
					for _, q := range ps {
						for _, r := range ps {
							for _, t := range ts {
								u := 1 - t
								ox := -int(u*u*float64(p[0])+2*u*t*float64(q[0])+t*t*float64(r[0])) + 32*s.w
								oy := -int(u*u*float64(p[1])+2*u*t*float64(q[1])+t*t*float64(r[1])) + 32*s.h
								if !yield(curveCase{s.w, s.h, [][2]int{p, q, r}, []int{2}, ox, oy}) {
									return
								}
								m := [2]int{q[1], p[0]}
								ox = -int(u*u*u*float64(p[0])+3*u*u*t*float64(q[0])+3*u*t*t*float64(m[0])+t*t*t*float64(r[0])) + 32*s.w
								oy = -int(u*u*u*float64(p[1])+3*u*u*t*float64(q[1])+3*u*t*t*float64(m[1])+t*t*t*float64(r[1])) + 32*s.h
								if !yield(curveCase{s.w, s.h, [][2]int{p, q, m, r}, []int{3}, ox, oy}) {
									return
								}
							}
						}
					}
				}
			}, execC15)
		}
		// Chains: the next segment starts where the curve ended.
		mc.Explore(c, "chains", func(yield func(curveCase) bool) {
			ps := latticeN(c.N(2, 2), 1200, 1200)
			for i, p := range ps {
				for _, q := range ps {
					for _, r := range ps {
						for k, t := range ps {
							if (i+k)%2 == 1 && !c.Thorough() {
								continue
							}
							for _, d := range [][]int{{2, 1}, {1, 2}, {2, 2}, {3, 1}, {1, 3}} {
								pp := [][2]int{p, q, r, t, {700, 333}}
								n := 1
								for _, e := range d {
									n += e
								}
								if !yield(curveCase{21, 21, pp[:n], d, 33, 11}) {
									return
								}
							}
						}
					}
				}
			}
		}, execC15)
		mc.Explore(c, "straight", func(yield func(straightCase) bool) {
			for _, s := range []sz{{8, 8, 400}, {40, 40, 2400}, {130, 130, 8000}} {
				ps := latticeN(4, s.ext, s.ext)
				for _, p := range ps {
					for _, q := range ps {
						for _, e := range [][2]int{{0, 0}, {s.ext, s.ext / 3}, {s.ext / 2, s.ext}} {
							for t := 0; t <= 8; t++ {
								if s.w > 100 && t%3 != 1 {
									continue
								}
								if !yield(straightCase{s.w, s.h, p, q, e, []int{t}}) || !yield(straightCase{s.w, s.h, p, q, e, []int{t, 8 - t/2}}) {
									return
								}
							}
						}
					}
				}
			}
		}, execStraight)
		for i, n := range []string{"max error quadratics <=24px", "cubics <=24px", "quadratics <=120px", "cubics <=120px", "quadratics >120px", "cubics >120px", "straight"} {
			c.Extra(n, math.Float64frombits(c15max[i].Load()))
		}
	},
}
