package checks

import (
	"fmt"

	"verif/internal/mc"
	"verif/internal/refraster"

	"github.com/golang/freetype/raster"
)

// rastWorker is the per-worker scratch of the rasterizer checks.
type rastWorker struct {
	r    *raster.Rasterizer
	w, h int
	g    grid
	ref  *refraster.Grid
	want []uint32
}

func rw(x *mc.X) *rastWorker {
	if x.Scratch == nil {
		x.Scratch = &rastWorker{r: raster.NewRasterizer(0, 0), ref: refraster.NewGrid(0, 0, 1, 1)}
	}
	return x.Scratch.(*rastWorker)
}

func (k *rastWorker) begin(w, h int) {
	k.r.Dx, k.r.Dy, k.r.UseNonZeroWinding = 0, 0, false
	if w != k.w || h != k.h {
		k.r.SetBounds(w, h)
		k.w, k.h = w, h
	} else {
		k.r.Clear()
	}
	k.ref.Reset(0, 0, w, h)
}

// compare rasterizes with both winding rules and compares with the model.
func (k *rastWorker) compare(x *mc.X) error {
	for _, nz := range []bool{false, true} {
		k.g.reset(k.w, k.h)
		k.r.UseNonZeroWinding = nz
		k.r.Rasterize(&k.g)
		x.Step(1)
		if err := k.g.finish(); err != nil {
			return err
		}
		k.want = k.ref.Alphas(nz, k.want)
		if err := diffAlphas(k.g.px, k.want, k.w); err != nil {
			return fmt.Errorf("nonzero=%v bounds %dx%d: %v", nz, k.w, k.h, err)
		}
		h := mc.NewHash()
		for _, a := range k.want {
			h.Int(int(a))
		}
		x.StateU(uint64(h))
		x.Outcome(uint64(h))
		x.Validated()
	}
	return nil
}

type polyCase struct {
	W, H int
	P    [][][2]int // contours
	Open bool       // the last contour is open: it is closed far to the right
}

func execPoly(x *mc.X, c polyCase) error {
	k := rw(x)
	k.begin(c.W, c.H)
	for i, ps := range c.P {
		if c.Open && i == len(c.P)-1 {
			k.r.Start(pt(ps[0][0], ps[0][1]))
			for j := 1; j < len(ps); j++ {
				k.r.Add1(pt(ps[j][0], ps[j][1]))
				k.ref.Add(refraster.Seg{X0: ps[j-1][0], Y0: ps[j-1][1], X1: ps[j][0], Y1: ps[j][1]})
			}
			// Close it far to the right of the bounds: a horizontal line, a
			// vertical one beyond the last column, and a horizontal one back.
			first, last := ps[0], ps[len(ps)-1]
			far := 64*c.W + 1000
			k.r.Add1(pt(far, last[1]))
			k.r.Add1(pt(far, first[1]))
			k.r.Add1(pt(first[0], first[1]))
			x.Step(len(ps) + 3)
			continue
		}
		addPoly(k.r, k.ref, ps, 0, 0)
		x.Step(len(ps) + 1)
	}
	return k.compare(x)
}

func lattice(xs, ys []int) (ps [][2]int) {
	for _, y := range ys {
		for _, x := range xs {
			ps = append(ps, [2]int{x, y})
		}
	}
	return ps
}

// c12 decides C12.
var c12 = &mc.Check{
	ID: "C12",
	Rule: "every segment from a set of start points to every point of a dense window; every triangle on a sub-pixel lattice; every ordered pair of small shapes at all relative positions; " +
		"long edges; images of up to 70000 rows or columns; each over bounds placements and both winding rules, compared pixel by pixel with the closed-form signed-area model",
	Assumptions: []string{"coordinates within +-2^23 units, and +-2^29 units horizontally in a small image", "segment crossings are resolved to 1/64 pixel, rounded down relative to the segment's start"},
	Run: func(c *mc.Ctx) {
		// 1. Single segments, left open: the signed-area model is defined for
		// them, and they isolate Add1.
		mc.Explore(c, "segments", func(yield func(polyCase) bool) {
			starts := [][2]int{{0, 0}, {1, 1}, {63, 63}, {64, 64}, {31, 100}, {100, 31}, {190, 5}, {5, 190}, {-1, -1}, {-64, 64}, {-65, 3}, {70, -70}, {200, 200}, {128, 0}, {0, 128}, {129, 127}}
			for i := 0; i < c.N(24, 300); i++ {
				starts = append(starts, [2]int{(i*37+11)%260 - 70, (i*53+29)%260 - 70})
			}
			for _, s := range starts {
				for y := -75; y <= 205; y++ {
					for x := -75; x <= 205; x++ {
						if !yield(polyCase{3, 3, [][][2]int{{s, {x, y}}}, true}) {
							return
						}
					}
				}
			}
		}, execPoly)
		// 2. Triangles.
		xs := []int{-130, -64, -33, -1, 0, 1, 32, 63, 64, 65, 127, 128, 150, 193}
		ys := []int{-130, -64, -20, -1, 0, 17, 63, 64, 65, 128, 140, 193}
		if !c.Thorough() {
			xs = []int{-64, -33, -1, 0, 1, 32, 63, 64, 65, 128, 150, 193}
			ys = []int{-65, -20, -1, 0, 17, 63, 64, 65, 128, 140, 193}
		}
		mc.Explore(c, "triangles", func(yield func(polyCase) bool) {
			ps := lattice(xs, ys)
			for i, p := range ps {
				for j, q := range ps {
					if j == i {
						continue
					}
					for _, r := range ps[i+1:] { // rotations are the same triangle up to the start
						w, h := 2, 2
						if (i+j)%3 == 0 {
							w, h = 3, 3
						}
						if !yield(polyCase{w, h, [][][2]int{{p, q, r}}, false}) {
							return
						}
					}
				}
			}
		}, execPoly)
		// 3. Polylines continuing one another (the pen carries on), 3 points.
		mc.Explore(c, "polylines", func(yield func(polyCase) bool) {
			a := []int{-40, 0, 20, 64, 90, 128}
			ps := lattice(a, a)
			for _, p := range ps {
				for _, q := range ps {
					for _, r := range ps {
						if !yield(polyCase{2, 2, [][][2]int{{p, q, r}}, true}) {
							return
						}
					}
				}
			}
		}, execPoly)
		mc.Explore(c, "quadrilaterals", func(yield func(polyCase) bool) {
			a, b := []int{-50, 0, 40, 64, 100, 128}, []int{-64, 0, 30, 64, 111, 150}
			if !c.Thorough() {
				a, b = a[:5], b[:5]
			}
			ps := lattice(a, b)
			for i, p := range ps {
				for _, q := range ps[i:] {
					for _, r := range ps {
						for _, s := range ps[i:] {
							if !yield(polyCase{2, 2, [][][2]int{{p, q, r, s}}, false}) {
								return
							}
						}
					}
				}
			}
		}, execPoly)
		// 4. Pairs of contours at all relative positions and orientations.
		shapes := [][][2]int{
			{{0, 0}, {64, 0}, {64, 64}, {0, 64}},
			{{0, 64}, {64, 64}, {64, 0}, {0, 0}},
			{{10, 5}, {90, 40}, {30, 100}},
			{{30, 100}, {90, 40}, {10, 5}},
			{{0, 0}, {128, 128}, {128, 0}, {0, 128}}, // bow tie
			{{0, 0}, {200, 0}, {200, 200}, {0, 200}},
			{{0, 200}, {200, 200}, {200, 0}, {0, 0}},
		}
		mc.Explore(c, "contour-pairs", func(yield func(polyCase) bool) {
			off := []int{-200, -100, -64, -13, 0, 1, 31, 64, 96, 150}
			if !c.Thorough() {
				off = []int{-100, -64, 0, 31, 64, 150}
			}
			for _, a := range shapes {
				for _, b := range shapes {
					for _, ay := range off {
						for _, ax := range off {
							for _, by := range off {
								for _, bx := range off {
									if !yield(polyCase{3, 3, [][][2]int{shift(a, ax, ay), shift(b, bx, by)}, false}) {
										return
									}
								}
							}
						}
					}
				}
			}
		}, execPoly)
		// 5. Three nested/overlapping contours: winding numbers up to 3.
		mc.Explore(c, "winding", func(yield func(polyCase) bool) {
			off := []int{-70, -8, 0, 8, 64}
			for _, a := range shapes {
				for _, b := range shapes {
					for _, d := range shapes {
						for _, u := range off {
							for _, v := range off {
								if !yield(polyCase{4, 3, [][][2]int{a, shift(b, u, v), shift(d, v, u)}, false}) {
									return
								}
							}
						}
					}
				}
			}
		}, execPoly)
		// Large winding numbers: a contour many times over, and another one.
		mc.Explore(c, "many-windings", func(yield func(polyCase) bool) {
			for _, n := range []int{3, 4, 5, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1023, 1024, 1025, 4095, 4096, 4097} {
				for _, a := range shapes {
					for _, b := range shapes {
						if n > 300 && !c.Thorough() && (len(a) != 4 || len(b) != 3) {
							continue
						}
						for _, u := range []int{-8, 64} {
							cs := [][][2]int{shift(b, u, 8)}
							for i := 0; i < n; i++ {
								cs = append(cs, a)
							}
							if !yield(polyCase{4, 3, cs, false}) {
								return
							}
						}
					}
				}
			}
		}, execPoly)
		// 6. Bounds: one shape against every size of bounds and placement.
		mc.Explore(c, "bounds", func(yield func(polyCase) bool) {
			for w := 0; w <= 4; w++ {
				for h := 0; h <= 4; h++ {
					for _, s := range shapes {
						for oy := -4; oy <= 5; oy++ {
							for ox := -4; ox <= 5; ox++ {
								for _, f := range []int{0, 1, 37, 63} {
									if !yield(polyCase{w, h, [][][2]int{shift(s, ox*64+f, oy*64+f/2)}, false}) {
										return
									}
								}
							}
						}
					}
				}
			}
		}, execPoly)
		// 7. Long edges: every end point offset near a far target, over wide and
		// tall bounds (remainders accumulate over many rows and columns).
		mc.Explore(c, "long-edges", func(yield func(polyCase) bool) {
			tx := []int{700, 6400, 12345, -700, -5000}
			n := c.N(6, 20)
			for _, x := range tx {
				for _, y := range tx {
					for dy := 0; dy < n; dy++ {
						for dx := 0; dx < n; dx++ {
							for _, b := range [][2]int{{120, 3}, {3, 120}, {40, 70}, {200, 200}} {
								if b[0] == 200 && !(dx < 3 && dy < 3) {
									continue
								}
								if !yield(polyCase{b[0], b[1], [][][2]int{{{13 + dx*7, 29 + dy*5}, {x + dx*11, y + dy*13}}}, true}) {
									return
								}
								if !yield(polyCase{b[0], b[1], [][][2]int{{{x + dx*11, y + dy*13}, {13 + dx*7, 29 + dy*5}, {450, 4400 + dx}}}, false}) {
									return
								}
							}
						}
					}
				}
			}
		}, execPoly)
		// 8. Images of more than 2^15 and 2^16 columns or rows, and far vertices.
		mc.Explore(c, "large-images", func(yield func(polyCase) bool) {
			for _, b := range [][2]int{{70000, 2}, {33000, 3}, {2, 70000}, {3, 33000}, {1030, 530}, {260, 257}} {
				w, h := 64*b[0], 64*b[1]
				xs := []int{-100, 31, w / 3, w - 70, w + 33, -1 << 23}
				ys := []int{-77, 40, h / 2, h - 65, h + 1000, 1 << 23}
				if !c.Thorough() {
					xs, ys = xs[1:], ys[1:]
				}
				ps := lattice(xs, ys)
				for i, p := range ps {
					for j, q := range ps {
						for _, r := range ps[max(i, j):] {
							if p == q || q == r || (p[0] == q[0] && q[0] == r[0]) || (p[1] == q[1] && q[1] == r[1]) {
								continue
							}
							if !c.Thorough() && (i+j)%6 != 0 {
								continue
							}
							if !yield(polyCase{b[0], b[1], [][][2]int{{p, q, r}}, false}) {
								return
							}
						}
					}
				}
				// Many cells: slivers, the last ones leftmost.
				if b[0] == 1030 {
					var cs [][][2]int
					for i := 340; i > 0; i-- {
						cs = append(cs, [][2]int{{i * 192, 10}, {i*192 + 70, 10}, {i*192 + 110, h - 9}, {i*192 + 50, h - 9}})
					}
					for _, cs := range [][][][2]int{cs, cs[:170], cs[200:]} {
						if !yield(polyCase{b[0], b[1], cs, false}) {
							return
						}
					}
				}
				// Small shapes in far corners.
				for _, s := range shapes {
					for _, x := range []int{0, 1, w / 2, w - 128, w - 64, 1<<21 - 64, 1<<22 - 100} {
						for _, y := range []int{0, 1, h / 2, h - 128, h - 64, 1<<21 - 64, 1<<22 - 100} {
							if !yield(polyCase{b[0], b[1], [][][2]int{shift(s, x, y)}, false}) {
								return
							}
						}
					}
				}
			}
		}, execPoly)
		// 8b. Edges so wide that 64 times their width needs more than 32 bits.
		mc.Explore(c, "wide", func(yield func(polyCase) bool) {
			ws := []int{1<<25 - 1, 1 << 25, 1<<25 + 1<<22 + 7, 1 << 26, 1<<26 + 12345}
			if c.Thorough() {
				ws = append(ws, 1<<25+1, 1<<27+333, 1<<28)
			}
			for _, w := range ws {
				for _, x := range []int{0, 37, 150} {
					for _, y := range []int{-100, 10, 70} {
						for _, h := range []int{65, 200, 390} {
							for _, ps := range [][][2]int{
								{{x - w, y}, {x, y + h}, {x - w, y + h}},
								{{x, y}, {x + w, y + h}, {x, y + h}},
								{{x - w, y + h}, {x, y}, {x, y + h}},
								{{x - w/2, y}, {x + w - w/2, y + h}, {x - 5, y + h}},
								{{x + w - w/2, y}, {x - w/2, y + h}, {x + 9, y - 3}},
							} {
								if !yield(polyCase{4, 4, [][][2]int{ps}, false}) {
									return
								}
							}
						}
					}
				}
			}
		}, execPoly)
		// 9. Every sub-pixel phase of a fixed edge.
		mc.Explore(c, "phases", func(yield func(polyCase) bool) {
			for _, d := range [][2]int{{100, 37}, {-100, 37}, {100, -37}, {-100, -37}, {37, 100}, {-37, 150}, {0, 130}, {0, -130}, {130, 0}, {128, 128}, {-128, 64}} {
				for y := 0; y < 64; y++ {
					for x := 0; x < 64; x++ {
						s := [2]int{64 + x, 64 + y}
						if !yield(polyCase{4, 4, [][][2]int{{s, {s[0] + d[0], s[1] + d[1]}}}, true}) {
							return
						}
					}
				}
			}
		}, execPoly)
	},
}

func shift(ps [][2]int, dx, dy int) [][2]int {
	out := make([][2]int, len(ps))
	for i, p := range ps {
		out[i] = [2]int{p[0] + dx, p[1] + dy}
	}
	return out
}
