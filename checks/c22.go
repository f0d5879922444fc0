package checks

import (
	"fmt"

	"verif/internal/fontgen"
	"verif/internal/mc"

	"github.com/golang/freetype/truetype"
	"golang.org/x/image/font"
	"golang.org/x/image/math/fixed"
)

// A contourSpec is a list of points on a grid.
type contourSpec struct {
	Contours [][]fontgen.Pt
	Rot      int // rotation of every contour's starting point
	FX       int // sub-pixel position, in 26.6 units, a multiple of 16
}

const (
	c22W    = 24
	c22Tol  = 8  // implied points may be rounded either way
	c22Size = 16 // a unit is a quarter of a pixel
)

func rotateContour(c []fontgen.Pt, k int) []fontgen.Pt {
	n := len(c)
	if n == 0 {
		return nil
	}
	k %= n
	return append(append([]fontgen.Pt(nil), c[k:]...), c[:k]...)
}

// checkContours draws the contours through a context and a face.
func checkContours(x *mc.X, k contourSpec) error {
	var cs [][]fontgen.Pt
	for _, c := range k.Contours {
		cs = append(cs, rotateContour(c, k.Rot))
	}
	ft := fontgen.New(fontgen.Simple(cs, fontgen.SimpleOpts{}))
	ft.HM[0].LSB = fontgen.BBoxOf(cs)[0]
	ft.BBox = [4]int{-8, -8, 72, 72} // how finely curves are split depends on the bounds
	f, err := parseOK(ft.Bytes())
	if err != nil {
		return err
	}
	s := textBufs(x, c22W, c22W)
	ox, oy := fixed.Int26_6(4*64+k.FX), fixed.Int26_6(20*64)
	// The picture of the contours as given, not rotated.
	scale := 64 * c22Size
	var pts []truetype.Point
	var ends []int
	for _, c := range k.Contours {
		for _, p := range c {
			fl := uint32(0)
			if p.On {
				fl = 1
			}
			pts = append(pts, truetype.Point{X: i26(scaleRef(scale, p.X, 64)), Y: i26(scaleRef(scale, p.Y, 64)), Flags: fl})
		}
		ends = append(ends, len(pts))
	}
	paths := glyphPaths(pts, ends, ox, oy)
	fillPaths(s.a, s.r, paths, false)
	fillPaths(s.b, s.r, paths, true)
	compare := func(who string, got []uint8) error {
		e := sameGrid(got, s.a.pix, c22W, c22Tol)
		if e != nil && sameGrid(got, s.b.pix, c22W, c22Tol) != nil {
			return fmt.Errorf("%s: %v", who, e)
		}
		return nil
	}
	clearAlpha(s.dst)
	ctx := newContext(f, c22Size, font.HintingNone, s.dst)
	if _, err := ctx.DrawString("A", fixed.Point26_6{X: ox, Y: oy}); err != nil {
		return fmt.Errorf("DrawString: %v", err)
	}
	if err := compare("context", s.dst.Pix); err != nil {
		return err
	}
	face := truetype.NewFace(f, &truetype.Options{Size: c22Size, GlyphCacheEntries: 1})
	if _, err := faceGlyph(s.c, face, fixed.Point26_6{X: ox, Y: oy}, 'A'); err != nil {
		return err
	}
	if err := compare("face", s.c.pix); err != nil {
		return err
	}
	if err := sameGrid(s.c.pix, s.dst.Pix, c22W, 1); err != nil {
		return fmt.Errorf("face and context disagree: %v", err)
	}
	x.Step(2)
	x.Validated()
	h := mc.NewHash()
	h.Bytes(s.dst.Pix)
	x.Outcome(uint64(h))
	return nil
}

// Points of the pattern contours, scattered around a ring.
var c22Ring = []fontgen.Pt{{X: 32, Y: 63}, {X: 50, Y: 40}, {X: 61, Y: 30}, {X: 47, Y: 11}, {X: 30, Y: 1}, {X: 13, Y: 14}, {X: 3, Y: 29}, {X: 10, Y: 41}, {X: 17, Y: 58}}

func withFlags(ps []fontgen.Pt, mask int) []fontgen.Pt {
	out := append([]fontgen.Pt(nil), ps...)
	for i := range out {
		out[i].On = mask>>i&1 != 0
	}
	return out
}

func gridPts(codes []int, side, step int) (out []fontgen.Pt) {
	for _, c := range codes {
		out = append(out, fontgen.Pt{X: c % side * step, Y: c / side * step})
	}
	return out
}

// Small contours for the lists of contours.
var c22Small = [][]fontgen.Pt{
	{{X: 2, Y: 3, On: true}, {X: 2, Y: 41, On: true}, {X: 33, Y: 20, On: true}},
	{{X: 20, Y: 50, On: false}, {X: 60, Y: 55, On: false}, {X: 44, Y: 10, On: false}},
	{{X: 5, Y: 60, On: false}, {X: 30, Y: 33, On: true}, {X: 1, Y: 20, On: true}},
	{{X: 50, Y: 5, On: true}},
	{{X: 50, Y: 5, On: false}},
	{{X: 10, Y: 5, On: true}, {X: 40, Y: 35, On: false}},
	{{X: 60, Y: 5, On: false}, {X: 40, Y: 35, On: false}},
	{},
	{{X: 45, Y: 45, On: true}, {X: 63, Y: 45, On: false}, {X: 63, Y: 63, On: true}, {X: 45, Y: 63, On: false}},
}

var c22 = &mc.Check{
	ID:          "C22",
	Rule:        "all on/off patterns of contours of 1..8 (9 thorough) points in both directions with every starting point at 2 sub-pixel positions; all contours of 1..3 points on a 4x4 grid and of 4 points on a 3x3 grid (4x4 thorough), coincident and crossing ones included, with all patterns; all lists of 1..4 contours of 9 kinds (triangles, all off-curve, one and two points, empty) with 3 rotations. Each is drawn by a new context and a new face and compared with the closed curve with the implied points put in",
	Assumptions: []string{"where a contour crosses itself or another, the even-odd and the non-zero rule are both accepted", "the reference curve is filled by the raster package, which C12 and C15 decide", "8/255 per pixel, for the rounding of implied points to 1/64 pixel"},
	Run: func(c *mc.Ctx) {
		mc.Explore(c, "patterns", func(yield func(contourSpec) bool) {
			for n := 1; n <= c.N(8, 9); n++ {
				ring := c22Ring[:n]
				for dir := 0; dir < 2; dir++ {
					ps := append([]fontgen.Pt(nil), ring...)
					if dir == 1 {
						for i := range ps {
							ps[i] = ring[n-1-i]
						}
					}
					for mask := 0; mask < 1<<n; mask++ {
						for rot := 0; rot < n; rot++ {
							for _, fx := range []int{0, 16} {
								if !yield(contourSpec{[][]fontgen.Pt{withFlags(ps, mask)}, rot, fx}) {
									return
								}
							}
						}
					}
				}
			}
		}, checkContours)
		mc.Explore(c, "grid", func(yield func(contourSpec) bool) {
			for n := 1; n <= 4; n++ {
				side, step := 4, 17
				if n == 4 && !c.Thorough() {
					side, step = 3, 25
				}
				if !tuples(n, side*side, func(t []int) bool {
					for mask := 0; mask < 1<<n; mask++ {
						if !yield(contourSpec{[][]fontgen.Pt{withFlags(gridPts(t, side, step), mask)}, 0, 0}) {
							return false
						}
					}
					return true
				}) {
					return
				}
			}
		}, checkContours)
		mc.Explore(c, "contours", func(yield func(contourSpec) bool) {
			for n := 1; n <= 4; n++ {
				if !tuples(n, len(c22Small), func(t []int) bool {
					var cs [][]fontgen.Pt
					for _, i := range t {
						cs = append(cs, c22Small[i])
					}
					if len(cs[0]) == 0 {
						return true // cannot be encoded
					}
					for rot := 0; rot < 3; rot++ {
						if !yield(contourSpec{cs, rot, 32}) {
							return false
						}
					}
					return true
				}) {
					return
				}
			}
		}, checkContours)
	},
}
