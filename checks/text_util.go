package checks

import (
	"fmt"
	"image"

	"verif/internal/fontgen"
	"verif/internal/mc"

	"github.com/golang/freetype"
	"github.com/golang/freetype/raster"
	"github.com/golang/freetype/truetype"
	"golang.org/x/image/font"
	"golang.org/x/image/math/fixed"
)

// A fpt is a point in 26.6 units, y downwards.
type fpt struct {
	X, Y float64
	On   bool
}

// closedPath is the path of the closed curve that a contour denotes: points
// implied between off-curve neighbours are put in, and the walk starts at an
// on-curve point.
func closedPath(ps []fpt) (p raster.Path) {
	n := len(ps)
	if n == 0 {
		return nil
	}
	var full []fpt
	for i, a := range ps {
		b := ps[(i+1)%n]
		full = append(full, a)
		if !a.On && !b.On {
			full = append(full, fpt{(a.X + b.X) / 2, (a.Y + b.Y) / 2, true})
		}
	}
	s := -1
	for i, a := range full {
		if a.On {
			s = i
			break
		}
	}
	if s < 0 {
		return nil
	}
	full = append(full[s:len(full):len(full)], full[:s]...)
	full = append(full, full[0])
	at := func(a fpt) fixed.Point26_6 {
		return fixed.Point26_6{X: fixed.Int26_6(floorInt(a.X)), Y: fixed.Int26_6(floorInt(a.Y))}
	}
	p.Start(at(full[0]))
	for i := 1; i < len(full); i++ {
		if full[i].On {
			p.Add1(at(full[i]))
		} else {
			p.Add2(at(full[i]), at(full[i+1]))
			i++
		}
	}
	return p
}

func floorInt(v float64) int {
	n := int(v)
	if float64(n) > v {
		n--
	}
	return n
}

// glyphPaths is the picture of a loaded outline with its origin at (ox, oy).
func glyphPaths(points []truetype.Point, ends []int, ox, oy fixed.Int26_6) (out []raster.Path) {
	e0 := 0
	for _, e1 := range ends {
		var ps []fpt
		for _, p := range points[e0:e1] {
			ps = append(ps, fpt{float64(ox + p.X), float64(oy - p.Y), p.Flags&1 != 0})
		}
		if p := closedPath(ps); p != nil {
			out = append(out, p)
		}
		e0 = e1
	}
	return out
}

// A mask8 is a w by h array of 8 bit coverage.
type mask8 struct {
	w, h int
	pix  []uint8
}

func newMask8(w, h int) *mask8 { return &mask8{w, h, make([]uint8, w*h)} }

func (g *mask8) clear() {
	for i := range g.pix {
		g.pix[i] = 0
	}
}

func (g *mask8) Paint(ss []raster.Span, done bool) {
	for _, s := range ss {
		for x := s.X0; x < s.X1; x++ {
			g.pix[s.Y*g.w+x] = uint8(s.Alpha >> 8)
		}
	}
}

// fillPaths rasterizes paths into g with r, which has g's size.
func fillPaths(g *mask8, r *raster.Rasterizer, paths []raster.Path, nonZero bool) {
	g.clear()
	r.Clear()
	r.UseNonZeroWinding = nonZero
	for _, p := range paths {
		r.AddPath(p)
	}
	r.Rasterize(g)
}

// textScratch is per-worker state for drawing.
type textScratch struct {
	r       *raster.Rasterizer
	a, b, c *mask8
	dst     *image.Alpha
	w, h    int
}

func textBufs(x *mc.X, w, h int) *textScratch {
	if s, ok := x.Scratch.(*textScratch); ok && s.w == w && s.h == h {
		return s
	}
	s := &textScratch{r: raster.NewRasterizer(w, h), a: newMask8(w, h), b: newMask8(w, h), c: newMask8(w, h), dst: image.NewAlpha(image.Rect(0, 0, w, h)), w: w, h: h}
	x.Scratch = s
	return s
}

func absInt(v int) int {
	if v < 0 {
		return -v
	}
	return v
}

// sameGrid compares two pictures pixel by pixel.
func sameGrid(got, want []uint8, w, tol int) error {
	for i := range want {
		if absInt(int(got[i])-int(want[i])) > tol {
			return fmt.Errorf("pixel (%d, %d) is %d, want %d", i%w, i/w, got[i], want[i])
		}
	}
	return nil
}

// newContext is a context that draws opaque text on an alpha image.
func newContext(f *truetype.Font, size float64, h font.Hinting, dst *image.Alpha) *freetype.Context {
	c := freetype.NewContext()
	c.SetFont(f)
	c.SetFontSize(size)
	c.SetHinting(h)
	c.SetSrc(image.Opaque)
	c.SetDst(dst)
	c.SetClip(dst.Bounds())
	return c
}

// faceGlyph draws a rune's mask into g.
func faceGlyph(g *mask8, face font.Face, dot fixed.Point26_6, r rune) (adv fixed.Int26_6, err error) {
	g.clear()
	dr, mask, mp, adv, ok := face.Glyph(dot, r)
	if !ok {
		return 0, fmt.Errorf("Glyph(%v, %q) fails", dot, r)
	}
	for y := dr.Min.Y; y < dr.Max.Y; y++ {
		for x := dr.Min.X; x < dr.Max.X; x++ {
			_, _, _, a := mask.At(mp.X+x-dr.Min.X, mp.Y+y-dr.Min.Y).RGBA()
			if 0 <= x && x < g.w && 0 <= y && y < g.h {
				g.pix[y*g.w+x] = uint8(a >> 8)
			} else if a != 0 {
				return 0, fmt.Errorf("Glyph(%v, %q) paints (%d, %d)", dot, r, x, y)
			}
		}
	}
	return adv, nil
}

func clearAlpha(m *image.Alpha) {
	for i := range m.Pix {
		m.Pix[i] = 0
	}
}

var _ = fontgen.New
