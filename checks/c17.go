package checks

import (
	"fmt"
	"image"
	"image/color"
	"image/draw"

	"verif/internal/mc"

	"github.com/golang/freetype/raster"
)

// Painter kinds.
const (
	pkAlphaOver = iota
	pkAlphaSrc
	pkRGBAOver
	pkRGBASrc
	nPainters
)

// geomCase paints spans on an image of rectangle (MinX,MinY)+(W,H), which lies
// in a larger backing array with Pad unused pixels at the end of each row and
// Lead pixels before the first.
type geomCase struct {
	Kind             int
	MinX, MinY, W, H int
	Pad, Lead        int
	Sub              bool
	Batches          [][]raster.Span
	Color            int // added to the index of the colour
}

var testColors = []color.Color{
	color.RGBA{0, 0, 0, 0},
	color.RGBA{255, 255, 255, 255},
	color.RGBA{200, 100, 50, 255},
	color.RGBA64{0x1234, 0x4567, 0x7fff, 0x8000},
	color.RGBA64{0, 0x00ff, 0x0100, 0x0101},
	color.RGBA64{0xffff, 0xfffe, 0x8000, 0xffff},
	color.Gray16{0xabcd},
	color.NRGBA{255, 10, 0, 77},
}

// wantPixel is the exact Porter-Duff result in 8-bit units.
func wantPixel(kind int, d uint8, alpha, cch, ca uint32) float64 {
	a := float64(alpha) / 0xffff
	switch kind {
	case pkAlphaOver:
		return float64(d) + (255-float64(d))*a
	case pkAlphaSrc:
		return 255 * a
	case pkRGBAOver:
		return float64(d)*(1-float64(ca)/0xffff*a) + float64(cch)/257*a
	default:
		return float64(cch) / 257 * a
	}
}

// checkPixel compares one channel; the extremes must be exact.
func checkPixel(kind int, d, got uint8, alpha, cch, ca uint32) error {
	w := wantPixel(kind, d, alpha, cch, ca)
	tol := 1.0001
	if kind == pkAlphaOver {
		tol = 2.0001 // the alpha is rounded to 8 bits first
	}
	if e := float64(got) - w; e > tol || e < -tol {
		return fmt.Errorf("painter %d: channel %d under alpha %#x colour %#x/%#x becomes %d, want %.3f", kind, d, alpha, cch, ca, got, w)
	}
	over := kind == pkAlphaOver || kind == pkRGBAOver
	exact := -1
	switch {
	case alpha == 0 && over, kind == pkRGBAOver && ca == 0 && cch == 0:
		exact = int(d)
	case alpha == 0:
		exact = 0
	case alpha == 0xffff && (kind == pkAlphaOver || kind == pkAlphaSrc):
		exact = 255
	case alpha == 0xffff && (kind == pkRGBASrc || ca == 0xffff):
		exact = int(cch >> 8)
	}
	if exact >= 0 && int(got) != exact {
		return fmt.Errorf("painter %d: channel %d under alpha %#x colour %#x/%#x becomes %d, want exactly %d", kind, d, alpha, cch, ca, got, exact)
	}
	return nil
}

func sentinel(i int) uint8 { return uint8(37*i + 11) }

func execGeom(x *mc.X, c geomCase) error {
	bpp := 1
	if c.Kind >= pkRGBAOver {
		bpp = 4
	}
	rect := image.Rect(c.MinX, c.MinY, c.MinX+c.W, c.MinY+c.H)
	var pix []uint8 // the whole backing array
	var off, stride int
	var p raster.Painter
	col := testColors[(3+c.Color)%len(testColors)]
	cr, cg, cb, ca := col.RGBA()
	cc := [4]uint32{cr, cg, cb, ca}
	mkRGBA := func(m *image.RGBA) *raster.RGBAPainter {
		q := raster.NewRGBAPainter(m)
		q.SetColor(col)
		if c.Kind == pkRGBASrc {
			q.Op = draw.Src
		}
		return q
	}
	if c.Sub {
		big := rect.Inset(-2)
		if bpp == 1 {
			m := image.NewAlpha(big)
			s := m.SubImage(rect).(*image.Alpha)
			pix, stride = m.Pix, m.Stride
			off = m.PixOffset(rect.Min.X, rect.Min.Y)
			if c.Kind == pkAlphaOver {
				p = raster.NewAlphaOverPainter(s)
			} else {
				p = raster.NewAlphaSrcPainter(s)
			}
		} else {
			m := image.NewRGBA(big)
			s := m.SubImage(rect).(*image.RGBA)
			pix, stride = m.Pix, m.Stride
			off = m.PixOffset(rect.Min.X, rect.Min.Y)
			p = mkRGBA(s)
		}
	} else {
		stride = (c.W + c.Pad) * bpp
		off = c.Lead * bpp
		pix = make([]uint8, off+stride*c.H+5)
		if bpp == 1 {
			m := &image.Alpha{Pix: pix[off:], Stride: stride, Rect: rect}
			if c.Kind == pkAlphaOver {
				p = raster.AlphaOverPainter{Image: m}
			} else {
				p = raster.AlphaSrcPainter{Image: m}
			}
		} else {
			p = mkRGBA(&image.RGBA{Pix: pix[off:], Stride: stride, Rect: rect})
		}
	}
	for i := range pix {
		pix[i] = sentinel(i)
		if bpp == 4 {
			// Keep pixels premultiplied.
			if i%4 == 3 {
				pix[i] = 255
			}
		}
	}
	before := append([]uint8(nil), pix...)
	// Paint on a copy of the span lists, whose tail may be used as scratch.
	for bi, ss := range c.Batches {
		cp := append(make([]raster.Span, 0, len(ss)), ss...)
		p.Paint(cp, bi == len(c.Batches)-1)
		x.Step(1)
	}
	h := mc.NewHash()
	for i := range pix {
		h.Int(int(pix[i]))
	}
	// Each pixel is covered by at most one span (the painter contract).
	inside := make([]int, len(pix))
	for _, ss := range c.Batches {
		for _, s := range ss {
			if s.Y < rect.Min.Y || s.Y >= rect.Max.Y {
				continue
			}
			for px := max(s.X0, rect.Min.X); px < min(s.X1, rect.Max.X); px++ {
				i := off + (s.Y-rect.Min.Y)*stride + (px-rect.Min.X)*bpp
				for ch := 0; ch < bpp; ch++ {
					inside[i+ch] = 1 + int(s.Alpha)
				}
			}
		}
	}
	for i := range pix {
		if inside[i] == 0 {
			if pix[i] != before[i] {
				return fmt.Errorf("byte %d outside of the spans and the image changed from %d to %d", i, before[i], pix[i])
			}
			continue
		}
		ch := 3
		if bpp == 4 {
			ch = (i - off) % stride % 4
		}
		if err := checkPixel(c.Kind, before[i], pix[i], uint32(inside[i]-1), cc[ch], cc[3]); err != nil {
			return fmt.Errorf("byte %d: %v", i, err)
		}
	}
	x.StateU(uint64(h))
	x.Outcome(uint64(h))
	x.Validated()
	return nil
}

// valueCase paints a row holding every destination value with one alpha.
type valueCase struct {
	Kind, Color int
	Alpha       uint32
}

type c17worker struct {
	a *image.Alpha
	m *image.RGBA
}

func execValues(x *mc.X, c valueCase) error {
	k, _ := x.Scratch.(*c17worker)
	if k == nil {
		k = &c17worker{image.NewAlpha(image.Rect(0, 0, 256, 1)), image.NewRGBA(image.Rect(0, 0, 256, 1))}
		x.Scratch = k
	}
	for i := 0; i < 256; i++ {
		k.a.Pix[i] = uint8(i)
		// Premultiplied: no channel above alpha.
		k.m.Pix[4*i+0], k.m.Pix[4*i+1], k.m.Pix[4*i+2], k.m.Pix[4*i+3] = uint8(i), uint8(i/2), uint8(i-i/5), uint8(i)
	}
	span := []raster.Span{{Y: 0, X0: 0, X1: 256, Alpha: c.Alpha}}
	x.Step(1)
	x.Validated()
	switch c.Kind {
	case pkAlphaOver, pkAlphaSrc:
		if c.Kind == pkAlphaOver {
			raster.NewAlphaOverPainter(k.a).Paint(span, true)
		} else {
			raster.NewAlphaSrcPainter(k.a).Paint(span, true)
		}
		for i := 0; i < 256; i++ {
			if err := checkPixel(c.Kind, uint8(i), k.a.Pix[i], c.Alpha, 0, 0); err != nil {
				return err
			}
		}
		x.Outcome(uint64(k.a.Pix[77])<<8 | uint64(k.a.Pix[200]))
		return nil
	}
	p := raster.NewRGBAPainter(k.m)
	p.SetColor(testColors[c.Color])
	if c.Kind == pkRGBASrc {
		p.Op = draw.Src
	}
	p.Paint(span, true)
	r, g, b, a := testColors[c.Color].RGBA()
	cc := [4]uint32{r, g, b, a}
	for i := 0; i < 256; i++ {
		d := [4]uint8{uint8(i), uint8(i / 2), uint8(i - i/5), uint8(i)}
		for ch := 0; ch < 4; ch++ {
			if err := checkPixel(c.Kind, d[ch], k.m.Pix[4*i+ch], c.Alpha, cc[ch], a); err != nil {
				return fmt.Errorf("channel %d: %v", ch, err)
			}
		}
	}
	h := mc.NewHash()
	h.Bytes(k.m.Pix[400:440])
	x.Outcome(uint64(h))
	return nil
}

// paintHistCase is a sequence of operations on one RGBAPainter: 0..7 SetColor,
// 8 Op=Over, 9 Op=Src, 10.. paint a span, 13 replace the image.
type paintHistCase []int

func execPaintHist(x *mc.X, ops paintHistCase) error {
	rect := image.Rect(1, 1, 5, 3)
	m := image.NewRGBA(rect)
	for i := range m.Pix {
		m.Pix[i] = 90
	}
	p := raster.NewRGBAPainter(m)
	var col color.Color = color.Transparent
	op := draw.Over
	spans := []raster.Span{{1, 0, 3, 0xffff}, {2, 2, 9, 0x8080}, {1, 2, 4, 0x4000}}
	h := mc.NewHash()
	for _, o := range ops {
		x.Step(1)
		switch {
		case o < 8:
			p.SetColor(testColors[o])
			col = testColors[o]
		case o == 8:
			p.Op, op = draw.Over, draw.Over
		case o == 9:
			p.Op, op = draw.Src, draw.Src
		case o < 13:
			s := spans[o-10]
			before := append([]uint8(nil), m.Pix...)
			p.Paint([]raster.Span{s}, true)
			r, g, b, a := col.RGBA()
			cc := [4]uint32{r, g, b, a}
			kind := pkRGBAOver
			if op == draw.Src {
				kind = pkRGBASrc
			}
			for i := range m.Pix {
				px, py := rect.Min.X+i%m.Stride/4, rect.Min.Y+i/m.Stride
				if py != s.Y || px < s.X0 || px >= s.X1 {
					if m.Pix[i] != before[i] {
						return fmt.Errorf("byte %d outside of the span changed", i)
					}
					continue
				}
				if err := checkPixel(kind, before[i], m.Pix[i], s.Alpha, cc[i%4], a); err != nil {
					return err
				}
			}
		default:
			n := image.NewRGBA(rect)
			p.Image = n
			m = n
		}
	}
	h.Bytes(m.Pix)
	x.StateU(uint64(h))
	x.Outcome(uint64(h))
	x.Validated()
	return nil
}

var c17 = &mc.Check{
	ID: "C17",
	Rule: "geometry: every image rectangle of up to 3x2 pixels at four origins, as sub-image or with a padded stride and leading bytes, times every span from two pixels before to two after it in x and y, alone, in ordered pairs and in triples, in one batch or several, for each painter and operator; " +
		"rows of up to 70000 pixels at origins up to 2^28, rows longer than 65536 bytes, and batches of up to 140 spans, too; values: all 65536 alphas times all 256 destination values times a colour alphabet for each painter; histories: every sequence of colour, operator and image changes and paints up to a depth",
	Assumptions: []string{
		"spans obey the painter contract (sorted by row and column, not overlapping); colours obey the color.Color contract (premultiplied)",
		"a channel may differ from the exact rational Porter-Duff value by at most one 8-bit step (two for the alpha-over painter, which rounds the span's alpha first); alpha 0 and 0xffff with an opaque colour are exact",
	},
	Run: func(c *mc.Ctx) {
		origins := [][2]int{{0, 0}, {-3, -2}, {2, 1}, {-1, 5}}
		images := func(yield func(geomCase) bool) bool {
			for kind := 0; kind < nPainters; kind++ {
				for _, o := range origins {
					for w := 0; w <= 3; w++ {
						for h := 0; h <= 2; h++ {
							for lay := 0; lay < 4; lay++ {
								g := geomCase{Kind: kind, MinX: o[0], MinY: o[1], W: w, H: h}
								switch lay {
								case 1:
									g.Pad = 2
								case 2:
									g.Pad, g.Lead = 1, 3
								case 3:
									g.Sub = true
								}
								if !yield(g) {
									return false
								}
							}
						}
					}
				}
			}
			return true
		}
		mc.Explore(c, "one-span", func(yield func(geomCase) bool) {
			images(func(g geomCase) bool {
				for y := g.MinY - 2; y <= g.MinY+g.H+1; y++ {
					for x0 := g.MinX - 2; x0 <= g.MinX+g.W+1; x0++ {
						for x1 := x0 + 1; x1 <= g.MinX+g.W+2; x1++ {
							for _, a := range []uint32{0, 1, 0x7fff, 0xfffe, 0xffff} {
								g.Batches = [][]raster.Span{{{Y: y, X0: x0, X1: x1, Alpha: a}}}
								if !yield(g) {
									return false
								}
							}
						}
					}
				}
				return true
			})
		}, execGeom)
		mc.Explore(c, "span-pairs", func(yield func(geomCase) bool) {
			images(func(g geomCase) bool {
				var all []raster.Span
				for y := g.MinY - 1; y <= g.MinY+g.H; y++ {
					for x0 := g.MinX - 1; x0 <= g.MinX+g.W; x0++ {
						for x1 := x0 + 1; x1 <= g.MinX+g.W+1; x1++ {
							all = append(all, raster.Span{Y: y, X0: x0, X1: x1})
						}
					}
				}
				for _, s := range all {
					for _, t := range all {
						if t.Y < s.Y || t.Y == s.Y && t.X0 < s.X1 {
							continue
						}
						s.Alpha, t.Alpha = 0xffff, 0x9000
						g.Batches = [][]raster.Span{{s, t}}
						if !yield(g) {
							return false
						}
						g.Batches = [][]raster.Span{{s}, {}, {t}, nil}
						if !yield(g) {
							return false
						}
					}
				}
				return true
			})
		}, execGeom)
		mc.Explore(c, "rows", func(yield func(geomCase) bool) {
			// Every subset of the rows around the image has a span.
			images(func(g geomCase) bool {
				n := g.H + 4
				for mask := 0; mask < 1<<n; mask++ {
					for x0 := g.MinX - 1; x0 <= g.MinX+g.W; x0++ {
						var ss []raster.Span
						for i := 0; i < n; i++ {
							if mask>>i&1 != 0 {
								ss = append(ss, raster.Span{Y: g.MinY - 2 + i, X0: x0, X1: x0 + 2, Alpha: 0xffff - uint32(i)*0x1111})
							}
						}
						g.Batches = [][]raster.Span{ss}
						if !yield(g) {
							return false
						}
					}
				}
				return true
			})
		}, execGeom)
		mc.Explore(c, "wide", func(yield func(geomCase) bool) {
			// Every span on rows of up to 20 pixels, and selected ones on wider
			// rows and far origins.
			for kind := 0; kind < nPainters; kind++ {
				for w := 1; w <= 20; w++ {
					for x0 := -1; x0 <= w; x0++ {
						for x1 := x0 + 1; x1 <= w+1; x1++ {
							for lay := 0; lay < 2; lay++ {
								for _, a := range []uint32{0x8000, 0xffff} {
									for _, col := range []int{0, 6} {
										g := geomCase{Kind: kind, MinX: 3, MinY: -1, W: w, H: 2, Sub: lay == 1, Color: col}
										g.Batches = [][]raster.Span{{{Y: -1, X0: 3 + x0, X1: 3 + x1, Alpha: a}, {Y: 0, X0: 3 + w - x1, X1: 3 + w - x0, Alpha: a}}}
										if !yield(g) {
											return
										}
									}
								}
							}
						}
					}
				}
				for _, w := range []int{31, 33, 64, 65, 127, 255, 257, 1023, 4097, 33000, 70000} {
					for _, ox := range []int{0, -5, 32760, -32770, 65530, 1 << 20, 1 << 28} {
						for _, oy := range []int{0, 32767, -32769, 1 << 28} {
							ends := []int{-70000, -1, 0, 1, w / 2, w - 1, w, w + 1, w + 70000}
							for i, x0 := range ends {
								for _, x1 := range ends[i+1:] {
									if x0 >= x1 || !c.Thorough() && w > 5000 && (ox != -5 || oy != 0) {
										continue
									}
									g := geomCase{Kind: kind, MinX: ox, MinY: oy, W: w, H: 1, Color: 6}
									g.Batches = [][]raster.Span{{{Y: oy, X0: ox + x0, X1: ox + x1, Alpha: 0xffff}}}
									if !yield(g) {
										return
									}
								}
							}
						}
					}
				}
				// Long strides: several wide rows, or narrow ones with padding.
				for _, w := range []int{3, 300, 33000, 70000} {
					pad := max(1, 17000-w)
					if kind < pkRGBAOver {
						pad = max(1, 66000-w)
					}
					for y := -1; y <= 3; y++ {
						for _, x0 := range []int{-2, 0, 1, w - 1} {
							for n := 1; n <= 2; n++ {
								g := geomCase{Kind: kind, MinX: 7, MinY: -3, W: w, H: 3, Pad: pad, Lead: 2}
								g.Batches = [][]raster.Span{{{Y: y - 3, X0: 7 + x0, X1: 7 + x0 + n*w/2 + 1, Alpha: 0xffff - uint32(n)}}}
								if !yield(g) {
									return
								}
							}
						}
					}
				}
				// Tall images.
				for _, h := range []int{17, 255, 257, 1025, 33000, 70000} {
					for _, y := range []int{-1, 0, 1, h / 2, h - 1, h} {
						g := geomCase{Kind: kind, MinX: 2, MinY: -4, W: 3, H: h, Pad: 1}
						g.Batches = [][]raster.Span{{{Y: y - 4, X0: 3, X1: 9, Alpha: 0xffff}}}
						if !yield(g) {
							return
						}
					}
				}
			}
		}, execGeom)
		mc.Explore(c, "long-batches", func(yield func(geomCase) bool) {
			for kind := 0; kind < nPainters; kind++ {
				for n := 1; n <= 140; n++ {
					for step := 1; step <= 4; step++ {
						for _, w := range []int{5, 40, 1000} {
							for _, split := range []int{1, 64, 1000} {
								g := geomCase{Kind: kind, W: w, H: 12, Sub: n%2 == 1}
								var ss []raster.Span
								for i := 0; i < n; i++ {
									p := i * step
									ss = append(ss, raster.Span{Y: p/(w+4) - 1, X0: p%(w+4) - 2, X1: p%(w+4) - 2 + (i%step + 1), Alpha: uint32(i*7919) % 0x10000})
									if len(ss) == split {
										g.Batches = append(g.Batches, ss)
										ss = nil
									}
								}
								g.Batches = append(g.Batches, ss)
								if !yield(g) {
									return
								}
							}
						}
					}
				}
			}
		}, execGeom)
		mc.Explore(c, "values", func(yield func(valueCase) bool) {
			for kind := 0; kind < nPainters; kind++ {
				nc := 1
				if kind >= pkRGBAOver {
					nc = len(testColors)
				}
				for col := 0; col < nc; col++ {
					for a := uint32(0); a <= 0xffff; a++ {
						if !yield(valueCase{kind, col, a}) {
							return
						}
					}
				}
			}
		}, execValues)
		mc.Explore(c, "histories", func(yield func(paintHistCase) bool) {
			alpha := []int{0, 1, 3, 7, 8, 9, 10, 11, 12, 13}
			var rec func(h []int, n int) bool
			rec = func(h []int, n int) bool {
				if !yield(append(paintHistCase(nil), h...)) {
					return false
				}
				if n == 0 {
					return true
				}
				for _, o := range alpha {
					if !rec(append(h, o), n-1) {
						return false
					}
				}
				return true
			}
			rec(nil, c.N(5, 6))
		}, execPaintHist)
	},
}
