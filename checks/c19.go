package checks

import (
	"fmt"
	"image"
	"image/color"
	"image/draw"
	"math"
	"strings"
	"sync"

	"verif/internal/fontgen"
	"verif/internal/mc"

	"github.com/golang/freetype"
	"github.com/golang/freetype/raster"
	"github.com/golang/freetype/truetype"
	"golang.org/x/image/font"
	"golang.org/x/image/math/fixed"
)

// The fonts of C19 have straight outlines only, so that a mask does not depend
// on how finely a rasterizer splits curves, and advances that keep the pen on
// quarters of a pixel. Glyphs 1 and 257 fall on the same cache entry. Fonts 0
// and 2 have the same size of em and bounding box.
func textFont(k int) *fontgen.Font {
	gl := make([][]byte, 260)
	ft := fontgen.New(gl...)
	code := fontgen.Code
	set := func(i int, cs [][]fontgen.Pt, instr []byte, adv int) {
		ft.Glyphs[i] = fontgen.Simple(cs, fontgen.SimpleOpts{Instr: instr})
		ft.HM[i] = fontgen.HM{Adv: adv, LSB: fontgen.BBoxOf(cs)[0]}
	}
	tri := []fontgen.Pt{{X: 2 + k, Y: 0, On: true}, {X: 20, Y: 45 - k, On: true}, {X: 41, Y: 7, On: true}}
	set(1, [][]fontgen.Pt{tri}, code(ints{1}, fontgen.MDAP1, ints{2}, fontgen.MDAP1, fontgen.IUP1), 48)
	set(2, [][]fontgen.Pt{fontgen.Square(-9, -13, 22, 30), fontgen.Square(0, 0, 10, 11)}, nil, 40)
	set(257, [][]fontgen.Pt{{{X: 0, Y: 0, On: true}, {X: 0, Y: 50, On: true}, {X: 30 + k, Y: 50, On: true}}}, code(ints{0}, fontgen.SVTCA1, fontgen.MDAP1, fontgen.IUP0), 40)
	// Contours that start off the curve and end on it, or off it.
	set(3, [][]fontgen.Pt{
		{{X: 6, Y: 2}, {X: 20, Y: 6, On: true}, {X: 26, Y: 28}, {X: 8, Y: 26 + k, On: true}},
		{{X: 30, Y: 0}, {X: 42, Y: 10 + k}, {X: 38, Y: 40, On: true}, {X: 28, Y: 30}},
		{{X: 12, Y: 32}, {X: 20, Y: 48}, {X: 4, Y: 40}},
	}, nil, 32)
	ft.Glyphs[258] = []byte{0, 1, 0, 0, 0, 0, 0, 9, 0, 9, 0, 5} // broken
	ft.HM[0].Adv = 24
	ft.HM[259].Adv = 16
	ft.Kern = fontgen.Kern([]fontgen.KernPair{{L: 1, R: 2, V: -16}, {L: 2, R: 1, V: 8 + 8*k}, {L: 257, R: 1, V: 8}, {L: 0, R: 1, V: 16}, {L: 2, R: 0, V: -8}})
	ft.Cmap = fontgen.Cmap(fontgen.CmapSub{PID: 0, PSID: 4, Data: fontgen.Format12([]fontgen.Group{
		{Start: 0, End: 0, Glyph: 2}, {Start: '\n', End: '\n', Glyph: 257}, {Start: 'A', End: 'C', Glyph: 1}, {Start: 'L', End: 'O', Glyph: 257}, {Start: 0xad, End: 0xad, Glyph: 1}, {Start: 'A' + 256, End: 'A' + 256, Glyph: 2},
		{Start: 0x200d, End: 0x200d, Glyph: 2}, {Start: 0xfeff, End: 0xfeff, Glyph: 1}, {Start: 0xfffd, End: 0xfffd, Glyph: 3}, {Start: 'A' + 0x10000, End: 'A' + 0x10000, Glyph: 257},
	})})
	// Glyphs that do not advance, with and without ink, are kerned like others.
	switch k {
	case 1:
		ft.UPEM = 128
		ft.HM[257].Adv = 0
	case 2:
		ft.HM[0].Adv = 0
	}
	ft.BBox = [4]int{-10, -14, 45, 52}
	return ft
}

// bigFont has 65535 glyphs. Those in bigFontGlyphs are mapped from 'a' on.
var bigFontGlyphs = []int{0, 1, 255, 257, 32767, 32768, 33025, 65280, 65534}

func bigFont() *fontgen.Font {
	gl := make([][]byte, 65535)
	var gs []fontgen.Group
	for i, g := range bigFontGlyphs {
		gl[g] = fontgen.Simple([][]fontgen.Pt{fontgen.Square(2+3*i, -5+i, 30-2*i, 40-3*i)}, fontgen.SimpleOpts{})
		gs = append(gs, fontgen.Group{Start: 'a' + i, End: 'a' + i, Glyph: g})
	}
	ft := fontgen.New(gl...)
	ft.LocaLong = true
	for i, g := range bigFontGlyphs {
		ft.HM[g] = fontgen.HM{Adv: 24 + 2*i, LSB: 2 + 3*i}
	}
	ft.Kern = fontgen.Kern([]fontgen.KernPair{{L: 0, R: 65534, V: 6}, {L: 255, R: 257, V: -6}, {L: 32767, R: 32768, V: 8}, {L: 32768, R: 1, V: -8}, {L: 65534, R: 32768, V: 12}, {L: 65534, R: 65534, V: -12}})
	ft.Cmap = fontgen.Cmap(fontgen.CmapSub{PID: 0, PSID: 4, Data: fontgen.Format12(gs)})
	return ft
}

var (
	bigFontOnce   sync.Once
	bigFontParsed *truetype.Font
	bigFontErr    error
)

type bigScratch struct{ m *masker }

func bigFontScratch(x *mc.X) (*masker, *truetype.Font, error) {
	bigFontOnce.Do(func() { bigFontParsed, bigFontErr = parseOK(bigFont().Bytes()) })
	s, ok := x.Scratch.(*bigScratch)
	if !ok {
		s = &bigScratch{newMasker()}
		x.Scratch = s
	}
	return s.m, bigFontParsed, bigFontErr
}

var (
	textOnce  sync.Once
	textFonts [3]*truetype.Font
	textErr   error
)

func textFontsParsed() ([3]*truetype.Font, error) {
	textOnce.Do(func() {
		for k := range textFonts {
			if textFonts[k], textErr = parseOK(textFont(k).Bytes()); textErr != nil {
				return
			}
		}
	})
	return textFonts, textErr
}

// A glyphRef is a freshly loaded glyph and its masks.
type glyphRef struct {
	err  error
	g    truetype.GlyphBuf
	mask map[[2]int]*refMask
}

// A refMask is a mask relative to the pixel that the pen is in.
type refMask struct {
	rect image.Rectangle
	pix  []uint8
}

type glyphKey struct {
	f     *truetype.Font
	scale int
	hint  font.Hinting
	i     truetype.Index
}

// A masker makes reference masks.
type masker struct {
	glyphs map[glyphKey]*glyphRef
	r      *raster.Rasterizer
	g      *mask8
}

func newMasker() *masker { return &masker{glyphs: map[glyphKey]*glyphRef{}} }

func (m *masker) glyph(k glyphKey) *glyphRef {
	if g := m.glyphs[k]; g != nil {
		return g
	}
	if len(m.glyphs) > 4000 {
		m.glyphs = map[glyphKey]*glyphRef{}
	}
	g := &glyphRef{mask: map[[2]int]*refMask{}}
	g.err = g.g.Load(k.f, i26(k.scale), k.i, k.hint)
	m.glyphs[k] = g
	return g
}

// at returns g's mask for the fraction fx, fy.
func (m *masker) at(g *glyphRef, fx, fy int) *refMask {
	if r := g.mask[[2]int{fx, fy}]; r != nil {
		return r
	}
	b := g.g.Bounds
	rect := image.Rect((int(b.Min.X)+fx)>>6-1, (fy-int(b.Max.Y))>>6-1, (int(b.Max.X)+fx)>>6+2, (fy-int(b.Min.Y))>>6+2)
	w, h := rect.Dx(), rect.Dy()
	r := &refMask{rect: rect}
	gr := newMask8(w, h)
	fillPaths(gr, raster.NewRasterizer(w, h), glyphPaths(g.g.Points, g.g.Ends, i26(fx-64*rect.Min.X), i26(fy-64*rect.Min.Y)), false)
	r.pix = gr.pix
	g.mask[[2]int{fx, fy}] = r
	return r
}

func (r *refMask) at(x, y int) uint8 {
	if !(image.Point{X: x, Y: y}.In(r.rect)) {
		return 0
	}
	return r.pix[(y-r.rect.Min.Y)*r.rect.Dx()+x-r.rect.Min.X]
}

// A sourceCase is the drawing of S with a source image that is not uniform.
type sourceCase struct {
	Src, Font, Hint int
	S               string
	FX              int
}

const nSources = 4

// c19Source is a source image: all of its pixels differ.
func c19Source(k int) image.Image {
	r := []image.Rectangle{image.Rect(0, 0, 64, 64), image.Rect(-20, -16, 40, 44), image.Rect(0, 0, 7, 9), image.Rect(0, 0, 64, 64)}[k]
	m := image.NewRGBA(r)
	for y := r.Min.Y; y < r.Max.Y; y++ {
		for x := r.Min.X; x < r.Max.X; x++ {
			c := color.RGBA{uint8(x*11 + y*3), uint8(x*5 + y*17), uint8(x*29 ^ y*7), 0xff}
			if k == 3 {
				c = color.RGBA{uint8(x * 3), uint8(y * 3), 5, uint8(0xc0 + (x+y)%0x40)}
			}
			m.SetRGBA(x, y, c)
		}
	}
	if k == 3 {
		return struct{ image.Image }{m} // of no type that image/draw knows
	}
	return m
}

// checkSource compares drawings with one source image: what a clip leaves is
// as without it, a drawing that is moved by whole pixels is the same, and
// that of a string is those of its runes.
func checkSource(x *mc.X, k sourceCase) error {
	fonts, err := textFontsParsed()
	if err != nil {
		return err
	}
	whole := image.Rect(0, 0, 40, 32)
	c := freetype.NewContext()
	c.SetFont(fonts[k.Font])
	c.SetFontSize(16)
	c.SetDPI(72)
	c.SetHinting([]font.Hinting{font.HintingNone, font.HintingFull}[k.Hint])
	c.SetSrc(c19Source(k.Src))
	paint := func(dst draw.Image, clip image.Rectangle, s string, at fixed.Point26_6) (fixed.Point26_6, error) {
		c.SetDst(dst)
		c.SetClip(clip)
		x.Step(1)
		return c.DrawString(s, at)
	}
	blank := func() *image.RGBA {
		m := image.NewRGBA(whole)
		for i := range m.Pix {
			m.Pix[i] = uint8(0xf0 + i&7)
		}
		return m
	}
	diff := func(what string, got, want *image.RGBA, by image.Point, in image.Rectangle) error {
		for y := in.Min.Y; y < in.Max.Y; y++ {
			for xx := in.Min.X; xx < in.Max.X; xx++ {
				if got.RGBAAt(xx+by.X, y+by.Y) != want.RGBAAt(xx, y) {
					return fmt.Errorf("%q with a source image: %s, pixel (%d, %d) is %v, want %v", k.S, what, xx, y, got.RGBAAt(xx+by.X, y+by.Y), want.RGBAAt(xx, y))
				}
			}
		}
		return nil
	}
	at := fixed.Point26_6{X: 8*64 + i26(k.FX), Y: 16 * 64}
	ref, empty := blank(), blank()
	end, err := paint(ref, whole, k.S, at)
	if err != nil {
		return err
	}
	// Rune by rune, with the kerning between them.
	one := blank()
	p, prev := at, truetype.Index(0)
	for n, r := range []rune(k.S) {
		i := fonts[k.Font].Index(r)
		if n > 0 {
			kern := fonts[k.Font].Kern(16*64, prev, i)
			if k.Hint != 0 {
				kern = (kern + 32) &^ 63
			}
			p.X += kern
		}
		prev = i
		if p, err = paint(one, whole, string(r), p); err != nil {
			return err
		}
	}
	if p != end {
		return fmt.Errorf("%q ends at %v, and rune by rune at %v", k.S, end, p)
	}
	if err := diff("rune by rune", one, ref, image.Point{}, whole); err != nil {
		return err
	}
	// Elsewhere. The destination's pattern has a period of two pixels.
	for _, d := range []image.Point{{2, 0}, {0, 1}, {-4, -3}, {6, 5}} {
		m := blank()
		if _, err := paint(m, whole, k.S, fixed.Point26_6{X: at.X + i26(64*d.X), Y: at.Y + i26(64*d.Y)}); err != nil {
			return err
		}
		if err := diff(fmt.Sprintf("moved by %v", d), m, ref, d, whole.Intersect(whole.Sub(d))); err != nil {
			return err
		}
	}
	// Clips, which are made by SetClip or by the destination's bounds.
	h := mc.NewHash()
	for x0 := 3; x0 < 33; x0 += 3 {
		for _, w := range []int{1, 4, 11, 40} {
			for y0 := 1; y0 < 24; y0 += 4 {
				for _, ht := range []int{1, 5, 30} {
					clip := image.Rect(x0, y0, x0+w, y0+ht).Intersect(whole)
					for sub := 0; sub < 2; sub++ {
						if sub == 1 && (x0+w+y0+ht)%3 != 0 {
							continue
						}
						m := blank()
						dst, cl := draw.Image(m), clip
						if sub == 1 {
							dst, cl = m.SubImage(clip).(draw.Image), whole
						}
						if q, err := paint(dst, cl, k.S, at); err != nil || q != end {
							return fmt.Errorf("clip %v: DrawString returns %v, %v, want %v", clip, q, err, end)
						}
						if err := diff(fmt.Sprintf("clip %v", clip), m, ref, image.Point{}, clip); err != nil {
							return err
						}
						draw.Draw(m, clip, empty, clip.Min, draw.Src)
						if err := diff(fmt.Sprintf("outside the clip %v", clip), m, empty, image.Point{}, whole); err != nil {
							return err
						}
					}
				}
			}
		}
	}
	h.Bytes(ref.Pix)
	x.Outcome(uint64(h))
	x.Validated()
	return nil
}

// textSettings are a context's settings.
type textSettings struct {
	font, size, dpi, hint, src, dst, clip int
}

var (
	c19Sizes = []float64{8, 16}
	c19DPIs  = []float64{72, 36}
	c19Srcs  = []color.Color{color.RGBA{0xff, 0x80, 0, 0xff}, color.RGBA{0, 0x40, 0x60, 0x80}}
	c19Clips = []image.Rectangle{image.Rect(-100, -100, 100, 100), image.Rect(6, 4, 13, 15), {}}
)

// The destination images: 0 covers its array, 1 is part of a bigger image and
// does not start at the origin.
func c19Dst(k int) (outer, dst *image.RGBA) {
	if k == 0 {
		m := image.NewRGBA(image.Rect(0, 0, 24, 20))
		for i := range m.Pix {
			m.Pix[i] = 0xff
		}
		return m, m
	}
	m := image.NewRGBA(image.Rect(-3, 1, 30, 28))
	for i := 0; i < len(m.Pix); i += 4 {
		m.Pix[i], m.Pix[i+1], m.Pix[i+2], m.Pix[i+3] = uint8(i/4%50), 10, 20, 100
	}
	return m, m.SubImage(image.Rect(2, 3, 22, 19)).(*image.RGBA)
}

// textOp is an operation on a context.
type textOp struct {
	Kind string // font, size, dpi, hint, src, dst, clip or draw
	V    int    // value of a setting, or index of a drawing
}

var c19Draws = []struct {
	S    string
	X, Y int // 26.6
}{
	{"A", 5 * 64, 12 * 64},
	{"L", 5 * 64, 12 * 64},
	{"BAB", -3 * 64, 10 * 64},
	{"A", 8*64 + 16, 9 * 64},
	{"ALC", 10 * 64, 18 * 64},
	{"?AB?O", -2 * 64, 8 * 64},
	{"M", 5 * 64, 12 * 64}, // broken glyph
}

// textWorld is a context and its model.
type textWorld struct {
	c       *freetype.Context
	s       textSettings
	outer   [2]*image.RGBA // painted by the context
	dst     [2]*image.RGBA
	mOuter  [2]*image.RGBA // the model's
	mDst    [2]*image.RGBA
	dirty   [2]bool
	m       *masker
	fonts   [3]*truetype.Font
	fy      int
	pristin [2][]uint8
}

func newTextWorld(x *mc.X) (*textWorld, error) {
	w, _ := x.Scratch.(*textWorld)
	if w == nil {
		w = &textWorld{m: newMasker()}
		var err error
		if w.fonts, err = textFontsParsed(); err != nil {
			return nil, err
		}
		for k := range w.outer {
			w.outer[k], w.dst[k] = c19Dst(k)
			w.mOuter[k], w.mDst[k] = c19Dst(k)
			w.pristin[k] = append([]uint8(nil), w.outer[k].Pix...)
		}
		x.Scratch = w
	}
	for k := range w.outer {
		if w.dirty[k] {
			copy(w.outer[k].Pix, w.pristin[k])
			copy(w.mOuter[k].Pix, w.pristin[k])
			w.dirty[k] = false
		}
	}
	w.c = freetype.NewContext()
	w.s = textSettings{}
	w.fy = 0
	return w, nil
}

func (w *textWorld) set(kind string, v int) {
	switch kind {
	case "font":
		w.c.SetFont(w.fonts[v])
		w.s.font = v
	case "size":
		w.c.SetFontSize(c19Sizes[v])
		w.s.size = v
	case "dpi":
		w.c.SetDPI(c19DPIs[v])
		w.s.dpi = v
	case "hint":
		w.c.SetHinting([]font.Hinting{font.HintingNone, font.HintingFull}[v])
		w.s.hint = v
	case "src":
		w.c.SetSrc(image.NewUniform(c19Srcs[v]))
		w.s.src = v
	case "dst":
		w.c.SetDst(w.dst[v])
		w.s.dst = v
	case "clip":
		w.c.SetClip(c19Clips[v])
		w.s.clip = v
	}
}

func (w *textWorld) key() glyphKey {
	return glyphKey{w.fonts[w.s.font], int(c19Sizes[w.s.size] * c19DPIs[w.s.dpi] * 64 / 72), []font.Hinting{font.HintingNone, font.HintingFull}[w.s.hint], 0}
}

// layout calls f for every glyph of s from (px, py), and returns where it ends.
// It stops at a glyph that cannot be loaded.
func (m *masker) layout(k glyphKey, s string, px, py int, f func(g *glyphRef, px, py int)) (int, error) {
	prev := truetype.Index(0)
	for n, r := range []rune(s) {
		k.i = k.f.Index(r)
		if n > 0 {
			kern := int(k.f.Kern(i26(k.scale), prev, k.i))
			if k.hint != font.HintingNone {
				kern = (kern + 32) &^ 63
			}
			px += kern
		}
		g := m.glyph(k)
		if g.err != nil {
			return px, g.err
		}
		f(g, px, py)
		px += int(g.g.AdvanceWidth)
		prev = k.i
	}
	return px, nil
}

// draw draws s in both worlds and compares.
func (w *textWorld) draw(s string, px, py int) error {
	k := w.key()
	w.dirty[w.s.dst] = true
	clip := c19Clips[w.s.clip].Intersect(w.mDst[w.s.dst].Rect)
	src := image.NewUniform(c19Srcs[w.s.src])
	end, err := w.m.layout(k, s, px, py, func(g *glyphRef, px, py int) {
		mk := w.m.at(g, px&63, py&63)
		r := mk.rect.Add(image.Pt(px>>6, py>>6))
		am := &image.Alpha{Pix: mk.pix, Stride: mk.rect.Dx(), Rect: image.Rect(0, 0, mk.rect.Dx(), mk.rect.Dy())}
		vis := r.Intersect(clip)
		if !vis.Empty() {
			draw.DrawMask(w.mDst[w.s.dst], vis, src, image.Point{}, am, vis.Min.Sub(r.Min), draw.Over)
		}
	})
	p, gerr := w.c.DrawString(s, fixed.Point26_6{X: i26(px), Y: i26(py)})
	if (err != nil) != (gerr != nil) {
		return fmt.Errorf("DrawString(%q): error %v, want %v", s, gerr, err)
	}
	if err == nil && (int(p.X) != end || int(p.Y) != py) {
		return fmt.Errorf("DrawString(%q) returns %v, want (%d, %d)", s, p, end, py)
	}
	return w.compare(fmt.Sprintf("DrawString(%q) at (%d, %d)", s, px, py))
}

// compare compares all pixels, those around the destinations included.
func (w *textWorld) compare(what string) error {
	for k := range w.outer {
		if !w.dirty[k] {
			continue
		}
		got, want := w.outer[k], w.mOuter[k]
		for i := range want.Pix {
			if d := int(got.Pix[i]) - int(want.Pix[i]); d > 2 || d < -2 {
				p := image.Pt(i/4%(got.Stride/4), i/got.Stride).Add(got.Rect.Min)
				return fmt.Errorf("%s: destination %d, pixel %v is %v, want %v", what, k, p, got.At(p.X, p.Y), want.At(p.X, p.Y))
			}
		}
	}
	return nil
}

func (w *textWorld) hash(x *mc.X) {
	h := mc.NewHash()
	for k := range w.outer {
		h.Bytes(w.outer[k].Pix)
	}
	x.Outcome(uint64(h))
}

type runeText struct {
	Font int
	S    string
}

type textHist struct {
	Init []int // values of the seven settings
	Ops  []textOp
}

var c19Kinds = []string{"font", "size", "dpi", "hint", "src", "dst", "clip"}

func c19Ops() (ops []textOp) {
	for _, k := range c19Kinds {
		n := 2
		switch k {
		case "clip":
			n = len(c19Clips)
		case "font":
			n = 3
		}
		for v := 0; v < n; v++ {
			ops = append(ops, textOp{k, v})
		}
	}
	for i := range c19Draws {
		ops = append(ops, textOp{"draw", i})
	}
	return ops
}

func (w *textWorld) apply(op textOp) error {
	if op.Kind != "draw" {
		w.set(op.Kind, op.V)
		return nil
	}
	d := c19Draws[op.V]
	return w.draw(d.S, d.X, d.Y+w.fy)
}

type orderCase struct {
	Order []int
	Vals  int
	Draw  int
	Twice int
}

type fracCase struct {
	FX, Hint, Font, Size, Whole int
}

type quantCase struct {
	Pos   [][2]int
	Runes string
	Hint  int
}

type clipCase struct {
	X0, X1, Y0, Y1, Draw, Dst int
}

type bundledText struct {
	Font, Size, Hint, First int
}

var c19 = &mc.Check{
	ID:          "C19",
	Rule:        "all 5040 orders of the seven settings x 8 sets of values; all histories of up to 4 (5 thorough) of 24 operations (7 settings with 2 or 3 values each, 7 drawings) from two initial settings, with colliding cache entries, fonts, sizes, hinting, broken glyphs and two destinations, ended by a drawing and compared after every drawing; strings with each of 800 runes, and with bytes that are no runes; every sub-pixel position 64x64 of 3 glyphs; all pairs and triples of single-rune drawings at 14 sub-pixel positions; all clip rectangles within and around an image x 3 drawings x 2 destinations; 4 source images that are not uniform, with 1200 clips, and moved, and rune by rune; all strings of up to 3 of 9 glyphs of a font of 65535; glyphs displaced by up to 800 units in 8 directions at 1155 pen positions; sizes up to 2100 pixels, strings of up to 20000 runes, images up to 2^24 pixels from the origin; PointToFixed of 44001 values at 15 resolutions; 648 contexts with settings left at their defaults; all 9025 pairs of printable ASCII runes in the bundled fonts at 2 sizes with and without hinting. Pixels, also outside the destination, and returned points are compared with fresh glyphs, rasterized and composited",
	Assumptions: []string{"outlines and advances are those of a fresh GlyphBuf (C08 to C11), coverage that of the raster package (C12, C13, C15), compositing that of image/draw (2/255 per channel)", "a mask may have been made for any earlier position in the same sub-pixel cell: a quarter of a pixel wide and a pixel high"},
	Run: func(c *mc.Ctx) {
		mc.Explore(c, "setting-orders", func(yield func(orderCase) bool) {
			permutations(7, func(p []int) bool {
				for v := 0; v < 8; v++ {
					if !yield(orderCase{p, v*37 + p[0], v % 6, v % 3}) {
						return false
					}
				}
				return true
			})
		}, func(x *mc.X, k orderCase) error {
			w, err := newTextWorld(x)
			if err != nil {
				return err
			}
			// Optionally, other values are set before.
			if k.Twice > 0 {
				for i, o := range k.Order {
					w.set(c19Kinds[o], (k.Vals>>o+i)&1)
					if i == 5 && k.Twice == 2 && w.s.dst == 0 {
						w.c.SetDst(w.dst[0])
						w.c.SetSrc(image.Transparent)
						w.c.SetClip(image.Rectangle{})
						w.c.DrawString("A", fixed.Point26_6{X: 320, Y: 640})
					}
				}
			}
			for _, o := range k.Order {
				w.set(c19Kinds[o], k.Vals>>o&1)
			}
			x.Step(8)
			if err := w.apply(textOp{"draw", k.Draw}); err != nil {
				return err
			}
			w.hash(x)
			x.Validated()
			return nil
		})
		runHist := func(x *mc.X, h textHist) error {
			w, err := newTextWorld(x)
			if err != nil {
				return err
			}
			for i, v := range h.Init {
				w.set(c19Kinds[i], v)
			}
			if h.Init[0] == 1 {
				w.fy = 21
			}
			// Draw first, so that the cache is filled.
			ops := append([]textOp{{"draw", 0}}, h.Ops...)
			ops = append(ops, textOp{"draw", 4})
			for i, op := range ops {
				if err := w.apply(op); err != nil {
					return fmt.Errorf("operation %d: %v", i, err)
				}
				x.Step(1)
			}
			w.hash(x)
			x.Validated()
			return nil
		}
		mc.Explore(c, "histories", func(yield func(textHist) bool) {
			ops := c19Ops()
			for n := 0; n <= c.N(4, 5); n++ {
				for _, init := range [][]int{{0, 0, 0, 0, 0, 0, 0}, {1, 1, 0, 1, 1, 1, 1}} {
					if !tuples(n, len(ops), func(t []int) bool {
						h := textHist{Init: init}
						for _, i := range t {
							h.Ops = append(h.Ops, ops[i])
						}
						return yield(h)
					}) {
						return
					}
				}
			}
		}, runHist)
		// No rune is special, nor are bytes that are no runes.
		mc.Explore(c, "runes", func(yield func(runeText) bool) {
			var ss []string
			for r := rune(0); r < 0x300; r++ {
				ss = append(ss, string(r))
			}
			for _, r := range []rune{0x300, 0x301, 0x483, 0x5b0, 0x61c, 0x7ff, 0x800, 0x180e, 0x2000, 0x2003, 0x200b, 0x200c, 0x200d, 0x200e, 0x200f, 0x2028, 0x2029, 0x202e, 0x2060, 0x20d0, 0x3000, 0xd7ff, 0xe000, 0xf041, 0xfb01, 0xfe0f, 0xfeff, 0xfff9, 0xfffc, 0xfffd, 0xfffe, 0xffff, 0x10000, 0x10041, 0x1f600, 0x1f3fb, 0xe0001, 0xe0100, 0x10ffff} {
				ss = append(ss, string(r))
			}
			for _, b := range []string{"\x80", "\xbf", "\xc0\x80", "\xc3", "\xe0\x80\x80", "\xe2\x80", "\xed\xa0\x80", "\xf0\x90\x80", "\xf4\x90\x80\x80", "\xff", "\xfe\xff"} {
				ss = append(ss, b)
			}
			for _, s := range ss {
				for fo := 0; fo < 3; fo++ {
					if !yield(runeText{fo, s}) {
						return
					}
				}
			}
		}, func(x *mc.X, k runeText) error {
			w, err := newTextWorld(x)
			if err != nil {
				return err
			}
			for i, v := range []int{k.Font, 0, 0, k.Font & 1, 0, 0, 0} {
				w.set(c19Kinds[i], v)
			}
			for _, s := range []string{k.S, k.S + "A", "A" + k.S, "B" + k.S + "AL", k.S + k.S} {
				if err := w.draw(s, 2*64, 12*64); err != nil {
					return fmt.Errorf("font %d: %v", k.Font, err)
				}
				x.Step(1)
			}
			w.hash(x)
			x.Validated()
			return nil
		})
		// Long ones, for what adds up.
		mc.Explore(c, "histories-long", func(yield func(textHist) bool) {
			ops := c19Ops()
			for n := 1; n <= 2; n++ {
				if !tuples(n, len(ops), func(t []int) bool {
					h := textHist{Init: []int{0, 0, 0, 0, 0, 0, 0}}
					for i := 0; i < c.N(150, 2000)*n; i++ {
						h.Ops = append(h.Ops, ops[t[i%n]])
					}
					return yield(h)
				}) {
					return
				}
			}
		}, runHist)
		mc.Explore(c, "positions", func(yield func(fracCase) bool) {
			for fx := 0; fx < 64; fx++ {
				for hint := 0; hint < 2; hint++ {
					for fo := 0; fo < 2; fo++ {
						for size := 0; size < 2; size++ {
							for whole := 0; whole < 3; whole++ {
								if !yield(fracCase{fx, hint, fo, size, whole}) {
									return
								}
							}
						}
					}
				}
			}
		}, func(x *mc.X, k fracCase) error {
			w, err := newTextWorld(x)
			if err != nil {
				return err
			}
			dst := image.NewAlpha(image.Rect(0, 0, 24, 24))
			key := glyphKey{w.fonts[k.Font], int(64 * c19Sizes[k.Size]), []font.Hinting{font.HintingNone, font.HintingFull}[k.Hint], 0}
			for _, r := range "ABL" {
				key.i = key.f.Index(r)
				g := w.m.glyph(key)
				for fy := 0; fy < 64; fy++ {
					clearAlpha(dst)
					px, py := []int{5, -4, 20}[k.Whole]*64+k.FX, []int{17, 3, -1}[k.Whole]*64+fy
					c := newContext(key.f, c19Sizes[k.Size], key.hint, dst)
					p, err := c.DrawString(string(r), fixed.Point26_6{X: i26(px), Y: i26(py)})
					if err != nil {
						return err
					}
					if int(p.X) != px+int(g.g.AdvanceWidth) || int(p.Y) != py {
						return fmt.Errorf("DrawString(%q) at (%d, %d) returns %v", r, px, py, p)
					}
					if err := maskAt(dst, w.m, g, px, py, [][2]int{{k.FX, fy}, {k.FX &^ 15, 0}, {k.FX, 0}, {k.FX &^ 15, fy}}); err != nil {
						return fmt.Errorf("%q at (%d, %d): %v", r, px, py, err)
					}
					x.Step(1)
				}
			}
			x.Validated()
			return nil
		})
		mc.Explore(c, "quantum", func(yield func(quantCase) bool) {
			pos := [][2]int{{0, 0}, {1, 0}, {15, 0}, {16, 0}, {17, 0}, {31, 0}, {32, 0}, {47, 0}, {48, 0}, {63, 0}, {0, 1}, {0, 63}, {16, 32}, {40, 50}}
			for n := 2; n <= 3; n++ {
				if !tuples(n, len(pos), func(t []int) bool {
					var ps [][2]int
					for _, i := range t {
						ps = append(ps, pos[i])
					}
					for _, runes := range []string{"AAA", "ALA", "LBL", "AAL"} {
						for hint := 0; hint < 2; hint++ {
							if !yield(quantCase{ps, runes, hint}) {
								return false
							}
						}
					}
					return true
				}) {
					return
				}
			}
		}, func(x *mc.X, k quantCase) error {
			w, err := newTextWorld(x)
			if err != nil {
				return err
			}
			dst := image.NewAlpha(image.Rect(0, 0, 24, 24))
			key := glyphKey{w.fonts[0], 64 * 8, []font.Hinting{font.HintingNone, font.HintingFull}[k.Hint], 0}
			c := newContext(key.f, 8, key.hint, dst)
			seen := map[[2]int][][2]int{}
			for i, p := range k.Pos {
				r := rune(k.Runes[i])
				key.i = key.f.Index(r)
				g := w.m.glyph(key)
				clearAlpha(dst)
				px, py := (6+2*i)*64+p[0], 15*64+p[1]
				if _, err := c.DrawString(string(r), fixed.Point26_6{X: i26(px), Y: i26(py)}); err != nil {
					return err
				}
				cell := [2]int{int(r), p[0] / 16}
				cand := append([][2]int{{p[0], p[1]}, {p[0] &^ 15, 0}}, seen[cell]...)
				seen[cell] = append(seen[cell], p)
				if err := maskAt(dst, w.m, g, px, py, cand); err != nil {
					return fmt.Errorf("drawing %d, %q at (%d, %d): %v", i, r, px, py, err)
				}
				x.Step(1)
			}
			x.Validated()
			return nil
		})
		mc.Explore(c, "clips", func(yield func(clipCase) bool) {
			for x0 := -1; x0 <= 25; x0 += 2 {
				for x1 := x0; x1 <= 25; x1 += 2 {
					for y0 := -1; y0 <= 21; y0 += 2 {
						for y1 := y0; y1 <= 21; y1 += 2 {
							for d := 0; d < 3; d++ {
								if !yield(clipCase{x0, x1, y0, y1, []int{0, 2, 4}[d], (x0 + y0) & 2 / 2}) {
									return
								}
							}
						}
					}
				}
			}
		}, func(x *mc.X, k clipCase) error {
			w, err := newTextWorld(x)
			if err != nil {
				return err
			}
			for _, s := range c19Kinds {
				w.set(s, 0)
			}
			w.set("dst", k.Dst)
			d := c19Draws[k.Draw]
			clip := image.Rect(k.X0, k.Y0, k.X1, k.Y1)
			w.c.SetClip(clip)
			// The model draws all of it, and takes what lies within the clip.
			all := image.NewRGBA(w.mOuter[k.Dst].Rect)
			copy(all.Pix, w.mOuter[k.Dst].Pix)
			sub := all.SubImage(w.mDst[k.Dst].Rect).(*image.RGBA)
			save := w.mDst[k.Dst]
			w.mDst[k.Dst] = sub
			end, err := w.m.layout(w.key(), d.S, d.X, d.Y, func(g *glyphRef, px, py int) {
				mk := w.m.at(g, px&63, py&63)
				r := mk.rect.Add(image.Pt(px>>6, py>>6))
				am := &image.Alpha{Pix: mk.pix, Stride: mk.rect.Dx(), Rect: image.Rect(0, 0, mk.rect.Dx(), mk.rect.Dy())}
				draw.DrawMask(sub, r, image.NewUniform(c19Srcs[0]), image.Point{}, am, image.Point{}, draw.Over)
			})
			w.mDst[k.Dst] = save
			if err != nil {
				return err
			}
			draw.Draw(save, clip, all, clip.Min, draw.Src)
			w.dirty[k.Dst] = true
			p, err := w.c.DrawString(d.S, fixed.Point26_6{X: i26(d.X), Y: i26(d.Y)})
			if err != nil {
				return err
			}
			if int(p.X) != end || int(p.Y) != d.Y {
				return fmt.Errorf("with clip %v, DrawString returns %v, want (%d, %d)", clip, p, end, d.Y)
			}
			x.Step(1)
			w.hash(x)
			x.Validated()
			return w.compare(fmt.Sprintf("clip %v", clip))
		})
		mc.Explore(c, "sources", func(yield func(sourceCase) bool) {
			for src := 0; src < nSources; src++ {
				for fo := 0; fo < 3; fo++ {
					for hint := 0; hint < 2; hint++ {
						for _, s := range []string{"A", "B", "L", "BA", "?AB", "ALC"} {
							for fx := 0; fx < 64; fx += 16 {
								if !yield(sourceCase{src, fo, hint, s, fx}) {
									return
								}
							}
						}
					}
				}
			}
		}, checkSource)
		mc.Explore(c, "large", func(yield func(largeText) bool) {
			// Large sizes: every part of a glyph passes the window.
			for fo := 0; fo < 2; fo++ {
				for _, size := range []int{100, 104, 255, 256, 257, 511, 512, 513, 700, 1023, 1024, 1025, 2047, 2100} {
					for hint := 0; hint < 2; hint++ {
						for _, s := range []string{"A", "L", "AB", "LA"} {
							for i := 0; i < 16; i++ {
								if len(s) > 1 && size%8 != 0 {
									continue // keep the pen on quarters of a pixel
								}
								if c.Thorough() || size < 600 || (i+size+hint)%3 == 0 {
									if !yield(largeText{Font: fo, Size: size, Hint: hint, S: s, N: 1, X: -(size * 64 * (i % 4) / 6) &^ 15, Y: (size * 64 * (i / 4) / 5) &^ 15}) {
										return
									}
								}
							}
						}
					}
				}
			}
			// Long strings: the end, the middle or the start is in the window.
			for fo := 0; fo < 2; fo++ {
				for hint := 0; hint < 2; hint++ {
					for _, n := range []int{3, 9, 40, 64, 65, 129, 255, 256, 257, 1000, 5000} {
						for _, s := range []string{"A", "AB", "LAB?N", "BAL"} {
							for at := 0; at < 3; at++ {
								for _, y := range []int{30 * 64, 20*64 + 16} {
									if !yield(largeText{Font: fo, Size: 8, Hint: hint, S: s, N: n, X: -at * n * len(s) * 5 * 32, Y: y}) {
										return
									}
								}
							}
						}
					}
				}
			}
			// Images that are far from the origin.
			far := []int{0, 250, 256, 32700, 32760, 40000, 65530, 65560, 1 << 20, 1<<24 + 77}
			for _, ox := range far {
				for _, oy := range far {
					for sign := 0; sign < 4; sign++ {
						o := [2]int{ox, oy}
						if sign&1 != 0 {
							o[0] = -ox
						}
						if sign&2 != 0 {
							o[1] = -oy
						}
						for hint := 0; hint < 2; hint++ {
							for _, s := range []string{"A", "BL", "C"} {
								if !yield(largeText{Font: sign % 2, Size: 16, Hint: hint, S: s, N: 1, X: 10*64 + 16, Y: 30*64 + 16, O: o}) {
									return
								}
							}
						}
					}
				}
			}
		}, execLargeText)
		mc.Explore(c, "displaced", func(yield func(largeText) bool) {
			// Glyphs far from the pen, and outside of the font's bounding box.
			for g := 0; g < 16; g++ {
				for px := -230; px <= 290; px += 13 {
					for py := -230; py <= 280; py += 15 {
						t := largeText{Font: 2, Size: 16, Hint: g & 1, S: string(rune('a' + g)), N: 1, X: 64*px + 16, Y: 64 * py}
						if (px+py)%2 == 0 {
							t.S = string([]rune{rune('a' + (g+5)%16), rune('a' + g)})
						}
						if !yield(t) {
							return
						}
					}
				}
			}
		}, execLargeText)
		mc.Explore(c, "defaults", func(yield func(defaultCase) bool) {
			for f := range 2 {
				for _, last := range []bool{false, true} {
					permutations(3, func(p []int) bool {
						for v := range 27 {
							if !yield(defaultCase{append([]int(nil), p...), [3]int{v % 3, v / 3 % 3, v / 9}, f, last}) {
								return false
							}
						}
						return true
					})
				}
			}
		}, execDefaults)
		mc.Explore(c, "points", func(yield func(float64) bool) {
			for _, dpi := range []float64{0, 1, 30, 36, 71, 72, 73, 96, 100.5, 144, 160, 300, 600, 1200, 2400} {
				if !yield(dpi) {
					return
				}
			}
		}, checkPoints)
		mc.Explore(c, "indices", func(yield func([]int) bool) {
			for n := 1; n <= 3; n++ {
				if !tuples(n, len(bigFontGlyphs), func(t []int) bool { return yield(append([]int(nil), t...)) }) {
					return
				}
			}
		}, func(x *mc.X, k []int) error {
			m, f, err := bigFontScratch(x)
			if err != nil {
				return err
			}
			var text []rune
			for _, i := range k {
				text = append(text, 'a'+rune(i))
			}
			dst := image.NewAlpha(image.Rect(0, 0, 60, 20))
			for h, hint := range hintVals {
				c := newContext(f, 8, hint, dst)
				for pass := 0; pass < 2; pass++ {
					want := image.NewAlpha(dst.Rect)
					clearAlpha(dst)
					px, py := 5*64+16*pass, 12*64
					end, err := m.layout(glyphKey{f, 8 * 64, hint, 0}, string(text), px, py, func(g *glyphRef, px, py int) {
						mk := m.at(g, px&63, py&63)
						r := mk.rect.Add(image.Pt(px>>6, py>>6))
						am := &image.Alpha{Pix: mk.pix, Stride: mk.rect.Dx(), Rect: image.Rect(0, 0, mk.rect.Dx(), mk.rect.Dy())}
						draw.DrawMask(want, r, image.Opaque, image.Point{}, am, image.Point{}, draw.Over)
					})
					if err != nil {
						return fmt.Errorf("harness: %v", err)
					}
					p, err := c.DrawString(string(text), fixed.Point26_6{X: i26(px), Y: i26(py)})
					if err != nil || int(p.X) != end {
						return fmt.Errorf("hinting %d, DrawString(%q) returns %v, %v, want %d", h, string(text), p, err, end)
					}
					for i := range want.Pix {
						if absInt(int(dst.Pix[i])-int(want.Pix[i])) > 2 {
							return fmt.Errorf("hinting %d, DrawString(%q): pixel (%d, %d) is %d, want %d", h, string(text), i%60, i/60, dst.Pix[i], want.Pix[i])
						}
					}
					x.Step(1)
					hs := mc.NewHash()
					hs.Bytes(dst.Pix)
					x.Outcome(uint64(hs))
				}
			}
			x.Validated()
			return nil
		})
		mc.Explore(c, "bundled-fonts", func(yield func(bundledText) bool) {
			for fi := range fontNames {
				for _, size := range []int{9, 14} {
					for hint := 0; hint < 2; hint++ {
						for r := ' '; r <= '~'; r++ {
							if !yield(bundledText{fi, size, hint, int(r)}) {
								return
							}
						}
					}
				}
			}
		}, checkBundledText)
	},
}

// largeText draws S repeated N times.
type largeText struct {
	Font, Size, Hint int
	S                string
	N, X, Y          int
	O                [2]int // The origin of the image.
}

func execLargeText(x *mc.X, k largeText) error {
	fonts, err := textFontsParsed()
	if err != nil {
		return err
	}
	m, _ := x.Scratch.(*masker)
	if m == nil {
		m = newMasker()
		x.Scratch = m
	}
	if k.Size > 100 {
		// The masks are large.
		m = newMasker()
	}
	hint := []font.Hinting{font.HintingNone, font.HintingFull}[k.Hint]
	if k.Font == 2 {
		if fonts[2], err = farFontParsed(); err != nil {
			return err
		}
	}
	key := glyphKey{fonts[k.Font], 64 * k.Size, hint, 0}
	rect := image.Rect(0, 0, 60, 50).Add(image.Pt(k.O[0], k.O[1]))
	dst, want := image.NewAlpha(rect), image.NewAlpha(rect)
	k.X, k.Y = k.X+64*k.O[0], k.Y+64*k.O[1]
	c := newContext(key.f, float64(k.Size), hint, dst)
	text := strings.Repeat(k.S, k.N)
	end, err := m.layout(key, text, k.X, k.Y, func(g *glyphRef, px, py int) {
		mk := m.at(g, px&63, py&63)
		r := mk.rect.Add(image.Pt(px>>6, py>>6))
		am := &image.Alpha{Pix: mk.pix, Stride: mk.rect.Dx(), Rect: image.Rect(0, 0, mk.rect.Dx(), mk.rect.Dy())}
		if vis := r.Intersect(want.Rect); !vis.Empty() {
			draw.DrawMask(want, vis, image.Opaque, image.Point{}, am, vis.Min.Sub(r.Min), draw.Over)
		}
	})
	if err != nil {
		return err
	}
	for pass := 0; pass < 2; pass++ {
		clearAlpha(dst)
		p, err := c.DrawString(text, fixed.Point26_6{X: i26(k.X), Y: i26(k.Y)})
		if err != nil {
			return err
		}
		if int(p.X) != end || int(p.Y) != k.Y {
			return fmt.Errorf("DrawString returns %v, want (%d, %d)", p, end, k.Y)
		}
		h := mc.NewHash()
		h.Bytes(dst.Pix)
		x.Step(1)
		x.StateU(uint64(h))
		x.Outcome(uint64(h))
		x.Validated()
		for i := range want.Pix {
			if absInt(int(dst.Pix[i])-int(want.Pix[i])) > 2 {
				return fmt.Errorf("pass %d: pixel (%d, %d) is %d, want %d", pass, i%60, i/60, dst.Pix[i], want.Pix[i])
			}
		}
	}
	return nil
}

// farFont's glyphs 'a' to 'p' are squares displaced in eight directions and by
// two distances. Its bounding box is too small.
var farFontParsed = sync.OnceValues(func() (*truetype.Font, error) {
	gl := [][]byte{nil}
	for i := 0; i < 16; i++ {
		d := [][2]int{{1, 0}, {1, 1}, {0, 1}, {-1, 1}, {-1, 0}, {-1, -1}, {0, -1}, {1, -1}}[i/2]
		r := 100 + 700*(i&1)
		gl = append(gl, fontgen.Simple([][]fontgen.Pt{fontgen.Square(d[0]*r, d[1]*r, d[0]*r+30, d[1]*r+40)}, fontgen.SimpleOpts{}))
	}
	ft := fontgen.New(gl...)
	for i := range ft.HM {
		ft.HM[i].Adv = 32
		if i > 0 {
			j := i - 1
			ft.HM[i].LSB = [8]int{1, 1, 0, -1, -1, -1, 0, 1}[j/2] * (100 + 700*(j&1))
		}
	}
	ft.BBox = [4]int{0, -10, 30, 40}
	ft.Cmap = fontgen.Cmap(fontgen.CmapSub{PID: 0, PSID: 4, Data: fontgen.Format12([]fontgen.Group{{Start: 'a', End: 'p', Glyph: 1}})})
	return parseOK(ft.Bytes())
})

// defaultCase sets some of the size, resolution and hinting, in an order. The
// values are 0 for not set.
type defaultCase struct {
	Order    []int
	Vals     [3]int
	Font     int
	FontLast bool
}

// execDefaults compares a context whose size, resolution or hinting was never
// set with one where the documented defaults were set.
func execDefaults(x *mc.X, k defaultCase) error {
	w, err := newTextWorld(x)
	if err != nil {
		return err
	}
	sizes, dpis, hints := []float64{12, 12, 17}, []float64{72, 72, 50}, []font.Hinting{font.HintingNone, font.HintingNone, font.HintingFull}
	clip := image.Rect(0, 0, 60, 40)
	var img [2]*image.Alpha
	var end [2]fixed.Point26_6
	for i := range img {
		c := freetype.NewContext()
		img[i] = image.NewAlpha(clip)
		if !k.FontLast {
			c.SetFont(w.fonts[k.Font])
		}
		for _, o := range k.Order {
			v := k.Vals[o]
			if i == 0 && v == 0 {
				continue
			}
			switch o {
			case 0:
				if i == 1 {
					c.SetFontSize(33)
				}
				c.SetFontSize(sizes[v])
			case 1:
				if i == 1 {
					c.SetDPI(200)
				}
				c.SetDPI(dpis[v])
			case 2:
				if i == 1 {
					c.SetHinting(font.HintingFull)
				}
				c.SetHinting(hints[v])
			}
		}
		if k.FontLast {
			c.SetFont(w.fonts[k.Font])
		}
		c.SetDst(img[i])
		c.SetSrc(image.Opaque)
		c.SetClip(clip)
		if end[i], err = c.DrawString("ABC", freetype.Pt(10, 20)); err != nil {
			return err
		}
		if got, want := c.PointToFixed(9), i26(int(9*dpis[k.Vals[1]]*64/72)); got != want {
			return fmt.Errorf("context %d: 9 points are %v, want %v", i, got, want)
		}
		x.Step(8)
	}
	if end[0] != end[1] {
		return fmt.Errorf("drawing ends at %v, with the defaults set explicitly at %v", end[0], end[1])
	}
	ink := false
	for i, v := range img[0].Pix {
		ink = ink || v != 0
		if v != img[1].Pix[i] {
			return fmt.Errorf("pixel %d is %#x, with the defaults set explicitly %#x", i, v, img[1].Pix[i])
		}
	}
	if !ink {
		return fmt.Errorf("nothing was drawn")
	}
	// A context without a clip draws nothing.
	c := freetype.NewContext()
	c.SetFont(w.fonts[k.Font])
	dst := image.NewAlpha(clip)
	c.SetDst(dst)
	c.SetSrc(image.Opaque)
	if _, err := c.DrawString("ABC", freetype.Pt(10, 20)); err != nil {
		return err
	}
	for i, v := range dst.Pix {
		if v != 0 {
			return fmt.Errorf("without a clip, pixel %d is %#x", i, v)
		}
	}
	h := mc.NewHash()
	h.Bytes(img[0].Pix)
	x.Outcome(uint64(h))
	x.Validated()
	return nil
}

// checkPoints checks Pt and PointToFixed, which converts points at a resolution.
func checkPoints(x *mc.X, dpi float64) error {
	c := freetype.NewContext()
	res := 72.0
	if dpi > 0 {
		c.SetDPI(dpi)
		res = dpi
	}
	for i := -2000; i <= 2000; i++ {
		for _, j := range []int{i, -i, 0, 1<<24 + i, -1<<24 - i, 1<<25 - 1, -1 << 25} {
			if p := freetype.Pt(i, j); int(p.X) != 64*i || int(p.Y) != 64*j {
				return fmt.Errorf("Pt(%d, %d) is %v", i, j, p)
			}
			if p := freetype.Pt(j, i); int(p.X) != 64*j || int(p.Y) != 64*i {
				return fmt.Errorf("Pt(%d, %d) is %v", j, i, p)
			}
			x.Step(1)
		}
	}
	last := math.Inf(-1)
	for i := -4000; i <= 40000; i++ {
		pts := float64(i) / 32
		got, want := float64(c.PointToFixed(pts)), pts*res*64/72
		if math.Abs(got-want) >= 1+1e-6 {
			return fmt.Errorf("at %v DPI, %v points are %v, want %v", res, pts, got, want)
		}
		if got < last {
			return fmt.Errorf("at %v DPI, %v points are %v, fewer are %v", res, pts, got, last)
		}
		last = got
		x.Step(1)
		x.Outcome(uint64(int64(got)))
	}
	// Large numbers, up to what fits.
	for i := 1; i < 100000; i += 7 {
		for _, pts := range []float64{float64(i) * 321.7, float64(i) * -321.7} {
			want := pts * res * 64 / 72
			if math.Abs(want) > 1<<31-2 {
				continue
			}
			if got := float64(c.PointToFixed(pts)); math.Abs(got-want) >= 1+1e-6 {
				return fmt.Errorf("at %v DPI, %v points are %v, want %v", res, pts, got, want)
			}
			x.Step(1)
		}
	}
	x.Validated()
	return nil
}

// maskAt compares dst with glyph g drawn at (px, py) as made for one of the
// candidate fractions.
func maskAt(dst *image.Alpha, m *masker, g *glyphRef, px, py int, cand [][2]int) (err error) {
	if g.err != nil {
		return g.err
	}
	for _, fr := range cand {
		mk := m.at(g, fr[0], fr[1])
		var e error
	search:
		for y := 0; y < dst.Rect.Max.Y; y++ {
			for x := 0; x < dst.Rect.Max.X; x++ {
				got, want := int(dst.Pix[y*dst.Stride+x]), int(mk.at(x-px>>6, y-py>>6))
				if absInt(got-want) > 1 {
					e = fmt.Errorf("pixel (%d, %d) is %d, want %d", x, y, got, want)
					break search
				}
			}
		}
		if e == nil {
			return nil
		}
		if err == nil {
			err = e
		}
	}
	return err
}

// checkBundledText draws all pairs that start with a rune. Every pixel must lie
// between the least and the greatest coverage that masks made at positions in
// the same sub-pixel cell have.
func checkBundledText(x *mc.X, k bundledText) error {
	fs, err := loadRealFonts()
	if err != nil {
		return err
	}
	type scratch struct {
		m *masker
		f [3]*truetype.Font
	}
	s, _ := x.Scratch.(*scratch)
	if s == nil {
		s = &scratch{m: newMasker()}
		for i := range s.f {
			if s.f[i], err = parseOK(fs[i].bytes); err != nil {
				return err
			}
		}
		x.Scratch = s
	}
	const w, h = 48, 24
	dst := image.NewAlpha(image.Rect(0, 0, w, h))
	key := glyphKey{s.f[k.Font], 64 * k.Size, []font.Hinting{font.HintingNone, font.HintingFull}[k.Hint], 0}
	c := newContext(key.f, float64(k.Size), key.hint, dst)
	lo, hi := make([]float64, w*h), make([]float64, w*h)
	seen := map[[2]int][]int{}
	for r := ' '; r <= '~'; r++ {
		text := string([]rune{rune(k.First), r})
		px, py := 6*64+int(r)%4*16, 16*64
		for i := range lo {
			lo[i], hi[i] = 1, 1
		}
		end, err := s.m.layout(key, text, px, py, func(g *glyphRef, px, py int) {
			fx := px & 63
			cell := [2]int{0, fx / 16}
			for i := range g.g.Points {
				cell[0] = cell[0]*31 + int(g.g.Points[i].X) + 7*int(g.g.Points[i].Y)
			}
			seen[cell] = append(seen[cell], fx)
			cand := append([]int{fx &^ 15}, seen[cell]...)
			var masks []*refMask
			for i, f := range cand {
				dup := false
				for _, q := range cand[:i] {
					dup = dup || q == f
				}
				if !dup {
					masks = append(masks, s.m.at(g, f, 0))
				}
			}
			r := masks[0].rect.Union(masks[len(masks)-1].rect).Inset(-1)
			for y := r.Min.Y; y < r.Max.Y; y++ {
				for xx := r.Min.X; xx < r.Max.X; xx++ {
					X, Y := xx+px>>6, y+py>>6
					if X < 0 || X >= w || Y < 0 || Y >= h {
						continue
					}
					mn, mx := 255, 0
					for _, m := range masks {
						v := int(m.at(xx, y))
						mn, mx = min(mn, v), max(mx, v)
					}
					lo[Y*w+X] *= 1 - math.Max(0, float64(mn-20))/255
					hi[Y*w+X] *= 1 - math.Min(255, float64(mx+20))/255
				}
			}
		})
		if err != nil {
			return err
		}
		clearAlpha(dst)
		p, err := c.DrawString(text, fixed.Point26_6{X: i26(px), Y: i26(py)})
		if err != nil {
			return err
		}
		if int(p.X) != end || int(p.Y) != py {
			return fmt.Errorf("%s: DrawString(%q) returns %v, want (%d, %d)", fs[k.Font].name, text, p, end, py)
		}
		for i, v := range dst.Pix {
			a, b := 255*(1-lo[i]), 255*(1-hi[i])
			if float64(v) < a-3 || float64(v) > b+3 {
				return fmt.Errorf("%s: DrawString(%q): pixel (%d, %d) is %d, want between %.0f and %.0f", fs[k.Font].name, text, i%w, i/w, v, a, b)
			}
		}
		hs := mc.NewHash()
		hs.Bytes(dst.Pix)
		x.Outcome(uint64(hs))
		x.Step(1)
	}
	x.Validated()
	return nil
}
