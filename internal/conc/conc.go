// Package conc has the operations that C21 runs concurrently: each uses shared
// fonts through objects of its own, and its result is a hash of all it gets.
package conc

import (
	"fmt"
	"image"
	"image/color"
	"image/draw"

	"verif/internal/fontgen"

	"github.com/golang/freetype"
	"github.com/golang/freetype/raster"
	"github.com/golang/freetype/truetype"
	"golang.org/x/image/font"
	"golang.org/x/image/math/fixed"
)

// Env is what threads share: two fonts, and their data.
type Env struct {
	F, G         *truetype.Font
	DataF, DataG []byte
}

// Op is an operation.
type Op struct {
	Name string
	Run  func(e *Env, h *Hash)
}

// Hash is FNV-1a.
type Hash uint64

func (h *Hash) Int(vs ...int) {
	for _, v := range vs {
		*h = (*h ^ Hash(uint64(v))) * 0x9E3779B97F4A7C15
		*h ^= *h >> 29
	}
}
func (h *Hash) Bytes(b []byte) {
	for _, c := range b {
		h.Int(int(c))
	}
	h.Int(-len(b) - 1)
}
func (h *Hash) Err(err error) {
	if err != nil {
		h.Bytes([]byte(err.Error()))
	}
}
func (h *Hash) Glyph(g *truetype.GlyphBuf) {
	for _, p := range g.Points {
		h.Int(int(p.X), int(p.Y), int(p.Flags&1))
	}
	h.Int(len(g.Points))
	h.Int(g.Ends...)
	h.Int(int(g.AdvanceWidth), int(g.Bounds.Min.X), int(g.Bounds.Min.Y), int(g.Bounds.Max.X), int(g.Bounds.Max.Y))
}

// Do runs an operation and returns its result. A panic is a result, too.
func (o *Op) Do(e *Env) (r uint64, pan string) {
	var h Hash = 14695981039346656037
	defer func() {
		if x := recover(); x != nil {
			pan = fmt.Sprint(x)
			h.Bytes([]byte(pan))
			r = uint64(h)
		}
	}()
	o.Run(e, &h)
	return uint64(h), ""
}

// NewEnv parses the shared fonts.
func NewEnv() *Env {
	e := &Env{DataF: dataF, DataG: dataG}
	var err error
	if e.F, err = truetype.Parse(e.DataF); err != nil {
		panic(err)
	}
	if e.G, err = truetype.Parse(e.DataG); err != nil {
		panic(err)
	}
	return e
}

var dataF, dataG = makeFont(0), makeFont(1)

type ints = []int

func makeFont(k int) []byte {
	c := fontgen.Code
	tri := [][]fontgen.Pt{{{X: 2 + k, Y: 0, On: true}, {X: 20, Y: 45, On: false}, {X: 41, Y: 7, On: true}}}
	sq := [][]fontgen.Pt{fontgen.Square(-3, -4, 22, 30+k)}
	ft := fontgen.New(nil,
		fontgen.Simple(tri, fontgen.SimpleOpts{Instr: c(ints{1, 0}, fontgen.CALL, ints{2, 1}, fontgen.MIAP1, ints{0}, fontgen.RS, ints{1}, fontgen.ADD, ints{0}, fontgen.SWAP, fontgen.WS, fontgen.IUP0, fontgen.IUP1)}),
		fontgen.Simple(sq, fontgen.SimpleOpts{Instr: c(ints{3, 0}, fontgen.RS, fontgen.SHPIX, ints{0, 90, 2, 0}, fontgen.RCVT, fontgen.SWAP, fontgen.WCVTP, fontgen.IUP1)}),
		nil,
		[]byte{0, 1, 0, 0, 0, 0, 0, 9, 0, 9, 0, 5})
	ft.Glyphs[3] = fontgen.Compound([4]int{-5, -9, 60, 44}, []fontgen.Comp{
		{Flags: fontgen.ArgsXY | fontgen.RoundXY, Glyph: 1, DX: 3, DY: 4},
		{Flags: fontgen.ArgsXY | fontgen.UseMetrics | fontgen.HaveScale, Glyph: 2, DX: 20, DY: -3, M: [4]int{0x3000}},
	}, c(ints{4}, fontgen.MDAP1, fontgen.IUP1), 0)
	for i := range ft.HM {
		ft.HM[i] = fontgen.HM{Adv: 30 + 11*i + k, LSB: i - 3}
	}
	ft.UPEM = 64 + 64*k
	ft.BBox = [4]int{-10, -14, 50, 52}
	ft.Cvt = ints{5, 41, 90 + k}
	ft.Fpgm = c(ints{0}, fontgen.FDEF, fontgen.MDAP1, fontgen.ENDF)
	ft.Prep = c(ints{0, 100 + k}, fontgen.WCVTP, ints{0, 37 + k}, fontgen.WS, fontgen.MPPEM, ints{12}, fontgen.GT, fontgen.IF, ints{1, 9}, fontgen.WCVTP, fontgen.EIF)
	ft.Kern = fontgen.Kern([]fontgen.KernPair{{L: 1, R: 2, V: -7}, {L: 2, R: 1, V: 9 + k}, {L: 2, R: 2, V: 30}})
	ft.OS2 = fontgen.OS2(78, 47, -12)
	ft.Hdmx = fontgen.Hdmx([]int{1, 12}, [][]int{{1, 2, 3, 4, 5}, {9, 8, 7, 6, 5}})
	ft.Name = fontgen.Name([]fontgen.NameRec{{PID: 3, PSID: 1, ID: 1, Len: 4, Off: 0}, {PID: 3, PSID: 1, ID: 4, Len: 4, Off: 2}}, fontgen.UTF16('R', 'i'+k, 'c'), 0)
	if k == 0 {
		ft.Cmap = fontgen.Cmap(fontgen.CmapSub{PID: 3, PSID: 1, Data: fontgen.Format4([]fontgen.Seg{{Start: 'A', End: 'B', Delta: 1 - 'A'}, {Start: 'C', End: 'D', Delta: 0, Array: ints{3, 4}}}, nil)})
	} else {
		ft.Cmap = fontgen.Cmap(fontgen.CmapSub{PID: 0, PSID: 4, Data: fontgen.Format12([]fontgen.Group{{Start: 'A', End: 'A', Glyph: 2}, {Start: 'B', End: 'D', Glyph: 1}})})
	}
	if k == 0 {
		// Tables longer than what they hold, and shorter than they could be.
		ft.OS2 = fontgen.OS2(96, 47, -12)
		pad := func(b *[]byte) { *b = append((*b)[:len(*b):len(*b)], 0, 1, 2, 3, 4, 5, 6, 7) }
		pad(&ft.Kern)
		pad(&ft.Hdmx)
		pad(&ft.Name)
		pad(&ft.Cmap)
		ft.NHMetric = 3
		ft.VMtx = []byte{0, 70, 0, 5, 0, 71, 0, 6}
		ft.GlyphPad = 4
	}
	return ft.Bytes()
}

func load(h *Hash, f *truetype.Font, hint font.Hinting, sg ...[2]int) {
	var g truetype.GlyphBuf
	for _, x := range sg {
		h.Err(g.Load(f, fixed.Int26_6(x[0]), truetype.Index(x[1]), hint))
		h.Glyph(&g)
	}
}

func faceGlyph(h *Hash, face font.Face, rs string) {
	for i, r := range rs {
		dr, mask, mp, adv, ok := face.Glyph(fixed.Point26_6{X: fixed.Int26_6(13 + 300*i), Y: 500}, r)
		h.Int(dr.Min.X, dr.Min.Y, dr.Max.X, dr.Max.Y, int(adv))
		if !ok {
			h.Int(99)
			continue
		}
		for y := 0; y < dr.Dy(); y++ {
			for x := 0; x < dr.Dx(); x++ {
				_, _, _, a := mask.At(mp.X+x, mp.Y+y).RGBA()
				h.Int(int(a))
			}
		}
	}
}

func drawText(h *Hash, f *truetype.Font, size float64, hint font.Hinting, s string) {
	m := image.NewAlpha(image.Rect(0, 0, 14, 11))
	c := freetype.NewContext()
	c.SetDst(m)
	c.SetSrc(image.Opaque)
	c.SetClip(m.Bounds())
	c.SetFont(f)
	c.SetFontSize(size)
	c.SetHinting(hint)
	p, err := c.DrawString(s, fixed.Point26_6{X: 70, Y: 500})
	h.Err(err)
	h.Int(int(p.X), int(p.Y))
	h.Bytes(m.Pix)
}

type spanHash struct{ h *Hash }

func (s spanHash) Paint(ss []raster.Span, done bool) {
	for _, x := range ss {
		s.h.Int(x.Y, x.X0, x.X1, int(x.Alpha))
	}
	if done {
		s.h.Int(77)
	}
}

func pt(x, y int) fixed.Point26_6 {
	return fixed.Point26_6{X: fixed.Int26_6(x), Y: fixed.Int26_6(y)}
}

func spans() []raster.Span {
	return []raster.Span{{Y: 0, X0: 1, X1: 3, Alpha: 0xffff}, {Y: 1, X0: 0, X1: 2, Alpha: 0x4000}, {Y: 1, X0: 2, X1: 4, Alpha: 0x9000}}
}

// Ops are the operations.
var Ops = []*Op{
	{"index", func(e *Env, h *Hash) {
		for _, r := range []rune{'A', 'C', 'B', 0xffff, 'D'} {
			h.Int(int(e.F.Index(r)))
		}
	}},
	{"index, other font", func(e *Env, h *Hash) {
		for _, r := range []rune{'B', 'A', 'E'} {
			h.Int(int(e.G.Index(r)))
		}
	}},
	{"horizontal metrics", func(e *Env, h *Hash) {
		for _, i := range []truetype.Index{1, 3, 2, 9} {
			m := e.F.HMetric(640, i)
			h.Int(int(m.AdvanceWidth), int(m.LeftSideBearing))
		}
	}},
	{"horizontal metrics, other scale and font", func(e *Env, h *Hash) {
		for _, i := range []truetype.Index{2, 1} {
			m := e.F.HMetric(64, i)
			n := e.G.HMetric(640, i)
			h.Int(int(m.AdvanceWidth), int(n.LeftSideBearing))
		}
	}},
	{"vertical metrics and bounds", func(e *Env, h *Hash) {
		for _, s := range []fixed.Int26_6{640, 64} {
			m := e.F.VMetric(s, 1)
			b := e.F.Bounds(s)
			h.Int(int(m.AdvanceHeight), int(m.TopSideBearing), int(b.Min.X), int(b.Min.Y), int(b.Max.X), int(b.Max.Y), int(e.F.FUnitsPerEm()))
		}
	}},
	{"bounds, other scale", func(e *Env, h *Hash) {
		b := e.F.Bounds(999)
		h.Int(int(b.Min.X), int(b.Min.Y), int(b.Max.X), int(b.Max.Y))
	}},
	{"kerning", func(e *Env, h *Hash) {
		for _, p := range [][2]truetype.Index{{1, 2}, {2, 1}, {1, 1}} {
			h.Int(int(e.F.Kern(640, p[0], p[1])))
		}
	}},
	{"kerning, other scale and font", func(e *Env, h *Hash) {
		for _, p := range [][2]truetype.Index{{2, 2}, {1, 2}} {
			h.Int(int(e.F.Kern(64, p[0], p[1])), int(e.G.Kern(640, p[0], p[1])))
		}
	}},
	{"names", func(e *Env, h *Hash) {
		for _, id := range []truetype.NameID{1, 4, 5} {
			h.Bytes([]byte(e.F.Name(id)))
		}
	}},
	{"names, other font", func(e *Env, h *Hash) {
		for _, id := range []truetype.NameID{4, 1} {
			h.Bytes([]byte(e.G.Name(id)))
		}
	}},
	{"load", func(e *Env, h *Hash) { load(h, e.F, font.HintingNone, [2]int{640, 1}) }},
	{"load, other glyph and scale", func(e *Env, h *Hash) { load(h, e.F, font.HintingNone, [2]int{832, 2}, [2]int{640, 2}) }},
	{"load compound", func(e *Env, h *Hash) { load(h, e.F, font.HintingNone, [2]int{640, 3}) }},
	{"load bad glyphs", func(e *Env, h *Hash) { load(h, e.F, font.HintingFull, [2]int{640, 4}, [2]int{640, 5}) }},
	{"load hinted", func(e *Env, h *Hash) { load(h, e.F, font.HintingFull, [2]int{640, 1}) }},
	{"load hinted, other glyph", func(e *Env, h *Hash) { load(h, e.F, font.HintingFull, [2]int{640, 2}) }},
	{"load hinted, other scale", func(e *Env, h *Hash) { load(h, e.F, font.HintingFull, [2]int{832, 1}) }},
	{"load hinted compound, reuse", func(e *Env, h *Hash) { load(h, e.F, font.HintingFull, [2]int{832, 3}, [2]int{640, 1}) }},
	{"load hinted, other font", func(e *Env, h *Hash) { load(h, e.G, font.HintingFull, [2]int{1280, 1}, [2]int{1280, 2}) }},
	{"face", func(e *Env, h *Hash) {
		f := truetype.NewFace(e.F, &truetype.Options{Size: 3, GlyphCacheEntries: 1})
		faceGlyph(h, f, "AA")
	}},
	{"face, other size and glyphs", func(e *Env, h *Hash) {
		f := truetype.NewFace(e.F, &truetype.Options{Size: 4, GlyphCacheEntries: 1, SubPixelsX: 1, SubPixelsY: 2})
		faceGlyph(h, f, "B")
	}},
	{"face, hinted", func(e *Env, h *Hash) {
		f := truetype.NewFace(e.F, &truetype.Options{Size: 3, Hinting: font.HintingFull, GlyphCacheEntries: 1})
		faceGlyph(h, f, "B")
		h.Int(int(f.Kern('A', 'B')))
	}},
	{"face measurements", func(e *Env, h *Hash) {
		f := truetype.NewFace(e.F, &truetype.Options{Size: 7, GlyphCacheEntries: 1})
		m := f.Metrics()
		h.Int(int(m.Ascent), int(m.Descent), int(m.Height), int(f.Kern('B', 'A')))
		b, a, ok := f.GlyphBounds('A')
		h.Int(int(b.Min.X), int(b.Max.Y), int(a))
		a, ok2 := f.GlyphAdvance('B')
		h.Int(int(a))
		if !ok || !ok2 {
			h.Int(5)
		}
		f.Close()
	}},
	{"drawer", func(e *Env, h *Hash) {
		m := image.NewRGBA(image.Rect(0, 0, 10, 8))
		d := font.Drawer{Dst: m, Src: image.Black, Face: truetype.NewFace(e.G, &truetype.Options{Size: 3, GlyphCacheEntries: 1}), Dot: pt(33, 400)}
		d.DrawString("A")
		h.Int(int(d.Dot.X), int(d.MeasureString("BA")))
		h.Bytes(m.Pix)
	}},
	{"draw text", func(e *Env, h *Hash) { drawText(h, e.F, 3, font.HintingNone, "AB") }},
	{"draw text, hinted, other size", func(e *Env, h *Hash) { drawText(h, e.F, 4, font.HintingFull, "B") }},
	{"draw text, other font", func(e *Env, h *Hash) { drawText(h, e.G, 3, font.HintingNone, "A") }},
	{"fill", func(e *Env, h *Hash) {
		r := raster.NewRasterizer(6, 6)
		r.Start(pt(30, 40))
		r.Add1(pt(300, 77))
		r.Add1(pt(100, 310))
		r.Add1(pt(30, 40))
		r.Rasterize(spanHash{h})
	}},
	{"fill, non-zero, with curves", func(e *Env, h *Hash) {
		r := raster.NewRasterizer(7, 5)
		r.UseNonZeroWinding = true
		r.Start(pt(30, 40))
		r.Add2(pt(300, 77), pt(100, 300))
		r.Add3(pt(-30, 40), pt(90, 250), pt(30, 40))
		r.Rasterize(spanHash{h})
		r.Clear()
		r.Rasterize(spanHash{h})
	}},
	{"stroke", func(e *Env, h *Hash) {
		var p raster.Path
		p.Start(pt(80, 90))
		p.Add1(pt(250, 130))
		p.Add2(pt(260, 260), pt(150, 280))
		r := raster.NewRasterizer(6, 6)
		r.UseNonZeroWinding = true
		r.AddStroke(p, 70, nil, nil)
		r.Rasterize(spanHash{h})
	}},
	{"stroke, square and bevel", func(e *Env, h *Hash) {
		var p, q raster.Path
		p.Start(pt(80, 90))
		p.Add1(pt(250, 130))
		p.Add1(pt(90, 200))
		raster.Stroke(&q, p, 60, raster.SquareCapper, raster.BevelJoiner)
		for _, v := range q {
			h.Int(int(v))
		}
	}},
	{"paths", func(e *Env, h *Hash) {
		var p, q raster.Path
		p.Start(pt(80, 90))
		p.Add1(pt(250, 130))
		p.Add3(pt(260, 260), pt(150, 280), pt(40, 20))
		q.Start(pt(1, 2))
		q.AddPath(p)
		q.AddPath(p)
		h.Bytes([]byte(q.String()))
		r := raster.NewRasterizer(6, 6)
		r.AddPath(q)
		r.Rasterize(spanHash{h})
	}},
	{"paths, other", func(e *Env, h *Hash) {
		var p, q raster.Path
		p.AddStroke(raster.Path{0, 64, 64, 0, 1, 200, 90, 1}, 30, raster.ButtCapper, raster.RoundJoiner)
		q.AddPath(p)
		p.Clear()
		q.Add2(pt(9, 8), pt(7, 6))
		for _, v := range q {
			h.Int(int(v))
		}
		h.Int(len(p))
	}},
	{"paint over and source", func(e *Env, h *Hash) {
		m := image.NewRGBA(image.Rect(0, 0, 4, 2))
		for i := range m.Pix {
			m.Pix[i] = uint8(i * 3)
		}
		p := raster.NewRGBAPainter(m)
		p.SetColor(color.RGBA{200, 100, 50, 220})
		p.Paint(spans(), true)
		p.Op = draw.Src
		p.SetColor(color.Gray{9})
		p.Paint(spans(), true)
		h.Bytes(m.Pix)
	}},
	{"paint alpha, monochrome", func(e *Env, h *Hash) {
		m := image.NewAlpha(image.Rect(0, 0, 4, 2))
		p := raster.NewMonochromePainter(raster.NewAlphaOverPainter(m))
		p.Paint(spans(), true)
		h.Bytes(m.Pix)
		raster.NewAlphaSrcPainter(m).Paint(spans(), true)
		h.Bytes(m.Pix)
	}},
	{"gamma", func(e *Env, h *Hash) {
		p := raster.NewGammaCorrectionPainter(spanHash{h}, 1.8)
		p.Paint(spans(), true)
	}},
	{"gamma, other", func(e *Env, h *Hash) {
		p := raster.NewGammaCorrectionPainter(spanHash{h}, 0.5)
		p.Paint(spans(), false)
		p.SetGamma(1)
		p.Paint(spans(), true)
	}},
	{"parse", func(e *Env, h *Hash) {
		f, err := freetype.ParseFont(e.DataF)
		h.Err(err)
		if err == nil {
			h.Int(int(f.Index('B')), int(f.FUnitsPerEm()), int(f.Kern(64, 1, 2)))
		}
	}},
	{"parse, other font and none", func(e *Env, h *Hash) {
		_, err := truetype.Parse(e.DataG[:100])
		h.Err(err)
		f, err := truetype.Parse(e.DataG)
		h.Err(err)
		if err == nil {
			h.Int(int(f.Index('B')), int(f.FUnitsPerEm()))
		}
	}},
}
