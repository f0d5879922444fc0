package checks

import (
	"fmt"
	"image"
	"image/color"
	"image/draw"
	"math"
	"os"
	"runtime"
	"sync"

	"verif/internal/conc"
	"verif/internal/mc"

	"github.com/golang/freetype"
	"github.com/golang/freetype/raster"
	"github.com/golang/freetype/truetype"
	"golang.org/x/image/font"
	"golang.org/x/image/math/fixed"
)

// growCase repeats operations on one object.
type growCase struct {
	Kind int
	Ops  []int
}

// growOp is an operation; i is the number of the round. What it is given varies
// with i, within bounds where more is allowed to need more memory (sizes).
type growOp struct {
	name string
	do   func(i int)
}

// growKind makes a new object and returns the operations on it.
type growKind struct {
	name string
	make func() []growOp
}

type nullSink struct{ n int }

func (s *nullSink) Start(a fixed.Point26_6)           { s.n++ }
func (s *nullSink) Add1(a fixed.Point26_6)            { s.n++ }
func (s *nullSink) Add2(a, b fixed.Point26_6)         { s.n++ }
func (s *nullSink) Add3(a, b, c fixed.Point26_6)      { s.n++ }
func (s *nullSink) Paint(ss []raster.Span, done bool) { s.n += len(ss) }

var growEnv struct {
	once  sync.Once
	e     *conc.Env
	luxi  *truetype.Font
	err   error
	inUse sync.Mutex
}

func growKinds() []growKind {
	growEnv.once.Do(func() {
		growEnv.e = conc.NewEnv()
		var data []byte
		if data, growEnv.err = os.ReadFile(repoDir() + "/testdata/luxisr.ttf"); growEnv.err == nil {
			growEnv.luxi, growEnv.err = truetype.Parse(data)
		}
	})
	e := growEnv.e
	fonts := []*truetype.Font{e.F, e.G, growEnv.luxi}
	const rs = "ABCD"
	newFont := func() *truetype.Font { f, _ := truetype.Parse(e.DataF); return f }
	curve := func(a raster.Adder, i int) {
		i %= 64
		a.Start(pt(10+i, 20))
		a.Add1(pt(700, 100+3*i))
		a.Add2(pt(300+i, 900), pt(50, 600))
		a.Add1(pt(10+i, 20))
	}
	var closed raster.Path
	curve(&closed, 7)
	return []growKind{
		{"glyph buffer", func() []growOp {
			g := &truetype.GlyphBuf{}
			return []growOp{
				{"hinted", func(i int) { g.Load(e.F, 640, truetype.Index(i%5), font.HintingFull) }},
				{"hinted, each size", func(i int) { g.Load(e.G, fixed.Int26_6(300+i), truetype.Index(1+i%3), font.HintingFull) }},
				{"each size", func(i int) { g.Load(e.F, fixed.Int26_6(200+i), truetype.Index(3), font.HintingNone) }},
				{"broken", func(i int) { g.Load(e.F, 640, 4, font.HintingFull) }},
				{"missing", func(i int) { g.Load(e.F, 640, truetype.Index(5+i), font.HintingNone) }},
				{"each font", func(i int) { g.Load(newFont(), 640, truetype.Index(i%5), font.HintingFull) }},
				{"bundled", func(i int) { g.Load(growEnv.luxi, 768, truetype.Index(i%48), font.HintingFull) }},
			}
		}},
		{"rasterizer", func() []growOp {
			r := raster.NewRasterizer(16, 16)
			return []growOp{
				{"curve", func(i int) { curve(r, i) }},
				{"AddPath", func(i int) { r.AddPath(closed) }},
				{"AddStroke", func(i int) { r.AddStroke(closed, fixed.Int26_6(20+i%32), nil, nil) }},
				{"Rasterize", func(i int) { r.Rasterize(&nullSink{}) }},
				{"Clear", func(i int) { r.Clear() }},
				{"SetBounds", func(i int) { r.SetBounds(16, 16) }},
				{"SetBounds, smaller", func(i int) { r.SetBounds(8+i%8, 3) }},
				{"offset", func(i int) { r.Dx, r.Dy, r.UseNonZeroWinding = i, -i, i&1 == 0 }},
			}
		}},
		{"path", func() []growOp {
			var p raster.Path
			clear := func(f func(i int)) func(i int) { return func(i int) { f(i); p.Clear() } }
			return []growOp{
				{"curve", clear(func(i int) { curve(&p, i) })},
				{"Add3", clear(func(i int) { p.Start(pt(i, 0)); p.Add3(pt(1, 2), pt(3, i), pt(5, 6)) })},
				{"AddPath", clear(func(i int) { p.AddPath(closed) })},
				{"AddStroke", clear(func(i int) { p.AddStroke(closed, fixed.Int26_6(20+i%32), nil, nil) })},
				{"String", clear(func(i int) { p.Start(pt(i, 1)); _ = p.String() })},
				{"Stroke", func(i int) {
					raster.Stroke(&nullSink{}, closed, fixed.Int26_6(i), raster.ButtCapper, raster.BevelJoiner)
				}},
				{"Stroke square", func(i int) { raster.Stroke(&nullSink{}, closed, fixed.Int26_6(i%500), raster.SquareCapper, nil) }},
			}
		}},
		{"context", func() []growOp {
			c := freetype.NewContext()
			dst := image.NewRGBA(image.Rect(0, 0, 40, 30))
			c.SetFont(e.F)
			c.SetDst(dst)
			c.SetSrc(image.Black)
			c.SetClip(dst.Bounds())
			return []growOp{
				{"DrawString", func(i int) { c.DrawString(rs, fixed.Point26_6{X: fixed.Int26_6(i), Y: fixed.Int26_6(500 + i%64)}) }},
				{"DrawString, each rune", func(i int) {
					c.DrawString(string([]rune{rune('A' + i), rune('A' + i%7)}), fixed.Point26_6{X: 100, Y: 900})
				}},
				{"SetFont", func(i int) { c.SetFont(fonts[i%2]) }},
				{"new font", func(i int) { c.SetFont(newFont()); c.DrawString("A", pt(99, 99)) }},
				{"SetFontSize", func(i int) { c.SetFontSize(float64(8 + i%8)) }},
				{"SetFontSize, close", func(i int) { c.SetFontSize(10 + float64(i)/65536) }},
				{"SetDPI", func(i int) { c.SetDPI(float64(60 + i%12)) }},
				{"SetHinting", func(i int) { c.SetHinting(font.Hinting(i % 3)) }},
				{"SetDst", func(i int) { d := *dst; c.SetDst(&d); c.SetSrc(image.NewUniform(color.Alpha16{uint16(i)})) }},
				{"SetClip", func(i int) { c.SetClip(image.Rect(i%9, 0, 40, 10+i%20)) }},
				{"luxi", func(i int) {
					c.SetFont(growEnv.luxi)
					c.DrawString("Ag", fixed.Point26_6{X: fixed.Int26_6(16 * i), Y: 900})
					c.SetFont(e.F)
				}},
			}
		}},
		{"face", func() []growOp {
			mk := func(o truetype.Options) font.Face { return truetype.NewFace(e.F, &o) }
			a := mk(truetype.Options{Size: 12, GlyphCacheEntries: 16, Hinting: font.HintingFull})
			b := mk(truetype.Options{Size: 12, GlyphCacheEntries: 2, SubPixelsX: 64, SubPixelsY: 64})
			return []growOp{
				{"Glyph", func(i int) { a.Glyph(fixed.Point26_6{X: fixed.Int26_6(100 * i)}, rune(rs[i%4])) }},
				{"Glyph, each dot", func(i int) { b.Glyph(fixed.Point26_6{X: fixed.Int26_6(i), Y: fixed.Int26_6(3 * i)}, rune(rs[i%4])) }},
				{"Glyph, each rune", func(i int) { a.Glyph(fixed.Point26_6{}, rune(i)) }},
				{"GlyphBounds", func(i int) { a.GlyphBounds(rune('A' + i)) }},
				{"GlyphAdvance", func(i int) { a.GlyphAdvance(rune('A' + i)) }},
				{"Kern", func(i int) { a.Kern(rune('A'+i), rune('A'+i/7)) }},
				{"Metrics", func(i int) { a.Metrics() }},
				{"NewFace", func(i int) {
					mk(truetype.Options{Size: 6 + float64(i)/65536, GlyphCacheEntries: 1}).Glyph(fixed.Point26_6{}, 'A')
					mk(truetype.Options{Size: 6, GlyphCacheEntries: 1}).Close()
				}},
				{"MeasureString", func(i int) { font.MeasureString(a, string([]rune{rune('A' + i), 'B'})) }},
				{"Drawer", func(i int) {
					d := font.Drawer{Dst: image.NewAlpha(image.Rect(0, 0, 20, 20)), Src: image.Opaque, Face: b, Dot: fixed.Point26_6{X: fixed.Int26_6(i % 640), Y: 700}}
					d.DrawString("AB")
				}},
			}
		}},
		{"font", func() []growOp {
			f, _ := truetype.Parse(e.DataF)
			return []growOp{
				{"Index", func(i int) { f.Index(rune(i)) }},
				{"Name", func(i int) { f.Name(truetype.NameID(i)); f.Name(1) }},
				{"HMetric", func(i int) { f.HMetric(fixed.Int26_6(i), truetype.Index(i%7)) }},
				{"VMetric", func(i int) { f.VMetric(fixed.Int26_6(i), truetype.Index(i%7)) }},
				{"Kern", func(i int) { f.Kern(fixed.Int26_6(i), truetype.Index(i%3), truetype.Index(i%5)) }},
				{"Bounds", func(i int) { f.Bounds(fixed.Int26_6(i)); f.FUnitsPerEm() }},
				{"Parse", func(i int) { truetype.Parse(e.DataG) }},
				{"Parse, broken", func(i int) { truetype.Parse(e.DataF[:i%len(e.DataF)]) }},
				{"Load in a new buffer", func(i int) {
					new(truetype.GlyphBuf).Load(f, fixed.Int26_6(400+i), truetype.Index(i%5), font.Hinting(i%3))
				}},
				{"new context", func(i int) {
					c := freetype.NewContext()
					c.SetFont(f)
					c.SetFontSize(4)
				}},
			}
		}},
		{"painters", func() []growOp {
			m := image.NewRGBA(image.Rect(0, 0, 8, 8))
			al := image.NewAlpha(m.Rect)
			rp := raster.NewRGBAPainter(m)
			mp := raster.NewMonochromePainter(&nullSink{})
			gp := raster.NewGammaCorrectionPainter(rp, 2)
			span := func(i int) []raster.Span {
				return []raster.Span{{Y: i, X0: i % 5, X1: i%5 + 4, Alpha: uint32(i*977) & 0xffff}, {Y: i, X0: i%5 + 4, X1: i%5 + 6, Alpha: 0xffff}}
			}
			return []growOp{
				{"RGBA", func(i int) {
					rp.Op = draw.Op(i % 2)
					rp.SetColor(color.RGBA{uint8(i), 1, 2, 255})
					rp.Paint(span(i%10), i&1 == 0)
				}},
				{"monochrome", func(i int) { mp.Paint(span(i), false) }},
				{"monochrome, done", func(i int) { mp.Paint(span(i), true) }},
				{"gamma", func(i int) { gp.SetGamma(math.Sqrt(float64(i + 1))); gp.Paint(span(i%8), true) }},
				{"alpha", func(i int) {
					raster.NewAlphaOverPainter(al).Paint(span(i%8), true)
					raster.NewAlphaSrcPainter(al).Paint(span(i%8), true)
				}},
				{"new", func(i int) {
					raster.NewGammaCorrectionPainter(raster.NewMonochromePainter(rp), float64(i)).Paint(span(i%8), true)
				}},
			}
		}},
	}
}

func liveHeap() int64 {
	var s runtime.MemStats
	runtime.GC()
	runtime.ReadMemStats(&s)
	return int64(s.HeapAlloc)
}

const (
	growRounds = 500
	growLimit  = 16 << 10
)

func execGrow(x *mc.X, c growCase) error {
	// Only one case at a time runs, for the heap is that of the process.
	growEnv.inUse.Lock()
	defer growEnv.inUse.Unlock()
	k := growKinds()[c.Kind]
	if growEnv.err != nil {
		return fmt.Errorf("harness: %v", growEnv.err)
	}
	ops := k.make()
	n := 0
	run := func(rounds int) int64 {
		for r := 0; r < rounds; r++ {
			for _, j := range c.Ops {
				ops[j].do(n)
			}
			n++
		}
		x.Step(rounds * len(c.Ops))
		return liveHeap()
	}
	// What is kept for re-use is there after the first rounds. From then on, the
	// heap must not follow the number of rounds.
	h0 := run(growRounds)
	h1 := run(7 * growRounds)
	if h1-h0 > growLimit {
		h2 := run(16 * growRounds)
		if h2-h1 > growLimit {
			h3 := run(32 * growRounds)
			if h3-h2 > 2*growLimit {
				var names []string
				for _, j := range c.Ops {
					names = append(names, ops[j].name)
				}
				return fmt.Errorf("%s, %q repeated: the heap in use grows by %d bytes in %d rounds, by %d in the next %d, by %d in the next %d",
					k.name, names, h1-h0, 7*growRounds, h2-h1, 16*growRounds, h3-h2, 32*growRounds)
			}
		}
	}
	runtime.KeepAlive(ops)
	h := mc.NewHash()
	h.Int(c.Kind)
	for _, j := range c.Ops {
		h.Int(j)
	}
	x.StateU(uint64(h))
	x.Outcome(uint64(c.Kind))
	x.Validated()
	return nil
}

var c26 = &mc.Check{
	ID: "C26", Sharing: true,
	Rule: "for each kind of object (glyph buffer, rasterizer, path and stroke, context, face, font, painters), every sequence of its operations up to a length, as one round of a history of 4000 rounds: " +
		"the runes, dots, scales, colours and so on change from round to round, the sizes of what is drawn stay bounded. After a collection, the live heap after the last round must be that after the first 500 rounds, within 16 KB; growth must continue over 48 times as many rounds to count",
	Assumptions: []string{"caches that fill up within 500 rounds, or hold less than 16 KB, are allowed"},
	Run: func(c *mc.Ctx) {
		for k, kind := range growKinds() {
			n := len(kind.make())
			mc.Explore(c, kind.name, func(yield func(growCase) bool) {
				sequences(n, 1, c.N(2, 3), func(s []int) bool { return yield(growCase{k, append([]int(nil), s...)}) })
			}, execGrow)
		}
	},
}
