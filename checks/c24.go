package checks

import (
	"fmt"
	"image"
	"image/draw"
	"math"

	"verif/internal/fontgen"
	"verif/internal/mc"

	"github.com/golang/freetype/truetype"
	"golang.org/x/image/font"
	"golang.org/x/image/math/fixed"
)

// faceFont has 5 glyphs and a broken one; the runes are chosen to collide in caches indexed by
// the low bits of a rune or a glyph.
func faceFont() *fontgen.Font {
	ft := richFont()
	ft.Glyphs = append(ft.Glyphs[:5:5], []byte{0, 1, 0, 0, 0, 0, 0, 9, 0, 9, 0, 5})
	ft.HM = append(ft.HM[:5:5], fontgen.HM{Adv: 33})
	ft.Kern = fontgen.Kern([]fontgen.KernPair{{1, 2, -7}, {2, 1, 9}, {2, 2, 31}, {4, 1, -1}, {0, 1, 15}, {3, 3, -32}})
	ft.Cmap = fontgen.Cmap(fontgen.CmapSub{PID: 0, PSID: 4, Data: fontgen.Format12([]fontgen.Group{
		{Start: 0, End: 0, Glyph: 4}, {Start: 1, End: 1, Glyph: 1}, {Start: 'A', End: 'E', Glyph: 1}, {Start: 255, End: 255, Glyph: 3}, {Start: 'A' + 256, End: 'D' + 256, Glyph: 2},
		{Start: 'A' + 512, End: 'A' + 512, Glyph: 4}, {Start: 0x10041, End: 0x10041, Glyph: 3},
	})})
	return ft
}

// faceFontIndex is the map of faceFont.
func faceFontIndex(r rune) int {
	switch {
	case r == 0:
		return 4
	case r == 1:
		return 1
	case 'A' <= r && r <= 'E':
		return int(r-'A') + 1
	case 'A'+256 <= r && r <= 'D'+256:
		return int(r-'A'-256) + 2
	case r == 255, r == 0x10041:
		return 3
	case r == 'A'+512:
		return 4
	}
	return 0
}

type faceRef struct {
	f     *truetype.Font
	ft    *fontgen.Font
	scale int
	hint  font.Hinting
	index func(rune) int
	cache map[int]glyphMeas
	g     truetype.GlyphBuf
}

type glyphMeas struct {
	b   fixed.Rectangle26_6
	adv fixed.Int26_6
	ok  bool
}

// measure is the reference for a glyph: a fresh load.
func (r *faceRef) measure(i int) glyphMeas {
	if m, ok := r.cache[i]; ok {
		return m
	}
	g := &truetype.GlyphBuf{}
	m := glyphMeas{}
	if err := g.Load(r.f, i26(r.scale), truetype.Index(i), r.hint); err == nil {
		m.ok = true
		m.adv = g.AdvanceWidth
		m.b.Min.X, m.b.Max.X = g.Bounds.Min.X, g.Bounds.Max.X
		m.b.Min.Y, m.b.Max.Y = -g.Bounds.Max.Y, -g.Bounds.Min.Y
	}
	r.cache[i] = m
	return m
}

func ceilDiv(a, b int) int {
	q := a / b
	if q*b < a {
		q++
	}
	return q
}

// Operations on a face.
const (
	opBounds = iota
	opAdvance
	opGlyph
	opKern
	opMetrics
)

type faceOp struct {
	Op     int
	R0, R1 rune
}

// apply runs op on face and checks the result. It returns a hash of it.
func (r *faceRef) apply(face font.Face, op faceOp) (int, error) {
	switch op.Op {
	case opBounds:
		b, adv, ok := face.GlyphBounds(op.R0)
		w := r.measure(r.index(op.R0))
		if ok != w.ok || ok && (b != w.b || adv != w.adv) {
			return 0, fmt.Errorf("GlyphBounds(%#x) is %v, %v, %v, want %v, %v, %v", op.R0, b, adv, ok, w.b, w.adv, w.ok)
		}
		return int(b.Min.X)<<20 ^ int(b.Max.Y)<<3 ^ int(adv), nil
	case opAdvance:
		adv, ok := face.GlyphAdvance(op.R0)
		w := r.measure(r.index(op.R0))
		if ok != w.ok || ok && adv != w.adv {
			return 0, fmt.Errorf("GlyphAdvance(%#x) is %v, %v, want %v, %v", op.R0, adv, ok, w.adv, w.ok)
		}
		return int(adv), nil
	case opGlyph:
		dr, mask, _, adv, ok := face.Glyph(fixed.Point26_6{X: fixed.Int26_6(op.R1), Y: 64}, op.R0)
		w := r.measure(r.index(op.R0))
		if ok != w.ok || ok && adv != w.adv {
			return 0, fmt.Errorf("Glyph(%#x) has advance %v, %v, want %v, %v", op.R0, adv, ok, w.adv, w.ok)
		}
		if ok && mask == nil {
			return 0, fmt.Errorf("Glyph(%#x) has no mask", op.R0)
		}
		return int(adv) ^ dr.Dx()<<10, nil
	case opKern:
		k := face.Kern(op.R0, op.R1)
		want := r.kern(r.index(op.R0), r.index(op.R1))
		if int(k) != want {
			return 0, fmt.Errorf("Kern(%#x, %#x) is %v, want %d", op.R0, op.R1, k, want)
		}
		return int(k), nil
	default:
		m := face.Metrics()
		want := [3]int{r.scale, ceilDiv(r.scale*r.ft.Ascent, r.ft.UPEM), ceilDiv(-r.scale*r.ft.Desc, r.ft.UPEM)}
		if got := [3]int{int(m.Height), int(m.Ascent), int(m.Descent)}; got != want {
			return 0, fmt.Errorf("Metrics are %v, want %v", got, want)
		}
		return want[1], nil
	}
}

func (r *faceRef) kern(i, j int) int {
	v := 0
	for _, p := range fontgen.KernPairs(r.ft.Kern) {
		if p.L == i && p.R == j {
			v = scaleRef(r.scale, p.V, r.ft.UPEM)
		}
	}
	if r.hint != font.HintingNone {
		v = (v + 32) &^ 63
	}
	return v
}

type optCase struct {
	Size, DPI             float64
	Hint, Cache           int
	SubX, SubY            int
	NilOpts               bool
	SizeKind, HintInvalid int
}

var (
	c24Sizes = []float64{0, -3, math.Inf(-1), 0.7, 1, 11.9, 12, 40.3}
	c24DPIs  = []float64{0, -72, 0.5, 1, 36, 72, 100.5}
	c24Hints = []int{0, 1, 2, 3, -1}
	c24Cache = []int{0, 1, 2, 3, 6, -1, -8, 512}
	c24SubX  = []int{0, 1, 3, 4, 5, 64, 128, -4}
	c24SubY  = []int{0, 1, 2, 7, 128, -1}
)

// effective returns what the options mean.
func (o optCase) effective() (scale int, h font.Hinting, cache, sx, sy int) {
	size, dpi := 12.0, 72.0
	if !o.NilOpts && o.Size > 0 {
		size = o.Size
	}
	if !o.NilOpts && o.DPI > 0 {
		dpi = o.DPI
	}
	scale = int(math.Floor(0.5 + size*dpi*64/72))
	cache, sx, sy = 512, 4, 1
	if o.NilOpts {
		return
	}
	if o.Hint == 1 || o.Hint == 2 {
		h = font.HintingFull
	}
	p2 := func(v int) bool { return v > 0 && v&(v-1) == 0 }
	if p2(o.Cache) {
		cache = o.Cache
	}
	if p2(o.SubX) && o.SubX <= 64 {
		sx = o.SubX
	}
	if p2(o.SubY) && o.SubY <= 64 {
		sy = o.SubY
	}
	return
}

// maskHash is a glyph as drawn.
func maskHash(face font.Face, dot fixed.Point26_6, r rune) (uint64, error) {
	dr, mask, mp, adv, ok := face.Glyph(dot, r)
	h := mc.NewHash()
	if !ok {
		return 1, nil
	}
	h.Int(int(adv))
	for y := dr.Min.Y; y < dr.Max.Y; y++ {
		for x := dr.Min.X; x < dr.Max.X; x++ {
			mx, my := mp.X+x-dr.Min.X, mp.Y+y-dr.Min.Y
			if !(image.Point{X: mx, Y: my}.In(mask.Bounds())) {
				return 0, fmt.Errorf("Glyph(%v, %#x): pixel (%d, %d) of the rectangle is not in the mask %v", dot, r, x, y, mask.Bounds())
			}
			_, _, _, a := mask.At(mx, my).RGBA()
			if a != 0 {
				h.Int(x)
				h.Int(y)
				h.Int(int(a))
			}
		}
	}
	return uint64(h), nil
}

var c24Runes = []rune{'A', 'B', 'C', 'D', 'E', 'A' + 256, 'A' + 512, 0x10041, 1, 255, 0, -1, 0x10ffff}

type metricsCase struct{ UPEM, Asc, Desc, Lo, Step int }

type faceHistCase struct {
	Hint int
	Ops  []faceOp
}

// c24Ops are the operations of the histories.
func c24Ops() (ops []faceOp) {
	for _, r := range []rune{'A', 'A' + 256, 'C', 0x10041, 'Z', 'E'} {
		ops = append(ops, faceOp{opBounds, r, 0}, faceOp{opAdvance, r, 0}, faceOp{opGlyph, r, 0})
	}
	ops = append(ops, faceOp{opGlyph, 'A', 16}, faceOp{opKern, 'A', 'B'}, faceOp{opKern, 'B', 'A' + 256}, faceOp{opKern, -1, 255}, faceOp{opMetrics, 0, 0})
	return ops
}

// A stringCase lays out a line of text with a face.
type stringCase struct {
	Hint, Cache, Scale, X int
	S                     []int
}

var c24StringRunes = []rune{'A', 'B', 'A' + 256, 0x10041, 'Z', 'D'}

// checkString compares what a font.Drawer makes of the face with the sum of
// the glyphs drawn one by one, each with a new face.
func checkString(x *mc.X, k stringCase) error {
	fx, err := faceScratchOf(x)
	if err != nil {
		return err
	}
	h := font.Hinting(k.Hint)
	ref := fx.ref(k.Scale, h)
	newFace := func(cache int) font.Face {
		return truetype.NewFace(fx.f, &truetype.Options{Size: 1, DPI: float64(k.Scale) * 72 / 64, Hinting: h, GlyphCacheEntries: cache, SubPixelsX: 2})
	}
	var s []rune
	for _, i := range k.S {
		s = append(s, c24StringRunes[i])
	}
	face := newFace(k.Cache)
	pen, box := 0, fixed.Rectangle26_6{}
	size := image.Rect(-8, -16, 8+k.Scale/64*len(s)*2, 24)
	want := image.NewAlpha(size)
	for i, r := range s {
		if i > 0 {
			pen += ref.kern(ref.index(s[i-1]), ref.index(r))
		}
		m := ref.measure(ref.index(r))
		if !m.ok {
			return fmt.Errorf("harness: glyph %#x does not load", r)
		}
		b := m.b
		b.Min.X += i26(pen)
		b.Max.X += i26(pen)
		box = box.Union(b)
		if fx.single == nil {
			fx.single = map[[5]int]*image.Alpha{}
		}
		dot := k.X + pen
		g, whole := [5]int{k.Scale, k.Hint, dot & 63, int(r)}, dot>>6
		if fx.single[g] == nil {
			one := image.NewAlpha(image.Rect(-100, -100, 100, 100))
			dr, mask, mp, _, ok := newFace(1).Glyph(fixed.Point26_6{X: i26(dot & 63), Y: 20}, r)
			if !ok {
				return fmt.Errorf("Glyph(%#x) fails", r)
			}
			draw.DrawMask(one, dr, image.Opaque, image.Point{}, mask, mp, draw.Over)
			fx.single[g] = one
		}
		draw.Draw(want, fx.single[g].Rect.Add(image.Pt(whole, 0)), fx.single[g], fx.single[g].Rect.Min, draw.Over)
		pen += int(m.adv)
	}
	if got := font.MeasureString(face, string(s)); int(got) != pen {
		return fmt.Errorf("%q measures %v, want %d", string(s), got, pen)
	}
	if b, got := font.BoundString(face, string(s)); int(got) != pen || b != box && !(b.Empty() && box.Empty()) {
		return fmt.Errorf("%q has bounds %v and advance %v, want %v, %d", string(s), b, got, box, pen)
	}
	for round := 0; round < 2; round++ {
		dst := image.NewAlpha(size)
		d := font.Drawer{Dst: dst, Src: image.Opaque, Face: face, Dot: fixed.Point26_6{X: i26(k.X), Y: 20}}
		d.DrawString(string(s))
		if d.Dot.X != i26(k.X+pen) || d.Dot.Y != 20 {
			return fmt.Errorf("%q: the dot ends at %v, want %d", string(s), d.Dot, k.X+pen)
		}
		for y := size.Min.Y; y < size.Max.Y; y++ {
			for xx := size.Min.X; xx < size.Max.X; xx++ {
				if g, w := dst.AlphaAt(xx, y).A, want.AlphaAt(xx, y).A; g != w {
					return fmt.Errorf("%q, drawn with hinting %d, cache %d, scale %d, from %d, round %d: pixel (%d, %d) is %#x, the glyphs drawn alone make it %#x", string(s), k.Hint, k.Cache, k.Scale, k.X, round, xx, y, g, w)
				}
			}
		}
		x.Step(len(s))
		hs := mc.NewHash()
		for _, p := range dst.Pix {
			if p != 0 {
				hs.Int(int(p))
			}
		}
		x.Outcome(uint64(hs))
	}
	x.Validated()
	return nil
}

type realFaceCase struct{ Font, Size, Hint, Lo, Hi int }

var c24 = &mc.Check{
	ID:          "C24",
	Rule:        "all combinations of 7 sizes, 5 resolutions, 5 hinting values, 8 cache sizes and 8x6 sub-pixel counts, unset and invalid ones included, and nil options: all measurements of 12 runes and all their kerning pairs against the font's own, and glyph images at 8 dots against a face with the effective options; all sequences of up to 4 (5 thorough) of 20 calls on one face, for colliding runes, with and without hinting; all strings of up to 4 (5 thorough) of 6 runes laid out by font.Drawer, font.MeasureString and font.BoundString with 2 hintings, 4 cache sizes and 3 sizes and positions, twice, against the glyphs drawn alone; sizes from 0.02 to 3000 points at 3 resolutions; ascents and descents of 12 values x 5 units-per-em x every scale of 1..1024; every rune of the bundled fonts at 4 sizes with and without hinting",
	Assumptions: []string{"outlines and advances are those of a fresh GlyphBuf, which C08 to C11 decide", "the scale is size*DPI*64/72 rounded to nearest"},
	Run: func(c *mc.Ctx) {
		mc.Explore(c, "options", func(yield func(optCase) bool) {
			if !yield(optCase{NilOpts: true}) {
				return
			}
			for _, size := range c24Sizes {
				kind := 0
				if math.IsInf(size, 0) {
					kind, size = 1, 0
				}
				for _, dpi := range c24DPIs {
					for _, h := range c24Hints {
						for _, ca := range c24Cache {
							for i, sx := range c24SubX {
								for j, sy := range c24SubY {
									if !c.Thorough() && (i+j)%2 == 1 && size != 0 {
										continue
									}
									if size > 0 && dpi > 0 && size*dpi < 1 {
										continue // nothing is left
									}
									if !yield(optCase{Size: size, DPI: dpi, Hint: h, Cache: ca, SubX: sx, SubY: sy, SizeKind: kind}) {
										return
									}
								}
							}
						}
					}
				}
			}
		}, func(x *mc.X, o optCase) error {
			fx, err := faceScratchOf(x)
			if err != nil {
				return err
			}
			scale, h, cache, sx, sy := o.effective()
			ref := fx.ref(scale, h)
			opts := &truetype.Options{Size: o.Size, DPI: o.DPI, Hinting: font.Hinting(o.Hint), GlyphCacheEntries: o.Cache, SubPixelsX: o.SubX, SubPixelsY: o.SubY}
			if o.SizeKind == 1 {
				opts.Size = math.Inf(-1)
			}
			if o.NilOpts {
				opts = nil
			}
			face := truetype.NewFace(fx.f, opts)
			hs := mc.NewHash()
			n := 0
			do := func(op faceOp) error {
				v, err := ref.apply(face, op)
				hs.Int(v)
				n++
				return err
			}
			if err := do(faceOp{Op: opMetrics}); err != nil {
				return err
			}
			for _, r := range c24Runes {
				for _, op := range []int{opBounds, opAdvance, opGlyph} {
					if err := do(faceOp{op, r, 0}); err != nil {
						return err
					}
				}
				for _, q := range c24Runes {
					if err := do(faceOp{opKern, r, q}); err != nil {
						return err
					}
				}
			}
			plain := truetype.NewFace(fx.f, &truetype.Options{Size: 1, DPI: float64(scale) * 72 / 64, Hinting: h, GlyphCacheEntries: cache, SubPixelsX: sx, SubPixelsY: sy})
			for k := 0; k < 8; k++ {
				dot := fixed.Point26_6{X: fixed.Int26_6(k * 9), Y: fixed.Int26_6(60 - k*7)}
				r := c24Runes[k%4]
				a, err := maskHash(face, dot, r)
				if err != nil {
					return err
				}
				b, err := maskHash(plain, dot, r)
				if err != nil {
					return err
				}
				if a != b {
					return fmt.Errorf("Glyph(%v, %#x) differs from the same glyph of a face with the effective options spelt out", dot, r)
				}
				hs.Int(int(a))
				n++
			}
			x.Step(n)
			x.Outcome(uint64(hs))
			x.Validated()
			return nil
		})
		mc.Explore(c, "histories", func(yield func(faceHistCase) bool) {
			ops := c24Ops()
			for n := 1; n <= c.N(4, 5); n++ {
				if !tuples(n, len(ops), func(t []int) bool {
					var hist []faceOp
					for _, i := range t {
						hist = append(hist, ops[i])
					}
					return yield(faceHistCase{0, hist}) && yield(faceHistCase{2, hist})
				}) {
					return
				}
			}
		}, func(x *mc.X, k faceHistCase) error {
			fx, err := faceScratchOf(x)
			if err != nil {
				return err
			}
			ref := fx.ref(64*7+20, font.Hinting(k.Hint))
			face := truetype.NewFace(fx.f, &truetype.Options{Size: 1, DPI: (64*7 + 20) * 72.0 / 64, Hinting: font.Hinting(k.Hint), GlyphCacheEntries: 2})
			hs := mc.NewHash()
			for i, op := range k.Ops {
				v, err := ref.apply(face, op)
				if err != nil {
					return fmt.Errorf("call %d: %v", i, err)
				}
				hs.Int(v)
				x.Step(1)
			}
			x.Outcome(uint64(hs))
			x.Validated()
			return nil
		})
		mc.Explore(c, "strings", func(yield func(stringCase) bool) {
			for n := 1; n <= c.N(4, 5); n++ {
				if !tuples(n, len(c24StringRunes), func(t []int) bool {
					s := append([]int(nil), t...)
					for _, h := range []int{0, 2} {
						for _, cache := range []int{1, 2, 8, 512} {
							for i, xx := range []int{0, 33, -47} {
								if !yield(stringCase{h, cache, []int{468, 64 * 12, 405}[i], xx, s}) {
									return false
								}
							}
						}
					}
					return true
				}) {
					return
				}
			}
		}, checkString)
		mc.Explore(c, "large", func(yield func(optCase) bool) {
			for _, size := range []float64{0.02, 0.5, (511.5 - 1e-5) / 64, (511.5 + 1e-5) / 64, 100, 333.3, 700, 1000, 3000} {
				for _, dpi := range []float64{9, 72, 300} {
					for h := 0; h <= 2; h++ {
						for _, ca := range []int{1, 4} {
							if size*dpi/72*float64(ca) > 4500 {
								continue // a face allocates its cache's pixels at once
							}
							if !yield(optCase{Size: size, DPI: dpi, Hint: h, Cache: ca}) {
								return
							}
						}
					}
				}
			}
		}, func(x *mc.X, o optCase) error {
			fx, err := faceScratchOf(x)
			if err != nil {
				return err
			}
			scale, h, _, _, _ := o.effective()
			ref := fx.ref(scale, h)
			face := truetype.NewFace(fx.f, &truetype.Options{Size: o.Size, DPI: o.DPI, Hinting: font.Hinting(o.Hint), GlyphCacheEntries: o.Cache})
			for _, r := range c24Runes {
				ops := []faceOp{{opMetrics, 0, 0}, {opBounds, r, 0}, {opAdvance, r, 0}}
				if scale <= 64*1000 {
					ops = append(ops, faceOp{opGlyph, r, 0})
				}
				for _, q := range c24Runes {
					ops = append(ops, faceOp{opKern, r, q})
				}
				for _, op := range ops {
					v, err := ref.apply(face, op)
					if err != nil {
						return err
					}
					x.Outcome(uint64(v))
				}
				x.Step(len(ops))
			}
			x.Validated()
			return nil
		})
		mc.Explore(c, "metrics", func(yield func(metricsCase) bool) {
			for _, u := range []int{16, 63, 64, 1000, 2048} {
				for _, a := range []int{0, 1, -1, 63, 64, 65, 900, 1854, -434, 2048, 32767, -32768} {
					for _, d := range []int{0, 1, -1, 64, -64, -65, 434, -434, 2048, 32767, -32767, -32768} {
						for lo := 1; lo <= 1024; lo += 64 {
							if !yield(metricsCase{u, a, d, lo, c.N(7, 1)}) {
								return
							}
						}
					}
				}
			}
			// Every size, with values that are exact at some of them.
			for _, u := range []int{100, 1000, 3000, 5000} {
				for a := u / 40; a <= u; a += u / 40 {
					for lo := 1; lo <= 1024; lo += 64 {
						if !yield(metricsCase{u, a, a - u, lo, 1}) {
							return
						}
					}
				}
			}
		}, func(x *mc.X, k metricsCase) error {
			ft := fontgen.New(nil)
			ft.UPEM, ft.Ascent, ft.Desc = k.UPEM, k.Asc, k.Desc
			ft.BBox = [4]int{0, 0, 1, 1}
			f, err := parseOK(ft.Bytes())
			if err != nil {
				return err
			}
			for s := k.Lo; s < k.Lo+64; s += k.Step {
				ref := &faceRef{f: f, ft: ft, scale: s}
				face := truetype.NewFace(f, &truetype.Options{Size: float64(s) / 64, GlyphCacheEntries: 1})
				v, err := ref.apply(face, faceOp{Op: opMetrics})
				if err != nil {
					return fmt.Errorf("scale %d: %v", s, err)
				}
				x.Step(1)
				x.Outcome(uint64(v))
			}
			x.Validated()
			return nil
		})
		mc.Explore(c, "bundled-fonts", func(yield func(realFaceCase) bool) {
			for fi := range fontNames {
				for _, size := range []int{8 * 64, 12*64 + 13, 17 * 64, 33*64 + 1} {
					for h := 0; h <= 2; h += 2 {
						for lo := 0; lo < 0x2600; lo += 256 {
							if !yield(realFaceCase{fi, size, h, lo, lo + 256}) {
								return
							}
						}
					}
				}
			}
		}, func(x *mc.X, k realFaceCase) error {
			fs, err := loadRealFonts()
			if err != nil {
				return err
			}
			f, err := parseOK(fs[k.Font].bytes)
			if err != nil {
				return err
			}
			t := fs[k.Font].ttx
			ft := &fontgen.Font{UPEM: t.UPEM}
			ref := &faceRef{f: f, ft: ft, scale: k.Size, hint: font.Hinting(k.Hint), cache: map[int]glyphMeas{}, index: func(r rune) int { return int(f.Index(r)) }}
			face := truetype.NewFace(f, &truetype.Options{Size: float64(k.Size) / 64, Hinting: font.Hinting(k.Hint), GlyphCacheEntries: 8})
			prev := 'A'
			for r := rune(k.Lo); r < rune(k.Hi); r++ {
				if r != 0x20 && f.Index(r) == 0 {
					continue
				}
				for op := opBounds; op <= opGlyph; op++ {
					v, err := ref.apply(face, faceOp{op, r, 21})
					if err != nil {
						return fmt.Errorf("%s: %v", fs[k.Font].name, err)
					}
					x.Outcome(uint64(v))
				}
				want := f.Kern(i26(k.Size), f.Index(prev), f.Index(r))
				if k.Hint != 0 {
					want = (want + 32) &^ 63
				}
				if got := face.Kern(prev, r); got != want {
					return fmt.Errorf("%s: Kern(%#x, %#x) is %v, want %v", fs[k.Font].name, prev, r, got, want)
				}
				x.Step(4)
				prev = r
			}
			x.Validated()
			return nil
		})
	},
}

// faceScratch caches the reference measurements of a worker.
type faceScratch struct {
	f    *truetype.Font
	ft   *fontgen.Font
	refs map[[2]int]*faceRef
	// single holds glyphs drawn alone, by scale, hinting, position and rune.
	single map[[5]int]*image.Alpha
}

func faceScratchOf(x *mc.X) (*faceScratch, error) {
	if s, ok := x.Scratch.(*faceScratch); ok {
		return s, nil
	}
	ft := faceFont()
	f, err := parseOK(ft.Bytes())
	if err != nil {
		return nil, err
	}
	s := &faceScratch{f: f, ft: ft, refs: map[[2]int]*faceRef{}}
	x.Scratch = s
	return s, nil
}

func (s *faceScratch) ref(scale int, h font.Hinting) *faceRef {
	k := [2]int{scale, int(h)}
	if s.refs[k] == nil {
		s.refs[k] = &faceRef{f: s.f, ft: s.ft, scale: scale, hint: h, index: faceFontIndex, cache: map[int]glyphMeas{}}
	}
	return s.refs[k]
}
