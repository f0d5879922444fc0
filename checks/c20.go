package checks

import (
	"fmt"
	"image"

	"verif/internal/mc"

	"github.com/golang/freetype/truetype"
	"golang.org/x/image/font"
	"golang.org/x/image/math/fixed"
)

// dotCands are the acceptable roundings of v to a grid of q positions per
// pixel: both neighbours if v is in the middle.
func dotCands(v, q int) []int {
	step := 64 / q
	f := v &^ (step - 1)
	switch d := v - f; {
	case 2*d < step:
		return []int{f}
	case 2*d > step:
		return []int{f + step}
	default:
		if step == 1 {
			return []int{v}
		}
		return []int{f, f + step}
	}
}

// checkFaceGlyph requests a glyph and compares it with the reference mask at
// the rounded dot. tol is the tolerance per pixel.
func checkFaceGlyph(m *masker, key glyphKey, face font.Face, r rune, dx, dy, qx, qy, tol int) (uint64, error) {
	key.i = key.f.Index(r)
	g := m.glyph(key)
	dr, mask, mp, adv, ok := face.Glyph(fixed.Point26_6{X: i26(dx), Y: i26(dy)}, r)
	what := fmt.Sprintf("Glyph((%d, %d), %#x)", dx, dy, r)
	if ok != (g.err == nil) {
		return 0, fmt.Errorf("%s: ok is %v, loading gives %v", what, ok, g.err)
	}
	if !ok {
		return 3, nil
	}
	if adv != g.g.AdvanceWidth {
		return 0, fmt.Errorf("%s: advance is %v, want %v", what, adv, g.g.AdvanceWidth)
	}
	if !dr.Empty() && !(image.Rectangle{Min: mp, Max: mp.Add(dr.Size())}.In(mask.Bounds())) {
		return 0, fmt.Errorf("%s: rectangle %v at %v is not within the mask's bounds %v", what, dr, mp, mask.Bounds())
	}
	am, fast := mask.(*image.Alpha)
	at := func(x, y int) int {
		if !(image.Point{X: x, Y: y}.In(dr)) {
			return 0
		}
		x, y = x-dr.Min.X+mp.X, y-dr.Min.Y+mp.Y
		if fast {
			return int(am.Pix[am.PixOffset(x, y)])
		}
		_, _, _, a := mask.At(x, y).RGBA()
		return int(a >> 8)
	}
	var err error
	for _, qxv := range dotCands(dx, qx) {
		for _, qyv := range dotCands(dy, qy) {
			mk := m.at(g, qxv&63, qyv&63)
			all := mk.rect.Add(image.Pt(qxv>>6, qyv>>6)).Union(dr)
			var e error
			h := mc.NewHash()
		search:
			for y := all.Min.Y; y < all.Max.Y; y++ {
				for x := all.Min.X; x < all.Max.X; x++ {
					got, want := at(x, y), int(mk.at(x-qxv>>6, y-qyv>>6))
					if absInt(got-want) > tol {
						e = fmt.Errorf("%s, rounded to (%d, %d): pixel (%d, %d) is %d, want %d (rectangle %v)", what, qxv, qyv, x, y, got, want, dr)
						break search
					}
					h.Int(got)
				}
			}
			if e == nil {
				return uint64(h), nil
			}
			if err == nil {
				err = e
			}
		}
	}
	return 0, err
}

type dotCase struct{ QX, QY, FY, Hint, Whole, Cache int }

type glyphReq struct {
	R      rune
	FX, FY int
	Op     int // 0 Glyph, 1 GlyphBounds, 2 GlyphAdvance, 3 Kern
}

type faceSeq struct {
	Cache, QX, QY, Hint, Font int
	Ops                       []glyphReq
}

// The requests of the histories: glyphs that share a cache entry, the same glyph
// at several dots, an empty glyph, a broken one.
var c20Reqs = []glyphReq{
	{'A', 0, 0, 0}, {'A', 16, 0, 0}, {'A', 32, 40, 0}, {'L', 0, 0, 0}, {'A' + 0x10000, 63, 10, 0}, {'C', 0, 0, 0}, {'A' + 0x100, 48, 33, 0},
	{'O', 0, 0, 0}, {'M', 0, 0, 0}, {'?', 5, 5, 0}, {'A', 640 + 16, -1000, 0}, {'C', 0, 0, 1}, {'B', 0, 0, 2}, {'L', 0, 0, 3},
}

type cacheSweep struct{ Font, Cache, QX, QY, Hint, Order int }

// A neighbourCase asks for the same glyph at dots D/64 of a pixel apart.
type neighbourCase struct{ QX, QY, Cache, D, Hint, Font int }

// largeGlyph draws glyphs at a large size, or far from the origin.
type largeGlyph struct{ Font, Hint, Cache, Size, Q, X, Y int }

type realSweep struct{ Font, Size, Hint, Cache, Order, Lo int }

type maskerScratch struct {
	m     *masker
	fonts [3]*truetype.Font
	real  [3]*truetype.Font
}

func maskerOf(x *mc.X) (*maskerScratch, error) {
	if s, ok := x.Scratch.(*maskerScratch); ok {
		return s, nil
	}
	s := &maskerScratch{m: newMasker()}
	var err error
	if s.fonts, err = textFontsParsed(); err != nil {
		return nil, err
	}
	for i, n := range fontNames {
		b, err := fontFile(n)
		if err != nil {
			return nil, err
		}
		if s.real[i], err = parseOK(b); err != nil {
			return nil, err
		}
	}
	x.Scratch = s
	return s, nil
}

var hintVals = []font.Hinting{font.HintingNone, font.HintingFull}

var c20 = &mc.Check{
	ID:          "C20",
	Rule:        "all 7x7 sub-pixel grids x all 64x64 fractions of the dot x 3 glyphs, with and without hinting, at 3 whole-pixel positions; the same glyph at all pairs of dots that differ in x, in y or in both, one after the other, for all 7x7 grids x 3 cache sizes; all histories of up to 5 (6 thorough) of 14 requests (colliding glyphs, several dots, empty, broken and out-of-box glyphs, measurements) x 4 cache sizes x 4 sub-pixel grids with and without hinting; sweeps over all glyphs of a 260-glyph font and over all runes of the bundled fonts, at several dots, forwards, backwards and interleaved, with caches of 1 to 512 entries; all sequences of up to 3 of 9 glyphs of a font of 65535 with 4 cache sizes; sizes up to 1500 pixels; dots up to 2^24 pixels away. Every mask is compared pixel by pixel, over a margin around it too, with a fresh rasterization at the rounded dot",
	Assumptions: []string{"outlines and advances are those of a fresh GlyphBuf (C08 to C11), coverage that of the raster package (C12, C13, C15)", "a dot in the middle between two sub-pixel positions may be rounded either way", "in the bundled fonts 24/255 per pixel, since how finely curves are split depends on a rasterizer's bounds"},
	Run: func(c *mc.Ctx) {
		mc.Explore(c, "sub-pixels", func(yield func(dotCase) bool) {
			for _, qx := range []int{1, 2, 4, 8, 16, 32, 64} {
				for _, qy := range []int{1, 2, 4, 8, 16, 32, 64} {
					for fy := 0; fy < 64; fy++ {
						for hint := 0; hint < 2; hint++ {
							if !yield(dotCase{qx, qy, fy, hint, (fy + qx) % 3, []int{1, 16, 256}[(fy+qy)%3]}) {
								return
							}
						}
					}
				}
			}
		}, func(x *mc.X, k dotCase) error {
			s, err := maskerOf(x)
			if err != nil {
				return err
			}
			key := glyphKey{s.fonts[k.Hint], 64 * 7, hintVals[k.Hint], 0}
			face := truetype.NewFace(key.f, &truetype.Options{Size: 7, Hinting: key.hint, SubPixelsX: k.QX, SubPixelsY: k.QY, GlyphCacheEntries: k.Cache})
			for fx := 0; fx < 64; fx++ {
				for _, r := range "ABL" {
					h, err := checkFaceGlyph(s.m, key, face, r, []int{0, -200, 37}[k.Whole]*64+fx, []int{0, 11, -3}[k.Whole]*64+k.FY, k.QX, k.QY, 1)
					if err != nil {
						return err
					}
					x.Outcome(h)
					x.Step(1)
				}
			}
			x.Validated()
			return nil
		})
		mc.Explore(c, "neighbours", func(yield func(neighbourCase) bool) {
			for _, qx := range []int{1, 2, 4, 8, 16, 32, 64} {
				for _, qy := range []int{1, 2, 4, 8, 16, 32, 64} {
					for _, ca := range []int{1, 2, 8} {
						for d := 1; d < 64; d++ {
							if !c.Thorough() && ca > 1 && (qx+qy+d)%4 != 0 {
								continue
							}
							if !yield(neighbourCase{qx, qy, ca, d, (qx + d) % 2, qy % 3}) {
								return
							}
						}
					}
				}
			}
		}, func(x *mc.X, k neighbourCase) error {
			s, err := maskerOf(x)
			if err != nil {
				return err
			}
			key := glyphKey{s.fonts[k.Font], 64 * 6, hintVals[k.Hint], 0}
			face := truetype.NewFace(key.f, &truetype.Options{Size: 6, Hinting: key.hint, SubPixelsX: k.QX, SubPixelsY: k.QY, GlyphCacheEntries: k.Cache})
			for i := 0; i < 64; i++ {
				for j, dot := range [][2]int{{i, 20}, {(i + k.D) % 64, 20}, {20, i}, {20, (i + k.D) % 64}, {i, i}, {(i + k.D) % 64, (i + k.D) % 64}, {i, (i + k.D) % 64}} {
					h, err := checkFaceGlyph(s.m, key, face, []rune("AB")[i%2], dot[0], dot[1], k.QX, k.QY, 1)
					if err != nil {
						return fmt.Errorf("dot %d.%d: %v", i, j, err)
					}
					x.Outcome(h)
					x.Step(1)
				}
			}
			x.Validated()
			return nil
		})
		mc.Explore(c, "histories", func(yield func(faceSeq) bool) {
			for n := 1; n <= c.N(5, 6); n++ {
				if !tuples(n, len(c20Reqs), func(t []int) bool {
					var ops []glyphReq
					for _, i := range t {
						ops = append(ops, c20Reqs[i])
					}
					for k := 0; k < 4; k++ {
						for hint := 0; hint < 2; hint++ {
							if n >= 4 && !c.Thorough() && (k+hint)%2 == 1 {
								continue
							}
							q := [][2]int{{1, 1}, {4, 1}, {2, 2}, {64, 64}}[(k+n)%4]
							if !yield(faceSeq{[]int{1, 2, 8, 64}[k], q[0], q[1], hint, t[0] % 2, ops}) {
								return false
							}
						}
					}
					return true
				}) {
					return
				}
			}
		}, func(x *mc.X, k faceSeq) error {
			s, err := maskerOf(x)
			if err != nil {
				return err
			}
			key := glyphKey{s.fonts[k.Font], 64 * 6, hintVals[k.Hint], 0}
			face := truetype.NewFace(key.f, &truetype.Options{Size: 6, Hinting: key.hint, SubPixelsX: k.QX, SubPixelsY: k.QY, GlyphCacheEntries: k.Cache})
			hs := mc.NewHash()
			for i, op := range k.Ops {
				switch op.Op {
				case 0:
					h, err := checkFaceGlyph(s.m, key, face, op.R, op.FX, op.FY, k.QX, k.QY, 1)
					if err != nil {
						return fmt.Errorf("request %d: %v", i, err)
					}
					hs.Int(int(h))
				case 1:
					face.GlyphBounds(op.R)
				case 2:
					face.GlyphAdvance(op.R)
				case 3:
					face.Kern(op.R, 'A')
				}
				x.Step(1)
			}
			x.Outcome(uint64(hs))
			x.Validated()
			return nil
		})
		mc.Explore(c, "sweeps", func(yield func(cacheSweep) bool) {
			for fo := 0; fo < 2; fo++ {
				for _, ca := range []int{1, 2, 4, 64, 256, 512} {
					for _, q := range [][2]int{{1, 1}, {4, 1}, {1, 4}, {8, 8}, {64, 2}} {
						for hint := 0; hint < 2; hint++ {
							for order := 0; order < 3; order++ {
								if !yield(cacheSweep{fo, ca, q[0], q[1], hint, order}) {
									return
								}
							}
						}
					}
				}
			}
		}, func(x *mc.X, k cacheSweep) error {
			s, err := maskerOf(x)
			if err != nil {
				return err
			}
			key := glyphKey{s.fonts[k.Font], 64 * 5, hintVals[k.Hint], 0}
			face := truetype.NewFace(key.f, &truetype.Options{Size: 5, Hinting: key.hint, SubPixelsX: k.QX, SubPixelsY: k.QY, GlyphCacheEntries: k.Cache})
			runes := []rune("ABCLMNO?Z\u0141\U00010041\x00")
			n := len(runes) * 16 * 4
			for pass := 0; pass < 2; pass++ {
				for j := 0; j < n; j++ {
					i := j
					switch k.Order {
					case 1:
						i = n - 1 - j
					case 2:
						i = j * 37 % n
					}
					r := runes[i%len(runes)]
					dx, dy := i/len(runes)%16*4, i/len(runes)/16*16
					h, err := checkFaceGlyph(s.m, key, face, r, dx, dy, k.QX, k.QY, 1)
					if err != nil {
						return fmt.Errorf("pass %d, request %d: %v", pass, j, err)
					}
					x.Outcome(h)
					x.Step(1)
				}
			}
			x.Validated()
			return nil
		})
		mc.Explore(c, "indices", func(yield func([]int) bool) {
			for n := 1; n <= 3; n++ {
				if !tuples(n, len(bigFontGlyphs), func(t []int) bool { return yield(append([]int(nil), t...)) }) {
					return
				}
			}
		}, func(x *mc.X, k []int) error {
			m, f, err := bigFontScratch(x)
			if err != nil {
				return err
			}
			for j, ca := range []int{1, 2, 16, 512} {
				key := glyphKey{f, 64 * 8, hintVals[(j+k[0])%2], 0}
				face := truetype.NewFace(f, &truetype.Options{Size: 8, Hinting: key.hint, SubPixelsX: 4, SubPixelsY: 2, GlyphCacheEntries: ca})
				for pass := 0; pass < 2; pass++ {
					for i, g := range k {
						h, err := checkFaceGlyph(m, key, face, 'a'+rune(g), i*16, pass*32, 4, 2, 1)
						if err != nil {
							return fmt.Errorf("cache %d, pass %d, request %d: %v", ca, pass, i, err)
						}
						x.Outcome(h)
						x.Step(1)
					}
				}
			}
			x.Validated()
			return nil
		})
		mc.Explore(c, "large", func(yield func(largeGlyph) bool) {
			for fo := 0; fo < 2; fo++ {
				for hint := 0; hint < 2; hint++ {
					for _, ca := range []int{1, 2} {
						if ca == 1 {
							// A dash as wide as the em.
							for _, size := range []int{260, 1030, 2100} {
								if !yield(largeGlyph{2, hint, ca, size, 0, 5 * fo, 0}) {
									return
								}
							}
						}
						for _, size := range []int{100, 255, 257, 511, 512, 513, 1024, 1500} {
							for qi := 0; qi < 2; qi++ {
								if size > 600 && !c.Thorough() && (ca+qi+hint)%2 == 0 {
									continue
								}
								if !yield(largeGlyph{fo, hint, ca, size, qi, 0, 0}) {
									return
								}
							}
						}
						for qi := 0; qi < 4; qi++ {
							for _, fx := range []int{1 << 14, -1 << 15, 1<<15 - 1, 1 << 16, -1<<21 - 5, 1<<21 - 1, 1 << 22, 1 << 25, 1<<30 + 7, -1<<30 + 33} {
								for _, fy := range []int{0, 1<<15 + 5, -1 << 16, 1<<21 + 60, -1<<30 + 1} {
									if !yield(largeGlyph{fo, hint, ca, 8, qi, fx, fy}) {
										return
									}
								}
							}
						}
					}
				}
			}
		}, func(x *mc.X, k largeGlyph) error {
			s, err := maskerOf(x)
			if err != nil {
				return err
			}
			m := s.m
			if k.Size > 8 {
				m = newMasker() // the masks are large
			}
			f, text := s.real[0], "\u2014A"
			if k.Font < 2 {
				f, text = s.fonts[k.Font], "ABLAB"
			}
			key := glyphKey{f, 64 * k.Size, hintVals[k.Hint], 0}
			q := [][2]int{{1, 1}, {4, 2}, {64, 64}, {1, 8}}[k.Q]
			face := truetype.NewFace(key.f, &truetype.Options{Size: float64(k.Size), Hinting: key.hint, SubPixelsX: q[0], SubPixelsY: q[1], GlyphCacheEntries: k.Cache})
			for i, r := range []rune(text) {
				h, err := checkFaceGlyph(m, key, face, r, k.X+i%4*16, k.Y+i%2*33, q[0], q[1], 1)
				if err != nil {
					return err
				}
				x.Outcome(h)
				x.Step(1)
			}
			x.Validated()
			return nil
		})
		mc.Explore(c, "bundled-fonts", func(yield func(realSweep) bool) {
			for fi := range fontNames {
				for _, size := range []int{9 * 64, 13*64 + 21} {
					for hint := 0; hint < 2; hint++ {
						for ci, ca := range []int{1, 16, 512} {
							for order := 0; order < 3; order++ {
								for lo := 0; lo < 4; lo++ {
									if !c.Thorough() && (ci+order+lo)%2 == 1 {
										continue
									}
									if !yield(realSweep{fi, size, hint, ca, order, lo}) {
										return
									}
								}
							}
						}
					}
				}
			}
		}, func(x *mc.X, k realSweep) error {
			s, err := maskerOf(x)
			if err != nil {
				return err
			}
			key := glyphKey{s.real[k.Font], k.Size, hintVals[k.Hint], 0}
			face := truetype.NewFace(key.f, &truetype.Options{Size: float64(k.Size) / 64, Hinting: key.hint, GlyphCacheEntries: k.Cache})
			n := 0x180 - 0x20
			for pass := 0; pass < 2; pass++ {
				for j := 0; j < n; j++ {
					i := j
					switch k.Order {
					case 1:
						i = n - 1 - j
					case 2:
						i = j * 101 % n
					}
					r := rune(0x20 + i)
					h, err := checkFaceGlyph(s.m, key, face, r, k.Lo*64+j%3*21, -k.Lo*7, 4, 1, 24)
					if err != nil {
						return fmt.Errorf("%s, pass %d, request %d: %v", fontNames[k.Font], pass, j, err)
					}
					x.Outcome(h)
					x.Step(1)
				}
			}
			x.Validated()
			return nil
		})
	},
}
