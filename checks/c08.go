package checks

import (
	"fmt"
	"slices"

	"verif/internal/fontgen"
	"verif/internal/mc"

	"github.com/golang/freetype/truetype"
	"golang.org/x/image/font"
)

// checkOutline compares a loaded glyph with the reference outline, unhinted.
func checkOutline(g *truetype.GlyphBuf, o *fontgen.Outline, adv, scale, upem int) error {
	if len(g.Points) != len(o.Pts) || len(g.Ends) != len(o.Ends) {
		return fmt.Errorf("%d points, ends %v; want %d points, ends %v", len(g.Points), g.Ends, len(o.Pts), o.Ends)
	}
	for i := range o.Ends {
		if g.Ends[i] != o.Ends[i] {
			return fmt.Errorf("ends are %v, want %v", g.Ends, o.Ends)
		}
	}
	b := [4]int{}
	for i, p := range g.Points {
		w := o.Pts[i]
		ex, ey := float64(int(p.X)+o.PP0)-w.X, float64(p.Y)-w.Y
		if ex > w.EX+1e-9 || ex < -w.EX-1e-9 || ey > w.EY+1e-9 || ey < -w.EY-1e-9 {
			return fmt.Errorf("point %d is (%d, %d), want (%v, %v) (within %.3g, %.3g)", i, p.X, p.Y, w.X-float64(o.PP0), w.Y, w.EX, w.EY)
		}
		if (p.Flags&1 != 0) != w.On {
			return fmt.Errorf("point %d: on-curve is %v, want %v", i, p.Flags&1 != 0, w.On)
		}
		if i == 0 {
			b = [4]int{int(p.X), int(p.Y), int(p.X), int(p.Y)}
		}
		b[0], b[1] = min(b[0], int(p.X)), min(b[1], int(p.Y))
		b[2], b[3] = max(b[2], int(p.X)), max(b[3], int(p.Y))
	}
	if got := [4]int{int(g.Bounds.Min.X), int(g.Bounds.Min.Y), int(g.Bounds.Max.X), int(g.Bounds.Max.Y)}; got != b {
		return fmt.Errorf("bounds are %v, want %v", got, b)
	}
	if int(g.AdvanceWidth) != o.PP1-o.PP0 {
		return fmt.Errorf("advance width is %d, want %d", g.AdvanceWidth, o.PP1-o.PP0)
	}
	if d := o.PP1 - o.PP0 - scaleRef(scale, adv, upem); d > 1 || d < -1 {
		return fmt.Errorf("advance width is %d, scaled metric %d", g.AdvanceWidth, scaleRef(scale, adv, upem))
	}
	return nil
}

func outlineHash(g *truetype.GlyphBuf) uint64 {
	h := mc.NewHash()
	for _, p := range g.Points {
		h.Int(int(p.X))
		h.Int(int(p.Y))
		h.Int(int(p.Flags & 1))
	}
	for _, e := range g.Ends {
		h.Int(e)
	}
	h.Int(int(g.AdvanceWidth))
	return uint64(h)
}

// checkHintedPlain loads a glyph of a font without programs with hinting:
// only the rounding of the metrics differs from the unhinted outline.
func checkHintedPlain(f *truetype.Font, g *truetype.GlyphBuf, scale, i int, o *fontgen.Outline, cs [][]fontgen.Pt, simple bool) error {
	if err := g.Load(f, i26(scale), truetype.Index(i), font.HintingFull); err != nil {
		return fmt.Errorf("with hinting: %v", err)
	}
	if len(g.Points) != len(o.Pts) || len(g.Unhinted) != len(o.Pts) || len(g.InFontUnits) != len(o.Pts) {
		return fmt.Errorf("with hinting: %d, %d, %d points, want %d", len(g.Points), len(g.Unhinted), len(g.InFontUnits), len(o.Pts))
	}
	if g.AdvanceWidth&63 != 0 {
		return fmt.Errorf("with hinting: advance width %d is not whole pixels", g.AdvanceWidth)
	}
	b := g.Bounds
	if (b.Min.X|b.Min.Y|b.Max.X|b.Max.Y)&63 != 0 {
		return fmt.Errorf("with hinting: bounds %v are not whole pixels", b)
	}
	if !simple {
		return nil
	}
	k := 0
	shift := 0
	for _, c := range cs {
		for _, p := range c {
			q, u, fu := g.Points[k], g.Unhinted[k], g.InFontUnits[k]
			w := o.Pts[k]
			if k == 0 {
				shift = int(q.X) - int(w.X)
			}
			if int(q.X)-int(w.X) != shift || int(q.Y) != int(w.Y) {
				return fmt.Errorf("with hinting but no program, point %d is (%d, %d), unhinted (%v, %v), but the first moved by %d", k, q.X, q.Y, w.X, w.Y, shift)
			}
			if int(fu.X) != p.X || int(fu.Y) != p.Y {
				return fmt.Errorf("InFontUnits[%d] is (%d, %d), want (%d, %d)", k, fu.X, fu.Y, p.X, p.Y)
			}
			if int(u.Y) != int(w.Y) || (q.Flags^u.Flags)&1 != 0 || (q.Flags^fu.Flags)&1 != 0 {
				return fmt.Errorf("Unhinted[%d] is %v, Points[%d] is %v", k, u, k, q)
			}
			k++
		}
	}
	return nil
}

type simpleCase struct {
	Pts      []int // per point: delta index, encoding, on, packed
	Swap     bool
	Rep      int
	LocaLong bool
}

var encDeltas = []int{0, 1, -1, 255, -255, 256, -256}

type runCase struct{ Run1, Run2, Chunk, Zero int }

type contourCase struct {
	N, Mask, Instr, Pad, Slot int
	LocaLong                  bool
	Extra                     int
	On                        int
	Empty                     int // bits: an empty contour after the first one, two at the end
}

// largeCase has large counts and offsets.
type largeCase struct {
	Contours, Points, Instr int
	Before                  int // bytes before the glyph's data
	Slot                    int
	Long                    bool
}

type simpleScaleCase struct {
	UPEM, LSB, Adv, Lo, Hi, XMin int
}

type realGlyphCase struct{ Font, Scale, Lo, Hi int }

type glyphScratch struct{ g, h truetype.GlyphBuf }

func bufs(x *mc.X) *glyphScratch {
	if x.Scratch == nil {
		x.Scratch = &glyphScratch{}
	}
	return x.Scratch.(*glyphScratch)
}

// checkSimple loads glyph i of ft, whose contours are cs, at the given scales.
func checkSimple(x *mc.X, ft *fontgen.Font, data []byte, i int, cs [][]fontgen.Pt, xmin int, scales ...int) error {
	f, err := parseOK(data)
	if err != nil {
		return err
	}
	gs := make([]fontgen.RefGlyph, len(ft.Glyphs))
	gs[i] = fontgen.RefGlyph{Contours: cs, XMin: xmin}
	s := bufs(x)
	for _, scale := range scales {
		o, err := fontgen.RefLoad(gs, ft.HM, ft.UPEM, scale, i, 0)
		if err != nil {
			return err
		}
		if err := s.g.Load(f, i26(scale), truetype.Index(i), font.HintingNone); err != nil {
			return fmt.Errorf("scale %d: %v", scale, err)
		}
		if err := checkOutline(&s.g, &o, ft.HM[i].Adv, scale, ft.UPEM); err != nil {
			return fmt.Errorf("scale %d: %v", scale, err)
		}
		x.Outcome(outlineHash(&s.g))
		if err := checkHintedPlain(f, &s.h, scale, i, &o, cs, true); err != nil {
			return fmt.Errorf("scale %d: %v", scale, err)
		}
		x.Step(2)
		x.Validated()
	}
	return nil
}

func (sc simpleCase) build() ([]fontgen.Pt, []byte) {
	var pts []fontgen.Pt
	var e1, e2 []fontgen.Enc
	var neg []bool
	a, b := 0, 0
	for i, v := range sc.Pts {
		d := encDeltas[v%7]
		a += d
		b += encDeltas[(v+3*i+2)%7]
		e1 = append(e1, fontgen.Enc(v/7%3))
		e2 = append(e2, fontgen.Enc((v+i)%3))
		neg = append(neg, v%2 == 0)
		p := fontgen.Pt{X: a, Y: b, On: v/21 != 0}
		if sc.Swap {
			p.X, p.Y = b, a
		}
		pts = append(pts, p)
	}
	if sc.Swap {
		e1, e2 = e2, e1
	}
	return pts, fontgen.Simple([][]fontgen.Pt{pts}, fontgen.SimpleOpts{
		EncX:       func(i int) fontgen.Enc { return e1[i] },
		EncY:       func(i int) fontgen.Enc { return e2[i] },
		ZeroNeg:    func(i int) bool { return neg[i] },
		Repeat:     func(i, run int) int { return []int{0, run, 1}[sc.Rep] },
		ZeroRepeat: func(i int) bool { return sc.Rep == 2 },
	})
}

var c08 = &mc.Check{
	ID:          "C08",
	Rule:        "all outlines of 1..3 points with each point's delta (7 boundary values), its encoding (shortest, short even for zero with either sign, long), on or off curve, for x and for y, with no, full and partial (or zero-count) repeated flags; runs of 0..300 equal flags in all chunkings of 5 kinds; all partitions of 1..6 points (8 thorough) into contours with 3 instruction lengths, 4 paddings, short and long locations, 3 positions among empty glyphs and reserved flag bits, and empty contours among them; boundary outlines at every scale 0..2048 (8192) with 7 units-per-em, 6 bearings and 3 header xMin; all simple glyphs of the bundled fonts at 8 scales against their XML dumps. Each is loaded without hinting, and with hinting but no programs",
	Assumptions: []string{"the shift to the left side bearing is the rounded scaled difference of the header's xMin and the bearing, as in C FreeType"},
	Run: func(c *mc.Ctx) {
		mc.Explore(c, "encodings", func(yield func(simpleCase) bool) {
			for n := 1; n <= 3; n++ {
				for rep := 0; rep < 3; rep++ {
					for _, swap := range []bool{false, true} {
						if !tuples(n, 42, func(t []int) bool {
							return yield(simpleCase{t, swap, rep, (t[0]+rep)%2 == 0})
						}) {
							return
						}
					}
				}
			}
		}, func(x *mc.X, sc simpleCase) error {
			pts, data := sc.build()
			ft := fontgen.New(data)
			cs := [][]fontgen.Pt{pts}
			ft.LocaLong = sc.LocaLong
			xmin := fontgen.BBoxOf(cs)[0]
			ft.HM[0] = fontgen.HM{Adv: 70, LSB: xmin}
			return checkSimple(x, ft, ft.Bytes(), 0, cs, xmin, 64)
		})
		mc.Explore(c, "repeats", func(yield func(runCase) bool) {
			for _, r1 := range []int{0, 1, 2, 3, 100, 253, 254, 255, 256, 257, 300} {
				for r2 := 0; r2 <= 300; r2++ {
					for chunk := 0; chunk < 5; chunk++ {
						for zero := 0; zero < 2; zero++ {
							if !yield(runCase{r1, r2, chunk, zero}) {
								return
							}
						}
					}
				}
			}
		}, func(x *mc.X, r runCase) error {
			var pts []fontgen.Pt
			for i := 0; i < r.Run1; i++ {
				pts = append(pts, fontgen.Pt{X: i * 2, Y: i, On: true})
			}
			for i := 0; i < r.Run2; i++ {
				pts = append(pts, fontgen.Pt{X: -i, Y: 300 * (i % 2), On: false})
			}
			if len(pts) == 0 {
				pts = append(pts, fontgen.Pt{})
			}
			cs := [][]fontgen.Pt{pts}
			data := fontgen.Simple(cs, fontgen.SimpleOpts{
				Repeat:     func(i, run int) int { return []int{0, run, run / 2, min(run, 1), max(run-1, 0)}[r.Chunk] },
				ZeroRepeat: func(i int) bool { return r.Zero == 1 && i%2 == 0 },
			})
			ft := fontgen.New(data)
			return checkSimple(x, ft, ft.Bytes(), 0, cs, fontgen.BBoxOf(cs)[0], 64)
		})
		mc.Explore(c, "contours", func(yield func(contourCase) bool) {
			for n := 0; n <= c.N(6, 8); n++ {
				for mask := 0; mask < 1<<max(n-1, 0); mask++ {
					for _, instr := range []int{0, 1, 300} {
						for pad := 0; pad < 4; pad++ {
							for slot := 0; slot < 3; slot++ {
								for _, long := range []bool{false, true} {
									for _, extra := range []int{0, 0x40, 0xc0} {
										for empty := 0; empty < 4; empty++ {
											if empty > 0 && (instr > 1 || pad > 1 || slot > 1 || n == 0) {
												continue
											}
											if !yield(contourCase{n, mask, instr, pad, slot, long, extra, (mask*5 + pad) & (1<<n - 1), empty}) {
												return
											}
										}
									}
								}
							}
						}
					}
				}
			}
		}, func(x *mc.X, cc contourCase) error {
			var cs [][]fontgen.Pt
			for i := 0; i < cc.N; i++ {
				p := fontgen.Pt{X: i*i*7 - 20, Y: 300 - 130*i, On: cc.On>>i&1 != 0}
				if i == 0 || cc.Mask>>(i-1)&1 != 0 {
					cs = append(cs, nil)
				}
				cs[len(cs)-1] = append(cs[len(cs)-1], p)
			}
			// Contours may be empty.
			if cc.Empty&1 != 0 {
				cs = slices.Insert(cs, 1, nil)
			}
			if cc.Empty&2 != 0 {
				cs = append(cs, nil, nil)
			}
			// A program that only consists of POP-free no-ops: EIF.
			instr := make([]byte, cc.Instr)
			for i := range instr {
				instr[i] = 0x59
			}
			data := fontgen.Simple(cs, fontgen.SimpleOpts{Instr: instr, Pad: cc.Pad, Extra: cc.Extra, Fill: 0xA5})
			gl := make([][]byte, 3)
			gl[cc.Slot] = data
			ft := fontgen.New(gl...)
			ft.LocaLong = cc.LocaLong
			xmin := fontgen.BBoxOf(cs)[0]
			for i := range ft.HM {
				ft.HM[i] = fontgen.HM{Adv: 30 + i, LSB: 5 - i}
			}
			b := ft.Bytes()
			if err := checkSimple(x, ft, b, cc.Slot, cs, xmin, 64, 100); err != nil {
				return err
			}
			return checkSimple(x, ft, b, (cc.Slot+1)%3, nil, 0, 64, 100)
		})
		mc.Explore(c, "scales", func(yield func(simpleScaleCase) bool) {
			for _, u := range []int{16, 17, 64, 1000, 1024, 2048, 16384} {
				for _, lsb := range []int{0, 1, -1, 37, -300, 333} {
					for _, xm := range []int{0, -100, 51} {
						for lo := 0; lo <= c.N(2048, 8192); lo += 256 {
							if !yield(simpleScaleCase{u, lsb, 40*u/64 + 1, lo, lo + 255, xm}) {
								return
							}
						}
					}
				}
			}
		}, func(x *mc.X, sc simpleScaleCase) error {
			cs := [][]fontgen.Pt{
				{{sc.XMin, 0, true}, {sc.XMin + 1, -1, true}, {sc.XMin + sc.UPEM/2, sc.UPEM / 2, false}, {sc.XMin + sc.UPEM/2 + 1, sc.UPEM/2 - 1, true}},
				{{sc.XMin + 32, 1000, false}, {sc.XMin + 7, -sc.UPEM, false}, {sc.XMin + 5, -sc.UPEM - 1, false}},
			}
			ft := fontgen.New(fontgen.Simple(cs, fontgen.SimpleOpts{}))
			ft.UPEM = sc.UPEM
			ft.HM[0] = fontgen.HM{Adv: sc.Adv, LSB: sc.LSB}
			var scales []int
			for s := sc.Lo; s <= sc.Hi; s++ {
				scales = append(scales, s)
			}
			return checkSimple(x, ft, ft.Bytes(), 0, cs, sc.XMin, scales...)
		})
		mc.Explore(c, "large", func(yield func(largeCase) bool) {
			for _, n := range []int{127, 128, 255, 256, 257, 511, 512, 32766, 32767} {
				if !yield(largeCase{Contours: n, Points: 1, Long: n > 512}) {
					return
				}
			}
			for _, n := range []int{300, 32766, 32767, 32768, 32769, 65534, 65535, 65536} {
				for _, k := range []int{1, 2, 3} {
					if !yield(largeCase{Contours: k, Points: n / k, Long: true}) {
						return
					}
				}
			}
			for _, n := range []int{255, 256, 32767, 32768, 65535} {
				if !yield(largeCase{Contours: 2, Points: 3, Instr: n}) {
					return
				}
			}
			for _, n := range []int{32760, 32764, 32768, 65528, 65532, 65536, 65540, 131000, 131072, 1 << 20} {
				for _, long := range []bool{false, true} {
					if n < 131072 || long {
						if !yield(largeCase{Contours: 1, Points: 4, Before: n, Long: long}) {
							return
						}
					}
				}
			}
			for _, n := range []int{255, 256, 8191, 8192, 16383, 16384, 32767, 32768, 65533} {
				for _, long := range []bool{false, true} {
					if !yield(largeCase{Contours: 1, Points: 4, Slot: n, Long: long}) {
						return
					}
				}
			}
		}, func(x *mc.X, k largeCase) error {
			var cs [][]fontgen.Pt
			for i := 0; i < k.Contours; i++ {
				var ps []fontgen.Pt
				for j := 0; j < k.Points; j++ {
					ps = append(ps, fontgen.Pt{X: (i*31 + j*7) % 500, Y: (i*17+j*300)%1000 - 400, On: (i+j/3)%2 == 0})
				}
				cs = append(cs, ps)
			}
			instr := make([]byte, k.Instr)
			for i := range instr {
				instr[i] = 0x59
			}
			gl := make([][]byte, k.Slot+2)
			gl[0] = make([]byte, k.Before)
			gl[k.Slot] = fontgen.Simple(cs, fontgen.SimpleOpts{Instr: instr})
			slot := k.Slot
			if k.Before > 0 {
				gl[0], gl[1] = gl[1], gl[0]
				gl[0] = make([]byte, k.Before)
				gl[1] = fontgen.Simple(cs, fontgen.SimpleOpts{Instr: instr})
				slot = 1
			}
			ft := fontgen.New(gl...)
			ft.LocaLong = k.Long
			ft.HM[slot] = fontgen.HM{Adv: 321, LSB: -5}
			b := ft.Bytes()
			if k.Instr > 50000 {
				// Such a program is not run to its end.
				f, err := parseOK(b)
				if err != nil {
					return err
				}
				o, err := fontgen.RefLoad([]fontgen.RefGlyph{{Contours: cs, XMin: fontgen.BBoxOf(cs)[0]}, {}}, ft.HM, ft.UPEM, 640, 0, 0)
				if err != nil {
					return err
				}
				g := &bufs(x).g
				if err := g.Load(f, 640, 0, font.HintingNone); err != nil {
					return err
				}
				x.Validated()
				x.Step(1)
				return checkOutline(g, &o, 321, 640, ft.UPEM)
			}
			if err := checkSimple(x, ft, b, slot, cs, fontgen.BBoxOf(cs)[0], 64, 640); err != nil {
				return err
			}
			if k.Slot > 0 {
				return checkSimple(x, ft, b, k.Slot+1, nil, 0, 640)
			}
			return nil
		})
		mc.Explore(c, "bundled-fonts", func(yield func(realGlyphCase) bool) {
			genRealGlyphs(c, "bundled-fonts", []int{2048, 64, 63, 6*64 + 31, 12 * 64, 13*64 + 17, 50 * 64, 777}, yield)
		}, func(x *mc.X, k realGlyphCase) error { return checkReal(x, k, false) })
	},
}

func genRealGlyphs(c *mc.Ctx, part string, scales []int, yield func(realGlyphCase) bool) {
	fs, err := loadRealFonts()
	if err != nil {
		c.Fail(part, nil, "%v", err)
		return
	}
	for i, r := range fs {
		for _, s := range scales {
			for lo := 0; lo < len(r.ttx.Order); lo += 64 {
				if !yield(realGlyphCase{i, s, lo, min(lo+64, len(r.ttx.Order))}) {
					return
				}
			}
		}
	}
}

// checkReal compares the simple or compound glyphs of a bundled font with the
// dump. A glyph may start its contours elsewhere than the dump does not say,
// so that the order is compared too.
func checkReal(x *mc.X, k realGlyphCase, compound bool) error {
	fs, err := loadRealFonts()
	if err != nil {
		return err
	}
	t := fs[k.Font].ttx
	f, err := parseOK(fs[k.Font].bytes)
	if err != nil {
		return err
	}
	gs := make([]fontgen.RefGlyph, len(t.Glyphs))
	for i, g := range t.Glyphs {
		gs[i] = fontgen.RefGlyph{Contours: g.Contours, XMin: g.BBox[0]}
		for _, c := range g.Comps {
			if c.HasTransform {
				return fmt.Errorf("the dump has a transformed component")
			}
			gs[i].Comps = append(gs[i].Comps, fontgen.Comp{Flags: c.Flags, Glyph: c.Glyph, DX: c.X, DY: c.Y})
		}
	}
	s := bufs(x)
	for i := k.Lo; i < k.Hi; i++ {
		if (gs[i].Comps != nil) != compound {
			continue
		}
		o, err := fontgen.RefLoad(gs, t.HM, t.UPEM, k.Scale, i, 0)
		if err != nil {
			return err
		}
		if err := s.g.Load(f, i26(k.Scale), truetype.Index(i), font.HintingNone); err != nil {
			return fmt.Errorf("%s: glyph %d: %v", fs[k.Font].name, i, err)
		}
		if err := checkOutline(&s.g, &o, t.HM[i].Adv, k.Scale, t.UPEM); err != nil {
			return fmt.Errorf("%s: glyph %d: %v", fs[k.Font].name, i, err)
		}
		x.Outcome(outlineHash(&s.g))
		x.Step(1)
		x.Validated()
	}
	return nil
}
