package checks

import (
	"fmt"

	"verif/internal/fontgen"
	"verif/internal/mc"
	"verif/internal/refhint"

	"github.com/golang/freetype/truetype"
	"golang.org/x/image/font"
	"golang.org/x/image/math/fixed"
)

// A compoundCase is a compound glyph with a program, of components with programs.
type compoundCase struct {
	Comps  []refhint.Comp // Of glyphs 0 to 2 (or 3, the compound of the outer one).
	Code   []byte
	Outer  []byte // If not nil, a compound glyph with this program around it.
	Scale  int
	Flavor int
}

func (n *hintCounts) runCompound(x *mc.X, t compoundCase) error {
	ft := scratchFont(x)
	ft.UPEM, ft.Cvt, ft.Fpgm, ft.Prep = 100, hintCvt, hintFpgm, hintPrep
	ft.MaxStorage, ft.MaxTwilight, ft.MaxStack, ft.NHMetric = hintStore, hintTwilight, 250, 0
	outs := [][][]fontgen.Pt{
		{{{X: 3, Y: 1, On: true}, {X: 30, Y: 5, On: true}, {X: 33, Y: 40, On: false}, {X: 2, Y: 37, On: true}}},
		{{{X: -4, Y: 0, On: true}, {X: 9, Y: 2, On: false}, {X: 8, Y: 19, On: true}}, {{X: 1, Y: 30, On: true}, {X: 5, Y: 41, On: true}, {X: -3, Y: 33, On: true}}},
		{},
	}
	codes := [][]byte{
		fontgen.Code(ints{1}, fontgen.MDAP1, fontgen.IUP1, fontgen.SVTCA0, ints{2, 2}, fontgen.MIAP1, fontgen.IUP0),
		fontgen.Code(ints{2, 19}, fontgen.SHPIX, ints{3}, fontgen.SRP0, ints{4}, fontgen.MDRP|0x1d, ints{1}, fontgen.FLIPPT),
		nil,
	}
	if t.Flavor&1 != 0 {
		codes[0], codes[1] = nil, nil
	}
	var gs []refhint.Glyph
	ft.Glyphs, ft.HM = ft.Glyphs[:0], ft.HM[:0]
	add := func(g refhint.Glyph, b []byte) {
		g.Adv, g.LSB = 31+17*len(gs), g.BBox[0]-5+9*len(gs)
		if t.Flavor&2 != 0 {
			g.LSB = g.BBox[0]
		}
		gs = append(gs, g)
		ft.Glyphs = append(ft.Glyphs, b)
		ft.HM = append(ft.HM, fontgen.HM{Adv: g.Adv, LSB: g.LSB})
	}
	for i, o := range outs {
		var b []byte
		if len(o) > 0 {
			b = fontgen.Simple(o, fontgen.SimpleOpts{Instr: codes[i]})
		}
		add(refhint.Glyph{Contours: o, BBox: fontgen.BBoxOf(o), Program: codes[i]}, b)
	}
	comp := func(cs []refhint.Comp, code []byte, box [4]int) {
		var fs []fontgen.Comp
		for _, c := range cs {
			f := fontgen.ArgsXY
			if c.Round {
				f |= fontgen.RoundXY
			}
			if c.Metrics {
				f |= fontgen.UseMetrics
			}
			fs = append(fs, fontgen.Comp{Flags: f, Glyph: c.Glyph, DX: c.DX, DY: c.DY})
		}
		b := fontgen.Compound(box, fs, code, 0)
		if t.Flavor&4 != 0 && code != nil && len(fs) > 1 {
			// The first component says that there is a program, not the last.
			b[10] |= fontgen.HaveInstr >> 8
			b[10+6*(len(fs)-1)] &^= fontgen.HaveInstr >> 8
		}
		if t.Flavor&8 != 0 && code != nil {
			// No component says that there is a program.
			for i := range fs {
				b[10+6*i] &^= fontgen.HaveInstr >> 8
			}
			code = nil
		}
		add(refhint.Glyph{Comps: cs, BBox: box, Program: code}, b)
	}
	comp(t.Comps, t.Code, [4]int{-3, -2, 44, 50})
	if t.Outer != nil {
		comp([]refhint.Comp{{Glyph: 0, DX: -7, DY: 3}, {Glyph: 3, DX: 11, DY: -5, Round: true}}, t.Outer, [4]int{-9, 1, 40, 60})
	}
	f, err := parseOK(ft.Bytes())
	if err != nil {
		return err
	}
	m, err := refhint.NewMachine(hintFpgm, hintPrep, hintCvt, t.Scale, 100, 200, hintStore, hintTwilight+4)
	if err != nil {
		return fmt.Errorf("harness: %v", err)
	}
	i := len(gs) - 1
	want, werr := m.Load(gs, i)
	var g truetype.GlyphBuf
	err = g.Load(f, fixed.Int26_6(t.Scale), truetype.Index(i), font.HintingFull)
	x.Step(m.Steps)
	if werr != nil {
		n.count(werr)
		return nil
	}
	if err != nil {
		return err
	}
	n.same.Add(1)
	x.Validated()
	x.Outcome(outlineHash(&g))
	return sameHinted(&g, &want)
}

func runC10Compound(c *mc.Ctx, n *hintCounts) {
	programs := [][]byte{
		nil,
		{fontgen.SVTCA1},
		{fontgen.IUP0},
		fontgen.Code(ints{1}, fontgen.MDAP1),
		fontgen.Code(ints{4}, fontgen.MDAP1, ints{2}, fontgen.MDRP|0x1c, fontgen.IUP1),
		fontgen.Code(fontgen.SVTCA0, ints{5, 2}, fontgen.MIAP1, ints{0, 1}, fontgen.MIRP|0x1c, fontgen.IUP0, fontgen.IUP1),
		fontgen.Code(ints{3}, fontgen.SRP1, ints{0}, fontgen.SRP2, ints{2, 50}, fontgen.SHPIX, ints{3, 21}, fontgen.SHPIX, ints{1, 2, 2}, fontgen.SLOOP, fontgen.IP, ints{1}, fontgen.SHC1),
		fontgen.Code(ints{1, 0, 3}, fontgen.MD1, fontgen.SCFS, ints{2, 0}, fontgen.GC1, ints{9}, fontgen.ADD, fontgen.SCFS, fontgen.IUP0, fontgen.IUP1, ints{0}, fontgen.FLIPPT),
	}
	mc.Explore(c, "compound glyphs with programs", func(yield func(compoundCase) bool) {
		offs := [][2]int{{0, 0}, {7, -3}, {-12, 25}}
		var comps []refhint.Comp
		for gl := 0; gl < 3; gl++ {
			for _, o := range offs {
				comps = append(comps, refhint.Comp{Glyph: gl, DX: o[0], DY: o[1]}, refhint.Comp{Glyph: gl, DX: o[0], DY: o[1], Round: true})
			}
			comps = append(comps, refhint.Comp{Glyph: gl, DX: 3, DY: 4, Metrics: true})
		}
		for d := 1; d <= 2; d++ {
			tuples(d, len(comps), func(t []int) bool {
				cs := make([]refhint.Comp, d)
				metrics := 0
				for i, k := range t {
					cs[i] = comps[k]
					if cs[i].Metrics {
						metrics++
					}
				}
				if metrics > 1 {
					return true
				}
				for _, p := range programs {
					for fl := 0; fl < 4; fl++ {
						for _, s := range []int{12 * 64, 17 * 64} {
							if !yield(compoundCase{Comps: cs, Code: p, Scale: s, Flavor: fl}) {
								return false
							}
							if p != nil && d > 1 && !yield(compoundCase{Comps: cs, Code: p, Scale: s, Flavor: fl | 4}) {
								return false
							}
							if fl == 0 && p != nil && !yield(compoundCase{Comps: cs, Code: p, Scale: s, Flavor: 8}) {
								return false
							}
							if fl == 0 {
								for _, o := range programs[1:] {
									if !yield(compoundCase{Comps: cs, Code: p, Outer: o, Scale: s}) {
										return false
									}
								}
								if p != nil && !yield(compoundCase{Comps: cs, Code: p, Outer: []byte{}, Scale: s}) {
									return false
								}
							}
						}
					}
				}
				return true
			})
		}
	}, n.runCompound)
}

// A pointsCase is a glyph of N points in contours of Len points, with the
// program of the given number, which refers to point At.
type pointsCase struct{ N, Len, At, Program, Scale int }

// pushLarge pushes a number that may be too large for a signed word.
func pushLarge(v int) []byte {
	return fontgen.Code(ints{v / 2}, fontgen.DUP, fontgen.ADD, ints{v & 1}, fontgen.ADD)
}

func pointsProgram(t pointsCase) []byte {
	at, last := pushLarge(t.At), pushLarge(t.N-1)
	switch t.Program {
	case 0:
		return fontgen.Code(at, fontgen.MDAP1, ints{1}, fontgen.SHZ1, fontgen.SVTCA0, last, fontgen.MDAP1, ints{1}, fontgen.SHZ1)
	case 1:
		return fontgen.Code(at, fontgen.MDAP1, last, fontgen.MDRP|0x1c, fontgen.IUP1, fontgen.SVTCA0, last, fontgen.MDAP1, at, ints{1}, fontgen.MIRP|0x1c, fontgen.IUP0)
	case 2:
		return fontgen.Code(at, last, fontgen.FLIPRGON, at, ints{70}, fontgen.SHPIX, fontgen.IUP1, ints{5}, at, fontgen.FLIPRGOFF)
	case 3:
		return fontgen.Code(at, fontgen.MDAP1, last, fontgen.SHP1, last, fontgen.SRP0, at, fontgen.ALIGNRP, ints{0}, fontgen.SRP2, at, fontgen.SRP1, last, fontgen.IP, fontgen.IUP0, fontgen.IUP1)
	case 4:
		// The last contour, found by its number.
		return fontgen.Code(at, fontgen.MDAP1, pushLarge((t.N-1)/t.Len), fontgen.SHC1, fontgen.SVTCA0, at, fontgen.MDAP1, pushLarge((t.N-1)/t.Len/2), fontgen.SHC1)
	case 5:
		// The phantom points.
		return fontgen.Code(pushLarge(t.N+1), fontgen.MDAP1, at, fontgen.MDRP|0x1c, pushLarge(t.N), ints{-100}, fontgen.SHPIX, fontgen.IUP1)
	}
	return fontgen.Code(at, fontgen.GC0, ints{3}, fontgen.ADD, fontgen.DUP, last, 0x23, fontgen.SCFS, at, 0x23, fontgen.SCFS)
}

func runC10Points(c *mc.Ctx, n *hintCounts) {
	mc.Explore(c, "many points", func(yield func(pointsCase) bool) {
		for _, np := range []int{254, 255, 256, 257, 32766, 32767, 32768, 32769, 65531, 65532, 65533, 65535, 65536} {
			for _, l := range []int{3, 97, 70000} {
				for _, at := range []int{0, 128, np / 2, np - 2} {
					for p := 0; p < 7; p++ {
						for _, s := range []int{1100, 1337} {
							if !c.Thorough() && np > 300 && s != 1100 {
								continue
							}
							if np/l > 32767 || !yield(pointsCase{np, l, at, p, s}) {
								return
							}
						}
					}
				}
			}
		}
	}, func(x *mc.X, t pointsCase) error {
		var out [][]fontgen.Pt
		for i := 0; i < t.N; i++ {
			if i%t.Len == 0 {
				out = append(out, nil)
			}
			k := len(out) - 1
			out[k] = append(out[k], fontgen.Pt{X: i * 7 % 101, Y: i * 29 % 97, On: i%5 != 1})
		}
		code := pointsProgram(t)
		ft := scratchFont(x)
		ft.UPEM, ft.Cvt, ft.Fpgm, ft.Prep = 100, hintCvt, hintFpgm, hintPrep
		ft.MaxStorage, ft.MaxTwilight, ft.MaxStack, ft.NHMetric = hintStore, hintTwilight, 250, 0
		ft.LocaLong = true
		g := refhint.Glyph{Contours: out, BBox: fontgen.BBoxOf(out), Program: code, Adv: 77, LSB: 3}
		ft.Glyphs = append(ft.Glyphs[:0], fontgen.Simple(out, fontgen.SimpleOpts{Instr: code}))
		ft.HM = append(ft.HM[:0], fontgen.HM{Adv: g.Adv, LSB: g.LSB})
		f, err := parseOK(ft.Bytes())
		if err != nil {
			return err
		}
		m, err := refhint.NewMachine(hintFpgm, hintPrep, hintCvt, t.Scale, 100, 200, hintStore, hintTwilight+4)
		if err != nil {
			return fmt.Errorf("harness: %v", err)
		}
		want, werr := m.Load([]refhint.Glyph{g}, 0)
		var b truetype.GlyphBuf
		err = b.Load(f, fixed.Int26_6(t.Scale), 0, font.HintingFull)
		x.Step(m.Steps)
		if werr != nil {
			n.count(werr)
			return nil
		}
		if err != nil {
			return err
		}
		n.same.Add(1)
		x.Validated()
		x.Outcome(outlineHash(&b))
		return sameHinted(&b, &want)
	})
}

type realHint struct{ Font, Scale int }

// glyphProgram is the instructions in a glyph's data.
func glyphProgram(b []byte) []byte {
	if len(b) < 10 {
		return nil
	}
	u := func(i int) int { return int(b[i])<<8 | int(b[i+1]) }
	ne := int(int16(u(0)))
	if ne >= 0 {
		i := 10 + 2*ne
		return b[i+2 : i+2+u(i)]
	}
	i, instr := 10, false
	for {
		fl := u(i)
		i += 6
		if fl&fontgen.ArgWords != 0 {
			i += 2
		}
		switch {
		case fl&fontgen.HaveScale != 0:
			i += 2
		case fl&fontgen.HaveXY != 0:
			i += 4
		case fl&fontgen.Have2x2 != 0:
			i += 8
		}
		instr = instr || fl&fontgen.HaveInstr != 0
		if fl&fontgen.More == 0 {
			break
		}
	}
	if !instr {
		return nil
	}
	return b[i+2 : i+2+u(i)]
}

func runC10Real(c *mc.Ctx, n *hintCounts) {
	reals, err := loadRealFonts()
	if err != nil {
		c.Fail("bundled fonts", 0, "%v", err)
		return
	}
	type realData struct {
		f      *truetype.Font
		gs     []refhint.Glyph
		tables map[string][]byte
		cvt    []int
	}
	data := make([]realData, len(reals))
	for k, r := range reals {
		d := &data[k]
		if d.f, err = parseOK(r.bytes); err != nil {
			c.Fail("bundled fonts", r.name, "%v", err)
			return
		}
		d.tables = map[string][]byte{}
		for _, t := range fileTables(r.bytes) {
			d.tables[t.Tag] = t.Data
		}
		for i := 0; i+1 < len(d.tables["cvt "]); i += 2 {
			d.cvt = append(d.cvt, int(int16(uint16(d.tables["cvt "][i])<<8|uint16(d.tables["cvt "][i+1]))))
		}
		loca, glyf := d.tables["loca"], d.tables["glyf"]
		for i, g := range r.ttx.Glyphs {
			o0, o1 := 2*(int(loca[2*i])<<8|int(loca[2*i+1])), 2*(int(loca[2*i+2])<<8|int(loca[2*i+3]))
			h := refhint.Glyph{BBox: g.BBox, Adv: r.ttx.HM[i].Adv, LSB: r.ttx.HM[i].LSB, Contours: g.Contours}
			for _, cp := range g.Comps {
				if cp.HasTransform {
					c.Fail("bundled fonts", i, "transforms are not expected")
				}
				h.Comps = append(h.Comps, refhint.Comp{Glyph: cp.Glyph, DX: cp.X, DY: cp.Y, Round: cp.Flags&fontgen.RoundXY != 0, Metrics: cp.Flags&fontgen.UseMetrics != 0})
			}
			if !g.Empty {
				h.Program = glyphProgram(glyf[o0:o1])
			}
			d.gs = append(d.gs, h)
		}
	}
	mc.Explore(c, "bundled fonts", func(yield func(realHint) bool) {
		for k := range reals {
			for ppem := 1; ppem <= c.N(40, 300); ppem++ {
				if !yield(realHint{k, ppem * 64}) {
					return
				}
			}
			for _, ppem := range []int{48, 64, 99, 128, 500} {
				if !yield(realHint{k, ppem * 64}) {
					return
				}
			}
		}
	}, func(x *mc.X, t realHint) error {
		d, r := &data[t.Font], reals[t.Font]
		m, err := refhint.NewMachine(d.tables["fpgm"], d.tables["prep"], d.cvt, t.Scale, r.ttx.UPEM, 2048, 0, 8)
		if err != nil {
			return fmt.Errorf("harness: %v", err)
		}
		var g truetype.GlyphBuf
		for i := range d.gs {
			want, werr := m.Load(d.gs, i)
			err := g.Load(d.f, fixed.Int26_6(t.Scale), truetype.Index(i), font.HintingFull)
			if werr != nil {
				n.count(werr)
				continue
			}
			if err != nil {
				return fmt.Errorf("glyph %d: %v", i, err)
			}
			if err := sameHinted(&g, &want); err != nil {
				return fmt.Errorf("glyph %d: %v", i, err)
			}
			x.Validated()
			n.same.Add(1)
		}
		x.Step(m.Steps)
		return nil
	})
}
