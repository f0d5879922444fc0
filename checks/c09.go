package checks

import (
	"fmt"

	"verif/internal/fontgen"
	"verif/internal/mc"

	"github.com/golang/freetype/truetype"
	"golang.org/x/image/font"
)

// Components of glyph fonts for C09: glyph 0 is the compound under test, the
// others are these.
var c09Simple = [][][]fontgen.Pt{
	1: {{{10, 0, true}, {10, 40, false}, {50, 40, true}}},
	2: {fontgen.Square(-7, -9, 33, 21), {{3, 3, false}, {20, 3, false}, {11, 17, true}, {5, 9, false}}},
	3: nil, // empty
	4: {{{0, 0, true}}},
}

// c09Font returns a font whose glyphs 1..4 are the simple ones above, and 5..8
// compounds of them, together with the reference description.
func c09Font(upem int) (*fontgen.Font, []fontgen.RefGlyph) {
	ft := fontgen.New(make([][]byte, 9)...)
	ft.UPEM = upem
	gs := make([]fontgen.RefGlyph, 9)
	for i := range gs {
		ft.HM[i] = fontgen.HM{Adv: 40 + 17*i, LSB: 3*i*i - 11}
	}
	for i := 1; i <= 4; i++ {
		setSimple(ft, gs, i, c09Simple[i])
	}
	setCompound(ft, gs, 5, -31, []fontgen.Comp{
		{Flags: fontgen.ArgsXY, Glyph: 1, DX: 5, DY: -3},
		{Flags: fontgen.ArgsXY | fontgen.UseMetrics, Glyph: 2, DX: -100, DY: 77},
	})
	setCompound(ft, gs, 6, 12, []fontgen.Comp{
		{Flags: fontgen.ArgsXY | fontgen.Have2x2, Glyph: 2, DX: 1, DY: 2, M: [4]int{0x2000, 0x1000, -0x3000, 0x4000}},
		{Flags: fontgen.ArgsXY | fontgen.RoundXY, Glyph: 4, DX: 21, DY: -13},
	})
	setCompound(ft, gs, 7, 3, []fontgen.Comp{
		{Flags: fontgen.ArgsXY | fontgen.HaveScale, Glyph: 6, DX: 9, DY: 9, M: [4]int{-0x6000}},
		{Flags: fontgen.ArgsXY | fontgen.ArgWords, Glyph: 5, DX: 300, DY: -300},
	})
	setCompound(ft, gs, 8, -5, []fontgen.Comp{{Flags: fontgen.ArgsXY | fontgen.UseMetrics, Glyph: 5, DX: 2, DY: 2}})
	return ft, gs
}

func setSimple(ft *fontgen.Font, gs []fontgen.RefGlyph, i int, cs [][]fontgen.Pt) {
	if cs == nil {
		ft.Glyphs[i], gs[i] = nil, fontgen.RefGlyph{}
		return
	}
	ft.Glyphs[i] = fontgen.Simple(cs, fontgen.SimpleOpts{})
	gs[i] = fontgen.RefGlyph{Contours: cs, XMin: fontgen.BBoxOf(cs)[0]}
}

func setCompound(ft *fontgen.Font, gs []fontgen.RefGlyph, i, xmin int, cs []fontgen.Comp) {
	ft.Glyphs[i] = fontgen.Compound([4]int{xmin, -10, 90, 91}, cs, nil, 0)
	gs[i] = fontgen.RefGlyph{Comps: cs, XMin: xmin}
}

// checkCompound loads glyph i and compares it with the reference. want is the
// outcome of the reference's own cycle and range detection.
func checkCompound(x *mc.X, f *truetype.Font, ft *fontgen.Font, gs []fontgen.RefGlyph, i, scale int) error {
	s := bufs(x)
	x.Step(2)
	if !c09Loadable(gs, i) {
		for _, h := range []font.Hinting{font.HintingNone, font.HintingFull} {
			if s.g.Load(f, i26(scale), truetype.Index(i), h) == nil {
				return fmt.Errorf("glyph %d has a component cycle or a component that is out of range, but loads (hinting %v)", i, h)
			}
		}
		x.Outcome(1)
		return nil
	}
	o, err := fontgen.RefLoad(gs, ft.HM, ft.UPEM, scale, i, 0)
	if err != nil {
		return err
	}
	if err := s.g.Load(f, i26(scale), truetype.Index(i), font.HintingNone); err != nil {
		return fmt.Errorf("glyph %d, scale %d: %v", i, scale, err)
	}
	adv := i
	for again := true; again; {
		again = false
		for _, c := range gs[adv].Comps {
			if c.Flags&fontgen.UseMetrics != 0 {
				adv, again = c.Glyph, true
				break
			}
		}
	}
	if err := checkOutline(&s.g, &o, ft.HM[adv].Adv, scale, ft.UPEM); err != nil {
		return fmt.Errorf("glyph %d, scale %d: %v", i, scale, err)
	}
	x.Outcome(outlineHash(&s.g))
	if err := checkHintedPlain(f, &s.h, scale, i, &o, nil, false); err != nil {
		return fmt.Errorf("glyph %d, scale %d: %v", i, scale, err)
	}
	x.Validated()
	return nil
}

// c09Loadable reports whether no cycle and no index out of range is reachable.
func c09Loadable(gs []fontgen.RefGlyph, i int) bool {
	state := make([]int, len(gs))
	var visit func(i int) bool
	visit = func(i int) bool {
		if i < 0 || i >= len(gs) || state[i] == 1 {
			return false
		}
		if state[i] == 2 {
			return true
		}
		state[i] = 1
		for _, c := range gs[i].Comps {
			if !visit(c.Glyph) {
				return false
			}
		}
		state[i] = 2
		return true
	}
	return visit(i)
}

type oneComp struct {
	Glyph, DX, DY int
	Words         bool
	Flags, M      int
}

var (
	c09ByteOffs = []int{0, 1, -1, 31, 32, 33, -31, -32, -33, 127, -128}
	c09WordOffs = []int{0, 1, 127, 128, -128, -129, 255, 256, -256, 1000, 16000, -16000}
	c09Mats     = []struct {
		flag int
		m    [4]int
	}{
		{0, [4]int{}},
		{fontgen.HaveScale, [4]int{0x4000}},
		{fontgen.HaveScale, [4]int{0x2001}},
		{fontgen.HaveScale, [4]int{-0x8000}},
		{fontgen.HaveScale, [4]int{0}},
		{fontgen.HaveXY, [4]int{0x4000, -0x4000}},
		{fontgen.HaveXY, [4]int{0x1234, 0x7fff}},
		{fontgen.HaveXY, [4]int{-0x4000, 0x2000}},
		{fontgen.Have2x2, [4]int{0x4000, 0, 0, 0x4000}},
		{fontgen.Have2x2, [4]int{0, 0x4000, -0x4000, 0}},
		{fontgen.Have2x2, [4]int{0x3000, 0x1000, 0x0800, 0x2800}},
		{fontgen.Have2x2, [4]int{0x7fff, -0x8000, 0x1357, -0x2468}},
		{fontgen.Have2x2, [4]int{0, 0x2001, 0x1001, 0}},
		{fontgen.Have2x2, [4]int{0x4000, 0x1000, -0x2000, 0x4000}},
		{fontgen.Have2x2, [4]int{0x4000, 0, 0x2000, 0x4000}},
	}
	c09Scales = []int{0, 1, 63, 64, 65, 100, 777, 2048, 1<<16 + 1, 130000}
)

type multiComp struct {
	Kinds []int
	UMM   int
	Self  int
}

// Kinds of components for the combinations.
var c09Kinds = []fontgen.Comp{
	{Flags: fontgen.ArgsXY, Glyph: 1, DX: 7, DY: 9},
	{Flags: fontgen.ArgsXY | fontgen.ArgWords | fontgen.RoundXY, Glyph: 2, DX: 201, DY: -333},
	{Flags: fontgen.ArgsXY, Glyph: 3, DX: 50, DY: 50},
	{Flags: fontgen.ArgsXY | fontgen.HaveXY, Glyph: 4, DX: -5, DY: 6, M: [4]int{0x4000, -0x4000}},
	{Flags: fontgen.ArgsXY | fontgen.Have2x2 | fontgen.RoundXY, Glyph: 1, DX: 33, DY: 31, M: [4]int{0, -0x4000, 0x4000, 0}},
	{Flags: fontgen.ArgsXY | fontgen.Overlap, Glyph: 5, DX: 0, DY: 0},
	{Flags: fontgen.ArgsXY | fontgen.HaveScale, Glyph: 6, DX: 1, DY: -1, M: [4]int{0x2000}},
	{Flags: fontgen.ArgsXY, Glyph: 7, DX: -64, DY: 64},
	{Flags: fontgen.ArgsXY | fontgen.RoundXY, Glyph: 8, DX: 40, DY: 20},
	{Flags: fontgen.ArgsXY | fontgen.ArgWords | fontgen.HaveScale, Glyph: 2, DX: 128, DY: -129, M: [4]int{-0x4000}},
}

type graphCase struct {
	N, Limit, Code int
}

// manyComps is a compound glyph of N components, of kinds that cycle through
// Kinds; component UMM, if any, gives the metrics. The components' glyphs are
// Base and following ones.
type manyComps struct {
	N, Base, UMM int
	Kinds        []int
	Long         bool
}

type chainCase struct{ Depth, UMM, Kind int }

var c09 = &mc.Check{
	ID:          "C09",
	Rule:        "one component: 5 glyphs x all pairs of 11 byte and 12 word offsets x rounding x overlap x use-my-metrics x 15 transforms, at 10 scales; all lists of 1..4 (5 thorough) components of 10 kinds (simple, empty, transformed, nested to 3 levels, with and without own metrics), with each choice of at most one carrying use-my-metrics, at 4 scales and 2 units-per-em; all component graphs on 3 glyphs with targets in and out of range and on 4 glyphs (simple or 1..2 components each), including all cyclic ones; chains of every depth 0..80; up to 600 components, of glyphs up to index 65528; all compound glyphs of the bundled fonts at 8 scales. Each is loaded with and without hinting",
	Assumptions: []string{"transformed coordinates may be rounded once per product (half a unit each); at most one component carries use-my-metrics"},
	Run: func(c *mc.Ctx) {
		mc.Explore(c, "one-component", func(yield func(oneComp) bool) {
			for _, words := range []bool{false, true} {
				offs := c09ByteOffs
				if words {
					offs = c09WordOffs
				}
				for _, dx := range offs {
					for _, dy := range offs {
						for m := range c09Mats {
							for fl := 0; fl < 8; fl++ {
								for g := 1; g <= 5; g++ {
									if !yield(oneComp{g, dx, dy, words, fl, m}) {
										return
									}
								}
							}
						}
					}
				}
			}
		}, func(x *mc.X, k oneComp) error {
			ft, gs := c09Font(64)
			cp := fontgen.Comp{Flags: fontgen.ArgsXY | c09Mats[k.M].flag, Glyph: k.Glyph, DX: k.DX, DY: k.DY, M: c09Mats[k.M].m}
			if k.Words {
				cp.Flags |= fontgen.ArgWords
			}
			if k.Flags&1 != 0 {
				cp.Flags |= fontgen.RoundXY
			}
			if k.Flags&2 != 0 {
				cp.Flags |= fontgen.UseMetrics
			}
			if k.Flags&4 != 0 {
				cp.Flags |= fontgen.Overlap
			}
			setCompound(ft, gs, 0, -20, []fontgen.Comp{cp})
			f, err := parseOK(ft.Bytes())
			if err != nil {
				return err
			}
			n := 2
			if k.DX == k.DY {
				n = len(c09Scales)
			}
			for i := 0; i < n; i++ {
				if err := checkCompound(x, f, ft, gs, 0, c09Scales[len(c09Scales)-1-(i*3+k.M)%len(c09Scales)]); err != nil {
					return err
				}
			}
			return nil
		})
		mc.Explore(c, "lists", func(yield func(multiComp) bool) {
			for n := 1; n <= c.N(4, 5); n++ {
				if !tuples(n, len(c09Kinds), func(t []int) bool {
					for umm := -1; umm < n; umm++ {
						for self := 0; self < 2; self++ {
							if !yield(multiComp{t, umm, self}) {
								return false
							}
						}
					}
					return true
				}) {
					return
				}
			}
		}, func(x *mc.X, k multiComp) error {
			ft, gs := c09Font([]int{64, 1000}[k.Self])
			var cs []fontgen.Comp
			for i, kind := range k.Kinds {
				cp := c09Kinds[kind]
				if i == k.UMM {
					cp.Flags |= fontgen.UseMetrics
				}
				cs = append(cs, cp)
			}
			setCompound(ft, gs, 0, 37, cs)
			f, err := parseOK(ft.Bytes())
			if err != nil {
				return err
			}
			for _, scale := range []int{64, 100, 640, 1999} {
				if err := checkCompound(x, f, ft, gs, 0, scale); err != nil {
					return err
				}
			}
			return nil
		})
		mc.Explore(c, "graphs", func(yield func(graphCase) bool) {
			for _, nl := range [][2]int{{3, 4}, {4, c.N(4, 5)}} {
				per := 1 + nl[1] + nl[1]*nl[1]
				total := 1
				for i := 0; i < nl[0]; i++ {
					total *= per
				}
				for code := 0; code < total; code++ {
					if !yield(graphCase{nl[0], nl[1], code}) {
						return
					}
				}
			}
		}, func(x *mc.X, k graphCase) error {
			ft := fontgen.New(make([][]byte, k.N)...)
			gs := make([]fontgen.RefGlyph, k.N)
			per := 1 + k.Limit + k.Limit*k.Limit
			code := k.Code
			for i := 0; i < k.N; i++ {
				v := code % per
				code /= per
				ft.HM[i] = fontgen.HM{Adv: 10 + i, LSB: i}
				at := func(t, j int) fontgen.Comp {
					return fontgen.Comp{Flags: fontgen.ArgsXY, Glyph: t, DX: 3*i + 10*j, DY: i - 5*j}
				}
				switch {
				case v == 0:
					setSimple(ft, gs, i, [][]fontgen.Pt{{{i, 1, true}, {20, i, true}, {9, 9 * i, false}}})
				case v <= k.Limit:
					setCompound(ft, gs, i, i, []fontgen.Comp{at(v-1, 0)})
				default:
					v -= k.Limit + 1
					setCompound(ft, gs, i, -i, []fontgen.Comp{at(v/k.Limit, 0), at(v%k.Limit, 1)})
				}
			}
			f, err := parseOK(ft.Bytes())
			if err != nil {
				return err
			}
			for i := 0; i < k.N; i++ {
				if err := checkCompound(x, f, ft, gs, i, 64); err != nil {
					return err
				}
			}
			return nil
		})
		mc.Explore(c, "chains", func(yield func(chainCase) bool) {
			for d := 0; d <= c.N(80, 200); d++ {
				for umm := 0; umm < 3; umm++ {
					for kind := 0; kind < 3; kind++ {
						if !yield(chainCase{d, umm, kind}) {
							return
						}
					}
				}
			}
		}, func(x *mc.X, k chainCase) error {
			// Glyph i refers to glyph i+1; the last is simple, empty, or
			// refers to the first.
			n := k.Depth + 1
			ft := fontgen.New(make([][]byte, n)...)
			gs := make([]fontgen.RefGlyph, n)
			for i := 0; i < n; i++ {
				ft.HM[i] = fontgen.HM{Adv: 10 + i, LSB: i}
				cp := fontgen.Comp{Flags: fontgen.ArgsXY, Glyph: i + 1, DX: 1, DY: -2}
				if k.UMM == 1 || k.UMM == 2 && i%3 != 0 {
					cp.Flags |= fontgen.UseMetrics
				}
				if i < n-1 {
					setCompound(ft, gs, i, 5, []fontgen.Comp{cp})
					continue
				}
				switch k.Kind {
				case 0:
					setSimple(ft, gs, i, c09Simple[2])
				case 2:
					cp.Glyph = 0
					setCompound(ft, gs, i, 5, []fontgen.Comp{cp})
				}
			}
			f, err := parseOK(ft.Bytes())
			if err != nil {
				return err
			}
			// Every glyph i is a chain of depth n-1-i. Up to a depth of 16 it
			// must load; beyond that an error will do, but not a wrong result.
			for i := 0; i < n; i++ {
				s := bufs(x)
				if k.Kind != 2 && n-1-i > 16 && s.g.Load(f, 64, truetype.Index(i), font.HintingNone) != nil {
					x.Step(1)
					continue
				}
				if k.Kind != 2 && n-1-i > 100 {
					return fmt.Errorf("glyph %d is nested %d deep, but loads", i, n-1-i)
				}
				if err := checkCompound(x, f, ft, gs, i, 64); err != nil {
					return err
				}
			}
			return nil
		})
		mc.Explore(c, "many-components", func(yield func(manyComps) bool) {
			// The base decides the high byte of the component's index.
			for _, base := range []int{1, 250, 300, 32760, 65520} {
				counts := []int{1, 2, 15, 16, 17, 31, 32, 33, 63, 64, 65, 66, 127, 128, 129, 130, 255, 256, 257, 258, 300, 600}
				if base > 300 && !c.Thorough() {
					counts = []int{1, 2, 17, 65, 257}
				}
				for _, n := range counts {
					for _, long := range []bool{false, true} {
						for _, kinds := range [][]int{{0}, {1, 0}, {2, 0}, {3, 1, 4}, {8, 9}, {5, 6, 7, 0, 1, 2, 3, 4}} {
							for _, umm := range []int{-1, 0, n / 2, n - 1} {
								if !yield(manyComps{n, base, umm, kinds, long}) {
									return
								}
							}
						}
					}
				}
			}
		}, func(x *mc.X, k manyComps) error {
			small, refs := c09Font(64)
			n := k.Base + 9
			ft := fontgen.New(make([][]byte, n)...)
			ft.LocaLong = k.Long
			gs := make([]fontgen.RefGlyph, n)
			off := k.Base - 1 // glyph g of the small font is glyph off+g
			for g := 1; g < 9; g++ {
				if refs[g].Comps == nil {
					setSimple(ft, gs, off+g, refs[g].Contours)
				} else {
					var cs []fontgen.Comp
					for _, cp := range refs[g].Comps {
						cp.Glyph += off
						cs = append(cs, cp)
					}
					setCompound(ft, gs, off+g, refs[g].XMin, cs)
				}
				ft.HM[off+g] = small.HM[g]
			}
			var cs []fontgen.Comp
			for i := 0; i < k.N; i++ {
				cp := c09Kinds[k.Kinds[i%len(k.Kinds)]]
				cp.Glyph += off
				if cp.Flags&fontgen.ArgWords != 0 {
					cp.DX, cp.DY = cp.DX+i, cp.DY-2*i
				} else {
					cp.DX = cp.DX&63 - i%64
				}
				if i == k.UMM {
					cp.Flags |= fontgen.UseMetrics
				}
				cs = append(cs, cp)
			}
			setCompound(ft, gs, n-1, -20, cs)
			ft.HM[n-1] = fontgen.HM{Adv: 700, LSB: 9}
			f, err := parseOK(ft.Bytes())
			if err != nil {
				return err
			}
			for _, sc := range []int{64, 777} {
				if err := checkCompound(x, f, ft, gs, n-1, sc); err != nil {
					return err
				}
			}
			return nil
		})
		mc.Explore(c, "bundled-fonts", func(yield func(realGlyphCase) bool) {
			genRealGlyphs(c, "bundled-fonts", []int{2048, 64, 63, 6*64 + 31, 12 * 64, 13*64 + 17, 50 * 64, 777}, yield)
		}, func(x *mc.X, k realGlyphCase) error { return checkReal(x, k, true) })
	},
}
