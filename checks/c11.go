package checks

import (
	"fmt"
	"slices"
	"sync"

	"verif/internal/fontgen"
	"verif/internal/mc"

	"github.com/golang/freetype/truetype"
	"golang.org/x/image/font"
	"golang.org/x/image/math/fixed"
)

// A loadOp loads one glyph.
type loadOp struct {
	Font, Glyph, Scale, Hint int
}

// ring is a closed contour of n on-curve points at distinct places.
func ring(n, k int) []fontgen.Pt {
	ps := make([]fontgen.Pt, n)
	for i := range ps {
		ps[i] = fontgen.Pt{X: 3*i + k, Y: (7*i*i + 11*k) % 53, On: true}
	}
	return ps
}

const nProbe = 34

// reuseMax has the numbers of storage cells, twilight points and control values
// of a font.
type reuseMax struct{ store, twilight, cvt int }

var reuseMaxes = []reuseMax{1: {40, 20, 8}, 2: {1, 0, 1}, 6: {40, 20, 8}}

func reuseMaxOf(k int) reuseMax {
	if k < len(reuseMaxes) && reuseMaxes[k].store > 0 {
		return reuseMaxes[k]
	}
	return reuseMax{4, 6, 4}
}

// probeCode moves each point to a place that shows one piece of the state that
// loads of other glyphs could have left behind.
func probeCode(fn int, m reuseMax) []byte {
	g, pt := []byte(nil), 0
	put := func(parts ...any) { // The value that parts push becomes point pt's x.
		g = append(g, fontgen.Code(append(append([]any{ints{pt}}, parts...), fontgen.SCFS)...)...)
		pt++
	}
	// The graphics state first, before anything sets it.
	g = append(g, fontgen.Code(fontgen.GPV, fontgen.GFV)...)
	for i := 0; i < 4; i++ {
		g = append(g, fontgen.Code(ints{pt}, fontgen.SWAP, fontgen.SCFS)...)
		pt++
	}
	for _, v := range []int{37, 32, 95, -37, 1000} {
		put(ints{v}, fontgen.ROUND)
		put(ints{v}, fontgen.NROUND)
	}
	// Reference points, loop, cut-ins, minimum distance, auto flip, deltas.
	g = append(g, fontgen.Code(
		ints{pt}, fontgen.SHP0, ints{pt + 1}, fontgen.SHP1, ints{pt + 2}, fontgen.MDRP, ints{pt + 3}, fontgen.MDRP|12,
		ints{pt + 4, 0}, fontgen.MIRP|4, ints{pt + 5, 1}, fontgen.MIRP|12, ints{pt + 6, 2}, fontgen.MIRP,
		ints{pt + 7, pt + 8}, fontgen.SHP0, fontgen.POP,
		ints{0x1f, pt + 9, 0x3f, pt + 9, 0x0c, pt + 9, 3}, fontgen.DELTAP1,
	)...)
	pt += 10
	put(ints{0}, fontgen.RS)
	put(ints{1}, fontgen.RS)
	put(ints{0}, fontgen.RCVT)
	put(ints{2}, fontgen.RCVT)
	// The twilight zone.
	for _, k := range []int{0, 3} {
		put(ints{0}, fontgen.SZP2, ints{k}, fontgen.GC0, ints{1}, fontgen.SZP2)
	}
	// The last ones.
	put(ints{m.store - 1}, fontgen.RS)
	put(ints{m.cvt - 1}, fontgen.RCVT)
	if m.twilight > 0 {
		put(ints{0}, fontgen.SZP2, ints{m.twilight - 1}, fontgen.GC0, ints{1}, fontgen.SZP2)
		put(ints{0}, fontgen.SZP2, ints{m.twilight - 1}, fontgen.GC1, ints{1}, fontgen.SZP2)
	}
	// Functions.
	g = append(g, fontgen.Code(ints{fn}, fontgen.CALL)...)
	return g
}

// poisonCode changes everything a program can change.
func poisonCode(k int, m reuseMax) []byte {
	var last []byte
	if m.twilight > 0 {
		last = fontgen.Code(ints{0}, fontgen.SZPS, ints{m.twilight - 1, 0}, fontgen.MIAP0, ints{m.twilight - 1, 700}, fontgen.SCFS)
	}
	return fontgen.Code(
		ints{m.store - 1, 4321}, fontgen.WS, ints{m.cvt - 1, -777}, fontgen.WCVTP, last,
		ints{7, 8, 9}, // Left on the stack.
		ints{0, 100 + k}, fontgen.WS, ints{1, -5 - k}, fontgen.WS, ints{0, 333 + k}, fontgen.WCVTP, ints{2, 99}, fontgen.WCVTF,
		ints{1, 0x2f, 2}, fontgen.DELTAC1, fontgen.CLEAR,
		ints{0}, fontgen.SZPS, ints{0, 500 + k}, fontgen.SCFS, ints{3, 0}, fontgen.MIAP0, ints{2, -64}, fontgen.MSIRP1,
		ints{1}, fontgen.SZPS, fontgen.SVTCA0, ints{0, 1}, fontgen.SPVTL0,
		ints{1, 2}, fontgen.SFVTL0, ints{2}, fontgen.SRP0, ints{3}, fontgen.SRP1, ints{1}, fontgen.SRP2,
		ints{300}, fontgen.SMD, ints{1000}, fontgen.SCVTCI, ints{640}, fontgen.SSWCI, ints{77}, fontgen.SSW,
		ints{10}, fontgen.SDB, ints{1}, fontgen.SDS, fontgen.FLIPOFF, ints{0x48}, fontgen.SROUND,
		ints{0}, fontgen.FLIPPT, ints{1}, fontgen.MDAP1, ints{5}, fontgen.SLOOP, ints{0}, fontgen.SZP0,
	)
}

const (
	gEmpty, gProbe, gPoison, gPoisonFail, gCompound, gCompoundFail, gPlain, gMetrics, gNested, gProbe2 = 0, 1, 2, 3, 4, 5, 6, 7, 8, 9
	nReuse                                                                                             = 10
	// The glyphs from nReuse on need much of some resource, of which the fonts
	// have different amounts.
	nLimit = 7
)

// limitCode is the program of limit glyph k.
func limitCode(k int) []byte {
	c := fontgen.Code
	many := func(n int) (b []byte) {
		for ; n > 0; n -= 100 {
			b = append(b, c(make(ints, 100))...)
		}
		return b
	}
	switch k {
	case 0:
		return many(400)
	case 1:
		return many(600)
	case 2:
		return c(ints{30, 5}, fontgen.WS, ints{0, 30}, fontgen.RS, fontgen.SCFS)
	case 3:
		return c(ints{6, 99}, fontgen.WCVTP, ints{0, 6}, fontgen.RCVT, fontgen.SCFS)
	}
	return c(ints{0}, fontgen.SZP0, ints{15}, fontgen.MDAP1)
}

// reuseFont is the k'th font of the histories.
func reuseFont(k int) *fontgen.Font {
	c := fontgen.Code
	xy := fontgen.ArgsXY
	fn := 0
	gs := make([][]byte, nReuse+nLimit)
	for i := 0; i < nLimit; i++ {
		if n := []int{0, 0, 0, 0, 0, 2500, 4200}[i]; n != 0 {
			// Many components, or too many.
			cs := make([]fontgen.Comp, n)
			for j := range cs {
				cs[j] = fontgen.Comp{Flags: xy, Glyph: gEmpty}
			}
			cs[n-1].Glyph = gPlain
			gs[nReuse+i] = fontgen.Compound([4]int{1, -2, 90, 80}, cs, nil, 0)
			continue
		}
		gs[nReuse+i] = fontgen.Simple([][]fontgen.Pt{ring(3, k)}, fontgen.SimpleOpts{Instr: limitCode(i)})
	}
	gs[gProbe] = fontgen.Simple([][]fontgen.Pt{ring(nProbe+k, k)}, fontgen.SimpleOpts{Instr: probeCode(fn, reuseMaxOf(k))})
	gs[gProbe2] = fontgen.Simple([][]fontgen.Pt{ring(4, k), ring(3, 9)}, fontgen.SimpleOpts{Instr: c(ints{1}, fontgen.CALL, ints{2}, fontgen.MDAP1, fontgen.IUP1)})
	gs[gPoison] = fontgen.Simple([][]fontgen.Pt{ring(5, 1), ring(4, 2)}, fontgen.SimpleOpts{Instr: poisonCode(k, reuseMaxOf(k))})
	gs[gPoisonFail] = fontgen.Simple([][]fontgen.Pt{ring(9, 1)}, fontgen.SimpleOpts{Instr: c(poisonCode(k+5, reuseMaxOf(k)), fontgen.CLEAR, fontgen.POP)})
	box := [4]int{1, -2, 90, 80}
	gs[gCompound] = fontgen.Compound(box, []fontgen.Comp{
		{Flags: xy | fontgen.RoundXY, Glyph: gPlain, DX: 5, DY: 7},
		{Flags: xy, Glyph: gPoison, DX: -3, DY: 20},
	}, c(ints{0, 4}, fontgen.MIRP|4, ints{3}, fontgen.MDAP1, ints{1, 0}, fontgen.RS, fontgen.SCFS, fontgen.IUP1), 0)
	gs[gCompoundFail] = fontgen.Compound(box, []fontgen.Comp{
		{Flags: xy | fontgen.UseMetrics, Glyph: gPlain, DX: 5, DY: 7},
		{Flags: xy, Glyph: 99},
	}, nil, 0)
	gs[gPlain] = fontgen.Simple([][]fontgen.Pt{{{X: 2, Y: 3, On: true}, {X: 40, Y: 5}, {X: 21, Y: 47 + k, On: true}}}, fontgen.SimpleOpts{})
	gs[gMetrics] = fontgen.Compound(box, []fontgen.Comp{{Flags: xy | fontgen.UseMetrics, Glyph: gPlain, DX: 9, DY: 1}}, nil, 0)
	gs[gNested] = fontgen.Compound(box, []fontgen.Comp{
		{Flags: xy, Glyph: gCompound, DX: 2, DY: 1},
		{Flags: xy | fontgen.UseMetrics, Glyph: gProbe, DX: 2, DY: 1},
	}, c(ints{0}, fontgen.MDAP1, ints{1}, fontgen.POP, ints{2, 3}, fontgen.RS, fontgen.SCFS, ints{5}, fontgen.MDRP|12), 0)
	if k == 2 {
		// Compound programs that fail.
		gs[gNested] = fontgen.Compound(box, []fontgen.Comp{{Flags: xy, Glyph: gCompound}}, c(poisonCode(3, reuseMaxOf(k)), fontgen.CLEAR, fontgen.ADD), 0)
	}
	ft := fontgen.New(gs...)
	for i := range ft.HM {
		ft.HM[i] = fontgen.HM{Adv: 41 + 5*i + k, LSB: i - 2 + k}
	}
	ft.UPEM = 64
	ft.Cvt = []int{50 + 10*k, 7, 30, -20}
	ft.MaxStorage, ft.MaxTwilight, ft.MaxStack = 4, 6, 300
	f0 := c(ints{0}, fontgen.FDEF, ints{3 + k}, fontgen.MDAP1, fontgen.ENDF)
	f1 := c(ints{1}, fontgen.FDEF, ints{0, 64 * (k + 1)}, fontgen.SCFS, fontgen.ENDF)
	prep := c(
		ints{0, 0}, fontgen.RS, ints{37 + k}, fontgen.ADD, fontgen.WS, ints{1, 77}, fontgen.WCVTP,
		ints{0}, fontgen.SZPS, ints{0, 0}, fontgen.RCVT, fontgen.SCFS, ints{3}, fontgen.MDAP1, fontgen.RTHG, ints{20 + k}, fontgen.SMD, ints{12}, fontgen.SDB,
	)
	switch k {
	case 0:
		ft.Fpgm, ft.Prep = c(f0, f1, ints{1, 5}, fontgen.WS), prep
	case 1:
		// The second function is missing, there is more storage, and a prep
		// that sets the graphics state differently.
		ft.Fpgm, ft.Prep = f0, c(ints{1, 0}, fontgen.RS, fontgen.WS, fontgen.RDTG, ints{0}, fontgen.SCVTCI, ints{4, -9}, fontgen.WS, fontgen.FLIPOFF)
		ft.MaxStorage, ft.MaxTwilight, ft.MaxStack = 40, 20, 600
		ft.Cvt = []int{1, 2, 3, 4, 5, 6, 7, 8}
	case 2:
		// No programs, less of everything.
		ft.Cvt, ft.MaxStorage, ft.MaxTwilight, ft.MaxStack = []int{9}, 1, 0, 20
	case 3:
		// prep fails for one scale only.
		ft.Fpgm = c(f0, f1)
		ft.Prep = c(prep, fontgen.ROFF, fontgen.MPPEM, ints{1}, fontgen.EQ, fontgen.IF, fontgen.POP, fontgen.EIF)
	case 4:
		// fpgm fails.
		ft.Fpgm, ft.Prep = c(f1, ints{0, 9}, fontgen.WS, f0, fontgen.POP), prep
	case 6:
		// Nothing but more of everything.
		ft.MaxStorage, ft.MaxTwilight, ft.MaxStack = 40, 20, 600
		ft.Cvt = []int{1, 2, 3, 4, 5, 6, 7, 8}
		ft.Fpgm = c(f0, f1)
	case 5:
		// Functions are defined by the prep program.
		ft.Prep = c(f0, prep, fontgen.MPPEM, ints{1}, fontgen.GT, fontgen.IF, f1, fontgen.EIF)
	}
	return ft
}

type loadResult struct {
	ok   bool
	hash uint64
	buf  truetype.GlyphBuf
}

func sameLoad(got *truetype.GlyphBuf, err error, want *loadResult) error {
	if (err == nil) != want.ok {
		return fmt.Errorf("error %v, but with a fresh buffer success is %v", err, want.ok)
	}
	if err != nil {
		return nil
	}
	w := &want.buf
	switch {
	case got.AdvanceWidth != w.AdvanceWidth:
		return fmt.Errorf("advance width %v, %v with a fresh buffer", got.AdvanceWidth, w.AdvanceWidth)
	case got.Bounds != w.Bounds:
		return fmt.Errorf("bounds %v, %v with a fresh buffer", got.Bounds, w.Bounds)
	case !slices.Equal(got.Ends, w.Ends):
		return fmt.Errorf("ends %v, %v with a fresh buffer", got.Ends, w.Ends)
	}
	for i, s := range [3][2][]truetype.Point{{got.Points, w.Points}, {got.Unhinted, w.Unhinted}, {got.InFontUnits, w.InFontUnits}} {
		name := [3]string{"Points", "Unhinted", "InFontUnits"}[i]
		if len(s[0]) != len(s[1]) {
			return fmt.Errorf("%d %s, %d with a fresh buffer", len(s[0]), name, len(s[1]))
		}
		for j := range s[0] {
			if p, q := s[0][j], s[1][j]; p.X != q.X || p.Y != q.Y || (p.Flags^q.Flags)&1 != 0 {
				return fmt.Errorf("%s[%d] is %v, %v with a fresh buffer", name, j, s[0][j], s[1][j])
			}
		}
	}
	return nil
}

// A reuseWorld is a set of fonts and, for each operation, the result with a fresh
// buffer.
type reuseWorld struct {
	fonts []*truetype.Font
	mu    sync.Mutex
	fresh map[loadOp]*loadResult
}

func (w *reuseWorld) want(op loadOp) *loadResult {
	w.mu.Lock()
	defer w.mu.Unlock()
	if r := w.fresh[op]; r != nil {
		return r
	}
	r := &loadResult{}
	err := w.load(&r.buf, op)
	r.ok = err == nil
	h := mc.NewHash()
	hashGlyph(&h, &r.buf, err)
	r.hash = uint64(h)
	w.fresh[op] = r
	return r
}

func (w *reuseWorld) load(g *truetype.GlyphBuf, op loadOp) error {
	return g.Load(w.fonts[op.Font], fixed.Int26_6(op.Scale), truetype.Index(op.Glyph), font.Hinting(op.Hint))
}

// touchGlyph changes the exported fields of g.
func touchGlyph(g *truetype.GlyphBuf, how int) {
	ps := []*[]truetype.Point{&g.Points, &g.Unhinted, &g.InFontUnits}
	switch how {
	case 0, 1: // Moved or flipped.
		for _, p := range ps {
			for i := range *p {
				if how == 0 {
					(*p)[i].Y = -(*p)[i].Y
				} else {
					(*p)[i] = truetype.Point{X: 999, Y: -999, Flags: 0xffffffff}
				}
			}
		}
	case 2:
		for i := range g.Ends {
			g.Ends[i] += 5
		}
		g.Bounds = fixed.Rectangle26_6{Min: fixed.Point26_6{X: 7, Y: 7}}
		g.AdvanceWidth = -5
	case 3:
		g.Points, g.Unhinted, g.InFontUnits, g.Ends = nil, nil, nil, nil
	case 4: // Cut short.
		for _, p := range ps {
			*p = (*p)[:len(*p)/2]
		}
		g.Ends = g.Ends[:len(g.Ends)/2]
	case 5: // Up to the capacity, and changed there.
		for _, p := range ps {
			*p = (*p)[:cap(*p)]
			for i := range *p {
				(*p)[i].X ^= 0x55
				(*p)[i].Flags ^= 0xff
			}
		}
	case 6: // More points and contours.
		for i := 0; i < 40; i++ {
			for _, p := range ps {
				*p = append(*p, truetype.Point{X: 1, Y: fixed.Int26_6(i), Flags: 0xff})
			}
			g.Ends = append(g.Ends, len(g.Points))
		}
	case 7: // Little capacity.
		for _, p := range ps {
			*p = make([]truetype.Point, 1, 2)
		}
		g.Ends = make([]int, 1)
	}
}

func (w *reuseWorld) check(x *mc.X, ops []loadOp) error {
	var g truetype.GlyphBuf
	for i, op := range ops {
		x.Step(1)
		err := w.load(&g, op)
		if i < len(ops)-1 {
			continue // Checked as the last operation of the prefix.
		}
		want := w.want(op)
		if err := sameLoad(&g, err, want); err != nil {
			return err
		}
		x.Outcome(want.hash)
		x.Validated()
	}
	return nil
}

func newReuseWorld(c *mc.Ctx, n int) *reuseWorld {
	w := &reuseWorld{fresh: map[loadOp]*loadResult{}}
	for k := 0; k < n; k++ {
		f, err := parseOK(reuseFont(k).Bytes())
		if err != nil {
			c.Fail("fonts", k, "%v", err)
			return nil
		}
		w.fonts = append(w.fonts, f)
	}
	return w
}

var c11 = &mc.Check{
	ID: "C11",
	Rule: "All histories of loads into one buffer, up to the depth per part, over an alphabet of (font, glyph, scale, hinting) operations: seven fonts with different storage, twilight, stack and control value sizes, " +
		"whose programs define functions, set all state, fail always, or fail at one scale only; glyphs that show all inherited state in their point positions, change all state, fail after changing it, compound glyphs with programs, " +
		"that fail after the first component, or that take over metrics; empty and plain glyphs. Also all histories at the limits of fonts with different limits, and all pairs of 36 loads with 9 changes of the exported fields in between. The last result is compared in all exported fields with a fresh buffer's. " +
		"Also all ordered pairs over samples of the bundled fonts' glyphs.",
	Assumptions: []string{"the exported fields are not compared after a failed load, for which they mean nothing"},
	Run:         runC11,
}

func runC11(c *mc.Ctx) {
	w := newReuseWorld(c, 7)
	if w == nil {
		return
	}
	none, full, vert := int(font.HintingNone), int(font.HintingFull), int(font.HintingVertical)
	// The full alphabet: every font and glyph, hinted at two scales and unhinted at one.
	var all, core []loadOp
	for f := range w.fonts {
		for gl := 0; gl < nReuse; gl++ {
			all = append(all, loadOp{f, gl, 64, full}, loadOp{f, gl, 1000, full}, loadOp{f, gl, 640, none})
		}
		all = append(all, loadOp{f, 99, 64, full}, loadOp{f, gProbe, 64, vert}, loadOp{f, gProbe, 0, full})
		for _, gl := range []int{gProbe, gPoison, gPoisonFail, gNested} {
			core = append(core, loadOp{f, gl, 64, full}, loadOp{f, gl, 1000, full})
		}
		core = append(core, loadOp{f, gCompoundFail, 64, none}, loadOp{f, gEmpty, 64, full}, loadOp{f, gProbe, 64, none})
	}
	// Histories are worth something only if the glyphs load, and show state.
	ok := 0
	for _, op := range all {
		if w.want(op).ok {
			ok++
		}
	}
	c.Extra("operations", len(all))
	c.Extra("operations that succeed with a fresh buffer", ok)
	if ok < len(all)/3 {
		c.Fail("fonts", ok, "only %d of %d operations succeed with a fresh buffer", ok, len(all))
	}
	seqs := func(name string, ops []loadOp, depth int) {
		mc.Explore(c, name, func(yield func([]loadOp) bool) {
			for d := 1; d <= depth; d++ {
				tuples(d, len(ops), func(t []int) bool {
					s := make([]loadOp, d)
					for i, k := range t {
						s[i] = ops[k]
					}
					return yield(s)
				})
			}
		}, w.check)
	}
	seqs(fmt.Sprintf("histories of %d operations, depth 2", len(all)), all, 2)
	seqs(fmt.Sprintf("histories of %d operations, depth 3", len(core)), core, 3)
	small := []loadOp{{0, gProbe, 64, full}, {0, gProbe, 1000, full}, {0, gPoison, 64, full}, {0, gNested, 1000, full}, {0, gPoisonFail, 64, full},
		{1, gProbe, 64, full}, {1, gPoison, 1000, full}, {3, gProbe, 64, full}, {3, gProbe, 1000, full}, {4, gProbe, 64, full}, {5, gProbe2, 1000, full}, {5, gProbe2, 64, full},
		{2, gNested, 64, full}, {6, gProbe, 64, full}, {6, gPoison, 64, full}, {0, gCompoundFail, 64, full}, {0, gProbe, 64, none}}
	seqs(fmt.Sprintf("histories of %d operations, depth %d", len(small), c.N(4, 5)), small, c.N(4, 5))
	if c.Thorough() {
		seqs(fmt.Sprintf("histories of %d operations, depth 3", len(all)), all, 3)
	}
	// Limits that depend on the font.
	var limits []loadOp
	for f := range w.fonts {
		for gl := nReuse; gl < nReuse+nLimit; gl++ {
			limits = append(limits, loadOp{f, gl, 64, full})
		}
	}
	seqs(fmt.Sprintf("histories of %d operations at the limits, depth %d", len(limits), c.N(3, 4)), limits, c.N(3, 4))
	// The caller uses the exported fields between loads.
	var owner []loadOp
	for _, f := range []int{0, 1, 2} {
		for _, gl := range []int{gEmpty, gProbe, gCompound, gPlain, gNested, gMetrics} {
			owner = append(owner, loadOp{f, gl, 64, full}, loadOp{f, gl, 64, none})
		}
	}
	type touched struct {
		A, B loadOp
		How  int
	}
	const nTouch = 9
	mc.Explore(c, "fields changed by the caller", func(yield func(touched) bool) {
		for _, a := range owner {
			for _, b := range owner {
				for how := 0; how < nTouch; how++ {
					if !yield(touched{a, b, how}) {
						return
					}
				}
			}
		}
	}, func(x *mc.X, k touched) error {
		var g truetype.GlyphBuf
		for round := 0; round < 2; round++ {
			w.load(&g, k.A)
			touchGlyph(&g, k.How)
			want := w.want(k.B)
			err := w.load(&g, k.B)
			if err := sameLoad(&g, err, want); err != nil {
				return err
			}
			if k.How == 8 {
				// The slices were taken over: later loads leave those alone.
				keep := g
				g.Points, g.Unhinted, g.InFontUnits, g.Ends = nil, nil, nil, nil
				w.load(&g, k.A)
				if err := sameLoad(&keep, nil, want); want.ok && err != nil {
					return fmt.Errorf("slices that were taken out of the buffer: %v", err)
				}
			}
			touchGlyph(&g, k.How)
		}
		x.Step(4)
		x.Validated()
		return nil
	})
	// Long histories: nothing may add up.
	cycle := []loadOp{{0, gProbe, 64, full}, {0, gPoison, 64, full}, {0, gPoisonFail, 64, full}, {0, gNested, 64, full}, {0, gCompound, 64, none}, {0, gCompoundFail, 64, full}, {0, gMetrics, 64, none}, {0, gMetrics, 1000, full},
		{2, gNested, 64, full}, {4, gProbe, 64, full}, {1, gEmpty, 64, full}}
	type longHist struct {
		Ops []loadOp
		N   int
	}
	mc.Explore(c, "long histories", func(yield func(longHist) bool) {
		for d := 1; d <= 2; d++ {
			if !tuples(d, len(cycle), func(t []int) bool {
				var ops []loadOp
				for _, k := range t {
					ops = append(ops, cycle[k])
				}
				return yield(longHist{ops, c.N(5000, 70000)})
			}) {
				return
			}
		}
	}, func(x *mc.X, k longHist) error {
		var g truetype.GlyphBuf
		for i := 0; i < k.N; i++ {
			for _, op := range k.Ops {
				err := w.load(&g, op)
				if err := sameLoad(&g, err, w.want(op)); err != nil {
					return fmt.Errorf("round %d: %v: %v", i, op, err)
				}
			}
		}
		x.Step(k.N * len(k.Ops))
		x.Validated()
		return nil
	})
	// Sizes that are close to each other, or have bits in common.
	sizes := []int{0, 1, 2, 32, 63, 64, 65, 95, 96, 127, 128, 320, 639, 640, 641, 642, 648, 656, 671, 672, 673, 703, 704, 768, 896, 640 + 256, 640 + 1024, 640 + 4096, 640 + 1<<15, 640 + 1<<16, 640 + 1<<20, -640}
	pairs := func(w *reuseWorld, name string, glyphs [][2]int) {
		mc.Explore(c, name, func(yield func([]loadOp) bool) {
			for f := range w.fonts {
				tuples(2, len(sizes), func(t []int) bool {
					for _, g := range glyphs {
						ok := yield([]loadOp{{f, g[0], sizes[t[0]], full}, {f, g[1], sizes[t[1]], full}}) &&
							yield([]loadOp{{f, g[0], sizes[t[0]], full}, {f, g[1], sizes[t[1]], none}, {f, g[1], sizes[t[1]], full}}) &&
							yield([]loadOp{{f, g[0], sizes[t[0]], none}, {f, g[1], sizes[t[1]], full}})
						if !ok {
							return false
						}
					}
					return true
				})
			}
		}, w.check)
	}
	pairs(w, fmt.Sprintf("all pairs of %d sizes", len(sizes)), [][2]int{{gProbe, gProbe}, {gPoison, gProbe}, {gEmpty, gProbe}, {gProbe, gNested}, {gPoisonFail, gProbe}})

	reals, err := loadRealFonts()
	if err != nil {
		c.Fail("fonts", 0, "%v", err)
		return
	}
	rw := &reuseWorld{fresh: map[loadOp]*loadResult{}}
	var ops []loadOp
	for k, r := range reals {
		f, err := parseOK(r.bytes)
		if err != nil {
			c.Fail("fonts", r.name, "%v", err)
			return
		}
		rw.fonts = append(rw.fonts, f)
		n := len(r.ttx.Glyphs)
		step := max(1, n/c.N(8, 24))
		for gl := 0; gl < n; gl += step {
			ops = append(ops, loadOp{k, gl, 640, full}, loadOp{k, gl, 1216, full})
			if gl%3 == 0 {
				ops = append(ops, loadOp{k, gl, 640, none})
			}
		}
	}
	mc.Explore(c, fmt.Sprintf("bundled fonts: ordered pairs of %d operations", len(ops)), func(yield func([]loadOp) bool) {
		tuples(2, len(ops), func(t []int) bool { return yield([]loadOp{ops[t[0]], ops[t[1]]}) })
	}, rw.check)
	pairs(rw, fmt.Sprintf("bundled fonts: all pairs of %d sizes", len(sizes)), [][2]int{{36, 36}, {36, 70}})
	// One buffer for all glyphs of a font, in both orders, at two scales.
	type run struct {
		Font, Step, Scale int
	}
	mc.Explore(c, "bundled fonts: all glyphs through one buffer", func(yield func(run) bool) {
		for k := range reals {
			for _, s := range []int{640, 800} {
				for _, st := range []int{1, -1, 7} {
					if !yield(run{k, st, s}) {
						return
					}
				}
			}
		}
	}, func(x *mc.X, r run) error {
		var g truetype.GlyphBuf
		n := len(reals[r.Font].ttx.Glyphs)
		for j := 0; j < n; j++ {
			gl := j
			switch r.Step {
			case -1:
				gl = n - 1 - j
			case 7:
				gl = j * 7 % n
			}
			x.Step(1)
			var fresh loadResult
			op := loadOp{r.Font, gl, r.Scale, full}
			err := rw.load(&fresh.buf, op)
			fresh.ok = err == nil
			err = rw.load(&g, op)
			if err := sameLoad(&g, err, &fresh); err != nil {
				return fmt.Errorf("glyph %d: %v", gl, err)
			}
			x.Validated()
		}
		return nil
	})
}
