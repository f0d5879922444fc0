package checks

import (
	"bytes"
	"fmt"
	"math/bits"
	"slices"
	"sort"
	"sync/atomic"

	"verif/internal/fontgen"
	"verif/internal/mc"
	"verif/internal/refhint"

	"github.com/golang/freetype/truetype"
	"golang.org/x/image/font"
	"golang.org/x/image/math/fixed"
)

// A hintBatch is a font with some programs, and several glyph programs, each of
// which is run on its own copy of an outline.
type hintBatch struct {
	Fpgm, Prep []byte
	Cvt        []int
	UPEM       int
	Scales     []int
	Outline    [][]fontgen.Pt // The standard outline if nil.
	Codes      [][]byte
	VMtx, OS2  []int // Height and top bearing of each glyph; ascender and descender.
	Store      int   // Of storage, if it is not hintStore.
	Stack      int   // The stack's depth, if it is not 200.
	Twilight   int   // Of twilight points, if it is not hintTwilight.
}

// The outline that programs are run on: two contours of 7 and 5 points, and one of
// eight points that serve to show values.
var hintOutline = [][]fontgen.Pt{
	{{X: 0, Y: 0, On: true}, {X: 11, Y: 3, On: false}, {X: 41, Y: -7, On: true}, {X: 59, Y: 12, On: true}, {X: 47, Y: 33, On: false}, {X: 30, Y: 61, On: true}, {X: 4, Y: 61, On: true}},
	{{X: 15, Y: 14, On: true}, {X: 15, Y: 40, On: true}, {X: 28, Y: 44, On: false}, {X: 37, Y: 25, On: true}, {X: 33, Y: 14, On: true}},
	{{X: -9, Y: 1, On: true}, {X: -8, Y: 9, On: true}, {X: -7, Y: 2, On: true}, {X: -6, Y: 8, On: true}, {X: -5, Y: 3, On: true}, {X: -4, Y: 7, On: true}, {X: -3, Y: 4, On: true}, {X: -2, Y: 6, On: true}},
}

const (
	showPt   = 12 // The first of the eight points that show values.
	phantom0 = 20 // The first phantom point.

	fnShow, fnMark, fnTwice, fnMove, fnBump = 50, 51, 52, 53, 54
	stBig, stMark, stMax, stMin             = 0, 1, 2, 3
	hintStore, hintTwilight                 = 12, 6
)

var hintCvt = []int{10, -20, 33, 64, 0, 25}

// hintFpgm defines functions. fnShow (v p --) moves the x of point p to the high and
// its y to the low part of v; fnMark (k --) folds k into a storage location.
var hintFpgm = fontgen.Code(
	ints{fnShow}, fontgen.FDEF,
	fontgen.DUP, fontgen.ROLL,
	fontgen.DUP, ints{stBig}, fontgen.RS, fontgen.DIV,
	fontgen.DUP, ints{stBig}, fontgen.RS, fontgen.MUL,
	fontgen.ROLL, fontgen.SWAP, fontgen.SUB,
	fontgen.ROLL, fontgen.SWAP,
	fontgen.SVTCA0, fontgen.SCFS, fontgen.SVTCA1, fontgen.SCFS,
	fontgen.ENDF,
	ints{fnMark}, fontgen.FDEF,
	ints{stMark}, fontgen.SWAP, ints{stMark}, fontgen.RS, fontgen.DUP, fontgen.ADD, fontgen.DUP, fontgen.ADD, fontgen.ADD, fontgen.WS,
	fontgen.ENDF,
	ints{fnTwice}, fontgen.FDEF, fontgen.DUP, fontgen.ADD, fontgen.ENDF,
	ints{fnBump}, fontgen.FDEF, ints{3}, fontgen.ADD, fontgen.ENDF,
	ints{fnMove}, fontgen.FDEF, ints{3}, fontgen.MDAP1, fontgen.ENDF,
)

// hintPrep fills the storage and the twilight zone.
var hintPrep = fontgen.Code(
	ints{stBig}, ints{16384, 8, fnTwice}, fontgen.LOOPCALL, fontgen.WS, // 1<<22
	ints{stMin}, ints{16384, 17, fnTwice}, fontgen.LOOPCALL, fontgen.WS, // -1<<31
	ints{stMax}, ints{stMin}, fontgen.RS, ints{1}, fontgen.SUB, fontgen.WS,
	ints{0}, fontgen.SZPS,
	fontgen.SVTCA1, ints{0, 100}, fontgen.SCFS, ints{1, -30}, fontgen.SCFS, ints{2, 500}, fontgen.SCFS,
	fontgen.SVTCA0, ints{0, 70}, fontgen.SCFS, ints{1, 333}, fontgen.SCFS, ints{3, -128}, fontgen.SCFS,
	// Move two of them away from their original places.
	ints{2}, fontgen.MDAP1, ints{0}, fontgen.MDAP1,
)

// The values below the operands of each program.
var sentinels = ints{5, 3, 9, 7}

// showStack shows the four values on top of the stack, and its depth.
var showStack = func() []byte {
	g := fontgen.Code(fontgen.SVTCA1, ints{1}, fontgen.SZPS, fontgen.DEPTH, ints{showPt, fnShow}, fontgen.CALL)
	for i := 1; i <= 4; i++ {
		g = append(g, fontgen.Code(ints{showPt + i, fnShow}, fontgen.CALL)...)
	}
	return g
}()

// showState shows the graphics state as far as instructions tell it: vectors, the
// round state, reference points, zone pointers.
var showState = fontgen.Code(
	// The loop, by moving one or more of four points.
	ints{7, 11, 18, 19}, ints{40}, fontgen.SHPIX,
	// Vectors and rounding.
	fontgen.GPV, fontgen.GFV, ints{107}, fontgen.ROUND, ints{-45}, fontgen.ROUND,
	// Put the coordinates of the points at rp0, rp1 and rp2, in their zones, on the stack.
	fontgen.SVTCA1,
	ints{5}, fontgen.MDRP, ints{6}, fontgen.MDRP|0x0c, ints{8, 2}, fontgen.MIRP|0x0c, ints{9, 1}, fontgen.MIRP|0x04,
	ints{0x36, 10, 0x46, 10, 0x26, 10, 0x56, 10, 4}, fontgen.DELTAP1,
	ints{1}, fontgen.SZPS,
	ints{12, fnShow}, fontgen.CALL, ints{13, fnShow}, fontgen.CALL, ints{14, fnShow}, fontgen.CALL,
	ints{15, fnShow}, fontgen.CALL, ints{16, fnShow}, fontgen.CALL, ints{17, fnShow}, fontgen.CALL,
)

// showStore shows storage, control values and twilight points.
var showStore = func() []byte {
	g := fontgen.Code(fontgen.SVTCA1, ints{1}, fontgen.SZPS)
	p := showPt
	for i, c := range [][]byte{
		fontgen.Code(ints{stMark}, fontgen.RS), fontgen.Code(ints{5}, fontgen.RS), fontgen.Code(ints{0}, fontgen.RCVT), fontgen.Code(ints{5}, fontgen.RCVT),
		fontgen.Code(ints{0}, fontgen.SZP2, ints{0}, fontgen.GC0, ints{1}, fontgen.SZP2), fontgen.Code(ints{0}, fontgen.SZP2, ints{2}, fontgen.GC1, ints{1}, fontgen.SZP2),
		fontgen.Code(ints{0}, fontgen.SZP2, fontgen.SVTCA0, ints{1}, fontgen.GC0, ints{1}, fontgen.SZP2), fontgen.Code(ints{stMax}, fontgen.RS),
	} {
		g = append(g, fontgen.Code(c, ints{p + i, fnShow}, fontgen.CALL)...)
	}
	return g
}()

type hintCounts struct {
	same, open, bad atomic.Int64
	seen            [256]atomic.Int64
}

// run checks all glyphs of a batch at all scales.
func (n *hintCounts) run(x *mc.X, b hintBatch) error {
	outline := b.Outline
	if outline == nil {
		outline = hintOutline
	}
	upem := b.UPEM
	if upem == 0 {
		upem = 100
	}
	cvt := b.Cvt
	if cvt == nil {
		cvt = hintCvt
	}
	ft := scratchFont(x)
	ft.UPEM, ft.Cvt, ft.Fpgm, ft.Prep = upem, cvt, b.Fpgm, b.Prep
	ft.MaxStorage, ft.MaxTwilight, ft.MaxStack = hintStore, hintTwilight, 250
	ft.Glyphs = ft.Glyphs[:0]
	ft.HM = ft.HM[:0]
	box := fontgen.BBoxOf(outline)
	ft.VMtx, ft.OS2, ft.LocaLong = nil, nil, b.Outline != nil
	var vm *[2]int
	if b.OS2 != nil {
		ft.OS2 = fontgen.OS2(78, b.OS2[0], b.OS2[1])
		vm = &[2]int{b.OS2[0] - b.OS2[1], b.OS2[0] - box[3]}
	}
	if b.VMtx != nil {
		vm = &[2]int{b.VMtx[0], b.VMtx[1]}
	}
	store := hintStore
	if b.Store > 0 {
		store = b.Store
		ft.MaxStorage = store
	}
	stack, twilight := 200, hintTwilight
	if b.Stack > 0 {
		stack = b.Stack
		ft.MaxStack = stack
	}
	if b.Twilight > 0 {
		twilight = b.Twilight
		ft.MaxTwilight = twilight
	}
	adv, lsb := 77, box[0]+2
	gs := make([]refhint.Glyph, len(b.Codes))
	for i, c := range b.Codes {
		ft.Glyphs = append(ft.Glyphs, fontgen.Simple(outline, fontgen.SimpleOpts{Instr: c}))
		ft.HM = append(ft.HM, fontgen.HM{Adv: adv, LSB: lsb})
		if b.VMtx != nil {
			ft.VMtx = append(ft.VMtx, fontgen.UTF16(b.VMtx...)...)
		}
		gs[i] = refhint.Glyph{Contours: outline, BBox: box, Adv: adv, LSB: lsb, Program: c, V: vm}
	}
	ft.NHMetric = 0
	f, err := parseOK(ft.Bytes())
	if err != nil {
		return err
	}
	var g truetype.GlyphBuf
	for _, s := range b.Scales {
		m, err := refhint.NewMachine(b.Fpgm, b.Prep, cvt, s, upem, stack, store, twilight+4)
		if err != nil {
			if len(b.Codes) > 1 {
				return fmt.Errorf("harness: the font's programs: %v", err)
			}
			n.count(err)
			// What is wrong with the font's programs is reported for each glyph.
			for k := 0; err == refhint.ErrWrong && k < 2; k++ {
				if g.Load(f, fixed.Int26_6(s), 0, font.HintingFull) == nil {
					return fmt.Errorf("scale %d, programs %x and %x of the font: no error", s, b.Fpgm, b.Prep)
				}
			}
			x.Validated()
			continue
		}
		for i := range b.Codes {
			want, werr := m.Load(gs, i)
			err := g.Load(f, fixed.Int26_6(s), truetype.Index(i), font.HintingFull)
			if werr == refhint.ErrWrong && err == nil {
				return fmt.Errorf("scale %d, program %d (%x): no error", s, i, b.Codes[i])
			}
			if werr != nil {
				n.count(werr)
				continue
			}
			if err != nil {
				return fmt.Errorf("scale %d, program %d (%x): %v", s, i, b.Codes[i], err)
			}
			if err := sameHinted(&g, &want); err != nil {
				return fmt.Errorf("scale %d, program %d (%x): %v", s, i, b.Codes[i], err)
			}
			n.same.Add(1)
			x.Validated()
			x.Outcome(outlineHash(&g))
		}
		x.Step(m.Steps)
		for op, k := range m.Seen {
			if k > 0 {
				n.seen[op].Add(int64(k))
			}
		}
	}
	return nil
}

func (n *hintCounts) count(err error) {
	if err == refhint.ErrOpen {
		n.open.Add(1)
	} else {
		n.bad.Add(1)
	}
}

func sameHinted(g *truetype.GlyphBuf, want *refhint.Result) error {
	if len(g.Points) != len(want.Pts) || !slices.Equal(g.Ends, want.Ends) {
		return fmt.Errorf("%d points, ends %v; want %d points, ends %v", len(g.Points), g.Ends, len(want.Pts), want.Ends)
	}
	lo, hi := [2]int64{1 << 40, 1 << 40}, [2]int64{-1 << 40, -1 << 40}
	for i, p := range g.Points {
		w := want.Pts[i]
		if int64(p.X) != w.X || int64(p.Y) != w.Y {
			return fmt.Errorf("point %d is (%d, %d), want (%d, %d)", i, p.X, p.Y, w.X, w.Y)
		}
		if (p.Flags&1 != 0) != want.On[i] {
			return fmt.Errorf("point %d: on-curve is %v, want %v", i, p.Flags&1 != 0, want.On[i])
		}
		lo[0], lo[1], hi[0], hi[1] = min(lo[0], w.X), min(lo[1], w.Y), max(hi[0], w.X), max(hi[1], w.Y)
	}
	if int64(g.AdvanceWidth) != want.Adv {
		return fmt.Errorf("advance width is %d, want %d", g.AdvanceWidth, want.Adv)
	}
	if len(g.Points) == 0 || lo[0] < -1<<30 || lo[1] < -1<<30 || hi[0] > 1<<30 || hi[1] > 1<<30 {
		return nil
	}
	b := g.Bounds
	for k := range lo {
		lo[k] &^= 63
		hi[k] = (hi[k] + 63) &^ 63
	}
	if int64(b.Min.X) != lo[0] || int64(b.Min.Y) != lo[1] || int64(b.Max.X) != hi[0] || int64(b.Max.Y) != hi[1] {
		return fmt.Errorf("bounds are %v, want %v-%v", b, lo, hi)
	}
	return nil
}

var c10 = &mc.Check{
	ID: "C10",
	Rule: "All programs of the parts, run as glyph programs of generated fonts with a font program and a control value program, and compared (every point, flag, advance, bounds) with a reference interpreter of the TrueType manual: " +
		"each stack, arithmetic and logic instruction on all operand tuples from a boundary set up to the 32-bit limits; each round state (all 256 SROUND and S45ROUND selectors) on a range of values; vector instructions on a grid and all point pairs; " +
		"each point-moving instruction (all 32 variants of MDRP and MIRP) under all combinations of vectors, zones, reference points, rounding and cut-in settings of the part; phantom points in fonts with and without vertical metrics; large numbers of points, contours, functions, storage, twilight points, stack entries, loops and jumps; DELTA with all arguments, bases and shifts; IUP on all small contours; " +
		"all token sequences of control flow to a depth, as glyph program, function body, loop body, in an IF and as control value program; all sequences to a depth of instruction words; all programs of one and two bytes, with an empty and two filled stacks; the effect of each state-setting instruction in the control value program; " +
		"compound programs, also ones that no component announces; 7 programs on glyphs of up to 65536 points; coordinates at and next to multiples of powers of two, along ten vectors; and every glyph of the bundled fonts at many sizes.",
	Assumptions: []string{
		"programs whose meaning the manual leaves open, or which are in error, are executed but not compared (counts are in the evidence)",
		"domain limits (DESIGN.md): IP with an empty range, fractional ppem, MIRP and MSIRP with a twilight zp1, SHC with a twilight zp2, inexact twilight MIAP",
	},
	Run: runC10,
}

// batcher collects programs and yields them in batches.
type batcher struct {
	b     hintBatch
	size  int
	yield func(hintBatch) bool
	done  bool
}

func newBatcher(b hintBatch, yield func(hintBatch) bool) *batcher {
	if b.Fpgm == nil {
		b.Fpgm = hintFpgm
	}
	if b.Prep == nil {
		b.Prep = hintPrep
	}
	if b.Scales == nil {
		b.Scales = []int{12 * 64}
	}
	return &batcher{b: b, size: 64, yield: yield}
}

// add adds a program and reports whether to go on.
func (q *batcher) add(parts ...any) bool {
	if q.done {
		return false
	}
	q.b.Codes = append(q.b.Codes, fontgen.Code(parts...))
	if len(q.b.Codes) >= q.size {
		q.flush()
	}
	return !q.done
}

func (q *batcher) flush() {
	if len(q.b.Codes) > 0 && !q.done {
		q.done = !q.yield(q.b)
		q.b.Codes = nil
	}
}

// num is code that pushes any 32-bit value (some large ones from the storage).
func num(v int) []byte {
	switch {
	case -32768 <= v && v <= 32767:
		return fontgen.Push(v)
	case v == 1<<31-1:
		return fontgen.Code(ints{stMax}, fontgen.RS)
	case v == -1<<31:
		return fontgen.Code(ints{stMin}, fontgen.RS)
	case v == 1<<22:
		return fontgen.Code(ints{stBig}, fontgen.RS)
	case v == -1<<22:
		return fontgen.Code(ints{stBig}, fontgen.RS, fontgen.NEG)
	case v < -32768:
		return fontgen.Code(num(v+30000), ints{30000}, fontgen.SUB)
	default:
		return fontgen.Code(num(v-30000), ints{30000}, fontgen.ADD)
	}
}

var hintVectors = [][]byte{
	{fontgen.SVTCA1},
	{fontgen.SVTCA0},
	{fontgen.SPVTCA1, fontgen.SFVTCA0}, // At right angles.
	fontgen.Code(ints{0x2d41, 0x2d41}, fontgen.SPVFS, fontgen.SFVTCA1),
	fontgen.Code(fontgen.SPVTCA0, ints{3, -4}, fontgen.SFVFS),
	fontgen.Code(ints{-0x4000, 0}, fontgen.SPVFS, fontgen.SFVTPV),
	fontgen.Code(ints{2, 3}, fontgen.SDPVTL1, fontgen.SFVTPV),
	fontgen.Code(ints{5, 0}, fontgen.SPVTL0, ints{4, 3}, fontgen.SFVTL1),
	fontgen.Code(ints{16, 1}, fontgen.SFVFS),                          // Nearly along x.
	fontgen.Code(fontgen.SPVTCA0, ints{0x4000, 0x380}, fontgen.SFVFS), // Nearly at right angles.
}

var hintRounds = [][]byte{
	{}, {fontgen.RTHG}, {fontgen.RTDG}, {fontgen.RDTG}, {fontgen.RUTG}, {fontgen.ROFF},
	fontgen.Code(ints{0x88 | 0x10}, fontgen.SROUND), fontgen.Code(ints{0x3f}, fontgen.SROUND), {fontgen.ROFF, fontgen.RTG},
}

// Some points away from their original places, one of them touched.
var hintDisturb = fontgen.Code(
	fontgen.SVTCA1, ints{2, 3, 37}, fontgen.SHPIX, ints{7, -50}, fontgen.SHPIX, fontgen.POP, ints{10}, fontgen.MDAP1, fontgen.SVTCA0, ints{3}, fontgen.MDAP1, ints{8, 21}, fontgen.SHPIX, ints{0, 9}, fontgen.SHPIX, fontgen.SVTCA1,
)

func zones(k int) []byte {
	return fontgen.Code(ints{k & 1}, fontgen.SZP0, ints{k >> 1 & 1}, fontgen.SZP1, ints{k >> 2 & 1}, fontgen.SZP2)
}

func refs(r [3]int) []byte {
	return fontgen.Code(ints{r[0]}, fontgen.SRP0, ints{r[1]}, fontgen.SRP1, ints{r[2]}, fontgen.SRP2)
}

func runC10(c *mc.Ctx) {
	n := &hintCounts{}
	part := func(name string, gen func(yield func(hintBatch) bool)) {
		mc.Explore(c, name, gen, n.run)
	}

	part("stack, arithmetic and logic", func(yield func(hintBatch) bool) {
		q := newBatcher(hintBatch{}, yield)
		small := ints{0, 1, -1, 2, 31, 32, 33, 63, 64, 65, -31, -32, -33, -63, -64, -65, 100, 127, 128, 255, 4096, 32767, -32768}
		big := append(slices.Clone(small), 65535, 65536, -65536, 1<<22, -1<<22, 1<<31-1, -1<<31)
		one := ints{fontgen.DUP, fontgen.POP, fontgen.ABS, fontgen.NEG, fontgen.FLOOR, fontgen.CEILING, fontgen.ROUND, fontgen.ROUND + 1, fontgen.ROUND + 2, fontgen.ROUND + 3,
			fontgen.NROUND, fontgen.NROUND + 1, fontgen.NROUND + 2, fontgen.NROUND + 3, fontgen.NOT, fontgen.ODD, fontgen.EVEN, fontgen.GETINFO, fontgen.SANGW, fontgen.AA, fontgen.SCANCTRL, fontgen.SCANTYPE}
		two := ints{fontgen.ADD, fontgen.SUB, fontgen.MUL, fontgen.DIV, fontgen.MAX, fontgen.MIN, fontgen.LT, fontgen.LTEQ, fontgen.GT, fontgen.GTEQ, fontgen.EQ, fontgen.NEQ,
			fontgen.AND, fontgen.OR, fontgen.SWAP, fontgen.INSTCTRL}
		for _, op := range one {
			for _, a := range big {
				q.add(sentinels, num(a), op, showStack)
			}
		}
		for _, op := range two {
			for _, a := range big {
				for _, b := range big {
					q.add(sentinels, num(a), num(b), op, showStack)
				}
			}
		}
		for _, op := range []int{fontgen.CLEAR, fontgen.DEPTH, fontgen.MPPEM, fontgen.MPS, fontgen.ROLL} {
			for d := 0; d <= 6; d++ {
				var vs ints
				for k := 0; k < d; k++ {
					vs = append(vs, 11+7*k)
				}
				// The sentinels come last if the stack is to be cleared.
				q.add(sentinels, vs, op, showStack)
				q.add(vs, op, sentinels, showStack)
			}
		}
		for _, op := range []int{fontgen.CINDEX, fontgen.MINDEX} {
			for d := 1; d <= 7; d++ {
				for k := -1; k <= d+5; k++ {
					var vs ints
					for j := 0; j < d; j++ {
						vs = append(vs, 100+j)
					}
					q.add(sentinels, vs, ints{k}, op, showStack)
				}
			}
		}
		// Three values through two stack instructions.
		stackOps := ints{fontgen.SWAP, fontgen.ROLL, fontgen.DUP, fontgen.POP, fontgen.DEPTH, fontgen.ADD, fontgen.SUB, fontgen.MAX, fontgen.NEG}
		tuples(4, len(stackOps), func(t []int) bool {
			return q.add(sentinels, ints{21, 22, 23}, stackOps[t[0]], stackOps[t[1]], stackOps[t[2]], stackOps[t[3]], showStack)
		})
		// The push instructions.
		for op := 0; op < 2; op++ {
			for k := 0; k <= 9; k++ {
				var body, npush []byte
				npush = []byte{byte(fontgen.NPUSHB + op), byte(k)}
				for j := 0; j < k; j++ {
					if op == 1 {
						body = append(body, byte(0x90-j*17))
					}
					body = append(body, byte(250-j*31))
				}
				q.add(sentinels, npush, body, showStack)
				if k >= 1 && k <= 8 {
					q.add(sentinels, fontgen.PUSHB+8*op+k-1, body, showStack)
				}
			}
		}
		for v := -32768; v <= 32767; v += 257 {
			q.add(sentinels, ints{v, v}, showStack)
		}
		// Storage and control values.
		for i := 0; i < hintStore; i++ {
			for _, v := range big {
				q.add(sentinels, ints{i}, num(v), fontgen.WS, ints{1}, fontgen.RS, ints{i}, fontgen.RS, ints{(i + 1) % hintStore}, fontgen.RS, showStack[len(fontgen.Code(fontgen.SVTCA1)):])
			}
		}
		for i := range hintCvt {
			for _, v := range small {
				for _, op := range []int{fontgen.WCVTP, fontgen.WCVTF} {
					q.add(sentinels, ints{i, v}, op, ints{i}, fontgen.RCVT, ints{(i + 1) % len(hintCvt)}, fontgen.RCVT, ints{(i + 5) % len(hintCvt)}, fontgen.RCVT, showStack)
				}
			}
		}
		q.flush()
	})

	part("rounding", func(yield func(hintBatch) bool) {
		q := newBatcher(hintBatch{}, yield)
		states := slices.Clone(hintRounds)
		for v := 0; v < 256; v++ {
			states = append(states, fontgen.Code(ints{v}, fontgen.SROUND))
		}
		for i, s := range states {
			step := 1
			if i >= len(hintRounds) {
				step = c.N(5, 1)
			}
			for v := -200; v <= 200; v += 4 * step {
				q.add(sentinels, s, ints{v}, fontgen.ROUND, ints{v + step}, fontgen.ROUND, ints{v + 2*step}, fontgen.ROUND, ints{v + 3*step}, fontgen.ROUND, showStack)
			}
			for v := -150; v <= 150; v += 10 {
				q.add(sentinels, s, ints{v}, fontgen.ODD, ints{v}, fontgen.EVEN, ints{3, v}, fontgen.SCFS, ints{3}, fontgen.MDAP1, showStack)
			}
		}
		q.flush()
	})

	part("vectors", func(yield func(hintBatch) bool) {
		q := newBatcher(hintBatch{}, yield)
		show := fontgen.Code(fontgen.GPV, fontgen.GFV, ints{5}, fontgen.MDAP1, ints{6}, fontgen.MDRP, showStack)
		vals := ints{0, 1, -1, 2, 3, 100, -100, 5000, 0x2d41, 0x3fff, 0x4000, -0x4000, 0x7fff, -0x8000}
		for _, x := range vals {
			for _, y := range vals {
				q.add(sentinels, ints{x, y}, fontgen.SPVFS, show)
				q.add(sentinels, ints{x, y}, fontgen.SFVFS, show)
				q.add(sentinels, ints{x, y}, fontgen.SPVFS, fontgen.SFVTPV, show)
			}
		}
		for op := 0; op <= 5; op++ {
			q.add(sentinels, ints{3, 4}, fontgen.SPVFS, ints{12, -5}, fontgen.SFVFS, op, show)
		}
		for _, op := range []int{fontgen.SPVTL0, fontgen.SPVTL1, fontgen.SFVTL0, fontgen.SFVTL1, fontgen.SDPVTL0, fontgen.SDPVTL1} {
			for a := 0; a < phantom0+4; a++ {
				for b := 0; b < phantom0+4; b++ {
					q.add(sentinels, hintDisturb, ints{a, b}, op, show)
				}
			}
			for z := 0; z < 8; z++ {
				for a := 0; a < 4; a++ {
					for b := 0; b < 4; b++ {
						q.add(sentinels, hintDisturb, zones(z), ints{a, b}, op, ints{1}, fontgen.SZPS, show)
					}
				}
			}
		}
		q.flush()
	})

	moveScales := []int{12 * 64, 17*64 + 21}
	moving := func(name string, gen func(q *batcher)) {
		part(name, func(yield func(hintBatch) bool) {
			q := newBatcher(hintBatch{Scales: moveScales}, yield)
			gen(q)
			q.flush()
		})
	}
	refSets := [][3]int{{0, 0, 0}, {3, 2, 7}, {1, 0, 2}, {2, 3, 1}}
	end := fontgen.Code(ints{1}, fontgen.SZPS, showStore)
	moving("points moved by absolute and indirect instructions", func(q *batcher) {
		for _, vec := range hintVectors {
			for z := 0; z < 8; z++ {
				for _, p := range []int{0, 1, 2, 3, 5, phantom0, phantom0 + 1} {
					pre := fontgen.Code(sentinels, hintDisturb, vec, zones(z))
					for _, rd := range hintRounds {
						q.add(pre, rd, ints{p}, fontgen.MDAP1, end)
						for k := range hintCvt {
							q.add(pre, rd, ints{p, k}, fontgen.MIAP1, end)
						}
					}
					q.add(pre, ints{p}, fontgen.MDAP0, end)
					q.add(pre, ints{p, 2}, fontgen.MIAP0, end)
					q.add(pre, ints{p}, fontgen.UTP, fontgen.SVTCA1, fontgen.IUP0, fontgen.IUP1, end)
					q.add(pre, ints{p}, fontgen.GC0, ints{p}, fontgen.GC1, showStack)
					for _, v := range []int{0, 1, -77, 640} {
						q.add(pre, ints{p, v}, fontgen.SCFS, end)
						q.add(pre, ints{p, v}, fontgen.SHPIX, end)
						q.add(pre, ints{1, p, 2, v, 3}, fontgen.SLOOP, fontgen.SHPIX, end)
					}
					for _, r := range refSets {
						q.add(pre, refs(r), ints{p, -30}, fontgen.MSIRP0, end)
						q.add(pre, refs(r), ints{p, 100}, fontgen.MSIRP1, ints{2}, fontgen.ALIGNRP, end)
						for _, op := range []int{fontgen.SHP0, fontgen.SHP1, fontgen.ALIGNRP, fontgen.IP} {
							q.add(pre, refs(r), ints{p}, op, end)
							q.add(pre, refs(r), ints{2, p, 1}, ints{3}, fontgen.SLOOP, op, end)
						}
						for _, op := range []int{fontgen.SHZ0, fontgen.SHZ1, fontgen.SHC0, fontgen.SHC1} {
							q.add(pre, refs(r), ints{p & 3}, op, end)
						}
						for _, k := range []int{0, 2, 3} {
							q.add(pre, ints{p, k}, fontgen.MD0, ints{p, k}, fontgen.MD1, showStack)
							q.add(pre, ints{p, k}, fontgen.ALIGNPTS, end)
						}
					}
				}
			}
		}
	})
	moving("reference points out of range", func(q *batcher) {
		for _, vec := range hintVectors[:3] {
			for z := 0; z < 8; z++ {
				pre := fontgen.Code(sentinels, hintDisturb, vec, zones(z))
				for _, bad := range []int{7, 8, 9, phantom0 + 3, phantom0 + 4, 99, -1, -32768, 32767} {
					for k := 0; k < 3; k++ {
						r := [3]int{1, 2, 3}
						r[k] = bad
						for _, op := range []int{fontgen.SHP0, fontgen.SHP1, fontgen.ALIGNRP, fontgen.IP, fontgen.MDRP, fontgen.MDRP | 0x1c, fontgen.SHC0, fontgen.SHC1, fontgen.SHZ0, fontgen.SHZ1} {
							q.add(pre, refs(r), ints{0}, op, end)
						}
						for _, op := range []int{fontgen.SHPIX, fontgen.MSIRP0, fontgen.MSIRP1, fontgen.MIRP, fontgen.MIRP | 0x1c} {
							q.add(pre, refs(r), ints{0, 1}, op, end)
						}
					}
					for _, op := range []int{fontgen.MDAP0, fontgen.MDAP1, fontgen.UTP, fontgen.GC0, fontgen.GC1, fontgen.FLIPPT, fontgen.SHP0, fontgen.ALIGNRP, fontgen.IP, fontgen.MDRP, fontgen.SHC0, fontgen.SHC1, fontgen.SHZ0} {
						q.add(pre, ints{bad}, op, end)
					}
					for _, op := range []int{fontgen.SCFS, fontgen.SHPIX, fontgen.MIAP0, fontgen.MIAP1, fontgen.MSIRP0, fontgen.MIRP, fontgen.MD0, fontgen.MD1, fontgen.ALIGNPTS, fontgen.SPVTL0, fontgen.SFVTL1, fontgen.SDPVTL0, fontgen.SDPVTL1, fontgen.FLIPRGON, fontgen.FLIPRGOFF} {
						q.add(pre, ints{bad, 1}, op, end)
						q.add(pre, ints{1, bad}, op, end)
					}
					for i := 0; i < 5; i++ {
						v := ints{1, 0, 1, 2, 3}
						v[i] = bad
						q.add(pre, v, fontgen.ISECT, end)
					}
				}
			}
		}
	})
	part("short programs", func(yield func(hintBatch) bool) {
		q := newBatcher(hintBatch{Scales: []int{12 * 64, 17*64 + 21}}, yield)
		q.size = 256
		for a := 0; a < 256; a++ {
			q.add([]byte{byte(a)})
		}
		for a := 0; a < 256; a++ {
			for b := 0; b < 256; b++ {
				q.add([]byte{byte(a), byte(b)})
			}
		}
		q.flush()
		q.b.Scales = q.b.Scales[:1]
		for _, st := range []ints{{2, 1, 3, 0, 1}, {70, -64, 5, 2, 2}} {
			for a := 0; a < 256; a++ {
				for b := 0; b < 256; b++ {
					q.add(st, []byte{byte(a), byte(b)}, showStore)
				}
			}
			q.flush()
		}
	})
	part("phantom points", func(yield func(hintBatch) bool) {
		type vert struct{ vmtx, os2 []int }
		for _, v := range []vert{{}, {nil, ints{80, -20}}, {nil, ints{33, 7}}, {nil, ints{-5, -90}}, {ints{100, 10}, nil}, {ints{93, -17}, ints{50, -50}}, {ints{0, 0}, nil}, {ints{1, 77}, ints{80, -20}}} {
			q := newBatcher(hintBatch{Scales: []int{640, 12 * 64, 17*64 + 21, 99}, VMtx: v.vmtx, OS2: v.os2}, yield)
			for _, vec := range hintVectors {
				pre := fontgen.Code(sentinels, vec)
				for k := 0; k < 4; k++ {
					p := phantom0 + k
					q.add(pre, ints{p}, fontgen.GC0, ints{p}, fontgen.GC1, showStack)
					for j := 0; j < phantom0+4; j++ {
						q.add(pre, ints{p, j}, fontgen.MD0, ints{p, j}, fontgen.MD1, showStack)
					}
					for _, d := range []int{64, -64, 100} {
						q.add(pre, ints{p, d}, fontgen.SHPIX, ints{p}, fontgen.MDAP1, ints{p}, fontgen.GC0, ints{p}, fontgen.GC1, showStack)
						q.add(pre, ints{p, d}, fontgen.SCFS, ints{p}, fontgen.SRP0, ints{3}, fontgen.ALIGNRP, ints{p}, fontgen.SRP1, ints{2, p}, fontgen.SRP2, fontgen.IP)
					}
					for _, m := range []int{0, 0x04, 0x0c, 0x1c} {
						q.add(pre, ints{p}, fontgen.SRP0, ints{3}, fontgen.MDRP|m)
						q.add(pre, ints{2}, fontgen.SRP0, ints{p}, fontgen.MDRP|m)
						q.add(pre, ints{2}, fontgen.SRP0, ints{p, 2}, fontgen.MIRP|m)
					}
					q.add(pre, ints{p, 3}, fontgen.SPVTL0, fontgen.GPV, showStack)
					q.add(pre, ints{p}, fontgen.UTP, fontgen.IUP0, fontgen.IUP1)
					q.add(pre, ints{p}, fontgen.MDAP1, ints{0}, fontgen.SHZ0, ints{0}, fontgen.SHC1)
				}
			}
			q.flush()
		}
	})
	part("large numbers", func(yield func(hintBatch) bool) {
		k := fontgen.Code
		var long, many [][]fontgen.Pt
		var c []fontgen.Pt
		for i := 0; i < 700; i++ {
			c = append(c, fontgen.Pt{X: i % 40 * 3, Y: i*i%90 - 20, On: i%3 != 0})
		}
		long = [][]fontgen.Pt{c[:300], c[300:]}
		for i := 0; i < 300; i++ {
			many = append(many, c[2*i:2*i+2])
		}
		var cvt []int
		for i := 0; i < 400; i++ {
			cvt = append(cvt, i*7-300)
		}
		show := k(fontgen.SVTCA1, ints{12, fnShow}, fontgen.CALL)
		for _, o := range [][][]fontgen.Pt{long, many} {
			q := newBatcher(hintBatch{Scales: []int{640, 17*64 + 21}, Outline: o, Cvt: cvt, Store: 400}, yield)
			np := 0
			for _, c := range o {
				np += len(c)
			}
			for _, p := range []int{127, 128, 254, 255, 256, 257, 299, 300, 511, 512, np - 1, np, np + 3} {
				for _, vec := range hintVectors[:4] {
					q.add(vec, ints{p}, fontgen.MDAP1, fontgen.IUP0, fontgen.IUP1)
					q.add(vec, ints{p, 300}, fontgen.MIAP1, fontgen.SVTCA0, ints{p, 256}, fontgen.MIAP1)
					q.add(vec, ints{p, 64}, fontgen.SHPIX, ints{p}, fontgen.SRP0, ints{2, 3}, fontgen.ALIGNRP, fontgen.ALIGNRP)
					q.add(vec, ints{p, 2}, fontgen.MD0, ints{p}, fontgen.GC0, fontgen.ADD, show)
					q.add(vec, ints{1}, fontgen.SRP1, ints{p}, fontgen.SRP2, ints{p - 3, p - 5, 7}, fontgen.IP, fontgen.IP, fontgen.IP)
					q.add(vec, ints{1}, fontgen.MDAP1, ints{p}, fontgen.MDRP|0x1c, ints{p - 1, 301}, fontgen.MIRP|0x1c)
					q.add(vec, ints{p, 99}, fontgen.MSIRP1, ints{p, 3}, fontgen.SPVTL0, ints{4}, fontgen.MDAP1)
				}
				if p < np {
					q.add(ints{p - 3, p}, fontgen.FLIPRGON, ints{p - 2, p}, fontgen.FLIPRGOFF, ints{p}, fontgen.FLIPPT)
					q.add(ints{0x1f, p, 0x2f, p - 1, 0x0f, 3, 3}, ints{9}, fontgen.SDB, fontgen.DELTAP1)
				}
			}
			for _, i := range []int{0, 1, 127, 128, 254, 255, 256, 257, 298, 299} {
				if i < len(o) {
					q.add(ints{1}, fontgen.MDAP1, ints{i}, fontgen.SHC0, ints{i}, fontgen.SHC1)
				}
			}
			for _, i := range []int{255, 256, 257, 399} {
				q.add(ints{i, 77}, fontgen.WS, ints{i & 0xff, 33}, fontgen.WS, ints{i}, fontgen.RS, show)
				q.add(ints{i, 77}, fontgen.WCVTP, ints{i & 0xff, 33}, fontgen.WCVTF, ints{i}, fontgen.RCVT, show)
				q.add(ints{3, 0x1f, i, 0x1f, i & 0xff, 2}, ints{9}, fontgen.SDB, fontgen.DELTAC1, ints{i}, fontgen.RCVT, ints{i & 0xff}, fontgen.RCVT, fontgen.SUB, show)
			}
			// Loops of many points and calls.
			for _, n := range []int{1, 127, 128, 129, 190} {
				var ps []int
				for i := 0; i < n; i++ {
					ps = append(ps, i*3)
				}
				q.add(ints{2}, fontgen.MDAP1, ps, ints{n}, fontgen.SLOOP, fontgen.SHP1)
				q.add(ps, ints{-70, n}, fontgen.SLOOP, fontgen.SHPIX)
				q.add(ps, ints{n}, fontgen.SLOOP, fontgen.ALIGNRP)
				q.add(ps, ints{n}, fontgen.SLOOP, fontgen.FLIPPT)
				q.add(ps, ints{n}, fontgen.CINDEX, ints{n / 2}, fontgen.MINDEX, fontgen.ADD, show)
				q.add(ps, fontgen.DEPTH, show)
			}
			for _, n := range []int{127, 128, 255, 256, 257, 3000} {
				q.add(ints{1}, ints{n, fnBump}, fontgen.LOOPCALL, show)
			}
			// Functions and jumps far away.
			for _, n := range []int{100, 127, 128, 129, 250, 255, 256, 257, 300, 32760, 32767} {
				nop := bytes.Repeat([]byte{fontgen.SVTCA1}, n)
				q.add(ints{7, n + 1}, fontgen.JMPR, nop, ints{1}, fontgen.ADD, show)
				q.add(ints{7, n + 1, 1}, fontgen.JROT, nop, ints{1}, fontgen.ADD, show)
				q.add(ints{7, 0}, fontgen.IF, nop, fontgen.ELSE, ints{1}, fontgen.ADD, fontgen.EIF, show)
				q.add(ints{7, 1}, fontgen.IF, ints{3}, fontgen.ADD, fontgen.ELSE, nop, ints{1}, fontgen.ADD, fontgen.EIF, show)
				if n < 1000 {
					// Forwards beyond the code, and back to it.
					body := k(ints{5}, fontgen.ADD, ints{5}, fontgen.JMPR)
					back := k(ints{-(len(nop) + len(body) + 3)}, fontgen.JMPR)
					q.add(ints{7}, ints{len(body) + len(nop) + 1}, fontgen.JMPR, body, nop, back, show)
				}
			}
			q.flush()
			for _, n := range []int{0, 49, 127, 128, 255, 256, 300, 1000, 32767} {
				fp := k(hintFpgm, ints{n}, fontgen.FDEF, ints{11}, fontgen.ADD, fontgen.ENDF, ints{n ^ 0x100}, fontgen.FDEF, ints{3}, fontgen.SUB, fontgen.ENDF)
				q := newBatcher(hintBatch{Scales: []int{640}, Outline: o, Cvt: cvt, Store: 400, Fpgm: fp}, yield)
				q.add(ints{40, n}, fontgen.CALL, show)
				q.add(ints{40, 5, n}, fontgen.LOOPCALL, show)
				q.add(ints{40, n ^ 0x100}, fontgen.CALL, show)
				q.flush()
			}
		}
	})
	part("larger numbers", func(yield func(hintBatch) bool) {
		k := fontgen.Code
		var c []fontgen.Pt
		for i := 0; i < 700; i++ {
			c = append(c, fontgen.Pt{X: i % 40 * 3, Y: i*i%90 - 20, On: i%3 != 0})
		}
		q := newBatcher(hintBatch{Scales: []int{640, 17*64 + 21}, Outline: [][]fontgen.Pt{c[:300], c[300:]}, Stack: 4000, Twilight: 700}, yield)
		q.size = 16
		show := k(fontgen.SVTCA1, ints{1}, fontgen.SZPS, ints{12, fnShow}, fontgen.CALL)
		// Many values on the stack.
		for _, n := range []int{254, 255, 256, 257, 258, 300, 511, 512, 513, 514, 1000, 1025, 2500} {
			var ps, vs, ds []int
			for i := 0; i < n; i++ {
				ps = append(ps, i*3%650+13)
				vs = append(vs, i)
				if i < 500 {
					ds = append(ds, i%16*0x11, 20+i)
				}
			}
			q.add(ps, fontgen.DEPTH, show)
			q.add(ps, fontgen.DEPTH, fontgen.CINDEX, show)
			for _, i := range []int{1, n - 256, n - 255, n - 254, n - 1, n} {
				if i > 0 {
					q.add(vs, ints{i}, fontgen.CINDEX, show)
					q.add(vs, ints{i}, fontgen.MINDEX, show, ints{13, fnShow}, fontgen.CALL)
				}
			}
			q.add(ints{9, 2}, fontgen.MDAP1, ps, ints{n}, fontgen.SLOOP, fontgen.SHP1, show)
			q.add(ints{9}, ps, ints{-7, n}, fontgen.SLOOP, fontgen.SHPIX, show)
			q.add(ints{9}, ints{3}, fontgen.SRP0, ps, ints{n}, fontgen.SLOOP, fontgen.ALIGNRP, show)
			q.add(ints{9}, ps, ints{n}, fontgen.SLOOP, fontgen.FLIPPT, show)
			q.add(ints{9}, ints{3}, fontgen.SRP1, ints{650}, fontgen.SRP2, ps, ints{n}, fontgen.SLOOP, fontgen.IP, show)
			q.add(ints{9}, ds, ints{len(ds) / 2, 6}, fontgen.SDB, fontgen.DELTAP1, show)
		}
		// Many twilight points.
		for _, p := range []int{5, 250, 255, 256, 257, 260, 511, 512, 513, 699} {
			for _, vec := range hintVectors[:4] {
				q.add(vec, ints{0}, fontgen.SZPS, ints{p & 0xff, 31}, fontgen.SCFS, ints{p, 333}, fontgen.SCFS, ints{p}, fontgen.MDAP1, ints{p}, fontgen.GC0, ints{p & 0xff}, fontgen.GC0, fontgen.SUB, show)
				q.add(vec, ints{0}, fontgen.SZP0, ints{p, 2}, fontgen.MIAP1, ints{p}, fontgen.SRP0, ints{2, 5}, fontgen.MDRP|0x1c, fontgen.ALIGNRP)
				q.add(vec, ints{0}, fontgen.SZP2, ints{p, -100}, fontgen.SHPIX, ints{p}, fontgen.GC0, show)
				q.add(vec, ints{0}, fontgen.SZP1, ints{p, 90}, fontgen.SHPIX, ints{p}, fontgen.SRP2, ints{4}, fontgen.SHP0)
			}
		}
		// Long loops.
		for _, n := range []int{10000, 20000, 32767, 40000} {
			q.add(ints{1}, num(n), ints{fnBump}, fontgen.LOOPCALL, show)
		}
		// Long jumps.
		for _, n := range []int{32768, 32769, 33000, 40000, 49000} {
			nop := bytes.Repeat([]byte{fontgen.SVTCA1}, n)
			q.add(ints{7}, num(n+1), fontgen.JMPR, nop, ints{1}, fontgen.ADD, show)
			q.add(ints{7}, num(n+1), ints{1}, fontgen.JROT, nop, ints{1}, fontgen.ADD, show)
			q.add(ints{7}, num(n+1), ints{0}, fontgen.JROF, nop, ints{1}, fontgen.ADD, show)
			body := k(ints{5}, fontgen.ADD, ints{5}, fontgen.JMPR)
			back := num(-n - 2*len(body))
			back = k(num(-(n + len(body) + len(back))), fontgen.JMPR)
			q.add(ints{7}, num(len(body)+n+1), fontgen.JMPR, body, nop, back, show)
		}
		q.flush()
	})
	moving("points moved by MDRP and MIRP", func(q *batcher) {
		sets := [][]byte{
			{},
			fontgen.Code(ints{0}, fontgen.SMD, ints{0}, fontgen.SCVTCI),
			fontgen.Code(ints{200}, fontgen.SMD, ints{1000}, fontgen.SCVTCI),
			fontgen.Code(fontgen.FLIPOFF),
			fontgen.Code(ints{20}, fontgen.SSW, ints{100}, fontgen.SSWCI),
			fontgen.Code(ints{-30}, fontgen.SSW, ints{1000}, fontgen.SSWCI, ints{1000}, fontgen.SCVTCI, fontgen.FLIPOFF, fontgen.FLIPON),
		}
		if !c.Thorough() {
			sets = append(sets[:3:3], sets[4:]...)
			sets[3] = append(sets[3], fontgen.FLIPOFF)
		}
		for _, vec := range hintVectors {
			for z := 0; z < 4; z++ {
				for k, r := range refSets[:3] {
					for _, p := range []int{0, 1, 2, 3, 5, phantom0 + 1} {
						for i, st := range sets {
							rd := hintRounds[(i*3+p+k)%len(hintRounds)]
							pre := fontgen.Code(sentinels, hintDisturb, vec, zones(z), refs(r), st, rd)
							for v := 0; v < 32; v++ {
								q.add(pre, ints{p}, fontgen.MDRP|v, ints{7, 8}, fontgen.SHP0, fontgen.SHP1, ints{9}, fontgen.ALIGNRP)
								for _, cv := range []int{0, 1, 3} {
									q.add(pre, ints{p, cv}, fontgen.MIRP|v, ints{7, 8}, fontgen.SHP0, fontgen.SHP1, ints{9}, fontgen.ALIGNRP)
								}
							}
						}
					}
				}
			}
		}
	})
	moving("intersections and flips", func(q *batcher) {
		pts := ints{0, 2, 3, 5, 6, 8}
		tuples(4, len(pts), func(t []int) bool {
			return q.add(hintDisturb, ints{9, pts[t[0]], pts[t[1]], pts[t[2]], pts[t[3]]}, fontgen.ISECT, fontgen.IUP0, fontgen.IUP1)
		})
		for z := 0; z < 8; z++ {
			tuples(4, 4, func(t []int) bool {
				return q.add(hintDisturb, zones(z), ints{1, t[0], t[1], t[2], t[3]}, fontgen.ISECT, end)
			})
		}
		for a := 0; a < phantom0; a++ {
			for b := 0; b < phantom0; b++ {
				q.add(ints{a, b}, fontgen.FLIPRGON)
				q.add(ints{a, b}, fontgen.FLIPRGOFF)
				q.add(ints{a, b, 2}, fontgen.SLOOP, fontgen.FLIPPT)
			}
			q.add(ints{0}, fontgen.SZPS, ints{a}, fontgen.FLIPPT)
		}
	})

	// Products that are multiples of a power of two, or nearly.
	part("exact products", func(yield func(hintBatch) bool) {
		k := fontgen.Code
		q := newBatcher(hintBatch{Scales: []int{640}}, yield)
		mul256 := k(ints{0x4000}, fontgen.MUL)
		vecs := append(slices.Clone(hintVectors), k(ints{-0x4000, 0}, fontgen.SPVFS, fontgen.SFVTPV), k(ints{0, -0x4000}, fontgen.SPVFS, fontgen.SFVTPV), k(ints{0x2d41, -0x2d41}, fontgen.SPVFS, fontgen.SFVTPV))
		for _, vec := range vecs {
			for e := 6; e <= 26; e++ {
				for _, m := range []int{1, -1, 3, -3, 5, -7} {
					v := k(ints{m << (e % 8)})
					for i := 0; i < e/8; i++ {
						v = append(v, mul256...)
					}
					for d := -1; d <= 1; d++ {
						w := v
						if d != 0 {
							w = k(v, ints{d}, fontgen.ADD)
						}
						q.add(sentinels, vec, ints{0}, fontgen.SZPS, ints{3}, w, fontgen.SCFS, ints{3}, fontgen.GC0, ints{3, 2}, fontgen.MD0, showStack)
						q.add(sentinels, vec, ints{0}, fontgen.SZPS, ints{3}, w, fontgen.SHPIX, ints{3}, fontgen.GC0, ints{3}, fontgen.SRP0, ints{2}, fontgen.ALIGNRP, ints{2}, fontgen.GC0, showStack)
						q.add(sentinels, vec, ints{3}, w, fontgen.SHPIX, ints{3}, fontgen.GC0, ints{3, 2}, fontgen.MD0, ints{3}, fontgen.MDAP1, ints{2}, fontgen.MDRP|0x1c, ints{2}, fontgen.GC0, showStack)
					}
				}
			}
		}
		q.flush()
	})
	part("exceptions for sizes", func(yield func(hintBatch) bool) {
		scales := []int{1 * 64, 8 * 64, 9 * 64, 10 * 64, 12 * 64, 24 * 64, 25 * 64, 41 * 64, 56 * 64, 57 * 64, 200 * 64}
		q := newBatcher(hintBatch{Scales: scales}, yield)
		for _, op := range []int{fontgen.DELTAP1, fontgen.DELTAP2, fontgen.DELTAP3, fontgen.DELTAC1, fontgen.DELTAC2, fontgen.DELTAC3} {
			for arg := 0; arg < 256; arg++ {
				q.add(sentinels, ints{arg, 2, 1}, op, end)
				q.add(sentinels, ints{arg, 1, arg ^ 0x11, 2, 2}, op, end)
			}
			for _, base := range []int{0, 1, 9, 10, 40} {
				for shift := 0; shift <= 6; shift++ {
					for arg := 0; arg < 256; arg += 3 {
						q.add(sentinels, fontgen.SVTCA0, ints{base}, fontgen.SDB, ints{shift}, fontgen.SDS, ints{arg, 3, 1}, op, end)
					}
				}
			}
			for _, vec := range hintVectors {
				for z := 0; z < 2; z++ {
					q.add(sentinels, vec, zones(z), ints{0x3f, 2, 0x31, 1, 0x37, 0, 3}, op, end)
				}
			}
		}
		q.flush()
	})

	part("large sizes", func(yield func(hintBatch) bool) {
		for _, ppem := range []int{255, 256, 511, 512, 513, 1023, 1024, 4096, 16384} {
			q := newBatcher(hintBatch{Scales: []int{64*ppem - 33, 64*ppem - 32, 64 * ppem, 64*ppem + 31}}, yield)
			for _, op := range []int{fontgen.DELTAP1, fontgen.DELTAP2, fontgen.DELTAP3, fontgen.DELTAC1, fontgen.DELTAC2, fontgen.DELTAC3} {
				for _, base := range []int{ppem - 48, ppem - 40, ppem - 32, ppem - 17, ppem - 16, ppem - 15, ppem - 1, ppem, ppem + 1, ppem - 256, ppem & 0xff, ppem & 0x3f} {
					for arg := 0; arg < 256; arg += 5 {
						q.add(sentinels, ints{base}, fontgen.SDB, ints{arg, 3, 1}, op, end)
					}
				}
			}
			for op := 0; op < 256; op++ {
				// Any instruction, with arguments that are points, values and sizes.
				for _, st := range []ints{{3, 2, 1}, {1, ppem, 2}, {64 * ppem, 1, 4}, {2, 1, 64*ppem + 21}} {
					q.add(sentinels, st, op, end)
					q.add(sentinels, fontgen.SVTCA1, ints{2}, fontgen.MDAP1, st, op, ints{5}, fontgen.MIAP1, end)
				}
			}
			q.flush()
		}
	})

	part("interpolation of untouched points", func(yield func(hintBatch) bool) {
		// A contour of four or five points between two others, all coordinates from a
		// small set, all subsets of touched points, all moves from a small set.
		coords := ints{0, 7, 20, 50}
		np := c.N(4, 5)
		stop := false
		tuples(np, len(coords), func(t []int) bool {
			if np == 5 && t[0] > 1 {
				return true
			}
			var cs []fontgen.Pt
			for i, k := range t {
				cs = append(cs, fontgen.Pt{X: coords[k], Y: coords[(k+i)%len(coords)], On: i%2 == 0})
			}
			o := [][]fontgen.Pt{fontgen.Square(0, 0, 9, 9), cs, fontgen.Square(1, 2, 30, 40)}
			q := newBatcher(hintBatch{Outline: o}, func(b hintBatch) bool { stop = stop || !yield(b); return !stop })
			moves := ints{0, 40, -150}
			for m := 1; m < 1<<np; m++ {
				k := bits.OnesCount(uint(m))
				tuples(k, len(moves), func(ds []int) bool {
					if np == 5 && k > 3 && ds[0] != 1 {
						return true
					}
					var g []byte
					j := 0
					for i := 0; i < np; i++ {
						if m>>i&1 != 0 {
							g = append(g, fontgen.Code(ints{4 + i, moves[ds[j]]}, fontgen.SHPIX)...)
							j++
						}
					}
					return q.add(fontgen.SVTCA1, g, fontgen.IUP1, fontgen.SVTCA0, g, fontgen.IUP0)
				})
				if stop {
					return false
				}
			}
			// IUP in one direction leaves the other alone, and works twice.
			q.add(fontgen.SVTCA0, ints{4, 99}, fontgen.SHPIX, fontgen.IUP1, ints{5, 33}, fontgen.SHPIX, fontgen.IUP0, fontgen.IUP0)
			q.flush()
			return !stop
		})
	})

	part("control flow", func(yield func(hintBatch) bool) {
		mark := func(k int) []byte { return fontgen.Code(ints{k, fnMark}, fontgen.CALL) }
		m1, m2 := mark(1), mark(2)
		jump := func(n int) []byte { return fontgen.Code(ints{1 + n*len(m1)}, fontgen.JMPR) }
		cond := func(op, cnd, n int) []byte { return fontgen.Code(ints{1 + n*len(m1), cnd}, op) }
		toks := [][]byte{
			m1, m2,
			fontgen.Code(ints{0}, fontgen.IF), fontgen.Code(ints{7}, fontgen.IF), {fontgen.ELSE}, {fontgen.EIF},
			jump(1), cond(fontgen.JROT, 1, 1), cond(fontgen.JROF, 1, 1), cond(fontgen.JROF, 0, 1), cond(fontgen.JROT, 0, 2),
			// Data that look like instructions.
			{fontgen.PUSHB + 1, fontgen.EIF, fontgen.ELSE}, {fontgen.NPUSHB, 2, fontgen.IF, fontgen.EIF}, {fontgen.PUSHW, fontgen.EIF, fontgen.ELSE}, {fontgen.NPUSHW, 1, fontgen.ENDF, fontgen.IF},
			fontgen.Code(ints{2, fnMove}, fontgen.LOOPCALL),
		}
		depth := c.N(5, 6)
		if !c.Thorough() {
			toks = append(toks[:9:9], toks[11], toks[12], toks[14])
		}
		tail := fontgen.Code(ints{1}, fontgen.SZPS, fontgen.CLEAR, showStore)
		// In the glyph's program; in a function's body, called once and three times;
		// inside an IF part and an ELSE part.
		stop := false
		q := newBatcher(hintBatch{}, func(b hintBatch) bool { stop = stop || !yield(b); return !stop })
		for d := 1; d <= depth; d++ {
			tuples(d, len(toks), func(t []int) bool {
				var g []byte
				ifs, ok := 0, true
				for _, k := range t {
					g = append(g, toks[k]...)
					switch k {
					case 2, 3:
						ifs++
					case 5:
						ifs--
						ok = ok && ifs >= 0
					case 4:
						ok = ok && ifs > 0
					}
				}
				if !ok || ifs != 0 {
					return true // Unbalanced.
				}
				q.add(m2, g, m1, tail)
				if d <= depth-1 {
					q.add(ints{1}, fontgen.IF, m1, g, fontgen.ELSE, m2, fontgen.EIF, tail)
					q.add(ints{0}, fontgen.IF, g, fontgen.ELSE, m2, g, fontgen.EIF, m1, tail)
					for _, n := range []int{0, 1, 3} {
						if stop {
							return false
						}
						q2 := newBatcher(hintBatch{Fpgm: fontgen.Code(hintFpgm, ints{60}, fontgen.FDEF, g, m1, fontgen.ENDF)}, func(b hintBatch) bool { stop = stop || !yield(b); return !stop })
						q2.add(ints{n, 60}, fontgen.LOOPCALL, m2, tail)
						q2.add(ints{60}, fontgen.CALL, ints{60}, fontgen.CALL, tail)
						q2.flush()
						if n > 0 || d > 3 {
							break
						}
					}
					if d <= 3 {
						q3 := newBatcher(hintBatch{Prep: fontgen.Code(hintPrep, ints{1}, fontgen.SZPS, g, m2)}, func(b hintBatch) bool { stop = stop || !yield(b); return !stop })
						q3.add(m1, tail)
						q3.flush()
					}
				}
				return !stop
			})
		}
		// Counted loops by backward jumps, for all counts to 20.
		for cnt := 1; cnt <= 20; cnt++ {
			body := fontgen.Code(mark(3), ints{1}, fontgen.SUB, fontgen.DUP)
			// ... n: body; JROT back while n is not zero. The stack is offset, condition.
			loop := fontgen.Code(body, ints{-len(body) - 4 - 0}, fontgen.SWAP, fontgen.JROT)
			q.add(ints{cnt}, loop, m1, tail)
			q.add(ints{cnt, fnMove}, fontgen.LOOPCALL, ints{cnt, 1, fnMark}, fontgen.POP, fontgen.POP, fontgen.POP, tail)
		}
		// Functions that call functions, to all depths to 30.
		for d := 1; d <= 30 && !stop; d++ {
			f := slices.Clone(hintFpgm)
			for k := 0; k < d; k++ {
				f = append(f, fontgen.Code(ints{100 + k}, fontgen.FDEF, m1, func() []byte {
					if k+1 < d {
						return fontgen.Code(ints{101 + k}, fontgen.CALL)
					}
					return m2
				}(), m1, fontgen.ENDF)...)
			}
			q4 := newBatcher(hintBatch{Fpgm: f}, func(b hintBatch) bool { stop = stop || !yield(b); return !stop })
			q4.add(ints{100}, fontgen.CALL, m2, tail)
			q4.flush()
		}
		// Skipped data of all lengths, which look like the instructions that end the
		// skipping; the same data are pushed where they are not skipped.
		for n := 0; n < 256; n++ {
			for _, wide := range []bool{false, true} {
				for _, fill := range []byte{fontgen.EIF, fontgen.ELSE, fontgen.ENDF, fontgen.NPUSHB} {
					data := []byte{fontgen.NPUSHB, byte(n)}
					k := n
					if wide {
						data[0], k = fontgen.NPUSHW, 2*n
					}
					for i := 0; i < k; i++ {
						data = append(data, fill)
					}
					if stop {
						return
					}
					q6 := newBatcher(hintBatch{Fpgm: fontgen.Code(hintFpgm, ints{60}, fontgen.FDEF, fontgen.DUP, fontgen.IF, data, fontgen.ELSE, m1, fontgen.EIF, fontgen.ENDF)}, func(b hintBatch) bool { stop = stop || !yield(b); return !stop })
					q6.add(ints{0}, fontgen.IF, data, m1, fontgen.ELSE, m2, fontgen.EIF, m1, tail)
					q6.add(ints{1}, fontgen.IF, m1, fontgen.ELSE, data, m2, fontgen.EIF, m2, tail)
					q6.add(sentinels, ints{1}, fontgen.IF, data, fontgen.ELSE, m2, fontgen.EIF, m1, showStack)
					q6.add(ints{0, 60}, fontgen.CALL, m2, tail)
					q6.add(ints{1, 60}, fontgen.CALL, showStack)
					q6.flush()
				}
			}
		}
		// A later definition replaces an earlier one; function numbers of all sizes.
		for _, num := range []int{0, 1, 255, 256, 32767, -1} {
			for k := 0; k < 3 && !stop; k++ {
				defs := [][]byte{fontgen.Code(ints{num}, fontgen.FDEF, m1, fontgen.ENDF), fontgen.Code(ints{num}, fontgen.FDEF, m2, m2, fontgen.ENDF)}
				b := hintBatch{Fpgm: fontgen.Code(hintFpgm, defs[0], defs[1])}
				switch k {
				case 1:
					b.Fpgm, b.Prep = fontgen.Code(hintFpgm, defs[0]), fontgen.Code(hintPrep, defs[1])
				case 2:
					b.Fpgm = fontgen.Code(hintFpgm, ints{2, num, 9}, fontgen.FDEF, fontgen.PUSHB, fontgen.ENDF, fontgen.POP, fontgen.ENDF, fontgen.FDEF, m1, fontgen.ENDF)
				}
				q5 := newBatcher(b, func(b hintBatch) bool { stop = stop || !yield(b); return !stop })
				q5.add(ints{num}, fontgen.CALL, tail)
				q5.flush()
			}
		}
		q.flush()
	})

	// Instruction words for sequences.
	words := hintWords()
	depth := c.N(3, 4)
	part(fmt.Sprintf("sequences of %d instruction words, depth %d", len(words), depth), func(yield func(hintBatch) bool) {
		q := newBatcher(hintBatch{}, yield)
		for d := 1; d <= depth; d++ {
			ws := words
			if d == 4 {
				ws = words[:36]
			}
			tuples(d, len(ws), func(t []int) bool {
				var g []byte
				for _, k := range t {
					g = append(g, ws[k]...)
				}
				if d < depth {
					q.add(sentinels, g, ints{1}, fontgen.SZPS, fontgen.SVTCA1, fontgen.IUP0, fontgen.IUP1, showStore)
					q.add(sentinels, g, showStack)
				}
				return q.add(sentinels, g, showState)
			})
		}
		q.flush()
	})

	part("state set by the control value program", func(yield func(hintBatch) bool) {
		prep := append(slices.Clone(words), [][]byte{
			fontgen.Code(ints{2}, fontgen.SLOOP), fontgen.Code(ints{0}, fontgen.SZPS), fontgen.Code(ints{1, 2, 3}, fontgen.SRP0, fontgen.SRP1, fontgen.SRP2),
			fontgen.Code(ints{3, 4}, fontgen.SPVFS), fontgen.Code(ints{4, -3}, fontgen.SFVFS), fontgen.Code(ints{200}, fontgen.SMD), fontgen.Code(ints{500}, fontgen.SCVTCI),
			fontgen.Code(ints{30}, fontgen.SSW, ints{900}, fontgen.SSWCI), {fontgen.FLIPOFF}, fontgen.Code(ints{10}, fontgen.SDB), fontgen.Code(ints{1}, fontgen.SDS),
			fontgen.Code(ints{5, 4000}, fontgen.WS), fontgen.Code(ints{0, 77}, fontgen.WCVTP), fontgen.Code(ints{5, 77}, fontgen.WCVTF), fontgen.Code(ints{4, 5, 6}),
			fontgen.Code(fontgen.MPPEM, ints{12}, fontgen.EQ, fontgen.IF, fontgen.RTDG, fontgen.EIF),
		}...)
		codes := [][]byte{fontgen.Code(sentinels, showState), fontgen.Code(sentinels, showStore), fontgen.Code(fontgen.DEPTH, sentinels, showStack), fontgen.Code(ints{3}, fontgen.MDAP1, ints{5}, fontgen.MDRP|0x0c, ints{6, 1}, fontgen.MIRP|0x0c, fontgen.IUP0, fontgen.IUP1)}
		for _, inFpgm := range []bool{false, true} {
			tuples(c.N(2, 3), len(prep), func(t []int) bool {
				g := fontgen.Code(ints{0}, fontgen.SZPS)
				if inFpgm {
					g = nil
				}
				for _, k := range t {
					g = append(g, prep[k]...)
				}
				b := hintBatch{Fpgm: hintFpgm, Prep: fontgen.Code(hintPrep, g), Scales: []int{12 * 64, 20 * 64}}
				if inFpgm {
					if len(t) == 3 && t[2] > 0 {
						return true
					}
					b.Fpgm, b.Prep = fontgen.Code(hintFpgm, ints{0}, fontgen.SZPS, g), hintPrep
				}
				for _, code := range codes {
					b.Codes = [][]byte{code}
					if !yield(b) {
						return false
					}
				}
				return true
			})
		}
	})

	part("scaling of control values", func(yield func(hintBatch) bool) {
		for _, upem := range []int{1, 2, 7, 16, 64, 100, 1000, 1024, 2048, 16384} {
			for _, cv := range []int{0, 1, -1, 2, 3, 31, 32, 33, -50, 500, -500, 2048, 32767, -32768} {
				q := newBatcher(hintBatch{UPEM: upem, Cvt: []int{cv, cv ^ 5, 10, 20, 30, 7}, Scales: []int{64, 2 * 64, 7 * 64, 12 * 64, 100 * 64}}, yield)
				q.add(sentinels, ints{0}, fontgen.RCVT, ints{1}, fontgen.RCVT, showStack)
				q.add(sentinels, ints{3, cv}, fontgen.WCVTF, ints{3}, fontgen.RCVT, showStack)
				q.add(sentinels, ints{3, 0}, fontgen.MIAP0, ints{5}, fontgen.MDRP, showStack)
				q.add(sentinels, ints{cv}, fontgen.SSW, ints{9000}, fontgen.SSWCI, ints{5}, fontgen.MDRP, showStack)
				q.flush()
			}
		}
	})

	runC10Compound(c, n)
	runC10Points(c, n)
	runC10S45(c)
	runC10Real(c, n)

	c.Extra("programs compared", n.same.Load())
	c.Extra("programs not compared, as their meaning is open", n.open.Load())
	c.Extra("programs not compared, as they are in error", n.bad.Load())
	var missing []string
	ops := 0
	for op := 0; op < 256; op++ {
		if n.seen[op].Load() > 0 {
			ops++
		} else {
			missing = append(missing, fmt.Sprintf("%#02x", op))
		}
	}
	sort.Strings(missing)
	c.Extra("opcodes executed", ops)
	c.Extra("opcodes not executed", missing)
}

// hintWords are the words of the sequences.
func hintWords() [][]byte {
	k := fontgen.Code
	return [][]byte{
		{fontgen.SVTCA0}, {fontgen.SVTCA1}, {fontgen.SPVTCA0}, {fontgen.SFVTCA0},
		k(ints{3, 4}, fontgen.SPVFS), k(ints{2, 5}, fontgen.SFVTL1), k(ints{3, 2}, fontgen.SDPVTL0), {fontgen.SFVTPV},
		k(ints{2}, fontgen.SRP0), k(ints{3}, fontgen.SRP1), k(ints{1}, fontgen.SRP2),
		k(ints{0}, fontgen.SZP0), k(ints{0}, fontgen.SZP1), k(ints{0}, fontgen.SZP2), k(ints{1}, fontgen.SZPS),
		k(ints{1, 2, 2}, fontgen.SLOOP),
		{fontgen.RTHG}, {fontgen.RDTG}, {fontgen.ROFF},
		k(ints{2}, fontgen.MDAP1), k(ints{3, 2}, fontgen.MIAP1), k(ints{1}, fontgen.MDRP|0x1c), k(ints{0}, fontgen.MDRP|0x04), k(ints{5, 0}, fontgen.MIRP|0x1c), k(ints{3, 1}, fontgen.MIRP|0x08),
		k(ints{1}, fontgen.IP), k(ints{2}, fontgen.SHP0), k(ints{3}, fontgen.SHP1), k(ints{2}, fontgen.ALIGNRP), k(ints{1, 45}, fontgen.MSIRP1),
		k(ints{2, 29}, fontgen.SHPIX), k(ints{3, -77}, fontgen.SCFS), {fontgen.IUP0}, {fontgen.IUP1}, k(ints{0x3b, 2, 1}, fontgen.DELTAP1),
		k(ints{1}, fontgen.SHC1), k(ints{1}, fontgen.SHZ0), k(ints{3, 2}, fontgen.ALIGNPTS), k(ints{2}, fontgen.UTP), k(ints{3, 0, 2, 7, 8}, fontgen.ISECT),
		k(ints{0, 0x39, 0, 1}, fontgen.DELTAC1, fontgen.POP), k(ints{0}, fontgen.SMD), k(ints{1}, fontgen.SCVTCI), {fontgen.FLIPOFF}, k(ints{11}, fontgen.SDB), k(ints{5}, fontgen.SDS),
		k(ints{20}, fontgen.SSW, ints{80}, fontgen.SSWCI), k(ints{5}, ints{2}, fontgen.GC0, fontgen.WS), k(ints{0}, ints{2, 3}, fontgen.MD1, fontgen.WCVTP), k(ints{fnMove}, fontgen.CALL),
		k(ints{2, fnMove}, fontgen.LOOPCALL), k(ints{1, fnMark}, fontgen.CALL), {fontgen.DUP, fontgen.ADD}, {fontgen.ROLL}, k(ints{3}, fontgen.MINDEX), k(ints{2}, fontgen.FLIPPT), k(ints{1, 4}, fontgen.FLIPRGOFF),
		k(ints{2}, fontgen.RS, fontgen.WS), {fontgen.CLEAR, fontgen.MPPEM, fontgen.DUP, fontgen.DUP, fontgen.DUP, fontgen.DUP}, k(fontgen.IF, ints{1}, fontgen.MDAP1, fontgen.EIF), k(ints{0x48}, fontgen.SROUND),
	}
}
