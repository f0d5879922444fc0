package checks

import (
	"bytes"
	"fmt"
	"slices"

	"verif/internal/fontgen"
	"verif/internal/mc"

	"github.com/golang/freetype/truetype"
	"golang.org/x/image/font"
	"golang.org/x/image/math/fixed"
)

// Where the code under test goes.
const (
	slotGlyph    = iota // A glyph's program.
	slotCompound        // A compound glyph's program.
	slotPart            // The program of a compound glyph's second component.
	slotFunction        // A function's body, called from a glyph's program.
	slotPrep
	slotFpgm
	nSlots
)

var slotNames = [nSlots]string{"glyph", "compound", "component", "function", "prep", "fpgm"}

// A wildBatch is programs that may be anything.
type wildBatch struct {
	Slot    int
	Outline int
	Scale   int
	Pre     []byte
	Codes   [][]byte
}

var wildOutlines = [][][]fontgen.Pt{
	{{{X: 3, Y: 1, On: true}, {X: 30, Y: 5, On: true}, {X: 33, Y: 40, On: false}, {X: 2, Y: 37, On: true}}, {{X: 5, Y: 5, On: true}, {X: 9, Y: 28, On: false}, {X: 20, Y: 11, On: true}}},
	{},
	{{{X: 3, Y: 1, On: true}}, {}, {{X: -30, Y: 44, On: false}, {X: 8, Y: 9, On: true}}},
}

var wildPlain = [][]fontgen.Pt{{{X: -7, Y: 0, On: true}, {X: 41, Y: 5, On: true}, {X: 12, Y: 40, On: true}, {X: 2, Y: 9, On: false}}}

// num32 is code that pushes any 32-bit value, using nothing but arithmetic.
func num32(v int) []byte {
	if -32768 <= v && v <= 32767 {
		return fontgen.Push(v)
	}
	var twice []byte
	k := 16384
	for k != 1<<31 {
		twice = append(twice, fontgen.DUP, fontgen.ADD)
		k *= 2
		if v == k {
			return fontgen.Code(ints{16384}, twice)
		}
	}
	switch v {
	case -1 << 31:
		return fontgen.Code(ints{16384}, twice)
	case 1<<31 - 1:
		return fontgen.Code(ints{16384}, twice, ints{1}, fontgen.SUB)
	case -1<<31 + 1:
		return fontgen.Code(ints{16384}, twice, ints{1}, fontgen.ADD)
	}
	panic("no code for this value")
}

// runWild loads every glyph of a font with those programs.
func runWild(x *mc.X, b wildBatch) error {
	ft := scratchFont(x)
	o := wildOutlines[b.Outline]
	ft.UPEM, ft.Cvt, ft.Fpgm, ft.Prep, ft.NHMetric = 64, []int{10, -20, 32767}, nil, nil, 0
	ft.MaxStorage, ft.MaxTwilight, ft.MaxStack = 5, 3, 40
	ft.LocaLong = true
	ft.Glyphs, ft.HM = ft.Glyphs[:0], ft.HM[:0]
	add := func(g []byte) int {
		ft.Glyphs = append(ft.Glyphs, g)
		ft.HM = append(ft.HM, fontgen.HM{Adv: 50, LSB: 1})
		return len(ft.Glyphs) - 1
	}
	simple := func(o [][]fontgen.Pt, code []byte) int {
		return add(fontgen.Simple(o, fontgen.SimpleOpts{Instr: code}))
	}
	nPlain := 0
	for _, c := range wildPlain {
		nPlain += len(c)
	}
	box := [4]int{-7, 0, 60, 50}
	plain := simple(wildPlain, nil)
	var ends []int
	np := 0
	for _, c := range o {
		np += len(c)
		ends = append(ends, np)
	}
	type job struct {
		glyph   int
		ends    []int
		first   int // Of a component that must not be disturbed, if it is not -1.
		program int
	}
	var jobs []job
	after := func(d int, es []int) (out []int) {
		for _, e := range es {
			out = append(out, e+d)
		}
		return out
	}
	both := append([]int{nPlain}, after(nPlain, ends)...)
	single := len(b.Codes) == 1
	for i, c := range b.Codes {
		c := fontgen.Code(b.Pre, c)
		switch b.Slot {
		case slotGlyph:
			jobs = append(jobs, job{simple(o, c), ends, -1, i})
		case slotCompound:
			g := simple(o, nil)
			jobs = append(jobs, job{add(fontgen.Compound(box, []fontgen.Comp{{Flags: fontgen.ArgsXY, Glyph: plain, DX: 3}, {Flags: fontgen.ArgsXY, Glyph: g, DX: 1}}, c, 0)), both, -1, i})
		case slotPart:
			g := simple(o, c)
			jobs = append(jobs, job{add(fontgen.Compound(box, []fontgen.Comp{{Flags: fontgen.ArgsXY, Glyph: plain, DX: 3}, {Flags: fontgen.ArgsXY, Glyph: g, DX: 1}}, nil, 0)), both, 0, i})
		case slotFunction:
			ft.Fpgm = append(ft.Fpgm, fontgen.Code(ints{i}, fontgen.FDEF, c, fontgen.ENDF)...)
			jobs = append(jobs, job{simple(o, fontgen.Code(ints{1, 2, 3, 4, 5, 6}, ints{i}, fontgen.CALL, ints{2, i}, fontgen.LOOPCALL)), ends, -1, i})
		case slotPrep, slotFpgm:
			if !single {
				return fmt.Errorf("harness: several programs for one slot")
			}
			if b.Slot == slotPrep {
				ft.Prep = c
			} else {
				ft.Fpgm = c
			}
			jobs = append(jobs, job{plain, []int{nPlain}, -1, i},
				job{simple(o, fontgen.Code(ints{1}, fontgen.MDAP1, ints{2, 1}, fontgen.MIAP1, ints{0}, fontgen.MDRP, ints{1}, fontgen.CALL)), ends, -1, i})
		}
	}
	data := ft.Bytes()
	f, err := parseOK(data)
	if err != nil {
		return err
	}
	keep := slices.Clone(data)
	var ref truetype.GlyphBuf
	if b.Slot == slotPart {
		if err := ref.Load(f, fixed.Int26_6(b.Scale), truetype.Index(plain), font.HintingFull); err != nil {
			return err
		}
	}
	var g truetype.GlyphBuf
	for _, j := range jobs {
		x.Step(1)
		err := func() (err error) {
			defer func() {
				if e := recover(); e != nil {
					err = fmt.Errorf("panic: %v", e)
				}
			}()
			loadErr := g.Load(f, fixed.Int26_6(b.Scale), truetype.Index(j.glyph), font.HintingFull)
			if loadErr != nil {
				x.Outcome(1)
				return nil
			}
			x.Outcome(outlineHash(&g))
			x.Validated()
			n := 0
			if len(j.ends) > 0 {
				n = j.ends[len(j.ends)-1]
			}
			if len(g.Points) != n {
				return fmt.Errorf("%d points, want %d", len(g.Points), n)
			}
			if !slices.Equal(g.Ends, j.ends) {
				return fmt.Errorf("ends are %v, want %v", g.Ends, j.ends)
			}
			if j.first >= 0 {
				// The other component is as it would be alone, up to one translation.
				d := g.Points[0].X - ref.Points[0].X
				for i, p := range ref.Points {
					q := g.Points[i]
					if q.X-p.X != d || q.Y != p.Y || (q.Flags^p.Flags)&1 != 0 {
						return fmt.Errorf("the program of the second component disturbed point %d of the first: %v, want %v", i, q, p)
					}
				}
			}
			return nil
		}()
		if err != nil {
			code := fontgen.Code(b.Pre, b.Codes[j.program])
			return fmt.Errorf("%s program %d (%d bytes, %x): %v", slotNames[b.Slot], j.program, len(code), code[:min(len(code), 100)], err)
		}
	}
	if !bytes.Equal(data, keep) {
		return fmt.Errorf("the font's bytes were modified")
	}
	return nil
}

var c03 = &mc.Check{
	ID: "C03",
	Rule: "Programs of all kinds in each of six places (glyph, compound glyph, component of a compound glyph, function body, control value program, font program), each load of which must return with an error or with the contours the glyph has, " +
		"leave other components and the font's bytes alone, and not panic: every opcode with every tuple of boundary operands (to the 32-bit limits) in several states (zones, reference points, loop, vectors, rounding, huge coordinates and settings); each followed by each of 41 instructions that use what may have been set; " +
		"every byte string up to a length after several stack contents; all sequences of jump, call and conditional words to a depth, which may loop for ever or recurse; programs of maximal size and stack use.",
	Assumptions: []string{"a load that does not return within 100 seconds counts as hanging"},
	Run:         runC03,
}

// wildPres are states that a program under test may find.
var wildPres = func() [][]byte {
	c := fontgen.Code
	lim := num32(1<<31 - 1)
	neg := num32(-1 << 31)
	return [][]byte{
		nil,
		c(ints{0}, fontgen.SZPS),
		c(lim, fontgen.SRP0, ints{-1}, fontgen.SRP1, ints{300}, fontgen.SRP2, ints{2}, fontgen.SLOOP),
		c(ints{0, 0}, fontgen.SPVFS, ints{0, 0}, fontgen.SFVFS, lim, fontgen.SMD, neg, fontgen.SCVTCI),
		c(fontgen.SPVTCA1, fontgen.SFVTCA0, neg, fontgen.SSW, lim, fontgen.SSWCI, ints{0x4f}, fontgen.S45ROUND, neg, fontgen.SDB),
		c(ints{1, 0}, fontgen.SRP0, num32(1<<30), fontgen.SCFS, ints{2}, neg, fontgen.SCFS, fontgen.SVTCA0, ints{0}, lim, fontgen.SCFS, fontgen.ROFF),
		c(ints{0}, fontgen.SZP0, ints{3}, fontgen.SRP0, ints{6}, fontgen.SRP1, ints{0}, fontgen.SRP2, ints{0}, fontgen.SLOOP),
		c(ints{0}, fontgen.SZP1, lim, fontgen.SLOOP, ints{5, 3}, fontgen.SPVFS, fontgen.RTDG),
	}
}()

func runC03(c *mc.Ctx) {
	type adder func(slot, outline, scale int, pre, code []byte)
	part := func(name string, gen func(add func(slot, outline, scale int, pre, code []byte) bool)) {
		mc.Explore(c, name, func(yield func(wildBatch) bool) {
			type key struct {
				slot, outline, scale int
				pre                  string
			}
			done := false
			open := map[key]*wildBatch{}
			gen(func(slot, outline, scale int, pre, code []byte) bool {
				if done {
					return false
				}
				k := key{slot, outline, scale, string(pre)}
				b := open[k]
				if b == nil {
					b = &wildBatch{Slot: slot, Outline: outline, Scale: scale, Pre: pre}
					open[k] = b
				}
				b.Codes = append(b.Codes, slices.Clone(code))
				size := 64
				if slot >= slotPrep || len(code) > 1000 {
					size = 1
				}
				if len(b.Codes) >= size {
					done = !yield(*b)
					delete(open, k)
				}
				return !done
			})
			var rest []*wildBatch
			for _, b := range open {
				rest = append(rest, b)
			}
			slices.SortFunc(rest, func(a, b *wildBatch) int { return bytes.Compare(fmt.Append(nil, *a), fmt.Append(nil, *b)) })
			for _, b := range rest {
				if !done {
					done = !yield(*b)
				}
			}
		}, runWild)
	}
	vals := ints{0, 1, -1, 3, 7, 10, 11, 64, 255, 32767, 1<<31 - 1, -1 << 31}
	push := make([][]byte, len(vals))
	for i, v := range vals {
		push[i] = num32(v)
	}
	part("every opcode with boundary operands", func(add func(slot, outline, scale int, pre, code []byte) bool) {
		for slot := 0; slot < nSlots; slot++ {
			for op := 0; op < 256; op++ {
				maxArgs := c.N(2, 3)
				if slot == slotGlyph {
					maxArgs = 3
				}
				for d := 0; d <= maxArgs; d++ {
					tuples(d, len(vals), func(t []int) bool {
						g := fontgen.Push(1, 2)
						for _, k := range t {
							g = append(g, push[k]...)
						}
						g = append(g, byte(op))
						// A program that goes on uses what the instruction left behind.
						g = append(g, fontgen.Code(ints{1}, fontgen.MDAP1, fontgen.IUP0, fontgen.IUP1)...)
						ok := true
						for i, p := range wildPres {
							if d == 3 && i > 0 && !c.Thorough() {
								break
							}
							if slot >= slotPrep && i > 1 && d > 1 && !c.Thorough() {
								break
							}
							ok = add(slot, 0, 640, p, g)
						}
						if d <= 2 && slot < slotPrep {
							add(slot, 1, 640, nil, g)
							ok = add(slot, 2, 64, nil, g)
						}
						return ok
					})
				}
			}
		}
		// ISECT has five operands.
		five := ints{0, 3, 6, 1, 11}
		for slot := 0; slot < slotPrep; slot++ {
			for _, p := range wildPres {
				tuples(5, len(five), func(t []int) bool {
					return add(slot, 0, 640, p, fontgen.Code(ints{five[t[0]], five[t[1]], five[t[2]], five[t[3]], five[t[4]]}, fontgen.ISECT, fontgen.IUP1))
				})
			}
		}
		for _, s := range []int{0, 1, -1, 63, -640, 1 << 20, 1<<31 - 1, -1 << 31} {
			for op := 0; op < 256; op++ {
				tuples(2, len(vals), func(t []int) bool {
					return add(slotGlyph, 0, s, nil, fontgen.Code(ints{1, 2}, push[t[0]], push[t[1]], op, fontgen.IUP1))
				})
			}
		}
	})
	// What an instruction sets, a later one uses: both need to have an effect.
	part("states that are set and then used", func(add func(slot, outline, scale int, pre, code []byte) bool) {
		k := fontgen.Code
		wide := append(ints{2, 4, 5, 6, 8, 9, 31, 32, 33, 63, 65, 128, 256, -2, -64, 1 << 30}, vals...)
		// The size is 10 pixels: an exception 1 after the base of 9 applies, and one 10 after the base of 0.
		users := [][]byte{
			k(ints{0x1f, 1, 1}, fontgen.DELTAP1), k(ints{0x10, 1, 1}, fontgen.DELTAP2), k(ints{0xa8, 1, 1}, fontgen.DELTAP3),
			k(ints{0x1f, 1, 1}, fontgen.DELTAC1), k(ints{0x10, 1, 1}, fontgen.DELTAC2), k(ints{0xaf, 0, 1}, fontgen.DELTAC3),
			k(ints{1, 2, 3, 4}, fontgen.ALIGNRP), k(ints{1, 2, 3, 4}, fontgen.IP), k(ints{1, 2, 3, 4}, fontgen.SHP0), k(ints{1, 2, 3, 4}, fontgen.SHP1),
			k(ints{1, 2, 3, 64}, fontgen.SHPIX), k(ints{1, 2, 3}, fontgen.FLIPPT),
			k(ints{1}, fontgen.SHC0), k(ints{0}, fontgen.SHC1), k(ints{0}, fontgen.SHZ0), k(ints{1}, fontgen.SHZ1),
			k(ints{2}, fontgen.MDRP), k(ints{2}, fontgen.MDRP+0x1f), k(ints{2, 1}, fontgen.MIRP), k(ints{2, 1}, fontgen.MIRP+0x1f),
			k(ints{2, 1}, fontgen.MIAP0), k(ints{2, 2}, fontgen.MIAP1), k(ints{2}, fontgen.MDAP1), k(ints{2, 64}, fontgen.MSIRP1), k(ints{2, -64}, fontgen.MSIRP0),
			k(ints{1, 2}, fontgen.GC0, fontgen.GC1), k(ints{1, 2}, fontgen.MD0), k(ints{1, 2}, fontgen.MD1), k(ints{2, 77}, fontgen.SCFS),
			k(ints{0, 1, 2, 3, 4}, fontgen.ISECT), k(ints{1, 2}, fontgen.ALIGNPTS), k(ints{1}, fontgen.UTP),
			k(ints{1000}, fontgen.ROUND, ints{-37}, fontgen.ROUND+3), k(ints{0}, fontgen.RS, ints{4}, fontgen.RS), k(ints{0}, fontgen.RCVT, ints{2}, fontgen.RCVT),
			k(fontgen.GPV, fontgen.GFV), k(ints{1, 2}, fontgen.SPVTL1, ints{2}, fontgen.MDAP1), k(ints{1, 2}, fontgen.SDPVTL1, ints{2}, fontgen.MDRP),
			k(fontgen.SFVTPV, ints{2}, fontgen.MDAP1), k(fontgen.MPPEM, fontgen.MPS, ints{255}, fontgen.GETINFO),
		}
		for _, pre := range [][]byte{nil, k(ints{9}, fontgen.SDB), wildPres[1], k(ints{4, 3}, fontgen.SPVFS, ints{4096}, fontgen.SFVTCA0)} {
			for op := 0; op < 256; op++ {
				for d := 0; d <= 2; d++ {
					vs := wide
					if d == 2 && !c.Thorough() {
						vs = ints{0, 1, 2, -1, 6, 32, 1<<31 - 1, -1 << 31}
						if len(pre) > 0 {
							continue
						}
					}
					if !tuples(d, len(vs), func(t []int) bool {
						g := fontgen.Push(1, 2)
						for _, j := range t {
							g = append(g, num32(vs[j])...)
						}
						g = append(g, byte(op))
						for _, u := range users {
							if !add(slotGlyph, 0, 640, pre, append(slices.Clone(g), u...)) {
								return false
							}
						}
						return true
					}) {
						return
					}
				}
			}
		}
	})
	stacks := [][]byte{
		nil,
		fontgen.Push(1, 0, 2, 1, 3, 2, 0, 1),
		fontgen.Push(-1, 300, 3, -32768, 2, 6, 32767, 1),
		fontgen.Code(ints{2, 1}, push[10], ints{0}, push[11], ints{1, 3}),
	}
	part("every byte string", func(add func(slot, outline, scale int, pre, code []byte) bool) {
		for slot := 0; slot < nSlots; slot++ {
			for _, s := range stacks {
				for a := 0; a < 256; a++ {
					if !add(slot, 0, 640, s, []byte{byte(a)}) {
						return
					}
					for b := 0; b < 256; b++ {
						if !add(slot, 0, 640, s, []byte{byte(a), byte(b)}) {
							return
						}
					}
				}
			}
		}
		// Three bytes: one of each kind of opcode (all opcodes in the thorough tier).
		var ops []byte
		for a := 0; a < 256; a++ {
			skip := 0x80 < a && a < 0x85 && a != 0x81 || 0x8f <= a && a < 0xb0 && a != 0x91 || 0xb1 <= a && a < 0xb7 || 0xb9 <= a && a < 0xbf || a >= 0xc0 && a&0x13 != 0 || 0x68 < a && a < 0x70
			if !skip || c.Thorough() {
				ops = append(ops, byte(a))
			}
		}
		for _, s := range stacks[1:c.N(2, 4)] {
			for _, a := range ops {
				for _, b := range ops {
					for _, d := range ops {
						if !add(slotGlyph, 0, 640, s, []byte{a, b, d}) {
							return
						}
					}
				}
			}
		}
	})
	part("jumps, calls and conditions", func(add func(slot, outline, scale int, pre, code []byte) bool) {
		k := fontgen.Code
		words := [][]byte{
			k(ints{-3}, fontgen.JMPR), k(ints{0}, fontgen.JMPR), k(ints{2}, fontgen.JMPR), k(push[10], fontgen.JMPR), k(push[11], fontgen.JMPR), k(ints{-300}, fontgen.JMPR),
			k(ints{-5, 1}, fontgen.JROT), k(ints{4, 0}, fontgen.JROF), k(ints{0}, fontgen.CALL), k(push[10], ints{0}, fontgen.LOOPCALL), k(ints{-1, 0}, fontgen.LOOPCALL), k(ints{3, 0}, fontgen.LOOPCALL),
			k(ints{0}, fontgen.IF), k(ints{1}, fontgen.IF), {fontgen.ELSE}, {fontgen.EIF}, {fontgen.ENDF}, k(ints{0}, fontgen.FDEF), k(ints{0}, fontgen.IDEF),
			{fontgen.NPUSHB}, {fontgen.NPUSHW, 200}, k(ints{1, 2, 3}), k(ints{1}, fontgen.MDAP1), {fontgen.CLEAR},
		}
		depth := c.N(3, 4)
		for slot := 0; slot < nSlots; slot++ {
			d := depth
			if slot == slotFpgm || slot == slotFunction || slot == slotGlyph {
				d++
			}
			for n := 1; n <= d; n++ {
				ws := words
				if n >= 4 && slot != slotFunction || n >= 5 {
					ws = append(slices.Clone(words[:4]), words[6], words[8], words[9], words[11], words[12], words[13], words[14], words[15], words[16], words[17])
				}
				if n >= 5 {
					ws = ws[4:]
				}
				tuples(n, len(ws), func(t []int) bool {
					var g []byte
					for _, j := range t {
						g = append(g, ws[j]...)
					}
					return add(slot, 0, 640, nil, g)
				})
			}
		}
	})
	part("maximal programs and stacks", func(add func(slot, outline, scale int, pre, code []byte) bool) {
		long := func(n int, w ...any) (g []byte) {
			u := fontgen.Code(w...)
			for len(g)+len(u) <= n {
				g = append(g, u...)
			}
			return g
		}
		rep := func(k int, w ...any) (g []byte) {
			u := fontgen.Code(w...)
			for i := 0; i < k; i++ {
				g = append(g, u...)
			}
			return g
		}
		for slot := 0; slot < nSlots; slot++ {
			for _, n := range []int{40, 255, 256, 257, 400, 49998, 50000, 50001, 60000} {
				add(slot, 0, 640, nil, long(n, fontgen.DEPTH))
				add(slot, 0, 640, nil, long(n, ints{1}))
				add(slot, 0, 640, nil, long(n, fontgen.SVTCA0))
				add(slot, 0, 640, nil, long(n, fontgen.IUP1))
				add(slot, 0, 640, nil, long(n, fontgen.GPV))
				add(slot, 0, 640, ints8(1), long(n, fontgen.DUP))
				add(slot, 0, 640, nil, long(n, ints{0, 0, 0}, fontgen.SHPIX))
			}
			// Push just as much as fits the stack and one more, by every push instruction.
			for fill := 240; fill <= 257; fill++ {
				for k := 0; k <= 9; k++ {
					for _, op := range []int{fontgen.PUSHB, fontgen.PUSHW, fontgen.NPUSHB, fontgen.NPUSHW, fontgen.DUP, fontgen.DEPTH, fontgen.GPV, fontgen.GFV, fontgen.MPPEM, fontgen.CINDEX} {
						g := rep(fill, fontgen.DEPTH)
						switch op {
						case fontgen.PUSHB, fontgen.PUSHW:
							if k > 7 {
								continue
							}
							g = append(g, byte(op+k))
							g = append(g, make([]byte, 2*(k+1))...)
						case fontgen.NPUSHB, fontgen.NPUSHW:
							g = append(g, byte(op), byte(k))
							g = append(g, make([]byte, 2*k)...)
						default:
							g = append(g, rep(k, op)...)
						}
						add(slot, 0, 640, nil, g)
					}
				}
			}
			// Deep recursion, and repetition nested in repetition.
			f := func(n int, body ...any) []byte {
				return fontgen.Code(ints{n}, fontgen.FDEF, fontgen.Code(body...), fontgen.ENDF)
			}
			nest := fontgen.Code(f(0, ints{1}, fontgen.POP), f(1, push[10], ints{0}, fontgen.LOOPCALL), f(2, push[10], ints{1}, fontgen.LOOPCALL), f(3, ints{3}, fontgen.CALL), f(4, ints{5}, fontgen.CALL), f(5, ints{2, 4}, fontgen.LOOPCALL))
			for _, call := range []int{0, 1, 2, 3, 4, 5, 6} {
				add(slot, 0, 640, nest, fontgen.Code(push[10], ints{call}, fontgen.LOOPCALL))
				add(slot, 0, 640, nest, fontgen.Code(ints{call}, fontgen.CALL))
			}
			// Loop counts above the stack size, for each instruction that repeats.
			for _, op := range []int{fontgen.SHP0, fontgen.SHP1, fontgen.SHPIX, fontgen.IP, fontgen.ALIGNRP, fontgen.FLIPPT} {
				for _, n := range []int{0, 1, 2, 3, 39, 40, 255, 256, 257, 32767} {
					for _, d := range []int{0, 1, 2, 3, 4, 100, 200} {
						add(slot, 0, 640, nil, fontgen.Code(rep(d, ints{1}), ints{n}, fontgen.SLOOP, op))
					}
				}
			}
			for _, op := range []int{fontgen.DELTAP1, fontgen.DELTAP2, fontgen.DELTAC1, fontgen.DELTAC3} {
				for _, n := range []int{0, 1, 2, -1, 100, 32767} {
					for _, d := range []int{0, 1, 2, 3, 4, 5, 100} {
						add(slot, 0, 640, nil, fontgen.Code(rep(d, ints{0x1f}), ints{n}, op))
					}
				}
				add(slot, 0, 640, nil, fontgen.Code(ints{1, 2}, push[10], op))
				add(slot, 0, 640, nil, fontgen.Code(ints{1, 2}, push[11], op))
			}
		}
	})
}

func ints8(v int) []byte { return fontgen.Push(v) }
