package checks

import (
	"fmt"
	"runtime"
	"slices"
	"sync"
	"time"

	"verif/internal/fontgen"
	"verif/internal/mc"

	"github.com/golang/freetype/truetype"
	"golang.org/x/image/font"
	"golang.org/x/image/math/fixed"
)

var c02 = &mc.Check{
	ID: "C02",
	Rule: "Every corruption of C01's space (single bytes, words, pairs of words, directory entries), every font that is accepted being asked for boundary runes, all names, the metrics, bounds and kerning of all glyphs and boundary indices, and each glyph at several scales with and without hinting; " +
		"every byte of a bundled font that belongs to a glyph, with that glyph loaded; all byte strings over an alphabet as glyph data after several headers; all boundary locations of a glyph in both formats; all boundary field values of a two-segment map with every boundary rune; " +
		"all graphs of compound glyphs of three glyphs with up to three components each, and deep and wide ones. Oracle: no panic, no modification of the font, out-of-range indices are errors and zero metrics, contour ends non-decreasing and the last one the number of points, bounded allocation, termination.",
	Assumptions: []string{"a query that does not return within 100 seconds counts as hanging", "a glyph load may allocate up to 64 MB"},
	Run:         runC02,
}

type glyfByteCase struct {
	Off, Glyph int
}

type glyfStrings struct {
	Head   []byte
	Prefix []byte
	N      int
}

// loadAll loads all glyphs from first on, in all modes.
func (w *corrupter) loadAll(x *mc.X, f *truetype.Font, first, end int, modes []font.Hinting, scales []int, desc func(i int) string) (err error) {
	i := first
	defer func() {
		if e := recover(); e != nil {
			buf := make([]byte, 2000)
			err = fmt.Errorf("loading %s panics: %v\n%s", desc(i), e, buf[:runtime.Stack(buf, false)])
		}
	}()
	for i = first; i < end; i++ {
		for _, h := range modes {
			for _, s := range scales {
				x.Step(1)
				if err := w.g.Load(f, fixed.Int26_6(s), truetype.Index(i), h); err != nil {
					if h == font.HintingNone && !documentedError(err) {
						return fmt.Errorf("%s: a %T, neither a FormatError nor an UnsupportedError: %v", desc(i), err, err)
					}
					x.Outcome(2)
					continue
				}
				x.Outcome(uint64(len(w.g.Points))<<2 | 1)
				x.Validated()
				if err := wellFormedGlyph(&w.g); err != nil {
					return fmt.Errorf("%s: %v", desc(i), err)
				}
			}
		}
	}
	return nil
}

func runC02(c *mc.Ctx) {
	exploreCorruption(c, true)
	real, err := loadRealFonts()
	if err != nil {
		c.Fail("fonts", nil, "%v", err)
		return
	}
	bothModes := []font.Hinting{font.HintingNone, font.HintingFull}
	bigs := make([]*baseFont, len(real))
	for i, r := range real {
		bigs[i] = newBase(r.name, r.bytes)
	}
	for _, b := range bigs {
		mc.Explore(c, "every byte of the glyphs of "+b.name, func(yield func(glyfByteCase) bool) {
			loca, glyf := b.tables["loca"], b.tables["glyf"]
			long := be16(b.data, b.tables["head"][0]+50) != 0
			loc := func(i int) int {
				if long {
					return be32(b.data, loca[0]+4*i)
				}
				return 2 * be16(b.data, loca[0]+2*i)
			}
			for i := 0; i < b.n; i++ {
				for off := loc(i); off < loc(i+1); off++ {
					if !yield(glyfByteCase{glyf[0] + off, i}) {
						return
					}
				}
			}
			// The programs that all glyphs rely on, and all other tables.
			for _, t := range []string{"fpgm", "prep", "cvt ", "maxp", "head", "hhea", "loca", "cmap", "kern", "name", "hmtx", "hdmx", "OS/2"} {
				for off := 0; off < b.tables[t][1]; off++ {
					i := 36
					if t == "loca" {
						i = off / 2
						if long {
							i /= 2
						}
					}
					if !yield(glyfByteCase{b.tables[t][0] + off, i}) {
						return
					}
				}
			}
		}, func(x *mc.X, t glyfByteCase) error {
			w := getCorrupter(x, true)
			o := uint32(b.data[t.Off])
			vals := []uint32{0, 1, 0xff, o + 1, o ^ 0x80}
			if c.Thorough() {
				vals = []uint32{0, 1, 2, 0x7f, 0x80, 0xff, o - 1, o + 1, o ^ 0x80, o ^ 0x40, o ^ 0x20, o ^ 0x10, o ^ 8, o ^ 4, o ^ 2}
			}
			plan := &queryPlan{runes: []rune{'A', 0xffff}, glyphs: []int{t.Glyph}, scales: []int{640}, hinted: []int{832}, names: true, metrics: true}
			for _, v := range vals {
				if err := w.with(b, []edit{{t.Off, 1, v & 0xff}}, func(d []byte) error { return w.try(x, d, plan) }); err != nil {
					return err
				}
			}
			return nil
		})
	}
	mc.Explore(c, "every short glyph", func(yield func(glyfStrings) bool) {
		for _, ne := range []int{0, 1, 2, 3, 0x7fff, 0xffff, 0xfffe, 0x8000} {
			head := []byte{byte(ne >> 8), byte(ne), 0, 3, 0, 0, 0, 0, 0, 9}
			for n := 0; n <= 3; n++ {
				if !yield(glyfStrings{head, nil, n}) {
					return
				}
			}
			if ne == 0xfffe || ne == 0x8000 {
				continue
			}
			for n := 4; n <= c.N(5, 6); n++ {
				tuples(n-3, len(glyfAlphabet), func(t []int) bool {
					var p []byte
					for _, k := range t {
						p = append(p, glyfAlphabet[k])
					}
					return yield(glyfStrings{head, p, 3})
				})
			}
			if ne == 1 || ne == 2 {
				// No program, and all that may follow.
				for _, last := range []int{0, 1, 2, 3, 254, 255, 256, 65535} {
					h := append(slices.Clone(head), 0, 0, 0, 0)
					h = h[:10+2*(ne-1)]
					h = append(h, byte(last>>8), byte(last), 0, 0)
					for n := 0; n <= 3; n++ {
						if !yield(glyfStrings{h, nil, n}) {
							return
						}
					}
					for n := 4; n <= c.N(5, 6); n++ {
						tuples(n-3, len(glyfAlphabet), func(t []int) bool {
							var p []byte
							for _, k := range t {
								p = append(p, glyfAlphabet[k])
							}
							return yield(glyfStrings{h, p, 3})
						})
					}
				}
			}
			if ne == 0xffff {
				for _, fl := range []int{0x02, 0x03, 0x22, 0x23, 0x0a, 0x42, 0x82, 0x122, 0x102, 0x202, 0x00, 0x20, 0x1ff} {
					for _, comp := range []int{0, 1, 2, 5000} {
						h := append(slices.Clone(head), byte(fl>>8), byte(fl), byte(comp>>8), byte(comp))
						for n := 0; n <= c.N(4, 5); n++ {
							p := make([]byte, max(0, n-3))
							if !yield(glyfStrings{h, p, min(n, 3)}) {
								return
							}
						}
						for n := 6; n <= 14; n++ {
							if !yield(glyfStrings{h, make([]byte, n-3), 3}) {
								return
							}
						}
					}
				}
			}
		}
	}, func(x *mc.X, t glyfStrings) error {
		w := getCorrupter(x, true)
		base := append(slices.Clone(t.Head), t.Prefix...)
		ft := fontgen.New(fontgen.Simple([][]fontgen.Pt{{{X: 3, Y: 1, On: true}, {X: 9, Y: 9, On: true}}}, fontgen.SimpleOpts{}), nil)
		ft.LocaLong = true
		// Exactly the glyph's bytes, at the very end of the table, or with others behind.
		var codes [][]byte
		tuples(t.N, len(glyfAlphabet), func(k []int) bool {
			g := slices.Clone(base)
			for _, j := range k {
				g = append(g, glyfAlphabet[j])
			}
			codes = append(codes, g)
			ft.Glyphs = append(ft.Glyphs, g)
			ft.HM = append(ft.HM, fontgen.HM{Adv: 60, LSB: 2})
			return true
		})
		ft.OS2 = nil
		data := ft.Bytes()
		f, err := parseOK(data)
		if err != nil {
			return err
		}
		return w.loadAll(x, f, 2, len(ft.Glyphs), bothModes, []int{640}, func(i int) string { return fmt.Sprintf("the glyph %x", codes[i-2]) })
	})
	type locCase struct {
		Long bool
		V    [3]uint32
		Cut  int
	}
	mc.Explore(c, "glyph locations", func(yield func(locCase) bool) {
		for _, long := range []bool{false, true} {
			tuples(3, 16, func(t []int) bool {
				vs := [16]uint32{0, 1, 9, 10, 11, 12, 14, 40, 44, 48, 49, 50, 1000, 0x7fffffff, 0x80000000, 0xffffffff}
				if !long {
					vs = [16]uint32{0, 1, 2, 4, 5, 6, 7, 14, 22, 23, 24, 25, 500, 0x7fff, 0x8000, 0xffff}
				}
				for _, cut := range []int{0, 1, 2, 3, 4, 5, 8} {
					if !yield(locCase{long, [3]uint32{vs[t[0]], vs[t[1]], vs[t[2]]}, cut}) {
						return false
					}
				}
				return true
			})
		}
	}, func(x *mc.X, t locCase) error {
		w := getCorrupter(x, true)
		g := fontgen.Simple([][]fontgen.Pt{fontgen.Square(0, 0, 9, 9)}, fontgen.SimpleOpts{})
		ft := fontgen.New(g, g)
		ft.LocaLong = t.Long
		ts := ft.Tables()
		for i := range ts {
			if ts[i].Tag == "loca" {
				var l fontgen.W
				for _, v := range t.V {
					if t.Long {
						l.U32(int(v))
					} else {
						l.U16(int(v))
					}
				}
				ts[i].Data = l.B[:max(0, len(l.B)-t.Cut)]
			}
		}
		return w.try(x, fontgen.Layout(ts, fontgen.Opts{}), &quickPlan)
	})
	// All lengths of the metric tables, with all counts in the headers.
	mc.Explore(c, "metric tables", func(yield func([4]int) bool) {
		for ng := 0; ng <= c.N(5, 8); ng++ {
			for nh := 0; nh <= c.N(7, 10); nh++ {
				for _, v := range []int{0, 1, 4, 6, 8, 10, 14, 16, 20, 40} {
					for _, o := range []int{0, 1, 68, 69, 71, 72, 73, 77, 78, 96} {
						if !yield([4]int{ng, nh, v, o}) {
							return
						}
					}
				}
			}
		}
		for _, ng := range []int{0x7fff, 0x8000, 0xfffe, 0xffff} {
			for _, nh := range []int{0, 1, 2, 0x7fff, 0x8000, 0xfffe, 0xffff} {
				if !yield([4]int{ng, nh, 0, 0}) || !yield([4]int{ng, nh, 14, 78}) {
					return
				}
			}
		}
	}, func(x *mc.X, t [4]int) error {
		w := getCorrupter(x, true)
		g := fontgen.Simple([][]fontgen.Pt{fontgen.Square(0, 0, 9, 9)}, fontgen.SimpleOpts{})
		ft := fontgen.New(g, g, g, g)
		ft.LocaLong = true
		fill := func(n int) []byte {
			b := make([]byte, n)
			for i := range b {
				b[i] = byte(i*37 + 5)
			}
			return b
		}
		ts := ft.Tables()
		set := func(tag string, d []byte) {
			for i := range ts {
				if ts[i].Tag == tag {
					ts[i].Data = d
					return
				}
			}
			ts = append(ts, fontgen.Table{Tag: tag, Data: d})
		}
		for i := range ts {
			switch ts[i].Tag {
			case "maxp":
				ts[i].Data = slices.Clone(ts[i].Data)
				ts[i].Data[4], ts[i].Data[5] = byte(t[0]>>8), byte(t[0])
			case "hhea":
				ts[i].Data = slices.Clone(ts[i].Data)
				ts[i].Data[34], ts[i].Data[35] = byte(t[1]>>8), byte(t[1])
			}
		}
		if t[2] != 0 {
			set("vmtx", fill(t[2]))
		}
		if t[3] != 0 {
			set("OS/2", fill(t[3]))
		}
		// The length that the headers ask for, and others.
		want := 4*t[1] + 2*(t[0]-t[1])
		var ns []int
		if t[0] < 100 {
			for n := 0; n <= 4*max(t[0], t[1])+4; n++ {
				ns = append(ns, n)
			}
			if t[2] != 0 && t[3] != 0 {
				ns = []int{want - 1, want, want + 1, want + 2, 2 * t[0], 4 * t[0]}
			}
		} else {
			ns = []int{want - 2, want, want + 2, 2 * t[0], 4 * t[0], 2*t[0] + 2, 4*t[1] - 4, 4 * t[1], 0, 4}
		}
		for _, n := range ns {
			if n < 0 {
				continue
			}
			set("hmtx", fill(n))
			if err := w.try(x, fontgen.Layout(ts, fontgen.Opts{}), &quickPlan); err != nil {
				return fmt.Errorf("%d bytes of metrics: %v", n, err)
			}
		}
		return nil
	})
	mc.Explore(c, "map fields", func(yield func([]int) bool) {
		tuples(8, c.N(5, 6), func(t []int) bool { return yield(t) })
	}, func(x *mc.X, t []int) error {
		w := getCorrupter(x, true)
		b := mapBase()
		vals := []uint32{0, 1, 0x41, 0xffff, 0x8000, 4}
		cm := b.tables["cmap"][0] + 12
		var es []edit
		// Ends, starts, deltas and offsets of both segments.
		for i, off := range []int{14, 16, 20, 22, 24, 26, 28, 30} {
			es = append(es, edit{cm + off, 2, vals[t[i]]})
		}
		return w.with(b, es, func(d []byte) error { return w.try(x, d, &mapPlan) })
	})
	type graphCase struct {
		Comps [3][]int
	}
	mc.Explore(c, "compound graphs", func(yield func(graphCase) bool) {
		var lists [][]int
		for n := 0; n <= 3; n++ {
			tuples(n, 3, func(t []int) bool {
				l := slices.Clone(t)
				lists = append(lists, l)
				return true
			})
		}
		tuples(3, len(lists), func(t []int) bool {
			return yield(graphCase{[3][]int{lists[t[0]], lists[t[1]], lists[t[2]]}})
		})
	}, func(x *mc.X, t graphCase) error {
		w := getCorrupter(x, true)
		ft := fontgen.New(nil, nil, nil)
		for i, l := range t.Comps {
			if len(l) == 0 {
				ft.Glyphs[i] = fontgen.Simple([][]fontgen.Pt{fontgen.Square(0, 0, 9, 9)}, fontgen.SimpleOpts{})
				continue
			}
			var cs []fontgen.Comp
			for k, g := range l {
				cs = append(cs, fontgen.Comp{Flags: fontgen.ArgsXY, Glyph: g, DX: k})
			}
			ft.Glyphs[i] = fontgen.Compound([4]int{0, 0, 9, 9}, cs, nil, 0)
		}
		f, err := parseOK(ft.Bytes())
		if err != nil {
			return err
		}
		// A glyph that contains itself is an error.
		var cyclic func(i, depth int) bool
		cyclic = func(i, depth int) bool {
			if depth > 3 {
				return true
			}
			for _, j := range t.Comps[i] {
				if cyclic(j, depth+1) {
					return true
				}
			}
			return false
		}
		for i := 0; i < 3; i++ {
			want := cyclic(i, 0)
			x.Step(1)
			got := w.g.Load(f, 640, truetype.Index(i), font.HintingNone) != nil
			if got != want {
				return fmt.Errorf("glyph %d: error is %v, want %v", i, got, want)
			}
			if !got {
				if err := wellFormedGlyph(&w.g); err != nil {
					return err
				}
			}
			x.Validated()
		}
		return nil
	})
	// One at a time, to measure time and memory.
	mc.Explore(c, "memory and time", func(yield func(int) bool) { yield(0) }, func(x *mc.X, _ int) error {
		w := getCorrupter(x, true)
		var most uint64
		var slowest time.Duration
		measure := func(what string, f func() error) error {
			var m0, m1 runtime.MemStats
			runtime.ReadMemStats(&m0)
			t := time.Now()
			err := f()
			slowest = max(slowest, time.Since(t))
			runtime.ReadMemStats(&m1)
			if err != nil {
				return err
			}
			got := m1.TotalAlloc - m0.TotalAlloc
			most = max(most, got)
			if got > 64<<20 {
				return fmt.Errorf("%s allocates %d bytes", what, got)
			}
			return nil
		}
		for _, b := range corruptBases()[:2] {
			for off := 0; off+4 <= len(b.data); off += 2 {
				for _, es := range [][]edit{{{off, 2, 0xffff}}, {{off, 2, 0x7fff}}, {{off, 4, 0xffffffff}}, {{off, 4, 0x7fffffff}}} {
					if err := w.with(b, es, func(d []byte) error {
						f, err := truetype.Parse(d)
						if err != nil {
							return nil
						}
						for i := 0; i < b.n; i++ {
							if err := measure(fmt.Sprintf("loading glyph %d", i), func() error {
								var g truetype.GlyphBuf
								x.Step(1)
								if g.Load(f, 640, truetype.Index(i), font.HintingFull) == nil {
									return wellFormedGlyph(&g)
								}
								return nil
							}); err != nil {
								return err
							}
						}
						return measure("looking up names", func() error {
							for id := 0; id < 20; id++ {
								f.Name(truetype.NameID(id))
							}
							return nil
						})
					}); err != nil {
						return err
					}
				}
			}
		}
		// Chains of compound glyphs, of any width and depth, of a glyph that is empty, small or as large as it gets.
		big := fontgen.Code(rawBytes(0, 1, 0, 0, 0, 0, 0, 9, 0, 9, 0xff, 0xfd, 0, 0))
		for n := 0; n < 0xfffe; {
			k := min(255, 0xfffe-n-1)
			big = append(big, 0x39, byte(k))
			n += k + 1
		}
		for _, leaf := range [][]byte{nil, fontgen.Simple([][]fontgen.Pt{fontgen.Square(0, 0, 9, 9)}, fontgen.SimpleOpts{Instr: fontgen.Code(ints{1}, fontgen.MDAP1, fontgen.IUP0)}), big} {
			for _, width := range []int{1, 2, 3, 8, 60, 5000} {
				for _, depth := range []int{1, 2, 5, 30, 31, 32, 33, 60} {
					ft := fontgen.New(leaf)
					ft.LocaLong = true
					for d := 1; d <= depth; d++ {
						var cs []fontgen.Comp
						for k := 0; k < width; k++ {
							cs = append(cs, fontgen.Comp{Flags: fontgen.ArgsXY, Glyph: d - 1})
						}
						ft.Glyphs = append(ft.Glyphs, fontgen.Compound([4]int{0, 0, 9, 9}, cs, nil, 0))
						ft.HM = append(ft.HM, fontgen.HM{Adv: 60})
					}
					f, err := parseOK(ft.Bytes())
					if err != nil {
						return err
					}
					for _, h := range bothModes {
						what := fmt.Sprintf("loading a glyph nested %d deep and %d wide, of a glyph of %d bytes,", depth, width, len(leaf))
						if err := measure(what, func() error {
							var g truetype.GlyphBuf
							x.Step(1)
							err := g.Load(f, 640, truetype.Index(depth), h)
							x.Outcome(uint64(len(g.Points)))
							if err == nil {
								return wellFormedGlyph(&g)
							}
							return nil
						}); err != nil {
							return err
						}
					}
				}
			}
		}
		c.Extra("most_bytes_allocated_by_a_query", most)
		c.Extra("slowest_query_s", slowest.Seconds())
		return nil
	})
}

func rawBytes(v ...int) (b []byte) {
	for _, x := range v {
		b = append(b, byte(x))
	}
	return b
}

var glyfAlphabet = []byte{0, 1, 2, 3, 0x08, 0x09, 0x10, 0x21, 0x36, 0x3f, 0x7f, 0x80, 0xff}

var mapBase = sync.OnceValue(func() *baseFont {
	ft := fontgen.New(nil, nil, nil)
	ft.Cmap = fontgen.Cmap(fontgen.CmapSub{PID: 3, PSID: 1, Data: fontgen.Format4([]fontgen.Seg{{Start: 'A', End: 'C', Delta: 1, Array: []int{0, 3, 1}}}, nil)})
	return newBase("map", ft.Bytes())
})

var mapPlan = queryPlan{runes: []rune{0, 1, 2, 0x40, 0x41, 0x42, 0x7fff, 0x8000, 0x8001, 0xfffe, 0xffff, 0x10000, 0x10041, 0x10ffff, -1, -0x80000000, 0x7fffffff}, glyphs: []int{}}
