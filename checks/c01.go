package checks

import (
	"bytes"
	"errors"
	"fmt"
	"runtime"
	"slices"
	"sync"

	"verif/internal/fontgen"
	"verif/internal/mc"

	"github.com/golang/freetype/truetype"
	"golang.org/x/image/font"
	"golang.org/x/image/math/fixed"
)

// An edit overwrites Len bytes (1, 2 or 4) with a big-endian value.
type edit struct {
	Off, Len int
	Val      uint32
}

// A baseFont is a well-formed font that gets corrupted.
type baseFont struct {
	name   string
	data   []byte
	tables map[string][2]int // Offset and length.
	dir    int               // Position of the first directory entry.
	n      int               // Number of glyphs.
}

func newBase(name string, data []byte) *baseFont {
	b := &baseFont{name: name, data: data, tables: map[string][2]int{}}
	d := 0
	if string(data[:4]) == "ttcf" {
		d = be32(data, 12)
	}
	b.dir = d + 12
	for i := 0; i < be16(data, d+4); i++ {
		e := b.dir + 16*i
		b.tables[string(data[e:e+4])] = [2]int{be32(data, e+8), be32(data, e+12)}
	}
	b.n = be16(data, b.tables["maxp"][0]+4)
	return b
}

func be16(b []byte, i int) int { return int(b[i])<<8 | int(b[i+1]) }
func be32(b []byte, i int) int { return be16(b, i)<<16 | be16(b, i+2) }

// glyphCount is the number of glyphs of a font that was accepted, or -1 if
// that is a matter of interpretation.
func glyphCount(b []byte) int {
	d := 0
	if string(b[:4]) == "ttcf" {
		d = be32(b, 12)
	}
	n := -1
	for i := 0; i < be16(b, d+4); i++ {
		e := d + 12 + 16*i
		if string(b[e:e+4]) == "maxp" {
			off := be32(b, e+8)
			if n >= 0 || off+6 > len(b) {
				return -1
			}
			n = be16(b, off+4)
		}
	}
	return n
}

// manyFont has what richFont has not: a 32-bit map, long locations, other
// flags and transformations, no programs.
func manyFont() *fontgen.Font {
	ft := fontgen.New(nil,
		fontgen.Simple([][]fontgen.Pt{{{X: 3, Y: 1, On: true}, {X: 300, Y: 40, On: false}, {X: 300, Y: 40, On: true}, {X: 300, Y: -440, On: true}}}, fontgen.SimpleOpts{}),
		fontgen.Compound([4]int{0, 0, 50, 50}, []fontgen.Comp{
			{Flags: fontgen.ArgsXY | fontgen.ArgWords, Glyph: 1, DX: 300, DY: -4},
			{Flags: fontgen.ArgsXY | fontgen.HaveScale, Glyph: 1, DX: 1, M: [4]int{0x2000}},
			{Flags: fontgen.ArgsXY | fontgen.HaveXY, Glyph: 3, DX: 1, M: [4]int{0x2000, -0x4000}},
			{Flags: fontgen.ArgsXY | fontgen.Have2x2 | fontgen.RoundXY, Glyph: 1, DX: 1, M: [4]int{0x2000, 0x1000, -0x1000, 0x7fff}},
		}, nil, 0),
		fontgen.Compound([4]int{0, 0, 50, 50}, []fontgen.Comp{{Flags: fontgen.ArgsXY | fontgen.UseMetrics, Glyph: 1, DX: 7, DY: 1}}, nil, 0))
	ft.LocaLong = true
	ft.Cmap = fontgen.Cmap(fontgen.CmapSub{PID: 0, PSID: 4, Data: fontgen.Format12([]fontgen.Group{{Start: 'A', End: 'C', Glyph: 1}, {Start: 0x10041, End: 0x10041, Glyph: 2}})},
		fontgen.CmapSub{PID: 3, PSID: 1, Data: fontgen.Format4([]fontgen.Seg{{Start: 'A', End: 'B', Delta: 0, Array: []int{1, 3}}}, nil)})
	ft.NHMetric = 1
	ft.OS2 = fontgen.OS2(78, 47, -12)
	ft.Name = fontgen.Name([]fontgen.NameRec{{PID: 0, PSID: 3, ID: 1, Len: 4, Off: 0}}, fontgen.UTF16('M', 'a'), 0)
	return ft
}

var corruptBases = sync.OnceValue(func() []*baseFont {
	arr := richFont()
	arr.Cmap = fontgen.Cmap(fontgen.CmapSub{PID: 3, PSID: 1, Data: fontgen.Format4([]fontgen.Seg{{Start: 'A', End: 'C', Delta: 1, Array: []int{0, 3, 1}}, {Start: 'E', End: 'F', Delta: 0, Array: []int{4, 2}}}, nil)})
	return []*baseFont{
		newBase("rich", arr.Bytes()),
		newBase("many", manyFont().Bytes()),
		newBase("collection", fontgen.Collection(0x00020000, [][]fontgen.Table{plainFont(0).Tables(), plainFont(1).Tables()}, nil, false)),
	}
})

// A corrupter parses corrupted fonts, and queries those that are accepted.
type corrupter struct {
	c       *mc.Ctx
	queries bool
	bufs    map[string][]byte
	keep    []byte
	g       truetype.GlyphBuf
}

func getCorrupter(x *mc.X, queries bool) *corrupter {
	if x.Scratch == nil {
		x.Scratch = &corrupter{c: x.C, queries: queries, bufs: map[string][]byte{}}
	}
	return x.Scratch.(*corrupter)
}

// with calls f with a copy of the base font's bytes, edited.
func (w *corrupter) with(b *baseFont, es []edit, f func(data []byte) error) error {
	buf := w.bufs[b.name]
	if buf == nil {
		buf = slices.Clone(b.data)
		w.bufs[b.name] = buf
	}
	for _, e := range es {
		for k := 0; k < e.Len; k++ {
			buf[e.Off+k] = byte(e.Val >> uint(8*(e.Len-1-k)))
		}
	}
	err := f(buf)
	for _, e := range es {
		copy(buf[e.Off:e.Off+e.Len], b.data[e.Off:])
	}
	if err != nil {
		delete(w.bufs, b.name)
		return fmt.Errorf("font %q with %+v: %v", b.name, es, err)
	}
	return nil
}

// A queryPlan says what to ask.
type queryPlan struct {
	runes          []rune
	glyphs         []int // nil means all up to maxGlyph, and one past the end.
	scales         []int
	hinted         []int
	maxGlyph       int
	names, metrics bool
}

var fullPlan = queryPlan{
	runes: []rune{0, 'A', 'B', 'C', 'D', 'E', 'F', 0xfffe, 0xffff, 0x10000, 0x10041, 0x10ffff, -1, -0x80000000, 0x7fffffff}, scales: []int{640, 0, -640, 1<<31 - 1}, hinted: []int{640}, maxGlyph: 8, names: true, metrics: true}
var quickPlan = queryPlan{runes: []rune{'A', 'B', 'F', 0xffff, 0x10041, -1}, scales: []int{640}, hinted: []int{640}, maxGlyph: 5, names: true, metrics: true}

var errNoFont = fmt.Errorf("rejected")

// documentedError returns whether err says in the documented way what is wrong
// with a font.
func documentedError(err error) bool {
	switch err.(type) {
	case truetype.FormatError, truetype.UnsupportedError:
		return true
	}
	var f truetype.FormatError
	var u truetype.UnsupportedError
	return errors.As(err, &f) || errors.As(err, &u)
}

// parseAny parses anything. The result is nil if it was properly rejected.
func (w *corrupter) parseAny(data []byte) (f *truetype.Font, err error) {
	f, perr := truetype.Parse(data)
	if perr == nil && f == nil {
		return nil, fmt.Errorf("Parse returned neither a font nor an error")
	}
	if perr != nil && f != nil {
		return nil, fmt.Errorf("Parse returned both a font and an error: %v", perr)
	}
	if perr != nil && perr.Error() == "" {
		return nil, fmt.Errorf("Parse returned an error without a text")
	}
	if perr != nil && !documentedError(perr) {
		return nil, fmt.Errorf("Parse returned a %T, neither a FormatError nor an UnsupportedError: %v", perr, perr)
	}
	return f, nil
}

// try parses the data and, if it is accepted, queries it by the plan.
func (w *corrupter) try(x *mc.X, data []byte, p *queryPlan) (err error) {
	stage := "Parse"
	defer func() {
		if e := recover(); e != nil {
			buf := make([]byte, 2000)
			err = fmt.Errorf("%s panics: %v\n%s", stage, e, buf[:runtime.Stack(buf, false)])
		}
	}()
	w.keep = append(w.keep[:0], data...)
	x.Step(1)
	f, err := w.parseAny(data)
	if err != nil {
		return err
	}
	if f == nil {
		x.Outcome(0)
		if !bytes.Equal(w.keep, data) {
			return fmt.Errorf("Parse modified its input")
		}
		return nil
	}
	if !w.queries {
		x.Outcome(uint64(f.FUnitsPerEm())<<1 | 1)
		x.Validated()
		if !bytes.Equal(w.keep, data) {
			return fmt.Errorf("Parse modified its input")
		}
		return nil
	}
	n := glyphCount(data)
	h := mc.NewHash()
	for _, r := range p.runes {
		stage = fmt.Sprintf("Index(%#x)", r)
		h.Int(int(f.Index(r)))
	}
	if p.names {
		for id := 0; id < 20; id++ {
			stage = fmt.Sprintf("Name(%d)", id)
			h.Int(len(f.Name(truetype.NameID(id))))
		}
		f.Name(0xffff)
	}
	glyphs := p.glyphs
	if glyphs == nil {
		for i := 0; i < min(n, p.maxGlyph); i++ {
			glyphs = append(glyphs, i)
		}
		if n < 0 {
			glyphs = append(glyphs, 0, 1, 2, 3)
		}
	}
	if n > 0 {
		glyphs = append(slices.Clip(glyphs), n-1, n, n+1)
	}
	glyphs = append(glyphs, 0xffff)
	for _, i := range glyphs {
		if i > 0xffff {
			continue
		}
		out := n >= 0 && i >= n
		if p.metrics {
			for _, s := range p.scales {
				stage = fmt.Sprintf("HMetric(%d, %d)", s, i)
				hm := f.HMetric(fixed.Int26_6(s), truetype.Index(i))
				stage = fmt.Sprintf("VMetric(%d, %d)", s, i)
				vm := f.VMetric(fixed.Int26_6(s), truetype.Index(i))
				if out && (hm != truetype.HMetric{} || vm != truetype.VMetric{}) {
					return fmt.Errorf("the metrics of glyph %d of %d are %v, %v, not zero", i, n, hm, vm)
				}
				h.Int(int(hm.AdvanceWidth))
				stage = fmt.Sprintf("Kern(%d, %d, …)", s, i)
				for _, j := range glyphs {
					if j <= 0xffff {
						h.Int(int(f.Kern(fixed.Int26_6(s), truetype.Index(i), truetype.Index(j))))
					}
				}
			}
		}
		for k := 0; k < len(p.scales)+2*len(p.hinted); k++ {
			s, hint := 0, font.HintingNone
			if k < len(p.scales) {
				s = p.scales[k]
			} else {
				s, hint = p.hinted[(k-len(p.scales))/2], font.HintingFull
				if k&1 != 0 {
					hint = font.HintingVertical
					if w.c.Tier != "thorough" {
						continue // There is no difference so far.
					}
				}
			}
			stage = fmt.Sprintf("Load(%d, %d, %v)", s, i, hint)
			x.Step(1)
			if err := w.g.Load(f, fixed.Int26_6(s), truetype.Index(i), hint); err != nil {
				if hint == font.HintingNone && !documentedError(err) {
					return fmt.Errorf("%s: a %T, neither a FormatError nor an UnsupportedError: %v", stage, err, err)
				}
				h.Int(7)
				continue
			}
			if out {
				return fmt.Errorf("glyph %d of %d is loaded without an error", i, n)
			}
			x.Validated()
			if err := wellFormedGlyph(&w.g); err != nil {
				return fmt.Errorf("%s: %v", stage, err)
			}
			h.Int(len(w.g.Points))
			h.Int(int(w.g.AdvanceWidth))
		}
	}
	if p.metrics {
		for _, s := range p.scales {
			stage = "Bounds"
			h.Int(int(f.Bounds(fixed.Int26_6(s)).Max.X))
		}
	}
	x.Outcome(uint64(h))
	if !bytes.Equal(w.keep, data) {
		return fmt.Errorf("a query modified the font's bytes")
	}
	return nil
}

func wellFormedGlyph(g *truetype.GlyphBuf) error {
	prev := 0
	for _, e := range g.Ends {
		if e < prev {
			return fmt.Errorf("the contour ends %v decrease", g.Ends)
		}
		prev = e
	}
	if prev != len(g.Points) {
		return fmt.Errorf("the contour ends are %v, but there are %d points", g.Ends, len(g.Points))
	}
	return nil
}

type byteCase struct {
	Base, Off int
}

type wordsCase struct {
	Base  int
	Edits []edit
}

type dirCase struct {
	Base  int
	Entry int
}

type cutCase struct {
	Font string
	From int
	To   int
}

var word16s = []uint32{0, 1, 2, 3, 4, 5, 8, 0x7f, 0x80, 0xff, 0x100, 0x7fff, 0x8000, 0x8001, 0xfffe, 0xffff}

func word32s(n int) []uint32 {
	return []uint32{0, 1, 4, uint32(n - 1), uint32(n), uint32(n + 1), 0x10000, 0x10001, 0x15555554, 0x15555555, 0x15555556, 0x3fffffff, 0x40000000, 0x7fffffff, 0x80000000, 0x80000001, 0xfffffff0, 0xfffffffc, 0xffffffff}
}

// exploreCorruption runs the parts that C01 and C02 share.
func exploreCorruption(c *mc.Ctx, queries bool) {
	bases := corruptBases()
	plan := &fullPlan
	mc.Explore(c, "every byte, every value", func(yield func(byteCase) bool) {
		for b := range bases {
			for off := range bases[b].data {
				if !yield(byteCase{b, off}) {
					return
				}
			}
		}
	}, func(x *mc.X, t byteCase) error {
		w := getCorrupter(x, queries)
		for v := 0; v < 256; v++ {
			if err := w.with(bases[t.Base], []edit{{t.Off, 1, uint32(v)}}, func(d []byte) error { return w.try(x, d, plan) }); err != nil {
				return err
			}
		}
		return nil
	})
	mc.Explore(c, "every 16 and 32-bit word, boundary values", func(yield func(byteCase) bool) {
		for b := range bases {
			for off := 0; off+2 <= len(bases[b].data); off++ {
				if !yield(byteCase{b, off}) {
					return
				}
			}
		}
	}, func(x *mc.X, t byteCase) error {
		w := getCorrupter(x, queries)
		b := bases[t.Base]
		try := func(l int, v uint32) error {
			return w.with(b, []edit{{t.Off, l, v}}, func(d []byte) error { return w.try(x, d, plan) })
		}
		old := be16(b.data, t.Off)
		for _, v := range append(slices.Clip(word16s), uint32(old-1), uint32(old+1), uint32(len(b.data))) {
			if err := try(2, v&0xffff); err != nil {
				return err
			}
		}
		if t.Off+4 <= len(b.data) {
			old := be32(b.data, t.Off)
			for _, v := range append(word32s(len(b.data)), uint32(old-1), uint32(old+1), uint32(-old), uint32(old)|0x80000000) {
				if err := try(4, v); err != nil {
					return err
				}
			}
		}
		return nil
	})
	mc.Explore(c, "every pair of words, boundary values", func(yield func([3]int) bool) {
		for b := range bases {
			if b == 2 && !c.Thorough() {
				continue
			}
			start := bases[b].dir + 16*len(bases[b].tables)
			for i := start; i+2 <= len(bases[b].data); i += 2 {
				for j := start; j < i; j += 2 {
					if !yield([3]int{b, i, j}) {
						return
					}
				}
			}
		}
	}, func(x *mc.X, t [3]int) error {
		w := getCorrupter(x, queries)
		vals := []uint32{0, 1, 6, 0x7fff, 0xffff}
		if c.Thorough() {
			vals = []uint32{0, 1, 2, 3, 6, 0x40, 0x100, 0x7fff, 0x8000, 0xffff}
		}
		for _, v := range vals {
			for _, u := range vals {
				if err := w.with(bases[t[0]], []edit{{t[1], 2, v}, {t[2], 2, u}}, func(d []byte) error { return w.try(x, d, &quickPlan) }); err != nil {
					return err
				}
			}
		}
		return nil
	})
	mc.Explore(c, "every table's offset and length", func(yield func(dirCase) bool) {
		for b := range bases {
			for i := 0; i < len(bases[b].tables); i++ {
				if !yield(dirCase{b, i}) {
					return
				}
			}
		}
	}, func(x *mc.X, t dirCase) error {
		w := getCorrupter(x, queries)
		b := bases[t.Base]
		e := b.dir + 16*t.Entry
		off, l := be32(b.data, e+8), be32(b.data, e+12)
		n := len(b.data)
		var ls []uint32
		for k := 0; k <= min(l+8, 300); k++ {
			ls = append(ls, uint32(k))
		}
		ls = append(ls, uint32(n), uint32(n-off), uint32(n-off+1), 1<<31-1, 1<<31, 1<<32-1, uint32(1<<32-off), uint32(1<<32-off+l), 1<<31+uint32(l))
		os := append(word32s(n), uint32(off), uint32(off+1), uint32(off-1), uint32(off+2), uint32(n-l), uint32(n-l+1), uint32(1<<32-l))
		for _, o := range os {
			for _, l := range ls {
				if err := w.with(b, []edit{{e + 8, 4, o}, {e + 12, 4, l}}, func(d []byte) error { return w.try(x, d, plan) }); err != nil {
					return err
				}
			}
		}
		// Any other table instead, as the same or a duplicate entry.
		for j := 0; j < len(b.tables); j++ {
			f := b.dir + 16*j
			for _, es := range [][]edit{
				{{e, 4, uint32(be32(b.data, f))}},
				{{e + 8, 4, uint32(be32(b.data, f+8))}, {e + 12, 4, uint32(be32(b.data, f+12))}},
				{{e, 4, uint32(be32(b.data, f))}, {f, 4, uint32(be32(b.data, e))}},
				{{e, 4, 0x7a7a7a7a}, {f, 4, 0x7a7a7a7a}},
			} {
				if err := w.with(b, es, func(d []byte) error { return w.try(x, d, plan) }); err != nil {
					return err
				}
			}
		}
		return nil
	})
}

var c01 = &mc.Check{
	ID: "C01",
	Rule: "All single-byte corruptions of three small fonts that have every table (all offsets, all 256 values), all 16 and 32-bit boundary values at all offsets, all pairs of words with boundary values, " +
		"all directory entries with all lengths up to the table's own and boundary offsets, duplicate, swapped and missing tables; every prefix of these and of the bundled fonts; every single-byte corruption (7 values) of a bundled font; " +
		"all byte strings up to length 3 and all short headers; all collections headers with boundary fields; the 32-bit map's length for all counts that wrap around. Oracle: a font or an error but not both, input unchanged, prefixes that lack part of a table rejected, allocation at most 64 times the length. " +
		"All well-formed fonts of several families (each subset of optional tables, units per em, glyph and metric counts, formats) must be accepted.",
	Assumptions: []string{"allocation is measured around each call in a single-threaded part"},
	Run:         runC01,
}

type wellCase struct {
	Kind string
	A, B int
	C    int
}

func runC01(c *mc.Ctx) {
	exploreCorruption(c, false)
	bases := corruptBases()
	real, err := loadRealFonts()
	if err != nil {
		c.Fail("fonts", nil, "%v", err)
		return
	}
	byName := map[string]*baseFont{}
	var all []*baseFont
	for _, b := range bases {
		all = append(all, b)
	}
	for _, r := range real {
		all = append(all, newBase(r.name, r.bytes))
	}
	for _, b := range all {
		byName[b.name] = b
	}
	required := []string{"cmap", "glyf", "head", "hhea", "hmtx", "loca", "maxp"}
	mc.Explore(c, "every prefix", func(yield func(cutCase) bool) {
		for _, b := range all {
			for i := 0; i <= len(b.data); i += 64 {
				if !yield(cutCase{b.name, i, min(i+64, len(b.data)+1)}) {
					return
				}
			}
		}
	}, func(x *mc.X, t cutCase) error {
		w := getCorrupter(x, false)
		b := byName[t.Font]
		last := 0
		for _, tag := range required {
			e := b.tables[tag]
			last = max(last, e[0]+e[1])
		}
		for n := t.From; n < t.To; n++ {
			data := b.data[:n:n]
			x.Step(1)
			f, err := func() (f *truetype.Font, err error) {
				defer func() {
					if e := recover(); e != nil {
						err = fmt.Errorf("Parse panics: %v", e)
					}
				}()
				return w.parseAny(data)
			}()
			if err != nil {
				return fmt.Errorf("the first %d bytes of %q: %v", n, b.name, err)
			}
			if f != nil && n < last {
				return fmt.Errorf("the first %d bytes of %q, which lack part of a required table, are accepted", n, b.name)
			}
			if f == nil && n == len(b.data) {
				return fmt.Errorf("%q is rejected", b.name)
			}
			x.Validated()
		}
		return nil
	})
	mc.Explore(c, "every byte of a bundled font", func(yield func(byteCase) bool) {
		for i, b := range all[len(bases):] {
			if i > 0 && !c.Thorough() {
				break
			}
			for off := range b.data {
				if !yield(byteCase{len(bases) + i, off}) {
					return
				}
			}
		}
	}, func(x *mc.X, t byteCase) error {
		w := getCorrupter(x, false)
		b := all[t.Base]
		o := uint32(b.data[t.Off])
		for _, v := range []uint32{0, 1, 0x7f, 0x80, 0xff, o - 1, o + 1} {
			if err := w.with(b, []edit{{t.Off, 1, v & 0xff}}, func(d []byte) error {
				_, err := w.parseAny(d)
				x.Step(1)
				return err
			}); err != nil {
				return err
			}
		}
		// Nothing else may have changed.
		if !bytes.Equal(w.bufs[b.name], b.data) {
			return fmt.Errorf("Parse modified its input")
		}
		return nil
	})
	type stringCase struct {
		Head []byte
		N    int // All strings of N bytes follow.
		Abc  []byte
	}
	mc.Explore(c, "short strings", func(yield func(stringCase) bool) {
		every := make([]byte, 256)
		for i := range every {
			every[i] = byte(i)
		}
		if !yield(stringCase{nil, 0, every}) || !yield(stringCase{nil, 1, every}) {
			return
		}
		for a := 0; a < 256; a++ {
			if !yield(stringCase{[]byte{byte(a)}, 1, every}) || !yield(stringCase{[]byte{byte(a)}, 2, every}) {
				return
			}
		}
		abc := []byte{0, 1, 2, 12, 0x7f, 0xff}
		for _, h := range [][]byte{{0, 1, 0, 0}, []byte("ttcf"), []byte("true"), []byte("OTTO"), []byte("ttcf\x00\x01\x00\x00"), []byte("ttcf\x00\x02\x00\x00"), []byte("ttcf\x00\x01\x00\x00\x00\x00\x00\x01"), {0, 1, 0, 0, 0, 0}, {0, 1, 0, 0, 0, 1, 0, 0, 0, 0, 0, 0}} {
			for n := 0; n <= c.N(5, 7); n++ {
				if !yield(stringCase{h, n, abc}) {
					return
				}
			}
			for n := 7; n <= 20; n++ {
				if !yield(stringCase{append(slices.Clone(h), make([]byte, n-4)...), 4, abc}) {
					return
				}
			}
		}
	}, func(x *mc.X, t stringCase) (err error) {
		w := getCorrupter(x, false)
		tuples(t.N, len(t.Abc), func(k []int) bool {
			d := slices.Clone(t.Head)
			for _, i := range k {
				d = append(d, t.Abc[i])
			}
			if err = w.try(x, d[:len(d):len(d)], &quickPlan); err != nil {
				err = fmt.Errorf("%x: %v", d, err)
			}
			return err == nil
		})
		return err
	})
	// Directories of any number of entries, in files that end anywhere.
	mc.Explore(c, "cut directories", func(yield func([4]int) bool) {
		for n := 0; n <= c.N(20, 40); n++ {
			for tag := 0; tag < 17; tag++ {
				for field := 0; field < 8; field++ {
					for ttc := 0; ttc < 2; ttc++ {
						if !yield([4]int{n, tag, field, ttc}) {
							return
						}
					}
				}
			}
		}
	}, func(x *mc.X, t [4]int) error {
		w := getCorrupter(x, false)
		tags := []string{"cmap", "cvt ", "fpgm", "glyf", "hdmx", "head", "hhea", "hmtx", "kern", "loca", "maxp", "name", "OS/2", "prep", "vmtx", "DSIG", "\x00\x00\x00\x00"}
		var o fontgen.W
		if t[3] == 1 {
			o.U32(0x74746366)
			o.U32(0x00010000)
			o.U32(1)
			o.U32(16)
		}
		start := len(o.B)
		o.U32(0x00010000)
		o.U16(t[0])
		o.U16(0)
		o.U32(0)
		end := start + 12 + 16*t[0]
		for i := 0; i < t[0]; i++ {
			// Only the last entry may be special.
			tag, off, n := "DSIG", 0, 0
			if i == t[0]-1 {
				tag = tags[t[1]]
				off, n = [8]int{0, 0, 1, end - 1, end, end, end + 1, end + 4}[t[2]], [8]int{0, end, end - 1, 1, 0, 4, 0, 1}[t[2]]
			}
			o.B = append(o.B, tag...)
			o.U32(0)
			o.U32(off)
			o.U32(n)
		}
		o.B = append(o.B, make([]byte, 8)...)
		first := max(0, end-24)
		if t[1] == 0 && t[2] == 0 {
			first = 0
		}
		for cut := first; cut <= len(o.B); cut++ {
			if err := w.try(x, o.B[:cut:cut], &quickPlan); err != nil {
				return fmt.Errorf("first %d bytes: %v", cut, err)
			}
		}
		return nil
	})
	mc.Explore(c, "collection headers", func(yield func([]int) bool) {
		tuples(3, 12, func(t []int) bool { return yield(t) })
	}, func(x *mc.X, t []int) error {
		w := getCorrupter(x, false)
		b := bases[2]
		n := len(b.data)
		vs := []uint32{0, 1, 2, 3, 0x00010000, 0x00020000, uint32(n / 4), uint32(n - 12), uint32(n), 0x7fffffff, 0x80000000, 0xffffffff}
		for _, cut := range []int{n, 12, 13, 15, 16, 17, 20, 40, n / 2, n - 1} {
			if err := w.with(b, []edit{{4, 4, vs[t[0]]}, {8, 4, vs[t[1]]}, {12, 4, vs[t[2]]}}, func(d []byte) error {
				return w.try(x, d[:cut:cut], &quickPlan)
			}); err != nil {
				return fmt.Errorf("first %d bytes: %v", cut, err)
			}
		}
		// The directory of the first font anywhere in the file.
		if t[0] == 0 && t[1] == 0 && t[2] == 0 {
			for off := 0; off < n+20; off++ {
				if err := w.with(b, []edit{{12, 4, uint32(off)}}, func(d []byte) error { return w.try(x, d, &quickPlan) }); err != nil {
					return err
				}
			}
		}
		return nil
	})
	mc.Explore(c, "wrapping map lengths", func(yield func([2]int) bool) {
		for i := 0; i < 4; i++ {
			for j := 0; j < 400; j++ {
				if !yield([2]int{i, j}) {
					return
				}
			}
		}
	}, func(x *mc.X, t [2]int) error {
		w := getCorrupter(x, false)
		b := bases[1]
		cm := b.tables["cmap"][0]
		sub := cm + be32(b.data, cm+8)
		// Counts around each multiple of 2**32/12, with the matching length.
		groups := uint32(uint64(t[0])<<32/12) + uint32(t[1]) - 200
		return w.with(b, []edit{{sub + 4, 4, 12*groups + 16}, {sub + 12, 4, groups}}, func(d []byte) error { return w.try(x, d, &quickPlan) })
	})
	// Measured one call at a time, so it is one case.
	mc.Explore(c, "allocation", func(yield func(int) bool) { yield(0) }, func(x *mc.X, _ int) error {
		w := getCorrupter(x, false)
		most := 0.0
		measure := func(b *baseFont, es []edit) error {
			return w.with(b, es, func(d []byte) error {
				var m0, m1 runtime.MemStats
				runtime.ReadMemStats(&m0)
				truetype.Parse(d)
				runtime.ReadMemStats(&m1)
				x.Step(1)
				got := float64(m1.TotalAlloc-m0.TotalAlloc) / float64(len(d))
				most = max(most, got)
				if got > 64 {
					return fmt.Errorf("Parse allocates %d bytes for a font of %d", m1.TotalAlloc-m0.TotalAlloc, len(d))
				}
				return nil
			})
		}
		for _, b := range bases {
			for off := 0; off+4 <= len(b.data); off++ {
				for _, es := range [][]edit{{{off, 2, 0xffff}}, {{off, 2, 0x7ffe}}, {{off, 2, 0x7fff}}, {{off, 4, 0xffffffff}}, {{off, 4, 0x7fffffff}}, {{off, 4, 0x00ffffff}}} {
					if err := measure(b, es); err != nil {
						return err
					}
				}
			}
		}
		b := bases[1]
		cm := b.tables["cmap"][0]
		sub := cm + be32(b.data, cm+8)
		for _, n := range []uint32{1000, 100000, 10000000, 100000000, 0x15555555, 0x15555556, 0x15555557, 0x40000000, 0x40000001} {
			if err := measure(b, []edit{{sub + 4, 4, 12*n + 16}, {sub + 12, 4, n}}); err != nil {
				return err
			}
		}
		for _, b := range all[len(bases):] {
			if err := measure(b, nil); err != nil {
				return err
			}
		}
		c.Extra("most_bytes_allocated_per_byte_of_input", most)
		return nil
	})
	mc.Explore(c, "well-formed fonts", func(yield func(wellCase) bool) {
		for s := 0; s < 1<<9; s++ {
			if !yield(wellCase{"optional tables", s, 0, 0}) {
				return
			}
		}
		for u := 1; u <= 16384; u++ {
			if !yield(wellCase{"units per em", u, 0, 0}) {
				return
			}
		}
		for n := 1; n <= 40; n++ {
			for h := 1; h <= n; h++ {
				if !yield(wellCase{"glyphs and metrics", n, h, 0}) {
					return
				}
			}
		}
		for _, n := range []int{1, 2, 255, 256, 257, 1000, 32767, 32768, 65534, 65535} {
			if !yield(wellCase{"glyphs and metrics", n, 1, 0}) || !yield(wellCase{"glyphs and metrics", n, n, 0}) || !yield(wellCase{"glyphs and metrics", n, (n + 1) / 2, 0}) {
				return
			}
		}
		for n := 0; n <= 60; n++ {
			for k := 0; k < 4; k++ {
				if !yield(wellCase{"map", n, k, 0}) {
					return
				}
			}
		}
		for _, n := range []int{1000, 5000, 8000} {
			for k := 0; k < 2; k++ {
				if !yield(wellCase{"map", n, k, 0}) {
					return
				}
			}
		}
		for n := 0; n < 300; n++ {
			if !yield(wellCase{"kerning pairs", n, 0, 0}) || !yield(wellCase{"names", n, 0, 0}) {
				return
			}
		}
		for _, n := range []int{1000, 5000, 10920} {
			if !yield(wellCase{"kerning pairs", n, 0, 0}) {
				return
			}
		}
		for n := 0; n <= 400; n++ {
			if !yield(wellCase{"glyph data", n, 0, 0}) || !yield(wellCase{"glyph data", n, 1, 0}) {
				return
			}
		}
		for n := 1; n <= 200; n++ {
			for v := 1; v <= 2; v++ {
				if !yield(wellCase{"collection", n, v, 0}) {
					return
				}
			}
		}
	}, func(x *mc.X, t wellCase) error {
		var data []byte
		plain := plainFont(0)
		switch t.Kind {
		case "optional tables":
			rich := richFont()
			drop := map[string]bool{}
			for i, tag := range []string{"OS/2", "cvt ", "fpgm", "hdmx", "kern", "name", "prep", "vmtx", "glyf"} {
				if t.A>>i&1 != 0 {
					drop[tag] = true
				}
			}
			if drop["glyf"] { // A font of empty glyphs may have no outlines at all.
				rich.Glyphs = [][]byte{nil, nil, nil, nil, nil}
			}
			var ts []fontgen.Table
			for _, tb := range rich.Tables() {
				if !drop[tb.Tag] || tb.Tag == "glyf" {
					ts = append(ts, tb)
				}
			}
			data = fontgen.Layout(ts, fontgen.Opts{})
		case "units per em":
			plain.UPEM = t.A
			data = plain.Bytes()
		case "glyphs and metrics":
			plain.Glyphs = make([][]byte, t.A)
			plain.HM = make([]fontgen.HM, t.A)
			plain.NHMetric = t.B
			data = plain.Bytes()
		case "map":
			var segs []fontgen.Seg
			var gs []fontgen.Group
			for i := 0; i < t.A; i++ {
				s := fontgen.Seg{Start: 7 * i, End: 7*i + 3, Delta: i}
				if t.B == 2 {
					s.Array = []int{1, 2, 0, 1}
				}
				segs = append(segs, s)
				gs = append(gs, fontgen.Group{Start: 0x1000 * i, End: 0x1000*i + 5, Glyph: 1})
			}
			sub := fontgen.CmapSub{PID: 3, PSID: 1, Data: fontgen.Format4(segs, nil)}
			if t.B == 1 {
				sub = fontgen.CmapSub{PID: 3, PSID: 10, Data: fontgen.Format12(gs)}
			}
			if t.B == 3 {
				sub.PID, sub.PSID = 3, 0
			}
			plain.Cmap = fontgen.Cmap(sub)
			data = plain.Bytes()
		case "kerning pairs":
			var ps []fontgen.KernPair
			for i := 0; i < t.A; i++ {
				ps = append(ps, fontgen.KernPair{L: i / 200, R: i % 200, V: i - 100})
			}
			plain.Kern = fontgen.Kern(ps)
			data = plain.Bytes()
		case "names":
			var rs []fontgen.NameRec
			for i := 0; i < t.A; i++ {
				rs = append(rs, fontgen.NameRec{PID: i % 4, PSID: i % 3, ID: i, Len: 2, Off: 0})
			}
			plain.Name = fontgen.Name(rs, []byte("ab"), t.A%3)
			data = plain.Bytes()
		case "glyph data":
			plain.Glyphs[1] = fontgen.Simple([][]fontgen.Pt{fontgen.Square(0, 0, 9, 9)}, fontgen.SimpleOpts{Instr: make([]byte, t.A)})
			plain.LocaLong = t.B != 0
			data = plain.Bytes()
		case "collection":
			var fs [][]fontgen.Table
			for i := 0; i < t.A; i++ {
				fs = append(fs, plain.Tables())
			}
			data = fontgen.Collection(t.B<<16, fs, nil, t.A%2 != 0)
		}
		x.Step(1)
		f, err := parseOK(data)
		if err != nil {
			return err
		}
		if t.Kind == "units per em" && int(f.FUnitsPerEm()) != t.A {
			return fmt.Errorf("FUnitsPerEm is %d, want %d", f.FUnitsPerEm(), t.A)
		}
		x.Validated()
		return nil
	})
}
