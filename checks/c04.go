package checks

import (
	"fmt"

	"verif/internal/fontgen"
	"verif/internal/mc"

	"github.com/golang/freetype/truetype"
)

// segSpec is a segment of a map: codes base+A..base+B, and how it maps them.
type segSpec struct{ A, B, Kind int }

type cmapCase struct {
	Base int
	Segs []segSpec
}

// Kinds of segments. Array kinds have entries that include zeroes.
var segDeltas = []int{0, 1, 0x7fff, -40, 0, 5, -3, 5}

const nSegKinds = 8 // 0..3 delta, 4..6 own array, 7 shared array

func (s segSpec) array() []int {
	vals := []int{3, 0, 0xffff, 9, 1, 0x8000}
	var a []int
	for c := s.A; c <= s.B; c++ {
		a = append(a, vals[(c+s.A)%len(vals)])
	}
	return a
}

var sharedArray = []int{7, 0, 11, 0xfffe, 12, 13, 14, 15, 16}

func (c cmapCase) build() (segs []fontgen.Seg, want map[int]int) {
	want = map[int]int{}
	for _, s := range c.Segs {
		g := fontgen.Seg{Start: c.Base + s.A, End: c.Base + s.B, Delta: segDeltas[s.Kind]}
		var arr []int
		switch {
		case s.Kind == 7:
			g.Share = s.A%3 + 1
			arr = sharedArray[s.A%3:]
		case s.Kind >= 4:
			g.Array = s.array()
			arr = g.Array
		}
		for k := s.A; k <= s.B; k++ {
			if arr != nil {
				v := arr[k-s.A]
				if v != 0 {
					v = (v + g.Delta) & 0xffff
				}
				want[c.Base+k] = v
			} else {
				want[c.Base+k] = (c.Base + k + g.Delta) & 0xffff
			}
		}
		segs = append(segs, g)
	}
	return segs, want
}

var edgeRunes = []int{-1, 0, 1, 0x20, 0xd800, 0xfffd, 0xfffe, 0x10000, 0x10ffff, 0x110000, 0x7fffffff, -0x80000000}

// checkRunes compares Index with want on runes lo..hi, their 16 bit aliases, and edge runes.
func checkRunes(x *mc.X, f *truetype.Font, want map[int]int, lo, hi int) error {
	n := 0
	one := func(r int) error {
		n++
		if g := f.Index(rune(r)); int(g) != want[r] {
			return fmt.Errorf("Index(%#x) is %d, want %d", r, g, want[r])
		}
		return nil
	}
	h := mc.NewHash()
	for r := lo; r <= hi; r++ {
		for _, a := range []int{0, 0x10000, 0x100000, -0x10000} {
			if err := one(r + a); err != nil {
				return err
			}
		}
		h.Int(want[r])
	}
	for _, r := range edgeRunes {
		if err := one(r); err != nil {
			return err
		}
	}
	x.Step(n)
	x.Outcome(uint64(h))
	x.Validated()
	return nil
}

type manyCase struct{ N, Width, Gap, Base, Fmt int }

type choiceRec struct{ Enc, Fmt int }

type choiceCase struct {
	Recs  []choiceRec
	Order []int // order of the subtables' data
	Gap   int
	Share bool // all records of the same format share the first one's data
}

var cmapEncs = [][2]int{{0, 3}, {0, 4}, {3, 0}, {3, 1}, {3, 10}, {1, 0}, {2, 1}}

func (c choiceCase) build() ([]byte, map[int]bool, bool) {
	n := len(c.Recs)
	data := make([][]byte, n)
	glyph := make([]int, n)
	for i, r := range c.Recs {
		glyph[i] = 10 + i
		if r.Fmt == 12 {
			data[i] = fontgen.Format12([]fontgen.Group{{Start: 'A', End: 'B', Glyph: glyph[i]}})
		} else {
			data[i] = fontgen.Format4([]fontgen.Seg{{Start: 'A', End: 'B', Delta: glyph[i] - 'A'}}, nil)
		}
	}
	var w fontgen.W
	w.U16(0)
	w.U16(n)
	off := make([]int, n)
	p := 4 + 8*n
	var body []byte
	for _, i := range c.Order {
		for k := 0; k < c.Gap; k++ {
			body = append(body, 0xEE)
		}
		off[i] = p + len(body)
		body = append(body, data[i]...)
	}
	if c.Share {
		for i := range off {
			off[i], glyph[i] = off[0], glyph[0]
		}
	}
	for i, r := range c.Recs {
		e := cmapEncs[r.Enc]
		w.U16(e[0])
		w.U16(e[1])
		w.U32(off[i])
	}
	w.B = append(w.B, body...)
	// The first Unicode record, else a Microsoft record: the last one, which has
	// the largest repertoire, if they are in their order.
	for i, r := range c.Recs {
		if r.Enc < 2 {
			return w.B, map[int]bool{glyph[i]: true}, true
		}
	}
	ok := map[int]bool{}
	last, sorted := -1, true
	for i, r := range c.Recs {
		if r.Enc < 5 {
			ok[glyph[i]] = true
			if last >= 0 && c.Recs[last].Enc >= r.Enc {
				sorted = false
			}
			last = i
		}
	}
	if last >= 0 && sorted {
		ok = map[int]bool{glyph[last]: true}
	}
	return w.B, ok, len(ok) > 0
}

type realCmapCase struct {
	Font   string
	Lo, Hi int
}

var c04 = &mc.Check{
	ID:          "C04",
	Rule:        "all lists of at most 3 disjoint segments over 7 codes (9 thorough) at 3 bases, each segment of 8 kinds (4 deltas, own glyph array with 3 deltas, shared glyph array), as format 4; the same interval lists at 6 bases with 4 first glyphs each as format 12; regular maps of 0..70 segments; all sequences of at most 3 encoding records over 7 encodings and 2 formats in all data orders, with gaps and with shared data; every rune of and around the codes, 16 bit aliases and edge runes. Bundled fonts: every rune from -2 to 0x110010 against the XML dump",
	Assumptions: []string{"the fontgen encoder and the XML dumps describe the character maps", "of several Microsoft maps, any may be used"},
	Run: func(c *mc.Ctx) {
		n := c.N(7, 9)
		mc.Explore(c, "format4", func(yield func(cmapCase) bool) {
			for _, base := range []int{0, 'A', 0x10000 - n} {
				if !intervals(n, 3, func(iv [][2]int) bool {
					return tuples(len(iv), nSegKinds, func(kinds []int) bool {
						cc := cmapCase{Base: base}
						for i, v := range iv {
							cc.Segs = append(cc.Segs, segSpec{v[0], v[1], kinds[i]})
						}
						return yield(cc)
					})
				}) {
					return
				}
			}
		}, func(x *mc.X, cc cmapCase) error {
			segs, want := cc.build()
			if len(segs) == 0 || segs[len(segs)-1].End != 0xffff {
				want[0xffff] = 0
			}
			ft := fontgen.New(nil)
			ft.Cmap = fontgen.Cmap(fontgen.CmapSub{PID: 3, PSID: 1, Data: fontgen.Format4(segs, sharedArray)})
			f, err := parseOK(ft.Bytes())
			if err != nil {
				return err
			}
			return checkRunes(x, f, want, max(cc.Base-2, 0), cc.Base+n+2)
		})
		firsts := []int{0, 1, 100, 0xfff0}
		mc.Explore(c, "format12", func(yield func(cmapCase) bool) {
			for _, base := range []int{0, 'A', 0xfffd, 0x10000, 0x1f600, 0x10fffa} {
				if !intervals(6, 3, func(iv [][2]int) bool {
					return tuples(len(iv), len(firsts), func(kinds []int) bool {
						cc := cmapCase{Base: base}
						for i, v := range iv {
							cc.Segs = append(cc.Segs, segSpec{v[0], v[1], kinds[i]})
						}
						return yield(cc)
					})
				}) {
					return
				}
			}
		}, func(x *mc.X, cc cmapCase) error {
			var gs []fontgen.Group
			want := map[int]int{}
			for _, s := range cc.Segs {
				gs = append(gs, fontgen.Group{Start: cc.Base + s.A, End: cc.Base + s.B, Glyph: firsts[s.Kind]})
				for k := s.A; k <= s.B; k++ {
					want[cc.Base+k] = firsts[s.Kind] + k - s.A
				}
			}
			ft := fontgen.New(nil)
			ft.Cmap = fontgen.Cmap(fontgen.CmapSub{PID: 3, PSID: 10, Data: fontgen.Format12(gs)})
			f, err := parseOK(ft.Bytes())
			if err != nil {
				return err
			}
			return checkRunes(x, f, want, max(cc.Base-2, 0), cc.Base+8)
		})
		mc.Explore(c, "many-segments", func(yield func(manyCase) bool) {
			for _, fm := range []int{4, 12} {
				for nn := 0; nn <= c.N(70, 300); nn++ {
					for width := 1; width <= 3; width++ {
						for gap := 0; gap <= 2; gap++ {
							for _, base := range []int{0, 0x3000} {
								if !yield(manyCase{nn, width, gap, base, fm}) {
									return
								}
							}
						}
					}
				}
			}
			// Glyph arrays beyond 15 bits, and numbers of groups beyond 16.
			for _, m := range []manyCase{{600, 100, 1, 0, 4}, {800, 70, 2, 7, 4}, {300, 200, 0, 0x500, 4}, {66000, 1, 1, 0, 12}, {140000, 2, 1, 0x3000, 12}} {
				if !yield(m) {
					return
				}
			}
			// Offsets and counts beyond 15 and 16 bits.
			for width := 1; width <= 2; width++ {
				for _, base := range []int{0, 0x3000} {
					for _, nn := range []int{1000, 1023, 1024, 4094, 4095, 4096, 7000} {
						if !yield(manyCase{nn, width, 1, base, 4}) {
							return
						}
					}
				}
				for _, base := range []int{0, 0x3000, 0xffff, 0x10000} {
					for _, nn := range []int{1000, 2730, 2731, 5461, 5462, 20000} {
						if !yield(manyCase{nn, width, 1, base, 12}) {
							return
						}
					}
				}
			}
		}, func(x *mc.X, m manyCase) error {
			want := map[int]int{}
			var segs []fontgen.Seg
			var gs []fontgen.Group
			p := m.Base
			for i := 0; i < m.N; i++ {
				s := fontgen.Seg{Start: p, End: p + m.Width - 1, Delta: 3 * i}
				if m.Fmt == 12 {
					s.Delta = i*5%60000 - p
				}
				if i%3 == 1 {
					for k := 0; k < m.Width; k++ {
						s.Array = append(s.Array, 1+(i*7+k)%50)
					}
				}
				for k := 0; k < m.Width; k++ {
					if s.Array != nil && m.Fmt == 4 {
						want[p+k] = s.Array[k] + s.Delta
					} else {
						want[p+k] = (p + k + s.Delta) & 0xffff
					}
				}
				segs = append(segs, s)
				gs = append(gs, fontgen.Group{Start: s.Start, End: s.End, Glyph: s.Start + s.Delta})
				p += m.Width + m.Gap
			}
			ft := fontgen.New(nil)
			if m.Fmt == 4 {
				ft.Cmap = fontgen.Cmap(fontgen.CmapSub{PID: 0, PSID: 3, Data: fontgen.Format4(segs, nil)})
			} else {
				ft.Cmap = fontgen.Cmap(fontgen.CmapSub{PID: 0, PSID: 4, Data: fontgen.Format12(gs)})
			}
			f, err := parseOK(ft.Bytes())
			if err != nil {
				return err
			}
			return checkRunes(x, f, want, max(m.Base-2, 0), p+3)
		})
		mc.Explore(c, "encoding-choice", func(yield func(choiceCase) bool) {
			// One supported record among many others.
			for _, n := range []int{100, 255, 256, 257, 512, 3000} {
				for _, at := range []int{0, 1, 99, 254, 255, 256, 511, 2999} {
					for v := 0; v < 10 && at < n; v++ {
						var recs []choiceRec
						ord := make([]int, n)
						for i := range ord {
							ord[i] = i
							recs = append(recs, choiceRec{5 + i%2, 4 + 8*(i%3/2)})
						}
						recs[at] = choiceRec{v / 2, 4 + 8*(v%2)}
						if !yield(choiceCase{recs, ord, 0, false}) {
							return
						}
					}
				}
			}
			for n := 1; n <= 3; n++ {
				if !tuples(n, len(cmapEncs)*2, func(t []int) bool {
					var recs []choiceRec
					for _, v := range t {
						recs = append(recs, choiceRec{v / 2, 4 + 8*(v%2)})
					}
					return permutations(n, func(ord []int) bool {
						for _, gap := range []int{0, 6, 70001} {
							if gap > 6 && n > 2 {
								continue
							}
							if !yield(choiceCase{recs, ord, gap, false}) {
								return false
							}
						}
						if ord[0] != 0 || gapOrder(ord) {
							return true
						}
						return yield(choiceCase{recs, ord, 0, true})
					})
				}) {
					return
				}
			}
		}, func(x *mc.X, cc choiceCase) error {
			tab, glyphs, ok := cc.build()
			ft := fontgen.New(nil)
			ft.Cmap = tab
			f, err := truetype.Parse(ft.Bytes())
			x.Step(1)
			if !ok {
				// No supported map: the font cannot be used.
				if err == nil {
					if g := f.Index('A'); g != 0 {
						return fmt.Errorf("Index('A') is %d in a font without a Unicode or Microsoft map", g)
					}
				}
				x.Validated()
				return nil
			}
			if err != nil {
				return fmt.Errorf("rejected: %v", err)
			}
			a, b := f.Index('A'), f.Index('B')
			if !glyphs[int(a)] || b != a+1 {
				return fmt.Errorf("Index('A'), Index('B') are %d, %d; want %v and one more", a, b, glyphs)
			}
			for _, r := range []rune{'@', 'C', 0x10041} {
				if g := f.Index(r); g != 0 {
					return fmt.Errorf("Index(%q) is %d, want 0", r, g)
				}
			}
			h := mc.NewHash()
			h.Int(int(a))
			x.Outcome(uint64(h))
			x.Step(5)
			x.Validated()
			return nil
		})
		mc.Explore(c, "bundled-fonts", func(yield func(realCmapCase) bool) {
			for _, n := range fontNames {
				for lo := -2; lo < 0x110010; lo += 0x4000 {
					if !yield(realCmapCase{n, lo, min(lo+0x4000, 0x110010)}) {
						return
					}
				}
			}
		}, func(x *mc.X, rc realCmapCase) error {
			fs, err := loadRealFonts()
			if err != nil {
				return err
			}
			for _, r := range fs {
				if r.name != rc.Font {
					continue
				}
				f, err := parseOK(r.bytes)
				if err != nil {
					return err
				}
				m := r.ttx.Cmap[0<<16|3]
				if m == nil {
					m = r.ttx.Cmap[3<<16|1]
				}
				if m == nil {
					return fmt.Errorf("no Unicode map in the dump of %s", r.name)
				}
				hits := 0
				for c := rc.Lo; c < rc.Hi; c++ {
					want := 0
					if name, ok := m[c]; ok {
						want = r.ttx.ID[name]
						hits++
					}
					if g := f.Index(rune(c)); int(g) != want {
						return fmt.Errorf("%s: Index(%#x) is %d, want %d", r.name, c, g, want)
					}
				}
				x.Step(rc.Hi - rc.Lo)
				h := mc.NewHash()
				h.Int(hits)
				x.Outcome(uint64(h))
				x.Validated()
			}
			return nil
		})
	},
}

// gapOrder reports whether ord is not the identity.
func gapOrder(ord []int) bool {
	for i, v := range ord {
		if i != v {
			return true
		}
	}
	return false
}
