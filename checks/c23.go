package checks

import (
	"fmt"
	"os"
	"sync"

	"verif/internal/fontgen"
	"verif/internal/mc"

	"github.com/golang/freetype/truetype"
)

type ints = []int

// richFont is a small font with every table the package reads.
func richFont() *fontgen.Font {
	g := fontgen.Code
	ft := fontgen.New(
		nil,
		fontgen.Simple([][]fontgen.Pt{{{3, 1, true}, {5, 40, false}, {37, 44, true}, {30, 2, true}}}, fontgen.SimpleOpts{
			Instr: g(ints{0, 0}, fontgen.MIAP1, ints{2, 0}, fontgen.CALL, fontgen.SVTCA0, ints{1, 1}, fontgen.MIAP0, fontgen.IUP0, fontgen.IUP1),
		}),
		fontgen.Simple([][]fontgen.Pt{fontgen.Square(-5, -9, 20, 30), {{0, 0, true}, {9, 0, false}, {0, 9, false}}}, fontgen.SimpleOpts{
			Instr: g(ints{3, 0}, fontgen.RS, fontgen.SHPIX, fontgen.IUP1),
		}),
		nil, nil,
	)
	ft.Glyphs[3] = fontgen.Compound([4]int{-5, -9, 60, 44}, []fontgen.Comp{
		{Flags: fontgen.ArgsXY | fontgen.RoundXY, Glyph: 1, DX: 3, DY: 4},
		{Flags: fontgen.ArgsXY | fontgen.UseMetrics, Glyph: 2, DX: 20, DY: -3},
	}, g(ints{5}, fontgen.MDAP1, fontgen.IUP1), 0)
	ft.Glyphs[4] = fontgen.Simple([][]fontgen.Pt{{{1, 2, true}, {30, 2, true}, {20, 50, false}}}, fontgen.SimpleOpts{})
	for i := range ft.HM {
		ft.HM[i] = fontgen.HM{Adv: 30 + 11*i, LSB: i - 3}
	}
	ft.NHMetric = 4
	ft.HM[4].Adv = ft.HM[3].Adv
	ft.Ascent, ft.Desc = 55, -17
	ft.Cvt = []int{5, 41, 90}
	ft.Fpgm = g(ints{0}, fontgen.FDEF, fontgen.DUP, fontgen.MDAP1, fontgen.POP, fontgen.ENDF)
	ft.Prep = g(ints{0, 100}, fontgen.WCVTP, ints{0, 37}, fontgen.WS)
	ft.Kern = fontgen.Kern([]fontgen.KernPair{{1, 2, -7}, {2, 1, 9}, {2, 2, 30}, {4, 1, -1}})
	ft.OS2 = fontgen.OS2(78, 47, -12)
	var vm fontgen.W
	for i := range ft.Glyphs {
		vm.U16(60 + i)
		vm.U16(i - 2)
	}
	ft.VMtx = vm.B
	ft.Hdmx = fontgen.Hdmx([]int{1, 2, 12}, [][]int{{1, 2, 3, 4, 5}, {3, 1, 4, 2, 5}, {9, 8, 7, 6, 5}})
	ft.Name = fontgen.Name([]fontgen.NameRec{{3, 1, 0x409, 1, 6, 0}, {3, 1, 0x409, 4, 4, 6}}, fontgen.UTF16('R', 'i', 'c', 'h', '!'), 0)
	return ft
}

// plainFont has the required tables only, and no programs.
func plainFont(k int) *fontgen.Font {
	ft := fontgen.New(nil,
		fontgen.Simple([][]fontgen.Pt{{{3 + k, 1, true}, {5, 40, false}, {37, 44 + k, true}}}, fontgen.SimpleOpts{}),
		fontgen.Compound([4]int{0, 0, 50, 50}, []fontgen.Comp{{Flags: fontgen.ArgsXY, Glyph: 1, DX: 7, DY: k}}, nil, 0))
	for i := range ft.HM {
		ft.HM[i] = fontgen.HM{Adv: 20 + 5*i + k, LSB: i + k}
	}
	ft.UPEM = 64 + k
	return ft
}

var c23Print = printOpts{runes: []rune{0, 'A' - 1, 'A', 'B', 'C', 'D', 'E', 'F', 'Z', 0xffff, 0x10041}, n: 5, step: 1, scales: []int{64, 133}}

type layoutCase struct {
	Rich       bool
	Data, Dir  []int
	Gap        int
	NoPad, Bad bool
}

func (l layoutCase) font() *fontgen.Font {
	if l.Rich {
		return richFont()
	}
	return plainFont(0)
}

// checkPrint parses b and compares all it does with want.
func checkPrint(x *mc.X, b []byte, o printOpts, want fontPrint) error {
	f, err := parseOK(b)
	if err != nil {
		return err
	}
	got := takePrint(x, f, o)
	x.Outcome(got[fpPlain] ^ got[fpHead])
	if err := got.diff(want); err != nil {
		return fmt.Errorf("%v from the same tables laid out plainly", err)
	}
	return nil
}

func plainPrint(x *mc.X, ft *fontgen.Font) (fontPrint, error) {
	f, err := parseOK(ft.Bytes())
	if err != nil {
		return fontPrint{}, err
	}
	return takePrint(x, f, c23Print), nil
}

type extraCase struct {
	Tag            string
	DirPos, DatPos int
	Len, N         int
}

var unknownTags = []string{"DSIG", "zzzz", "    ", "cmaq", "CMAP", "cvt\x00", "cvt", "OS/3", "os/2", "glyg", "Glyf", "maxq", "\x00\x00\x00\x00", "head\x00", "loda", "post", "vhea", "VORG", "kerx", "\xff\xff\xff\xff"}

type ttcCase struct {
	Version int
	Fonts   []int
	Reverse bool
	Gap     int
	NoPad   bool
	Shared  bool
}

// largeLayout adds N unknown tables of Len bytes after, within or before the
// font's own tables, and makes it the first of a collection of Fonts fonts.
type largeLayout struct {
	Rich              bool
	N, At, Len, Fonts int
}

type subsetCase struct{ Mask, Empty int }

var optionalTables = []string{"OS/2", "cvt ", "fpgm", "hdmx", "kern", "name", "prep", "vmtx"}

// Which optional tables (by bit) a feature may depend on.
var featureDeps = [nFeatures]int{
	fpVMetric: 1<<0 | 1<<7,
	fpKern:    1 << 4,
	fpName:    1 << 5,
	fpHinted:  1<<1 | 1<<2 | 1<<6 | 1<<0 | 1<<7,
	fpHdmx:    1<<1 | 1<<2 | 1<<6 | 1<<3,
}

func subsetTables(mask int) []fontgen.Table {
	var ts []fontgen.Table
	for _, t := range richFont().Tables() {
		keep := true
		for i, o := range optionalTables {
			if t.Tag == o && mask>>i&1 == 0 {
				keep = false
			}
		}
		if keep {
			ts = append(ts, t)
		}
	}
	return ts
}

// sharedCollection is a collection whose fonts share the tables with equal
// contents: all tables first, all directories after.
func sharedCollection(version int, fonts [][]fontgen.Table) []byte {
	var w fontgen.W
	w.B = append(w.B, "ttcf"...)
	w.U32(version)
	w.U32(len(fonts))
	offs := len(w.B)
	for range fonts {
		w.U32(0)
	}
	at := map[string]int{}
	for _, ts := range fonts {
		for _, t := range ts {
			if _, ok := at[string(t.Data)]; !ok {
				at[string(t.Data)] = len(w.B)
				w.B = append(w.B, t.Data...)
				for len(w.B)%4 != 0 {
					w.U8(0)
				}
			}
		}
	}
	for i, ts := range fonts {
		fontgen.Put32(w.B, offs+4*i, len(w.B))
		w.U32(0x00010000)
		w.U16(len(ts))
		w.U16(0)
		w.U16(0)
		w.U16(0)
		for _, t := range ts {
			w.B = append(w.B, t.Tag...)
			w.U32(0)
			w.U32(at[string(t.Data)])
			w.U32(len(t.Data))
		}
	}
	return w.B
}

type bundledLayout struct{ Font, Kind, I, J int }

// fileTables reads the table directory of a font file.
func fileTables(b []byte) (ts []fontgen.Table) {
	n := int(b[4])<<8 | int(b[5])
	for i := 0; i < n; i++ {
		e := b[12+16*i:]
		off := int(e[8])<<24 | int(e[9])<<16 | int(e[10])<<8 | int(e[11])
		l := int(e[12])<<24 | int(e[13])<<16 | int(e[14])<<8 | int(e[15])
		ts = append(ts, fontgen.Table{Tag: string(e[:4]), Data: b[off : off+l]})
	}
	return ts
}

var (
	fontFilesMu sync.Mutex
	fontFiles   = map[string][]byte{}
)

func fontFile(name string) ([]byte, error) {
	fontFilesMu.Lock()
	defer fontFilesMu.Unlock()
	if b, ok := fontFiles[name]; ok {
		return b, nil
	}
	b, err := os.ReadFile(repoDir() + "/testdata/" + name + ".ttf")
	fontFiles[name] = b
	return b, err
}

var bundledPrint = printOpts{runes: func() (rs []rune) {
	for r := rune(0); r < 0x400; r++ {
		rs = append(rs, r)
	}
	return append(rs, 0x20ac, 0x2022, 0xfb01, 0xffff, 0x1f600)
}(), n: 392, step: 9, scales: []int{12 * 64, 17*64 + 5}}

var (
	bundledOnce   sync.Once
	bundledPrints []fontPrint
	bundledErr    error
)

func bundledWant() ([]fontPrint, error) {
	bundledOnce.Do(func() {
		bundledPrints = make([]fontPrint, len(fontNames))
		for i, n := range fontNames {
			b, err := fontFile(n)
			if err == nil {
				var f *truetype.Font
				if f, err = parseOK(b); err == nil {
					bundledPrints[i] = takePrint(nil, f, bundledPrint)
				}
			}
			if err != nil {
				bundledErr = err
			}
		}
	})
	return bundledPrints, bundledErr
}

func swapped(n, i, j int) []int {
	p := make([]int, n)
	for k := range p {
		p[k] = k
	}
	p[i], p[j] = p[j], p[i]
	return p
}

func rotated(n, by int, reverse bool) []int {
	p := make([]int, n)
	for k := range p {
		p[k] = (k + by) % n
		if reverse {
			p[k] = n - 1 - p[k]
		}
	}
	return p
}

var c23 = &mc.Check{
	ID:          "C23",
	Rule:        "all 5040 orders of the 7 required tables in the file, and all 5040 in the directory, x 4 gaps x aligned or not x checksums right or wrong; for a font with all 15 tables all products of two-table swaps in the file and in the directory and all rotations and reversals of either; 20 unknown tags x 3 lengths x all positions in directory and file, one and many; collections of both versions with 1..4 fonts of 4 kinds in all combinations, stored in order and reversed, and sharing tables; up to 65500 unknown tables, files of up to 16 MB and collections of up to 65537 fonts; all 256 subsets of the 8 optional tables (absent, or present with length zero); the bundled fonts under all two-table swaps, rotations and reversals and in collections. Every public query on the font, loaded glyphs included, is compared with the plain layout",
	Assumptions: []string{"a font is observed through its public queries: units per em, bounds, indices of sample runes, all metrics, kerning pairs, names, and all glyphs loaded with and without hinting at two scales"},
	Run: func(c *mc.Ctx) {
		mc.Explore(c, "orders", func(yield func(layoutCase) bool) {
			for which := 0; which < 2; which++ {
				if !permutations(7, func(p []int) bool {
					for v := 0; v < 16; v++ {
						l := layoutCase{false, p, nil, v % 4, v&4 != 0, v&8 != 0}
						if which == 1 {
							l.Data, l.Dir = nil, p
						}
						if !yield(l) {
							return false
						}
					}
					return true
				}) {
					return
				}
			}
			n := len(richFont().Tables())
			for i := 0; i < n; i++ {
				for j := i; j < n; j++ {
					for k := 0; k < n; k++ {
						for l := k; l < n; l++ {
							if i == j && i > 0 || k == l && k > 0 {
								continue
							}
							v := i + 3*j + 5*k + 7*l
							if !yield(layoutCase{true, swapped(n, i, j), swapped(n, k, l), v % 4, v&4 != 0, v&8 != 0}) {
								return
							}
						}
					}
				}
			}
			for i := 0; i < 2*n; i++ {
				for j := 0; j < 2*n; j++ {
					for gap := 0; gap < 4; gap++ {
						if !yield(layoutCase{true, rotated(n, i/2, i%2 == 1), rotated(n, j/2, j%2 == 1), gap, i%3 == 0, j%3 == 0}) {
							return
						}
					}
				}
			}
		}, func(x *mc.X, l layoutCase) error {
			ft := l.font()
			want, err := plainPrint(x, ft)
			if err != nil {
				return err
			}
			return checkPrint(x, fontgen.Layout(ft.Tables(), fontgen.Opts{DataOrder: l.Data, DirOrder: l.Dir, Gap: l.Gap, NoPad: l.NoPad, BadSums: l.Bad, Fill: 0xB7}), c23Print, want)
		})
		mc.Explore(c, "unknown-tables", func(yield func(extraCase) bool) {
			n := len(richFont().Tables())
			for _, tag := range unknownTags {
				for _, l := range []int{0, 3, 100} {
					for p := 0; p <= n; p++ {
						for q := 0; q <= n; q++ {
							if !yield(extraCase{tag, p, q, l, 1}) {
								return
							}
						}
					}
				}
			}
			for cnt := 2; cnt <= len(unknownTags); cnt++ {
				for p := 0; p <= n; p++ {
					if !yield(extraCase{"", p, n - p, 5, cnt}) {
						return
					}
				}
			}
		}, func(x *mc.X, e extraCase) error {
			ft := richFont()
			want, err := plainPrint(x, ft)
			if err != nil {
				return err
			}
			ts := ft.Tables()
			n := len(ts)
			var data, dir []int
			add := func(list []int, pos int) []int {
				for i := 0; i < n; i++ {
					if i == pos {
						for k := 0; k < e.N; k++ {
							list = append(list, n+k)
						}
					}
					list = append(list, i)
				}
				if pos == n {
					for k := 0; k < e.N; k++ {
						list = append(list, n+k)
					}
				}
				return list
			}
			data, dir = add(data, e.DatPos), add(dir, e.DirPos)
			junk := make([]byte, e.Len)
			for i := range junk {
				junk[i] = byte(0xC0 + i)
			}
			for k := 0; k < e.N; k++ {
				tag := e.Tag
				if e.N > 1 {
					tag = unknownTags[k]
				}
				ts = append(ts, fontgen.Table{Tag: (tag + "    ")[:4], Data: junk})
			}
			for i := n; i < len(ts); i++ {
				if ts[i].Tag == "cvt " || ts[i].Tag == "head" {
					ts[i].Tag = "xyz "
				}
			}
			return checkPrint(x, fontgen.Layout(ts, fontgen.Opts{DataOrder: data, DirOrder: dir}), c23Print, want)
		})
		mc.Explore(c, "collections", func(yield func(ttcCase) bool) {
			for _, v := range []int{0x00010000, 0x00020000} {
				for n := 1; n <= 4; n++ {
					if !tuples(n, 4, func(t []int) bool {
						for k := 0; k < 12; k++ {
							if !yield(ttcCase{v, t, k&1 != 0, k / 4, k&2 != 0, false}) {
								return false
							}
						}
						return yield(ttcCase{v, t, false, 0, false, true})
					}) {
						return
					}
				}
			}
		}, func(x *mc.X, k ttcCase) error {
			fonts := []*fontgen.Font{richFont(), plainFont(0), plainFont(3), richFont()}
			fonts[3].UPEM = 100
			var tss [][]fontgen.Table
			var opts []fontgen.Opts
			for _, i := range k.Fonts {
				tss = append(tss, fonts[i].Tables())
				opts = append(opts, fontgen.Opts{Gap: k.Gap, NoPad: k.NoPad})
			}
			want, err := plainPrint(x, fonts[k.Fonts[0]])
			if err != nil {
				return err
			}
			var b []byte
			if k.Shared {
				b = sharedCollection(k.Version, tss)
			} else {
				b = fontgen.Collection(k.Version, tss, opts, k.Reverse)
			}
			return checkPrint(x, b, c23Print, want)
		})
		mc.Explore(c, "large", func(yield func(largeLayout) bool) {
			// Many tables, and tables far into the file.
			for _, rich := range []bool{false, true} {
				for _, n := range []int{1, 2, 15, 16, 17, 100, 239, 240, 241, 255, 256, 257, 300, 1000, 4094, 4095, 4096, 4097, 30000, 65500} {
					for _, at := range []int{0, 1, 2} {
						if !yield(largeLayout{rich, n, at, 0, 0}) {
							return
						}
					}
				}
				for _, l := range []int{0x7ff0, 0xff00, 0xffff, 0x10000, 0x10100, 0x7fffff, 0xffff00, 0x1000000, 0x1000123} {
					for _, at := range []int{0, 1, 2} {
						if !yield(largeLayout{rich, 1, at, l, 0}) {
							return
						}
					}
				}
				for _, n := range []int{5, 16, 17, 100, 255, 256, 257, 1000, 0x4000, 0x10001} {
					if !yield(largeLayout{rich, 0, 0, 0, n}) {
						return
					}
				}
				for _, l := range []int{0xff00, 0xfffff, 0x1000000} {
					for _, n := range []int{1, 2, 300} {
						if !yield(largeLayout{rich, 1, 2, l, n}) {
							return
						}
					}
				}
			}
		}, func(x *mc.X, k largeLayout) error {
			ft := layoutCase{Rich: k.Rich}.font()
			want, err := plainPrint(x, ft)
			if err != nil {
				return err
			}
			ts := ft.Tables()
			var extra []fontgen.Table
			for i := 0; i < k.N; i++ {
				t := fontgen.Table{Tag: string([]byte{'z', byte(i >> 8), byte(i), 'z'}), Data: make([]byte, k.Len)}
				for j := range t.Data {
					t.Data[j] = byte(j + 1)
				}
				extra = append(extra, t)
			}
			switch k.At {
			case 0:
				ts = append(ts, extra...)
			case 1:
				ts = append(append(append([]fontgen.Table(nil), ts[:4]...), extra...), ts[4:]...)
			case 2:
				ts = append(extra, ts...)
			}
			if k.Fonts == 0 {
				return checkPrint(x, fontgen.Layout(ts, fontgen.Opts{}), c23Print, want)
			}
			// The fonts share their tables.
			fonts := make([][]fontgen.Table, k.Fonts)
			other := plainFont(3).Tables()
			for i := range fonts {
				fonts[i] = other
			}
			fonts[0] = ts
			return checkPrint(x, sharedCollection(0x00010000, fonts), c23Print, want)
		})
		mc.Explore(c, "optional-tables", func(yield func(subsetCase) bool) {
			for m := 0; m < 256; m++ {
				for e := 0; e < 256; e++ {
					if e&m == 0 && !yield(subsetCase{m, e}) {
						return
					}
				}
			}
		}, func(x *mc.X, k subsetCase) error {
			take := func(mask, empty int) (fontPrint, *truetype.Font, error) {
				ts := subsetTables(mask)
				for i, o := range optionalTables {
					if empty>>i&1 != 0 {
						ts = append(ts, fontgen.Table{Tag: o})
					}
				}
				f, err := parseOK(fontgen.Layout(ts, fontgen.Opts{}))
				if err != nil {
					return fontPrint{}, nil, fmt.Errorf("optional tables %#x, empty ones %#x: %v", mask, empty, err)
				}
				return takePrint(x, f, c23Print), f, nil
			}
			got, f, err := take(k.Mask, k.Empty)
			if err != nil {
				return err
			}
			x.Outcome(got[fpHinted] ^ got[fpVMetric] + 3*got[fpKern] + got[fpName] + 5*got[fpHdmx])
			// A feature does not depend on tables that are not its own.
			for i, dep := range featureDeps {
				if k.Mask&^dep == 0 && k.Empty == 0 {
					continue
				}
				want, _, err := take(k.Mask&dep, 0)
				if err != nil {
					return err
				}
				if got[i] != want[i] {
					return fmt.Errorf("%s differ from those of the font without the tables that do not bear on them", featureNames[i])
				}
			}
			has := func(i int) bool { return k.Mask>>i&1 != 0 }
			kern, name, top, height := 0, "", 0, 64
			if has(4) {
				kern = -7
			}
			if has(5) {
				name = "Ric"
			}
			if has(0) {
				top, height = 47, 59
			}
			if has(7) {
				top, height = -1, 61
			}
			if v := int(f.Kern(64, 1, 2)); v != kern {
				return fmt.Errorf("kerning is %d, want %d", v, kern)
			}
			if v := f.Name(1); v != name {
				return fmt.Errorf("name is %q, want %q", v, name)
			}
			if v := f.VMetric(64, 1); int(v.AdvanceHeight) != height || int(v.TopSideBearing) != top {
				return fmt.Errorf("vertical metrics are %v, want %d and %d", v, height, top)
			}
			return nil
		})
		mc.Explore(c, "bundled-fonts", func(yield func(bundledLayout) bool) {
			for fi, name := range fontNames {
				b, err := fontFile(name)
				if err != nil {
					c.Fail("bundled-fonts", nil, "%v", err)
					return
				}
				n := len(fileTables(b))
				for i := 0; i < n; i++ {
					for j := i + 1; j < n; j++ {
						if !yield(bundledLayout{fi, 0, i, j}) || !yield(bundledLayout{fi, 1, i, j}) {
							return
						}
					}
					for kind := 2; kind < 6; kind++ {
						if !yield(bundledLayout{fi, kind, i, 0}) {
							return
						}
					}
				}
				for kind := 6; kind < 8; kind++ {
					for j := 0; j < 3; j++ {
						if !yield(bundledLayout{fi, kind, j, 0}) {
							return
						}
					}
				}
			}
		}, func(x *mc.X, k bundledLayout) error {
			want, err := bundledWant()
			if err != nil {
				return err
			}
			b, err := fontFile(fontNames[k.Font])
			if err != nil {
				return err
			}
			ts := fileTables(b)
			n := len(ts)
			var o fontgen.Opts
			switch k.Kind {
			case 0:
				o.DataOrder = swapped(n, k.I, k.J)
			case 1:
				o.DirOrder = swapped(n, k.I, k.J)
			case 2, 3:
				o.DataOrder, o.Gap = rotated(n, k.I, k.Kind == 3), k.I%4
			case 4, 5:
				o.DirOrder, o.NoPad = rotated(n, k.I, k.Kind == 5), k.I%2 == 0
			default:
				other, err := fontFile(fontNames[k.I])
				if err != nil {
					return err
				}
				fonts := [][]fontgen.Table{ts, fileTables(other)}
				if k.Kind == 6 {
					return checkPrint(x, fontgen.Collection(0x00010000, fonts, nil, true), bundledPrint, want[k.Font])
				}
				return checkPrint(x, sharedCollection(0x00020000, fonts), bundledPrint, want[k.Font])
			}
			return checkPrint(x, fontgen.Layout(ts, o), bundledPrint, want[k.Font])
		})
	},
}
