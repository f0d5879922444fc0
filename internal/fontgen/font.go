// Package fontgen synthesises TrueType fonts byte by byte, so that checks can
// enumerate fonts. It shares no code with the package under test.
package fontgen

import "sort"

// W is a big-endian writer.
type W struct{ B []byte }

func (w *W) U8(v int)  { w.B = append(w.B, byte(v)) }
func (w *W) U16(v int) { w.B = append(w.B, byte(v>>8), byte(v)) }
func (w *W) U32(v int) { w.B = append(w.B, byte(v>>24), byte(v>>16), byte(v>>8), byte(v)) }

// Put16 overwrites a 16 bit value.
func Put16(b []byte, i, v int) { b[i], b[i+1] = byte(v>>8), byte(v) }

// Put32 overwrites a 32 bit value.
func Put32(b []byte, i, v int) {
	b[i], b[i+1], b[i+2], b[i+3] = byte(v>>24), byte(v>>16), byte(v>>8), byte(v)
}

// Table is a named table.
type Table struct {
	Tag  string
	Data []byte
}

// HM is a glyph's horizontal metric.
type HM struct{ Adv, LSB int }

// Font is a font's contents. Empty optional tables are left out.
type Font struct {
	UPEM          int
	BBox          [4]int // xMin, yMin, xMax, yMax
	LocaLong      bool
	Ascent, Desc  int
	Glyphs        [][]byte // glyf data, nil if empty
	GlyphPad      int      // padding after each glyph
	HM            []HM
	NHMetric      int // 0 means len(HM)
	Cmap          []byte
	Name, Kern    []byte
	OS2, VMtx     []byte
	Hdmx          []byte
	Cvt           []int
	Fpgm, Prep    []byte
	MaxTwilight   int
	MaxStorage    int
	MaxFDefs      int
	MaxStack      int
	OmitEmptyGlyf bool
}

// New returns a font with sane defaults and the given glyphs.
func New(glyphs ...[]byte) *Font {
	f := &Font{UPEM: 64, BBox: [4]int{-64, -64, 128, 128}, Ascent: 50, Desc: -14, Glyphs: glyphs, MaxStack: 64, MaxStorage: 16, MaxTwilight: 8, MaxFDefs: 8}
	for range glyphs {
		f.HM = append(f.HM, HM{64, 0})
	}
	f.Cmap = Cmap(CmapSub{3, 1, Format4([]Seg{{Start: 'A', End: 'A' + max(len(glyphs), 1) - 1, Delta: -'A'}}, nil)})
	return f
}

// Clone copies f; slices are shared except HM and Glyphs.
func (f *Font) Clone() *Font {
	g := *f
	g.HM = append([]HM(nil), f.HM...)
	g.Glyphs = append([][]byte(nil), f.Glyphs...)
	return &g
}

// Tables returns the font's tables.
func (f *Font) Tables() []Table {
	var head, maxp, hhea, hmtx, loca, glyf W
	head.U32(0x00010000)
	head.U32(0x00010000)
	head.U32(0)
	head.U32(0x5F0F3CF5)
	head.U16(3)
	head.U16(f.UPEM)
	for i := 0; i < 4; i++ {
		head.U32(0)
	}
	for _, v := range f.BBox {
		head.U16(v)
	}
	head.U16(0)
	head.U16(8)
	head.U16(2)
	if f.LocaLong {
		head.U16(1)
	} else {
		head.U16(0)
	}
	head.U16(0)

	maxp.U32(0x00010000)
	maxp.U16(len(f.Glyphs))
	maxp.U16(100) // maxPoints
	maxp.U16(10)
	maxp.U16(100)
	maxp.U16(10)
	maxp.U16(2)
	maxp.U16(f.MaxTwilight)
	maxp.U16(f.MaxStorage)
	maxp.U16(f.MaxFDefs)
	maxp.U16(0)
	maxp.U16(f.MaxStack)
	maxp.U16(1000)
	maxp.U16(10)
	maxp.U16(10)

	nhm := f.NHMetric
	if nhm == 0 {
		nhm = len(f.HM)
	}
	hhea.U32(0x00010000)
	hhea.U16(f.Ascent)
	hhea.U16(f.Desc)
	hhea.U16(0)
	hhea.U16(1000)
	for i := 0; i < 11; i++ {
		hhea.U16(0)
	}
	hhea.U16(nhm)
	for i, m := range f.HM {
		if i < nhm {
			hmtx.U16(m.Adv)
		}
		hmtx.U16(m.LSB)
	}

	for _, g := range f.Glyphs {
		if f.LocaLong {
			loca.U32(len(glyf.B))
		} else {
			loca.U16(len(glyf.B) / 2)
		}
		glyf.B = append(glyf.B, g...)
		if len(g) != 0 {
			for i := 0; i < f.GlyphPad; i++ {
				glyf.U8(0)
			}
		}
		if !f.LocaLong && len(glyf.B)%2 != 0 {
			glyf.U8(0)
		}
	}
	if f.LocaLong {
		loca.U32(len(glyf.B))
	} else {
		loca.U16(len(glyf.B) / 2)
	}
	ts := []Table{{"OS/2", f.OS2}, {"cmap", f.Cmap}, {"cvt ", nil}, {"fpgm", f.Fpgm}, {"glyf", glyf.B}, {"hdmx", f.Hdmx}, {"head", head.B}, {"hhea", hhea.B},
		{"hmtx", hmtx.B}, {"kern", f.Kern}, {"loca", loca.B}, {"maxp", maxp.B}, {"name", f.Name}, {"prep", f.Prep}, {"vmtx", f.VMtx}}
	if len(f.Cvt) > 0 {
		var cvt W
		for _, v := range f.Cvt {
			cvt.U16(v)
		}
		ts[2].Data = cvt.B
	}
	out := ts[:0]
	for _, t := range ts {
		if len(t.Data) != 0 || t.Tag == "glyf" {
			out = append(out, t)
		}
	}
	return out
}

// Bytes returns the font in a plain layout.
func (f *Font) Bytes() []byte { return Layout(f.Tables(), Opts{}) }

// Opts are layout options.
type Opts struct {
	DataOrder []int // order of the tables' data, default as listed
	DirOrder  []int // order of the directory entries, default as listed
	Gap       int   // extra bytes before each table
	NoPad     bool  // do not align tables to 4 bytes
	BadSums   bool  // write nonsense checksums and search ranges
	Base      int   // file offset of the directory (for collections)
	Fill      byte
}

// Layout lays out tables in a file (starting with the table directory).
func Layout(ts []Table, o Opts) []byte {
	n := len(ts)
	var w W
	w.U32(0x00010000)
	w.U16(n)
	if o.BadSums {
		w.U16(0xffff)
		w.U16(0xdead)
		w.U16(1)
	} else {
		p, e := 1, 0
		for 2*p <= n {
			p, e = 2*p, e+1
		}
		w.U16(16 * p)
		w.U16(e)
		w.U16(16*n - 16*p)
	}
	dir := len(w.B)
	for i := 0; i < 16*n; i++ {
		w.U8(0)
	}
	off := make([]int, n)
	order := o.DataOrder
	if order == nil {
		for i := range ts {
			order = append(order, i)
		}
	}
	for _, i := range order {
		if !o.NoPad {
			for len(w.B)%4 != 0 {
				w.U8(int(o.Fill))
			}
		}
		for j := 0; j < o.Gap; j++ {
			w.U8(int(o.Fill))
		}
		off[i] = len(w.B)
		w.B = append(w.B, ts[i].Data...)
	}
	dorder := o.DirOrder
	if dorder == nil {
		for i := range ts {
			dorder = append(dorder, i)
		}
	}
	for k, i := range dorder {
		p := dir + 16*k
		copy(w.B[p:], ts[i].Tag)
		sum := 0
		for j := 0; j < len(ts[i].Data); j++ {
			sum += int(ts[i].Data[j]) << uint(24-8*(j%4))
		}
		if o.BadSums {
			sum = 0x12345678
		}
		Put32(w.B, p+4, sum)
		Put32(w.B, p+8, off[i]+o.Base)
		Put32(w.B, p+12, len(ts[i].Data))
	}
	return w.B
}

// Collection wraps fonts (given as tables) in a TTC file.
func Collection(version int, fonts [][]Table, o []Opts, reverse bool) []byte {
	var w W
	w.B = append(w.B, "ttcf"...)
	w.U32(version)
	w.U32(len(fonts))
	offs := len(w.B)
	for range fonts {
		w.U32(0)
	}
	if version >= 0x00020000 {
		w.U32(0)
		w.U32(0)
		w.U32(0)
	}
	for k := range fonts {
		i := k
		if reverse {
			i = len(fonts) - 1 - k
		}
		oo := Opts{}
		if i < len(o) {
			oo = o[i]
		}
		for len(w.B)%4 != 0 && !oo.NoPad {
			w.U8(0)
		}
		if oo.NoPad { // Nothing is aligned.
			w.B = append(w.B, []byte{0xee, 0xee, 0xee}[:1+k%3]...)
		}
		Put32(w.B, offs+4*i, len(w.B))
		oo.Base = len(w.B)
		w.B = append(w.B, Layout(fonts[i], oo)...)
	}
	return w.B
}

// CmapSub is an encoding record and its subtable.
type CmapSub struct {
	PID, PSID int
	Data      []byte
}

// Cmap builds a cmap table.
func Cmap(subs ...CmapSub) []byte {
	var w W
	w.U16(0)
	w.U16(len(subs))
	off := 4 + 8*len(subs)
	for _, s := range subs {
		w.U16(s.PID)
		w.U16(s.PSID)
		w.U32(off)
		off += len(s.Data)
	}
	for _, s := range subs {
		w.B = append(w.B, s.Data...)
	}
	return w.B
}

// Seg is a format 4 segment. If Array is non-nil, the segment uses the glyph
// array: Array has a glyph id per code (before adding Delta).
type Seg struct {
	Start, End, Delta int
	Array             []int
	// Share, if positive, points the segment at entry Share-1 of the array
	// that is put in front (pre), instead of an array of its own.
	Share int
}

// Format4 builds a format 4 subtable, with the final 0xffff segment unless a
// segment already ends there. pre is put in front of the glyph arrays.
func Format4(segs []Seg, pre []int) []byte {
	segs = append([]Seg(nil), segs...)
	if len(segs) == 0 || segs[len(segs)-1].End != 0xffff {
		segs = append(segs, Seg{Start: 0xffff, End: 0xffff, Delta: 1})
	}
	var w, arr W
	for _, v := range pre {
		arr.U16(v)
	}
	n := len(segs)
	ro := make([]int, n)
	for i, s := range segs {
		if s.Share > 0 {
			ro[i] = 2*(n-i) + 2*(s.Share-1)
		} else if s.Array != nil {
			// Offset from the range offset's own position.
			ro[i] = 2*(n-i) + len(arr.B)
			for _, v := range s.Array {
				arr.U16(v)
			}
		}
	}
	w.U16(4)
	w.U16(16 + 8*n + len(arr.B))
	w.U16(0)
	w.U16(2 * n)
	p, e := 1, 0
	for 2*p <= n {
		p, e = 2*p, e+1
	}
	w.U16(2 * p)
	w.U16(e)
	w.U16(2*n - 2*p)
	for _, s := range segs {
		w.U16(s.End)
	}
	w.U16(0)
	for _, s := range segs {
		w.U16(s.Start)
	}
	for _, s := range segs {
		w.U16(s.Delta)
	}
	for i := range segs {
		w.U16(ro[i])
	}
	w.B = append(w.B, arr.B...)
	return w.B
}

// Group is a format 12 group.
type Group struct{ Start, End, Glyph int }

// Format12 builds a format 12 subtable.
func Format12(gs []Group) []byte {
	var w W
	w.U16(12)
	w.U16(0)
	w.U32(16 + 12*len(gs))
	w.U32(0)
	w.U32(len(gs))
	for _, g := range gs {
		w.U32(g.Start)
		w.U32(g.End)
		w.U32(g.Glyph)
	}
	return w.B
}

// NameRec is a name record; Off and Len are relative to the storage area.
type NameRec struct{ PID, PSID, Lang, ID, Len, Off int }

// Name builds a name table.
func Name(recs []NameRec, storage []byte, gap int) []byte {
	var w W
	w.U16(0)
	w.U16(len(recs))
	w.U16(6 + 12*len(recs) + gap)
	for _, r := range recs {
		w.U16(r.PID)
		w.U16(r.PSID)
		w.U16(r.Lang)
		w.U16(r.ID)
		w.U16(r.Len)
		w.U16(r.Off)
	}
	for i := 0; i < gap; i++ {
		w.U8('#')
	}
	w.B = append(w.B, storage...)
	return w.B
}

// UTF16 encodes code units.
func UTF16(us ...int) []byte {
	var w W
	for _, u := range us {
		w.U16(u)
	}
	return w.B
}

// KernPair is a kerning pair.
type KernPair struct{ L, R, V int }

// Kern builds a kern table with sorted pairs.
func Kern(ps []KernPair) []byte {
	ps = append([]KernPair(nil), ps...)
	sort.SliceStable(ps, func(i, j int) bool { return ps[i].L<<16|ps[i].R < ps[j].L<<16|ps[j].R })
	var w W
	w.U16(0)
	w.U16(1)
	w.U16(0)
	w.U16(14 + 6*len(ps))
	w.U16(1)
	w.U16(len(ps))
	p, e := 1, 0
	for 2*p <= len(ps) {
		p, e = 2*p, e+1
	}
	w.U16(6 * p)
	w.U16(e)
	w.U16(6*len(ps) - 6*p)
	for _, k := range ps {
		w.U16(k.L)
		w.U16(k.R)
		w.U16(k.V)
	}
	return w.B
}

// OS2 builds an OS/2 table of the given length with the given typographic
// ascender and descender (at offsets 68 and 70, if it is long enough).
func OS2(n, asc, desc int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(0x40 + i)
	}
	if n >= 72 {
		Put16(b, 68, asc)
		Put16(b, 70, desc)
	}
	return b
}

// Hdmx builds an hdmx table: widths per ppem. Records are padded to 4 bytes.
func Hdmx(ppems []int, widths [][]int) []byte {
	var w W
	w.U16(0)
	w.U16(len(ppems))
	rec := 0
	if len(widths) > 0 {
		rec = (2 + len(widths[0]) + 3) &^ 3
	}
	w.U32(rec)
	for i, p := range ppems {
		w.U8(p)
		mx := 0
		for _, v := range widths[i] {
			mx = max(mx, v)
		}
		w.U8(mx)
		for _, v := range widths[i] {
			w.U8(v)
		}
		for k := 2 + len(widths[i]); k < rec; k++ {
			w.U8(0xEE)
		}
	}
	return w.B
}

// KernPairs decodes a table made by Kern.
func KernPairs(b []byte) (ps []KernPair) {
	for i := 18; i+6 <= len(b); i += 6 {
		u := func(j int) int { return int(b[i+j])<<8 | int(b[i+j+1]) }
		ps = append(ps, KernPair{u(0), u(2), int(int16(u(4)))})
	}
	return ps
}
