package checks

import (
	"fmt"
	"strings"

	"verif/internal/fontgen"
	"verif/internal/mc"

	"github.com/golang/freetype/truetype"
)

var nameEncs = [][2]int{{0, 3}, {0, 4}, {3, 1}, {3, 0}, {3, 10}, {1, 0}, {2, 2}}

// nameRecSpec picks an encoding, an id and a value of the small domain.
type nameRecSpec struct{ Enc, ID, Val int }

type nameCase struct {
	Recs []nameRecSpec
	Gap  int
}

// The storage area of nameCase. Values index spans of it.
var nameStorage = fontgen.UTF16('H', 'i', '~', 0x7f, 0x20, 0x1f, 0x141, 0x4100, 0xff, 0, 'Z', '!')

// Offsets and lengths; those that do not lie within the area are malformed.
var nameSpans = [][2]int{{0, 4}, {4, 20}, {22, 2}, {1, 2}, {0, 0}, {2, 3}, {22, 4}, {65535, 2}, {24, 0}}

var nameIDs = []int{1, 4, 0x104}

func nameText(storage []byte, off, n int) string {
	if off+n > len(storage) || n%2 != 0 {
		return ""
	}
	var sb strings.Builder
	for i := off; i < off+n; i += 2 {
		u := int(storage[i])<<8 | int(storage[i+1])
		if u >= 0x20 && u <= 0x7e {
			sb.WriteByte(byte(u))
		} else {
			sb.WriteByte('?')
		}
	}
	return sb.String()
}

// nameWant returns the acceptable texts for an id: that of the first Unicode
// record, or of any Microsoft record if there is none.
func nameWant(recs []fontgen.NameRec, storage []byte, id int) map[string]bool {
	ms := map[string]bool{}
	for _, r := range recs {
		if r.ID != id {
			continue
		}
		t := nameText(storage, r.Off, r.Len)
		switch {
		case r.PID == 0 && (r.PSID == 3 || r.PSID == 4):
			return map[string]bool{t: true}
		case r.PID == 3 && (r.PSID == 0 || r.PSID == 1 || r.PSID == 10):
			ms[t] = true
		}
	}
	if len(ms) == 0 {
		ms[""] = true
	}
	return ms
}

func checkNames(x *mc.X, f *truetype.Font, recs []fontgen.NameRec, storage []byte) error {
	h := mc.NewHash()
	ids := []int{0, 1, 2, 3, 4, 5, 6, 19, 0x104, 0x101, 0x400, 0xffff}
	for _, id := range ids {
		got := f.Name(truetype.NameID(id))
		if want := nameWant(recs, storage, id); !want[got] {
			return fmt.Errorf("Name(%d) is %q, want one of %q", id, got, want)
		}
		h.Bytes([]byte(got))
	}
	x.Step(len(ids))
	x.Outcome(uint64(h))
	x.Validated()
	return nil
}

type nameSpanCase struct{ Size, Off, Len, Gap, Enc int }
type nameTextCase struct{ Units []int }
type nameLongCase struct{ Recs, Units, At int }
type nameTruncCase struct{ N, Cut int }

var nameUnits = []int{'A', 0x20, 0x7e, 0x7f, 0x1f, 0, 0x80, 0xff, 0x100, 0x141, 0x4100, 0x7e20, 0xfffd, 0x41}

var c07 = &mc.Check{
	ID:          "C07",
	Rule:        "all sequences of at most 3 records over 7 encodings, 3 ids and 9 spans (6 of the 9 malformed or edge) with or without a gap before the storage area; every offset and length over storage areas of 0, 1, 2, 6 and 9 bytes, at the start of the file's 16 bit offset range and at its end; all texts of at most 3 code units over 14 boundary units; texts of up to 32767 units; up to 5460 records; every id; every truncation of tables of 0..4 records; bundled fonts against the XML dumps; 12 ids each",
	Assumptions: []string{"of several Microsoft records with the id, any may be used", "surrogate pairs are left out"},
	Run: func(c *mc.Ctx) {
		mc.Explore(c, "records", func(yield func(nameCase) bool) {
			ne, ni, nv := len(nameEncs), len(nameIDs), len(nameSpans)
			for n := 0; n <= 3; n++ {
				vals := nv
				encs := ne
				if n == 3 && !c.Thorough() {
					vals, encs = 6, 6
				}
				if !tuples(n, encs*ni*vals, func(t []int) bool {
					nc := nameCase{}
					for _, v := range t {
						nc.Recs = append(nc.Recs, nameRecSpec{v % encs, v / encs % ni, v / encs / ni})
					}
					if n < 3 {
						nc.Gap = 4
						if !yield(nc) {
							return false
						}
						nc.Gap = 0
					}
					return yield(nc)
				}) {
					return
				}
			}
		}, func(x *mc.X, nc nameCase) error {
			var recs []fontgen.NameRec
			for _, r := range nc.Recs {
				s := nameSpans[r.Val]
				recs = append(recs, fontgen.NameRec{PID: nameEncs[r.Enc][0], PSID: nameEncs[r.Enc][1], Lang: 0x409, ID: nameIDs[r.ID], Off: s[0], Len: s[1]})
			}
			ft := scratchFont(x)
			ft.Name = fontgen.Name(recs, nameStorage, nc.Gap)
			f, err := parseOK(ft.Bytes())
			if err != nil {
				return err
			}
			return checkNames(x, f, recs, nameStorage)
		})
		mc.Explore(c, "spans", func(yield func(nameSpanCase) bool) {
			for _, size := range []int{0, 1, 2, 6, 9} {
				for _, gap := range []int{0, 1, 65535 - 18 - 4, 65535 - 18} {
					for enc := 0; enc < 5; enc++ {
						for off := 0; off <= size+3; off++ {
							for n := 0; n <= size+3; n++ {
								if !yield(nameSpanCase{size, off, n, gap, enc}) {
									return
								}
							}
						}
						for _, off := range []int{0x7fff, 0x8000, 0xfff0, 0xfffe, 0xffff} {
							for _, n := range []int{0, 1, 2, 4, 0x10, 0xfffe, 0xffff} {
								if !yield(nameSpanCase{size, off, n, gap, enc}) || !yield(nameSpanCase{size, n, off, gap, enc}) {
									return
								}
							}
						}
					}
				}
			}
		}, func(x *mc.X, s nameSpanCase) error {
			storage := []byte("\x00P\x00q\x00R\x00s\x00")[:s.Size]
			recs := []fontgen.NameRec{{PID: nameEncs[s.Enc][0], PSID: nameEncs[s.Enc][1], ID: 4, Off: s.Off, Len: s.Len}}
			ft := scratchFont(x)
			ft.Name = fontgen.Name(recs, storage, s.Gap)
			f, err := parseOK(ft.Bytes())
			if err != nil {
				return err
			}
			return checkNames(x, f, recs, storage)
		})
		mc.Explore(c, "texts", func(yield func(nameTextCase) bool) {
			for n := 0; n <= c.N(3, 4); n++ {
				if !tuples(n, len(nameUnits), func(t []int) bool {
					us := []int{}
					for _, v := range t {
						us = append(us, nameUnits[v])
					}
					return yield(nameTextCase{us})
				}) {
					return
				}
			}
			for u := 0; u < 0x10000; u += 16 {
				us := []int{}
				for k := 0; k < 16; k++ {
					if (u+k)&0xf800 != 0xd800 {
						us = append(us, u+k)
					}
				}
				if !yield(nameTextCase{us}) {
					return
				}
			}
		}, func(x *mc.X, t nameTextCase) error {
			storage := fontgen.UTF16(t.Units...)
			ft := scratchFont(x)
			recs := []fontgen.NameRec{{PID: 3, PSID: 1, ID: 4, Len: len(storage)}}
			ft.Name = fontgen.Name(recs, storage, 0)
			f, err := parseOK(ft.Bytes())
			if err != nil {
				return err
			}
			return checkNames(x, f, recs, storage)
		})
		mc.Explore(c, "long", func(yield func(nameLongCase) bool) {
			for n := 0; n <= 300; n++ {
				if !yield(nameLongCase{1, n, 0}) {
					return
				}
			}
			for _, n := range []int{511, 512, 1000, 4095, 4096, 16383, 16384, 32766, 32767} {
				for _, recs := range []int{1, 2, 30} {
					if !yield(nameLongCase{recs, n, recs - 1}) {
						return
					}
				}
			}
			// Many records; the first of the font's own id is at At.
			for _, recs := range []int{15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 254, 255, 256, 257, 258, 1000, 2730, 2731, 2732, 5460} {
				for _, at := range []int{0, 1, recs / 2, recs - 2, recs - 1} {
					for _, n := range []int{1, 7} {
						if !yield(nameLongCase{recs, n, at}) {
							return
						}
					}
				}
			}
		}, func(x *mc.X, t nameLongCase) error {
			units := []int{'Q'}
			for i := 0; i < t.Units; i++ {
				units = append(units, 0x20+(i*7+i/95)%97)
			}
			storage := fontgen.UTF16(units...)
			for enc := 0; enc < 5; enc++ {
				var recs []fontgen.NameRec
				for i := 0; i < t.Recs; i++ {
					r := fontgen.NameRec{PID: nameEncs[enc][0], PSID: nameEncs[enc][1], ID: (i*13 + 300) & 0xffff, Off: 0, Len: 2}
					if i == t.At {
						r.ID, r.Off, r.Len = 4, 2, 2*t.Units
					}
					recs = append(recs, r)
				}
				ft := scratchFont(x)
				ft.Name = fontgen.Name(recs, storage, 0)
				f, err := parseOK(ft.Bytes())
				if err != nil {
					return err
				}
				if err := checkNames(x, f, recs, storage); err != nil {
					return err
				}
				for i := 0; i < t.Recs; i += 1 + t.Recs/50 {
					want := "Q"
					if i == t.At {
						continue
					}
					if got := f.Name(truetype.NameID(recs[i].ID)); got != want {
						return fmt.Errorf("Name(%d) is %q, want %q", recs[i].ID, got, want)
					}
					x.Step(1)
				}
			}
			return nil
		})
		mc.Explore(c, "ids", func(yield func(int) bool) {
			for id := 0; id < 0x10000; id += 16 {
				if !yield(id) {
					return
				}
			}
		}, func(x *mc.X, id int) error {
			storage := fontgen.UTF16('a', 'b', 'c', 'd', 'e', 'f', 'g', 'h', 'i', 'j', 'k', 'l', 'm', 'n', 'o', 'p')
			var recs []fontgen.NameRec
			for i := 0; i < 16; i++ {
				recs = append(recs, fontgen.NameRec{PID: 3, PSID: 1, ID: id + i, Off: 2 * i, Len: 2})
			}
			ft := scratchFont(x)
			ft.Name = fontgen.Name(recs, storage, 0)
			f, err := parseOK(ft.Bytes())
			if err != nil {
				return err
			}
			for q := max(0, id-16); q < min(0x10000, id+32); q++ {
				want := ""
				if q >= id && q < id+16 {
					want = string(rune('a' + q - id))
				}
				if got := f.Name(truetype.NameID(q)); got != want {
					return fmt.Errorf("Name(%d) is %q, want %q", q, got, want)
				}
				x.Step(1)
			}
			x.Outcome(uint64(id) + 1)
			x.Validated()
			return checkNames(x, f, recs, storage)
		})
		mc.Explore(c, "truncations", func(yield func(nameTruncCase) bool) {
			for n := 0; n <= 4; n++ {
				for cut := 0; cut <= 6+12*n+len(nameStorage); cut++ {
					if !yield(nameTruncCase{n, cut}) {
						return
					}
				}
			}
		}, func(x *mc.X, t nameTruncCase) error {
			var recs []fontgen.NameRec
			for i := 0; i < t.N; i++ {
				recs = append(recs, fontgen.NameRec{PID: 3 * (i % 2), PSID: 3 - 2*(i%2), ID: 1 + i, Off: 2 * i, Len: 4})
			}
			tab := fontgen.Name(recs, nameStorage, 0)[:t.Cut]
			ft := scratchFont(x)
			ft.Name = tab
			f, err := parseOK(ft.Bytes())
			if err != nil {
				return err
			}
			hdr := 6 + 12*t.N
			for i, r := range recs {
				got := f.Name(truetype.NameID(1 + i))
				want := ""
				if t.Cut >= hdr {
					want = nameText(nameStorage[:t.Cut-hdr], r.Off, r.Len)
				}
				// If the header is cut, no record may be trusted but those that are there.
				if got != want && (t.Cut >= hdr || got != "") {
					return fmt.Errorf("Name(%d) of a table cut to %d bytes is %q, want %q", 1+i, t.Cut, got, want)
				}
			}
			if got := f.Name(77); got != "" {
				return fmt.Errorf("Name(77) is %q", got)
			}
			x.Step(t.N + 1)
			h := mc.NewHash()
			h.Int(t.Cut)
			x.Outcome(uint64(h))
			x.Validated()
			return nil
		})
		mc.Explore(c, "bundled-fonts", func(yield func(int) bool) {
			for i := range fontNames {
				if !yield(i) {
					return
				}
			}
		}, func(x *mc.X, i int) error {
			fs, err := loadRealFonts()
			if err != nil {
				return err
			}
			f, err := parseOK(fs[i].bytes)
			if err != nil {
				return err
			}
			h := mc.NewHash()
			for id := 0; id < 256; id++ {
				want := map[string]bool{}
				uni := false
				for _, n := range fs[i].ttx.Names {
					if n.ID != id || uni {
						continue
					}
					t := strings.Map(func(r rune) rune {
						if r < 0x20 || r > 0x7e {
							return '?'
						}
						return r
					}, strings.TrimSpace(n.Text))
					if n.PID == 0 && (n.EID == 3 || n.EID == 4) {
						want, uni = map[string]bool{}, true
					} else if n.PID != 3 {
						continue
					}
					want[t] = true
				}
				if len(want) == 0 {
					want[""] = true
				}
				if got := strings.TrimSpace(f.Name(truetype.NameID(id))); !want[got] {
					return fmt.Errorf("%s: Name(%d) is %q, want %q", fs[i].name, id, got, want)
				}
				h.Bytes([]byte(f.Name(truetype.NameID(id))))
			}
			x.Step(256)
			x.Outcome(uint64(h))
			x.Validated()
			return nil
		})
	},
}
