package checks

import (
	"fmt"
	"slices"

	"verif/internal/fontgen"
	"verif/internal/mc"

	"github.com/golang/freetype/truetype"
	"golang.org/x/image/font"
	"golang.org/x/image/math/fixed"
)

// metricScaleCase has one glyph with the given values, at scales Lo..Hi.
type metricScaleCase struct {
	UPEM, V, Lo, Hi int
}

type metricLayoutCase struct {
	NGlyph, NHM int
	VMtx        bool
	OS2         int // length, 0 = absent
	UPEM, Rot   int
	Pad         int // bytes after the vmtx
	Less        int // glyphs that the vmtx does not have
}

// hdmxCase is a font of N glyphs with device metrics for the sizes of a set.
type hdmxCase struct{ N, Sizes, Rot int }

var hdmxSizes = []int{1, 9, 10, 12, 255}

type vmWant struct{ adv, tsb int }

func checkMetric(f *truetype.Font, scale, upem, i int, hm fontgen.HM, vm vmWant) error {
	wrong := func(got fixed.Int26_6, v int) bool {
		return fits32(scale, v) && int(got) != scaleRef(scale, v, upem)
	}
	h := f.HMetric(i26(scale), truetype.Index(i))
	if wrong(h.AdvanceWidth, hm.Adv) || wrong(h.LeftSideBearing, hm.LSB) {
		return fmt.Errorf("HMetric(%d, %d) is %v, want %d/%d * %d, %d/%d * %d", scale, i, h, hm.Adv, upem, scale, hm.LSB, upem, scale)
	}
	v := f.VMetric(i26(scale), truetype.Index(i))
	if wrong(v.AdvanceHeight, vm.adv) || wrong(v.TopSideBearing, vm.tsb) {
		return fmt.Errorf("VMetric(%d, %d) is %v, want %d/%d * %d, %d/%d * %d", scale, i, v, vm.adv, upem, scale, vm.tsb, upem, scale)
	}
	return nil
}

func checkBounds(f *truetype.Font, scale, upem int, b [4]int) error {
	g := f.Bounds(i26(scale))
	got := [4]int{int(g.Min.X), int(g.Min.Y), int(g.Max.X), int(g.Max.Y)}
	for k, v := range b {
		if fits32(scale, v) && got[k] != scaleRef(scale, v, upem) {
			return fmt.Errorf("Bounds(%d) is %v, want %v / %d * %d", scale, g, b, upem, scale)
		}
	}
	return nil
}

var c05 = &mc.Check{
	ID:          "C05",
	Rule:        "every units-per-em of 9 values, times 17 signed boundary values used for advance, bearings and bounding box, times every scale 0..2048 (0..8192 thorough), negative ones to -64 16 large ones and those at the limit, where the product fits 32 bits; every glyph count 1..6 with every metric count, vertical metrics present or not, OS/2 of 8 lengths, at 6 scales, all indexes from 0 to two past the end and the highest; all glyphs of the bundled fonts at 12 scales against their XML dumps; device metrics for every set of 5 sizes x 1..9 glyphs (20 thorough), and up to 65535 glyphs, for all glyphs at 14 sizes with and without hinting",
	Assumptions: []string{"the product of scale and font units fits the 32 bits of a fixed-point number", "a vertical metrics table covers all glyphs"},
	Run: func(c *mc.Ctx) {
		upems := []int{1, 16, 17, 64, 1000, 1024, 2048, 16384, 65535}
		large := []int{-64, -33, -1, 4096, 5000, 9999, 12345, 16384, 20000, 32767, 32768, 40000, 65535, 65536, 100000, 1 << 17, 1 << 19, 1 << 20, 1 << 22}
		mc.Explore(c, "scaling", func(yield func(metricScaleCase) bool) {
			hi := c.N(2048, 8192)
			for _, u := range upems {
				vs := []int{0, 1, 2, 3, u/2 - 1, u / 2, u/2 + 1, u, u + 1, 63, 64, 1000, 1234, 0x7fff, -0x8000 & 0xffff, 0xffff, 0x8001}
				for _, v := range vs {
					for lo := 0; lo <= hi; lo += 512 {
						if !yield(metricScaleCase{u, v & 0xffff, lo, min(lo+512, hi)}) {
							return
						}
					}
					if !yield(metricScaleCase{u, v & 0xffff, 0, -1}) {
						return
					}
				}
			}
		}, func(x *mc.X, m metricScaleCase) error {
			ft := fontgen.New(nil, nil)
			s := int(int16(m.V))
			ft.UPEM = m.UPEM
			ft.BBox = [4]int{s, -s, s + 1, int(int16(s * 3))}
			for i, v := range ft.BBox {
				ft.BBox[i] = int(int16(v))
			}
			ft.HM = []fontgen.HM{{Adv: m.V, LSB: s}, {Adv: m.V ^ 1, LSB: int(int16(-s))}}
			ft.VMtx = fontgen.UTF16(m.V, -s, 7, s)
			f, err := parseOK(ft.Bytes())
			if err != nil {
				return err
			}
			h := mc.NewHash()
			one := func(scale int) error {
				for i, hm := range ft.HM {
					vm := vmWant{m.V, int(int16(-s))}
					if i == 1 {
						vm = vmWant{7, s}
					}
					if err := checkMetric(f, scale, m.UPEM, i, hm, vm); err != nil {
						return err
					}
					h.Int(int(f.HMetric(i26(scale), truetype.Index(i)).AdvanceWidth))
				}
				x.Step(5)
				return checkBounds(f, scale, m.UPEM, ft.BBox)
			}
			if m.Hi < 0 {
				// As large as fits 32 bits.
				all := large
				for _, v := range []int{m.V, m.V ^ 1, s, -s, s + 1} {
					if v != 0 {
						top := (1<<31 - 1) / v
						all = append(all[:len(all):len(all)], top, -top, top-1, 1-top, (1<<31-m.UPEM/2)/v, (1<<31-m.UPEM/2)/v+1)
					}
				}
				for _, scale := range all {
					if err := one(scale); err != nil {
						return err
					}
				}
			}
			for scale := m.Lo; scale <= m.Hi; scale++ {
				if err := one(scale); err != nil {
					return err
				}
			}
			if f.FUnitsPerEm() != int32(m.UPEM) {
				return fmt.Errorf("FUnitsPerEm is %d, want %d", f.FUnitsPerEm(), m.UPEM)
			}
			x.Outcome(uint64(h))
			x.Validated()
			return nil
		})
		mc.Explore(c, "layout", func(yield func(metricLayoutCase) bool) {
			for n := 1; n <= c.N(6, 12); n++ {
				for k := 1; k <= n; k++ {
					for _, vm := range []bool{false, true} {
						for _, os2 := range []int{0, 68, 70, 71, 72, 74, 78, 96} {
							for _, u := range []int{64, 1000, 2048} {
								for rot := 0; rot < 7; rot++ {
									for _, pad := range []int{0, 1, 2} {
										if pad > 0 && !vm {
											continue
										}
										for less := 0; less <= 2 && less < n && (vm || less == 0); less++ {
											if !yield(metricLayoutCase{n, k, vm, os2, u, rot, pad, less}) {
												return
											}
										}
									}
								}
							}
						}
					}
				}
			}
			// Tables of more than 32 and 64 KB, and glyph indices beyond 15 bits.
			for _, n := range []int{255, 256, 257, 8192, 8193, 16383, 16384, 16385, 32767, 32768, 32769, 65534, 65535} {
				for _, k := range []int{1, 2, n / 2, n - 1, n} {
					for i, vm := range []bool{false, true} {
						if !yield(metricLayoutCase{n, k, vm, 78, 1000, i + k%5, 0, 0}) {
							return
						}
					}
				}
			}
		}, func(x *mc.X, m metricLayoutCase) error {
			vals := []int{0, 1, -1, 0x7fff, -0x8000, 300, -77}
			v := func(i int) int { return vals[(i+m.Rot)%len(vals)] }
			ft := fontgen.New(make([][]byte, m.NGlyph)...)
			ft.UPEM = m.UPEM
			ft.HM = nil
			ft.NHMetric = m.NHM
			var vmtx fontgen.W
			want := make([]vmWant, m.NGlyph)
			asc, desc := v(2), v(5)
			ft.OS2 = fontgen.OS2(m.OS2, asc, desc)
			for i := 0; i < m.NGlyph; i++ {
				hm := fontgen.HM{Adv: (100 + 321*i) & 0xffff, LSB: v(i)}
				if i%3 == 2 {
					hm.Adv = 0xffff - i&0xff
				}
				if i >= m.NHM {
					hm.Adv = ft.HM[m.NHM-1].Adv
				}
				ft.HM = append(ft.HM, hm)
				switch {
				case m.VMtx && i < m.NGlyph-m.Less:
					want[i] = vmWant{(500 + i*0x1111) & 0xffff, v(i + 3)}
					vmtx.U16(want[i].adv)
					vmtx.U16(want[i].tsb)
				case m.OS2 >= 72:
					want[i] = vmWant{asc - desc, asc}
				default:
					want[i] = vmWant{m.UPEM, 0}
				}
			}
			for i := 0; i < m.Pad; i++ {
				vmtx.U8(0x5A)
			}
			ft.VMtx = vmtx.B
			f, err := parseOK(ft.Bytes())
			if err != nil {
				return err
			}
			h := mc.NewHash()
			for _, scale := range []int{0, 1, m.UPEM, 64 * 12, 1001, 6400} {
				for i := 0; i < m.NGlyph; i++ {
					if err := checkMetric(f, scale, m.UPEM, i, ft.HM[i], want[i]); err != nil {
						return err
					}
					h.Int(int(f.HMetric(i26(scale), truetype.Index(i)).LeftSideBearing))
				}
				for _, i := range []int{m.NGlyph, m.NGlyph + 1, m.NGlyph + 2, 0x7fff, 0x8000, 0xffff} {
					if i < m.NGlyph || i > 0xffff {
						continue
					}
					if err := checkMetric(f, scale, m.UPEM, i, fontgen.HM{}, vmWant{}); err != nil {
						return err
					}
				}
				x.Step(2 * (m.NGlyph + 6))
			}
			x.Outcome(uint64(h))
			x.Validated()
			return nil
		})
		mc.Explore(c, "device-metrics", func(yield func(hdmxCase) bool) {
			for n := 1; n <= c.N(9, 20); n++ {
				for sizes := 0; sizes < 1<<len(hdmxSizes); sizes++ {
					for rot := 0; rot < 4; rot++ {
						if !yield(hdmxCase{n, sizes, rot}) {
							return
						}
					}
				}
			}
			for _, n := range []int{254, 255, 256, 257, 258, 1022, 32766, 65533, 65534, 65535} {
				if !yield(hdmxCase{n, 0x16, 1}) {
					return
				}
			}
		}, func(x *mc.X, k hdmxCase) error {
			gl := make([][]byte, k.N)
			for i := range gl {
				switch {
				case i < 9 && (i+k.Rot)%3 == 0:
					gl[i] = fontgen.Simple([][]fontgen.Pt{fontgen.Square(3, 0, 40+i, 30)}, fontgen.SimpleOpts{})
				case i < 9 && (i+k.Rot)%3 == 1 && i >= 2:
					gl[i] = fontgen.Compound([4]int{3, 0, 50, 40}, []fontgen.Comp{{Flags: fontgen.ArgsXY, Glyph: i - 1, DX: 2}}, nil, 0)
				}
			}
			ft := fontgen.New(gl...)
			ft.UPEM, ft.LocaLong = 1, true
			for i := range ft.HM {
				ft.HM[i] = fontgen.HM{Adv: (30 + i*11) % 200, LSB: i % 5}
			}
			var ppems []int
			var widths [][]int
			row := map[int][]int{}
			for s, p := range hdmxSizes {
				if k.Sizes>>s&1 != 0 {
					ws := make([]int, k.N)
					for i := range ws {
						ws[i] = (i*73 + i>>8*19 + p*31 + k.Rot*64 + 2) & 0xff
					}
					ppems, widths, row[p] = append(ppems, p), append(widths, ws), ws
				}
			}
			// The records come in any order.
			if len(ppems) > 1 {
				for i := 0; i < k.Rot; i++ {
					ppems = append(ppems[1:], ppems[0])
					widths = append(widths[1:], widths[0])
				}
				if k.Rot >= 2 {
					slices.Reverse(ppems)
					slices.Reverse(widths)
				}
			}
			ft.Hdmx = fontgen.Hdmx(ppems, widths)
			f, err := parseOK(ft.Bytes())
			if err != nil {
				return err
			}
			g := &bufs(x).g
			h := mc.NewHash()
			for _, p := range []int{1, 2, 8, 9, 10, 11, 12, 13, 128, 254, 255, 256, 257, 268} {
				for i := 0; i < k.N; i++ {
					if i > 20 && i < k.N-5 && i != 253 && i != 254 && i != 255 && i&0xfff != 0 {
						continue
					}
					x.Step(2)
					if err := g.Load(f, i26(64*p), truetype.Index(i), font.HintingNone); err != nil {
						return err
					}
					if want := scaleRef(64*p, ft.HM[i].Adv, 1); int(g.AdvanceWidth) != want {
						return fmt.Errorf("%d pixels: glyph %d's advance is %d without hinting, want %d", p, i, g.AdvanceWidth, want)
					}
					for _, hint := range []font.Hinting{font.HintingFull, font.HintingVertical} {
						if err := g.Load(f, i26(64*p), truetype.Index(i), hint); err != nil {
							return err
						}
						// All sizes are whole numbers of pixels, and so are the advances.
						want := scaleRef(64*p, ft.HM[i].Adv, 1)
						if ws := row[p]; ws != nil {
							want = 64 * ws[i]
						}
						if int(g.AdvanceWidth) != want {
							return fmt.Errorf("%d pixels: glyph %d of %d has the advance %d, want %d; device metrics for %v", p, i, k.N, g.AdvanceWidth, want, ppems)
						}
						h.Int(want)
					}
				}
			}
			x.Outcome(uint64(h))
			x.Validated()
			return nil
		})
		mc.Explore(c, "bundled-fonts", func(yield func(metricScaleCase) bool) {
			for k := range fontNames {
				for _, scale := range []int{2048, 1, 64, 63, 6 * 64, 12 * 64, 13*64 + 17, 16 * 64, 50 * 64, 777, 0, 100 * 64} {
					if !yield(metricScaleCase{V: k, Lo: scale}) {
						return
					}
				}
			}
		}, func(x *mc.X, m metricScaleCase) error {
			fs, err := loadRealFonts()
			if err != nil {
				return err
			}
			r := fs[m.V]
			f, err := parseOK(r.bytes)
			if err != nil {
				return err
			}
			t := r.ttx
			if int(f.FUnitsPerEm()) != t.UPEM {
				return fmt.Errorf("FUnitsPerEm is %d", f.FUnitsPerEm())
			}
			if err := checkBounds(f, m.Lo, t.UPEM, t.BBox); err != nil {
				return err
			}
			for i := range t.Order {
				vm := vmWant{t.TypoAsc - t.TypoDesc, t.TypoAsc}
				if t.HasVMtx {
					continue
				}
				if err := checkMetric(f, m.Lo, t.UPEM, i, t.HM[i], vm); err != nil {
					return fmt.Errorf("%s: %v", r.name, err)
				}
			}
			if err := checkMetric(f, m.Lo, t.UPEM, len(t.Order), fontgen.HM{}, vmWant{}); err != nil {
				return err
			}
			x.Step(2 * len(t.Order))
			h := mc.NewHash()
			h.Int(m.Lo)
			x.Outcome(uint64(h))
			x.Validated()
			return nil
		})
	},
}
