package checks

import (
	"fmt"

	"verif/internal/fontgen"
	"verif/internal/mc"

	"github.com/golang/freetype/truetype"
)

var kernAlphabets = [][]int{{0, 1, 2}, {0, 255, 256, 0xffff}, {5, 0x7fff, 0x8000}}
var kernVals = []int{-1, 1, 32767, -32768, 100, -100, 0, 33, -333}

// kernSubset holds the pairs of an alphabet whose bit is set in Mask.
type kernSubset struct {
	Alpha, Mask, Rot, UPEM, Pad int
}

type kernMany struct{ N, Kind, Scale int }

type kernReal struct{ Font, Lo, Hi int }

func checkKern(f *truetype.Font, scale, upem, l, r, v int) error {
	if !fits32(scale, v) {
		return nil
	}
	if k := f.Kern(i26(scale), truetype.Index(l), truetype.Index(r)); int(k) != scaleRef(scale, v, upem) {
		return fmt.Errorf("Kern(%d, %d, %d) is %d, want %d/%d scaled (%d)", scale, l, r, k, v, upem, scaleRef(scale, v, upem))
	}
	return nil
}

var c06 = &mc.Check{
	ID:          "C06",
	Rule:        "every subset of all pairs over the glyph alphabets {0,1,2}, {0,255,256,65535} and {5,32767,32768} with boundary values in 9 rotations (2 for the large alphabet), with and without padding, queried with every pair over the alphabet and its neighbours at up to 5 scales and those at the 32-bit limit; regular tables of 0..600 pairs in 4 patterns with every pair and its neighbours; all 65536 coverage values x 4 versions x 4 numbers of tables; all pairs of glyphs of the bundled fonts against their XML dumps",
	Assumptions: []string{"a kerning table has one horizontal format 0 subtable, unless it is refused or ignored"},
	Run: func(c *mc.Ctx) {
		mc.Explore(c, "subsets", func(yield func(kernSubset) bool) {
			for a, al := range kernAlphabets {
				np := len(al) * len(al)
				rots := len(kernVals)
				if np > 9 {
					rots = c.N(2, len(kernVals))
				}
				for mask := 0; mask < 1<<np; mask++ {
					for rot := 0; rot < rots; rot++ {
						pad := 0
						if mask%5 == 1 {
							pad = 2
						}
						if !yield(kernSubset{a, mask, rot, []int{64, 1000, 2048}[(mask+rot)%3], pad}) {
							return
						}
					}
				}
			}
		}, func(x *mc.X, k kernSubset) error {
			al := kernAlphabets[k.Alpha]
			want := map[[2]int]int{}
			var ps []fontgen.KernPair
			for b := 0; b < len(al)*len(al); b++ {
				if k.Mask>>b&1 != 0 {
					l, r := al[b/len(al)], al[b%len(al)]
					v := kernVals[(b+k.Rot)%len(kernVals)]
					want[[2]int{l, r}] = v
					ps = append(ps, fontgen.KernPair{L: l, R: r, V: v})
				}
			}
			ft := fontgen.New(nil)
			ft.UPEM = k.UPEM
			ft.Kern = append(fontgen.Kern(ps), make([]byte, k.Pad)...)
			f, err := parseOK(ft.Bytes())
			if err != nil {
				return err
			}
			ids := append([]int(nil), al...)
			for _, g := range al {
				ids = append(ids, (g+1)&0xffff, (g-1)&0xffff)
			}
			scales := []int{0, 1, k.UPEM, 12 * 64, 777}
			if k.Alpha == 1 {
				scales = scales[2:4]
			} else {
				// As large as fits 32 bits.
				for _, p := range ps {
					if p.V != 0 {
						scales = append(scales, (1<<31-1)/p.V)
					}
				}
			}
			for _, s := range scales {
				for _, l := range ids {
					for _, r := range ids {
						if err := checkKern(f, s, k.UPEM, l, r, want[[2]int{l, r}]); err != nil {
							return err
						}
					}
				}
			}
			x.Step(len(scales) * len(ids) * len(ids))
			h := mc.NewHash()
			h.Int(k.Mask)
			h.Int(k.Rot)
			x.Outcome(uint64(h))
			x.Validated()
			return nil
		})
		mc.Explore(c, "headers", func(yield func(kernHeader) bool) {
			for _, v := range []int{0, 1, 0x100, 0xffff} {
				for _, n := range []int{0, 1, 2, 0x101} {
					for cov := 0; cov < 1<<16; cov += 64 {
						if !yield(kernHeader{v, n, cov}) {
							return
						}
					}
				}
			}
		}, execKernHeader)
		mc.Explore(c, "regular", func(yield func(kernMany) bool) {
			one := func(n int) bool {
				for kind := 0; kind < 4; kind++ {
					if !yield(kernMany{n, kind, 640}) {
						return false
					}
				}
				return true
			}
			for n := 0; n <= c.N(600, 4000); n++ {
				if !one(n) {
					return
				}
			}
			// Offsets beyond 15 and 16 bits, up to the most pairs that there can be.
			for _, n := range []int{1024, 2728, 2729, 5457, 5458, 5461, 5462, 8192, 10917, 10918, 10919, 10920} {
				if !one(n) {
					return
				}
			}
		}, func(x *mc.X, k kernMany) error {
			ft := fontgen.New(nil)
			var ps []fontgen.KernPair
			want := map[[2]int]int{}
			for i := 0; i < k.N; i++ {
				var l, r int
				switch k.Kind {
				case 0:
					l, r = 3, 2*i
				case 1:
					l, r = 2*i, 3
				case 2:
					l, r = i/7*3, i%7*2
				case 3:
					l, r = 0xffff-i/256, 0xff00+i%256
				}
				v := (i*37)%401 - 200
				ps = append(ps, fontgen.KernPair{L: l, R: r, V: v})
				want[[2]int{l, r}] = v
			}
			ft.Kern = fontgen.Kern(ps)
			f, err := parseOK(ft.Bytes())
			if err != nil {
				return err
			}
			for _, p := range ps {
				for _, q := range [][2]int{{p.L, p.R}, {p.L, p.R + 1}, {p.L, p.R - 1}, {p.L + 1, p.R}, {p.L - 1, p.R}} {
					q[0] &= 0xffff
					q[1] &= 0xffff
					if err := checkKern(f, k.Scale, ft.UPEM, q[0], q[1], want[q]); err != nil {
						return err
					}
				}
			}
			x.Step(5 * len(ps))
			h := mc.NewHash()
			h.Int(k.N)
			x.Outcome(uint64(h))
			x.Validated()
			return nil
		})
		mc.Explore(c, "bundled-fonts", func(yield func(kernReal) bool) {
			fs, err := loadRealFonts()
			if err != nil {
				c.Fail("bundled-fonts", nil, "%v", err)
				return
			}
			for i, r := range fs {
				n := len(r.ttx.Order) + 2
				for lo := 0; lo < n; lo += 16 {
					if !yield(kernReal{i, lo, min(lo+16, n)}) {
						return
					}
				}
			}
		}, func(x *mc.X, k kernReal) error {
			fs, err := loadRealFonts()
			if err != nil {
				return err
			}
			t := fs[k.Font].ttx
			f, err := parseOK(fs[k.Font].bytes)
			if err != nil {
				return err
			}
			want := map[[2]int]int{}
			for _, p := range t.Kern {
				want[[2]int{p.L, p.R}] = p.V
			}
			n := len(t.Order) + 2
			for l := k.Lo; l < k.Hi; l++ {
				for r := 0; r < n; r++ {
					for _, s := range []int{t.UPEM, 12 * 64} {
						if err := checkKern(f, s, t.UPEM, l, r, want[[2]int{l, r}]); err != nil {
							return fmt.Errorf("%s: %v", fs[k.Font].name, err)
						}
					}
				}
			}
			x.Step(2 * n * (k.Hi - k.Lo))
			h := mc.NewHash()
			h.Int(k.Lo)
			x.Outcome(uint64(h))
			x.Validated()
			return nil
		})
	},
}

// A kernHeader is a table of three pairs with an odd header; the coverage is
// one of 64 from Cov on.
type kernHeader struct{ Version, N, Cov int }

// execKernHeader checks that a table of another kind is refused, or ignored.
func execKernHeader(x *mc.X, k kernHeader) error {
	ps := []fontgen.KernPair{{L: 0, R: 1, V: -7}, {L: 1, R: 0, V: 300}, {L: 1, R: 1, V: 12}}
	for cov := k.Cov; cov < k.Cov+64; cov++ {
		ft := scratchFont(x)
		b := fontgen.Kern(ps)
		b[0], b[1] = byte(k.Version>>8), byte(k.Version)
		b[2], b[3] = byte(k.N>>8), byte(k.N)
		b[8], b[9] = byte(cov>>8), byte(cov)
		ft.Kern = b
		f, err := truetype.Parse(ft.Bytes())
		plain := k.Version == 0 && k.N > 0 && cov == 1
		if plain && err != nil {
			return fmt.Errorf("coverage %#x: %v", cov, err)
		}
		if err != nil {
			x.Step(1)
			x.Outcome(0)
			continue
		}
		// Bits 1, 2 and 8 to 15 are minimum values, the other direction, and the format.
		other := k.Version != 0 || k.N == 0 || cov&0xff07 != 1
		for _, p := range ps {
			got := int(f.Kern(i26(int(f.FUnitsPerEm())), truetype.Index(p.L), truetype.Index(p.R)))
			if got != 0 && (other || got != p.V) || plain && got != p.V {
				return fmt.Errorf("version %d, %d tables, coverage %#x: Kern(%d, %d) is %d, the table has %d", k.Version, k.N, cov, p.L, p.R, got, p.V)
			}
		}
		x.Step(4)
		x.Outcome(1)
		x.Validated()
	}
	return nil
}
