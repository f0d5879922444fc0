package checks

import (
	"fmt"

	"verif/internal/fontgen"
	"verif/internal/mc"

	"github.com/golang/freetype/truetype"
	"golang.org/x/image/font"
)

// s45Case rounds the values from Lo on, by the round state of S45ROUND with the
// selector Sel. A program rounds s45N values.
type s45Case struct{ Sel, Lo int }

const s45N = 60

// s45Round rounds v >= 0 with a period.
func s45Round(v, period, sel int) (w int, ok bool) {
	phase := period * (sel >> 4 & 3) / 4
	threshold := period - 1
	if sel&15 != 0 {
		threshold = period * (sel&15 - 4) / 8
	}
	n := v - phase + threshold
	q := n / period
	if n < 0 && n%period != 0 {
		q--
	}
	w = q*period + phase
	if w < 0 {
		w = phase
	}
	return w, !(v == 0 && n < 0)
}

// runS45 checks that S45ROUND's states round like those of SROUND, with another
// period: the documents disagree on whether it is shorter by the square root of
// 2 or longer, and how it is rounded is open, but it is one number.
func runS45(x *mc.X, t s45Case) error {
	if t.Sel>>6&3 == 3 {
		return nil // Reserved.
	}
	ft := scratchFont(x)
	ft.UPEM, ft.Cvt, ft.Fpgm, ft.Prep, ft.NHMetric = 64, nil, nil, nil, 0
	ft.MaxStorage, ft.MaxTwilight, ft.MaxStack = 1, 1, 50
	code := fontgen.Code(ints{t.Sel}, fontgen.S45ROUND, fontgen.SVTCA1)
	for i := 0; i < s45N; i++ {
		v := t.Lo + i/2
		if i&1 != 0 {
			v = -v
		}
		code = append(code, fontgen.Code(ints{i, v}, fontgen.ROUND, fontgen.SCFS)...)
	}
	c := ring(s45N, 0)
	ft.Glyphs = append(ft.Glyphs[:0], fontgen.Simple([][]fontgen.Pt{c}, fontgen.SimpleOpts{Instr: code}))
	ft.HM = append(ft.HM[:0], fontgen.HM{Adv: 64, LSB: fontgen.BBoxOf([][]fontgen.Pt{c})[0]})
	f, err := parseOK(ft.Bytes())
	if err != nil {
		return err
	}
	var g truetype.GlyphBuf
	x.Step(3*s45N + 2)
	if err := g.Load(f, 64, 0, font.HintingFull); err != nil {
		return err
	}
	base := []int{32, 64, 128}[t.Sel>>6&3]
	short, long := base*46341/65536, base*92682/65536
	var periods []int
	for d := 0; d < 2; d++ {
		periods = append(periods, short+d, long+d)
	}
	var first error
	for _, p := range periods {
		var e error
		for i := 0; i < s45N && e == nil; i++ {
			v := t.Lo + i/2
			w, ok := s45Round(v, p, t.Sel)
			if v != 0 && i&1 != 0 {
				w = -w
			}
			if got := int(g.Points[i].X); ok && got != w {
				e = fmt.Errorf("S45ROUND %#x rounds %d to %d, want %d with a period of %d", t.Sel, v*(1-2*(i&1)), got, w, p)
			}
		}
		if e == nil {
			x.Validated()
			x.Outcome(outlineHash(&g))
			return nil
		}
		if first == nil {
			first = e
		}
	}
	return first
}

func runC10S45(c *mc.Ctx) {
	mc.Explore(c, "S45ROUND", func(yield func(s45Case) bool) {
		for sel := 0; sel < 256; sel++ {
			for lo := 0; lo < c.N(300, 3000); lo += s45N / 2 {
				if !yield(s45Case{sel, lo}) {
					return
				}
			}
		}
	}, runS45)
}
