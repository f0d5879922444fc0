package checks

import (
	"fmt"

	"verif/internal/mc"

	"github.com/golang/freetype/truetype"
	"golang.org/x/image/font"
)

// Features of a font, observed through every query.
const (
	fpHead = iota // units per em, bounds
	fpIndex
	fpHMetric
	fpVMetric
	fpKern
	fpName
	fpPlain  // unhinted glyphs
	fpHinted // hinted outlines
	fpHdmx   // hinted advance widths
	nFeatures
)

var featureNames = [...]string{"units per em and bounds", "character map", "horizontal metrics", "vertical metrics", "kerning", "names", "unhinted glyphs", "hinted outlines", "hinted advance widths"}

type fontPrint [nFeatures]uint64

func (p fontPrint) diff(q fontPrint) error {
	for i := range p {
		if p[i] != q[i] {
			return fmt.Errorf("%s differ", featureNames[i])
		}
	}
	return nil
}

// printOpts says what a fingerprint queries.
type printOpts struct {
	runes  []rune
	n      int // glyphs, of which the first n+2 indices are queried
	step   int // only every step-th glyph is loaded
	scales []int
}

func hashGlyph(h *mc.Hash, g *truetype.GlyphBuf, err error) {
	if err != nil {
		h.Int(-1)
		return
	}
	for _, p := range g.Points {
		h.Int(int(p.X))
		h.Int(int(p.Y))
		h.Int(int(p.Flags & 1))
	}
	h.Int(-2)
	for _, e := range g.Ends {
		h.Int(e)
	}
	b := g.Bounds
	h.Int(int(b.Min.X))
	h.Int(int(b.Min.Y))
	h.Int(int(b.Max.X))
	h.Int(int(b.Max.Y))
}

// takePrint queries f.
func takePrint(x *mc.X, f *truetype.Font, o printOpts) (fp fontPrint) {
	var h [nFeatures]mc.Hash
	for i := range h {
		h[i] = mc.NewHash()
	}
	h[fpHead].Int(int(f.FUnitsPerEm()))
	for _, r := range o.runes {
		h[fpIndex].Int(int(f.Index(r)))
	}
	for id := 0; id < 20; id++ {
		h[fpName].Bytes([]byte(f.Name(truetype.NameID(id))))
		h[fpName].Int(-1)
	}
	s := &printScratch{}
	if x != nil {
		if t, ok := x.Scratch.(*printScratch); ok {
			s = t
		} else {
			x.Scratch = s
		}
		x.Step(1 + len(o.runes) + 20)
	}
	for si, scale := range o.scales {
		b := f.Bounds(i26(scale))
		h[fpHead].Int(int(b.Min.X))
		h[fpHead].Int(int(b.Min.Y))
		h[fpHead].Int(int(b.Max.X))
		h[fpHead].Int(int(b.Max.Y))
		for i := 0; i < o.n+2; i++ {
			m := f.HMetric(i26(scale), truetype.Index(i))
			h[fpHMetric].Int(int(m.AdvanceWidth))
			h[fpHMetric].Int(int(m.LeftSideBearing))
			v := f.VMetric(i26(scale), truetype.Index(i))
			h[fpVMetric].Int(int(v.AdvanceHeight))
			h[fpVMetric].Int(int(v.TopSideBearing))
			if si == 0 {
				for j := 0; j < o.n+2; j++ {
					h[fpKern].Int(int(f.Kern(i26(scale), truetype.Index(i), truetype.Index(j))))
				}
			}
			if i%o.step != 0 {
				continue
			}
			err := s.g.Load(f, i26(scale), truetype.Index(i), font.HintingNone)
			hashGlyph(&h[fpPlain], &s.g, err)
			if err == nil {
				h[fpPlain].Int(int(s.g.AdvanceWidth))
			}
			err = s.h.Load(f, i26(scale), truetype.Index(i), font.HintingFull)
			hashGlyph(&h[fpHinted], &s.h, err)
			if err == nil {
				h[fpHdmx].Int(int(s.h.AdvanceWidth))
			}
			if x != nil {
				x.Step(4)
			}
		}
	}
	for i := range h {
		fp[i] = uint64(h[i])
	}
	if x != nil {
		x.Validated()
	}
	return fp
}

type printScratch struct{ g, h truetype.GlyphBuf }
