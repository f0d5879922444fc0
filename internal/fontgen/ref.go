package fontgen

import "errors"

// An Outline is a reference outline in 26.6 units, with an error bound per
// point for the rounding of transformations.
type Outline struct {
	Pts  []RPt
	Ends []int
	// Adv and Shift: phantom points 1 and 0.
	PP0, PP1 int
}

// RPt is a reference point.
type RPt struct {
	X, Y   float64
	On     bool
	EX, EY float64 // bound on the deviation
}

// RefGlyph describes a glyph for the reference loader.
type RefGlyph struct {
	Contours [][]Pt
	Comps    []Comp // compound if non-nil
	XMin     int    // of the glyph header; ignored if empty
}

func round(scale, x, upem int) int {
	n := int64(scale) * int64(x)
	neg := n < 0
	if neg {
		n = -n
	}
	q := (2*n + int64(upem)) / (2 * int64(upem))
	if neg {
		q = -q
	}
	return int(q)
}

var (
	ErrCycle = errors.New("cyclic components")
	ErrRange = errors.New("component out of range")
)

// RefLoad is the unhinted outline of glyph i, before the shift to its left
// side bearing.
func RefLoad(gs []RefGlyph, hm []HM, upem, scale, i, depth int) (o Outline, err error) {
	if depth > len(gs)+1 && depth > 200 {
		return o, ErrCycle
	}
	if i < 0 || i >= len(gs) {
		return o, ErrRange
	}
	g := gs[i]
	xmin := g.XMin
	if len(g.Contours) == 0 && g.Comps == nil {
		xmin = 0
	}
	o.PP0 = round(scale, xmin-hm[i].LSB, upem)
	o.PP1 = round(scale, xmin-hm[i].LSB+hm[i].Adv, upem)
	for _, c := range g.Contours {
		for _, p := range c {
			o.Pts = append(o.Pts, RPt{X: float64(round(scale, p.X, upem)), Y: float64(round(scale, p.Y, upem)), On: p.On})
		}
		o.Ends = append(o.Ends, len(o.Pts))
	}
	for _, c := range g.Comps {
		s, err := RefLoad(gs, hm, upem, scale, c.Glyph, depth+1)
		if err != nil {
			return o, err
		}
		m, has := [4]float64{1, 0, 0, 1}, true
		switch {
		case c.Flags&HaveScale != 0:
			m[0], m[3] = float64(c.M[0])/0x4000, float64(c.M[0])/0x4000
		case c.Flags&HaveXY != 0:
			m[0], m[3] = float64(c.M[0])/0x4000, float64(c.M[1])/0x4000
		case c.Flags&Have2x2 != 0:
			for k := range m {
				m[k] = float64(c.M[k]) / 0x4000
			}
		default:
			has = false
		}
		dx, dy := round(scale, c.DX, upem), round(scale, c.DY, upem)
		if c.Flags&RoundXY != 0 {
			dx, dy = (dx+32)&^63, (dy+32)&^63
		}
		n := len(o.Pts)
		for _, p := range s.Pts {
			if has {
				// Each product is rounded by itself; by how much is only known
				// if the point is.
				re := func(m, v, e float64) float64 {
					if e != 0 && m != float64(int(m)) {
						return 0.5
					}
					return roundErr(m * v)
				}
				p = RPt{X: m[0]*p.X + m[2]*p.Y, Y: m[1]*p.X + m[3]*p.Y, On: p.On,
					EX: abs(m[0])*p.EX + abs(m[2])*p.EY + re(m[0], p.X, p.EX) + re(m[2], p.Y, p.EY),
					EY: abs(m[1])*p.EX + abs(m[3])*p.EY + re(m[1], p.X, p.EX) + re(m[3], p.Y, p.EY)}
			}
			p.X += float64(dx)
			p.Y += float64(dy)
			o.Pts = append(o.Pts, p)
		}
		for _, e := range s.Ends {
			o.Ends = append(o.Ends, e+n)
		}
		if c.Flags&UseMetrics != 0 {
			o.PP0, o.PP1 = s.PP0, s.PP1
		}
	}
	return o, nil
}

// roundErr is the error made by rounding v to the nearest integer.
func roundErr(v float64) float64 {
	f := v - float64(int64(v))
	if f < 0 {
		f = -f
	}
	if f > 0.5 {
		f = 1 - f
	}
	return f
}

func abs(v float64) float64 {
	if v < 0 {
		return -v
	}
	return v
}
