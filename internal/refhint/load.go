package refhint

import "verif/internal/fontgen"

// A Glyph is the input of a hinted load.
type Glyph struct {
	Contours [][]fontgen.Pt
	Comps    []Comp
	BBox     [4]int
	Adv, LSB int
	Program  []byte
	// The height and top bearing of the glyph; an em and 0 if nil.
	V *[2]int
}

// A Comp is a component of a compound glyph.
type Comp struct {
	Glyph    int
	DX, DY   int
	Round    bool
	Metrics  bool
	Unhinted bool // For symmetry with fontgen; not used.
}

// A Result is a hinted outline.
type Result struct {
	Pts  []P
	On   []bool
	Ends []int
	Adv  int64
}

func roundPx(v int64) int64 { return (v + 32) &^ 63 }

// Load loads a glyph that is hinted with m's state after the control value
// program. m is not changed.
func (m *Machine) Load(glyphs []Glyph, i int) (r Result, err error) {
	defer catch(&err)
	z := m.load(glyphs, i, 0)
	n := len(z.Cur) - 4
	org := z.Cur[n].X
	r.Adv = roundPx(z.Cur[n+1].X - org)
	for k := 0; k < n; k++ {
		r.Pts = append(r.Pts, P{z.Cur[k].X - org, z.Cur[k].Y})
	}
	r.On, r.Ends = z.On[:n], z.Ends
	return r, nil
}

// load returns a zone with the glyph's hinted points and its phantom points.
func (m *Machine) load(glyphs []Glyph, i, depth int) *Zone {
	if i >= len(glyphs) || depth > 20 {
		bad()
	}
	g := &glyphs[i]
	left := int64(g.BBox[0] - g.LSB)
	top := int64(g.BBox[3])
	bottom := top - m.UPEM
	if g.V != nil {
		top += int64(g.V[1])
		bottom = top - int64(g.V[0])
	}
	phantom := []P{{left, 0}, {left + int64(g.Adv), 0}, {int64(g.Adv) / 2, top}, {int64(g.Adv) / 2, bottom}}
	z := NewZone(0)
	add := func(p, org, orus P, on bool) {
		z.Cur, z.Org, z.Orus = append(z.Cur, p), append(z.Org, org), append(z.Orus, orus)
		z.On = append(z.On, on)
		z.TouchX, z.TouchY = append(z.TouchX, false), append(z.TouchY, false)
	}
	scaled := func(p P) P { return P{m.Mul(p.X), m.Mul(p.Y)} }
	// The left phantom point goes to the grid, and everything with it.
	dx := roundPx(m.Mul(left)) - m.Mul(left)
	addPhantoms := func(scaledPhantom []P) {
		for k, p := range scaledPhantom {
			q := p
			switch k {
			case 1:
				q.X = roundPx(q.X)
			case 3:
				q.Y = roundPx(q.Y)
			}
			add(q, p, phantom[k], false)
		}
	}
	if len(g.Comps) == 0 {
		for _, c := range g.Contours {
			for _, p := range c {
				u := P{int64(p.X), int64(p.Y)}
				q := scaled(u)
				q.X += dx
				add(q, q, u, p.On)
			}
			z.Ends = append(z.Ends, len(z.Cur))
		}
		var ph []P
		for _, p := range phantom {
			q := scaled(p)
			q.X += dx
			ph = append(ph, q)
		}
		addPhantoms(ph)
		if len(g.Program) > 0 {
			c := m.Clone()
			c.glyph, c.inGlyph = z, true
			c.gs = c.def
			c.run(g.Program)
			m.note(c)
		}
		return z
	}
	ph := make([]P, 4)
	for k, p := range phantom {
		ph[k] = scaled(p)
	}
	for _, c := range g.Comps {
		s := m.load(glyphs, c.Glyph, depth+1)
		n := len(s.Cur) - 4
		d := scaled(P{int64(c.DX), int64(c.DY)})
		if c.Round {
			d = P{roundPx(d.X), roundPx(d.Y)}
		}
		base := len(z.Cur)
		for k := 0; k < n; k++ {
			p := P{s.Cur[k].X + d.X, s.Cur[k].Y + d.Y}
			add(p, p, p, s.On[k])
		}
		for _, e := range s.Ends {
			z.Ends = append(z.Ends, base+e)
		}
		if c.Metrics {
			copy(ph, s.Cur[n:])
		}
	}
	if len(g.Program) > 0 {
		dx := roundPx(ph[0].X) - ph[0].X
		for k := range z.Cur {
			z.Cur[k].X += dx
		}
		for k := range ph {
			ph[k].X += dx
		}
	}
	addPhantoms(ph)
	if len(g.Program) > 0 {
		// The program sees the hinted components as the original outline.
		z.Scaled = true
		copy(z.Org, z.Cur)
		copy(z.Orus, z.Cur)
		c := m.Clone()
		c.glyph, c.inGlyph = z, true
		c.gs = c.def
		c.run(g.Program)
		m.note(c)
	}
	return z
}

// note adds what c executed to m's counters.
func (m *Machine) note(c *Machine) {
	m.Steps, m.Seen = c.Steps, c.Seen
}
