package fontgen

// Pt is an outline point in font units.
type Pt struct {
	X, Y int
	On   bool
}

// Enc selects among the legal encodings of a coordinate delta.
type Enc int

const (
	EncAuto  Enc = iota // the shortest
	EncShort            // 8 bit magnitude and a sign flag, if it fits (also for 0)
	EncLong             // 16 bit
)

// SimpleOpts controls the encoding of a simple glyph.
type SimpleOpts struct {
	EncX, EncY func(i int) Enc      // default EncAuto
	Repeat     func(i, run int) int // of run equal flags following point i, how many to encode by a repeat count (0 = no repeat byte unless ForceRepeat)
	ZeroRepeat func(i int) bool     // set the repeat flag with a count of zero
	ZeroNeg    func(i int) bool     // encode a short zero as -0
	Extra      int                  // extra flag bits (0x40, 0x80) for all points
	Instr      []byte               // instructions
	Pad        int                  // trailing bytes
	BBox       *[4]int              // override the bounding box
	Fill       byte                 // value of the trailing bytes
}

// BBoxOf returns the bounding box of contours.
func BBoxOf(cs [][]Pt) (b [4]int) {
	first := true
	for _, c := range cs {
		for _, p := range c {
			if first {
				b = [4]int{p.X, p.Y, p.X, p.Y}
				first = false
			}
			b[0], b[1] = min(b[0], p.X), min(b[1], p.Y)
			b[2], b[3] = max(b[2], p.X), max(b[3], p.Y)
		}
	}
	return b
}

// Simple encodes a simple glyph.
func Simple(cs [][]Pt, o SimpleOpts) []byte {
	var w W
	w.U16(len(cs))
	b := BBoxOf(cs)
	if o.BBox != nil {
		b = *o.BBox
	}
	for _, v := range b {
		w.U16(v)
	}
	var pts []Pt
	for _, c := range cs {
		pts = append(pts, c...)
		w.U16(len(pts) - 1)
	}
	w.U16(len(o.Instr))
	w.B = append(w.B, o.Instr...)
	if len(cs) == 0 {
		return w.B
	}
	n := len(pts)
	flags := make([]int, n)
	var xs, ys W
	px, py := 0, 0
	one := func(d int, e Enc, neg bool, out *W, short, same int) int {
		switch {
		case e == EncAuto && d == 0:
			return same
		case d > -256 && d < 256 && e != EncLong:
			if d > 0 || d == 0 && !neg {
				out.U8(d)
				return short | same
			}
			out.U8(-d)
			return short
		default:
			out.U16(d)
			return 0
		}
	}
	for i, p := range pts {
		ex, ey, neg := EncAuto, EncAuto, false
		if o.EncX != nil {
			ex = o.EncX(i)
		}
		if o.EncY != nil {
			ey = o.EncY(i)
		}
		if o.ZeroNeg != nil {
			neg = o.ZeroNeg(i)
		}
		// Deltas are computed modulo 65536.
		dx, dy := int(int16(p.X-px)), int(int16(p.Y-py))
		f := one(dx, ex, neg, &xs, 0x02, 0x10) | one(dy, ey, neg, &ys, 0x04, 0x20) | o.Extra
		if p.On {
			f |= 1
		}
		flags[i] = f
		px, py = p.X, p.Y
	}
	for i := 0; i < n; {
		run := 0
		for i+1+run < n && flags[i+1+run] == flags[i] && run < 255 {
			run++
		}
		k := 0
		if o.Repeat != nil {
			k = min(o.Repeat(i, run), run)
		}
		if k > 0 || o.ZeroRepeat != nil && o.ZeroRepeat(i) {
			w.U8(flags[i] | 8)
			w.U8(k)
		} else {
			w.U8(flags[i])
		}
		i += 1 + k
	}
	w.B = append(w.B, xs.B...)
	w.B = append(w.B, ys.B...)
	for i := 0; i < o.Pad; i++ {
		w.U8(int(o.Fill))
	}
	return w.B
}

// Compound glyph flags.
const (
	ArgWords   = 0x0001
	ArgsXY     = 0x0002
	RoundXY    = 0x0004
	HaveScale  = 0x0008
	More       = 0x0020
	HaveXY     = 0x0040
	Have2x2    = 0x0080
	HaveInstr  = 0x0100
	UseMetrics = 0x0200
	Overlap    = 0x0400
)

// Comp is a component of a compound glyph. More is set automatically.
type Comp struct {
	Flags, Glyph int
	DX, DY       int
	M            [4]int // xx, (xy..) in file order: scale; x,y; or xscale, scale01, scale10, yscale
}

// Compound encodes a compound glyph.
func Compound(bbox [4]int, cs []Comp, instr []byte, pad int) []byte {
	var w W
	w.U16(-1)
	for _, v := range bbox {
		w.U16(v)
	}
	for i, c := range cs {
		f := c.Flags
		if i+1 < len(cs) {
			f |= More
		} else if instr != nil {
			f |= HaveInstr
		}
		w.U16(f)
		w.U16(c.Glyph)
		if f&ArgWords != 0 {
			w.U16(c.DX)
			w.U16(c.DY)
		} else {
			w.U8(c.DX)
			w.U8(c.DY)
		}
		switch {
		case f&HaveScale != 0:
			w.U16(c.M[0])
		case f&HaveXY != 0:
			w.U16(c.M[0])
			w.U16(c.M[1])
		case f&Have2x2 != 0:
			for _, m := range c.M {
				w.U16(m)
			}
		}
	}
	if instr != nil {
		w.U16(len(instr))
		w.B = append(w.B, instr...)
	}
	for i := 0; i < pad; i++ {
		w.U8(0xA5)
	}
	return w.B
}

// Square returns a square contour.
func Square(x0, y0, x1, y1 int) []Pt {
	return []Pt{{x0, y0, true}, {x0, y1, true}, {x1, y1, true}, {x1, y0, true}}
}
