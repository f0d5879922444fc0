// Package refhint is a reference interpreter for TrueType instructions, written
// from the TrueType reference manual ("Instructing TrueType Glyphs", "The
// TrueType Instruction Set"), with the choices C FreeType makes where the manual
// leaves a choice. It favours clarity: 64-bit integers, no in-place tricks.
//
// Programs the manual gives no meaning to end in ErrProgram; programs whose
// meaning is open (values out of the 26.6 range, an ill-defined vector, ...) end in
// ErrOpen. No comparison is made for either.
package refhint

import "errors"

var (
	// ErrProgram is an error in a program.
	ErrProgram = errors.New("error in the program")
	// ErrWrong is an error in a program that has to be reported.
	ErrWrong = errors.New("error in the program, to be reported")
	// ErrOpen marks behaviour that is not specified.
	ErrOpen = errors.New("not specified")
)

// P is a point or vector.
type P struct{ X, Y int64 }

func (p P) sub(q P) P { return P{p.X - q.X, p.Y - q.Y} }

// A Zone holds points: their current and original positions and their original
// positions in font units.
type Zone struct {
	Cur, Org, Orus []P
	On             []bool
	TouchX, TouchY []bool
	Ends           []int // Of the contours, exclusive.
	// Scaled is whether Orus is in 26.6 pixels already.
	Scaled bool
}

// NewZone returns a zone of n points at the origin.
func NewZone(n int) *Zone {
	return &Zone{Cur: make([]P, n), Org: make([]P, n), Orus: make([]P, n), On: make([]bool, n), TouchX: make([]bool, n), TouchY: make([]bool, n)}
}

type graphics struct {
	pv, fv, dv        P // 2.14
	rp                [3]int32
	zp                [3]int32 // 0 is the twilight zone.
	cvtCutIn, swCutIn int64
	sw, minDist       int64
	deltaBase         int64
	deltaShift        int64
	loop              int64
	round             roundState
	autoFlip          bool
}

type roundState struct {
	off                      bool
	period, phase, threshold int64
	super45                  bool
}

var xAxis, yAxis = P{0x4000, 0}, P{0, 0x4000}

var toGrid = roundState{period: 64, threshold: 32}

func defaultGraphics() graphics {
	return graphics{pv: xAxis, fv: xAxis, dv: xAxis, zp: [3]int32{1, 1, 1}, cvtCutIn: 68, minDist: 64, deltaBase: 9, deltaShift: 3, loop: 1, round: toGrid, autoFlip: true}
}

// Machine is the state of the interpreter for one font and size.
type Machine struct {
	Scale, UPEM int64
	MaxStack    int
	Steps       int // Executed in all runs.
	// Seen counts how often each opcode was executed.
	Seen [256]int

	stack   []int32
	store   []int32
	cvt     []int64
	rawCVT  []int
	fns     map[int32][]byte
	twi     *Zone
	gs, def graphics
	inGlyph bool
	glyph   *Zone
}

// Mul is x scaled from font units, rounded to nearest with halves away from zero.
func (m *Machine) Mul(x int64) int64 {
	v := x * m.Scale
	fits(v)
	return divRound(v, m.UPEM)
}

// divRound is a/b rounded to nearest with halves away from zero.
func divRound(a, b int64) int64 {
	if b == 0 {
		panic(ErrOpen)
	}
	if b < 0 {
		a, b = -a, -b
	}
	if a < 0 {
		return -((-a + b/2) / b)
	}
	return (a + b/2) / b
}

func fits(v int64) {
	if v < -1<<31 || v >= 1<<31 {
		panic(ErrOpen)
	}
}

// dot is the projection of d onto the unit vector v, rounded to nearest with
// halves away from zero.
func dot(d, v P) int64 {
	fits(d.X)
	fits(d.Y)
	r := divRound(d.X*v.X+d.Y*v.Y, 1<<14)
	fits(r)
	return r
}

// unit is v scaled to length 0x4000, each component rounded to nearest.
func unit(v P) P {
	if v.X == 0 && v.Y == 0 {
		panic(ErrOpen)
	}
	l2 := v.X*v.X + v.Y*v.Y
	if l2 >= 1<<32 {
		panic(ErrOpen)
	}
	comp := func(a int64) int64 {
		neg := a < 0
		if neg {
			a = -a
		}
		// The largest k with (2k-1)^2 * l2 <= 4 * a^2 * 2^28.
		lo, hi := int64(0), int64(0x4000)
		for lo < hi {
			k := (lo + hi + 1) / 2
			if (2*k-1)*(2*k-1) <= 4*a*a<<28/l2 {
				lo = k
			} else {
				hi = k - 1
			}
		}
		if neg {
			return -lo
		}
		return lo
	}
	return P{comp(v.X), comp(v.Y)}
}

// NewMachine runs the font program and the control value program.
func NewMachine(fpgm, prep []byte, cvt []int, scale, upem, maxStack, maxStore, maxTwilight int) (m *Machine, err error) {
	m = &Machine{Scale: int64(scale), UPEM: int64(upem), MaxStack: maxStack, store: make([]int32, maxStore), rawCVT: cvt, fns: map[int32][]byte{}, twi: NewZone(maxTwilight), def: defaultGraphics()}
	defer catch(&err)
	// The font program has no size.
	m.Scale = 0
	m.scaleCVT()
	m.run(fpgm)
	m.Scale = int64(scale)
	m.scaleCVT()
	m.gs = m.def
	m.run(prep)
	d := defaultGraphics()
	d.cvtCutIn, d.swCutIn, d.sw, d.minDist, d.deltaBase, d.deltaShift, d.round, d.autoFlip =
		m.gs.cvtCutIn, m.gs.swCutIn, m.gs.sw, m.gs.minDist, m.gs.deltaBase, m.gs.deltaShift, m.gs.round, m.gs.autoFlip
	m.def = d
	return m, nil
}

func catch(err *error) {
	switch e := recover(); e {
	case nil:
	case ErrProgram, ErrOpen, ErrWrong:
		*err = e.(error)
	default:
		panic(e)
	}
}

func (m *Machine) scaleCVT() {
	m.cvt = make([]int64, len(m.rawCVT))
	for i, v := range m.rawCVT {
		m.cvt[i] = m.Mul(int64(v))
	}
}

func (z *Zone) clone() *Zone {
	c := *z
	c.Cur, c.Org, c.Orus = append([]P(nil), z.Cur...), append([]P(nil), z.Org...), append([]P(nil), z.Orus...)
	c.On, c.TouchX, c.TouchY = append([]bool(nil), z.On...), append([]bool(nil), z.TouchX...), append([]bool(nil), z.TouchY...)
	return &c
}

// clone returns a machine in the same state.
func (m *Machine) Clone() *Machine {
	c := *m
	c.stack = nil
	c.store = append([]int32(nil), m.store...)
	c.cvt = append([]int64(nil), m.cvt...)
	c.twi = m.twi.clone()
	return &c
}

// RunGlyph runs a glyph's program on its points, which include the four phantom
// points.
func (m *Machine) RunGlyph(program []byte, z *Zone) (err error) {
	defer catch(&err)
	m.glyph, m.inGlyph = z, true
	m.gs = m.def
	m.run(program)
	for i := range z.Cur {
		fits(z.Cur[i].X)
		fits(z.Cur[i].Y)
	}
	return nil
}

// run runs a program that starts with an empty stack.
func (m *Machine) run(program []byte) {
	if !m.inGlyph {
		m.gs = m.def
		m.glyph = NewZone(0)
	}
	m.stack = m.stack[:0]
	if len(program) > 50000 {
		panic(ErrOpen)
	}
	pc, steps := 0, 0
	m.exec(program, &pc, 0, &steps)
}

func bad()  { panic(ErrProgram) }
func open() { panic(ErrOpen) }

// wrong ends a program that every interpreter has to refuse.
func wrong() { panic(ErrWrong) }

func (m *Machine) pop() int32 {
	if len(m.stack) == 0 {
		wrong()
	}
	v := m.stack[len(m.stack)-1]
	m.stack = m.stack[:len(m.stack)-1]
	return v
}

func (m *Machine) push(v int64) {
	if len(m.stack) >= m.MaxStack {
		open()
	}
	m.stack = append(m.stack, int32(v))
}

func (m *Machine) pushBool(b bool) {
	if b {
		m.push(1)
	} else {
		m.push(0)
	}
}

// zone is the zone that zone pointer k points to.
func (m *Machine) zone(k int) *Zone {
	if m.gs.zp[k] == 0 {
		return m.twi
	}
	return m.glyph
}

// at checks a point number of the zone of zone pointer k.
func (m *Machine) at(k int, i int32) int {
	if i < 0 || int(i) >= len(m.zone(k).Cur) {
		wrong()
	}
	return int(i)
}

// move moves point i of zone z along the freedom vector so that its projection
// changes by d, and marks it as touched.
func (m *Machine) move(z *Zone, i int, d int64, touch bool) {
	fp := (m.gs.fv.X*m.gs.pv.X + m.gs.fv.Y*m.gs.pv.Y) >> 14
	if -0x400 < fp && fp < 0x400 {
		fp = 0x4000
	}
	fits(d)
	m.shift(z, i, P{divRound(d*m.gs.fv.X, fp), divRound(d*m.gs.fv.Y, fp)}, touch)
}

func (m *Machine) shift(z *Zone, i int, d P, touch bool) {
	if m.gs.fv.X != 0 {
		z.Cur[i].X += d.X
		z.TouchX[i] = z.TouchX[i] || touch
	}
	if m.gs.fv.Y != 0 {
		z.Cur[i].Y += d.Y
		z.TouchY[i] = z.TouchY[i] || touch
	}
	fits(z.Cur[i].X)
	fits(z.Cur[i].Y)
}

func (m *Machine) cvtAt(i int32) int64 {
	if i < 0 || int(i) >= len(m.cvt) {
		open()
	}
	return m.cvt[i]
}

// round rounds by the round state; the sign of the value never changes.
func (m *Machine) round(v int64) int64 {
	r := m.gs.round
	if r.off {
		return v
	}
	if r.super45 {
		open()
	}
	if abs(v) > 1<<31-300 {
		open()
	}
	neg := v < 0
	if neg {
		v = -v
	}
	w := v - r.phase + r.threshold
	if w < 0 && v == 0 {
		open() // Zero has no sign to keep.
	}
	w = w &^ (r.period - 1) // The greatest multiple not above it; periods are powers of two.
	w += r.phase
	if w < 0 {
		w = r.phase
	}
	if neg {
		return -w
	}
	return w
}

// exec executes code from *pc to its end.
func (m *Machine) exec(code []byte, pc *int, depth int, steps *int) {
	for *pc < len(code) {
		if *pc < 0 {
			open()
		}
		if *steps++; *steps > 99000 {
			open()
		}
		m.Steps++
		m.Seen[code[*pc]]++
		if m.step(code, pc, depth, steps) {
			return
		}
	}
	if *pc > len(code) || depth > 0 {
		open() // A function ends with ENDF, and nothing jumps out of its code.
	}
}

// next is the index of the instruction after the one at i.
func next(code []byte, i int) int {
	op := code[i]
	switch {
	case op == 0x40 || op == 0x41:
		if i+1 >= len(code) {
			wrong()
		}
		if op == 0x40 {
			return i + 2 + int(code[i+1])
		}
		return i + 2 + 2*int(code[i+1])
	case 0xb0 <= op && op <= 0xb7:
		return i + 2 + int(op-0xb0)
	case 0xb8 <= op && op <= 0xbf:
		return i + 1 + 2*int(op-0xb8+1)
	}
	return i + 1
}

// skip returns the index after the ELSE (if els) or EIF that belongs to the IF or
// ELSE before i.
func skip(code []byte, i int, els bool) int {
	depth := 0
	for i < len(code) {
		n := next(code, i)
		switch code[i] {
		case 0x58:
			depth++
		case 0x1b:
			if depth == 0 && els {
				return n
			}
		case 0x59:
			if depth == 0 {
				return n
			}
			depth--
		}
		i = n
	}
	wrong()
	return 0
}

// line is the direction from point b of zp2 to point a of zp1, by the given
// positions, turned counter-clockwise by a quarter if perp. Coinciding points give
// the x axis.
func (m *Machine) line(pos func(*Zone) []P, a, b int32, perp bool) P {
	d := pos(m.zone(1))[m.at(1, a)].sub(pos(m.zone(2))[m.at(2, b)])
	if d == (P{}) {
		return xAxis
	}
	if perp {
		d = P{-d.Y, d.X}
	}
	return unit(d)
}

func curOf(z *Zone) []P { return z.Cur }
func orgOf(z *Zone) []P { return z.Org }

// eachLoop calls f with the next loop points from the stack and resets loop.
func (m *Machine) eachLoop(f func(i int32)) {
	if int64(len(m.stack)) < m.gs.loop {
		wrong()
	}
	for n := m.gs.loop; n > 0; n-- {
		f(m.pop())
	}
	m.gs.loop = 1
}

// refShift is the displacement of the reference point: rp2 in zp1, or rp1 in zp0.
func (m *Machine) refShift(useRP1 bool) (z *Zone, i int, d int64) {
	k, r := 1, m.gs.rp[2]
	if useRP1 {
		k, r = 0, m.gs.rp[1]
	}
	i = m.at(k, r)
	z = m.zone(k)
	return z, i, dot(z.Cur[i].sub(z.Org[i]), m.gs.pv)
}

// originalDistance is the distance from point b of zone zb to point a of zone za
// in the original outline.
func (m *Machine) originalDistance(za *Zone, a int, zb *Zone, b int) int64 {
	if za == m.twi || zb == m.twi {
		return dot(za.Org[a].sub(zb.Org[b]), m.gs.dv)
	}
	d := dot(za.Orus[a].sub(zb.Orus[b]), m.gs.dv)
	if za.Scaled {
		return d
	}
	return m.Mul(d)
}

func abs(v int64) int64 {
	if v < 0 {
		return -v
	}
	return v
}

func (m *Machine) singleWidth(d int64) int64 {
	if abs(d-m.gs.sw) < m.gs.swCutIn {
		if d >= 0 {
			return m.gs.sw
		}
		return -m.gs.sw
	}
	return d
}

func (m *Machine) minimum(org, d int64) int64 {
	if org >= 0 {
		return max(d, m.gs.minDist)
	}
	return min(d, -m.gs.minDist)
}

// step executes one instruction and reports whether a function has returned.
func (m *Machine) step(code []byte, pc *int, depth int, steps *int) (returned bool) {
	op := code[*pc]
	at := *pc
	*pc = next(code, at)
	gs := &m.gs
	switch {
	case op == 0x40, op == 0x41, 0xb0 <= op && op <= 0xbf: // NPUSHB, NPUSHW, PUSHB, PUSHW
		if *pc > len(code) {
			wrong()
		}
		words := op == 0x41 || op >= 0xb8
		i := at + 1
		if op < 0xb0 {
			i++
		}
		for i < *pc {
			if words {
				m.push(int64(int16(uint16(code[i])<<8 | uint16(code[i+1]))))
				i += 2
			} else {
				m.push(int64(code[i]))
				i++
			}
		}
	case op <= 0x05: // SVTCA, SPVTCA, SFVTCA
		v := yAxis
		if op&1 != 0 {
			v = xAxis
		}
		if op < 4 {
			gs.pv, gs.dv = v, v
		}
		if op < 2 || op >= 4 {
			gs.fv = v
		}
	case op <= 0x09: // SPVTL, SFVTL
		b := m.pop()
		a := m.pop()
		v := m.line(curOf, a, b, op&1 != 0)
		if op < 8 {
			gs.pv, gs.dv = v, v
		} else {
			gs.fv = v
		}
	case op <= 0x0b: // SPVFS, SFVFS
		y := int64(int16(m.pop()))
		x := int64(int16(m.pop()))
		v := unit(P{x, y})
		if op == 0x0a {
			gs.pv, gs.dv = v, v
		} else {
			gs.fv = v
		}
	case op == 0x0c:
		m.push(gs.pv.X)
		m.push(gs.pv.Y)
	case op == 0x0d:
		m.push(gs.fv.X)
		m.push(gs.fv.Y)
	case op == 0x0e:
		gs.fv = gs.pv
	case op == 0x0f: // ISECT
		var v [5]int32
		for i := 4; i >= 0; i-- {
			v[i] = m.pop()
		}
		z2, z1, z0 := m.zone(2), m.zone(1), m.zone(0)
		p := m.at(2, v[0])
		a0, a1 := z1.Cur[m.at(1, v[1])], z1.Cur[m.at(1, v[2])]
		b0, b1 := z0.Cur[m.at(0, v[3])], z0.Cur[m.at(0, v[4])]
		z2.Cur[p] = isect(a0, a1, b0, b1)
		z2.TouchX[p], z2.TouchY[p] = true, true
	case op <= 0x12:
		gs.rp[op-0x10] = m.pop()
	case op <= 0x16: // SZP0-2, SZPS
		v := m.pop()
		if v != 0 && v != 1 {
			wrong()
		}
		for i := range gs.zp {
			if op == 0x16 || i == int(op-0x13) {
				gs.zp[i] = v
			}
		}
	case op == 0x17:
		v := m.pop()
		if v < 0 {
			wrong()
		}
		gs.loop = int64(v)
	case op == 0x18:
		gs.round = toGrid
	case op == 0x19:
		gs.round = roundState{period: 64, phase: 32, threshold: 32}
	case op == 0x1a:
		gs.minDist = int64(m.pop())
	case op == 0x1b: // ELSE, after the IF part
		*pc = skip(code, *pc, false)
	case op == 0x1c:
		*pc = at + int(m.pop())
	case op == 0x1d:
		gs.cvtCutIn = int64(m.pop())
	case op == 0x1e:
		gs.swCutIn = int64(m.pop())
	case op == 0x1f:
		gs.sw = m.Mul(int64(m.pop()))
	case op == 0x20:
		v := m.pop()
		m.push(int64(v))
		m.push(int64(v))
	case op == 0x21:
		m.pop()
	case op == 0x22:
		m.stack = m.stack[:0]
	case op == 0x23:
		a, b := m.pop(), m.pop()
		m.push(int64(a))
		m.push(int64(b))
	case op == 0x24:
		m.push(int64(len(m.stack)))
	case op == 0x25, op == 0x26: // CINDEX, MINDEX
		k := int(m.pop())
		if k <= 0 || k > len(m.stack) {
			wrong()
		}
		i := len(m.stack) - k
		v := m.stack[i]
		if op == 0x26 {
			m.stack = append(m.stack[:i], m.stack[i+1:]...)
		}
		m.push(int64(v))
	case op == 0x27: // ALIGNPTS
		b := m.pop()
		a := m.pop()
		i, j := m.at(1, a), m.at(0, b)
		d := dot(m.zone(0).Cur[j].sub(m.zone(1).Cur[i]), gs.pv)
		d /= 2
		m.move(m.zone(1), i, d, true)
		m.move(m.zone(0), j, -d, true)
	case op == 0x29: // UTP
		i := m.at(0, m.pop())
		z := m.zone(0)
		if gs.fv.X != 0 {
			z.TouchX[i] = false
		}
		if gs.fv.Y != 0 {
			z.TouchY[i] = false
		}
	case op == 0x2a, op == 0x2b: // LOOPCALL, CALL
		f, ok := m.fns[m.pop()]
		if !ok {
			wrong()
		}
		n := int32(1)
		if op == 0x2a {
			n = m.pop()
			if n < 0 {
				open()
			}
		}
		if depth >= 31 {
			open()
		}
		for ; n > 0; n-- {
			p := 0
			m.exec(f, &p, depth+1, steps)
		}
	case op == 0x2c: // FDEF
		if m.inGlyph {
			bad()
		}
		i := *pc
		for {
			if i >= len(code) || code[i] == 0x2c {
				bad()
			}
			n := next(code, i)
			if code[i] == 0x2d {
				m.fns[m.pop()] = code[*pc:n]
				*pc = n
				return false
			}
			i = n
		}
	case op == 0x2d: // ENDF
		if depth == 0 {
			wrong()
		}
		return true
	case op == 0x28: // Undefined.
		open()
	case op <= 0x2f: // MDAP
		p := m.pop()
		i := m.at(0, p)
		z := m.zone(0)
		d := int64(0)
		if op&1 != 0 {
			c := dot(z.Cur[i], gs.pv)
			d = m.round(c) - c
		}
		m.move(z, i, d, true)
		gs.rp[0], gs.rp[1] = p, p
	case op <= 0x31:
		m.iup(op&1 != 0)
	case op <= 0x33: // SHP
		_, _, d := m.refShift(op&1 != 0)
		m.eachLoop(func(p int32) { m.move(m.zone(2), m.at(2, p), d, true) })
	case op <= 0x35: // SHC
		c := m.pop()
		z, r, d := m.refShift(op&1 != 0)
		if gs.zp[2] == 0 {
			open() // The twilight zone has no contours.
		}
		z2 := m.zone(2)
		if c < 0 || int(c) >= len(z2.Ends) {
			wrong()
		}
		i := 0
		if c > 0 {
			i = z2.Ends[c-1]
		}
		for ; i < z2.Ends[c]; i++ {
			if z != z2 || r != i {
				m.move(z2, i, d, true)
			}
		}
	case op <= 0x37: // SHZ
		e := m.pop()
		if int64(e) != int64(gs.zp[2]) {
			open() // The manual says the argument is the zone; the pointer is used in practice.
		}
		z, r, d := m.refShift(op&1 != 0)
		z2 := m.zone(2)
		n := len(z2.Cur)
		if z2 != m.twi {
			n -= 4
		}
		for i := 0; i < n; i++ {
			if z != z2 || r != i {
				m.move(z2, i, d, false)
			}
		}
	case op == 0x38: // SHPIX
		v := int64(m.pop())
		d := P{divRound(v*gs.fv.X, 0x4000), divRound(v*gs.fv.Y, 0x4000)}
		m.eachLoop(func(p int32) { m.shift(m.zone(2), m.at(2, p), d, true) })
	case op == 0x39: // IP
		m.ip()
	case op <= 0x3b: // MSIRP
		want := int64(m.pop())
		p := m.pop()
		i, r := m.at(1, p), m.at(0, gs.rp[0])
		z := m.zone(1)
		if z == m.twi {
			open() // Rasterizers differ in whether this sets the original position.
		}
		m.move(z, i, want-dot(z.Cur[i].sub(m.zone(0).Cur[r]), gs.pv), true)
		gs.rp[1], gs.rp[2] = gs.rp[0], p
		if op&1 != 0 {
			gs.rp[0] = p
		}
	case op == 0x3c: // ALIGNRP
		r := m.at(0, gs.rp[0])
		m.eachLoop(func(p int32) {
			i := m.at(1, p)
			m.move(m.zone(1), i, -dot(m.zone(1).Cur[i].sub(m.zone(0).Cur[r]), gs.pv), true)
		})
	case op == 0x3d:
		gs.round = roundState{period: 32, threshold: 16}
	case op <= 0x3f: // MIAP
		n := m.pop()
		p := m.pop()
		i := m.at(0, p)
		z := m.zone(0)
		d := m.cvtAt(n)
		if z == m.twi {
			if d*gs.fv.X&0x3fff != 0 || d*gs.fv.Y&0x3fff != 0 {
				open() // Rounding.
			}
			z.Org[i] = P{d * gs.fv.X >> 14, d * gs.fv.Y >> 14}
			z.Cur[i] = z.Org[i]
			if gs.pv != gs.fv {
				// The point is then moved, but its original position is not.
			}
		}
		org := dot(z.Cur[i], gs.pv)
		if op&1 != 0 {
			if abs(d-org) > gs.cvtCutIn {
				d = org
			}
			d = m.round(d)
		}
		m.move(z, i, d-org, true)
		gs.rp[0], gs.rp[1] = p, p
	case op == 0x42: // WS
		v := m.pop()
		i := m.pop()
		if i < 0 || int(i) >= len(m.store) {
			bad()
		}
		m.store[i] = v
	case op == 0x43: // RS
		i := m.pop()
		if i < 0 || int(i) >= len(m.store) {
			bad()
		}
		m.push(int64(m.store[i]))
	case op == 0x44, op == 0x70: // WCVTP, WCVTF
		v := int64(m.pop())
		i := m.pop()
		m.cvtAt(i)
		if op == 0x70 {
			v = m.Mul(v)
		}
		m.cvt[i] = v
	case op == 0x45:
		m.push(m.cvtAt(m.pop()))
	case op == 0x46:
		m.push(dot(m.zone(2).Cur[m.at(2, m.pop())], gs.pv))
	case op == 0x47:
		m.push(dot(m.zone(2).Org[m.at(2, m.pop())], gs.dv))
	case op == 0x48: // SCFS
		v := int64(m.pop())
		i := m.at(2, m.pop())
		z := m.zone(2)
		m.move(z, i, v-dot(z.Cur[i], gs.pv), true)
		if z == m.twi {
			z.Org[i] = z.Cur[i]
		}
	case op == 0x49, op == 0x4a: // MD
		b := m.pop()
		a := m.pop()
		i, j := m.at(0, a), m.at(1, b)
		if op == 0x49 {
			m.push(dot(m.zone(0).Cur[i].sub(m.zone(1).Cur[j]), gs.pv))
		} else {
			m.push(m.originalDistance(m.zone(0), i, m.zone(1), j))
		}
	case op == 0x4b, op == 0x4c: // MPPEM, MPS
		if m.Scale&63 != 0 {
			open()
		}
		m.push(m.Scale / 64)
	case op == 0x4d:
		gs.autoFlip = true
	case op == 0x4e:
		gs.autoFlip = false
	case op == 0x4f:
		open() // DEBUG
	case op <= 0x55:
		b, a := m.pop(), m.pop()
		m.pushBool([]bool{a < b, a <= b, a > b, a >= b, a == b, a != b}[op-0x50])
	case op <= 0x57: // ODD, EVEN
		v := m.round(int64(m.pop()))
		m.pushBool((v>>6&1 == 1) == (op == 0x56))
	case op == 0x58:
		if m.pop() == 0 {
			*pc = skip(code, *pc, true)
		}
	case op == 0x59:
	case op == 0x5a, op == 0x5b:
		b, a := m.pop() != 0, m.pop() != 0
		m.pushBool(op == 0x5a && a && b || op == 0x5b && (a || b))
	case op == 0x5c:
		m.pushBool(m.pop() == 0)
	case op == 0x5d, op == 0x71, op == 0x72: // DELTAP
		m.delta(map[byte]int64{0x5d: 0, 0x71: 16, 0x72: 32}[op], func(p int32, d int64) {
			m.move(m.zone(0), m.at(0, p), d, true)
		})
	case op <= 0x75 && op >= 0x73: // DELTAC
		m.delta(16*int64(op-0x73), func(c int32, d int64) {
			m.cvtAt(c)
			m.cvt[c] += d
		})
	case op == 0x5e:
		gs.deltaBase = int64(m.pop())
	case op == 0x5f:
		gs.deltaShift = int64(m.pop())
		if gs.deltaShift < 0 || gs.deltaShift > 6 {
			wrong()
		}
	case op == 0x60, op == 0x61:
		b, a := int64(m.pop()), int64(m.pop())
		if op == 0x61 {
			b = -b
		}
		m.push(a + b)
	case op == 0x62: // DIV truncates
		b, a := int64(m.pop()), int64(m.pop())
		if b == 0 {
			wrong()
		}
		fits(a * 64 / b)
		m.push(a * 64 / b)
	case op == 0x63: // MUL
		b, a := int64(m.pop()), int64(m.pop())
		if a*b < 0 && a*b&63 == 32 {
			open() // A negative half may go either way.
		}
		fits(divRound(a*b, 64))
		m.push(divRound(a*b, 64))
	case op == 0x64:
		m.push(abs(int64(m.pop())))
	case op == 0x65:
		m.push(-int64(m.pop()))
	case op == 0x66, op == 0x67:
		v := int64(m.pop())
		if op == 0x67 {
			v += 63
			fits(v)
		}
		m.push(v &^ 63)
	case op <= 0x6b: // ROUND
		v := m.round(int64(m.pop()))
		fits(v)
		m.push(v)
	case op <= 0x6f: // NROUND, without compensation
		m.push(int64(m.pop()))
	case op == 0x76, op == 0x77:
		v := int64(m.pop())
		p := []int64{32, 64, 128, 64}[v>>6&3]
		if v>>6&3 == 3 {
			open() // Reserved.
		}
		t := (v&15 - 4) * p / 8
		if v&15 == 0 {
			t = p - 1
		}
		gs.round = roundState{period: p, phase: p * (v >> 4 & 3) / 4, threshold: t, super45: op == 0x77}
	case op == 0x78, op == 0x79: // JROT, JROF
		c := m.pop() != 0
		off := m.pop()
		if c == (op == 0x78) {
			*pc = at + int(off)
		}
	case op == 0x7a:
		gs.round = roundState{off: true}
	case op == 0x7c:
		gs.round = roundState{period: 64, threshold: 63}
	case op == 0x7d:
		gs.round = roundState{period: 64}
	case op == 0x7e, op == 0x7f, op == 0x85, op == 0x8d: // SANGW, AA, SCANCTRL, SCANTYPE
		m.pop()
	case op == 0x80: // FLIPPT
		m.eachLoop(func(p int32) {
			if p < 0 || int(p) >= len(m.glyph.Cur) {
				wrong()
			}
			m.glyph.On[p] = !m.glyph.On[p]
		})
	case op == 0x81, op == 0x82: // FLIPRGON, FLIPRGOFF
		hi, lo := m.pop(), m.pop()
		n := int32(len(m.glyph.Cur))
		if lo < 0 || lo >= n || hi < 0 || hi >= n {
			wrong()
		}
		for ; lo <= hi; lo++ {
			m.glyph.On[lo] = op == 0x81
		}
	case op == 0x86, op == 0x87: // SDPVTL
		b := m.pop()
		a := m.pop()
		if m.zone(1).Org[m.at(1, a)] == m.zone(2).Org[m.at(2, b)] && op&1 != 0 {
			open()
		}
		gs.dv = m.line(orgOf, a, b, op&1 != 0)
		gs.pv = m.line(curOf, a, b, op&1 != 0)
	case op == 0x88: // GETINFO: version 35, grayscale.
		v := m.pop()
		r := int64(0)
		if v&1 != 0 {
			r = 35
		}
		if v&32 != 0 {
			r |= 1 << 12
		}
		if v&^(1|32|2|4) != 0 {
			open()
		}
		m.push(r)
	case op == 0x8a: // ROLL: a b c -> b c a
		c, b, a := m.pop(), m.pop(), m.pop()
		m.push(int64(b))
		m.push(int64(c))
		m.push(int64(a))
	case op == 0x8b, op == 0x8c:
		b, a := int64(m.pop()), int64(m.pop())
		if op == 0x8b {
			m.push(max(a, b))
		} else {
			m.push(min(a, b))
		}
	case op == 0x8e: // INSTCTRL is ignored.
		m.pop()
		m.pop()
	case 0xc0 <= op && op <= 0xdf: // MDRP
		p := m.pop()
		i, r := m.at(1, p), m.at(0, gs.rp[0])
		z, zr := m.zone(1), m.zone(0)
		org := m.singleWidth(m.originalDistance(z, i, zr, r))
		d := org
		if op&4 != 0 {
			d = m.round(d)
		}
		if op&8 != 0 {
			d = m.minimum(org, d)
		}
		m.move(z, i, d-dot(z.Cur[i].sub(zr.Cur[r]), gs.pv), true)
		m.relative(op, p)
	case 0xe0 <= op: // MIRP
		n := m.pop()
		p := m.pop()
		i, r := m.at(1, p), m.at(0, gs.rp[0])
		z, zr := m.zone(1), m.zone(0)
		if z == m.twi {
			open() // Not implemented.
		}
		d := m.singleWidth(m.cvtAt(n))
		org := dot(z.Org[i].sub(zr.Org[r]), gs.dv)
		if gs.autoFlip && (org < 0) != (d < 0) {
			d = -d
		}
		if op&4 != 0 {
			if gs.zp[0] == gs.zp[1] && abs(d-org) > gs.cvtCutIn {
				d = org
			}
			d = m.round(d)
		}
		if op&8 != 0 {
			d = m.minimum(org, d)
		}
		m.move(z, i, d-dot(z.Cur[i].sub(zr.Cur[r]), gs.pv), true)
		m.relative(op, p)
	default:
		open() // IDEF and undefined opcodes.
	}
	return false
}

func (m *Machine) relative(op byte, p int32) {
	m.gs.rp[1], m.gs.rp[2] = m.gs.rp[0], p
	if op&16 != 0 {
		m.gs.rp[0] = p
	}
}

func (m *Machine) delta(base int64, f func(p int32, d int64)) {
	n := int64(m.pop())
	if n < 0 {
		open()
	}
	if int64(len(m.stack)) < 2*n {
		wrong()
	}
	if m.Scale&63 != 0 {
		open()
	}
	for ; n > 0; n-- {
		p := m.pop()
		arg := int64(m.pop())
		if (arg>>4&15)+base+m.gs.deltaBase != m.Scale/64 {
			continue
		}
		k := arg&15 - 8
		if k >= 0 {
			k++
		}
		f(p, k<<6>>m.gs.deltaShift)
	}
}

// isect is the intersection of the lines a0-a1 and b0-b1, or the middle of the four
// points if they are (nearly) parallel.
func isect(a0, a1, b0, b1 P) P {
	da, db, d := a1.sub(a0), b1.sub(b0), b0.sub(a0)
	for _, v := range []P{da, db, d} {
		if abs(v.X) > 1<<20 || abs(v.Y) > 1<<20 {
			open()
		}
	}
	// The manual says "parallel"; as C FreeType, lines at an angle with a tangent of
	// less than 1/19 count as such.
	cross := divRound(da.X*-db.Y, 64) + divRound(da.Y*db.X, 64)
	cos := divRound(da.X*db.X, 64) + divRound(da.Y*db.Y, 64)
	if 19*abs(cross) <= abs(cos) {
		mid := func(v int64) int64 {
			return v / 4
		}
		return P{mid(a0.X + a1.X + b0.X + b1.X), mid(a0.Y + a1.Y + b0.Y + b1.Y)}
	}
	v := divRound(d.X*-db.Y, 64) + divRound(d.Y*db.X, 64)
	return P{a0.X + divRound(v*da.X, cross), a0.Y + divRound(v*da.Y, cross)}
}

func (m *Machine) ip() {
	gs := &m.gs
	z0, z1 := m.zone(0), m.zone(1)
	i1, i2 := m.at(0, gs.rp[1]), m.at(1, gs.rp[2])
	pos := func(z *Zone) []P { return z.Orus }
	if gs.zp[0] == 0 || gs.zp[1] == 0 || gs.zp[2] == 0 {
		pos = orgOf
	}
	oldRange := dot(pos(z1)[i2].sub(pos(z0)[i1]), gs.dv)
	curRange := dot(z1.Cur[i2].sub(z0.Cur[i1]), gs.pv)
	base, cur := pos(z0)[i1], z0.Cur[i1]
	m.eachLoop(func(p int32) {
		i := m.at(2, p)
		z := m.zone(2)
		d := dot(pos(z)[i].sub(base), gs.dv)
		to := int64(0)
		if d != 0 {
			to = divRound(d*curRange, oldRange) // Open if the old range is zero.
		}
		m.move(z, i, to-dot(z.Cur[i].sub(cur), gs.pv), true)
	})
}

// iup interpolates the untouched points of each contour.
func (m *Machine) iup(x bool) {
	z := m.glyph
	get := func(p P) int64 {
		if x {
			return p.X
		}
		return p.Y
	}
	set := func(i int, v int64) {
		fits(v)
		if x {
			z.Cur[i].X = v
		} else {
			z.Cur[i].Y = v
		}
	}
	touched := z.TouchY
	if x {
		touched = z.TouchX
	}
	start := 0
	for _, end := range z.Ends {
		n := end - start
		var ts []int
		for i := start; i < end; i++ {
			if touched[i] {
				ts = append(ts, i)
			}
		}
		for k, t := range ts {
			if len(ts) == 1 {
				d := get(z.Cur[t]) - get(z.Org[t])
				for i := start; i < end; i++ {
					if i != t {
						set(i, get(z.Cur[i])+d)
					}
				}
				break
			}
			// The points between t and the next touched point.
			u := ts[(k+1)%len(ts)]
			for i := start + (t-start+1)%n; i != u; i = start + (i-start+1)%n {
				lo, hi := t, u
				if get(z.Orus[lo]) > get(z.Orus[hi]) {
					lo, hi = hi, lo
				}
				ol, oh := get(z.Org[lo]), get(z.Org[hi])
				cl, ch := get(z.Cur[lo]), get(z.Cur[hi])
				ul, uh := get(z.Orus[lo]), get(z.Orus[hi])
				v := get(z.Org[i])
				switch {
				case ul == uh && ol == oh && v == ol && cl != ch:
					// On top of both, which moved apart: the first one's shift is as good as
					// the other's.
					open()
				case v <= ol:
					v += cl - ol
				case v >= oh || ul == uh:
					v += ch - oh
				default:
					scale := divRound((ch-cl)<<16, uh-ul)
					v = cl + divRound((get(z.Orus[i])-ul)*scale, 1<<16)
				}
				set(i, v)
			}
		}
		start = end
	}
}
