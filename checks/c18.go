package checks

import (
	"fmt"
	"math"
	"slices"

	"verif/internal/mc"

	"github.com/golang/freetype/raster"
)

// sink records spans and checks that they obey the painter contract.
type sink struct {
	spans []raster.Span
	dones int
	err   error
}

func (s *sink) Paint(ss []raster.Span, done bool) {
	if s.dones > 0 && s.err == nil {
		s.err = fmt.Errorf("a call after the final one")
	}
	for _, p := range ss {
		if p.X0 >= p.X1 && s.err == nil {
			s.err = fmt.Errorf("an empty span %+v is passed on", p)
		}
		if n := len(s.spans); n > 0 && s.err == nil {
			if l := s.spans[n-1]; p.Y < l.Y || p.Y == l.Y && p.X0 < l.X1 {
				s.err = fmt.Errorf("span %+v follows %+v", p, l)
			}
		}
		s.spans = append(s.spans, p)
	}
	if done {
		s.dones++
	}
	for i := range ss {
		ss[i] = raster.Span{Y: -9, X0: 5, X1: 3, Alpha: 77}
	}
}

func (s *sink) check() error {
	if s.err != nil {
		return s.err
	}
	if s.dones != 1 {
		return fmt.Errorf("%d final calls", s.dones)
	}
	return nil
}

// monoCase is one or two rasterizations by the same monochrome painter. Pix has
// one letter per pixel, Rows rows: ' ' no span; a..d a span of that alpha, and
// A..D the same but joined to the span on its left. Cuts has a bit per gap
// between spans where a batch ends; Empty adds empty batches.
type monoCase struct {
	Y0, X0, W int
	Pix       string
	Cuts      int
	Empty     int
	Second    string
	Cap       bool
}

var monoAlphas = map[byte]uint32{'a': 0x7fff, 'b': 0x8000, 'c': 0xffff, 'd': 1}

func monoSpans(c *monoCase, pix string) (ss []raster.Span) {
	for i := 0; i < len(pix); i++ {
		y, px := c.Y0+i/c.W, c.X0+i%c.W
		switch ch := pix[i]; {
		case ch == ' ':
		case ch >= 'a':
			ss = append(ss, raster.Span{Y: y, X0: px, X1: px + 1, Alpha: monoAlphas[ch]})
		default:
			ss[len(ss)-1].X1++
		}
	}
	return
}

// feed hands the spans to p in the batches described by cuts. The batches are
// parts of one array, behind each other, unless they are tight: a painter may
// use a batch, but not what lies behind it.
func feed(x *mc.X, p raster.Painter, ss []raster.Span, cuts, empty int, tight bool) error {
	array := append(append(make([]raster.Span, 0, len(ss)+2), ss...), raster.Span{Y: 7777, X0: 1, X1: 2, Alpha: 3}, raster.Span{Y: 8888})
	orig := slices.Clone(array)
	var batches [][2]int
	start := 0
	if empty&1 != 0 {
		batches = append(batches, [2]int{})
	}
	for i := 1; i <= len(ss); i++ {
		if i == len(ss) || cuts>>(i-1)&1 != 0 {
			batches = append(batches, [2]int{start, i})
			start = i
			if empty&2 != 0 && i < len(ss) {
				batches = append(batches, [2]int{i, i})
			}
		}
	}
	if empty&4 != 0 || len(batches) == 0 {
		batches = append(batches, [2]int{len(ss), len(ss)})
	}
	for i, b := range batches {
		buf := array[b[0]:b[1]]
		if tight {
			buf = slices.Clone(buf)
			if len(buf) == 0 && empty&1 != 0 {
				buf = nil
			}
		}
		p.Paint(buf, i == len(batches)-1)
		x.Step(1)
		if !slices.Equal(array[b[1]:], orig[b[1]:]) {
			return fmt.Errorf("the painter changed spans behind batch %d", i)
		}
	}
	return nil
}

func execMono(x *mc.X, c monoCase) error {
	var s sink
	m := raster.NewMonochromePainter(&s)
	h := mc.NewHash()
	for round, pix := range []string{c.Pix, c.Second} {
		if round == 1 && c.Second == "" {
			break
		}
		s = sink{}
		ss := monoSpans(&c, pix)
		if err := feed(x, m, ss, c.Cuts, c.Empty, c.Cap); err != nil {
			return fmt.Errorf("rasterization %d: %v", round, err)
		}
		if err := s.check(); err != nil {
			return fmt.Errorf("rasterization %d: %v", round, err)
		}
		got := map[[2]int]bool{}
		for _, p := range s.spans {
			if p.Alpha != 0xffff {
				return fmt.Errorf("span %+v is not opaque", p)
			}
			for i := p.X0; i < p.X1; i++ {
				got[[2]int{i, p.Y}] = true
			}
			h.Int(p.X0)
			h.Int(p.X1)
			h.Int(p.Y)
		}
		n := 0
		for _, p := range ss {
			for i := p.X0; i < p.X1; i++ {
				want := p.Alpha >= 0x8000
				if want {
					n++
				}
				if got[[2]int{i, p.Y}] != want {
					return fmt.Errorf("rasterization %d: pixel (%d,%d) of alpha %#x: passed on %v", round, i, p.Y, p.Alpha, !want)
				}
			}
		}
		if n != len(got) {
			return fmt.Errorf("rasterization %d: %d pixels passed on, want %d", round, len(got), n)
		}
	}
	x.StateU(uint64(h))
	x.Outcome(uint64(h))
	x.Validated()
	return nil
}

// monoLong repeats a pattern of spans N times, in rows of PerRow spans, handed
// over in batches of Batch spans. Each letter of the pattern is a span; its
// alpha is on or off, it is Scale or 3*Scale pixels wide, and it follows the one
// before it after a gap of Scale or none.
type monoLong struct {
	Pattern                        []int
	N, PerRow, Batch, Scale, X, Y0 int
}

type monoThreshold struct{ Alpha uint32 }

func joinSpans(ss []raster.Span, on func(raster.Span) bool) (out []raster.Span) {
	for _, s := range ss {
		if !on(s) {
			continue
		}
		if n := len(out); n > 0 && out[n-1].Y == s.Y && out[n-1].X1 == s.X0 {
			out[n-1].X1 = s.X1
		} else {
			out = append(out, raster.Span{Y: s.Y, X0: s.X0, X1: s.X1})
		}
	}
	return
}

func execMonoLong(x *mc.X, c monoLong) error {
	var in []raster.Span
	px, y := c.X, c.Y0
	for i := 0; i < c.N; i++ {
		if c.PerRow > 0 && i > 0 && i%c.PerRow == 0 {
			px, y = c.X, y+1
		}
		k := c.Pattern[i%len(c.Pattern)]
		w, a := c.Scale, uint32(0x7fff)
		if k&1 != 0 {
			w *= 3
		}
		if k&2 != 0 {
			px += c.Scale
		}
		if k&4 != 0 {
			a = 0x8000
		}
		in = append(in, raster.Span{Y: y, X0: px, X1: px + w, Alpha: a})
		px += w
	}
	var s sink
	m := raster.NewMonochromePainter(&s)
	for i := 0; i <= len(in); i += c.Batch {
		b := append([]raster.Span(nil), in[i:min(len(in), i+c.Batch)]...)
		m.Paint(b, i+c.Batch > len(in))
		x.Step(1)
	}
	if err := s.check(); err != nil {
		return err
	}
	for _, p := range s.spans {
		if p.Alpha != 0xffff {
			return fmt.Errorf("span %+v is not opaque", p)
		}
	}
	want := joinSpans(in, func(s raster.Span) bool { return s.Alpha >= 0x8000 })
	got := joinSpans(s.spans, func(raster.Span) bool { return true })
	h := mc.NewHash()
	for i, w := range want {
		if i >= len(got) || got[i] != w {
			return fmt.Errorf("run %d is %v, want %v", i, got[i:min(len(got), i+1)], w)
		}
		h.Int(w.X0)
		h.Int(w.Y)
	}
	if len(got) != len(want) {
		return fmt.Errorf("%d runs, want %d", len(got), len(want))
	}
	x.StateU(uint64(h))
	x.Outcome(uint64(h))
	x.Validated()
	return nil
}

// gammaCase checks every alpha for one gamma, after a history of other gammas.
type gammaCase struct {
	History []float64
	Gamma   float64
}

func execGamma(x *mc.X, c gammaCase) error {
	var s sink
	var g *raster.GammaCorrectionPainter
	if len(c.History) == 0 {
		g = raster.NewGammaCorrectionPainter(&s, c.Gamma)
	} else {
		g = raster.NewGammaCorrectionPainter(&s, c.History[0])
		for _, v := range c.History[1:] {
			g.SetGamma(v)
		}
		g.SetGamma(c.Gamma)
	}
	const n = 0x10000
	in := make([]raster.Span, n)
	for i := range in {
		in[i] = raster.Span{Y: i / 7, X0: i % 7 * 10, X1: i%7*10 + 1 + i%9, Alpha: uint32(i)}
	}
	half := n / 2
	g.Paint(append([]raster.Span(nil), in[:half]...), false)
	if s.dones != 0 {
		return fmt.Errorf("a batch that is not final was passed on as final")
	}
	g.Paint(nil, false)
	g.Paint(append([]raster.Span(nil), in[half:]...), true)
	x.Step(3)
	if err := s.check(); err != nil {
		return err
	}
	if len(s.spans) != n {
		return fmt.Errorf("%d spans passed on of %d", len(s.spans), n)
	}
	worst := 0.0
	prev := uint32(0)
	h := mc.NewHash()
	for i, p := range s.spans {
		if p.Y != in[i].Y || p.X0 != in[i].X0 || p.X1 != in[i].X1 {
			return fmt.Errorf("span %+v becomes %+v", in[i], p)
		}
		x.ValidatedN(1)
		h.Int(int(p.Alpha))
		if (i == 0 || i == 0xffff || c.Gamma == 1) && p.Alpha != uint32(i) {
			return fmt.Errorf("gamma %v maps %#x to %#x", c.Gamma, i, p.Alpha)
		}
		if p.Alpha < prev {
			return fmt.Errorf("gamma %v is not monotone at %#x: %#x after %#x", c.Gamma, i, p.Alpha, prev)
		}
		prev = p.Alpha
		if p.Alpha > 0xffff {
			return fmt.Errorf("gamma %v maps %#x to %#x", c.Gamma, i, p.Alpha)
		}
		// Between neighbouring multiples of 0x101 the value is interpolated.
		lo := 0xffff * math.Pow(float64(i/0x101)/0xff, c.Gamma)
		hi := 0xffff * math.Pow(math.Min(1, float64(i/0x101+1)/0xff), c.Gamma)
		if i%0x101 == 0 {
			hi = lo
		}
		if a := float64(p.Alpha); a < lo-1.5 || a > hi+1.5 {
			return fmt.Errorf("gamma %v maps %#x to %#x, want %.1f to %.1f", c.Gamma, i, p.Alpha, lo, hi)
		}
		if i >= 0x1000 {
			e := math.Abs(float64(p.Alpha)/0xffff - math.Pow(float64(i)/0xffff, c.Gamma))
			worst = max(worst, e)
		}
	}
	if worst > 0.001 {
		return fmt.Errorf("gamma %v differs from the power law by %v", c.Gamma, worst)
	}
	x.StateU(uint64(h))
	x.Outcome(uint64(h))
	return nil
}

// stackCase puts painters on top of each other: 'g' gamma, 'm' monochrome,
// outermost first.
type stackCase struct {
	Stack string
	Pix   string
	Cuts  int
	Empty int
}

func execStack(x *mc.X, c stackCase) error {
	var s sink
	var p raster.Painter = &s
	for i := len(c.Stack) - 1; i >= 0; i-- {
		if c.Stack[i] == 'g' {
			p = raster.NewGammaCorrectionPainter(p, 2)
		} else {
			p = raster.NewMonochromePainter(p)
		}
	}
	h := mc.NewHash()
	mcase := monoCase{Y0: 0, X0: 0, W: 3}
	for round := 0; round < 2; round++ {
		s = sink{}
		ss := monoSpans(&mcase, c.Pix)
		if err := feed(x, p, ss, c.Cuts, c.Empty, false); err != nil {
			return fmt.Errorf("round %d: %v", round, err)
		}
		if err := s.check(); err != nil {
			return fmt.Errorf("round %d: %v", round, err)
		}
		got := map[[2]int]uint32{}
		for _, q := range s.spans {
			h.Int(q.X0)
			h.Int(int(q.Alpha))
			for i := q.X0; i < q.X1; i++ {
				got[[2]int{i, q.Y}] = q.Alpha
			}
		}
		for _, q := range ss {
			a := float64(q.Alpha) / 0xffff
			for i := range c.Stack {
				if c.Stack[i] == 'g' {
					a = a * a
				} else if a >= 0.5 {
					a = 1
				} else {
					a = 0
				}
			}
			for i := q.X0; i < q.X1; i++ {
				if e := float64(got[[2]int{i, q.Y}])/0xffff - a; e > 0.001 || e < -0.001 {
					return fmt.Errorf("round %d: stack %q: alpha %#x becomes %#x, want %v", round, c.Stack, q.Alpha, got[[2]int{i, q.Y}], a)
				}
			}
		}
	}
	x.StateU(uint64(h))
	x.Outcome(uint64(h))
	x.Validated()
	return nil
}

func pixStrings(letters string, w, n int, yield func(string) bool) bool {
	b := make([]byte, n)
	var rec func(i int) bool
	rec = func(i int) bool {
		if i == n {
			return yield(string(b))
		}
		b[i] = ' '
		if !rec(i + 1) {
			return false
		}
		for j := 0; j < len(letters); j++ {
			b[i] = letters[j]
			if !rec(i + 1) {
				return false
			}
			if i%w > 0 && (b[i-1] == letters[j] || b[i-1] == letters[j]-32) {
				b[i] = letters[j] - 32
				if !rec(i + 1) {
					return false
				}
			}
		}
		return true
	}
	return rec(0)
}

func countSpans(pix string) (n int) {
	for i := range pix {
		if pix[i] >= 'a' {
			n++
		}
	}
	return
}

var c18 = &mc.Check{
	ID: "C18",
	Rule: "monochrome: every assignment of {no span, alpha 0x7fff, 0x8000, 0xffff} to the pixels of two rows, with every division of runs into spans, every division of the spans into batches and placement of empty batches, as parts of one array or apart, at several origins, followed by every second rasterization of a set with the same painter; " +
		"every pattern of up to two (thorough: three) spans repeated to 300 spans, in batches of up to 300, with spans of up to 3*2^20 pixels; every alpha; gamma: every one of the 65536 alphas for each gamma of a list, after each history of other gammas; every stack of the two painters up to depth three",
	Assumptions: []string{
		"the input spans obey the painter contract",
		"gamma: multiples of 0x101 must be within 1.5/65535 of the power law, values in between must lie between their neighbours, the curve must be monotone, and from alpha 0x1000 on within 0.001 of the power law (linear interpolation cannot be closer near zero for gammas below 1)",
	},
	Run: func(c *mc.Ctx) {
		mc.Explore(c, "mono", func(yield func(monoCase) bool) {
			for _, o := range [][2]int{{0, 0}, {-1, -2}, {0, 5}, {-1, 0}} {
				if !pixStrings("abc", 3, 6, func(pix string) bool {
					n := countSpans(pix)
					for cuts := 0; cuts < 1<<max(0, n-1); cuts++ {
						for empty := 0; empty < 8; empty += c.N(7, 1) {
							for _, tight := range []bool{false, true} {
								if !yield(monoCase{Y0: o[0], X0: o[1], W: 3, Pix: pix, Cuts: cuts, Empty: empty, Cap: tight}) {
									return false
								}
							}
						}
					}
					return true
				}) {
					return
				}
			}
		}, execMono)
		mc.Explore(c, "mono-reuse", func(yield func(monoCase) bool) {
			for _, o := range [][2]int{{0, 0}, {-1, -1}} {
				var all []string
				pixStrings("ac", 2, 4, func(p string) bool { all = append(all, p); return true })
				for _, p := range all {
					for _, q := range all {
						for cuts := 0; cuts < 8; cuts++ {
							for empty := 0; empty < 8; empty++ {
								if !yield(monoCase{Y0: o[0], X0: o[1], W: 2, Pix: p, Second: q, Cuts: cuts, Empty: empty}) {
									return
								}
							}
						}
					}
				}
			}
		}, execMono)
		mc.Explore(c, "mono-long", func(yield func(monoLong) bool) {
			for n := 1; n <= c.N(2, 3); n++ {
				if !tuples(n, 8, func(p []int) bool {
					p = append([]int(nil), p...)
					for _, count := range []int{5, 63, 64, 65, 66, 130, 300} {
						for _, perRow := range []int{0, 3, 64} {
							for _, batch := range []int{1, 3, 64, 1000} {
								for _, sx := range [][2]int{{1, -2}, {1, 1 << 20}, {3000, -70000}, {1 << 20, -1 << 28}} {
									for _, y := range []int{0, -2, 1 << 20} {
										if !yield(monoLong{p, count, perRow, batch, sx[0], sx[1], y}) {
											return false
										}
									}
								}
							}
						}
					}
					return true
				}) {
					return
				}
			}
		}, execMonoLong)
		mc.Explore(c, "mono-threshold", func(yield func(monoThreshold) bool) {
			for a := uint32(0); a <= 0xffff; a++ {
				if !yield(monoThreshold{a}) {
					return
				}
			}
		}, func(x *mc.X, c monoThreshold) error {
			var s sink
			raster.NewMonochromePainter(&s).Paint([]raster.Span{{Y: 3, X0: 2, X1: 4, Alpha: c.Alpha}}, true)
			x.Step(1)
			x.Validated()
			if err := s.check(); err != nil {
				return err
			}
			x.Outcome(uint64(len(s.spans)))
			on := c.Alpha >= 0x8000
			if on != (len(s.spans) == 1) || on && s.spans[0] != (raster.Span{Y: 3, X0: 2, X1: 4, Alpha: 0xffff}) {
				return fmt.Errorf("alpha %#x becomes %v", c.Alpha, s.spans)
			}
			return nil
		})
		mc.Explore(c, "gamma", func(yield func(gammaCase) bool) {
			gs := []float64{1, 0.25, 0.45, 0.5, 0.9, 1.0001, 1.1, 1.8, 2, 2.2, 3, 5, 10}
			hist := [][]float64{nil, {1}, {2}, {0.5, 1}, {1, 2.2}}
			for _, h := range hist {
				for _, g := range gs {
					if !yield(gammaCase{h, g}) {
						return
					}
				}
			}
		}, execGamma)
		mc.Explore(c, "stacks", func(yield func(stackCase) bool) {
			for _, st := range []string{"g", "m", "gm", "mg", "gg", "mm", "gmg", "mgm", "ggm", "mgg"} {
				if !pixStrings("abcd", 3, c.N(4, 5), func(pix string) bool {
					n := countSpans(pix)
					for cuts := 0; cuts < 1<<max(0, n-1); cuts++ {
						for _, empty := range []int{0, 7} {
							if !yield(stackCase{st, pix, cuts, empty}) {
								return false
							}
						}
					}
					return true
				}) {
					return
				}
			}
		}, execStack)
	},
}
