package checks

import (
	"fmt"
	"math"

	"verif/internal/mc"

	"github.com/golang/freetype/raster"
	"golang.org/x/image/math/fixed"
)

// strokeCase is a path of one curve: P[0], then segments of degree Deg[i].
// Cap: 0 nil, 1 round, 2 butt, 3 square. Join: 0 nil, 1 round, 2 bevel.
type strokeCase struct {
	W, H      int
	P         [][2]int
	Deg       []int
	Width     int
	Cap, Join int
	// The path and width are multiplied by 1<<Shift, and the stroke divided
	// again.
	Shift int `json:",omitempty"`
}

func capper(i int) raster.Capper {
	return []raster.Capper{nil, raster.RoundCapper, raster.ButtCapper, raster.SquareCapper}[i]
}
func joiner(i int) raster.Joiner {
	return []raster.Joiner{nil, raster.RoundJoiner, raster.BevelJoiner}[i]
}

func buildPath(ps [][2]int, deg []int) (p raster.Path) {
	p.Start(pt(ps[0][0], ps[0][1]))
	i := 1
	for _, d := range deg {
		switch d {
		case 1:
			p.Add1(pt(ps[i][0], ps[i][1]))
		case 2:
			p.Add2(pt(ps[i][0], ps[i][1]), pt(ps[i+1][0], ps[i+1][1]))
		}
		i += d
	}
	return p
}

type fseg struct {
	ax, ay, bx, by float64
	ux, uy, l      float64
	// How each end continues: the path's end, a corner, or smoothly.
	a, b int
}

const (
	isEnd = iota
	isCorner
	isSmooth
)

type c16worker struct {
	r          *raster.Rasterizer
	w, h       int
	g          grid
	segs       []fseg
	may        []bool
	best, excl []float64
	ref        []uint32
}

const quadPieces = 24

// flattenPath gives the path as fine straight pieces, in pixels.
func flattenPath(out []fseg, ps [][2]int, deg []int) []fseg {
	out = out[:0]
	px, py := float64(ps[0][0])/64, float64(ps[0][1])/64
	add := func(x, y float64, kind int) {
		l := math.Hypot(x-px, y-py)
		if l > 1e-9 {
			out = append(out, fseg{ax: px, ay: py, bx: x, by: y, ux: (x - px) / l, uy: (y - py) / l, l: l, a: kind, b: isCorner})
			if n := len(out); n > 1 {
				out[n-2].b = kind
			}
		}
		px, py = x, y
	}
	i := 1
	for _, d := range deg {
		x1, y1 := float64(ps[i][0])/64, float64(ps[i][1])/64
		if d == 1 {
			add(x1, y1, isCorner)
		} else {
			x0, y0 := px, py
			x2, y2 := float64(ps[i+1][0])/64, float64(ps[i+1][1])/64
			for s := 1; s <= quadPieces; s++ {
				t := float64(s) / quadPieces
				u := 1 - t
				kind := isSmooth
				if s == 1 {
					kind = isCorner
				}
				add(u*u*x0+2*u*t*x1+t*t*x2, u*u*y0+2*u*t*y1+t*t*y2, kind)
			}
		}
		i += d
	}
	if len(out) > 0 {
		out[0].a, out[len(out)-1].b = isEnd, isEnd
	}
	return out
}

// markMay sets k.may for the pixels whose centre lies no further than grow
// outside of the stroke.
func (k *c16worker) markMay(c *strokeCase, hw, grow float64) {
	ra := hw + grow
	disc := func(x, y float64) {
		for py := max(0, int(y-ra)-1); py <= min(c.H-1, int(y+ra)+1); py++ {
			for px := max(0, int(x-ra)-1); px <= min(c.W-1, int(x+ra)+1); px++ {
				dx, dy := float64(px)+0.5-x, float64(py)+0.5-y
				if dx*dx+dy*dy <= ra*ra {
					k.may[py*c.W+px] = true
				}
			}
		}
	}
	for j := range k.segs {
		s := &k.segs[j]
		t0, t1 := -grow, s.l+grow
		if c.Cap == 3 && s.a == isEnd {
			t0 -= hw
		}
		if c.Cap == 3 && s.b == isEnd {
			t1 += hw
		}
		x0 := min(s.ax+t0*s.ux, s.ax+t1*s.ux) - ra
		x1 := max(s.ax+t0*s.ux, s.ax+t1*s.ux) + ra
		y0 := min(s.ay+t0*s.uy, s.ay+t1*s.uy) - ra
		y1 := max(s.ay+t0*s.uy, s.ay+t1*s.uy) + ra
		for py := max(0, int(y0)-1); py <= min(c.H-1, int(y1)+1); py++ {
			for px := max(0, int(x0)-1); px <= min(c.W-1, int(x1)+1); px++ {
				dx, dy := float64(px)+0.5-s.ax, float64(py)+0.5-s.ay
				t := dx*s.ux + dy*s.uy
				if d := math.Abs(dx*s.uy - dy*s.ux); d <= ra && t0 <= t && t <= t1 {
					k.may[py*c.W+px] = true
				}
			}
		}
		if s.a != isEnd || c.Cap <= 1 {
			disc(s.ax, s.ay)
		}
		if s.b != isEnd || c.Cap <= 1 {
			disc(s.bx, s.by)
		}
	}
}

// markMust computes for each pixel centre the distance to the path, split by
// whether the nearest point is one around which the stroke is round.
func (k *c16worker) markMust(c *strokeCase, hw float64) {
	for i := range k.best {
		k.best[i], k.excl[i] = 1e9, 1e9
	}
	for j := range k.segs {
		s := &k.segs[j]
		lo, hi := 0.0, s.l
		if c.Cap == 3 && s.a == isEnd {
			lo = -hw
		}
		if c.Cap == 3 && s.b == isEnd {
			hi += hw
		}
		ra := hw + 0.1
		x0 := min(s.ax+lo*s.ux, s.ax+hi*s.ux) - ra
		x1 := max(s.ax+lo*s.ux, s.ax+hi*s.ux) + ra
		y0 := min(s.ay+lo*s.uy, s.ay+hi*s.uy) - ra
		y1 := max(s.ay+lo*s.uy, s.ay+hi*s.uy) + ra
		round := func(kind int) bool {
			return kind == isSmooth || kind == isCorner && c.Join <= 1 || kind == isEnd && c.Cap <= 1
		}
		for py := max(0, int(y0)-1); py <= min(c.H-1, int(y1)+1); py++ {
			for px := max(0, int(x0)-1); px <= min(c.W-1, int(x1)+1); px++ {
				dx, dy := float64(px)+0.5-s.ax, float64(py)+0.5-s.ay
				t := dx*s.ux + dy*s.uy
				ok := (round(s.a) || t > lo+1) && (round(s.b) || t < hi-1)
				t = max(lo, min(hi, t))
				d := math.Hypot(dx-t*s.ux, dy-t*s.uy)
				i := py*c.W + px
				if ok {
					k.best[i] = min(k.best[i], d)
				} else {
					k.excl[i] = min(k.excl[i], d)
				}
			}
		}
	}
}

func execStroke(x *mc.X, c strokeCase) error {
	k, _ := x.Scratch.(*c16worker)
	if k == nil {
		k = &c16worker{r: raster.NewRasterizer(0, 0)}
		x.Scratch = k
	}
	if k.w != c.W || k.h != c.H {
		k.r.SetBounds(c.W, c.H)
		k.w, k.h = c.W, c.H
		k.may = make([]bool, c.W*c.H)
		k.best, k.excl = make([]float64, c.W*c.H), make([]float64, c.W*c.H)
	} else {
		k.r.Clear()
		clear(k.may)
	}
	q := buildPath(c.P, c.Deg)
	k.r.UseNonZeroWinding = true
	if c.Shift == 0 {
		k.r.AddStroke(q, fixed.Int26_6(c.Width), capper(c.Cap), joiner(c.Join))
	} else {
		ps := make([][2]int, len(c.P))
		for i, p := range c.P {
			ps[i] = [2]int{p[0] << c.Shift, p[1] << c.Shift}
		}
		raster.Stroke(scaledDown{k.r, c.Shift}, buildPath(ps, c.Deg), fixed.Int26_6(c.Width<<c.Shift), capper(c.Cap), joiner(c.Join))
	}
	k.g.reset(c.W, c.H)
	k.r.Rasterize(&k.g)
	x.Step(2)
	if err := k.g.finish(); err != nil {
		return err
	}
	k.segs = flattenPath(k.segs, c.P, c.Deg)
	hw := float64(c.Width/2) / 64
	curved := false
	for _, d := range c.Deg {
		curved = curved || d == 2
	}
	tolIn, tolOut := 0.12, 0.12
	full, solid := true, 0.97
	if curved {
		solid = 0.7
		// Measured: at most 0.18 and 0.27 pixels.
		tolIn, tolOut = 0.35, 0.40
		// Where a curve turns more tightly than the half width, only round
		// ends cover all of the inside.
		full = c.Cap <= 1 || minRadius(k.segs) > hw
	}
	const hd = 0.7072 // half a pixel's diagonal
	k.markMust(&c, hw)
	k.markMay(&c, hw, tolOut+hd)
	h := mc.NewHash()
	area := 0.0
	for i, a := range k.g.px {
		got := float64(a) / 65535
		area += got
		h.Int(int(a))
		if full && k.best[i] <= hw-tolIn-hd && k.excl[i] > k.best[i]+hd && got < solid {
			return fmt.Errorf("pixel (%d,%d) is well inside the stroke but has coverage %.3f", i%c.W, i/c.W, got)
		}
		if !k.may[i] && got > 0 {
			return fmt.Errorf("pixel (%d,%d) is well outside the stroke but has coverage %.3f", i%c.W, i/c.W, got)
		}
	}
	inside := func(p [2]int) bool {
		m := c.Width + 64
		return p[0] >= m && p[1] >= m && p[0] <= 64*c.W-m && p[1] <= 64*c.H-m
	}
	if len(c.P) == 2 && len(k.segs) == 1 && inside(c.P[0]) && inside(c.P[1]) {
		// A single line: the area is known.
		want := 2 * hw * k.segs[0].l
		switch c.Cap {
		case 0, 1:
			want += math.Pi * hw * hw
		case 3:
			want += 4 * hw * hw
		}
		if tol := 0.05*want + 0.06*k.segs[0].l + 0.3; math.Abs(area-want) > tol {
			return fmt.Errorf("stroke area %.3f, want %.3f", area, want)
		}
	}
	x.StateU(uint64(h))
	x.Outcome(uint64(h))
	x.Validated()
	return nil
}

// minRadius is the least radius of curvature at the smooth vertices.
func minRadius(segs []fseg) float64 {
	r := math.Inf(1)
	for i := 1; i < len(segs); i++ {
		s, t := &segs[i-1], &segs[i]
		if t.a != isSmooth {
			continue
		}
		turn := math.Abs(math.Atan2(s.ux*t.uy-s.uy*t.ux, s.ux*t.ux+s.uy*t.uy))
		if turn > 1e-9 {
			r = min(r, min(s.l, t.l)/turn)
		}
	}
	return r
}

// scaledDown divides the points by 1<<shift.
type scaledDown struct {
	r     *raster.Rasterizer
	shift int
}

func (s scaledDown) p(a fixed.Point26_6) fixed.Point26_6 {
	f := func(v fixed.Int26_6) fixed.Int26_6 {
		return fixed.Int26_6((int64(v) + int64(1)<<(s.shift-1)) >> s.shift)
	}
	return fixed.Point26_6{X: f(a.X), Y: f(a.Y)}
}
func (s scaledDown) Start(a fixed.Point26_6)      { s.r.Start(s.p(a)) }
func (s scaledDown) Add1(a fixed.Point26_6)       { s.r.Add1(s.p(a)) }
func (s scaledDown) Add2(a, b fixed.Point26_6)    { s.r.Add2(s.p(a), s.p(b)) }
func (s scaledDown) Add3(a, b, d fixed.Point26_6) { s.r.Add3(s.p(a), s.p(b), s.p(d)) }

func stroke48(p [][2]int, deg []int, width, cp, jn int) strokeCase {
	return strokeCase{W: 48, H: 48, P: p, Deg: deg, Width: width, Cap: cp, Join: jn}
}

// normalCase is a line by D, followed by one by E.
type normalCase struct {
	D, E  [2]int
	Width int
}

// execNormals compares the normals passed to cappers and joiners with the
// exact ones.
func execNormals(x *mc.X, c normalCase) error {
	var p raster.Path
	p.Start(pt(10, -20))
	p.Add1(pt(10+c.D[0], -20+c.D[1]))
	end := pt(10+c.D[0]+c.E[0], -20+c.D[1]+c.E[1])
	p.Add1(end)
	if end == pt(10, -20) {
		return nil
	}
	var err error
	check := func(what string, n fixed.Point26_6, d [2]int, sign float64) {
		l := sign * math.Hypot(float64(d[0]), float64(d[1]))
		hw := float64(c.Width / 2)
		dx, dy := float64(n.X)-float64(d[1])/l*hw, float64(n.Y)+float64(d[0])/l*hw
		if max(math.Abs(dx), math.Abs(dy)) > 2 && err == nil {
			err = fmt.Errorf("%s: normal %v for a segment by %v, half width %v", what, n, d, hw)
		}
	}
	n := 0
	var sink prims
	raster.Stroke(&sink, p, fixed.Int26_6(c.Width),
		raster.CapperFunc(func(p raster.Adder, h fixed.Int26_6, pivot, n1 fixed.Point26_6) {
			n++
			if pivot == end {
				check("cap at the end", n1, c.E, -1)
			} else {
				check("cap at the start", n1, c.D, 1)
			}
			raster.ButtCapper.Cap(p, h, pivot, n1)
		}),
		raster.JoinerFunc(func(l, r raster.Adder, h fixed.Int26_6, pivot, n0, n1 fixed.Point26_6) {
			n++
			check("join, first", n0, c.D, 1)
			check("join, second", n1, c.E, 1)
			raster.BevelJoiner.Join(l, r, h, pivot, n0, n1)
		}))
	x.Step(3)
	if err == nil && n != 3 {
		err = fmt.Errorf("%d caps and joins, want 3", n)
	}
	h := mc.NewHash()
	for _, v := range sink {
		h.Int(v)
	}
	x.StateU(uint64(h))
	x.Validated()
	return err
}

// prims records the calls made on an Adder.
type prims []int

func (p *prims) Start(a fixed.Point26_6) { *p = append(*p, 0, int(a.X), int(a.Y)) }
func (p *prims) Add1(a fixed.Point26_6)  { *p = append(*p, 1, int(a.X), int(a.Y)) }
func (p *prims) Add2(a, b fixed.Point26_6) {
	*p = append(*p, 2, int(a.X), int(a.Y), int(b.X), int(b.Y))
}
func (p *prims) Add3(a, b, c fixed.Point26_6) {
	*p = append(*p, 3, int(a.X), int(a.Y), int(b.X), int(b.Y), int(c.X), int(c.Y))
}

// multiCase is a sequence of curves: indices into curveAlphabet.
type multiCase struct {
	Curves    []int
	Width     int
	Cap, Join int
}

type curve struct {
	P   [][2]int
	Deg []int
}

var curveAlphabet = []curve{
	{[][2]int{{300, 300}}, nil},
	{[][2]int{{300, 300}, {1500, 700}}, []int{1}},
	{[][2]int{{300, 300}, {1500, 300}, {1500, 1500}, {300, 1500}, {300, 300}}, []int{1, 1, 1, 1}},
	{[][2]int{{1800, 200}, {1000, 400}, {1800, 1800}}, []int{2}},
	{[][2]int{{700, 700}, {700, 701}, {1400, 800}, {1600, 1700}, {200, 1600}}, []int{1, 1, 2}},
	{[][2]int{{100, 1800}, {1500, 100}, {1800, 1200}, {900, 900}}, []int{2, 1}},
}

func pathOf(c curve) raster.Path { return buildPath(c.P, c.Deg) }

// rasterPrims renders recorded calls.
func rasterCalls(k *c16worker, p prims) []uint32 {
	k.r.SetBounds(32, 32)
	k.w, k.h = 32, 32
	k.r.UseNonZeroWinding = true
	for i := 0; i < len(p); {
		switch p[i] {
		case 0:
			k.r.Start(pt(p[i+1], p[i+2]))
			i += 3
		case 1:
			k.r.Add1(pt(p[i+1], p[i+2]))
			i += 3
		case 2:
			k.r.Add2(pt(p[i+1], p[i+2]), pt(p[i+3], p[i+4]))
			i += 5
		default:
			k.r.Add3(pt(p[i+1], p[i+2]), pt(p[i+3], p[i+4]), pt(p[i+5], p[i+6]))
			i += 7
		}
	}
	k.g.reset(32, 32)
	k.r.Rasterize(&k.g)
	return append([]uint32(nil), k.g.px...)
}

func execMulti(x *mc.X, c multiCase) error {
	k, _ := x.Scratch.(*c16worker)
	if k == nil {
		k = &c16worker{r: raster.NewRasterizer(0, 0)}
		x.Scratch = k
	}
	k.may, k.best, k.excl, k.w = nil, nil, nil, -1
	w := fixed.Int26_6(c.Width)
	var all raster.Path
	var sep, got prims
	caps, joins := 0, 0
	for _, i := range c.Curves {
		q := pathOf(curveAlphabet[i])
		all.AddPath(q)
		if len(q) > 4 {
			raster.Stroke(&sep, q, w, capper(c.Cap), joiner(c.Join))
			caps += 2
			joins += len(curveAlphabet[i].Deg) - 1
		}
	}
	before := append(raster.Path(nil), all...)
	raster.Stroke(&got, all, w, capper(c.Cap), joiner(c.Join))
	x.Step(len(c.Curves) + 4)
	same := func(what string, a, b prims) error {
		ra, rb := rasterCalls(k, a), rasterCalls(k, b)
		if err := diffAlphas(ra, rb, 32); err != nil {
			return fmt.Errorf("%s: %v", what, err)
		}
		return nil
	}
	if err := same("the stroke of several curves is not that of each in turn", got, sep); err != nil {
		return err
	}
	for i := range before {
		if all[i] != before[i] {
			return fmt.Errorf("stroking modifies the path at %d", i)
		}
	}
	want := rasterCalls(k, got)
	// The methods of Path and Rasterizer.
	var pp raster.Path
	pp.AddStroke(all, w, capper(c.Cap), joiner(c.Join))
	k.r.SetBounds(32, 32)
	k.r.UseNonZeroWinding = true
	k.r.AddPath(pp)
	k.g.reset(32, 32)
	k.r.Rasterize(&k.g)
	if err := diffAlphas(k.g.px, want, 32); err != nil {
		return fmt.Errorf("Path.AddStroke: %v", err)
	}
	k.r.Clear()
	k.r.AddStroke(all, w, capper(c.Cap), joiner(c.Join))
	k.g.reset(32, 32)
	k.r.Rasterize(&k.g)
	if err := diffAlphas(k.g.px, want, 32); err != nil {
		return fmt.Errorf("Rasterizer.AddStroke: %v", err)
	}
	// A curve with no extent leaves nothing.
	if caps == 0 {
		for i, a := range want {
			if a != 0 {
				return fmt.Errorf("a path of no curve with extent paints pixel %d", i)
			}
		}
	}
	// User-supplied cappers and joiners are called as documented.
	var sink prims
	var cerr error
	nc, nj := 0, 0
	hw := w / 2
	checkNormal := func(n fixed.Point26_6, what string) {
		if l := math.Hypot(float64(n.X), float64(n.Y)); math.Abs(l-float64(hw)) > 2 && cerr == nil {
			cerr = fmt.Errorf("%s: normal %v has length %.2f, half the width is %d", what, n, l, hw)
		}
	}
	var ends []fixed.Point26_6
	raster.Stroke(&sink, all, w,
		raster.CapperFunc(func(p raster.Adder, h fixed.Int26_6, pivot, n1 fixed.Point26_6) {
			nc++
			ends = append(ends, pivot)
			if h != hw && cerr == nil {
				cerr = fmt.Errorf("capper: half width %d, want %d", h, hw)
			}
			checkNormal(n1, "capper")
			capper(max(c.Cap, 1)).Cap(p, h, pivot, n1)
		}),
		raster.JoinerFunc(func(l, r raster.Adder, h fixed.Int26_6, pivot, n0, n1 fixed.Point26_6) {
			nj++
			if h != hw && cerr == nil {
				cerr = fmt.Errorf("joiner: half width %d, want %d", h, hw)
			}
			checkNormal(n0, "joiner n0")
			checkNormal(n1, "joiner n1")
			joiner(max(c.Join, 1)).Join(l, r, h, pivot, n0, n1)
		}))
	if cerr != nil {
		return cerr
	}
	if nc != caps || nj != joins {
		return fmt.Errorf("%d caps and %d joins, want %d and %d", nc, nj, caps, joins)
	}
	i := 0
	for _, j := range c.Curves {
		if cv := curveAlphabet[j]; len(cv.Deg) > 0 {
			a, b := cv.P[0], cv.P[len(cv.P)-1]
			if ends[i] != pt(b[0], b[1]) && ends[i] != pt(a[0], a[1]) || ends[i+1] != pt(a[0], a[1]) && ends[i+1] != pt(b[0], b[1]) {
				return fmt.Errorf("caps at %v and %v, the curve ends at %v and %v", ends[i], ends[i+1], a, b)
			}
			i += 2
		}
	}
	if err := same("wrapping the capper and joiner changes the stroke", sink, got); err != nil {
		return err
	}
	h := mc.NewHash()
	for _, v := range want {
		h.Int(int(v))
	}
	x.StateU(uint64(h))
	x.Outcome(uint64(h))
	x.Validated()
	return nil
}

var c16 = &mc.Check{
	ID: "C16",
	Rule: "every line of a set of directions, lengths and widths; every pair of lines with every pair of directions, for segments from far shorter than a pixel to longer than the width; every triple of short lines; every quadratic on a lattice, including cusps; " +
		"each cap and join (nil, round, butt, square; nil, round, bevel): every pixel of the non-zero filled stroke compared with its distance from the path; the same for lines and joins up to 32768, and quadratics up to 8192, times as large, their strokes scaled down again; the normals given to cappers and joiners for every pair of segments of a set of vectors; every sequence of curves of an alphabet, compared with stroking each by itself, through each of the three ways to stroke, and with instrumented cappers and joiners",
	Assumptions: []string{
		"tolerances in pixels, besides half a pixel's diagonal: 0.12 for lines, 0.35 inside and 0.40 outside for quadratics (the largest deviations measured on the unchanged tree are 0.18 and 0.27); a covered pixel has coverage of at least 0.97 (lines) or 0.7, as opposite slivers of overlapping curve pieces meet in one pixel",
		"within a pixel of a butt end or a bevel only the outside is checked; where a quadratic turns more tightly than half the width, the inside is checked for round caps only",
		"a cubic segment cannot be stroked (documented panic)",
	},
	Run: func(c *mc.Ctx) {
		dirsN := func(n int) (dirs [][2]int) {
			for i := 0; i < n; i++ {
				a := float64(i) * 2 * math.Pi / float64(n)
				dirs = append(dirs, [2]int{int(math.Round(1000 * math.Cos(a))), int(math.Round(1000 * math.Sin(a)))})
			}
			return
		}
		step := func(a, d [2]int, l int) [2]int {
			r := func(v int) int { return int(math.Round(float64(v) * float64(l) / 1000)) }
			return [2]int{a[0] + r(d[0]), a[1] + r(d[1])}
		}
		o := [2]int{1500, 1500}
		widths := []int{0, 1, 2, 3, 20, 64, 100, 320, 641}
		mc.Explore(c, "lines", func(yield func(strokeCase) bool) {
			for _, w := range widths {
				for cp := 0; cp < 4; cp++ {
					for _, l := range []int{3, 20, 64, 300, 900} {
						for _, d := range dirsN(c.N(64, 256)) {
							if b := step(o, d, l); !yield(stroke48([][2]int{o, b}, []int{1}, w, cp, 0)) {
								return
							}
						}
					}
				}
			}
		}, execStroke)
		dirs := dirsN(c.N(16, 32))
		mc.Explore(c, "joins", func(yield func(strokeCase) bool) {
			for _, w := range []int{64, 320, 641} {
				for cp := 0; cp < 4; cp++ {
					for jn := 0; jn < 3; jn++ {
						for _, l := range []int{5, 20, 64, 300, 900} {
							for _, l2 := range []int{5, 20, 64, 300, 900} {
								for _, d := range dirs {
									for _, e := range dirs {
										a := step(o, d, l)
										b := step(a, e, l2)
										if !yield(stroke48([][2]int{o, a, b}, []int{1, 1}, w, cp, jn)) {
											return
										}
									}
								}
							}
						}
					}
				}
			}
		}, execStroke)
		mc.Explore(c, "chains", func(yield func(strokeCase) bool) {
			dirs := dirsN(8)
			for _, w := range []int{64, 320} {
				for cp := 1; cp < 4; cp++ {
					for jn := 1; jn < 3; jn++ {
						for _, l := range []int{20, 150, 700} {
							for _, d := range dirs {
								for _, e := range dirs {
									for _, f := range dirs {
										a := step(o, d, l)
										b := step(a, e, l*2/3)
										g := step(b, f, l)
										if !yield(stroke48([][2]int{o, a, b, g}, []int{1, 1, 1}, w, cp, jn)) {
											return
										}
									}
								}
							}
						}
					}
				}
			}
		}, execStroke)
		mc.Explore(c, "long", func(yield func(strokeCase) bool) {
			// Lines through the window whose ends and joins may be far away.
			n := c.N(16, 128)
			ends := []int{0, 300, 5000, 1 << 17, 1 << 21}
			for _, w := range []int{20, 65, 320, 641} {
				for cp := 1; cp < 4; cp++ {
					for jn := 1; jn < 3; jn++ {
						for _, l := range ends {
							for _, l2 := range ends {
								for _, d := range dirsN(n) {
									a, b := step(o, [2]int{-d[0], -d[1]}, l), step(o, d, l2)
									if l > 0 && l2 > 0 && jn == 1 && !yield(stroke48([][2]int{a, b}, []int{1}, w, cp, jn)) {
										return
									}
									if max(l, l2) <= 5000 {
										continue
									}
									for _, e := range dirsN(8) {
										if b := step(o, e, l2); !yield(stroke48([][2]int{a, o, b}, []int{1, 1}, w, cp, jn)) {
											return
										}
									}
								}
							}
						}
					}
				}
			}
			// Wide lines one of whose sides passes through the window.
			for _, w := range []int{2000, 5001, 1 << 14, 1<<17 + 1, 1 << 21, 1 << 24} {
				for _, cp := range []int{2, 3} {
					for _, l := range ends[1:] {
						for _, d := range dirsN(n) {
							for _, side := range []int{-1, 1} {
								m := step(o, [2]int{-side * d[1], side * d[0]}, w/2)
								a, b := step(m, [2]int{-d[0], -d[1]}, l), step(m, d, l)
								if !yield(stroke48([][2]int{a, b}, []int{1}, w, cp, 1)) {
									return
								}
							}
						}
					}
				}
			}
		}, execStroke)
		mc.Explore(c, "repeated-points", func(yield func(strokeCase) bool) {
			// Every way to draw each of up to three segments as a line, or as a
			// quadratic one of whose legs has no length, with lines and
			// quadratics of no length before and after each.
			dirs := dirsN(c.N(8, 16))
			n := c.N(2, 3)
			for _, w := range []int{64, 320} {
				for cp := 1; cp < 4; cp++ {
					for jn := 1; jn < 3; jn++ {
						for _, l := range []int{20, 40, 600} {
							for _, d := range dirs {
								for _, e := range dirs {
									ends := [][2]int{o, step(o, d, l), step(step(o, d, l), e, 600)}
									var rec func(i int, ps [][2]int, deg []int) bool
									rec = func(i int, ps [][2]int, deg []int) bool {
										p := ps[len(ps)-1]
										for r := 0; r < n; r++ {
											ps, deg := ps[:len(ps):len(ps)], deg[:len(deg):len(deg)]
											if r == 1 {
												ps, deg = append(ps, p), append(deg, 1)
											} else if r == 2 {
												ps, deg = append(ps, p, p), append(deg, 2)
											}
											if i == 3 {
												if !yield(stroke48(ps, deg, w, cp, jn)) {
													return false
												}
												continue
											}
											q := ends[i]
											if !rec(i+1, append(ps[:len(ps):len(ps)], q), append(deg[:len(deg):len(deg)], 1)) ||
												!rec(i+1, append(ps[:len(ps):len(ps)], p, q), append(deg[:len(deg):len(deg)], 2)) ||
												!rec(i+1, append(ps[:len(ps):len(ps)], q, q), append(deg[:len(deg):len(deg)], 2)) {
												return false
											}
										}
										return true
									}
									if !rec(1, ends[:1], nil) {
										return
									}
								}
							}
						}
					}
				}
			}
		}, execStroke)
		quads := func(n, size int, widths ...int) func(yield func(strokeCase) bool) {
			return func(yield func(strokeCase) bool) {
				ps := shift(latticeN(n, size, size), 500, 500)
				for _, w := range widths {
					for cp := 1; cp < 4; cp++ {
						for _, p := range ps {
							for _, q := range ps {
								for _, r := range ps {
									if !yield(stroke48([][2]int{p, q, r}, []int{2}, w, cp, 1)) {
										return
									}
								}
							}
						}
					}
				}
			}
		}
		mc.Explore(c, "quads", quads(c.N(3, 4), 2000, 64, 320, 640), execStroke)
		mc.Explore(c, "small-quads", quads(3, 300, 20, 64, 100), execStroke)
		mc.Explore(c, "tight-quad", func(yield func(strokeCase) bool) {
			yield(stroke48([][2]int{{550, 500}, {500, 500}, {600, 550}}, []int{2}, 320, 1, 1))
		}, func(x *mc.X, c strokeCase) error {
			if err := execStroke(x, c); err != nil {
				return mc.Keyed("tight-quad-550.500-500.500-600.550-w320", "%v", err)
			}
			return nil
		})
		mc.Explore(c, "line-quad", func(yield func(strokeCase) bool) {
			ps := shift(latticeN(2, 1800, 1800), 500, 500)
			for _, w := range []int{64, 320} {
				for cp := 1; cp < 4; cp++ {
					for jn := 1; jn < 3; jn++ {
						for _, first := range []int{1, 2} {
							for _, p := range ps {
								for _, q := range ps {
									for _, r := range ps {
										for _, s := range ps {
											if !yield(stroke48([][2]int{p, q, r, s}, []int{first, 3 - first}, w, cp, jn)) {
												return
											}
										}
									}
								}
							}
						}
					}
				}
			}
		}, execStroke)
		mc.Explore(c, "scaled", func(yield func(strokeCase) bool) {
			// The same shapes, up to 32768 times as large.
			shapes := func(yield func(strokeCase) bool) {
				n := c.N(16, 32)
				for cp := 1; cp < 4; cp++ {
					for _, w := range []int{64, 320, 641} {
						for _, l := range []int{64, 300, 900} {
							for _, d := range dirsN(n) {
								a := step(o, d, l)
								if !yield(stroke48([][2]int{o, a}, []int{1}, w, cp, 1)) {
									return
								}
								for jn := 1; jn < 3; jn++ {
									for _, e := range dirsN(n) {
										if !yield(stroke48([][2]int{o, a, step(a, e, 700)}, []int{1, 1}, w, cp, jn)) {
											return
										}
									}
								}
							}
						}
						if w == 641 {
							continue
						}
						ps := shift(latticeN(c.N(3, 4), 2000, 2000), 500, 500)
						for _, p := range ps {
							for _, q := range ps {
								for _, r := range ps {
									if !yield(stroke48([][2]int{p, q, r}, []int{2}, w, cp, 1)) {
										return
									}
								}
							}
						}
					}
				}
			}
			for _, sh := range []int{1, 4, 7, 11, 13, 15} {
				for s := range shapes {
					if s.Shift = sh; sh > 13 && s.Deg[0] == 2 {
						continue
					}
					if !yield(s) {
						return
					}
				}
			}
		}, execStroke)
		mc.Explore(c, "normals", func(yield func(normalCase) bool) {
			vs := []int{0, 1, 5, 64, 1000, 32767, 46341, 65537, 1 << 20, 1<<24 + 1}
			for _, w := range []int{2, 3, 64, 641, 5000, 65536, 92683, 1<<20 + 1, 1 << 24} {
				for _, x0 := range vs {
					for _, y0 := range vs {
						for _, x1 := range vs {
							for _, y1 := range vs {
								for s := 0; s < 16; s++ {
									sg := func(b, v int) int { return v - 2*v*(s>>b&1) }
									v := normalCase{[2]int{sg(0, x0), sg(1, y0)}, [2]int{sg(2, x1), sg(3, y1)}, w}
									if v.D != [2]int{} && v.E != [2]int{} && !yield(v) {
										return
									}
								}
							}
						}
					}
				}
			}
		}, execNormals)
		mc.Explore(c, "curves", func(yield func(multiCase) bool) {
			var rec func(cs []int, n int, w, cp, jn int) bool
			rec = func(cs []int, n, w, cp, jn int) bool {
				if !yield(multiCase{append([]int(nil), cs...), w, cp, jn}) {
					return false
				}
				if n == 0 {
					return true
				}
				for i := range curveAlphabet {
					if !rec(append(cs, i), n-1, w, cp, jn) {
						return false
					}
				}
				return true
			}
			for _, w := range []int{64, 320} {
				for cp := 0; cp < 4; cp++ {
					for jn := 0; jn < 3; jn++ {
						if !rec(nil, c.N(3, 4), w, cp, jn) {
							return
						}
					}
				}
			}
		}, execMulti)
	},
}
