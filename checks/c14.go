package checks

import (
	"fmt"

	"verif/internal/mc"
	"verif/internal/refraster"

	"github.com/golang/freetype/raster"
	"golang.org/x/image/math/fixed"
)

// prim is a primitive drawing call.
type prim struct {
	n       int // 0 Start, 1 Add1, 2 Add2, 3 Add3
	b, c, d fixed.Point26_6
}

func (p prim) to(a raster.Adder) {
	switch p.n {
	case 0:
		a.Start(p.b)
	case 1:
		a.Add1(p.b)
	case 2:
		a.Add2(p.b, p.c)
	case 3:
		a.Add3(p.b, p.c, p.d)
	}
}

type recorder struct{ ps []prim }

func (r *recorder) Start(a fixed.Point26_6)      { r.ps = append(r.ps, prim{n: 0, b: a}) }
func (r *recorder) Add1(b fixed.Point26_6)       { r.ps = append(r.ps, prim{n: 1, b: b}) }
func (r *recorder) Add2(b, c fixed.Point26_6)    { r.ps = append(r.ps, prim{n: 2, b: b, c: c}) }
func (r *recorder) Add3(b, c, d fixed.Point26_6) { r.ps = append(r.ps, prim{n: 3, b: b, c: c, d: d}) }

type c14op struct {
	name  string
	prims []prim // what it should be equivalent to
	do    func(r *raster.Rasterizer)
	kind  int // 0 drawing, 1 rasterize, 2 clear, 3 bounds, 4 offset, 5 winding
	w, h  int
}

func primsPath(ps []prim) (p raster.Path) {
	for _, q := range ps {
		q.to(&p)
	}
	return p
}

func c14ops() []c14op {
	var ops []c14op
	one := func(name string, p prim) {
		ops = append(ops, c14op{name: name, prims: []prim{p}, do: func(r *raster.Rasterizer) { p.to(r) }})
	}
	one("Start(5,3)", prim{n: 0, b: pt(5, 3)})
	one("Start(-30,100)", prim{n: 0, b: pt(-30, 100)})
	one("Add1(100,10)", prim{n: 1, b: pt(100, 10)})
	one("Add1(40,150)", prim{n: 1, b: pt(40, 150)})
	one("Add2", prim{n: 2, b: pt(200, 20), c: pt(130, 140)})
	one("Add3", prim{n: 3, b: pt(-50, 60), c: pt(300, 70), d: pt(5, 3)})
	ops = append(ops, c14op{name: "Rasterize", kind: 1})
	ops = append(ops, c14op{name: "Clear", kind: 2})
	path := []prim{{n: 0, b: pt(10, 10)}, {n: 1, b: pt(120, 30)}, {n: 2, b: pt(150, 100), c: pt(60, 120)}, {n: 3, b: pt(30, 130), c: pt(0, 60), d: pt(10, 10)},
		{n: 0, b: pt(64, 64)}, {n: 1, b: pt(128, 64)}, {n: 1, b: pt(128, 128)}, {n: 1, b: pt(64, 64)}}
	pp := primsPath(path)
	ops = append(ops, c14op{name: "AddPath", prims: path, do: func(r *raster.Rasterizer) { r.AddPath(pp) }})
	cont := []prim{{n: 1, b: pt(77, 140)}, {n: 1, b: pt(5, 3)}} // a path continuing the current curve
	pc := primsPath(cont)
	ops = append(ops, c14op{name: "AddPath(cont)", prims: cont, do: func(r *raster.Rasterizer) { r.AddPath(pc) }})
	ops = append(ops, c14op{name: "SetBounds(3,2)", kind: 3, w: 3, h: 2})
	ops = append(ops, c14op{name: "SetBounds(2,70)", kind: 3, w: 2, h: 70})
	ops = append(ops, c14op{name: "SetBounds(130,3)", kind: 3, w: 130, h: 3})
	ops = append(ops, c14op{name: "Offset", kind: 4})
	ops = append(ops, c14op{name: "Winding", kind: 5})
	// A path with more cells than the initial buffer holds.
	var big []prim
	for i := 0; i < 150; i++ {
		x, y := (i%20)*100, (i/20)*30-20
		big = append(big, prim{n: 0, b: pt(x, y)}, prim{n: 1, b: pt(x+80, y+5)}, prim{n: 1, b: pt(x+20, y+150)}, prim{n: 1, b: pt(x, y)})
	}
	pb := primsPath(big)
	ops = append(ops, c14op{name: "AddPath(big)", prims: big, do: func(r *raster.Rasterizer) { r.AddPath(pb) }})
	// A stroke, which should be what Stroke sends to any Adder.
	q := primsPath([]prim{{n: 0, b: pt(20, 20)}, {n: 1, b: pt(100, 100)}, {n: 2, b: pt(150, 20), c: pt(180, 120)}})
	rec := &recorder{}
	raster.Stroke(rec, q, 30, nil, nil)
	ops = append(ops, c14op{name: "AddStroke", prims: rec.ps, do: func(r *raster.Rasterizer) { r.AddStroke(q, 30, nil, nil) }})
	return ops
}

type c14case struct {
	W, H int
	Ops  []int
}

// c14worker holds what one worker reuses between cases; the checked rasterizer
// itself is always new.
type c14worker struct {
	ops       []c14op
	got, want spanRec
}

// spanRec records the spans of one rasterization.
type spanRec struct {
	ss   []raster.Span
	done int
}

func (s *spanRec) Paint(ss []raster.Span, done bool) {
	// Coverage is what counts: abutting spans of equal alpha are merged.
	for _, t := range ss {
		if n := len(s.ss); n > 0 && s.ss[n-1].Y == t.Y && s.ss[n-1].X1 == t.X0 && s.ss[n-1].Alpha == t.Alpha {
			s.ss[n-1].X1 = t.X1
			continue
		}
		s.ss = append(s.ss, t)
	}
	if done {
		s.done++
	}
	for i := range ss {
		ss[i] = raster.Span{Y: -5, X0: 9, X1: -9, Alpha: 1}
	}
}
func (s *spanRec) reset() { s.ss, s.done = s.ss[:0], 0 }

func execC14(x *mc.X, c c14case) error {
	if x.Scratch == nil {
		x.Scratch = &c14worker{ops: c14ops()}
	}
	k := x.Scratch.(*c14worker)
	r := raster.NewRasterizer(c.W, c.H)
	w, h, dx, dy, nz := c.W, c.H, 0, 0, false
	var prims []prim
	var start, pen fixed.Point26_6
	// closeCurve closes the current curve, as coverage is only defined for
	// closed curves.
	closeCurve := func() {
		if start != pen {
			r.Add1(start)
			prims = append(prims, prim{n: 1, b: start})
			pen = start
			x.Step(1)
		}
	}
	track := func(ps []prim) {
		for _, p := range ps {
			switch p.n {
			case 0:
				start, pen = p.b, p.b
			case 1:
				pen = p.b
			case 2:
				pen = p.c
			case 3:
				pen = p.d
			}
		}
	}
	check := func(step int) error {
		closeCurve()
		f := raster.NewRasterizer(w, h)
		for _, p := range prims {
			p.to(f)
		}
		f.UseNonZeroWinding = nz
		k.want.reset()
		f.Rasterize(&k.want)
		for pass := 0; pass < 2; pass++ {
			k.got.reset()
			r.Rasterize(&k.got)
			x.Step(1)
			if k.got.done != 1 || len(k.got.ss) != len(k.want.ss) {
				return fmt.Errorf("step %d pass %d: %d spans, %d final batches; a fresh rasterizer gives %d spans", step, pass, len(k.got.ss), k.got.done, len(k.want.ss))
			}
			hh := mc.NewHash()
			for i, s := range k.want.ss {
				s.X0 += dx
				s.X1 += dx
				s.Y += dy
				if s != k.got.ss[i] {
					return fmt.Errorf("step %d pass %d: span %d is %+v, a fresh rasterizer gives %+v (offset %d,%d included)", step, pass, i, k.got.ss[i], s, dx, dy)
				}
				hh.Int(s.Y)
				hh.Int(s.X0<<32 | s.X1)
				hh.Int(int(s.Alpha))
			}
			x.Outcome(uint64(hh))
			hh.Int(len(prims))
			hh.Int(w<<32 | h)
			x.StateU(uint64(hh))
		}
		x.Validated()
		return nil
	}
	for i, o := range c.Ops {
		op := &k.ops[o]
		switch op.kind {
		case 0:
			if op.prims[0].n == 0 {
				closeCurve()
			}
			op.do(r)
			track(op.prims)
			prims = append(prims, op.prims...)
		case 1:
			if err := check(i); err != nil {
				return err
			}
		case 2:
			r.Clear()
			prims = prims[:0]
			start, pen = fixed.Point26_6{}, fixed.Point26_6{}
		case 3:
			r.SetBounds(op.w, op.h)
			w, h = op.w, op.h
			prims = prims[:0]
			start, pen = fixed.Point26_6{}, fixed.Point26_6{}
		case 4:
			dx, dy = (dx+3)^1<<17, (dy-7)^1<<18
			r.Dx, r.Dy = dx, dy
		case 5:
			nz = !nz
			r.UseNonZeroWinding = nz
		}
		x.Step(1)
	}
	return check(len(c.Ops))
}

// pathCase: a path built by Path methods versus the same calls made directly.
type pathCase struct {
	Ops []int
}

func execPathOps(x *mc.X, c pathCase) error {
	base := []prim{{n: 0, b: pt(5, 3)}, {n: 1, b: pt(100, 10)}, {n: 2, b: pt(200, 20), c: pt(130, 140)}, {n: 3, b: pt(-50, 60), c: pt(300, 70), d: pt(5, 3)}, {n: 0, b: pt(60, 60)}}
	sub := []prim{{n: 0, b: pt(10, 10)}, {n: 1, b: pt(120, 30)}, {n: 2, b: pt(150, 100), c: pt(60, 120)}, {n: 3, b: pt(30, 130), c: pt(0, 60), d: pt(10, 10)}}
	stroke := primsPath([]prim{{n: 0, b: pt(20, 20)}, {n: 1, b: pt(100, 100)}})
	rec := &recorder{}
	raster.Stroke(rec, stroke, 40, raster.SquareCapper, raster.BevelJoiner)
	var p raster.Path
	var want []prim
	for _, o := range c.Ops {
		switch {
		case o < len(base):
			base[o].to(&p)
			want = append(want, base[o])
		case o == len(base):
			p.AddPath(primsPath(sub))
			want = append(want, sub...)
		case o == len(base)+1:
			p.Clear()
			want = nil
		case o == len(base)+2:
			p.AddPath(nil)
		case o == len(base)+3:
			p.AddStroke(stroke, 40, raster.SquareCapper, raster.BevelJoiner)
			want = append(want, rec.ps...)
		case o == len(base)+4: // a path added to itself
			p.AddPath(p)
			want = append(want, want...)
		}
		x.Step(1)
	}
	a, b := raster.NewRasterizer(3, 3), raster.NewRasterizer(3, 3)
	a.AddPath(p)
	for _, q := range want {
		q.to(b)
	}
	var ga, gb spanRec
	a.Rasterize(&ga)
	b.Rasterize(&gb)
	if fmt.Sprint(ga.ss) != fmt.Sprint(gb.ss) {
		return fmt.Errorf("path gives %v, direct calls give %v", ga.ss, gb.ss)
	}
	_ = p.String()
	h := mc.NewHash()
	for _, s := range ga.ss {
		h.Int(s.Y<<40 | s.X0<<20 | s.X1)
		h.Int(int(s.Alpha))
	}
	x.Outcome(uint64(h))
	h.Int(len(want))
	x.StateU(uint64(h))
	x.Validated()
	return nil
}

func sequences(n, minLen, maxLen int, yield func([]int) bool) {
	for l := minLen; l <= maxLen; l++ {
		idx := make([]int, l)
		for {
			if !yield(append([]int(nil), idx...)) {
				return
			}
			i := l - 1
			for i >= 0 {
				idx[i]++
				if idx[i] < n {
					break
				}
				idx[i] = 0
				i--
			}
			if i < 0 {
				break
			}
		}
	}
}

var c14 = &mc.Check{
	ID: "C14",
	Rule: "every sequence of rasterizer operations (start, line, quadratic, cubic, paths, stroke, rasterize, clear, three bounds, offset, winding) up to a depth; at every rasterization the spans (twice) " +
		"must equal those of a fresh rasterizer given the primitive calls since the last clear",
	Assumptions: []string{"the offset and winding rule are settings and survive Clear and SetBounds"},
	Run: func(c *mc.Ctx) {
		n := len(c14ops())
		mc.Explore(c, "histories", func(yield func(c14case) bool) {
			sequences(n, 0, c.N(4, 6), func(s []int) bool { return yield(c14case{3, 3, s}) })
		}, execC14)
		// Deeper, over the stateful core of the alphabet.
		core := []int{0, 2, 3, 4, 6, 7, 10, 11, 15}
		mc.Explore(c, "histories-core", func(yield func(c14case) bool) {
			sequences(len(core), 5, c.N(6, 7), func(s []int) bool {
				t := make([]int, len(s))
				for i, v := range s {
					t[i] = core[v]
				}
				return yield(c14case{30, 2, t})
			})
		}, execC14)
		// Long ones, for what adds up.
		mc.Explore(c, "histories-long", func(yield func(c14case) bool) {
			sequences(n, 1, c.N(2, 3), func(s []int) bool {
				var t []int
				for i := 0; i < 600/len(s); i++ {
					t = append(t, s...)
				}
				return yield(c14case{30, 20, t})
			})
		}, execC14)
		mc.Explore(c, "paths", func(yield func(pathCase) bool) {
			sequences(10, 0, c.N(5, 6), func(s []int) bool { return yield(pathCase{s}) })
		}, execPathOps)
		mc.Explore(c, "negative-bounds", func(yield func(c14case) bool) {
			for w := -2; w <= 2; w++ {
				for h := -2; h <= 2; h++ {
					sequences(n, 0, 2, func(s []int) bool { return yield(c14case{w, h, s}) })
				}
			}
		}, execC14)
		_ = refraster.Seg{}
	},
}
