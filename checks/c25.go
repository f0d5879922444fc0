package checks

import (
	"fmt"
	"image"
	"image/color"
	"image/draw"
	"slices"
	"sync"

	"verif/internal/fontgen"
	"verif/internal/mc"

	"github.com/golang/freetype"
	"github.com/golang/freetype/raster"
	"github.com/golang/freetype/truetype"
	"golang.org/x/image/font"
	"golang.org/x/image/math/fixed"
)

type pt26 = fixed.Point26_6

// An indObj is one of the objects whose independence is checked. do performs an
// operation and returns a hash of its result; held is a hash of what the last
// operation returned, as it is now, for results that refer to the object's own
// memory. hook, if set, is called in the middle of operations.
type indObj interface {
	do(op int) (uint64, error)
	held() uint64
}

// indHook is called when an object calls back.
type indHook func()

func (h indHook) call() {
	if h != nil {
		h()
	}
}

// Kinds of objects, with their numbers of operations.
const (
	kContext = iota
	kFace
	kBuf
	kRast
	kStroke
	kPainter
	kPath
	kFont
	nKinds
)

const nIndOps = 5

var indNames = []string{"context", "face", "glyph buffer", "rasterizer", "stroke", "painter", "path", "font"}

func newIndObj(kind int, f *truetype.Font, data []byte, hook indHook) indObj {
	switch kind {
	case kContext:
		o := &indContext{f: f, dst: image.NewRGBA(image.Rect(0, 0, 36, 26)), hook: hook}
		o.c = freetype.NewContext()
		o.c.SetFont(f)
		o.c.SetFontSize(16)
		o.c.SetSrc(hookImage{hook})
		o.c.SetDst(o.dst)
		o.c.SetClip(o.dst.Rect)
		return o
	case kFace:
		return &indFace{face: truetype.NewFace(f, &truetype.Options{Size: 10, Hinting: font.HintingFull, GlyphCacheEntries: 2, SubPixelsX: 2})}
	case kBuf:
		return &indBuf{f: f}
	case kRast:
		return &indRast{r: raster.NewRasterizer(12, 9), hook: hook}
	case kStroke:
		return &indStroke{hook: hook}
	case kPainter:
		m := image.NewAlpha(image.Rect(0, 0, 9, 4))
		o := &indPainter{m: m, rgba: image.NewRGBA(m.Rect)}
		o.mono = raster.NewMonochromePainter(raster.NewAlphaSrcPainter(m))
		o.gamma = raster.NewGammaCorrectionPainter(raster.NewAlphaOverPainter(m), 2)
		o.col = raster.NewRGBAPainter(o.rgba)
		o.col.SetColor(color.RGBA{20, 200, 77, 240})
		return o
	case kPath:
		return &indPath{}
	}
	return &indFont{f: f, data: data}
}

// A hookImage is uniform, and calls back from At.
type hookImage struct{ hook indHook }

func (h hookImage) ColorModel() color.Model { return color.RGBAModel }
func (h hookImage) Bounds() image.Rectangle { return image.Rect(-1e6, -1e6, 1e6, 1e6) }
func (h hookImage) At(x, y int) color.Color {
	h.hook.call()
	return color.RGBA{uint8(x * 3), 90, uint8(200 + y), 255}
}

type indContext struct {
	f    *truetype.Font
	c    *freetype.Context
	dst  *image.RGBA
	hook indHook
	n    [4]int
}

func (o *indContext) do(op int) (uint64, error) {
	s := "AB"
	switch op {
	case 1:
		o.n[0]++
		o.c.SetFontSize([]float64{16, 11}[o.n[0]%2])
		s = "C"
	case 2:
		o.n[1]++
		o.c.SetHinting(hintVals[o.n[1]%2])
		s = "BA"
	case 3:
		o.n[2]++
		o.c.SetClip(o.dst.Rect.Inset(o.n[2] % 2 * 6))
		s = "L"
	case 4:
		o.n[3]++
		s = "A\u0141"
	}
	p, err := o.c.DrawString(s, freetype.Pt(3+o.n[3], 18))
	h := mc.NewHash()
	h.Int(int(p.X))
	h.Int(int(p.Y))
	h.Bytes(o.dst.Pix)
	return uint64(h), err
}
func (o *indContext) held() uint64 {
	h := mc.NewHash()
	h.Bytes(o.dst.Pix)
	return uint64(h)
}

type indFace struct {
	face font.Face
	mask *image.Alpha
	dr   image.Rectangle
	mp   image.Point
}

func (o *indFace) do(op int) (uint64, error) {
	h := mc.NewHash()
	switch op {
	case 0, 1, 2:
		dot := pt([][2]int{{0, 0}, {37, 20}, {100, 640}}[op][0], [][2]int{{0, 0}, {37, 20}, {100, 640}}[op][1])
		dr, mask, mp, adv, ok := o.face.Glyph(dot, []rune("ABC")[op])
		if !ok {
			return 0, fmt.Errorf("Glyph fails")
		}
		o.mask, o.dr, o.mp = mask.(*image.Alpha), dr, mp
		h.Int(int(adv))
		h.Int(dr.Min.X)
		h.Int(dr.Min.Y)
		h.Int(int(o.held()))
	case 3:
		b, adv, ok := o.face.GlyphBounds('L')
		h.Bytes([]byte(fmt.Sprint(b, adv, ok)))
		o.mask = nil
	case 4:
		adv, ok := o.face.GlyphAdvance('A' + 256)
		h.Bytes([]byte(fmt.Sprint(adv, ok, o.face.Kern('A', 'B'), o.face.Metrics())))
		o.mask = nil
	}
	return uint64(h), nil
}
func (o *indFace) held() uint64 {
	if o.mask == nil {
		return 0
	}
	h := mc.NewHash()
	for y := 0; y < o.dr.Dy(); y++ {
		for x := 0; x < o.dr.Dx(); x++ {
			h.Int(int(o.mask.AlphaAt(o.mp.X+x, o.mp.Y+y).A))
		}
	}
	return uint64(h)
}

type indBuf struct {
	f *truetype.Font
	g truetype.GlyphBuf
}

func (o *indBuf) do(op int) (uint64, error) {
	t := []struct {
		i, scale int
		h        font.Hinting
	}{{1, 640, font.HintingFull}, {2, 640, font.HintingNone}, {257, 777, font.HintingFull}, {3, 1000, font.HintingFull}, {1, 640, font.HintingNone}}[op]
	if err := o.g.Load(o.f, i26(t.scale), truetype.Index(t.i), t.h); err != nil {
		return 0, err
	}
	return o.held(), nil
}
func (o *indBuf) held() uint64 {
	h := mc.NewHash()
	for _, ps := range [][]truetype.Point{o.g.Points, o.g.Unhinted, o.g.InFontUnits} {
		h.Int(len(ps))
		for _, p := range ps {
			h.Int(int(p.X))
			h.Int(int(p.Y))
			h.Int(int(p.Flags & 1))
		}
	}
	for _, e := range o.g.Ends {
		h.Int(e)
	}
	h.Int(int(o.g.AdvanceWidth))
	h.Int(int(o.g.Bounds.Min.X))
	h.Int(int(o.g.Bounds.Min.Y))
	h.Int(int(o.g.Bounds.Max.X))
	h.Int(int(o.g.Bounds.Max.Y))
	return uint64(h)
}

// hookPainter calls back, then records.
type hookPainter struct {
	hook indHook
	h    mc.Hash
}

func (p *hookPainter) Paint(ss []raster.Span, done bool) {
	for i, s := range ss {
		if i == len(ss)/2 {
			p.hook.call()
		}
		s = ss[i]
		for x := s.X0; x < s.X1; x++ { // However they are divided.
			p.h.Int(s.Y<<20 | x)
			p.h.Int(int(s.Alpha))
		}
	}
	p.hook.call()
}

type indRast struct {
	r    *raster.Rasterizer
	hook indHook
}

func (o *indRast) do(op int) (uint64, error) {
	switch op {
	case 0:
		o.r.AddPath(primsPath([]prim{{n: 0, b: pt(20, 31)}, {n: 1, b: pt(700, 100)}, {n: 1, b: pt(333, 555)}, {n: 1, b: pt(20, 31)}}))
	case 1:
		o.r.AddPath(primsPath([]prim{{n: 0, b: pt(60, 40)}, {n: 2, b: pt(400, 10), c: pt(500, 400)}, {n: 3, b: pt(300, 500), c: pt(100, 450), d: pt(60, 40)}}))
	case 2:
		o.r.AddStroke(primsPath([]prim{{n: 0, b: pt(100, 100)}, {n: 1, b: pt(600, 200)}, {n: 2, b: pt(650, 500), c: pt(200, 480)}}), 90, hookCap{o.hook}, hookJoin{o.hook})
	case 3:
		o.r.Clear()
		o.r.UseNonZeroWinding = !o.r.UseNonZeroWinding
	case 4:
	}
	p := &hookPainter{hook: o.hook, h: mc.NewHash()}
	o.r.Rasterize(p)
	return uint64(p.h), nil
}
func (o *indRast) held() uint64 { return 0 }

// hookCap and hookJoin call back, and are round.
type hookCap struct{ hook indHook }

func (k hookCap) Cap(p raster.Adder, halfWidth fixed.Int26_6, pivot, n1 pt26) {
	k.hook.call()
	raster.RoundCapper.Cap(p, halfWidth, pivot, n1)
	k.hook.call()
}

type hookJoin struct{ hook indHook }

func (k hookJoin) Join(lhs, rhs raster.Adder, halfWidth fixed.Int26_6, pivot, n0, n1 pt26) {
	k.hook.call()
	raster.RoundJoiner.Join(lhs, rhs, halfWidth, pivot, n0, n1)
	k.hook.call()
}

// hookAdder calls back, and records.
type hookAdder struct {
	hook indHook
	h    mc.Hash
}

func (a *hookAdder) add(n int, ps ...pt26) {
	a.hook.call()
	a.h.Int(n)
	for _, p := range ps {
		a.h.Int(int(p.X))
		a.h.Int(int(p.Y))
	}
}
func (a *hookAdder) Start(p pt26)      { a.add(0, p) }
func (a *hookAdder) Add1(b pt26)       { a.add(1, b) }
func (a *hookAdder) Add2(b, c pt26)    { a.add(2, b, c) }
func (a *hookAdder) Add3(b, c, d pt26) { a.add(3, b, c, d) }

// indStroke has no state, but strokes may have some on the way.
type indStroke struct{ hook indHook }

func (o *indStroke) do(op int) (uint64, error) {
	a := &hookAdder{hook: o.hook, h: mc.NewHash()}
	q := primsPath([]prim{{n: 0, b: pt(100, 100)}, {n: 1, b: pt(600, 200)}, {n: 2, b: pt(650, 500), c: pt(200, 480)}, {n: 1, b: pt(77, 99)}})
	switch op {
	case 0:
		raster.Stroke(a, q, 100, nil, nil)
	case 1:
		raster.Stroke(a, q, 64, raster.ButtCapper, raster.BevelJoiner)
	case 2:
		raster.Stroke(a, q[:8], 200, raster.SquareCapper, raster.RoundJoiner)
	case 3:
		raster.Stroke(a, q, 33, hookCap{o.hook}, hookJoin{o.hook})
	case 4:
		raster.Stroke(a, append(slices.Clone(q), q...), 51, raster.RoundCapper, raster.BevelJoiner)
	}
	return uint64(a.h), nil
}
func (o *indStroke) held() uint64 { return 0 }

type indPainter struct {
	m     *image.Alpha
	rgba  *image.RGBA
	mono  *raster.MonochromePainter
	gamma *raster.GammaCorrectionPainter
	col   *raster.RGBAPainter
	n     int
}

func (o *indPainter) do(op int) (uint64, error) {
	ss := []raster.Span{{Y: 0, X0: 1, X1: 3, Alpha: 0x4000}, {Y: 0, X0: 3, X1: 4, Alpha: 0xa000}, {Y: 1, X0: 0, X1: 5, Alpha: 0xffff}, {Y: 1, X0: 5, X1: 8, Alpha: 0x9abc}, {Y: 3, X0: 2, X1: 9, Alpha: 0x8000}}
	switch op {
	case 0: // In two batches, others come between.
		o.n++
		if o.n%2 == 1 {
			o.mono.Paint(ss[:4], false)
		} else {
			o.mono.Paint(ss[4:], true)
		}
	case 1:
		o.gamma.Paint(ss, true)
	case 2:
		o.gamma.SetGamma([]float64{1, 0.5, 2}[o.n%3])
		o.gamma.Paint(ss[1:], true)
	case 3:
		o.col.SetColor(color.RGBA64{0x1234, 0x5000, 0x0fff, 0x8000})
		o.col.Paint(ss[:3], true)
	case 4:
		o.col.Op = draw.Src
		o.col.Paint(ss[2:], true)
	}
	return o.held(), nil
}
func (o *indPainter) held() uint64 {
	h := mc.NewHash()
	h.Bytes(o.m.Pix)
	h.Bytes(o.rgba.Pix)
	return uint64(h)
}

type indPath struct{ p raster.Path }

func (o *indPath) do(op int) (uint64, error) {
	q := primsPath([]prim{{n: 0, b: pt(10, 20)}, {n: 1, b: pt(60, 20)}, {n: 2, b: pt(65, 50), c: pt(20, 48)}, {n: 1, b: pt(10, 20)}})
	switch op {
	case 0:
		o.p.Start(pt(1, 2))
		o.p.Add1(pt(3, 4))
	case 1:
		o.p.AddPath(q)
	case 2:
		o.p.AddStroke(q, 40, raster.SquareCapper, raster.BevelJoiner)
	case 3:
		o.p.Clear()
		o.p.Start(pt(9, 9))
		o.p.Add3(pt(3, 4), pt(5, 6), pt(7, 8))
	case 4:
		o.p.AddStroke(q, 60, nil, nil)
	}
	return o.held(), nil
}
func (o *indPath) held() uint64 {
	h := mc.NewHash()
	h.Int(len(o.p))
	for _, v := range o.p {
		h.Int(int(v))
	}
	h.Bytes([]byte(o.p.String()))
	return uint64(h)
}

type indFont struct {
	f    *truetype.Font
	data []byte
	name string
}

func (o *indFont) do(op int) (uint64, error) {
	h := mc.NewHash()
	switch op {
	case 0:
		f, err := truetype.Parse(o.data)
		if err != nil {
			return 0, err
		}
		o.f = f
		h.Int(int(f.FUnitsPerEm()))
	case 1:
		for r := rune(0); r < 400; r += 13 {
			h.Int(int(o.f.Index(r)))
		}
	case 2:
		o.name = o.f.Name(truetype.NameIDFontFullName)
		h.Bytes([]byte(o.name))
	case 3:
		for i := truetype.Index(0); i < 4; i++ {
			h.Bytes([]byte(fmt.Sprint(o.f.HMetric(777, i), o.f.VMetric(1000, i), o.f.Kern(640, i, 2), o.f.Kern(640, 2, i))))
		}
	case 4:
		h.Bytes([]byte(fmt.Sprint(o.f.Bounds(640), o.f.HMetric(640, 257))))
	}
	return uint64(h), nil
}
func (o *indFont) held() uint64 {
	h := mc.NewHash()
	h.Bytes([]byte(o.name))
	return uint64(h)
}

// indWorld has the results of scripts performed alone.
type indWorld struct {
	f    *truetype.Font
	data []byte
	sum  uint64
	mu   sync.Mutex
	want map[string][]uint64
}

func (w *indWorld) dataSum() uint64 {
	h := mc.NewHash()
	h.Bytes(w.data)
	return uint64(h)
}

// alone returns what the operations of a script give without another object.
func (w *indWorld) alone(kind int, ops []int) ([]uint64, error) {
	key := fmt.Sprint(kind, ops)
	w.mu.Lock()
	v := w.want[key]
	w.mu.Unlock()
	if v != nil {
		return v, nil
	}
	f, err := truetype.Parse(slices.Clone(w.data))
	if err != nil {
		return nil, err
	}
	o := newIndObj(kind, f, slices.Clone(w.data), nil)
	for i, op := range ops {
		h, err := o.do(op)
		if err != nil {
			return nil, fmt.Errorf("%s, operation %d: %v", indNames[kind], i, err)
		}
		v = append(v, h)
	}
	w.mu.Lock()
	w.want[key] = v
	w.mu.Unlock()
	return v, nil
}

// An indCase interleaves the scripts of several objects: Order has the object
// that is next.
type indCase struct {
	Kinds []int
	Ops   [][]int
	Order []int
}

func (w *indWorld) interleave(x *mc.X, k indCase) error {
	var objs []indObj
	var want [][]uint64
	for i, kind := range k.Kinds {
		v, err := w.alone(kind, k.Ops[i])
		if err != nil {
			return err
		}
		want = append(want, v)
		objs = append(objs, newIndObj(kind, w.f, w.data, nil))
	}
	next := make([]int, len(objs))
	held := make([]uint64, len(objs))
	for i, o := range objs {
		held[i] = o.held()
	}
	hs := mc.NewHash()
	for _, i := range k.Order {
		h, err := objs[i].do(k.Ops[i][next[i]])
		if err != nil {
			return err
		}
		if h != want[i][next[i]] {
			return fmt.Errorf("object %d (%s): operation %d (%d) gives something else than when the object is alone", i, indNames[k.Kinds[i]], next[i], k.Ops[i][next[i]])
		}
		next[i]++
		held[i] = objs[i].held()
		for j, o := range objs {
			if j != i && o.held() != held[j] {
				return fmt.Errorf("an operation of object %d (%s) changes what object %d (%s) returned before", i, indNames[k.Kinds[i]], j, indNames[k.Kinds[j]])
			}
		}
		hs.Int(int(h))
		x.Step(1)
	}
	x.Outcome(uint64(hs))
	x.Validated()
	return nil
}

// merges yields all orders of n[0] zeros, n[1] ones, ...
func merges(n []int, yield func([]int) bool) bool {
	left, total := slices.Clone(n), 0
	for _, v := range n {
		total += v
	}
	var order []int
	var rec func() bool
	rec = func() bool {
		if len(order) == total {
			return yield(slices.Clone(order))
		}
		for i := range left {
			if left[i] == 0 {
				continue
			}
			left[i]--
			order = append(order, i)
			ok := rec()
			order = order[:len(order)-1]
			left[i]++
			if !ok {
				return false
			}
		}
		return true
	}
	return rec()
}

// A nestCase performs an operation of one object inside that of another: at the
// At'th time that it calls back.
type nestCase struct {
	Outer, First, OuterOp, At int
	Inner, Before, InnerOp    int
}

func (w *indWorld) nest(x *mc.X, k nestCase) error {
	want, err := w.alone(k.Outer, []int{k.First, k.OuterOp})
	if err != nil {
		return err
	}
	wantIn, err := w.alone(k.Inner, []int{k.Before, k.InnerOp, k.InnerOp})
	if err != nil {
		return err
	}
	in := newIndObj(k.Inner, w.f, w.data, nil)
	check := func(i, op int) error {
		h, err := in.do(op)
		if err != nil {
			return err
		}
		if h != wantIn[i] {
			return fmt.Errorf("%s: operation %d (%d), nested in one of another %s, gives something else than alone", indNames[k.Inner], i, op, indNames[k.Outer])
		}
		x.Step(1)
		return nil
	}
	n, active := 0, false
	var inErr error
	out := newIndObj(k.Outer, w.f, w.data, func() {
		if !active {
			return
		}
		if n++; n == k.At && inErr == nil {
			inErr = check(1, k.InnerOp)
		}
	})
	if err := check(0, k.Before); err != nil {
		return err
	}
	for i, op := range []int{k.First, k.OuterOp} {
		active = i == 1
		h, err := out.do(op)
		if err != nil {
			return err
		}
		if inErr != nil {
			return inErr
		}
		if h != want[i] {
			return fmt.Errorf("%s: operation %d (%d), with a nested one of another %s, gives something else than alone", indNames[k.Outer], i, op, indNames[k.Inner])
		}
		x.Step(1)
	}
	if n < k.At {
		x.Outcome(0)
		return nil // Does not call back that often.
	}
	if err := check(2, k.InnerOp); err != nil {
		return err
	}
	x.Outcome(uint64(n))
	x.Validated()
	return nil
}

// An argCase gives a path to a consumer. Spare is the unused capacity of the
// path's slice.
type argCase struct {
	Path     []int
	Spare    int
	Consumer int
}

var argPrims = []prim{{n: 0, b: pt(30, 40)}, {n: 1, b: pt(300, 60)}, {n: 2, b: pt(400, 90), c: pt(350, 300)}, {n: 3, b: pt(90, 350), c: pt(20, 300), d: pt(50, 90)}}

const nConsumers = 5 + 8

// runArg checks that consumers leave a path, and the memory behind it, as they
// are, and that later changes of the path have no effect on what they made.
func runArg(x *mc.X, k argCase) error {
	path := primsPath([]prim{argPrims[0]})
	cubic := false
	for _, i := range k.Path {
		argPrims[i].to(&path)
		cubic = cubic || i == 3
	}
	const mark = 0x5a5a5a
	full := make(raster.Path, len(path)+k.Spare)
	copy(full, path)
	for i := len(path); i < len(full); i++ {
		full[i] = mark
	}
	whole := slices.Clone(full)
	arg := full[:len(path)]
	stroked := k.Consumer > 1
	if cubic && stroked {
		return nil // Strokes of cubics are not supported.
	}
	result := func(arg raster.Path, after func()) uint64 {
		h := mc.NewHash()
		r := raster.NewRasterizer(8, 8)
		rec := &hookAdder{h: mc.NewHash()}
		var p raster.Path
		switch c := k.Consumer; {
		case c == 0:
			r.AddPath(arg)
		case c == 1:
			p.AddPath(arg)
		case c == 2:
			r.AddStroke(arg, 60, nil, nil)
		case c == 3:
			p.AddStroke(arg, 60, nil, nil)
		case c == 4:
			p.AddPath(arg)
			p.AddStroke(arg, 33, raster.ButtCapper, raster.BevelJoiner)
		default:
			raster.Stroke(rec, arg, 70, capper((c-5)%4), joiner((c-5)%3))
		}
		after()
		for _, v := range p {
			h.Int(int(v))
		}
		sp := &hookPainter{h: mc.NewHash()}
		r.Rasterize(sp)
		h.Int(int(sp.h))
		h.Int(int(rec.h))
		// The object goes on to be used.
		p.Start(pt(7, 7))
		p.Add1(pt(8, 9))
		r.Start(pt(70, 70))
		r.Add1(pt(99, 200))
		return uint64(h)
	}
	want := result(slices.Clone(path), func() {})
	got := result(arg, func() {})
	if got != want {
		return fmt.Errorf("the result depends on the spare capacity of a path")
	}
	if !slices.Equal(full, whole) {
		return fmt.Errorf("the path, or what is behind it, is changed: %v, was %v", full, whole)
	}
	got = result(arg, func() {
		for i := range full {
			full[i] = 77
		}
	})
	if got != want {
		return fmt.Errorf("changing the path afterwards changes the result")
	}
	x.Step(3)
	x.Outcome(want)
	x.Validated()
	return nil
}

// A changedOpts changes a face's options after it is made.
type changedOpts struct{ Field, Hint, Before int }

func (w *indWorld) runOpts(x *mc.X, k changedOpts) error {
	mk := func() *truetype.Options {
		return &truetype.Options{Size: 10, DPI: 80, Hinting: hintVals[k.Hint], GlyphCacheEntries: 4, SubPixelsX: 2, SubPixelsY: 2}
	}
	opts, same := mk(), mk()
	a, b := &indFace{face: truetype.NewFace(w.f, opts)}, &indFace{face: truetype.NewFace(w.f, same)}
	for i := 0; i < 12; i++ {
		if i == k.Before {
			switch k.Field {
			case 0:
				opts.Size = 33
			case 1:
				opts.DPI = 200
			case 2:
				opts.Hinting = hintVals[1-k.Hint]
			case 3:
				opts.GlyphCacheEntries = 512
			case 4:
				opts.SubPixelsX = 64
			case 5:
				opts.SubPixelsY = 1
			case 6:
				*opts = truetype.Options{}
			}
		}
		g, err := a.do(i * 3 % nIndOps)
		if err != nil {
			return err
		}
		h, err := b.do(i * 3 % nIndOps)
		if err != nil {
			return err
		}
		if g != h {
			return fmt.Errorf("changing field %d of the options changes the face: call %d differs", k.Field, i)
		}
		x.Step(2)
		x.Outcome(g)
	}
	if *same != *mk() {
		return fmt.Errorf("the options are %v, were %v", *same, *mk())
	}
	x.Validated()
	return nil
}

var c25 = &mc.Check{
	ID: "C25", Sharing: true,
	Rule: "eight kinds of objects (context, face, glyph buffer, rasterizer, stroke, painters, path, font), five operations each: all pairs of kinds, all scripts of 2 operations each (and of 3 against 1; thorough 3 against 2, and three objects), in all interleavings, on one shared font; every result is compared with the object's alone, and what other objects returned before must stay; " +
		"every operation of every kind nested at each callback (source image, painter, capper, joiner, adder) of another object's operation; paths of up to 4 segments, with spare capacity behind them, given to 13 consumers and changed afterwards; options changed at every point of a face's life; all triples of 70 loads of glyphs with programs, into one, another and the first buffer. The font's bytes must not change",
	Assumptions: []string{"a font keeps the bytes it was parsed from", "a painter may use the spans it is given as scratch space"},
	Run: func(c *mc.Ctx) {
		ft := textFont(0)
		ft.Name = fontgen.Name([]fontgen.NameRec{{PID: 3, PSID: 1, Lang: 0x409, ID: 4, Len: 8, Off: 0}, {PID: 3, PSID: 1, Lang: 0x409, ID: 1, Len: 4, Off: 4}}, []byte("\x00S\x00i\x00l\x00o"), 0)
		data := ft.Bytes()
		f, err := parseOK(data)
		if err != nil {
			c.Fail("font", 0, "%v", err)
			return
		}
		w := &indWorld{f: f, data: data, want: map[string][]uint64{}}
		w.sum = w.dataSum()
		pairs := func(name string, n0, n1 int) {
			mc.Explore(c, name, func(yield func(indCase) bool) {
				for a := 0; a < nKinds; a++ {
					for b := 0; b < nKinds; b++ {
						if n0 == n1 && b < a {
							continue
						}
						if !tuples(n0+n1, nIndOps, func(t []int) bool {
							return merges([]int{n0, n1}, func(order []int) bool {
								return yield(indCase{[]int{a, b}, [][]int{t[:n0], t[n0:]}, order})
							})
						}) {
							return
						}
					}
				}
			}, w.interleave)
		}
		pairs("two objects, 2 and 2 operations", 2, 2)
		pairs("two objects, 3 and 1 operations", 3, 1)
		if c.Thorough() {
			pairs("two objects, 3 and 2 operations", 3, 2)
			mc.Explore(c, "three objects", func(yield func(indCase) bool) {
				tuples(3, nKinds, func(ks []int) bool {
					if ks[0] > ks[1] || ks[1] > ks[2] {
						return true
					}
					return tuples(4, nIndOps, func(t []int) bool {
						return merges([]int{2, 1, 1}, func(order []int) bool {
							return yield(indCase{slices.Clone(ks), [][]int{t[:2], t[2:3], t[3:]}, order})
						})
					})
				})
			}, w.interleave)
		}
		mc.Explore(c, "nested", func(yield func(nestCase) bool) {
			for _, outer := range []int{kContext, kRast, kStroke} {
				for at := 1; at <= c.N(24, 200); at++ {
					if at > 8 && !c.Thorough() && at%5 != 0 {
						continue
					}
					if !tuples(2, nIndOps, func(t []int) bool {
						for inner := 0; inner < nKinds; inner++ {
							for op := 0; op < nIndOps; op++ {
								if !yield(nestCase{outer, t[0], t[1], at, inner, (op + at) % nIndOps, op}) {
									return false
								}
							}
						}
						return true
					}) {
						return
					}
				}
			}
		}, w.nest)
		mc.Explore(c, "path arguments", func(yield func(argCase) bool) {
			for n := 0; n <= c.N(4, 6); n++ {
				if !tuples(n, len(argPrims), func(t []int) bool {
					for spare := 0; spare <= 40; spare = 2*spare + 1 {
						for cons := 0; cons < nConsumers; cons++ {
							if !yield(argCase{t, spare, cons}) {
								return false
							}
						}
					}
					return true
				}) {
					return
				}
			}
		}, runArg)
		mc.Explore(c, "options", func(yield func(changedOpts) bool) {
			for fi := 0; fi < 7; fi++ {
				for h := 0; h < 2; h++ {
					for b := 0; b < 12; b++ {
						if !yield(changedOpts{fi, h, b}) {
							return
						}
					}
				}
			}
		}, w.runOpts)
		// Fonts whose programs define functions and set all state.
		rw := newReuseWorld(c, 7)
		if rw == nil {
			return
		}
		var loads []loadOp
		for fi := range rw.fonts {
			for _, gl := range []int{gProbe, gPoison, gPoisonFail, gNested, gProbe2} {
				loads = append(loads, loadOp{fi, gl, 64, int(font.HintingFull)}, loadOp{fi, gl, 1000, int(font.HintingFull)})
			}
		}
		mc.Explore(c, "hinting programs", func(yield func([]loadOp) bool) {
			tuples(3, len(loads), func(t []int) bool {
				return yield([]loadOp{loads[t[0]], loads[t[1]], loads[t[2]]})
			})
		}, func(x *mc.X, k []loadOp) error {
			var a, b truetype.GlyphBuf
			err0 := rw.load(&a, k[0])
			err1 := rw.load(&b, k[1])
			if err := sameLoad(&a, err0, rw.want(k[0])); err != nil {
				return fmt.Errorf("after a load into another buffer: %v", err)
			}
			err2 := rw.load(&a, k[2])
			if err := sameLoad(&b, err1, rw.want(k[1])); err != nil {
				return fmt.Errorf("second buffer: %v", err)
			}
			if err := sameLoad(&a, err2, rw.want(k[2])); err != nil {
				return fmt.Errorf("first buffer, again: %v", err)
			}
			x.Step(3)
			x.Validated()
			return nil
		})
		if w.dataSum() != w.sum {
			c.Fail("font", 0, "the bytes of the font are changed")
		}
	},
}
