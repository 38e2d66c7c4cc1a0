package props

import (
	"fmt"
	"image"
	"image/draw"

	"github.com/golang/freetype/raster"
	"github.com/golang/freetype/truetype"
	"github.com/golang/freetype/verifsim/core"
	"golang.org/x/image/font"
	"golang.org/x/image/math/fixed"
)

// C18: every way to a glyph leads to the same glyph.
//
// One caller works with buffers, faces and contexts, with failing glyphs, fonts
// that cannot be read for a while and abandoned calls. In between, all of them are
// asked for the same glyphs, pairs and texts, and their answers compared with each
// other, and their pixels with the outline rasterized here.

func init() {
	register(&core.Check{
		ID: "C18", Runs: [2]int{25000, 5000000}, Gen: genC18, Run: runC18, Level: "exploration",
		Rule: "one caller with 1 to 25 operations of all kinds on one to three fonts, some failing, some during which a font's programs cannot be read, some abandoned by a panic of caller code (destination images included), and 1 to 12 comparisons between them of what a buffer, faces and a context with that history say of the same glyphs, pairs and texts; non-trivial: at least one comparison of glyphs that paint",
		Real: realAll, Stub: []string{"font storage (bytes in memory, damaged on schedule)"},
		Assume: []string{"sizes at which the context's truncated scale is the face's"},
	})
}

func genC18(r *core.Rng, s *core.Scenario) {
	n := 1 + r.N(3)
	var opt []int
	if r.P(50) {
		opt = append(opt, core.OptSmall)
	}
	if r.P(50) {
		opt = append(opt, core.OptHonestBox)
	}
	if r.P(25) {
		opt = append(opt, core.OptHeavy)
	}
	for i := 0; i < n; i++ {
		s.Fonts = append(s.Fonts, core.GenFont(r, 15, opt...))
	}
	core.Siblings(r, s.Fonts)
	g := &gctx{fonts: specs(s), few: r.P(70), abort: r.P(40), bad: r.P(30), nested: core.Pick(r, 0, 20)}
	g.swarm(r, [nFam]int{8, 1, 10, 12, 1, 1, 1})
	var ops []core.Op
	agree := func() core.Op {
		o := op("agree", r.N(3), r.N(4), r.N(4), g.coord(r), g.coord(r), r.N(1<<20), r.N(1<<20))
		o.S = g.text(r, 5)
		return o
	}
	for i := r.Log(25); i > 0; i-- {
		if r.P(35) {
			ops = append(ops, agree())
			continue
		}
		if r.P(12) {
			// A draw, abandoned at some access to the destination.
			o := op("cut", r.N(3), g.coord(r), g.coord(r), 1+r.Log(1500), r.N(3))
			o.S = g.text(r, 6)
			ops = append(ops, o)
		} else {
			ops = append(ops, g.op(r, 0))
		}
		if r.P(6) {
			s.Faults = append(s.Faults, core.Fault{Kind: core.Pick(r, "prep-fail", "fpgm-fail"), Op: len(ops) - 1, Font: r.N(n)})
		}
	}
	ops = append(ops, agree())
	s.Set("shared", r.N(1<<20))
	s.Set("cache", r.N(6))
	s.Tasks = []core.Task{{Ops: ops}}
}

// outlined is an outline as the documentation of truetype.GlyphBuf says that it is to
// be drawn: contours of on and off points, in a rasterizer of the font's bounds. It is
// nil for a glyph that is larger than these.
func outlined(f *truetype.Font, scale fixed.Int26_6, g *truetype.GlyphBuf, hint font.Hinting, fx, fy fixed.Int26_6) (*image.Alpha, image.Point) {
	fb := f.Bounds(scale)
	maxw := int(fb.Max.X+63)>>6 - int(fb.Min.X)>>6
	maxh := -int(fb.Min.Y-63)>>6 - -int(fb.Max.Y)>>6
	b := outlineBox(g.Points, hint)
	x0, y0 := int(fx+b.Min.X)>>6, int(fy-b.Max.Y)>>6
	x1, y1 := int(fx+b.Max.X+63)>>6, int(fy-b.Min.Y+63)>>6
	if x1-x0 > maxw || y1-y0 > maxh {
		return nil, image.Point{} // larger than the largest
	}
	m := image.NewAlpha(image.Rect(0, 0, x1-x0, y1-y0))
	r := raster.NewRasterizer(maxw, maxh)
	dx, dy := fx-fixed.Int26_6(x0<<6), fy-fixed.Int26_6(y0<<6)
	from := 0
	for _, to := range g.Ends {
		ps := g.Points[from:to]
		from = to
		at := func(i int) fixed.Point26_6 {
			p := ps[i%len(ps)]
			return fixed.Point26_6{X: dx + p.X, Y: dy - p.Y}
		}
		on := func(i int) bool { return ps[i%len(ps)].Flags&1 != 0 }
		mid := func(p, q fixed.Point26_6) fixed.Point26_6 {
			return fixed.Point26_6{X: (p.X + q.X) / 2, Y: (p.Y + q.Y) / 2}
		}
		// Where to begin, and the points from there on, once around.
		n := len(ps)
		if n == 0 {
			continue
		}
		var start fixed.Point26_6
		var lo, hi int
		switch {
		case on(0):
			start, lo, hi = at(0), 1, n
		case on(n - 1):
			start, lo, hi = at(n-1), 0, n-1
		default:
			start, lo, hi = mid(at(0), at(n-1)), 0, n
		}
		r.Start(start)
		for i := lo; i < hi; i++ {
			next, nextOn := start, true
			if i+1 < hi {
				next, nextOn = at(i+1), on(i+1)
			}
			switch {
			case on(i):
				r.Add1(at(i))
				if i+1 == hi {
					r.Add1(start)
				}
			case nextOn:
				r.Add2(at(i), next)
				i++
				if i+1 == hi {
					r.Add1(start)
				}
			default:
				r.Add2(at(i), mid(at(i), next))
			}
		}
		if lo == hi {
			r.Add1(start)
		}
	}
	r.Rasterize(raster.NewAlphaSrcPainter(m))
	return m, image.Pt(x0, y0)
}

// outlineBox is the box of points, on the grid if hinted.
func outlineBox(ps []truetype.Point, hint font.Hinting) (b fixed.Rectangle26_6) {
	for i, p := range ps {
		if i == 0 {
			b.Min, b.Max = fixed.Point26_6{X: p.X, Y: p.Y}, fixed.Point26_6{X: p.X, Y: p.Y}
		}
		b.Min.X, b.Max.X = min(b.Min.X, p.X), max(b.Max.X, p.X)
		b.Min.Y, b.Max.Y = min(b.Min.Y, p.Y), max(b.Max.Y, p.Y)
	}
	if hint != font.HintingNone {
		b.Min.X, b.Min.Y = b.Min.X&^63, b.Min.Y&^63
		b.Max.X, b.Max.Y = (b.Max.X+63)&^63, (b.Max.Y+63)&^63
	}
	return b
}

func runC18(s *core.Scenario, o *core.Outcome) {
	w := NewWorld(s)
	c := NewCaller(w)
	faults := map[int]*core.Fault{}
	for i := range s.Faults {
		faults[s.Faults[i].Op] = &s.Faults[i]
	}
	bad, class := "", ""
	a := &agreement{c: c, o: o, entries: []int{1, 2, 4, 16, 64, 512}[mod(s.Par("cache"), 6)], faces: map[agreeKey]font.Face{}}
	o.Sim(nil, 0, func() {
		for i := range s.Tasks[0].Ops {
			p := &s.Tasks[0].Ops[i]
			if p.K == "agree" {
				var msg string
				cg := try(func() { class, msg = a.compare(p) })
				if cg.any {
					class, msg = "panic", "panic: "+cg.text
				}
				if msg != "" {
					bad = fmt.Sprintf("operation %d: %s", i, msg)
					return
				}
				continue
			}
			var undo func()
			if f := faults[i]; f != nil {
				d := w.data[mod(f.Font, len(w.data))]
				undo = core.Damage(d.Bytes, d.Info, f)
			}
			var ob Obs
			if p.K == "cut" {
				ob.Abort = a.cut(p)
			} else {
				ob = c.Do(p)
			}
			if undo != nil {
				undo()
				o.Injected(faults[i].Kind)
			}
			if ob.Abort {
				o.Injected("callback-panic")
			} else if ob.E != "" {
				o.Hit("failing-operation")
			}
			o.Observe(uint64(ob.H), ob.E)
		}
	})
	if bad != "" {
		o.Fail(class, "%s", bad)
	}
}

type agreeKey struct {
	font  int
	scale fixed.Int26_6
	hint  font.Hinting
}

// agreement compares what a caller's objects say.
type agreement struct {
	c       *Caller
	o       *core.Outcome
	entries int
	faces   map[agreeKey]font.Face // faces with a context's sub-pixel positions
}

// cut draws a text with a context or a face into an image that panics.
func (a *agreement) cut(p *core.Op) bool {
	m := newRec(p.Arg(0), false, 0)
	m.abortAt = max(1, p.Arg(3))
	dot := fp(p.Arg(1), p.Arg(2))
	if p.Arg(4) == 0 {
		if fr := a.c.face(p.Arg(0)); fr != nil {
			fr.has = false
			d := font.Drawer{Dst: m, Src: image.Opaque, Face: fr.f, Dot: dot}
			return try(func() { d.DrawString(p.S) }).abort
		}
		return false
	}
	x := a.c.ctx(p.Arg(0))
	x.c.SetDst(m)
	x.c.SetSrc(image.Opaque)
	x.c.SetClip(m.m.Rect)
	defer func() {
		x.c.SetDst(a.c.drawImage(x.dst))
		x.c.SetSrc(a.c.w.srcs[x.src])
		x.c.SetClip(x.clip)
	}()
	return try(func() { x.c.DrawString(p.S, dot) }).abort
}

// compare asks context, buffer and faces for a text's glyphs. It returns the class
// and description of a difference.
func (a *agreement) compare(p *core.Op) (class, msg string) {
	c := a.c
	dot := fp(p.Arg(3), p.Arg(4))
	x := c.ctx(p.Arg(0))
	buf := c.buf(p.Arg(1))
	text := []rune(p.S)
	// The context's, with a face like it.
	if x.font >= 0 && c.w.fonts[x.font] != nil {
		f := c.w.fonts[x.font]
		scale := x.c.PointToFixed(x.size)
		k := agreeKey{x.font, scale, x.hint}
		if scale > 0 && fits(f, scale, a.entries) {
			face := a.faces[k]
			if face == nil {
				face = truetype.NewFace(f, &truetype.Options{Size: float64(scale) / 64, DPI: 72, Hinting: x.hint, GlyphCacheEntries: a.entries, SubPixelsX: 4, SubPixelsY: 1})
				a.faces[k] = face
			}
			if class, msg = a.glyphs(f, scale, x.hint, face, 4, 1, buf, dot, text); msg != "" {
				return
			}
			if class, msg = a.context(x, f, scale, face, buf, dot, text); msg != "" {
				return
			}
		}
	}
	// A face of the caller's.
	if fr := c.face(p.Arg(2)); fr != nil {
		f := c.w.fonts[fr.font]
		if f == nil {
			return
		}
		size, dpi := fr.opts.Size, fr.opts.DPI
		if size == 0 {
			size = 12
		}
		if dpi == 0 {
			dpi = 72
		}
		nx, ny := positions(fr.opts.SubPixelsX, 4), positions(fr.opts.SubPixelsY, 1)
		fr.has = false
		return a.glyphs(f, fx(int(0.5+size*dpi*64/72)), fr.opts.Hinting, fr.f, nx, ny, buf, dot, text)
	}
	return
}

// glyphs compares a face with a buffer.
func (a *agreement) glyphs(f *truetype.Font, scale fixed.Int26_6, hint font.Hinting, face font.Face, nx, ny int, buf *truetype.GlyphBuf, dot fixed.Point26_6, text []rune) (string, string) {
	for i, r := range text {
		x := f.Index(r)
		err := buf.Load(f, scale, x, hint)
		what := fmt.Sprintf("rune %#x, glyph %d, scale %d, hinting %d: ", r, x, scale, hint)
		adv, ok := face.GlyphAdvance(r)
		if ok != (err == nil) {
			return "success", what + fmt.Sprintf("a face has an advance: %v; a buffer's error: %v", ok, err)
		}
		bounds, adv2, ok2 := face.GlyphBounds(r)
		dr, mask, mp, adv3, ok3 := face.Glyph(dot, r)
		if ok2 != ok || ok3 != ok {
			return "success", what + fmt.Sprintf("a face has an advance: %v, bounds: %v, an image: %v", ok, ok2, ok3)
		}
		if i > 0 {
			k := f.Kern(scale, f.Index(text[i-1]), x)
			if hint != font.HintingNone {
				k = (k + 32) &^ 63
			}
			if got := face.Kern(text[i-1], r); got != k {
				return "kern", what + fmt.Sprintf("a face kerns it with %#x by %d, the font by %d", text[i-1], got, k)
			}
		}
		if !ok {
			a.o.Hit("failing-glyph")
			continue
		}
		if adv != buf.AdvanceWidth || adv2 != adv || adv3 != adv {
			return "advance", what + fmt.Sprintf("advances: %d of a buffer, %d, %d with bounds, %d with an image of a face", buf.AdvanceWidth, adv, adv2, adv3)
		}
		b := outlineBox(buf.Points, hint)
		if buf.Bounds != b {
			return "bounds", what + fmt.Sprintf("a buffer's bounds are %v, its points' %v", buf.Bounds, b)
		}
		if fb := (fixed.Rectangle26_6{Min: fixed.Point26_6{X: b.Min.X, Y: -b.Max.Y}, Max: fixed.Point26_6{X: b.Max.X, Y: -b.Min.Y}}); bounds != fb {
			return "bounds", what + fmt.Sprintf("a face's bounds are %v, the outline's %v", bounds, fb)
		}
		dx, dy := fixed.Int26_6(roundDot(int(dot.X), nx)), fixed.Int26_6(roundDot(int(dot.Y), ny))
		m, off := outlined(f, scale, buf, hint, dx&63, dy&63)
		if m == nil {
			a.o.Hit("glyph-too-large")
			continue
		}
		want := m.Rect.Add(off).Add(image.Pt(int(dx>>6), int(dy>>6)))
		if dr != want {
			return "placement", what + fmt.Sprintf("a face places it at %v, the outline is at %v", dr, want)
		}
		painted := false
		for y := 0; y < m.Rect.Dy(); y++ {
			for xx := 0; xx < m.Rect.Dx(); xx++ {
				_, _, _, v := mask.At(mp.X+xx, mp.Y+y).RGBA()
				q := m.AlphaAt(xx, y).A
				painted = painted || q != 0
				if uint8(v>>8) != q {
					return "image", what + fmt.Sprintf("pixel (%d, %d) of a face's image is %d, of the outline's %d", xx, y, v>>8, q)
				}
			}
		}
		if painted {
			a.o.Nontrivial = true
		}
		a.o.Hit("glyph-compared")
		a.o.Observe(uint64(adv))
	}
	return "", ""
}

// context compares a context with a face.
func (a *agreement) context(x *ctxRec, f *truetype.Font, scale fixed.Int26_6, face font.Face, buf *truetype.GlyphBuf, dot fixed.Point26_6, text []rune) (string, string) {
	area := image.Rect(-16, -24, 72, 64)
	got, want := image.NewAlpha(area), image.NewAlpha(area)
	x.c.SetDst(got)
	x.c.SetSrc(image.Opaque)
	x.c.SetClip(area)
	defer func() {
		x.c.SetDst(a.c.drawImage(x.dst))
		x.c.SetSrc(a.c.w.srcs[x.src])
		x.c.SetClip(x.clip)
	}()
	all := string(text)
	end, err := x.c.DrawString(all, dot)
	// The same by hand.
	at := dot
	for i, r := range text {
		if i > 0 {
			at.X += face.Kern(text[i-1], r)
		}
		dr, mask, mp, adv, ok := face.Glyph(at, r)
		if !ok {
			if err == nil {
				return "text", fmt.Sprintf("text %q, scale %d, hinting %d: a context draws it, a face has no glyph for %#x", all, scale, x.hint, r)
			}
			return "", ""
		}
		if c := dr.Intersect(area); !c.Empty() {
			draw.DrawMask(want, c, image.Opaque, image.Point{}, mask, mp.Add(c.Min.Sub(dr.Min)), draw.Over)
		}
		at.X += adv
	}
	what := fmt.Sprintf("text %q at (%d, %d), scale %d, hinting %d: ", all, dot.X, dot.Y, scale, x.hint)
	if err != nil {
		return "text", what + fmt.Sprintf("a context fails: %v; a face has all glyphs", err)
	}
	if end != at {
		return "end", what + fmt.Sprintf("a context ends at %v, advances and kerning of a face at %v", end, at)
	}
	if m := font.MeasureString(face, all); m != end.X-dot.X {
		return "end", what + fmt.Sprintf("a context advances by %v, measuring with a face gives %v", end.X-dot.X, m)
	}
	for y := area.Min.Y; y < area.Max.Y; y++ {
		for xx := area.Min.X; xx < area.Max.X; xx++ {
			if p, q := got.AlphaAt(xx, y), want.AlphaAt(xx, y); p != q {
				return "pixels", what + fmt.Sprintf("pixel (%d, %d) is %d by a context, %d by a face", xx, y, p.A, q.A)
			}
		}
	}
	a.o.Hit("text-compared")
	return "", ""
}
