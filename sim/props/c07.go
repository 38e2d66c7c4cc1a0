package props

import (
	"image"
	"image/color"
	"image/draw"

	"github.com/golang/freetype"
	"github.com/golang/freetype/truetype"
	"github.com/golang/freetype/verifsim/core"
	"github.com/golang/freetype/verifsim/simrt"
	"golang.org/x/image/font"
)

// C07: an interrupted draw leaves a clean prefix and a usable context.
//
// One caller draws texts with contexts and faces onto an image of its own that
// logs every write. Draws are interrupted: a glyph cannot be loaded, stored bytes
// become unreadable at some step, the destination or the source panics at some
// access, or does other drawing from within an access. The log is compared with
// that of an undisturbed draw by a new context or face, and so is every later
// draw.

func init() {
	register(&core.Check{
		ID: "C07", Runs: [2]int{30000, 5000000}, Gen: genC07, Run: runC07, Level: "exploration",
		Rule: "one history of 2 to 20 settings and draws on up to two contexts and three faces, interrupted at seeded accesses of the destination or source image, at glyphs that cannot be loaded, or by damage at a seeded step of the draw; non-trivial: at least one draw was interrupted after having written something and a later one completed",
		Real: realAll, Stub: []string{"destination and source images (log accesses, may panic or call back)", "font storage (bytes in memory, damaged on schedule)"},
	})
}

func genC07(r *core.Rng, s *core.Scenario) {
	n := 1 + r.N(2)
	var opt []int
	if r.P(30) {
		opt = append(opt, core.OptPlain)
	}
	if r.P(60) {
		opt = append(opt, core.OptHonestBox)
	}
	if r.P(50) {
		opt = append(opt, core.OptSmall)
	}
	if r.P(30) {
		opt = append(opt, core.OptNoBad)
	}
	for i := 0; i < n; i++ {
		s.Fonts = append(s.Fonts, core.GenFont(r, 15, opt...))
	}
	fs := specs(s)
	g := &gctx{fonts: fs, few: true}
	g.swarm(r, [nFam]int{4, 1, 8, 6, 4, 2, 1})
	text := func() (t string) {
		f := fs[r.N(n)]
		var pool []rune
		for j := 0; j < 4; j++ {
			pool = append(pool, f.Info.Runes[r.N(len(f.Info.Runes))])
		}
		for j := 1 + r.N(6); j > 0; j-- {
			t += string(pool[r.N(len(pool))])
		}
		return
	}
	var ops []core.Op
	for i := 2 + r.Log(18); i > 0; i-- {
		x := r.W(3, 1)
		switch r.W(50, 5, 3, 4, 4, 6, 4) {
		case 0:
			// kind of interruption, at which access, source
			o := op("draw", x, r.N(40*64), r.N(40*64), r.W(4, 5, 3, 3), 1+r.Log(1500), r.N(4), r.W(2, 1))
			if o.A[6] == 1 {
				o.A[0] = r.N(nFaces)
			}
			o.A = append(o.A, r.W(3, 1, 1, 1, 1))
			o.S = text()
			if o.A[3] == 3 {
				for j := 1 + r.N(3); j > 0; j-- {
					o.N = append(o.N, g.op(r, 1))
				}
			}
			ops = append(ops, o)
			if r.P(12) {
				s.Faults = append(s.Faults, core.Fault{Kind: core.Pick(r, "prep-fail", "fpgm-fail"), Op: len(ops) - 1, Font: r.N(n), Step: 1 + r.Log(20000)})
			}
		case 1:
			ops = append(ops, op("csize", x, r.N(len(sizeTab))))
		case 2:
			ops = append(ops, op("cdpi", x, r.W(5, 2, 1, 1)))
		case 3:
			ops = append(ops, op("chint", x, r.N(3)))
		case 4:
			ops = append(ops, op("cfont", x, r.W(1, 15)*(1+r.N(n))-1))
		case 5:
			ops = append(ops, op("cclip", x, r.N(44)-8, r.N(44)-8, r.N(70), r.N(70)))
		default:
			ops = append(ops, op("fnew", r.N(nFaces), r.N(n), r.N(len(sizeTab)), r.W(5, 2, 1, 1), r.N(3), 1+r.N(5), r.N(9), r.N(9)))
		}
	}
	s.Set("shared", r.N(1<<20))
	s.Tasks = []core.Task{{Ops: ops}}
}

// drawEnd is how a draw ended.
type drawEnd struct {
	x, y int
	err  string
	cg   caught
}

// recBounds are the bounds of destinations.
var recBounds = []image.Rectangle{
	image.Rect(0, 0, imgW, imgH),
	image.Rect(0, 0, 20, 16),
	image.Rect(10, 12, 40, 60),
	image.Rect(-9, -7, 30, imgH),
	image.Rect(-20, -20, imgW+30, imgH+30),
}

func newRec(seed int, src bool, size int) *recImage {
	m := image.NewRGBA(recBounds[mod(size, len(recBounds))])
	if src {
		m = image.NewRGBA(image.Rect(0, 0, 64, 48))
	}
	for i := 0; i < len(m.Pix); i += 4 {
		a := byte(255)
		if src {
			a = byte(128 + (i*7+seed)%128)
		}
		m.Pix[i], m.Pix[i+1], m.Pix[i+2], m.Pix[i+3] = byte((i*13+seed)%128), byte((i*5)%120), byte(seed%100), a
	}
	return &recImage{m: m}
}

func runC07(s *core.Scenario, o *core.Outcome) {
	w := NewWorld(s)
	c := NewCaller(w)
	ops := s.Tasks[0].Ops
	faults := map[int]*core.Fault{}
	for i := range s.Faults {
		faults[s.Faults[i].Op] = &s.Faults[i]
	}
	source := func(k int) (image.Image, *recImage) {
		switch mod(k, 4) {
		case 0:
			return image.Black, nil
		case 1:
			return image.NewUniform(color.NRGBA{200, 100, 30, 150}), nil
		}
		r := newRec(k, true, 0)
		return r, r
	}
	ctxDraw := func(x *ctxRec, p *core.Op, text string, dst draw.Image, src image.Image) (e drawEnd) {
		x.c.SetDst(dst)
		x.c.SetSrc(src)
		e.cg = try(func() {
			q, err := x.c.DrawString(text, fp(p.Arg(1), p.Arg(2)))
			e.x, e.y = int(q.X), int(q.Y)
			if err != nil {
				e.err = err.Error()
			}
		})
		return
	}
	faceDraw := func(f font.Face, p *core.Op, text string, dst draw.Image, src image.Image) (e drawEnd) {
		d := font.Drawer{Dst: dst, Src: src, Face: f, Dot: fp(p.Arg(1), p.Arg(2))}
		e.cg = try(func() { d.DrawString(text) })
		if !e.cg.any {
			e.x, e.y = int(d.Dot.X), int(d.Dot.Y)
		}
		return
	}
	type drawn struct {
		x    ctxRec
		f    faceRec
		face bool
		dst  *recImage
		hit  bool // the interruption took place
		hurt bool // bytes were damaged
		end  drawEnd
		done bool
	}
	hist := make([]drawn, len(ops))
	o.Sim(nil, 0, func() {
		for i := range ops {
			p := &ops[i]
			if p.K != "draw" {
				if ob := c.Do(p); ob.Panic {
					o.Fail("panic", "operation %d %s: %s", i, p.K, ob.E)
					return
				}
				continue
			}
			h := &hist[i]
			h.face = mod(p.Arg(6), 2) == 1
			h.dst = newRec(i, false, p.Arg(7))
			src, rsrc := source(p.Arg(5))
			at := max(1, p.Arg(4))
			switch mod(p.Arg(3), 4) {
			case 1:
				h.dst.abortAt = at
			case 2:
				if rsrc != nil {
					rsrc.abortAt = at
				}
			case 3:
				h.dst.hookAt = at
				nest := func() {
					h.hit = true
					d := newDigest()
					c.nested(p.N, &d)
				}
				h.dst.hook = nest
				if rsrc != nil && p.Arg(4)&1 != 0 {
					h.dst.hookAt = 0
					rsrc.hookAt, rsrc.hook = at, nest
				}
			}
			var undo func()
			if f := faults[i]; f != nil {
				simrt.After(int64(max(1, f.Step)), func() {
					d := w.data[mod(f.Font, len(w.data))]
					undo = core.Damage(d.Bytes, d.Info, f)
				})
			}
			if h.face {
				f := c.face(p.Arg(0))
				if f == nil {
					continue
				}
				h.f = *f
				c.busy.face[f.id] = true
				h.end = faceDraw(f.f, p, p.S, h.dst, src)
				c.busy.face[f.id] = false
			} else {
				x := c.ctx(p.Arg(0))
				h.x = *x
				c.busy.ctx[x.id] = true
				h.end = ctxDraw(x, p, p.S, h.dst, src)
				c.busy.ctx[x.id] = false
				x.c.SetDst(c.drawImage(x.dst))
				x.c.SetSrc(w.srcs[x.src])
			}
			h.done = true
			simrt.CancelEvents()
			if undo != nil {
				undo()
				h.hurt = true
				k := faults[i].Kind
				if h.end.err != "" {
					k += "-failed-draw"
				}
				o.Injected(k)
			}
			if h.end.cg.abort {
				h.hit = true
				if h.dst.abortAt != 0 {
					o.Injected("destination-panic")
				} else {
					o.Injected("source-panic")
				}
			} else if h.hit {
				o.Injected("nested-drawing")
			}
			if h.dst.abortAt != 0 && h.dst.n >= h.dst.abortAt && !h.end.cg.any && h.end.err == "" {
				o.Fail("swallowed", "operation %d: the destination's panic at access %d was swallowed", i, h.dst.abortAt)
				return
			}
		}
	})
	if o.Violation != nil {
		return
	}
	wrote, later := false, false
	for i := range ops {
		p := &ops[i]
		h := &hist[i]
		if !h.done {
			continue
		}
		o.Observe(len(h.dst.log), h.end.x, h.end.y, h.end.err, h.end.cg.text)
		if h.end.cg.any && !h.end.cg.abort {
			o.Fail("panic", "operation %d draw %q: %s", i, p.S, h.end.cg.text)
			return
		}
		fresh := func(text string) (*recImage, drawEnd) {
			core.ResetGlobals()
			dst := newRec(i, false, p.Arg(7))
			src, _ := source(p.Arg(5))
			var e drawEnd
			fi := h.x.font
			if h.face {
				fi = h.f.font
			}
			var f *truetype.Font
			if fi >= 0 {
				f, _ = truetype.Parse(w.data[fi].Bytes)
			}
			o.Sim(nil, 0, func() {
				if h.face {
					op := h.f.opts
					e = faceDraw(truetype.NewFace(f, &op), p, text, dst, src)
					return
				}
				y := h.x
				y.c = freetype.NewContext()
				if f != nil {
					y.c.SetFont(f)
				}
				y.c.SetFontSize(y.size)
				y.c.SetDPI(y.dpi)
				y.c.SetHinting(y.hint)
				y.c.SetClip(y.clip)
				e = ctxDraw(&y, p, text, dst, src)
			})
			return dst, e
		}
		full, want := fresh(p.S)
		if want.err != "" {
			o.Hit("failing-glyph")
		}
		// An abandoned draw wrote a prefix.
		n := 0
		for n < len(h.dst.log) && n < len(full.log) && h.dst.log[n] == full.log[n] {
			n++
		}
		if h.face && h.hurt {
			// The Drawer leaves out glyphs it does not get.
			continue
		}
		if n < len(h.dst.log) {
			o.Fail("prefix", "operation %d draw %q (%s): write %d is to (%d, %d) of %v; an undisturbed draw by a new object makes %d writes, of which %d agree", i, p.S, endText(h.end), n, h.dst.log[n].x, h.dst.log[n].y, h.dst.log[n].c, len(full.log), n)
			return
		}
		if h.end.cg.abort {
			wrote = wrote || n > 0
			continue
		}
		if wrote {
			later = true
		}
		failedByDamage := h.hurt && (h.end.err != "" || h.face)
		if !failedByDamage && (h.end != want || n < len(full.log)) {
			o.Fail("result", "operation %d draw %q: %s after %d writes, a new object: %s after %d writes", i, p.S, endText(h.end), n, endText(want), len(full.log))
			return
		}
		if h.end.err == "" || h.face {
			continue
		}
		// A failed draw wrote exactly the glyphs before the failing one.
		rs := []rune(p.S)
		ok, best := false, 0
		for k := len(rs) - 1; k >= 0; k-- {
			d, e := fresh(string(rs[:k]))
			if e.err != "" && h.x.font >= 0 {
				continue
			}
			best = len(d.log)
			if best == n {
				ok = true
			}
			if ok || !failedByDamage {
				break
			}
		}
		if n > 0 {
			wrote = true
		}
		if !ok && h.x.font >= 0 {
			o.Fail("glyphs", "operation %d draw %q fails (%s) after %d writes, which is not the end of a glyph; the glyphs before the failing one take %d", i, p.S, h.end.err, n, best)
			return
		}
	}
	o.Nontrivial = wrote && later
}

func endText(e drawEnd) string {
	if e.cg.any {
		return e.cg.text
	}
	if e.err != "" {
		return "error " + e.err
	}
	return "end point (" + itoa(e.x) + ", " + itoa(e.y) + ")"
}
