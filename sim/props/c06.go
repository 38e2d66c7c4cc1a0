package props

import (
	"image"
	"image/color"

	"github.com/golang/freetype"
	"github.com/golang/freetype/truetype"
	"github.com/golang/freetype/verifsim/core"
)

// C06: a drawing context's history is invisible.
//
// One caller sets up contexts and draws texts with them, changing settings, and
// what the source images show, in between; some draws fail. Every draw is compared with the same draw by a new
// context with the same settings onto a copy of the image as it was before, and
// pixel by pixel with the same draw without a clip.

func init() {
	register(&core.Check{
		ID: "C06", Runs: [2]int{30000, 5000000}, Gen: genC06, Run: runC06, Level: "exploration",
		Rule: "one history of 3 to 40 settings, changes of the source images and draws on up to two contexts sharing one to three fonts, some draws failing by a broken glyph, a missing font or a font whose programs cannot be read for the duration of one draw; non-trivial: at least two draws changed pixels",
		Real: realAll, Stub: []string{"font storage (bytes in memory, damaged on schedule)"},
	})
}

func genC06(r *core.Rng, s *core.Scenario) {
	n := 1 + r.N(3)
	var opt []int
	if r.P(30) {
		opt = append(opt, core.OptPlain)
	}
	if r.P(50) {
		opt = append(opt, core.OptHonestBox)
	}
	if r.P(50) {
		opt = append(opt, core.OptSmall)
	} else if r.P(30) {
		opt = append(opt, core.OptMany)
	}
	if r.P(30) {
		opt = append(opt, core.OptNoBad)
	}
	for i := 0; i < n; i++ {
		s.Fonts = append(s.Fonts, core.GenFont(r, 15, opt...))
	}
	core.Siblings(r, s.Fonts)
	fs := specs(s)
	var pool []rune
	for i := 2 + r.N(8); i > 0; i-- {
		f := fs[r.N(n)]
		c := f.Info.Runes[r.N(len(f.Info.Runes))]
		pool = append(pool, c)
		if !f.Real && r.P(60) && f.Info.NGlyph > 256 {
			// Glyphs that share a place in a cache: runes from 0x400 on are
			// mapped to all glyphs in order.
			k := rune(r.N(f.Info.NGlyph - 256))
			pool = append(pool, 0x400+k, 0x400+k+256)
		}
		if r.P(15) {
			pool = append(pool, core.Pick(r, rune(0), 0x10ffff, 0x4e00, ' '))
		}
	}
	var frac []int
	for i := 1 + r.N(4); i > 0; i-- {
		frac = append(frac, core.Pick(r, 0, 7, 8, 31, 32, 33, 63, 56, 55, r.N(64), 16*r.N(4)))
	}
	co := func() int {
		v := 64*(r.N(48)-4) + frac[r.N(len(frac))]
		if r.P(3) {
			v = r.N(1<<26) - 1<<25
		}
		return v
	}
	nc := 1 + r.W(4, 1)
	var ops []core.Op
	for i := 3 + r.Log(37); i > 0; i-- {
		x := r.N(nc)
		switch r.W(60, 6, 3, 6, 6, 5, 5, 10, 2, 1, 3, 4) {
		case 0:
			o := op("cdraw", x, co(), co())
			for j := 1 + r.N(5); j > 0; j-- {
				o.S += string(pool[r.N(len(pool))])
			}
			if r.P(3) {
				o.S += "\xff\xc0"
			}
			ops = append(ops, o)
		case 1:
			ops = append(ops, op("csize", x, r.N(3+r.N(len(sizeTab)-2))))
		case 2:
			ops = append(ops, op("cdpi", x, r.W(5, 2, 1, 1)))
		case 3:
			ops = append(ops, op("chint", x, r.N(3)))
		case 4:
			ops = append(ops, op("cfont", x, r.W(1, 12)*(1+r.N(n))-1))
		case 5:
			ops = append(ops, op("cdst", x, r.N(9)))
		case 6:
			ops = append(ops, op("csrc", x, r.N(4)))
		case 7:
			if r.P(30) {
				ops = append(ops, op("cclip", x, -50, -50, 99, 99))
			} else {
				ops = append(ops, op("cclip", x, r.N(44)-8, r.N(44)-8, core.Pick(r, 0, 1, r.N(50), r.N(20)), core.Pick(r, 1, r.N(50), r.N(20))))
			}
		case 8:
			ops = append(ops, op("cfix", x, r.N(5000)))
		case 9:
			ops = append(ops, op("cnew", x))
		case 11:
			ops = append(ops, op("recolour", 1+r.N(50)))
		default:
			if len(ops) > 0 {
				ops = append(ops, ops[r.N(len(ops))])
			}
		}
		if len(ops) > 0 && ops[len(ops)-1].K == "cdraw" && r.P(5) {
			s.Faults = append(s.Faults, core.Fault{Kind: core.Pick(r, "prep-fail", "fpgm-fail"), Op: len(ops) - 1, Font: r.N(n)})
		}
	}
	s.Set("shared", r.N(1<<20))
	s.Tasks = []core.Task{{Ops: ops}}
}

// copyImg copies a caller's images.
func (m *imgRec) copy() *imgRec {
	a, b, c := *m.rgba, *m.alpha, *m.gray
	a.Pix = append([]byte(nil), a.Pix...)
	b.Pix = append([]byte(nil), b.Pix...)
	c.Pix = append([]byte(nil), c.Pix...)
	return &imgRec{&a, &b, &c}
}

// recolour changes what the caller's source images show, which contexts that
// draw with them are not told.
func recolour(w *World, pix []byte, v int) {
	col := color.NRGBA{20, 130, 255, 140}
	if v > 0 {
		col = color.NRGBA{uint8(40 * v), uint8(130 + 7*v), uint8(255 - v), uint8(140 + 60*(v%3)/2)}
	}
	w.srcs[2].(*image.Uniform).C = col
	m := w.srcs[3].(*image.RGBA).Pix
	copy(m, pix)
	for i := 0; v > 0 && i < len(m); i += 4 {
		m[i+v%3] = m[i+3]
		m[i+(v+1)%3] /= 2
	}
}

// pixels returns a destination's bytes, their number per pixel and the bounds.
func (m *imgRec) pixels(v int) ([]byte, int, image.Rectangle) {
	switch mod(v, 3*nImgs) / nImgs {
	case 0:
		return m.rgba.Pix, 4, m.rgba.Rect
	case 1:
		return m.alpha.Pix, 1, m.alpha.Rect
	}
	return m.gray.Pix, 1, m.gray.Rect
}

// fresh makes a context like x, of a caller of its own on one font.
func (x *ctxRec) fresh(f *truetype.Font, srcs []image.Image, m *imgRec, clip image.Rectangle) (*Caller, *ctxRec) {
	n := NewCaller(&World{srcs: srcs})
	n.imgs[mod(x.dst, nImgs)] = m
	c := freetype.NewContext()
	y := *x
	y.c = c
	if f != nil {
		c.SetFont(f)
	}
	c.SetFontSize(x.size)
	c.SetDPI(x.dpi)
	c.SetHinting(x.hint)
	c.SetSrc(srcs[x.src])
	c.SetDst(n.drawImage(x.dst))
	c.SetClip(clip)
	n.ctxs[x.id] = &y
	return n, &y
}

func runC06(s *core.Scenario, o *core.Outcome) {
	w := NewWorld(s)
	c := NewCaller(w)
	ops := s.Tasks[0].Ops
	faults := map[int]*core.Fault{}
	for i := range s.Faults {
		faults[s.Faults[i].Op] = &s.Faults[i]
	}
	type drawn struct {
		x           ctxRec
		before, aft *imgRec
		ver         int
	}
	hist := make([]drawn, len(ops))
	pix := append([]byte(nil), w.srcs[3].(*image.RGBA).Pix...)
	ver := 0
	var undo func()
	c.before = func(i int, p *core.Op) {
		if p.K == "recolour" {
			ver = p.Arg(0)
			recolour(w, pix, ver)
		}
		if p.K != "cdraw" && p.K != "cfix" {
			faults[i] = nil
			return
		}
		hist[i].ver = ver
		x := c.ctx(p.Arg(0))
		hist[i].x = *x
		hist[i].before = c.img(x.dst).copy()
		if f := faults[i]; f != nil {
			d := w.data[mod(f.Font, len(w.data))]
			undo = core.Damage(d.Bytes, d.Info, f)
		}
	}
	c.after = func(i int, p *core.Op, ob *Obs) {
		if undo != nil {
			undo()
			undo = nil
			if ob.E != "" {
				o.Injected(faults[i].Kind + "-failed-draw")
			} else {
				o.Injected(faults[i].Kind)
			}
		}
		if p.K == "cdraw" {
			hist[i].aft = c.img(hist[i].x.dst).copy()
		}
	}
	o.Sim(nil, 0, func() { c.Perform(ops) })
	changed, failed := 0, false
	for i := range ops {
		p := &ops[i]
		ob := &c.obs[i]
		o.Observe(uint64(ob.H), ob.E)
		if p.K != "cdraw" && p.K != "cfix" {
			if ob.Panic {
				o.Fail("panic", "operation %d %s: %s", i, p.K, ob.E)
				return
			}
			continue
		}
		if faults[i] != nil {
			failed = failed || ob.E != ""
			continue
		}
		h := &hist[i]
		draw := func(clip image.Rectangle) (Obs, *imgRec) {
			core.ResetGlobals()
			recolour(w, pix, h.ver)
			var f *truetype.Font
			if h.x.font >= 0 {
				f, _ = truetype.Parse(w.data[h.x.font].Bytes)
			}
			m := h.before.copy()
			n, _ := h.x.fresh(f, w.srcs, m, clip)
			q := *p
			q.A = append([]int{h.x.id}, p.A[1:]...)
			var r Obs
			o.Sim(nil, 0, func() { r = n.Do(&q) })
			return r, m
		}
		want, _ := draw(h.x.clip)
		if !ob.same(&want) {
			o.Fail("draw", "operation %d %s %q: got %s, a new context gives %s", i, p.K, p.S, ob.text(), want.text())
			return
		}
		if p.K != "cdraw" {
			continue
		}
		if ob.E != "" {
			failed = true
			o.Hit("failing-draw")
		} else if failed {
			o.Hit("draw-after-failure")
		}
		_, all := draw(image.Rect(-1<<20, -1<<20, 1<<20, 1<<20))
		pb, bpp, rect := h.before.pixels(h.x.dst)
		pa, _, _ := h.aft.pixels(h.x.dst)
		pu, _, _ := all.pixels(h.x.dst)
		did := false
		for y := rect.Min.Y; y < rect.Max.Y; y++ {
			for xx := rect.Min.X; xx < rect.Max.X; xx++ {
				k := ((y-rect.Min.Y)*rect.Dx() + xx - rect.Min.X) * bpp
				exp := pb
				in := image.Pt(xx, y).In(h.x.clip)
				if in {
					exp = pu
				}
				for b := k; b < k+bpp; b++ {
					if pa[b] != pb[b] {
						did = true
					}
					if pa[b] != exp[b] {
						if in {
							o.Fail("clip", "operation %d draws %q: pixel (%d, %d) inside the clip %v becomes %d, without a clip it becomes %d", i, p.S, xx, y, h.x.clip, pa[b], exp[b])
						} else {
							o.Fail("outside", "operation %d draws %q: pixel (%d, %d) outside the clip %v changes from %d to %d", i, p.S, xx, y, h.x.clip, exp[b], pa[b])
						}
						return
					}
				}
			}
		}
		if did {
			changed++
			if !h.x.clip.Eq(h.x.clip.Union(rect)) {
				o.Hit("clipped-draw")
			}
		}
	}
	o.Nontrivial = changed >= 2
}
