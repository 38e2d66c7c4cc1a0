package props

import (
	"bytes"
	"image"
	"image/color"
	"image/draw"

	"github.com/golang/freetype/raster"
	"github.com/golang/freetype/verifsim/core"
)

// C10: painted pixels do not depend on how spans are batched.
//
// One caller serves several painters, each with an image of its own. The spans of
// each rasterization are cut into batches by the scheduler, with empty batches in
// between and other painters served in the middle. Every image is compared with
// one painted by new painters, one for each rasterization, in a single batch, and
// with one painted span by span, as if each were a rasterization.

func init() {
	register(&core.Check{
		ID: "C10", Runs: [2]int{120000, 20000000}, Gen: genC10, Run: runC10, Level: "exploration",
		Rule: "up to three painters of any kind and wrapping, each painting 1 to 6 rasterizations of generated or rasterized spans, cut into seeded batches and interleaved; non-trivial: a rasterization was cut into at least two batches with spans",
		Real: realAll, Stub: []string{"the source of spans, where they are generated (sorted, disjoint, non-empty)"},
	})
}

const c10Slots = 3

func genC10(r *core.Rng, s *core.Scenario) {
	var paint func(slot, depth int) core.Op
	paint = func(slot, depth int) core.Op {
		// slot, first row, empty batch before, after, rasterized, nested at, in one array
		o := op("paint", slot, r.N(60), r.N(3), r.N(3), r.W(4, 1)*r.N(1<<16), r.N(4), r.N(3))
		k := r.Log(24)
		one := r.P(30) // few distinct coverages
		for i := 0; i < k; i++ {
			al := core.Pick(r, 0xffff, r.N(0x10000), 0x8000, 0x7fff, 1)
			if one {
				al = core.Pick(r, 0xffff, 0x8000, 0x7fff)
			}
			o.P = append(o.P, r.W(6, 2, 1, 1), r.W(4, 1)*r.N(20), r.N(20), al, r.W(2, 1, 1))
		}
		if depth < 2 && r.P(30) {
			for i := 1 + r.N(2); i > 0; i-- {
				o.N = append(o.N, paint(r.N(c10Slots), depth+1))
			}
		}
		return o
	}
	var ops []core.Op
	for i := 0; i < c10Slots; i++ {
		ops = append(ops, op("npaint", i, r.N(1<<16), r.N(1<<16), r.N(4)))
	}
	for i := 1 + r.N(10); i > 0; i-- {
		if r.P(8) {
			ops = append(ops, op("npaint", r.N(c10Slots), r.N(1<<16), r.N(1<<16), r.N(4)))
			continue
		}
		if r.P(8) {
			ops = append(ops, op("retarget", r.N(c10Slots), r.N(1<<16)))
			continue
		}
		if r.P(8) {
			ops = append(ops, op("colour", r.N(c10Slots), r.N(1<<16), r.N(1<<16)))
			continue
		}
		ops = append(ops, paint(r.N(c10Slots), 0))
	}
	s.Set("img", r.N(1<<16))
	s.Tasks = []core.Task{{Ops: ops}}
}

// c10paint is a painter with its layers.
type c10painter struct {
	p    raster.Painter
	rgba *raster.RGBAPainter
	gam  *raster.GammaCorrectionPainter
}

type c10img struct {
	rgba, rsub  *image.RGBA
	alpha, asub *image.Alpha
}

func newC10img(i, v int) *c10img {
	full := image.Rect(-6, -4, 44, 36)
	sub := []image.Rectangle{full, image.Rect(0, 0, 40, 30), image.Rect(-3, 5, 20, 25), image.Rect(10, -2, 11, 36), image.Rect(5, 5, 5, 9), image.Rect(-6, -4, 30, 0), image.Rect(-6, -4, 0, 36), image.Rect(8, 9, 44, 36)}[mod(v>>(3*i), 8)]
	m := &c10img{rgba: image.NewRGBA(full), alpha: image.NewAlpha(full)}
	for k := range m.rgba.Pix {
		m.rgba.Pix[k] = byte(40 + k%4*20)
	}
	for k := 0; k < len(m.alpha.Pix); k += 3 {
		m.alpha.Pix[k] = byte(k)
	}
	m.rsub = m.rgba.SubImage(sub).(*image.RGBA)
	m.asub = m.alpha.SubImage(sub).(*image.Alpha)
	return m
}

func c10colour(v int) color.Color {
	return []color.Color{color.NRGBA{200, 10, 60, 255}, color.NRGBA{uint8(v), 255, 30, 128}, color.RGBA{0, 0, 0, 0}, color.Alpha{uint8(v >> 3)}, color.NRGBA{255, uint8(v >> 2), 3, 3}}[mod(v, 5)]
}

func newC10painter(m *c10img, kind, par int) *c10painter {
	x := &c10painter{}
	switch mod(kind, 4) {
	case 0:
		x.p = raster.NewAlphaOverPainter(m.asub)
	case 1:
		x.p = raster.NewAlphaSrcPainter(m.asub)
	default:
		x.rgba = raster.NewRGBAPainter(m.rsub)
		x.rgba.SetColor(c10colour(par))
		if mod(kind, 4) == 2 {
			x.rgba.Op = draw.Src
		}
		x.p = x.rgba
	}
	gamma := gammas[mod(par>>4, len(gammas))]
	switch mod(kind>>2, 6) {
	case 1, 4:
		x.p = raster.NewMonochromePainter(x.p)
	case 2:
		x.gam = raster.NewGammaCorrectionPainter(x.p, gamma)
		x.p = x.gam
	case 3:
		x.gam = raster.NewGammaCorrectionPainter(raster.NewMonochromePainter(x.p), gamma)
		x.p = x.gam
	case 5:
		x.p = raster.NewMonochromePainter(raster.NewGammaCorrectionPainter(x.p, gamma))
	}
	return x
}

// retarget has a painter paint another part of its image, in another way.
func (x *c10painter) retarget(m *c10img, v int) {
	sub := []image.Rectangle{image.Rect(-6, -4, 44, 36), image.Rect(0, 0, 40, 30), image.Rect(-3, 5, 20, 25), image.Rect(-6, -4, 0, 36), image.Rect(8, 9, 44, 36)}[mod(v>>1, 5)]
	if x.rgba != nil {
		x.rgba.Image = m.rgba.SubImage(sub).(*image.RGBA)
		x.rgba.Op = draw.Over
		if v&1 != 0 {
			x.rgba.Op = draw.Src
		}
	} else if x.gam != nil {
		x.gam.Painter = raster.NewMonochromePainter(raster.NewAlphaSrcPainter(m.alpha.SubImage(sub).(*image.Alpha)))
	}
}

// c10spans are the spans of a paint operation, with the cuts after each.
func c10spans(w *World, p *core.Op) (ss []raster.Span, cut []int) {
	if v := p.Arg(4); v > 0 {
		// From a rasterization.
		rs := raster.NewRasterizer(50, 40)
		rs.Dx, rs.Dy = -4-mod(v, 5), -3-mod(v, 4)
		rs.UseNonZeroWinding = v&1 != 0
		rs.AddPath(w.paths[mod(v, len(w.paths))])
		rec := &spanRec{}
		rs.Rasterize(rec)
		k := newDigest()
		for range rec.ss {
			k.n(v)
			cut = append(cut, []int{0, 0, 0, 1, 0, 0, 2, 0}[k%8])
		}
		return rec.ss, cut
	}
	x, y := -10, mod(p.Arg(1), 60)-20
	for i := 0; i+4 < len(p.P); i += 5 {
		if dy := mod(p.P[i], 4); dy > 0 {
			y += dy
			x = -10
		}
		x += mod(p.P[i+1], 20)
		n := 1 + mod(p.P[i+2], 20)
		al := uint32(mod(p.P[i+3], 0x10000))
		if al == 0 {
			al = 0xffff
		}
		ss = append(ss, raster.Span{Y: y, X0: x, X1: x + n, Alpha: al})
		cut = append(cut, mod(p.P[i+4], 3))
		x += n
	}
	return
}

func runC10(s *core.Scenario, o *core.Outcome) {
	w := &World{}
	w.addShared(uint64(s.Par("img")))
	type done struct {
		op   *core.Op
		kind int
		par  int
		col  int // -1 as made
		to   int // -1 as made
	}
	var hist [c10Slots][]done
	var imgs [c10Slots]*c10img
	var pnts [c10Slots]*c10painter
	var cur [c10Slots]done
	var busy [c10Slots]bool
	for i := range imgs {
		imgs[i] = newC10img(i, s.Par("img"))
	}
	var do func(p *core.Op, depth int)
	do = func(p *core.Op, depth int) {
		i := mod(p.Arg(0), c10Slots)
		if busy[i] {
			return
		}
		if p.K == "npaint" || pnts[i] == nil {
			cur[i] = done{kind: p.Arg(1), par: p.Arg(2), col: -1, to: -1}
			pnts[i] = newC10painter(imgs[i], p.Arg(1), p.Arg(2))
			if p.K == "npaint" {
				return
			}
		}
		x := pnts[i]
		if p.K == "retarget" {
			cur[i].to = p.Arg(1)
			x.retarget(imgs[i], p.Arg(1))
			return
		}
		if p.K == "colour" {
			cur[i].col = p.Arg(1)
			if x.rgba != nil {
				x.rgba.SetColor(c10colour(p.Arg(1)))
			}
			if x.gam != nil {
				x.gam.SetGamma(c10gamma(p.Arg(1)))
			}
			return
		}
		busy[i] = true
		ss, cut := c10spans(w, p)
		n, from := 0, 0
		nest := func() {
			if n == mod(p.Arg(5), 4) && depth < 3 {
				for k := range p.N {
					do(&p.N[k], depth+1)
					o.Hit("nested-painting")
				}
			}
		}
		// Batches are parts of one array, or arrays of their own. A painter may
		// use what it is handed as scratch space, and nothing behind it.
		all := append(append([]raster.Span(nil), ss...), raster.Span{Y: 1, X0: 2, X1: 3, Alpha: 4})
		hand := func(from, to int, done bool) {
			if mod(p.Arg(6), 3) == 0 {
				x.p.Paint(append([]raster.Span(nil), ss[from:to]...), done)
				return
			}
			x.p.Paint(all[from:to], done)
			for k := to; k < len(all); k++ {
				if k < len(ss) && all[k] != ss[k] || k == len(ss) && all[k] != (raster.Span{Y: 1, X0: 2, X1: 3, Alpha: 4}) {
					o.Fail("spans", "a painter handed spans %d to %d of %d changes span %d", from, to, len(ss), k)
					return
				}
			}
		}
		for k := mod(p.Arg(2), 3); k > 0; k-- {
			x.p.Paint(nil, false)
		}
		for k := range ss {
			if cut[k] == 0 {
				continue
			}
			hand(from, k+1, false)
			from = k + 1
			nest()
			n++
			if cut[k] == 2 {
				hand(from, from, false)
			}
		}
		if n > 0 && from < len(ss) || n > 1 {
			o.Nontrivial = true
		}
		if mod(p.Arg(3), 3) == 1 {
			hand(from, len(ss), false)
			x.p.Paint(nil, true)
		} else if mod(p.Arg(3), 3) == 2 {
			hand(from, len(ss), false)
			hand(len(ss), len(ss), true)
		} else {
			hand(from, len(ss), true)
		}
		busy[i] = false
		h := cur[i]
		h.op = p
		hist[i] = append(hist[i], h)
	}
	cg := caught{}
	o.Sim(nil, 0, func() {
		cg = try(func() {
			for i := range s.Tasks[0].Ops {
				do(&s.Tasks[0].Ops[i], 0)
			}
		})
	})
	if cg.any {
		o.Fail("panic", "%s", cg.text)
	}
	if o.Violation != nil {
		return
	}
	for i := range imgs {
		d := newDigest()
		d.bytes(imgs[i].rgba.Pix)
		d.bytes(imgs[i].alpha.Pix)
		o.Observe(uint64(d))
		core.ResetGlobals()
		for way, text := range []string{"in single batches by new painters", "span by span"} {
			m := newC10img(i, s.Par("img"))
			o.Sim(nil, 0, func() {
				for _, h := range hist[i] {
					ss, _ := c10spans(w, h.op)
					n := len(ss)
					if way == 1 {
						n = 1
					}
					x := newC10painter(m, h.kind, h.par)
					if h.to >= 0 {
						x.retarget(m, h.to)
					}
					if h.col >= 0 && x.rgba != nil {
						x.rgba.SetColor(c10colour(h.col))
					}
					if h.col >= 0 && x.gam != nil {
						x.gam.SetGamma(c10gamma(h.col))
					}
					for len(ss) > 0 {
						x.p.Paint(append([]raster.Span(nil), ss[:n]...), true)
						ss = ss[n:]
					}
				}
			})
			if k := differ(imgs[i].rgba.Pix, m.rgba.Pix); k >= 0 {
				o.Fail("pixels", "image %d, pixel (%d, %d): %d, painted %s %d", i, k/4%50-6, k/4/50-4, imgs[i].rgba.Pix[k], text, m.rgba.Pix[k])
				return
			}
			if k := differ(imgs[i].alpha.Pix, m.alpha.Pix); k >= 0 {
				o.Fail("pixels", "image %d, pixel (%d, %d): %d, painted %s %d", i, k%50-6, k/50-4, imgs[i].alpha.Pix[k], text, m.alpha.Pix[k])
				return
			}
		}
	}
}

// differ is where two images of the same size differ, or -1.
func differ(a, b []byte) int {
	if bytes.Equal(a, b) {
		return -1
	}
	k := 0
	for a[k] == b[k] {
		k++
	}
	return k
}

// c10gamma is the gamma that comes with a colour.
func c10gamma(col int) float64 { return 1 + float64(mod(col, 7))/4 + float64(mod(col>>4, 3))/64 }
