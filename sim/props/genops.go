package props

import (
	"github.com/golang/freetype/verifsim/core"
)

// Families of operations.
const (
	famGlyph = iota
	famQuery
	famFace
	famCtx
	famRast
	famPath
	famPaint
	nFam
)

// gctx is what the generator of operations knows.
type gctx struct {
	fonts  []*core.FontData
	fam    [nFam]int // weights
	abort  bool      // callbacks may panic
	bad    bool      // texts may contain runes without glyphs
	few    bool      // small choices of objects, runes and sizes: more collisions
	noSet  bool      // no ops that replace objects
	nested int       // percentage of nesting
}

func (g *gctx) rune(r *core.Rng) rune {
	f := g.fonts[r.N(len(g.fonts))]
	if len(f.Info.Runes) == 0 {
		return 'x'
	}
	if r.P(4) {
		return core.Pick(r, 'é', '\u4e00', 0x1F600, 'A', ' ')
	}
	n := len(f.Info.Runes)
	if g.few && n > 6 {
		n = 6
	}
	return f.Info.Runes[r.N(n)]
}

func (g *gctx) text(r *core.Rng, max int) string {
	n := 1 + r.N(max)
	var s []rune
	for i := 0; i < n; i++ {
		if i > 0 && r.P(15) {
			s = append(s, s[r.N(len(s))])
			continue
		}
		s = append(s, g.rune(r))
	}
	return string(s)
}

func (g *gctx) coord(r *core.Rng) int {
	if r.P(10) {
		return r.N(200*64) - 50*64
	}
	return r.N(44 * 64)
}

// pick draws an index of n choices; few concentrates on the first ones.
func (g *gctx) pick(r *core.Rng, n int) int {
	if g.few && r.P(70) {
		return r.N(min(n, 2))
	}
	return r.N(n)
}

func (g *gctx) runeIdx(r *core.Rng) int {
	if r.P(5) && len(g.fonts) > 0 {
		// A rune some of whose bits are those of one of the font's.
		f := g.fonts[r.N(len(g.fonts))]
		if n := len(f.Info.Runes); n > 0 {
			return litRune + int(f.Info.Runes[r.N(min(n, 6))]) + core.Pick(r, 0x100, 0x200, 0x1000, 0x10000, 0x100000)*(r.N(3))
		}
	}
	if g.few {
		return r.N(6)
	}
	return r.N(400)
}

// ops draws n operations.
func (g *gctx) ops(r *core.Rng, n int) []core.Op {
	var o []core.Op
	for i := 0; i < n; i++ {
		o = append(o, g.op(r, 0))
	}
	return o
}

func op(k string, a ...int) core.Op { return core.Op{K: k, A: a} }

func (g *gctx) op(r *core.Rng, depth int) core.Op {
	fam := r.W(g.fam[:]...)
	o := g.famOp(r, fam)
	if depth < 1 && r.P(g.nested) {
		switch o.K {
		case "rstroke", "pstroke", "rrast", "paint":
			k := 1 + r.N(3)
			for i := 0; i < k; i++ {
				o.N = append(o.N, g.op(r, depth+1))
			}
		}
	}
	return o
}

func (g *gctx) faceNew(r *core.Rng) core.Op {
	if r.P(6) {
		return op("fnew", g.pick(r, nFaces), r.N(8), -1)
	}
	return op("fnew", g.pick(r, nFaces), r.N(8), g.pick(r, len(sizeTab)), r.W(5, 2, 1, 1), r.N(3), r.N(7+r.N(2)), r.N(9), r.N(9))
}

func (g *gctx) famOp(r *core.Rng, fam int) core.Op {
	f := r.N(8)
	switch fam {
	case famGlyph:
		if r.P(10) {
			return op("gread", g.pick(r, nBufs))
		}
		return op("gload", g.pick(r, nBufs), f, r.N(1000), g.pick(r, len(scaleTab)), r.W(3, 5, 2))
	case famQuery:
		switch r.N(8) {
		case 0:
			return op("qindex", f, r.N(400))
		case 1:
			return op("qrune", f, core.Pick(r, r.N(0x3000), r.N(0x110000), r.N(128)))
		case 2:
			return op("qmetric", f, r.N(1000), r.N(len(scaleTab)))
		case 3, 4:
			return op("qkern", f, r.N(120), r.N(120), r.N(len(scaleTab)))
		case 5:
			return op("qbounds", f, r.N(len(scaleTab)))
		case 6:
			return op("parse", f)
		default:
			return op("qname", f, r.N(20))
		}
	case famFace:
		switch r.W(12, 40, 10, 10, 10, 5, 10, 6, 2) {
		case 0:
			return g.faceNew(r)
		case 1:
			return op("fglyph", g.pick(r, nFaces), g.coord(r), g.coord(r), g.runeIdx(r))
		case 2:
			return op("fadv", g.pick(r, nFaces), g.runeIdx(r))
		case 3:
			return op("fbounds", g.pick(r, nFaces), g.runeIdx(r))
		case 4:
			return op("fkern", g.pick(r, nFaces), g.runeIdx(r), g.runeIdx(r))
		case 5:
			return op("fmetrics", g.pick(r, nFaces))
		case 6:
			o := op("fdraw", g.pick(r, nFaces), r.N(9), g.coord(r)-5*64, g.coord(r), r.N(4))
			o.S = g.text(r, 5)
			return o
		case 7:
			o := op("fmeasure", g.pick(r, nFaces))
			o.S = g.text(r, 6)
			return o
		default:
			return op("fclose", g.pick(r, nFaces))
		}
	case famCtx:
		x := g.pick(r, nCtxs)
		switch r.W(50, 6, 4, 6, 5, 5, 5, 6, 2, 2) {
		case 0:
			o := op("cdraw", x, g.coord(r)-4*64, g.coord(r))
			o.S = g.text(r, 5)
			return o
		case 1:
			return op("csize", x, g.pick(r, len(sizeTab)))
		case 2:
			return op("cdpi", x, r.W(5, 2, 1, 1))
		case 3:
			return op("chint", x, r.N(3))
		case 4:
			return op("cfont", x, r.N(9)-1)
		case 5:
			return op("cdst", x, r.N(9))
		case 6:
			return op("csrc", x, r.N(4))
		case 7:
			return op("cclip", x, r.N(40)-10, r.N(40)-10, r.N(60), r.N(60))
		case 8:
			return op("cfix", x, r.N(5000))
		default:
			return op("cnew", x)
		}
	case famRast:
		x := g.pick(r, nRasts)
		c := func() int { return g.coord(r) }
		switch r.W(3, 6, 8, 3, 4, 8, 10, 8, 8, 8, 10, 20) {
		case 0:
			return op("rnew", x, r.N(80), r.N(80))
		case 1:
			return op("rbounds", x, 5+core.Pick(r, 20, 24, 25, 48, 120, 121, 130, r.N(64), 0, -3), 5+core.Pick(r, 24, 25, 40, 63, 64, 65, 130, 0, -3))
		case 2:
			return op("rclear", x)
		case 3:
			return op("rwind", x, r.N(2))
		case 4:
			return op("roff", x, r.N(40), r.N(40))
		case 5:
			return op("rstart", x, c(), c())
		case 6:
			return op("r1", x, c(), c())
		case 7:
			return op("r2", x, c(), c(), c(), c())
		case 8:
			return op("r3", x, c(), c(), c(), c(), c(), c())
		case 9:
			return op("rpath", x, r.N(7))
		case 10:
			o := op("rstroke", x, r.N(7), drawWidth(r, 800), r.N(4), r.N(3), 0, 0)
			if g.abort && r.P(30) {
				o.A[5] = 1 + r.N(8)
			}
			o.A[6] = r.N(3)
			return o
		default:
			o := op("rrast", x, r.N(nPnts+1), 0, 0)
			if g.abort && r.P(30) {
				o.A[2] = 1 + r.N(7)
			}
			o.A[3] = r.N(4)
			return o
		}
	case famPath:
		x := g.pick(r, nPaths)
		c := func() int { return g.coord(r) }
		switch r.W(4, 10, 12, 8, 8, 6, 6, 6) {
		case 0:
			return op("pclear", x)
		case 1:
			return op("pstart", x, c(), c())
		case 2:
			return op("p1", x, c(), c())
		case 3:
			return op("p2", x, c(), c(), c(), c())
		case 4:
			return op("p3", x, c(), c(), c(), c(), c(), c())
		case 5:
			return op("ppath", x, r.N(7))
		case 6:
			o := op("pstroke", x, r.N(7), drawWidth(r, 800), r.N(4), r.N(3), 0, r.N(3))
			if g.abort && r.P(30) {
				o.A[5] = 1 + r.N(8)
			}
			return o
		default:
			return op("pread", x)
		}
	default:
		switch r.W(4, 12, 3) {
		case 0:
			return op("npaint", r.N(nPnts), r.N(nImgs), r.N(16), r.N(256))
		case 1:
			o := op("paint", r.N(nPnts), r.N(60))
			k := r.N(8)
			for i := 0; i < k; i++ {
				o.P = append(o.P, r.W(3, 2, 1, 1), r.W(4, 1)*r.N(20), r.N(20), core.Pick(r, 0xffff, r.N(0x10000), 0x8000, 0x7fff), r.W(2, 1))
			}
			return o
		default:
			return op("ivar")
		}
	}
}

// dense weights for a mix of families; swarm style, some are left out.
func (g *gctx) swarm(r *core.Rng, base [nFam]int) {
	for i, w := range base {
		if w > 0 && r.P(75) {
			g.fam[i] = w * (1 + r.N(4))
		}
	}
	t := 0
	for _, w := range g.fam {
		t += w
	}
	if t == 0 {
		g.fam = base
	}
}

// specs loads the fonts a generator may know.
func specs(s *core.Scenario) (d []*core.FontData) {
	for i := range s.Fonts {
		d = append(d, s.Fonts[i].Spec())
	}
	return
}

// switches draws a schedule: about n preemptions, at distances drawn from
// several scales, so that both long undisturbed stretches and dense interleaving
// of single statements occur.
func switches(r *core.Rng, n, maxGap int) (sw []swt) {
	scale := r.Log(maxGap)
	for i := 0; i < n; i++ {
		g := r.Log(scale)
		if r.P(20) {
			g = r.Log(maxGap)
		}
		if r.P(10) {
			g = 1 + r.N(3)
		}
		sw = append(sw, swt{Gap: g, To: r.N(4)})
	}
	return
}

// rounds has the tasks run in turn, for about as many steps each.
func rounds(r *core.Rng, tasks, n, gap int) (sw []swt) {
	jitter := core.Pick(r, 1, 2, 1+gap/8)
	for i := 0; i < n*tasks && i < 400; i++ {
		sw = append(sw, swt{Gap: gap + r.N(jitter), To: (i + 1) % tasks})
	}
	return
}
