package props

import (
	"github.com/golang/freetype/truetype"
	"github.com/golang/freetype/verifsim/core"
)

// C05: a face's caches are invisible.
//
// One caller makes faces, with few cache entries and runes that collide, and asks
// them for glyphs, bounds, advances, kerning and draws, in any order; some
// requests fail (glyphs built to fail, fonts that cannot be prepared for a
// while). Every answer is compared with that of a face made for that one request,
// with one cache entry; every glyph also with that of a face with 64 by 64
// sub-pixel positions asked for the dot rounded here.

func init() {
	register(&core.Check{
		ID: "C05", Runs: [2]int{16000, 4000000}, Gen: genC05, Run: runC05, Level: "exploration",
		Rule: "one history of 3 to 40 requests to up to three faces of one or two fonts, runes drawn from a small pool of colliding ones, some requests failing by a broken glyph or a font whose programs cannot be read for the duration of one request; non-trivial: a face answered at least two glyph requests after having answered another",
		Real: realAll, Stub: []string{"font storage (bytes in memory, damaged on schedule)"},
		Assume: []string{"runes are not negative"},
	})
}

func genC05(r *core.Rng, s *core.Scenario) {
	n := 1 + r.W(3, 1)
	var opt []int
	if r.P(30) {
		opt = append(opt, core.OptPlain)
	}
	if r.P(20) {
		opt = append(opt, core.OptSafe)
	}
	if r.P(60) {
		opt = append(opt, core.OptHonestBox)
	}
	if r.P(60) {
		opt = append(opt, core.OptSmall)
	} else if r.P(15) {
		opt = append(opt, core.OptMany)
	}
	for i := 0; i < n; i++ {
		s.Fonts = append(s.Fonts, core.GenFont(r, 15, opt...))
	}
	core.Siblings(r, s.Fonts)
	fs := specs(s)
	// A pool of runes.
	var pool []int
	for i := 2 + r.N(6); i > 0; i-- {
		rs := fs[r.N(n)].Info.Runes
		c := int(rs[r.N(len(rs))])
		pool = append(pool, c)
		if r.P(50) {
			pool = append(pool, c+256*(1+r.N(4)))
		}
		if r.P(10) {
			pool = append(pool, core.Pick(r, 0, 255, 0x10ffff, 0x4e00, 1<<32-1, 1<<32-1, 1<<32-2))
		}
		if r.P(20) {
			pool = append(pool, c&255, c+1)
		}
		if r.P(20) {
			pool = append(pool, c+core.Pick(r, 0x400, 0x1000, 0x8000, 0x10000, 0x20000, 0x100000))
		}
	}
	ru := func() int { return litRune + pool[r.N(len(pool))] }
	// A pool of fractions.
	var frac []int
	for i := 1 + r.N(4); i > 0; i-- {
		frac = append(frac, core.Pick(r, 0, 7, 8, 31, 32, 33, 63, 56, 55, r.N(64), 16*r.N(4)))
	}
	co := func() int {
		v := 64*(r.N(40)-8) + frac[r.N(len(frac))]
		if r.P(5) {
			v = r.N(1<<26) - 1<<25
		}
		return v
	}
	nf := 1 + r.W(5, 3, 1)
	mk := func(i int) core.Op {
		return op("fnew", i, r.N(n), r.N(len(sizeTab)), r.W(5, 2, 1, 1), r.N(3), r.W(1, 6, 6, 6, 3, 2, 1, 1), r.N(9), r.N(9))
	}
	var ops []core.Op
	for i := 0; i < nf; i++ {
		ops = append(ops, mk(i))
	}
	k := 3 + r.Log(36)
	onlyGlyph := r.P(30)
	for i := 0; i < k; i++ {
		f := r.N(nf)
		w := r.W(60, 6, 6, 8, 2, 8, 4, 1, 2, 6, 3)
		if onlyGlyph && r.P(80) {
			w = 0
		}
		switch w {
		case 0:
			ops = append(ops, op("fglyph", f, co(), co(), ru()))
		case 1:
			ops = append(ops, op("fadv", f, ru()))
		case 2:
			ops = append(ops, op("fbounds", f, ru()))
		case 3:
			ops = append(ops, op("fkern", f, ru(), ru()))
		case 4:
			ops = append(ops, op("fmetrics", f))
		case 5, 6:
			o := op("fdraw", f, r.N(9), co(), co(), r.N(4))
			if w == 6 {
				o = op("fmeasure", f)
			}
			for j := 1 + r.N(4); j > 0; j-- {
				o.S += string(rune(pool[r.N(len(pool))]))
			}
			ops = append(ops, o)
		case 7:
			ops = append(ops, op("fclose", f))
		case 8:
			ops = append(ops, mk(f))
		case 9: // the same again
			q := ops[r.N(len(ops))]
			if q.K != "fnew" {
				ops = append(ops, q)
			}
		default: // other work with the same font
			ops = append(ops, op("gload", 0, r.N(n), r.N(1000), r.N(3), r.N(3)))
		}
		if r.P(6) {
			s.Faults = append(s.Faults, core.Fault{Kind: core.Pick(r, "prep-fail", "fpgm-fail"), Op: len(ops) - 1, Font: r.N(n)})
		}
	}
	s.Tasks = []core.Task{{Ops: ops}}
}

// roundDot rounds a coordinate to n sub-pixel positions, half up.
func roundDot(v, n int) int {
	q := 64 / n
	return floorDiv(2*v+q, 2*q) * q
}

func floorDiv(a, b int) int {
	d := a / b
	if a%b < 0 {
		d--
	}
	return d
}

// positions is the number of sub-pixel positions an option stands for.
func positions(v, def int) int {
	switch v {
	case 1, 2, 4, 8, 16, 32, 64:
		return v
	}
	return def
}

func runC05(s *core.Scenario, o *core.Outcome) {
	w := NewWorld(s)
	c := NewCaller(w)
	ops := s.Tasks[0].Ops
	faults := map[int]*core.Fault{}
	for i := range s.Faults {
		faults[s.Faults[i].Op] = &s.Faults[i]
	}
	type made struct {
		font int
		opts truetype.Options
		nilo bool
	}
	faces := make([]made, len(ops)) // the face each operation used
	var undo func()
	c.before = func(i int, p *core.Op) {
		if p.K == "fdraw" { // onto a clean image
			c.imgs[mod(p.Arg(1), nImgs)] = nil
		}
		if f := faults[i]; f != nil && p.K[0] != 'f' || f != nil && p.K == "fnew" {
			faults[i] = nil
		} else if f != nil {
			d := w.data[mod(f.Font, len(w.data))]
			undo = core.Damage(d.Bytes, d.Info, f)
		}
	}
	c.after = func(i int, p *core.Op, ob *Obs) {
		if undo != nil {
			undo()
			undo = nil
			o.Injected(faults[i].Kind)
		}
		if p.K[0] == 'f' {
			if f := c.faces[mod(p.Arg(0), nFaces)]; f != nil {
				faces[i] = made{f.font, f.opts, false}
			}
		}
	}
	o.Sim(nil, 0, func() { c.Perform(ops) })
	var asked [nFaces]map[[3]int]int
	n := 0
	for i := range ops {
		p := &ops[i]
		ob := &c.obs[i]
		o.Observe(uint64(ob.H), ob.E)
		if p.K[0] != 'f' || faults[i] != nil {
			continue
		}
		fi := mod(p.Arg(0), nFaces)
		if p.K == "fnew" {
			asked[fi] = nil
			if ob.Panic {
				o.Fail("panic", "operation %d fnew: %s", i, ob.E)
				return
			}
			continue
		}
		if p.K == "fclose" {
			continue
		}
		if p.K == "fglyph" {
			if asked[fi] == nil {
				asked[fi] = map[[3]int]int{}
			}
			k := [3]int{p.Arg(1) & 63, p.Arg(2) & 63, p.Arg(3)}
			if asked[fi][k] > 0 && len(asked[fi]) > 1 {
				o.Hit("repeated-after-others")
			}
			asked[fi][k]++
			if len(asked[fi]) > 1 {
				n++
			}
		}
		m := faces[i]
		with := func(p core.Op, f func(*truetype.Options)) Obs {
			core.ResetGlobals()
			ft, err := truetype.Parse(w.data[m.font].Bytes)
			if err != nil {
				return Obs{E: err.Error()}
			}
			n := NewCaller(&World{data: w.data[m.font : m.font+1], fonts: []*truetype.Font{ft}, srcs: w.srcs})
			op := m.opts
			f(&op)
			n.newFace(0, 0, op)
			p.A = append([]int{0}, p.A[1:]...)
			var r Obs
			o.Sim(nil, 0, func() { r = n.Do(&p) })
			return r
		}
		want := with(*p, func(o *truetype.Options) { o.GlyphCacheEntries = 1 })
		if !ob.same(&want) {
			o.Fail("answer", "operation %d %s of face %d: got %s, a new face gives %s", i, p.K, fi, ob.text(), want.text())
			return
		}
		if p.K != "fglyph" {
			continue
		}
		q := *p
		q.A = append([]int(nil), p.A...)
		nx, ny := positions(m.opts.SubPixelsX, 4), positions(m.opts.SubPixelsY, 1)
		q.A[1], q.A[2] = roundDot(p.Arg(1), nx), roundDot(p.Arg(2), ny)
		want = with(q, func(o *truetype.Options) { o.GlyphCacheEntries, o.SubPixelsX, o.SubPixelsY = 1, 64, 64 })
		if !ob.same(&want) {
			o.Fail("dot", "operation %d: glyph at (%d, %d) with %d by %d positions: got %s, a face with 64 by 64 asked for the rounded dot (%d, %d) gives %s", i, p.Arg(1), p.Arg(2), nx, ny, ob.text(), q.A[1], q.A[2], want.text())
			return
		}
		// The same from the pixel at the origin.
		x, y := q.A[1]>>6, q.A[2]>>6
		q.A = []int{0, q.A[1] & 63, q.A[2] & 63, q.A[3], x, y}
		want = with(q, func(o *truetype.Options) { o.GlyphCacheEntries, o.SubPixelsX, o.SubPixelsY = 1, 64, 64 })
		if !ob.same(&want) {
			o.Fail("pixel", "operation %d: glyph at (%d, %d) with %d by %d positions: got %s, the dot %d and %d pixels less gives, moved by as much, %s", i, p.Arg(1), p.Arg(2), nx, ny, ob.text(), x, y, want.text())
			return
		}
	}
	o.Nontrivial = n >= 2
}
