package props

import (
	"github.com/golang/freetype/raster"
	"github.com/golang/freetype/verifsim/core"
)

// C09: spans reach a painter in order, once, in bounds, and are announced
// complete.
//
// One caller works with three rasterizers. Its painters check the protocol at
// every call, overwrite the spans they are handed, and do other work, including
// rasterizing with the other rasterizers, from within the call. The history is
// then repeated with painters that only look, doing the other work afterwards,
// and the spans are compared.

func init() {
	register(&core.Check{
		ID: "C09", Runs: [2]int{60000, 6000000}, Gen: genC09, Run: runC09, Level: "exploration",
		Rule: "one history of 5 to 50 calls on three rasterizers, with painters that overwrite their spans, rasterize with other rasterizers in the middle (up to 22 deep), or panic; non-trivial: a rasterization delivered spans in at least two batches, or a painter overwrote spans or did other work",
		Real: realAll, Stub: []string{"painter (checks the protocol, overwrites spans, calls back, may panic)"},
	})
}

func genC09(r *core.Rng, s *core.Scenario) {
	g := &gctx{abort: r.P(50), few: r.P(50)}
	g.fam[famRast] = 10
	g.fam[famPath] = 2
	big := 24 + r.N(60)
	if r.P(25) {
		big = 100 + r.N(90)
	}
	var burst func(x int) []core.Op
	burst = func(x int) (ops []core.Op) {
		k := 1 + r.Log(30)
		c := func() int {
			if r.P(8) {
				return r.N(64*big*3) - 64*big
			}
			if r.P(15) {
				return 64 * r.N(big)
			}
			return r.N(64 * big)
		}
		x0, y0 := c(), c()
		ops = append(ops, op("rstart", x, x0, y0))
		for j := 0; j < k; j++ {
			switch r.W(6, 2, 1) {
			case 0:
				ops = append(ops, op("r1", x, c(), c()))
			case 1:
				ops = append(ops, op("r2", x, c(), c(), c(), c()))
			default:
				ops = append(ops, op("r3", x, c(), c(), c(), c(), c(), c()))
			}
		}
		if !r.P(8) {
			ops = append(ops, op("r1", x, x0, y0))
		}
		return
	}
	rast := func(x int, depth int) core.Op {
		// rasterizer, scribble mode, abort at, nested at, painters in between
		o := op("rrast", x, r.W(3, 2, 2, 2, 2, 1), 0, r.N(4), r.W(12, 2, 1, 1, 1))
		if r.P(6) {
			o.A[2] = 1 + r.N(6)
		}
		return o
	}
	var ops []core.Op
	for i := 0; i < nRasts; i++ {
		ops = append(ops, op("rbounds", i, 5+core.Pick(r, big, big, r.N(70), big/2), 5+core.Pick(r, big, big, r.N(70), big/2)))
		ops = append(ops, burst(i)...)
	}
	for i := 2 + r.Log(30); i > 0; i-- {
		x := r.N(nRasts)
		switch r.W(4, 6, 3) {
		case 0:
			ops = append(ops, burst(x)...)
		case 1:
			if r.P(6) {
				// depth, seed, scribble mode
				ops = append(ops, op("chain", r.Log(20), r.N(1<<20), r.N(6)))
				continue
			}
			o := rast(x, 0)
			if r.P(40) {
				y := (x + 1 + r.N(2)) % nRasts
				if r.P(50) {
					o.N = append(o.N, burst(y)...)
				}
				if r.P(30) {
					o.N = append(o.N, g.op(r, 1))
				}
				q := rast(y, 1)
				if r.P(40) {
					z := nRasts - x - y // the third
					if r.P(50) {
						q.N = burst(z)
					}
					q.N = append(q.N, rast(z, 2))
				}
				o.N = append(o.N, q)
			}
			ops = append(ops, o)
		default:
			o := g.op(r, 0)
			if o.K == "rrast" {
				o = rast(x, 0)
			}
			ops = append(ops, o)
		}
	}
	for i := 0; i < nRasts; i++ {
		ops = append(ops, rast(i, 0))
	}
	s.Set("shared", r.N(1<<20))
	s.Tasks = []core.Task{{Ops: ops}}
}

// c09caller performs operations with rasterizations of its own.
type c09caller struct {
	*Caller
	o       *core.Outcome
	passive bool
	recs    [][]raster.Span
	depth   int
	ran     []bool // per rasterization with nested work: whether it was done
	at      int
	size    [nRasts][2]int
	busyR   [nRasts]bool
	links   []*raster.Rasterizer
}

// chain rasterizes with a row of other rasterizers, each in the painter of the
// one before.
func (c *c09caller) chain(p *core.Op) {
	n := 2 + mod(p.Arg(0), 32)
	var at []int
	var polys []raster.Path
	r := core.NewRng(uint64(p.Arg(1)))
	for i := 0; i < n; i++ {
		if i == len(c.links) {
			c.links = append(c.links, raster.NewRasterizer(8+3*i%17, 8+5*i%13))
		}
		at = append(at, 1+r.N(2))
		polys = append(polys, genPath(r, 2+r.N(5), 900, false))
	}
	var link func(i int)
	link = func(i int) {
		if i == n {
			return
		}
		z := c.links[i]
		z.Clear()
		z.AddPath(polys[i])
		me := len(c.recs)
		c.recs = append(c.recs, nil)
		calls, did := 0, c.passive
		z.Rasterize(raster.PainterFunc(func(ss []raster.Span, done bool) {
			calls++
			c.recs[me] = append(c.recs[me], ss...)
			if !did && (done || calls == at[i]) {
				did = true
				held := append([]raster.Span(nil), ss...)
				link(i + 1)
				if k := sameSpans(held, ss); k >= 0 {
					c.o.Fail("held", "the spans the painter at depth %d was handed changed while others rasterized: span %d is %s and was %s", i, k, spanText(ss, k), spanText(held, k))
				}
				scribble(ss, p.Arg(2))
			}
		}))
		if c.passive {
			link(i + 1)
		}
	}
	if cg := try(func() { link(0) }); cg.any {
		c.o.Fail("panic", "rasterizing %d deep: %s", n, cg.text)
	}
	if !c.passive {
		c.o.Hit("nested-deep")
	}
}

func (c *c09caller) do(p *core.Op) {
	if p.K == "chain" {
		c.chain(p)
		return
	}
	if p.K != "rrast" {
		switch p.K {
		case "rbounds":
			if i := mod(p.Arg(0), nRasts); !c.busyR[i] && !c.busy.rast[i] {
				c.size[i] = [2]int{max(0, mod(p.Arg(1), 210)-5), max(0, mod(p.Arg(2), 210)-5)}
			}
		case "rnew":
			if i := mod(p.Arg(0), nRasts); !c.busyR[i] && !c.busy.rast[i] {
				c.size[i] = [2]int{mod(p.Arg(1), 200), mod(p.Arg(2), 200)}
			}
		}
		was := c.busy
		for i := range c.busyR {
			c.busy.rast[i] = c.busy.rast[i] || c.busyR[i]
		}
		if ob := c.Do(p); ob.Panic {
			c.o.Fail("panic", "%s: %s", p.K, ob.E)
		}
		c.busy = was
		return
	}
	i := mod(p.Arg(0), nRasts)
	if c.busyR[i] || c.depth > 2 {
		return
	}
	c.busyR[i] = true
	c.depth++
	defer func() { c.busyR[i] = false; c.depth-- }()
	if c.rasts[i] == nil {
		c.size[i] = [2]int{imgW, imgH}
	}
	r := c.rast(i).r
	me := len(c.recs)
	c.recs = append(c.recs, nil)
	slot := -1
	if len(p.N) > 0 {
		slot = c.at
		c.at++
		if !c.passive {
			c.ran = append(c.ran, false)
		}
	}
	calls, dones := 0, 0
	var last raster.Span
	any := false
	dx, dy := r.Dx, r.Dy
	w, h := c.size[i][0], c.size[i][1]
	cg := try(func() {
		r.Rasterize(c09between(p.Arg(4), func(ss []raster.Span, done bool) {
			calls++
			if dones > 0 {
				c.o.Fail("after-done", "rasterizer %d calls its painter after having reported completion", i)
			}
			if done {
				dones++
			}
			for _, x := range ss {
				switch {
				case x.X0 >= x.X1 || x.Alpha == 0 && mod(p.Arg(4), 5) != 2 || x.Alpha > 0xffff:
					c.o.Fail("empty", "rasterizer %d hands out span %s", i, spanText([]raster.Span{x}, 0))
				case x.Y < dy || x.Y >= dy+h || x.X0 < dx || x.X1 > dx+w:
					c.o.Fail("bounds", "rasterizer %d of %d by %d with offset (%d, %d) hands out span %s", i, w, h, dx, dy, spanText([]raster.Span{x}, 0))
				case any && (x.Y < last.Y || x.Y == last.Y && x.X0 < last.X1):
					c.o.Fail("order", "rasterizer %d hands out span %s after %s", i, spanText([]raster.Span{x}, 0), spanText([]raster.Span{last}, 0))
				}
				last, any = x, true
			}
			c.recs[me] = append(c.recs[me], ss...)
			if k := p.Arg(2); k != 0 && calls == 1+mod(k-1, 8) {
				panic(Abort{calls})
			}
			if c.passive {
				return
			}
			scribble(ss, p.Arg(1))
			if len(ss) > 0 && mod(p.Arg(1), 6) != 0 {
				c.o.Hit("scribbled")
				c.o.Nontrivial = true
			}
			if slot >= 0 && calls == 1+mod(p.Arg(3), 4) {
				c.ran[slot] = true
				c.o.Hit("nested-in-painter")
				c.o.Nontrivial = true
				held := append([]raster.Span(nil), ss...)
				for k := range p.N {
					c.do(&p.N[k])
				}
				if k := sameSpans(held, ss); k >= 0 {
					c.o.Fail("held", "the spans a painter of rasterizer %d was handed changed while it did other work: span %d is %s and was %s", i, k, spanText(ss, k), spanText(held, k))
				}
				scribble(ss, p.Arg(1)+1)
			}
		}))
	})
	if calls > 1 {
		c.o.Nontrivial = true
		c.o.Hit("several-batches")
	}
	switch {
	case cg.abort:
		if !c.passive {
			c.o.Injected("painter-panic")
		}
	case cg.any:
		c.o.Fail("panic", "rasterizer %d: %s", i, cg.text)
	case dones != 1:
		c.o.Fail("done", "rasterizer %d reports completion %d times", i, dones)
	}
	if c.passive && slot >= 0 && slot < len(c.ran) && c.ran[slot] {
		for k := range p.N {
			c.do(&p.N[k])
		}
	}
}

// c09between puts painters between a rasterizer and f.
func c09between(v int, f raster.PainterFunc) raster.Painter {
	switch mod(v, 5) {
	case 1:
		return raster.NewMonochromePainter(f)
	case 2: // may well make coverage zero
		return raster.NewGammaCorrectionPainter(f, 2.2)
	case 3:
		return raster.NewGammaCorrectionPainter(raster.NewMonochromePainter(f), 1.6)
	case 4:
		return raster.NewMonochromePainter(raster.NewGammaCorrectionPainter(f, 0.8))
	}
	return f
}

// scribble uses the spans as scratch space.
func scribble(ss []raster.Span, mode int) {
	switch mod(mode, 6) {
	case 1:
		for i := range ss {
			ss[i] = raster.Span{}
		}
	case 2:
		for i := range ss {
			ss[i] = raster.Span{Y: 3, X0: 0, X1: 90, Alpha: 0xffff}
		}
	case 3:
		for i := range ss {
			ss[i].Y, ss[i].X0 = -ss[i].Y-7, ss[i].X1+100
			ss[i].Alpha = 0xffff - ss[i].Alpha
		}
	case 4:
		for i, j := 0, len(ss)-1; i < j; i, j = i+1, j-1 {
			ss[i], ss[j] = ss[j], ss[i]
		}
	case 5:
		n := len(ss) / 2
		copy(ss, ss[n:])
	}
}

func runC09(s *core.Scenario, o *core.Outcome) {
	perform := func(passive bool, ran []bool) *c09caller {
		w := &World{}
		w.addShared(uint64(s.Par("shared")))
		c := &c09caller{Caller: NewCaller(w), o: o, passive: passive, ran: ran}
		o.Sim(nil, 0, func() {
			for i := range s.Tasks[0].Ops {
				c.do(&s.Tasks[0].Ops[i])
				if o.Violation != nil {
					return
				}
			}
		})
		return c
	}
	a := perform(false, nil)
	for i := range a.recs {
		d := newDigest()
		d.spans(a.recs[i])
		o.Observe(uint64(d))
	}
	if o.Violation != nil {
		return
	}
	core.ResetGlobals()
	b := perform(true, a.ran)
	if o.Violation != nil {
		return
	}
	// Rasterizations were begun in another order where they were nested, but
	// each keeps its place among those of its own nesting level.
	if len(a.recs) != len(b.recs) {
		o.Fail("spans", "%d rasterizations, %d with painters that only look", len(a.recs), len(b.recs))
		return
	}
	for k := range a.recs {
		if i := sameSpans(a.recs[k], b.recs[k]); i >= 0 {
			o.Fail("spans", "rasterization %d: span %d is %s; with a painter that only looks it is %s", k, i, spanText(a.recs[k], i), spanText(b.recs[k], i))
			return
		}
	}
}
