package props

import (
	"github.com/golang/freetype/raster"
	"github.com/golang/freetype/verifsim/core"
	"golang.org/x/image/math/fixed"
)

// C15: curves arrive unchanged however they are delivered.
//
// One caller delivers recorded paths to rasterizers call by call, as a whole and
// in pieces with other work in between, and strokes them into rasterizers, paths
// and a receiver of its own. Cappers, joiners and receivers do other work,
// including other strokes, or panic. Every delivery is compared with the plainest
// one, by new objects; every input with what it was.

func init() {
	register(&core.Check{
		ID: "C15", Runs: [2]int{50000, 10000000}, Gen: genC15, Run: runC15, Level: "exploration",
		Rule: "one history of 2 to 25 deliveries and strokes of generated paths of 1 to 8 curves, with work nested in callbacks up to 15 deep and callbacks that panic; non-trivial: a delivery in at least two pieces or a stroke completed with curves emitted after other work was nested in or a stroke abandoned",
		Real: realAll, Stub: []string{"receiver of curves (records them, calls back, may panic)", "cappers and joiners wrapped to call back or panic"},
		Assume: []string{"paths to be stroked have no cubic segments, which the library does not implement"},
	})
}

func genC15(r *core.Rng, s *core.Scenario) {
	g := &gctx{few: r.P(50)}
	g.fam[famRast] = 3
	g.fam[famPath] = 3
	var item func(depth int) core.Op
	deep := 2
	if r.P(15) {
		deep = 3 + r.N(12)
	}
	nest := func(o *core.Op, depth, pct int) {
		n := 1 + r.N(3)
		if deep > 2 {
			n, pct = r.W(0, 6, 1), 90
			if depth > 3 {
				n = 1
			}
		}
		if depth < deep && r.P(pct) {
			for i := n; i > 0; i-- {
				if r.P(60) {
					o.N = append(o.N, item(depth+1))
				} else {
					o.N = append(o.N, g.op(r, 1))
				}
			}
		}
	}
	item = func(depth int) core.Op {
		if r.P(40) {
			// path, rasterizer, way, wind, to a path instead, pieces
			o := op("deliver", r.N(6), r.N(nRasts), r.W(1, 2, 4, 2), r.N(2), r.W(3, 1))
			for i := 1 + r.N(4); i > 0; i-- {
				o.P = append(o.P, r.N(20))
			}
			nest(&o, depth, 40)
			return o
		}
		// path, receiver, width, cap, join, abort at, nested at, callback mask
		o := op("stroke", r.N(6), r.N(6), drawWidth(r, 1500), r.N(4), r.N(3), 0, r.N(12), 1+r.N(7))
		if r.P(15) {
			o.A[5] = 1 + r.Log(40)
		}
		// Cappers and joiners that stroke something into what they are given.
		o.A = append(o.A, r.W(8, 1, 1, 1))
		nest(&o, depth, 45)
		return o
	}
	var ops []core.Op
	for i := 2 + r.Log(23); i > 0; i-- {
		if r.P(15) {
			ops = append(ops, g.op(r, 0))
			continue
		}
		ops = append(ops, item(0))
	}
	s.Set("shared", r.N(1<<20))
	s.Tasks = []core.Task{{Ops: ops}}
}

// c15paths makes six paths; the last two have cubic segments.
func c15paths(seed uint64) (ps []raster.Path) {
	r := core.NewRng(seed + 99)
	for i := 0; i < 6; i++ {
		size := core.Pick(r, 40*64, 40*64, 90*64, 300)
		p := genPath(r, 1+r.Log(8), size, i < 4)
		if i < 4 && r.P(25) {
			// Degenerate: points repeated.
			q := fp(r.N(2000), r.N(2000))
			p.Add1(q)
			p.Add1(q)
			p.Add2(q, q)
		}
		if r.P(50) {
			// Room to spare, filled with something else.
			n := append(raster.Path(nil), p...)
			p = append(n, 7, 7, 7, 7, 7, 7, 7, 7)[:len(p)]
		}
		ps = append(ps, p)
	}
	return
}

// segments returns the offsets of p's segments.
func segments(p raster.Path) (at []int) {
	for i := 0; i < len(p); {
		at = append(at, i)
		if p[i] == 0 {
			i += 4
		} else {
			i += 2 + 2*int(p[i])
		}
	}
	return
}

// contours returns the contours of p, closed: what an open one covers is not
// defined, and depends on whether cells that cancel out are there.
func contours(p raster.Path) (cs []raster.Path) {
	from := 0
	for _, i := range append(segments(p), len(p)) {
		if i > from && (i == len(p) || p[i] == 0) {
			c := append(raster.Path(nil), p[from:i]...)
			c.Add1(fixed.Point26_6{X: p[from+1], Y: p[from+2]})
			cs = append(cs, c)
			from = i
		}
	}
	return
}

// replayPath delivers p call by call.
func replayPath(a raster.Adder, p raster.Path) {
	for i := 0; i < len(p); {
		q := func(k int) fixed.Point26_6 { return fixed.Point26_6{X: p[i+1+2*k], Y: p[i+2+2*k]} }
		switch p[i] {
		case 0:
			a.Start(q(0))
			i += 4
		case 1:
			a.Add1(q(0))
			i += 4
		case 2:
			a.Add2(q(0), q(1))
			i += 6
		default:
			a.Add3(q(0), q(1), q(2))
			i += 8
		}
	}
}

// recv is a caller's own receiver of curves.
type recv struct {
	p    raster.Path
	hook func()
}

func (v *recv) Start(a fixed.Point26_6)      { v.hook(); v.p.Start(a) }
func (v *recv) Add1(b fixed.Point26_6)       { v.hook(); v.p.Add1(b) }
func (v *recv) Add2(b, c fixed.Point26_6)    { v.hook(); v.p.Add2(b, c) }
func (v *recv) Add3(b, c, d fixed.Point26_6) { v.hook(); v.p.Add3(b, c, d) }

func samePath(a, b raster.Path) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// tick is what ornamented cappers and joiners stroke.
func tick(at fixed.Point26_6, hw fixed.Int26_6) (p raster.Path) {
	p.Start(at)
	p.Add1(fixed.Point26_6{X: at.X + hw, Y: at.Y + hw/2 + 40})
	p.Add2(fixed.Point26_6{X: at.X + 90, Y: at.Y}, fixed.Point26_6{X: at.X, Y: at.Y + hw})
	p.Start(fixed.Point26_6{X: at.X + 64, Y: at.Y})
	p.Add1(fixed.Point26_6{X: at.X - 64, Y: at.Y + 20})
	return
}

// ornament makes cappers and joiners stroke ticks of their own into the receiver
// of the stroke they are called for.
func ornament(mode int, cp raster.Capper, jn raster.Joiner) (raster.Capper, raster.Joiner) {
	into := func(a raster.Adder, at fixed.Point26_6, hw fixed.Int26_6) {
		q := tick(at, hw)
		switch x := a.(type) {
		case *raster.Rasterizer:
			x.AddStroke(q, 50, raster.ButtCapper, raster.BevelJoiner)
		case *raster.Path:
			x.AddStroke(q, 50, raster.ButtCapper, raster.BevelJoiner)
		default:
			raster.Stroke(a, q, 50, raster.ButtCapper, raster.BevelJoiner)
		}
	}
	c2, j2 := cp, jn
	if mode&1 != 0 {
		if cp == nil {
			cp = raster.RoundCapper
		}
		c2 = raster.CapperFunc(func(p raster.Adder, hw fixed.Int26_6, pivot, n1 fixed.Point26_6) {
			into(p, pivot, hw)
			cp.Cap(p, hw, pivot, n1)
		})
	}
	if mode&2 != 0 {
		if jn == nil {
			jn = raster.RoundJoiner
		}
		j2 = raster.JoinerFunc(func(l, r raster.Adder, hw fixed.Int26_6, pivot, n0, n1 fixed.Point26_6) {
			jn.Join(l, r, hw, pivot, n0, n1)
			into(l, pivot, hw)
		})
	}
	return c2, j2
}

// lastly is where a path a curve was delivered to is continued.
var lastly = fp(1234, -567)

type c15run struct {
	*Caller
	o     *core.Outcome
	paths []raster.Path
	hist  []c15rec
	depth int
	was   bool // other work was nested, or a stroke abandoned
	rbusy [nRasts + 1]bool
}

type c15rec struct {
	op    *core.Op
	spans []raster.Span
	path  raster.Path
	abort bool
	text  string
}

func (c *c15run) nest(ops []core.Op) {
	for i := range ops {
		c.do(&ops[i])
	}
}

func (c *c15run) rasterizer(v int) (*raster.Rasterizer, int) {
	i := mod(v, nRasts)
	if c.rbusy[i] || c.busy.rast[i] {
		return nil, i
	}
	r := c.rast(i).r
	r.SetBounds(imgW+12, imgH+12)
	r.Dx, r.Dy = 0, 0
	c.rbusy[i] = true
	return r, i
}

func (c *c15run) do(p *core.Op) {
	if c.depth > 16 {
		return
	}
	c.depth++
	defer func() { c.depth-- }()
	switch p.K {
	case "deliver":
		var to interface {
			raster.Adder
			AddPath(raster.Path)
		}
		var r *raster.Rasterizer
		ri := nRasts
		var dst raster.Path
		if p.Arg(4)&1 != 0 {
			to = &dst
		} else {
			if r, ri = c.rasterizer(p.Arg(1)); r == nil {
				return
			}
			to = r
		}
		h := len(c.hist)
		c.hist = append(c.hist, c15rec{op: p})
		q := c.paths[mod(p.Arg(0), len(c.paths))]
		cg := try(func() {
			way := mod(p.Arg(2), 4)
			if way == 3 && r == nil {
				way = 1
			}
			switch way {
			case 0:
				replayPath(to, q)
			case 3:
				// The contours in another order.
				cs := contours(q)
				for k, v := range append(p.P, p.P...) {
					i, j := k%len(cs), mod(v, len(cs))
					cs[i], cs[j] = cs[j], cs[i]
				}
				for k, j := range cs {
					to.AddPath(j)
					if k == 0 && len(cs) > 1 {
						c.nest(p.N)
						c.o.Hit("delivered-in-other-order")
						c.o.Nontrivial = true
					}
				}
			case 1:
				to.AddPath(q)
			default:
				at := segments(q)
				from := 0
				for k, v := range p.P {
					j := at[mod(v, len(at))]
					if j <= from {
						continue
					}
					to.AddPath(q[from:j])
					from = j
					if k == 0 && len(p.N) > 0 {
						c.nest(p.N)
						c.was = true
					}
				}
				if from > 0 {
					c.o.Hit("delivered-in-pieces")
					c.o.Nontrivial = true
				}
				to.AddPath(q[from:])
			}
			if r == nil {
				to.Add1(lastly)
				c.hist[h].path = dst
				return
			}
			r.UseNonZeroWinding = p.Arg(3)&1 != 0
			rec := &spanRec{}
			r.Rasterize(rec)
			c.hist[h].spans = rec.ss
		})
		if ri < nRasts {
			c.rbusy[ri] = false
		}
		c.hist[h].text = cg.text
	case "stroke":
		kind := mod(p.Arg(1), 6)
		q := c.paths[mod(p.Arg(0), 4)]
		var r *raster.Rasterizer
		ri := nRasts
		var dst raster.Path
		if kind < 2 {
			if r, ri = c.rasterizer(kind); r == nil {
				return
			}
		}
		h := len(c.hist)
		c.hist = append(c.hist, c15rec{op: p})
		n, done := 0, false
		hook := func() {
			n++
			if p.Arg(5) != 0 && n == p.Arg(5) {
				panic(Abort{n})
			}
			if n == 1+mod(p.Arg(6), 12) && !done && len(p.N) > 0 {
				done = true
				c.was = true
				c.o.Hit("nested-in-callback")
				c.nest(p.N)
			}
		}
		mask := p.Arg(7)
		var ch, jh func()
		if mask&1 != 0 {
			ch = hook
		}
		if mask&2 != 0 {
			jh = hook
		}
		cp, jn := ornament(p.Arg(8), c.capper(p.Arg(3), ch), c.joiner(p.Arg(4), jh))
		cg := try(func() {
			switch kind {
			case 0, 1:
				r.AddStroke(q, width(p.Arg(2)), cp, jn)
				r.UseNonZeroWinding = true
				rec := &spanRec{}
				r.Rasterize(rec)
				c.hist[h].spans = rec.ss
			case 2:
				dst.AddStroke(q, width(p.Arg(2)), cp, jn)
			case 3: // into the path itself
				own := append(raster.Path(nil), q...)
				own.AddStroke(own, width(p.Arg(2)), cp, jn)
				if len(own) < len(q) || !samePath(own[:len(q)], q) {
					c.o.Fail("input", "a path stroked into itself lost its own curves")
				}
				dst = own[min(len(q), len(own)):]
			default:
				v := &recv{hook: func() {}}
				if mask&4 != 0 {
					v.hook = hook
				}
				raster.Stroke(v, q, width(p.Arg(2)), cp, jn)
				dst = v.p
			}
		})
		if ri < nRasts {
			c.rbusy[ri] = false
		}
		c.hist[h].path = dst
		c.hist[h].abort = cg.abort
		c.hist[h].text = cg.text
		if cg.abort {
			c.o.Injected("stroke-callback-panic")
			c.was = true
		} else if c.was && (len(dst) > 0 || len(c.hist[h].spans) > 0) {
			c.o.Nontrivial = true
		}
	default:
		was := c.busy
		for i := range c.busy.rast {
			c.busy.rast[i] = c.busy.rast[i] || c.rbusy[i]
		}
		if ob := c.Do(p); ob.Panic {
			c.o.Fail("panic", "%s: %s", p.K, ob.E)
		}
		c.busy = was
	}
}

func runC15(s *core.Scenario, o *core.Outcome) {
	seed := uint64(s.Par("shared"))
	w := &World{}
	w.addShared(seed)
	c := &c15run{Caller: NewCaller(w), o: o, paths: c15paths(seed)}
	o.Sim(nil, 0, func() {
		for i := range s.Tasks[0].Ops {
			c.do(&s.Tasks[0].Ops[i])
		}
	})
	for i, p := range c15paths(seed) {
		q := c.paths[i]
		if !samePath(p, q) {
			o.Fail("input", "recorded path %d was %v and became %v", i, p, q)
		} else if n := min(cap(p), cap(q)); !samePath(p[:n], q[:n]) {
			o.Fail("input", "the room after recorded path %d was written to: %v", i, []fixed.Int26_6(q[len(q):n]))
		}
	}
	if o.Violation != nil {
		return
	}
	for _, h := range c.hist {
		d := newDigest()
		d.spans(h.spans)
		d.path(h.path)
		o.Observe(uint64(d), h.text)
	}
	pristine := c15paths(seed)
	for k, h := range c.hist {
		if h.abort {
			continue
		}
		if h.text != "" {
			o.Fail("panic", "delivery %d (%s): %s", k, h.op.K, h.text)
			return
		}
		p := h.op
		core.ResetGlobals()
		var want []raster.Span
		var wantPath raster.Path
		o.Sim(nil, 0, func() {
			r := raster.NewRasterizer(imgW+12, imgH+12)
			rec := &spanRec{}
			if p.K == "deliver" {
				q := pristine[mod(p.Arg(0), len(pristine))]
				if mod(p.Arg(2), 4) != 3 {
					replayPath(r, q)
				} else {
					for _, k := range contours(q) {
						replayPath(r, k)
					}
				}
				r.UseNonZeroWinding = p.Arg(3)&1 != 0
			} else {
				// Curve by curve, into a receiver.
				q := pristine[mod(p.Arg(0), 4)]
				at := append(segments(q), len(q))
				from := 0
				for _, j := range at[1:] {
					if j < len(q) && q[j] != 0 {
						continue
					}
					v := &recv{hook: func() {}}
					cp, jn := ornament(p.Arg(8), c.capper(p.Arg(3), func() {}), c.joiner(p.Arg(4), func() {}))
					raster.Stroke(v, append(raster.Path(nil), q[from:j]...), width(p.Arg(2)), cp, jn)
					wantPath = append(wantPath, v.p...)
					from = j
				}
				replayPath(r, wantPath)
				r.UseNonZeroWinding = true
			}
			r.Rasterize(rec)
			want = rec.ss
		})
		if p.K == "deliver" && p.Arg(4)&1 != 0 {
			wantPath = append(append(wantPath, pristine[mod(p.Arg(0), len(pristine))]...), 1, lastly.X, lastly.Y, 1)
			if !samePath(h.path, wantPath) {
				o.Fail("curves", "delivery %d: path given %v way %d is %v", k, wantPath, mod(p.Arg(2), 4), h.path)
				return
			}
			continue
		}
		if p.K == "stroke" && mod(p.Arg(1), 6) >= 2 {
			if !samePath(h.path, wantPath) {
				o.Fail("curves", "delivery %d: stroke into receiver kind %d emits %v, curve by curve %v", k, mod(p.Arg(1), 6), h.path, wantPath)
				return
			}
			continue
		}
		if i := sameSpans(normal(h.spans), normal(want)); i >= 0 {
			o.Fail("spans", "delivery %d (%s way %d): span %d is %s, delivered call by call to a new rasterizer %s", k, p.K, p.Arg(2), i, spanText(normal(h.spans), i), spanText(normal(want), i))
			return
		}
	}
}
