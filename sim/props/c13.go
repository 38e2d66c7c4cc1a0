package props

import (
	"github.com/golang/freetype/verifsim/core"
	"github.com/golang/freetype/verifsim/simrt"
)

// C13: using a font whose stored bytes are damaged yields errors, not panics.
//
// Font 0 is damaged before it is parsed, or between calls, or both. The first
// caller uses it and undamaged fonts, the second only undamaged ones; their
// steps are interleaved. No call may panic. Whatever does not use font 0 is
// compared with the same calls in a world where font 0 was never damaged, each
// caller alone.

func init() {
	register(&core.Check{
		ID: "C13", Runs: [2]int{30000, 8000000}, Gen: genC13, Run: runC13, Level: "exploration",
		Rule: "a damaged font and one or two intact ones, one or two callers with 3 to 40 operations each (loads, queries, faces, contexts), up to six storage faults before parsing and up to six between calls, some repaired later; non-trivial: at least two calls used the damaged font and one another font",
		Real: realAll, Stub: []string{"font storage (bytes in memory, damaged on schedule)", "goroutine scheduler (seeded preemption at every statement of the library)"},
		Assume: []string{"calls that take more than 20 million steps are cut off and end their caller's run", "nothing is drawn at sizes at which the font's own bounds ask for masks of more than 16 million pixels"},
	})
}

func genC13(r *core.Rng, s *core.Scenario) {
	var opt []int
	if r.P(40) {
		opt = append(opt, core.OptHeavy)
	}
	if r.P(70) {
		opt = append(opt, core.OptSmall)
	}
	if r.P(30) {
		opt = append(opt, core.OptSafe)
	}
	n := 2 + r.N(2)
	for i := 0; i < n; i++ {
		o := opt
		if i > 0 {
			o = append([]int{core.OptHonestBox}, opt...)
		}
		s.Fonts = append(s.Fonts, core.GenFont(r, 10, o...))
	}
	fs := specs(s)
	in := fs[0].Info
	fault := func() core.Fault {
		f := core.GenDamage(r, in)
		switch r.N(10) {
		case 0:
			f.Kind = core.Pick(r, "component", "program", "edge-program", "edge-program", "glyph-header", "loca", "glyph-end", "glyph-end")
			if _, ok := in.Tables["hdmx"]; ok && r.P(30) {
				f.Kind = "hdmx"
			}
		case 1, 2, 3:
			f = core.GenDamageIn(r, in, "glyf", "glyf", "glyf", "loca", "hmtx", "hhea", "maxp", "head", "kern", "cmap", "prep", "fpgm", "cvt ", "name", "hdmx", "vmtx", "OS/2", "kern")
			f.A = f.A[:4]
			if r.P(15) {
				f.Kind = "table-length"
			}
		}
		return f
	}
	if r.P(70) {
		for k := 1 + r.W(5, 3, 2, 1, 1, 1); k > 0; k-- {
			s.Fonts[0].Damage = append(s.Fonts[0].Damage, fault())
		}
	}
	g := &gctx{fonts: fs, few: r.P(60)}
	g.fam = [nFam]int{8 * r.N(3), 5 * r.N(3), 8 * r.N(3), 6 * r.N(3), 1, 0, 0}
	g.fam[r.N(4)] += 10
	k := 3 + r.Log(38)
	for t := 0; t < 2; t++ {
		if t == 1 && r.P(50) {
			break
		}
		ops := g.ops(r, k)
		for i := range ops {
			a := ops[i].A
			switch ops[i].K {
			case "gload":
				if t == 0 && r.P(60) {
					a[1] = 0
				}
				if r.P(3) {
					a[2] = litRune + r.N(1<<16)
				}
				if r.P(5) {
					a[3] = litRune + r.Log(1<<21)
				}
			case "csize":
				if r.P(15) {
					a[1] = litRune + r.N(1<<uint(11+r.N(3)))
				}
			case "cdpi":
				if r.P(15) {
					a[1] = litRune + r.N(1<<uint(7+r.N(4)))
				}
			case "fnew":
				if len(a) > 2 && r.P(8) {
					a[2] = litRune + r.N(1<<uint(11+r.N(3)))
				}
				if len(a) > 3 && r.P(8) {
					a[3] = litRune + r.N(1<<uint(7+r.N(4)))
				}
				if t == 0 && r.P(50) {
					a[1] = 0
				}
			case "qmetric":
				if r.P(30) {
					a[1] = litRune + core.Pick(r, r.N(1<<16), 0xffff, 0x7fff, in.NGlyph, in.NGlyph+1)
				}
			case "qkern":
				if r.P(30) {
					a[1] = litRune + core.Pick(r, r.N(1<<16), 0xffff)
				}
				if r.P(30) {
					a[2] = litRune + core.Pick(r, r.N(1<<16), 0xffff)
				}
			case "qindex", "qrune", "qbounds", "qname", "parse":
				if t == 0 && r.P(60) {
					a[0] = 0
				}
			case "cfont":
				if t == 0 && r.P(50) {
					a[1] = 0
				}
			case "rrast":
				a[1] = nPnts // no image
			}
		}
		s.Tasks = append(s.Tasks, core.Task{Ops: ops})
	}
	if r.P(60) || len(s.Fonts[0].Damage) == 0 {
		for k := 1 + r.W(4, 3, 2, 1, 1, 1); k > 0; k-- {
			f := fault()
			f.Op = r.N(len(s.Tasks[0].Ops))
			if r.P(40) {
				f.Dur = 1 + r.Log(10)
			}
			s.Faults = append(s.Faults, f)
		}
	}
	if len(s.Tasks) > 1 {
		s.Sched = switches(r, 1+r.Log(40), 1<<uint(4+r.N(12)))
	}
	s.Set("shared", r.N(1<<20))
}

const hurtBudget = 20000000

func c13World(s *core.Scenario, damage bool) *World {
	t := *s
	if !damage {
		t.Fonts = append([]core.FontSpec(nil), s.Fonts...)
		t.Fonts[0].Damage = nil
	}
	w := NewWorld(&t)
	w.guard, w.apart = true, true
	return w
}

func runC13(s *core.Scenario, o *core.Outcome) {
	var w *World
	var cg caught
	o.Sim(nil, 0, func() {
		simrt.Limit(hurtBudget)
		cg = try(func() { w = c13World(s, true) })
		simrt.Limit(0)
	})
	if cg.any {
		// Parsing is another check's business.
		o.Hit("parse-panic")
		return
	}
	for i := range s.Fonts[0].Damage {
		o.Injected(s.Fonts[0].Damage[i].Kind)
	}
	refused := w.fonts[0] == nil
	if refused {
		o.Hit("refused")
	}
	w.steps = hurtBudget
	var cs []*Caller
	var fns []func()
	for t := range s.Tasks {
		c := NewCaller(w)
		ops := s.Tasks[t].Ops
		if t > 0 {
			c.only = []int{1}
			if len(w.fonts) > 2 {
				c.only = []int{1, 2}
			}
		} else if !refused {
			c.before = damager(s, o, w, len(ops))
		}
		cs = append(cs, c)
		fns = append(fns, func() { c.performUntilCut(ops) })
	}
	o.Sim(s.Sched, uint64(s.Par("shared")), fns...)
	used, other := 0, 0
	for t, c := range cs {
		for i := range c.obs {
			ob := &c.obs[i]
			o.Observe(uint64(ob.H), ob.E)
			if ob.Panic {
				o.Fail("panic", "caller %d, operation %d (font %d): %s", t, i, ob.Font, ob.text())
				return
			}
			if ob.Limit {
				o.Hit("cut-off")
			}
			if ob.Font == 0 {
				used++
				if ob.E != "" {
					o.Hit("error")
				}
			} else if ob.Font > 0 {
				other++
			}
		}
	}
	for t, c := range cs {
		core.ResetGlobals()
		w2 := c13World(s, false)
		if refused {
			w2.fonts[0] = nil
		}
		w2.steps = hurtBudget
		n := NewCaller(w2)
		n.only = c.only
		o.Sim(nil, 0, func() { n.performUntilCut(s.Tasks[t].Ops) })
		for i := range c.obs {
			if i >= len(n.obs) {
				break
			}
			a, b := &c.obs[i], &n.obs[i]
			if a.Font != 0 && !a.Limit && !b.Limit && !a.same(b) {
				o.Fail("spread", "caller %d, operation %d, which does not use the damaged font: got %s, without damage it gives %s", t, i, a.text(), b.text())
				return
			}
		}
	}
	o.Nontrivial = used >= 2 && other >= 1
}

// performUntilCut performs operations up to one that uses up its step budget:
// what that leaves of the objects it used is not looked at.
func (c *Caller) performUntilCut(ops []core.Op) {
	for i := range ops {
		if c.before != nil {
			c.before(i, &ops[i])
		}
		c.obs = append(c.obs, c.Do(&ops[i]))
		if c.obs[i].Limit {
			return
		}
	}
}

// damager returns a hook that damages and repairs stored bytes before
// operations.
func damager(s *core.Scenario, o *core.Outcome, w *World, n int) func(int, *core.Op) {
	undo := map[int][]func(){}
	return func(i int, _ *core.Op) {
		for _, u := range undo[i] {
			u()
		}
		for k := range s.Faults {
			f := &s.Faults[k]
			if mod(f.Op, n) != i {
				continue
			}
			d := w.data[mod(f.Font, len(w.data))]
			u := core.Damage(d.Bytes, d.Info, f)
			o.Injected(f.Kind)
			if f.Dur > 0 {
				undo[i+f.Dur] = append(undo[i+f.Dur], u)
				o.Injected("repair")
			}
		}
	}
}
