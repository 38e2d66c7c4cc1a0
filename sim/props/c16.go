package props

import (
	"github.com/golang/freetype/verifsim/core"
)

// C16: results stay intact until their documented end of life.
//
// One to three callers do all kinds of work. After every operation, also those
// performed from within callbacks, each re-reads everything it holds: glyph
// masks, outlines in buffers, recorded paths, and a set of answers of its fonts.

func init() {
	register(&core.Check{
		ID: "C16", Runs: [2]int{60000, 8000000}, Gen: genC16, Run: runC16, Level: "exploration",
		Rule: "one to three callers with 3 to 30 operations of all kinds each, on one or two shared fonts, interleaved by seeded preemptions, some operations failing or abandoned by panics of caller code; non-trivial: at least two results were re-read after work on other objects",
		Real: realAll, Stub: []string{"goroutine scheduler (seeded preemption at every statement of the library)"},
	})
}

func genC16(r *core.Rng, s *core.Scenario) {
	n := 1 + r.W(3, 1)
	var opt []int
	if r.P(50) {
		opt = append(opt, core.OptSmall)
	}
	if r.P(40) {
		opt = append(opt, core.OptHeavy)
	}
	for i := 0; i < n; i++ {
		s.Fonts = append(s.Fonts, core.GenFont(r, 15, opt...))
	}
	core.Siblings(r, s.Fonts)
	tasks := 1 + r.W(4, 3, 1)
	g := &gctx{fonts: specs(s), few: r.P(50), abort: r.P(30), nested: core.Pick(r, 0, 20, 50)}
	g.swarm(r, [nFam]int{8, 2, 12, 5, 4, 8, 1})
	for t := 0; t < tasks; t++ {
		s.Tasks = append(s.Tasks, core.Task{Ops: g.ops(r, 3+r.N(28))})
	}
	if tasks > 1 {
		s.Sched = switches(r, 1+r.Log(60), 1<<uint(4+r.N(13)))
	}
	s.Set("shared", r.N(1<<20))
}

// answers asks a font a set of questions.
func (w *World) answers(i int) digest {
	d := newDigest()
	f := w.fonts[i]
	if f == nil {
		return d
	}
	in := w.data[i].Info
	for k := 0; k < len(in.Runes); k += 1 + len(in.Runes)/12 {
		d.n(int(f.Index(in.Runes[k])))
	}
	for g := 0; g < in.NGlyph; g += 1 + in.NGlyph/5 {
		x := w.glyph(i, g)
		h, v := f.HMetric(640, x), f.VMetric(640, x)
		d.fix(h.AdvanceWidth, h.LeftSideBearing, v.AdvanceHeight, v.TopSideBearing, f.Kern(640, x, w.glyph(i, g+1)))
	}
	d.frect(f.Bounds(640))
	d.n(int(f.FUnitsPerEm()))
	d.str(f.Name(1))
	return d
}

func runC16(s *core.Scenario, o *core.Outcome) {
	w := NewWorld(s)
	var first []digest
	o.Sim(nil, 0, func() {
		for i := range w.fonts {
			first = append(first, w.answers(i))
		}
	})
	type broken struct {
		what string
		op   string
		n    int
	}
	var cs []*Caller
	bad := make([]broken, len(s.Tasks))
	reads := make([]int, len(s.Tasks))
	var fns []func()
	for t := range s.Tasks {
		c := NewCaller(w)
		c.keep = true
		n := 0
		c.verify = func(p *core.Op) {
			n++
			if bad[t].what != "" {
				return
			}
			if x := c.intact(); x != "" {
				bad[t] = broken{x, p.K, n}
			}
			for i := range c.bufOK {
				if c.bufOK[i] {
					reads[t]++
				}
			}
			for i := range c.faces {
				if c.faces[i] != nil && c.faces[i].has {
					reads[t]++
				}
			}
			if n%4 == 0 {
				for i := range w.fonts {
					if w.answers(i) != first[i] {
						bad[t] = broken{"an answer of font " + itoa(i), p.K, n}
					}
				}
			}
		}
		cs = append(cs, c)
		ops := s.Tasks[t].Ops
		fns = append(fns, func() { c.Perform(ops) })
	}
	o.Sim(s.Sched, uint64(s.Par("shared")), fns...)
	countAborts(o, cs)
	total := 0
	for t := range bad {
		if bad[t].what != "" {
			o.Fail("changed", "caller %d: %s changed by the %d-th operation, %s", t, bad[t].what, bad[t].n, bad[t].op)
		}
		total += reads[t]
	}
	o.Sim(nil, 0, func() {
		for i := range w.fonts {
			if w.answers(i) != first[i] {
				o.Fail("answers", "font %d answers differently at the end", i)
			}
		}
	})
	o.Nontrivial = total >= 4
}
