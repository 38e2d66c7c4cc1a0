package props

import (
	"github.com/golang/freetype/truetype"
	"github.com/golang/freetype/verifsim/core"
)

// C03: a reused glyph buffer behaves like a new one.
//
// One caller loads glyphs of several fonts, sizes and hinting settings into one
// buffer. Every load is compared with the same load into a new buffer, from a
// newly parsed font, in pristine package state. Between loads the caller may take
// or change the outline in the buffer. Some loads fail: glyphs built to
// fail, glyphs that do not exist, programs that fail or run out of their budget,
// and loads during which the stored bytes are damaged.

func init() {
	register(&core.Check{
		ID: "C03", Runs: [2]int{100000, 10000000}, Gen: genC03, Run: runC03, Level: "exploration",
		Rule: "one history of 2 to 30 loads of one to three fonts (synthetic fonts with hinting programs, or real fonts) into one buffer, some of which fail (bad glyphs, glyphs out of range, bytes damaged for the duration of one load); non-trivial: at least two loads succeeded and the buffer changed font, size or hinting between them or a load failed before a successful one",
		Real: realAll, Stub: []string{"font storage (bytes in memory, damaged on schedule)"},
		Assume: []string{"the content of a buffer after a failed load is not compared, only the error"},
	})
}

func genC03(r *core.Rng, s *core.Scenario) {
	n := 1 + r.N(3)
	var opt []int
	if r.P(40) {
		opt = append(opt, core.OptHeavy)
	}
	if r.P(30) {
		opt = append(opt, core.OptSafe)
	}
	if r.P(50) {
		opt = append(opt, core.OptSmall)
	}
	big := r.P(3)
	if big {
		opt = append(opt, core.OptBig)
	}
	for i := 0; i < n; i++ {
		s.Fonts = append(s.Fonts, core.GenFont(r, 12, opt...))
	}
	core.Siblings(r, s.Fonts)
	fs := specs(s)
	k := 2 + r.Log(28)
	few := r.P(60)
	var ops []core.Op
	sc, hi, fi := r.N(len(scaleTab)), 1, r.N(n)
	for i := 0; i < k; i++ {
		if r.P(25) {
			fi = r.N(n)
		}
		if r.P(20) {
			sc = r.N(len(scaleTab))
			if few {
				sc = r.N(3)
			}
		}
		if r.P(15) {
			hi = r.W(2, 5, 2)
		}
		g := r.N(1000)
		if in := fs[fi].Info; len(in.Bad) > 0 && r.P(10) {
			g = in.Bad[r.N(len(in.Bad))]
		} else if len(in.Big) > 0 && r.P(50) {
			g = in.Big[r.N(len(in.Big))]
		} else if r.P(4) {
			g = in.NGlyph
		}
		ops = append(ops, op("gload", 0, fi, g, sc, hi, r.W(8, 1)*(1+r.N(5))))
		if r.P(8) {
			// Damage of what is read for one glyph only, or such that the
			// preparation of a size surely fails: nothing can be remembered
			// of it. Other damage is the business of another check.
			f := core.GenDamageIn(r, fs[fi].Info, "glyf", "glyf", "loca", "hmtx")
			if r.P(40) {
				f = core.Fault{Kind: core.Pick(r, "prep-fail", "fpgm-fail")}
			}
			f.Op, f.Font = i, fi
			s.Faults = append(s.Faults, f)
		}
	}
	s.Tasks = []core.Task{{Ops: ops}}
}

// Damage is kept from loads that take long: every damaged load has this budget.
const damagedBudget = 30000000

// meddle does to a buffer what its caller may.
func meddle(b *truetype.GlyphBuf, k int) {
	b.AdvanceWidth, b.Bounds.Min.X, b.Bounds.Max.Y = 12345, -999, 77
	switch k {
	case 1: // keeps the outline for itself
		b.Points, b.Unhinted, b.InFontUnits, b.Ends = nil, nil, nil, nil
	case 2: // changes the outline, and what is left of larger ones
		for _, ps := range [][]truetype.Point{b.Points, b.Unhinted, b.InFontUnits} {
			ps = ps[:cap(ps)]
			for i := range ps {
				ps[i] = truetype.Point{X: fx(i * 77), Y: -5, Flags: 0xffff}
			}
		}
		for i := range b.Ends {
			b.Ends[i] = 1 << 30
		}
	case 3: // adds to it
		b.Points = append(b.Points, truetype.Point{X: 64, Y: 64, Flags: 1}, truetype.Point{})
		b.Ends = append(b.Ends, len(b.Points))
	case 4: // leaves no room for another
		b.Points = b.Points[:0:0]
		b.Ends = b.Ends[:len(b.Ends):len(b.Ends)]
		b.InFontUnits = nil
	default: // prefers the other
		b.Points, b.Unhinted = b.Unhinted, b.Points
	}
}

func runC03(s *core.Scenario, o *core.Outcome) {
	w := NewWorld(s)
	c := NewCaller(w)
	ops := s.Tasks[0].Ops
	faults := map[int]*core.Fault{}
	for i := range s.Faults {
		faults[s.Faults[i].Op] = &s.Faults[i]
	}
	hurt := make([]bool, len(ops))
	var undo func()
	c.before = func(i int, p *core.Op) {
		w.steps = 0
		if k := p.Arg(5); k > 0 {
			meddle(c.buf(0), k)
			o.Hit("outline-changed-by-caller")
		}
		if f := faults[i]; f != nil {
			d := w.data[mod(f.Font, len(w.data))]
			undo = core.Damage(d.Bytes, d.Info, f)
			hurt[i] = true
			w.steps = damagedBudget
		}
	}
	c.after = func(i int, _ *core.Op, ob *Obs) {
		if undo != nil {
			undo()
			undo = nil
			if ob.E != "" {
				o.Injected(faults[i].Kind + "-failed-load")
			} else {
				o.Injected(faults[i].Kind)
			}
		}
	}
	o.Sim(nil, 0, func() { c.Perform(ops) })
	good, changed, failed := 0, false, false
	for i := range ops {
		ob := &c.obs[i]
		o.Observe(uint64(ob.H), ob.E)
		if ob.Limit {
			o.Hit("damaged-load-cut-off")
			return
		}
		if hurt[i] {
			failed = failed || ob.E != ""
			continue
		}
		core.ResetGlobals()
		fi := mod(ops[i].Arg(1), len(s.Fonts))
		f, err := truetype.Parse(w.data[fi].Bytes)
		if err != nil {
			o.Fail("parse", "font %d: %v", fi, err)
			return
		}
		w2 := &World{data: w.data[fi : fi+1], fonts: []*truetype.Font{f}}
		n := NewCaller(w2)
		var want Obs
		p := ops[i]
		p.A = append([]int{0, 0}, p.A[2:]...)
		o.Sim(nil, 0, func() { want = n.Do(&p) })
		if want.E != "" {
			failed = true
			o.Hit("failing-glyph")
		} else {
			good++
			if i > 0 && (ops[i].Arg(1) != ops[i-1].Arg(1) || ops[i].Arg(3) != ops[i-1].Arg(3) || ops[i].Arg(4) != ops[i-1].Arg(4)) {
				changed = true
			}
		}
		if !ob.same(&want) {
			what := "outline"
			if ob.E != want.E {
				what = "error"
			}
			o.Fail(what, "load %d (font %d, glyph %d, scale %d, hinting %d): got %s, a new buffer gives %s", i, fi,
				w.glyph(fi, ops[i].Arg(2)), scaleTab[mod(ops[i].Arg(3), len(scaleTab))], hintOf(ops[i].Arg(4)), ob.text(), want.text())
			return
		}
	}
	o.Nontrivial = good >= 2 && (changed || failed)
}
