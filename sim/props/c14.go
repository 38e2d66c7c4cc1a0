package props

import (
	"github.com/golang/freetype/truetype"
	"github.com/golang/freetype/verifsim/core"
	"github.com/golang/freetype/verifsim/simrt"
)

// C14: work on damaged fonts is bounded.
//
// A font is damaged so that glyphs refer to themselves and each other, programs
// loop, recurse and skip, and counts and lengths are large. Every parse, query
// and load has a step budget, counted at every statement, and a bound on what it
// allocates; the stack is bounded too.

func init() {
	register(&core.Check{
		ID: "C14", Runs: [2]int{14000, 4000000}, Gen: genC14, Run: runC14, Level: "exploration",
		Rule: "a synthetic or real font with one to eight storage faults, mostly in glyph references, programs, counts and lengths, before parsing or between calls, and 1 to 20 loads and queries; non-trivial: a glyph with damage in force was loaded with more than 10000 steps, or refused",
		Real: realAll, Stub: []string{"font storage (bytes in memory, damaged on schedule)"},
		Assume: []string{"a call may take 500 million steps and allocate 32 MiB plus 64 bytes per byte of the font; the most expensive calls found on the unchanged tree take less than a quarter of either"},
	})
}

func genC14(r *core.Rng, s *core.Scenario) {
	var opt []int
	switch r.N(4) {
	case 0:
		opt = append(opt, core.OptHeavy)
	case 1:
		opt = append(opt, core.OptSmall)
	case 2:
		opt = append(opt, core.OptMany)
	}
	s.Fonts = []core.FontSpec{core.GenFont(r, 35, opt...)}
	in := specs(s)[0].Info
	fault := func() core.Fault {
		f := core.GenDamage(r, in)
		switch r.W(12, 8, 20, 8, 6, 4, 2) {
		case 0:
			f.Kind = "component"
		case 1:
			f.Kind = "component-web"
			f.A[1], f.A[2] = r.N(3), r.N(3)
			if r.P(20) {
				f.A[2] = r.N(60)
			}
		case 2:
			f.Kind = "program"
			if r.P(50) {
				f.A[0] = r.N(2)
			}
		case 3:
			f = core.GenDamageIn(r, in, "maxp", "glyf", "head", "prep", "fpgm", "hhea")
			f.A = f.A[:4]
		case 4:
			// Counts and lengths are at the start of a table.
			f = core.GenDamageIn(r, in, "hdmx", "hdmx", "cmap", "kern", "name", "vmtx", "loca", "hmtx", "OS/2")
			f.A = f.A[:4]
			if r.P(80) {
				f.Kind = core.Pick(r, "u16", "u32", "zeroed-sector", "byte")
				f.A[1] = r.N(20)
			}
		case 6:
			f.Kind = "program-web"
		}
		return f
	}
	k := 1 + r.Log(20)
	var ops []core.Op
	sc, hi := r.N(len(scaleTab)), r.W(1, 5, 2)
	for i := 0; i < k; i++ {
		if r.P(15) {
			sc = r.N(len(scaleTab))
		}
		if r.P(10) {
			hi = r.N(3)
		}
		switch r.W(10, 1, 1) {
		case 0:
			ops = append(ops, op("gload", r.N(2), 0, r.N(1000), sc, hi))
		case 1:
			ops = append(ops, op("parse", 0))
		default:
			ops = append(ops, (&gctx{fonts: specs(s)}).famOp(r, famQuery))
		}
	}
	s.Tasks = []core.Task{{Ops: ops}}
	for k := 1 + r.W(4, 3, 2, 1, 1, 1, 1, 1); k > 0; k-- {
		f := fault()
		if r.P(60) {
			s.Fonts[0].Damage = append(s.Fonts[0].Damage, f)
			continue
		}
		f.Op = r.N(len(ops))
		if r.P(30) {
			f.Dur = 1 + r.N(5)
		}
		s.Faults = append(s.Faults, f)
	}
}

const (
	workSteps = 500000000
	workBytes = 32 << 20
)

func runC14(s *core.Scenario, o *core.Outcome) {
	d := s.Fonts[0].Load()
	for i := range s.Fonts[0].Damage {
		o.Injected(s.Fonts[0].Damage[i].Kind)
	}
	w := &World{data: []*core.FontData{d}, fonts: make([]*truetype.Font, 1), errs: make([]error, 1)}
	bytes := workBytes + 64*uint64(len(d.Bytes))
	call := func(what string, fn func()) bool {
		before, from := allocated(), simrt.Used()
		simrt.Limit(workSteps)
		cg := try(fn)
		simrt.Limit(0)
		steps, used := simrt.Used()-from, allocated()-before
		if steps > 10000 {
			o.Nontrivial = true
		}
		switch {
		case cg.limit:
			o.Fail("steps", "%s takes more than %d steps", what, int64(workSteps))
		case cg.any:
			o.Hit("panic") // another check's business
		case used > bytes:
			o.Fail("memory", "%s allocates more than %d bytes, for a font of %d bytes", what, bytes, len(d.Bytes))
		}
		return o.Violation == nil && !cg.any
	}
	ops := s.Tasks[0].Ops
	o.Sim(nil, 0, func() {
		if !call("parsing", func() { w.fonts[0], w.errs[0] = truetype.Parse(d.Bytes) }) {
			return
		}
		if w.fonts[0] == nil {
			o.Hit("refused")
			return
		}
		c := NewCaller(w)
		hurt := damager(s, o, w, len(ops))
		for i := range ops {
			hurt(i, &ops[i])
			var ob Obs
			h := newDigest()
			if !call("operation "+itoa(i)+" ("+ops[i].K+")", func() { c.step(&ops[i], &h, &ob) }) {
				return
			}
			if ob.E != "" {
				o.Hit("error")
				o.Nontrivial = true
			}
			o.Observe(uint64(h), ob.E)
		}
	})
}
