package props

import (
	"runtime"

	"github.com/golang/freetype/truetype"
	"github.com/golang/freetype/verifsim/core"
	"github.com/golang/freetype/verifsim/simrt"
	"golang.org/x/image/font"
)

// C17: the same calls give the same results.
//
// One caller's operations of all kinds are performed twice: in pristine package
// state and the plain environment; and in a process in which other objects, with
// the same fonts and others, have been at work and were dropped, memory is
// collected at seeded steps, maps are iterated in another order, pools hand out
// anything or nothing, and clock, randomness and the number of CPUs are others.

func init() {
	register(&core.Check{
		ID: "C17", Runs: [2]int{25000, 6000000}, Gen: genC17, Run: runC17, Level: "exploration",
		Rule: "one caller with 1 to 20 operations of all kinds on one to three fonts, performed in a plain environment and again, up to three times, after other work, in others; non-trivial: the second performance followed work of other objects or met a collection, and painted, loaded or answered without error at least once",
		Real: realAll, Stub: []string{"clock, math/rand, numbers of CPUs, order of maps, pools, where the library uses them", "goroutine scheduler, where the library starts goroutines"},
		Assume: []string{"memory is collected between statements of the library"},
	})
}

func genC17(r *core.Rng, s *core.Scenario) {
	n := 1 + r.W(3, 2, 1)
	parade := r.P(12)
	if parade {
		n = 2 + r.N(2)
	}
	var opt []int
	if r.P(50) {
		opt = append(opt, core.OptSmall)
	}
	if r.P(40) {
		opt = append(opt, core.OptHeavy)
	}
	for i := 0; i < n; i++ {
		s.Fonts = append(s.Fonts, core.GenFont(r, 15, opt...))
	}
	core.Siblings(r, s.Fonts)
	g := &gctx{fonts: specs(s), few: r.P(70), abort: r.P(30), nested: core.Pick(r, 0, 20, 50)}
	g.swarm(r, [nFam]int{8, 4, 8, 8, 6, 4, 4})
	s.Tasks = []core.Task{{Ops: g.ops(r, 1+r.N(20))}}
	var before []core.Op
	switch r.W(3, 4, 3) {
	case 1: // other work
		before = g.ops(r, 1+r.N(20))
	case 2: // similar work
		for _, o := range s.Tasks[0].Ops {
			if r.P(30) {
				o = g.op(r, 0)
			} else if len(o.A) > 0 && r.P(40) {
				// The same with an argument a little different.
				o.A = append([]int(nil), o.A...)
				o.A[r.N(len(o.A))] += core.Pick(r, -1, 1)
			}
			before = append(before, o)
		}
	}
	s.Tasks = append(s.Tasks, core.Task{Ops: before})
	s.Sched = switches(r, 1+r.Log(40), 1<<uint(4+r.N(13)))
	s.Set("shared", r.N(1<<20))
	s.Set("env", r.N(1<<20))
	s.Set("rounds", r.W(0, 6, 2, 1)) // of the work before
	s.Set("rotate", r.N(3))
	s.Set("last", r.N(2)) // whether the last round's fonts are rotated, too
	s.Set("again", r.W(5, 2, 1))
	if len(s.Tasks[0].Ops)+len(before) < 8 && r.P(30) {
		s.Set("again", 3+r.N(6))
	}
	if parade {
		s.Set("parade", 8+r.N(72))
		s.Set("ask", r.N(1<<20))
	}
	if r.P(25) {
		s.Set("collect", 1+r.Log(20000))
		s.Set("collections", 1+r.N(3))
	}
}

// otherEnv is the environment of a seed.
func otherEnv(seed int) simrt.Env {
	r := core.NewRng(uint64(seed) + 17)
	e := simrt.Env{
		Clock: int64(core.Pick(r, 0, 1, 1000000000, 1700000000, 1<<32, 4000000000)) * 1e9,
		Tick:  int64(core.Pick(r, 0, 1, 1000, 1e6, 1e9, 3600e9)),
		Rand:  r.U64(),
		CPUs:  core.Pick(r, 1, 2, 3, 8, 64),
		Pool:  r.N(3),
	}
	if r.P(60) {
		e.Every = 1 + r.N(6)
		e.Jump = int64(core.Pick(r, -3600e9, -1e9, 1e6, 1e9, 60e9, 3600e9, 86400e9))
	}
	return e
}

func runC17(s *core.Scenario, o *core.Outcome) {
	perform := func(seed int, plain bool) *Caller {
		w := NewWorld(s)
		c := NewCaller(w)
		sched := s.Sched
		if plain {
			sched = nil
		}
		o.Sim(sched, uint64(seed), func() {
			if n := s.Par("collect"); n > 0 && !plain {
				for k := 1; k <= s.Par("collections"); k++ {
					simrt.After(int64(k*n), func() {
						runtime.GC()
						o.Injected("collection")
					})
				}
			}
			c.Perform(s.Tasks[0].Ops)
			simrt.CancelEvents()
		})
		return c
	}
	want := perform(1, true)
	countAborts(o, []*Caller{want})
	good := false
	for i := range want.obs {
		good = good || want.obs[i].E == ""
	}
	var ballast [][]byte
	for k := 0; k <= s.Par("again"); k++ {
		seed := s.Par("env") + k
		simrt.SetEnv(otherEnv(seed))
		o.Injected("environment")
		worked := false
		if len(s.Tasks) > 1 && len(s.Tasks[1].Ops) > 0 {
			for j := s.Par("rounds"); j > 0; j-- {
				t := *s
				t.Fonts = nil
				for i := range s.Fonts {
					t.Fonts = append(t.Fonts, s.Fonts[(i+s.Par("rotate")+k)%len(s.Fonts)])
				}
				if j == 1 && s.Par("last") == 0 {
					t.Fonts = s.Fonts
				}
				c := NewCaller(NewWorld(&t))
				o.Sim(s.Sched, uint64(seed), func() { c.Perform(s.Tasks[1].Ops) })
				ballast = append(ballast, make([]byte, 1+seed*j%5000))
				worked = true
			}
			o.Injected("other-work")
			if s.Par("collect") > 0 {
				// What they used is free, and may be used again.
				runtime.GC()
				o.Injected("collection")
			}
		}
		got := perform(seed, false)
		for i := range got.obs {
			if !got.obs[i].same(&want.obs[i]) {
				o.Fail("differs", "operation %d: got %s, in a plain environment %s", i, got.obs[i].text(), want.obs[i].text())
				break
			}
		}
		if good && (worked || s.Par("collect") > 0) {
			o.Nontrivial = true
		}
		u := simrt.EnvUse()
		for i, n := range []string{"clock-read", "random-number", "number-of-CPUs", "pool"} {
			if u[i] > 0 {
				o.Hit(n)
			}
		}
	}
	runtime.KeepAlive(ballast)
	if o.Violation == nil && s.Par("parade") > 0 {
		c17parade(s, o)
	}
}

// c17parade has fonts come and go: each is parsed, asked and dropped, and their
// memory is used again.
func c17parade(s *core.Scenario, o *core.Outcome) {
	w := &World{}
	var want []digest
	for i := range s.Fonts {
		w.data = append(w.data, s.Fonts[i].Load())
		w.fonts = append(w.fonts, nil)
	}
	var mem []byte // files are read into the same memory one after another
	visit := func(i int) (d digest) {
		file := w.data[i].Bytes
		if s.Par("ask")&1 == 1 {
			mem = append(mem[:0], file...)
			file = mem
		}
		w.fonts[i], _ = truetype.Parse(file)
		if w.fonts[i] == nil {
			return newDigest()
		}
		d = w.answers(i)
		ask := core.NewRng(uint64(s.Par("ask")))
		var b truetype.GlyphBuf
		for k := 0; k < 2; k++ {
			x := w.glyph(i, ask.N(1<<20))
			h := core.Pick(ask, font.HintingNone, font.HintingFull)
			if err := b.Load(w.fonts[i], 640, x, h); err != nil {
				d.str(err.Error())
			}
			for _, p := range b.Points {
				d.fix(p.X, p.Y)
				d.n(int(p.Flags))
			}
			d.fix(b.AdvanceWidth)
		}
		if rs := w.data[i].Info.Runes; len(rs) > 0 {
			f := truetype.NewFace(w.fonts[i], &truetype.Options{Size: 10})
			a, ok := f.GlyphAdvance(rs[ask.N(len(rs))])
			bb, adv, ok2 := f.GlyphBounds(rs[ask.N(len(rs))])
			d.fix(a, adv)
			d.n(b2i(ok), b2i(ok2))
			d.fix(bb.Min.X, bb.Min.Y, bb.Max.X, bb.Max.Y)
		}
		w.fonts[i] = nil
		return d
	}
	for i := range s.Fonts {
		core.ResetGlobals()
		simrt.SetEnv(simrt.Plain)
		o.Sim(nil, 0, func() { want = append(want, visit(i)) })
	}
	simrt.SetEnv(otherEnv(s.Par("env")))
	for k := 0; k < s.Par("parade"); k++ {
		if k%16 == 0 {
			runtime.GC()
			o.Injected("collection")
		}
		i := k % len(s.Fonts)
		var got digest
		o.Sim(nil, 0, func() { got = visit(i) })
		if got != want[i] {
			o.Fail("parade", "font %d, parsed and asked after %d visits of fonts since dropped, answers other than alone", i, k)
			return
		}
	}
	o.Hit("parade")
	o.Nontrivial = true
}
