package props

import (
	"runtime"
	"time"

	"github.com/golang/freetype/truetype"
	"github.com/golang/freetype/verifsim/core"
	"github.com/golang/freetype/verifsim/simrt"
	"github.com/golang/freetype/verifsim/simsync"
)

// C19: nothing leaks and nothing wears out.
//
// One caller does the same work over and over: with the same objects, with the
// same objects at ever new sizes, or with fonts read again each time, used with the
// same objects or new ones. Some of it fails, is abandoned, or meets bad storage. The memory in use
// after a collection, and the steps that a round takes, must not keep growing.

func init() {
	register(&core.Check{
		ID: "C19", Runs: [2]int{9000, 1000000}, Gen: genC19, Run: runC19, Level: "exploration",
		Rule: "one caller with 1 to 12 operations of all kinds on one or two fonts, done 30 to 400 times over with the same objects, at sizes that are different each time, with new fonts each time, or with everything made anew; callbacks panic, glyphs fail, and stored bytes are bad during some operations of each round; non-trivial: at least one operation succeeded",
		Real: realAll, Stub: []string{"font storage (bytes in memory, damaged on schedule)"},
		Assume: []string{"memory in use is what the Go runtime says is allocated after collections; a leak of less than about 10 bytes a round is not seen"},
	})
}

func genC19(r *core.Rng, s *core.Scenario) {
	n := 1 + r.N(2)
	for i := 0; i < n; i++ {
		s.Fonts = append(s.Fonts, core.GenFont(r, 15, core.OptSmall))
	}
	g := &gctx{fonts: specs(s), few: r.P(50), abort: r.P(50), bad: r.P(30), nested: core.Pick(r, 0, 20)}
	g.swarm(r, [nFam]int{8, 6, 8, 8, 8, 6, 6})
	ops := g.ops(r, 1+r.Log(12))
	for i := range ops {
		if r.P(10) {
			f := core.GenDamage(r, g.fonts[r.N(n)].Info)
			f.Font = r.N(n)
			if r.P(30) {
				f.Kind = core.Pick(r, "prep-fail", "fpgm-fail")
			}
			f.Op = i
			s.Faults = append(s.Faults, f)
		}
	}
	if r.P(25) {
		f := core.GenDamage(r, g.fonts[0].Info)
		f.Op = -1 // while a font is parsed that is then not used
		s.Faults = append(s.Faults, f)
	}
	s.Set("mode", r.N(4))
	s.Set("shared", r.N(1<<20))
	s.Tasks = []core.Task{{Ops: ops}}
}

const (
	// More than this is looked at more closely.
	leakBytes = 1 << 10
	// As often, then, four times the rounds must each time make it grow further.
	leakStages = 4
	// But not for longer than this many steps.
	leakSteps = 1.5e9
	// And this is too much for a cache.
	leakMost = 300 << 20
)

func runC19(s *core.Scenario, o *core.Outcome) {
	simsync.Track = true
	defer func() {
		simsync.Collect()
		simsync.Track = false
	}()
	mode := s.Par("mode")
	faults := map[int][]*core.Fault{}
	for i := range s.Faults {
		faults[s.Faults[i].Op] = append(faults[s.Faults[i].Op], &s.Faults[i])
	}
	first := NewWorld(s)
	c := NewCaller(first)
	first.drifts = mode == 1
	ops := s.Tasks[0].Ops
	work := func(c *Caller, count bool) {
		w := c.w
		for i := range c.rasts {
			if c.rasts[i] != nil {
				c.rasts[i].r.Clear()
			}
		}
		for i := range c.paths {
			if c.paths[i] != nil {
				c.paths[i].p.Clear()
			}
		}
		for i := range ops {
			var undo []func()
			for _, f := range faults[i] {
				d := w.data[mod(f.Font, len(w.data))]
				undo = append(undo, core.Damage(d.Bytes, d.Info, f))
				if count {
					o.Injected(f.Kind)
				}
			}
			ob := c.Do(&ops[i])
			for j := len(undo) - 1; j >= 0; j-- {
				undo[j]()
			}
			if count {
				if ob.Abort {
					o.Injected("callback-panic")
				} else if ob.E != "" {
					o.Hit("failing-operation")
				} else {
					o.Nontrivial = true
				}
				o.Observe(uint64(ob.H), ob.E)
			}
		}
	}
	// A round; it returns the steps taken.
	k := 0
	round := func() int64 {
		k++
		was := simrt.Steps()
		if mode < 2 {
			first.drift = k
			work(c, k == 1)
			return simrt.Steps() - was
		}
		w := &World{paths: first.paths, srcs: first.srcs}
		for i, d := range first.data {
			e := *d
			e.Bytes = append([]byte(nil), d.Bytes...)
			w.data = append(w.data, &e)
			if i == 0 {
				for _, f := range faults[-1] {
					undo := core.Damage(e.Bytes, e.Info, f)
					try(func() { truetype.Parse(e.Bytes) })
					undo()
				}
			}
			f, err := truetype.Parse(e.Bytes)
			w.fonts, w.errs = append(w.fonts, f), append(w.errs, err)
		}
		if mode == 2 {
			work(NewCaller(w), k == 1)
			return simrt.Steps() - was
		}
		c.w, c.faces = w, [nFaces]*faceRec{}
		for _, x := range c.ctxs {
			if x != nil && x.font >= 0 {
				c.setFont(x, x.font)
			}
		}
		work(c, k == 1)
		return simrt.Steps() - was
	}
	grows := ""
	o.Sim(nil, 0, func() {
		cost := int64(1)
		for i := 0; i < 4; i++ {
			cost = max(cost, round())
		}
		n, stages := int(min(max(4000000/cost, 30), 400)), leakStages
		if mode == 1 {
			// There are not that many sizes.
			n, stages = min(n, 128), leakStages-1
		}
		rounds := func(n int) (steps int64) {
			for i := 0; i < n; i++ {
				steps += round()
			}
			return
		}
		m0 := memInUse()
		s1 := rounds(n / 2)
		s2 := rounds(n / 2)
		if m := memInUse(); m > m0+leakBytes {
			o.Hit("memory-grew")
			if c := max(s1, s2)/int64(n/2) + 1; keepsGrowing(rounds, n, c, stages) {
				grows = "memory"
			}
		}
		if mode != 1 && s2 > s1+s1/64+int64(n) && grows == "" {
			o.Hit("steps-grew")
			rounds(32 * max(n/2, 200))
			if rounds(n/2) > s2+s2/4 {
				grows = "work"
			}
		}
		o.Hit([]string{"same-objects", "new-sizes", "new-objects", "new-fonts"}[mode])
	})
	runtime.KeepAlive(c)
	switch grows {
	case "memory":
		o.Fail("leak", "the memory in use grows with every round of the same work")
	case "work":
		o.Fail("slower", "the steps that the same work takes grow from round to round")
	}
}

// keepsGrowing says whether the memory in use, which has grown, keeps growing.
// It may have been a cache that was not full yet, or a buffer that was enlarged for
// good. What grows for ever has grown when four times as many rounds are done, and
// again after four times as many, even when its capacity is multiplied every time;
// and what is filled and emptied by turns is found less full than before in one of
// several looks.
func keepsGrowing(rounds func(int) int64, all int, cost int64, stages int) bool {
	most := memInUse()
	for i := 0; i < stages; i++ {
		if cost*int64(all)*4 > leakSteps {
			return i > 1
		}
		was := most
		for j := 0; j < 20; j++ {
			rounds(3 * all / 32)
			if memInUse() > leakMost {
				return true
			}
		}
		for j := 0; j < 8; j++ {
			rounds(all / 64 * (6 + j%4))
			var m uint64
			for k := 0; k < 3 && (k == 0 || m >= was+leakBytes); k++ {
				// Cleanups run when they like.
				time.Sleep(time.Duration(k) * time.Millisecond)
				m = memInUse()
			}
			if m < was+leakBytes {
				return false
			}
			most = max(most, m)
		}
		all *= 4
	}
	return true
}

// memInUse is the memory in use.
func memInUse() uint64 {
	simsync.Collect()
	runtime.GC()
	runtime.GC()
	var m runtime.MemStats
	runtime.ReadMemStats(&m)
	return m.HeapAlloc
}
