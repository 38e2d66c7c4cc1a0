package props

import (
	"github.com/golang/freetype/raster"
	"github.com/golang/freetype/verifsim/core"
	"golang.org/x/image/math/fixed"
)

// C08: a rasterizer's history leaves no trace.
//
// One caller works with one rasterizer: curves, paths, strokes, clears, new
// bounds, rasterizations, in any order; painters, cappers and joiners call back
// and give up. Every completed rasterization is compared with one by a new
// rasterizer that made only the calls since the last Clear or SetBounds, without
// the rasterizations in between.

func init() {
	register(&core.Check{
		ID: "C08", Runs: [2]int{80000, 6000000}, Gen: genC08, Run: runC08, Level: "exploration",
		Rule: "one history of curve, path, stroke, clear, bounds and rasterize calls on one rasterizer per run, with caller panics injected in painters, cappers and joiners; non-trivial: at least one rasterization with spans followed something other than construction",
		Real: realAll, Stub: []string{"painter (records spans, may panic)", "cappers and joiners wrapped to call back or panic"},
		Assume: []string{"spans are compared as coverage per pixel: adjacent spans of equal alpha are merged first"},
	})
}

func genC08(r *core.Rng, s *core.Scenario) {
	g := &gctx{abort: r.P(70), few: true}
	g.fam[famRast] = 1
	n := 3 + r.N(30)
	var ops []core.Op
	pclose := core.Pick(r, 100, 100, 90, 30)
	var start []int // of the open curve
	shut := func() {
		if start != nil && r.P(pclose) {
			ops = append(ops, op("r1", 0, start[0], start[1]))
			start = nil
		}
	}
	for i := 0; i < n; i++ {
		o := g.op(r, 0)
		switch o.K {
		case "rstart", "rpath", "rstroke", "rrast":
			shut()
			if o.K == "rstart" {
				start = o.A[1:]
			}
		case "rclear", "rbounds":
			start = nil
		case "r1", "r2", "r3":
			if start == nil && r.P(pclose) {
				start = []int{g.coord(r), g.coord(r)}
				ops = append(ops, op("rstart", 0, start[0], start[1]))
			}
		}
		for o.K == "rnew" {
			o = g.op(r, 0)
		}
		o.A[0] = 0
		if o.K == "rpath" || o.K == "rstroke" {
			o.A[1] = nPaths + r.N(4)
		}
		ops = append(ops, o)
		if r.P(25) {
			// A burst of segments: many cells.
			k := 1 + r.N(12)
			big := 1 + r.N(150)
			shut()
			start = []int{r.N(64 * big), r.N(64 * big)}
			ops = append(ops, op("rstart", 0, start[0], start[1]))
			for j := 0; j < k; j++ {
				ops = append(ops, op("r1", 0, r.N(64*big), r.N(64*big)))
			}
		}
	}
	shut()
	ops = append(ops, op("rrast", 0, nPnts, 0, 0))
	s.Set("shared", r.N(1<<20))
	s.Tasks = []core.Task{{Ops: ops}}
}

func runC08(s *core.Scenario, o *core.Outcome) {
	w := &World{}
	w.addShared(uint64(s.Par("shared")))
	c := NewCaller(w)
	type ras struct {
		at    int
		ss    []raster.Span
		since int // first op that still matters
		wind  bool
		dx    int
		dy    int
		w, h  int
	}
	var seen []ras
	ops := s.Tasks[0].Ops
	since, bw, bh := 0, imgW, imgH
	aborted, used := false, false
	var wind bool // what the caller set
	var dx, dy int
	o.Sim(nil, 0, func() {
		for i := range ops {
			if r := c.rast(0).r; r.UseNonZeroWinding != wind || r.Dx != dx || r.Dy != dy {
				o.Fail("settings", "op %d %s left winding rule %v and offset (%d, %d), set to %v and (%d, %d)", i-1, ops[max(i-1, 0)].K, r.UseNonZeroWinding, r.Dx, r.Dy, wind, dx, dy)
				return
			}
			p := &ops[i]
			switch p.K {
			case "rrast":
				rec := &spanRec{}
				r := c.rast(0).r
				n := 0
				cg := try(func() {
					r.Rasterize(raster.PainterFunc(func(ss []raster.Span, done bool) {
						n++
						rec.Paint(ss, done)
						if k := p.Arg(2); k != 0 && n == 1+mod(k-1, 8) {
							panic(Abort{n})
						}
					}))
				})
				if cg.any {
					if !cg.abort {
						o.Fail("panic", "op %d rrast: %s", i, cg.text)
						return
					}
					o.Injected("painter-panic")
					aborted = true
					continue
				}
				seen = append(seen, ras{i, rec.ss, since, r.UseNonZeroWinding, r.Dx, r.Dy, bw, bh})
				if len(rec.ss) > 0 && used {
					o.Nontrivial = true
				}
				if aborted {
					o.Hit("rasterized-after-abandoned")
				}
				used = true
			default:
				ob := c.Do(p)
				if ob.Panic {
					o.Fail("panic", "op %d %s: %s", i, p.K, ob.E)
					return
				}
				if ob.Abort {
					o.Injected("stroke-callback-panic")
					aborted = true
				}
				switch p.K {
				case "rwind", "roff":
					r := c.rast(0).r
					wind, dx, dy = r.UseNonZeroWinding, r.Dx, r.Dy
				case "rclear":
					since = i + 1
				case "rbounds":
					since = i + 1
					bw, bh = mod(p.Arg(1), 210)-5, mod(p.Arg(2), 210)-5
				}
			}
		}
	})
	if o.Violation != nil {
		return
	}
	for _, x := range seen {
		d := newDigest()
		d.spans(x.ss)
		o.Observe(uint64(d))
	}
	for k, x := range seen {
		core.ResetGlobals()
		var want []raster.Span
		ok := false
		o.Sim(nil, 0, func() {
			// What the calls since then amount to.
			n := NewCaller(w)
			lost := false
			for i := x.since; i < x.at; i++ {
				switch ops[i].K {
				case "rstart", "r1", "r2", "r3", "rpath", "rstroke":
					q := ops[i]
					q.K = "p" + q.K[1:]
					if len(q.K) == 2 && len(n.path(0).p) == 0 {
						lost = true // a segment without a start
					}
					if q.K == "pstroke" || q.K == "ppath" {
						q.A = append([]int(nil), q.A...)
						q.A[0] = 0
					}
					n.Do(&q)
				}
			}
			ok = !lost && closed(n.path(0).p)
		})
		core.ResetGlobals()
		o.Sim(nil, 0, func() {
			n := NewCaller(w)
			n.rasts[0] = &rastRec{r: raster.NewRasterizer(x.w, x.h)}
			r := n.rasts[0].r
			for i := x.since; i < x.at; i++ {
				switch ops[i].K {
				case "rrast":
					if !ok {
						r.Rasterize(&spanRec{})
					}
				case "rwind", "roff", "rclear", "rbounds":
				default:
					n.Do(&ops[i])
				}
			}
			r.UseNonZeroWinding, r.Dx, r.Dy = x.wind, x.dx, x.dy
			rec := &spanRec{}
			r.Rasterize(rec)
			want = rec.ss
		})
		if ok && len(want) > 0 {
			o.Hit("compared-closed")
		}
		got, exp := normal(x.ss), normal(want)
		if i := sameSpans(got, exp); i >= 0 {
			o.Fail("spans", "rasterization %d (operation %d) differs from a new rasterizer's: span %d is %s, expected %s", k, x.at, i, spanText(got, i), spanText(exp, i))
			return
		}
	}
}

// closed reports whether every curve of p ends where it starts.
func closed(p raster.Path) bool {
	first, open := true, false
	var sx, sy, x, y fixed.Int26_6
	for i := 0; i < len(p); {
		k := int(p[i])
		n := 2 * k
		if k == 0 {
			if open && (x != sx || y != sy) {
				return false
			}
			sx, sy = p[i+1], p[i+2]
			x, y = sx, sy
			first = false
			i += 4
			continue
		}
		if first {
			return false
		}
		open = true
		x, y = p[i+n-1], p[i+n]
		i += n + 2
	}
	return !open || x == sx && y == sy
}
