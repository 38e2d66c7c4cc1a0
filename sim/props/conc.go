package props

import (
	"bytes"
	"image"
	"image/color"
	"runtime/debug"
	"syscall"
	"unsafe"

	"github.com/golang/freetype/raster"
	"github.com/golang/freetype/truetype"
	"github.com/golang/freetype/verifsim/core"
	"github.com/golang/freetype/verifsim/simrt"
	"golang.org/x/image/math/fixed"
)

// The checks with several callers: C01, C02 and C11.

// genCallers draws 2 to 4 callers with operations of all families, now and then
// a crowd of 5 to 20 with few operations each, and a schedule.
func genCallers(r *core.Rng, s *core.Scenario, base [nFam]int, opt ...int) {
	n := 1 + r.W(3, 1)
	if r.P(40) {
		opt = append(opt, core.OptHeavy)
	}
	if r.P(40) {
		opt = append(opt, core.OptSafe)
	}
	if r.P(60) {
		opt = append(opt, core.OptSmall)
	}
	for i := 0; i < n; i++ {
		s.Fonts = append(s.Fonts, core.GenFont(r, 15, opt...))
	}
	core.Siblings(r, s.Fonts)
	fs := specs(s)
	tasks := 2 + r.W(6, 2, 1)
	crowd := r.P(9)
	if crowd {
		tasks = 5 + r.N(16)
	}
	g := &gctx{fonts: fs, few: r.P(70), abort: r.P(30), nested: core.Pick(r, 0, 20, 50)}
	g.swarm(r, base)
	same := r.P(40) || crowd && r.P(50) // callers make similar calls
	max := core.Pick(r, 3, 8, 16)
	if crowd {
		max = 1 + r.N(2)
	}
	var first []core.Op
	for t := 0; t < tasks; t++ {
		var ops []core.Op
		if same && t > 0 {
			for _, o := range first {
				q := o
				if r.P(25) {
					q = g.op(r, 0)
				}
				ops = append(ops, q)
			}
		} else {
			ops = g.ops(r, 1+r.N(max))
		}
		first = ops
		s.Tasks = append(s.Tasks, core.Task{Ops: ops})
	}
	if r.P(10) || crowd && r.P(60) {
		s.Sched = rounds(r, tasks, 2+r.Log(20), 1+r.Log(4000))
	} else {
		s.Sched = switches(r, 1+r.Log(80), 1<<uint(4+r.N(13)))
		if crowd {
			for i := range s.Sched {
				s.Sched[i].To = r.N(tasks)
			}
		}
	}
	s.Set("shared", r.N(1<<20))
	if r.P(50) {
		s.Set("hot", core.Pick(r, 10, 30, 60, 90))
	}
}

func init() {
	register(&core.Check{
		ID: "C01", Runs: [2]int{80000, 6000000}, Gen: genC01, Run: runC01, Level: "exploration", Race: true,
		Rule: "two to four callers with 1 to 16 operations each, or five to twenty with one or two, on one or two shared fonts, interleaved by 1 to 400 seeded preemptions at single statements of the library, at random or in rounds, some operations failing or abandoned by panics of caller code; non-trivial: at least two callers were interrupted while the others still had work",
		Real: realAll, Stub: []string{"goroutine scheduler (seeded preemption at every statement of the library)", "sync and sync/atomic, where the library uses them"},
		Assume: []string{"preemption happens between statements of the library, not within one", "callers share fonts, paths and source images only"},
	})
	register(&core.Check{
		ID: "C02", Runs: [2]int{60000, 6000000}, Gen: genC02, Run: runC02, Level: "exploration", Race: true,
		Rule: "callers as for C01, with font bytes, paths, source images, texts and options in read-only memory; a twelfth as many further runs under the race detector, whose happens-before relation the simulated scheduler leaves untouched; non-trivial: at least two callers were interrupted while the others still had work",
		Real: realAll, Stub: []string{"goroutine scheduler (seeded preemption at every statement of the library)", "memory of shared inputs (write-protected pages)"},
	})
	register(&core.Check{
		ID: "C11", Runs: [2]int{40000, 6000000}, Gen: genC11, Run: runC11, Level: "exploration", Race: true,
		Rule: "two to four callers, or five to twenty, drawing texts, curves and spans into disjoint regions of one image, interleaved by 1 to 400 seeded preemptions; non-trivial: at least two callers changed pixels and were interrupted",
		Real: realAll, Stub: []string{"goroutine scheduler (seeded preemption at every statement of the library)"},
		Assume: []string{"image/draw, which is not part of the library, is not interrupted"},
	})
}

func genC01(r *core.Rng, s *core.Scenario) {
	genCallers(r, s, [nFam]int{10, 4, 8, 8, 5, 4, 3})
}

// solo performs a caller's operations alone, in a world of its own.
func solo(s *core.Scenario, o *core.Outcome, t int, region image.Rectangle, dst bool) *Caller {
	core.ResetGlobals()
	w := NewWorld(s)
	if dst {
		w.addDst()
	}
	c := NewCaller(w)
	c.region = region
	o.Sim(nil, 0, func() { c.Perform(s.Tasks[t].Ops) })
	return c
}

func (w *World) addDst() {
	w.dst = image.NewRGBA(image.Rect(-3, -2, 77, 58))
	w.adst = image.NewAlpha(w.dst.Rect)
	for i := range w.dst.Pix {
		w.dst.Pix[i] = byte(i*37) | 3
	}
	for i := 3; i < len(w.dst.Pix); i += 4 {
		w.dst.Pix[i] = 0xff
	}
	for i := range w.adst.Pix {
		w.adst.Pix[i] = byte(i * 11)
	}
}

// together performs all callers' operations under the schedule.
func together(s *core.Scenario, o *core.Outcome, w *World, regions []image.Rectangle) []*Caller {
	var cs []*Caller
	var fns []func()
	for t := range s.Tasks {
		c := NewCaller(w)
		if regions != nil {
			c.region = regions[t]
		}
		cs = append(cs, c)
		ops := s.Tasks[t].Ops
		fns = append(fns, func() {
			debug.SetPanicOnFault(true)
			// Which accesses the race detector forgets depends on how
			// many there were.
			for k := s.Par("race_shift"); k > 0; k-- {
				c.pad[k&7]++
			}
			c.Perform(ops)
		})
	}
	before := o.Switches
	simrt.SetHot(s.Par("hot"), uint64(s.Par("shared")))
	o.Sim(s.Sched, uint64(s.Par("shared")), fns...)
	simrt.SetHot(0, 0)
	if simrt.Hot() > 0 {
		o.Injected("preemption-at-shared-write")
	}
	if o.Switches-before >= 2 {
		o.Nontrivial = true
	}
	return cs
}

func countAborts(o *core.Outcome, cs []*Caller) {
	for _, c := range cs {
		for i := range c.obs {
			ob := &c.obs[i]
			o.Observe(uint64(ob.H), ob.E)
			if ob.Abort {
				o.Injected("callback-panic")
			} else if ob.E != "" {
				o.Hit("failing-operation")
			}
		}
	}
}

func runC01(s *core.Scenario, o *core.Outcome) {
	w := NewWorld(s)
	cs := together(s, o, w, nil)
	countAborts(o, cs)
	for t, c := range cs {
		want := solo(s, o, t, image.Rectangle{}, false)
		for i := range c.obs {
			if !c.obs[i].same(&want.obs[i]) {
				o.Fail("interference", "caller %d, operation %d: got %s, alone it gives %s", t, i, c.obs[i].text(), want.obs[i].text())
				return
			}
		}
	}
}

func genC02(r *core.Rng, s *core.Scenario) {
	genCallers(r, s, [nFam]int{6, 4, 8, 8, 8, 6, 3})
}

// readOnly is memory that faults when written.
type readOnly struct {
	mem  []byte
	next int
}

func newReadOnly(n int) *readOnly {
	m, err := syscall.Mmap(-1, 0, n, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_ANON|syscall.MAP_PRIVATE)
	if err != nil {
		panic("harness: " + err.Error())
	}
	return &readOnly{mem: m}
}

func (r *readOnly) take(n int) []byte {
	n8 := (n + 7) &^ 7
	if r.next+n8 > len(r.mem) {
		panic("harness: read-only memory too small")
	}
	b := r.mem[r.next : r.next+n : r.next+n8]
	r.next += n8
	return b
}

func (r *readOnly) bytes(b []byte) []byte {
	n := r.take(len(b))
	copy(n, b)
	return n
}

func (r *readOnly) path(p raster.Path) raster.Path {
	if len(p) == 0 {
		return p
	}
	b := r.take(4*len(p) + 64) // room for an append to fault in
	q := unsafe.Slice((*fixed.Int26_6)(unsafe.Pointer(&b[0])), len(p)+16)
	copy(q, p)
	return q[:len(p)]
}

func (r *readOnly) protect() {
	if err := syscall.Mprotect(r.mem, syscall.PROT_READ); err != nil {
		panic("harness: " + err.Error())
	}
}

// holds reports whether a is in the memory.
func (r *readOnly) holds(a uintptr) bool {
	at := uintptr(unsafe.Pointer(&r.mem[0]))
	return a >= at && a < at+uintptr(len(r.mem))
}

func (r *readOnly) free() { syscall.Munmap(r.mem) }

func (w *World) lock(s *core.Scenario) (*readOnly, []core.Op) {
	n := 1 << 16
	for _, d := range w.data {
		n += len(d.Bytes) + 64
	}
	for _, p := range w.paths {
		n += 4*len(p) + 128
	}
	for t := range s.Tasks {
		for i := range s.Tasks[t].Ops {
			n += len(s.Tasks[t].Ops[i].S) + 16
		}
	}
	n += 64*48*4 + 4096
	r := newReadOnly((n + 4095) &^ 4095)
	for i, d := range w.data {
		d.Bytes = r.bytes(d.Bytes)
		w.fonts[i], w.errs[i] = nil, nil
	}
	for i := range w.paths {
		w.paths[i] = r.path(w.paths[i])
	}
	m := w.srcs[3].(*image.RGBA)
	m.Pix = r.bytes(m.Pix)
	return r, nil
}

func runC02(s *core.Scenario, o *core.Outcome) {
	w := NewWorld(s)
	// What was there, to compare with afterwards.
	var fonts [][]byte
	var paths []raster.Path
	for _, d := range w.data {
		fonts = append(fonts, append([]byte(nil), d.Bytes...))
	}
	for _, p := range w.paths {
		paths = append(paths, append(raster.Path(nil), p...))
	}
	src := append([]byte(nil), w.srcs[3].(*image.RGBA).Pix...)
	uni := color.RGBA64Model.Convert(w.srcs[2].(*image.Uniform).C)
	mem, _ := w.lock(s)
	defer mem.free()
	// Texts and options.
	run := *s
	run.Tasks = append([]core.Task(nil), s.Tasks...)
	for t := range run.Tasks {
		ops := append([]core.Op(nil), run.Tasks[t].Ops...)
		for i := range ops {
			if len(ops[i].S) > 0 {
				b := mem.bytes([]byte(ops[i].S))
				ops[i].S = unsafe.String(&b[0], len(b))
			}
		}
		run.Tasks[t].Ops = ops
	}
	ob := mem.take(int(unsafe.Sizeof(truetype.Options{})) * nOptions)
	w.opts = unsafe.Slice((*truetype.Options)(unsafe.Pointer(&ob[0])), nOptions)
	or := core.NewRng(uint64(s.Par("shared")))
	for i := range w.opts {
		w.opts[i] = faceOptions(func(int) int { return or.N(1 << 20) })
		w.opts[i].GlyphCacheEntries = 1 << uint(or.N(6))
	}
	mem.protect()
	var cg caught
	o.Sim(nil, 0, func() {
		debug.SetPanicOnFault(true)
		cg = try(func() {
			for i, d := range w.data {
				w.fonts[i], w.errs[i] = truetype.Parse(d.Bytes)
			}
		})
	})
	if mem.holds(cg.addr) {
		o.Fail("written", "parsing: %s", cg.text)
		return
	}
	cs := together(&run, o, w, nil)
	countAborts(o, cs)
	for t, c := range cs {
		for i := range c.obs {
			if mem.holds(c.obs[i].Fault) {
				o.Fail("written", "caller %d, operation %d: %s", t, i, c.obs[i].text())
				return
			}
		}
	}
	for i, d := range w.data {
		if !bytes.Equal(fonts[i], d.Bytes) {
			o.Fail("written", "bytes of font %d changed", i)
		}
	}
	for i, p := range w.paths {
		for k := range p {
			if len(p) != len(paths[i]) || p[k] != paths[i][k] {
				o.Fail("written", "shared path %d changed", i)
				break
			}
		}
	}
	if !bytes.Equal(src, w.srcs[3].(*image.RGBA).Pix) || uni != color.RGBA64Model.Convert(w.srcs[2].(*image.Uniform).C) {
		o.Fail("written", "a source image changed")
	}
}

func genC11(r *core.Rng, s *core.Scenario) {
	genCallers(r, s, [nFam]int{1, 0, 6, 10, 5, 2, 6}, core.OptHonestBox)
	s.Set("split", r.N(1<<20))
}

// split divides the shared image into disjoint regions.
func split(seed, n int) []image.Rectangle {
	r := core.NewRng(uint64(seed))
	regs := []image.Rectangle{image.Rect(-3, -2, 77, 58)}
	for len(regs) < n {
		// Cut the largest.
		k := 0
		for i := range regs {
			if regs[i].Dx()*regs[i].Dy() > regs[k].Dx()*regs[k].Dy() {
				k = i
			}
		}
		a := regs[k]
		b := a
		if a.Dx() > a.Dy() && r.P(80) {
			x := a.Min.X + a.Dx()/4 + r.N(a.Dx()/2)
			a.Max.X, b.Min.X = x, x
		} else {
			y := a.Min.Y + a.Dy()/4 + r.N(a.Dy()/2)
			a.Max.Y, b.Min.Y = y, y
		}
		regs[k] = a
		regs = append(regs, b)
	}
	if r.P(30) {
		for i := range regs {
			regs[i] = regs[i].Inset(r.N(3))
		}
	}
	return regs
}

func runC11(s *core.Scenario, o *core.Outcome) {
	w := NewWorld(s)
	w.addDst()
	regs := split(s.Par("split"), len(s.Tasks))
	cs := together(s, o, w, regs)
	countAborts(o, cs)
	o.Nontrivial = false
	orig := &World{}
	orig.addDst()
	seen := make([]bool, len(w.adst.Pix))
	changed := 0
	for t, c := range cs {
		want := solo(s, o, t, regs[t], true)
		for i := range c.obs {
			if !c.obs[i].same(&want.obs[i]) {
				o.Fail("interference", "caller %d, operation %d: got %s, alone it gives %s", t, i, c.obs[i].text(), want.obs[i].text())
				return
			}
		}
		b := w.dst.Rect
		did := false
		for y := b.Min.Y; y < b.Max.Y; y++ {
			for x := b.Min.X; x < b.Max.X; x++ {
				k := (y-b.Min.Y)*b.Dx() + x - b.Min.X
				if (image.Point{x, y}).In(regs[t]) {
					seen[k] = true
					if !bytes.Equal(w.dst.Pix[4*k:4*k+4], want.w.dst.Pix[4*k:4*k+4]) || w.adst.Pix[k] != want.w.adst.Pix[k] {
						o.Fail("region", "pixel (%d, %d) of caller %d's region %v is %v/%d, drawn alone %v/%d", x, y, t, regs[t], w.dst.Pix[4*k:4*k+4], w.adst.Pix[k], want.w.dst.Pix[4*k:4*k+4], want.w.adst.Pix[k])
						return
					}
					if !bytes.Equal(w.dst.Pix[4*k:4*k+4], orig.dst.Pix[4*k:4*k+4]) || w.adst.Pix[k] != orig.adst.Pix[k] {
						did = true
					}
				} else if !bytes.Equal(want.w.dst.Pix[4*k:4*k+4], orig.dst.Pix[4*k:4*k+4]) || want.w.adst.Pix[k] != orig.adst.Pix[k] {
					o.Fail("outside", "caller %d, drawing alone, changes pixel (%d, %d) outside its region %v", t, x, y, regs[t])
					return
				}
			}
		}
		if did {
			changed++
		}
	}
	for k := range seen {
		if !seen[k] && (!bytes.Equal(w.dst.Pix[4*k:4*k+4], orig.dst.Pix[4*k:4*k+4]) || w.adst.Pix[k] != orig.adst.Pix[k]) {
			o.Fail("outside", "pixel %d, in no caller's region, changed", k)
			return
		}
	}
	o.Nontrivial = changed >= 2 && o.Switches >= 2
}
