package props

import (
	"github.com/golang/freetype/truetype"
	"github.com/golang/freetype/verifsim/core"
	"github.com/golang/freetype/verifsim/simrt"
	"golang.org/x/image/font"
)

// C04: temporary damage to stored font bytes is not remembered.
//
// One caller loads, measures and draws with buffers, faces and contexts. Stored
// bytes are damaged before or at some step of an operation and repaired some
// operations later. Every operation after a repair is compared with the same
// operation in a world without damage, unless it relies on something that was
// successfully prepared, looked up or produced from damaged bytes.
//
// There are two kinds of damage. Reading what the first kind leaves makes a
// request fail for sure, so that nothing at all may be remembered, and even what
// succeeds while it lasts must be right. The second kind is any damage; what is
// exempt is tracked: the preparation of a font and size by an object, the glyph a
// face found for a rune, the image a face or context made of a glyph.

func init() {
	register(&core.Check{
		ID: "C04", Runs: [2]int{50000, 6000000}, Gen: genC04, Run: runC04, Level: "exploration",
		Rule: "one caller with 4 to 60 operations (loads, faces, contexts) drawn from a small pool so that requests recur, one to four periods of damage that begin between operations or at a seeded step of one, and end some operations later or some steps later; non-trivial: an operation failed or took place during damage and one not exempt followed its repair",
		Real: realAll, Stub: []string{"font storage (bytes in memory, damaged and repaired on schedule)"},
		Assume: []string{"what an object successfully prepared, looked up or produced from damaged bytes is exempt for that object", "the content of a buffer after a failed load is not compared, only the error"},
	})
}

var sureKinds = []string{"prep-fail", "fpgm-fail", "glyf-fail"}

func sure(kind string) bool {
	for _, k := range sureKinds {
		if k == kind {
			return true
		}
	}
	return false
}

func genC04(r *core.Rng, s *core.Scenario) {
	n := 1 + r.W(2, 1)
	var opt []int
	if r.P(40) {
		opt = append(opt, core.OptHeavy)
	}
	if r.P(50) {
		opt = append(opt, core.OptSmall)
	}
	if r.P(50) {
		opt = append(opt, core.OptHonestBox)
	}
	for i := 0; i < n; i++ {
		s.Fonts = append(s.Fonts, core.GenFont(r, 12, opt...))
	}
	fs := specs(s)
	only := r.P(60) // sure damage only
	s.Set("sure", b2i(only))
	g := &gctx{fonts: fs, few: r.P(80)}
	g.fam = [nFam]int{10 * r.N(3), r.N(2), 10 * r.N(3), 8 * r.N(3)}
	g.fam[core.Pick(r, famGlyph, famFace, famCtx)] += 10
	// A pool of requests.
	pool := g.ops(r, 2+r.N(6))
	for i := range pool {
		if pool[i].K == "gload" && r.P(50) {
			pool[i].A[2] = r.N(8)
		}
	}
	var ops []core.Op
	some := func(k int) {
		for ; k > 0; k-- {
			if r.P(80) {
				ops = append(ops, pool[r.N(len(pool))])
			} else {
				ops = append(ops, g.op(r, 0))
			}
		}
	}
	some(r.N(5))
	for p := 1 + r.W(6, 3, 1, 1); p > 0; p-- {
		fi := r.N(n)
		at := len(ops)
		some(1 + r.N(6))
		for k := 1 + r.W(6, 2, 1); k > 0; k-- {
			var f core.Fault
			if only {
				f.Kind = sureKinds[r.N(len(sureKinds))]
			} else {
				f = core.GenDamage(r, fs[fi].Info)
				if r.P(50) {
					f = core.GenDamageIn(r, fs[fi].Info, "glyf", "glyf", "loca", "hmtx", "cmap", "prep", "fpgm", "cvt ", "kern")
				}
			}
			f.Op, f.Font, f.Dur = at, fi, len(ops)-at
			if r.P(40) {
				f.Step = 1 + r.Log(30000)
				if r.P(40) {
					f.Step = 1 + r.Log(400)
				}
			}
			s.Faults = append(s.Faults, f)
		}
		some(1 + r.N(8))
	}
	s.Set("shared", r.N(1<<20))
	s.Tasks = []core.Task{{Ops: ops}}
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

// Exemptions.
type prepKey struct {
	obj  any
	font int
	at   [2]int // scale, or size and resolution
}
type runeKey struct {
	face any
	r    rune
}
type glyphKey struct {
	obj  any
	font int
	at   [4]int
	i    truetype.Index
}

type exempt struct {
	prep  map[prepKey]bool
	runes map[runeKey]bool
	glyph map[glyphKey]bool
}

// request is what an operation relies on.
type request struct {
	font   int
	hinted bool
	prep   prepKey
	runes  []runeKey
	glyphs []glyphKey // images that are kept
	scale  int
	hint   font.Hinting
}

// requestOf describes op as caller c is about to perform it, looking runes up in
// the font given. nil: it relies on no stored bytes that could be remembered.
func requestOf(c *Caller, op *core.Op, f func(i int) *truetype.Font) *request {
	a := op.Arg
	q := &request{}
	var rs []rune
	image := false
	switch op.K {
	case "gload":
		q.font = c.fontIdx(a(1))
		q.hint = hintOf(a(4))
		q.scale = int(c.w.scale(a(3)))
		q.prep = prepKey{c.buf(a(0)), q.font, [2]int{q.scale, 0}}
	case "fglyph", "fadv", "fbounds", "fkern", "fdraw", "fmeasure":
		x := c.face(a(0))
		if x == nil {
			return nil
		}
		q.font, q.hint = x.font, x.opts.Hinting
		size, dpi := x.opts.Size, x.opts.DPI
		if size == 0 {
			size = 12
		}
		if dpi == 0 {
			dpi = 72
		}
		q.scale = int(0.5 + size*dpi*64/72)
		q.prep = prepKey{x, q.font, [2]int{}}
		switch op.K {
		case "fglyph":
			rs, image = []rune{c.w.rune(x.font, a(3))}, true
		case "fadv", "fbounds":
			rs = []rune{c.w.rune(x.font, a(1))}
		case "fkern":
			rs = []rune{c.w.rune(x.font, a(1)), c.w.rune(x.font, a(2))}
		default:
			rs, image = []rune(op.S), op.K == "fdraw"
		}
		for _, r := range rs {
			q.runes = append(q.runes, runeKey{x, r})
			if image {
				q.glyphs = append(q.glyphs, glyphKey{x, q.font, [4]int{}, f(q.font).Index(r)})
			}
		}
	case "cdraw":
		x := c.ctx(a(0))
		if x.font < 0 {
			return nil
		}
		q.font, q.hint = x.font, x.hint
		q.scale = int(x.size * x.dpi * (64.0 / 72.0))
		q.prep = prepKey{x, q.font, [2]int{int(x.size * 1000), int(x.dpi * 1000)}}
		for _, r := range op.S {
			q.glyphs = append(q.glyphs, glyphKey{x, q.font, [4]int{int(x.size * 1000), int(x.dpi * 1000), int(x.hint)}, f(q.font).Index(r)})
		}
	case "qindex", "qrune", "qmetric", "qkern", "qbounds", "qname", "parse":
		q.font = c.fontIdx(a(0))
	default:
		return nil
	}
	q.hinted = q.hint != font.HintingNone
	return q
}

func (e *exempt) covers(q *request) bool {
	if q.hinted && e.prep[q.prep] {
		return true
	}
	for _, k := range q.runes {
		if e.runes[k] {
			return true
		}
	}
	for _, k := range q.glyphs {
		if e.glyph[k] {
			return true
		}
	}
	return false
}

func runC04(s *core.Scenario, o *core.Outcome) {
	ops := s.Tasks[0].Ops
	clearImgs := func(c *Caller) {
		for _, m := range c.imgs {
			if m != nil {
				clear(m.rgba.Pix)
				clear(m.alpha.Pix)
				clear(m.gray.Pix)
			}
		}
	}
	// The world without damage.
	w2 := NewWorld(s)
	n := NewCaller(w2)
	n.before = func(int, *core.Op) { clearImgs(n) }
	o.Sim(nil, 0, func() { n.Perform(ops) })
	core.ResetGlobals()

	w := NewWorld(s)
	w.steps = damagedBudget
	var pristine [][]byte
	for _, d := range w.data {
		pristine = append(pristine, append([]byte(nil), d.Bytes...))
	}
	cleanFont := func(i int) *truetype.Font { return w2.fonts[i] }
	hurtFont := func(i int) *truetype.Font { return w.fonts[i] }
	active := make([]bool, len(w.data)) // damage in force
	unsure := make([]bool, len(w.data)) // some of it of the second kind
	until := make([]int, len(w.data))
	ex := &exempt{map[prepKey]bool{}, map[runeKey]bool{}, map[glyphKey]bool{}}
	hurt := make([]bool, len(ops)) // performed with damage in force
	wild := make([]bool, len(ops)) // of the second kind
	skip := make([]bool, len(ops)) // relies on something exempt
	c := NewCaller(w)
	var mid []func() // damage due during this operation
	var before, during *request
	var prepFails bool
	loads := func(fi int, scale int, i truetype.Index, h font.Hinting) (ok bool) {
		cg := try(func() {
			var b truetype.GlyphBuf
			ok = b.Load(w.fonts[fi], fx(scale), i, h) == nil
		})
		return ok && !cg.any
	}
	c.before = func(i int, p *core.Op) {
		clearImgs(c)
		// Repairs.
		for fi := range w.data {
			if active[fi] && until[fi] <= i {
				copy(w.data[fi].Bytes, pristine[fi])
				active[fi], unsure[fi] = false, false
				o.Injected("repair")
			}
		}
		before = requestOf(c, p, cleanFont)
		if before != nil {
			skip[i] = ex.covers(before)
		}
		mid = mid[:0]
		var later []func()
		for k := range s.Faults {
			f := &s.Faults[k]
			if mod(f.Op, len(ops)) != i {
				continue
			}
			fi := mod(f.Font, len(w.data))
			d := w.data[fi]
			done := false
			fire := func() {
				if done {
					return
				}
				done = true
				core.Damage(d.Bytes, d.Info, f)
				o.Injected(f.Kind)
				active[fi] = true
				unsure[fi] = unsure[fi] || !sure(f.Kind)
				until[fi] = max(until[fi], i+max(1, f.Dur))
			}
			if f.Step == 0 {
				fire()
				continue
			}
			mid = append(mid, fire)
			later = append(later, func() {
				simrt.After(int64(f.Step), func() {
					if before != nil && before.font == fi {
						hurt[i] = true
						wild[i] = wild[i] || !sure(f.Kind)
						o.Hit("damage-in-mid-operation")
					}
					fire()
				})
			})
		}
		during, prepFails = nil, false
		if before != nil && active[before.font] {
			hurt[i], wild[i] = true, unsure[before.font]
			if wild[i] {
				during = requestOf(c, p, hurtFont)
				if during.hinted {
					e := truetype.Index(w.data[during.font].Info.Empty)
					prepFails = loads(during.font, during.scale, e, font.HintingNone) && !loads(during.font, during.scale, e, during.hint)
				}
			}
		}
		for _, f := range later {
			f()
		}
	}
	c.after = func(i int, p *core.Op, ob *Obs) {
		simrt.CancelEvents()
		if wild[i] {
			// whole: all damage was in force from the start.
			whole := during != nil && len(mid) == 0
			if before.hinted && !(whole && prepFails) {
				ex.prep[before.prep] = true
			}
			for _, k := range before.runes {
				if !whole || cleanFont(before.font).Index(k.r) != hurtFont(before.font).Index(k.r) {
					ex.runes[k] = true
				}
			}
			for _, q := range []*request{before, during, requestOf(c, p, hurtFont)} {
				if q == nil || p.K == "fglyph" && !ob.OK {
					continue // no image was produced
				}
				for _, k := range q.glyphs {
					if !whole || loads(q.font, q.scale, k.i, font.HintingNone) {
						ex.glyph[k] = true
					}
				}
			}
		}
		for _, f := range mid {
			f() // not reached: it hits now
		}
	}
	stopped := len(ops)
	o.Sim(nil, 0, func() {
		for i := range ops {
			c.before(i, &ops[i])
			c.obs = append(c.obs, c.Do(&ops[i]))
			ob := &c.obs[i]
			if ob.Limit || ob.Panic {
				simrt.CancelEvents()
				o.Hit("cut-off")
				stopped = i
				return
			}
			c.after(i, &ops[i], ob)
		}
	})
	saw, after := false, false
	for i := 0; i < stopped; i++ {
		a, b := &c.obs[i], &n.obs[i]
		o.Observe(uint64(a.H), a.E)
		if hurt[i] {
			saw = true
			if a.E != "" && b.E == "" {
				o.Hit("failed-by-damage")
			}
		}
		if wild[i] || ops[i].K == "gread" {
			continue
		}
		if skip[i] {
			o.Hit("exempt")
			continue
		}
		if hurt[i] && !succeeded(a, &ops[i]) {
			continue
		}
		if saw && !hurt[i] && a.Font >= 0 {
			after = true
			o.Hit("compared-after-repair")
		}
		if !a.same(b) {
			when := "after the repair"
			if hurt[i] {
				when = "during the damage, though it succeeds"
			}
			o.Fail("remembered", "operation %d (%s, font %d), %s: got %s, without damage it gives %s", i, ops[i].K, a.Font, when, a.text(), b.text())
			return
		}
	}
	o.Nontrivial = saw && after
}

// succeeded reports whether nothing of the operation failed.
func succeeded(a *Obs, p *core.Op) bool {
	switch p.K {
	case "gload", "cdraw":
		return a.E == ""
	}
	return a.OK
}
