// Package synth builds synthetic TrueType fonts from a seed. They are small,
// structurally valid, and rich in what the library's state management depends
// on: font, control value and glyph programs that use storage, control values,
// twilight points, functions, rounding state and graphics state; compound
// glyphs; empty glyphs; glyphs that cannot be loaded; more than 256 glyphs; all
// metric tables; both character map formats.
package synth

import (
	"encoding/binary"
	"math/rand"
)

// Options steer the generator; the zero value draws everything from the seed.
type Options struct {
	Many  bool // more than 256 glyphs
	Plain bool // no programs
	Heavy bool // richer programs
	// NoBad leaves out glyphs that fail to load.
	NoBad bool
	// HonestBox makes head's bounding box contain all glyphs.
	HonestBox bool
	// Safe keeps point numbers in range, so programs do not fail.
	Safe bool
	// Small keeps the number of glyphs and points low.
	Small bool
	// Big adds glyphs of very many components, or whose programs do much work.
	Big bool
}

// Info describes a generated font.
type Info struct {
	NGlyph int
	Empty  int   // index of an empty glyph without program
	Bad    []int // glyphs built to fail
	Big    []int // glyphs that are much work to load
	Runes  []rune
	Tables map[string][2]int // offset, length
}

type glyph struct {
	data  []byte
	depth int // nesting of compounds
	np    int // points
	nc    int
	box   [4]int
	empty bool
}

type gen struct {
	r      *rand.Rand
	o      Options
	nt     int // twilight points
	ns     int // storage
	ncvt   int
	nfn    int
	upem   int
	glyphs []glyph
	bad    []int
	big    []int
	marks  byte // reserved bits of the flags of points that are used
}

func (g *gen) p(pct int) bool { return g.r.Intn(100) < pct }

func u16b(v int) []byte { return []byte{byte(v >> 8), byte(v)} }
func u32b(v int) []byte { return []byte{byte(v >> 24), byte(v >> 16), byte(v >> 8), byte(v)} }

// Build makes the font of a seed.
func Build(seed uint64, o Options) ([]byte, *Info) {
	g := &gen{r: rand.New(rand.NewSource(int64(seed))), o: o}
	g.upem = []int{16, 256, 1000, 1024, 2048, 2047, 4096}[g.r.Intn(7)]
	if g.p(70) {
		g.upem = []int{1000, 1024, 2048}[g.r.Intn(3)]
	}
	g.nt = g.r.Intn(6)
	g.ns = 1 + g.r.Intn(12)
	g.ncvt = 2 + g.r.Intn(12)
	g.nfn = 1 + g.r.Intn(5)
	hint := !o.Plain && g.p(92)
	if g.p(15) {
		g.marks = []byte{0x40, 0x80, 0xc0}[g.r.Intn(3)]
	}

	// Programs of the font.
	var fpgm, prep, cvt []byte
	if hint {
		for i := 0; i < g.ncvt; i++ {
			cvt = append(cvt, u16b(g.r.Intn(g.upem)-g.upem/4)...)
		}
		if g.p(90) {
			fpgm = g.fontProgram()
		}
		if g.p(85) {
			prep = g.prepProgram()
		}
	}
	// Glyphs.
	n := 4 + g.r.Intn(24)
	if o.Small {
		n = 4 + g.r.Intn(6)
	}
	if o.Many {
		n = 257 + g.r.Intn(80)
	}
	emptyAt := 0
	for i := 0; i < n; i++ {
		switch k := g.r.Intn(100); {
		case i == 1 || k < 5:
			if emptyAt == 0 && i > 0 {
				emptyAt = i
			}
			g.glyphs = append(g.glyphs, glyph{empty: true})
		case k < 12 && i > 3 && !o.NoBad:
			g.glyphs = append(g.glyphs, g.badGlyph(i, hint))
			g.bad = append(g.bad, i)
		case k < 30 && i > 3:
			g.glyphs = append(g.glyphs, g.compound(i, hint))
		default:
			g.glyphs = append(g.glyphs, g.simple(hint, i < 3))
		}
	}
	if o.Big {
		g.bigGlyphs(hint)
	}
	return g.assemble(fpgm, prep, cvt, emptyAt)
}

// bigGlyphs appends glyphs within a small factor of what can be loaded at all.
func (g *gen) bigGlyphs(hint bool) {
	hdr := func(n int) (d []byte) {
		d = append(d, u16b(n)...)
		for _, v := range []int{0, 0, g.upem / 2, g.upem / 2} {
			d = append(d, u16b(v)...)
		}
		return
	}
	add := func(gl glyph) int {
		gl.depth = 100 // not to be used by other glyphs
		g.glyphs = append(g.glyphs, gl)
		return len(g.glyphs) - 1
	}
	comp := func(of, n int) int {
		d := hdr(-1)
		for i := 0; i < n; i++ {
			fl := 0x0002
			if i+1 < n {
				fl |= 0x20
			}
			d = append(append(append(d, u16b(fl)...), u16b(of)...), byte(g.r.Intn(9)), byte(g.r.Intn(9)))
		}
		return add(glyph{data: d, box: [4]int{0, 0, g.upem / 2, g.upem / 2}})
	}
	if g.p(60) { // 500 to 8000 glyphs in all
		leaf := 1 // empty
		a := comp(leaf, 8+g.r.Intn(12))
		b := comp(a, 8+g.r.Intn(12))
		g.big = append(g.big, b, comp(b, 5+g.r.Intn(16)))
	}
	if hint {
		// Skips, again and again: 1 to 3.5 million units of work.
		n := 1000 + g.r.Intn(2500)
		prog := []byte{0xb8, byte(n >> 8), byte(n)}
		loop := len(prog)
		prog = append(prog, 0xb0, 0, 0x58)
		for i := 0; i < 4; i++ {
			prog = append(prog, 0x40, 250)
			prog = append(prog, make([]byte, 250)...)
		}
		prog = append(prog, 0x59, 0xb0, 1, 0x61, 0x20, 0xb8, 0, 0, 0x23, 0x78)
		back := loop - (len(prog) - 1)
		prog[len(prog)-4], prog[len(prog)-3] = byte(back>>8), byte(back)
		d := append(hdr(1), 0, 3)
		d = append(append(d, u16b(len(prog))...), prog...)
		d = append(d, 1, 1, 1, 1)
		u := g.upem / 2
		for _, v := range []int{0, u, 0, -u, 0, 0, u, 0} {
			d = append(d, u16b(v)...)
		}
		g.big = append(g.big, add(glyph{data: d, np: 4, nc: 1, box: [4]int{0, 0, u, u}}))
	}
}

func (g *gen) simple(hint, plain bool) glyph {
	gl := glyph{}
	nc := 1 + g.r.Intn(3)
	if g.o.Many || g.o.Small {
		nc = 1 + g.r.Intn(2)
	}
	type pt struct {
		x, y int
		on   bool
	}
	var pts []pt
	var ends []int
	u := g.upem
	for c := 0; c < nc; c++ {
		k := 3 + g.r.Intn(6)
		if g.p(5) {
			k = 1 + g.r.Intn(2)
		}
		cx, cy := g.r.Intn(u)-u/8, g.r.Intn(u)-u/4
		rad := 1 + g.r.Intn(u/2)
		for j := 0; j < k; j++ {
			p := pt{cx + g.r.Intn(2*rad) - rad, cy + g.r.Intn(2*rad) - rad, g.p(65)}
			if g.p(15) && len(pts) > 0 { // aligned with the previous point
				if g.p(50) {
					p.x = pts[len(pts)-1].x
				} else {
					p.y = pts[len(pts)-1].y
				}
			}
			pts = append(pts, p)
		}
		ends = append(ends, len(pts)-1)
	}
	gl.np, gl.nc = len(pts), nc
	box := [4]int{1 << 20, 1 << 20, -1 << 20, -1 << 20}
	for _, p := range pts {
		box[0], box[1] = min(box[0], p.x), min(box[1], p.y)
		box[2], box[3] = max(box[2], p.x), max(box[3], p.y)
	}
	gl.box = box
	var d []byte
	d = append(d, u16b(nc)...)
	for _, v := range box {
		d = append(d, u16b(v)...)
	}
	for _, e := range ends {
		d = append(d, u16b(e)...)
	}
	var prog []byte
	if hint && !plain && g.p(80) {
		prog = g.glyphProgram(gl.np, nc)
	}
	d = append(d, u16b(len(prog))...)
	d = append(d, prog...)
	// Flags and coordinates.
	var flags []byte
	var xs, ys []byte
	px, py := 0, 0
	for _, p := range pts {
		f := byte(0)
		if p.on {
			f = 1
		}
		dx, dy := p.x-px, p.y-py
		px, py = p.x, p.y
		switch {
		case dx == 0:
			f |= 0x10
		case dx > 0 && dx < 256:
			f |= 0x12
			xs = append(xs, byte(dx))
		case dx < 0 && dx > -256:
			f |= 0x02
			xs = append(xs, byte(-dx))
		default:
			xs = append(xs, u16b(dx)...)
		}
		switch {
		case dy == 0:
			f |= 0x20
		case dy > 0 && dy < 256:
			f |= 0x24
			ys = append(ys, byte(dy))
		case dy < 0 && dy > -256:
			f |= 0x04
			ys = append(ys, byte(-dy))
		default:
			ys = append(ys, u16b(dy)...)
		}
		if g.marks != 0 && g.p(40) {
			f |= g.marks
		}
		flags = append(flags, f)
	}
	for i := 0; i < len(flags); {
		j := i
		for j+1 < len(flags) && flags[j+1] == flags[i] && j-i < 200 {
			j++
		}
		if j > i {
			d = append(d, flags[i]|8, byte(j-i))
		} else {
			d = append(d, flags[i])
		}
		i = j + 1
	}
	d = append(d, xs...)
	d = append(d, ys...)
	gl.data = d
	return gl
}

func (g *gen) compound(i int, hint bool) glyph {
	gl := glyph{box: [4]int{0, 0, g.upem / 2, g.upem / 2}}
	k := 1 + g.r.Intn(3)
	var d []byte
	d = append(d, u16b(-1)...)
	for _, v := range gl.box {
		d = append(d, u16b(v)...)
	}
	instr := hint && g.p(40)
	for c := 0; c < k; c++ {
		ci := g.r.Intn(i)
		for t := 0; t < 4 && (g.glyphs[ci].depth >= 3); t++ {
			ci = g.r.Intn(i)
		}
		if g.glyphs[ci].depth >= 3 {
			ci = 0
		}
		s := g.glyphs[ci]
		gl.depth = max(gl.depth, s.depth+1)
		gl.np += s.np
		gl.nc += s.nc
		flags := 0x0002
		if c+1 < k {
			flags |= 0x20
		}
		if g.p(30) {
			flags |= 0x0004
		}
		if g.p(25) {
			flags |= 0x0200
		}
		if c+1 == k && instr {
			flags |= 0x0100
		}
		dx, dy := g.r.Intn(g.upem)-g.upem/2, g.r.Intn(g.upem/2)-g.upem/4
		var args []byte
		if dx >= -128 && dx < 128 && dy >= -128 && dy < 128 {
			args = []byte{byte(dx), byte(dy)}
		} else {
			flags |= 1
			args = append(u16b(dx), u16b(dy)...)
		}
		var tr []byte
		sc := func() []byte { return u16b(g.r.Intn(0x6000) - 0x2000) }
		switch g.r.Intn(6) {
		case 0:
			flags |= 0x08
			tr = sc()
		case 1:
			flags |= 0x40
			tr = append(sc(), sc()...)
		case 2:
			flags |= 0x80
			tr = append(append(append(sc(), sc()...), sc()...), sc()...)
		}
		d = append(d, u16b(flags)...)
		d = append(d, u16b(ci)...)
		d = append(d, args...)
		d = append(d, tr...)
	}
	if instr {
		prog := g.glyphProgram(gl.np, gl.nc)
		d = append(d, u16b(len(prog))...)
		d = append(d, prog...)
	} else if hint && g.p(50) {
		d = append(d, 0, 0)
	}
	gl.data = d
	return gl
}

// badGlyph makes a glyph that is well-formed but cannot be loaded.
func (g *gen) badGlyph(i int, hint bool) glyph {
	gl := glyph{box: [4]int{0, 0, g.upem / 2, g.upem / 2}, depth: 1}
	hdr := func(n int) (d []byte) {
		d = append(d, u16b(n)...)
		for _, v := range gl.box {
			d = append(d, u16b(v)...)
		}
		return
	}
	k := g.r.Intn(5)
	if k >= 3 && !hint {
		k = g.r.Intn(3)
	}
	switch k {
	case 0: // reserved number of contours
		gl.data = append(hdr(-2), 0, 0)
	case 1: // matching points, after a good component
		d := hdr(-1)
		d = append(d, u16b(0x0023)...)
		d = append(d, u16b(g.r.Intn(2)*2)...)
		d = append(d, 0, 0, 0, 0)
		d = append(d, u16b(0x0001)...)
		d = append(d, u16b(0)...)
		d = append(d, 0, 1, 0, 1)
		gl.data = d
	case 2: // contains itself
		d := hdr(-1)
		d = append(d, u16b(0x0023)...)
		d = append(d, u16b(0)...)
		d = append(d, 0, 0, 0, 0)
		d = append(d, u16b(0x0003)...)
		d = append(d, u16b(i)...)
		d = append(d, 0, 1, 0, 1)
		gl.data = d
		gl.depth = 100
	default: // a program that fails after having had effects
		a := &asm{g: g, np: 4, nc: 1}
		for k := g.r.Intn(6); k >= 0; k-- {
			a.stmt(2)
		}
		a.b = append(a.b, []byte{0x21, 0x21, 0x28, 0x2c, 0x89}[g.r.Intn(5)])
		a.b = append(a.b, 0x21, 0x21, 0x21, 0x28)
		gl.np, gl.nc = 4, 1
		d := hdr(1)
		d = append(d, u16b(3)...)
		d = append(d, u16b(len(a.b))...)
		d = append(d, a.b...)
		u := g.upem / 2
		d = append(d, 1, 1, 1, 1)
		for _, v := range []int{0, u, 0, -u} {
			d = append(d, u16b(v)...)
		}
		for _, v := range []int{0, 0, u, 0} {
			d = append(d, u16b(v)...)
		}
		gl.data = d
	}
	return gl
}

func (g *gen) assemble(fpgm, prep, cvt []byte, empty int) ([]byte, *Info) {
	n := len(g.glyphs)
	r := g.r
	long := g.p(50)
	var glyf, loca []byte
	off := func() {
		if long {
			loca = append(loca, u32b(len(glyf))...)
		} else {
			loca = append(loca, u16b(len(glyf)/2)...)
		}
	}
	box := [4]int{0, 0, 1, 1}
	for _, gl := range g.glyphs {
		off()
		glyf = append(glyf, gl.data...)
		if len(glyf)%2 == 1 {
			glyf = append(glyf, 0)
		}
		if !gl.empty {
			box[0], box[1] = min(box[0], gl.box[0]), min(box[1], gl.box[1])
			box[2], box[3] = max(box[2], gl.box[2]), max(box[3], gl.box[3])
		}
	}
	off()
	if !g.o.HonestBox && g.p(25) { // a bounding box that is too small
		for i := range box {
			box[i] /= 2
		}
	} else if g.o.HonestBox {
		// Compounds and programs may reach further.
		box = [4]int{-4 * g.upem, -4 * g.upem, 5 * g.upem, 5 * g.upem}
		for i := range box {
			box[i] = max(-32000, min(32000, box[i]))
		}
	}
	head := make([]byte, 54)
	binary.BigEndian.PutUint32(head[0:], 0x00010000)
	binary.BigEndian.PutUint16(head[18:], uint16(g.upem))
	for i, v := range box {
		binary.BigEndian.PutUint16(head[36+2*i:], uint16(v))
	}
	if long {
		head[51] = 1
	}
	maxp := make([]byte, 32)
	binary.BigEndian.PutUint32(maxp[0:], 0x00010000)
	binary.BigEndian.PutUint16(maxp[4:], uint16(n))
	binary.BigEndian.PutUint16(maxp[16:], uint16(g.nt))
	binary.BigEndian.PutUint16(maxp[18:], uint16(g.ns))
	binary.BigEndian.PutUint16(maxp[20:], uint16(g.nfn+4))
	binary.BigEndian.PutUint16(maxp[24:], uint16(64+r.Intn(400)))
	nh := n
	if g.p(40) {
		nh = 1 + r.Intn(n)
	}
	hhea := make([]byte, 36)
	asc := g.upem * 3 / 4
	binary.BigEndian.PutUint16(hhea[4:], uint16(asc))
	binary.BigEndian.PutUint16(hhea[6:], uint16(asc-g.upem))
	binary.BigEndian.PutUint16(hhea[34:], uint16(nh))
	var hmtx []byte
	for i := 0; i < n; i++ {
		if i < nh {
			hmtx = append(hmtx, u16b(g.upem/4+r.Intn(g.upem))...)
		}
		lsb := g.glyphs[i].box[0]
		if g.p(20) {
			lsb += r.Intn(50) - 25
		}
		hmtx = append(hmtx, u16b(lsb)...)
	}
	tabs := map[string][]byte{"head": head, "maxp": maxp, "hhea": hhea, "hmtx": hmtx, "loca": loca, "glyf": glyf}
	if len(fpgm) > 0 {
		tabs["fpgm"] = fpgm
	}
	if len(prep) > 0 {
		tabs["prep"] = prep
	}
	if len(cvt) > 0 {
		tabs["cvt "] = cvt
	}
	// Character map: letters, some runes that share low bits, a few that are
	// unmapped.
	type seg struct{ s, e, gi int }
	var segs []seg
	a := 1 + r.Intn(40)
	segs = append(segs, seg{'A', 'A' + min(n-2, 25), 1})
	segs = append(segs, seg{'a', 'a' + min(n-1, 25), 0})
	segs = append(segs, seg{'A' + 256, 'A' + 256 + min(n-1, 25), min(n-1, a%n)})
	segs = append(segs, seg{0x400, 0x400 + n - 1, 0})
	for i := range segs {
		if segs[i].gi+segs[i].e-segs[i].s >= n {
			segs[i].e = segs[i].s + n - 1 - segs[i].gi
		}
	}
	var runes []rune
	for _, s := range segs {
		for c := s.s; c <= s.e && len(runes) < 400; c++ {
			runes = append(runes, rune(c))
		}
	}
	runes = append(runes, 0x20, 0xfffd, 0x10ffff)
	if g.p(70) {
		k := len(segs) + 1
		sub := append(append(append(u16b(4), u16b(16+8*k)...), u16b(0)...), u16b(2*k)...)
		sub = append(sub, 0, 0, 0, 0, 0, 0)
		var st, en, de, of, idx []byte
		for _, s := range segs {
			en = append(en, u16b(s.e)...)
			st = append(st, u16b(s.s)...)
		}
		en = append(en, 0xff, 0xff)
		st = append(st, 0xff, 0xff)
		for i, s := range segs {
			if i == 1 && g.p(60) { // through the glyph index array
				of = append(of, u16b(2*(k-i)+len(idx))...)
				de = append(de, 0, 0)
				for c := s.s; c <= s.e; c++ {
					idx = append(idx, u16b(s.gi+c-s.s)...)
				}
			} else {
				of = append(of, 0, 0)
				de = append(de, u16b(s.gi-s.s)...)
			}
		}
		of = append(of, 0, 0)
		de = append(de, 0, 1)
		sub = append(append(append(append(append(append(sub, en...), 0, 0), st...), de...), of...), idx...)
		tabs["cmap"] = append(append(append(append([]byte{}, 0, 0, 0, 1), 0, 3, 0, 1), u32b(12)...), sub...)
	} else {
		if a%3 == 0 { // a group of what no rune is
			segs = append(segs, seg{1<<32 - 16, 1<<32 - 1, max(0, n-16)})
		}
		k := len(segs)
		sub := append(append(append(append(u16b(12), 0, 0), u32b(16+12*k)...), u32b(0)...), u32b(k)...)
		for _, s := range segs {
			sub = append(append(append(sub, u32b(s.s)...), u32b(s.e)...), u32b(s.gi)...)
		}
		tabs["cmap"] = append(append(append(append([]byte{}, 0, 0, 0, 1), 0, 0, 0, 4), u32b(12)...), sub...)
	}
	if g.p(60) {
		var pairs []byte
		cnt := 0
		for l := 0; l < n && cnt < 60; l++ {
			for q := 0; q < n && cnt < 60; q++ {
				if g.p(12) {
					pairs = append(append(append(pairs, u16b(l)...), u16b(q)...), u16b(r.Intn(g.upem/4)-g.upem/8)...)
					cnt++
				}
			}
		}
		if cnt > 0 {
			k := append(append(append(append([]byte{0, 0, 0, 1, 0, 0}, u16b(14+6*cnt)...), 0, 1), u16b(cnt)...), 0, 0, 0, 0, 0, 0)
			tabs["kern"] = append(k, pairs...)
		}
	}
	if g.p(30) {
		var v []byte
		for i := 0; i < n; i++ {
			v = append(append(v, u16b(g.upem)...), u16b(r.Intn(50))...)
		}
		tabs["vmtx"] = v
	}
	if g.p(40) {
		o := make([]byte, 96)
		binary.BigEndian.PutUint16(o[68:], uint16(asc))
		binary.BigEndian.PutUint16(o[70:], uint16(asc-g.upem))
		tabs["OS/2"] = o
	}
	if g.p(30) {
		rec := (2 + n + 3) &^ 3
		if rec < n+4 {
			rec += 4
		}
		h := append(append([]byte{0, 0}, u16b(3)...), u32b(rec)...)
		for _, ppem := range []int{9, 12, 20} {
			row := make([]byte, rec)
			row[0] = byte(ppem)
			row[1] = byte(ppem)
			for i := 0; i < n; i++ {
				row[2+i] = byte(ppem/3 + r.Intn(ppem))
			}
			h = append(h, row...)
		}
		tabs["hdmx"] = h
	}
	if g.p(40) {
		tabs["name"] = g.names()
	}
	order := []string{"OS/2", "cmap", "cvt ", "fpgm", "glyf", "hdmx", "head", "hhea", "hmtx", "kern", "loca", "maxp", "name", "prep", "vmtx"}
	info := &Info{NGlyph: n, Empty: empty, Bad: g.bad, Big: g.big, Runes: runes, Tables: map[string][2]int{}}
	base := 0
	var out []byte
	if g.p(10) { // a collection of one
		out = append(append(append(append(out, "ttcf"...), 0, 1, 0, 0), u32b(1)...), u32b(16)...)
		base = 16
	}
	nt := 0
	for _, k := range order {
		if _, ok := tabs[k]; ok {
			nt++
		}
	}
	dir := append(append([]byte{0, 1, 0, 0}, u16b(nt)...), 0, 0, 0, 0, 0, 0)
	pos := base + 12 + 16*nt
	var body []byte
	for _, k := range order {
		t, ok := tabs[k]
		if !ok {
			continue
		}
		info.Tables[k] = [2]int{pos + len(body), len(t)}
		dir = append(dir, k...)
		dir = append(append(append(dir, 0, 0, 0, 0), u32b(pos+len(body))...), u32b(len(t))...)
		body = append(body, t...)
		for len(body)%4 != 0 {
			body = append(body, 0)
		}
	}
	out = append(append(out, dir...), body...)
	return out, info
}

// names makes a name table: the same few names in many fonts, in one or more
// encodings and languages.
func (g *gen) names() []byte {
	type rec struct {
		plat, enc, lang, id int
		text                string
	}
	recs := []rec{{1, 0, 0, 1, "Sim"}, {3, 1, 0, 4, "Te"}}
	if g.p(50) {
		recs = recs[:1]
		for _, id := range []int{1, 2, 4, 6}[g.r.Intn(3):] {
			for _, lang := range []int{0x409, 0x40c, 0x407, 0x411}[:1+g.r.Intn(4)] {
				plat, enc := 3, 1
				if g.p(15) {
					plat, enc = 0, 3
				}
				recs = append(recs, rec{plat, enc, lang, id, []string{"Te", "Sim", "Re", "Fo\u00e9"}[g.r.Intn(4)]})
			}
		}
	}
	t := append(append([]byte{0, 0}, u16b(len(recs))...), u16b(6+12*len(recs))...)
	var body []byte
	for _, c := range recs {
		var x []byte
		for _, ch := range c.text {
			if c.plat != 1 {
				x = append(x, byte(ch>>8))
			}
			x = append(x, byte(ch))
		}
		for _, v := range []int{c.plat, c.enc, c.lang, c.id, len(x), len(body)} {
			t = append(t, u16b(v)...)
		}
		body = append(body, x...)
	}
	return append(t, body...)
}
