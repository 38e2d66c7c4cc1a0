package synth

// Programs are generated statement by statement; every statement leaves the
// stack as it found it, so that programs run to their end.

type asm struct {
	g    *gen
	b    []byte
	np   int // points of the glyph, without phantom points; 0 outside of glyphs
	nc   int
	noFn bool
	deep int
}

func (g *gen) fontProgram() []byte {
	a := &asm{g: g, noFn: true}
	for i := 0; i < g.nfn; i++ {
		a.push(i)
		a.op(0x2c)
		f := &asm{g: g, noFn: i == 0 || g.p(70)}
		for k := g.r.Intn(4); k >= 0; k-- {
			f.stmt(2)
		}
		a.b = append(a.b, f.b...)
		a.op(0x2d)
	}
	for k := g.r.Intn(3); k > 0; k-- {
		a.stmt(1)
	}
	return a.b
}

func (g *gen) prepProgram() []byte {
	a := &asm{g: g}
	for k := 1 + g.r.Intn(8); k > 0; k-- {
		if g.p(50) {
			a.state()
		} else {
			a.stmt(2)
		}
	}
	if g.p(15) { // a function defined at some sizes only
		a.op(0x4b)
		a.push(10 + g.r.Intn(12))
		a.op(0x52, 0x58)
		a.push(g.r.Intn(g.nfn))
		a.op(0x2c)
		f := &asm{g: g, noFn: true}
		f.stmt(1)
		a.b = append(a.b, f.b...)
		a.op(0x2d, 0x59)
	}
	return a.b
}

func (g *gen) glyphProgram(np, nc int) []byte {
	a := &asm{g: g, np: np, nc: nc}
	n := 1 + g.r.Intn(8)
	if g.o.Heavy {
		n += g.r.Intn(16)
	}
	for ; n > 0; n-- {
		a.stmt(3)
	}
	if g.p(60) {
		a.op(0x30 + byte(g.r.Intn(2)))
	}
	if g.p(50) {
		a.op(0x30, 0x31)
	}
	return a.b
}

func (a *asm) op(bs ...byte) { a.b = append(a.b, bs...) }

func (a *asm) push(vs ...int) {
	for _, v := range vs {
		switch {
		case v >= 0 && v < 256 && a.g.p(80):
			if a.g.p(80) {
				a.op(0xb0, byte(v))
			} else {
				a.op(0x40, 1, byte(v))
			}
		default:
			if a.g.p(80) {
				a.op(0xb8, byte(v>>8), byte(v))
			} else {
				a.op(0x41, 1, byte(v>>8), byte(v))
			}
		}
	}
}

// pt returns a point of the zone.
func (a *asm) pt(z int) int {
	n := a.g.nt
	if z == 1 {
		n = a.np
		if n > 0 && a.g.p(10) {
			n += 4
		}
	}
	if n <= 0 {
		return 0
	}
	if !a.g.o.Safe && a.g.p(1) {
		return n + 4 + a.g.r.Intn(3)
	}
	return a.g.r.Intn(n)
}

// zone picks a zone that has points.
func (a *asm) zone() int {
	if a.np == 0 {
		return 0
	}
	if a.g.nt == 0 {
		return 1
	}
	if a.g.p(20) {
		return 0
	}
	return 1
}

func (a *asm) val(d int) {
	g := a.g
	k := g.r.Intn(14)
	if d <= 0 {
		k = g.r.Intn(8)
	}
	switch k {
	case 0, 1, 2:
		a.push(g.r.Intn(256) - 64)
	case 3, 4:
		a.push(g.r.Intn(g.ns))
		a.op(0x43)
	case 5, 6:
		a.push(g.r.Intn(g.ncvt))
		a.op(0x45)
	case 7:
		a.op(0x4b + byte(g.r.Intn(2)))
	case 8:
		a.val(d - 1)
		a.val(d - 1)
		a.op([]byte{0x60, 0x61, 0x63, 0x8b, 0x8c, 0x50, 0x52, 0x54, 0x5a, 0x5b}[g.r.Intn(10)])
	case 9:
		a.val(d - 1)
		a.op([]byte{0x64, 0x65, 0x66, 0x67, 0x68, 0x69, 0x6c, 0x56, 0x57, 0x5c}[g.r.Intn(10)])
	case 10:
		a.val(d - 1)
		a.push(64 * (1 + g.r.Intn(4)))
		a.op(0x62)
	case 11:
		if g.nt == 0 && a.np == 0 {
			a.push(7)
			return
		}
		z := a.zone()
		a.push(z)
		a.op(0x15)
		a.push(a.pt(z))
		a.op(0x46 + byte(g.r.Intn(2)))
	case 12:
		a.push(0x21)
		a.op(0x88)
	case 13:
		a.val(d - 1)
		a.val(d - 1)
		switch g.r.Intn(4) {
		case 0:
			a.op(0x23, 0x21)
		case 1:
			a.op(0x20, 0x21, 0x61)
		case 2:
			a.push(1 + g.r.Intn(2))
			a.op(0x25, 0x21, 0x60)
		case 3:
			a.push(1)
			a.op(0x26, 0x61)
		}
	}
}

// state changes the graphics state, storage or control values.
func (a *asm) state() {
	g := a.g
	switch g.r.Intn(20) {
	case 0, 1, 2:
		a.push(g.r.Intn(g.ns))
		a.val(2)
		a.op(0x42)
	case 3, 4:
		a.push(g.r.Intn(g.ncvt))
		a.val(1)
		a.op(0x44)
	case 5:
		a.push(g.r.Intn(g.ncvt))
		a.push(g.r.Intn(g.upem))
		a.op(0x70)
	case 6:
		a.op([]byte{0x18, 0x19, 0x3d, 0x7a, 0x7c, 0x7d}[g.r.Intn(6)])
	case 7:
		a.push(g.r.Intn(256))
		a.op(0x76 + byte(g.r.Intn(2)))
	case 8:
		a.push(g.r.Intn(128))
		a.op(0x1a)
	case 9:
		a.push(g.r.Intn(160))
		a.op(0x1d)
	case 10:
		a.push(g.r.Intn(100))
		a.op(0x1e)
	case 11:
		a.push(g.r.Intn(g.upem))
		a.op(0x1f)
	case 12:
		a.push(g.r.Intn(30))
		a.op(0x5e)
	case 13:
		a.push(g.r.Intn(7))
		a.op(0x5f)
	case 14:
		a.op(0x4d + byte(g.r.Intn(2)))
	case 15:
		// A delta on a control value, near the current size.
		a.push(g.r.Intn(256), g.r.Intn(g.ncvt), 1)
		a.op(0x73 + byte(g.r.Intn(3)))
	case 16:
		a.op(byte(g.r.Intn(6)))
	case 17:
		a.push(g.r.Intn(3), 1)
		a.op(0x8e)
	case 18:
		if g.nt > 0 {
			// Place a twilight point.
			a.push(0)
			a.op(0x16)
			a.push(a.pt(0), g.r.Intn(g.ncvt))
			a.op(0x3e + byte(g.r.Intn(2)))
			a.push(1)
			a.op(0x16)
		}
	case 19:
		z := a.zone()
		if z == 1 || g.nt > 0 {
			a.push(a.pt(z))
			a.op(0x10 + byte(g.r.Intn(3)))
		}
	}
}

func (a *asm) setZones() (z [3]int) {
	g := a.g
	if g.p(60) {
		v := a.zone()
		a.push(v)
		a.op(0x16)
		return [3]int{v, v, v}
	}
	for i := range z {
		z[i] = a.zone()
		a.push(z[i])
		a.op(0x13 + byte(i))
	}
	return
}

func (a *asm) setRefs(z [3]int) {
	// rp0 belongs to zp0, rp1 to zp0, rp2 to zp1.
	a.push(a.pt(z[0]))
	a.op(0x10)
	a.push(a.pt(z[0]))
	a.op(0x11)
	a.push(a.pt(z[1]))
	a.op(0x12)
}

// point does something to points.
func (a *asm) point() {
	g := a.g
	if g.nt == 0 && a.np == 0 {
		a.state()
		return
	}
	z := a.setZones()
	if g.p(70) {
		a.op(byte(g.r.Intn(2)))
	}
	if g.p(60) {
		a.setRefs(z)
	}
	n := 1
	if g.p(20) {
		n = 1 + g.r.Intn(3)
		a.push(n)
		a.op(0x17)
	}
	loopPts := func(z int) {
		for i := 0; i < n; i++ {
			a.push(a.pt(z))
		}
	}
	single := func() {
		if n != 1 {
			a.push(1)
			a.op(0x17)
		}
	}
	switch g.r.Intn(20) {
	case 0, 1:
		single()
		a.push(a.pt(z[0]))
		a.op(0x2e + byte(g.r.Intn(2)))
	case 2, 3:
		single()
		a.push(a.pt(z[0]), g.r.Intn(g.ncvt))
		a.op(0x3e + byte(g.r.Intn(2)))
	case 4, 5:
		single()
		a.push(a.pt(z[1]))
		a.op(0xc0 + byte(g.r.Intn(32)))
	case 6, 7:
		single()
		if z[1] == 0 {
			return
		}
		a.push(a.pt(z[1]), g.r.Intn(g.ncvt))
		a.op(0xe0 + byte(g.r.Intn(32)))
	case 8:
		single()
		a.push(a.pt(z[1]))
		a.val(1)
		a.op(0x3a + byte(g.r.Intn(2)))
	case 9:
		loopPts(z[2])
		a.op(0x32 + byte(g.r.Intn(2)))
	case 10:
		loopPts(z[2])
		a.val(2)
		a.op(0x38)
	case 11:
		loopPts(z[2])
		a.op(0x39)
	case 12:
		loopPts(z[1])
		a.op(0x3c)
	case 13:
		single()
		if z[2] == 1 && a.nc > 0 {
			a.push(g.r.Intn(a.nc))
			a.op(0x34 + byte(g.r.Intn(2)))
		}
	case 14:
		single()
		a.push(g.r.Intn(2))
		a.op(0x36 + byte(g.r.Intn(2)))
	case 15:
		single()
		a.push(a.pt(z[2]))
		a.val(1)
		a.op(0x48)
	case 16:
		single()
		// A delta near the current size.
		a.push(g.r.Intn(256), a.pt(z[0]), 1)
		a.op([]byte{0x5d, 0x71, 0x72}[g.r.Intn(3)])
	case 17:
		if a.np > 0 {
			for i := 0; i < n; i++ {
				a.push(g.r.Intn(a.np))
			}
			a.op(0x80)
		} else {
			single()
		}
	case 18:
		single()
		if a.np > 1 {
			i := g.r.Intn(a.np)
			a.push(i, i+g.r.Intn(a.np-i))
			a.op(0x81 + byte(g.r.Intn(2)))
		}
	case 19:
		single()
		switch g.r.Intn(4) {
		case 0:
			a.push(a.pt(z[2]), a.pt(z[1]), a.pt(z[1]), a.pt(z[0]), a.pt(z[0]))
			a.op(0x0f)
		case 1:
			a.push(a.pt(z[1]), a.pt(z[0]))
			a.op(0x27)
		case 2:
			a.push(a.pt(z[0]))
			a.op(0x29)
		case 3:
			if z[0] == z[1] && z[1] == z[2] {
				a.push(a.pt(z[1]), a.pt(z[0]))
				a.op([]byte{0x06, 0x07, 0x08, 0x09, 0x86, 0x87}[g.r.Intn(6)])
				a.push(a.pt(z[0]))
				a.op(0x2f)
				a.op(byte(g.r.Intn(2)))
			}
		}
	}
	if g.p(50) {
		a.push(1)
		a.op(0x16)
	}
}

func (a *asm) stmt(d int) {
	g := a.g
	a.deep++
	defer func() { a.deep-- }()
	k := g.r.Intn(100)
	switch {
	case k < 45:
		a.point()
	case k < 75:
		a.state()
	case k < 85 && a.deep < 4:
		a.val(1)
		if g.p(50) {
			a.push(g.r.Intn(40))
			a.op(0x50 + byte(g.r.Intn(6)))
		}
		a.op(0x58)
		a.stmt(d - 1)
		if g.p(50) {
			a.op(0x1b)
			a.stmt(d - 1)
		}
		a.op(0x59)
	case k < 95 && !a.noFn:
		if g.p(70) {
			a.push(g.r.Intn(g.nfn))
			a.op(0x2b)
		} else {
			a.push(1+g.r.Intn(3), g.r.Intn(g.nfn))
			a.op(0x2a)
		}
	case k < 96 && a.np > 0:
		// A glyph redefines a function.
		a.push(g.r.Intn(g.nfn))
		a.op(0x2c)
		f := &asm{g: g, noFn: true}
		f.stmt(1)
		a.b = append(a.b, f.b...)
		a.op(0x2d)
	case k < 97 && a.np > 0 && !g.o.NoBad:
		// Deep stack use: fails in fonts that declare a small stack.
		n := g.r.Intn(250)
		a.op(0x40, byte(n))
		for i := 0; i < n; i++ {
			a.op(byte(i))
		}
		a.op(0x22)
	default:
		a.state()
	}
}
