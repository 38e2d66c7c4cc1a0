package core

import (
	"sort"

	"github.com/golang/freetype/verifsim/synth"
)

// Storage faults: what a failing disk, an interrupted download or a hostile
// sender leaves of a font file.

// DamageKinds lists the kinds.
var DamageKinds = []string{"bitflip", "byte", "u16", "u32", "zeroed-sector", "random-sector", "misdirected-block", "torn-write", "directory", "loca", "glyph-header", "component", "program", "component-web", "table-length", "hdmx", "edge-program", "glyph-end"}

var boundary16 = []int{0, 1, 2, 0x7f, 0x80, 0xff, 0x100, 0x7fff, 0x8000, 0x8001, 0xfffe, 0xffff}
var boundary32 = []int{0, 1, 0x7fffffff, 0x80000000, 0xffffffff, 0xfffffffe, 0x10000, 0xffff, 0x15555555, 0x40000000}

// regions returns the parts of the file a fault can hit: its tables in order of
// their names, then header and directory.
func regions(n int, in *synth.Info) (names []string, reg [][2]int) {
	for k := range in.Tables {
		names = append(names, k)
	}
	sort.Strings(names)
	for _, k := range names {
		reg = append(reg, in.Tables[k])
	}
	hdr := 12 + 16*len(names)
	names = append(names, "header")
	reg = append(reg, [2]int{0, hdr})
	for i := range reg {
		if reg[i][0] > n {
			reg[i][0] = n
		}
		if reg[i][0]+reg[i][1] > n {
			reg[i][1] = n - reg[i][0]
		}
	}
	return
}

func umod(v, n int) int {
	if n <= 0 {
		return 0
	}
	v %= n
	if v < 0 {
		v += n
	}
	return v
}

// glyphRaw returns the position and size of a glyph's data, or -1.
func glyphRaw(b []byte, in *synth.Info, g int) (int, int) {
	get16 := func(at int) int {
		if at < 0 || at+2 > len(b) {
			return 0
		}
		return int(b[at])<<8 | int(b[at+1])
	}
	get32 := func(at int) int { return get16(at)<<16 | get16(at+2) }
	loca, glyf := in.Tables["loca"], in.Tables["glyf"]
	long := false
	if h := in.Tables["head"]; h[0]+52 <= len(b) {
		long = b[h[0]+51] == 1
	}
	var o0, o1 int
	if long {
		o0, o1 = get32(loca[0]+4*g), get32(loca[0]+4*g+4)
	} else {
		o0, o1 = 2*get16(loca[0]+2*g), 2*get16(loca[0]+2*g+2)
	}
	if o1 >= o0+10 && glyf[0]+o1 <= len(b) {
		return glyf[0] + o0, o1 - o0
	}
	return -1, 0
}

// Damage applies a fault to b in place. It returns how to undo it.
func Damage(b []byte, in *synth.Info, f *Fault) (undo func()) {
	_, reg := regions(len(b), in)
	r := reg[umod(f.Arg(0), len(reg))]
	var olds []struct {
		at int
		b  []byte
	}
	end := len(b)
	if f.Arg(4) == 1 { // not beyond the table
		end = r[0] + r[1]
	}
	save := func(at, n int) bool {
		if at < 0 || n <= 0 || at+n > end {
			return false
		}
		olds = append(olds, struct {
			at int
			b  []byte
		}{at, append([]byte(nil), b[at:at+n]...)})
		return true
	}
	undo = func() {
		for i := len(olds) - 1; i >= 0; i-- {
			copy(b[olds[i].at:], olds[i].b)
		}
	}
	put16 := func(at, v int) {
		if save(at, 2) {
			b[at], b[at+1] = byte(v>>8), byte(v)
		}
	}
	put32 := func(at, v int) {
		if save(at, 4) {
			b[at], b[at+1], b[at+2], b[at+3] = byte(v>>24), byte(v>>16), byte(v>>8), byte(v)
		}
	}
	get16 := func(at int) int {
		if at < 0 || at+2 > len(b) {
			return 0
		}
		return int(b[at])<<8 | int(b[at+1])
	}
	get32 := func(at int) int { return get16(at)<<16 | get16(at+2) }
	if len(b) == 0 || r[1] <= 0 && f.Kind != "directory" && f.Kind != "loca" {
		return
	}
	at := r[0] + umod(f.Arg(1), r[1])
	glyphAt := func(k int) (int, int) { // position and size of a glyph that has data
		for t := 0; t < in.NGlyph; t++ {
			if g, n := glyphRaw(b, in, umod(k+t, in.NGlyph)); g >= 0 {
				return g, n
			}
		}
		return -1, 0
	}
	switch f.Kind {
	case "bitflip":
		if save(at, 1) {
			b[at] ^= 1 << uint(umod(f.Arg(2), 8))
		}
	case "byte":
		if save(at, 1) {
			b[at] = []byte{0, 1, 0x7f, 0x80, 0xff, b[at] + 1, b[at] - 1, byte(f.Arg(3))}[umod(f.Arg(2), 8)]
		}
	case "u16":
		at = r[0] + (at-r[0])&^1
		k := umod(f.Arg(2), len(boundary16)+4)
		switch {
		case k < len(boundary16):
			put16(at, boundary16[k])
		case k == len(boundary16):
			put16(at, get16(at)+1)
		case k == len(boundary16)+1:
			put16(at, get16(at)-1)
		case k == len(boundary16)+2:
			put16(at, 2*get16(at))
		default:
			put16(at, f.Arg(3))
		}
	case "u32":
		at = r[0] + (at-r[0])&^1
		switch k := umod(f.Arg(2), 4*len(boundary32)); {
		case k < 2*len(boundary32):
			put32(at, boundary32[k/2])
		case k < 3*len(boundary32): // a small count
			put32(at, umod(f.Arg(3), 600))
		case k&1 == 0:
			put32(at, get32(at)+1)
		default:
			put32(at, get32(at)-1)
		}
	case "zeroed-sector", "random-sector":
		n := []int{1, 2, 4, 16, 64, 512}[umod(f.Arg(2), 6)]
		n = min(n, end-at)
		if save(at, n) {
			s := NewRng(uint64(f.Arg(3)))
			for i := at; i < at+n; i++ {
				b[i] = 0
				if f.Kind == "random-sector" {
					b[i] = byte(s.U64())
				}
			}
		}
	case "misdirected-block":
		n := []int{2, 4, 16, 64, 512}[umod(f.Arg(2), 5)]
		from := umod(f.Arg(3), len(b))
		n = min(n, end-at, len(b)-from)
		if save(at, n) {
			copy(b[at:at+n], append([]byte(nil), b[from:from+n]...))
		}
	case "torn-write":
		// From here on to the end of the region: old content, shifted.
		n := r[0] + r[1] - at
		sh := 1 + umod(f.Arg(2), 8)
		if n > sh && save(at, n) {
			copy(b[at:at+n-sh], b[at+sh:at+n])
		}
	case "directory":
		k := umod(f.Arg(1), max(1, len(in.Tables)))
		e := 12 + 16*k
		if string(b[:min(4, len(b))]) == "ttcf" {
			e += 16
		}
		switch umod(f.Arg(2), 6) {
		case 0:
			put32(e+8, boundary32[umod(f.Arg(3), len(boundary32))])
		case 1:
			put32(e+12, boundary32[umod(f.Arg(3), len(boundary32))])
		case 2:
			put32(e+12, max(0, get32(e+12)-1-umod(f.Arg(3), 64)))
		case 3: // a length that just fits, or does not
			put32(e+12, len(b)-get32(e+8)+umod(f.Arg(3), 3)-1)
		case 4: // lost entry
			put32(e, 0x7a7a7a7a)
		case 5: // two entries swapped
			e2 := 12 + 16*umod(f.Arg(3), max(1, len(in.Tables)))
			a0, a1 := get32(e+8), get32(e+12)
			put32(e+8, get32(e2+8))
			put32(e+12, get32(e2+12))
			put32(e2+8, a0)
			put32(e2+12, a1)
		}
	case "table-length":
		// The table the directory tells of is a little longer or shorter.
		names, _ := regions(len(b), in)
		name := names[umod(f.Arg(0), len(names))]
		e := 12
		if string(b[:min(4, len(b))]) == "ttcf" {
			e += 16
		}
		for ; e+16 <= len(b) && e < 12+16+16*len(in.Tables); e += 16 {
			if string(b[e:e+4]) == name {
				put32(e+12, max(0, get32(e+12)+[]int{-1, -2, -3, -4, -6, -8, 1, 2, 3, 4, -12, -16}[umod(f.Arg(2), 12)]))
				break
			}
		}
	case "hdmx":
		// Device metrics made for another number of glyphs.
		t, ok := in.Tables["hdmx"]
		if !ok || t[1] < 10 {
			return
		}
		n := 1 + umod(f.Arg(1), in.NGlyph+4)
		k := min(1+umod(f.Arg(3), 4), (t[1]-8)/n)
		put32(t[0]+4, n)
		for i := 0; i < k; i++ {
			if at := t[0] + 8 + i*n; save(at, 1) {
				b[at] = []byte{12, 10, 16, 24, 7, 33, 13, 9}[umod(f.Arg(2)+i, 8)]
			}
		}
		if f.Arg(4) == 1 {
			break
		}
		e := 12
		if string(b[:min(4, len(b))]) == "ttcf" {
			e += 16
		}
		for ; e+16 <= len(b) && e < 12+16+16*len(in.Tables); e += 16 {
			if string(b[e:e+4]) == "hdmx" {
				put32(e+12, 8+k*n+[]int{0, 0, 1, -1, 2}[umod(f.Arg(3)>>2, 5)])
			}
		}
	case "loca":
		l := in.Tables["loca"]
		long := false
		if h := in.Tables["head"]; h[0]+52 <= len(b) {
			long = b[h[0]+51] == 1
		}
		k := umod(f.Arg(1), in.NGlyph+1)
		if long {
			put32(l[0]+4*k, boundary32[umod(f.Arg(2), len(boundary32))])
		} else {
			put16(l[0]+2*k, boundary16[umod(f.Arg(2), len(boundary16))])
		}
	case "glyph-header":
		g, n := glyphAt(f.Arg(1))
		if g >= 0 {
			o := umod(f.Arg(2), 8) * 2
			if o+2 <= n {
				put16(g+o, boundary16[umod(f.Arg(3), len(boundary16))])
			}
		}
	case "glyph-end":
		// A glyph, perhaps made a compound with a transformation, ends where
		// something is being read, or goes on to the end of its table.
		g, n := glyphAt(f.Arg(1))
		l, t := in.Tables["loca"], in.Tables["glyf"]
		if g < 0 {
			break
		}
		cut := umod(f.Arg(2), n+2)
		switch x := f.Arg(3); umod(x, 4) {
		case 0:
			if n < 20 || !save(g, 18) {
				break
			}
			fl := []int{0, 1, 8, 9, 0x40, 0x41, 0x80, 0x81}[umod(x>>2, 8)]
			ci := umod(f.Arg(1)*7+x>>5, in.NGlyph)
			copy(b[g:], []byte{0xff, 0xff})
			copy(b[g+10:], []byte{byte(fl >> 8), byte(fl) | 2, byte(ci >> 8), byte(ci), 1, 1, 1, 1})
			cut = 10 + umod(f.Arg(2), 18)
		case 1:
			cut = n - umod(f.Arg(2), 6)
		case 2:
			cut = t[1] - (g - t[0]) - umod(f.Arg(2), 4)
		}
		h := in.Tables["head"]
		long := h[0]+52 <= len(b) && b[h[0]+51] == 1
		for k := 0; k < in.NGlyph; k++ {
			if at, _ := glyphRaw(b, in, k); at == g {
				if v := g - t[0] + cut; long {
					put32(l[0]+4*k+4, v)
				} else {
					put16(l[0]+2*k+2, v/2)
				}
				break
			}
		}
	case "component":
		// A glyph becomes a compound of itself or of others.
		g, n := glyphAt(f.Arg(1))
		k := 1 + umod(f.Arg(3), 3)
		if g >= 0 && n >= 10+6*k && save(g, 10+6*k) {
			b[g], b[g+1] = 0xff, 0xff
			for c := 0; c < k; c++ {
				p := b[g+10+6*c:]
				fl := 0x0002
				if c+1 < k {
					fl |= 0x20
				}
				ci := umod(f.Arg(1)+c*f.Arg(2), in.NGlyph)
				p[0], p[1], p[2], p[3], p[4], p[5] = byte(fl>>8), byte(fl), byte(ci>>8), byte(ci), 1, 1
			}
		}
	case "component-web":
		// Every glyph large enough becomes a compound of others.
		for k := 0; k < in.NGlyph; k++ {
			g, n := glyphRaw(b, in, k)
			m := min((n-10)/6, 1+umod(f.Arg(3), 24))
			end := 0 // what follows, as it was, or no program
			if f.Arg(3)&0x100 != 0 {
				m, end = min(m, (n-12)/6), 2
			}
			if g < 0 || m < 1 || !save(g, 10+6*m+end) {
				continue
			}
			copy(b[g+10+6*m:], []byte{0, 0}[:end])
			b[g], b[g+1] = 0xff, 0xff
			for c := 0; c < m; c++ {
				p := b[g+10+6*c:]
				fl := 0x0002
				if c+1 < m {
					fl |= 0x20
				}
				ci := umod(k+1+f.Arg(1)+c*f.Arg(2), in.NGlyph)
				p[0], p[1], p[2], p[3], p[4], p[5] = byte(fl>>8), byte(fl), byte(ci>>8), byte(ci), 1, 1
			}
		}
	case "program-web":
		// A glyph's program counts down for long, and glyphs large enough become
		// compounds of many such glyphs each, some levels deep.
		var leaf []int
		k0 := 0
		for t := 0; t < in.NGlyph && leaf == nil; t++ {
			k0 = umod(f.Arg(1)+t, in.NGlyph)
			g, n := glyphRaw(b, in, k0)
			if g < 0 || n < 12 {
				continue
			}
			nc := get16(g)
			if nc < 1 || nc >= 0x8000 || 12+2*nc > n {
				continue
			}
			if p := g + 12 + 2*nc; get16(p-2) >= 13 && p+get16(p-2) <= g+n {
				leaf = []int{p, get16(p - 2)}
			}
		}
		if leaf == nil || !save(leaf[0], leaf[1]) {
			break
		}
		loops := min(15900, 500+umod(f.Arg(3), 20000))
		w := b[leaf[0] : leaf[0]+leaf[1]]
		for i := range w {
			w[i] = 0x7a // no effect
		}
		count := []byte{0, 13, 0xb8, byte(loops >> 8), byte(loops), 0xb0, 1, 0x61, 0x20, 0xb8, 0xff, 0xf8, 0x23, 0x78, 0x21}
		copy(w, count[2:])
		next, deep := k0, 1+umod(f.Arg(2), 4)
		for k, d := k0+1, 0; k < k0+in.NGlyph; k++ {
			g, n := glyphRaw(b, in, k%in.NGlyph)
			// The compounds have such a program too, or none.
			prog := count
			if f.Arg(1)&1 == 0 || n < 31 {
				prog = []byte{0, 0}
			}
			m := min((n-10-len(prog))/6, 24)
			if g < 0 || m < 1 || !save(g, 10+6*m+len(prog)) {
				continue
			}
			b[g], b[g+1] = 0xff, 0xff
			copy(b[g+10+6*m:], prog)
			for c := 0; c < m; c++ {
				fl := 0x0002
				if c+1 < m {
					fl |= 0x20
				}
				copy(b[g+10+6*c:], []byte{byte(fl >> 8), byte(fl), byte(next >> 8), byte(next), 1, 1})
			}
			if m > 3 && d < deep {
				next = k % in.NGlyph
				d++
			}
		}
	case "glyf-fail":
		// Every glyph with data fails to load.
		for k := 0; k < in.NGlyph; k++ {
			if g, _ := glyphRaw(b, in, k); g >= 0 {
				put16(g, 0x8000)
			}
		}
	case "prep-fail", "fpgm-fail":
		// The program fails, however it is read.
		t := in.Tables[f.Kind[:4]]
		if save(t[0], t[1]) {
			for i := range b[t[0] : t[0]+t[1]] {
				b[t[0]+i] = 0x28 // not an instruction
			}
		}
	case "program", "edge-program":
		// A program becomes one that runs for long, or fails.
		var p, n int
		lim := edges{stack: 64}
		if t := in.Tables["maxp"]; t[0]+26 <= len(b) && t[1] >= 26 {
			lim.nt, lim.ns, lim.stack = get16(t[0]+16), get16(t[0]+18), get16(t[0]+24)
		}
		lim.ncvt = in.Tables["cvt "][1] / 2
		switch umod(f.Arg(0), 3) {
		case 0:
			t := in.Tables["prep"]
			p, n = t[0], t[1]
		case 1:
			t := in.Tables["fpgm"]
			p, n = t[0], t[1]
		default:
			g, gn := glyphAt(f.Arg(1))
			if g >= 0 {
				nc := get16(g)
				if nc > 0 && nc < 0x8000 && 10+2*nc+2 <= gn {
					p = g + 10 + 2*nc + 2
					n = get16(p - 2)
					lim.np, lim.nc = get16(p-4)+1, nc
				}
			}
		}
		if p+n > len(b) {
			n = len(b) - p
		}
		if n < 1 || !save(p, n) {
			return
		}
		w := b[p : p+n]
		var c []byte
		if f.Kind == "edge-program" {
			copy(w, edgeProgram(NewRng(uint64(f.Arg(3))<<8+uint64(f.Arg(2))), n, lim))
			return
		}
		switch umod(f.Arg(2), 20) {
		case 0: // endless loop
			c = []byte{0xb8, 0xff, 0xfd, 0x1c}
		case 1: // stack underflow
			c = []byte{0x21}
		case 2: // illegal instruction
			c = []byte{0x28}
		case 3: // unbalanced
			c = []byte{0xb0, 0, 0x58}
		case 4: // recursion
			c = []byte{0xb1, 0, 0, 0x2c, 0xb0, 0, 0x2b, 0x2d, 0xb0, 0, 0x2b}
		case 5: // shifting all points, again and again
			c = []byte{0xb0, 1, 0x36, 0xb8, 0xff, 0xfa, 0x1c}
		case 6: // a huge loop count
			c = []byte{0xb8, 0x7f, 0xff, 0x17, 0xb0, 0, 0x32}
		case 7: // other effects, no error
			c = []byte{0xb1, 0, 77, 0x42, 0xb1, 1, 99, 0x44, 0xb0, 70, 0x1a, 0x7a}
		case 8: // definitions without end
			c = []byte{0xb0, 0, 0x2c}
		case 9: // loops of calls of loops of calls
			c = []byte{0xb0, 0, 0x2c, 0xb8, 0x7f, 0xff, 0xb0, 1, 0x2a, 0x2d, 0xb0, 1, 0x2c, 0xb8, 0x7f, 0xff, 0xb0, 2, 0x2a, 0x2d, 0xb0, 2, 0x2c, 0x2d, 0xb8, 0x7f, 0xff, 0xb0, 0, 0x2a}
		case 10: // a function that calls itself in a loop
			c = []byte{0xb0, 0, 0x2c, 0xb8, 0x7f, 0xff, 0xb0, 0, 0x2a, 0x2d, 0xb0, 0, 0x2b}
		case 11: // a conditional jump back
			c = []byte{0xb8, 0xff, 0xfb, 0xb0, 1, 0x78}
		case 12: // interpolating all points, again and again
			c = []byte{0x30, 0x31, 0xb8, 0xff, 0xfb, 0x1c}
		case 13: // shifting zones, again and again
			c = []byte{0xb0, 1, 0x36, 0xb0, 0, 0x34, 0xb8, 0xff, 0xf7, 0x1c}
		case 14: // long skips, again and again
			c = []byte{0xb0, 0, 0x58}
			for i := 3; i < n-5; i++ {
				c = append(c, 0x01)
			}
			c = append(c, 0x59, 0xb8, byte(-(n-2)>>8), byte(-(n - 2)), 0x1c)
		case 15: // a large call count of an empty function, again and again
			c = []byte{0xb0, 0, 0x2c, 0x2d, 0xb8, 0x7f, 0xff, 0xb0, 0, 0x2a, 0xb8, 0xff, 0xf6, 0x1c}
		}
		switch k := umod(f.Arg(2), 20); {
		case k == 16 || k == 17:
			c = anyProgram(NewRng(uint64(f.Arg(3))), n)
		case k == 18:
			// Fills the stack by one instruction, again and again.
			r := NewRng(uint64(f.Arg(3)))
			m := r.N(2000)
			if r.P(60) {
				m = 256*r.N(6) + r.N(5) - 2
				if r.P(50) {
					m = 256*(1+r.N(3)) + r.N(3) - 1
				}
			}
			m = max(m, 0)
			op := pushers[r.N(len(pushers))]
			c = []byte{0xb0, 0, 0x2c}
			c = append(c, op...)
			c = append(c, 0x2d, 0xb8, byte(m>>8), byte(m), 0xb0, 0, 0x2a)
			if r.P(50) {
				c = append([]byte{0xb0, byte(r.N(4))}, c...) // something to begin with
			}
			for i := r.N(5); i > 0; i-- {
				c = append(c, pushers[r.N(len(pushers))]...)
			}
		case k == 19:
			// Jumps to jumps.
			r := NewRng(uint64(f.Arg(3)))
			for i := 1 + r.N(12); i > 0; i-- {
				d := r.N(12) - 4
				c = append(c, 0xb8, byte(d>>8), byte(d))
				if r.P(30) {
					c = append(c, 0x20)
				}
			}
			for i := 1 + r.N(4); i > 0; i-- {
				c = append(c, Pick(r, byte(0x1c), 0x1c, 0x78, 0x79, 0x4f))
			}
		}
		for i := range w {
			w[i] = 0x4f // no operation
		}
		copy(w, c)
	}
	return
}

// pushers are instructions that leave the stack higher.
var pushers = [][]byte{{0x20}, {0x24}, {0x0c}, {0x0d}, {0x4b}, {0x4c}, {0xb0, 7}, {0xb8, 1, 2}, {0xb1, 1, 2}, {0xb2, 1, 2, 3}, {0x40, 4, 1, 2, 3, 4}, {0x20, 0x20, 0x21}, {0xb0, 1, 0x25}, {0xb9, 0, 1, 0, 2}}

// anyProgram is a program of up to n bytes that keeps to the form of programs
// more than to their sense.
func anyProgram(r *Rng, n int) (c []byte) {
	n = min(n, 6+r.Log(90))
	num := func() int { return Pick(r, 0, 1, 2, 3, -1, -3, 64, 0x7fff, -0x8000, 255, r.N(20), r.N(300)-30) }
	for len(c) < n {
		switch r.W(6, 3, 2, 8, 2, 1, 1) {
		case 0:
			k := 1 + r.N(4)
			c = append(c, 0xb0+byte(k-1))
			for ; k > 0; k-- {
				c = append(c, byte(num()))
			}
		case 1:
			k := 1 + r.N(2)
			c = append(c, 0xb8+byte(k-1))
			for ; k > 0; k-- {
				v := num()
				c = append(c, byte(v>>8), byte(v))
			}
		case 2: // a jump
			v := r.N(14) - 6
			c = append(c, 0xb8, byte(v>>8), byte(v), 0x1c)
		case 3:
			c = append(c, byte(r.N(256)))
		case 4: // one instruction many times
			b := byte(r.N(256))
			if r.P(50) {
				b = Pick(r, byte(0x20), 0x24, 0x0c, 0x0d, 0x4b, 0x21, 0x23, 0x60)
			}
			for k := r.Log(300); k > 0; k-- {
				c = append(c, b)
			}
		case 5: // a function and its call
			c = append(c, 0xb0, byte(r.N(3)), 0x2c)
			for k := r.N(6); k > 0; k-- {
				c = append(c, byte(r.N(0xb0)))
			}
			v := num()
			c = append(c, 0x2d, 0xb8, byte(v>>8), byte(v), 0xb0, byte(r.N(3)), byte(0x2a+r.N(2)))
		default:
			c = append(c, 0xb0, byte(r.N(2)), 0x58)
			for k := r.N(6); k > 0; k-- {
				c = append(c, byte(r.N(0xb0)))
			}
			c = append(c, 0x59)
		}
	}
	return
}

// edges are the limits that operands of instructions have.
type edges struct{ np, nc, nt, ns, ncvt, stack int }

// edgeOps are instructions and their operands: p, q, r points of the zones of zone
// pointers 0, 1 and 2; c control values; s storage; k contours; z zones; f
// functions; v values; i positions in the stack; d deltas and how many. Upper
// case means as many as the loop variable says.
var edgeOps = []struct {
	op, n byte // first opcode, how many variants
	args  string
}{
	{0x06, 4, "qp"}, {0x86, 2, "qp"}, {0x0a, 2, "vv"}, {0x0c, 2, ""}, {0x0e, 1, ""}, {0x0f, 1, "rqqpp"},
	{0x10, 3, "p"}, {0x1a, 1, "v"}, {0x1d, 3, "v"}, {0x27, 1, "qp"}, {0x29, 1, "p"}, {0x2e, 2, "p"},
	{0x30, 2, ""}, {0x32, 2, "R"}, {0x32, 2, "R"}, {0x34, 2, "k"}, {0x36, 2, "z"}, {0x38, 1, "Rv"}, {0x39, 1, "R"},
	{0x3a, 2, "qv"}, {0x3c, 1, "Q"}, {0x3e, 2, "pc"}, {0x42, 1, "sv"}, {0x43, 1, "s"}, {0x44, 1, "cv"},
	{0x45, 1, "c"}, {0x46, 2, "r"}, {0x48, 1, "rv"}, {0x49, 2, "qp"}, {0x5d, 1, "d"}, {0x71, 2, "d"}, {0x73, 3, "e"},
	{0x5e, 2, "v"}, {0x60, 4, "vv"}, {0x62, 1, "vv"}, {0x64, 4, "v"}, {0x68, 8, "v"}, {0x70, 1, "cv"}, {0x76, 2, "v"},
	{0x80, 1, "P"}, {0x81, 2, "gg"}, {0x81, 2, "gg"}, {0x85, 1, "v"}, {0x88, 1, "v"}, {0x8a, 1, "vvv"}, {0x8b, 2, "vv"},
	{0x8e, 1, "vv"}, {0xc0, 32, "q"}, {0xe0, 32, "qc"}, {0x25, 2, "vvi"}, {0x2b, 1, "f"}, {0x2a, 1, "vf"},
	{0x22, 1, ""}, {0x24, 1, ""}, {0x18, 2, ""}, {0x3d, 1, ""}, {0x7a, 1, ""}, {0x7c, 2, ""}, {0x56, 2, "v"}, {0x50, 6, "vv"}, {0x5a, 3, "vv"},
}

// edgeProgram is a program of up to n bytes that makes sense except that some
// operands are at a limit or just beyond it.
func edgeProgram(r *Rng, n int, l edges) (c []byte) {
	wild := Pick(r, 3, 8, 25)
	push := func(v int) {
		if v >= 0 && v < 256 && !r.P(10) {
			c = append(c, 0xb0, byte(v))
		} else {
			c = append(c, 0xb8, byte(v>>8), byte(v))
		}
	}
	below := func(m int) {
		switch {
		case r.P(wild):
			push(Pick(r, m, m+1, m-1, -1, -2, m+4, 0x7fff, -0x8000, m+2, m+3))
		case m > 0 && r.P(30):
			push(Pick(r, m-1, 0))
		default:
			push(r.N(max(m, 1)))
		}
	}
	val := func() {
		push(Pick(r, 0, 0, 1, -1, 64, -64, 0x7fff, -0x8000, r.N(300)-100, r.N(64), 32, r.N(0x10000)-0x8000))
		switch {
		case r.P(10): // a large number
			c = append(c, 0x20, 0x63, 0x20, 0x63)
		case r.P(5): // about the smallest number there is
			c = append(c, 0xb8, 0x80, 0, 0xb8, 0x40, 0, 0x63, 0xb8, 0x40, 0, 0x63, 0x60)
		}
	}
	zp := [3]int{1, 1, 1}
	zone := func(z int) int {
		if zp[z] == 0 {
			return l.nt
		}
		if r.P(25) {
			return l.np + 4
		}
		return l.np
	}
	loop := 1
	for t := 0; t < 60 && len(c) < n; t++ {
		before := len(c)
		was, wasLoop := zp, loop
		if r.P(35) {
			if z := r.N(4); z == 3 {
				k := r.W(1, 2)
				zp = [3]int{k, k, k}
				push(k)
				c = append(c, 0x16)
			} else {
				zp[z] = r.W(1, 1)
				v := zp[z]
				if r.P(2) {
					v = Pick(r, 2, -1, 3)
				}
				push(v)
				c = append(c, byte(0x13+z))
			}
		}
		if r.P(25) {
			k := r.N(3)
			below(zone([]int{0, 0, 1}[k]))
			c = append(c, byte(0x10+k))
		}
		if r.P(20) {
			loop = Pick(r, 0, 1, 2, 3, -1, -2, 5, r.N(40), -0x8000, 0x7fff)
			push(loop)
			c = append(c, 0x17)
		}
		e := &edgeOps[r.N(len(edgeOps))]
		for _, a := range e.args {
			k := 1
			if a < 'a' {
				a += 'a' - 'A'
				k = min(max(loop, r.N(3)), 40) + Pick(r, 0, 0, 0, 0, -1, 1)
				loop = 1
			}
			for ; k > 0; k-- {
				switch a {
				case 'p':
					below(zone(0))
				case 'q':
					below(zone(1))
				case 'r':
					below(zone(2))
				case 'g':
					below(l.np + 4*r.N(2))
				case 'c':
					below(l.ncvt)
				case 's':
					below(l.ns)
				case 'k':
					below(l.nc)
				case 'z':
					below(2)
				case 'f':
					below(3)
				case 'i':
					below(Pick(r, 1, 2, 3, 4, l.stack))
				case 'd', 'e':
					m := Pick(r, 1, 1, 2, 0, -1, 0x7fff)
					for j := 0; j < m && j < 3; j++ {
						push(r.N(256))
						if a == 'd' {
							below(zone(0))
						} else {
							below(l.ncvt)
						}
					}
					push(m)
				default:
					val()
				}
			}
		}
		c = append(c, e.op+byte(r.N(int(e.n))))
		if len(c) > n { // it does not fit
			c = c[:before]
			zp, loop = was, wasLoop
		}
	}
	for k := 0; len(c) < n && k < 1 && r.P(20); k++ { // to the end of the stack
		c = append(c, 0x24)
	}
	return
}

// GenDamageIn draws a fault of one of the given tables.
func GenDamageIn(r *Rng, in *synth.Info, tables ...string) Fault {
	names, _ := regions(1<<30, in)
	want := tables[r.N(len(tables))]
	f := Fault{Kind: DamageKinds[r.N(8)], A: []int{0, r.N(1 << 20), r.N(64), r.N(1 << 16), 1}}
	if want == "loca" && r.P(40) {
		f.Kind = "loca"
	} else if want == "glyf" && r.P(40) {
		f.Kind = Pick(r, "glyph-header", "component", "glyph-end")
	}
	for i, n := range names {
		if n == want {
			f.A[0] = i
		}
	}
	return f
}

// GenDamage draws a fault.
func GenDamage(r *Rng, in *synth.Info) Fault {
	f := Fault{Kind: DamageKinds[r.N(len(DamageKinds))]}
	reg := r.N(len(in.Tables) + 1)
	if r.P(50) {
		// Prefer the tables that are interpreted.
		names, _ := regions(1<<30, in)
		want := Pick(r, "glyf", "loca", "fpgm", "prep", "cvt ", "maxp", "hmtx", "hhea", "head", "cmap", "kern", "glyf", "name", "hdmx", "header")
		for i, n := range names {
			if n == want {
				reg = i
			}
		}
	}
	f.A = []int{reg, r.N(1 << 20), r.N(64), r.N(1 << 16)}
	if r.P(40) {
		f.A[1] = r.N(64) // near the start of a table
	}
	if r.P(10) {
		f.A[1] = -1 - r.N(8) // near its end
	}
	return f
}
