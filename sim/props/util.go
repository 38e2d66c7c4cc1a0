// Package props holds the checks, one per property.
package props

import (
	"image"
	"image/color"
	"runtime"
	"runtime/debug"
	"strconv"
	"unsafe"

	"github.com/golang/freetype/raster"
	"github.com/golang/freetype/truetype"
	"github.com/golang/freetype/verifsim/simrt"
	"golang.org/x/image/math/fixed"
)

// digest is an FNV-1a hash that needs no allocation and no synchronisation.
type digest uint64

func newDigest() digest { return 14695981039346656037 }

func (d *digest) u8(b byte) { *d = (*d ^ digest(b)) * 1099511628211 }

func (d *digest) n(vs ...int) {
	for _, v := range vs {
		h := *d ^ digest(uint64(v))
		h *= 0x9E3779B97F4A7C15
		h ^= h >> 32
		*d = h * 1099511628211
	}
}

func (d *digest) str(s string) {
	for i := 0; i < len(s); i++ {
		d.u8(s[i])
	}
	d.n(len(s))
}

func (d *digest) bytes(b []byte) {
	h := *d
	i := 0
	// Eight at a time: the race detector remembers few accesses per word.
	for ; i+8 <= len(b); i += 8 {
		h ^= digest(*(*uint64)(unsafe.Pointer(&b[i])))
		h *= 0x9E3779B97F4A7C15
		h ^= h >> 32
	}
	for ; i < len(b); i++ {
		h = (h ^ digest(b[i])) * 1099511628211
	}
	*d = h
	d.n(len(b))
}

func (d *digest) fix(vs ...fixed.Int26_6) {
	for _, v := range vs {
		d.n(int(v))
	}
}

func (d *digest) rect(r image.Rectangle) { d.n(r.Min.X, r.Min.Y, r.Max.X, r.Max.Y) }

func (d *digest) frect(r fixed.Rectangle26_6) { d.fix(r.Min.X, r.Min.Y, r.Max.X, r.Max.Y) }

func (d *digest) points(ps []truetype.Point) {
	for _, p := range ps {
		d.n(int(p.X), int(p.Y), int(p.Flags))
	}
	d.n(len(ps))
}

func (d *digest) ints(vs []int) {
	d.n(vs...)
	d.n(len(vs))
}

func (d *digest) path(p raster.Path) {
	for _, v := range p {
		d.n(int(v))
	}
	d.n(len(p))
}

func (d *digest) boolean(b bool) {
	if b {
		d.n(1)
	} else {
		d.n(0)
	}
}

func (d *digest) err(e error) {
	if e == nil {
		d.n(0)
	} else {
		d.str(e.Error())
	}
}

// glyphDigest covers everything a successful load leaves in a buffer.
func glyphDigest(d *digest, g *truetype.GlyphBuf) {
	d.fix(g.AdvanceWidth)
	d.frect(g.Bounds)
	d.points(g.Points)
	d.points(g.Unhinted)
	d.points(g.InFontUnits)
	d.ints(g.Ends)
}

// maskDigest covers the pixels of a face's glyph that a caller may use.
func maskDigest(d *digest, dr image.Rectangle, m image.Image, mp image.Point) {
	if a, ok := m.(*image.Alpha); ok {
		for y := 0; y < dr.Dy(); y++ {
			for x := 0; x < dr.Dx(); x++ {
				d.u8(a.AlphaAt(mp.X+x, mp.Y+y).A)
			}
		}
		return
	}
	if m == nil {
		return
	}
	for y := 0; y < dr.Dy(); y++ {
		for x := 0; x < dr.Dx(); x++ {
			_, _, _, al := m.At(mp.X+x, mp.Y+y).RGBA()
			d.u8(byte(al >> 8))
		}
	}
}

// Abort is the panic value with which simulated caller code gives up.
type Abort struct{ At int }

// caught describes a recovered panic.
type caught struct {
	any   bool
	text  string
	abort bool    // the harness's own
	limit bool    // step budget used up
	addr  uintptr // of the memory fault, if it was one
}

func describe(r any) (c caught) {
	if r == nil {
		return
	}
	c.any = true
	switch x := r.(type) {
	case Abort:
		c.abort, c.text = true, "abort"
	case simrt.StepLimit:
		c.limit, c.text = true, "step budget of "+strconv.FormatInt(x.Steps, 10)+" used up"
	case simrt.Deadlock:
		c.text = "deadlock"
	case runtime.Error:
		c.text = x.Error()
		if f, ok := x.(interface{ Addr() uintptr }); ok {
			c.addr = f.Addr()
		}
	case error:
		c.text = x.Error()
	case string:
		c.text = x
	default:
		c.text = "panic of unusual type"
	}
	return
}

// try runs fn and describes a panic.
func try(fn func()) (c caught) {
	done := false
	defer func() {
		if done {
			return
		}
		c = describe(recover())
		c.any = true
	}()
	fn()
	done = true
	return
}

// recImage is a caller's own destination or source image. Every access can be
// made to panic or to call back into the caller.
type recImage struct {
	m       *image.RGBA
	log     []pixWrite
	n       int // accesses so far
	abortAt int // 0 never
	hookAt  int // 0 never
	hook    func()
	sets    int
}

type pixWrite struct {
	x, y int
	c    color.RGBA
}

func (r *recImage) access() {
	r.n++
	if r.abortAt != 0 && r.n == r.abortAt {
		panic(Abort{r.n})
	}
	if r.hookAt != 0 && r.n == r.hookAt && r.hook != nil {
		r.hook()
	}
}

func (r *recImage) ColorModel() color.Model { r.access(); return color.RGBAModel }
func (r *recImage) Bounds() image.Rectangle { r.access(); return r.m.Bounds() }
func (r *recImage) At(x, y int) color.Color { r.access(); return r.m.At(x, y) }
func (r *recImage) Set(x, y int, c color.Color) {
	r.access()
	r.sets++
	r.m.Set(x, y, c)
	r.log = append(r.log, pixWrite{x, y, r.m.RGBAAt(x, y)})
}

func abs(a int) int {
	if a < 0 {
		return -a
	}
	return a
}

func fx(v int) fixed.Int26_6 { return fixed.Int26_6(v) }

func fp(x, y int) fixed.Point26_6 {
	return fixed.Point26_6{X: fixed.Int26_6(x), Y: fixed.Int26_6(y)}
}

func itoa(n int) string { return strconv.Itoa(n) }

func hex(d digest) string { return strconv.FormatUint(uint64(d), 16) }

func mod(v, n int) int {
	if n <= 0 {
		return 0
	}
	v %= n
	if v < 0 {
		v += n
	}
	return v
}

// spans recorded by a painter, in copies.
type spanRec struct {
	ss     []raster.Span
	batch  []int // sizes
	dones  int
	after  bool // something arrived after done
	lastOK bool
}

func (r *spanRec) Paint(ss []raster.Span, done bool) {
	if r.dones > 0 {
		r.after = true
	}
	r.ss = append(r.ss, ss...)
	r.batch = append(r.batch, len(ss))
	if done {
		r.dones++
	}
}

// normal merges horizontally adjacent spans of equal alpha, so that coverage
// per pixel is what is compared.
func normal(ss []raster.Span) []raster.Span {
	var o []raster.Span
	for _, s := range ss {
		if s.X0 >= s.X1 || s.Alpha == 0 {
			continue
		}
		if n := len(o); n > 0 && o[n-1].Y == s.Y && o[n-1].X1 == s.X0 && o[n-1].Alpha == s.Alpha {
			o[n-1].X1 = s.X1
			continue
		}
		o = append(o, s)
	}
	return o
}

func (d *digest) spans(ss []raster.Span) {
	for _, s := range ss {
		d.n(s.Y, s.X0, s.X1, int(s.Alpha))
	}
	d.n(len(ss))
}

func sameSpans(a, b []raster.Span) int {
	for i := 0; i < len(a) || i < len(b); i++ {
		if i >= len(a) || i >= len(b) || a[i] != b[i] {
			return i
		}
	}
	return -1
}

func spanText(ss []raster.Span, i int) string {
	if i >= len(ss) {
		return "none"
	}
	s := ss[i]
	return "{Y:" + itoa(s.Y) + " X:" + itoa(s.X0) + "-" + itoa(s.X1) + " A:" + itoa(int(s.Alpha)) + "}"
}

// debugFaults turns accesses to forbidden memory into panics that can be caught.
func debugFaults() { debug.SetPanicOnFault(true) }
