package props

import (
	"image"
	"image/color"
	"image/draw"

	"github.com/golang/freetype"
	"github.com/golang/freetype/raster"
	"github.com/golang/freetype/truetype"
	"github.com/golang/freetype/verifsim/core"
	"github.com/golang/freetype/verifsim/simrt"
	"golang.org/x/image/font"
	"golang.org/x/image/math/fixed"
)

// World is what callers share: font bytes, parsed fonts, recorded paths, source
// images, texts, and (when the scenario says so) one destination image.
type World struct {
	data   []*core.FontData
	fonts  []*truetype.Font
	errs   []error
	paths  []raster.Path
	srcs   []image.Image
	dst    *image.RGBA
	adst   *image.Alpha
	steps  int64              // budget of a call; 0 none
	opts   []truetype.Options // if set, options of new faces are among these
	guard  bool               // nothing is drawn whose masks would need much memory
	drifts bool               // sizes and runes are other ones in every round
	drift  int                // round
	apart  bool               // what is drawn with font 0 has an image of its own
}

// Masks of more pixels than this are not asked for when guard is set.
const maxMask = 1 << 24

// fits reports whether masks for n glyphs of the font do.
func fits(f *truetype.Font, scale fixed.Int26_6, n int) bool {
	b := f.Bounds(scale)
	w := int(b.Max.X+63)>>6 - int(b.Min.X)>>6
	h := -(int(b.Min.Y-63) >> 6) + int(b.Max.Y)>>6
	return w <= 0 || h <= 0 || w < 1<<22 && h < 1<<22 && w*h <= maxMask/n
}

const nOptions = 16

// NewWorld loads and parses the scenario's fonts.
func NewWorld(s *core.Scenario) *World {
	w := &World{}
	for i := range s.Fonts {
		d := s.Fonts[i].Load()
		w.data = append(w.data, d)
		f, err := truetype.Parse(d.Bytes)
		w.fonts = append(w.fonts, f)
		w.errs = append(w.errs, err)
	}
	w.addShared(uint64(s.Par("shared")))
	return w
}

// addShared makes the shared paths and source images from a seed.
func (w *World) addShared(seed uint64) {
	r := core.NewRng(seed + 77)
	for i := 0; i < 4; i++ {
		w.paths = append(w.paths, genPath(r, 1+r.N(3), 40*64, i != 3))
	}
	m := image.NewRGBA(image.Rect(0, 0, 64, 48))
	for y := 0; y < 48; y++ {
		for x := 0; x < 64; x++ {
			a := uint8(128 + r.N(128))
			m.SetRGBA(x, y, color.RGBA{uint8(r.N(int(a) + 1)), uint8(r.N(int(a) + 1)), uint8(r.N(int(a) + 1)), a})
		}
	}
	w.srcs = []image.Image{image.Black, image.NewUniform(color.RGBA{200, 30, 90, 255}), image.NewUniform(color.NRGBA{20, 130, 255, 140}), m}
}

// genPath draws a well-formed path.
func genPath(r *core.Rng, curves, size int, strokable bool) raster.Path {
	var p raster.Path
	var last fixed.Point26_6
	draw := func() fixed.Point26_6 {
		if r.P(5) {
			return fp(r.N(3*size)-size, r.N(3*size)-size)
		}
		if r.P(20) {
			return fp(r.N(size/64)*64, r.N(size/64)*64)
		}
		return fp(r.N(size), r.N(size))
	}
	repeat := 0
	if r.P(40) {
		repeat = 5 + r.N(20)
	}
	pt := func() fixed.Point26_6 {
		if !r.P(repeat) {
			last = draw()
		}
		return last
	}
	for i := 0; i < curves; i++ {
		p.Start(pt())
		n := r.N(6)
		for j := 0; j < n; j++ {
			k := r.N(3)
			if k == 2 && strokable {
				k = 1
			}
			switch k {
			case 0:
				p.Add1(pt())
			case 1:
				p.Add2(pt(), pt())
			default:
				p.Add3(pt(), pt(), pt())
			}
		}
	}
	return p
}

const (
	nBufs  = 3
	nFaces = 3
	nCtxs  = 2
	nRasts = 3
	nPaths = 3
	nImgs  = 3
	nPnts  = 4
)

// Obs is what one operation returned and painted.
type Obs struct {
	K     string
	H     digest
	E     string // error or panic
	Panic bool
	Fault uintptr // address of the memory fault the panic was for
	Limit bool
	Abort bool
	Font  int  // font it used, or -1
	OK    bool // what a face says of one glyph
}

func (o *Obs) same(p *Obs) bool { return o.H == p.H && o.E == p.E && o.K == p.K }

func (o *Obs) text() string {
	s := o.K + " -> " + hex(o.H)
	if o.E != "" {
		s += " (" + o.E + ")"
	}
	return s
}

// faceRec is a face and how it was made.
type faceRec struct {
	f    font.Face
	font int
	opts truetype.Options
	id   int
	// The mask last returned.
	has  bool
	dr   image.Rectangle
	mask image.Image
	mp   image.Point
	sum  digest
}

// ctxRec is a context and its settings as the caller made them.
type ctxRec struct {
	c         *freetype.Context
	font      int // -1 none
	size, dpi float64
	hint      font.Hinting
	clip      image.Rectangle
	dst       int
	src       int
	id        int
}

type rastRec struct {
	r  *raster.Rasterizer
	id int
}

type pathRec struct {
	p  raster.Path
	id int
}

// inUse tells which objects a call in progress is using; calls made from its
// callbacks leave them alone.
type inUse struct {
	face [nFaces]bool
	ctx  [nCtxs]bool
	rast [nRasts]bool
	path [nPaths]bool
	pnt  [nPnts]bool
}

type imgRec struct {
	rgba  *image.RGBA
	alpha *image.Alpha
	gray  *image.Gray // another caller-chosen kind: the general drawing path
}

// Caller is one caller with objects of its own.
type Caller struct {
	pad   [8]int
	w     *World
	bufs  [nBufs]*truetype.GlyphBuf
	faces [nFaces]*faceRec
	ctxs  [nCtxs]*ctxRec
	rasts [nRasts]*rastRec
	paths [nPaths]*pathRec
	imgs  [nImgs]*imgRec
	pnts  [nPnts]raster.Painter
	busy  inUse
	depth int
	only  []int // if set, the fonts the caller uses
	obs   []Obs
	// region, if not empty, is the caller's part of the shared image.
	region image.Rectangle
	// What the caller holds, for the check that it stays intact.
	keep     bool
	bufOK    [nBufs]bool
	bufFont  [nBufs]int
	bufSum   [nBufs]digest
	pathOK   [nPaths]bool
	pathSum  [nPaths]digest
	oldFaces []*faceRec
	verify   func(op *core.Op)
	// before and after, if set, are called around every operation.
	before func(i int, op *core.Op)
	after  func(i int, op *core.Op, o *Obs)
}

// NewCaller makes a caller.
func NewCaller(w *World) *Caller { return &Caller{w: w} }

// Perform executes all operations and records what was observed.
func (c *Caller) Perform(ops []core.Op) {
	c.obs = make([]Obs, 0, len(ops))
	for i := range ops {
		if c.before != nil {
			c.before(i, &ops[i])
		}
		o := c.Do(&ops[i])
		c.obs = append(c.obs, o)
		if c.after != nil {
			c.after(i, &ops[i], &c.obs[i])
		}
	}
}

// Do performs one operation.
func (c *Caller) Do(op *core.Op) (o Obs) {
	o.K, o.Font = op.K, -1
	h := newDigest()
	if c.depth == 0 && c.w.steps > 0 {
		simrt.Limit(c.w.steps)
	}
	was := c.busy
	if c.keep {
		c.release(op)
	}
	cg := try(func() { c.step(op, &h, &o) })
	if c.keep {
		if !cg.any && o.E == "" {
			c.hold(op)
		}
		if c.verify != nil {
			c.verify(op)
		}
	}
	if c.depth == 0 && c.w.steps > 0 {
		simrt.Limit(0)
	}
	o.H = h
	if cg.any {
		o.Panic, o.Limit, o.Abort = !cg.abort && !cg.limit, cg.limit, cg.abort
		o.Fault = cg.addr
		o.E = "panic: " + cg.text
		c.busy = was
	}
	return o
}

// release ends the life of what op may change.
func (c *Caller) release(op *core.Op) {
	switch op.K {
	case "gload":
		c.bufOK[mod(op.Arg(0), nBufs)] = false
	case "pclear", "pstart", "p1", "p2", "p3", "ppath", "pstroke":
		if i := mod(op.Arg(0), nPaths); !c.busy.path[i] {
			c.pathOK[i] = false
		}
	case "fglyph", "fdraw":
		if f := c.faces[mod(op.Arg(0), nFaces)]; f != nil {
			f.has = false
		}
	case "fnew":
		if f := c.faces[mod(op.Arg(0), nFaces)]; f != nil && f.has && len(c.oldFaces) < 4 {
			c.oldFaces = append(c.oldFaces, f)
		}
	}
}

// hold begins the life of what op gave.
func (c *Caller) hold(op *core.Op) {
	switch op.K {
	case "gload":
		i := mod(op.Arg(0), nBufs)
		c.bufOK[i], c.bufSum[i] = c.bufs[i] != nil, 0
		if c.bufOK[i] {
			c.bufSum[i] = newDigest()
			glyphDigest(&c.bufSum[i], c.bufs[i])
		}
	case "pclear", "pstart", "p1", "p2", "p3", "ppath", "pstroke":
		i := mod(op.Arg(0), nPaths)
		if !c.busy.path[i] && c.paths[i] != nil {
			c.pathOK[i], c.pathSum[i] = true, newDigest()
			c.pathSum[i].path(c.paths[i].p)
		}
	}
}

// intact re-reads everything held; it returns what changed.
func (c *Caller) intact() string {
	for i := range c.bufs {
		if c.bufOK[i] {
			d := newDigest()
			glyphDigest(&d, c.bufs[i])
			if d != c.bufSum[i] {
				return "the outline in buffer " + itoa(i)
			}
		}
	}
	for i := range c.paths {
		if c.pathOK[i] && !c.busy.path[i] {
			d := newDigest()
			d.path(c.paths[i].p)
			if d != c.pathSum[i] {
				return "path " + itoa(i)
			}
		}
	}
	mask := func(f *faceRec) bool {
		if f == nil || !f.has {
			return true
		}
		d := newDigest()
		maskDigest(&d, f.dr, f.mask, f.mp)
		return d == f.sum
	}
	for i, f := range c.faces {
		if !mask(f) {
			return "the glyph mask of face " + itoa(i)
		}
	}
	for _, f := range c.oldFaces {
		if !mask(f) {
			return "the glyph mask of a face no longer used"
		}
	}
	return ""
}

func (c *Caller) nested(ops []core.Op, h *digest) {
	if c.depth >= 2 {
		return
	}
	c.depth++
	defer func() { c.depth-- }()
	for i := range ops {
		o := c.Do(&ops[i])
		h.n(int(o.H))
		h.str(o.E)
	}
}

// Sizes in use. Small pixel sizes keep runs short.
var scaleTab = []int{12 * 64, 10 * 64, 16 * 64, 7*64 + 21, 24 * 64, 33*64 + 1, 64, 13 * 64, 50 * 64, 9*64 + 32, 1, 0, 100 * 64}
var sizeTab = []float64{12, 10, 16, 7.3, 24, 9.75, 18, 5, 13, 31}
var dpiTab = []float64{72, 96, 60, 72.5}
var cacheTab = []int{0, 1, 2, 4, 16, 64, 512, 3}
var subTab = []int{0, 1, 2, 4, 8, 16, 32, 64, 3}

func hintOf(i int) font.Hinting {
	return []font.Hinting{font.HintingNone, font.HintingFull, font.HintingVertical}[mod(i, 3)]
}

func (c *Caller) fontIdx(v int) int {
	if c.only != nil {
		return c.only[mod(v, len(c.only))]
	}
	return mod(v, len(c.w.fonts))
}

func (c *Caller) fontAt(v int) *truetype.Font { return c.w.fonts[c.fontIdx(v)] }

// litRune, added to a rune, makes an argument that stands for that rune; other
// arguments select one of the font's runes.
const litRune = 1 << 21

func (w *World) rune(fi, v int) rune {
	if v >= litRune {
		return rune(v - litRune)
	}
	rs := w.data[fi].Info.Runes
	if len(rs) == 0 {
		return 'a'
	}
	if w.drifts && v%4 == 3 {
		return rune(0x4e00 + w.drift)
	}
	return rs[mod(v, len(rs))]
}

// size is one of the sizes of faces and contexts.
// sizeOf is a size from the table, or any from -64 up.
func sizeOf(v int) float64 {
	if v >= litRune {
		return float64(v-litRune)/16 - 64
	}
	return sizeTab[mod(v, len(sizeTab))]
}

// dpiOf is a resolution from the table, or any from -16 up.
func dpiOf(v int) float64 {
	if v >= litRune {
		return float64(v-litRune)/4 - 16
	}
	return dpiTab[mod(v, len(dpiTab))]
}

func (w *World) size(v int) float64 {
	x := sizeOf(v)
	if w.drifts {
		x += float64(8191-w.drift%8192) / 64
	}
	return x
}

func (w *World) scale(v int) fixed.Int26_6 {
	if w.drifts {
		return fx(scaleTab[mod(v, len(scaleTab))] + w.drift)
	}
	if v >= litRune {
		return fx(v - litRune)
	}
	return fx(scaleTab[mod(v, len(scaleTab))])
}

// glyph picks a glyph index, now and then just out of range.
func (w *World) glyph(fi, v int) truetype.Index {
	if v >= litRune {
		return truetype.Index(v - litRune)
	}
	return truetype.Index(mod(v, w.data[fi].Info.NGlyph+1))
}

func (c *Caller) buf(v int) *truetype.GlyphBuf {
	i := mod(v, nBufs)
	if c.bufs[i] == nil {
		c.bufs[i] = new(truetype.GlyphBuf)
	}
	return c.bufs[i]
}

func faceOptions(a func(int) int) truetype.Options {
	return truetype.Options{
		Size:              sizeOf(a(0)),
		DPI:               dpiOf(a(1)),
		Hinting:           hintOf(a(2)),
		GlyphCacheEntries: cacheTab[mod(a(3), len(cacheTab))],
		SubPixelsX:        subTab[mod(a(4), len(subTab))],
		SubPixelsY:        subTab[mod(a(5), len(subTab))],
	}
}

func (c *Caller) newFace(i, fi int, o truetype.Options) *faceRec {
	f := c.fontAt(fi)
	if f == nil {
		return nil
	}
	r := &faceRec{font: c.fontIdx(fi), opts: o, id: i}
	if c.w.guard && !fits(f, fx(int(0.5+max(o.Size, 12)*max(o.DPI, 72)*64/72)), entries(o.GlyphCacheEntries)) {
		c.faces[i] = r
		return nil
	}
	if c.w.opts != nil {
		p := &c.w.opts[(int(o.Size)+o.GlyphCacheEntries+o.SubPixelsX)%nOptions]
		r.opts = *p
		r.f = truetype.NewFace(f, p)
	} else {
		r.f = truetype.NewFace(f, &o)
	}
	c.faces[i] = r
	return r
}

func entries(n int) int {
	if n <= 0 || n&(n-1) != 0 {
		return 512
	}
	return n
}

func (c *Caller) face(v int) *faceRec {
	i := mod(v, nFaces)
	if c.faces[i] == nil {
		return c.newFace(i, i, truetype.Options{})
	}
	if c.faces[i].f == nil {
		return nil
	}
	return c.faces[i]
}

func (c *Caller) ctx(v int) *ctxRec {
	i := mod(v, nCtxs)
	if c.ctxs[i] == nil {
		x := &ctxRec{c: freetype.NewContext(), font: -1, size: 12, dpi: 72, dst: i, src: 0, id: i}
		c.ctxs[i] = x
		c.setFont(x, i)
		x.clip = image.Rect(0, 0, imgW, imgH)
		if !c.region.Empty() {
			x.clip = c.region
		}
		x.c.SetClip(x.clip)
		x.c.SetSrc(c.w.srcs[0])
		c.setDst(x, i)
	}
	return c.ctxs[i]
}

func (c *Caller) setFont(x *ctxRec, v int) {
	fi := c.fontIdx(v)
	if c.w.fonts[fi] == nil {
		return
	}
	x.font = fi
	x.c.SetFont(c.w.fonts[fi])
}

func (c *Caller) setDst(x *ctxRec, v int) {
	if c.w.dst != nil && !c.region.Empty() {
		x.dst = -1
		x.c.SetDst(c.w.dst)
		return
	}
	x.dst = mod(v, 3*nImgs)
	x.c.SetDst(c.drawImage(x.dst))
}

// apart gives font 0 an image of its own.
func apart(v, font int) int {
	v = mod(v, 3*nImgs)
	if font == 0 {
		return v - v%nImgs
	}
	return v - v%nImgs + 1 + v%(nImgs-1)
}

// drawImage is one of the caller's destinations.
func (c *Caller) drawImage(v int) draw.Image {
	m := c.img(v)
	switch mod(v, 3*nImgs) / nImgs {
	case 0:
		return m.rgba
	case 1:
		return m.alpha
	}
	return m.gray
}

func (c *Caller) rast(v int) *rastRec {
	i := mod(v, nRasts)
	if c.rasts[i] == nil {
		c.rasts[i] = &rastRec{r: raster.NewRasterizer(imgW, imgH), id: i}
		c.rasts[i].r.Dx, c.rasts[i].r.Dy = c.region.Min.X, c.region.Min.Y
	}
	return c.rasts[i]
}

func (c *Caller) path(v int) *pathRec {
	i := mod(v, nPaths)
	if c.paths[i] == nil {
		c.paths[i] = &pathRec{id: i}
	}
	return c.paths[i]
}

// source is a path to read: the caller's own or a shared one.
func (c *Caller) source(v int) (raster.Path, *pathRec) {
	k := mod(v, nPaths+len(c.w.paths))
	if k < nPaths {
		p := c.path(k)
		return p.p, p
	}
	return c.w.paths[k-nPaths], nil
}

const imgW, imgH = 48, 40

func (c *Caller) img(v int) *imgRec {
	i := mod(v, nImgs)
	if c.imgs[i] == nil {
		r := image.Rect(0, 0, imgW, imgH)
		if i == 1 {
			r = image.Rect(-7, -5, imgW-7, imgH-5)
		}
		if i == 2 {
			r = image.Rect(0, -imgH, imgW, 0)
		}
		c.imgs[i] = &imgRec{rgba: image.NewRGBA(r), alpha: image.NewAlpha(r), gray: image.NewGray(r)}
	}
	return c.imgs[i]
}

func (c *Caller) painter(v int) (raster.Painter, int) {
	i := mod(v, nPnts)
	if c.pnts[i] == nil {
		c.pnts[i] = c.makePainter(i, i, 0)
	}
	return c.pnts[i], i
}

// makePainter makes one of the library's painters on the caller's image, or on
// its region of the shared image.
func (c *Caller) makePainter(img, kind, par int) raster.Painter {
	var rgba *image.RGBA
	var alpha *image.Alpha
	if c.w.dst != nil && !c.region.Empty() {
		rgba = c.w.dst.SubImage(c.region).(*image.RGBA)
		alpha = c.w.adst.SubImage(c.region).(*image.Alpha)
	} else {
		m := c.img(img)
		rgba, alpha = m.rgba, m.alpha
	}
	base := func(k int) raster.Painter {
		switch mod(k, 4) {
		case 0:
			return raster.NewAlphaOverPainter(alpha)
		case 1:
			return raster.NewAlphaSrcPainter(alpha)
		case 2:
			p := raster.NewRGBAPainter(rgba)
			p.SetColor(color.NRGBA{uint8(par), uint8(par >> 3), 200, uint8(255 - par%100)})
			p.Op = draw.Src
			return p
		default:
			p := raster.NewRGBAPainter(rgba)
			p.SetColor(color.RGBA{uint8(par), 0, 0, 255})
			p.Op = draw.Over
			return p
		}
	}
	p := base(kind)
	switch mod(kind/4, 4) {
	case 1:
		return raster.NewMonochromePainter(p)
	case 2:
		return raster.NewGammaCorrectionPainter(p, gammas[mod(par, len(gammas))])
	case 3:
		return raster.NewGammaCorrectionPainter(raster.NewMonochromePainter(p), 1.6)
	}
	return p
}

// gammas has pairs that lie close together.
var gammas = []float64{1, 1.04, 0.5, 0.55, 1.8, 1.76, 2.2, 2.24, 2.21, 1.4, 1.43, 0.97}

// width is a stroke's; litRune stands for none, and what is above or below it for
// thin and negative ones.
func width(v int) fixed.Int26_6 {
	if v > litRune/2 {
		return fx(v - litRune)
	}
	return fx(1 + mod(v, 2000))
}

// drawWidth draws a stroke's width.
func drawWidth(r *core.Rng, max int) int {
	if r.P(12) {
		return litRune + core.Pick(r, 0, 1, 2, 3, -1, -2, -64, r.N(300)-150)
	}
	return 1 + r.Log(max)
}

func (c *Caller) capper(v int, hook func()) raster.Capper {
	var b raster.Capper
	switch mod(v, 4) {
	case 0:
		b = raster.RoundCapper
	case 1:
		b = raster.ButtCapper
	case 2:
		b = raster.SquareCapper
	default:
		if hook == nil {
			return nil
		}
		b = raster.RoundCapper
	}
	if hook == nil {
		return b
	}
	return raster.CapperFunc(func(p raster.Adder, hw fixed.Int26_6, pivot, n1 fixed.Point26_6) {
		hook()
		b.Cap(p, hw, pivot, n1)
	})
}

func (c *Caller) joiner(v int, hook func()) raster.Joiner {
	var b raster.Joiner
	switch mod(v, 3) {
	case 0:
		b = raster.RoundJoiner
	case 1:
		b = raster.BevelJoiner
	default:
		if hook == nil {
			return nil
		}
		b = raster.RoundJoiner
	}
	if hook == nil {
		return b
	}
	return raster.JoinerFunc(func(l, r raster.Adder, hw fixed.Int26_6, pivot, n0, n1 fixed.Point26_6) {
		hook()
		b.Join(l, r, hw, pivot, n0, n1)
	})
}

// step performs op and folds what it gave into h.
func (c *Caller) step(op *core.Op, h *digest, o *Obs) {
	a := op.Arg
	switch op.K {
	case "gload":
		o.Font = c.fontIdx(a(1))
		c.bufFont[mod(a(0), nBufs)] = 0 // what a failed load leaves is not looked at
	case "gread":
		o.Font = c.bufFont[mod(a(0), nBufs)]
	case "qindex", "qrune", "qmetric", "qkern", "qbounds", "qname", "parse":
		o.Font = c.fontIdx(a(0))
	case "fglyph", "fadv", "fbounds", "fkern", "fmetrics", "fdraw", "fmeasure", "fclose":
		if f := c.face(a(0)); f != nil {
			o.Font = f.font
		} else {
			o.Font = 0
		}
	case "cdraw":
		o.Font = c.ctx(a(0)).font
	}
	switch op.K {
	// Glyph buffers.
	case "gload": // buf, font, glyph, scale, hinting
		b := c.buf(a(0))
		f := c.fontAt(a(1))
		if f == nil {
			return
		}
		err := b.Load(f, c.w.scale(a(3)), c.w.glyph(c.fontIdx(a(1)), a(2)), hintOf(a(4)))
		if err != nil {
			o.E = err.Error()
			return
		}
		c.bufFont[mod(a(0), nBufs)] = o.Font
		glyphDigest(h, b)
	case "gread": // buf
		b := c.buf(a(0))
		glyphDigest(h, b)

	// Queries of a font.
	case "qindex": // font, rune
		if f := c.fontAt(a(0)); f != nil {
			h.n(int(f.Index(c.w.rune(c.fontIdx(a(0)), a(1)))))
		}
	case "qrune": // font, any rune
		if f := c.fontAt(a(0)); f != nil {
			h.n(int(f.Index(rune(a(1)))))
		}
	case "qmetric": // font, glyph, scale
		if f := c.fontAt(a(0)); f != nil {
			sc := c.w.scale(a(2))
			g := c.w.glyph(c.fontIdx(a(0)), a(1))
			hm, vm := f.HMetric(sc, g), f.VMetric(sc, g)
			h.fix(hm.AdvanceWidth, hm.LeftSideBearing, vm.AdvanceHeight, vm.TopSideBearing)
		}
	case "qkern": // font, glyph, glyph, scale
		if f := c.fontAt(a(0)); f != nil {
			fi := c.fontIdx(a(0))
			h.fix(f.Kern(c.w.scale(a(3)), c.w.glyph(fi, a(1)), c.w.glyph(fi, a(2))))
		}
	case "qbounds": // font, scale
		if f := c.fontAt(a(0)); f != nil {
			h.frect(f.Bounds(c.w.scale(a(1))))
			h.n(int(f.FUnitsPerEm()))
		}
	case "qname": // font, id
		if f := c.fontAt(a(0)); f != nil {
			h.str(f.Name(truetype.NameID(mod(a(1), 20))))
		}
	case "parse": // font: parses the shared bytes once more
		fi := c.fontIdx(a(0))
		f, err := truetype.Parse(c.w.data[fi].Bytes)
		h.err(err)
		if f != nil {
			h.frect(f.Bounds(fx(640)))
			h.n(int(f.Index('A')))
		}

	// Faces.
	case "fnew": // face, font, size, dpi, hinting, cache, subx, suby
		i := mod(a(0), nFaces)
		if c.busy.face[i] {
			return
		}
		if op.Arg(2) < 0 {
			f := c.fontAt(a(1))
			if f != nil {
				c.faces[i] = &faceRec{id: i, font: c.fontIdx(a(1))}
				if !c.w.guard || fits(f, 12*64, 512) {
					c.faces[i].f = truetype.NewFace(f, nil)
				}
			}
			return
		}
		opt := faceOptions(func(k int) int { return a(2 + k) })
		opt.Size = c.w.size(a(2))
		c.newFace(i, a(1), opt)
	case "fglyph": // face, x, y, rune; and how far what it places is looked at from
		f := c.face(a(0))
		if f == nil || c.busy.face[f.id] {
			return
		}
		dr, mask, mp, adv, ok := f.f.Glyph(fp(a(1), a(2)), c.w.rune(f.font, a(3)))
		o.OK = ok
		h.boolean(ok)
		f.has = false
		if ok {
			dr = dr.Add(image.Pt(a(4), a(5)))
			h.rect(dr)
			h.fix(adv)
			d := newDigest()
			maskDigest(&d, dr, mask, mp)
			h.n(int(d))
			f.has, f.dr, f.mask, f.mp, f.sum = true, dr, mask, mp, d
		}
	case "fadv": // face, rune
		f := c.face(a(0))
		if f == nil || c.busy.face[f.id] {
			return
		}
		adv, ok := f.f.GlyphAdvance(c.w.rune(f.font, a(1)))
		o.OK = ok
		h.boolean(ok)
		h.fix(adv)
	case "fbounds": // face, rune
		f := c.face(a(0))
		if f == nil || c.busy.face[f.id] {
			return
		}
		b, adv, ok := f.f.GlyphBounds(c.w.rune(f.font, a(1)))
		o.OK = ok
		h.boolean(ok)
		h.frect(b)
		h.fix(adv)
	case "fkern": // face, rune, rune
		f := c.face(a(0))
		if f == nil || c.busy.face[f.id] {
			return
		}
		h.fix(f.f.Kern(c.w.rune(f.font, a(1)), c.w.rune(f.font, a(2))))
	case "fmetrics":
		f := c.face(a(0))
		if f == nil || c.busy.face[f.id] {
			return
		}
		m := f.f.Metrics()
		h.fix(m.Height, m.Ascent, m.Descent)
	case "fclose":
		f := c.face(a(0))
		if f == nil || c.busy.face[f.id] {
			return
		}
		h.err(f.f.Close())
	case "fdraw": // face, image, x, y; text
		f := c.face(a(0))
		if f == nil || c.busy.face[f.id] {
			return
		}
		f.has = false
		img := a(1)
		if c.w.apart {
			img = apart(img, f.font)
		}
		d := font.Drawer{Dst: c.drawImage(img), Src: c.w.srcs[mod(a(4), len(c.w.srcs))], Face: f.f, Dot: fp(a(2)+64*c.region.Min.X, a(3)+64*c.region.Min.Y)}
		if c.w.dst != nil && !c.region.Empty() {
			d.Dst = c.w.dst.SubImage(c.region).(*image.RGBA)
		}
		d.DrawString(op.S)
		h.fix(d.Dot.X, d.Dot.Y)
		c.imgDigest(img, h)
	case "fmeasure": // face; text
		f := c.face(a(0))
		if f == nil || c.busy.face[f.id] {
			return
		}
		b, adv := font.BoundString(f.f, op.S)
		h.frect(b)
		h.fix(adv, font.MeasureString(f.f, op.S))

	// Contexts.
	case "cnew":
		i := mod(a(0), nCtxs)
		if !c.busy.ctx[i] {
			c.ctxs[i] = nil
			c.ctx(i)
		}
	case "csize":
		if x := c.ctx(a(0)); !c.busy.ctx[x.id] {
			x.size = c.w.size(a(1))
			x.c.SetFontSize(x.size)
		}
	case "cdpi":
		if x := c.ctx(a(0)); !c.busy.ctx[x.id] {
			x.dpi = dpiOf(a(1))
			x.c.SetDPI(x.dpi)
		}
	case "chint":
		if x := c.ctx(a(0)); !c.busy.ctx[x.id] {
			x.hint = hintOf(a(1))
			x.c.SetHinting(x.hint)
		}
	case "cfont":
		if x := c.ctx(a(0)); !c.busy.ctx[x.id] {
			if a(1) < 0 {
				x.font = -1
				x.c.SetFont(nil)
			} else {
				c.setFont(x, a(1))
			}
		}
	case "cdst":
		if x := c.ctx(a(0)); !c.busy.ctx[x.id] {
			c.setDst(x, a(1))
		}
	case "csrc":
		if x := c.ctx(a(0)); !c.busy.ctx[x.id] {
			x.src = mod(a(1), len(c.w.srcs))
			x.c.SetSrc(c.w.srcs[x.src])
		}
	case "cclip": // ctx, x0, y0, w, h
		if x := c.ctx(a(0)); !c.busy.ctx[x.id] {
			if !c.region.Empty() {
				x.clip = image.Rect(0, 0, mod(a(3), 100), mod(a(4), 100)).Add(c.region.Min).Add(image.Pt(mod(a(1), 30)-10, mod(a(2), 30)-10)).Intersect(c.region)
			} else {
				x.clip = image.Rect(a(1), a(2), a(1)+mod(a(3), 100), a(2)+mod(a(4), 100))
			}
			x.c.SetClip(x.clip)
		}
	case "cfix": // ctx, hundredths of a point
		x := c.ctx(a(0))
		h.fix(x.c.PointToFixed(float64(a(1)) / 100))
	case "cdraw": // ctx, x, y; text
		x := c.ctx(a(0))
		if c.busy.ctx[x.id] {
			return
		}
		if c.w.apart && x.dst >= 0 {
			c.setDst(x, apart(x.dst, x.font))
		}
		if c.w.guard && x.font >= 0 && !fits(c.w.fonts[x.font], fx(int(x.size*x.dpi*64/72)), 1) {
			return
		}
		c.busy.ctx[x.id] = true
		p, err := x.c.DrawString(op.S, fp(a(1)+64*c.region.Min.X, a(2)+64*c.region.Min.Y))
		c.busy.ctx[x.id] = false
		if err != nil {
			o.E = err.Error()
		}
		h.fix(p.X, p.Y)
		if x.dst >= 0 {
			c.imgDigest(x.dst, h)
		} else {
			c.regionDigest(h)
		}

	// Rasterizers.
	case "rnew":
		i := mod(a(0), nRasts)
		if c.busy.rast[i] {
			return
		}
		c.rasts[i] = &rastRec{r: raster.NewRasterizer(mod(a(1), 200), mod(a(2), 200)), id: i}
	case "rbounds":
		if r := c.rast(a(0)); !c.busy.rast[r.id] {
			r.r.SetBounds(mod(a(1), 210)-5, mod(a(2), 210)-5)
		}
	case "rclear":
		if r := c.rast(a(0)); !c.busy.rast[r.id] {
			r.r.Clear()
		}
	case "rwind":
		if r := c.rast(a(0)); !c.busy.rast[r.id] {
			r.r.UseNonZeroWinding = a(1)&1 != 0
		}
	case "roff":
		if r := c.rast(a(0)); !c.busy.rast[r.id] {
			r.r.Dx, r.r.Dy = mod(a(1), 40)-20+c.region.Min.X, mod(a(2), 40)-20+c.region.Min.Y
		}
	case "rstart":
		if r := c.rast(a(0)); !c.busy.rast[r.id] {
			r.r.Start(fp(a(1), a(2)))
		}
	case "r1":
		if r := c.rast(a(0)); !c.busy.rast[r.id] {
			r.r.Add1(fp(a(1), a(2)))
		}
	case "r2":
		if r := c.rast(a(0)); !c.busy.rast[r.id] {
			r.r.Add2(fp(a(1), a(2)), fp(a(3), a(4)))
		}
	case "r3":
		if r := c.rast(a(0)); !c.busy.rast[r.id] {
			r.r.Add3(fp(a(1), a(2)), fp(a(3), a(4)), fp(a(5), a(6)))
		}
	case "rpath": // rasterizer, path
		r := c.rast(a(0))
		p, _ := c.source(a(1))
		if !c.busy.rast[r.id] {
			r.r.AddPath(p)
		}
	case "rstroke": // rasterizer, path, width, cap, join, callback; N in the callback
		r := c.rast(a(0))
		p, pr := c.source(a(1))
		if c.busy.rast[r.id] || !strokable(p) {
			return
		}
		c.busy.rast[r.id] = true
		was := c.busy.path
		if pr != nil {
			c.busy.path[pr.id] = true
		}
		cp, jn := c.strokeHooks(op, 3, h)
		r.r.AddStroke(p, width(a(2)), cp, jn)
		c.busy.rast[r.id] = false
		c.busy.path = was
	case "rrast": // rasterizer, painter, abort at, callback at; N in the callback
		r := c.rast(a(0))
		if c.busy.rast[r.id] {
			return
		}
		rec := &spanRec{}
		var p raster.Painter = rec
		pi := -1
		if mod(a(1), nPnts+1) < nPnts {
			p, pi = c.painter(a(1))
			if c.busy.pnt[pi] {
				return
			}
			c.busy.pnt[pi] = true
		}
		c.busy.rast[r.id] = true
		n := 0
		r.r.Rasterize(raster.PainterFunc(func(ss []raster.Span, done bool) {
			n++
			if a(2) != 0 && n == 1+mod(a(2)-1, 8) {
				panic(Abort{n})
			}
			if len(op.N) > 0 && n == 1+mod(a(3), 4) {
				c.nested(op.N, h)
			}
			h.spans(ss)
			p.Paint(ss, done)
		}))
		c.busy.rast[r.id] = false
		if pi >= 0 {
			c.busy.pnt[pi] = false
			c.pntDigest(pi, h)
		}

	// Paths.
	case "pclear":
		if p := c.path(a(0)); !c.busy.path[p.id] {
			p.p.Clear()
		}
	case "pstart":
		if p := c.path(a(0)); !c.busy.path[p.id] {
			p.p.Start(fp(a(1), a(2)))
		}
	case "p1":
		if p := c.path(a(0)); !c.busy.path[p.id] && len(p.p) > 0 {
			p.p.Add1(fp(a(1), a(2)))
		}
	case "p2":
		if p := c.path(a(0)); !c.busy.path[p.id] && len(p.p) > 0 {
			p.p.Add2(fp(a(1), a(2)), fp(a(3), a(4)))
		}
	case "p3":
		if p := c.path(a(0)); !c.busy.path[p.id] && len(p.p) > 0 {
			p.p.Add3(fp(a(1), a(2)), fp(a(3), a(4)), fp(a(5), a(6)))
		}
	case "ppath":
		p := c.path(a(0))
		q, _ := c.source(a(1))
		if !c.busy.path[p.id] && len(p.p)+len(q) < 4000 {
			p.p.AddPath(q)
		}
	case "pstroke":
		p := c.path(a(0))
		q, pr := c.source(a(1))
		if c.busy.path[p.id] || pr == p || !strokable(q) || len(p.p) > 4000 {
			return
		}
		was := c.busy.path
		c.busy.path[p.id] = true
		if pr != nil {
			c.busy.path[pr.id] = true
		}
		cp, jn := c.strokeHooks(op, 3, h)
		p.p.AddStroke(q, width(a(2)), cp, jn)
		c.busy.path = was
		h.path(p.p)
	case "pread":
		p := c.path(a(0))
		h.path(p.p)
		if len(p.p) < 200 {
			h.str(p.p.String())
		}

	// Painters.
	case "npaint": // painter, image, kind, parameter
		i := mod(a(0), nPnts)
		if !c.busy.pnt[i] {
			c.pnts[i] = c.makePainter(a(1), a(2), a(3))
		}
	case "paint": // painter; P spans; N between batches
		p, i := c.painter(a(0))
		if c.busy.pnt[i] {
			return
		}
		c.busy.pnt[i] = true
		c.feed(p, mod(a(1), 60)-20+c.region.Min.Y, op.P, func() { c.nested(op.N, h) })
		c.busy.pnt[i] = false
		c.pntDigest(i, h)
	case "ivar": // reads everything painted so far
		for i := range c.imgs {
			if c.imgs[i] != nil {
				for k := 0; k < 3; k++ {
					c.imgDigest(i+k*nImgs, h)
				}
			}
		}
		if !c.region.Empty() {
			c.regionDigest(h)
		}
	}
}

// feed hands spans to a painter; P is a list of (row step, x step, width, alpha,
// cut) tuples.
func (c *Caller) feed(p raster.Painter, y0 int, P []int, between func()) {
	var ss []raster.Span
	x0 := c.region.Min.X - 10
	x, y := x0, y0
	for i := 0; i+4 < len(P); i += 5 {
		if dy := mod(P[i], 4); dy > 0 {
			y += dy
			x = x0
		}
		x += mod(P[i+1], 20)
		w := 1 + mod(P[i+2], 20)
		al := uint32(mod(P[i+3], 0x10000))
		if al == 0 {
			al = 0xffff
		}
		ss = append(ss, raster.Span{Y: y, X0: x, X1: x + w, Alpha: al})
		x += w
		if P[i+4]&1 != 0 {
			p.Paint(ss, false)
			if between != nil {
				between()
				between = nil
			}
			ss = nil
		}
	}
	p.Paint(ss, true)
}

func (c *Caller) strokeHooks(op *core.Op, base int, h *digest) (raster.Capper, raster.Joiner) {
	a := op.Arg
	if len(op.N) == 0 && a(base+2) == 0 {
		return c.capper(a(base), nil), c.joiner(a(base+1), nil)
	}
	n := 0
	hook := func() {
		n++
		if a(base+2) != 0 && n == 1+mod(a(base+2)-1, 8) {
			panic(Abort{n})
		}
		if n == 1+mod(a(base+3), 3) {
			c.nested(op.N, h)
		}
	}
	return c.capper(a(base), hook), c.joiner(a(base+1), hook)
}

// strokable reports whether stroking supports the path: the library does not
// implement the stroking of cubic segments.
func strokable(p raster.Path) bool {
	if len(p) == 0 || p[0] != 0 {
		return false
	}
	for i := 0; i < len(p); {
		switch p[i] {
		case 0, 1:
			i += 4
		case 2:
			i += 6
		default:
			return false
		}
	}
	return true
}

func (c *Caller) imgDigest(v int, h *digest) {
	if c.w.dst != nil && !c.region.Empty() {
		c.regionDigest(h)
		return
	}
	m := c.img(v)
	switch mod(v, 3*nImgs) / nImgs {
	case 0:
		h.bytes(m.rgba.Pix)
	case 1:
		h.bytes(m.alpha.Pix)
	default:
		h.bytes(m.gray.Pix)
	}
}

func (c *Caller) pntDigest(i int, h *digest) {
	if c.w.dst != nil && !c.region.Empty() {
		c.regionDigest(h)
		return
	}
	for k := range c.imgs {
		if c.imgs[k] != nil {
			h.bytes(c.imgs[k].rgba.Pix)
			h.bytes(c.imgs[k].alpha.Pix)
		}
	}
}

// regionDigest covers the caller's region of the shared images.
func (c *Caller) regionDigest(h *digest) {
	r := c.region
	for y := r.Min.Y; y < r.Max.Y; y++ {
		i := c.w.dst.PixOffset(r.Min.X, y)
		h.bytes(c.w.dst.Pix[i : i+4*r.Dx()])
		j := c.w.adst.PixOffset(r.Min.X, y)
		h.bytes(c.w.adst.Pix[j : j+r.Dx()])
	}
}
