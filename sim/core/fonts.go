package core

import (
	"encoding/binary"

	"github.com/golang/freetype/verifsim/fonts"
	"github.com/golang/freetype/verifsim/synth"
)

// FontData is a font file in memory, with what generators need to know of it.
type FontData struct {
	Bytes []byte
	Info  *synth.Info
	Real  bool
}

// Option bits of a synthetic font, in FontSpec.Opt.
const (
	OptMany = iota
	OptPlain
	OptHeavy
	OptNoBad
	OptHonestBox
	OptSafe
	OptSmall
	OptBig
)

func synthOptions(opt []int) (o synth.Options) {
	for _, v := range opt {
		switch v {
		case OptMany:
			o.Many = true
		case OptPlain:
			o.Plain = true
		case OptHeavy:
			o.Heavy = true
		case OptNoBad:
			o.NoBad = true
		case OptHonestBox:
			o.HonestBox = true
		case OptSafe:
			o.Safe = true
		case OptSmall:
			o.Small = true
		case OptBig:
			o.Big = true
		}
	}
	return
}

// Load makes a private copy of the font, with its damage applied.
func (f *FontSpec) Load() *FontData {
	d := new(FontData)
	if f.Base == "synth" {
		d.Bytes, d.Info = synth.Build(f.Seed, synthOptions(f.Opt))
	} else {
		d.Bytes = append([]byte(nil), fonts.Get(f.Base)...)
		d.Info = realInfo(d.Bytes)
		d.Real = true
	}
	for i := range f.Damage {
		Damage(d.Bytes, d.Info, &f.Damage[i])
	}
	return d
}

// Spec returns the font a generator should know of, undamaged.
func (f *FontSpec) Spec() *FontData {
	c := *f
	c.Damage = nil
	return c.Load()
}

func realInfo(b []byte) *synth.Info {
	in := &synth.Info{Tables: map[string][2]int{}}
	n := int(binary.BigEndian.Uint16(b[4:]))
	for i := 0; i < n; i++ {
		e := b[12+16*i:]
		in.Tables[string(e[:4])] = [2]int{int(binary.BigEndian.Uint32(e[8:])), int(binary.BigEndian.Uint32(e[12:]))}
	}
	in.NGlyph = int(binary.BigEndian.Uint16(b[in.Tables["maxp"][0]+4:]))
	for c := rune(' '); c < 0x7f; c++ {
		in.Runes = append(in.Runes, c)
	}
	for c := rune(0xa0); c < 0x180; c++ {
		in.Runes = append(in.Runes, c)
	}
	in.Runes = append(in.Runes, 0x20ac, 0x2022, 0xfb01, 0xfb02, 0xfffd, 0x10ffff)
	// The empty glyph: the first with equal offsets.
	loca := b[in.Tables["loca"][0]:]
	long := b[in.Tables["head"][0]+51] == 1
	for i := 0; i < in.NGlyph; i++ {
		if long && binary.BigEndian.Uint32(loca[4*i:]) == binary.BigEndian.Uint32(loca[4*i+4:]) ||
			!long && binary.BigEndian.Uint16(loca[2*i:]) == binary.BigEndian.Uint16(loca[2*i+2:]) {
			in.Empty = i
			break
		}
	}
	return in
}

// GenFont draws a font.
func GenFont(r *Rng, pReal int, opt ...int) FontSpec {
	if r.P(pReal) {
		return FontSpec{Base: fonts.Names[r.N(len(fonts.Names))]}
	}
	return FontSpec{Base: "synth", Seed: r.U64() >> 16, Opt: opt}
}

// Siblings makes, sometimes, a later font a version of the first that differs in a
// few bytes of its tables only.
func Siblings(r *Rng, fs []FontSpec) {
	if len(fs) < 2 || !r.P(20) {
		return
	}
	i := 1 + r.N(len(fs)-1)
	fs[i] = fs[0]
	fs[i].Damage = nil
	in := fs[0].Spec().Info
	var tables []string
	for _, t := range []string{"hmtx", "vmtx", "kern", "cmap", "name", "hdmx", "cvt ", "glyf", "head", "hhea"} {
		if n := in.Tables[t][1]; n > 18 {
			tables = append(tables, t)
		}
	}
	for n := 1 + r.N(6); n > 0; n-- {
		t := tables[r.N(len(tables))]
		f := GenDamageIn(r, in, t)
		f.Kind = Pick(r, "bitflip", "byte", "u16")
		// The fonts are accepted all the same.
		switch t {
		case "glyf":
			f.Kind = "bitflip"
		case "head": // low bytes of the bounding box
			f.Kind, f.A[1] = "byte", 37+2*r.N(4)
		case "hhea": // of ascent, descent, line gap
			f.Kind, f.A[1] = "byte", 5+2*r.N(3)
		case "cmap":
			f.A[1] = -1 - r.N(8)
		case "kern":
			f.A[1] = 18 + r.N(max(1, in.Tables[t][1]-18))
		}
		fs[i].Damage = append(fs[i].Damage, f)
	}
}
