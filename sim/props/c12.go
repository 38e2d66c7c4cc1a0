package props

import (
	"runtime"
	"syscall"

	"github.com/golang/freetype/truetype"
	"github.com/golang/freetype/verifsim/core"
	"github.com/golang/freetype/verifsim/simrt"
)

// C12: parsing damaged font bytes yields a font or an error.
//
// Storage faults are applied to a font file, several versions one after another;
// each is parsed from memory that ends at an inaccessible page, with spare
// capacity in that page. What parsing allocates is measured.

func init() {
	register(&core.Check{
		ID: "C12", Runs: [2]int{60000, 10000000}, Gen: genC12, Run: runC12, Level: "exploration",
		Rule: "a synthetic or real font file in 1 to 16 versions with up to six storage faults each (bits flipped, bytes and sectors overwritten, blocks misdirected, writes torn, directory entries damaged, files wrapped in collection headers that may lead to each other, truncated, extended or made of noise); non-trivial: at least one damaged version was parsed",
		Real: realAll, Stub: []string{"font storage (bytes in memory, with damage; inaccessible page behind)"},
		Assume: []string{"at most 24 bytes allocated per byte of the file, plus 256 KiB, and 200 steps per byte, plus 20 million"},
	})
}

func genC12(r *core.Rng, s *core.Scenario) {
	var opt []int
	if r.P(15) {
		opt = append(opt, core.OptMany)
	} else if r.P(50) {
		opt = append(opt, core.OptSmall)
	}
	s.Fonts = []core.FontSpec{core.GenFont(r, 10, opt...)}
	in := specs(s)[0]
	n := len(in.Bytes)
	for v := 1 + r.Log(16); v > 0; v-- {
		for k := r.W(1, 6, 3, 1, 1, 1, 1); k > 0; k-- {
			f := core.GenDamage(r, in.Info)
			if r.P(35) {
				f = core.GenDamageIn(r, in.Info, "cmap", "cmap", "head", "hhea", "hmtx", "maxp", "kern", "name", "OS/2", "vmtx", "loca", "hdmx")
				f.A = f.A[:4]
				if r.P(60) {
					f.A[1] = r.N(40)
				}
				if r.P(15) {
					f.Kind = "table-length"
				}
			} else if r.P(20) {
				f.Kind = "directory"
			}
			f.Op = v
			s.Faults = append(s.Faults, f)
		}
		if r.P(30) {
			f := core.Fault{Kind: "truncate", Op: v, A: []int{r.N(n)}}
			if r.P(60) {
				names := []string{"cmap", "cvt ", "fpgm", "glyf", "head", "hhea", "hmtx", "kern", "loca", "maxp", "name", "prep"}
				t := in.Info.Tables[names[r.N(len(names))]]
				f.A[0] = t[0] + core.Pick(r, 0, t[1], r.N(t[1]+1), min(t[1], r.N(12)), max(0, t[1]-r.N(5)))
			} else if r.P(30) {
				f.A[0] = r.N(200)
			}
			s.Faults = append(s.Faults, f)
		}
		if r.P(5) {
			s.Faults = append(s.Faults, core.Fault{Kind: "extend", Op: v, A: []int{1 + r.N(64), r.N(1 << 20)}})
		}
		if r.P(12) {
			f := core.Fault{Kind: "collection", Op: v}
			for i := 0; i < 9; i++ {
				f.A = append(f.A, r.N(1<<20))
			}
			s.Faults = append(s.Faults, f)
		}
		if r.P(3) {
			s.Faults = append(s.Faults, core.Fault{Kind: "noise", Op: v, A: []int{r.Log(400), r.N(1 << 20), r.N(3)}})
		}
	}
	s.Tasks = []core.Task{{}}
}

// collection wraps b in the header of a font collection, perhaps a damaged one
// whose entries lead to other collection headers, to themselves, or astray.
func collection(b []byte, f *core.Fault) []byte {
	u32 := func(p []byte, v int) { p[0], p[1], p[2], p[3] = byte(v>>24), byte(v>>16), byte(v>>8), byte(v) }
	heads := 1 + mod(f.Arg(0), 3)
	n := 1 + mod(f.Arg(1), 4)
	size := 12 + 4*n
	at := heads * size
	out := make([]byte, at, at+len(b))
	out = append(out, b...)
	// The tables have moved.
	if len(b) >= 12 {
		nt := int(b[4])<<8 | int(b[5])
		for e := at + 12; nt > 0 && e+16 <= len(out); e, nt = e+16, nt-1 {
			o := int(out[e+8])<<24 | int(out[e+9])<<16 | int(out[e+10])<<8 | int(out[e+11])
			u32(out[e+8:], o+at)
		}
	}
	for h := 0; h < heads; h++ {
		p := out[h*size:]
		copy(p, "ttcf")
		u32(p[4:], 0x00010000*(1+mod(f.Arg(2), 2)))
		u32(p[8:], n)
		for i := 0; i < n; i++ {
			to := at
			switch mod(f.Arg(3)>>(2*h)+i, 4) {
			case 0: // itself
				to = h * size
			case 1: // the next one, at last the font
				to = (h + 1) * size
			case 2: // any
				to = mod(f.Arg(4)+h, heads+1) * size
			}
			u32(p[12+4*i:], to)
		}
	}
	p := out[mod(f.Arg(5), heads)*size:]
	switch mod(f.Arg(6), 12) {
	case 0:
		u32(p[12:], []int{0, 1, 4, 8, 12, 0x7fffffff, 0x80000000, 0xffffffff, 0xfffffff4}[mod(f.Arg(7), 9)])
	case 1:
		u32(p[12:], len(out)-mod(f.Arg(7), 16)+2)
	case 2:
		u32(p[8:], []int{0, 0x7fffffff, 0x80000000, 0xffffffff, 0x40000000, 0x3fffffff}[mod(f.Arg(7), 6)])
	case 3:
		u32(p[8:], (len(out)-12)/4+mod(f.Arg(7), 4)-1)
	case 4:
		u32(p[4:], mod(f.Arg(7), 4)<<16)
	case 5:
		out = out[:min(len(out), mod(f.Arg(7), 40))]
	}
	return out
}

// storage is memory that ends at an inaccessible page.
type storage struct {
	mem  []byte
	size int
}

func newStorage(n int) *storage {
	size := (n + 4095) &^ 4095
	m, err := syscall.Mmap(-1, 0, size+4096, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_ANON|syscall.MAP_PRIVATE)
	if err != nil {
		panic("harness: " + err.Error())
	}
	if err := syscall.Mprotect(m[size:], syscall.PROT_NONE); err != nil {
		panic("harness: " + err.Error())
	}
	return &storage{m, size}
}

// put lays b against the end.
func (s *storage) put(b []byte) []byte {
	at := s.size - len(b)
	copy(s.mem[at:], b)
	return s.mem[at:s.size]
}

func (s *storage) free() { syscall.Munmap(s.mem) }

// allocated is the number of bytes allocated so far.
func allocated() uint64 {
	var m runtime.MemStats
	runtime.ReadMemStats(&m)
	return m.TotalAlloc
}

func runC12(s *core.Scenario, o *core.Outcome) {
	base := s.Fonts[0].Load()
	versions := map[int][]*core.Fault{}
	var order []int
	for i := range s.Faults {
		v := s.Faults[i].Op
		if versions[v] == nil {
			order = append(order, v)
		}
		versions[v] = append(versions[v], &s.Faults[i])
	}
	st := newStorage(len(base.Bytes) + 8192)
	defer st.free()
	for _, v := range order {
		b := append([]byte(nil), base.Bytes...)
		for _, f := range versions[v] {
			o.Injected(f.Kind)
			switch f.Kind {
			case "truncate":
				b = b[:mod(f.Arg(0), len(b)+1)]
			case "extend":
				r := core.NewRng(uint64(f.Arg(1)))
				for i := mod(f.Arg(0), 256); i > 0; i-- {
					b = append(b, byte(r.U64()))
				}
			case "noise":
				r := core.NewRng(uint64(f.Arg(1)))
				n := mod(f.Arg(0), 1024)
				keep := min([]int{0, 4, 12}[mod(f.Arg(2), 3)], len(b))
				b = append([]byte(nil), b[:keep]...)
				for ; n > 0; n-- {
					b = append(b, byte(r.U64()))
				}
			case "collection":
				b = collection(b, f)
			default:
				core.Damage(b, base.Info, f)
			}
		}
		if len(b) > st.size {
			b = b[:st.size]
		}
		mem := st.put(b)
		mem = mem[:len(b):len(b)]
		if v%2 == 0 {
			// Spare capacity, in the inaccessible page.
			mem = st.mem[st.size-len(b) : st.size : st.size+4096]
		}
		core.ResetGlobals()
		var font *truetype.Font
		var err error
		var cg caught
		before := allocated()
		o.Sim(nil, 0, func() {
			debugFaults()
			simrt.Limit(20000000 + 200*int64(len(b)))
			cg = try(func() { font, err = truetype.Parse(mem) })
			simrt.Limit(0)
		})
		used := allocated() - before
		switch {
		case cg.limit:
			o.Fail("steps", "version %d (%d bytes): parsing takes more than %s", v, len(b), cg.text)
		case cg.any:
			o.Fail("panic", "version %d (%d bytes): parsing panics: %s", v, len(b), cg.text)
		case (font == nil) == (err == nil):
			o.Fail("result", "version %d: parsing returns font %v and error %v", v, font != nil, err)
		case used > 24*uint64(len(b))+256<<10:
			o.Fail("memory", "version %d: parsing %d bytes allocates more than %d bytes", v, len(b), 24*len(b)+256<<10)
		}
		if o.Violation != nil {
			return
		}
		if err != nil {
			o.Hit("refused")
			o.Observe(err.Error())
		} else {
			o.Hit("accepted")
		}
		o.Nontrivial = true
	}
}
