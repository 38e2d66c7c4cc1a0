package core

import (
	"encoding/json"
	"fmt"
	"sort"
	"time"

	"github.com/golang/freetype/verifsim/simrt"
)

// Size describes a scenario.
func (s *Scenario) Size() string {
	n := 0
	for _, t := range s.Tasks {
		n += len(t.Ops)
	}
	return fmt.Sprintf("%d callers, %d operations, %d switches, %d faults", len(s.Tasks), n, len(s.Sched), len(s.Faults))
}

// Shrink reduces s while test still reports a violation of the same class.
// test returns nil when the scenario passes or fails in another way.
func Shrink(s *Scenario, test func(*Scenario) *Violation, deadline time.Time) (*Scenario, *Violation, int) {
	best := s.Clone()
	bestV := test(best)
	if bestV == nil {
		return s, nil, 0
	}
	tried := 0
	try := func(mut func(c *Scenario) bool) bool {
		if time.Now().After(deadline) {
			return false
		}
		c := best.Clone()
		if !mut(c) {
			return false
		}
		tried++
		if v := test(c); v != nil {
			best, bestV = c, v
			return true
		}
		return false
	}
	for changed := true; changed && time.Now().Before(deadline); {
		changed = false
		// Whole callers.
		for i := len(best.Tasks) - 1; i >= 0 && len(best.Tasks) > 1; i-- {
			i := i
			if try(func(c *Scenario) bool { c.Tasks = append(c.Tasks[:i], c.Tasks[i+1:]...); return true }) {
				changed = true
			}
		}
		// Preemptions, in chunks.
		if try(func(c *Scenario) bool { n := len(c.Sched); c.Sched = nil; return n > 0 }) {
			changed = true
		}
		changed = chunks(func() int { return len(best.Sched) }, func(lo, hi int) bool {
			return try(func(c *Scenario) bool {
				// Keep later switches where they are.
				gap := 0
				for _, x := range c.Sched[lo:hi] {
					gap += x.Gap
				}
				rest := append([]simrt.Switch(nil), c.Sched[hi:]...)
				if len(rest) > 0 {
					rest[0].Gap += gap
				}
				c.Sched = append(c.Sched[:lo], rest...)
				return true
			})
		}) || changed
		// Operations, in chunks.
		for t := 0; t < len(best.Tasks); t++ {
			t := t
			changed = chunks(func() int { return len(best.Tasks[t].Ops) }, func(lo, hi int) bool {
				return try(func(c *Scenario) bool {
					c.Tasks[t].Ops = append(c.Tasks[t].Ops[:lo], c.Tasks[t].Ops[hi:]...)
					// Faults keep to their operations.
					if t == 0 {
						fs := c.Faults[:0]
						for _, f := range c.Faults {
							if f.Op >= hi {
								f.Op -= hi - lo
							} else if f.Op >= lo {
								f.Op = lo
							}
							fs = append(fs, f)
						}
						c.Faults = fs
					}
					return true
				})
			}) || changed
		}
		changed = chunks(func() int { return len(best.Faults) }, func(lo, hi int) bool {
			return try(func(c *Scenario) bool { c.Faults = append(c.Faults[:lo], c.Faults[hi:]...); return true })
		}) || changed
		for i := range best.Fonts {
			i := i
			changed = chunks(func() int { return len(best.Fonts[i].Damage) }, func(lo, hi int) bool {
				return try(func(c *Scenario) bool {
					d := c.Fonts[i].Damage
					c.Fonts[i].Damage = append(d[:lo], d[hi:]...)
					return true
				})
			}) || changed
		}
		// Contents of operations.
		for t := 0; t < len(best.Tasks); t++ {
			for o := 0; o < len(best.Tasks[t].Ops); o++ {
				t, o := t, o
				at := func(c *Scenario) *Op { return &c.Tasks[t].Ops[o] }
				if n := len(best.Tasks[t].Ops[o].N); n > 0 {
					changed = chunks(func() int { return len(at(best).N) }, func(lo, hi int) bool {
						return try(func(c *Scenario) bool { x := at(c); x.N = append(x.N[:lo], x.N[hi:]...); return true })
					}) || changed
				}
				changed = chunks(func() int { return len([]rune(at(best).S)) }, func(lo, hi int) bool {
					return try(func(c *Scenario) bool {
						x := at(c)
						rs := []rune(x.S)
						x.S = string(append(rs[:lo:lo], rs[hi:]...))
						return true
					})
				}) || changed
				if len(at(best).P) > 0 {
					changed = chunks(func() int { return len(at(best).P) }, func(lo, hi int) bool {
						return try(func(c *Scenario) bool { x := at(c); x.P = append(x.P[:lo], x.P[hi:]...); return true })
					}) || changed
				}
				for k := range at(best).A {
					k := k
					changed = number(func() int { return at(best).A[k] }, func(v int) bool {
						return try(func(c *Scenario) bool { at(c).A[k] = v; return true })
					}) || changed
				}
			}
		}
		for i := range best.Sched {
			i := i
			changed = number(func() int { return best.Sched[i].To }, func(v int) bool {
				return try(func(c *Scenario) bool { c.Sched[i].To = v; return true })
			}) || changed
		}
		for i := range best.Faults {
			i := i
			changed = number(func() int { return best.Faults[i].Step }, func(v int) bool {
				return try(func(c *Scenario) bool { c.Faults[i].Step = v; return true })
			}) || changed
		}
		var keys []string
		for k := range best.Params {
			keys = append(keys, k)
		}
		sort.Strings(keys)
		for _, k := range keys {
			k := k
			changed = number(func() int { return best.Params[k] }, func(v int) bool {
				return try(func(c *Scenario) bool { c.Params[k] = v; return true })
			}) || changed
		}
	}
	return best, bestV, tried
}

// chunks tries to drop [lo, hi) for shrinking chunk sizes.
func chunks(n func() int, drop func(lo, hi int) bool) (any bool) {
	for size := n(); size >= 1; size /= 2 {
		for lo := n() - size; lo >= 0; {
			if lo+size <= n() && drop(lo, lo+size) {
				any = true
			}
			lo -= size
			if m := n() - size; lo > m {
				lo = m
			}
		}
	}
	return
}

// number tries to replace a number by a smaller one.
func number(get func() int, set func(int) bool) bool {
	v := get()
	if v == 0 {
		return false
	}
	for _, w := range []int{0, 1, v / 2, v - sign(v)} {
		if abs(w) < abs(v) && set(w) {
			return true
		}
	}
	return false
}

func sign(v int) int {
	if v < 0 {
		return -1
	}
	return 1
}

func abs(v int) int {
	if v < 0 {
		return -v
	}
	return v
}

// JSON renders a value on one line.
func JSON(v any) string {
	b, err := json.Marshal(v)
	if err != nil {
		panic(err)
	}
	return string(b)
}
