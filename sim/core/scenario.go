// Package core holds what all checks share: scenarios, their generation from a
// seed, execution, minimisation, replay files and evidence.
package core

import (
	"encoding/json"
	"fmt"
	"hash/fnv"
	"os"

	"github.com/golang/freetype/verifsim/simrt"
)

// Op is one operation of a caller: a call of the library's public interface.
// Arguments out of range are reduced modulo the number of choices, so that any
// numbers make a valid operation; that is what makes shrinking simple.
type Op struct {
	K string `json:"k"`
	A []int  `json:"a,omitempty"`
	S string `json:"s,omitempty"`
	P []int  `json:"p,omitempty"`
	N []Op   `json:"n,omitempty"` // performed from within a callback of this one
}

// Arg returns the i-th argument, or 0.
func (o *Op) Arg(i int) int {
	if i < len(o.A) {
		return o.A[i]
	}
	return 0
}

// Mod returns the i-th argument reduced to [0, n).
func (o *Op) Mod(i, n int) int {
	if n <= 0 {
		return 0
	}
	v := o.Arg(i) % n
	if v < 0 {
		v += n
	}
	return v
}

// Fault is one injected fault.
type Fault struct {
	Kind string `json:"kind"`
	Op   int    `json:"op"`             // index of the operation it belongs to
	Step int    `json:"step,omitempty"` // steps into that operation
	Font int    `json:"font,omitempty"`
	A    []int  `json:"a,omitempty"`
	Dur  int    `json:"dur,omitempty"` // operations until repair; 0 never
}

func (f *Fault) Arg(i int) int {
	if i < len(f.A) {
		return f.A[i]
	}
	return 0
}

// FontSpec names a font: a real file, or a synthetic font by seed and options.
type FontSpec struct {
	Base   string  `json:"base"`
	Seed   uint64  `json:"seed,omitempty"`
	Opt    []int   `json:"opt,omitempty"`
	Damage []Fault `json:"damage,omitempty"`
}

// Task is one caller.
type Task struct {
	Ops []Op `json:"ops"`
}

// Scenario is everything a run depends on besides the code.
type Scenario struct {
	Prop   string         `json:"prop"`
	Seed   uint64         `json:"seed"`
	Index  int            `json:"index"`
	Kind   string         `json:"kind,omitempty"`
	Params map[string]int `json:"params,omitempty"`
	Fonts  []FontSpec     `json:"fonts,omitempty"`
	Tasks  []Task         `json:"tasks"`
	Sched  []simrt.Switch `json:"sched,omitempty"`
	Faults []Fault        `json:"faults,omitempty"`
}

// Par returns a parameter, or 0.
func (s *Scenario) Par(k string) int { return s.Params[k] }

// Set sets a parameter.
func (s *Scenario) Set(k string, v int) {
	if s.Params == nil {
		s.Params = map[string]int{}
	}
	s.Params[k] = v
}

// Clone returns a deep copy.
func (s *Scenario) Clone() *Scenario {
	b, err := json.Marshal(s)
	if err != nil {
		panic(err)
	}
	c := new(Scenario)
	if err := json.Unmarshal(b, c); err != nil {
		panic(err)
	}
	return c
}

// Hash identifies a scenario's content (not its seed).
func (s *Scenario) Hash() uint64 {
	c := *s
	c.Seed, c.Index = 0, 0
	b, _ := json.Marshal(&c)
	h := fnv.New64a()
	h.Write(b)
	return h.Sum64()
}

// Violation is a broken property.
type Violation struct {
	Class string `json:"class"`
	Msg   string `json:"msg"`
}

func (v *Violation) Error() string { return v.Class + ": " + v.Msg }

// Outcome is what one run gave.
type Outcome struct {
	Violation  *Violation
	Known      []string // known findings seen
	Steps      int64
	Switches   int64
	Interleave uint64
	Faults     map[string]int // injected, by kind, counted when they took effect
	Probes     map[string]int // rare conditions reached
	Digest     uint64         // of everything observed
	Nontrivial bool
	Ops        int
}

// Fail records a violation, unless there is one already.
func (o *Outcome) Fail(class, format string, args ...any) {
	if o.Violation == nil {
		o.Violation = &Violation{class, fmt.Sprintf(format, args...)}
	}
}

// Hit counts a probe.
func (o *Outcome) Hit(k string) {
	if o.Probes == nil {
		o.Probes = map[string]int{}
	}
	o.Probes[k]++
}

// Injected counts a fault that took effect.
func (o *Outcome) Injected(k string) {
	if o.Faults == nil {
		o.Faults = map[string]int{}
	}
	o.Faults[k]++
}

// Observe folds something observed into the digest.
func (o *Outcome) Observe(vs ...any) {
	h := fnv.New64a()
	fmt.Fprint(h, vs...)
	o.Digest = o.Digest*0x100000001b3 ^ h.Sum64()
}

// Sim runs fns under the scenario's schedule and adds up what it cost.
func (o *Outcome) Sim(s []simrt.Switch, seed uint64, fns ...func()) {
	simrt.Run(s, seed, fns...)
	o.Steps += simrt.Steps()
	if len(fns) > 1 {
		n, h := simrt.Switches()
		o.Switches += n
		o.Interleave = o.Interleave*0x9E3779B97F4A7C15 + h
	}
}

// Check is one property's check.
type Check struct {
	ID   string
	Runs [2]int // quick, thorough
	// Gen makes the scenario of a seed; a pure function.
	Gen func(r *Rng, s *Scenario)
	// Run executes a scenario; a pure function of it and the code.
	Run func(s *Scenario, o *Outcome)
	// Rule says how scenarios are made and which count as non-trivial.
	Rule string
	// Real and Stub list components by what ran.
	Real, Stub []string
	Level      string
	Assume     []string
	Race       bool // also run under the race detector
}

// Exec runs a scenario from pristine package state.
func (c *Check) Exec(s *Scenario) (o *Outcome) {
	o = new(Outcome)
	for _, t := range s.Tasks {
		o.Ops += len(t.Ops)
	}
	ResetGlobals()
	simrt.SetEnv(simrt.Plain)
	defer func() {
		if r := recover(); r != nil {
			panic(fmt.Sprintf("harness: run %d of seed %d: %v", s.Index, s.Seed, r))
		}
	}()
	c.Run(s, o)
	return o
}

// Generate makes the i-th scenario of a seed.
func (c *Check) Generate(seed uint64, i int) *Scenario {
	s := &Scenario{Prop: c.ID, Seed: seed, Index: i}
	h := fnv.New64a()
	h.Write([]byte(c.ID))
	c.Gen(NewRng(Mix(seed, h.Sum64(), uint64(i))), s)
	return s
}

// ReadScenario reads a replay file.
func ReadScenario(p string) (*Replay, error) {
	b, err := os.ReadFile(p)
	if err != nil {
		return nil, err
	}
	r := new(Replay)
	return r, json.Unmarshal(b, r)
}

// Before is N runs of a seed: those with indices First, First+Step and so on.
type Before struct {
	Seed  uint64 `json:"seed"`
	First int    `json:"first"`
	Step  int    `json:"step"`
	N     int    `json:"n"`
}

// Replay is the content of a replay file.
type Replay struct {
	Property  string `json:"property"`
	Seed      uint64 `json:"seed"`
	Index     int    `json:"index"`
	Class     string `json:"class"`
	Msg       string `json:"message"`
	Minimised bool   `json:"minimised"`
	From      string `json:"from,omitempty"` // size before minimisation
	// Before says which runs are executed first, in the same process, where a
	// violation depends on what the process did before.
	Before   *Before   `json:"before,omitempty"`
	Scenario *Scenario `json:"scenario"`
}
