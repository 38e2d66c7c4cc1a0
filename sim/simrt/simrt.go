// Package simrt is the simulator's runtime: the seam between the rewritten
// library and the seeded scheduler.
//
// The rewriter puts a call of Y before every statement of the library. Y
// counts simulated steps. When the step at which the next thing is due is
// reached (a preemption of the schedule, a fault event, the step budget of the
// call in progress) it enters the slow path, which does it.
//
// Simulated tasks are goroutines of which exactly one, the one whose number is
// in cur, runs; all others wait for their turn in a spin loop over
// runtime.Gosched. The baton is a plain variable touched only by functions
// marked norace, so that handing it over creates no happens-before edge: under
// the race detector two tasks stay concurrent although they never run at the
// same time, and conflicting accesses are reported for every schedule.
// GOMAXPROCS must be 1.
package simrt

import (
	"fmt"
	"math"
	"reflect"
	"runtime"
	"sort"
	"sync"
)

const inf = math.MaxInt64

// Switch is one preemption: after Gap steps since the previous one, the
// scheduler continues with the To-th runnable task (modulo their number).
type Switch struct {
	Gap int `json:"g"`
	To  int `json:"t"`
}

// StepLimit is the panic value of a call that used up its step budget.
type StepLimit struct{ Steps int64 }

// Deadlock is the panic value when no task can proceed.
type Deadlock struct{}

// Cond is what a blocked task waits for. Ready must have no effect and should be
// marked norace.
type Cond interface{ Ready() bool }

type event struct {
	at int64 // in own steps of the task
	fn func()
}

type task struct {
	used    int64 // own steps
	limit   int64 // own steps at which StepLimit is raised
	events  []event
	blocked Cond
	done    bool
	daemon  bool
}

const maxTasks = 64

var (
	left   int64 = inf // steps until the slow path is due
	armed  int64 = inf // value left was last set to
	active bool
	inSlow bool

	tasks   [maxTasks]*task
	nTasks  int
	cur     int
	sched   []Switch
	schedI  int
	schedAt int64 // global step of the next switch
	global  int64 // global steps accounted for
	join    *sync.WaitGroup
	deadlk  bool

	// Trace of performed switches.
	nSwitch int64
	ilHash  uint64
	mapSeed uint64

	// Preemption at H.
	hotPct  uint64
	hotSeed uint64
	nHot    int64
)

// Y is a yield point.
//
//go:norace
func Y() {
	left--
	if left < 0 {
		slow()
	}
}

// H is a yield point next to an access to memory that several callers may share,
// or to a synchronizing operation; there the simulator preempts with a chance of
// its own.
//
//go:norace
func H() {
	left--
	if left < 0 {
		slow()
	}
	if hotPct != 0 {
		hotSwitch()
	}
}

// SetHot sets the chance, in percent, of a preemption at H, for the next Run.
//
//go:norace
func SetHot(pct int, seed uint64) { hotPct, hotSeed = uint64(pct), seed*2862933555777941757+3037000493 }

// Hot returns the number of preemptions at H in the last Run.
//
//go:norace
func Hot() int64 { return nHot }

//go:norace
func hotSwitch() {
	if !active || inSlow {
		return
	}
	hotSeed = hotSeed*6364136223846793005 + 1442695040888963407
	if (hotSeed>>33)%100 >= hotPct {
		return
	}
	account()
	me := cur
	hotSeed = hotSeed*6364136223846793005 + 1442695040888963407
	if r := pick(int(hotSeed >> 40)); r >= 0 && r != me {
		nHot++
		trace(me, r)
		left, armed = 0, 0
		handOver(me, r)
	}
	arm()
}

//go:norace
func account() {
	if armed == inf {
		return
	}
	d := armed - left
	if d < 0 {
		d = 0
	}
	global += d
	tasks[cur].used += d
	armed = left
}

//go:norace
func arm() { armFor(cur) }

// armFor sets the counters for task i. Whoever passes the baton calls it before
// writing cur, which has to be the last write: the Go runtime may preempt the
// goroutine anywhere, and the task named in cur then runs.
//
//go:norace
func armFor(i int) {
	t := tasks[i]
	n := int64(inf)
	if schedI < len(sched) && schedAt-global < n {
		n = schedAt - global
	}
	if t.limit-t.used < n {
		n = t.limit - t.used
	}
	if len(t.events) > 0 && t.events[0].at-t.used < n {
		n = t.events[0].at - t.used
	}
	if n < 0 {
		n = 0
	}
	if n > inf/4 {
		n = inf / 4
	}
	left, armed = n, n
}

//go:norace
func slow() {
	if !active {
		left, armed = inf, inf
		return
	}
	left++ // this step has not been taken yet
	account()
	if inSlow {
		// Library code called by an event: not interrupted again.
		left, armed = inf/4, inf/4
		return
	}
	me := cur
	t := tasks[me]
	for len(t.events) > 0 && t.events[0].at <= t.used {
		fn := t.events[0].fn
		t.events = t.events[1:]
		inSlow = true
		left, armed = inf/4, inf/4
		fn()
		left, armed = 0, 0
		inSlow = false
	}
	if t.used >= t.limit {
		n := t.limit
		t.limit = inf
		arm()
		panic(StepLimit{n})
	}
	for schedI < len(sched) && schedAt <= global {
		to := sched[schedI].To
		nextSwitch()
		if r := pick(to); r >= 0 && r != me {
			trace(me, r)
			handOver(me, r)
		}
	}
	arm()
	left-- // now it is taken
	if left < 0 {
		left = 0
	}
}

//go:norace
func nextSwitch() {
	schedI++
	if schedI < len(sched) {
		g := int64(sched[schedI].Gap)
		if g < 1 {
			g = 1
		}
		schedAt = global + g
	}
}

//go:norace
func trace(from, to int) {
	nSwitch++
	h := ilHash
	for _, v := range [3]uint64{uint64(from), uint64(to), uint64(tasks[from].used)} {
		h = (h ^ v) * 0x9E3779B97F4A7C15
		h ^= h >> 29
	}
	ilHash = h
}

//go:norace
func runnable(i int) bool {
	t := tasks[i]
	if t.done {
		return false
	}
	if t.blocked != nil {
		return t.blocked.Ready()
	}
	return true
}

// pick returns the to-th runnable task, or -1.
//
//go:norace
func pick(to int) int {
	n := 0
	for i := 0; i < nTasks; i++ {
		if runnable(i) {
			n++
		}
	}
	if n == 0 {
		return -1
	}
	if to < 0 {
		to = -to
	}
	to %= n
	for i := 0; i < nTasks; i++ {
		if runnable(i) {
			if to == 0 {
				return i
			}
			to--
		}
	}
	return -1
}

//go:norace
func handOver(me, to int) {
	cur = to
	for cur != me {
		runtime.Gosched()
	}
}

//go:norace
func await(me int) {
	for cur != me {
		runtime.Gosched()
	}
}

//go:norace
func finish(me int) {
	account()
	tasks[me].done = true
	next := -1
	for k := 1; k <= nTasks; k++ {
		i := (me + k) % nTasks
		if runnable(i) {
			next = i
			break
		}
	}
	if next < 0 {
		// Either all are done, or those left are blocked for ever.
		for i := 0; i < nTasks; i++ {
			if !tasks[i].done {
				deadlk = true
				armFor(i)
				cur = i // wakes up in Block, and panics there
				return
			}
		}
		left, armed = inf, inf
		active = false
		cur = -1
		return
	}
	trace(me, next)
	armFor(next)
	cur = next
}

// Run executes fns as simulated tasks under the schedule s and returns when all
// have finished. A task must not let panics escape.
func Run(s []Switch, seed uint64, fns ...func()) {
	if runtime.GOMAXPROCS(0) != 1 {
		panic("simrt: GOMAXPROCS is not 1")
	}
	var wg sync.WaitGroup
	start(s, seed, &wg)
	for _, fn := range fns {
		spawn(fn, &wg)
	}
	begin()
	wg.Wait()
	end()
}

//go:norace
func start(s []Switch, seed uint64, wg *sync.WaitGroup) {
	if active {
		panic("simrt: nested Run")
	}
	sched, schedI, schedAt, global = s, 0, 0, 0
	if len(s) > 0 {
		schedAt = int64(s[0].Gap)
	}
	nTasks, nSwitch, nHot, ilHash, cur, deadlk, inSlow = 0, 0, 0, 1469598103934665603, -1, false, false
	mapSeed = seed
	join = wg
}

//go:norace
func newTask() int {
	if nTasks == maxTasks {
		panic("simrt: too many tasks")
	}
	tasks[nTasks] = &task{limit: inf}
	nTasks++
	return nTasks - 1
}

func spawn(fn func(), wg *sync.WaitGroup) {
	id := newTask()
	wg.Add(1)
	go func() {
		defer wg.Done()
		await(id)
		defer finish(id)
		fn()
	}()
}

//go:norace
func begin() {
	if nTasks == 0 {
		return
	}
	active = true
	armFor(0)
	cur = 0
}

//go:norace
func end() { left, armed, active = inf, inf, false }

// Go starts a task from library code.
func Go(fn func()) {
	wg, ok := joiner()
	if !ok {
		go fn()
		return
	}
	spawn(fn, wg)
}

//go:norace
func joiner() (*sync.WaitGroup, bool) { return join, active }

// Block suspends the current task until cond holds. Outside of a simulation it
// spins.
//
//go:norace
func Block(cond Cond) {
	if !active {
		for !cond.Ready() {
			runtime.Gosched()
		}
		return
	}
	if cond.Ready() {
		return
	}
	account()
	me := cur
	t := tasks[me]
	t.blocked = cond
	for !cond.Ready() {
		r := pick(0)
		if r < 0 || deadlk {
			deadlk = true
			t.blocked = nil
			arm()
			panic(Deadlock{})
		}
		trace(me, r)
		armFor(r)
		handOver(me, r)
	}
	t.blocked = nil
	arm()
}

// Limit sets the step budget of the current task's next call; 0 means none.
//
//go:norace
func Limit(n int64) {
	if !active {
		return
	}
	account()
	t := tasks[cur]
	if n <= 0 {
		t.limit = inf
	} else {
		t.limit = t.used + n
	}
	arm()
}

// After arranges for fn to be called when the current task has taken n more
// steps of its own.
//
//go:norace
func After(n int64, fn func()) {
	if !active {
		return
	}
	account()
	t := tasks[cur]
	e := event{t.used + n, fn}
	i := 0
	for i < len(t.events) && t.events[i].at <= e.at {
		i++
	}
	ev := make([]event, 0, len(t.events)+1)
	ev = append(ev, t.events[:i]...)
	ev = append(ev, e)
	ev = append(ev, t.events[i:]...)
	t.events = ev
	arm()
}

// CancelEvents drops the current task's pending events.
//
//go:norace
func CancelEvents() {
	if !active {
		return
	}
	account()
	tasks[cur].events = nil
	arm()
}

// Used returns the number of steps the current task has taken.
//
//go:norace
func Used() int64 {
	if !active || cur < 0 {
		return 0
	}
	account()
	return tasks[cur].used
}

// Steps returns the number of steps of the last or current Run.
//
//go:norace
func Steps() int64 {
	if active {
		account()
	}
	return global
}

// Switches returns the number of switches performed in the last Run, and a hash
// of the interleaving (who was interrupted where, and who continued).
//
//go:norace
func Switches() (int64, uint64) { return nSwitch, ilHash }

// Cur returns the number of the current task.
//
//go:norace
func Cur() int { return cur }

// Active reports whether a simulation is running.
//
//go:norace
func Active() bool { return active }

// MapIter iterates over m in an order chosen by the simulation's seed.
func MapIter[M ~map[K]V, K comparable, V any](m M) func(func(K, V) bool) {
	return func(yield func(K, V) bool) {
		keys := make([]K, 0, len(m))
		strs := make([]string, 0, len(m))
		for k := range m {
			keys = append(keys, k)
		}
		var kk K
		switch reflect.TypeOf(&kk).Elem().Kind() {
		case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
			sort.Slice(keys, func(i, j int) bool { return reflect.ValueOf(keys[i]).Int() < reflect.ValueOf(keys[j]).Int() })
		case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
			sort.Slice(keys, func(i, j int) bool { return reflect.ValueOf(keys[i]).Uint() < reflect.ValueOf(keys[j]).Uint() })
		default:
			for _, k := range keys {
				strs = append(strs, fmt.Sprintf("%#v", k))
			}
			sort.Sort(&byStr[K]{keys, strs})
		}
		s := nextMapSeed()
		for i := len(keys) - 1; i > 0; i-- {
			s = s*6364136223846793005 + 1442695040888963407
			j := int((s >> 33) % uint64(i+1))
			keys[i], keys[j] = keys[j], keys[i]
		}
		for _, k := range keys {
			if v, ok := m[k]; ok {
				if !yield(k, v) {
					return
				}
			}
		}
	}
}

//go:norace
func nextMapSeed() uint64 {
	mapSeed = mapSeed*6364136223846793005 + 1442695040888963407
	return mapSeed
}

type byStr[K any] struct {
	k []K
	s []string
}

func (b *byStr[K]) Len() int           { return len(b.k) }
func (b *byStr[K]) Less(i, j int) bool { return b.s[i] < b.s[j] }
func (b *byStr[K]) Swap(i, j int) {
	b.k[i], b.k[j] = b.k[j], b.k[i]
	b.s[i], b.s[j] = b.s[j], b.s[i]
}
