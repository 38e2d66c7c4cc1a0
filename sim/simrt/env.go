package simrt

import (
	"math/rand"
	rand2 "math/rand/v2"
	"reflect"
	"runtime"
	"time"
)

// Env is what a process finds around it: what results must not depend on. The
// instrumented library asks here instead of packages time, math/rand and
// runtime.
type Env struct {
	Clock int64 // nanoseconds since 1970 at the start
	Tick  int64 // nanoseconds between readings
	Every int   // the clock jumps at every so many readings, if not 0
	Jump  int64 // by so much
	Rand  uint64
	CPUs  int
	Pool  int // 0: the last item put back, 1: any or none, 2: always none
}

// Plain is the environment of runs that do not say otherwise.
var Plain = Env{Clock: 1700000000e9, Tick: 1000, Rand: 1, CPUs: 4}

var (
	env             = Plain
	clock, readings int64
	envRand         uint64
	envUse          [4]int64 // uses of clock, randomness, number of CPUs, pool
)

// SetEnv makes e the environment from here on.
//
//go:norace
func SetEnv(e Env) {
	env, clock, readings, envRand = e, e.Clock, 0, e.Rand
	envUse = [4]int64{}
}

// EnvUse returns how often the library asked for the time, randomness, the number
// of CPUs, and an item of a pool, since SetEnv.
//
//go:norace
func EnvUse() [4]int64 { return envUse }

// Now replaces time.Now.
//
//go:norace
func Now() time.Time {
	envUse[0]++
	readings++
	clock += env.Tick
	if env.Every > 0 && readings%int64(env.Every) == 0 {
		clock += env.Jump
	}
	return time.Unix(0, clock)
}

// Since replaces time.Since.
func Since(t time.Time) time.Duration { return Now().Sub(t) }

// Until replaces time.Until.
func Until(t time.Time) time.Duration { return t.Sub(Now()) }

// Sleep replaces time.Sleep.
//
//go:norace
func Sleep(d time.Duration) {
	if d > 0 {
		clock += int64(d)
	}
	H()
}

type source struct{}

//go:norace
func (source) Uint64() uint64 {
	envUse[1]++
	envRand += 0x9E3779B97F4A7C15
	z := envRand
	z = (z ^ z>>30) * 0xBF58476D1CE4E5B9
	z = (z ^ z>>27) * 0x94D049BB133111EB
	return z ^ z>>31
}

func (s source) Int63() int64 { return int64(s.Uint64() >> 1) }

//go:norace
func (source) Seed(v int64) { envRand = uint64(v) }

// Rand stands for the functions of package math/rand.
func Rand() *rand.Rand { return rand.New(source{}) }

// Rand2 stands for the functions of package math/rand/v2.
func Rand2() *rand2.Rand { return rand2.New(source{}) }

// NumCPU replaces runtime.NumCPU.
//
//go:norace
func NumCPU() int { envUse[2]++; return env.CPUs }

// GOMAXPROCS replaces runtime.GOMAXPROCS.
func GOMAXPROCS(int) int { return NumCPU() }

// NumGoroutine replaces runtime.NumGoroutine.
func NumGoroutine() int { return NumCPU() + 1 }

// Gosched replaces runtime.Gosched.
func Gosched() {
	H()
	if !active {
		runtime.Gosched()
	}
}

// PoolPick chooses among the n items of a pool; n stands for none.
//
//go:norace
func PoolPick(n int) int {
	envUse[3]++
	switch env.Pool {
	case 1:
		return int(source{}.Uint64() % uint64(n+1))
	case 2:
		return n
	}
	return n - 1
}

// GoCall replaces a go statement with arguments.
func GoCall(fn any, args ...any) {
	f := reflect.ValueOf(fn)
	t := f.Type()
	in := make([]reflect.Value, len(args))
	for i, a := range args {
		var p reflect.Type
		if t.IsVariadic() && i >= t.NumIn()-1 {
			p = t.In(t.NumIn() - 1).Elem()
		} else {
			p = t.In(i)
		}
		if a == nil {
			in[i] = reflect.Zero(p)
		} else {
			in[i] = reflect.ValueOf(a).Convert(p)
		}
	}
	Go(func() { f.Call(in) })
}
