// Command vsim runs the checks.
//
//	vsim run -prop ID ...       run a check (used by /verif/check.sh)
//	vsim worker -prop ID ...    execute a share of the runs (started by run)
//	vsim exec FILE              execute one replay file in this process
//	vsim minimize FILE          minimise a replay file
//	vsim replay FILE            execute a replay file and report
//	vsim selftest               execute runs several times and compare
//	vsim list                   list the checks
package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"syscall"
	"time"

	"github.com/golang/freetype/verifsim/core"
	"github.com/golang/freetype/verifsim/libglobals"
	"github.com/golang/freetype/verifsim/props"
)

const (
	exitViolation = 1
	exitError     = 2
	exitRace      = 66
)

func main() {
	if len(os.Args) < 2 {
		fail("usage: vsim run|worker|exec|minimize|replay|selftest|list")
	}
	args := os.Args[2:]
	switch os.Args[1] {
	case "run":
		run(args)
	case "worker":
		worker(args)
	case "exec":
		execFile(args)
	case "minimize":
		minimize(args)
	case "replay":
		replay(args)
	case "selftest":
		selftest(args)
	case "gen":
		gen(args)
	case "list":
		for _, c := range props.All() {
			fmt.Println(c.ID)
		}
	default:
		fail("unknown command")
	}
}

func fail(args ...any) {
	fmt.Fprintln(os.Stderr, append([]any{"vsim:"}, args...)...)
	os.Exit(exitError)
}

// confine prepares a process that executes runs.
func confine() {
	runtime.GOMAXPROCS(1)
	debug.SetGCPercent(200)
	if !raceEnabled {
		// Allocations a damaged font may cause must fail, not exhaust the machine.
		lim := syscall.Rlimit{Cur: 6 << 30, Max: 6 << 30}
		syscall.Setrlimit(syscall.RLIMIT_AS, &lim)
	}
	debug.SetMaxStack(256 << 20)
}

// Result is what a worker reports.
type Result struct {
	Runs        int
	Nontrivial  []uint64
	Interleave  []uint64
	Steps       int64
	Switches    int64
	Ops         int64
	Faults      map[string]int
	Probes      map[string]int
	Known       map[string]int
	Samples     []*core.Scenario
	Replay      *core.Replay
	Replays     []*core.Replay // all workers' violations, by index
	Digests     map[int]uint64 `json:",omitempty"`
	MaxRunSteps int64
	Stopped     bool // by the time limit
}

func worker(args []string) {
	fs := flag.NewFlagSet("worker", flag.ExitOnError)
	prop := fs.String("prop", "", "")
	seed := fs.Uint64("seed", 1, "")
	from := fs.Int("from", 0, "")
	step := fs.Int("step", 1, "")
	n := fs.Int("n", 1, "")
	progress := fs.String("progress", "", "")
	out := fs.String("out", "", "")
	digests := fs.Bool("digests", false, "")
	limit := fs.Duration("limit", 10*time.Minute, "")
	fs.Parse(args)
	c := props.Get(*prop)
	if c == nil {
		fail("no check", *prop)
	}
	confine()
	pf, err := os.OpenFile(*progress, os.O_RDWR|os.O_CREATE, 0o644)
	if err != nil {
		fail(err)
	}
	res := &Result{Faults: map[string]int{}, Probes: map[string]int{}, Known: map[string]int{}}
	if *digests {
		res.Digests = map[int]uint64{}
	}
	nt, il := map[uint64]bool{}, map[uint64]bool{}
	start := time.Now()
	for i := *from; i < *n; i += *step {
		if res.Runs&15 == 0 && time.Since(start) > *limit {
			res.Stopped = true
			break
		}
		fmt.Fprintf(&progressBuf, "%-12d\n", i)
		pf.WriteAt(progressBuf.Bytes(), 0)
		progressBuf.Reset()
		s := c.Generate(*seed, i)
		o := c.Exec(s)
		res.Runs++
		res.Steps += o.Steps
		if o.Steps > res.MaxRunSteps {
			res.MaxRunSteps = o.Steps
		}
		res.Switches += o.Switches
		res.Ops += int64(o.Ops)
		for k, v := range o.Faults {
			res.Faults[k] += v
		}
		for k, v := range o.Probes {
			res.Probes[k] += v
		}
		for _, k := range o.Known {
			res.Known[k]++
		}
		if o.Nontrivial {
			nt[s.Hash()] = true
		}
		if o.Switches > 0 {
			il[o.Interleave] = true
		}
		if res.Digests != nil {
			res.Digests[i] = o.Digest ^ uint64(o.Steps)*31 ^ o.Interleave
		}
		if len(res.Samples) == 0 && o.Nontrivial && *from < 2 && len(core.JSON(s)) < 6000 {
			res.Samples = append(res.Samples, s)
		}
		if o.Violation != nil {
			res.Replay = &core.Replay{Property: c.ID, Seed: *seed, Index: i, Class: o.Violation.Class, Msg: o.Violation.Msg, Scenario: s}
			break
		}
	}
	for k := range nt {
		res.Nontrivial = append(res.Nontrivial, k)
	}
	for k := range il {
		res.Interleave = append(res.Interleave, k)
	}
	b, err := json.Marshal(res)
	if err != nil {
		fail(err)
	}
	if err := os.WriteFile(*out, b, 0o644); err != nil {
		fail(err)
	}
}

var progressBuf bytes.Buffer

func gen(args []string) {
	fs := flag.NewFlagSet("gen", flag.ExitOnError)
	prop := fs.String("prop", "", "")
	seed := fs.Uint64("seed", 1, "")
	i := fs.Int("i", 0, "")
	fs.Parse(args)
	s := props.Get(*prop).Generate(*seed, *i)
	b, _ := json.MarshalIndent(&core.Replay{Property: *prop, Seed: *seed, Index: *i, Scenario: s}, "", " ")
	os.Stdout.Write(b)
}

// execFile executes a scenario; exit 0 passed, 1 violation.
func execFile(args []string) {
	rp, err := core.ReadScenario(args[0])
	if err != nil {
		fail(err)
	}
	c := props.Get(rp.Property)
	if c == nil {
		fail("no check", rp.Property)
	}
	confine()
	if b := rp.Before; b != nil {
		for i := 0; i < b.N; i++ {
			c.Exec(c.Generate(b.Seed, b.First+i*b.Step))
		}
	}
	o := c.Exec(rp.Scenario)
	for _, k := range o.Known {
		fmt.Println("KNOWN", k)
	}
	fmt.Printf("DIGEST %x steps %d switches %d faults %v probes %v\n", o.Digest, o.Steps, o.Switches, o.Faults, o.Probes)
	if o.Violation != nil {
		fmt.Printf("CLASS %s\nMESSAGE %s\n", o.Violation.Class, strings.ReplaceAll(o.Violation.Msg, "\n", " | "))
		os.Exit(exitViolation)
	}
}

// child executes a scenario in a process of its own.
func child(exe string, sc *core.Replay, dir string, timeout time.Duration) (v *core.Violation, err error) {
	f := filepath.Join(dir, fmt.Sprintf("cand-%d.json", os.Getpid()))
	b, _ := json.Marshal(sc)
	if err := os.WriteFile(f, b, 0o644); err != nil {
		return nil, err
	}
	defer os.Remove(f)
	cmd := exec.Command(exe, "exec", f)
	var out, errb bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &errb
	cmd.Env = childEnv()
	if err := cmd.Start(); err != nil {
		return nil, err
	}
	t := time.AfterFunc(timeout, func() { cmd.Process.Kill() })
	werr := cmd.Wait()
	if !t.Stop() {
		return nil, fmt.Errorf("timed out")
	}
	return verdict(werr, out.String(), errb.String())
}

const tries = 12

// again executes a replay in a process of its own. Whether the race detector
// reports a race again depends on what it happens to remember of earlier accesses
// when: one that is about a race is tried with several small shifts of that, and
// keeps the one with which the race was reported.
func again(exe string, rp *core.Replay, dir string) (v *core.Violation, err error) {
	was, set := rp.Scenario.Params["race_shift"]
	for i := 0; i < tries; i++ {
		v, err = child(exe, rp, dir, 5*time.Minute)
		if rp.Class != "race" || err != nil || v != nil && v.Class == rp.Class {
			return
		}
		rp.Scenario.Set("race_shift", was+i+1)
	}
	if rp.Class == "race" {
		delete(rp.Scenario.Params, "race_shift")
		if set {
			rp.Scenario.Set("race_shift", was)
		}
	}
	return
}

// elsewhere looks for a violation that repeats in a process of its own: alone, or
// after some or all of the runs its worker had executed before.
func elsewhere(exe string, rps []*core.Replay, step int, dir string) (*core.Replay, *core.Violation) {
	for _, rp := range rps[1:] {
		if v, err := again(exe, rp, dir); err == nil && v != nil && v.Class == rp.Class {
			return rp, v
		}
	}
	for n := 1; n > 0; n *= 4 {
		more := false
		for _, rp := range rps {
			k := min(n, rp.Index/step)
			more = more || k == n
			rp.Before = &core.Before{Seed: rp.Seed, First: rp.Index - k*step, Step: step, N: k}
			if v, err := again(exe, rp, dir); err == nil && v != nil && v.Class == rp.Class {
				return rp, v
			}
		}
		if !more {
			break
		}
	}
	return nil, nil
}

func childEnv() []string {
	return append(os.Environ(), "GORACE=halt_on_error=1 exitcode=66", "GOTRACEBACK=single")
}

func verdict(werr error, out, errs string) (*core.Violation, error) {
	if werr == nil {
		return nil, nil
	}
	ee, ok := werr.(*exec.ExitError)
	if !ok {
		return nil, werr
	}
	switch ee.ExitCode() {
	case exitViolation:
		v := &core.Violation{}
		for _, l := range strings.Split(out, "\n") {
			if strings.HasPrefix(l, "CLASS ") {
				v.Class = l[6:]
			}
			if strings.HasPrefix(l, "MESSAGE ") {
				v.Msg = l[8:]
			}
		}
		return v, nil
	case exitRace:
		return &core.Violation{Class: "race", Msg: raceSummary(errs)}, nil
	}
	if strings.Contains(errs, "harness:") || strings.Contains(errs, "vsim:") {
		return nil, fmt.Errorf("%s", tail(errs, 2000))
	}
	return crash(errs)
}

func crash(errs string) (*core.Violation, error) {
	for _, l := range strings.Split(errs, "\n") {
		if strings.HasPrefix(l, "fatal error:") || strings.HasPrefix(l, "runtime: goroutine stack exceeds") ||
			strings.HasPrefix(l, "panic:") || strings.HasPrefix(l, "SIGSEGV") || strings.HasPrefix(l, "unexpected fault address") {
			return &core.Violation{Class: "crash", Msg: l + " | " + tail(strings.ReplaceAll(errs, "\n", " | "), 1500)}, nil
		}
	}
	return nil, fmt.Errorf("process ended without a verdict: %s", tail(errs, 2000))
}

func tail(s string, n int) string {
	if len(s) > n {
		return s[:n]
	}
	return s
}

func raceSummary(s string) string {
	var ls []string
	for _, l := range strings.Split(s, "\n") {
		l = strings.TrimSpace(l)
		if l == "" || strings.HasPrefix(l, "====") {
			continue
		}
		if i := strings.Index(l, " +0x"); i >= 0 {
			l = l[:i]
		}
		ls = append(ls, l)
		if len(ls) > 40 {
			break
		}
	}
	return strings.Join(ls, " | ")
}

func minimize(args []string) {
	fs := flag.NewFlagSet("minimize", flag.ExitOnError)
	limit := fs.Duration("limit", 25*time.Second, "")
	sub := fs.Bool("sub", false, "execute candidates in processes of their own")
	fs.Parse(args)
	file := fs.Arg(0)
	rp, err := core.ReadScenario(file)
	if err != nil {
		fail(err)
	}
	c := props.Get(rp.Property)
	exe, _ := os.Executable()
	var test func(s *core.Scenario) *core.Violation
	if *sub {
		test = func(s *core.Scenario) *core.Violation {
			cand := &core.Replay{Property: rp.Property, Scenario: s, Class: rp.Class, Before: rp.Before}
			v, err := child(exe, cand, filepath.Dir(file), 60*time.Second)
			for k := 1; k < 4 && err == nil && v == nil && rp.Class == "race"; k++ {
				s.Set("race_shift", k)
				v, err = child(exe, cand, filepath.Dir(file), 60*time.Second)
			}
			if err != nil || v == nil || v.Class != rp.Class {
				return nil
			}
			return v
		}
	} else {
		confine()
		test = func(s *core.Scenario) *core.Violation {
			v := c.Exec(s).Violation
			if v == nil || v.Class != rp.Class {
				return nil
			}
			return v
		}
	}
	from := rp.Scenario.Size()
	best, v, n := core.Shrink(rp.Scenario, test, time.Now().Add(*limit))
	if v == nil {
		fmt.Println("not reproduced")
		os.Exit(exitError)
	}
	rp.Scenario, rp.Msg, rp.Minimised, rp.From = best, v.Msg, true, from
	b, _ := json.MarshalIndent(rp, "", " ")
	if err := os.WriteFile(file, append(b, '\n'), 0o644); err != nil {
		fail(err)
	}
	fmt.Printf("minimised in %d tries: %s -> %s\n", n, from, best.Size())
}

// replay executes a replay file in a fresh process and reports.
func replay(args []string) {
	rp, err := core.ReadScenario(args[0])
	if err != nil {
		fail(err)
	}
	exe, _ := os.Executable()
	v, err := child(exe, rp, os.TempDir(), 5*time.Minute)
	if err != nil {
		fail(err)
	}
	if v == nil {
		fmt.Println("no violation")
		return
	}
	fmt.Printf("VIOLATION property=%s replay=%s\n%s: %s\n", rp.Property, args[0], v.Class, v.Msg)
	os.Exit(exitViolation)
}

type share struct {
	cmd           *exec.Cmd
	out, progress string
	errb          *bytes.Buffer
	done          chan error
	last          string
	since         time.Time
}

func sortedKeys(m map[string]int) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

// batch executes runs 0..n-1 with w worker processes. It returns the merged
// results and, if there is one, the violation with the lowest index.
func batch(exe, prop string, seed uint64, n, w int, dir string, limit time.Duration, digests bool) (*Result, error) {
	var shares []*share
	for k := 0; k < w; k++ {
		s := &share{errb: new(bytes.Buffer), done: make(chan error, 1), since: time.Now()}
		s.out = filepath.Join(dir, fmt.Sprintf("out-%d", k))
		s.progress = filepath.Join(dir, fmt.Sprintf("progress-%d", k))
		os.Remove(s.out)
		os.Remove(s.progress)
		s.cmd = exec.Command(exe, "worker", "-prop", prop, fmt.Sprintf("-seed=%d", seed), fmt.Sprintf("-from=%d", k),
			fmt.Sprintf("-step=%d", w), fmt.Sprintf("-n=%d", n), "-progress", s.progress, "-out", s.out,
			fmt.Sprintf("-limit=%s", limit), fmt.Sprintf("-digests=%v", digests))
		s.cmd.Stderr = s.errb
		s.cmd.Env = childEnv()
		if err := s.cmd.Start(); err != nil {
			return nil, err
		}
		go func() { s.done <- s.cmd.Wait() }()
		shares = append(shares, s)
	}
	total := &Result{Faults: map[string]int{}, Probes: map[string]int{}, Known: map[string]int{}}
	if digests {
		total.Digests = map[int]uint64{}
	}
	nt, il := map[uint64]bool{}, map[uint64]bool{}
	var firstErr error
	pending := len(shares)
	for pending > 0 {
		for _, s := range shares {
			if s.done == nil {
				continue
			}
			select {
			case werr := <-s.done:
				s.done = nil
				pending--
				if werr != nil {
					v, err := verdict(werr, "", s.errb.String())
					if err != nil || v == nil {
						firstErr = fmt.Errorf("worker: %v %v", werr, err)
						continue
					}
					b, _ := os.ReadFile(s.progress)
					var i int
					if _, err := fmt.Sscan(string(b), &i); err != nil {
						firstErr = fmt.Errorf("worker died before its first run: %s", tail(s.errb.String(), 2000))
						continue
					}
					total.Replays = append(total.Replays, &core.Replay{Property: prop, Seed: seed, Index: i, Class: v.Class, Msg: v.Msg, Scenario: props.Get(prop).Generate(seed, i)})
					continue
				}
				b, err := os.ReadFile(s.out)
				r := new(Result)
				if err == nil {
					err = json.Unmarshal(b, r)
				}
				if err != nil {
					firstErr = err
					continue
				}
				total.Runs += r.Runs
				total.Steps += r.Steps
				total.Switches += r.Switches
				total.Ops += r.Ops
				total.Stopped = total.Stopped || r.Stopped
				if r.MaxRunSteps > total.MaxRunSteps {
					total.MaxRunSteps = r.MaxRunSteps
				}
				for k, v := range r.Faults {
					total.Faults[k] += v
				}
				for k, v := range r.Probes {
					total.Probes[k] += v
				}
				for k, v := range r.Known {
					total.Known[k] += v
				}
				for _, k := range r.Nontrivial {
					nt[k] = true
				}
				for _, k := range r.Interleave {
					il[k] = true
				}
				for k, v := range r.Digests {
					total.Digests[k] = v
				}
				total.Samples = append(total.Samples, r.Samples...)
				if r.Replay != nil {
					total.Replays = append(total.Replays, r.Replay)
				}
			case <-time.After(50 * time.Millisecond):
				b, _ := os.ReadFile(s.progress)
				if string(b) != s.last {
					s.last, s.since = string(b), time.Now()
				} else if time.Since(s.since) > 240*time.Second {
					firstErr = fmt.Errorf("watchdog: no progress in run %s", strings.TrimSpace(s.last))
					s.cmd.Process.Kill()
					s.since = time.Now()
				}
			}
		}
	}
	for k := range nt {
		total.Nontrivial = append(total.Nontrivial, k)
	}
	for k := range il {
		total.Interleave = append(total.Interleave, k)
	}
	sort.Slice(total.Replays, func(i, j int) bool { return total.Replays[i].Index < total.Replays[j].Index })
	if len(total.Replays) > 0 {
		total.Replay = total.Replays[0]
	}
	return total, firstErr
}

func run(args []string) {
	fs := flag.NewFlagSet("run", flag.ExitOnError)
	prop := fs.String("prop", "", "")
	seed := fs.Uint64("seed", 1, "")
	tier := fs.String("tier", "quick", "")
	raceExe := fs.String("race", "", "binary built with the race detector")
	verif := fs.String("verif", "/verif", "")
	dir := fs.String("dir", "", "scratch directory")
	workers := fs.Int("workers", 8, "")
	runs := fs.Int("runs", 0, "override the number of runs")
	limit := fs.Duration("limit", 0, "")
	fs.Parse(args)
	c := props.Get(*prop)
	if c == nil {
		fail("no check", *prop)
	}
	exe, _ := os.Executable()
	n := c.Runs[0]
	lim := 200 * time.Second
	if *tier == "thorough" {
		n = c.Runs[1]
		lim = 3 * time.Hour
	} else if *tier != "quick" {
		fail("bad tier")
	}
	if *runs > 0 {
		n = *runs
	}
	if *limit > 0 {
		lim = *limit
	}
	if n < *workers {
		*workers = n
	}
	start := time.Now()
	fmt.Printf("%s: seed %d, tier %s, %d runs, %d yield points in the library\n", c.ID, *seed, *tier, n, libglobals.YieldPoints)
	res, err := batch(exe, c.ID, *seed, n, *workers, *dir, lim, false)
	if err != nil && res.Replay == nil {
		fail(err)
	}
	cover := map[string]any{}
	used := exe
	if c.Race && res.Replay == nil && *raceExe != "" {
		rn := n / 12
		rres, err := batch(*raceExe, c.ID, *seed+1, rn, *workers, *dir, lim, false)
		if err != nil && rres.Replay == nil {
			fail(err)
		}
		cover["race_detector_runs"] = rres.Runs
		cover["race_detector_steps"] = rres.Steps
		if rres.Replay != nil {
			res.Replay, res.Replays = rres.Replay, rres.Replays
			used = *raceExe
		}
	}
	wall := time.Since(start).Seconds()
	violations := 0
	path := ""
	if rp := res.Replay; rp != nil {
		violations = 1
		os.MkdirAll(filepath.Join(*verif, "replays"), 0o755)
		path = filepath.Join(*verif, "replays", fmt.Sprintf("%s-%d-%d.json", c.ID, rp.Seed, rp.Index))
		b, _ := json.MarshalIndent(rp, "", " ")
		if err := os.WriteFile(path, append(b, '\n'), 0o644); err != nil {
			fail(err)
		}
		// First make sure that the unminimised run repeats.
		v, err := again(used, rp, *dir)
		if err != nil {
			fail("replay of run", rp.Index, "gave no verdict:", err)
		}
		if (v == nil || v.Class != rp.Class) && rp.Class != "race" {
			// Perhaps it depends on what the process did before.
			fmt.Printf("run %d alone does not repeat: first %s (%s), then %v\n", rp.Index, rp.Class, tail(rp.Msg, 600), v)
			if rp, v = elsewhere(used, res.Replays, *workers, *dir); rp == nil {
				fail("nor do others, nor with runs before it")
			}
			res.Replay = rp
			os.Remove(path)
			path = filepath.Join(*verif, "replays", fmt.Sprintf("%s-%d-%d.json", c.ID, rp.Seed, rp.Index))
			b, _ = json.MarshalIndent(rp, "", " ")
			if err := os.WriteFile(path, append(b, '\n'), 0o644); err != nil {
				fail(err)
			}
		}
		if v == nil || v.Class != rp.Class {
			// A reported race took place: the report names both accesses.
			fmt.Printf("the race detector did not report the race again in %d executions of the run\n", tries)
			v = &core.Violation{Class: rp.Class, Msg: rp.Msg}
		} else if rp.Class == "race" {
			b, _ = json.MarshalIndent(rp, "", " ")
			if err := os.WriteFile(path, append(b, '\n'), 0o644); err != nil {
				fail(err)
			}
		}
		margs := []string{"minimize"}
		if rp.Class == "crash" || rp.Class == "race" || rp.Before != nil {
			margs = append(margs, "-sub")
		}
		cmd := exec.Command(used, append(margs, path)...)
		cmd.Env = childEnv()
		out, merr := cmd.CombinedOutput()
		fmt.Print(string(out))
		if merr == nil {
			small, _ := core.ReadScenario(path)
			v2, err := again(used, small, *dir)
			switch {
			case err == nil && v2 != nil && v2.Class == rp.Class:
				rp, v = small, v2
				b, _ = json.MarshalIndent(rp, "", " ")
				if err := os.WriteFile(path, append(b, '\n'), 0o644); err != nil {
					fail(err)
				}
			default:
				os.WriteFile(path, append(b, '\n'), 0o644) // keep the original
				fmt.Printf("minimised replay file does not repeat, keeping the original (%v)\n", err)
			}
		} else {
			os.WriteFile(path, append(b, '\n'), 0o644) // keep the original
		}
		fmt.Printf("%s: %s\n", v.Class, v.Msg)
		b, _ = json.Marshal(rp.Scenario)
		fmt.Printf("trace: %s\n", tail(string(b), 3000))
	}
	evidence(c, res, cover, *tier, *seed, wall, violations, *verif)
	for _, k := range sortedKeys(res.Known) {
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", c.ID, k)
	}
	if res.Stopped {
		fmt.Printf("%s: stopped by the time limit after %d runs\n", c.ID, res.Runs)
	}
	fmt.Printf("%s: %d runs, %d non-trivial, %d steps, %d switches, faults %v, probes %v, %.1f s\n", c.ID, res.Runs, len(res.Nontrivial), res.Steps, res.Switches, res.Faults, res.Probes, wall)
	if violations > 0 {
		fmt.Printf("VIOLATION property=%s replay=%s\n", c.ID, path)
		os.Exit(exitViolation)
	}
}

func evidence(c *core.Check, res *Result, cover map[string]any, tier string, seed uint64, wall float64, violations int, verif string) {
	cover["evaluations"] = res.Runs
	cover["distinct_nontrivial"] = len(res.Nontrivial)
	cover["rule"] = c.Rule
	var samples []any
	for _, s := range res.Samples {
		samples = append(samples, s)
	}
	if samples == nil {
		samples = append(samples, c.Generate(seed, 0))
	}
	cover["samples"] = samples
	if wall > 0 {
		cover["runs_per_hour"] = int(float64(res.Runs) / wall * 3600)
		cover["seeds_per_hour"] = cover["runs_per_hour"]
	}
	cover["operations"] = res.Ops
	cover["simulated_steps"] = res.Steps
	cover["longest_run_steps"] = res.MaxRunSteps
	cover["simulated_time"] = "the library reads no clock; simulated time is counted in steps (statements of the library executed under the scheduler)"
	cover["switches"] = res.Switches
	cover["distinct_interleavings"] = len(res.Interleave)
	cover["interleaving_measure"] = "hash of the sequence of (caller interrupted, at which of its steps, caller continued)"
	cover["faults_injected"] = res.Faults
	cover["probes"] = res.Probes
	cover["known_findings_seen"] = res.Known
	cover["components_real"] = c.Real
	cover["components_stub"] = c.Stub
	cover["yield_points"] = libglobals.YieldPoints
	cover["stopped_by_time_limit"] = res.Stopped
	ev := map[string]any{
		"property": c.ID, "tier": tier, "seed": seed, "level": c.Level, "coverage": cover,
		"assumptions": c.Assume, "wall_s": wall, "violations": violations,
	}
	b, err := json.MarshalIndent(ev, "", " ")
	if err != nil {
		fail(err)
	}
	os.MkdirAll(filepath.Join(verif, "evidence"), 0o755)
	if err := os.WriteFile(filepath.Join(verif, "evidence", c.ID+".json"), append(b, '\n'), 0o644); err != nil {
		fail(err)
	}
}

// selftest executes the same runs with different numbers of workers and
// compares what each run observed.
func selftest(args []string) {
	fs := flag.NewFlagSet("selftest", flag.ExitOnError)
	prop := fs.String("prop", "", "one check only")
	n := fs.Int("n", 200, "runs per seed")
	seeds := fs.Int("seeds", 4, "")
	dir := fs.String("dir", os.TempDir(), "")
	fs.Parse(args)
	exe, _ := os.Executable()
	bad := 0
	for _, c := range props.All() {
		if *prop != "" && c.ID != *prop {
			continue
		}
		cnt := 0
		for sd := 1; sd <= *seeds; sd++ {
			var first map[int]uint64
			for _, w := range []int{8, 3, 8, 1, 5} {
				if w == 1 && sd > 1 {
					continue
				}
				r, err := batch(exe, c.ID, uint64(1000*sd), *n, w, *dir, time.Hour, true)
				if err != nil {
					fail(c.ID, err)
				}
				if r.Replay != nil {
					fmt.Println(c.ID, "violation", r.Replay.Class, r.Replay.Msg)
					bad++
				}
				if first == nil {
					first = r.Digests
					continue
				}
				for i, d := range r.Digests {
					cnt++
					if first[i] != d && r.Replay == nil {
						fmt.Printf("%s: seed %d run %d differs with %d workers\n", c.ID, 1000*sd, i, w)
						bad++
					}
				}
			}
		}
		fmt.Printf("%s: %d repetitions compared\n", c.ID, cnt)
	}
	if bad > 0 {
		os.Exit(exitViolation)
	}
}
