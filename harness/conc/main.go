//go:build race

// Command conc explores the schedules of concurrent go-table calls (C15).
package main

import (
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"

	"github.com/ilius/go-table/runewidth"

	"verifmc/sched"
)

type viol struct {
	Scenario string `json:"scenario"`
	Schedule string `json:"schedule"`
	Steps    string `json:"steps"`
	Detail   string `json:"detail"`
	Races    string `json:"race_report,omitempty"`
	Full     bool   `json:"cache_full"`
}

type result struct {
	Scenarios int            `json:"scenarios"`
	Schedules int            `json:"schedules"`
	Steps     int            `json:"steps"`
	Preempted int            `json:"preempted"`
	MaxPoints int            `json:"max_points"`
	Diverged  int            `json:"diverged"`
	Free      []string       `json:"free"`
	Capped    []string       `json:"capped"`
	Phases    map[string]int `json:"phases"`
	Samples   []string       `json:"samples"`
	Viols     []viol         `json:"viols"`
}

func must(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, "error:", err)
		os.Exit(2)
	}
}

func main() {
	if len(os.Args) < 2 {
		os.Exit(2)
	}
	switch os.Args[1] {
	case "check":
		os.Exit(check())
	case "worker":
		worker(os.Args[2:])
	case "exec":
		execOne(os.Args[2:])
	case "replay":
		os.Exit(replay(os.Args[2]))
	default:
		os.Exit(2)
	}
}

func raceLog() string {
	m, _ := filepath.Glob(os.Getenv("RACE_LOG") + ".*")
	s := ""
	for _, f := range m {
		b, _ := os.ReadFile(f)
		s += string(b)
	}
	if len(s) > 6000 {
		s = s[:6000]
	}
	return s
}

// one runs one execution and judges it.
func one(sc *scenario, nr int, pre []byte, free bool) (o sched.Outcome, detail string) {
	before := runtime.RaceErrors()
	env := newEnv(sc, nr)
	insts := make([]inst, len(sc.ops))
	for i, op := range sc.ops {
		insts[i] = op.make(env, i)
	}
	if sc.warm {
		sc.ops[0].make(env, 0).run()
	}
	got := make([]string, len(insts))
	bodies := make([]func(), len(insts))
	for i := range insts {
		i := i
		bodies[i] = func() {
			defer func() {
				if e := recover(); e != nil {
					got[i] = fmt.Sprintf("panic: %v\n%s", e, clip(string(debug.Stack()), 1500))
				}
			}()
			got[i] = insts[i].run()
		}
	}
	if free {
		if sched.Free(bodies) {
			return o, "the goroutines did not end within 60 s"
		}
	} else {
		sched.Quantum = sc.quantum
		if pre != nil {
			sched.Quantum = 0
		}
		o = sched.Run(bodies, pre)
		switch {
		case o.Deadlock:
			return o, "deadlock: every unfinished goroutine waits for a lock"
		case o.Hung:
			return o, "the goroutines did not end within 30 s"
		case o.Runaway:
			return o, "the goroutines took more than 200000 scheduling steps"
		}
	}
	for i := range insts {
		if got[i] != insts[i].want {
			return o, fmt.Sprintf("goroutine %d (%s) got %s, alone it gets %s", i, sc.ops[i].name, clip(strconv.QuoteToASCII(got[i]), 700), clip(strconv.QuoteToASCII(insts[i].want), 700))
		}
	}
	if runtime.RaceErrors() > before {
		return o, "data race reported by the race detector"
	}
	return o, ""
}

func clip(s string, k int) string {
	if len(s) > k {
		return s[:k] + "..."
	}
	return s
}

func schedule(t []sched.Step) string {
	b := make([]byte, len(t))
	for i, s := range t {
		b[i] = '0' + byte(s.Chosen)
	}
	return string(b)
}

func compress(t []sched.Step) string {
	var p []string
	for i := 0; i < len(t); {
		j := i
		for j < len(t) && t[j].Chosen == t[i].Chosen {
			j++
		}
		p = append(p, fmt.Sprintf("goroutine %d x%d", t[i].Chosen, j-i))
		i = j
	}
	return strings.Join(p, ", ")
}

type explorer struct {
	res      *result
	nr       int
	deadline time.Time
	full     bool
	tier     string
	free     bool // blocking the scheduler cannot see was met: no more controlled runs
}

func (x *explorer) fail(sc *scenario, o sched.Outcome, detail string) {
	v := viol{Scenario: sc.name, Schedule: schedule(o.Trace), Steps: clip(compress(o.Trace), 3000), Detail: detail, Full: x.full}
	time.Sleep(20 * time.Millisecond)
	v.Races = raceLog()
	x.res.Viols = append(x.res.Viols, v)
}

func (sc *scenario) pass() int {
	switch {
	case sc.defLUT:
		return 2
	case sc.full:
		return 1
	}
	return 0
}

func (x *explorer) explore(sc *scenario, bound, cap int) bool {
	x.res.Scenarios++
	if x.free {
		return x.runFree(sc, sched.Outcome{})
	}
	stack := [][]byte{nil}
	count := 0
	for len(stack) > 0 {
		if count >= cap || time.Now().After(x.deadline) {
			x.res.Capped = append(x.res.Capped, sc.name)
			return true
		}
		pre := stack[len(stack)-1]
		stack = stack[:len(stack)-1]
		x.nr++
		var o sched.Outcome
		var detail, races string
		if sc.cold {
			o, detail, races = x.coldOne(sc, pre)
		} else {
			o, detail = one(sc, x.nr, pre, false)
		}
		count++
		x.res.Schedules++
		x.res.Steps += len(o.Trace)
		if len(o.Trace) > x.res.MaxPoints {
			x.res.MaxPoints = len(o.Trace)
		}
		if k := len(o.Trace); k > 0 && o.Trace[k-1].Cost > 0 {
			x.res.Preempted++
		}
		if o.Diverged {
			x.res.Diverged++
		}
		if len(x.res.Samples) < 3 && count == 5 {
			x.res.Samples = append(x.res.Samples, sc.name+": "+clip(compress(o.Trace), 200))
		}
		if detail != "" {
			x.fail(sc, o, detail)
			if races != "" {
				x.res.Viols[len(x.res.Viols)-1].Races = races
			}
			return false
		}
		if o.Stuck {
			// blocking the scheduler cannot see: fall back to free runs
			x.free = true
			return x.runFree(sc, o)
		}
		for i := len(pre); i < len(o.Trace); i++ {
			s := o.Trace[i]
			base := 0
			if i > 0 {
				base = int(o.Trace[i-1].Cost)
			}
			for alt := 0; alt < len(sc.ops); alt++ {
				if alt == int(s.Chosen) || s.Enabled&(1<<uint(alt)) == 0 {
					continue
				}
				c := base
				if s.Cur >= 0 && s.Enabled&(1<<uint(s.Cur)) != 0 && alt != int(s.Cur) {
					c++
				}
				if c > bound {
					continue
				}
				np := make([]byte, i+1)
				for k := 0; k < i; k++ {
					np[k] = byte(o.Trace[k].Chosen)
				}
				np[i] = byte(alt)
				stack = append(stack, np)
			}
		}
	}
	x.res.Phases[sc.phase] += count
	return true
}

// runFree runs a scenario without control; the race detector still judges each run.
func (x *explorer) runFree(sc *scenario, o sched.Outcome) bool {
	x.res.Free = append(x.res.Free, sc.name)
	runs := 300
	if sc.lut || sc.warm {
		runs = 5
	}
	for i := 0; i < runs; i++ {
		x.nr++
		if _, d := one(sc, x.nr, nil, true); d != "" {
			x.fail(sc, o, d)
			return false
		}
	}
	return true
}

// coldOne runs one execution in a process of its own.
func (x *explorer) coldOne(sc *scenario, pre []byte) (o sched.Outcome, detail, races string) {
	dir, err := os.MkdirTemp("", "cold")
	must(err)
	defer os.RemoveAll(dir)
	cmd := exec.Command(os.Args[0], "exec", x.tier, strconv.Itoa(sc.index), string(pre))
	// bytes 0..3 are not welcome in arguments
	p := make([]byte, len(pre))
	for i := range pre {
		p[i] = pre[i] + '0'
	}
	cmd.Args[4] = string(p)
	cmd.Env = env(filepath.Join(dir, "race"))
	var eb strings.Builder
	cmd.Stderr = &eb
	cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	runtime.LockOSThread()
	b, err := cmd.Output()
	runtime.UnlockOSThread()
	var r execOut
	if err != nil || json.Unmarshal(b, &r) != nil {
		return o, fmt.Sprintf("the process crashed: %v %s", err, clip(eb.String(), 3000)), ""
	}
	return r.O, r.Detail, r.Races
}

type execOut struct {
	O             sched.Outcome
	Detail, Races string
}

func execOne(a []string) {
	i, _ := strconv.Atoi(a[1])
	sc := scenarios(a[0] == "thorough")[i]
	pre := []byte(a[2])
	for i := range pre {
		pre[i] -= '0'
	}
	var r execOut
	r.O, r.Detail = one(sc, 1, pre, false)
	if r.Detail != "" {
		time.Sleep(20 * time.Millisecond)
		r.Races = raceLog()
	}
	json.NewEncoder(os.Stdout).Encode(&r)
	os.Exit(0)
}

func worker(a []string) {
	tier, out := a[0], a[3]
	shard, _ := strconv.Atoi(a[1])
	shards, _ := strconv.Atoi(a[2])
	dl, _ := strconv.ParseInt(a[4], 10, 64)
	res := &result{Phases: map[string]int{}}
	x := &explorer{res: res, deadline: time.Unix(dl, 0), tier: tier}
	list := scenarios(tier == "thorough")
	for pass := 0; pass < 3; pass++ {
		some := false
		for i, sc := range list {
			some = some || i%shards == shard && sc.pass() == pass
		}
		if !some {
			continue
		}
		if pass == 1 {
			fillCache()
			x.full = true
		} else if pass == 2 {
			runewidth.CreateLUT()
		}
		for i, sc := range list {
			sc.index = i
			if i%shards != shard || sc.pass() != pass {
				continue
			}
			if !x.explore(sc, sc.bound, sc.cap) {
				break
			}
		}
		if len(res.Viols) > 0 {
			break
		}
	}
	b, _ := json.Marshal(res)
	must(os.WriteFile(out, b, 0o644))
	os.Exit(0)
}

func env(log string) []string {
	var e []string
	for _, kv := range os.Environ() {
		switch strings.SplitN(kv, "=", 2)[0] {
		case "LANG", "LC_ALL", "LC_CTYPE", "RUNEWIDTH_EASTASIAN", "GORACE", "GODEBUG", "RACE_LOG":
			continue
		}
		e = append(e, kv)
	}
	return append(e, "LANG=C.UTF-8", "RACE_LOG="+log, "GORACE=halt_on_error=0 exitcode=0 atexit_sleep_ms=0 log_path="+log)
}

func root() string {
	if d := os.Getenv("VERIF_ROOT"); d != "" {
		return d
	}
	return "/verif"
}

func check() int {
	t0 := time.Now()
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	budget := 600 * time.Second
	if tier == "thorough" {
		budget = 3 * time.Hour
	}
	shards := 32
	sem := make(chan struct{}, runtime.NumCPU())
	tmp, err := os.MkdirTemp("", "conc")
	must(err)
	defer os.RemoveAll(tmp)
	tot := result{Phases: map[string]int{}}
	var mu sync.Mutex
	var wg sync.WaitGroup
	broken := ""
	for s := 0; s < shards; s++ {
		wg.Add(1)
		go func(s int) {
			defer wg.Done()
			sem <- struct{}{}
			defer func() { <-sem }()
			out := filepath.Join(tmp, fmt.Sprint("out", s))
			log := filepath.Join(tmp, fmt.Sprint("race", s))
			var res result
			var msg string
			ok := false
			for try := 0; try < 2 && !ok; try++ {
				cmd := exec.Command(os.Args[0], "worker", tier, fmt.Sprint(s), fmt.Sprint(shards), out, fmt.Sprint(t0.Add(budget).Unix()))
				cmd.Env = env(log)
				var eb strings.Builder
				cmd.Stderr = &eb
				cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
				runtime.LockOSThread()
				err := cmd.Run()
				runtime.UnlockOSThread()
				b, _ := os.ReadFile(out)
				res = result{}
				if err == nil && json.Unmarshal(b, &res) == nil {
					ok = true
				}
				msg = fmt.Sprintf("%v: %s", err, clip(eb.String(), 4000))
			}
			mu.Lock()
			defer mu.Unlock()
			if !ok {
				if strings.Contains(msg, "fatal error:") || strings.Contains(msg, "panic:") || strings.Contains(msg, "SIG") {
					tot.Viols = append(tot.Viols, viol{Scenario: fmt.Sprintf("worker %d of %d", s, shards), Detail: "the process crashed (twice): " + msg})
				} else {
					broken = msg
				}
				return
			}
			tot.Scenarios += res.Scenarios
			tot.Schedules += res.Schedules
			tot.Steps += res.Steps
			tot.Preempted += res.Preempted
			tot.Diverged += res.Diverged
			if res.MaxPoints > tot.MaxPoints {
				tot.MaxPoints = res.MaxPoints
			}
			tot.Free = append(tot.Free, res.Free...)
			tot.Capped = append(tot.Capped, res.Capped...)
			if len(tot.Samples) < 8 {
				tot.Samples = append(tot.Samples, res.Samples...)
			}
			tot.Viols = append(tot.Viols, res.Viols...)
			for k, v := range res.Phases {
				tot.Phases[k] += v
			}
		}(s)
	}
	wg.Wait()
	if broken != "" && len(tot.Viols) == 0 {
		fmt.Fprintln(os.Stderr, "check error:", broken)
		return 2
	}
	sort.Slice(tot.Viols, func(a, b int) bool {
		if len(tot.Viols[a].Schedule) != len(tot.Viols[b].Schedule) {
			return len(tot.Viols[a].Schedule) < len(tot.Viols[b].Schedule)
		}
		return tot.Viols[a].Scenario < tot.Viols[b].Scenario
	})
	os.MkdirAll(filepath.Join(root(), "evidence"), 0o755)
	cov := map[string]any{
		"states": tot.Steps, "transitions": tot.Steps, "schedules": tot.Schedules,
		"traces_validated_against_impl": tot.Schedules,
		"distinct_nontrivial":           tot.Preempted,
		"scenarios":                     tot.Scenarios,
		"max_scheduling_points":         tot.MaxPoints,
		"diverged_replays":              tot.Diverged,
		"phases":                        tot.Phases,
		"scenarios_run_free":            tot.Free,
		"scenarios_capped":              tot.Capped,
		"rule":                          "schedules: executions of the real code under the controlled scheduler, one race-detector verdict and one comparison of every result with the reference model each; non-trivial: at least one preemption. states/transitions: scheduling points executed",
		"bounds":                        boundsText(tier),
		"samples":                       tot.Samples,
		"exhaustive":                    len(tot.Free) == 0 && len(tot.Capped) == 0 && len(tot.Viols) == 0,
	}
	ev := map[string]any{"property": "C15", "tier": tier, "seed": seed, "level": "model_checking", "coverage": cov,
		"assumptions": []string{
			"Go's race detector decides whether an explored execution has a data race; the schedulers hand-over is hidden from it",
			"scheduling points: operations of sync and sync/atomic and statements that mention a mutable package-level variable, in go-table and go-lru; sufficient for programs without data races, which the detector establishes on the same executions",
		},
		"wall_s": float64(int(time.Since(t0).Seconds()*100)) / 100, "violations": len(tot.Viols)}
	b, _ := json.MarshalIndent(ev, "", " ")
	must(os.WriteFile(filepath.Join(root(), "evidence", "C15.json"), append(b, '\n'), 0o644))
	if len(tot.Free) > 0 || len(tot.Capped) > 0 {
		fmt.Printf("note: not exhaustive: %d scenarios ran without control, %d were cut short\n", len(tot.Free), len(tot.Capped))
	}
	if len(tot.Viols) > 0 {
		v := tot.Viols[0]
		path := filepath.Join(root(), "evidence", "replay-C15.json")
		b, _ := json.MarshalIndent(map[string]any{"property": "C15", "tier": tier, "violation": v, "how_to_replay": "bash /verif/run.sh replay " + path}, "", " ")
		must(os.WriteFile(path, append(b, '\n'), 0o644))
		fmt.Printf("scenario: %s\nschedule: %s\ndetail: %s\n%s\n", v.Scenario, v.Steps, v.Detail, clip(v.Races, 1500))
		fmt.Printf("VIOLATION property=C15 replay=%s\n", path)
		return 1
	}
	fmt.Printf("OK property=C15 tier=%s scenarios=%d schedules=%d steps=%d preempted=%d maxpoints=%d wall=%.1fs\n", tier, tot.Scenarios, tot.Schedules, tot.Steps, tot.Preempted, tot.MaxPoints, time.Since(t0).Seconds())
	return 0
}

func replay(path string) int {
	b, err := os.ReadFile(path)
	must(err)
	var f struct {
		Tier      string `json:"tier"`
		Violation viol   `json:"violation"`
	}
	must(json.Unmarshal(b, &f))
	if os.Getenv("RACE_LOG") == "" {
		tmp, err := os.MkdirTemp("", "conc")
		must(err)
		defer os.RemoveAll(tmp)
		cmd := exec.Command(os.Args[0], "replay", path)
		cmd.Env = env(filepath.Join(tmp, "race"))
		cmd.Stdout, cmd.Stderr = os.Stdout, os.Stderr
		if err := cmd.Run(); err != nil {
			return 1
		}
		return 0
	}
	v := f.Violation
	if v.Full {
		fillCache()
	}
	for _, sc := range scenarios(f.Tier == "thorough") {
		if sc.name != v.Scenario {
			continue
		}
		if sc.defLUT {
			runewidth.CreateLUT()
		}
		pre := []byte(v.Schedule)
		for i := range pre {
			pre[i] -= '0'
		}
		o, d := one(sc, 1, pre, false)
		fmt.Printf("scenario: %s\nschedule: %s\n", sc.name, compress(o.Trace))
		if d == "" {
			fmt.Println("not reproduced")
			return 0
		}
		time.Sleep(20 * time.Millisecond)
		fmt.Printf("detail: %s\n%s\n", d, raceLog())
		return 1
	}
	fmt.Println("unknown scenario", v.Scenario)
	return 2
}
