package main

import (
	"encoding/json"
	"fmt"
	"hash/fnv"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"

	"verifmc/ref"
)

// Check is the exploration for one property.
type Check struct {
	ID    string
	Run   func(r *Run)
	EnvEA bool // explore in East Asian start-up configuration too
	// PanicOK: a panic of the code under test is judged by the check itself.
	Assume []string
	Bounds map[string]string // tier -> text
}

var checks = map[string]*Check{}

func register(c *Check) { checks[c.ID] = c }

// Violation is one failing case.
type Violation struct {
	Index  int64  `json:"index"`
	Phase  string `json:"phase"`
	Case   string `json:"case"`
	Detail string `json:"detail"`
}

// Result is what a worker process reports.
type Result struct {
	Cases       int64            `json:"cases"`
	States      int64            `json:"states"`
	Transitions int64            `json:"transitions"`
	Nontrivial  int64            `json:"nontrivial"`
	Phases      map[string]int64 `json:"phases"`
	Outcomes    []uint64         `json:"outcomes"`
	Capped      bool             `json:"capped"`
	Samples     []string         `json:"samples"`
	Viols       []Violation      `json:"viols"`
}

const maxOutcomes = 20000

// Run is the exploration context of one worker.
type Run struct {
	curIdx   int64 // atomic, index of running case or -1; first, for alignment on 32 bits
	Tier     string
	Cfg      ref.Cfg
	shard    int64
	shards   int64
	only     int64 // replay: only this index (-1: all)
	upto     int64 // replay: stop after this index (-1: none)
	idx      int64
	mine     int64
	phase    string
	res      Result
	outcomes map[uint64]struct{}
	deadline time.Time
	trace    *os.File
	curDesc  atomic.Value
	seq      int64
}

// C is one case being judged.
type C struct {
	r      *Run
	failed string
}

func (c *C) Fail(format string, a ...any) {
	if c.failed == "" {
		c.failed = fmt.Sprintf(format, a...)
	}
}
func (c *C) Failed() bool { return c.failed != "" }

// Op counts operations executed on the real code.
func (c *C) Op(n int) { c.r.res.Transitions += int64(n) }

// Nontrivial marks the case as one that exercises the property's interesting part.
func (c *C) Nontrivial(b bool) {
	if b {
		c.r.res.Nontrivial++
	}
}

// Outcome records a distinct observed result.
func (c *C) Outcome(s string) {
	if len(c.r.outcomes) >= maxOutcomes {
		return
	}
	h := fnv.New64a()
	h.Write([]byte(s))
	c.r.outcomes[h.Sum64()] = struct{}{}
}

func (c *C) OutcomeN(n int) {
	if len(c.r.outcomes) < maxOutcomes {
		c.r.outcomes[uint64(n)] = struct{}{}
	}
}

func (r *Run) Thorough() bool { return r.Tier == "thorough" }

// Pick is the quick or the thorough bound.
func (r *Run) Pick(q, t int) int {
	if r.Thorough() {
		return t
	}
	return q
}

func (r *Run) Phase(name string) { r.phase = name }

// State counts model states / inputs constructed by this worker.
func (r *Run) State() { r.res.States++ }

type stop struct{}

// Want decides whether the next case belongs to this worker. It must be called once
// for each case, in the same order in every worker.
func (r *Run) Want() bool {
	i := r.idx
	r.idx++
	if r.upto >= 0 && i > r.upto {
		panic(stop{})
	}
	if r.only >= 0 {
		return i == r.only
	}
	return i%r.shards == r.shard
}

// Do runs one case of this worker (after Want returned true).
func (r *Run) Do(desc func() string, f func(c *C)) {
	idx := r.idx - 1
	if r.mine&255 == 0 && time.Now().After(r.deadline) {
		r.res.Capped = true
		panic(stop{})
	}
	r.mine++
	r.res.Cases++
	if r.res.Phases == nil {
		r.res.Phases = map[string]int64{}
	}
	r.res.Phases[r.phase]++
	r.curDesc.Store(desc)
	atomic.StoreInt64(&r.curIdx, idx)
	if r.trace != nil {
		s := strconv.FormatInt(idx, 10) + "\n" + r.phase + "\n" + desc() + "\n"
		r.trace.Truncate(0)
		r.trace.WriteAt([]byte(s), 0)
	}
	if len(r.res.Samples) < 2 || (r.mine%5003 == 0 && len(r.res.Samples) < 4) {
		r.res.Samples = append(r.res.Samples, r.phase+": "+clip(desc()))
	}
	c := &C{r: r}
	func() {
		defer func() {
			if e := recover(); e != nil {
				if _, ok := e.(stop); ok {
					panic(e)
				}
				c.Fail("panic: %v\n%s", e, clip2(string(debug.Stack())))
			}
		}()
		f(c)
	}()
	atomic.StoreInt64(&r.curIdx, -1)
	if c.failed != "" {
		r.res.Viols = append(r.res.Viols, Violation{Index: idx, Phase: r.phase, Case: desc(), Detail: c.failed})
		if len(r.res.Viols) >= 3 {
			panic(stop{})
		}
	}
}

// Case is Want and Do in one.
func (r *Run) Case(desc func() string, f func(c *C)) {
	if r.Want() {
		r.res.States++
		r.Do(desc, f)
	}
}

// Try runs f and returns the panic value, if any.
func Try(f func()) (p any) {
	defer func() { p = recover() }()
	f()
	return nil
}

func clip(s string) string {
	if len(s) > 300 {
		return s[:300] + fmt.Sprintf("...(%d bytes)", len(s))
	}
	return s
}
func clip2(s string) string {
	if len(s) > 2500 {
		return s[:2500]
	}
	return s
}

func q(s string) string { return clip(strconv.QuoteToASCII(s)) }

// ---- worker process ----

func cpuSeconds() float64 {
	var u syscall.Rusage
	syscall.Getrusage(syscall.RUSAGE_SELF, &u)
	return float64(u.Utime.Sec+u.Stime.Sec) + float64(u.Utime.Usec+u.Stime.Usec)/1e6
}

const hangCPU = 40.0 // CPU seconds in one case; cases take microseconds to a few seconds

func (r *Run) watchdog(out string, res func() *Result) {
	last := int64(-1)
	start := 0.0
	for {
		time.Sleep(500 * time.Millisecond)
		i := atomic.LoadInt64(&r.curIdx)
		now := cpuSeconds()
		if i != last || i < 0 {
			last, start = i, now
			continue
		}
		if now-start > hangCPU {
			d, _ := r.curDesc.Load().(func() string)
			v := Violation{Index: i, Phase: r.phase, Detail: fmt.Sprintf("no return after %.0f s of CPU time", now-start)}
			if d != nil {
				v.Case = d()
			}
			o := Result{Cases: r.res.Cases, States: r.res.States, Transitions: r.res.Transitions, Viols: []Violation{v}}
			b, _ := json.Marshal(&o)
			os.WriteFile(out, b, 0o644)
			os.Exit(0)
		}
	}
}

func workerMain(args []string) {
	// worker ID tier shard shards only upto deadlineUnix out trace
	ck := checks[args[0]]
	r := &Run{Tier: args[1], outcomes: map[uint64]struct{}{}, curIdx: -1}
	at := func(i int) int64 { n, err := strconv.ParseInt(args[i], 10, 64); must(err); return n }
	r.shard, r.shards, r.only, r.upto = at(2), at(3), at(4), at(5)
	r.deadline = time.Unix(at(6), 0)
	if os.Getenv("RUNEWIDTH_EASTASIAN") == "1" {
		r.Cfg = ref.EA
	}
	if args[8] != "" {
		f, err := os.Create(args[8])
		must(err)
		r.trace = f
	}
	debug.SetGCPercent(400)
	runtime.GOMAXPROCS(2)
	go r.watchdog(args[7], nil)
	func() {
		defer func() {
			if e := recover(); e != nil {
				if _, ok := e.(stop); !ok {
					panic(e)
				}
			}
		}()
		current = args[0]
		ck.Run(r)
	}()
	for h := range r.outcomes {
		r.res.Outcomes = append(r.res.Outcomes, h)
	}
	b, err := json.Marshal(&r.res)
	must(err)
	must(os.WriteFile(args[7], b, 0o644))
}

func must(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, "error:", err)
		os.Exit(2)
	}
}

// ---- coordinator ----

func cleanEnv(ea bool, extra ...string) []string {
	var env []string
	for _, kv := range os.Environ() {
		k := strings.SplitN(kv, "=", 2)[0]
		switch k {
		case "LANG", "LC_ALL", "LC_CTYPE", "RUNEWIDTH_EASTASIAN", "GORACE", "GODEBUG", "GOGC", "GOMEMLIMIT":
			continue
		}
		env = append(env, kv)
	}
	env = append(env, "LANG=C.UTF-8")
	if ea {
		env = append(env, "RUNEWIDTH_EASTASIAN=1")
	}
	return append(env, extra...)
}

type job struct {
	ea    bool
	shard int
}

type jobOut struct {
	job
	res *Result
	err string
}

func runWorker(id, tier string, j job, shards int, only, upto int64, deadline time.Time, trace string) (*Result, string) {
	f, err := os.CreateTemp("", "mc-out-")
	must(err)
	f.Close()
	defer os.Remove(f.Name())
	cmd := exec.Command(os.Args[0], "worker", id, tier, strconv.Itoa(j.shard), strconv.Itoa(shards),
		strconv.FormatInt(only, 10), strconv.FormatInt(upto, 10), strconv.FormatInt(deadline.Unix(), 10), f.Name(), trace)
	cmd.Env = cleanEnv(j.ea)
	var errb strings.Builder
	cmd.Stderr = &errb
	cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	runtime.LockOSThread()
	err = cmd.Run()
	runtime.UnlockOSThread()
	b, _ := os.ReadFile(f.Name())
	var res Result
	if err != nil || json.Unmarshal(b, &res) != nil {
		s := errb.String()
		if len(s) > 3000 {
			s = s[:3000]
		}
		return nil, fmt.Sprintf("worker died: %v\n%s", err, s)
	}
	return &res, ""
}

type replayFile struct {
	Property    string    `json:"property"`
	Tier        string    `json:"tier"`
	EastAsian   bool      `json:"east_asian"`
	Shard       int       `json:"shard"`
	Shards      int       `json:"shards"`
	Violation   Violation `json:"violation"`
	Isolated    string    `json:"isolated_rerun"`
	HowToReplay string    `json:"how_to_replay"`
}

func coordinator(id string) int {
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	ck := checks[id]
	if ck == nil {
		fmt.Fprintln(os.Stderr, "unknown property", id)
		return 2
	}
	t0 := time.Now()
	shards := runtime.NumCPU()
	if shards < 2 {
		shards = 2
	}
	budget := 500 * time.Second
	if tier == "thorough" {
		budget = 3 * time.Hour
	}
	deadline := t0.Add(budget)
	var jobs []job
	for _, ea := range []bool{false, true} {
		if ea && !ck.EnvEA {
			continue
		}
		for s := 0; s < shards; s++ {
			jobs = append(jobs, job{ea, s})
		}
	}
	outs := make([]jobOut, len(jobs))
	sem := make(chan struct{}, shards)
	var wg sync.WaitGroup
	for i := range jobs {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			sem <- struct{}{}
			defer func() { <-sem }()
			o := jobOut{job: jobs[i]}
			for try := 0; try < 3; try++ {
				trace := ""
				if try > 0 {
					trace = filepath.Join(os.TempDir(), fmt.Sprintf("mc-trace-%d-%d", os.Getpid(), i))
				}
				o.res, o.err = runWorker(id, tier, jobs[i], shards, -1, -1, deadline, trace)
				if o.res != nil {
					break
				}
				if trace != "" {
					b, _ := os.ReadFile(trace)
					os.Remove(trace)
					p := strings.SplitN(string(b), "\n", 3)
					if len(p) == 3 {
						n, _ := strconv.ParseInt(p[0], 10, 64)
						o.res = &Result{Cases: 1, Viols: []Violation{{Index: n, Phase: p[1], Case: strings.TrimSpace(p[2]), Detail: "the process crashed in this case (twice): " + o.err}}}
						break
					}
				}
			}
			outs[i] = o
		}(i)
	}
	wg.Wait()

	tot := Result{Phases: map[string]int64{}}
	seen := map[uint64]struct{}{}
	type vj struct {
		v Violation
		j job
	}
	var viols []vj
	capped := false
	for _, o := range outs {
		if o.res == nil {
			fmt.Fprintln(os.Stderr, "check error:", o.err)
			return 2
		}
		tot.Cases += o.res.Cases
		tot.States += o.res.States
		tot.Transitions += o.res.Transitions
		tot.Nontrivial += o.res.Nontrivial
		for k, v := range o.res.Phases {
			if o.ea {
				k += " (East Asian)"
			}
			tot.Phases[k] += v
		}
		for _, h := range o.res.Outcomes {
			seen[h] = struct{}{}
		}
		capped = capped || o.res.Capped
		for _, v := range o.res.Viols {
			viols = append(viols, vj{v, o.job})
		}
		if o.shard == 0 || len(tot.Samples) < 6 {
			tot.Samples = append(tot.Samples, o.res.Samples...)
		}
	}
	if len(tot.Samples) > 10 {
		tot.Samples = tot.Samples[:10]
	}
	root := verifRoot()
	cov := map[string]any{
		"states": tot.States, "transitions": tot.Transitions,
		"traces_validated_against_impl": tot.Cases,
		"distinct_nontrivial":           tot.Nontrivial,
		"distinct_observed_outcomes":    len(seen),
		"outcomes_counted_up_to":        maxOutcomes * shards,
		"rule":                          ck.Bounds["rule"],
		"bounds":                        ck.Bounds[tier] + "; and the spaces shared by several checks (DESIGN.md), each counted under phases",
		"phases":                        tot.Phases,
		"samples":                       tot.Samples,
		"exhaustive":                    !capped && len(viols) == 0,
		"workers":                       len(jobs),
		"meaning":                       "states: inputs or model states constructed; transitions: operations executed on the real library; traces_validated_against_impl: cases whose observed behaviour was compared with the reference model; distinct_nontrivial: cases meeting `rule`",
	}
	writeEvidence(root, id, tier, seed, "model_checking", cov, ck.Assume, time.Since(t0), len(viols))
	if capped {
		fmt.Printf("note: time budget reached; exploration incomplete (%d cases)\n", tot.Cases)
	}
	if len(viols) > 0 {
		sort.Slice(viols, func(a, b int) bool {
			if viols[a].j.ea != viols[b].j.ea {
				return !viols[a].j.ea
			}
			return viols[a].v.Index < viols[b].v.Index
		})
		v := viols[0]
		rf := replayFile{Property: id, Tier: tier, EastAsian: v.j.ea, Shard: v.j.shard, Shards: shards, Violation: v.v}
		rf.Isolated = "not re-run"
		if !strings.Contains(v.v.Detail, "CPU time") {
			ok := 0
			for i := 0; i < 3; i++ {
				res, e := runWorker(id, tier, v.j, shards, v.v.Index, v.v.Index, time.Now().Add(300*time.Second), "")
				if res == nil || len(res.Viols) > 0 {
					_ = e
					ok++
				}
			}
			rf.Isolated = fmt.Sprintf("case alone in a fresh process: fails %d of 3 times (0 means it needs the preceding cases of its worker)", ok)
		}
		path := filepath.Join(root, "evidence", "replay-"+id+".json")
		rf.HowToReplay = "bash /verif/run.sh replay " + path
		b, _ := json.MarshalIndent(&rf, "", " ")
		must(os.WriteFile(path, append(b, '\n'), 0o644))
		fmt.Printf("case: %s\ndetail: %s\n%s\n", clip(v.v.Case), clip2(v.v.Detail), rf.Isolated)
		fmt.Printf("VIOLATION property=%s replay=%s\n", id, path)
		return 1
	}
	fmt.Printf("OK property=%s tier=%s cases=%d states=%d transitions=%d outcomes=%d wall=%.1fs\n", id, tier, tot.Cases, tot.States, tot.Transitions, len(seen), time.Since(t0).Seconds())
	return 0
}

func verifRoot() string {
	if d := os.Getenv("VERIF_ROOT"); d != "" {
		return d
	}
	return "/verif"
}

func writeEvidence(root, id, tier string, seed int, level string, cov map[string]any, assume []string, wall time.Duration, viols int) {
	ev := map[string]any{"property": id, "tier": tier, "seed": seed, "level": level, "coverage": cov,
		"assumptions": assume, "wall_s": float64(int(wall.Seconds()*100)) / 100, "violations": viols}
	if assume == nil {
		ev["assumptions"] = []string{}
	}
	b, err := json.MarshalIndent(ev, "", " ")
	must(err)
	must(os.MkdirAll(filepath.Join(root, "evidence"), 0o755))
	must(os.WriteFile(filepath.Join(root, "evidence", id+".json"), append(b, '\n'), 0o644))
}

func replay(path string) int {
	b, err := os.ReadFile(path)
	must(err)
	var rf replayFile
	must(json.Unmarshal(b, &rf))
	show := func(res *Result, e string) bool {
		if res == nil {
			fmt.Println(e)
			return true
		}
		for _, v := range res.Viols {
			if v.Index == rf.Violation.Index {
				fmt.Printf("case: %s\ndetail: %s\n", v.Case, v.Detail)
				return true
			}
		}
		return false
	}
	j := job{rf.EastAsian, rf.Shard}
	res, e := runWorker(rf.Property, rf.Tier, j, rf.Shards, rf.Violation.Index, rf.Violation.Index, time.Now().Add(600*time.Second), "")
	if show(res, e) {
		fmt.Println("reproduced in isolation")
		return 1
	}
	res, e = runWorker(rf.Property, rf.Tier, j, rf.Shards, -1, rf.Violation.Index, time.Now().Add(600*time.Second), "")
	if show(res, e) {
		fmt.Println("reproduced after the preceding cases of the same worker")
		return 1
	}
	fmt.Println("not reproduced")
	return 0
}
