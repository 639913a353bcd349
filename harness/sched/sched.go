//go:build race

// Package sched is a cooperative scheduler: of the controlled goroutines exactly one
// runs at a time, and at each scheduling point the exploration decides which. The
// hand-over itself is invisible to the race detector (RaceDisable), so the detector
// sees only the synchronisation the program under test performs.
package sched

import (
	"runtime"
	"sync"
	"sync/atomic"
	"time"
	"unsafe"
)

const (
	MaxThreads = 8
	MaxSteps   = 200000
	// a thread that passes this many points without giving way is made to (spinning)
	fairness = 2000
)

const (
	ready = iota
	blocked
	finished
)

type thread struct {
	goid  uint64
	state int
	on    unsafe.Pointer
	wake  chan struct{}
	muted bool
}

// Step is one decision.
type Step struct {
	Cur     int8 // thread that reached the point, -1 at the start or after one ended
	Chosen  int8
	Enabled uint8
	Cost    int8 // preemptions so far, this one included
}

// Quantum, if above zero, makes a thread give way to the next after so many points.
var Quantum int

var (
	active   int32
	th       [MaxThreads]thread
	n        int
	cur      int
	prefix   []byte
	trace    [MaxSteps]Step
	steps    int
	cost     int
	same     int
	diverged bool
	free     int32
	dead     bool
	runaway  bool
	allDone  chan struct{}
)

//go:norace
func goid() uint64 {
	var buf [40]byte
	k := runtime.Stack(buf[:], false)
	// "goroutine 123 ["
	var id uint64
	for i := 10; i < k && buf[i] >= '0' && buf[i] <= '9'; i++ {
		id = id*10 + uint64(buf[i]-'0')
	}
	return id
}

//go:norace
func self() int {
	g := goid()
	for i := 0; i < n; i++ {
		if th[i].goid == g {
			return i
		}
	}
	return -1
}

//go:norace
func enabled() uint8 {
	var m uint8
	for i := 0; i < n; i++ {
		if th[i].state == ready {
			m |= 1 << uint(i)
		}
	}
	return m
}

// choose picks the thread to run next; from is the thread at the point (-1: none).
//
//go:norace
func choose(from int) int {
	m := enabled()
	if m == 0 {
		return -1
	}
	def := from
	if from < 0 || m&(1<<uint(from)) == 0 {
		def = 0
		for m&(1<<uint(def)) == 0 {
			def++
		}
	} else {
		same++
		if (same > fairness || Quantum > 0 && same >= Quantum) && m&^(1<<uint(from)) != 0 {
			same = 0
			def = (from + 1) % n
			for m&(1<<uint(def)) == 0 {
				def = (def + 1) % n
			}
		}
	}
	pick := def
	if steps < len(prefix) {
		p := int(prefix[steps])
		if p < n && m&(1<<uint(p)) != 0 {
			pick = p
		} else {
			diverged = true
		}
	}
	if from >= 0 && m&(1<<uint(from)) != 0 && pick != from && pick != def {
		cost++
	}
	if pick != from {
		same = 0
	}
	if steps < MaxSteps {
		e := m
		if def != from && from >= 0 && m&(1<<uint(from)) != 0 {
			e = 1 << uint(pick) // forced by fairness: no alternatives
		}
		trace[steps] = Step{int8(from), int8(pick), e, int8(cost)}
		steps++
	} else {
		runaway = true
	}
	return pick
}

//go:norace
func isFree() bool { return atomic.LoadInt32(&free) != 0 }

// Point is a scheduling point.
//
//go:norace
func Point() {
	runtime.RaceDisable()
	if atomic.LoadInt32(&active) == 0 || isFree() {
		runtime.RaceEnable()
		return
	}
	id := self()
	if id < 0 || th[id].muted {
		runtime.RaceEnable()
		return
	}
	next := choose(id)
	if next != id {
		cur = next
		th[next].wake <- struct{}{}
		<-th[id].wake
	}
	runtime.RaceEnable()
}

// Mute makes the calling thread run on at its scheduling points (it still gives way
// where it has to wait), or ends that.
//
//go:norace
func Mute(on bool) {
	runtime.RaceDisable()
	if atomic.LoadInt32(&active) != 0 && !isFree() {
		if id := self(); id >= 0 {
			th[id].muted = on
		}
	}
	runtime.RaceEnable()
}

// Controlled says whether the caller is a controlled thread.
//
//go:norace
func Controlled() bool {
	runtime.RaceDisable()
	ok := atomic.LoadInt32(&active) != 0 && !isFree() && self() >= 0
	runtime.RaceEnable()
	return ok
}

// Block suspends the calling thread until Wake is called for addr. It returns false if
// the caller is not controlled and has to block by itself.
//
//go:norace
func Block(addr unsafe.Pointer) bool {
	runtime.RaceDisable()
	if atomic.LoadInt32(&active) == 0 || isFree() {
		runtime.RaceEnable()
		return false
	}
	id := self()
	if id < 0 {
		runtime.RaceEnable()
		return false
	}
	th[id].state = blocked
	th[id].on = addr
	next := choose(id)
	if next < 0 {
		dead = true
		close(allDone)
		select {} // the process reports the deadlock and ends
	}
	cur = next
	th[next].wake <- struct{}{}
	<-th[id].wake
	runtime.RaceEnable()
	return !isFree()
}

// Wake makes the threads blocked on addr ready again.
//
//go:norace
func Wake(addr unsafe.Pointer) {
	runtime.RaceDisable()
	if atomic.LoadInt32(&active) != 0 {
		for i := 0; i < n; i++ {
			if th[i].state == blocked && th[i].on == addr {
				th[i].state = ready
				th[i].on = nil
			}
		}
	}
	runtime.RaceEnable()
}

//go:norace
func begin(id int) {
	runtime.RaceDisable()
	th[id].goid = goid()
	<-th[id].wake
	runtime.RaceEnable()
}

//go:norace
func end(id int) {
	runtime.RaceDisable()
	th[id].state = finished
	if !isFree() {
		next := choose(-1)
		if next >= 0 {
			cur = next
			th[next].wake <- struct{}{}
		} else {
			all := true
			for i := 0; i < n; i++ {
				if th[i].state != finished {
					all = false
				}
			}
			if !all {
				dead = true
				close(allDone)
				select {}
			}
		}
	}
	runtime.RaceEnable()
}

// Outcome of one execution.
type Outcome struct {
	Trace    []Step
	Deadlock bool
	Stuck    bool // a thread blocked outside the scheduler's control; the rest ran free
	Hung     bool // ... and did not end even so
	Runaway  bool
	Diverged bool
}

// Run executes the bodies under the given schedule prefix; where the prefix ends the
// running thread goes on.
func Run(bodies []func(), pre []byte) Outcome {
	n = len(bodies)
	prefix = pre
	steps, cost, same = 0, 0, 0
	diverged, dead, runaway = false, false, false
	atomic.StoreInt32(&free, 0)
	allDone = make(chan struct{})
	for i := range th {
		th[i] = thread{wake: make(chan struct{}, 1)}
	}
	atomic.StoreInt32(&active, 1)
	var wg sync.WaitGroup
	for i, b := range bodies {
		wg.Add(1)
		go func(i int, b func()) {
			defer wg.Done()
			begin(i)
			b()
			end(i)
		}(i, b)
	}
	// wait until all have an identity
	for i := 0; i < n; i++ {
		for !registered(i) {
			runtime.Gosched()
		}
	}
	first := choose(-1)
	cur = first
	th[first].wake <- struct{}{}
	done := make(chan struct{})
	go func() { wg.Wait(); close(done) }()
	o := Outcome{}
	last := -1
	tick := time.NewTimer(10 * time.Second)
	defer tick.Stop()
	for {
		select {
		case <-done:
			atomic.StoreInt32(&active, 0)
			o.Trace = append([]Step(nil), trace[:steps]...)
			o.Diverged, o.Runaway = diverged, runaway
			return o
		case <-allDone:
			o.Deadlock = true
			o.Trace = append([]Step(nil), trace[:steps]...)
			return o
		case <-tick.C:
			if peek() != last {
				last = peek()
				tick.Reset(10 * time.Second)
				continue
			}
			if o.Stuck {
				o.Hung = true
				return o
			}
			o.Stuck = true
			atomic.StoreInt32(&free, 1)
			for i := 0; i < n; i++ {
				select {
				case th[i].wake <- struct{}{}:
				default:
				}
			}
			tick.Reset(30 * time.Second)
		}
	}
}

//go:norace
func registered(i int) bool { return th[i].goid != 0 }

//go:norace
func peek() int { return steps }

// Free runs the bodies without control.
func Free(bodies []func()) (hung bool) {
	atomic.StoreInt32(&active, 0)
	done := make(chan struct{})
	var wg sync.WaitGroup
	start := make(chan struct{})
	for _, b := range bodies {
		wg.Add(1)
		go func(b func()) { defer wg.Done(); <-start; b() }(b)
	}
	close(start)
	go func() { wg.Wait(); close(done) }()
	select {
	case <-done:
		return false
	case <-time.After(60 * time.Second):
		return true
	}
}
