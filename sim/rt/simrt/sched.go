// Package simrt is the runtime of the simulator: a cooperative scheduler that
// decides every interleaving of the tasks of one run, and the per-task World that
// decides every I/O result, fault, chunk size and map-iteration order.
//
// The instrumenter inserts a call of Y before every statement of the code under
// test, so a task can be preempted between any two statements. Exactly one task
// runs at a time; which one is a function of the schedule (a seed, or an explicit
// list of preemptions).
//
// In a -race build the hand-over between tasks is invisible to the race detector
// (norace functions, plain memory), so the detector sees only the synchronisation
// of the code under test: two unsynchronised conflicting accesses of two tasks are
// reported whatever the schedule was, at the same place every time.
package simrt

import (
	"fmt"
	"runtime"
)

const (
	maxTasks = 64
	maxRec   = 1 << 16
)

// Switch is one entry of an explicit schedule: at step Step the running task is
// suspended and Task runs.
type Switch struct {
	Step int64 `json:"step"`
	Task int   `json:"task"`
}

// StepLimit is the panic value of a run that exceeded its step budget.
type StepLimit struct{ Steps int64 }

func (s StepLimit) Error() string { return fmt.Sprintf("no progress within %d steps", s.Steps) }

// Deadlock is the panic value of a run in which every task is blocked.
type Deadlock struct{}

func (Deadlock) Error() string { return "deadlock: every task is blocked" }

// ExitCalled is the panic value of a task that called os.Exit or log.Fatal.
type ExitCalled struct {
	Code int
	Msg  string
}

func (e ExitCalled) Error() string { return fmt.Sprintf("process exit (status %d): %s", e.Code, e.Msg) }

type aborted struct{}

const (
	stRunnable = iota
	stBlocked
	stDone
)

type task struct {
	state int
	world *World
	wake  chan struct{}
}

// Scheduler state. One run at a time per process. Plain package-level memory,
// accessed by norace functions only.
var (
	on       bool
	turn     int
	ntasks   int
	tasks    [maxTasks]task
	steps    int64
	limit    int64
	aborting bool

	// schedule
	explicit    [maxRec]Switch
	nexplicit   int
	iexplicit   int
	randSched   bool
	schedRng    Rng
	switchProb  uint64 // threshold out of 2^32
	gap         int64
	rec         [maxRec]Switch
	nrec        int
	recOverflow bool
	switches    int64
	schedHash   uint64
)

// Sched configures the schedule of one run.
type Sched struct {
	Random bool     // draw preemptions from Seed
	Seed   uint64   //
	Prob   float64  // probability of a preemption at a step
	Points []int64  // if set (random mode): preempt exactly at these steps
	List   []Switch // explicit mode
	Limit  int64    // step budget; 0 = default
}

// RunInfo is what one run did.
type RunInfo struct {
	Steps     int64
	Switches  int64
	SchedHash uint64
	Rec       []Switch
}

var points [1024]int64
var npoints, ipoint int

const DefaultLimit = 40_000_000

// Begin starts a run with the calling goroutine as task 0.
//
//go:norace
func Begin(s Sched, w *World) {
	if on {
		panic("simrt: nested run")
	}
	ntasks = 1
	tasks[0] = task{state: stRunnable, world: w}
	turn = 0
	steps = 0
	limit = s.Limit
	if limit == 0 {
		limit = DefaultLimit
	}
	aborting = false
	nexplicit, iexplicit, nrec, switches = 0, 0, 0, 0
	recOverflow = false
	schedHash = 14695981039346656037
	for i := 0; i < len(s.List) && i < maxRec; i++ {
		explicit[i] = s.List[i]
		nexplicit++
	}
	randSched = s.Random
	schedRng = NewRng(s.Seed)
	switchProb = uint64(s.Prob * (1 << 32))
	npoints, ipoint = 0, 0
	for i := 0; i < len(s.Points) && i < len(points); i++ {
		points[i] = s.Points[i]
		npoints++
	}
	on = true
}

// End ends the run. All tasks must have been joined.
//
//go:norace
func End() RunInfo {
	on = false
	ri := RunInfo{Steps: steps, Switches: switches, SchedHash: schedHash}
	ri.Rec = make([]Switch, nrec)
	for i := 0; i < nrec; i++ {
		ri.Rec[i] = rec[i]
	}
	for i := range tasks {
		tasks[i] = task{}
	}
	return ri
}

// Steps returns the number of steps taken so far in this run: the simulated clock.
//
//go:norace
func Steps() int64 { return steps }

// On tells if a run is in progress.
//
//go:norace
func On() bool { return on }

// Y is a preemption point.
//
//go:norace
func Y() {
	if !on {
		return
	}
	steps++
	if steps > limit {
		stepOut()
	}
	if ntasks > 1 {
		yieldSlow()
	}
}

//go:norace
func stepOut() {
	l := limit
	limit += 1 << 20 // for what is deferred
	panic(StepLimit{l})
}

//go:norace
func hashSwitch(a int64, b int) {
	h := schedHash
	h ^= uint64(a)
	h *= 1099511628211
	h ^= uint64(b)
	h *= 1099511628211
	schedHash = h
}

//go:norace
func countRunnable(except int) int {
	n := 0
	for i := 0; i < ntasks; i++ {
		if i != except && tasks[i].state == stRunnable {
			n++
		}
	}
	return n
}

//go:norace
func nthRunnable(k, except int) int {
	for i := 0; i < ntasks; i++ {
		if i != except && tasks[i].state == stRunnable {
			if k == 0 {
				return i
			}
			k--
		}
	}
	return -1
}

//go:norace
func yieldSlow() {
	if aborting {
		panic(aborted{})
	}
	me := turn
	target := -1
	if nexplicit > 0 || !randSched {
		for iexplicit < nexplicit && explicit[iexplicit].Step < steps {
			iexplicit++
		}
		if iexplicit < nexplicit && explicit[iexplicit].Step == steps {
			t := explicit[iexplicit].Task
			iexplicit++
			if t >= 0 && t < ntasks && t != me && tasks[t].state == stRunnable {
				target = t
			}
		}
	} else {
		sw := false
		if npoints > 0 {
			for ipoint < npoints && points[ipoint] < steps {
				ipoint++
			}
			if ipoint < npoints && points[ipoint] == steps {
				sw = true
				ipoint++
			}
		} else {
			sw = (schedRng.Next() >> 32) < switchProb
		}
		if sw {
			if n := countRunnable(me); n > 0 {
				target = nthRunnable(int(schedRng.Next()%uint64(n)), me)
			}
		}
	}
	if target >= 0 {
		switchTo(me, target)
	}
}

//go:norace
func record(t int) {
	if nrec < maxRec {
		rec[nrec] = Switch{steps, t}
		nrec++
	} else {
		recOverflow = true
	}
	switches++
	hashSwitch(steps, t)
}

//go:norace
func switchTo(me, target int) {
	record(target)
	turn = target
	wakeTask(target)
	waitTurn(me)
	if aborting {
		panic(aborted{})
	}
}

// pickNext chooses who runs when the running task cannot.
//
//go:norace
func pickNext(me int) int {
	n := countRunnable(me)
	if n == 0 {
		return -1
	}
	if nexplicit > 0 || !randSched {
		for iexplicit < nexplicit && explicit[iexplicit].Step < steps {
			iexplicit++
		}
		if iexplicit < nexplicit && explicit[iexplicit].Step == steps {
			t := explicit[iexplicit].Task
			iexplicit++
			if t >= 0 && t < ntasks && t != me && tasks[t].state == stRunnable {
				return t
			}
		}
		for d := 1; d <= ntasks; d++ {
			t := (me + d) % ntasks
			if t != me && tasks[t].state == stRunnable {
				return t
			}
		}
		return -1
	}
	return nthRunnable(int(schedRng.Next()%uint64(n)), me)
}

// Block suspends the running task until another task makes it runnable (Ready).
// A task that cannot proceed calls BlockUntil instead.
//
//go:norace
func blockMe(me int) {
	steps++
	tasks[me].state = stBlocked
	next := pickNext(me)
	if next < 0 {
		tasks[me].state = stRunnable
		aborting = true
		panic(Deadlock{})
	}
	switchTo(me, next)
}

// BlockUntil suspends the running task until cond holds. cond is evaluated whenever
// another task changed shared synchronisation state (Changed).
//
//go:norace
func BlockUntil(cond func() bool) {
	for !cond() {
		if !on {
			runtime.Gosched()
			continue
		}
		if aborting {
			panic(aborted{})
		}
		blockMe(turn)
	}
}

// Changed makes every blocked task runnable again, to re-evaluate its condition.
//
//go:norace
func Changed() {
	if !on {
		return
	}
	for i := 0; i < ntasks; i++ {
		if tasks[i].state == stBlocked {
			tasks[i].state = stRunnable
		}
	}
}

// WaitChange suspends the running task until another task calls Changed or ends.
//
//go:norace
func WaitChange() {
	if !on {
		runtime.Gosched()
		return
	}
	if aborting {
		panic(aborted{})
	}
	blockMe(turn)
}

// Run executes f as task 0 of a new run and returns what the run did and the value f
// (or a goroutine started by the code under test) panicked with, if any. Tasks that f
// left behind run to completion before Run returns.
func Run(s Sched, w *World, f func()) (ri RunInfo, pv any) {
	TakeGoPanic()
	resetChans()
	Begin(s, w)
	func() {
		defer func() {
			pv = recover()
		}()
		f()
		drain()
	}()
	if _, ok := pv.(aborted); ok {
		pv = nil
	}
	abortAll()
	if g := TakeGoPanic(); g != nil && pv == nil {
		pv = g
	}
	return End(), pv
}

//go:norace
func drain() {
	for alive() > 0 {
		blockMe(0)
	}
}

//go:norace
func alive() int {
	n := 0
	for i := 1; i < ntasks; i++ {
		if tasks[i].state != stDone {
			n++
		}
	}
	return n
}

// abortAll unwinds every task that is still alive.
//
// Alive tells how many tasks have not ended.
//
//go:norace
func Alive() int { return alive() }

func abortAll() {
	aborting = true
	turn = 0
	for {
		t := -1
		for i := 1; i < ntasks; i++ {
			if tasks[i].state != stDone {
				t = i
				break
			}
		}
		if t < 0 {
			break
		}
		tasks[t].state = stRunnable
		turn = t
		wakeTask(t)
		waitTurn(0)
	}
}

//go:norace
func newTask(w *World) int {
	if ntasks >= maxTasks {
		// reuse a finished slot
		for i := 1; i < ntasks; i++ {
			if tasks[i].state == stDone {
				tasks[i] = task{state: stRunnable, world: w, wake: make(chan struct{}, 1)}
				return i
			}
		}
		panic("simrt: too many tasks")
	}
	id := ntasks
	tasks[id] = task{state: stRunnable, world: w, wake: make(chan struct{}, 1)}
	ntasks++
	if ntasks == 2 && tasks[0].wake == nil {
		tasks[0].wake = make(chan struct{}, 1)
	}
	return id
}

//go:norace
func taskDone(id int) {
	tasks[id].state = stDone
	for i := 0; i < ntasks; i++ {
		if tasks[i].state == stBlocked {
			tasks[i].state = stRunnable
		}
	}
	steps++
	if aborting {
		tasks[0].state = stRunnable
		turn = 0
		wakeTask(0)
		return
	}
	next := pickNext(id)
	if next >= 0 {
		record(next)
		turn = next
		wakeTask(next)
	}
}

//go:norace
func curTask() int { return turn }

// Spawn starts f as a new task with world w. The new task is runnable; the caller
// keeps running.
func Spawn(w *World, f func(), onPanic func(any)) (join func()) {
	id := newTask(w)
	done := make(chan struct{})
	fin := new(bool)
	go func() {
		defer close(done)
		waitTurn(id)
		defer func() {
			v := recover()
			if v != nil && onPanic != nil {
				if _, ok := v.(aborted); !ok {
					onPanic(v)
				}
			}
			setFin(fin)
			taskDone(id)
		}()
		if isAborting() {
			panic(aborted{})
		}
		f()
	}()
	return func() {
		BlockUntil(func() bool { return getFin(fin) })
		<-done
	}
}

//go:norace
func setFin(p *bool) { *p = true }

//go:norace
func getFin(p *bool) bool { return *p }

//go:norace
func isAborting() bool { return aborting }

// Go is what a go statement of the code under test becomes.
func Go(f func()) {
	if !On() {
		go f()
		return
	}
	w := Cur()
	var cw *World
	if w != nil {
		cw = w.child()
	}
	Spawn(cw, f, func(v any) {
		// A panic in a goroutine of the code under test kills the process.
		noteGoPanic(v)
	})
}

var goPanic any

//go:norace
func noteGoPanic(v any) {
	if goPanic == nil {
		goPanic = v
	}
}

// TakeGoPanic returns (and clears) the panic of a goroutine the code under test started.
//
//go:norace
func TakeGoPanic() any {
	v := goPanic
	goPanic = nil
	return v
}

// Cur returns the World of the running task, or nil outside a run.
//
//go:norace
func Cur() *World {
	if !on {
		return nil
	}
	return tasks[turn].world
}

// SetWorld replaces the World of the running task.
//
//go:norace
func SetWorld(w *World) {
	if on {
		tasks[turn].world = w
	}
}

// Internal tells if a panic value belongs to the scheduler and must be passed on.
func Internal(v any) bool {
	_, ok := v.(aborted)
	return ok
}
