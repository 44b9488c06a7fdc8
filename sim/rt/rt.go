// Package rt is the runtime of the simulator inside the code under test. The
// instrumenter (../instr) inserts rt.Y() before every statement of the
// packages under test and wraps the size arguments of make in rt.N().
//
// Exactly one simulated task runs at a time. A task runs until its quantum of
// steps is used up, it waits for a (simulated) source, or it ends; then the
// controller decides who runs next. All decisions come from the schedule of
// the plan, none from the Go scheduler.
//
// The hand-over between tasks is hidden from the race detector (RaceDisable
// around the channel operations, go:norace for the bookkeeping), so in race
// builds every unsynchronised conflicting access between tasks is visible
// although only one task runs at a time.
package rt

import (
	"fmt"
	"runtime"
	"time"
)

// Overflow is the panic value used when a run exceeds its step budget.
type Overflow struct{ Steps int64 }

func (o Overflow) Error() string { return "step budget exceeded" }

// AllocTooBig is the panic value used when make is asked for too many elements.
type AllocTooBig struct{ N, Limit int64 }

func (a AllocTooBig) Error() string {
	return fmt.Sprintf("make of %d elements exceeds the simulated memory (limit %d)", a.N, a.Limit)
}

// Deadlock is the panic value used when every task waits.
type Deadlock struct{}

func (Deadlock) Error() string { return "deadlock: no simulated task can run" }

var (
	steps    int64
	limit    int64 = 1 << 62
	allocs   int64 // elements requested through make in this run
	allocMax int64 = 1 << 62
	cur      *task
	tasks    []*task
	clock    int64 // simulated nanoseconds
)

// Reset starts a new run.
//
//go:norace
func Reset(stepLimit, allocLimit int64) {
	steps, limit = 0, stepLimit
	allocs, allocMax = 0, allocLimit
	cur = nil
	clock = 0
	gaveUp = false
	began = time.Now()
}

// ResetSteps restarts the step and allocation count within a run.
//
//go:norace
func ResetSteps(stepLimit, allocLimit int64) {
	steps, limit = 0, stepLimit
	allocs, allocMax = 0, allocLimit
	perElem = 0
}

// Grant raises the step limit by n for every element requested through make
// from now on.
//
//go:norace
func Grant(n int64) { perElem = n }

var perElem int64

//go:norace
func Steps() int64 { return steps }

//go:norace
func Allocs() int64 { return allocs }

//go:norace
func Now() int64 {
	if Coarse {
		return int64(time.Since(began))
	}
	return clock
}

// Y is a scheduling point: one step of the current task.
//
//go:norace
func Y() {
	steps++
	if steps > limit {
		overflow()
	}
	if Coarse {
		maybe()
		return
	}
	if cur != nil {
		t := cur
		t.quantum--
		if t.quantum <= 0 {
			t.yield(0)
		}
	}
}

//go:norace
func overflow() {
	s := steps
	if foreign() {
		gaveUp = true
		runtime.Goexit()
	}
	limit = 1 << 62 // let deferred functions run
	panic(Overflow{s})
}

// N counts the elements requested by a make call.
func N[T ~int | ~int8 | ~int16 | ~int32 | ~int64 | ~uint | ~uint8 | ~uint16 | ~uint32 | ~uint64 | ~uintptr](n T) T {
	count(int64(n))
	return n
}

//go:norace
func count(v int64) {
	if v > 0 {
		allocs += v
		limit += perElem * min(v, 1<<40)
		if allocs > allocMax || allocs < 0 {
			tooBig(v)
		}
	}
}

//go:norace
func tooBig(v int64) {
	m := allocMax
	if foreign() {
		gaveUp = true
		runtime.Goexit()
	}
	allocMax = 1 << 62
	allocs = 0
	panic(AllocTooBig{v, m})
}

// Block is called by a task that cannot go on because the object at key (a
// lock) is held by another task; Wake makes it runnable again.
//
//go:norace
func Block(key uintptr) {
	if Coarse {
		await(key)
		return
	}
	if cur == nil {
		panic(Deadlock{})
	}
	cur.key = key
	cur.yield(-1)
}

// Wake makes the tasks blocked on key runnable.
//
//go:norace
func Wake(key uintptr) {
	if Coarse {
		wake(key)
		return
	}
	for _, t := range tasks {
		if t.key == key {
			t.key = 0
		}
	}
}

// Silent parks the current task until nobody else can run any more: its
// source has nothing to say and never will.
//
//go:norace
func Silent() {
	if Coarse {
		if foreign() {
			select {}
		}
		time.Sleep(silence)
		return
	}
	if cur == nil {
		return
	}
	cur.silent = true
	cur.yield(-1)
}

// Sleep lets simulated time pass for the current task: with other tasks
// around, they run meanwhile.
//
//go:norace
func Sleep(d int64) {
	if Coarse {
		time.Sleep(time.Duration(d))
		return
	}
	if cur == nil {
		clock += d
		return
	}
	if d <= 0 {
		return
	}
	cur.wake = clock + d
	cur.yield(d)
}

type task struct {
	id      int
	quantum int64
	wake    int64
	key     uintptr // lock it waits for
	silent  bool    // its source stays silent
	done    bool
	out     chan int64 // to the controller
	resume  chan struct{}
}

//go:norace
func (t *task) yield(why int64) {
	raceDisable()
	t.out <- why
	<-t.resume
	raceEnable()
}

// Slice is one entry of a schedule: run task T for at most Q steps.
type Slice struct {
	T int   `json:"t"`
	Q int64 `json:"q"`
}

// Trace is what actually happened: the executed slices with their real length.
type Trace struct {
	Slices   []Slice
	Switches int
	Deadlock bool
}

const doneMark = -1 << 62

// Run executes the bodies as simulated tasks under the given schedule and
// returns the executed trace. Entries whose task cannot run are skipped; when
// the schedule is used up the runnable task with the lowest number runs on.
func Run(bodies []func(), sched []Slice) *Trace {
	tr := &Trace{}
	if Coarse {
		runCoarse(bodies, tr)
		return tr
	}
	ts := make([]*task, len(bodies))
	joined := make(chan struct{}, len(bodies))
	out := make(chan int64)
	for i := range bodies {
		ts[i] = &task{id: i, out: out, resume: make(chan struct{})}
		go taskMain(ts[i], bodies[i], joined)
	}
	control(ts, sched, tr)
	if tr.Deadlock {
		return tr
	}
	for range bodies {
		<-joined // a real synchronisation: results may be read now
	}
	return tr
}

//go:norace
func taskMain(t *task, body func(), joined chan struct{}) {
	raceDisable()
	<-t.resume
	raceEnable()
	body()
	joined <- struct{}{}
	raceDisable()
	t.out <- doneMark
	raceEnable()
}

//go:norace
func (t *task) runnable() bool {
	return !t.done && !t.silent && t.key == 0 && t.wake <= clock
}

//go:norace
func control(ts []*task, sched []Slice, tr *Trace) {
	raceDisable()
	defer raceEnable()
	tasks = ts
	left := len(ts)
	k := 0
	prev := -1
	for left > 0 {
		var t *task
		q := int64(1 << 60)
		for t == nil && k < len(sched) {
			e := sched[k]
			k++
			if e.T >= 0 && e.T < len(ts) && e.Q > 0 && ts[e.T].runnable() {
				t, q = ts[e.T], e.Q
			}
		}
		for i := 0; t == nil && i < len(ts); i++ {
			if ts[i].runnable() {
				t = ts[i]
			}
		}
		if t == nil { // nobody runnable: jump to the next event
			next, locked := int64(-1), false
			for _, c := range ts {
				switch {
				case c.done || c.silent:
				case c.key != 0:
					locked = true
				case next < 0 || c.wake < next:
					next = c.wake
				}
			}
			switch {
			case next >= 0:
				clock = next
			case locked:
				tr.Deadlock = true
				cur = nil
				return // tasks stay parked; the process reports and ends
			default: // only silent tasks are left
				for _, c := range ts {
					c.silent = false
				}
			}
			continue
		}
		start := steps
		t.quantum = q
		cur = t
		t.resume <- struct{}{}
		why := <-t.out
		cur = nil
		ran := steps - start
		if prev == t.id && len(tr.Slices) > 0 {
			tr.Slices[len(tr.Slices)-1].Q += ran
		} else {
			tr.Slices = append(tr.Slices, Slice{t.id, ran})
			if prev >= 0 {
				tr.Switches++
			}
			prev = t.id
		}
		if why == doneMark {
			t.done = true
			left--
		}
	}
	tasks = nil
}
