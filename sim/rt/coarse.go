package rt

import (
	"runtime"
	"time"
)

// Coarse is set by the instrumenter when the code under test starts goroutines
// or uses channels or timers of its own. The simulator cannot run those as its
// tasks. Instead, the whole process then runs on one processor, without
// preemption by time, inside a synctest bubble (simulated clock; a state in
// which everybody waits is recognised), and every scheduling point hands the
// processor on with a probability, decided by the seed.
var Coarse bool

const silence = 1000 * time.Hour

var (
	began  time.Time
	rnd    uint64
	chance uint64 // of 1<<32
	// Handed counts how often the processor was handed on.
	Handed int
)

// Seed sets the decisions of coarse runs.
//
//go:norace
func Seed(x uint64) {
	rnd = x
	chance = []uint64{0, 1 << 20, 1 << 26, 1 << 29, 1 << 31}[(x>>7)%5]
}

//go:norace
func maybe() {
	if chance == 0 {
		return
	}
	rnd += 0x9e3779b97f4a7c15
	z := rnd
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	if (z^(z>>31))>>32 < chance {
		Handed++
		runtime.Gosched()
	}
}

// The bookkeeping avoids maps and append, whose accesses the race detector
// would see. Only one goroutine runs at a time and none is preempted here.
var (
	mine    [1024]int64
	waiters [1024]struct {
		key uintptr
		c   chan struct{}
	}
)

// Enter marks the current goroutine as the simulator's: it recovers panics.
//
//go:norace
func Enter() {
	id := goid()
	for i := range mine {
		if mine[i] == 0 {
			mine[i] = id
			return
		}
	}
}

//go:norace
func Leave() {
	id := goid()
	for i := range mine {
		if mine[i] == id {
			mine[i] = 0
		}
	}
}

// Foreign tells whether the code under test started this goroutine.
func Foreign() bool { return foreign() }

//go:norace
func foreign() bool {
	if !Coarse {
		return false
	}
	id := goid()
	for i := range mine {
		if mine[i] == id {
			return false
		}
	}
	return true
}

// Progress counts what happens.
//
//go:norace
func Progress() int64 { return steps + int64(Handed) }

// GaveUp tells whether a goroutine of the code under test exceeded a budget.
//
//go:norace
func GaveUp() bool { return gaveUp }

var gaveUp bool

//go:norace
func goid() (n int64) {
	var b [40]byte
	k := runtime.Stack(b[:], false)
	for i := 10; i < k && b[i] != ' '; i++ {
		n = n*10 + int64(b[i]-'0')
	}
	return
}

//go:norace
func await(key uintptr) {
	raceDisable()
	defer raceEnable()
	c := make(chan struct{})
	for i := range waiters {
		if waiters[i].c == nil {
			waiters[i].key, waiters[i].c = key, c
			break
		}
	}
	select {
	case <-c:
	case <-time.After(time.Hour): // (lost wake-ups)
	}
}

//go:norace
func wake(key uintptr) {
	raceDisable()
	defer raceEnable()
	for i := range waiters {
		if w := &waiters[i]; w.c != nil && w.key == key {
			c := w.c
			w.key, w.c = 0, nil
			close(c)
		}
	}
}

// Call runs f, which recovers its own panics, and tells whether it came to an
// end before everybody was waiting.
func Call(f func()) bool {
	if !Coarse {
		f()
		return true
	}
	done := make(chan struct{})
	go func() {
		Enter()
		defer func() { Leave(); close(done) }()
		f()
	}()
	select {
	case <-done:
		return true
	case <-time.After(2 * silence):
		return false
	}
}

func runCoarse(bodies []func(), tr *Trace) {
	h := Handed
	done := make(chan struct{}, len(bodies))
	for _, b := range bodies {
		go func() {
			Enter()
			defer Leave()
			b()
			done <- struct{}{}
		}()
	}
	end := time.After(100 * silence)
	for range bodies {
		select {
		case <-done:
		case <-end:
			tr.Deadlock = true
			return
		}
	}
	tr.Switches = len(bodies) - 1 + Handed - h
}
