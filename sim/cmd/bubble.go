package main

import (
	"fmt"
	"os"
	"runtime"
	"testing"
	"testing/synctest"
	"time"

	"radosim/rt"
)

// ofProgram tells whether a property is decided by runs of the program, which
// is simulated by the host, not in this process.
func ofProgram(prop string) bool {
	switch prop {
	case "C14", "C15", "C16", "C17", "C21", "C22":
		return true
	}
	return false
}

// bubble runs f and, if the code under test has goroutines of its own, does so
// with a simulated clock on one processor.
func bubble(prop string, f func()) {
	if !rt.Coarse || ofProgram(prop) {
		f()
		return
	}
	runtime.GOMAXPROCS(1)
	go watch()
	testing.Main(func(_, _ string) (bool, error) { return true, nil }, []testing.InternalTest{{Name: "sim", F: func(t *testing.T) {
		synctest.Test(t, func(*testing.T) {
			f()
			os.Exit(0)
		})
	}}}, nil, nil)
}

// watch ends a process in which everybody waits for something that lies
// outside of the bubble, as a package level channel does.
func watch() {
	last, still := int64(-1), 0
	for {
		time.Sleep(time.Second)
		if n := rt.Progress(); n != last {
			last, still = n, 0
		} else if still++; still > 20 {
			fmt.Fprintln(os.Stderr, "fatal error: no progress: the callers wait for each other")
			os.Exit(2)
		}
	}
}
