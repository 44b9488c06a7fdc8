package main

import (
	"bufio"
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strings"
	"sync"
	"time"

	"radosim/rt"
)

// runs per tier, and runs per fresh process
var sizes = map[string]struct{ quick, thorough, chunk int }{
	"C01": {250000, 2000000, 250},
	"C02": {200000, 2000000, 250},
	"C03": {180000, 2000000, 250},
	"C04": {400000, 4000000, 250},
	"C05": {150000, 1600000, 250},
	"C06": {250000, 2500000, 250},
	"C07": {300000, 3000000, 250},
	"C08": {16000, 200000, 200},
	"C09": {24000, 300000, 200},
	"C10": {9000, 120000, 20},
	"C11": {12000, 160000, 20},
	"C12": {40000, 400000, 100},
	"C13": {300000, 3000000, 250},
	"C14": {2500, 30000, 40},
	"C15": {2500, 30000, 40},
	"C16": {2500, 30000, 40},
	"C17": {2500, 30000, 40},
	"C21": {3000, 30000, 40},
	"C23": {60000, 1000000, 250},
	"C24": {300000, 3000000, 250},
	"C22": {4000, 30000, 40},
}

const runTimeout = 120 * time.Second // real time per chunk without any output: trouble, never a verdict

func crashClass(stderr string) (class, detail string) {
	for _, l := range strings.Split(stderr, "\n") {
		if strings.HasPrefix(l, "fatal error:") || strings.HasPrefix(l, "panic:") || strings.HasPrefix(l, "runtime: goroutine stack exceeds") {
			return "process-crash", strings.TrimSpace(l)
		}
	}
	return "", ""
}

func coarseEnv() string {
	if rt.Coarse {
		return "GODEBUG=asyncpreemptoff=1"
	}
	return "GODEBUG="
}

func selfEnv() []string {
	return append(os.Environ(), "GORACE=exitcode=0 halt_on_error=0 atexit_sleep_ms=0", "GOTRACEBACK=single", "GOMAXPROCS=2", coarseEnv())
}

// runPlans executes plans in a fresh process.
func runPlans(r *Replay) (*Result, error) {
	ctx, cancel := context.WithTimeout(context.Background(), runTimeout)
	defer cancel()
	q := *r
	q.Log = nil
	in, err := json.Marshal(q)
	if err != nil {
		return nil, err
	}
	cmd := exec.CommandContext(ctx, os.Args[0], "exec", "-")
	cmd.Env = selfEnv()
	cmd.Stdin = bytes.NewReader(in)
	var out, errb bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &errb
	err = cmd.Run()
	var res Result
	if jerr := json.Unmarshal(out.Bytes(), &res); jerr == nil {
		if res.Class == "data-race" {
			res.Log = append(res.Log, raceSummary(errb.String())...)
		}
		return &res, nil
	}
	if ctx.Err() != nil {
		return nil, fmt.Errorf("run exceeded %v", runTimeout)
	}
	if c, d := crashClass(errb.String()); c != "" {
		return &Result{Class: c, Detail: d, Stats: NewStats(), Log: []string{d}}, nil
	}
	return nil, fmt.Errorf("run failed: %v: %s", err, tail(errb.String()))
}

func raceSummary(s string) (out []string) {
	for _, l := range strings.Split(s, "\n") {
		l = strings.TrimSpace(l)
		if strings.Contains(l, "radolan.") || strings.Contains(l, "vis.") || strings.HasPrefix(l, "WARNING: DATA RACE") ||
			strings.HasPrefix(l, "Write at") || strings.HasPrefix(l, "Read at") || strings.HasPrefix(l, "Previous") {
			if i := strings.Index(l, " at 0x"); i >= 0 && !strings.Contains(l, "radolan.") {
				l = l[:i]
			}
			out = append(out, l)
		}
		if len(out) > 30 {
			break
		}
	}
	return
}

func tail(s string) string {
	if len(s) > 2000 {
		s = s[:2000]
	}
	return s
}

type batch struct {
	sync.Mutex
	st        *Stats
	runs      int
	hashes    map[uint64]struct{}
	twice     int
	div       int
	violation *Replay
	chunkFrom int
	trouble   string
	list      map[int]uint64
}

var again int

func check(prop string, seed uint64, tier, evidence, replays, known, instr string, runs, workers int, hashFile string) int {
	start := time.Now()
	sz, ok := sizes[prop]
	if !ok {
		fmt.Fprintln(os.Stderr, "sim: unknown property", prop)
		return 2
	}
	n, limit := sz.quick, 240*time.Second
	if tier == "thorough" {
		n, limit = sz.thorough, 780*time.Second
	}
	if runs > 0 {
		n = runs
	}
	if workers == 0 {
		workers = runtime.NumCPU()
	}
	fmt.Printf("%s: seed %d, %s, %d runs on %d workers\n", prop, seed, tier, n, workers)
	askFresh(prop)
	b := &batch{st: NewStats(), hashes: map[uint64]struct{}{}, list: map[int]uint64{}}
	next := make(chan [2]int)
	go func() {
		defer close(next)
		for f := 0; f < n; f += sz.chunk {
			t := f + sz.chunk
			if t > n {
				t = n
			}
			b.Lock()
			stop := b.violation != nil || b.trouble != ""
			b.Unlock()
			if stop || time.Since(start) > limit {
				return
			}
			next <- [2]int{f, t}
		}
	}()
	var wg sync.WaitGroup
	for w := 0; w < workers; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for c := range next {
				b.chunk(prop, seed, c[0], c[1])
			}
		}()
	}
	wg.Wait()
	explore := time.Since(start)
	code := 0
	var rfile string
	if b.violation != nil {
		rep := b.minimise(sz.chunk)
		if rep == nil {
			return 3
		}
		if rep.Note == unrepeatable && ofProgram(prop) {
			// nothing of the program's world is left to chance, so this is the
			// simulator's fault and no verdict
			fmt.Printf("%s: note: run %d reported %q once and not again; starting over\n", prop, rep.Run, rep.Detail)
			if again++; again > 2 || time.Since(start) > limit/2 {
				return 3
			}
			return check(prop, seed, tier, evidence, replays, known, instr, runs, workers, hashFile)
		}
		os.MkdirAll(replays, 0o755)
		rfile = filepath.Join(replays, fmt.Sprintf("%s-seed%d-run%d.json", prop, seed, rep.Run))
		j, _ := json.MarshalIndent(rep, "", " ")
		if err := os.WriteFile(rfile, j, 0o644); err != nil {
			fmt.Fprintln(os.Stderr, "sim:", err)
			return 3
		}
		if what := isKnown(known, prop, rep); what != "" {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", prop, what)
		} else {
			fmt.Printf("%s: %s: %s\n", prop, rep.Class, rep.Detail)
			fmt.Printf("VIOLATION property=%s replay=%s\n", prop, rfile)
			code = 1
		}
	} else if b.trouble != "" {
		fmt.Fprintln(os.Stderr, "sim: trouble, no verdict:", b.trouble)
		return 3
	}
	if b.div > 0 {
		fmt.Printf("%s: note: %d of %d repeated runs had a different event log: the code under test carries state from run to run or is not deterministic\n", prop, b.div, b.twice)
	}
	if hashFile != "" {
		var ks []int
		for k := range b.list {
			ks = append(ks, k)
		}
		sort.Ints(ks)
		var sb strings.Builder
		for _, k := range ks {
			fmt.Fprintf(&sb, "%d %016x\n", k, b.list[k])
		}
		os.WriteFile(hashFile, []byte(sb.String()), 0o644)
	}
	if err := b.evidence(prop, seed, tier, evidence, instr, explore, time.Since(start), code); err != nil {
		fmt.Fprintln(os.Stderr, "sim:", err)
		return 3
	}
	if code == 0 {
		fmt.Printf("%s: held on %d runs, %d distinct executions, %.0f simulated s, %.1f s\n", prop, b.runs, len(b.hashes), float64(b.st.SimNS)/1e9, time.Since(start).Seconds())
	}
	return code
}

func (b *batch) chunk(prop string, seed uint64, from, to int) {
	cmd := exec.Command(os.Args[0], "worker", "-prop", prop, "-seed", fmt.Sprint(seed), "-from", fmt.Sprint(from), "-to", fmt.Sprint(to), "-twice", "25")
	cmd.Env = selfEnv()
	var errb bytes.Buffer
	cmd.Stderr = &errb
	out, err := cmd.StdoutPipe()
	if err == nil {
		err = cmd.Start()
	}
	if err != nil {
		b.Lock()
		b.trouble = err.Error()
		b.Unlock()
		return
	}
	timer := time.AfterFunc(runTimeout, func() { cmd.Process.Kill() })
	running, timedOut := -1, false
	sc := bufio.NewReaderSize(out, 1<<20)
	for {
		line, rerr := sc.ReadBytes('\n')
		if rerr != nil {
			break
		}
		if !timer.Reset(runTimeout) {
			timedOut = true
		}
		var l workerLine
		if json.Unmarshal(line, &l) != nil {
			continue
		}
		if l.Start != nil {
			running = *l.Start
			continue
		}
		if l.End == nil || l.Res == nil {
			continue
		}
		running = -1
		b.Lock()
		b.runs++
		b.st.Merge(l.Res.Stats)
		if l.Res.NonTr {
			b.hashes[l.Res.Hash] = struct{}{}
		}
		b.list[*l.End] = l.Res.Hash
		if l.Twice {
			b.twice++
		}
		if l.Div {
			b.div++
		}
		if l.Res.Class != "" {
			b.found(prop, seed, *l.End, from, l.Res.Class, l.Res.Detail)
		}
		b.Unlock()
	}
	werr := cmd.Wait()
	timer.Stop()
	if werr != nil {
		b.Lock()
		defer b.Unlock()
		if c, d := crashClass(errb.String()); c != "" && running >= 0 && !timedOut {
			b.found(prop, seed, running, from, c, d)
			return
		}
		if b.trouble == "" {
			b.trouble = fmt.Sprintf("worker for runs %d..%d, at run %d: %v: %s", from, to, running, werr, tail(errb.String()))
		}
	}
}

// found keeps the violation with the lowest run number.
func (b *batch) found(prop string, seed uint64, run, from int, class, detail string) {
	if b.violation == nil || run < b.violation.Run {
		b.violation = &Replay{Property: prop, Seed: seed, Run: run, Class: class, Detail: detail}
		b.chunkFrom = from
	}
}

func (b *batch) evidence(prop string, seed uint64, tier, file, instr string, explore, wall time.Duration, code int) error {
	if file == "" {
		return nil
	}
	var sample any
	json.Unmarshal(mustJSON(GenPlan(prop, seed, 0)), &sample)
	var ins map[string]any
	if j, err := os.ReadFile(instr); err == nil {
		json.Unmarshal(j, &ins)
	}
	realParts := []string{"package radolan (statement-instrumented copy of the working tree, compiled through an overlay)", "package vis", "bufio, archive/tar, compress/bzip2, image"}
	stub := []string{"byte source (simulated reader)", "process time zone", "clock (simulated, advanced by stalls and slow reads)"}
	measure := "hash of the full event log (every read with offset and size, every fault, every outcome; for concurrent runs also every executed slice of the schedule)"
	switch prop {
	case "C10", "C11":
		stub = append(stub, "goroutine scheduling (one task at a time, switches at statement boundaries)", "package sync, if the code under test uses it")
	case "C14", "C15", "C16", "C17", "C21", "C22":
		realParts = []string{"radolan2png, package radolan and package vis of the working tree, unmodified", "Go runtime and standard library (os, log, image/png, compress/zlib) compiled for wasip1"}
		stub = []string{"operating system (files, directories, permissions, system calls, clocks, randomness, arguments, environment, memory limit, death of the process)", "initialisation of time.Local (offset taken from the simulated environment)"}
		measure = "hash of the system call log of all runs of the program (call, file, offset, requested and transferred bytes, error, ending)"
	}
	cov := map[string]any{
		"evaluations":          b.runs,
		"distinct_nontrivial":  len(b.hashes),
		"rule":                 rules[prop],
		"samples":              []any{sample},
		"runs_per_hour":        int(float64(b.runs) / explore.Hours()),
		"seeds":                "one seed per run, derived from the base seed: seeds per hour = runs per hour",
		"operations":           b.st.Ops,
		"simulated_seconds":    float64(b.st.SimNS) / 1e9,
		"faults_injected":      b.st.Fault,
		"probes":               b.st.Probe,
		"determinism":          map[string]int{"repeated_runs": b.twice, "different_logs": b.div},
		"distinct_measure":     measure,
		"real_components":      realParts,
		"simulated_components": stub,
	}
	if b.st.Calls > 0 {
		cov["system_calls"] = b.st.Calls
	} else {
		cov["statements_executed"] = b.st.Steps
		cov["instrumentation"] = ins
		cov["race_build"] = rtRace
	}
	if b.st.Sw > 0 {
		cov["task_switches"] = b.st.Sw
	}
	ev := map[string]any{
		"property": prop, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov, "wall_s": wall.Seconds(), "violations": code,
		"assumptions": []string{"seeded sampling, not exhaustive", "reference model in /verif/sim/cmd/model.go states the format correctly"},
	}
	j, err := json.MarshalIndent(ev, "", " ")
	if err != nil {
		return err
	}
	os.MkdirAll(filepath.Dir(file), 0o755)
	return os.WriteFile(file, append(j, '\n'), 0o644)
}

func mustJSON(v any) []byte {
	b, err := json.Marshal(v)
	if err != nil {
		panic(err)
	}
	return b
}

// isKnown looks the violation up in the list of known findings.
func isKnown(file, prop string, r *Replay) string {
	b, err := os.ReadFile(file)
	if err != nil {
		return ""
	}
	for _, l := range strings.Split(string(b), "\n") {
		var k struct{ Property, Class, Detail, What string }
		if !strings.HasPrefix(l, "{") || json.Unmarshal([]byte(l), &k) != nil || k.Property != prop {
			continue
		}
		if k.Class == r.Class && k.Detail == r.Detail {
			return k.What
		}
	}
	return ""
}
