// Command sim is the deterministic simulator for package radolan.
//
//	sim check  -prop C01 -seed 1 -tier quick -evidence FILE -replays DIR   run a batch
//	sim worker -prop C01 -seed 1 -from 0 -to 100                            run part of a batch (used by check)
//	sim exec   FILE                                                         run the plans of a replay file, print the result
//	sim replay FILE                                                         run a replay file and say whether it reproduces
package main

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"io"
	"os"
	"strconv"
)

// Replay is a violation with everything needed to reproduce it exactly: the
// plans are run one after another in a fresh process; the last one fails.
type Replay struct {
	Property string   `json:"property"`
	Seed     uint64   `json:"seed"`
	Run      int      `json:"run"`
	Class    string   `json:"class"`
	Detail   string   `json:"detail"`
	Note     string   `json:"note,omitempty"`
	Plans    []*Plan  `json:"plans"`
	Log      []string `json:"log,omitempty"`
}

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: sim check|worker|exec|replay")
		os.Exit(2)
	}
	fs := flag.NewFlagSet("sim", flag.ExitOnError)
	prop := fs.String("prop", "", "")
	seed := fs.Uint64("seed", 1, "")
	tier := fs.String("tier", "quick", "")
	from := fs.Int("from", 0, "")
	to := fs.Int("to", 0, "")
	ev := fs.String("evidence", "", "")
	rep := fs.String("replays", "", "")
	known := fs.String("known", "", "")
	instr := fs.String("instr", "", "")
	runs := fs.Int("runs", 0, "")
	workers := fs.Int("workers", 0, "")
	hashes := fs.String("hashes", "", "")
	twice := fs.Int("twice", 0, "")
	fs.Parse(os.Args[2:])
	switch os.Args[1] {
	case "check":
		os.Exit(check(*prop, *seed, *tier, *ev, *rep, *known, *instr, *runs, *workers, *hashes))
	case "fresh":
		b, _ := strconv.Atoi(fs.Arg(1))
		bubble("C12", func() { json.NewEncoder(os.Stdout).Encode(fresh(fs.Arg(0), b)) })
	case "worker":
		bubble(*prop, func() { worker(*prop, *seed, *from, *to, *twice) })
	case "exec":
		execFile(fs.Arg(0))
	case "replay":
		os.Exit(replay(fs.Arg(0)))
	case "plan":
		b, _ := json.MarshalIndent(GenPlan(*prop, *seed, *from), "", " ")
		fmt.Println(string(b))
	default:
		os.Exit(2)
	}
}

// workerLine is what a worker reports for every run.
type workerLine struct {
	Start *int    `json:"start,omitempty"`
	End   *int    `json:"end,omitempty"`
	Res   *Result `json:"res,omitempty"`
	Div   bool    `json:"div,omitempty"` // a second execution gave another log
	Twice bool    `json:"twice,omitempty"`
}

func worker(prop string, seed uint64, from, to, twice int) {
	if prop == "C12" {
		initBaseline()
	}
	w := bufio.NewWriter(os.Stdout)
	enc := json.NewEncoder(w)
	for i := from; i < to; i++ {
		enc.Encode(workerLine{Start: &i})
		w.Flush()
		p := GenPlan(prop, seed, i)
		res := Exec(p, false)
		l := workerLine{End: &i, Res: res}
		if twice > 0 && i%twice == 0 && res.Class == "" {
			l.Twice = true
			if r2 := Exec(p.clone(), false); r2.Hash != res.Hash {
				l.Div = true
			}
		}
		enc.Encode(l)
		w.Flush()
		if res.Class != "" {
			return // later runs of this process could be affected
		}
	}
}

func readReplay(file string) (*Replay, error) {
	var b []byte
	var err error
	if file == "-" {
		b, err = io.ReadAll(os.Stdin)
	} else {
		b, err = os.ReadFile(file)
	}
	if err != nil {
		return nil, err
	}
	var r Replay
	if err := json.Unmarshal(b, &r); err != nil {
		return nil, err
	}
	return &r, nil
}

func execFile(file string) {
	r, err := readReplay(file)
	if err != nil {
		fmt.Fprintln(os.Stderr, "sim:", err)
		os.Exit(2)
	}
	bubble(r.Property, func() {
		if r.Property == "C12" {
			initBaseline()
		}
		var res *Result
		for i, p := range r.Plans {
			res = Exec(p, i == len(r.Plans)-1)
			if res.Class != "" && i < len(r.Plans)-1 {
				res.Detail = fmt.Sprintf("(already in plan %d) %s", i, res.Detail)
				break
			}
		}
		json.NewEncoder(os.Stdout).Encode(res)
	})
}

func replay(file string) int {
	r, err := readReplay(file)
	if err != nil {
		fmt.Fprintln(os.Stderr, "sim:", err)
		return 2
	}
	askFresh(r.Property)
	res, err := runPlans(r)
	if err != nil {
		fmt.Fprintln(os.Stderr, "sim:", err)
		return 2
	}
	for _, l := range res.Log {
		fmt.Println("  ", l)
	}
	if res.Class == "" {
		fmt.Printf("replay of %s: the property holds\n", file)
		return 0
	}
	fmt.Printf("replay of %s: %s: %s\n", file, res.Class, res.Detail)
	if res.Class != r.Class || res.Detail != r.Detail {
		fmt.Printf("NOTE: the file recorded %s: %s\n", r.Class, r.Detail)
	}
	fmt.Printf("VIOLATION property=%s replay=%s\n", r.Property, file)
	return 1
}
