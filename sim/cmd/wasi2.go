package main

import (
	"bytes"
	"fmt"
	"image/png"
	"strings"

	"radosim/rt"
)

// alone is what an undisturbed conversion of an input does on a fresh disk.
type alone struct {
	a      *wAnswer
	out    []byte
	hasOut bool
}

func (e *execution) alone(cache map[int]*alone, src int) *alone {
	if cache[src] == nil {
		b, _ := e.p.Inputs[src].Bytes()
		rq, a := e.wrun(&WRun{In: "in", Out: "out.png", Rand: 1}, b)
		x := &alone{a: a}
		x.out, x.hasOut = a.file(rq.Out)
		cache[src] = x
	}
	return cache[src]
}

// differs tells how a clean run differs from one alone on a fresh disk.
func (x *alone) differs(a *wAnswer, out []byte, hasOut bool) string {
	switch {
	case a.Endless:
		return "the program does not end"
	case a.Exit != x.a.Exit:
		return fmt.Sprintf("%s (%s) instead of %s", a.ending(), first(a.Stderr), x.a.ending())
	case !bytes.Equal(a.Stdout, x.a.Stdout):
		return fmt.Sprintf("printed %q instead of %q", first(a.Stdout), first(x.a.Stdout))
	case x.hasOut && !hasOut:
		return "there is no output file"
	case x.hasOut && !bytes.Equal(out, x.out):
		return fmt.Sprintf("the output (%d bytes) is not what it has to be (%d bytes)", len(out), len(x.out))
	}
	return ""
}

// c21: runs after failed and killed runs.
func (e *execution) c21() {
	p := e.p
	cache := map[int]*alone{}
	var files []wFile // the disk between the runs
	perms := map[string]string{}
	dirs := []wFile{}
	troubled := false
	for k, op := range p.Tasks[0] {
		w := op.W
		input, _ := p.Inputs[w.Src].Bytes()
		x := e.alone(cache, w.Src)
		rq := w.request(input, e.log.Keep)
		if files != nil { // only the input is new
			fresh := rq.Files
			rq.Files = nil
			for _, f := range files {
				if f.Path != rq.In {
					f.Perm = perms[f.Path]
					rq.Files = append(rq.Files, f)
				}
			}
			for _, f := range fresh {
				if f.Path == rq.In {
					rq.Files = append(rq.Files, f)
				}
			}
			have := map[string]bool{}
			for _, d := range rq.Dirs {
				have[d.Path] = true
			}
			for _, d := range dirs {
				if !have[d.Path] {
					rq.Dirs = append(rq.Dirs, d)
				}
			}
		}
		for _, f := range rq.Files {
			perms[f.Path] = f.Perm
		}
		a := wasmCall(rq)
		e.ran(a)
		out, hasOut := a.file(rq.Out)
		clean := benign(a) && !a.Killed && w.Pages == 0
		if clean {
			if troubled {
				e.nontrivial = true
				e.st.Probe["clean_after_trouble"]++
			}
			if s := x.differs(a, out, hasOut); s != "" {
				e.fail("not-recovered", "run %d, undisturbed, after %d earlier runs over the same directory: %s", k, k, s)
				return
			}
		} else {
			troubled = true
			e.st.Probe["troubled_"+strings.ReplaceAll(a.ending(), " ", "_")]++
		}
		files = a.Files
		dirs = nil
		for _, d := range a.Dirs {
			if d != "/" {
				dirs = append(dirs, wFile{Path: d})
			}
		}
	}
}

// c22: two conversions at the same time.
func (e *execution) c22() {
	p := e.p
	cache := map[int]*alone{}
	for k, op := range p.Tasks[0] {
		ws := []*WRun{op.W, op.W2}
		rqs := make([]*wRequest, 2)
		all := &wRequest{Sched: op.Sched}
		paths := map[string]bool{}
		for i, w := range ws {
			b, _ := p.Inputs[w.Src].Bytes()
			e.alone(cache, w.Src)
			rqs[i] = w.request(b, e.log.Keep)
			if w.Swap > 0 {
				c, _ := p.Inputs[w.SwapSrc].Bytes()
				e.alone(cache, w.SwapSrc)
				v := wFile{At: w.Swap, Kind: "replace", Path: rqs[i].In, Data: c}
				if w.Rand&1 == 0 { // a file that was there before
					v.Time = fmt.Sprint(w.Clock - w.OldAge*1e9)
				}
				rqs[i].Events = []wFile{v}
				rqs[i].MaxCalls += 8 * len(c)
				if w.RTail > 0 {
					rqs[i].RTail = max(w.RTail, len(c)/2000)
				}
			}
		}
		outs := map[string]bool{rqs[0].Out: true, rqs[1].Out: true}
		for i, rq := range rqs {
			for _, d := range rq.Dirs {
				if !paths[d.Path] {
					paths[d.Path] = true
					all.Dirs = append(all.Dirs, d)
				}
			}
			for _, f := range rq.Files {
				if paths[f.Path] || outs[f.Path] && f.Path != rq.Out {
					continue
				}
				paths[f.Path] = true
				all.Files = append(all.Files, f)
			}
			rq.Dirs, rq.Files = nil, nil
			all.Pair = append(all.Pair, rq)
			_ = i
		}
		a := wasmCall(all)
		e.trace = append(e.trace, a.Trace...)
		e.st.Sw += len(a.Trace) - 1
		for _, s := range a.Trace {
			e.log.Add(s.T, "slice", int(s.Q), 0)
		}
		if len(a.Trace) > 2 {
			e.nontrivial = true
		}
		killed := false
		for i, w := range ws {
			x := a.Pair[i]
			x.Files = a.Files
			e.ran(x)
			killed = killed || x.Killed || !cleanIn(x) // may leave something
			out, hasOut := x.file(rqs[i].Out)
			if x.Endless {
				e.fail("no-end", "pair %d: process %d does not end", k, i)
				return
			}
			if !cleanIn(x) || x.Killed {
				e.st.Probe["disturbed_"+strings.ReplaceAll(x.ending(), " ", "_")]++
				if !x.Killed && x.Exit == 0 && hasOut {
					if _, err := png.Decode(bytes.NewReader(out)); err != nil {
						e.fail("success-incomplete", "pair %d: process %d: exit status 0, but the output is no picture: %v", k, i, err)
						return
					}
				}
				continue
			}
			e.st.Probe["undisturbed"]++
			s := e.alone(cache, w.Src).differs(x, out, hasOut)
			if s != "" && x.Hits["other_process_replace"] > 0 {
				if s = e.alone(cache, w.SwapSrc).differs(x, out, hasOut); s != "" {
					s = "(neither the former nor the new input) " + s
				} else {
					e.st.Probe["new_input_used"]++
				}
			}
			if s != "" {
				e.fail("influenced", "pair %d: process %d, itself undisturbed, while process %d ends with %s: %s", k, i, 1-i, a.Pair[1-i].ending(), s)
				return
			}
		}
		// nobody else's files
		was := map[string][]byte{}
		for _, f := range all.Files {
			was[f.Path] = f.Data
		}
		for _, rq := range rqs {
			for _, v := range rq.Events {
				if b, ok := a.file(v.Path); ok && bytes.Equal(b, v.Data) {
					was[v.Path] = v.Data
				}
			}
		}
		for _, f := range a.Files {
			if outs[f.Path] {
				continue
			}
			b, ok := was[f.Path]
			if !ok && !killed {
				e.fail("files-left", "pair %d: file %s appeared", k, f.Path)
				return
			}
			if ok && !bytes.Equal(b, f.Data) {
				e.fail("files-changed", "pair %d: file %s changed", k, f.Path)
				return
			}
		}
		for f := range was {
			if _, ok := a.file(f); !ok && !outs[f] {
				e.fail("files-changed", "pair %d: file %s vanished", k, f)
				return
			}
		}
	}
}

// cleanIn tells whether nothing went wrong inside the process.
func cleanIn(a *wAnswer) bool {
	n := a.Hits["other_process_replace"]
	delete(a.Hits, "other_process_replace")
	ok := benign(a)
	if n > 0 {
		a.Hits["other_process_replace"] = n
	}
	return ok
}

// trouble makes a run fail or die somewhere.
func trouble(r *Rng, w *WRun) {
	w.Part = pick(r, 0, 1000, r.N(1001))
	switch r.N(9) {
	case 0, 1:
		w.Faults = []WFault{{Call: "any", At: -1, Nth: r.Small(0, 60), Kind: "crash"}}
	case 2, 3:
		w.Faults = []WFault{{Call: "fd_write", Path: pick(r, "out", "out", "other"), At: -1, Nth: r.N(10), Kind: "crash"}}
	case 4:
		w.Faults = []WFault{{Call: pick(r, "path_open", "fd_close"), Path: pick(r, "out", "other"), At: -1, Kind: "crashafter", Nth: -1}}
	case 5:
		w.Faults = []WFault{{Call: pick(r, "fd_close", "path_rename", "path_open", "fd_sync", "path_unlink_file"), Path: pick(r, "out", "other", "in"), At: -1, Kind: pick(r, "crash", "crashafter")}}
	case 6, 7:
		w.Faults = []WFault{{Call: "fd_write", Path: pick(r, "out", "out", "other"), At: r.Small(0, 5000), Kind: "errno", Err: pick(r, wErrs...), Persist: true}}
	default:
		w.Faults = []WFault{{Call: pick(r, "fd_read", "path_open", "fd_close", "path_rename"), Path: pick(r, "in", "out", "other"), Nth: r.N(3), At: -1, Kind: "errno", Err: pick(r, "EIO", "ENOSPC", "EMFILE")}}
	}
}

func (in *Input) b() []byte { b, _ := in.Bytes(); return b }

func genC21(r *Rng, p *Plan) {
	n := r.R(1, 3)
	for i := 0; i < n; i++ {
		sz := pick(r, szTiny, szTiny, szTiny, szSmall)
		if r.P(1, 25) {
			sz = pick(r, szLocal, szGrid)
		}
		p.Inputs = append(p.Inputs, &Input{Comp: GenComp(r, sz)})
	}
	first := genWEnv(r)
	var ops []Op
	runs := r.R(2, 6)
	for k := 0; k < runs; k++ {
		w := genWEnv(r)
		w.In, w.Out, w.Old, w.Rel = first.In, first.Out, first.Old, first.Rel
		w.Src = r.N(n)
		if r.P(1, 3) && k > 0 {
			w.Src = ops[k-1].W.Src
		}
		if r.P(1, 6) {
			w.Out = "other.png"
		}
		if r.P(1, 3) {
			genRW(r, w, len(p.Inputs[w.Src].b()))
		}
		if k < runs-1 && r.P(2, 3) {
			trouble(r, w)
		}
		ops = append(ops, Op{K: "run", W: w})
	}
	p.Tasks = [][]Op{ops}
}

func genC22(r *Rng, p *Plan) {
	n := r.R(1, 3)
	for i := 0; i < n; i++ {
		sz := pick(r, szTiny, szTiny, szTiny, szSmall)
		if r.P(1, 15) {
			sz = pick(r, szLocal, szGrid)
		}
		in := &Input{Comp: GenComp(r, sz)}
		if r.P(1, 12) {
			b, m := in.Bytes()
			in.bytes = nil
			in.Muts = genMuts(r, len(b), m)
		}
		p.Inputs = append(p.Inputs, in)
	}
	one := func() *WRun {
		w := genWEnv(r)
		w.RO = false
		w.Src = r.N(n)
		if r.P(1, 3) {
			genRW(r, w, len(p.Inputs[w.Src].b()))
		}
		return w
	}
	a, b := one(), one()
	// the same name in two directories, names that differ in their ends only, ...
	x := [][2]string{{"a/out.png", "b/out.png"}, {"out.png", "out.jpg"}, {"1.png", "2.png"}, {"out.png", "a/out.png"}, {"out.1.png", "out.2.png"}, {"out", "out.png"}, {"rx.png", "RX.png"}}[r.N(7)]
	a.Out, b.Out = x[0], x[1]
	if r.P(1, 2) {
		a.Out, b.Out = b.Out, a.Out
	}
	a.In, b.In = "in1", "in2"
	if r.P(1, 3) {
		b.In, b.Src = a.In, a.Src
	} else if r.P(1, 3) {
		b.Src = a.Src
	}
	if r.P(1, 3) {
		b.Clock, b.Step, b.Rand = a.Clock, a.Step, a.Rand // even the same random numbers
	}
	if r.P(1, 4) && a.In != b.In {
		w := pick(r, a, b)
		w.Swap, w.SwapSrc = r.R(1, 70), r.N(n)
	}
	if r.P(1, 3) {
		trouble(r, pick(r, a, b))
	} else if r.P(1, 4) && a.Swap+b.Swap == 0 { // the same conversion twice
		b.Out, b.Src, b.Old, b.Rel = a.Out, a.Src, a.Old, a.Rel
	}
	op := Op{K: "pair", W: a, W2: b}
	switch r.N(3) {
	case 0: // the second one runs meanwhile
		op.Sched = []rt.Slice{{T: 0, Q: int64(r.R(1, 80))}, {T: 1, Q: int64(r.R(1, 200))}}
	case 1:
		for i := r.R(5, 150); i > 0; i-- {
			op.Sched = append(op.Sched, rt.Slice{T: r.N(2), Q: int64(r.R(1, 3))})
		}
	default:
		for i := r.R(2, 20); i > 0; i-- {
			op.Sched = append(op.Sched, rt.Slice{T: r.N(2), Q: int64(r.Small(1, 30))})
		}
	}
	p.Tasks = [][]Op{{op}}
}
