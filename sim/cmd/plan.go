package main

import (
	"encoding/json"
	"fmt"
	"hash/fnv"

	"radosim/rt"
)

// Plan is one simulated execution, completely: materials, operations of every
// task, deliveries with their faults, and the schedule. Executing a plan is a
// pure function of the plan and the code under test.
type Plan struct {
	Prop   string     `json:"prop"`
	Seed   uint64     `json:"seed"`
	Index  int        `json:"index"`
	TZ     int        `json:"tz,omitempty"`
	Inputs []*Input   `json:"inputs,omitempty"`
	Tasks  [][]Op     `json:"tasks"`
	Sched  []rt.Slice `json:"sched,omitempty"`
}

// Input is a byte stream: a composite, an archive or noise, possibly damaged.
type Input struct {
	Comp  *Comp    `json:"comp,omitempty"`
	Arch  *Archive `json:"arch,omitempty"`
	Noise uint64   `json:"noise,omitempty"`
	Len   int      `json:"len,omitempty"`
	Muts  []Mut    `json:"muts,omitempty"`

	bytes []byte
	marks []int
}

// Op is one operation of a task.
type Op struct {
	K   string    `json:"k"`
	In  int       `json:"in,omitempty"`  // input
	D   *Delivery `json:"d,omitempty"`   // for parses
	Obj int       `json:"obj,omitempty"` // earlier result or shared object
	A   int       `json:"a,omitempty"`
	B   int       `json:"b,omitempty"`
	C   int       `json:"c,omitempty"`
	F   float64   `json:"f,omitempty"`
	G   float64   `json:"g,omitempty"`
	S   string    `json:"s,omitempty"`
	W   *WRun     `json:"w,omitempty"`  // run of the conversion program
	W2  *WRun     `json:"w2,omitempty"` // ... and of another one at the same time

	Sched []rt.Slice `json:"sched,omitempty"`
}

// Bytes renders the stored bytes of the input.
func (in *Input) Bytes() ([]byte, []int) {
	if in.bytes != nil {
		return in.bytes, in.marks
	}
	var b []byte
	var m []int
	switch {
	case in.Comp != nil:
		b, m = in.Comp.Bytes()
	case in.Arch != nil:
		b, m = in.Arch.Bytes()
	default:
		r := NewRng(in.Noise, 99)
		b = make([]byte, in.Len)
		for i := range b {
			b[i] = byte(r.U64())
			if in.Noise%3 == 0 {
				b[i] = "ABCEGLNPRSVXY0123456789 x-.<>\x03\n"[int(b[i])%31]
			}
		}
		if in.Noise%7 == 1 { // few different characters, in long runs
			abc := "   \x00\x030129.xLV"
			k, c := 0, byte(' ')
			for i := range b {
				if k == 0 {
					c, k = abc[r.N(len(abc))], r.Small(1, 60)
				}
				b[i] = c
				k--
			}
		}
		m = []int{0, len(b)}
	}
	if len(in.Muts) > 0 {
		b = applyMuts(b, in.Muts)
	}
	if b == nil {
		b = []byte{}
	}
	in.bytes, in.marks = b, m
	return b, m
}

// Valid tells whether the stored bytes are a well-formed composite.
func (in *Input) Valid() bool { return in.Comp != nil && len(in.Muts) == 0 && in.Comp.Bad == nil }

// Log is the event log of one task; only its hash and length are kept unless
// Keep is set.
type Log struct {
	Keep  bool
	Lines []string
	h     uint64
	n     int
}

func (l *Log) Add(id int, kind string, n, m int) {
	h := fnv.New64a()
	fmt.Fprintf(h, "%d %s %d %d", id, kind, n, m)
	l.h = mix(l.h*31 + h.Sum64())
	l.n++
	if l.Keep && len(l.Lines) < 4000 {
		l.Lines = append(l.Lines, fmt.Sprintf("input %d: %s %d %d", id, kind, n, m))
	}
}

// Note adds an outcome to the log.
func (l *Log) Note(s string) {
	h := fnv.New64a()
	h.Write([]byte(s))
	l.h = mix(l.h*31 + h.Sum64())
	l.n++
	if l.Keep && len(l.Lines) < 4000 {
		l.Lines = append(l.Lines, s)
	}
}

// Stats counts what really happened in a run.
type Stats struct {
	Fault map[string]int `json:"fault,omitempty"`
	Probe map[string]int `json:"probe,omitempty"`
	Ops   int            `json:"ops"`
	SimNS int64          `json:"sim_ns"`
	Steps int64          `json:"steps"`
	Calls int64          `json:"calls,omitempty"`
	Sw    int            `json:"switches"`
	Races int            `json:"races"`
}

func NewStats() *Stats { return &Stats{Fault: map[string]int{}, Probe: map[string]int{}} }

func (s *Stats) Merge(o *Stats) {
	for k, v := range o.Fault {
		s.Fault[k] += v
	}
	for k, v := range o.Probe {
		s.Probe[k] += v
	}
	s.Ops += o.Ops
	s.SimNS += o.SimNS
	s.Steps += o.Steps
	s.Calls += o.Calls
	s.Sw += o.Sw
	s.Races += o.Races
}

// Result is the verdict of one run.
type Result struct {
	Class  string     `json:"class,omitempty"` // violation class, empty if the property held
	Detail string     `json:"detail,omitempty"`
	Hash   uint64     `json:"hash"`
	NonTr  bool       `json:"nontrivial"`
	Stats  *Stats     `json:"stats"`
	Log    []string   `json:"log,omitempty"`
	Trace  []rt.Slice `json:"trace,omitempty"`
}

func (p *Plan) clone() *Plan {
	b, err := json.Marshal(p)
	if err != nil {
		panic(err)
	}
	var q Plan
	if err := json.Unmarshal(b, &q); err != nil {
		panic(err)
	}
	return &q
}
