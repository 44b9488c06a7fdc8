package main

import (
	"bytes"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"image"
	"image/color"
	"math"
	"os"
	"os/exec"
	"sort"
	"time"

	"gitlab.cs.fau.de/since/radolan"
	"gitlab.cs.fau.de/since/radolan/radolan2png/vis"
	"radosim/rt"
)

const maxGridElems = 9999 * 9999

// zones of the simulated process environment
var zones = []*time.Location{time.UTC, time.FixedZone("CEST", 7200), time.FixedZone("CET", 3600), time.FixedZone("X", -11*3600-1800), time.FixedZone("Y", 14*3600),
	// with summer time, a half hour of it, and an offset that jumps every 31 hours
	tzif("Berlin", nil, "CET-1CEST,M3.5.0,M10.5.0/3"), tzif("Howe", nil, "<+1030>-10:30<+11>-11,M10.1.0,M4.1.0"), tzif("Jumpy", jumps(), "")}

func jumps() (at []int64) {
	for t := int64(-86400 * 400); t < 86400*366*101; t += 31 * 3600 {
		at = append(at, t)
	}
	return
}

// tzif makes a zone from transitions and a rule.
func tzif(name string, at []int64, rule string) *time.Location {
	offs := []int32{3600, -5 * 3600, 7200, 0, 13 * 3600, 1800}
	var b bytes.Buffer
	head := func(n int) {
		b.WriteString("TZif2")
		b.Write(make([]byte, 15))
		for _, v := range []int{0, 0, 0, n, len(offs), 4} { // UT, standard, leap, transitions, types, names
			binary.Write(&b, binary.BigEndian, int32(v))
		}
	}
	types := func(n int) {
		for i := 0; i < n; i++ {
			b.WriteByte(byte(i % len(offs)))
		}
		for i, o := range offs {
			binary.Write(&b, binary.BigEndian, o)
			b.Write([]byte{byte(i % 2), 0})
		}
		b.WriteString("SIM\x00")
	}
	head(0)
	types(0)
	head(len(at))
	binary.Write(&b, binary.BigEndian, at)
	types(len(at))
	b.WriteString("\n" + rule + "\n")
	l, err := time.LoadLocationFromTZData(name, b.Bytes())
	if err != nil {
		panic(err)
	}
	return l
}

// Exec runs one plan to its end and returns the verdict.
func Exec(p *Plan, keep bool) *Result {
	e := &execution{p: p, log: &Log{Keep: keep}, st: NewStats()}
	time.Local = zones[p.TZ%len(zones)]
	races := rt.RaceErrors()
	rt.Reset(1<<60, 1<<60)
	rt.Seed(NewRng(p.Seed, uint64(p.Index)+77).U64())
	res := &Result{}
	fail := func(class, format string, a ...any) {
		if res.Class == "" {
			res.Class, res.Detail = class, fmt.Sprintf(format, a...)
		}
	}
	e.fail = fail
	switch p.Prop {
	case "C01":
		e.c01()
	case "C02", "C03":
		e.c0203()
	case "C04":
		e.c04()
	case "C05":
		e.c05()
	case "C06":
		e.c06()
	case "C07":
		e.c07()
	case "C08", "C09":
		e.c0809()
	case "C10", "C11":
		e.concurrent()
	case "C12":
		e.c12()
	case "C13":
		e.c13()
	case "C14", "C15", "C16", "C17":
		e.wasm()
	case "C21":
		e.c21()
	case "C22":
		e.c22()
	case "C23":
		e.c23()
	case "C24":
		e.c24()
	default:
		panic("unknown property " + p.Prop)
	}
	e.st.Steps += rt.Steps()
	e.st.SimNS += rt.Now()
	if n := rt.RaceErrors() - races; n > 0 {
		e.st.Races = n
		fail("data-race", "%d data race(s) between callers that share nothing they should not share", n)
	}
	if res.Class != "" {
		e.log.Note("VIOLATION " + res.Class + ": " + res.Detail)
	}
	res.Hash = e.log.h
	res.Log = e.log.Lines
	res.Stats = e.st
	res.Trace = e.trace
	res.NonTr = e.nontrivial
	return res
}

type execution struct {
	p          *Plan
	log        *Log
	st         *Stats
	fail       func(class, format string, a ...any)
	trace      []rt.Slice
	nontrivial bool
}

func (e *execution) budget(b []byte, cells int) {
	e.st.Steps += rt.Steps()
	if cells < maxGridElems {
		rt.ResetSteps(stepBudget(len(b), cells), 4*maxGridElems+int64(len(b))*64)
		return
	}
	// a damaged header can state any of the expressible grids
	rt.ResetSteps(stepBudget(len(b), cells-maxGridElems)+1e9, 4*maxGridElems+int64(len(b))*64)
	rt.Grant(40)
}

func cellsOf(in *Input) int {
	if in.Comp != nil {
		return in.Comp.Dx * in.Comp.Dy
	}
	n := 0
	if in.Arch != nil {
		for _, c := range in.Arch.Members {
			n += c.Dx * c.Dy
		}
	}
	return n
}

var oneshot = Delivery{FailAt: -1}

func (e *execution) parse(in *Input, d *Delivery, id int) *Outcome {
	b, _ := in.Bytes()
	// a damaged header can state any of the expressible grids
	cells := cellsOf(in)
	if !in.Valid() {
		cells = maxGridElems
	}
	e.budget(b, cells)
	return parseOne(b, d, e.log, e.st, id)
}

func (e *execution) archive(in *Input, d *Delivery, id int) *Outcome {
	b, _ := in.Bytes()
	cells := cellsOf(in)
	e.budget(b, cells+maxGridElems)
	return parseArchive(b, d, e.log, e.st, id)
}

func (e *execution) probeInput(in *Input) {
	pr := e.st.Probe
	if in.Comp == nil {
		return
	}
	c := in.Comp
	pr["enc_"+c.Enc]++
	if c.Local {
		pr["local"]++
	}
	if c.Dy == 2400 {
		pr["multilayer"]++
	}
	if w, _, _ := gridOf(c.Dx, c.Dy); w > 0 {
		pr["documented_grid"]++
	}
	if c.Enc == LE && c.Dx*2 > 4096 || c.Enc == SB && c.Dx > 4096 {
		pr["row_above_4096"]++
	}
	b, m := in.Bytes()
	if m[0]%512 == 0 || len(b)%512 == 0 {
		pr["ends_at_buffer_size"]++
	}
	if m[0] > 4096 {
		pr["header_above_4096"]++
	}
	if len(b) > 4096 {
		pr["file_above_4096"]++
	}
}

// C01: the outcome does not depend on the delivery.
func (e *execution) c01() {
	in := e.p.Inputs[0]
	e.probeInput(in)
	ref := e.parse(in, &oneshot, 0)
	for _, op := range e.p.Tasks[0] {
		o := e.parse(in, op.D, 0)
		if s := diffOutcome(ref, o); s != "" {
			e.fail("delivery-dependent", "delivered at once and delivered in pieces differ: %s", s)
			return
		}
		if o.Src.reads > 1 {
			e.nontrivial = true
		}
	}
	e.st.Probe["outcome_"+ref.Class]++
}

// C02, C03: complete composites decode to the values and metadata of the model.
func (e *execution) c0203() {
	in := e.p.Inputs[0]
	e.probeInput(in)
	for _, op := range e.p.Tasks[0] {
		o := e.parse(in, op.D, 0)
		if o.Class != "ok" {
			e.fail("complete-rejected", "a complete well-formed composite gave %s (%s)", o.Class, o.Text)
			return
		}
		if o.Src.reads > 1 {
			e.nontrivial = true
		}
		var s string
		guard(o, func() {
			if e.p.Prop == "C02" {
				s = checkValues(o.Comp, in.Comp)
			} else {
				s = checkMeta(o.Comp, in.Comp)
			}
		})
		if o.Class != "ok" {
			s = "reading the result: " + o.Class + " " + o.Text
		}
		if s != "" {
			e.fail("wrong-result", "%s", s)
			return
		}
	}
}

// C04: failing early is an error.
func (e *execution) c04() {
	in := e.p.Inputs[0]
	e.probeInput(in)
	for _, op := range e.p.Tasks[0] {
		b, m := in.Bytes()
		at := op.D.FailAt
		if at < 0 || at >= len(b) {
			continue // (only in shrunk plans)
		}
		o := e.parse(in, op.D, 0)
		if o.Src.failed {
			e.nontrivial = true
		}
		where := "row_inside"
		if at < m[0] {
			where = "header"
		} else {
			for _, x := range m {
				if x == at {
					where = "row_boundary"
				}
			}
		}
		e.st.Probe["cut_in_"+where]++
		switch o.Class {
		case "error":
		case "ok":
			// the delimiter of the last run-length row carries no data
			if in.Comp.Enc == RL && at == len(b)-1 && op.D.Err == "eof" && checkValues(o.Comp, in.Comp) == "" {
				continue
			}
			// an error accompanying data, after which all the rest arrived
			if s := e.overlooked(o, op.D, in.Comp); s {
				e.st.Probe["error_with_data_overlooked"]++
				continue
			}
			e.fail("truncated-accepted", "source failed (%s) after %d of %d bytes, parsing reported success", op.D.Err, at, len(b))
		case "unknown-unit":
			if e.overlooked(o, op.D, in.Comp) {
				e.st.Probe["error_with_data_overlooked"]++
				continue
			}
			e.fail("truncated-tolerated", "source failed (%s) after %d of %d bytes, parsing reported only the unknown unit", op.D.Err, at, len(b))
		default:
			e.fail("truncated-"+o.Class, "source failed (%s) after %d of %d bytes, parsing ended with %s %s", op.D.Err, at, len(b), o.Class, o.Text)
		}
	}
}

// overlooked tells whether the only failure came together with data and the
// reader then delivered everything: the composite has to be complete.
func (e *execution) overlooked(o *Outcome, d *Delivery, m *Comp) bool {
	if !d.Recover || !d.With || o.Src.pos < len(o.Src.b) {
		return false
	}
	s := ""
	g := &Outcome{Class: "ok"}
	guard(g, func() { s = checkValues(o.Comp, m) })
	return g.Class == "ok" && s == ""
}

// C05: damaged input.
func (e *execution) c05() {
	in := e.p.Inputs[0]
	for _, op := range e.p.Tasks[0] {
		var o *Outcome
		if op.K == "archive" {
			o = e.archive(in, op.D, 0)
		} else {
			o = e.parse(in, op.D, 0)
		}
		e.st.Probe["outcome_"+o.Class]++
		if o.Src.reads > 0 {
			e.nontrivial = true
		}
		switch o.Class {
		case "panic", "hang", "alloc", "blocked":
			e.fail("parser-"+o.Class, "damaged input made the parser end with %s: %s", o.Class, o.Text)
			return
		case "ok", "unknown-unit":
			cs := o.Comps
			if op.K != "archive" {
				cs = []*radolan.Composite{o.Comp}
			}
			for _, c := range cs {
				if s := consistent(c); s != "" {
					e.fail("inconsistent-success", "success with inconsistent composite: %s", s)
					return
				}
			}
		}
	}
}

func isNaN64(f float64) bool { return f != f }

// C06: accessors are total.
func (e *execution) c06() {
	for _, op := range e.p.Tasks[0] {
		o := &Outcome{Class: "ok"}
		var in *Input
		if op.K == "dummy" {
			e.budget(nil, 0)
			guard(o, func() { o.Comp = radolan.NewDummy(op.S, op.A, op.B, op.C) })
			if o.Class != "ok" {
				e.fail("dummy-"+o.Class, "NewDummy(%q, %d, %d, %d): %s", op.S, op.A, op.B, op.C, o.Text)
				return
			}
			e.st.Ops++
		} else {
			in = e.p.Inputs[op.In]
			o = e.parse(in, op.D, op.In)
			if o.Src.failed {
				e.nontrivial = true
			}
		}
		c := o.Comp
		if c == nil || o.Class == "panic" || o.Class == "hang" || o.Class == "alloc" || o.Class == "blocked" {
			continue // nothing was handed out
		}
		e.st.Probe["on_"+op.K+"_"+o.Class]++
		var want [][]float64
		if in != nil && in.Valid() && (o.Class == "ok" || o.Class == "unknown-unit") {
			want = in.Comp.PlainValues()
		}
		success := op.K != "dummy" && (o.Class == "ok" || o.Class == "unknown-unit")
		g := &Outcome{Class: "ok"}
		what, bad := "", ""
		r := NewRng(uint64(op.A)+uint64(op.F), 5)
		guard(g, func() {
			coord := func(n int) int {
				switch r.N(8) {
				case 0:
					return pick(r, math.MinInt, math.MaxInt, -1, n, n+1, -n, math.MaxInt32, math.MinInt32, 1<<40)
				case 1:
					return r.R(-5, n+5)
				case 2:
					return pick(r, 0, n-1)
				}
				return r.N(n)
			}
			for i := 0; i < 60; i++ {
				x, y, z := coord(c.Dx), coord(c.Dy), coord(c.Dz)
				if r.P(1, 2) {
					z = 0
				}
				what = fmt.Sprintf("AtZ(%d, %d, %d)", x, y, z)
				v := c.AtZ(x, y, z)
				if z == 0 {
					what = fmt.Sprintf("At(%d, %d)", x, y)
					if w := c.At(x, y); w != v && !(w != w && v != v) {
						bad = fmt.Sprintf("At is %v, AtZ is %v", w, v)
						return
					}
				}
				inside := x >= 0 && y >= 0 && z >= 0 && x < c.Dx && y < c.Dy && z < c.Dz
				if !inside && v == v {
					bad = fmt.Sprintf("value %v outside of the %dx%dx%d composite", v, c.Dx, c.Dy, c.Dz)
					return
				}
				if inside && success {
					if w := c.DataZ[z][y][x]; w != v && !(w != w && v != v) {
						bad = fmt.Sprintf("value %v, stored %v", v, w)
						return
					}
				}
				if inside && want != nil {
					_, dy, _, skip := in.Comp.layerDims()
					if w := want[skip+z*dy+y][x]; !same(v, w, in.Comp.base()) {
						bad = fmt.Sprintf("value %v, file says %v", v, w)
						return
					}
				}
			}
			for i := 0; i < 10; i++ {
				n, ea := pick(r, 90.0, -90, 0, math.Inf(1), math.NaN(), 1e300, -1e300), pick(r, 0.0, 180, -180, math.Inf(-1), math.NaN(), 1e300, 10)
				what = fmt.Sprintf("Project(%v, %v)", n, ea)
				c.Project(n, ea)
				n, ea = 47+8*float64(r.N(1000))/1000, 4+11*float64(r.N(1000))/1000
				what = fmt.Sprintf("Project(%v, %v)", n, ea)
				x, y := c.Project(n, ea)
				if (isNaN64(x) || isNaN64(y)) == c.HasProjection {
					// a declared projection of a dummy without extent has no scale
					if !(c.Dx == 0 || c.Dy == 0) {
						bad = fmt.Sprintf("projection available: %v, projected to %v, %v", c.HasProjection, x, y)
						return
					}
				}
			}
			what = "DataUnit.String()"
			if c.DataUnit.String() == "" {
				bad = "empty unit name"
				return
			}
			if c.Dx < 0 || c.Dy < 0 || c.Dx > 3000 || c.Dy > 3000 || c.Dx*c.Dy > 1e5 || r.P(1, 2) {
				return
			}
			layer := pick(r, 0, 0, -1, c.Dz-1, c.Dz, c.Dz+1, r.N(c.Dz+1))
			fn := colours[r.N(len(colours))]
			what = fmt.Sprintf("Image(layer %d)", layer)
			img := vis.Image(fn, c, layer)
			e.st.Probe["rendered"]++
			if img.Bounds() != image.Rect(0, 0, c.Dx, c.Dy) {
				bad = fmt.Sprintf("image of %v for a %dx%d composite", img.Bounds(), c.Dx, c.Dy)
				return
			}
			for i := 0; i < 20 && c.Dx > 0 && c.Dy > 0; i++ {
				x, y := r.N(c.Dx), r.N(c.Dy)
				want := color.RGBA{}
				if layer >= 0 && layer < c.Dz {
					if !success {
						break
					}
					want = fn(float64(c.DataZ[layer][y][x]))
				}
				if got := img.RGBAAt(x, y); got != want {
					bad = fmt.Sprintf("pixel %d, %d is %v, want %v", x, y, got, want)
					return
				}
			}
		})
		e.log.Note(g.Class + " " + what + bad)
		if g.Class != "ok" {
			e.fail("accessor-"+g.Class, "%s on the composite of a %s that ended with %s %s: %s", what, op.K, o.Class, o.Text, g.Text)
			return
		}
		if bad != "" {
			e.fail("accessor-wrong", "%s on the composite of a %s that ended with %s: %s", what, op.K, o.Class, bad)
			return
		}
	}
}

// C07: progress.
func (e *execution) c07() {
	in := e.p.Inputs[0]
	e.probeInput(in)
	for _, op := range e.p.Tasks[0] {
		o := e.parse(in, op.D, 0)
		if o.Src.reads > 1 {
			e.nontrivial = true
		}
		if op.D.FailAt < 0 {
			switch o.Class {
			case "ok":
				e.st.Probe["finished_on_open_source"]++
			case "blocked":
				e.fail("needs-more-than-composite", "all %d bytes were delivered, parsing waits for more", len(o.Src.b))
			default:
				e.fail("not-finished", "all %d bytes were delivered, parsing ended with %s %s", len(o.Src.b), o.Class, o.Text)
			}
			continue
		}
		e.st.Probe["source_failed"]++
		if o.Class == "hang" {
			e.fail("hang-after-failure", "parsing does not end after the source failed (%s) at %d", op.D.Err, op.D.FailAt)
		} else if o.Src.withData && op.D.Recover {
			// the source did not stay failed: nothing to demand but an end
		} else if o.Src.after > 1 || o.Src.after > 0 && !o.Src.withData {
			e.fail("read-after-failure", "the source failed (%s) at %d and was read %d more time(s)", op.D.Err, op.D.FailAt, o.Src.after)
		} else if o.Class == "panic" || o.Class == "blocked" {
			e.fail("no-return-after-failure", "the source failed (%s) at %d: %s %s", op.D.Err, op.D.FailAt, o.Class, o.Text)
		}
	}
}

// matchArchive checks that the composites are those of the members, in order.
func matchArchive(cs []*radolan.Composite, a *Archive) string {
	if len(cs) != len(a.Members) {
		return fmt.Sprintf("%d composites for %d members", len(cs), len(a.Members))
	}
	want := append([]*Comp(nil), a.Members...)
	sort.SliceStable(want, func(i, j int) bool { return want[i].forecast().Before(want[j].forecast()) })
	used := make([]bool, len(want))
	for i, c := range cs {
		if c == nil {
			return fmt.Sprintf("composite %d is nil", i)
		}
		if !c.ForecastTime.Equal(want[i].forecast()) {
			return fmt.Sprintf("composite %d has forecast time %v, want %v", i, c.ForecastTime, want[i].forecast())
		}
		why := ""
		ok := false
		for j, m := range want {
			if used[j] || !m.forecast().Equal(c.ForecastTime) {
				continue
			}
			why = checkMeta(c, m)
			if why == "" {
				why = checkValues(c, m)
			}
			if why == "" {
				used[j], ok = true, true
				break
			}
		}
		if !ok {
			return fmt.Sprintf("composite %d (%v) is none of the archived ones: %s", i, c.ForecastTime, why)
		}
	}
	return ""
}

// C08, C09: archives.
func (e *execution) c0809() {
	in := e.p.Inputs[0]
	a := in.Arch
	damagedMember := a.CutMem >= 0 && a.CutMem < len(a.Members) && a.CutLen > 0
	for _, op := range e.p.Tasks[0] {
		o := e.archive(in, op.D, 0)
		e.st.Probe["members"] += len(a.Members)
		if o.Src.reads > 1 || len(in.Muts)+len(a.TarMuts) > 0 {
			e.nontrivial = true
		}
		if len(a.TarMuts) > 0 {
			e.st.Fault["altered_archive_header"]++
		}
		if a.Junk > 0 {
			e.st.Fault["unparsable_member"]++
		}
		if e.p.Prop == "C08" {
			if o.Class != "ok" {
				e.fail("archive-rejected", "a complete archive of %d composites gave %s %s", len(a.Members), o.Class, o.Text)
				return
			}
			var s string
			guard(o, func() { s = matchArchive(o.Comps, a) })
			if o.Class != "ok" {
				s = o.Class + " " + o.Text
			}
			if s != "" {
				e.fail("archive-wrong", "%s", s)
				return
			}
			// each is identical to what the file alone gives
			if op.A == 1 {
				seen := map[int]bool{}
				for _, m := range a.Members {
					solo := e.parse(&Input{Comp: m}, &oneshot, 1)
					ok := false
					for j, c := range o.Comps {
						if !seen[j] && diffComposite(c, solo.Comp) == "" {
							seen[j], ok = true, true
							break
						}
					}
					if !ok {
						e.fail("archive-differs-from-single", "the composite of %s %v differs from parsing the file alone", m.Product, m.forecast())
						return
					}
				}
			}
			continue
		}
		e.st.Probe["outcome_"+o.Class]++
		switch o.Class {
		case "error":
			if len(o.Comps) > 0 {
				e.fail("partial-with-error", "error %q together with %d composites", o.Text, len(o.Comps))
				return
			}
		case "ok":
			if damagedMember {
				e.fail("damaged-member-accepted", "success although a member is cut short")
				return
			}
			var s string
			guard(o, func() { s = matchArchive(o.Comps, a) })
			if o.Class != "ok" {
				s = o.Class + " " + o.Text
			}
			if s != "" {
				e.fail("damage-unnoticed", "success on a damaged archive with wrong result: %s", s)
				return
			}
		default:
			e.fail("archive-"+o.Class, "damaged archive ended with %s %s", o.Class, o.Text)
			return
		}
	}
}

// C13: the unknown-unit warning.
func (e *execution) c13() {
	in := e.p.Inputs[0]
	c := in.Comp
	_, known := modelUnits[c.Product]
	for _, op := range e.p.Tasks[0] {
		o := e.parse(in, op.D, 0)
		if o.Src.reads > 1 {
			e.nontrivial = true
		}
		if op.D.FailAt >= 0 || len(in.Muts) > 0 { // must be a hard error
			b, _ := in.Bytes()
			if op.D.FailAt >= len(b) {
				continue // (only in shrunk plans)
			}
			e.st.Probe["failing"]++
			if len(in.Muts) == 0 && (o.Class == "ok" && known || o.Class == "unknown-unit" && !known) && e.overlooked(o, op.D, c) {
				continue
			}
			if o.Class == "unknown-unit" {
				e.fail("warning-for-incomplete", "incomplete data (%d bytes, failure at %d) of product %s reported as unknown unit only", len(b), op.D.FailAt, c.Product)
			} else if o.Class == "ok" {
				if !(known && c.Enc == RL && op.D.FailAt == len(b)-1) {
					e.fail("incomplete-accepted", "incomplete data of product %s accepted", c.Product)
				}
			}
			continue
		}
		if known {
			e.st.Probe["catalogued"]++
			if o.Class != "ok" {
				e.fail("warning-for-known", "complete composite of catalogued product %s gave %s %s", c.Product, o.Class, o.Text)
			}
			continue
		}
		e.st.Probe["uncatalogued"]++
		if o.Class != "unknown-unit" {
			e.fail("warning-missing", "complete composite of uncatalogued product %s gave %s %s", c.Product, o.Class, o.Text)
			continue
		}
		if o.Comp == nil {
			e.fail("warning-without-composite", "uncatalogued product %s: no composite", c.Product)
			continue
		}
		var s string
		guard(o, func() {
			s = checkValues(o.Comp, c)
			if s == "" && o.Comp.DataUnit.String() != unitNames[uNone] {
				s = "unit is " + o.Comp.DataUnit.String()
			}
			if s == "" && o.Comp.Product != c.Product {
				s = "product is " + o.Comp.Product
			}
		})
		if o.Class == "panic" {
			s = o.Text
		}
		if s != "" {
			e.fail("warning-wrong-data", "uncatalogued product %s: %s", c.Product, s)
		}
	}
}

// ---- operations on shared objects ----

// shared holds what concurrent readers share.
type shared struct {
	comps []*radolan.Composite
}

var zrs = []radolan.ZR{radolan.Aniol80, radolan.Doelling98, radolan.JossWaldvogel70, radolan.MarshallPalmer55}

var colours = []vis.ColorFunc{vis.HeatmapReflectivityShort, vis.HeatmapReflectivity, vis.HeatmapReflectivityWide, vis.HeatmapAccumulatedHour,
	vis.HeatmapAccumulatedDay, vis.HeatmapRadialVelocity, vis.GraymapLinear, vis.GraymapLinearWide}

type dummyConf struct {
	product    string
	format     int
	dx, dy     int
	projection bool
}

var dummies = []dummyConf{
	{"SF", 3, 900, 900, true}, {"FZ", 3, 450, 450, true}, {"RX", 4, 225, 225, true}, {"PG", 0, 460, 460, true}, {"WX", 3, 900, 1100, true},
	{"WX", 3, 450, 550, true}, {"EX", 3, 1400, 1500, true}, {"EX", 3, 350, 375, true}, {"WN", 3, 1100, 1200, true}, {"WN", 5, 1100, 1200, true},
	{"WN", 5, 550, 600, true}, {"RX", 5, 900, 900, false}, {"PX", 0, 200, 200, false}, {"XX", 3, 7, 5, false},
	{"HG", 5, 275, 300, true}, {"RW", 3, 1800, 1800, true},
}

// hashPix hashes the pixels of an image. The race detector sees a read of a
// part of them only, which keeps race builds fast.
func hashPix(b []byte) uint64 {
	s := byte(0)
	for i := 0; i < len(b); i += 251 {
		s ^= b[i]
	}
	return hashAll(b) + uint64(s)
}

//go:norace
func hashAll(b []byte) uint64 {
	h := uint64(len(b))
	for len(b) >= 8 {
		h = (h ^ (uint64(b[0]) | uint64(b[1])<<8 | uint64(b[2])<<16 | uint64(b[3])<<24 | uint64(b[4])<<32 | uint64(b[5])<<40 | uint64(b[6])<<48 | uint64(b[7])<<56)) * 0x9e3779b97f4a7c15
		h ^= h >> 29
		b = b[8:]
	}
	for _, x := range b {
		h = (h ^ uint64(x)) * 0x9e3779b97f4a7c15
	}
	return h
}

// pure runs one operation whose result depends only on its arguments and
// returns a description of the result.
func pure(op Op, sh *shared, st *Stats) (s string) {
	st.Ops++
	o := &Outcome{Class: "ok"}
	guard(o, func() {
		switch op.K {
		case "project":
			x, y := sh.comps[op.Obj].Project(op.F, op.G)
			s = fmt.Sprint(x, y)
		case "at":
			s = fmt.Sprint(sh.comps[op.Obj].At(op.A, op.B))
		case "atz":
			s = fmt.Sprint(sh.comps[op.Obj].AtZ(op.A, op.B, op.C))
		case "unit":
			c := sh.comps[op.Obj]
			s = fmt.Sprint(c.DataUnit.String(), c.Product, c.CaptureTime, c.ForecastTime, c.Dx, c.Dy, c.Dz, c.Rx, c.Ry, c.HasProjection)
		case "image":
			img := vis.Image(colours[op.B%len(colours)], sh.comps[op.Obj], op.A)
			s = fmt.Sprint(img.Rect, hashPix(img.Pix))
		case "imagecustom":
			f := vis.Heatmap(op.F, op.G, vis.Id)
			if op.B&1 == 1 {
				f = vis.Graymap(op.F, op.G, vis.Id)
			} else if op.B&2 == 2 {
				f = vis.Radialmap(op.F, op.G, vis.Log)
			}
			img := vis.Image(f, sh.comps[op.Obj], op.A)
			s = fmt.Sprint(img.Rect, hashPix(img.Pix))
		case "colour":
			s = fmt.Sprint(colours[op.B%len(colours)](op.F))
		case "rate":
			s = fmt.Sprint(radolan.PrecipitationRate(zrs[op.B%len(zrs)], float32(op.F)))
		case "refl":
			s = fmt.Sprint(radolan.Reflectivity(zrs[op.B%len(zrs)], op.F))
		case "zr":
			z := radolan.NewZR(op.F, op.G)
			s = fmt.Sprint(radolan.PrecipitationRate(z, 30), radolan.Reflectivity(z, 3))
		case "dummy":
			d := dummies[op.B%len(dummies)]
			c := radolan.NewDummy(d.product, d.format, d.dx, d.dy)
			x, y := c.Project(op.F, op.G)
			s = fmt.Sprint(c.Rx, c.Ry, c.HasProjection, c.Dx, c.Dy, c.Format, c.Product, x, y, c.At(1, 1))
		default:
			panic("unknown operation " + op.K)
		}
	})
	if o.Class != "ok" {
		s = o.Class + " " + o.Text
	}
	return
}

// concurrent is C10 (parses) and C11 (shared readers).
func (e *execution) concurrent() {
	p := e.p
	for _, in := range p.Inputs {
		in.Bytes() // rendered before the tasks start
	}
	sh := &shared{}
	var snaps []*radolan.Composite
	if p.Prop == "C11" {
		for _, in := range p.Inputs {
			if in.Comp != nil {
				o := e.parse(in, &oneshot, 0)
				if o.Comp == nil || o.Class == "panic" {
					o.Comp = radolan.NewDummy("XX", 0, 3, 3)
				}
				sh.comps = append(sh.comps, o.Comp)
			} else {
				d := dummies[in.Len%len(dummies)]
				sh.comps = append(sh.comps, radolan.NewDummy(d.product, d.format, d.dx, d.dy))
			}
		}
		for _, c := range sh.comps {
			snaps = append(snaps, snapshot(c))
		}
	}
	total := 0
	for _, in := range p.Inputs {
		n := cellsOf(in)
		if !in.Valid() && p.Prop == "C10" {
			n += 1000000
		}
		b, _ := in.Bytes()
		total += n + len(b)
	}
	e.st.Steps += rt.Steps()
	rt.ResetSteps(stepBudget(0, total)*int64(8*len(p.Tasks)), 64*maxGridElems)
	n := len(p.Tasks)
	results := make([][]*Outcome, n)
	texts := make([][]string, n)
	logs := make([]*Log, n)
	sts := make([]*Stats, n)
	bodies := make([]func(), n)
	for i := range p.Tasks {
		logs[i] = &Log{Keep: e.log.Keep}
		sts[i] = NewStats()
		results[i] = make([]*Outcome, len(p.Tasks[i]))
		texts[i] = make([]string, len(p.Tasks[i]))
		bodies[i] = func() {
			for k, op := range p.Tasks[i] {
				switch op.K {
				case "parse":
					b, _ := p.Inputs[op.In].Bytes()
					results[i][k] = parseOne(b, op.D, logs[i], sts[i], op.In)
				case "archive":
					b, _ := p.Inputs[op.In].Bytes()
					results[i][k] = parseArchive(b, op.D, logs[i], sts[i], op.In)
				default:
					texts[i][k] = pure(op, sh, sts[i])
					logs[i].Note(op.K + " " + texts[i][k])
				}
			}
		}
	}
	tr := rt.Run(bodies, p.Sched)
	e.trace = tr.Slices
	e.st.Sw += tr.Switches
	if tr.Switches > n-1 {
		e.nontrivial = true
	}
	for _, s := range tr.Slices {
		e.log.Add(s.T, "slice", int(s.Q), 0)
	}
	if tr.Deadlock {
		e.fail("deadlock", "concurrent callers block each other for ever")
		return
	}
	for i := range p.Tasks {
		e.log.h = mix(e.log.h ^ logs[i].h)
		for _, l := range logs[i].Lines {
			e.log.Lines = append(e.log.Lines, fmt.Sprintf("task %d: %s", i, l))
		}
		e.st.Merge(sts[i])
	}
	e.st.Steps += rt.Steps()
	// what the same calls give alone, afterwards
	for i := range p.Tasks {
		for k, op := range p.Tasks[i] {
			switch op.K {
			case "parse", "archive":
				in := p.Inputs[op.In]
				o := results[i][k]
				var alone *Outcome
				b, _ := in.Bytes()
				rt.ResetSteps(stepBudget(0, total)*8, 64*maxGridElems)
				if op.K == "parse" {
					alone = parseOne(b, op.D, nil, nil, 0)
				} else {
					alone = parseArchive(b, op.D, nil, nil, 0)
				}
				if s := diffOutcome(o, alone); s != "" {
					e.fail("concurrent-differs", "task %d operation %d (%s of input %d): concurrent and alone differ: %s", i, k, op.K, op.In, s)
					return
				}
				if in.Valid() && op.D.FailAt < 0 {
					s := ""
					guard(o, func() {
						if s = checkValues(o.Comp, in.Comp); s == "" {
							s = checkMeta(o.Comp, in.Comp)
						}
					})
					if o.Class != "ok" {
						s = o.Class + " " + o.Text
					}
					if s != "" {
						e.fail("concurrent-wrong", "task %d operation %d: %s", i, k, s)
						return
					}
					e.st.Probe["checked_against_model"]++
				}
				if in.Arch != nil && len(in.Muts) == 0 && op.D.FailAt < 0 {
					s := ""
					guard(o, func() { s = matchArchive(o.Comps, in.Arch) })
					if o.Class != "ok" {
						s = o.Class + " " + o.Text
					}
					if s != "" {
						e.fail("concurrent-wrong", "task %d operation %d: %s", i, k, s)
						return
					}
					e.st.Probe["checked_against_model"]++
				}
			default:
				rt.ResetSteps(stepBudget(0, total)*8, 64*maxGridElems)
				if s := pure(op, sh, NewStats()); s != texts[i][k] {
					e.fail("concurrent-differs", "task %d operation %d (%s): concurrent %s, alone %s", i, k, op.K, texts[i][k], s)
					return
				}
			}
		}
	}
	for i, c := range sh.comps {
		if s := diffComposite(c, snaps[i]); s != "" {
			e.fail("reader-changed-composite", "reading changed shared composite %d: %s", i, s)
			return
		}
	}
}

// What pure operations and projections return in a process that did nothing
// else before. Every operation has a process of its own.
type baseKey struct {
	k    string
	b    int
	f, g float64
}

var historyArgs = [][2]float64{{51, 9}, {52.51861, 13.40833}, {47.27, 10.18}, {54.9, 8.3}, {1.5, 0.3}, {35.5, -4}, {0, 0}}
var baseline = map[baseKey]string{}
var freshGrids = map[[3]int][]float64{} // width, height, format: resolution and projections

type freshAnswer struct {
	K     string
	B     int
	Texts []string  `json:",omitempty"` // one for each of historyArgs
	Grid  []float64 `json:",omitempty"`
}

// gridKeys are the grids that composites of histories may have.
func gridKeys() (ks [][3]int) {
	for _, g := range modelGrids {
		for x, y := g[0], g[1]; ; x, y = x/2, y/2 {
			if x <= 500 {
				ks = append(ks, [3]int{x, y, 3}, [3]int{x, y, 5})
			}
			if x&1 != 0 || y&1 != 0 {
				break
			}
		}
	}
	return
}

func projections(c *radolan.Composite) (v []float64) {
	o := &Outcome{Class: "ok"}
	guard(o, func() {
		v = append(v, c.Rx, c.Ry)
		for _, a := range historyArgs {
			x, y := c.Project(a[0], a[1])
			v = append(v, x, y)
		}
	})
	if o.Class != "ok" {
		return nil
	}
	for i := range v { // no numbers in JSON
		if math.IsNaN(v[i]) {
			v[i] = -1e300
		}
		v[i] = math.Max(math.Min(v[i], 1e300), -1e301)
	}
	return
}

// fresh answers one question; the process does nothing else.
func fresh(k string, b int) (a freshAnswer) {
	a.K, a.B = k, b
	if k == "grid" {
		g := gridKeys()[b]
		o := &Outcome{Class: "ok"}
		guard(o, func() { a.Grid = projections(radolan.NewDummy("RX", g[2], g[0], g[1])) })
		return
	}
	for _, x := range historyArgs {
		a.Texts = append(a.Texts, pure(Op{K: k, B: b, F: x[0], G: x[1]}, &shared{}, NewStats()))
	}
	return
}

const baselineEnv = "RADOSIM_BASELINE"

// askFresh has every question answered by a process of its own; processes
// started later inherit the answers.
func askFresh(prop string) {
	if prop != "C12" || os.Getenv(baselineEnv) != "" {
		return
	}
	var as []freshAnswer
	for b := range dummies {
		as = append(as, freshAnswer{K: "dummy", B: b})
	}
	for b := range gridKeys() {
		as = append(as, freshAnswer{K: "grid", B: b})
	}
	for _, k := range []string{"colour", "rate", "refl"} {
		for b := 0; b < 8; b++ {
			as = append(as, freshAnswer{K: k, B: b})
		}
	}
	env := selfEnv()
	for i := range as {
		cmd := exec.Command(os.Args[0], "fresh", as[i].K, fmt.Sprint(as[i].B))
		cmd.Env = env
		if out, err := cmd.Output(); err == nil {
			json.Unmarshal(out, &as[i])
		}
	}
	j, _ := json.Marshal(as)
	os.Setenv(baselineEnv, string(j))
}

func initBaseline() {
	askFresh("C12")
	var as []freshAnswer
	json.Unmarshal([]byte(os.Getenv(baselineEnv)), &as)
	ks := gridKeys()
	for _, a := range as {
		if a.K == "grid" && a.Grid != nil {
			freshGrids[ks[a.B]] = a.Grid
		}
		for i, t := range a.Texts {
			baseline[baseKey{a.K, a.B, historyArgs[i][0], historyArgs[i][1]}] = t
		}
	}
}

// likeFresh compares the projection of a composite with that of a dummy of its
// grid in a fresh process.
func likeFresh(c *radolan.Composite) string {
	f := 3
	if c.Format >= 5 {
		f = 5
	}
	want, ok := freshGrids[[3]int{c.Dx, c.Dy, f}]
	got := projections(c)
	if !ok || len(got) != len(want) {
		return ""
	}
	for i := range want {
		if math.Abs(got[i]-want[i]) > 1e-6*(1+math.Abs(want[i])) {
			if i < 2 {
				return fmt.Sprintf("the resolution of the grid %dx%d (format %d) is %v, in a fresh process %v", c.Dx, c.Dy, c.Format, got[:2], want[:2])
			}
			a := historyArgs[(i-2)/2]
			return fmt.Sprintf("on the grid %dx%d (format %d) the projection of %v is %v, in a fresh process %v", c.Dx, c.Dy, c.Format, a, got[i&^1:i|1+1], want[i&^1:i|1+1])
		}
	}
	return ""
}

// C12: histories.
func (e *execution) c12() {
	p := e.p
	type kept struct {
		c    *radolan.Composite
		snap *radolan.Composite
		said string // what its methods returned
	}
	methods := func(c *radolan.Composite) (s string) {
		e.budget(nil, 1000)
		g := &Outcome{Class: "ok"}
		guard(g, func() {
			for _, a := range historyArgs[:4] {
				x, y := c.Project(a[0], a[1])
				s += fmt.Sprint(x, " ", y, " ")
			}
			s += fmt.Sprint(c.At(0, 0), c.At(c.Dx-1, c.Dy-1), c.AtZ(c.Dx/2, c.Dy/2, c.Dz-1), c.DataUnit)
		})
		if g.Class != "ok" {
			s += g.Class + " " + g.Text
		}
		return
	}
	var all []kept
	first := map[int]*Outcome{} // first outcome of every complete input
	firstSnap := map[int]*Outcome{}
	recheck := func(k int, what string) bool {
		for i, h := range all {
			if s := diffComposite(h.c, h.snap); s != "" {
				e.fail("result-changed", "operation %d (%s) changed composite %d returned earlier: %s", k, what, i, s)
				return false
			}
			if s := methods(h.c); s != h.said {
				e.fail("result-changed", "operation %d (%s) changed what the methods of composite %d return: %s, before: %s", k, what, i, s, h.said)
				return false
			}
		}
		return true
	}
	// storage of the composites returned so far (the keys keep it alive)
	owner := map[*float32]int{}
	aliased := ""
	keepAll := func(cs ...*radolan.Composite) {
		for _, c := range cs {
			if c == nil {
				continue
			}
			n := len(all)
			claim := func(rows [][]float32) {
				for _, row := range rows {
					if len(row) > 0 {
						if i, ok := owner[&row[0]]; ok && i != n && aliased == "" {
							aliased = fmt.Sprintf("the new composite %d and composite %d returned earlier share their values", n, i)
						}
						owner[&row[0]] = n
					}
				}
			}
			for i := range all {
				if all[i].c == c {
					aliased = fmt.Sprintf("composite %d is returned again as composite %d", i, n)
				}
			}
			claim(c.PlainData)
			for _, l := range c.DataZ {
				claim(l)
			}
			claim(c.Data)
			all = append(all, kept{c, snapshot(c), methods(c)})
		}
	}
	for k, op := range p.Tasks[0] {
		switch op.K {
		case "tz":
			time.Local = zones[op.A%len(zones)]
			e.st.Fault["timezone_change"]++
		case "parse", "archive":
			in := p.Inputs[op.In]
			var o *Outcome
			if op.K == "parse" {
				o = e.parse(in, op.D, op.In)
			} else {
				o = e.archive(in, op.D, op.In)
			}
			if op.D.FailAt >= 0 {
				e.st.Probe["interrupted_before_others"]++
				if o.Comp != nil && o.Class == "error" {
					keepAll(o.Comp)
				}
				break
			}
			s := ""
			if in.Valid() {
				want := "ok"
				if in.Comp.unit() == uNone {
					want = "unknown-unit"
				}
				if o.Class != want {
					s = o.Class + " " + o.Text
				} else {
					cl := o.Class
					guard(o, func() {
						if s = checkValues(o.Comp, in.Comp); s == "" {
							s = checkMeta(o.Comp, in.Comp)
						}
					})
					if o.Class != cl {
						s = o.Class + " " + o.Text
					}
				}
			} else if in.Arch != nil && len(in.Muts) == 0 {
				if o.Class != "ok" {
					s = o.Class + " " + o.Text
				} else {
					guard(o, func() { s = matchArchive(o.Comps, in.Arch) })
					if o.Class != "ok" {
						s = o.Class + " " + o.Text
					}
				}
			}
			if s == "" && in.Valid() && o.Comp != nil {
				if s = likeFresh(o.Comp); s != "" {
					e.fail("history-dependent", "operation %d (%s of input %d): %s", k, op.K, op.In, s)
					return
				}
				if o.Comp.HasProjection {
					e.st.Probe["projection_like_in_fresh_process"]++
				}
			}
			if s != "" {
				e.fail("wrong-in-history", "operation %d (%s of input %d): %s", k, op.K, op.In, s)
				return
			}
			if first[op.In] == nil {
				first[op.In] = o
				fs := &Outcome{Class: o.Class, Text: o.Text}
				if o.Comp != nil {
					fs.Comp = snapshot(o.Comp)
				}
				for _, c := range o.Comps {
					fs.Comps = append(fs.Comps, snapshot(c))
				}
				firstSnap[op.In] = fs
			} else {
				e.st.Probe["same_input_again"]++
				if s := diffOutcome(firstSnap[op.In], o); s != "" {
					e.fail("history-dependent", "operation %d: input %d gave a different result than before: %s", k, op.In, s)
					return
				}
			}
			keepAll(o.Comp)
			keepAll(o.Comps...)
			if len(all) > 1 {
				e.nontrivial = true
			}
		case "scribble": // the caller modifies a composite it owns
			if len(all) == 0 {
				break
			}
			e.st.Fault["caller_modifies_result"]++
			h := &all[op.Obj%len(all)]
			r := NewRng(uint64(op.A), 3)
			for y := range h.c.PlainData {
				for x := range h.c.PlainData[y] {
					if r.P(1, 2) {
						h.c.PlainData[y][x] = float32(12345 + r.N(100))
					}
				}
			}
			if op.B&1 == 1 {
				h.c.Product, h.c.DataUnit, h.c.Rx, h.c.Ry = "ZZ", 0, -1, -1
				h.c.HasProjection = false
			}
			if op.B&2 != 0 { // and its rows
				for y := range h.c.PlainData {
					h.c.PlainData[y] = append([]float32(nil), h.c.PlainData[y]...)
				}
				for z := range h.c.DataZ {
					h.c.DataZ[z] = append([][]float32(nil), h.c.DataZ[z]...)
					for y := range h.c.DataZ[z] {
						h.c.DataZ[z][y] = make([]float32, len(h.c.DataZ[z][y]))
					}
				}
			}
			h.snap, h.said = snapshot(h.c), methods(h.c)
		case "read": // reading leaves everything as it is
			if len(all) == 0 {
				break
			}
			h := all[op.Obj%len(all)]
			g := &Outcome{Class: "ok"}
			e.budget(nil, 1000000)
			guard(g, func() {
				for i := 0; i < 20; i++ {
					h.c.At(op.A+i, op.B)
					h.c.AtZ(op.A, op.B+i, op.C)
				}
				h.c.Project(51, 9)
				if h.c.Dz > 0 && h.c.Dx*h.c.Dy < 100000 {
					vis.Image(colours[op.B&7], h.c, op.C)
				}
			})
			if g.Class != "ok" {
				e.fail("read-"+g.Class, "operation %d: reading composite: %s", k, g.Text)
				return
			}
		default:
			e.budget(nil, 0)
			sh := &shared{}
			got := pure(op, sh, e.st)
			if w, ok := baseline[baseKey{op.K, op.B, op.F, op.G}]; ok && w != got {
				e.fail("history-dependent", "operation %d (%s): %s, in a fresh process %s", k, op.K, got, w)
				return
			}
			e.log.Note(op.K + " " + got)
			if op.K == "dummy" {
				d := dummies[op.B%len(dummies)]
				keepAll(radolan.NewDummy(d.product, d.format, d.dx, d.dy))
			}
		}
		if aliased != "" {
			e.fail("results-share-storage", "operation %d (%s): %s", k, op.K, aliased)
			return
		}
		if !recheck(k, op.K) {
			return
		}
	}
	e.st.Probe["history_length"] += len(p.Tasks[0])
}
