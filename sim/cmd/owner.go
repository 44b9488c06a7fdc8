package main

import (
	"bufio"
	"bytes"
	"io"
	"os"
	"strings"
	"testing/synctest"

	"radosim/rt"
)

// slot is a reader object the caller uses again and again.
type slot struct {
	rd  io.Reader
	src *Source
}

// hand prepares the reader for a call: a reader of that slot is filled anew if
// its type can be.
func (sl *slot) hand(b []byte, d *Delivery, e *execution, id int) (io.Reader, bool) {
	fresh := NewSource(b, d, e.log, e.st, id)
	rd := fresh.Reader()
	old, src := sl.rd, sl.src
	sl.rd, sl.src = rd, fresh
	if old == nil {
		return rd, false
	}
	defer func() {
		if sl.rd != old { // not needed any more
			src.release()
		}
	}()
	switch n := rd.(type) {
	case *Source:
		if o, ok := old.(*Source); ok {
			*o = *fresh
			sl.rd, sl.src = o, o
			return o, true
		}
	case *bufio.Reader:
		if o, ok := old.(*bufio.Reader); ok {
			o.Reset(fresh)
			sl.rd = o
			return o, true
		}
	case *seekReader:
		if o, ok := old.(*seekReader); ok {
			*src = *fresh
			o.s, sl.rd, sl.src = src, o, src
			return o, true
		}
	case *bytes.Reader:
		if o, ok := old.(*bytes.Reader); ok {
			*o = *n
			sl.rd = o
			return o, true
		}
	case *bytes.Buffer:
		if o, ok := old.(*bytes.Buffer); ok {
			o.Reset()
			o.Write(b)
			sl.rd = o
			return o, true
		}
	case *strings.Reader:
		if o, ok := old.(*strings.Reader); ok {
			*o = *n
			sl.rd = o
			return o, true
		}
	case *os.File:
		if o, ok := old.(*os.File); ok && d.Wrap == 13 && src.d.Wrap == 13 && o.Truncate(0) == nil {
			o.Seek(0, io.SeekStart)
			o.Write(append(append([]byte(nil), sourcePrefix...), b...))
			o.Seek(int64(len(sourcePrefix)), io.SeekStart)
			fresh.release()
			fresh.file, sl.rd = o, o
			return o, true
		}
	}
	return rd, false
}

func (e *execution) settle() {
	if rt.Coarse {
		synctest.Wait()
	}
}

// misuse tells what was done to the source of a call that has returned.
func misuse(s *Source) (class, what string) {
	if s.file != nil {
		if _, err := s.file.Stat(); err != nil {
			s.closed++
		}
	}
	switch {
	case s.late > 0:
		return "used-after-return", "the reader was used again after the call had returned"
	case s.closed > 0:
		return "closed", "the caller's reader was closed"
	case s.meddled != "":
		return "meddled", "the call did more with the caller's reader than reading: " + s.meddled
	case s.overlap > 0:
		return "concurrent-reads", "the reader was read by two goroutines at once"
	}
	return "", ""
}

// c23: the reader belongs to the caller.
func (e *execution) c23() {
	p := e.p
	slots := map[int]*slot{}
	type done struct {
		o, ref *Outcome
		k      int
	}
	defer func() {
		for _, sl := range slots {
			sl.src.release()
		}
	}()
	var all []done
	var refs []*Outcome
	var streams [][]byte
	for k, op := range p.Tasks[0] { // with a reader of its own
		in := p.Inputs[op.In]
		bytes0, _ := in.Bytes()
		if op.B > 0 { // what follows on the stream
			other, _ := p.Inputs[op.B%len(p.Inputs)].Bytes()
			bytes0 = append(append([]byte(nil), bytes0...), other...)
		}
		e.budget(bytes0, maxGridElems)
		own := NewSource(bytes0, op.D, e.log, e.st, op.In)
		ref := parseFrom(own.Reader(), own, op.K == "archive", e.log, e.st)
		if ref.Class == "blocked" || ref.Class == "hang" {
			return // not a matter of this property
		}
		e.settle()
		if c, s := misuse(ref.Src); c != "" {
			e.fail(c, "call %d: %s", k, s)
			return
		}
		own.release()
		refs, streams = append(refs, ref), append(streams, bytes0)
	}
	for k, op := range p.Tasks[0] {
		ref, bytes0 := refs[k], streams[k]
		sl := slots[op.A]
		if sl == nil {
			sl = &slot{}
			slots[op.A] = sl
		}
		mem := append([]byte(nil), bytes0...)
		if sl.src != nil {
			sl.src.over = false // (handed out again)
		}
		rd, again := sl.hand(mem, op.D, e, op.In)
		if again {
			e.nontrivial = true
			e.st.Probe["reader_used_again"]++
		}
		e.budget(bytes0, maxGridElems)
		o := parseFrom(rd, sl.src, op.K == "archive", e.log, e.st)
		e.settle()
		sl.src.over = true
		if c, s := misuse(sl.src); c != "" {
			e.fail(c, "call %d: %s", k, s)
			return
		}
		for i := range mem { // the caller uses its memory for something else
			mem[i] ^= 0x5A
		}
		e.settle()
		all = append(all, done{o, ref, k})
		for _, x := range all {
			if s := diffOutcome(x.ref, x.o); s != "" {
				how := "a reader used before"
				if !again {
					how = "a reader of its own"
				}
				if x.k < k {
					how = "changed later, "
				}
				e.fail("depends-on-reader-history", "call %d: (%s): %s", x.k, how, s)
				return
			}
		}
		for _, s := range slots {
			if c, t := misuse(s.src); c != "" {
				e.fail(c, "by call %d at the latest: %s", k, t)
				return
			}
		}
		e.st.Probe["outcome_"+o.Class]++
	}
}

func genC23(r *Rng, p *Plan) {
	ni := r.R(1, 4)
	for i := 0; i < ni; i++ {
		switch {
		case r.P(1, 8):
			p.Inputs = append(p.Inputs, &Input{Arch: GenArchive(r, 3, false)})
		case r.P(1, 8):
			p.Inputs = append(p.Inputs, genDamagedComp(r))
		case i > 0 && p.Inputs[0].Valid() && r.P(1, 3): // same shape, other contents
			b := *p.Inputs[0].Comp
			b.Cells, b.Fill = r.U64(), r.N(4)
			p.Inputs = append(p.Inputs, &Input{Comp: &b})
		default:
			sz := szTiny
			if r.P(1, 4) {
				sz = pickSize(r, false)
			}
			p.Inputs = append(p.Inputs, &Input{Comp: GenComp(r, sz)})
		}
	}
	wrap := r.N(15)
	var ops []Op
	for k := r.R(2, 8); k > 0; k-- {
		i := r.N(ni)
		in := p.Inputs[i]
		b, m := in.Bytes()
		d := GenDelivery(r, len(b), m)
		d.Wrap = wrap
		if r.P(1, 2) {
			d.Wrap = 0
		}
		if r.P(1, 4) && len(b) > 0 {
			GenFail(r, &d, len(b), m)
		}
		o := Op{K: "parse", In: i, D: &d, A: r.N(2)}
		if in.Arch != nil {
			o.K = "archive"
		} else if r.P(1, 4) {
			o.B = r.R(1, 4)
		}
		ops = append(ops, o)
	}
	p.Tasks = [][]Op{ops}
}
