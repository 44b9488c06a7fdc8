package main

import (
	"bufio"
	"bytes"
	"errors"
	"fmt"
	"io"
	"net"
	"os"
	"strings"
	"syscall"
	"time"

	"radosim/rt"
)

// Blocked is the panic value of a read from a source that stays silent for ever.
type Blocked struct{}

func (Blocked) Error() string { return "read on a source that will stay silent" }

// ReadOverflow is the panic value of a source asked too often.
type ReadOverflow struct{}

func (ReadOverflow) Error() string { return "read budget exceeded" }

var errKinds = map[string]error{
	"eof":        io.EOF,
	"unexpected": io.ErrUnexpectedEOF,
	"eio":        &os.PathError{Op: "read", Path: "sim", Err: syscall.EIO},
	"timeout":    &net.OpError{Op: "read", Net: "tcp", Err: os.ErrDeadlineExceeded},
	"closed":     io.ErrClosedPipe,
	"reset":      syscall.ECONNRESET,
	"noprogress": io.ErrNoProgress,
	"short":      io.ErrShortBuffer,
	"again":      &os.PathError{Op: "read", Path: "sim", Err: syscall.EAGAIN},
	"wrapped":    fmt.Errorf("connection lost: %w", io.EOF),
}

var errOther = errors.New("sim: failure")

// Source is the simulated reader: the network or disk of a run.
type Source struct {
	b        []byte
	d        *Delivery
	pos      int
	k        int // next cut
	reads    int
	empty    int
	after    int // reads after the failure or end was reported
	failed   bool
	withData bool // the failure came together with data
	log      *Log
	st       *Stats
	id       int
	limit    int // reads before the run counts as endless

	file    *os.File      // a real one holds the bytes
	sem     chan struct{} // coarse runs: reads of several goroutines
	overlap int           // reads that began before another one ended
	closed  int           // calls of Close
	over    bool          // the call it was handed to has returned
	until   time.Time     // deadline set by somebody
	meddled string        // what was done besides reading
	late    int           // uses after that
}

func NewSource(b []byte, d *Delivery, log *Log, st *Stats, id int) *Source {
	s := &Source{b: b, d: d, log: log, st: st, id: id, limit: 40*len(b) + 5000}
	if rt.Coarse {
		s.sem = make(chan struct{}, 1)
	}
	return s
}

// Close is there to be noticed: the reader belongs to the caller.
func (s *Source) Close() error {
	s.closed++
	s.ev("close", s.pos, 0)
	if s.over {
		s.late++
	}
	return nil
}

// What connections offer besides.
func (s *Source) SetDeadline(t time.Time) error {
	s.meddled, s.until = "SetDeadline", t
	return nil
}
func (s *Source) SetReadDeadline(t time.Time) error {
	s.meddled, s.until = "SetReadDeadline", t
	return nil
}
func (s *Source) SetWriteDeadline(time.Time) error { s.meddled = "SetWriteDeadline"; return nil }
func (s *Source) CloseRead() error                 { s.meddled = "CloseRead"; return nil }
func (s *Source) CloseWrite() error                { s.meddled = "CloseWrite"; return nil }
func (s *Source) SetReadBuffer(int) error          { s.meddled = "SetReadBuffer"; return nil }
func (s *Source) SetNoDelay(bool) error            { s.meddled = "SetNoDelay"; return nil }
func (s *Source) Write(p []byte) (int, error)      { s.meddled = "Write"; return len(p), nil }
func (s *Source) Flush() error                     { s.meddled = "Flush"; return nil }
func (s *Source) Reset()                           { s.meddled = "Reset" }

// Reader returns what is handed to the code under test.
func (s *Source) Reader() io.Reader {
	switch s.d.Wrap {
	case 1:
		return bufio.NewReaderSize(s, 16)
	case 2:
		return bufio.NewReaderSize(s, 4096)
	case 3:
		return bufio.NewReaderSize(s, 65536)
	case 4:
		return io.MultiReader(s)
	case 5:
		return &byteReader{s, bufio.NewReaderSize(s, 300)}
	}
	if s.d.Stay || s.d.Err == "silent" {
		return s
	}
	switch s.d.Wrap {
	case 6: // a file, positioned in its middle
		return &seekReader{s}
	case 7: // everything the in-memory readers of the standard library offer
		return &lenReader{bufio.NewReaderSize(s, 16), s}
	}
	if s.d.FailAt >= 0 {
		return s
	}
	all := append(append([]byte(nil), sourcePrefix...), s.b...)
	switch s.d.Wrap {
	case 8:
		r := bytes.NewReader(all)
		r.Seek(int64(len(sourcePrefix)), io.SeekStart)
		return r
	case 9:
		r := bytes.NewBuffer(all)
		r.Next(len(sourcePrefix))
		return r
	case 10:
		r := strings.NewReader(string(all))
		r.Seek(int64(len(sourcePrefix)), io.SeekStart)
		return r
	case 11:
		return io.NewSectionReader(bytes.NewReader(all), int64(len(sourcePrefix)), int64(len(s.b)))
	case 12: // something follows that is not the caller's to hand over
		return io.LimitReader(io.MultiReader(s, bytes.NewReader(sourcePrefix)), int64(len(s.b)))
	case 13:
		if f, err := os.CreateTemp("", "radosim"); err == nil {
			f.Write(all)
			f.Seek(int64(len(sourcePrefix)), io.SeekStart)
			s.file = f
			return f
		}
	case 14:
		if r, w, err := os.Pipe(); err == nil && len(s.b) < 60000 {
			w.Write(s.b)
			w.Close()
			s.file = r
			return r
		}
	}
	return s
}

// release gives back the file behind the source.
func (s *Source) release() {
	if s.file != nil {
		s.file.Close()
		if strings.HasPrefix(s.file.Name(), os.TempDir()) { // not a pipe
			os.Remove(s.file.Name())
		}
		s.file = nil
	}
}

// sourcePrefix lies before the position at which a positioned reader starts.
var sourcePrefix = []byte("RX010000100000115BY12VS 3SW   1.00.0PR E-01INT   5GP   1x   1MS  0\x03\x01")

type seekReader struct{ s *Source }

func (r *seekReader) Read(p []byte) (int, error) { return r.s.Read(p) }
func (r *seekReader) Close() error               { return r.s.Close() }
func (r *seekReader) Seek(off int64, whence int) (int64, error) {
	k, s := int64(len(sourcePrefix)), r.s
	switch whence {
	case io.SeekCurrent:
		off += int64(s.pos) + k
	case io.SeekEnd:
		off += int64(len(s.b)) + k
	}
	if off < 0 {
		return 0, syscall.EINVAL
	}
	if s.failed && s.d.FailAt < 0 {
		s.failed = false
	}
	s.pos = int(off - k)
	return off, nil
}

type lenReader struct {
	*bufio.Reader
	s *Source
}

func (r *lenReader) Len() int {
	if s := r.s; s.pos < len(s.b) {
		return len(s.b) - s.pos + r.Buffered()
	}
	return r.Buffered()
}
func (r *lenReader) Close() error { return r.s.Close() }
func (r *lenReader) Size() int64  { return int64(len(r.s.b)) }

// byteReader offers more than io.Reader.
type byteReader struct {
	s *Source
	b *bufio.Reader
}

func (b *byteReader) Read(p []byte) (int, error) { return b.b.Read(p) }
func (b *byteReader) ReadByte() (byte, error)    { return b.b.ReadByte() }
func (b *byteReader) Close() error               { return b.s.Close() }

func (s *Source) ev(kind string, n, m int) {
	if s.log != nil {
		s.log.Add(s.id, kind, n, m)
	}
}

func (s *Source) count(k string) {
	if s.st != nil {
		s.st.Fault[k]++
	}
}

func (s *Source) Read(p []byte) (int, error) {
	rt.Y()
	if s.sem != nil {
		select {
		case s.sem <- struct{}{}:
		default:
			s.overlap++
			s.sem <- struct{}{}
		}
		defer func() { <-s.sem }()
		rt.Y()
	}
	if s.over {
		s.late++
	}
	s.reads++
	if s.reads > s.limit {
		if rt.Foreign() {
			return 0, errOther
		}
		panic(ReadOverflow{})
	}
	if s.d.Slow > 0 {
		rt.Sleep(int64(s.d.Slow) * 1e6)
	}
	if !s.until.IsZero() && time.Now().After(s.until) {
		return 0, errKinds["timeout"]
	}
	if s.failed && !s.d.Recover {
		s.after++
		if s.after < 50 {
			s.ev("again", len(p), 0)
		}
		return 0, s.err()
	}
	if s.failed {
		s.after++
	}
	max := s.d.Tail
	for s.k < len(s.d.Cuts) {
		c := s.d.Cuts[s.k]
		s.k++
		if c < 0 {
			s.count("stall")
			s.ev("stall", c, 0)
			rt.Sleep(int64(-c) * 1e6)
			continue
		}
		if c == 0 {
			if s.empty < 40 {
				s.empty++
				s.count("empty_read")
				s.ev("empty", len(p), 0)
				return 0, nil
			}
			continue
		}
		max = c
		break
	}
	if s.d.Every > 0 && s.reads%s.d.Every == 0 && s.empty < 40 {
		s.empty++
		s.count("empty_read")
		s.ev("empty", len(p), 0)
		return 0, nil
	}
	if len(p) == 0 {
		return 0, nil
	}
	if s.pos < 0 { // before the start: a file that was positioned
		n := copy(p, sourcePrefix[len(sourcePrefix)+s.pos:])
		s.pos += n
		return n, nil
	}
	end := len(s.b)
	fail := s.d.FailAt >= 0 && s.d.FailAt < end && !s.failed
	if fail {
		end = s.d.FailAt
	}
	n := end - s.pos
	if n <= 0 { // end or failure
		if fail && s.d.Err == "silent" {
			s.ev("silent", s.pos, 0)
			s.count("silent")
			rt.Silent()
			panic(Blocked{})
		}
		if fail {
			s.failed = true
			s.count("fail_" + s.d.Err)
			s.ev("fail", s.pos, 0)
			return 0, s.err()
		}
		if s.d.Stay {
			s.ev("silent", s.pos, 0)
			s.count("silent")
			rt.Silent()
			panic(Blocked{})
		}
		s.failed = true
		s.ev("eof", s.pos, 0)
		return 0, io.EOF
	}
	if max > 0 && n > max {
		n = max
		s.count("short_read")
	}
	if n > len(p) {
		n = len(p)
	}
	copy(p, s.b[s.pos:s.pos+n])
	s.pos += n
	if s.d.Scrib && n < len(p) {
		s.count("scribble")
		q := p[n:]
		if len(q) > 64 {
			q = q[:64]
		}
		for i := range q {
			q[i] = 0xA5
		}
	}
	s.empty = 0
	s.ev("read", s.pos, n)
	if s.d.With && s.pos == end && !s.d.Stay && s.d.Err != "silent" {
		if fail {
			s.failed, s.withData = true, true
			s.count("fail_with_data_" + s.d.Err)
			s.ev("failwith", s.pos, n)
			return n, s.err()
		}
		if end == len(s.b) {
			s.failed, s.withData = true, true
			s.count("eof_with_data")
			s.ev("eofwith", s.pos, n)
			return n, io.EOF
		}
	}
	return n, nil
}

func (s *Source) err() error {
	if s.d.FailAt < 0 || s.pos >= len(s.b) {
		return io.EOF
	}
	if e, ok := errKinds[s.d.Err]; ok {
		return e
	}
	return errOther
}
