package main

import (
	"fmt"
	"strings"
	"time"
)

// Bad is damage that leaves a composite unintelligible: a field the result
// depends on cannot be read, is missing, or contradicts the rest. It is kept
// as a description, not as changed bytes, so that it stays what it is when the
// composite is shrunk.
type Bad struct {
	Kind string `json:"kind"`
	K    int    `json:"k,omitempty"`
	N    int    `json:"n,omitempty"`
	V    string `json:"v,omitempty"` // what the unreadable characters became
}

var badKinds = []string{"by", "noby", "time", "date", "vv", "int", "vs", "prec", "dims", "dim0", "nodims", "lvcount", "lvother", "lvvalue", "lvshort", "length", "run", "offset"}

// what becomes of characters: no letters, no digits, no signs, no line ends
const badChars = "?*;:=#!~ \x00\xff\x7f?"

// GenBad draws damage that applies to the composite.
func GenBad(r *Rng, c *Comp) *Bad {
	for k := 0; k < 20; k++ {
		b := &Bad{Kind: pick(r, badKinds...), K: r.N(1 << 20), N: r.N(1 << 20)}
		n := 1
		if r.P(1, 3) {
			n = 4
		}
		for i := 0; i < n; i++ {
			b.V += string(rune(badChars[r.N(len(badChars)-1)]))
		}
		if r.P(1, 8) {
			b.V = " "
		}
		if _, _, ok := b.apply(c, c.Header(), c.rows()); ok {
			return b
		}
	}
	return &Bad{Kind: "by", V: "?"}
}

// apply damages the header and the rows; ok tells whether there was anything
// to damage.
func (b *Bad) apply(c *Comp, h string, rows [][]byte) (string, [][]byte, bool) {
	v := []byte(nil)
	for _, x := range b.V {
		v = append(v, byte(x))
	}
	if len(v) == 0 {
		v = []byte("?")
	}
	junk := func(n int) string {
		s := make([]byte, n)
		for i := range s {
			s[i] = v[i%len(v)]
		}
		return string(s)
	}
	// puts t in place of the n bytes at offset o of the field f
	sub := func(f string, o, n int, t string) bool {
		i := strings.Index(h[17:], f)
		if f == "" || i < 0 {
			return false
		}
		i += 17
		h = h[:i+o] + t + h[i+o+n:]
		return true
	}
	byl := len(h[19:]) - len(strings.TrimLeft(h[19:], " 0123456789")) // width of the length field
	by := func(n int) bool {
		s := fmt.Sprintf("%*d", byl, n)
		if len(s) > byl {
			return false
		}
		h = h[:19] + s + h[19+byl:]
		return true
	}
	size := 1
	if c.Enc == LE {
		size = 2
	}
	ok := false
	switch b.Kind {
	case "by":
		h, ok = h[:19]+junk(byl)+h[19+byl:], true
	case "noby":
		h, ok = h[:17]+"QN"+h[19:], true
	case "time": // some of the characters
		t := []byte(h)
		at := []int{2, 3, 4, 5, 6, 7, 13, 14, 15, 16}
		m := b.K
		if m&1023 == 0 || b.N%2 == 0 {
			m = 1 << (b.N / 2 % 10)
		}
		for i, o := range at {
			if m>>i&1 != 0 {
				t[o] = v[i%len(v)]
			}
		}
		h, ok = string(t), true
	case "date": // a time that never was
		day, hour, minute, month := c.Day, c.Hour, c.Minute, c.Month
		switch b.K % 6 {
		case 0:
			day = 0
		case 1:
			day = 32 + b.N%68
		case 2: // the month is not that long
			day = time.Date(2000+c.Year, time.Month(c.Month)+1, 0, 0, 0, 0, 0, time.UTC).Day() + 1
		case 3:
			hour = 24 + b.N%76
		case 4:
			minute = 60 + b.N%40
		case 5:
			month = []int{0, 13, 13 + b.N%87}[b.N%3]
		}
		h, ok = h[:2]+fmt.Sprintf("%02d%02d%02d", day, hour, minute)+h[8:13]+fmt.Sprintf("%02d", month)+h[15:], true
	case "vv":
		ok = sub(c.vv(), 2, 4, junk(4))
	case "int":
		ok = sub(c.intv(), 3, 4, junk(4))
	case "vs":
		ok = sub(c.vs(), 2, 2, junk(2))
	case "prec":
		if b.K%2 == 0 {
			ok = sub(c.prec(), 4, 3, junk(3))
		} else { // the sign is still there
			ok = sub(c.prec(), 5, 2, junk(2))
		}
	case "dims":
		if c.Local {
			break
		}
		n, x := 4, 1
		if c.DimTok == "BG" {
			n, x = 3, 0
		}
		switch b.K % 4 {
		case 0: // the height
			ok = sub(c.dims(), 2, n, junk(n))
		case 1: // the width
			ok = sub(c.dims(), 2+n+x, n, junk(n))
		case 2:
			ok = sub(c.dims(), 2, 2*n, junk(2*n))
		case 3:
			if x == 1 { // what is between them
				if v[0] == ' ' {
					v[0] = '?'
				}
				ok = sub(c.dims(), 2+n, 1, junk(1))
			}
		}
		if c.DimTok == "BG" && ok && strings.TrimLeft(string(v), "?*;:=#!~\x00\xff\x7f") != "" {
			ok = false // digits and blanks side by side are read in many ways
		}
	case "dim0":
		if c.Local {
			break
		}
		o := *c
		switch b.K % 4 {
		case 0:
			o.Dx = 0
		case 1:
			o.Dy = 0
		case 2:
			o.Dx, o.Dy = 0, 0
		case 3:
			o.Dx, o.Dy = -c.Dx, -c.Dy
		}
		if len(o.dims()) != len(c.dims()) {
			break
		}
		ok = sub(c.dims(), 0, len(c.dims()), o.dims())
		if c.Enc != RL {
			ok = ok && by(len(h)+o.Dx*o.Dy*size)
		}
	case "nodims":
		if _, local := modelLocal[c.Product]; local || c.Local {
			break
		}
		n := len(c.dims())
		ok = sub(c.dims(), 0, n, "QN"+strings.Repeat("0", n-2))
	case "lvcount":
		ok = sub(c.levels(), 2, 2, junk(2))
	case "lvother": // another number of levels than follow
		n := b.K%109 - 9
		if n == len(c.Level) {
			n++
		}
		ok = n < 100 && sub(c.levels(), 2, 2, fmt.Sprintf("%2d", n))
	case "lvvalue":
		if len(c.Level) > 0 {
			ok = sub(c.levels(), 4+5*(b.K%len(c.Level)), 5, junk(5))
		}
	case "lvshort":
		if n := 1 + b.K%5; len(c.Level) > 0 {
			ok = sub(c.levels(), 4+5*len(c.Level)-n, n, "")
		}
	case "length": // of no encoding
		if c.Enc == RL {
			break
		}
		cells := c.Dx * c.Dy
		n := []int{0, -1, 1, cells - 1, cells + 1, 2*cells - 1, 2*cells + 1, 3 * cells, 4 * cells, 2*cells + 2, cells + b.N%(cells+5), b.N % (4*cells + 9), -len(h)}[b.K%13]
		if n == cells || n == 2*cells {
			break
		}
		if ok = by(len(h) + n); ok {
			if more := n - cells*size; more > 0 { // they are there
				r := NewRng(c.Cells, 91)
				var t []byte
				for ; more > 0; more-- {
					t = append(t, byte(r.U64()))
				}
				rows = append(rows[:len(rows):len(rows)], t)
			}
		}
	case "run": // out of the grid
		if c.Enc != RL {
			break
		}
		rows = append([][]byte(nil), rows...)
		i := b.K % len(rows)
		w := append([]byte(nil), rows[i][:len(rows[i])-1]...)
		if len(w) == 1 {
			w = append(w, 16)
		}
		x, k := 0, 1
		for ; w[k] == 255; k++ {
			x += 239
		}
		x += int(w[k]) - 16
		for _, t := range w[k+1:] {
			x += int(t >> 4)
		}
		more := c.Dx + 1 - x
		if b.N%3 == 0 {
			more += b.N / 3 % 30
		}
		for more > 0 {
			n := more
			if n > 15 {
				n = 15
			}
			w = append(w, byte(n<<4)|byte(b.N%16))
			more -= n
		}
		rows[i], ok = append(w, '\n'), true
	case "offset": // below the smallest one
		if c.Enc != RL {
			break
		}
		rows = append([][]byte(nil), rows...)
		i := b.K % len(rows)
		w := append([]byte(nil), rows[i]...)
		k := 1
		for w[k] == 255 {
			k++
		}
		if w[k] == '\n' {
			break
		}
		w[k] = byte(b.N % 16)
		if w[k] == '\n' {
			w[k] = 15
		}
		rows[i], ok = w, true
	}
	return h, rows, ok
}

// damaged tells whether its damage applies to the composite.
func (c *Comp) damaged() bool {
	if c.Bad == nil {
		return false
	}
	_, _, ok := c.Bad.apply(c, c.Header(), c.rows())
	return ok
}

func genC24(r *Rng, p *Plan) {
	p.Tasks = [][]Op{{}}
	if r.P(1, 60) {
		a := GenArchive(r, 5, false)
		if len(a.Members) > 0 {
			c := a.Members[r.N(len(a.Members))]
			c.Bad = GenBad(r, c)
			in := &Input{Arch: a}
			p.Inputs = []*Input{in}
			b, m := in.Bytes()
			d := GenDelivery(r, len(b), m)
			p.Tasks[0] = append(p.Tasks[0], Op{K: "archive", D: &d})
			return
		}
	}
	sz := pickSize(r, false)
	if r.P(1, 300) {
		sz = pick(r, szGrid, szLocal3)
	}
	c := GenComp(r, sz)
	if r.P(1, 5) && !c.Local {
		c.Product = unknownProduct(r)
	}
	whole := *c
	c.Bad = GenBad(r, c)
	p.Inputs = []*Input{{Comp: c}, {Comp: &whole}}
	for k := r.R(1, 4); k > 0; k-- {
		i := 0
		if r.P(1, 3) { // the undamaged one, before and in between
			i = 1
		}
		b, m := p.Inputs[i].Bytes()
		d := GenDelivery(r, len(b), m)
		if r.P(1, 10) && len(b) > 0 {
			GenFail(r, &d, len(b), m)
		}
		p.Tasks[0] = append(p.Tasks[0], Op{K: "parse", In: i, D: &d})
	}
	b, m := p.Inputs[0].Bytes()
	d := GenDelivery(r, len(b), m)
	p.Tasks[0] = append(p.Tasks[0], Op{K: "parse", D: &d})
}

// C24: what cannot be understood is rejected.
func (e *execution) c24() {
	for _, op := range e.p.Tasks[0] {
		in := e.p.Inputs[op.In]
		var bad *Comp
		var o *Outcome
		if in.Arch != nil {
			for _, c := range in.Arch.Members {
				if c.damaged() {
					bad = c
				}
			}
			o = e.archive(in, op.D, op.In)
		} else {
			if in.Comp.damaged() {
				bad = in.Comp
			}
			o = e.parse(in, op.D, op.In)
		}
		if bad == nil { // the others are judged elsewhere
			e.st.Probe["whole"]++
			continue
		}
		e.nontrivial = true
		e.st.Probe["bad_"+bad.Bad.Kind]++
		if in.Arch != nil {
			e.st.Probe["in_archive"]++
		}
		switch o.Class {
		case "error":
		case "ok", "unknown-unit":
			e.fail("guessed", "%s composite with damaged %s was not rejected: %s", bad.Product, badText[bad.Bad.Kind], o.Class)
			return
		default:
			e.fail("bad-"+o.Class, "%s composite with damaged %s ended with %s %s", bad.Product, badText[bad.Bad.Kind], o.Class, o.Text)
			return
		}
	}
}

var badText = map[string]string{
	"by": "length field (unreadable)", "noby": "length field (missing)", "time": "capture time (unreadable)", "date": "capture time (impossible)",
	"vv": "forecast time (unreadable)", "int": "interval (unreadable)", "vs": "format version (unreadable)", "prec": "precision (unreadable)",
	"dims": "dimensions (unreadable)", "dim0": "dimensions (no grid)", "nodims": "dimensions (missing)", "lvcount": "number of levels (unreadable)",
	"lvother": "number of levels (not the number that follows)", "lvvalue": "level (unreadable)", "lvshort": "levels (cut)",
	"length": "length field (fits no encoding)", "run": "run length (leaves the grid)", "offset": "run length offset (below the smallest one)",
}
