package main

import (
	"fmt"
	"math"
	"strings"

	"radosim/rt"
)

var propNo = map[string]uint64{"C01": 1, "C02": 2, "C03": 3, "C04": 4, "C05": 5, "C06": 6, "C07": 7, "C08": 8, "C09": 9, "C10": 10, "C11": 11, "C12": 12, "C13": 13, "C14": 14, "C15": 15, "C16": 16, "C17": 17, "C21": 21, "C22": 22, "C23": 23, "C24": 24}

// GenPlan derives the plan of run i from the seed, and from nothing else.
func GenPlan(prop string, seed uint64, i int) *Plan {
	r := NewRng(seed, propNo[prop], uint64(i))
	p := &Plan{Prop: prop, Seed: seed, Index: i}
	if r.P(1, 3) {
		p.TZ = r.N(len(zones))
	}
	switch prop {
	case "C01":
		in := genAny(r)
		p.Inputs = []*Input{in}
		b, m := in.Bytes()
		n := r.R(2, 5)
		if len(b) > 100000 {
			n = 1
		}
		p.Tasks = [][]Op{{}}
		for k := 0; k < n; k++ {
			d := GenDelivery(r, len(b), m)
			p.Tasks[0] = append(p.Tasks[0], Op{K: "parse", D: &d})
		}
	case "C02", "C03":
		c := GenComp(r, pickSize(r, true))
		if prop == "C03" && r.P(1, 6) {
			c = GenComp(r, szGrid)
			if r.P(1, 2) {
				c.Dx, c.Dy = 0, 0
				g := modelGrids[r.N(5)]
				x, y := g[0], g[1]
				for x&1 == 0 && y&1 == 0 {
					x, y = x/2, y/2
				}
				c.Dx, c.Dy = x, y
			}
		}
		in := &Input{Comp: c}
		p.Inputs = []*Input{in}
		b, m := in.Bytes()
		p.Tasks = [][]Op{{}}
		n := r.R(1, 2)
		if len(b) > 100000 {
			n = 1
		}
		for ; n > 0; n-- {
			d := GenDelivery(r, len(b), m)
			p.Tasks[0] = append(p.Tasks[0], Op{K: "parse", D: &d})
		}
	case "C04", "C07", "C13":
		sz := pickSize(r, false)
		if r.P(1, 300) {
			sz = szGrid
		}
		c := GenComp(r, sz)
		if prop == "C13" && r.P(3, 4) && !c.Local || prop == "C04" && r.P(1, 4) && !c.Local {
			c.Product = unknownProduct(r)
		}
		in := &Input{Comp: c}
		p.Inputs = []*Input{in}
		b, m := in.Bytes()
		p.Tasks = [][]Op{{}}
		n := r.R(2, 6)
		if len(b) > 50000 {
			n = 2
		}
		for ; n > 0; n-- {
			d := GenDelivery(r, len(b), m)
			if prop == "C04" || prop == "C07" && r.P(1, 2) || prop == "C13" && r.P(1, 2) {
				lim := len(b)
				if prop == "C13" && c.Enc == RL { // the last delimiter carries no data
					lim--
				}
				GenFail(r, &d, lim, m)
			} else if prop == "C07" {
				d.Stay = true
			}
			p.Tasks[0] = append(p.Tasks[0], Op{K: "parse", D: &d})
		}
	case "C05":
		in := genDamaged(r)
		p.Inputs = []*Input{in}
		b, m := in.Bytes()
		p.Tasks = [][]Op{{}}
		k := "parse"
		if in.Arch != nil {
			k = "archive"
		}
		d := GenDelivery(r, len(b), m)
		if r.P(1, 4) && len(b) > 0 {
			GenFail(r, &d, len(b), m)
		}
		p.Tasks[0] = append(p.Tasks[0], Op{K: k, D: &d})
	case "C06":
		p.Tasks = [][]Op{{}}
		for k := r.R(1, 4); k > 0; k-- {
			if r.P(1, 4) {
				d := func() int {
					return pick(r, 0, 1, -1, -900, 900, 450, 1100, 1200, 550, 600, 1400, 1500, 460, 920, 200, 2400, r.R(-5, 5), r.N(3000), 1<<20, 1<<40)
				}
				x, y := d(), d()
				if r.P(1, 2) {
					g := modelGrids[r.N(5)]
					x, y = g[0], g[1]
					for r.P(1, 2) && x&1 == 0 && y&1 == 0 {
						x, y = x/2, y/2
					}
				}
				p.Tasks[0] = append(p.Tasks[0], Op{K: "dummy", S: pick(r, "", "WN", "SF", "PX", "XX"), A: pick(r, 0, 3, 4, 5, 6, -1), B: x, C: y, F: float64(r.N(1 << 30))})
				continue
			}
			sz := pickSize(r, false)
			if r.P(1, 150) {
				sz = pick(r, szLocal3, szGrid)
			}
			c := GenComp(r, sz)
			if r.P(1, 6) && !c.Local {
				c.Product = unknownProduct(r)
			}
			in := &Input{Comp: c}
			if r.P(1, 4) {
				b, m := in.Bytes()
				in.bytes = nil
				in.Muts = genMuts(r, len(b), m)
			}
			p.Inputs = append(p.Inputs, in)
			b, m := in.Bytes()
			d := GenDelivery(r, len(b), m)
			if r.P(1, 2) && len(b) > 0 {
				GenFail(r, &d, len(b), m)
			}
			p.Tasks[0] = append(p.Tasks[0], Op{K: "parse", In: len(p.Inputs) - 1, D: &d, A: r.N(1 << 30)})
		}
	case "C08":
		a := GenArchive(r, 12, r.P(1, 60))
		in := &Input{Arch: a}
		p.Inputs = []*Input{in}
		b, m := in.Bytes()
		p.Tasks = [][]Op{{}}
		for k := r.R(1, 2); k > 0; k-- {
			d := GenDelivery(r, len(b), m)
			p.Tasks[0] = append(p.Tasks[0], Op{K: "archive", D: &d, A: r.N(2)})
		}
	case "C09":
		in := &Input{Arch: GenArchive(r, 6, false)}
		p.Inputs = []*Input{in}
		a := in.Arch
		kind := r.N(8)
		if kind == 0 && len(a.Members) > 0 {
			a.CutMem = r.N(len(a.Members))
			b, m := a.Members[a.CutMem].Bytes()
			// at least one data byte is missing
			a.CutLen = pick(r, 2, 2, r.R(2, len(b)), len(b)-m[r.N(len(m)-1)])
			if a.CutLen < 2 {
				a.CutLen = 2
			}
			if r.P(1, 4) {
				a.Junk = r.R(1, 3)
			}
		} else if kind == 2 && len(a.Members) > 0 && r.P(2, 3) { // one byte of a header of the archive
			t, m := a.Tar()
			at := pick(r, m[len(m)-2], m[len(m)-1]) // the end marker
			if r.P(5, 6) {
				i := 3 * r.N(len(a.Members))
				at = pick(r, m[i], m[i+1]-512, m[i+1]-512)
			}
			at += pick(r, r.N(512), r.N(512), 148+r.N(9), 124+r.N(12), r.N(4))
			v := pick(r, 0, ' ', '0', '7', t[at]^1, t[at]^128, byte(r.N(256)))
			if v == t[at] {
				v++
			}
			a.TarMuts = []Mut{{Op: "set", Off: at, V: []byte{v}}}
		} else if kind == 1 && len(a.Members) > 0 {
			t, m := a.Tar()
			a.CutTar = r.R(1, len(t))
			if r.P(1, 2) {
				a.CutTar = len(t) - m[r.N(len(m))] + r.R(-1, 1)
			}
		}
		b, m := in.Bytes()
		p.Tasks = [][]Op{{}}
		d := GenDelivery(r, len(b), m)
		switch {
		case kind < 2 || a.TarMuts != nil: // damage is inside
		case kind < 5:
			GenFail(r, &d, len(b), m)
			if r.P(1, 2) {
				d.FailAt = r.N(len(b))
			} else if len(m) > 7 && r.P(1, 2) { // between two streams
				d.FailAt = m[6+r.N(len(m)-7)]
			}
		default:
			var ms []Mut
			for k := r.Small(1, 4); k > 0; k-- {
				switch r.N(6) {
				case 0, 1, 2:
					ms = append(ms, Mut{Op: "flip", Off: r.N(len(b)), N: r.N(8)})
				case 3:
					ms = append(ms, Mut{Op: "set", Off: r.N(len(b)), V: randBytes(r, r.R(1, 4))})
				case 4:
					ms = append(ms, Mut{Op: "zero", Off: r.N(len(b)) &^ 15, N: 16})
				case 5:
					ms = append(ms, Mut{Op: pick(r, "del", "dup"), Off: r.N(len(b)), N: r.R(1, 40)})
				}
			}
			in.Muts = ms
			in.bytes = nil
		}
		p.Tasks[0] = append(p.Tasks[0], Op{K: "archive", D: &d})
	case "C10":
		genC10(r, p)
	case "C11":
		genC11(r, p)
	case "C12":
		genC12(r, p)
	case "C14", "C15", "C16", "C17":
		genWPlan(r, p)
	case "C21":
		genC21(r, p)
	case "C22":
		genC22(r, p)
	case "C23":
		genC23(r, p)
	case "C24":
		genC24(r, p)
	}
	return p
}

func randBytes(r *Rng, n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(r.U64())
	}
	return b
}

// genMuts damages stored bytes of a composite file.
func genMuts(r *Rng, n int, marks []int) []Mut {
	var ms []Mut
	off := func() int {
		switch r.N(4) {
		case 0:
			return r.N(n)
		case 1:
			m := marks[r.N(len(marks))] + r.R(-2, 2)
			if m < 0 {
				m = 0
			}
			return m
		}
		return r.N(marks[0] + 1) // the header is where it hurts
	}
	for k := r.Small(1, 5); k > 0; k-- {
		switch r.N(9) {
		case 0, 1:
			ms = append(ms, Mut{Op: "flip", Off: off(), N: r.N(8)})
		case 2:
			ms = append(ms, Mut{Op: "set", Off: off(), V: randBytes(r, r.R(1, 3))})
		case 3:
			ms = append(ms, Mut{Op: "set", Off: off(), V: []byte(pick(r, "-", "9", "0", " ", "x", "E", "A", "LV", "\x03", "\n", "999", "-1", "GP", "BY", "+", ".", "\xff", "Ä"))})
		case 4:
			ms = append(ms, Mut{Op: "ins", Off: off(), V: []byte(pick(r, "-", "9", "99999", "0", " ", "\x03", "\n", "LV 0", "LV 1  1.0", "GP 100x 100", "BG-99-99", "GP-5x-7", "E", "Ä", "\xc3", "VV", "INT", "VS", "GP99999999x99999999"))})
		case 5:
			ms = append(ms, Mut{Op: "del", Off: off(), N: r.R(1, 12)})
		case 6:
			ms = append(ms, Mut{Op: "dup", Off: off(), N: r.R(1, 40)})
		case 7:
			ms = append(ms, Mut{Op: "trunc", Off: off()})
		case 8:
			ms = append(ms, Mut{Op: "zero", Off: off(), N: r.R(1, 32)})
		}
	}
	return ms
}

// headerAttack rewrites one header field with a hostile value.
func headerAttack(r *Rng, c *Comp) []Mut {
	h := c.Header()
	num := func() string {
		return pick(r, "0", "-1", "-5", "99999", "1000000", "2147483647", "4294967296", "9223372036854775807", "-9223372036854775808",
			"1073741824", "65536", "46341", "3037000500", "9999", "10000", "00000", "1", "18446744073709551617", fmt.Sprint(r.N(12000)))
	}
	find := func(tok string, n int) (int, bool) {
		for i := 17; i+len(tok) <= len(h); i++ {
			if h[i:i+len(tok)] == tok && i+len(tok)+n <= len(h) {
				return i + len(tok), true
			}
		}
		return 0, false
	}
	var ms []Mut
	for _, t := range []struct {
		tok string
		n   int
	}{{"GP", 9}, {"BG", 6}, {"BY", 7}, {"LV", 2}, {"VV", 4}, {"INT", 4}, {"VS", 2}, {"PR E", 3}} {
		if o, ok := find(t.tok, t.n); ok && (r.P(1, 4) || t.tok == "GP" && r.P(1, 2) || t.tok == "BG" && r.P(1, 2)) {
			v := num()
			switch t.tok {
			case "GP":
				v = num() + "x" + num()
				if r.P(1, 3) { // consistent with the stated length
					a := pick(r, 1, 1, 1000, 100000, 1<<30, 1<<40, 1<<47)
					v = pick(r, fmt.Sprintf("%dx1", a), fmt.Sprintf("1x%d", a), fmt.Sprintf("%dx%d", a, a))
				}
			case "BG":
				v = pick(r, "-10-10", "-1-1", "000000", "999999", " -5 -5", "001999", "-99-99", "  0  5")
			}
			ms = append(ms, Mut{Op: "rep", Off: o, N: t.n, V: []byte(v)})
			break
		}
	}
	if r.P(1, 4) && len(ms) == 0 {
		ms = append(ms, Mut{Op: "rep", Off: len(h) - 1, N: 0, V: []byte(pick(r, "LV 1  1.0", "LV 0", "LV", "GP", "VV", "BG", "INT", "E", "LV99", "LV-1", "VS"))})
	}
	return ms
}

// leaveOut replaces a field of the header by one that says nothing and is as
// long.
func leaveOut(r *Rng, c *Comp) []Mut {
	h := c.Header()
	t := pick(r, [][2]string{{"dims", c.dims()}, {"dims", c.dims()}, {"BY", ""}, {"LV", c.levels()}, {"PR", c.prec()}, {"VS", c.vs()},
		{"INT", c.intv()}, {"VV", c.vv()}}...)[1]
	if t == "" {
		t = "BY" + h[19:19+len(h[19:])-len(strings.TrimLeft(h[19:], " 0123456789"))]
	}
	i := strings.Index(h, t)
	if i < 0 || len(t) < 3 {
		return []Mut{{Op: "rep", Off: 17, N: 2, V: []byte("QN")}}
	}
	return []Mut{{Op: "rep", Off: i, N: len(t), V: []byte("QN" + strings.Repeat("0", len(t)-2))}}
}

// genAny draws a stream, mostly well-formed.
func genAny(r *Rng) *Input {
	switch r.N(10) {
	case 0, 1:
		return genDamagedComp(r)
	case 2:
		return &Input{Noise: r.U64(), Len: r.Small(0, 6000)}
	case 3:
		c := GenComp(r, pickSize(r, false))
		if !c.Local {
			c.Product = unknownProduct(r)
		}
		return &Input{Comp: c}
	}
	return &Input{Comp: GenComp(r, pickSize(r, true))}
}

func genDamagedComp(r *Rng) *Input {
	c := GenComp(r, pickSize(r, false))
	in := &Input{Comp: c}
	if r.P(1, 6) {
		c.Bad = GenBad(r, c)
		return in
	}
	if r.P(1, 2) {
		in.Muts = headerAttack(r, c)
	}
	if len(in.Muts) == 0 || r.P(1, 3) {
		b, m := (&Input{Comp: c}).Bytes()
		in.Muts = append(in.Muts, genMuts(r, len(b), m)...)
	}
	return in
}

// genDamaged draws a damaged composite, archive or noise.
func genDamaged(r *Rng) *Input {
	switch r.N(12) {
	case 0:
		return &Input{Noise: r.U64(), Len: r.Small(0, 9000)}
	case 1, 2:
		a := GenArchive(r, 4, false)
		in := &Input{Arch: a}
		if r.P(1, 2) { // damage below the compression
			b, _ := a.Tar()
			marks := []int{100, 512, 700}
			if len(b) > 0 {
				a.TarMuts = genMuts(r, len(b), marks)
			}
		}
		if r.P(2, 3) {
			b, m := (&Input{Arch: a}).Bytes()
			in.Muts = genMuts(r, len(b), m)
		}
		return in
	case 3:
		in := &Input{Arch: GenArchive(r, 2, false)}
		if len(in.Arch.Members) > 0 { // a hostile member
			c := in.Arch.Members[0]
			h := len(c.Header())
			ms := headerAttack(r, c)
			if len(ms) == 0 {
				ms = genMuts(r, h, []int{h})
			}
			for _, m := range ms {
				if m.Op == "rep" && len(m.V) == m.N || m.Op == "set" || m.Op == "flip" {
					m.Off += 512
					if in.Arch.Format%3 == 2 {
						m.Off += 1024
					}
					in.Arch.TarMuts = append(in.Arch.TarMuts, m)
				}
			}
		}
		return in
	}
	return genDamagedComp(r)
}

func genSched(r *Rng, n, est int) []rt.Slice {
	var s []rt.Slice
	switch r.N(4) {
	case 0: // few switches at arbitrary points
		for k := r.R(1, 6); k > 0; k-- {
			s = append(s, rt.Slice{T: r.N(n), Q: int64(r.R(1, est))})
		}
	case 1: // fine grained
		q := pick(r, 1, 2, 3, 5, 10)
		for k := r.R(20, 1500); k > 0; k-- {
			s = append(s, rt.Slice{T: r.N(n), Q: int64(r.R(1, q))})
		}
	case 2: // medium
		q := pick(r, 20, 50, 100, 300)
		for k := r.R(5, 200); k > 0; k-- {
			s = append(s, rt.Slice{T: r.N(n), Q: int64(r.R(1, q))})
		}
	default: // one long run, then bursts of switches
		s = append(s, rt.Slice{T: r.N(n), Q: int64(r.R(1, est))})
		for k := r.R(5, 100); k > 0; k-- {
			s = append(s, rt.Slice{T: r.N(n), Q: int64(r.Small(1, 40))})
		}
	}
	return s
}

func genC10(r *Rng, p *Plan) {
	n := r.R(2, 4)
	arch := r.P(1, 10)
	size := func() int {
		switch {
		case r.P(1, 60):
			return szLocal
		case r.P(1, 25):
			return szWide
		case r.P(1, 6):
			return szSmall
		}
		return szTiny
	}
	twin := r.P(1, 3) // the same shape in all tasks: shared caches by shape collide
	var base *Comp
	est := 0
	for t := 0; t < n; t++ {
		var ops []Op
		for k := r.R(1, 3); k > 0; k-- {
			var in *Input
			kind := "parse"
			switch {
			case arch && r.P(1, 2):
				in = &Input{Arch: GenArchive(r, 3, false)}
				kind = "archive"
			case r.P(1, 10):
				in = genDamagedComp(r)
			default:
				c := GenComp(r, size())
				if twin && base != nil && r.P(3, 4) {
					b := *base
					b.Cells, b.Fill = r.U64(), r.N(4)
					if r.P(1, 2) {
						b.VV = ip(5 * r.N(30))
					}
					if b.Enc == RL && r.P(1, 2) && len(b.Level) > 0 {
						l := append([]int(nil), b.Level...)
						for i := range l {
							l[i] += r.N(3)
						}
						b.Level = l
					}
					c = &b
				}
				if base == nil {
					base = c
				}
				in = &Input{Comp: c}
			}
			b, m := in.Bytes()
			d := GenDelivery(r, len(b), m)
			if r.P(1, 6) && len(b) > 0 {
				GenFail(r, &d, len(b), m)
				if r.P(1, 3) {
					d.Err, d.Recover = "silent", false
				}
			}
			est += 1500 + 10*cellsOf(in)
			p.Inputs = append(p.Inputs, in)
			ops = append(ops, Op{K: kind, In: len(p.Inputs) - 1, D: &d})
		}
		p.Tasks = append(p.Tasks, ops)
	}
	p.Sched = genSched(r, n, est/n+1)
}

func genC11(r *Rng, p *Plan) {
	for k := r.R(1, 3); k > 0; k-- {
		if r.P(1, 2) {
			p.Inputs = append(p.Inputs, &Input{Len: r.N(len(dummies)), Noise: 1})
		} else {
			sz := szTiny
			if r.P(1, 8) {
				sz = szSmall
			}
			if r.P(1, 100) {
				sz = szGrid
			}
			c := GenComp(r, sz)
			p.Inputs = append(p.Inputs, &Input{Comp: c})
		}
	}
	n := r.R(2, 4)
	focus := r.N(12) // often all tasks use the same kind of operation
	est := 0
	for t := 0; t < n; t++ {
		var ops []Op
		for k := r.R(1, 8); k > 0; k-- {
			o := Op{Obj: r.N(len(p.Inputs)), A: r.R(-1, 9), B: r.R(0, 9), C: r.N(2), F: 46 + 9*float64(r.N(1000))/1000, G: 5 + 10*float64(r.N(1000))/1000}
			kinds := []string{"project", "at", "atz", "unit", "image", "imagecustom", "colour", "rate", "refl", "zr", "dummy", "project"}
			o.K = kinds[r.N(len(kinds))]
			if r.P(1, 2) {
				o.K = kinds[focus]
			}
			switch o.K {
			case "image":
				o.A = pick(r, 0, 0, 0, 1, -1)
				est += 50 * cellsOf(p.Inputs[o.Obj])
			case "imagecustom":
				o.A = 0
				o.F, o.G = float64(r.N(20))+0.5, float64(r.R(30, 100))
				est += 50 * cellsOf(p.Inputs[o.Obj])
			case "colour", "rate", "refl":
				o.F = float64(r.R(-400, 1500)) / 10
				if r.P(1, 8) {
					o.F = math.Abs(o.F) + 0.5
				}
			case "zr":
				o.F, o.G = float64(r.R(100, 400)), float64(r.R(11, 22))/10
			case "dummy":
				o.B = r.N(len(dummies))
			}
			est += 60
			ops = append(ops, o)
		}
		p.Tasks = append(p.Tasks, ops)
	}
	p.Sched = genSched(r, n, est/n+1)
}

func genC12(r *Rng, p *Plan) {
	n := r.Small(3, 24)
	ni := r.R(1, 4)
	for i := 0; i < ni; i++ {
		switch {
		case r.P(1, 10):
			p.Inputs = append(p.Inputs, &Input{Arch: GenArchive(r, 3, false)})
		case r.P(1, 8):
			p.Inputs = append(p.Inputs, genDamagedComp(r))
		default:
			sz := szTiny
			if r.P(1, 6) {
				sz = pickSize(r, false)
			}
			if r.P(1, 80) {
				sz = szLocal3
			} else if r.P(1, 40) {
				sz = szGrid
			}
			c := GenComp(r, sz)
			if !c.Local && r.P(1, 8) { // a picture product that states its dimensions
				c.Product = pick(r, localProducts...)
			}
			if r.P(1, 25) {
				c = GenComp(r, szLocal)
			}
			if i > 0 && p.Inputs[0].Valid() && r.P(1, 3) { // same shape, other contents
				b := *p.Inputs[0].Comp
				b.Cells, b.Fill = r.U64(), r.N(4)
				if !b.Local && r.P(1, 3) {
					b.Product = pick(r, compositeMM...)
				}
				if !b.Local && r.P(1, 3) {
					b.VS = ip(pick(r, 3, 5))
				}
				c = &b
			}
			if r.P(1, 8) && !c.Local {
				c.Product = unknownProduct(r)
			}
			in := &Input{Comp: c}
			if i > 0 && p.Inputs[0].Valid() && r.P(1, 4) { // an earlier one, a field of its header left out
				b := *p.Inputs[0].Comp
				if r.P(1, 2) {
					b.Cells = r.U64()
				}
				in = &Input{Comp: &b, Muts: leaveOut(r, &b)}
			}
			p.Inputs = append(p.Inputs, in)
		}
	}
	var ops []Op
	for k := 0; k < n; k++ {
		switch r.N(10) {
		case 0, 1, 2, 3:
			i := r.N(ni)
			in := p.Inputs[i]
			b, m := in.Bytes()
			d := GenDelivery(r, len(b), m)
			if r.P(1, 3) && len(b) > 0 {
				GenFail(r, &d, len(b), m)
			}
			o := Op{K: "parse", In: i, D: &d}
			if in.Arch != nil {
				o.K = "archive"
			}
			ops = append(ops, o)
		case 4:
			ops = append(ops, Op{K: "scribble", Obj: r.N(20), A: r.N(1000), B: r.N(4)})
		case 5:
			ops = append(ops, Op{K: "read", Obj: r.N(20), A: r.R(-2, 8), B: r.R(-2, 8), C: r.R(-1, 2)})
		case 6:
			ops = append(ops, Op{K: "tz", A: r.N(len(zones))})
		case 7, 8:
			a := historyArgs[r.N(len(historyArgs))]
			ops = append(ops, Op{K: "dummy", B: r.N(len(dummies)), F: a[0], G: a[1]})
		default:
			a := historyArgs[r.N(len(historyArgs))]
			ops = append(ops, Op{K: pick(r, "colour", "rate", "refl"), B: r.N(8), F: a[0], G: a[1]})
		}
	}
	p.Tasks = [][]Op{ops}
}
