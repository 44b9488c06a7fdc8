package main

import (
	"fmt"
	"math"
	"time"
)

// The reference model: what a RADOLAN composite means, written from the format
// description, independent of the code under test.

// Encodings of the data section.
const (
	LE = "le" // two bytes per cell
	SB = "sb" // one byte per cell
	RL = "rl" // run length
)

// Comp describes one well-formed composite. Bytes and expectation are both
// derived from it.
type Comp struct {
	Product string `json:"product"`
	Enc     string `json:"enc"`
	Local   bool   `json:"local,omitempty"` // dimensions come from the product, not from the header
	Dx      int    `json:"dx"`              // plain width
	Dy      int    `json:"dy"`              // plain height
	DimTok  string `json:"dimtok"`          // GP or BG

	Day, Hour, Minute, Month, Year int
	WMO                            string

	Prec  *int  `json:"prec,omitempty"`
	VS    *int  `json:"vs,omitempty"`
	INT   *int  `json:"int,omitempty"`
	VV    *int  `json:"vv,omitempty"`
	Level []int `json:"level"` // tenths; nil: no level table
	MSlen int   `json:"mslen"` // number of stations named in the header
	Style int   `json:"style"` // spelling variants of the header

	Cells uint64 `json:"cells"` // seed of the cell contents
	Fill  int    `json:"fill"`  // kind of contents

	Bad *Bad `json:"bad,omitempty"` // damage
}

type unit int

const (
	uNone unit = iota
	uMM
	uDBZ
	uKM
	uMPS
)

// units of the catalogued products
var modelUnits = map[string]unit{}

func init() {
	for u, l := range map[unit]string{
		uDBZ: "CX EA EX FX FZ HX OL OX PA PC PF PG PI PK PL PM PN PX PZ RX TX WN WX",
		uMM: "CH D2 D3 EB EC EH EM EW EY EZ PH PY RA RB RE RH RK RL RM RN RQ RR RU RW RY RZ " +
			"S2 S3 SF SH SQ TB TH TW TZ W1 W2 W3 W4 YW",
		uKM:  "PE",
		uMPS: "PD PR PU PV",
	} {
		for i := 0; i+1 < len(l); i += 3 {
			modelUnits[l[i:i+2]] = u
		}
	}
}

var unitNames = map[unit]string{uNone: "unknown unit", uMM: "mm", uDBZ: "dBZ", uKM: "km", uMPS: "m/s"}

// local picture products: plain height, resolution in km
var modelLocal = map[string][2]int{
	"OL": {224, 2}, "OX": {224, 1}, "PD": {224, 1}, "PE": {224, 2}, "PF": {224, 1},
	"PH": {224, 1}, "PL": {224, 2}, "PM": {224, 2}, "PR": {224, 1}, "PU": {2400, 1},
	"PV": {224, 1}, "PX": {224, 1}, "PY": {224, 1}, "PZ": {2400, 2},
}

// documented grids in km: width, height
var modelGrids = [][2]int{{900, 900}, {920, 920}, {900, 1100}, {1100, 1200}, {1400, 1500}}

// gridOf returns the documented grid that the dimensions are a bisection of.
func gridOf(dx, dy int) (w, h int, factor float64) {
	for _, g := range modelGrids {
		x, y, f := g[0], g[1], 1.0
		for {
			if x == dx && y == dy {
				return g[0], g[1], f
			}
			if x&1 != 0 || y&1 != 0 {
				break
			}
			x, y, f = x/2, y/2, f*2
		}
	}
	return 0, 0, 0
}

// multipleOfGrid tells whether the dimensions are those of a documented grid at
// twice, four times ... its full resolution (such composites are not generated:
// the documentation says nothing about them).
func multipleOfGrid(dx, dy int) bool {
	for _, g := range modelGrids {
		for k := 2; k < 16; k *= 2 {
			if dx == k*g[0] && dy == k*g[1] {
				return true
			}
		}
	}
	return false
}

const stationNames = "boo,ros,emd,hnr,umd,pro,ess,fld,drs,neu,nhb,oft,eis,tur,isn,fbg,mem,asb,deb,"

// Header renders the header including the ETX delimiter.
func (c *Comp) Header() string {
	h := ""
	build := func(total int) {
		h = fmt.Sprintf("%s%02d%02d%02d%s%02d%02d", c.Product, c.Day, c.Hour, c.Minute, c.WMO, c.Month, c.Year)
		switch c.Style & 3 {
		case 0:
			h += fmt.Sprintf("BY%7d", total)
		case 1:
			h += fmt.Sprintf("BY%10d", total)
		default:
			h += fmt.Sprintf("BY%d", total)
		}
		ms := ""
		if c.MSlen >= 0 {
			n := c.MSlen * 4
			s := ""
			for len(s) < n {
				s += stationNames
			}
			ms = "<" + s[:n] + ">"
			ms = fmt.Sprintf("MS%3d%s", len(ms), ms)
		}
		if c.Local || c.Level != nil { // the layout of picture products
			h += c.levels()
			if c.Style&4 != 0 {
				h += "CS0MX 0"
			} else if c.Style&8 != 0 {
				h += "CS1MX 1"
			}
			h += c.prec() + c.vs() + c.intv() + c.vv()
			h += ms
			if !c.Local {
				if c.Style&16 != 0 && ms != "" {
					h += " are used, "
				}
				h += c.dims()
			}
		} else {
			h += c.vs()
			if c.Style&4 != 0 {
				if c.Prec != nil && c.Style&32 != 0 {
					h += "SW P20010H"
				} else {
					h += "SW   2.13.1"
				}
			}
			h += c.prec() + c.intv() + c.dims() + c.vv()
			mf, qn := 2, 1
			if c.Style&128 != 0 {
				mf, qn = int(c.Cells%100000000), int(c.Cells%1000)
			}
			if c.Style&8 != 0 {
				h += fmt.Sprintf("MF %08d", mf)
			}
			if c.Style&16 != 0 {
				h += fmt.Sprintf("QN %03d", qn)
			}
			h += ms
			if c.Style&64 != 0 && ms != "" { // with the number of values of each station
				s := ""
				for i := 0; i+4 <= len(stationNames) && i < c.MSlen*4; i += 4 {
					s += fmt.Sprintf("%s%2d,", stationNames[i:i+3], (mf+i)%13)
				}
				h += fmt.Sprintf("ST%3d<%s>", len(s)+2, s)
			}
		}
		h += "\x03"
	}
	n := c.sectionLen()
	build(0)
	for i := 0; i < 6; i++ {
		l := len(h)
		build(l + n)
		if len(h) == l {
			break
		}
	}
	return h
}

func (c *Comp) levels() string {
	if c.Level == nil {
		return ""
	}
	s := fmt.Sprintf("LV%2d", len(c.Level))
	for _, v := range c.Level {
		s += fmt.Sprintf("%5.1f", float64(v)/10)
	}
	return s
}
func (c *Comp) prec() string {
	if c.Prec == nil {
		return ""
	}
	return fmt.Sprintf("PR E%+03d", *c.Prec)
}
func (c *Comp) vs() string {
	if c.VS == nil {
		return ""
	}
	return fmt.Sprintf("VS%2d", *c.VS)
}
func (c *Comp) intv() string {
	if c.INT == nil {
		return ""
	}
	return fmt.Sprintf("INT%4d", *c.INT)
}
func (c *Comp) vv() string {
	if c.VV == nil {
		return ""
	}
	return fmt.Sprintf("VV %03d", *c.VV)
}
func (c *Comp) dims() string {
	if c.DimTok == "BG" {
		return fmt.Sprintf("BG%03d%03d", c.Dy, c.Dx)
	}
	return fmt.Sprintf("GP%4dx%4d", c.Dy, c.Dx)
}

// raw cell contents, row 0 is the northernmost
type rawCells struct {
	le [][][2]byte
	sb [][]byte
	rl [][]byte // level index + 1, 0 is a gap
}

func (c *Comp) raw() *rawCells {
	r := NewRng(c.Cells, 77)
	out := &rawCells{}
	for y := 0; y < c.Dy; y++ {
		switch c.Enc {
		case LE:
			row := make([][2]byte, c.Dx)
			for x := range row {
				v := r.U64()
				switch c.Fill % 4 {
				case 0: // anything, all flags
					row[x] = [2]byte{byte(v), byte(v >> 8)}
				case 1: // plausible: few flags
					row[x] = [2]byte{byte(v), byte(v>>8) & 0x0f}
					if v>>16%7 == 0 {
						row[x] = [2]byte{0xc4, 0x29} // the usual no-data pattern
					} else if v>>16%7 == 1 {
						row[x][1] |= 0x40
					}
				case 2: // a different value in every cell
					n := (y*c.Dx + x) & 0xfff
					row[x] = [2]byte{byte(n), byte(n >> 8)}
				default:
					row[x] = [2]byte{byte(v & 3), 0}
				}
			}
			out.le = append(out.le, row)
		case SB:
			row := make([]byte, c.Dx)
			for x := range row {
				v := r.U64()
				switch c.Fill % 4 {
				case 0:
					row[x] = byte(v)
				case 1:
					row[x] = byte(v)
					if v>>16%4 == 0 {
						row[x] = 250
					}
				case 2:
					row[x] = byte(y*c.Dx + x)
				default:
					row[x] = 249 + byte(v%3)
				}
			}
			out.sb = append(out.sb, row)
		case RL:
			row := make([]byte, c.Dx)
			x := 0
			for x < c.Dx {
				v := r.U64()
				n := 1 + int(v>>32%40)
				if c.Fill%4 == 2 {
					n = 1
				}
				if c.Fill%4 == 3 { // mostly empty rows
					n = 1 + int(v>>32%uint64(2*c.Dx))
				}
				val := byte(v % 16)
				if c.Fill%4 == 1 {
					val = byte(v % uint64(len(c.Level)+2))
				}
				if c.Fill%4 == 3 && v>>8%3 != 0 {
					val = 0
				}
				for ; n > 0 && x < c.Dx; n-- {
					row[x] = val & 15
					x++
				}
			}
			out.rl = append(out.rl, row)
		}
	}
	return out
}

// rows renders the data section row by row in file order.
func (c *Comp) rows() [][]byte {
	raw := c.raw()
	r := NewRng(c.Cells, 78)
	var out [][]byte
	for i := 0; i < c.Dy; i++ {
		var b []byte
		switch c.Enc {
		case LE: // southernmost row first
			for _, t := range raw.le[c.Dy-1-i] {
				b = append(b, t[0], t[1])
			}
		case SB:
			b = append(b, raw.sb[c.Dy-1-i]...)
		case RL: // northernmost row first
			row := raw.rl[i]
			b = append(b, byte(16+i%200)) // line number
			x := 0
			if r.P(2, 3) {
				for x < len(row) && row[x] == 0 {
					x++ // leading gap as offset
				}
			}
			allGap := x == len(row)
			if !(allGap && r.P(1, 2)) { // an empty row may have no offset at all
				o := x
				for o >= 239 {
					b = append(b, 255)
					o -= 239
				}
				b = append(b, byte(16+o))
			}
			for x < len(row) {
				n := 1
				for x+n < len(row) && row[x+n] == row[x] && n < 15 {
					n++
				}
				if row[x] == 0 && r.P(1, 4) {
					rest := true
					for k := x; k < len(row); k++ {
						if row[k] != 0 {
							rest = false
							break
						}
					}
					if rest {
						break // trailing gap left out
					}
				}
				if n > 1 && r.P(1, 4) {
					n = r.R(1, n)
				}
				b = append(b, byte(n<<4)|row[x])
				x += n
			}
			b = append(b, '\n')
		}
		out = append(out, b)
	}
	return out
}

func (c *Comp) sectionLen() int {
	switch c.Enc {
	case LE:
		return c.Dx * c.Dy * 2
	case SB:
		return c.Dx * c.Dy
	}
	n := 0
	for _, r := range c.rows() {
		n += len(r)
	}
	return n
}

// Bytes renders the file; marks are the interesting offsets in it: the end of
// the header and of every row.
func (c *Comp) Bytes() (b []byte, marks []int) {
	h, rows := c.Header(), c.rows()
	if c.Bad != nil {
		if bh, br, ok := c.Bad.apply(c, h, rows); ok {
			h, rows = bh, br
		}
	}
	b = append(b, h...)
	marks = append(marks, len(b))
	for _, r := range rows {
		b = append(b, r...)
		marks = append(marks, len(b))
	}
	return
}

func (c *Comp) unit() unit { return modelUnits[c.Product] }

// layerDims returns the dimensions of a layer, the number of layers and how
// many plain rows precede them.
func (c *Comp) layerDims() (dx, dy, dz, skip int) {
	if !c.Local {
		return c.Dx, c.Dy, 1, 0
	}
	if c.Dy == 2400 {
		return 200, 200, 12, 0
	}
	return 200, 200, 1, c.Dy - 200
}

// PlainValues returns the expected values of the plain data.
func (c *Comp) PlainValues() [][]float64 {
	raw := c.raw()
	p := 0
	if c.Prec != nil {
		p = *c.Prec
	}
	scale := math.Pow(10, float64(p))
	conv := func(v float64) float64 {
		v *= scale
		if c.unit() == uDBZ {
			v = v/2 - 32.5
		}
		return v
	}
	out := make([][]float64, c.Dy)
	for y := range out {
		out[y] = make([]float64, c.Dx)
		for x := range out[y] {
			var v float64
			switch c.Enc {
			case LE:
				t := raw.le[y][x]
				n := int(t[0]) | int(t[1]&0x0f)<<8
				if t[1]&0x40 != 0 {
					n = -n
				}
				v = conv(float64(n))
				if t[1]&0x20 != 0 {
					v = math.NaN()
				}
			case SB:
				v = conv(float64(raw.sb[y][x]))
				if raw.sb[y][x] == 250 {
					v = math.NaN()
				}
			case RL:
				k := int(raw.rl[y][x])
				if k == 0 || k > len(c.Level) {
					v = math.NaN()
				} else {
					v = float64(c.Level[k-1]) / 10
				}
			}
			out[y][x] = v
		}
	}
	return out
}

func (c *Comp) capture() time.Time {
	y := 2000 + c.Year
	if c.Year >= 69 {
		y = 1900 + c.Year
	}
	return time.Date(y, time.Month(c.Month), c.Day, c.Hour, c.Minute, 0, 0, time.UTC)
}

func (c *Comp) forecast() time.Time {
	t := c.capture()
	if c.VV != nil {
		t = t.Add(time.Duration(*c.VV) * time.Minute)
	}
	return t
}

func (c *Comp) interval() time.Duration {
	if c.INT == nil {
		return 0
	}
	d := time.Duration(*c.INT) * time.Minute
	switch c.Product {
	case "W1", "W2", "W3", "W4":
		d *= 10
	}
	return d
}

// same compares a decoded value with the expected one up to single precision
// rounding; base is the magnitude of the terms it was computed from.
func same(a float32, want, base float64) bool {
	f := float64(a)
	if math.IsNaN(want) || math.IsNaN(f) {
		return math.IsNaN(want) == math.IsNaN(f)
	}
	return math.Abs(f-want) <= 2e-6*math.Max(math.Abs(want), base)
}

// base is the magnitude of the terms in the value formula.
func (c *Comp) base() float64 {
	if c.Enc != RL && c.unit() == uDBZ {
		return 65
	}
	return 0
}
