package main

// Generators of well-formed composites and deliveries.

import (
	"fmt"
	"time"
)

var compositeDBZ = []string{"EX", "FX", "FZ", "RX", "WN", "WX", "HX", "CX", "TX", "PC", "PG", "PA", "EA", "PI", "PK", "PN"}
var compositeMM = []string{"RW", "SF", "RY", "W1", "W2", "W3", "W4", "CH", "D2", "D3", "EB", "EW", "RA", "RH", "S2", "S3", "SQ", "TH", "YW", "TW",
	"EC", "EH", "EM", "EY", "EZ", "RB", "RE", "RK", "RL", "RM", "RN", "RQ", "RR", "RU", "RZ", "SH", "TB", "TZ"}
var localProducts = []string{"OL", "OX", "PD", "PE", "PF", "PH", "PL", "PM", "PR", "PV", "PX", "PY", "PU", "PZ"}

var headerTokens = map[string]bool{"BY": true, "VS": true, "SW": true, "PR": true, "GP": true, "VV": true, "MF": true, "MS": true,
	"QN": true, "LV": true, "CS": true, "MX": true, "BG": true, "IN": true, "ST": true, "VR": true}

func unknownProduct(r *Rng) string {
	for {
		p := string([]byte{byte('A' + r.N(26)), byte('A' + r.N(26))})
		if r.P(1, 5) {
			p = p[:1] + string(byte('1'+r.N(9)))
			if p[0] == 'E' || p[0] == 'P' {
				continue
			}
		}
		if _, ok := modelUnits[p]; ok || headerTokens[p] {
			continue
		}
		return p
	}
}

// size classes of composites
const (
	szTiny   = iota // a few cells
	szSmall         // tens of cells a side
	szWide          // rows around and above the usual buffer sizes
	szGrid          // a bisected documented grid
	szFull          // a documented grid at full resolution
	szLocal         // local picture
	szLocal3        // multi-layer local picture
)

func ip(n int) *int { return &n }

// GenComp draws a well-formed composite of the given size class.
func GenComp(r *Rng, size int) *Comp {
	c := &Comp{
		Day: r.R(1, 28), Hour: r.N(24), Minute: r.N(60), Month: r.R(1, 12), Year: r.N(51),
		WMO: pick(r, "10000", "10410", "10132", "00000", "99999"), DimTok: "GP",
		MSlen: r.Small(-1, 18), Style: r.N(64) | pick(r, 0, 0, 0, 64, 128, 192), Cells: r.U64(), Fill: r.N(4),
	}
	switch {
	case r.P(1, 6): // around the ends of months and years
		c.Month, c.Year = pick(r, 1, 2, 2, 3, 4, 6, 9, 11, 12, 12), pick(r, 0, 4, 15, 16, 17, 20, 24, 28, 51, 68)
		c.Day = time.Date(2000+c.Year, time.Month(c.Month)+1, 0, 0, 0, 0, 0, time.UTC).Day()
		if r.P(1, 2) {
			c.Hour, c.Minute = 23, 5*r.R(6, 11)
		}
	case r.P(1, 20):
		c.Day, c.Month, c.Year, c.Hour, c.Minute = 1, pick(r, 1, 3), pick(r, 0, 1, 16, 68), 0, 0
	}
	if r.P(1, 3) {
		c.WMO = fmt.Sprintf("%05d", r.N(100000))
	}
	if r.P(1, 20) {
		c.MSlen = r.R(50, 300)
	}
	if r.P(1, 40) {
		c.MSlen = r.R(900, 2500) // header longer than the usual buffers
		c.Style |= 1             // (and a wide length field)
		if r.P(1, 50) {
			c.MSlen = r.R(15000, 20000)
		}
	}
	c.Enc = pick(r, LE, LE, SB, RL)
	switch size {
	case szTiny:
		c.Dx, c.Dy = r.R(1, 9), r.R(1, 7)
	case szSmall:
		c.Dx, c.Dy = r.R(1, 80), r.R(1, 40)
	case szWide:
		c.Dx, c.Dy = pick(r, 254, 255, 256, 257, 478, 479, 999, 1024, 2047, 2048, 2049, 4095, 4096, 4097, 8192, 9999), r.R(1, 5)
		if r.P(1, 6) {
			c.Dx, c.Dy = r.R(1, 3), pick(r, 999, 4096, 9999)
		}
		if r.P(1, 4) { // one edge like that of a grid
			c.Dx, c.Dy = pick(r, 115, 175, 225, 230, 275, 300, 350, 375, 450, 460, 550, 600, 900, 1100, 1200), r.R(1, 6)
			if r.P(1, 2) {
				c.Dx, c.Dy = c.Dy, c.Dx
			}
		}
	case szGrid, szFull:
		g := modelGrids[r.N(len(modelGrids))]
		x, y := g[0], g[1]
		if size == szGrid {
			for x&1 == 0 && y&1 == 0 {
				x, y = x/2, y/2
				if r.P(1, 8) {
					break
				}
			}
			if r.P(1, 4) { // nearly a grid
				o := modelGrids[r.N(len(modelGrids))]
				switch r.N(6) {
				case 0:
					x += pick(r, -1, 1)
				case 1:
					y += pick(r, -1, 1)
				case 2:
					x, y = y, x
				case 3:
					x = x * o[0] / g[0]
				case 4:
					y = pick(r, y/2, y*2)
				case 5: // the same proportions
					if k := pick(r, 3, 5); x%k == 0 && y%k == 0 && r.P(1, 2) {
						x, y = x/k, y/k
					} else if x < 400 {
						x, y = x*3, y*3
					}
				}
				if multipleOfGrid(x, y) {
					x, y = g[0]/4, g[1]/4
				}
			}
		}
		c.Dx, c.Dy = x, y
	}
	if size < szGrid {
		if size != szWide && r.P(1, 8) { // the proportions of a grid
			g := pick(r, [2]int{1, 1}, [2]int{9, 11}, [2]int{11, 12}, [2]int{14, 15})
			k := 1 + r.N(9)
			if size == szTiny {
				k = 1 + r.N(10)/g[0]
			}
			c.Dx, c.Dy = k*g[0], k*g[1]
		}
		for multipleOfGrid(c.Dx, c.Dy) {
			c.Dx++
		}
	}
	if size >= szLocal {
		c.Local = true
		c.Product = pick(r, localProducts[:12]...)
		c.Dx, c.Dy = 200, 224
		if size == szLocal3 {
			c.Product = pick(r, localProducts[12:]...)
			c.Dy = 2400
		}
		if c.Enc == LE && r.P(3, 4) {
			c.Enc = RL
		}
	} else {
		c.Product = pick(r, compositeDBZ...)
		if r.P(1, 2) {
			c.Product = pick(r, compositeMM...)
		}
		if r.P(1, 25) { // a picture product that states its dimensions
			c.Product = pick(r, localProducts...)
		}
		if c.Dx <= 999 && c.Dy <= 999 && r.P(1, 3) {
			c.DimTok = "BG"
		}
	}
	if c.Enc == RL {
		n := r.Small(0, 15)
		if r.P(1, 2) {
			n = 6
		}
		if r.P(1, 30) {
			n = r.R(15, 99)
		}
		c.Level = []int{}
		v := -r.R(0, 400)
		for i := 0; i < n; i++ {
			c.Level = append(c.Level, v)
			v += r.R(1, 120)
			if v > 9999 {
				v = 9999
			}
		}
		if r.P(1, 8) { // the table need not be sorted, nor its entries differ
			for i := range c.Level {
				switch r.N(3) {
				case 0:
					c.Level[i] = r.R(-999, 9999)
				case 1:
					c.Level[i] = c.Level[r.N(len(c.Level))]
				}
			}
		}
	} else if r.P(4, 5) {
		c.Prec = ip(pick(r, -1, -1, -1, -2, 0, 0, -3, 1, 2))
	}
	if r.P(3, 4) && !c.Local {
		c.VS = ip(pick(r, 0, 1, 2, 3, 3, 4, 5, 5, 6, 12))
	}
	if r.P(3, 4) {
		c.INT = ip(pick(r, 5, 15, 60, 120, 1008, 1440, 4320, 9999, 1, 0))
	}
	if r.P(2, 3) {
		c.VV = ip(pick(r, 0, 5, 10, 60, 100, 120, r.N(1000)))
	}
	if size < szGrid && r.P(1, 40) {
		align(r, c)
	}
	return c
}

// align makes the header or the file of the composite end at or next to a
// multiple of the usual buffer sizes.
func align(r *Rng, c *Comp) {
	to := pick(r, 512, 1024, 4096, 4096, 4096, 8192, 12288) + pick(r, -1, 0, 0, 0, 1)
	if r.P(1, 3) { // the header
		if to > 9000 {
			return
		}
		for k := 0; k < 40; k++ {
			x := *c
			x.Style, x.MSlen = r.N(64)|1, 0
			if k > 0 && !x.Local {
				x.VS = nil
				if r.P(1, 2) {
					x.VS = ip(pick(r, 3, 5))
				}
			}
			x.VV, x.INT = nil, nil
			if r.P(1, 2) {
				x.VV = ip(5 * r.N(24))
			}
			if r.P(1, 2) {
				x.INT = ip(5)
			}
			d := to - len(x.Header())
			for _, d := range []int{d, d - 1} { // (MS may need a fourth digit)
				if x.MSlen = d / 4; d < 0 || len(x.Header()) != to {
					continue
				}
				*c = x
				return
			}
		}
		return
	}
	size := 1
	switch c.Enc {
	case RL:
		return
	case LE:
		size = 2
	}
	x := *c
	x.DimTok = "GP"
	x.Dy = pick(r, 1, 1, 1, 2, 3)
	for k := 0; k < 3; k++ {
		x.Dx = (to - len(x.Header())) / size / x.Dy
		if x.Dx < 1 || x.Dx > 9999 || multipleOfGrid(x.Dx, x.Dy) {
			return
		}
	}
	*c = x
}

// pickSize draws a size class; big ones are rare.
func pickSize(r *Rng, big bool) int {
	n := r.N(400)
	switch {
	case big && n < 1:
		return szFull
	case big && n < 3:
		return szLocal3
	case big && n < 8:
		return szGrid
	case n < 16:
		return szLocal
	case n < 36:
		return szWide
	case n < 120:
		return szSmall
	}
	return szTiny
}

// Delivery says how a simulated source hands over its bytes.
type Delivery struct {
	Cuts    []int  `json:"cuts,omitempty"` // result of the first reads: n>0 at most n bytes, 0 an empty read, n<0 a stall of -n ms before it
	Tail    int    `json:"tail"`           // size of the later reads, 0 unlimited
	Every   int    `json:"every,omitempty"`
	With    bool   `json:"with,omitempty"`    // the end (or failure) is reported together with the last bytes
	Scrib   bool   `json:"scrib,omitempty"`   // unused part of the buffer is overwritten
	Wrap    int    `json:"wrap,omitempty"`    // buffering in front of the source
	FailAt  int    `json:"failat"`            // offset of the failure, -1 none
	Err     string `json:"err,omitempty"`     // kind of failure
	Recover bool   `json:"recover,omitempty"` // after one failure the source would deliver the rest
	Stay    bool   `json:"stay,omitempty"`    // after the last byte the source stays open and silent
	Slow    int    `json:"slow,omitempty"`    // simulated milliseconds per read
}

// GenDelivery draws a legal delivery of n bytes, preferring cuts near marks.
func GenDelivery(r *Rng, n int, marks []int) Delivery {
	d := Delivery{FailAt: -1}
	switch r.N(8) {
	case 0:
		d.Tail = 1
		if n > 20000 {
			d.Tail = r.R(1, 100)
		}
	case 1:
		d.Tail = r.R(1, 16)
	case 2:
		d.Tail = pick(r, 511, 512, 513, 1023, 4095, 4096, 4097)
	case 3:
		d.Tail = 1 + r.N(n+1)
	}
	switch r.N(4) {
	case 0: // random cuts
		for k := r.R(1, 12); k > 0; k-- {
			d.Cuts = append(d.Cuts, r.Small(0, n))
		}
	case 1: // cuts right around the structural boundaries
		at := 0
		for k := r.R(1, 6); k > 0; k-- {
			m := marks[r.N(len(marks))] + r.R(-2, 2)
			if m > at {
				d.Cuts = append(d.Cuts, m-at)
				at = m
			}
			if r.P(1, 3) {
				d.Cuts = append(d.Cuts, 0)
			}
		}
	}
	if r.P(1, 4) { // stalls
		for k := r.R(1, 3); k > 0; k-- {
			i := r.N(len(d.Cuts) + 1)
			d.Cuts = append(d.Cuts[:i], append([]int{-r.R(1, 60000)}, d.Cuts[i:]...)...)
		}
	}
	if r.P(1, 4) {
		d.Every = r.R(2, 9) // an empty read every so often
	}
	d.With = r.P(1, 3)
	d.Scrib = r.P(1, 2)
	if r.P(1, 4) {
		d.Wrap = r.R(1, 14)
	}
	if r.P(1, 4) {
		d.Slow = r.R(1, 1000)
	}
	return d
}

var failKinds = []string{"eof", "eof", "unexpected", "eio", "timeout", "closed", "reset", "noprogress", "short", "again", "wrapped"}

// GenFail makes the delivery fail before byte limit of the stream.
func GenFail(r *Rng, d *Delivery, limit int, marks []int) {
	d.Err = pick(r, failKinds...)
	d.Recover = d.Err != "eof" && r.P(1, 4)
	switch r.N(4) {
	case 0:
		d.FailAt = r.N(limit)
	case 1, 2:
		d.FailAt = marks[r.N(len(marks))] + r.R(-2, 1)
	default:
		d.FailAt = limit - 1 - r.Small(0, limit-1)
	}
	if d.FailAt < 0 {
		d.FailAt = 0
	}
	if d.FailAt >= limit {
		d.FailAt = limit - 1
	}
}
