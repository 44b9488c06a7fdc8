package main

import "sort"

// A small bzip2 compressor (the standard library has none), so that the
// simulator controls block and stream structure.

type bitw struct {
	b   []byte
	acc uint64
	n   uint
}

func (w *bitw) put(v uint64, n uint) {
	for i := int(n) - 1; i >= 0; i-- {
		w.acc = w.acc<<1 | v>>uint(i)&1
		w.n++
		if w.n == 8 {
			w.b = append(w.b, byte(w.acc))
			w.acc, w.n = 0, 0
		}
	}
}

func (w *bitw) flush() {
	for w.n != 0 {
		w.put(0, 1)
	}
}

var bzTab = func() (t [256]uint32) {
	for i := range t {
		c := uint32(i) << 24
		for k := 0; k < 8; k++ {
			if c&0x80000000 != 0 {
				c = c<<1 ^ 0x04c11db7
			} else {
				c <<= 1
			}
		}
		t[i] = c
	}
	return
}()

// BzConf is the structure of a compressed archive.
type BzConf struct {
	Level   int   `json:"level"`             // 1..9, as stated in the stream header
	Block   int   `json:"block"`             // bytes per block
	Streams []int `json:"streams,omitempty"` // sizes of the first streams
	Empty   bool  `json:"empty,omitempty"`   // streams without blocks in between
}

// Bzip compresses src and tells where the streams after the first one start.
func Bzip(src []byte, c BzConf) (out []byte, starts []int) {
	for _, n := range c.Streams {
		if n <= 0 || n >= len(src) {
			continue
		}
		out = append(out, bzStream(src[:n], c)...)
		src = src[n:]
		starts = append(starts, len(out))
		if c.Empty {
			out = append(out, bzStream(nil, c)...)
			starts = append(starts, len(out))
		}
	}
	return append(out, bzStream(src, c)...), starts
}

func bzStream(src []byte, c BzConf) []byte {
	w := &bitw{}
	w.put('B', 8)
	w.put('Z', 8)
	w.put('h', 8)
	w.put(uint64('0'+c.Level), 8)
	combined := uint32(0)
	max := c.Level*100000 - 20
	if c.Block > 0 && c.Block < max {
		max = c.Block
	}
	for len(src) > 0 {
		// first run-length stage, up to max output bytes
		var rle []byte
		crc := ^uint32(0)
		i := 0
		for i < len(src) && len(rle) < max {
			n := 1
			for i+n < len(src) && src[i+n] == src[i] && n < 255 {
				n++
			}
			for k := 0; k < n; k++ {
				crc = crc<<8 ^ bzTab[byte(crc>>24)^src[i]]
			}
			for k := 0; k < n && k < 4; k++ {
				rle = append(rle, src[i])
			}
			if n >= 4 {
				rle = append(rle, byte(n-4))
			}
			i += n
		}
		src = src[i:]
		crc = ^crc
		combined = (combined<<1 | combined>>31) ^ crc
		bzBlock(w, rle, crc)
	}
	w.put(0x177245385090, 48)
	w.put(uint64(combined), 32)
	w.flush()
	return w.b
}

func rotations(b []byte) []int {
	n := len(b)
	sa := make([]int, n)
	rank := make([]int, n)
	tmp := make([]int, n)
	for i := range sa {
		sa[i] = i
		rank[i] = int(b[i])
	}
	for k := 0; ; {
		key := func(i int) int {
			if k == 0 {
				return 0
			}
			return rank[(i+k)%n]
		}
		sort.Slice(sa, func(x, y int) bool {
			a, c := sa[x], sa[y]
			if rank[a] != rank[c] {
				return rank[a] < rank[c]
			}
			ka, kc := key(a), key(c)
			if ka != kc {
				return ka < kc
			}
			return a < c
		})
		tmp[sa[0]] = 0
		for i := 1; i < n; i++ {
			a, c := sa[i-1], sa[i]
			tmp[c] = tmp[a]
			if rank[a] != rank[c] || key(a) != key(c) {
				tmp[c]++
			}
		}
		copy(rank, tmp)
		if rank[sa[n-1]] == n-1 || k >= n {
			return sa
		}
		if k == 0 {
			k = 1
		} else {
			k *= 2
		}
	}
}

func bzBlock(w *bitw, b []byte, crc uint32) {
	sa := rotations(b)
	n := len(b)
	last := make([]byte, n)
	orig := 0
	for i, s := range sa {
		last[i] = b[(s+n-1)%n]
		if s == 0 {
			orig = i
		}
	}
	var used [256]bool
	for _, c := range b {
		used[c] = true
	}
	var alpha []byte
	for i := range used {
		if used[i] {
			alpha = append(alpha, byte(i))
		}
	}
	// move to front and zero runs
	mtf := append([]byte(nil), alpha...)
	var syms []int
	zeros := 0
	flush := func() {
		for z := zeros; z > 0; {
			if z&1 == 1 {
				syms = append(syms, 0)
				z = (z - 1) / 2
			} else {
				syms = append(syms, 1)
				z = (z - 2) / 2
			}
		}
		zeros = 0
	}
	for _, c := range last {
		k := 0
		for mtf[k] != c {
			k++
		}
		if k == 0 {
			zeros++
			continue
		}
		copy(mtf[1:k+1], mtf[:k])
		mtf[0] = c
		flush()
		syms = append(syms, k+1)
	}
	flush()
	eob := len(alpha) + 1
	syms = append(syms, eob)
	lens := huffman(syms, eob+1)
	w.put(0x314159265359, 48)
	w.put(uint64(crc), 32)
	w.put(0, 1)
	w.put(uint64(orig), 24)
	var groups uint64
	for g := 0; g < 16; g++ {
		groups <<= 1
		for i := 0; i < 16; i++ {
			if used[g*16+i] {
				groups |= 1
				break
			}
		}
	}
	w.put(groups, 16)
	for g := 0; g < 16; g++ {
		if groups>>(15-uint(g))&1 == 0 {
			continue
		}
		for i := 0; i < 16; i++ {
			if used[g*16+i] {
				w.put(1, 1)
			} else {
				w.put(0, 1)
			}
		}
	}
	w.put(2, 3)
	sel := (len(syms) + 49) / 50
	w.put(uint64(sel), 15)
	for i := 0; i < sel; i++ {
		if i%2 == 0 && i > 0 || i%2 == 1 { // alternate between the two (equal) tables
			w.put(2, 2)
		} else {
			w.put(0, 1)
		}
	}
	for t := 0; t < 2; t++ {
		cur := lens[0]
		w.put(uint64(cur), 5)
		for _, l := range lens {
			for cur < l {
				w.put(2, 2)
				cur++
			}
			for cur > l {
				w.put(3, 2)
				cur--
			}
			w.put(0, 1)
		}
	}
	codes := canonical(lens)
	for _, s := range syms {
		w.put(uint64(codes[s]), uint(lens[s]))
	}
}

func huffman(syms []int, n int) []int {
	freq := make([]int, n)
	for _, s := range syms {
		freq[s]++
	}
	for i := range freq {
		if freq[i] == 0 {
			freq[i] = 1
		}
	}
	for {
		type node struct{ f, l, r int }
		nodes := make([]node, n, 2*n)
		var live []int
		for i := range freq {
			nodes[i] = node{freq[i], -1, -1}
			live = append(live, i)
		}
		for len(live) > 1 {
			sort.Slice(live, func(a, b int) bool {
				if nodes[live[a]].f != nodes[live[b]].f {
					return nodes[live[a]].f < nodes[live[b]].f
				}
				return live[a] < live[b]
			})
			nodes = append(nodes, node{nodes[live[0]].f + nodes[live[1]].f, live[0], live[1]})
			live = append(live[2:], len(nodes)-1)
		}
		lens := make([]int, n)
		max := 0
		var walk func(i, d int)
		walk = func(i, d int) {
			if nodes[i].l < 0 {
				lens[i] = d
				if d > max {
					max = d
				}
				return
			}
			walk(nodes[i].l, d+1)
			walk(nodes[i].r, d+1)
		}
		walk(live[0], 0)
		if max <= 17 {
			return lens
		}
		for i := range freq {
			freq[i] = freq[i]/2 + 1
		}
	}
}

func canonical(lens []int) []int {
	codes := make([]int, len(lens))
	code := 0
	for l := 1; l <= 20; l++ {
		for s, x := range lens {
			if x == l {
				codes[s] = code
				code++
			}
		}
		code <<= 1
	}
	return codes
}
