package main

import (
	"archive/tar"
	"bytes"
	"fmt"
	"strings"
	"time"
)

// Archive describes a compressed tar archive of composites.
type Archive struct {
	Members []*Comp `json:"members"`
	Names   int     `json:"names"`  // naming scheme
	Format  int     `json:"format"` // tar dialect
	Pad     int     `json:"pad"`    // zero blocks after the end marker
	Bz      BzConf  `json:"bz"`
	Trail   int     `json:"trail,omitempty"` // bytes behind every composite in its file
	CutMem  int     `json:"cutmem"`          // member whose file is cut short, -1 none
	CutLen  int     `json:"cutlen"`
	CutTar  int     `json:"cuttar"` // tar bytes dropped from the end, before compression, 0 none
	Split   int     `json:"split"`  // 1: own streams for headers and files, 2: for files and padding too
	TarMuts []Mut   `json:"tarmuts,omitempty"`
	Junk    int     `json:"junk,omitempty"` // what member CutMem holds instead of a composite
}

// Mut is one alteration of stored bytes.
type Mut struct {
	Op  string `json:"op"`
	Off int    `json:"off"`
	N   int    `json:"n,omitempty"`
	V   []byte `json:"v,omitempty"`
}

func applyMuts(b []byte, ms []Mut) []byte {
	b = append([]byte(nil), b...)
	for _, m := range ms {
		o, n := m.Off, m.N
		if len(b) == 0 {
			break
		}
		if o < 0 {
			o = 0
		}
		if o >= len(b) {
			o = len(b) - 1
		}
		if n < 0 {
			n = 0
		}
		if o+n > len(b) {
			n = len(b) - o
		}
		switch m.Op {
		case "flip":
			b[o] ^= 1 << uint(m.N&7)
		case "set":
			copy(b[o:], m.V)
		case "ins":
			b = append(b[:o], append(append([]byte(nil), m.V...), b[o:]...)...)
		case "del":
			b = append(b[:o], b[o+n:]...)
		case "dup":
			b = append(b[:o+n], append(append([]byte(nil), b[o:o+n]...), b[o+n:]...)...)
		case "rep": // replace n bytes by V
			b = append(b[:o], append(append([]byte(nil), m.V...), b[o+n:]...)...)
		case "zero": // a lost sector
			for i := o; i < o+n; i++ {
				b[i] = 0
			}
		case "trunc":
			b = b[:o]
		}
	}
	return b
}

// Tar renders the uncompressed archive, and where its headers, files and
// padding start.
func (a *Archive) Tar() ([]byte, []int) {
	var buf bytes.Buffer
	w := tar.NewWriter(&buf)
	var marks []int
	for i, c := range a.Members {
		b, _ := c.Bytes()
		if i == a.CutMem {
			n := len(b) - a.CutLen
			if n < 0 {
				n = 0
			}
			b = b[:n]
			switch a.Junk {
			case 1:
				b = []byte("Quelle: Deutscher Wetterdienst. Die Daten sind frei verwendbar.\n")
			case 2:
				b = make([]byte, len(b)+a.CutLen)
			case 3: // its data length is gone
				b, _ = c.Bytes()
				b = append(append(append([]byte(nil), b[:17]...), "BZ"...), b[19:]...)
			}
		}
		if a.CutMem < 0 {
			b = append(b[:len(b):len(b)], "\x04\n\r\x00\x03RW"[:a.Trail%8]...)
		}
		h := &tar.Header{Name: fmt.Sprintf("%s%s_%03d", c.Product, c.capture().Format("200601021504"), i), Mode: 0o644,
			Size: int64(len(b)), ModTime: time.Unix(1500000000, 0), Typeflag: tar.TypeReg}
		switch a.Names % 3 {
		case 1:
			h.Name = fmt.Sprintf("m%d", len(a.Members)-i)
		case 2:
			h.Name = "dir/" + h.Name
		}
		switch a.Names {
		case 3: // what many archivers would call nonsense
			h.Name = "same"
		case 4:
			h.Name = "./" + h.Name
		case 5:
			h.Name = fmt.Sprintf("%s/%090d/%03d", strings.Repeat("d", 60), i, i)
		case 6:
			h.Name = []string{".hidden", "README.txt", "x.tar", "x.bz2", "a b", "m\u00e4rz", "-", "RADOLAN~"}[i%8]
		}
		switch a.Format % 3 {
		case 0:
			h.Format = tar.FormatUSTAR
		case 1:
			h.Format = tar.FormatGNU
		case 2:
			h.Format = tar.FormatPAX
			h.PAXRecords = map[string]string{"comment": "radolan"}
		}
		marks = append(marks, (buf.Len()+511)&^511)
		if err := w.WriteHeader(h); err != nil {
			panic(err)
		}
		marks = append(marks, buf.Len())
		if _, err := w.Write(b); err != nil {
			panic(err)
		}
		marks = append(marks, buf.Len())
	}
	if err := w.Close(); err != nil {
		panic(err)
	}
	marks = append(marks, buf.Len()-1024, buf.Len()-512)
	if a.CutTar > 0 { // the archiver died
		n := buf.Len() - a.CutTar
		if n < 0 {
			n = 0
		}
		return buf.Bytes()[:n], marks
	}
	buf.Write(make([]byte, 512*a.Pad))
	return applyMuts(buf.Bytes(), a.TarMuts), marks
}

// Bytes renders the compressed archive and its interesting offsets.
func (a *Archive) Bytes() ([]byte, []int) {
	t, marks := a.Tar()
	conf := a.Bz
	if a.Split > 0 {
		conf.Streams = nil
		at := 0
		for i, m := range marks {
			if m > at && m < len(t) && (a.Split > 1 || i%3 != 2) {
				conf.Streams = append(conf.Streams, m-at)
				at = m
			}
		}
	}
	b, starts := Bzip(t, conf)
	return b, append([]int{4, 10, 14, len(b) / 2, len(b) - 10, len(b) - 4}, append(starts, len(b))...)
}

// GenArchive draws an archive.
func GenArchive(r *Rng, max int, big bool) *Archive {
	a := &Archive{Names: pick(r, 0, 1, 2, 0, 1, 2, 3, 4, 5, 6), Format: r.N(3), CutMem: -1}
	if a.Names == 6 && a.Format == 0 { // plain names only
		a.Format = 2
	}
	n := r.Small(1, max)
	many := max >= 12 && r.P(1, 25)
	if many {
		n = pick(r, 24, 25, 26, 49, 60, 99, 100, 101, 145, 289, r.R(13, 300))
	}
	if r.P(1, 30) {
		n = 0
	}
	size := pickSize(r, big)
	if size == szFull || size == szLocal3 || n > 4 && size >= szGrid {
		size = szSmall
	}
	if many {
		size = szTiny
	}
	base := GenComp(r, size)
	for i := 0; i < n; i++ {
		c := *base
		if r.P(1, 3) {
			c = *GenComp(r, size)
		}
		c.Cells = r.U64()
		if r.P(3, 4) {
			c.VV = ip(5 * r.N(25))
		}
		if r.P(1, 4) || many && r.P(3, 4) {
			c.Minute, c.Hour = r.N(60), r.N(24)
		}
		a.Members = append(a.Members, &c)
	}
	if r.P(1, 8) {
		a.Trail = r.R(1, 7)
	}
	a.Pad = pick(r, 0, 0, 1, r.N(20), r.N(20), 18)
	a.Bz = BzConf{Level: r.R(1, 9)}
	if r.P(1, 2) {
		a.Bz.Block = pick(r, 100, 511, 512, 513, 1000, 5000)
	}
	if r.P(1, 4) {
		for k := r.R(1, 3); k > 0; k-- {
			a.Bz.Streams = append(a.Bz.Streams, pick(r, 512, 1024, r.R(1, 4000)))
		}
	} else if r.P(1, 5) {
		a.Split = r.R(1, 2)
	}
	a.Bz.Empty = r.P(1, 12)
	return a
}
