package main

import (
	"fmt"
	"io"
	"math"
	"reflect"
	"strings"
	"time"

	"gitlab.cs.fau.de/since/radolan"
	"radosim/rt"
)

// Outcome is what one parse did.
type Outcome struct {
	Class string // ok, unknown-unit, error, panic, blocked, hang, alloc
	Text  string
	Comp  *radolan.Composite
	Comps []*radolan.Composite
	Src   *Source
}

func guard(o *Outcome, f func()) {
	if !rt.Call(func() { recovered(o, f) }) {
		o.Class = "blocked"
		if rt.GaveUp() {
			o.Class = "hang"
		}
	}
}

func recovered(o *Outcome, f func()) {
	defer func() {
		switch x := recover().(type) {
		case nil:
		case Blocked:
			o.Class = "blocked"
		case ReadOverflow, rt.Overflow:
			o.Class = "hang"
		case rt.AllocTooBig:
			o.Class, o.Text = "alloc", x.Error()
		default:
			o.Class, o.Text = "panic", strings.SplitN(fmt.Sprint(x), "\n", 2)[0]
		}
	}()
	f()
}

// stepBudget is far above what a parse of that many bytes and cells needs.
func stepBudget(n, cells int) int64 { return 2_000_000 + 400*int64(n) + 400*int64(cells) }

func parseOne(b []byte, d *Delivery, log *Log, st *Stats, id int) *Outcome {
	src := NewSource(b, d, log, st, id)
	defer src.release()
	return parseFrom(src.Reader(), src, false, log, st)
}

func parseArchive(b []byte, d *Delivery, log *Log, st *Stats, id int) *Outcome {
	src := NewSource(b, d, log, st, id)
	defer src.release()
	return parseFrom(src.Reader(), src, true, log, st)
}

func parseFrom(rd io.Reader, src *Source, archive bool, log *Log, st *Stats) *Outcome {
	o := &Outcome{Src: src}
	if st != nil {
		st.Ops++
	}
	kind := "parse"
	if archive {
		kind = "archive"
		// the bzip2 decoder of the standard library goes on to the end of the
		// current block (at most 900000 symbols) after its source ended
		src.limit = 100_000_000
	}
	guard(o, func() {
		var err error
		if archive {
			o.Comps, err = radolan.NewComposites(rd)
		} else {
			o.Comp, err = radolan.NewComposite(rd)
		}
		switch {
		case err == nil:
			o.Class = "ok"
		case err == radolan.ErrUnknownUnit && !archive:
			o.Class = "unknown-unit"
		default:
			o.Class, o.Text = "error", err.Error()
		}
	})
	if log != nil {
		log.Note(fmt.Sprintf("%s: %s %s (%d composites)", kind, o.Class, o.Text, len(o.Comps)))
	}
	return o
}

// checkValues compares everything that carries data with the model.
func checkValues(c *radolan.Composite, m *Comp) string {
	if c == nil {
		return "no composite"
	}
	want := m.PlainValues()
	base := m.base()
	if len(c.PlainData) != m.Dy {
		return fmt.Sprintf("plain data has %d rows, want %d", len(c.PlainData), m.Dy)
	}
	for y := range want {
		if len(c.PlainData[y]) != m.Dx {
			return fmt.Sprintf("plain row %d has %d cells, want %d", y, len(c.PlainData[y]), m.Dx)
		}
		for x := range want[y] {
			if !same(c.PlainData[y][x], want[y][x], base) {
				return fmt.Sprintf("plain value at x=%d y=%d is %v, want %v", x, y, c.PlainData[y][x], want[y][x])
			}
		}
	}
	dx, dy, dz, skip := m.layerDims()
	if len(c.DataZ) != dz {
		return fmt.Sprintf("%d layers, want %d", len(c.DataZ), dz)
	}
	for z := 0; z < dz; z++ {
		if len(c.DataZ[z]) != dy {
			return fmt.Sprintf("layer %d has %d rows, want %d", z, len(c.DataZ[z]), dy)
		}
		for y := 0; y < dy; y++ {
			if len(c.DataZ[z][y]) != dx {
				return fmt.Sprintf("layer %d row %d has %d cells, want %d", z, y, len(c.DataZ[z][y]), dx)
			}
			for x := 0; x < dx; x++ {
				w := want[skip+z*dy+y][x]
				if !same(c.DataZ[z][y][x], w, base) {
					return fmt.Sprintf("layer value at x=%d y=%d z=%d is %v, want %v", x, y, z, c.DataZ[z][y][x], w)
				}
				if z == 0 {
					if v := c.At(x, y); !same(v, w, base) {
						return fmt.Sprintf("At(%d, %d) is %v, want %v", x, y, v, w)
					}
				}
				if v := c.AtZ(x, y, z); !same(v, w, base) {
					return fmt.Sprintf("AtZ(%d, %d, %d) is %v, want %v", x, y, z, v, w)
				}
			}
		}
	}
	if len(c.Data) != dy {
		return fmt.Sprintf("pixel data has %d rows, want %d", len(c.Data), dy)
	}
	for y := range c.Data {
		if len(c.Data[y]) != dx {
			return fmt.Sprintf("pixel row %d has %d cells, want %d", y, len(c.Data[y]), dx)
		}
		for x := range c.Data[y] {
			if !same(c.Data[y][x], want[skip+y][x], base) {
				return fmt.Sprintf("pixel value at x=%d y=%d is %v, want %v", x, y, c.Data[y][x], want[skip+y][x])
			}
		}
	}
	return ""
}

// checkMeta compares the metadata with the model.
func checkMeta(c *radolan.Composite, m *Comp) string {
	if c == nil {
		return "no composite"
	}
	if c.Product != m.Product {
		return fmt.Sprintf("product is %q, want %q", c.Product, m.Product)
	}
	if u := unitNames[m.unit()]; c.DataUnit.String() != u {
		return fmt.Sprintf("unit is %q, want %q", c.DataUnit, u)
	}
	if t := m.capture(); !c.CaptureTime.Equal(t) {
		return fmt.Sprintf("capture time is %v, want %v", c.CaptureTime, t)
	}
	if t := m.forecast(); !c.ForecastTime.Equal(t) {
		return fmt.Sprintf("forecast time is %v, want %v", c.ForecastTime, t)
	}
	for _, t := range []time.Time{c.CaptureTime, c.ForecastTime} {
		if _, off := t.Zone(); off != 0 {
			return fmt.Sprintf("time %v is not stated in UTC", t)
		}
	}
	if d := m.interval(); c.Interval != d {
		return fmt.Sprintf("interval is %v, want %v", c.Interval, d)
	}
	vs := 0
	if m.VS != nil {
		vs = *m.VS
	}
	if c.Format != vs {
		return fmt.Sprintf("format version is %d, want %d", c.Format, vs)
	}
	dx, dy, dz, _ := m.layerDims()
	if c.Px != m.Dx || c.Py != m.Dy {
		return fmt.Sprintf("plain dimensions are %dx%d, want %dx%d", c.Px, c.Py, m.Dx, m.Dy)
	}
	if c.Dx != dx || c.Dy != dy || c.Dz != dz {
		return fmt.Sprintf("dimensions are %dx%dx%d, want %dx%dx%d", c.Dx, c.Dy, c.Dz, dx, dy, dz)
	}
	// projection and resolution
	rx, proj := math.NaN(), false
	if m.Local {
		rx = float64(modelLocal[m.Product][1])
	} else if w, h, f := gridOf(m.Dx, m.Dy); w > 0 {
		if vs < 5 || w == 1100 && h == 1200 {
			rx, proj = f, true
		}
	}
	if c.HasProjection != proj {
		return fmt.Sprintf("projection available: %v, want %v", c.HasProjection, proj)
	}
	for _, r := range []float64{c.Rx, c.Ry} {
		if math.IsNaN(rx) != math.IsNaN(r) || math.Abs(r-rx) > 0.005*rx {
			return fmt.Sprintf("resolution is %v x %v km, want about %v", c.Rx, c.Ry, rx)
		}
	}
	return ""
}

// diffComposite compares all exported fields, bit by bit except that any NaN
// equals any NaN.
func diffComposite(a, b *radolan.Composite) string {
	if a == nil || b == nil {
		if a == b {
			return ""
		}
		return "one composite is missing"
	}
	va, vb := reflect.ValueOf(a).Elem(), reflect.ValueOf(b).Elem()
	t := va.Type()
	for i := 0; i < t.NumField(); i++ {
		if !t.Field(i).IsExported() {
			continue
		}
		if s := diffValue(t.Field(i).Name, va.Field(i), vb.Field(i)); s != "" {
			return s
		}
	}
	return ""
}

func diffValue(name string, a, b reflect.Value) string {
	switch x := a.Interface().(type) {
	case []float32:
		y := b.Interface().([]float32)
		if len(x) != len(y) {
			return fmt.Sprintf("%s: length %d and %d", name, len(x), len(y))
		}
		for i := range x {
			if x[i] != y[i] && !(x[i] != x[i] && y[i] != y[i]) {
				return fmt.Sprintf("%s[%d]: %v and %v", name, i, x[i], y[i])
			}
		}
		return ""
	case time.Time:
		y := b.Interface().(time.Time)
		if !x.Equal(y) || x.String() != y.String() {
			return fmt.Sprintf("%s: %v and %v", name, x, y)
		}
		return ""
	}
	switch a.Kind() {
	case reflect.Slice:
		if a.Len() != b.Len() {
			return fmt.Sprintf("%s: length %d and %d", name, a.Len(), b.Len())
		}
		for i := 0; i < a.Len(); i++ {
			if s := diffValue(fmt.Sprintf("%s[%d]", name, i), a.Index(i), b.Index(i)); s != "" {
				return s
			}
		}
	case reflect.Float64, reflect.Float32:
		x, y := a.Float(), b.Float()
		if x != y && !(x != x && y != y) {
			return fmt.Sprintf("%s: %v and %v", name, x, y)
		}
	default:
		if a.Type().Comparable() {
			if a.Interface() != b.Interface() {
				return fmt.Sprintf("%s: %v and %v", name, a.Interface(), b.Interface())
			}
		} else if !reflect.DeepEqual(a.Interface(), b.Interface()) {
			return fmt.Sprintf("%s differs", name)
		}
	}
	return ""
}

func diffOutcome(a, b *Outcome) string {
	if a.Class != b.Class {
		return fmt.Sprintf("outcome %s (%s) and %s (%s)", a.Class, a.Text, b.Class, b.Text)
	}
	if a.Class == "ok" || a.Class == "unknown-unit" {
		if s := diffComposite(a.Comp, b.Comp); s != "" {
			return s
		}
		if len(a.Comps) != len(b.Comps) {
			return fmt.Sprintf("%d and %d composites", len(a.Comps), len(b.Comps))
		}
		for i := range a.Comps {
			if s := diffComposite(a.Comps[i], b.Comps[i]); s != "" {
				return fmt.Sprintf("composite %d: %s", i, s)
			}
		}
	}
	return ""
}

// consistent checks that a composite reported as a success has the shape its
// own fields state.
func consistent(c *radolan.Composite) string {
	if c == nil {
		return "success without composite"
	}
	if c.Dx <= 0 || c.Dy <= 0 || c.Dz <= 0 || c.Px <= 0 || c.Py <= 0 {
		return fmt.Sprintf("dimensions %dx%dx%d, plain %dx%d", c.Dx, c.Dy, c.Dz, c.Px, c.Py)
	}
	if len(c.PlainData) != c.Py {
		return fmt.Sprintf("%d plain rows, stated %d", len(c.PlainData), c.Py)
	}
	for y, r := range c.PlainData {
		if len(r) != c.Px {
			return fmt.Sprintf("plain row %d has %d cells, stated %d", y, len(r), c.Px)
		}
	}
	if len(c.DataZ) != c.Dz {
		return fmt.Sprintf("%d layers, stated %d", len(c.DataZ), c.Dz)
	}
	for z, l := range c.DataZ {
		if len(l) != c.Dy {
			return fmt.Sprintf("layer %d has %d rows, stated %d", z, len(l), c.Dy)
		}
		for y, r := range l {
			if len(r) != c.Dx {
				return fmt.Sprintf("layer %d row %d has %d cells, stated %d", z, y, len(r), c.Dx)
			}
		}
	}
	return diffValue("pixel data against layer 0", reflect.ValueOf(c.Data), reflect.ValueOf(c.DataZ[0]))
}

// snapshot is a deep copy of the exported fields.
func snapshot(c *radolan.Composite) *radolan.Composite {
	s := *c
	cp := func(p [][]float32) [][]float32 {
		if p == nil {
			return nil
		}
		o := make([][]float32, len(p))
		for i := range p {
			o[i] = append([]float32(nil), p[i]...)
		}
		return o
	}
	s.PlainData = cp(c.PlainData)
	s.Data = cp(c.Data)
	if c.DataZ != nil {
		s.DataZ = make([][][]float32, len(c.DataZ))
		for i := range c.DataZ {
			s.DataZ[i] = cp(c.DataZ[i])
		}
	}
	return &s
}
