package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"fmt"
	"image"
	"image/color"
	"image/png"
	"io"
	"math"
	"os"
	"os/exec"
	"path/filepath"
	"reflect"
	"regexp"
	"sort"
	"strings"
	"sync"
	"time"

	"gitlab.cs.fau.de/since/radolan"
	"gitlab.cs.fau.de/since/radolan/radolan2png/vis"
	"radosim/rt"
)

// WRun is one run of the conversion program against the simulated system.
type WRun struct {
	In      string   `json:"in"`
	Out     string   `json:"out"`
	Rel     bool     `json:"rel,omitempty"`     // names relative to the working directory
	RO      bool     `json:"ro,omitempty"`      // the input is write-protected
	Src     int      `json:"src,omitempty"`     // which input
	Swap    int      `json:"swap,omitempty"`    // system call before which another process replaces the input, 0 never
	SwapSrc int      `json:"swapsrc,omitempty"` // ... by this one
	Evs     []WEvent `json:"evs,omitempty"`     // what another process does to the input meanwhile
	Args    string   `json:"args,omitempty"`    // none, one or more arguments than two
	Env     []string `json:"env,omitempty"`     // environment variables, replacing the usual ones
	SC      []int    `json:"sc,omitempty"`      // sizes of the first writes to the terminal, 0: interrupted
	InKind  string   `json:"inkind,omitempty"`
	OutKind string   `json:"outkind,omitempty"`
	Old     string   `json:"old,omitempty"` // former content of the output
	TZ      int      `json:"tz,omitempty"`
	Clock   int64    `json:"clock,omitempty"`
	Step    int64    `json:"step,omitempty"`
	Age     int64    `json:"age,omitempty"`    // seconds since the input was changed last, by the clock
	OldAge  int64    `json:"oldage,omitempty"` // ... and the former output
	Rand    uint64   `json:"rand"`
	RC      []int    `json:"rc,omitempty"` // sizes of the first reads, 0: interrupted
	WC      []int    `json:"wc,omitempty"` // sizes of the first writes, 0: interrupted
	RTail   int      `json:"rtail,omitempty"`
	WTail   int      `json:"wtail,omitempty"`
	Pages   int      `json:"pages,omitempty"` // memory limit above the minimum
	Part    int      `json:"part,omitempty"`  // per mille of a write that arrive when the program dies in it
	Faults  []WFault `json:"faults,omitempty"`
	Side    []WSide  `json:"side,omitempty"`
}

// WSide is a file around.
type WSide struct {
	Path string `json:"path"`
	Kind string `json:"kind"`
}

var words struct {
	once       sync.Once
	vars, name []string
}

var varName = regexp.MustCompile(`^[A-Z_][A-Z0-9_]+$`)
var fileName = regexp.MustCompile(`^[-_.~a-zA-Z0-9]+$`)

// loadWords reads the strings of the code under test that may be names of
// variables or files.
func loadWords() {
	words.once.Do(func() {
		b, err := os.ReadFile(".build/words.json")
		if err != nil {
			return
		}
		var l []string
		if json.Unmarshal(b, &l) != nil {
			return
		}
		for _, w := range l {
			_, known := modelUnits[w]
			if varName.MatchString(w) && !known && !headerTokens[w] && w != "PWD" && w != "TZ" {
				words.vars = append(words.vars, w)
			}
			w = strings.Trim(w, "/")
			if fileName.MatchString(w) && (strings.ContainsAny(w, "._~-") || strings.ToLower(w) == w && len(w) > 2) && strings.Trim(w, ".-_") != "" && !strings.HasSuffix(w, ".") {
				words.name = append(words.name, w)
			}
		}
	})
}

// genSide offers files under names the program knows.
func genSide(r *Rng, w *WRun) {
	loadWords()
	if len(words.name) == 0 || !r.P(1, 2) {
		return
	}
	for k := r.R(1, 3); k > 0; k-- {
		n := words.name[r.N(len(words.name))]
		p := pick(r, wDir+"/", "/work/", "/tmp/", "/") + n
		if !(n[0] >= 'a' && n[0] <= 'z') && r.P(3, 4) || r.P(1, 6) {
			f := pick(r, w.In, w.Out)
			if r.P(1, 3) {
				f = strings.TrimSuffix(f, filepath.Ext(f))
			}
			p = wDir + "/" + f + n
		}
		if filepath.Clean(p) == p {
			w.Side = append(w.Side, WSide{Path: p, Kind: pick(r, "text", "empty", "json", "one", "input", "input", "input", "png")})
		}
	}
}

// WEvent is something another process does to the input before a system call.
type WEvent struct {
	At   int    `json:"at"`
	Kind string `json:"kind"` // have (N bytes at the start), append (up to N), truncate (to N), remove
	N    int    `json:"n,omitempty"`
}

// WFault makes a system call fail or kills the program.
type WFault struct {
	Call    string `json:"call"`
	Path    string `json:"path"`
	Nth     int    `json:"nth"`
	At      int    `json:"at"` // byte offset, -1: none
	Kind    string `json:"kind"`
	Err     string `json:"err,omitempty"`
	N       int    `json:"n,omitempty"` // bytes lost by a failing close
	Persist bool   `json:"persist,omitempty"`
}

type wFile struct {
	At   int    `json:"at,omitempty"`
	Kind string `json:"kind,omitempty"`
	Path string `json:"path"`
	Data []byte `json:"data"`
	N    int    `json:"n,omitempty"`
	Perm string `json:"perm,omitempty"`
	Time string `json:"mtime,omitempty"`
}

type wRequest struct {
	Args      []string `json:"args"`
	Env       []string `json:"env"`
	Dirs      []wFile  `json:"dirs"`
	Files     []wFile  `json:"files"`
	In        string   `json:"in"`
	Out       string   `json:"out"`
	Clock     string   `json:"clock"`
	ClockStep int64    `json:"clockstep"`
	Seed      string   `json:"seed"`
	RC        []int    `json:"rc,omitempty"`
	WC        []int    `json:"wc,omitempty"`
	SC        []int    `json:"sc,omitempty"`
	RTail     int      `json:"rtail,omitempty"`
	WTail     int      `json:"wtail,omitempty"`
	Pages     int      `json:"pages,omitempty"`
	CrashPart int      `json:"crashpart,omitempty"`
	Faults    []WFault `json:"faults,omitempty"`
	Keep      bool     `json:"keep,omitempty"`
	MaxCalls  int      `json:"maxcalls,omitempty"`
	Events    []wFile  `json:"events,omitempty"`

	Pair  []*wRequest `json:"pair,omitempty"`
	Sched []rt.Slice  `json:"sched,omitempty"`
}

type wAnswer struct {
	Error   string   `json:"error"`
	Exit    int      `json:"exit"`
	Killed  bool     `json:"killed"`
	Endless bool     `json:"endless"`
	Stdout  []byte   `json:"stdout"`
	Stderr  []byte   `json:"stderr"`
	Files   []wFile  `json:"files"`
	Dirs    []string `json:"dirs"`
	Calls   int      `json:"calls"`

	Happened int            `json:"happened"` // events
	Hits     map[string]int `json:"hits"`
	SimNS    int64          `json:"simns"`
	Hash     string         `json:"hash"`
	Log      []string       `json:"log"`
	Pair     []*wAnswer     `json:"pair"`
	Trace    []rt.Slice     `json:"trace"`
}

func (a *wAnswer) file(p string) ([]byte, bool) {
	for _, f := range a.Files {
		if f.Path == p {
			return f.Data, true
		}
	}
	return nil, false
}

func (a *wAnswer) ending() string {
	switch {
	case a.Killed:
		return "killed"
	case a.Endless:
		return "no end"
	}
	return fmt.Sprintf("exit status %d", a.Exit)
}

// host is the child process that runs the wasm code.
type wHost struct {
	in  io.Writer
	out *bufio.Reader
	cmd *exec.Cmd
}

var theHost *wHost

func wasmCall(rq *wRequest) *wAnswer {
	if theHost == nil {
		self, err := os.Executable()
		if err != nil {
			panic(err)
		}
		bin := filepath.Dir(self)
		cmd := exec.Command("node", filepath.Join(bin, "../../wasi/host.mjs"), filepath.Join(bin, "radolan2png.wasm"))
		cmd.Stderr = os.Stderr
		in, err := cmd.StdinPipe()
		if err != nil {
			panic(err)
		}
		out, err := cmd.StdoutPipe()
		if err != nil {
			panic(err)
		}
		if err := cmd.Start(); err != nil {
			panic(err)
		}
		theHost = &wHost{in, bufio.NewReaderSize(out, 1<<20), cmd}
	}
	b := mustJSON(rq)
	if _, err := theHost.in.Write(append(b, '\n')); err != nil {
		infra("wasm host: " + err.Error())
	}
	l, err := theHost.out.ReadBytes('\n')
	if err != nil {
		infra("wasm host: " + err.Error())
	}
	var a wAnswer
	if err := json.Unmarshal(l, &a); err != nil {
		infra("wasm host: " + err.Error())
	}
	if a.Error != "" {
		infra("wasm host: " + a.Error)
	}
	return &a
}

// infra ends the worker without a verdict.
func infra(s string) {
	fmt.Fprintln(os.Stderr, "sim:", s)
	os.Exit(70)
}

var wZones = []string{"0", "7200", "3600", "-41400", "50400", "20700", "JUMP", "JUMP"}

const wDir = "/work/data"

// others are files around that nobody should touch.
var others = []wFile{{Path: wDir + "/notes.txt", Data: []byte("keep me\n")}, {Path: wDir + "/out.png.tmp", Data: []byte("mine")}, {Path: wDir + "/out.png~", Data: []byte("backup")},
	{Path: wDir + "/out.tmp", Data: []byte("t")}, {Path: wDir + "/out.png.bak", Data: []byte("b")}, {Path: wDir + "/.out.png", Data: []byte("h")}, {Path: "/tmp/x", Data: []byte("x")}, {Path: wDir + "/tmp.png", Data: []byte("tp")}}

func oldPNG(w, h int) []byte {
	img := image.NewRGBA(image.Rect(0, 0, w, h))
	for i := range img.Pix {
		img.Pix[i] = byte(i*i>>3) | 1
	}
	var b bytes.Buffer
	png.Encode(&b, img)
	return b.Bytes()
}

func oldContent(kind string) []byte {
	switch kind {
	case "png":
		return oldPNG(30, 20)
	case "bigpng":
		return oldPNG(400, 300)
	case "text":
		return []byte("this is not a picture\n")
	case "empty":
		return []byte{}
	case "long":
		return bytes.Repeat([]byte("0123456789abcdef"), 40000)
	}
	return nil
}

func (w *WRun) request(input []byte, keep bool) *wRequest {
	rq := &wRequest{ClockStep: w.Step, Clock: fmt.Sprint(w.Clock), Seed: fmt.Sprint(w.Rand), RC: w.RC, WC: w.WC, SC: w.SC, RTail: w.RTail, WTail: w.WTail, Pages: w.Pages,
		CrashPart: w.Part, Faults: w.Faults, Keep: keep, MaxCalls: 200000 + 8*len(input) + 4*len(oldContent(w.Old))}
	rq.In, rq.Out = wDir+"/"+w.In, wDir+"/"+w.Out
	rq.Dirs = []wFile{{Path: "/work"}, {Path: wDir}, {Path: "/tmp"}}
	switch w.OutKind {
	case "noparent":
		rq.Out = wDir + "/absent/" + w.Out
	case "rodir":
		rq.Out = "/ro/" + w.Out
		rq.Dirs = append(rq.Dirs, wFile{Path: "/ro", Perm: "ro"})
	case "rofs":
		rq.Out = "/ro/" + w.Out
		rq.Dirs = append(rq.Dirs, wFile{Path: "/ro", Perm: "rofs"})
	case "dir":
		rq.Dirs = append(rq.Dirs, wFile{Path: rq.Out})
	}
	if d := filepath.Dir(rq.Out); d != wDir && w.OutKind == "" {
		rq.Dirs = append(rq.Dirs, wFile{Path: d})
	}
	in, out := rq.In, rq.Out
	if w.Rel {
		in = strings.TrimPrefix(in, wDir+"/")
		out = strings.TrimPrefix(out, wDir+"/")
	}
	rq.Args = []string{"radolan2png", in, out}
	switch w.Args {
	case "none":
		rq.Args = rq.Args[:1]
	case "one":
		rq.Args = rq.Args[:2]
	case "more":
		rq.Args = append(rq.Args, "notes.txt", "more.png")
	}
	rq.Env = []string{"PWD=" + wDir, "HOME=/work", "TMPDIR=/tmp"}
	if w.Env != nil {
		rq.Env = append([]string{"PWD=" + wDir}, w.Env...)
	}
	if w.TZ > 0 {
		rq.Env = append(rq.Env, fmt.Sprintf("TZ=SIM%s", wZones[w.TZ%len(wZones)]))
	}
	switch w.InKind {
	case "missing":
	case "dir":
		rq.Dirs = append(rq.Dirs, wFile{Path: rq.In})
	case "noperm":
		rq.Files = append(rq.Files, wFile{Path: rq.In, Data: input, Perm: "none"})
	default:
		perm := ""
		if w.RO {
			perm = "ro"
		}
		if w.InKind == "pipe" {
			perm = "pipe"
		}
		had := len(input)
		for _, v := range w.Evs {
			x := wFile{At: v.At, Kind: v.Kind, Path: rq.In, N: min(v.N, len(input))}
			switch v.Kind {
			case "have":
				had = x.N
				continue
			case "append":
				x.Data = input[:x.N]
			}
			rq.Events = append(rq.Events, x)
		}
		rq.Files = append(rq.Files, wFile{Path: rq.In, Data: input[:had], Perm: perm, Time: fmt.Sprint(w.Clock - w.Age*1e9)})
	}
	if w.Old != "" && w.OutKind != "dir" && w.OutKind != "noparent" && rq.Out != rq.In {
		perm := ""
		if w.OutKind == "rofile" {
			perm = "ro"
		}
		if w.OutKind == "rofs" {
			perm = "rofs"
		}
		rq.Files = append(rq.Files, wFile{Path: rq.Out, Data: oldContent(w.Old), Perm: perm, Time: fmt.Sprint(w.Clock - w.OldAge*1e9)})
	}
	if w.InKind != "" && w.InKind != "pipe" { // the composite under similar names
		for _, n := range []string{rq.In + ".bak", rq.In + "~", rq.In + ".bin", rq.In + "---bin", rq.In + ".old", wDir + "/" + strings.ToUpper(w.In), "/work/" + w.In, "/" + w.In, "/tmp/" + w.In, strings.TrimSuffix(rq.In, filepath.Ext(rq.In)) + ".dat"} {
			if n != rq.In && n != rq.Out {
				rq.Files = append(rq.Files, wFile{Path: n, Data: input})
			}
		}
	}
	for _, f := range others {
		if f.Path != rq.In && f.Path != rq.Out {
			rq.Files = append(rq.Files, f)
		}
	}
	taken := map[string]bool{rq.In: true, rq.Out: true}
	for _, f := range append(rq.Files, rq.Dirs...) {
		taken[f.Path] = true
	}
	for _, s := range w.Side {
		if taken[s.Path] {
			continue
		}
		taken[s.Path] = true
		f := wFile{Path: s.Path, Data: oldContent(s.Kind)}
		switch s.Kind {
		case "json":
			f.Data = []byte("{}\n")
		case "one":
			f.Data = []byte("1\n")
		case "input":
			f.Data = input
		}
		rq.Files = append(rq.Files, f)
	}
	return rq
}

// benign tells whether nothing that happened excuses a failure.
func benign(a *wAnswer) bool {
	for k := range a.Hits {
		switch k {
		case "short_read", "short_write", "eintr_read", "eintr_write":
		default:
			return false
		}
	}
	return true
}

// bystanders checks that only the output changed.
func bystanders(rq *wRequest, a *wAnswer, outToo bool) string {
	was := map[string][]byte{}
	for _, f := range rq.Files {
		was[f.Path] = f.Data
	}
	for _, f := range a.Files {
		if f.Path == rq.Out && !outToo {
			continue
		}
		w, ok := was[f.Path]
		if !ok {
			return "file " + f.Path + " appeared"
		}
		if !bytes.Equal(w, f.Data) {
			return "file " + f.Path + " changed"
		}
	}
	for p := range was {
		if p == rq.Out && !outToo {
			continue
		}
		if _, ok := a.file(p); !ok {
			return "file " + p + " vanished"
		}
	}
	dirs := map[string]bool{"/": true}
	for _, d := range rq.Dirs {
		dirs[d.Path] = true
	}
	for _, d := range a.Dirs {
		if !dirs[d] {
			return "directory " + d + " appeared"
		}
	}
	if len(a.Dirs) != len(dirs) {
		return "a directory vanished"
	}
	return ""
}

// decodeAll decodes a PNG that has to fill the file.
func decodeAll(b []byte) (image.Image, error) {
	r := bytes.NewReader(b)
	img, err := png.Decode(r)
	if err != nil {
		return nil, err
	}
	if r.Len() > 0 {
		return img, fmt.Errorf("%d bytes follow the image", r.Len())
	}
	return img, nil
}

func samePixels(a, b image.Image) string {
	if a.Bounds() != b.Bounds() {
		return fmt.Sprintf("size %v instead of %v", a.Bounds().Size(), b.Bounds().Size())
	}
	if x, ok := a.(*image.RGBA); ok {
		if y, ok := b.(*image.RGBA); ok && bytes.Equal(x.Pix, y.Pix) {
			return ""
		}
	}
	for y := a.Bounds().Min.Y; y < a.Bounds().Max.Y; y++ {
		for x := a.Bounds().Min.X; x < a.Bounds().Max.X; x++ {
			if color.NRGBAModel.Convert(a.At(x, y)) != color.NRGBAModel.Convert(b.At(x, y)) {
				return fmt.Sprintf("pixel (%d, %d) is %v instead of %v", x, y, a.At(x, y), b.At(x, y))
			}
		}
	}
	return ""
}

func colourFor(m *Comp) vis.ColorFunc {
	switch m.unit() {
	case uMM:
		max := 200.0
		if m.interval() <= time.Hour {
			max = 100
		}
		if m.interval() >= 7*24*time.Hour {
			max = 400
		}
		return vis.Heatmap(0.1, max, vis.Log)
	case uDBZ:
		return vis.HeatmapReflectivity
	case uKM:
		return vis.Graymap(0, 15, vis.Id)
	}
	return vis.HeatmapRadialVelocity
}

var wBorder, wMesh = color.RGBA{0xFF, 0xFF, 0x00, 0xFF}, color.RGBA{0x33, 0xFF, 0x22, 0xFF}

// checkPicture compares the picture of an undisturbed run with the model.
func checkPicture(img image.Image, m *Comp) string {
	dx, dy, _, skip := m.layerDims()
	if img.Bounds() != image.Rect(0, 0, dx, dy) {
		return fmt.Sprintf("picture has size %v, composite %dx%d", img.Bounds().Size(), dx, dy)
	}
	want := m.PlainValues()
	col := colourFor(m)
	_, _, f := gridOf(dx, dy)
	vs := 0
	if m.VS != nil {
		vs = *m.VS
	}
	w, h, _ := gridOf(dx, dy)
	overlay := f > 0 && !m.Local && (vs < 5 || w == 1100 && h == 1200)
	mesh := map[image.Point]bool{}
	if overlay {
		d := radolan.NewDummy(m.Product, vs, dx, dy)
		for e := 1.0; e < 16.0; e += 0.1 {
			for n := 46.0; n < 55.0; n += 0.1 {
				if e-float64(int(e)) < 0.1 || n-float64(int(n)) < 0.1 {
					x, y := d.Project(n, e)
					if p := image.Pt(int(x), int(y)); p.In(img.Bounds()) {
						mesh[p] = true
					}
				}
			}
		}
	}
	borders, meshed, missing, stray := 0, 0, 0, 0
	var bb image.Rectangle // of the borders
	for y := 0; y < dy; y++ {
		for x := 0; x < dx; x++ {
			c := color.RGBAModel.Convert(img.At(x, y)).(color.RGBA)
			if overlay && c == wMesh {
				meshed++
				nearby := false
				for i := 0; i < 9; i++ {
					nearby = nearby || mesh[image.Pt(x-1+i%3, y-1+i/3)]
				}
				if !nearby {
					stray++
				}
				continue
			}
			if overlay && mesh[image.Pt(x, y)] {
				missing++
			}
			if overlay && c == wBorder {
				borders++
				bb = bb.Union(image.Rect(x, y, x+1, y+1))
				continue
			}
			v := want[skip+y][x]
			ok := false
			// the last bit of a value may tip a colour step
			for _, v := range []float64{float64(float32(v)), float64(math.Nextafter32(float32(v), float32(math.Inf(1)))), float64(math.Nextafter32(float32(v), float32(math.Inf(-1))))} {
				e := col(v)
				if near(e.R, c.R) && near(e.G, c.G) && near(e.B, c.B) && c.A == 0xFF {
					ok = true
				}
			}
			if !ok {
				return fmt.Sprintf("pixel (%d, %d) for value %v is %v instead of %v", x, y, v, c, col(float64(float32(v))))
			}
		}
	}
	if overlay && (borders < 20 || missing*20 > len(mesh)) {
		return fmt.Sprintf("overlay: %d border pixels, %d mesh pixels, %d mesh pixels missing", borders, meshed, missing)
	}
	if overlay && stray*20 > len(mesh) {
		return fmt.Sprintf("overlay: %d of %d mesh pixels are not near full degrees", stray, meshed)
	}
	if overlay { // the borders reach the ends of the country, and no farther
		d := radolan.NewDummy(m.Product, vs, dx, dy)
		var want image.Rectangle
		for _, p := range [][2]float64{{51.05, 5.87}, {51.27, 15.04}, {55.05, 8.42}, {47.27, 10.18}} {
			x, y := d.Project(p[0], p[1])
			want = want.Union(image.Rect(int(x), int(y), int(x)+1, int(y)+1))
		}
		if slack := 2 + dy/50; !bb.In(want.Inset(-slack)) || !want.Inset(slack).In(bb) {
			return fmt.Sprintf("overlay: borders within %v, want %v", bb, want)
		}
	}
	return ""
}

func near(a, b uint8) bool { return a == b || a+1 == b || b+1 == a || a+2 == b || b+2 == a }

func first(b []byte) string { return strings.SplitN(string(b), "\n", 2)[0] }

func (e *execution) wrun(w *WRun, input []byte) (*wRequest, *wAnswer) {
	rq := w.request(input, e.log.Keep)
	a := wasmCall(rq)
	e.ran(a)
	return rq, a
}

// ran takes note of a run.
func (e *execution) ran(a *wAnswer) {
	e.st.Ops++
	e.st.SimNS += a.SimNS
	e.st.Calls += int64(a.Calls)
	for k, n := range a.Hits {
		e.st.Fault[k] += n
	}
	if a.Trapped() {
		e.st.Fault["memory_exhausted"]++
	}
	for _, l := range a.Log {
		e.log.Lines = append(e.log.Lines, l)
	}
	e.log.Note(a.Hash + " " + a.ending() + " " + first(a.Stdout) + " | " + first(a.Stderr))
}

// Trapped tells whether the program ran out of memory.
func (a *wAnswer) Trapped() bool { return bytes.Contains(a.Stderr, []byte("out of memory")) }

// wasm is C14 to C17.
func (e *execution) wasm() {
	p := e.p
	in := p.Inputs[0]
	input, _ := in.Bytes()
	e.probeInput(in)
	plain := &WRun{In: "in", Out: "out.png", Rand: 1}
	var base *wAnswer
	var baseOut []byte
	var baseImg image.Image
	if in.Valid() && (p.Prop != "C15" || hasEvents(p)) {
		var rq *wRequest
		rq, base = e.wrun(plain, input)
		if base.Exit != 0 || base.Endless {
			e.fail("undisturbed-fails", "undisturbed conversion ends with %s: %s", base.ending(), first(base.Stderr))
			return
		}
		var ok bool
		baseOut, ok = base.file(rq.Out)
		if !ok {
			e.fail("undisturbed-no-output", "undisturbed conversion ends with exit status 0 without output")
			return
		}
		var err error
		if baseImg, err = decodeAll(baseOut); err != nil {
			e.fail("undisturbed-bad-output", "undisturbed conversion ends with exit status 0 and an unreadable output: %v", err)
			return
		}
		if p.Prop == "C14" {
			if s := checkPicture(baseImg, in.Comp); s != "" {
				e.fail("undisturbed-wrong", "undisturbed conversion: %s", s)
				return
			}
		}
		if p.Prop == "C17" {
			t := in.Comp.forecast()
			l := string(base.Stdout)
			if !strings.Contains(l, in.Comp.Product) || !strings.Contains(l, unitNames[in.Comp.unit()]) || !strings.Contains(l, t.Format("2006-01-02 15:04:05")) || !strings.Contains(l, "UTC") {
				e.fail("summary-wrong", "summary %q for product %s in %s at %v", first(base.Stdout), in.Comp.Product, unitNames[in.Comp.unit()], t)
				return
			}
		}
	}
	for k, op := range p.Tasks[0] {
		w := op.W
		rq, a := e.wrun(w, input)
		if len(a.Hits) > 0 || w.TZ > 0 || w.Clock != 0 {
			e.nontrivial = true
		}
		old, hadOld := []byte(nil), false
		for _, f := range rq.Files {
			if f.Path == rq.Out {
				old, hadOld = f.Data, true
			}
		}
		out, hasOut := a.file(rq.Out)
		e.st.Probe["end_"+strings.ReplaceAll(a.ending(), " ", "_")]++
		if a.Endless {
			e.fail("no-end", "run %d: the program does not end (%d system calls)", k, a.Calls)
			return
		}
		if !a.Killed && a.Exit != 0 && len(bytes.TrimSpace(a.Stderr)) == 0 && (p.Prop == "C14" || p.Prop == "C15") {
			e.fail("silent-failure", "run %d: %s without any message on standard error", k, a.ending())
			return
		}
		switch p.Prop {
		case "C14":
			if a.Exit == 0 {
				if !hasOut {
					e.fail("success-without-output", "run %d: exit status 0, but there is no output file", k)
					return
				}
				img, err := decodeAll(out)
				if err != nil {
					e.fail("success-incomplete", "run %d: exit status 0, but the output (%d bytes) is no complete picture: %v", k, len(out), err)
					return
				}
				if s := samePixels(img, baseImg); s != "" {
					e.fail("success-wrong-picture", "run %d: exit status 0, but %s", k, s)
					return
				}
			} else if benign(a) && w.Pages == 0 && w.OutKind == "" && w.In != w.Out {
				e.fail("needless-failure", "run %d: nothing failed, but the program ends with %s: %s", k, a.ending(), first(a.Stderr))
				return
			}
		case "C15":
			if w.Args == "none" || w.Args == "one" {
				if s := bystanders(rq, a, true); s != "" {
					e.fail("usage-changes-files", "run %d: arguments are missing, and %s", k, s)
					return
				}
				e.st.Probe["arguments_missing"]++
				continue
			}
			if len(w.Evs) > 0 {
				// the input was growing, cut or removed meanwhile
				e.nontrivial = true
				if a.Exit == 0 {
					e.st.Probe["changing_input_used"]++
					if !hasOut || !bytes.Equal(out, baseOut) {
						e.fail("unusable-accepted", "run %d: the input was changed meanwhile, and the program ends with exit status 0 and a picture of less than the whole of it", k)
						return
					}
				} else {
					e.st.Probe["changing_input_rejected"]++
				}
				if s := bystanders(afterEvents(rq, a), a, a.Exit != 0); s != "" {
					e.fail("unusable-changes-files", "run %d: the input was changed meanwhile, the program ends with %s, and %s", k, a.ending(), s)
					return
				}
				continue
			}
			unusable := w.InKind != "" || !in.Valid() && e.unusable(in) || in.Valid() && inputFailed(a)
			if unusable {
				e.st.Probe["unusable_input"]++
				if a.Exit == 0 {
					e.fail("unusable-accepted", "run %d: the input is unusable (%s), but the program ends with exit status 0", k, why(w, in, a))
					return
				}
				if s := bystanders(rq, a, true); s != "" {
					e.fail("unusable-changes-files", "run %d: the input is unusable (%s), the program ends with %s, and %s", k, why(w, in, a), a.ending(), s)
					return
				}
			} else {
				e.st.Probe["usable_or_open"]++
				if s := bystanders(rq, a, false); s != "" {
					e.fail("changes-other-files", "run %d: the program ends with %s and %s", k, a.ending(), s)
					return
				}
			}
		case "C16":
			if b, ok := a.file(rq.In); !ok || !bytes.Equal(b, input) {
				e.fail("input-changed", "run %d: %s, and the input is not what it was", k, a.ending())
				return
			}
			if !hasOut {
				e.st.Probe["output_absent"]++
				if hadOld {
					e.st.Probe["output_removed"]++
				}
				break
			}
			if hadOld && bytes.Equal(out, old) {
				e.st.Probe["output_former"]++
				break
			}
			img, err := png.Decode(bytes.NewReader(out))
			if err != nil {
				e.st.Probe["output_rejected"]++
				if !a.Killed && a.Exit == 0 {
					e.fail("success-incomplete", "run %d: exit status 0, but the output is no complete picture: %v", k, err)
					return
				}
				break
			}
			if s := samePixels(img, baseImg); s != "" {
				e.fail("wrong-complete-picture", "run %d: %s, and the output is a readable picture (%d bytes), but %s", k, a.ending(), len(out), s)
				return
			}
			e.st.Probe["output_complete"]++
		case "C17":
			if a.Exit != 0 {
				e.fail("environment-fails", "run %d: %s in another environment: %s", k, a.ending(), first(a.Stderr))
				return
			}
			if !bytes.Equal(a.Stdout, base.Stdout) {
				e.fail("summary-differs", "run %d: printed %q instead of %q", k, first(a.Stdout), first(base.Stdout))
				return
			}
			if !hasOut || !bytes.Equal(out, baseOut) {
				e.fail("picture-differs", "run %d: the output (%d bytes) differs from that in another environment (%d bytes)", k, len(out), len(baseOut))
				return
			}
		}
	}
}

func hasEvents(p *Plan) bool {
	for _, op := range p.Tasks[0] {
		if len(op.W.Evs) > 0 {
			return true
		}
	}
	return false
}

// afterEvents is the request with the input as the other process left it.
func afterEvents(rq *wRequest, a *wAnswer) *wRequest {
	x := *rq
	x.Files = nil
	for _, f := range rq.Files {
		if f.Path == rq.In {
			gone := false
			for _, v := range rq.Events[:a.Happened] {
				switch v.Kind {
				case "append":
					f.Data = append(append([]byte(nil), f.Data...), v.Data[min(len(f.Data), len(v.Data)):]...)
				case "truncate":
					f.Data = f.Data[:min(v.N, len(f.Data))]
				case "remove":
					gone = true
				}
			}
			if gone {
				continue
			}
		}
		x.Files = append(x.Files, f)
	}
	return &x
}

func inputFailed(a *wAnswer) bool {
	for k := range a.Hits {
		if k == "early_eof_in" || strings.HasPrefix(k, "fd_read_in_") || strings.HasPrefix(k, "path_open_in_") {
			return true
		}
	}
	return false
}

func why(w *WRun, in *Input, a *wAnswer) string {
	if w.InKind != "" {
		return w.InKind
	}
	var ks []string
	for k := range a.Hits {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	if !in.Valid() {
		ks = append(ks, "not a complete composite")
	}
	return strings.Join(ks, ", ")
}

// unusable tells whether the stored bytes are certainly no complete composite:
// cut short, not to be understood, or noise without any header.
func (e *execution) unusable(in *Input) bool {
	if in.Comp == nil {
		b, _ := in.Bytes()
		return !bytes.Contains(b, []byte("BY")) || !bytes.Contains(b, []byte{3})
	}
	if in.Comp.damaged() {
		return true
	}
	full, _ := in.Comp.Bytes()
	b, _ := in.Bytes()
	lim := len(full)
	if in.Comp.Enc == RL {
		lim--
	}
	return len(b) < lim && bytes.HasPrefix(full, b)
}

// ---- generation ----

func genRW(r *Rng, w *WRun, n int) {
	if r.P(1, 2) {
		for k := r.R(1, 12); k > 0; k-- {
			w.RC = append(w.RC, pick(r, 0, 1, 2, 7, r.Small(1, 4096), r.R(1, 4096)))
		}
	}
	if r.P(1, 3) && n < 3000 || r.P(1, 6) && n < 200000 {
		w.RTail = pick(r, 1, 3, 100, 511, 4095)
		if n > 3000 && w.RTail < 100 {
			w.RTail = 333
		}
	}
	if r.P(1, 2) {
		for k := r.R(1, 14); k > 0; k-- {
			w.WC = append(w.WC, pick(r, 0, 1, 3, 7, r.Small(1, 4096)))
		}
	}
	if r.P(1, 4) {
		w.WTail = pick(r, 1, 2, 5, 100, 4096)
		if w.WTail < 100 && n > 3000 {
			w.WTail = 300
		}
	}
}

func genWEnv(r *Rng) *WRun {
	w := &WRun{In: "in", Out: "out.png", Rand: r.U64()}
	if r.P(1, 2) {
		w.In = pick(r, "raa01-rx_10000-1408210950-dwd---bin", "in put", "Eingabe-Ä", "x", "in.png", "a.b.c", "-in", "--", "-", "in.bz2", "raa01-rx.tar.bz2", "in.gz", "IN",
			"%s%d", "raa01-wx_10000-9912312355-dwd---bin", "PZ000000", "in~", "*", "in\n", "in.txt", "FZ_060", "$in", "in;x", "'")
	}
	if r.P(1, 2) {
		w.Out = pick(r, "out put.png", "bild", "out.jpg", "Ä.png", "zz", "out.png.x", "-out.png", "-", "--", "out.PNG", "out.gray.png", "%d.png", "%s.png", "out.gif", "out.bz2",
			"out.raw.png", "out", "*.png", "o\n.png", "out.jpeg", "out.tiff", "out_layer3.png", "out@2x.png", "$out.png", "OUT", ".png", "out.png.gz")
	}
	if loadWords(); len(words.name) > 0 && r.P(1, 4) { // names made of the program's own strings
		n := words.name[r.N(len(words.name))]
		switch r.N(6) {
		case 0:
			w.In = n
		case 1:
			w.Out = n
		case 2:
			w.In = "in" + n
		case 3:
			w.Out = n + ".png"
		default:
			w.Out = strings.TrimSuffix(w.Out, filepath.Ext(w.Out)) + n
		}
	}
	if r.P(1, 2) {
		w.Rel = true
	}
	if w.In == w.Out {
		w.Out = "out.png"
	}
	w.RO = r.P(1, 4)
	if r.P(1, 3) {
		w.Env = []string{}
		for _, v := range []string{"HOME=/work", "HOME=/nowhere", "TMPDIR=/tmp", "TMPDIR=/nowhere", "LANG=de_DE.UTF-8", "LC_ALL=C", "LC_NUMERIC=de_DE", "TERM=dumb", "COLUMNS=20", "NO_COLOR=1",
			"DEBUG=1", "VERBOSE=1", "RADOLAN=x", "LAYER=1", "GOMAXPROCS=1", "GOGC=1", "XDG_CONFIG_HOME=/work/data", "USER=nobody", "PATH="} {
			if r.P(1, 4) {
				w.Env = append(w.Env, v)
			}
		}
		if loadWords(); len(words.vars) > 0 && r.P(1, 2) {
			for k := r.R(1, 4); k > 0; k-- {
				w.Env = append(w.Env, words.vars[r.N(len(words.vars))]+"="+pick(r, "1", "1", "0", "true", "x", "", "2", "10", "/tmp", "/nowhere", "UTC", "Europe/Berlin", "de", "debug", "0.5"))
			}
		}
	}
	if r.P(1, 4) {
		for k := r.R(1, 6); k > 0; k-- {
			w.SC = append(w.SC, pick(r, 0, 1, 2, 5, 20))
		}
	}
	if r.P(2, 3) {
		w.Old = pick(r, "png", "bigpng", "text", "empty", "long")
	}
	if r.P(2, 3) {
		w.TZ = r.N(len(wZones))
	}
	if r.P(2, 3) {
		w.Clock = int64(r.U64() % uint64(4e18))
		w.Step = int64(pick(r, 0, 1, 1000000, 3600_000_000_000, -1000, -86400_000_000_000, 100))
	}
	if r.P(1, 2) {
		w.Age = pick[int64](r, 1, 60, 3600, 86400, 1000000000, -3600)
	}
	if r.P(1, 2) {
		w.OldAge = pick[int64](r, 1, 60, 3600, 86400, 1000000000, -3600)
	}
	return w
}

var wErrs = []string{"EIO", "ENOSPC", "EDQUOT", "EFBIG", "EPERM", "ENOMEM", "ESTALE"}

func genWPlan(r *Rng, p *Plan) {
	defer func() {
		for _, op := range p.Tasks[0] {
			genSide(r, op.W)
		}
	}()
	sz := szTiny
	switch {
	case r.P(1, 4):
		sz = szSmall
	case r.P(1, 6):
		sz = szGrid
	case r.P(1, 12):
		sz = szLocal
	case r.P(1, 20):
		sz = szWide
	case r.P(1, 60):
		sz = szLocal3
	case r.P(1, 400):
		sz = szFull
	}
	c := GenComp(r, sz)
	in := &Input{Comp: c}
	p.Inputs = []*Input{in}
	b, m := in.Bytes()
	n := len(b)
	var ops []Op
	add := func(w *WRun) { ops = append(ops, Op{K: "run", W: w}) }
	runs := r.R(2, 6)
	if n > 100000 {
		runs = 2
	}
	at := func() int { // offset in the input that is still needed
		k := r.N(n)
		if r.P(1, 2) {
			k = m[r.N(len(m))] + r.R(-2, 0)
		}
		if lim := n - 2; k > lim {
			k = lim
		}
		if k < 0 {
			k = 0
		}
		return k
	}
	rfault := func() WFault {
		f := WFault{Call: "fd_read", Path: "in", At: at(), Kind: "errno", Err: pick(r, "EIO", "EIO", "ESTALE", "ENOMEM"), Persist: true}
		if r.P(1, 3) {
			f.Kind, f.Err = "eof", ""
		} else if r.P(1, 3) {
			f.Persist = false
		}
		return f
	}
	switch p.Prop {
	case "C14":
		for k := 0; k < runs; k++ {
			w := genWEnv(r)
			if r.P(1, 2) {
				genRW(r, w, n)
			}
			switch r.N(10) {
			case 0, 1, 2: // the disk fills up or breaks at some byte
				w.Faults = append(w.Faults, WFault{Call: "fd_write", Path: "out", At: pick(r, r.N(60), r.Small(0, 60000), r.N(400), r.N(3000)), Kind: "errno", Err: pick(r, wErrs...), Persist: r.P(2, 3)})
			case 3, 4:
				f := WFault{Call: "fd_write", Path: "out", Nth: r.N(14), At: -1, Kind: "errno", Err: pick(r, wErrs...), Persist: r.P(1, 3)}
				if r.P(1, 6) {
					f.Kind = "zero"
				}
				w.Faults = append(w.Faults, f)
			case 5: // rejected or lost at close
				w.Faults = append(w.Faults, WFault{Call: pick(r, "fd_close", "fd_close", "fd_close", "fd_sync"), Path: pick(r, "out", "out", "out", "other"), At: -1, Kind: "errno", Err: pick(r, wErrs[:3]...), N: pick(r, 1, 12, r.Small(1, 5000), 1<<30)})
			case 6:
				if r.P(1, 2) {
					w.OutKind = pick(r, "noparent", "rodir", "rofs", "dir", "rofile")
					if w.OutKind == "rofile" || w.OutKind == "rofs" || w.OutKind == "rodir" {
						w.Old = pick(r, "png", "text")
					}
				} else {
					w.Faults = append(w.Faults, WFault{Call: "path_open", Path: "out", At: -1, Kind: "errno", Err: pick(r, "ENOSPC", "EMFILE", "ENFILE", "EIO", "EDQUOT", "EACCES", "ENAMETOOLONG")})
				}
			case 7:
				if r.P(1, 3) {
					w.Faults = append(w.Faults, WFault{Call: pick(r, "fd_sync", "path_rename", "fd_close"), Path: pick(r, "out", "out", "other", "in"), At: -1, Kind: "errno", Err: pick(r, wErrs...)})
				} else {
					w.Faults = append(w.Faults, rfault())
				}
			case 8:
				w.Pages = pick(r, r.R(1, 60), r.R(30, 200), r.R(60, 600))
			case 9:
				if r.P(1, 2) {
					w.Faults = append(w.Faults, WFault{Call: "fd_write", Path: "stdout", At: -1, Kind: "errno", Err: pick(r, "EPIPE", "ENOSPC", "EIO"), Persist: true})
				}
			}
			if r.P(1, 5) {
				w.Faults = append(w.Faults, rfault())
			}
			if r.P(1, 12) && w.OutKind == "" { // onto itself
				w.Out, w.RO, w.Old = w.In, false, ""
				for i := range w.Faults {
					if f := &w.Faults[i]; f.Path == "out" && f.Call == "fd_write" {
						f.Path = "in"
					}
				}
			} else if r.P(1, 12) {
				w.InKind = "pipe"
			}
			add(w)
		}
	case "C15":
		kind := r.N(6)
		if kind == 0 { // cut short on disk
			in.Muts = []Mut{{Op: "trunc", Off: at()}}
			in.bytes = nil
		} else if kind == 1 {
			p.Inputs = []*Input{{Noise: r.U64(), Len: r.Small(0, 3000)}}
		} else if kind == 2 && r.P(1, 2) {
			in.Muts = genMuts(r, n, m)
			in.bytes = nil
		} else if kind == 2 {
			c.Bad = GenBad(r, c)
			in.bytes = nil
		}
		for k := 0; k < runs; k++ {
			w := genWEnv(r)
			if w.Old == "" && r.P(1, 2) {
				w.Old = pick(r, "png", "text", "empty", "long")
			}
			if r.P(1, 2) {
				genRW(r, w, n)
			}
			if kind >= 3 {
				switch r.N(6) {
				case 0:
					w.InKind = pick(r, "missing", "dir", "noperm")
				case 1:
					w.Faults = append(w.Faults, WFault{Call: "path_open", Path: "in", At: -1, Kind: "errno", Err: pick(r, "EIO", "EMFILE", "ENFILE", "EACCES", "ENOMEM")})
				case 2, 3:
					w.Faults = append(w.Faults, rfault())
				case 4: // everything may go wrong, only bystanders count
					w.Faults = append(w.Faults, WFault{Call: "fd_write", Path: pick(r, "out", "out", "other"), At: r.Small(0, 5000), Kind: "errno", Err: pick(r, wErrs...), Persist: true})
					if r.P(1, 3) {
						w.Faults[0] = WFault{Call: pick(r, "path_open", "fd_close", "path_rename", "fd_sync", "fd_write"), Path: pick(r, "out", "other"), At: -1, Kind: "errno", Err: pick(r, wErrs...)}
					}
				}
			}
			if r.P(1, 8) {
				w.OutKind = pick(r, "noparent", "rodir", "rofs", "dir", "rofile")
			} else if r.P(1, 12) {
				w.Args = pick(r, "none", "one", "more")
			} else if in.Valid() && w.InKind == "" && len(w.Faults) == 0 && r.P(1, 2) {
				genEvents(r, w, n, at)
			} else if r.P(1, 10) && w.InKind == "" {
				w.Out, w.RO, w.Old = w.In, false, ""
			}
			add(w)
		}
	case "C16":
		for k := 0; k < runs; k++ {
			w := genWEnv(r)
			if r.P(1, 2) {
				genRW(r, w, n)
			}
			w.Part = pick(r, 0, 1000, r.N(1001), r.N(1001))
			switch r.N(8) {
			case 0, 1:
				w.Faults = []WFault{{Call: "any", At: -1, Nth: r.Small(0, 60), Kind: "crash"}}
			case 2, 3:
				w.Faults = []WFault{{Call: "fd_write", Path: pick(r, "out", "out", "out", "other"), At: -1, Nth: r.N(14), Kind: "crash"}}
			case 4, 5:
				w.Faults = []WFault{{Call: "fd_write", Path: "out", At: pick(r, r.N(60), r.Small(0, 60000), r.N(1000)), Kind: "crash"}}
			case 6:
				w.Faults = []WFault{{Call: pick(r, "path_open", "fd_close"), Path: "out", At: -1, Kind: "crashafter", Nth: -1}}
			case 7:
				w.Faults = []WFault{{Call: pick(r, "fd_close", "fd_close", "path_rename", "path_open", "fd_sync"), Path: pick(r, "out", "out", "other", "in"), At: -1, Kind: pick(r, "crash", "crash", "crashafter")}}
			}
			if r.P(1, 6) {
				w.Faults = append(w.Faults, WFault{Call: "fd_write", Path: "out", At: r.Small(0, 5000), Kind: "errno", Err: pick(r, wErrs...), Persist: true})
			}
			add(w)
		}
	case "C17":
		for k := 0; k < runs; k++ {
			w := genWEnv(r)
			if r.P(3, 4) {
				genRW(r, w, n)
			}
			if r.P(1, 8) {
				w.InKind = "pipe"
			}
			add(w)
		}
	}
	p.Tasks = [][]Op{ops}
}

// genEvents lets the input grow, be cut or be removed while the program runs.
func genEvents(r *Rng, w *WRun, n int, at func() int) {
	t := r.Small(1, 60)
	switch r.N(4) {
	case 0, 1: // still being written
		have := at()
		if r.P(1, 4) {
			have = 0
		}
		w.Evs = append(w.Evs, WEvent{Kind: "have", N: have})
		for k := r.R(0, 6); k > 0 && have < n; k-- {
			have += r.R(1, n-have)
			if r.P(1, 4) {
				have = n
			}
			w.Evs = append(w.Evs, WEvent{At: t, Kind: "append", N: have})
			t += r.Small(1, 12)
		}
	case 2:
		w.Evs = append(w.Evs, WEvent{At: t, Kind: "truncate", N: pick(r, 0, 0, at())})
	default:
		w.Evs = append(w.Evs, WEvent{At: t, Kind: "remove"})
	}
	if r.P(1, 2) && w.RTail == 0 { // many system calls
		w.RTail = max(r.Small(1, 400), n/100)
	}
}

// shrinkRuns lists simplifications of the runs of the program.
func shrinkRuns(p *Plan, add func(func(*Plan) bool)) {
	for k, op := range p.Tasks[0] {
		// schedules of pairs
		for n := len(op.Sched); n >= 1; n /= 2 {
			for i := 0; i < len(op.Sched); i += n {
				if n == 1 && len(op.Sched) > 60 {
					break
				}
				add(func(q *Plan) bool {
					if k >= len(q.Tasks[0]) || i+n > len(q.Tasks[0][k].Sched) {
						return false
					}
					x := &q.Tasks[0][k]
					x.Sched = append(x.Sched[:i:i], x.Sched[i+n:]...)
					return true
				})
			}
		}
		if op.W != nil {
			shrinkRun(op.W, k, op.W2 != nil, func(o *Op) *WRun { return o.W }, add)
		}
		if op.W2 != nil {
			shrinkRun(op.W2, k, true, func(o *Op) *WRun { return o.W2 }, add)
		}
	}
}

func shrinkRun(was *WRun, k int, pair bool, get func(*Op) *WRun, add func(func(*Plan) bool)) {
	w := func(f func(*WRun) bool) {
		add(func(q *Plan) bool {
			if k >= len(q.Tasks[0]) || get(&q.Tasks[0][k]) == nil {
				return false
			}
			return f(get(&q.Tasks[0][k]))
		})
	}
	def := &WRun{In: "in", Out: "out.png", Rand: 1}
	dv := reflect.ValueOf(def).Elem()
	for i := 0; i < dv.NumField(); i++ {
		switch dv.Type().Field(i).Name {
		case "In", "Out", "Rel", "Src":
			if pair {
				continue // outputs stay different
			}
		}
		w(func(x *WRun) bool {
			f := reflect.ValueOf(x).Elem().Field(i)
			if reflect.DeepEqual(f.Interface(), dv.Field(i).Interface()) || f.Kind() == reflect.Slice && f.Len() == 0 {
				return false
			}
			f.Set(dv.Field(i))
			return true
		})
	}
	for i := range was.Faults {
		w(func(x *WRun) bool {
			if i >= len(x.Faults) {
				return false
			}
			x.Faults = append(x.Faults[:i:i], x.Faults[i+1:]...)
			return true
		})
	}
	for i := range was.Side {
		w(func(x *WRun) bool {
			if i >= len(x.Side) {
				return false
			}
			x.Side = append(x.Side[:i:i], x.Side[i+1:]...)
			return true
		})
	}
	for i := range was.Env {
		w(func(x *WRun) bool {
			if i >= len(x.Env) {
				return false
			}
			x.Env = append(x.Env[:i:i], x.Env[i+1:]...)
			return true
		})
	}
	for i := range was.Evs {
		w(func(x *WRun) bool {
			if i >= len(x.Evs) {
				return false
			}
			x.Evs = append(x.Evs[:i:i], x.Evs[i+1:]...)
			return true
		})
	}
	for i := range was.WC {
		w(func(x *WRun) bool {
			if i >= len(x.WC) {
				return false
			}
			x.WC = append(x.WC[:i:i], x.WC[i+1:]...)
			return true
		})
	}
	for i := range was.RC {
		w(func(x *WRun) bool {
			if i >= len(x.RC) {
				return false
			}
			x.RC = append(x.RC[:i:i], x.RC[i+1:]...)
			return true
		})
	}
}
