package main

// The command radolan2png is run as a process on files in a scratch directory.

import (
	"bytes"
	"context"
	"fmt"
	"image"
	"image/color"
	"image/png"
	"io"
	"math"
	"os"
	"os/exec"
	"path/filepath"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"

	"verif/mc"
)

var toolPath = filepath.Join(os.Getenv("VERIF_WORK"), "radolan2png")

type toolRun struct {
	code int // exit status, -1 if killed by a signal
	out  string
	log  string
}

// tool runs radolan2png in dir. limit >= 0 bounds the size of files it can write.
func tool(t *mc.T, dir string, limit int, args ...string) toolRun {
	return toolWith(t, dir, limit, nil, args...)
}

const nobody = 65534

var (
	plainUser     bool
	plainUserOnce sync.Once
)

// asUser makes the directory usable for the unprivileged user and tells whether processes of that user can be started.
func asUser(dir string) bool {
	plainUserOnce.Do(func() {
		os.Chmod(os.Getenv("VERIF_WORK"), 0755)
		os.Chmod(filepath.Join(os.Getenv("VERIF_WORK"), "run"), 0755)
		d, err := os.MkdirTemp(filepath.Join(os.Getenv("VERIF_WORK"), "run"), "probe")
		if err != nil {
			return
		}
		defer os.RemoveAll(d)
		os.Chown(d, nobody, nobody)
		c := exec.Command(toolPath)
		c.Dir = d
		c.SysProcAttr = &syscall.SysProcAttr{Credential: &syscall.Credential{Uid: nobody, Gid: nobody, NoSetGroups: true}}
		plainUser = os.Getuid() == 0 && c.Run() == nil
	})
	return plainUser && os.Chown(dir, nobody, nobody) == nil
}

func toolWith(t *mc.T, dir string, limit int, prepare func(*exec.Cmd), args ...string) toolRun {
	ctx, cancel := context.WithTimeout(context.Background(), 100*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, toolPath, args...)
	if limit >= 0 {
		cmd = exec.CommandContext(ctx, os.Args[0], append([]string{"_limit", strconv.Itoa(limit), toolPath}, args...)...)
	}
	cmd.Dir = dir
	cmd.Env = []string{"PATH=/usr/bin:/bin", "TZ=Europe/Berlin", "LANG=C", "HOME=" + dir, "GOMAXPROCS=2", "GOTRACEBACK=single"}
	var o, e bytes.Buffer
	cmd.Stdout, cmd.Stderr = &o, &e
	if prepare != nil {
		prepare(cmd)
	}
	err := cmd.Run()
	r := toolRun{0, o.String(), e.String()}
	if ctx.Err() != nil {
		t.Fail("radolan2png %q did not end within 100 s", args)
	}
	if x, ok := err.(*exec.ExitError); ok {
		r.code = x.ExitCode()
	} else if err != nil {
		fmt.Fprintln(os.Stderr, "HARNESS ERROR: cannot run the command:", err)
		os.Exit(3)
	}
	t.Note("radolan2png %q: exit %d, stderr %.200q", args, r.code, r.log)
	return r
}

func init() {
	subcommands["_limit"] = func(a []string) {
		n, _ := strconv.ParseUint(a[0], 10, 64)
		if err := syscall.Setrlimit(syscall.RLIMIT_FSIZE, &syscall.Rlimit{Cur: n, Max: n}); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(99)
		}
		err := syscall.Exec(a[1], a[1:], os.Environ())
		fmt.Fprintln(os.Stderr, err)
		os.Exit(99)
	}
}

// pieces is a reader that delivers at most n bytes at once.
type pieces struct {
	b []byte
	n int
}

func (p *pieces) Read(b []byte) (int, error) {
	if len(p.b) == 0 {
		return 0, io.EOF
	}
	n := p.n
	if n > len(p.b) {
		n = len(p.b)
	}
	n = copy(b, p.b[:n])
	p.b = p.b[n:]
	return n, nil
}

func scratch(t *mc.T) (dir string, done func()) {
	dir, err := os.MkdirTemp(filepath.Join(os.Getenv("VERIF_WORK"), "run"), "x")
	if err != nil {
		fmt.Fprintln(os.Stderr, "HARNESS ERROR:", err)
		os.Exit(3)
	}
	return dir, func() { os.RemoveAll(dir) }
}

func put(path string, b []byte) {
	if err := os.WriteFile(path, b, 0644); err != nil {
		fmt.Fprintln(os.Stderr, "HARNESS ERROR:", err)
		os.Exit(3)
	}
}

// toolGradient is the gradient for a composite.
func toolGradient(w *want) (g gradient) {
	switch unitName(w.product) {
	case "mm":
		max := 200.0
		switch m := w.interval; {
		case m <= time.Hour:
			max = 100
		case m >= 7*24*time.Hour:
			max = 400
		}
		return gradient{"mm", 1, 0.1, max, math.Log, nil}
	case "dBZ":
		return gradient{"dBZ", 1, 1, 75, ident, nil}
	case "km":
		return gradient{"km", 0, 0, 15, ident, nil}
	}
	return gradient{"m/s", 2, -31.5, 31.5, math.Log, nil}
}

// shows: the colour belongs to the value (up to float32 rounding).
func (g *gradient) shows(c color.RGBA, v float64, dbz bool) bool {
	eps := 1e-6 * math.Abs(v)
	if dbz {
		eps += 1e-4
	}
	for _, d := range []float64{0, -eps, eps} {
		r, gg, b := g.expect(v + d)
		if c.A == 255 && closeTo(c.R, r) && closeTo(c.G, gg) && closeTo(c.B, b) {
			return true
		}
	}
	return false
}

var (
	borderRef  [][2]float64
	borderOnce sync.Once
)

func borders() [][2]float64 {
	borderOnce.Do(func() {
		b, err := os.ReadFile(filepath.Join(os.Getenv("VERIF_ROOT"), "src/verif/check/border.txt"))
		if err != nil {
			fmt.Fprintln(os.Stderr, "HARNESS ERROR:", err)
			os.Exit(3)
		}
		for _, l := range strings.Split(strings.TrimSpace(string(b)), "\n") {
			var p [2]float64
			fmt.Sscan(l, &p[0], &p[1])
			borderRef = append(borderRef, p)
		}
	})
	return borderRef
}

var (
	borderRGBA = color.RGBA{255, 255, 0, 255}
	meshRGBA   = color.RGBA{0x33, 0xFF, 0x22, 0xFF}
)

// spots are the pixels a coordinate may be drawn at; certain if it surely lies inside the image.
func spots(g *gridSpec, lat, lon float64, dx, dy int) (ps [][2]int, certain bool) {
	x, y := g.pixel(lat, lon, dx, dy)
	tol := 1e-6 + 2e-3*float64(dx)/float64(g.w)
	certain = true
	axis := func(v float64, n int) (is []int) {
		a, b := int(math.Floor(v-tol)), int(math.Floor(v+tol))
		is = append(is, a)
		if b != a {
			is = append(is, b)
		}
		if a < 0 || b >= n {
			certain = false
		}
		if v > -1-tol && v < 0 { // truncation towards zero is tolerated at the border
			is = append(is, 0)
		}
		return
	}
	for _, px := range axis(x, dx) {
		for _, py := range axis(y, dy) {
			if px >= 0 && py >= 0 && px < dx && py < dy {
				ps = append(ps, [2]int{px, py})
			}
		}
	}
	return
}

// checkPNG compares the written image with the expectation.
func checkPNG(t *mc.T, path string, w *want) {
	w.finish()
	b, err := os.ReadFile(path)
	t.Must(err == nil, "no output: %v", err)
	rd := bytes.NewReader(b)
	img, err := png.Decode(rd)
	t.Must(err == nil, "output is no PNG: %v", err)
	t.Must(rd.Len() == 0, "%d stray bytes follow the image", rd.Len())
	t.Must(img.Bounds() == image.Rect(0, 0, w.dx, w.dy), "image is %v, want %dx%d", img.Bounds(), w.dx, w.dy)
	at := func(x, y int) color.RGBA { return color.RGBAModel.Convert(img.At(x, y)).(color.RGBA) }
	mayBorder, mayMesh := map[[2]int]bool{}, map[[2]int]bool{}
	if g := gridOf(w.dx, w.dy, w.format); g != nil {
		for e := 10; e < 160; e++ {
			for n := 460; n < 550; n++ {
				if e%10 != 0 && n%10 != 0 {
					continue
				}
				ps, certain := spots(g, float64(n)/10, float64(e)/10, w.dx, w.dy)
				found := false
				for _, p := range ps {
					mayMesh[p] = true
					found = found || at(p[0], p[1]) == meshRGBA
				}
				if certain && !found {
					t.Fail("the mesh is missing at %.1fN %.1fE (pixel %v), which shows %v", float64(n)/10, float64(e)/10, ps[0], at(ps[0][0], ps[0][1]))
				}
			}
		}
		for _, c := range borders() {
			ps, certain := spots(g, c[0], c[1], w.dx, w.dy)
			found := false
			for _, p := range ps {
				mayBorder[p] = true
				found = found || at(p[0], p[1]) == borderRGBA || mayMesh[p] && at(p[0], p[1]) == meshRGBA
			}
			if certain && !found {
				t.Fail("the border point %v (pixel %v) shows %v", c, ps[0], at(ps[0][0], ps[0][1]))
			}
		}
		t.Steps(len(mayMesh) + len(mayBorder))
	}
	gr := toolGradient(w)
	for y := 0; y < w.dy; y++ {
		for x := 0; x < w.dx; x++ {
			c, p := at(x, y), [2]int{x, y}
			if mayMesh[p] && c == meshRGBA || mayBorder[p] && c == borderRGBA {
				continue
			}
			if v := w.voxel(x, y, 0); !gr.shows(c, v, w.dbz) {
				r, g, b := gr.expect(v)
				t.Fail("pixel (%d, %d) of %dx%d shows %v, want (%.1f, %.1f, %.1f) for %v %s, interval %v", x, y, w.dx, w.dy, c, r, g, b, v, unitName(w.product), w.interval)
			}
		}
	}
	t.Steps(w.dx * w.dy)
	t.NonTrivial()
}

// checkReport: standard output names product, unit, forecast time and the extent of the grid.
func checkReport(t *mc.T, out string, w *want) {
	lines := strings.Split(out, "\n")
	head := fmt.Sprintf("%s-Image (%s) showing %s", w.product, unitName(w.product), w.forecast.Format("2006-01-02 15:04:05 -0700 MST"))
	t.Must(lines[0] == head, "standard output is %.200q, want %q", out, head)
	g := gridOf(w.dx, w.dy, w.format)
	t.Must(strings.Contains(out, "detected grid") == (g != nil), "standard output is %.200q for %dx%d", out, w.dx, w.dy)
	if g != nil {
		var x, y float64
		n, err := fmt.Sscanf(lines[1], "detected grid: %f km * %f km", &x, &y)
		t.Must(n == 2 && err == nil && math.Abs(x-float64(g.w)) < 1.05 && math.Abs(y-float64(g.h)) < 1.05, "standard output is %.200q, the grid has %d x %d km", out, g.w, g.h)
	}
	t.Steps(1)
}

// convertOK converts a valid file and checks everything.
func convertOK(t *mc.T, file []byte, w *want) {
	dir, done := scratch(t)
	defer done()
	t.Attach("input", file)
	put(filepath.Join(dir, "in"), file)
	r := tool(t, dir, -1, "in", "out.png")
	t.Must(r.code == 0, "exit status %d for a valid file: %.300s", r.code, r.log)
	checkPNG(t, filepath.Join(dir, "out.png"), w)
	checkReport(t, r.out, w)
	left, _ := os.ReadFile(filepath.Join(dir, "in"))
	t.Must(bytes.Equal(left, file), "the input was changed")
}

func withInterval(h hdr, w *want, n int) hdr {
	h.fields = append(h.fields, field{"INT", fmt.Sprintf(" %d", n)})
	w.interval = intervalOf(h.product, n)
	return h
}

// toolFile is a file of a product with the given shape; INT only if n >= 0.
func toolFile(enc int, p string, dx, dy, precision, n int, val func(x, y int) int, extra ...field) ([]byte, *want) {
	h := stdHdr(p, by())
	h.fields = append(h.fields, gp(dx, dy))
	h.fields = append(h.fields, precFields(precision)...)
	if n >= 0 {
		h.fields = append(h.fields, field{"INT", fmt.Sprintf(" %d", n)})
	}
	h.fields = append(h.fields, extra...)
	b, w := makeFile(enc, h, dx, dy, precision, val)
	if n >= 0 {
		w.interval = intervalOf(p, n)
	}
	for _, f := range extra {
		switch f.key {
		case "VS":
			fmt.Sscan(f.text, &w.format)
		case "VV":
			var n int
			fmt.Sscan(f.text, &n)
			w.forecast = w.capture.Add(minutes(n))
		}
	}
	return b, w
}

func knownProducts() (ps []string) {
	for _, p := range allProducts() {
		if _, ok := unitOf[p]; ok {
			ps = append(ps, p)
		}
	}
	return
}

var intervalEdges = []int{0, 1, 5, 59, 60, 61, 119, 120, 1008, 1439, 1440, 1441, 6, 143, 144, 1007, 1009, 10079, 10080, 10081, 43200, 99999}

func spacesC18(th bool) []mc.Space {
	ps := knownProducts()
	ramp := func(enc, dx int) func(x, y int) int {
		return func(x, y int) int {
			i := y*dx + x
			if enc == encLE {
				return []int{i * 37 % 4096, 0x4000 | i*29%4096, 0x2000 | i}[i%3]
			}
			return i * 11 % 256
		}
	}
	products := func(t *mc.T) {
		p := ps[t.Choose(len(ps))]
		enc := t.Choose(3)
		d := mc.Pick(t, [2]int{16, 16}, [2]int{1, 1}, [2]int{7, 3}, [2]int{3, 50})
		n := mc.Pick(t, -1, 60, 61, 10080)
		pr := mc.Pick(t, 0, -1, -2)
		if !th && (d[0] < 16 && (n != -1 || pr != 0) || enc == encRL && pr != 0) {
			t.Skip()
		}
		t.Note("%s %s %v interval %d precision %d", p, encName[enc], d, n, pr)
		b, w := toolFile(enc, p, d[0], d[1], pr, n, ramp(enc, d[0]))
		convertOK(t, b, w)
		t.Outcome(unitOf[p], enc, d, w.interval, pr)
	}
	// what is reported for other times
	report := func(t *mc.T) {
		p := mc.Pick(t, "RW", "FZ", "PE", "PD", "W3")
		h := stdHdr(p, by(), gp(2, 2))
		h.day = mc.Pick(t, 1, 26, 27, 28)
		h.month = t.Range(1, 12)
		h.year = mc.Pick(t, 16, 99, 0)
		h.hour = mc.Pick(t, 0, 1, 2, 12, 23)
		h.min = mc.Pick(t, 0, 35, 59)
		vv := mc.Pick(t, -1, 0, 5, 120, 2880)
		if !th && (h.min == 59 || h.day == 28 || h.year == 0) && p != "FZ" {
			t.Skip()
		}
		w := 0
		if vv >= 0 {
			h.fields = append(h.fields, field{"VV", fmt.Sprintf(" %03d", vv)})
			w = vv
		}
		b, x := makeFile(encSB, h, 2, 2, 0, posCode(encSB))
		x.forecast = x.capture.Add(minutes(w))
		convertOK(t, b, x)
		t.Outcome(x.forecast)
	}
	// the limits of the precipitation gradients
	intervals := func(t *mc.T) {
		p := mc.Pick(t, "RW", "SF", "W1", "W2", "W3", "W4", "RY", "WX", "PE", "PD")
		var n int
		if th {
			n = t.Choose(10200/7) * 7
			n += t.Choose(2)
		} else {
			n = intervalEdges[t.Choose(len(intervalEdges))]
		}
		if n > 9999 && th && p[0] == 'W' {
			t.Skip()
		}
		b, w := toolFile(encLE, p, 64, 64, -1, n, func(x, y int) int { return y*64 + x })
		t.Note("%s interval %v", p, w.interval)
		convertOK(t, b, w)
		t.Outcome(p, n)
	}
	edges := func(t *mc.T) { // all edges for every product in millimetres
		p := ps[t.Choose(len(ps))]
		n := intervalEdges[t.Choose(len(intervalEdges))]
		if unitOf[p] != "mm" || isW(p) && n > 9999 {
			t.Skip()
		}
		b, w := toolFile(encLE, p, 16, 16, -1, n, func(x, y int) int { return (y*16 + x) * 16 })
		convertOK(t, b, w)
		t.Outcome(p, n)
	}
	// every cell value
	cellsAll := func(t *mc.T) {
		p := mc.Pick(t, "SF", "RX", "PE", "PD")
		enc := t.Choose(2)
		pr := t.Range(-3, 2)
		n := mc.Pick(t, -1, 1440, 20160)
		if n >= 0 && p != "SF" {
			t.Skip()
		}
		t.Note("%s %s precision %d interval %d", p, encName[enc], pr, n)
		var b []byte
		var w *want
		if enc == encLE {
			b, w = toolFile(enc, p, 256, 256, pr, n, func(x, y int) int { return y<<8 | x })
		} else {
			b, w = toolFile(enc, p, 16, 16, pr, n, func(x, y int) int { return y<<4 | x })
		}
		convertOK(t, b, w)
		t.Outcome(p, enc, pr, n)
	}
	// overlay on every grid and resolution
	overlay := func(t *mc.T) {
		g := grids[t.Choose(5)]
		w, h := g.w, g.h
		for w%2 == 0 && h%2 == 0 {
			w, h = w/2, h/2
		}
		k := t.Choose(4)
		w, h = w<<uint(k), h<<uint(k)
		if w > g.w {
			if !th || w > 2*g.w {
				t.Skip()
			}
		}
		f := mc.Pick(t, -1, 3, 4, 5, 6)
		if f == 3 && !th {
			t.Skip()
		}
		p := mc.Pick(t, "RW", "WX", "PE", "PD")
		if p[0] == 'P' && (k > 0 || f >= 0) {
			t.Skip()
		}
		enc := t.Choose(3)
		if enc != encLE && k > 1 && !th {
			t.Skip()
		}
		var extra []field
		if f >= 0 {
			extra = []field{{"VS", fmt.Sprintf(" %d", f)}}
		}
		t.Note("%s %s %dx%d format %d", p, encName[enc], w, h, f)
		b, x := toolFile(enc, p, w, h, -1, -1, posCode(enc), extra...)
		convertOK(t, b, x)
		t.Outcome(p, w, h, f, enc)
	}
	// no overlay next to the grids
	beside := func(t *mc.T) {
		g := grids[t.Choose(5)]
		k := uint(t.Choose(2))
		dx, dy := g.w>>k+t.Range(-1, 1), g.h>>k+t.Range(-1, 1)
		f := mc.Pick(t, -1, 5)
		b, x := toolFile(encLE, "RW", dx, dy, -1, -1, posCode(encLE), field{"VS", fmt.Sprintf(" %d", f)})
		if f < 0 {
			b, x = toolFile(encLE, "RW", dx, dy, -1, -1, posCode(encLE))
		}
		if !th && k == 0 && f > 0 {
			t.Skip()
		}
		convertOK(t, b, x)
		t.Outcome(dx, dy, f)
	}
	local := func(t *mc.T) {
		p := localNames[t.Choose(len(localNames))]
		enc := t.Choose(3)
		b, w := localFile(enc, p, posCode(enc))
		convertOK(t, b, w)
		t.Outcome(p, enc)
	}
	// values at the limits and unusual headers
	headers := func(t *mc.T) {
		h := stdHdr("RW", by(), field{"VS", " 3"}, field{"SW", "   2.18.3"}, field{"PR", " E-01"}, field{"INT", "  60"}, gp(9, 4), field{"MS", " 68<boo,ros,emd>"})
		perm := mc.Pick(t, []int{0, 1, 2, 3, 4, 5, 6}, []int{6, 5, 4, 3, 2, 1, 0}, []int{5, 0, 6, 1, 4, 2, 3}, []int{3, 2, 5, 0, 1, 6, 4})
		fs := make([]field, 7)
		for i, j := range perm {
			fs[i] = h.fields[j]
		}
		h.fields = fs
		h.day, h.month, h.year = 1, mc.Pick(t, 1, 2, 12), mc.Pick(t, 0, 16, 68, 69, 99)
		b, w := makeFile(encLE, h, 9, 4, -1, func(x, y int) int { return x*113 + y*41 })
		w.interval, w.format = time.Hour, 3
		b = append(b, make([]byte, mc.Pick(t, 0, 1, 5000))...)
		convertOK(t, b, w)
		t.Outcome(perm, h.month, h.year, len(b))
	}
	// existing output files and paths
	paths := func(t *mc.T) {
		enc := t.Choose(3)
		b, w := toolFile(enc, "WX", 12, 5, 0, 5, posCode(enc))
		dir, done := scratch(t)
		defer done()
		in := mc.Pick(t, "in", "a b.bin", "ä.gz", "deep/er/in", "raa01-rw_10000-1607282105-dwd---bin", "in.tar.bz2", "x%d.png", "-", "~", "$HOME", "*")
		out := mc.Pick(t, "out.png", "o u t", "out", "deep/er/out.PNG", "ö%s.jpg", ".hidden", "out.png.png", "-")
		if in == out { // C19
			t.Skip()
		}
		os.MkdirAll(filepath.Join(dir, "deep/er"), 0755)
		put(filepath.Join(dir, in), b)
		switch t.Choose(5) {
		case 1:
			put(filepath.Join(dir, out), bytes.Repeat([]byte("old "), 50000))
		case 2:
			put(filepath.Join(dir, out), nil)
		case 3: // an older image
			o, _ := toolFile(encLE, "SF", 40, 40, 0, 5, func(x, y int) int { return x * y * 977 % 4096 })
			put(filepath.Join(dir, "older"), o)
			tool(t, dir, -1, "older", out)
		case 4:
			if err := os.Symlink("target", filepath.Join(dir, filepath.Base(out))); err == nil {
				put(filepath.Join(dir, "target"), []byte("old"))
				out = filepath.Base(out)
			}
		}
		ip, op := in, out
		switch t.Choose(3) {
		case 1:
			ip, op = filepath.Join(dir, in), filepath.Join(dir, out)
		case 2:
			ip, op = "./deep/../"+in, "deep/er/../../"+out
		}
		r := tool(t, dir, -1, ip, op)
		t.Must(r.code == 0, "exit status %d for a valid file: %.300s", r.code, r.log)
		checkPNG(t, filepath.Join(dir, out), w)
		left, _ := os.ReadFile(filepath.Join(dir, in))
		t.Must(bytes.Equal(left, b), "the input was changed")
		t.Outcome(in, out, enc)
	}
	// the output of one conversion is replaced by a close one, and by the first again
	again := func(t *mc.T) {
		enc := t.Choose(3)
		p := mc.Pick(t, "WX", "SF", "PE")
		type file struct {
			b []byte
			w *want
		}
		build := func(p string, dx, dy int, at, v int) file {
			b, w := toolFile(enc, p, dx, dy, 0, 60, func(x, y int) int {
				if y*dx+x == at {
					return v
				}
				if enc == encRL {
					return 2
				}
				return 120
			})
			return file{b, w}
		}
		n := mc.Pick(t, 1, 2, 5)
		if th {
			n = mc.Pick(t, 1, 2, 5, 16, 31)
		}
		a := build(p, n, 2, -1, 0)
		var c file
		switch k := t.Choose(2*n + 3); {
		case k < 2*n:
			v := mc.Pick(t, 121, 160, 0)
			if enc == encRL {
				v = mc.Pick(t, 1, 3)
			}
			c = build(p, n, 2, k, v)
		case k == 2*n:
			c = build(p, 2, n, -1, 0)
		case k == 2*n+1:
			c = build(p, n, 3, -1, 0)
		default:
			q := "SF"
			if p == q {
				q = "PE"
			}
			c = build(q, n, 2, -1, 0)
		}
		dir, done := scratch(t)
		defer done()
		other := t.Bool()
		when := mc.Pick(t, int64(0), 1e9, 3e9)
		for i, f := range []file{a, c, a, a, c} {
			in := "in"
			if other {
				in = fmt.Sprint("in", i)
			}
			put(filepath.Join(dir, in), f.b)
			if when != 0 {
				os.Chtimes(filepath.Join(dir, in), time.Unix(when, 0), time.Unix(when, 0))
			}
			r := tool(t, dir, -1, in, "out.png")
			t.Must(r.code == 0, "conversion %d: exit status %d for a valid file: %.300s", i, r.code, r.log)
			checkPNG(t, filepath.Join(dir, "out.png"), f.w)
		}
		t.Outcome(enc, p, n, c.w.dx, other, when)
	}
	// what an unprivileged user may do: read a protected file, rewrite an own file in a protected directory
	modes := func(t *mc.T) {
		enc := t.Choose(3)
		b, w := toolFile(enc, "WX", 12, 5, 0, 5, posCode(enc))
		dir, done := scratch(t)
		defer done()
		if !asUser(dir) {
			t.Skip()
		}
		os.MkdirAll(filepath.Join(dir, "d"), 0755)
		put(filepath.Join(dir, "in"), b)
		os.Chmod(filepath.Join(dir, "in"), mc.Pick(t, os.FileMode(0644), 0444, 0404, 0004)) // the owner is root
		if t.Choose(2) == 1 {
			os.Chown(filepath.Join(dir, "in"), nobody, nobody)
			os.Chmod(filepath.Join(dir, "in"), 0400)
		}
		out := "new.png"
		switch t.Choose(3) {
		case 1:
			out = "d/out.png" // the directory does not belong to the user, the file does
			put(filepath.Join(dir, out), bytes.Repeat([]byte("old "), 5000))
			os.Chown(filepath.Join(dir, out), nobody, nobody)
			os.Chmod(filepath.Join(dir, out), 0600)
		case 2: // of someone else
			put(filepath.Join(dir, out), []byte("old"))
			os.Chmod(filepath.Join(dir, out), 0666)
		}
		r := toolWith(t, dir, -1, func(c *exec.Cmd) {
			c.SysProcAttr = &syscall.SysProcAttr{Credential: &syscall.Credential{Uid: nobody, Gid: nobody, NoSetGroups: true}}
		}, "in", out)
		t.Must(r.code == 0, "exit status %d for a valid file that the user can read and an output that the user can write: %.300s", r.code, r.log)
		checkPNG(t, filepath.Join(dir, out), w)
		left, _ := os.ReadFile(filepath.Join(dir, "in"))
		t.Must(bytes.Equal(left, b), "the input was changed")
		t.Outcome(out, enc)
	}
	// input from a pipe
	pipes := func(t *mc.T) {
		enc := t.Choose(3)
		var b []byte
		var w *want
		if t.Choose(2) == 0 {
			b, w = toolFile(enc, "WX", 12, 5, 0, 5, posCode(enc))
		} else { // larger than a pipe
			b, w = toolFile(enc, "SF", 450, 450, 0, 1440, posCode(enc))
		}
		dir, done := scratch(t)
		defer done()
		piece := mc.Pick(t, 1<<20, 4096, 1000, 77)
		var r toolRun
		switch t.Choose(2) {
		case 0:
			r = toolWith(t, dir, -1, func(c *exec.Cmd) { c.Stdin = &pieces{b, piece} }, "/dev/stdin", "out.png")
		case 1:
			fifo := filepath.Join(dir, "fifo")
			if syscall.Mkfifo(fifo, 0600) != nil {
				t.Skip()
			}
			ended := make(chan bool)
			go func() {
				defer close(ended)
				f, err := os.OpenFile(fifo, os.O_WRONLY, 0)
				if err != nil {
					return
				}
				io.Copy(struct{ io.Writer }{f}, &pieces{b, piece})
				f.Close()
			}()
			r = tool(t, dir, -1, "fifo", "out.png")
			if f, err := os.OpenFile(fifo, os.O_RDONLY|syscall.O_NONBLOCK, 0); err == nil { // release the writer
				<-ended
				f.Close()
			}
		}
		t.Must(r.code == 0, "exit status %d for a valid file in a pipe: %.300s", r.code, r.log)
		checkPNG(t, filepath.Join(dir, "out.png"), w)
		t.Outcome(enc, len(b), piece)
	}
	// full-size files as they are distributed
	real := func(t *mc.T) {
		type rf struct {
			p      string
			dx, dy int
			n, pr  int
			vs     string
		}
		r := mc.Pick(t, rf{"RW", 900, 900, 60, -1, " 3"}, rf{"SF", 900, 900, 1440, -1, " 3"}, rf{"W1", 900, 900, 1008, -1, " 3"}, rf{"W2", 900, 900, 1440, -1, " 3"}, rf{"WX", 900, 1100, 5, 0, " 3"}, rf{"RX", 900, 900, 5, 0, " 3"},
			rf{"PG", 460, 460, -1, 0, ""}, rf{"EX", 1400, 1500, 5, 0, " 3"}, rf{"WN", 1100, 1200, 5, -1, " 5"}, rf{"RV", 1100, 1200, 5, -2, " 5"}, rf{"YW", 1100, 900, 5, -2, " 3"}, rf{"EW", 1400, 1500, 60, -1, " 3"}, rf{"RW", 2800, 3000, 60, -1, " 3"}, rf{"RX", 3600, 3600, 5, -1, " 3"}, rf{"WX", 1, 20000, 5, -1, " 3"}, rf{"WX", 20000, 1, 5, -1, " 3"})
		if _, ok := unitOf[r.p]; !ok {
			t.Skip()
		}
		var x []field
		if r.vs != "" {
			x = append(x, field{"VS", r.vs})
		}
		b, w := toolFile(encLE, r.p, r.dx, r.dy, r.pr, r.n, func(x, y int) int { return (x*x/50 + y*3) % 4096 }, x...)
		t.Note("%v", r)
		convertOK(t, b, w)
		t.Outcome(r)
	}
	return []mc.Space{{Name: "products", Fn: products}, {Name: "report", Fn: report}, {Name: "intervals", Fn: intervals}, {Name: "edges", Fn: edges}, {Name: "cells", Fn: cellsAll}, {Name: "overlay", Fn: overlay},
		{Name: "beside", Fn: beside}, {Name: "local", Fn: local}, {Name: "headers", Fn: headers}, {Name: "paths", Fn: paths}, {Name: "again", Fn: again}, {Name: "modes", Fn: modes}, {Name: "pipes", Fn: pipes}, {Name: "real", Fn: real}}
}

func init() {
	register(mc.Check{ID: "C18", Level: "model_checking", Spaces: spacesC18, Assume: []string{
		"channels are compared up to rounding (one step of 255)", "a border or mesh point within 2 m of a pixel edge may be drawn on either side",
		"the list of border points is the one at the pinned commit", "input and output are different files"}})
}
