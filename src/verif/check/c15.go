package main

// C15: every execution runs in a fresh process (check15, built from an instrumented copy), which
// performs a history or an interleaving of operations and reports what each of them returned.

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"image"
	"io"
	"math"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"gitlab.cs.fau.de/since/radolan"
	"gitlab.cs.fau.de/since/radolan/radolan2png/vis"
	"verif/mc"
	"verif/vsched"
)

// points delivers a file and yields at every Read.
type points struct {
	b     []byte
	chunk int
}

func (p *points) Read(b []byte) (int, error) {
	vsched.Point(-1)
	if len(p.b) == 0 {
		return 0, io.EOF
	}
	n := len(b)
	if p.chunk > 0 && n > p.chunk {
		n = p.chunk
	}
	n = copy(b[:n], p.b)
	p.b = p.b[n:]
	return n, nil
}

// opOut is what an operation leaves behind.
type opOut struct {
	fp   string // everything the caller can see
	keep []*radolan.Composite
	imgs []*image.RGBA
	kfp  []string
}

func (o *opOut) add(err error, cs ...*radolan.Composite) {
	o.fp += fmt.Sprintf("error: %v %v\n", err, err == radolan.ErrUnknownUnit)
	for _, c := range cs {
		f := describe(c)
		o.fp += f + "\n"
		if c != nil {
			o.keep, o.kfp = append(o.keep, c), append(o.kfp, f)
		}
	}
}

func (o *opOut) image(m *image.RGBA) {
	f := fmt.Sprint(m.Rect, m.Stride, m.Pix)
	o.fp += f + "\n"
	o.imgs, o.kfp = append(o.imgs, m), append(o.kfp, f)
}

// describe is a fingerprint that is cheap for large composites.
func describe(c *radolan.Composite) string {
	if c == nil || c.Px*c.Py < 1000 {
		return fingerprint(c)
	}
	h := uint64(14695981039346656037)
	row := func(r []float32) {
		for _, v := range r {
			h = (h ^ uint64(math.Float32bits(v))) * 1099511628211
		}
		h = (h ^ 0xabcdef ^ uint64(len(r))) * 1099511628211
	}
	for _, r := range c.PlainData {
		row(r)
	}
	for _, r := range c.Data {
		row(r)
	}
	for _, l := range c.DataZ {
		for _, r := range l {
			row(r)
		}
	}
	d := *c
	d.PlainData, d.DataZ, d.Data = nil, nil, nil
	return fmt.Sprintf("%s %d %d %d %x", fingerprint(&d), len(c.PlainData), len(c.Data), len(c.DataZ), h)
}

// intact: what was returned is still what it was.
func (o *opOut) intact() bool {
	for i, c := range o.keep {
		if describe(c) != o.kfp[i] {
			return false
		}
	}
	for i, m := range o.imgs {
		if fmt.Sprint(m.Rect, m.Stride, m.Pix) != o.kfp[len(o.keep)+i] {
			return false
		}
	}
	return true
}

// scribble overwrites everything reachable from a composite.
func scribble(c *radolan.Composite) {
	rows := append(append([][]float32{}, c.PlainData...), c.Data...)
	for _, l := range c.DataZ {
		rows = append(rows, l...)
	}
	for _, r := range rows {
		r = r[:cap(r)]
		for i := range r {
			r[i] = 4711
		}
	}
	for i := range c.PlainData {
		c.PlainData[i] = []float32{-1}
	}
	for i := range c.Data {
		c.Data[i] = nil
	}
	for i := range c.DataZ {
		c.DataZ[i] = nil
	}
	c.Product, c.Dx, c.Dy, c.Px, c.Py, c.Dz, c.Format = "scribble", 1, 2, 3, 4, 5, 6
	c.Rx, c.Ry, c.HasProjection = 99, 98, !c.HasProjection
	c.CaptureTime, c.ForecastTime, c.Interval = time.Time{}, time.Time{}, 77
}

// world15 holds what operations share.
type world15 struct {
	shared *radolan.Composite
	maps   []*radolan.Composite // with projections
}

type op15 struct {
	name   string
	shared bool   // reads the shared composite
	big    bool   // only in histories
	group  string // one of a family of nearly equal operations, only in histories with its family
	run    func(w *world15, o *opOut)
}

func parseOp(name string, b []byte) op15 {
	return op15{name: name, run: func(w *world15, o *opOut) {
		in := append([]byte{}, b...)
		c, err := radolan.NewComposite(&points{b: in, chunk: 64 + len(in)/8})
		for i := range in { // the caller reuses its buffer
			in[i] = 'X'
		}
		o.add(err, c)
	}}
}

func bigOp(name string, b func() []byte) op15 {
	return op15{name: name, big: true, run: func(w *world15, o *opOut) {
		c, err := radolan.NewComposite(&points{b: b()})
		o.add(err, c)
	}}
}

func scribbleOp(name string, b []byte) op15 {
	return op15{name: name, run: func(w *world15, o *opOut) {
		c, err := radolan.NewComposite(&points{b: b})
		o.add(err, c)
		o.keep, o.kfp = nil, nil
		if c != nil {
			scribble(c)
		}
	}}
}

func ops15() (ops []op15) {
	cellsOf := func(a, b int) func(x, y int) int { return func(x, y int) int { return (a + 31*x + b*y) % 4096 } }
	le, _ := toolFile(encLE, "SF", 3, 2, -1, 60, cellsOf(1000, 7))
	le2, _ := toolFile(encLE, "WX", 2, 3, -2, 5, cellsOf(200, 501))
	le3, _ := toolFile(encLE, "RW", 4, 1, 0, -1, func(x, y int) int { return []int{0x2005, 0x4010, 12, 0x29c4}[x] }, field{"VS", " 5"})
	sb, _ := toolFile(encSB, "RX", 3, 2, 0, -1, func(x, y int) int { return []int{250, 77, 3, 249, 250, 128}[y*3+x] })
	sb2, _ := toolFile(encSB, "PE", 2, 2, -1, -1, func(x, y int) int { return 9 + 50*x + 100*y })
	rlHdr := func(p string, lv []float64, n int) []byte {
		h := stdHdr(p, by(), gp(4, n), lvField(lv))
		d := []byte{}
		for y := 0; y < n; y++ {
			d = append(append(d, rlEncode(byte(40+y), []int{y % 3, 1 + y%5, 6, len(lv)})...), '\n')
		}
		return append(h.render(len(d)), d...)
	}
	rl, rl2 := rlHdr("PG", lv6, 2), rlHdr("PD", lv12, 3)
	badRow := append(append([]byte{}, headerOf(rl)...), 40, 17, 0xf1, 0xf2, '\n', 41, 17, '\n')
	unknown, _ := toolFile(encLE, "QQ", 2, 2, 0, 5, cellsOf(3, 5))
	badHead := bytes.Replace(le, []byte("INT 60"), []byte("INT x0"), 1)
	noDims := append(stdHdr("RW", by(), field{"VV", " 120"}).render(4), 1, 2, 3, 4)
	member := func(mark, vv int) []byte {
		h := stdHdr("FZ", by(), gp(2, 2), field{"VV", fmt.Sprintf(" %03d", vv)}, field{"INT", " 5"})
		b, _ := makeFile(encSB, h, 2, 2, 0, func(x, y int) int { return mark + x + 2*y })
		return b
	}
	arch := func() []byte { return archiveOf(member(10, 5), member(20, 0)) }
	arch2 := func() []byte { return archiveOf(member(90, 60)) }
	archBad := func() []byte { return archiveOf(member(30, 0), badHead) }
	archCut := func() []byte { return arch()[:90] }
	first := func(b []byte, _ *want) []byte { return b }
	nat := func() []byte { return first(toolFile(encSB, "RX", 225, 225, 0, -1, posCode(encSB))) }
	wn := func() []byte {
		return first(toolFile(encLE, "WN", 275, 300, -1, -1, posCode(encLE), field{"VS", " 5"}))
	}
	pl := func() []byte { return first(localFile(encRL, "PX", posCode(encRL))) }
	pu := func() []byte { return first(localFile(encRL, "PU", posCode(encRL))) }

	ops = []op15{
		parseOp("two-byte", le), parseOp("two-byte-dBZ", le2), parseOp("two-byte-flags", le3), parseOp("one-byte", sb), parseOp("one-byte-km", sb2),
		parseOp("run-length-6", rl), parseOp("run-length-12", rl2),
		parseOp("truncated-two-byte", le[:len(le)-3]), parseOp("truncated-one-byte", sb[:len(sb)-2]), parseOp("truncated-run-length", rl[:len(rl)-3]),
		parseOp("bad-row", badRow), parseOp("bad-header", badHead), parseOp("no-dimensions", noDims), parseOp("truncated-header", le[:30]), parseOp("unknown-unit", unknown),
		scribbleOp("scribble-two-byte", le2), scribbleOp("scribble-one-byte", sb), scribbleOp("scribble-run-length", rl2), scribbleOp("scribble-unknown", unknown),
	}
	archOp := func(name string, b func() []byte, scrib bool) op15 {
		return op15{name: name, run: func(w *world15, o *opOut) {
			cs, err := radolan.NewComposites(&points{b: b()})
			o.add(err, cs...)
			if scrib {
				o.keep, o.kfp = nil, nil
				for _, c := range cs {
					scribble(c)
				}
			}
		}}
	}
	ops = append(ops, archOp("archive", arch, false), archOp("archive-of-one", arch2, true), archOp("archive-bad-member", archBad, false), archOp("archive-damaged", archCut, false))
	project := func(name string, f, dx, dy int) op15 {
		return op15{name: name, run: func(w *world15, o *opOut) {
			c := radolan.NewDummy("RW", f, dx, dy)
			for _, p := range [][2]float64{{51, 9}, {54.6, 2}, {47, 15}} {
				x, y := c.Project(p[0], p[1])
				o.fp += fmt.Sprintln(x, y)
			}
			o.add(nil, c)
		}}
	}
	ops = append(ops, project("project-national", 3, 900, 900), project("project-extended", 3, 450, 550), project("project-european", 3, 1400, 1500),
		project("project-de1200", 3, 1100, 1200), project("project-wgs84", 5, 1100, 1200), project("project-none", 5, 900, 900), project("project-turned", 3, 1100, 900), project("project-picture", 3, 115, 115))
	hand := func() *radolan.Composite {
		return handmade(2, 2, 2, func(x, y, z int) float32 { return float32(x)*20.5 - float32(y)*3 + float32(z) })
	}
	draw := func(name string, layer int, fn func() vis.ColorFunc) op15 {
		return op15{name: name, run: func(w *world15, o *opOut) {
			c := hand()
			o.image(vis.Image(fn(), c, layer))
			o.image(vis.Image(fn(), c, layer+1))
		}}
	}
	ops = append(ops, draw("image-heat", 0, func() vis.ColorFunc { return vis.HeatmapReflectivity }), draw("image-radial", 1, func() vis.ColorFunc { return vis.HeatmapRadialVelocity }),
		draw("image-gray", 0, func() vis.ColorFunc { return vis.Graymap(-3, 15, vis.Id) }), draw("image-log", 0, func() vis.ColorFunc { return vis.Heatmap(0.1, 200, vis.Log) }),
		draw("image-clash", 1, func() vis.ColorFunc { return vis.Heatmap(1, 75, vis.Log) }), draw("image-gray-log", 0, func() vis.ColorFunc { return vis.Graymap(1, 75, vis.Log) }))
	ops = append(ops, op15{name: "rates", run: func(w *world15, o *opOut) {
		z := radolan.NewZR(77, 1.9)
		for _, d := range []float32{-32.5, 0, 20, 55.5} {
			o.fp += fmt.Sprintln(radolan.PrecipitationRate(z, d), radolan.PrecipitationRate(radolan.Aniol80, d), radolan.Reflectivity(radolan.JossWaldvogel70, float64(d)),
				radolan.Reflectivity(z, 3), radolan.IsNaN(d), radolan.IsNaN(radolan.NaN))
		}
		for u := radolan.Unit(0); u <= radolan.Unit_mps; u++ {
			o.fp += u.String()
		}
	}}, op15{name: "rates-other", run: func(w *world15, o *opOut) {
		z := radolan.NewZR(500, 1.1)
		o.fp += fmt.Sprintln(radolan.PrecipitationRate(z, 33), radolan.PrecipitationRate(radolan.Doelling98, 33), radolan.Reflectivity(z, 12))
	}})
	share := func(name string, f func(c *radolan.Composite, o *opOut)) {
		ops = append(ops, op15{name: name, shared: true, run: func(w *world15, o *opOut) { f(w.shared, o) }})
	}
	share("shared-at", func(c *radolan.Composite, o *opOut) {
		for z := -1; z < 2; z++ {
			for y := -1; y < 3; y++ {
				for x := -1; x < 4; x++ {
					o.fp += fmt.Sprintln(c.At(x, y), c.AtZ(x, y, z))
				}
			}
		}
	})
	share("shared-image", func(c *radolan.Composite, o *opOut) { o.image(vis.Image(vis.HeatmapAccumulatedDay, c, 0)) })
	share("shared-project", func(c *radolan.Composite, o *opOut) { o.fp += fingerprint(c) })
	for k, name := range []string{"shared-sphere", "shared-wgs84"} {
		k := k
		ops = append(ops, op15{name: name, shared: true, run: func(w *world15, o *opOut) {
			for _, p := range [][2]float64{{51, 9}, {54.6, 2}, {51, 9}, {47, 15}} {
				x, y := w.maps[k].Project(p[0], p[1])
				o.fp += fmt.Sprintln(x, y)
			}
			o.fp += describe(w.maps[k])
		}})
	}
	// an archive of equal composites of which one is modified
	ops = append(ops, op15{name: "archive-of-equals", run: func(w *world15, o *opOut) {
		cs, err := radolan.NewComposites(&points{b: archiveOf(member(0, 0), member(0, 0), member(0, 0))})
		o.add(err, cs...)
		if len(cs) == 3 {
			scribble(cs[1])
			o.keep, o.kfp = []*radolan.Composite{cs[0], cs[2]}, []string{o.kfp[0], o.kfp[2]}
		}
	}})
	ops = append(ops, bigOp("national", nat), bigOp("wgs84", wn), bigOp("local", pl), bigOp("layers", pu))
	return append(ops, families15()...)
}

// families15 are families of operations whose inputs differ in one respect only.
func families15() (ops []op15) {
	// files that differ in one header field or one part of the data
	add := func(group, name string, run func(w *world15, o *opOut)) {
		ops = append(ops, op15{name: group + "/" + name, group: group, big: true, run: run})
	}
	file := func(group, name string, b []byte) {
		add(group, name, func(w *world15, o *opOut) {
			c, err := radolan.NewComposite(&points{b: append([]byte{}, b...), chunk: 50})
			o.add(err, c)
		})
	}
	le := func(product, by string, repl ...string) []byte {
		text := product + "020400100000514" + "BY%%%%%%%VS 3SW   2.13.1PR E-01INT  60GP   2x   3VV 000MF 00000008MS<69>abc"
		for i := 0; i < len(repl); i += 2 {
			if !strings.Contains(text, repl[i]) {
				panic(repl[i])
			}
			text = strings.Replace(text, repl[i], repl[i+1], 1)
		}
		n := len(text) + 1
		cells := []byte{7, 0x01, 0xc4, 0x29, 9, 0x42, 0, 0, 255, 0x8f, 1, 2}
		if by != "" {
			cells = []byte(by)
		}
		text = strings.Replace(text, "%%%%%%%", fmt.Sprintf("%7d", n+len(cells)), 1)
		return append(append([]byte(text), 3), cells...)
	}
	file("file", "base", le("SF", ""))
	for _, p := range []string{"RW", "RX", "PG", "W1", "SQ", "EX", "ZZ"} {
		file("file", "product "+p, le(p, ""))
	}
	for i, r := range [][]string{{"020400", "020500"}, {"020400", "030400"}, {"0514", "0614"}, {"0514", "0515"}, {"10000", "10100"}, {"VS 3", "VS 2"}, {"VS 3", "VS 5"}, {"VS 3", ""}, {"2.13.1", "2.13.2"},
		{"E-01", "E-02"}, {"E-01", "E+00"}, {"E-01", "E+01"}, {"PR E-01", ""}, {"INT  60", "INT   5"}, {"INT  60", "INT1440"}, {"INT  60", ""}, {"   2x   3", "   3x   2"}, {"   2x   3", "   1x   6"},
		{"   2x   3", "   6x   1"}, {"VV 000", "VV 005"}, {"VV 000", ""}, {"00008", "00001"}, {"<69>abc", "<69>abd"}, {"GP   2x   3", "GP   2x   2"}, {"INT  60", "INT  6x"}} {
		file("file", fmt.Sprint("change ", i), le("SF", "", r...))
	}
	file("file", "other cells", le("SF", "\x08\x01\xc4\x29\x09\x42\x00\x00\xff\x8f\x01\x02"))
	file("file", "last cell", le("SF", "\x07\x01\xc4\x29\x09\x42\x00\x00\xff\x8f\x01\x03"))
	file("file", "one byte", le("SF", "\x07\x01\xc4\x29\x09\x42"))
	file("file", "truncated", le("SF", "")[:150])
	// units, precisions and widths of each encoding
	for enc, group := range []string{encLE: "two-byte", encSB: "one-byte", encRL: "run-length"} {
		for _, p := range []string{"RX", "PE", "SF", "PD", "ZZ"} {
			for _, pr := range []int{0, -1, 1, -2} {
				for _, dx := range []int{5, 4} {
					if enc == encRL && pr != 0 && pr != -1 || dx == 4 && (pr < -1 || pr == 1) {
						continue
					}
					b, _ := toolFile(enc, p, dx, 2, pr, -1, func(x, y int) int {
						return []int{250, 7, 0x4025, 100, 255, 0x2001, 0, 13, 249, 0x1003}[y*5+x] & (1<<uint(16-8*(enc&1)) - 1)
					})
					file(group, fmt.Sprint(p, pr, dx), b)
				}
			}
		}
	}
	// level tables that share their number or their first levels
	levels := func(name string, lv []float64, rows ...[]int) {
		h := stdHdr("PG", by(), gp(4, len(rows)), lvField(lv))
		var d []byte
		for y, r := range rows {
			d = append(append(d, rlEncode(byte(40+y), r)...), '\n')
		}
		file("levels", name, append(h.render(len(d)), d...))
	}
	rows := [][]int{{0, 1, 2, 3}, {3, 3, 0, 1}}
	levels("base", []float64{1, 19, 28}, rows...)
	levels("first", []float64{2, 19, 28}, rows...)
	levels("middle", []float64{1, 20, 28}, rows...)
	levels("last", []float64{1, 19, 29}, rows...)
	levels("fewer", []float64{1, 19}, rows...)
	levels("more", []float64{1, 19, 28, 37}, []int{4, 1, 2, 3}, []int{4, 4, 0, 1})
	levels("one row", []float64{1, 19, 28}, rows[1])
	levels("other rows", []float64{1, 19, 28}, rows[1], rows[0])
	levels("signed", []float64{-1, -19, 28}, rows...)
	// gradients
	vals := []float64{math.NaN(), math.Inf(-1), -100, -31.5, -3, -0.05, 0, 0.05, 0.1, 0.9, 1, 1.5, 3, 10, 20, 31.5, 50, 74, 75, 99, 100, 101, 300, 5000, math.Inf(1)}
	half := func(v float64) float64 { return v / 2 }
	root := func(v float64) float64 { return math.Sqrt(math.Abs(v)) }
	for fi, f := range []func(a, b float64, c func(float64) float64) vis.ColorFunc{vis.Graymap, vis.Heatmap, vis.Radialmap} {
		for ri, rg := range [][2]float64{{0.1, 100}, {0.1, 75}, {1, 100}, {1, 75}, {5, 75}} {
			for ci, comp := range []func(float64) float64{vis.Id, vis.Log, half, root} {
				f, rg, comp := f, rg, comp
				if ci == 3 && ri > 1 {
					continue
				}
				add("gradient", fmt.Sprint([]string{"gray", "heat", "radial"}[fi], rg, []string{"Id", "Log", "half", "root"}[ci]), func(w *world15, o *opOut) {
					g := f(rg[0], rg[1], comp)
					for _, v := range vals {
						o.fp += fmt.Sprintln(v, g(v))
					}
				})
			}
		}
	}
	for i, g := range []vis.ColorFunc{vis.HeatmapReflectivityShort, vis.HeatmapReflectivity, vis.HeatmapReflectivityWide, vis.HeatmapAccumulatedHour, vis.HeatmapAccumulatedDay, vis.HeatmapRadialVelocity, vis.GraymapLinear, vis.GraymapLinearWide} {
		g := g
		add("gradient", fmt.Sprint("predefined ", i), func(w *world15, o *opOut) {
			for _, v := range vals {
				o.fp += fmt.Sprintln(v, g(v))
			}
		})
	}
	// projections
	for _, g := range [][2]int{{900, 900}, {920, 920}, {900, 1100}, {1100, 1200}, {1400, 1500}, {450, 450}, {225, 275}, {2200, 2400}, {700, 750}, {460, 460}, {901, 900}} {
		for _, f := range []int{0, 3, 5} {
			if f == 0 && g[0] != 900 && g[0] != 1100 {
				continue
			}
			for _, p := range []string{"SF", "WN"} {
				if p == "WN" && g[0] != 900 && g[0] != 1100 {
					continue
				}
				g, f, p := g, f, p
				add("projection", fmt.Sprint(g, f, p), func(w *world15, o *opOut) {
					c := radolan.NewDummy(p, f, g[0], g[1])
					for lat := 44.0; lat < 58; lat += 3.5 {
						for lon := 0.0; lon < 20; lon += 4 {
							x, y := c.Project(lat, lon)
							o.fp += fmt.Sprintln(x, y)
						}
					}
					o.add(nil, c)
				})
			}
		}
	}
	// Z-R relations
	for _, z := range [][2]float64{{256, 1.42}, {256, 1.5}, {300, 1.42}, {300, 1.5}, {300, 1.4}, {200, 1.6}, {316, 1.5}, {316, 1.6}, {1, 1}, {0.5, 3}} {
		z := z
		add("rate", fmt.Sprint(z), func(w *world15, o *opOut) {
			r := radolan.NewZR(z[0], z[1])
			for _, d := range []float32{-32.5, 0, 7, 20, 20.5, 60} {
				p := radolan.PrecipitationRate(r, d)
				o.fp += fmt.Sprintln(p, radolan.Reflectivity(r, p), radolan.Reflectivity(r, 5))
			}
		})
	}
	for i, r := range []radolan.ZR{radolan.Aniol80, radolan.Doelling98, radolan.JossWaldvogel70, radolan.MarshallPalmer55} {
		r := r
		add("rate", fmt.Sprint("predefined ", i), func(w *world15, o *opOut) {
			for _, d := range []float32{-32.5, 0, 7, 20, 20.5, 60} {
				p := radolan.PrecipitationRate(r, d)
				o.fp += fmt.Sprintln(p, radolan.Reflectivity(r, p), radolan.Reflectivity(r, 5))
			}
		})
	}
	// pictures of composites that differ in size, layer or a single value
	for i, s := range [][3]int{{2, 2, 2}, {2, 2, 1}, {1, 2, 2}, {2, 1, 2}, {3, 2, 1}, {1, 1, 1}, {2, 2, 2}, {0, 2, 1}, {4, 1, 2}} {
		for layer := -1; layer < 2; layer++ {
			i, s, layer := i, s, layer
			add("image", fmt.Sprint(i, s, layer), func(w *world15, o *opOut) {
				c := handmade(s[0], s[1], s[2], func(x, y, z int) float32 {
					if i == 6 && x == 1 && y == 1 {
						return 3
					}
					return float32(x*20+y*7) + float32(z)
				})
				o.image(vis.Image(vis.Heatmap(1, 75, vis.Id), c, layer))
				o.image(vis.Image(vis.Graymap(1, 75, vis.Id), c, layer))
			})
		}
	}
	// archives
	member := func(product string, mark, vv int) []byte {
		h := stdHdr(product, by(), gp(2, 2), field{"VV", fmt.Sprintf(" %03d", vv)}, field{"INT", " 5"})
		b, _ := makeFile(encSB, h, 2, 2, 0, func(x, y int) int { return mark + x + 2*y })
		return b
	}
	for i, ms := range [][][]byte{{member("FZ", 10, 5), member("FZ", 20, 0)}, {member("FZ", 20, 0), member("FZ", 10, 5)}, {member("FZ", 10, 0), member("FZ", 20, 5)}, {member("FZ", 10, 5)}, {member("FZ", 20, 0)},
		{member("FZ", 10, 5), member("FZ", 20, 0), member("FZ", 30, 10)}, {member("FZ", 10, 5), member("WN", 20, 0)}, {member("FZ", 10, 5), member("FZ", 20, 0)[:50]}, {}} {
		ms := ms
		add("archives", fmt.Sprint(i), func(w *world15, o *opOut) {
			cs, err := radolan.NewComposites(&points{b: archiveOf(ms...)})
			o.add(err, cs...)
		})
	}
	return
}

// job15 is an execution in a fresh process.
type job15 struct {
	Ops   []int // operations; run one after the other, or (Sched, Race) at once
	Sched bool
	Race  bool
	Plan  []int
	Trace bool
	Delay []int // statement and visit that is held back, in whichever goroutine
}

type result15 struct {
	FP      []string // hash of what each operation returned
	Text    []string // excerpt
	Changed []string // later changes
	Panics  []string
	Traces  [][]int
	Visits  map[int]int // Delay: how often each statement was passed
	Blocked bool
	Stuck   bool
}

func init() {
	subcommands["_c15"] = func(a []string) {
		var j job15
		if err := json.Unmarshal([]byte(a[0]), &j); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(98)
		}
		if !j.Race && j.Delay == nil {
			runtime.GOMAXPROCS(1)
		}
		all := ops15()
		w := &world15{}
		for _, i := range j.Ops {
			if all[i].shared && w.shared == nil {
				f, _ := toolFile(encLE, "SF", 3, 2, -1, 60, func(x, y int) int { return 900 + 7*x + 40*y })
				w.shared, _ = radolan.NewComposite(bytes.NewReader(f))
				w.maps = []*radolan.Composite{radolan.NewDummy("SF", 3, 900, 900), radolan.NewDummy("WN", 5, 1100, 1200)}
			}
		}
		outs := make([]opOut, len(j.Ops))
		r := result15{}
		pan := make([]string, len(j.Ops))
		runOp := func(k int) {
			defer func() {
				if e := recover(); e != nil {
					buf := make([]byte, 2000)
					pan[k] = fmt.Sprintf("%s panicked: %v\n%s", all[j.Ops[k]].name, e, buf[:runtime.Stack(buf, false)])
				}
			}()
			all[j.Ops[k]].run(w, &outs[k])
		}
		var fs []func()
		for k := range j.Ops {
			k := k
			fs = append(fs, func() { runOp(k) })
		}
		switch {
		case j.Race:
			var wg sync.WaitGroup
			start := make(chan bool)
			for _, f := range fs {
				f := f
				wg.Add(1)
				go func() { defer wg.Done(); <-start; f() }()
			}
			close(start)
			wg.Wait()
		case j.Sched:
			s := &vsched.Sched{Record: j.Trace}
			s.Run(j.Plan, fs...)
			r.Blocked, r.Stuck = s.Blocked, s.Stuck
			for k := range fs {
				if j.Trace {
					r.Traces = append(r.Traces, s.Trace(k))
				}
			}
		case j.Delay != nil:
			d := &vsched.Delays{ID: j.Delay[0], Visit: j.Delay[1], Time: 3 * time.Millisecond}
			d.Start()
			for _, f := range fs {
				f()
			}
			r.Visits = d.Stop()
			time.Sleep(d.Time / 3) // what goroutines left behind still do
		default:
			for _, f := range fs {
				f()
			}
		}
		if !r.Stuck {
			for k := range outs {
				r.FP = append(r.FP, fmt.Sprintf("%016x", mc.Hash(outs[k].fp)))
				x := outs[k].fp
				if len(x) > 300 {
					x = x[:300]
				}
				r.Text = append(r.Text, x)
				if !outs[k].intact() {
					r.Changed = append(r.Changed, all[j.Ops[k]].name)
				}
				if pan[k] != "" {
					r.Panics = append(r.Panics, pan[k])
				}
			}
		}
		json.NewEncoder(os.Stdout).Encode(r)
		os.Exit(0)
	}
}

// child runs a job in a fresh process.
func child(t *mc.T, bin string, j job15) (r result15) {
	spec, _ := json.Marshal(j)
	ctx, cancel := context.WithTimeout(context.Background(), 100*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, bin, "_c15", string(spec))
	cmd.Env = []string{"PATH=/usr/bin:/bin", "TZ=Europe/Berlin", "VERIF_ROOT=" + os.Getenv("VERIF_ROOT"), "GOTRACEBACK=all", "GORACE=halt_on_error=1 exitcode=66 atexit_sleep_ms=0", "GOMAXPROCS=2"}
	var o, e bytes.Buffer
	cmd.Stdout, cmd.Stderr = &o, &e
	err := cmd.Run()
	names := func() (s []string) {
		all := ops15()
		for _, i := range j.Ops {
			s = append(s, all[i].name)
		}
		return
	}
	if ctx.Err() != nil {
		t.Fail("operations %v did not end within 100 s", names())
	}
	if x, ok := err.(*exec.ExitError); ok {
		if j.Race && x.ExitCode() == 66 {
			t.Fail("data race between %v:\n%.1500s", names(), e.String())
		}
		if s := e.String(); strings.Contains(s, "fatal error:") || strings.Contains(s, "panic:") {
			t.Fail("operations %v crashed:\n%.1500s", names(), s)
		}
	}
	if err == nil {
		err = json.Unmarshal(o.Bytes(), &r)
	}
	if err != nil {
		fmt.Fprintf(os.Stderr, "HARNESS ERROR: %v: %v %.500s\n", spec, err, e.String())
		os.Exit(3)
	}
	return
}

func bin15(name string) string {
	p := filepath.Join(os.Getenv("VERIF_WORK"), name)
	if _, err := os.Stat(p); err != nil {
		return os.Args[0] // the instrumented copy could not be built: points only at Reads
	}
	return p
}

// solo is what each operation returns in a process of its own.
type solo15 struct {
	fp, text []string
	trace    [][]int
	visits   []map[int]int // by all goroutines
}

func soloRuns(t *mc.T, all []op15) (s solo15) {
	n := len(all)
	s.fp, s.text, s.trace, s.visits = make([]string, n), make([]string, n), make([][]int, n), make([]map[int]int, n)
	var wg sync.WaitGroup
	var broken int32
	sem := make(chan bool, runtime.NumCPU())
	for i := range all {
		i := i
		wg.Add(1)
		go func() {
			defer wg.Done()
			sem <- true
			defer func() { <-sem }()
			defer func() {
				if r := recover(); r != nil { // reported by the executions that use it
					atomic.StoreInt32(&broken, 1)
					s.fp[i], s.text[i] = "panic", fmt.Sprint(r)
				}
			}()
			if atomic.LoadInt32(&broken) != 0 { // the first one is enough
				s.fp[i] = "panic"
				return
			}
			r := child(t, bin15("check15"), job15{Ops: []int{i}, Sched: !all[i].big, Trace: true})
			if len(r.Panics) > 0 || len(r.FP) == 0 {
				s.fp[i] = "panic"
				return
			}
			s.fp[i], s.text[i] = r.FP[0], r.Text[0]
			if !all[i].big {
				s.trace[i] = r.Traces[0]
				s.visits[i] = child(t, bin15("check15"), job15{Ops: []int{i}, Delay: []int{0, 0}}).Visits
			}
		}()
	}
	wg.Wait()
	return
}

// representatives are the positions before the first and last visit of each statement.
func representatives(trace []int, all bool) (ps []int) {
	if all {
		for i := range trace {
			ps = append(ps, i)
		}
		return
	}
	visits, last := map[int]int{}, map[int]int{}
	set := map[int]bool{}
	for i, id := range trace {
		visits[id]++
		last[id] = i
		if visits[id] <= 1 {
			set[i] = true
		}
	}
	for _, i := range last {
		set[i] = true
	}
	for i := range set {
		ps = append(ps, i)
	}
	sort.Ints(ps)
	return
}

func spacesC15(th bool) []mc.Space {
	all := ops15()
	var solo solo15
	if os.Getenv("VERIF_WORK") != "" {
		solo = soloRuns(&mc.T{}, all)
	}
	check := func(t *mc.T, j job15, r result15) {
		var names []string
		for _, i := range j.Ops {
			names = append(names, all[i].name)
		}
		t.Note("operations %v plan %v blocked %v", names, j.Plan, r.Blocked)
		how := "one after the other"
		if j.Delay != nil {
			how = fmt.Sprintf("with a delay at visit %d of statement %d", j.Delay[1], j.Delay[0])
		}
		if j.Sched || j.Race {
			how = fmt.Sprintf("at once (plan %v)", j.Plan)
		}
		t.Must(!r.Stuck, "operations %v %s do not end", names, how)
		if len(r.Panics) > 0 {
			t.Fail("operations %v %s: %s", names, how, r.Panics[0])
		}
		for k, i := range j.Ops {
			if r.FP[k] != solo.fp[i] {
				t.Fail("operations %v %s: %s (number %d) returned\n%s\nbut alone\n%s", names, how, names[k], k, r.Text[k], solo.text[i])
			}
		}
		t.Must(len(r.Changed) == 0, "operations %v %s: what %v returned changed afterwards", names, how, r.Changed)
		t.Steps(len(j.Ops))
		t.NonTrivial()
	}
	bin := bin15("check15")
	families := map[string][]int{}
	var familyNames []string
	for i, o := range all {
		if o.group != "" {
			if families[o.group] == nil {
				familyNames = append(familyNames, o.group)
			}
			families[o.group] = append(families[o.group], i)
		}
	}
	pool := func(big bool) (is []int) {
		for i, o := range all {
			if o.group == "" && (!o.big || big) {
				is = append(is, i)
			}
		}
		return
	}
	smallOps, allOps := pool(false), pool(true)
	// the instrumented copy behaves like the plain one
	faithful := func(t *mc.T) {
		i := t.Choose(len(all))
		j := job15{Ops: []int{i}}
		t.Must(solo.fp[i] != "panic", "%s panics", all[i].name)
		check(t, j, child(t, os.Args[0], j))
		t.Outcome(i)
	}
	pairs := func(t *mc.T) {
		j := job15{Ops: []int{allOps[t.Choose(len(allOps))], allOps[t.Choose(len(allOps))]}}
		check(t, j, child(t, bin, j))
		t.Outcome(j.Ops)
	}
	triples := func(t *mc.T) {
		p := smallOps
		if th {
			p = allOps
		}
		j := job15{Ops: []int{p[t.Choose(len(p))], p[t.Choose(len(p))], p[t.Choose(len(p))]}}
		check(t, j, child(t, bin, j))
		t.Outcome(j.Ops)
	}
	// histories of operations on nearly equal inputs
	family := func(t *mc.T) {
		f := families[familyNames[t.Choose(len(familyNames))]]
		a, b := f[t.Choose(len(f))], f[t.Choose(len(f))]
		j := job15{Ops: []int{a, b, a}}
		if th {
			j.Ops = []int{a, b, f[t.Choose(len(f))], a}
		}
		check(t, j, child(t, bin, j))
		t.Outcome(j.Ops)
	}
	// long histories: an operation repeated, alternated and after all others
	long := func(t *mc.T) {
		a := allOps[t.Choose(len(allOps))]
		var ops []int
		switch t.Choose(4) {
		case 0:
			for i := 0; i < 300; i++ {
				ops = append(ops, a)
			}
		case 1:
			for _, b := range smallOps {
				ops = append(ops, a, b)
			}
		case 2:
			for i := len(smallOps) - 1; i >= 0; i-- {
				ops = append(ops, smallOps[i], smallOps[i], a)
			}
		case 3:
			ops = append(append(append(ops, smallOps...), a), smallOps...)
		}
		j := job15{Ops: ops}
		check(t, j, child(t, bin, j))
		t.Outcome(ops)
	}
	intruders := smallOps // operations that run while another one is stopped
	if !th {
		intruders = nil
		for _, i := range smallOps {
			if !strings.Contains(" two-byte-flags one-byte-km truncated-two-byte truncated-one-byte no-dimensions project-picture project-turned image-gray-log rates-other scribble-unknown archive-damaged ", " "+all[i].name+" ") {
				intruders = append(intruders, i)
			}
		}
	}
	// an operation very often, then all others of its family
	worn := func(t *mc.T) {
		f := families[familyNames[t.Choose(len(familyNames))]]
		a := f[t.Choose(len(f))]
		var ops []int
		for i := 0; i < 300; i++ {
			ops = append(ops, a)
		}
		ops = append(append(ops, f...), a)
		j := job15{Ops: ops}
		check(t, j, child(t, bin, j))
		t.Outcome(a)
	}
	one := func(t *mc.T) { // one preemption
		a, b := smallOps[t.Choose(len(smallOps))], intruders[t.Choose(len(intruders))]
		ps := representatives(solo.trace[a], th)
		if len(ps) == 0 {
			t.Skip()
		}
		j := job15{Ops: []int{a, b}, Sched: true, Plan: []int{ps[t.Choose(len(ps))]}}
		check(t, j, child(t, bin, j))
		t.State(mc.Hash(fmt.Sprint(a, solo.trace[a][j.Plan[0]], b)))
		t.Steps(len(solo.trace[a]) + len(solo.trace[b]))
		t.Outcome(a, b, j.Plan)
	}
	// one delay: any goroutine, also one the library starts, is late at one place while the others go on
	delay := func(t *mc.T) {
		a := smallOps[t.Choose(len(smallOps))]
		var ids []int
		for id := range solo.visits[a] {
			ids = append(ids, id)
		}
		if len(ids) == 0 {
			t.Skip()
		}
		sort.Ints(ids)
		id := ids[t.Choose(len(ids))]
		n := solo.visits[a][id]
		var vs []int
		for v := 1; v <= n; v++ {
			if th && v <= 40 || v <= 2 || v == n {
				vs = append(vs, v)
			}
		}
		j := job15{Ops: []int{a}, Delay: []int{id, vs[t.Choose(len(vs))]}}
		check(t, j, child(t, bin, j))
		t.State(mc.Hash(fmt.Sprint(a, j.Delay)))
		t.Outcome(a, j.Delay)
	}
	// two preemptions: both operations are stopped in the middle
	core := []string{"two-byte", "two-byte-dBZ", "one-byte", "run-length-6", "run-length-12", "bad-row", "truncated-one-byte", "bad-header", "archive", "project-wgs84", "project-national", "image-heat", "rates", "unknown-unit", "scribble-run-length", "shared-image"}
	two := func(t *mc.T) {
		var c []int
		for i, o := range all {
			for _, n := range core {
				if o.name == n {
					c = append(c, i)
				}
			}
		}
		var a, b int
		if th {
			a, b = c[t.Choose(len(c))], c[t.Choose(len(c))]
		} else {
			a = c[t.Choose(len(c))]
			b = a
			if k := t.Choose(2); k == 1 {
				b = c[0]
			}
		}
		pa, pb := firsts(solo.trace[a]), firsts(solo.trace[b])
		if len(pa) == 0 || len(pb) == 0 {
			t.Skip()
		}
		i, k := t.Choose(len(pa)), t.Choose(len(pb))
		if !th && (i+k)%7 != 0 {
			t.Skip()
		}
		j := job15{Ops: []int{a, b}, Sched: true, Plan: []int{pa[i], pb[k]}}
		check(t, j, child(t, bin, j))
		t.State(mc.Hash(fmt.Sprint(a, solo.trace[a][pa[i]], b, solo.trace[b][pb[k]])))
		t.Steps(len(solo.trace[a]) + len(solo.trace[b]))
		t.Outcome(a, b, j.Plan)
	}
	// unsynchronised accesses: every pair under the race detector
	races := func(t *mc.T) {
		bin := filepath.Join(os.Getenv("VERIF_WORK"), "check-race")
		if _, err := os.Stat(bin); err != nil {
			t.Skip()
		}
		a, b := smallOps[t.Choose(len(smallOps))], smallOps[t.Choose(len(smallOps))]
		if b < a {
			t.Skip()
		}
		j := job15{Ops: []int{a, b}, Race: true}
		if all[a].name == "two-byte" && b == a {
			j.Ops = append(append(j.Ops, smallOps...), smallOps...) // everything at once
		}
		check(t, j, child(t, bin, j))
		t.Outcome(a, b)
	}
	return []mc.Space{{Name: "faithful", Fn: faithful}, {Name: "pairs", Fn: pairs}, {Name: "races", Fn: races}, {Name: "families", Fn: family}, {Name: "long", Fn: long}, {Name: "worn", Fn: worn}, {Name: "delays", Fn: delay}, {Name: "one-preemption", Fn: one}, {Name: "two-preemptions", Fn: two}, {Name: "triples", Fn: triples}}
}

// firsts are the positions before the first visit of each statement.
func firsts(trace []int) (ps []int) {
	seen := map[int]bool{}
	for i, id := range trace {
		if !seen[id] {
			seen[id] = true
			ps = append(ps, i)
		}
	}
	return
}

func init() {
	register(mc.Check{ID: "C15", Level: "model_checking", Spaces: spacesC15, Assume: []string{
		"a statement of the library is one step, except for accesses the race detector reports", "code of the standard library is one step"}})
}
