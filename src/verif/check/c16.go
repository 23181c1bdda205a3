package main

import (
	"bytes"
	"fmt"
	"image/color"
	"math"

	"gitlab.cs.fau.de/since/radolan"
	"gitlab.cs.fau.de/since/radolan/radolan2png/vis"
	"verif/mc"
)

// gradient is the reference description of a colour function.
type gradient struct {
	name     string
	kind     int // 0 gray, 1 heat, 2 radial
	min, max float64
	comp     func(float64) float64
	fn       vis.ColorFunc
}

func ident(x float64) float64 { return x }

var black = color.RGBA{0, 0, 0, 255}

// chan255 is the channel value of an intensity.
func chan255(v float64) float64 { return 255 * v }

// expect returns the channels (0..255, not rounded) of a value.
func (g *gradient) expect(v float64) (r, gg, b float64) {
	c := g.comp(v)
	lo, hi := g.comp(g.min), g.comp(g.max)
	switch g.kind {
	case 2:
		if v != v {
			return 0, 0, 0
		}
		m := math.Abs(v)
		var lev, non float64
		if m <= 1 {
			lev, non = 255, 0xCC
		} else {
			p := g.comp(m) / g.comp(math.Max(math.Abs(g.min), math.Abs(g.max)))
			if p > 1 {
				p = 1
			}
			lev = chan255(p)
		}
		if v < 0 {
			return non, lev, lev
		}
		return lev, non, non
	}
	if v != v || c != c || c < lo {
		return 0, 0, 0
	}
	p := (c - lo) / (hi - lo)
	if p > 1 {
		p = 1
	}
	if g.kind == 0 {
		return chan255(p), chan255(p), chan255(p)
	}
	// HSL: hue from 240 (blue) through 0 (red) to 270 (violet), lightness 1/4 to 3/4
	h := 240 - 330*p
	if h < 0 {
		h += 360
	}
	l := 0.25 + 0.5*p
	a := math.Min(l, 1-l)
	f := func(n float64) float64 {
		k := math.Mod(n+h/30, 12)
		return chan255(l - a*math.Max(-1, math.Min(math.Min(k-3, 9-k), 1)))
	}
	return f(0), f(8), f(4)
}

// close: the channel is the intensity up to rounding.
func closeTo(got uint8, want float64) bool { return math.Abs(float64(got)-want) < 1.001 }

func (g *gradient) check(t *mc.T, v float64) color.RGBA {
	c := g.fn(v)
	if c.A != 255 {
		t.Fail("%s(%v) = %v is not opaque", g.name, v, c)
	}
	r, gg, b := g.expect(v)
	if !closeTo(c.R, r) || !closeTo(c.G, gg) || !closeTo(c.B, b) {
		t.Fail("%s(%v) = %v, want (%.1f, %.1f, %.1f)", g.name, v, c, r, gg, b)
	}
	if r == 0 && gg == 0 && b == 0 && g.kind != 2 && (v != v || g.comp(v) < g.comp(g.min)) && c != black {
		t.Fail("%s(%v) = %v, want black", g.name, v, c)
	}
	return c
}

var predefined = []gradient{
	{"HeatmapReflectivityShort", 1, 5, 75, ident, nil},
	{"HeatmapReflectivity", 1, 1, 75, ident, nil},
	{"HeatmapReflectivityWide", 1, -32.5, 75, ident, nil},
	{"HeatmapAccumulatedHour", 1, 0.1, 100, math.Log, nil},
	{"HeatmapAccumulatedDay", 1, 0.1, 200, math.Log, nil},
	{"HeatmapRadialVelocity", 2, -31.5, 31.5, math.Log, nil},
	{"GraymapLinear", 0, 0, 409.5, ident, nil},
	{"GraymapLinearWide", 0, 0, 4095, ident, nil},
}

func init() {
	for i, f := range []vis.ColorFunc{vis.HeatmapReflectivityShort, vis.HeatmapReflectivity, vis.HeatmapReflectivityWide, vis.HeatmapAccumulatedHour,
		vis.HeatmapAccumulatedDay, vis.HeatmapRadialVelocity, vis.GraymapLinear, vis.GraymapLinearWide} {
		predefined[i].fn = f
	}
}

// custom builds a gradient from parameters.
func custom(t *mc.T, kind int) gradient {
	type lim struct{ a, b float64 }
	var ls []lim
	if kind == 2 {
		ls = []lim{{-31.5, 31.5}, {-10, 40}, {-50, 5}, {-2, 2}, {0, 20}, {-20, 0}, {-1.5, 100}}
	} else {
		ls = []lim{{0.1, 400}, {0, 15}, {-32.5, 95}, {-10, -5}, {0, 1}, {-1, 1}, {0.1, 200}, {0.1, 100}, {1, 75}, {5, 6}, {0, 1e6}, {1e-3, 1e-2}, {-4095, 4095}, {100, 250}}
	}
	l := ls[t.Choose(len(ls))]
	g := gradient{kind: kind, min: l.a, max: l.b}
	c := ""
	var f func(float64) float64
	switch t.Choose(4) {
	case 0:
		g.comp, f, c = ident, vis.Id, "Id"
	case 1:
		g.comp, f, c = math.Log, vis.Log, "Log"
		if kind != 2 && l.a <= 0 {
			t.Skip()
		}
	case 2:
		g.comp, c = func(x float64) float64 { return x * x * x }, "cube"
		f = g.comp
	case 3:
		g.comp, c = math.Sqrt, "sqrt"
		f = g.comp
		if kind != 2 && l.a < 0 {
			t.Skip()
		}
	}
	switch kind {
	case 0:
		g.fn, g.name = vis.Graymap(l.a, l.b, f), "Graymap"
	case 1:
		g.fn, g.name = vis.Heatmap(l.a, l.b, f), "Heatmap"
	case 2:
		g.fn, g.name = vis.Radialmap(l.a, l.b, f), "Radialmap"
	}
	g.name = fmt.Sprintf("%s(%v, %v, %s)", g.name, l.a, l.b, c)
	return g
}

func anyGradient(t *mc.T) gradient {
	i := t.Choose(len(predefined) + 3)
	if i < len(predefined) {
		return predefined[i]
	}
	return custom(t, i-len(predefined))
}

func spacesC16(th bool) []mc.Space {
	decodable := func(t *mc.T) {
		g := anyGradient(t)
		t.Note("%s", g.name)
		p := t.Range(-3, 3)
		n := 0
		for raw := -4095; raw <= 4095; raw++ {
			v := float32(raw) * float32(math.Pow10(p))
			g.check(t, float64(v))
			g.check(t, float64(v/2-32.5))
			n += 2
		}
		t.Steps(n)
		t.Outcome(g.name, p)
	}
	sweep := func(t *mc.T) {
		g := anyGradient(t)
		span := g.max - g.min
		if g.kind == 2 {
			span = 2 * math.Max(math.Abs(g.min), math.Abs(g.max))
		}
		lo := g.min - span/4
		if g.kind == 2 {
			lo = -span * 0.75
		}
		N := 20000
		if th {
			N = 200000
		}
		var prev, first color.RGBA
		firstNeg := true
		for i := 0; i <= N; i++ {
			v := lo + span*1.5*float64(i)/float64(N)
			c := g.check(t, v)
			if g.kind == 0 {
				if c.R != c.G || c.G != c.B {
					t.Fail("%s(%v) = %v is not gray", g.name, v, c)
				}
				if i > 0 && c.R < prev.R {
					t.Fail("%s is not monotonic at %v", g.name, v)
				}
				if v >= g.max && c.R != 255 {
					t.Fail("%s(%v) = %v, want white", g.name, v, c)
				}
			}
			if g.kind == 1 && v >= g.max {
				if firstNeg {
					first, firstNeg = c, false
				}
				if c != first {
					t.Fail("%s(%v) = %v differs from %v at the maximum", g.name, v, c, first)
				}
			}
			if g.kind == 2 && v != 0 {
				if v < 0 && (c.G != c.B || c.R > c.G) || v > 0 && (c.G != c.B || c.G > c.R) {
					t.Fail("%s(%v) = %v has the wrong tone", g.name, v, c)
				}
				if a := g.fn(-v); a.R != c.G || a.G != c.R || a.B != c.R {
					t.Fail("%s(%v) = %v and %s(%v) = %v do not mirror each other", g.name, v, c, g.name, -v, a)
				}
			}
			prev = c
		}
		// exact limits
		for _, v := range []float64{g.min, g.max, math.Nextafter(g.min, -1e9), math.Nextafter(g.min, 1e9), math.Nextafter(g.max, -1e9), math.Nextafter(g.max, 1e9), (g.min + g.max) / 2, 0, 1, -1, math.Nextafter(1, 2), -math.Nextafter(1, 2)} {
			g.check(t, v)
		}
		t.Steps(N)
		t.Outcome(g.name)
	}
	special := func(t *mc.T) {
		g := anyGradient(t)
		vs := []float64{math.NaN(), math.Inf(1), math.Inf(-1), 0, math.Copysign(0, -1), math.MaxFloat64, -math.MaxFloat64, math.SmallestNonzeroFloat64, -math.SmallestNonzeroFloat64,
			math.MaxFloat32, -math.MaxFloat32, math.MaxInt64, math.MinInt64, float64(radolan.NaN), 1e19, -1e19, math.Float64frombits(0x7ff0000000000001), math.Float64frombits(0xfff8000000000000)}
		for e := -1074; e < 1024; e++ {
			vs = append(vs, math.Ldexp(1, e), -math.Ldexp(1, e), math.Ldexp(1.5, e), -math.Ldexp(1.7, e))
		}
		for _, v := range vs {
			c := g.fn(v)
			t.Must(c.A == 255, "%s(%v) = %v is not opaque", g.name, v, c)
			x := g.comp(v)
			if v != v || x != x && g.kind != 2 {
				t.Must(c == black, "%s(%v) = %v, want black", g.name, v, c)
			} else if !math.IsInf(v, 0) && (math.Abs(x) < 1e150) {
				g.check(t, v)
			} else if g.kind != 2 && x < g.comp(g.min) {
				t.Must(c == black, "%s(%v) = %v, want black", g.name, v, c)
			} else if g.kind != 2 && x > g.comp(g.max) || g.kind == 2 && math.Abs(v) > 1e6 {
				m := g.max
				if g.kind == 2 {
					m = math.Copysign(math.Max(math.Abs(g.min), math.Abs(g.max)), v)
				}
				t.Must(c == g.fn(m), "%s(%v) = %v, at the limit %v", g.name, v, c, g.fn(m))
			}
			t.Must(g.fn(v) == c, "%s(%v) is not repeatable", g.name, v)
		}
		t.Steps(len(vs))
		t.Outcome(g.name)
	}
	// values exactly on, just below and just above the places where the hue sector, the gray level or the tone changes
	corners := func(t *mc.T) {
		k := t.Choose(3)
		s := math.Ldexp(1, t.Range(-12, 12))
		lo := []float64{0, -165, 1, -32.5, 75}[t.Choose(5)] * s
		n := []float64{255, 330, 255}[k]
		g := gradient{kind: k, min: lo, max: lo + n*s, comp: ident}
		switch k {
		case 0:
			g.fn, g.name = vis.Graymap(g.min, g.max, vis.Id), fmt.Sprintf("Graymap(%v, %v)", g.min, g.max)
		case 1:
			g.fn, g.name = vis.Heatmap(g.min, g.max, vis.Id), fmt.Sprintf("Heatmap(%v, %v)", g.min, g.max)
		case 2:
			g.min, g.max = -n*s, n*s/2
			g.fn, g.name = vis.Radialmap(g.min, g.max, vis.Id), fmt.Sprintf("Radialmap(%v, %v)", g.min, g.max)
			lo = -n * s
			n *= 2
		}
		for i := -1.0; i <= n+1; i++ {
			v := lo + i*s
			for _, x := range []float64{v, math.Nextafter(v, -1e30), math.Nextafter(v, 1e30)} {
				g.check(t, x)
			}
		}
		t.Steps(int(n) * 3)
		t.Outcome(g.name)
	}
	// any parameters: total and opaque
	degenerate := func(t *mc.T) {
		ps := []float64{0, 1, -1, 5, 5, -31.5, math.NaN(), math.Inf(1), math.Inf(-1), 1e308, -1e308, 1e-300}
		min, max := ps[t.Choose(len(ps))], ps[t.Choose(len(ps))]
		comp := mc.Pick(t, vis.Id, vis.Log)
		for _, fn := range []vis.ColorFunc{vis.Graymap(min, max, comp), vis.Heatmap(min, max, comp), vis.Radialmap(min, max, comp)} {
			for _, v := range append([]float64{2, 3.7, -2, 0.5, 1e6}, ps...) {
				c := fn(v)
				t.Must(c.A == 255, "gradient(%v, %v)(%v) = %v is not opaque", min, max, v, c)
			}
		}
		t.Steps(51)
		t.Outcome(min, max)
	}
	compressions := func(t *mc.T) {
		for i := -100000; i <= 100000; i++ {
			v := float64(i) / 64
			t.Must(vis.Id(v) == v, "Id(%v) = %v", v, vis.Id(v))
			a, b := vis.Log(v), math.Log(v)
			t.Must(a == b || a != a && b != b || math.Abs(a-b) < 1e-12, "Log(%v) = %v", v, a)
		}
		t.Steps(200001)
	}
	// two gradients alive at the same time do not influence each other
	pairs := func(t *mc.T) {
		a, b := anyGradient(t), predefined[t.Choose(len(predefined))]
		for i := 0; i < 300; i++ {
			v := -50 + float64(i)
			a.check(t, v)
			b.check(t, v)
		}
		t.Steps(600)
	}
	// all single precision values
	floats := func(t *mc.T) {
		g := predefined[t.Choose(len(predefined))]
		hi := uint32(t.Choose(4096)) << 20
		step := uint32(1 << 6)
		if th {
			step = 1
		}
		for lo := uint32(0); lo < 1<<20; lo += step {
			v := float64(math.Float32frombits(hi | lo | hi>>20&(step-1)))
			if math.Abs(v) < 1e30 || v != v {
				g.check(t, v)
			} else if c := g.fn(v); c.A != 255 {
				t.Fail("%s(%v) = %v is not opaque", g.name, v, c)
			}
		}
		t.Steps(int(1 << 20 / step))
		t.OutcomeHash(uint64(hi) + mc.Hash(g.name))
	}
	return []mc.Space{{Name: "decodable", Fn: decodable}, {Name: "sweep", Fn: sweep}, {Name: "special", Fn: special}, {Name: "corners", Fn: corners}, {Name: "degenerate", Fn: degenerate},
		{Name: "compressions", Fn: compressions}, {Name: "pairs", Fn: pairs}, {Name: "floats", Fn: floats}}
}

// handmade builds a composite from exported fields only.
func handmade(dx, dy, dz int, f func(x, y, z int) float32) *radolan.Composite {
	c := &radolan.Composite{Product: "RX", Px: dx, Py: dy * dz, Dx: dx, Dy: dy, Dz: dz}
	for i := 0; i < dy*dz; i++ {
		c.PlainData = append(c.PlainData, make([]float32, dx))
		for x := range c.PlainData[i] {
			c.PlainData[i][x] = f(x, i%dy, i/dy)
		}
	}
	for z := 0; z < dz; z++ {
		c.DataZ = append(c.DataZ, c.PlainData[z*dy:(z+1)*dy])
	}
	c.Data = c.DataZ[0]
	return c
}

// checkImage compares the image with the data.
func checkImage(t *mc.T, name string, fn vis.ColorFunc, c *radolan.Composite, layer int) {
	before := fingerprint(c)
	img := vis.Image(fn, c, layer)
	t.Must(img != nil, "no image")
	b := img.Bounds()
	t.Must(b.Min.X == 0 && b.Min.Y == 0 && b.Max.X == c.Dx && b.Max.Y == c.Dy, "image bounds %v for %dx%d", b, c.Dx, c.Dy)
	blank := layer < 0 || layer >= c.Dz
	for y := 0; y < c.Dy; y++ {
		for x := 0; x < c.Dx; x++ {
			got := img.RGBAAt(x, y)
			var want color.RGBA
			if !blank {
				want = fn(float64(c.DataZ[layer][y][x]))
			}
			if got != want {
				t.Fail("%s, layer %d of %dx%dx%d: pixel (%d, %d) = %v, want %v", name, layer, c.Dx, c.Dy, c.Dz, x, y, got, want)
			}
		}
	}
	t.Must(fingerprint(c) == before, "the composite was changed")
	t.Steps(c.Dx * c.Dy)
}

// bits shows all bits of a value.
func bits(v float64) color.RGBA {
	u := math.Float32bits(float32(v))
	return color.RGBA{byte(u >> 24), byte(u >> 16), byte(u >> 8), byte(u)}
}

func spacesC17(th bool) []mc.Space {
	funcs := []struct {
		name string
		fn   vis.ColorFunc
	}{{"bits", bits}, {"HeatmapReflectivity", vis.HeatmapReflectivity}, {"GraymapLinear", vis.GraymapLinear}, {"HeatmapRadialVelocity", vis.HeatmapRadialVelocity},
		{"transparent", func(v float64) color.RGBA { return color.RGBA{uint8(int(v)), 0, 0, uint8(int(v) / 3)} }}}
	layersOf := func(dz int) []int {
		l := []int{-2, -1, dz, dz + 1, math.MaxInt64, math.MinInt64, math.MaxInt32, math.MinInt32, 1 << 32}
		for i := 0; i < dz; i++ {
			l = append(l, i)
		}
		return l
	}
	m := 6
	if th {
		m = 12
	}
	shapes := func(t *mc.T) {
		dx, dy, dz := t.Range(1, m), t.Range(1, m), t.Range(1, 4)
		c := handmade(dx, dy, dz, func(x, y, z int) float32 {
			switch (x + 2*y + 3*z) % 7 {
			case 0:
				return radolan.NaN
			case 1:
				return float32(-x - y)
			}
			return float32(x) + 13*float32(y) + 171*float32(z) - 32.5
		})
		ls := layersOf(dz)
		l := ls[t.Choose(len(ls))]
		f := funcs[t.Choose(len(funcs))]
		t.Note("%s %dx%dx%d layer %d", f.name, dx, dy, dz, l)
		checkImage(t, f.name, f.fn, c, l)
		t.Outcome(dx, dy, dz, l, f.name)
	}
	// one marked voxel at every place
	marks := func(t *mc.T) {
		dx, dy, dz := t.Range(1, 5), t.Range(1, 5), t.Range(1, 3)
		i := t.Choose(dx * dy * dz)
		c := handmade(dx, dy, dz, func(x, y, z int) float32 {
			if (z*dy+y)*dx+x == i {
				return 42
			}
			return radolan.NaN
		})
		checkImage(t, "bits", bits, c, t.Choose(dz))
		t.Outcome(dx, dy, dz, i)
	}
	parsed := func(t *mc.T) {
		c := obtain(t)
		if c == nil || c.Dx < 0 || c.Dy < 0 {
			t.Skip()
		}
		f := funcs[t.Choose(2)]
		ls := layersOf(c.Dz)
		if len(ls) > 16 && !th {
			ls = append(ls[:12:12], ls[len(ls)-2:]...)
		}
		checkImage(t, f.name, f.fn, c, ls[t.Choose(len(ls))])
		t.Outcome(c.Dx, c.Dy, c.Dz)
	}
	// flat, tall and real sizes
	sizes := func(t *mc.T) {
		ds := [][2]int{{1, 3000}, {3000, 1}, {255, 257}, {256, 256}, {257, 3}, {1025, 9}, {460, 460}, {900, 900}, {1100, 1200}, {1400, 1500}, {900, 1100}}
		d := ds[t.Choose(len(ds))]
		k := t.Choose(2)
		c := handmade(d[0], d[1], 1, func(x, y, z int) float32 { return float32((x*31+y*17)%997)/7 - 40 })
		checkImage(t, funcs[k].name, funcs[k].fn, c, 0)
		t.Outcome(d, k)
	}
	// many layers
	deep := func(t *mc.T) {
		dz := mc.Pick(t, 12, 13, 63, 64, 65, 127, 128, 129, 200, 255, 256, 257, 300, 1000, 32767, 32768, 32769, 65535, 65536, 65537)
		c := handmade(2, 1, dz, func(x, y, z int) float32 { return float32(z*2+x) / 4 })
		ls := []int{-1, 0, 1, dz / 2, dz - 2, dz - 1, dz, dz + 1, 127, 128, 129, 255, 256, 257, 32767, 32768, 65535, 65536, dz + 256, dz + 65536, 1 << 32, dz - 1 + 1<<32}
		l := ls[t.Choose(len(ls))]
		t.Note("%d layers, layer %d", dz, l)
		k := t.Choose(2)
		checkImage(t, funcs[k].name, funcs[k].fn, c, l)
		t.Outcome(dz, l, k)
	}
	// images are snapshots: later changes of data or image do not reach each other
	isolated := func(t *mc.T) {
		c := handmade(4, 3, 2, func(x, y, z int) float32 { return float32(x + 10*y + 100*z) })
		l := t.Choose(2)
		a := vis.Image(bits, c, l)
		pix := append([]byte{}, a.Pix...)
		b := vis.Image(vis.GraymapLinear, c, 1-l)
		c.DataZ[l][t.Choose(3)][t.Choose(4)] = 4711
		for i := range b.Pix {
			b.Pix[i] = 99
		}
		t.Must(bytes.Equal(a.Pix, pix), "an image changed after it was returned")
		checkImage(t, "bits", bits, c, l)
	}
	// two values that are close to each other or far apart, beside, above and before each other
	var vals []float32
	for _, v := range []float32{0, 0.1, 1, 7, 42, 100.05, 1000, 3e-5, 1e20, -3.25, -32.5, 75} {
		vals = append(vals, v, math.Nextafter32(v, 1e30), v*(1+1e-6), 0-v*(1+1e-5))
		for _, d := range []float32{0.001, 0.01, 0.04, 0.09, 0.25, 0.49, 0.5, 0.9, 1, 256} {
			vals = append(vals, v+d)
		}
	}
	vals = append(vals, radolan.NaN, float32(math.Copysign(0, -1)), float32(math.Inf(1)), float32(math.Inf(-1)), math.MaxFloat32, -math.MaxFloat32, math.SmallestNonzeroFloat32)
	close := func(t *mc.T) {
		a, b := vals[t.Choose(len(vals))], vals[t.Choose(len(vals))]
		k := t.Choose(2)
		c := handmade(2, 2, 1, func(x, y, z int) float32 {
			if x+y*k == 1 {
				return b
			}
			return a
		})
		t.Note("%v and %v", a, b)
		checkImage(t, "bits", bits, c, 0)
		t.Outcome(a, b, k)
	}
	return []mc.Space{{Name: "shapes", Fn: shapes}, {Name: "close", Fn: close}, {Name: "marks", Fn: marks}, {Name: "parsed", Fn: parsed}, {Name: "sizes", Fn: sizes}, {Name: "deep", Fn: deep}, {Name: "isolated", Fn: isolated}}
}

func init() {
	register(mc.Check{ID: "C16", Level: "model_checking", Spaces: spacesC16, Assume: []string{"channels are compared up to rounding (one step of 255)"}})
	register(mc.Check{ID: "C17", Level: "model_checking", Spaces: spacesC17})
}
