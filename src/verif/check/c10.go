package main

import (
	"fmt"
	"math"

	"gitlab.cs.fau.de/since/radolan"
	"verif/mc"
)

// gridSpec is a supported grid: extent in km and the coordinates of its upper left and lower right corner.
type gridSpec struct {
	name                  string
	w, h                  int
	top, left, bot, right float64
	wgs                   bool
}

var grids = []gridSpec{
	{"national", 900, 900, 54.5877, 2.0715, 47.0705, 14.6209, false},
	{"picture", 920, 920, 54.66218275, 1.900684377, 46.98044293, 14.73300934, false},
	{"extended", 900, 1100, 55.5482, 3.0889, 46.1827, 15.4801, false},
	{"DE1200", 1100, 1200, 55.86584289, 1.435612143, 45.68358331, 16.60186543, false},
	{"european", 1400, 1500, 56.5423, -0.8654, 43.8736, 18.2536, false},
	{"DE1200-wgs84", 1100, 1200, 55.86208711, 1.463301510, 45.68460578, 16.58086935, true},
}

// gridOf is the projection rule: nil if there is none.
func gridOf(dx, dy, format int) *gridSpec {
	if dx <= 0 || dy <= 0 {
		return nil
	}
	for i := range grids {
		g := &grids[i]
		if g.wgs != (format >= 5 && g.w == 1100 && g.h == 1200) {
			continue
		}
		if format >= 5 && !g.wgs {
			continue
		}
		// dx * 2^k = w and dy * 2^k = h for some integer k of either sign
		for k := uint(0); k < 62; k++ {
			if dx<<k>>k == dx && dx<<k == g.w && dy<<k>>k == dy && dy<<k == g.h {
				return g
			}
			if g.w<<k>>k == g.w && g.w<<k == dx && g.h<<k>>k == g.h && g.h<<k == dy {
				return g
			}
		}
	}
	return nil
}

const rad = math.Pi / 180

// forward projects to kilometres on the projection plane, x to the right and y downwards.
func (g *gridSpec) forward(lat, lon float64) (x, y float64) {
	d := (lon - 10) * rad
	var rho float64
	if g.wgs {
		rho = rhoWGS(lat)
	} else {
		// stereographic, true at 60N: rho = R (1 + sin 60) tan(45 - lat/2)
		rho = 6370.04 * (1 + math.Sin(60*rad)) * math.Tan((90-lat)*rad/2)
	}
	return rho * math.Sin(d), rho * math.Cos(d)
}

var wgsA, wgsB = 6378.137, 6356.7523142451802

func rhoWGS(lat float64) float64 {
	e2 := 1 - wgsB*wgsB/(wgsA*wgsA)
	e := math.Sqrt(e2)
	tt := func(phi float64) float64 {
		s := e * math.Sin(phi)
		return math.Tan(math.Pi/4-phi/2) * math.Exp(e*math.Atanh(s))
	}
	pc := 60 * rad
	mc := math.Cos(pc) / math.Sqrt(1-e2*math.Sin(pc)*math.Sin(pc))
	return wgsA * mc * tt(lat*rad) / tt(pc)
}

// inverse is the coordinate of a point on the plane.
func (g *gridSpec) inverse(x, y float64) (lat, lon float64) {
	rho := math.Hypot(x, y)
	lon = 10 + math.Atan2(x, y)/rad
	if !g.wgs {
		return 90 - 2*math.Atan(rho/(6370.04*(1+math.Sin(60*rad))))/rad, lon
	}
	// Newton-like correction on the sphere's solution
	lat = 90 - 2*math.Atan(rho/(6370.04*(1+math.Sin(60*rad))))/rad
	for i := 0; i < 30; i++ {
		f := rhoWGS(lat) - rho
		const h = 1e-4
		df := (rhoWGS(lat+h) - rhoWGS(lat-h)) / (2 * h)
		lat -= f / df
		if math.Abs(f) < 1e-10 {
			break
		}
	}
	return
}

// box is the rectangle of the grid on the plane.
func (g *gridSpec) box() (x0, y0, x1, y1 float64) {
	x0, y0 = g.forward(g.top, g.left)
	x1, y1 = g.forward(g.bot, g.right)
	return
}

// pixel is the expected result of Project.
func (g *gridSpec) pixel(lat, lon float64, dx, dy int) (x, y float64) {
	x0, y0, x1, y1 := g.box()
	px, py := g.forward(lat, lon)
	return (px - x0) / (x1 - x0) * float64(dx), (py - y0) / (y1 - y0) * float64(dy)
}

// coord is the coordinate of a pixel position.
func (g *gridSpec) coord(x, y float64, dx, dy int) (lat, lon float64) {
	x0, y0, x1, y1 := g.box()
	return g.inverse(x0+(x1-x0)*x/float64(dx), y0+(y1-y0)*y/float64(dy))
}

func isNaN(vs ...float64) bool {
	for _, v := range vs {
		if v == v {
			return false
		}
	}
	return true
}

// checkProjection compares the offered projection with the rule. local: resolution may be catalogued.
func checkProjection(t *mc.T, c *radolan.Composite, dx, dy, format int) {
	g := gridOf(dx, dy, format)
	if g == nil {
		t.Must(!c.HasProjection, "%dx%d format %d has a projection", dx, dy, format)
		x, y := c.Project(51, 9)
		t.Must(isNaN(x, y), "%dx%d format %d: Project = %v, %v, want NaN", dx, dy, format, x, y)
		t.Must(isNaN(c.Rx, c.Ry), "%dx%d format %d: Rx, Ry = %v, %v, want NaN", dx, dy, format, c.Rx, c.Ry)
		return
	}
	t.Must(c.HasProjection, "%dx%d format %d (%s) has no projection", dx, dy, format, g.name)
	rx, ry := float64(g.w)/float64(dx), float64(g.h)/float64(dy)
	t.Must(math.Abs(c.Rx/rx-1) < 1e-4 && math.Abs(c.Ry/ry-1) < 1e-4, "%dx%d format %d (%s): Rx, Ry = %v, %v, want %v, %v", dx, dy, format, g.name, c.Rx, c.Ry, rx, ry)
	for _, p := range [][2]float64{{51, 9}, {g.top, g.left}, {g.bot, g.right}, {47.123, 15.9}, {0, 10}} {
		x, y := c.Project(p[0], p[1])
		wx, wy := g.pixel(p[0], p[1], dx, dy)
		d := math.Hypot((x-wx)*rx, (y-wy)*ry)
		t.Must(d < 1e-3, "%dx%d format %d (%s): Project(%v, %v) = %v, %v, want %v, %v", dx, dy, format, g.name, p[0], p[1], x, y, wx, wy)
	}
	t.NonTrivial()
}

func spacesC10(th bool) []mc.Space {
	max := 1600
	if th {
		max = 3100
	}
	formats := []int{0, 1, 2, 3, 4, 5, 6, 7, 8, 9}
	pairs := func(t *mc.T) {
		dx := t.Range(-3, max)
		f := formats[t.Choose(len(formats))]
		if !th && f%5 != 0 && dx%5 != 0 && dx > 100 {
			t.Skip()
		}
		for dy := -3; dy <= max; dy++ {
			checkProjection(t, radolan.NewDummy("SF", f, dx, dy), dx, dy, f)
		}
		t.Steps(max + 4)
		t.Outcome(dx, f)
	}
	// two configurations by turns
	var confs [][3]int
	for _, g := range grids {
		for _, f := range []int{0, 4, 5} {
			confs = append(confs, [3]int{g.w, g.h, f}, [3]int{g.w / 2, g.h / 2, f}, [3]int{g.h, g.w, f}, [3]int{g.w, g.h + 1, f}, [3]int{2 * g.w, 2 * g.h, f})
		}
	}
	turns := func(t *mc.T) {
		a, b := confs[t.Choose(len(confs))], confs[t.Choose(len(confs))]
		for _, p := range []string{"SF", "WN"} {
			for _, x := range [][3]int{a, b, a, a, b, b} {
				checkProjection(t, radolan.NewDummy(p, x[2], x[0], x[1]), x[0], x[1], x[2])
			}
		}
		t.Steps(12)
		t.Outcome(a, b)
	}
	// around large multiples of the grids
	multiples := func(t *mc.T) {
		g := grids[t.Choose(5)]
		k := uint(t.Choose(40))
		w, h := g.w, g.h
		for w%2 == 0 && h%2 == 0 {
			w, h = w/2, h/2
		}
		kd := t.Range(-3, 3)
		ky := int(k) + kd // unequal factors are no grid
		if ky < 0 {
			t.Skip()
		}
		dx, dy := w<<k, h<<uint(ky)
		dx += t.Range(-1, 1)
		dy += t.Range(-1, 1)
		if t.Bool() {
			dx, dy = dy, dx
		}
		f := mc.Pick(t, 0, 4, 5, 6, -1, 255, math.MaxInt32, math.MinInt32, math.MaxInt64, math.MinInt64)
		p := mc.Pick(t, "WN", "", "RX", "XXX")
		t.Note("%dx%d format %d product %q", dx, dy, f, p)
		checkProjection(t, radolan.NewDummy(p, f, dx, dy), dx, dy, f)
		t.Outcome(dx, dy, f)
	}
	// odd multiples (3, 5, ...) and half sizes are no grids
	odd := func(t *mc.T) {
		g := grids[t.Choose(5)]
		n, d := t.Range(1, 40), t.Range(1, 40)
		if g.w*n%d != 0 || g.h*n%d != 0 {
			t.Skip()
		}
		dx, dy := g.w*n/d, g.h*n/d
		f := mc.Pick(t, 3, 5)
		checkProjection(t, radolan.NewDummy("SF", f, dx, dy), dx, dy, f)
		t.Outcome(dx, dy, f)
	}
	dims := [][2]int{{225, 225}, {115, 115}, {225, 275}, {275, 300}, {350, 375}, {450, 450}, {230, 230}, {550, 600}, {224, 225}, {225, 224}, {275, 225}, {112, 115}, {900, 1}, {5, 5}, {675, 675}, {300, 275}}
	if th {
		for _, g := range grids {
			dims = append(dims, [2]int{g.w, g.h})
		}
	}
	// a parsed composite has the projection of the dummy
	parsed := func(t *mc.T) {
		d := dims[t.Choose(len(dims))]
		enc := t.Choose(3)
		vs := t.Choose(12) - 1
		p := mc.Pick(t, "RX", "RW", "WN", "PG", "PZ", "XX")
		h := stdHdr(p, by())
		f := 0
		if vs >= 0 {
			f = vs
			h.fields = append(h.fields, field{"VS", fmt.Sprintf("%2d", vs)})
		}
		if t.Bool() && d[0] < 1000 && d[1] < 1000 {
			h.fields = append(h.fields, field{"BG", fmt.Sprintf("%03d%03d", d[1], d[0])})
		} else {
			h.fields = append(h.fields, gp(d[0], d[1]))
		}
		b, _ := makeFile(enc, h, d[0], d[1], 0, posCode(enc))
		t.Note("%q", headerOf(b))
		c, err := parse(t, b)
		if p == "XX" {
			t.Must(err == radolan.ErrUnknownUnit, "error %v", err)
		} else {
			must(t, err)
		}
		checkProjection(t, c, d[0], d[1], f)
		e := radolan.NewDummy(p, f, d[0], d[1])
		t.Must(c.HasProjection == e.HasProjection, "parsed composite and dummy disagree about the projection")
		t.Must(e.Dx == d[0] && e.Dy == d[1] && e.Product == p && e.Format == f, "dummy is %q %d %dx%d", e.Product, e.Format, e.Dx, e.Dy)
		same := func(a, b float64) bool { return a == b || a != a && b != b || math.Abs(a-b) < 1e-9*math.Abs(a) }
		t.Must(same(c.Rx, e.Rx) && same(c.Ry, e.Ry), "parsed resolution %v, %v, dummy %v, %v", c.Rx, c.Ry, e.Rx, e.Ry)
		for lat := -80.0; lat <= 90; lat += 8.5 {
			for lon := -180.0; lon < 180; lon += 22.5 {
				x, y := c.Project(lat, lon)
				ex, ey := e.Project(lat, lon)
				t.Must(same(x, ex) && same(y, ey), "Project(%v, %v): parsed %v, %v, dummy %v, %v", lat, lon, x, y, ex, ey)
			}
		}
		t.Steps(21 * 16)
		t.Outcome(d, vs, p)
	}
	// without projection every coordinate gives NaN
	none := func(t *mc.T) {
		d := [][2]int{{1, 1}, {0, 0}, {-900, -900}, {901, 900}, {200, 200}, {900, 900}, {460, 460}, {1400, 1500}, {350, 375}}[t.Choose(9)]
		c := radolan.NewDummy("SF", mc.Pick(t, 5, 6, 99), d[0], d[1])
		for lat := -95.0; lat <= 95; lat += 2.5 {
			for lon := -400.0; lon <= 400; lon += 12.5 {
				x, y := c.Project(lat, lon)
				t.Must(isNaN(x, y), "Project(%v, %v) = %v, %v without projection", lat, lon, x, y)
			}
		}
		for _, v := range []float64{math.NaN(), math.Inf(1), math.Inf(-1), math.MaxFloat64, 0} {
			x, y := c.Project(v, 9)
			t.Must(isNaN(x, y), "Project(%v, 9) = %v, %v without projection", v, x, y)
			x, y = c.Project(51, v)
			t.Must(isNaN(x, y), "Project(51, %v) = %v, %v without projection", v, x, y)
		}
		t.Must(!c.HasProjection && isNaN(c.Rx, c.Ry), "projection or resolution without grid: %v %v", c.Rx, c.Ry)
		t.Steps(77 * 65)
	}
	return []mc.Space{{Name: "pairs", Fn: pairs}, {Name: "turns", Fn: turns}, {Name: "multiples", Fn: multiples}, {Name: "odd", Fn: odd}, {Name: "parsed", Fn: parsed}, {Name: "none", Fn: none}}
}

// tolerance in kilometres for a point at the given distance from the pole
func tolKm(x, y float64) float64 { return 1e-3 + 1e-7*math.Hypot(x, y) }

func spacesProj(wgs bool) func(th bool) []mc.Space {
	var gs []*gridSpec
	for i := range grids {
		if grids[i].wgs == wgs {
			gs = append(gs, &grids[i])
		}
	}
	formatsOf := func(t *mc.T) int {
		if wgs {
			return mc.Pick(t, 5, 6, 7, 9, 10, 255)
		}
		return mc.Pick(t, 0, 3, 4, 1, 2, -1)
	}
	return func(th bool) []mc.Space {
		scale := func(t *mc.T, g *gridSpec, up int) (dx, dy int, ok bool) {
			k := t.Choose(6) - up
			dx, dy = g.w, g.h
			for ; k > 0; k-- {
				if dx%2 != 0 || dy%2 != 0 {
					return 0, 0, false
				}
				dx, dy = dx/2, dy/2
			}
			for ; k < 0; k++ {
				dx, dy = dx*2, dy*2
			}
			return dx, dy, true
		}
		check := func(t *mc.T, g *gridSpec, c *radolan.Composite, lat, lon float64, dx, dy int) {
			x, y := c.Project(lat, lon)
			wx, wy := g.pixel(lat, lon, dx, dy)
			rx, ry := float64(g.w)/float64(dx), float64(g.h)/float64(dy)
			kx, ky := g.forward(lat, lon)
			if d := math.Hypot((x-wx)*rx, (y-wy)*ry); !(d < tolKm(kx, ky)) {
				t.Fail("%s %dx%d: Project(%v, %v) = %v, %v, want %v, %v (%.1f m off)", g.name, dx, dy, lat, lon, x, y, wx, wy, d*1000)
			}
			x2, y2 := c.Project(lat, lon)
			if x2 != x || y2 != y {
				t.Fail("%s %dx%d: repeated Project(%v, %v) = %v, %v and %v, %v", g.name, dx, dy, lat, lon, x, y, x2, y2)
			}
		}
		res := func(t *mc.T, g *gridSpec, c *radolan.Composite, dx, dy int) {
			x0, y0, x1, y1 := g.box()
			t.Must(c.HasProjection, "%s %dx%d: no projection", g.name, dx, dy)
			ex, ey := (x1-x0)/float64(dx), (y1-y0)/float64(dy)
			t.Must(math.Abs(c.Rx/ex-1) < 1e-6 && math.Abs(c.Ry/ey-1) < 1e-6, "%s %dx%d: Rx, Ry = %v, %v, want %v, %v", g.name, dx, dy, c.Rx, c.Ry, ex, ey)
		}
		// every pixel position: independent inverse of the pixel, then Project
		pixels := func(t *mc.T) {
			g := gs[t.Choose(len(gs))]
			dx, dy, ok := scale(t, g, 1)
			if !ok {
				t.Skip()
			}
			f := formatsOf(t)
			if !th && f != 3 && f != 5 && dx > 300 {
				t.Skip()
			}
			off := mc.Pick(t, 0.0, 0.5)
			c := radolan.NewDummy(mc.Pick(t, "SF", "WN"), f, dx, dy)
			part := t.Choose(16)
			n := 0
			rx, ry := float64(g.w)/float64(dx), float64(g.h)/float64(dy)
			res(t, g, c, dx, dy)
			for y := part; y <= dy; y += 16 {
				for x := 0; x <= dx; x++ {
					fx, fy := float64(x)+off, float64(y)+off
					lat, lon := g.coord(fx, fy, dx, dy)
					px, py := c.Project(lat, lon)
					if d := math.Hypot((px-fx)*rx, (py-fy)*ry); !(d < 1e-3) {
						t.Fail("%s %dx%d format %d: pixel (%v, %v) is at %v, %v but Project gives %v, %v (%.1f m off)", g.name, dx, dy, f, fx, fy, lat, lon, px, py, d*1000)
					}
					n++
				}
			}
			t.Steps(n)
			t.Outcome(g.name, dx, off, part)
		}
		// lattice over the whole globe
		world := func(t *mc.T) {
			g := gs[t.Choose(len(gs))]
			dx, dy, ok := scale(t, g, 0)
			if !ok || !th && dx != g.w {
				t.Skip()
			}
			f := formatsOf(t)
			if !th && f != 0 && f != 5 {
				t.Skip()
			}
			c := radolan.NewDummy("RX", f, dx, dy)
			lat := -85 + 0.25*float64(t.Choose(701))
			n := 0
			for lon := -540.0; lon <= 540; lon += 0.5 {
				check(t, g, c, lat, lon, dx, dy)
				n++
			}
			t.Steps(n)
			t.Outcome(g.name, lat)
		}
		// fine lattice over central Europe
		fine := func(t *mc.T) {
			g := gs[t.Choose(len(gs))]
			f := mc.Pick(t, 4, 3)
			if wgs {
				f += 2
			}
			c := radolan.NewDummy("RX", f, g.w, g.h)
			lat := 42 + 0.02*float64(t.Choose(801))
			for lon := -3.0; lon < 23; lon += 0.02 {
				check(t, g, c, lat, lon, g.w, g.h)
			}
			t.Steps(1300)
			t.Outcome(g.name, lat)
		}
		// points close to each other, one after the other on the same and on another composite
		near := func(t *mc.T) {
			g := gs[t.Choose(len(gs))]
			f := formatsOf(t)
			c := radolan.NewDummy("RX", f, g.w, g.h)
			h := gs[t.Choose(len(gs))]
			d := radolan.NewDummy("SF", f, h.w, h.h)
			lat, lon := mc.Pick(t, 45.0, 50.5, 54.5877, 51.000001, 53.9999), mc.Pick(t, 10.0, 1.4633, 6.123456, -0.0001)
			for e := 1.0; e > 1e-6; e /= 2 {
				for _, o := range [][2]float64{{e, 0}, {0, e}, {-e, 0}, {0, -e}, {e, e}, {e, -e}, {-e, e}} {
					check(t, g, c, lat, lon, g.w, g.h)
					check(t, g, c, lat+o[0], lon+o[1], g.w, g.h)
					check(t, h, d, lat+o[0], lon+o[1], h.w, h.h)
					check(t, h, d, lat, lon, h.w, h.h)
				}
			}
			t.Steps(20 * 28)
			t.Outcome(g.name, h.name, f, lat, lon)
		}
		// symmetric and special places: poles, meridians, equator
		special := func(t *mc.T) {
			g := gs[t.Choose(len(gs))]
			c := radolan.NewDummy("RX", formatsOf(t), g.w, g.h)
			lats := []float64{90, 89.9999999, 60, 59.999999, 60.000001, 45, 30, 1e-9, 0, -1e-9, -30, -60, -80, 54.5877, 51}
			lons := []float64{10, 9.9999999, 10.0000001, 0, 5e-324, -1e-9, -170, 190, 100, -80, 180, -180, 370, 730, -350, 55}
			for _, la := range lats {
				for _, lo := range lons {
					check(t, g, c, la, lo, g.w, g.h)
				}
			}
			for _, v := range []float64{math.NaN(), math.Inf(1), math.Inf(-1), -90, 91, 1e300, -1e300} { // no panic
				c.Project(v, 9)
				c.Project(51, v)
			}
			t.Steps(len(lats) * len(lons))
		}
		// parsed composites, with calls interleaved with calls on other grids
		mixed := func(t *mc.T) {
			g := gs[t.Choose(len(gs))]
			dx, dy := g.w, g.h
			for dx%2 == 0 && dy%2 == 0 {
				dx, dy = dx/2, dy/2
			}
			f := formatsOf(t)
			if f < 0 || f > 99 {
				t.Skip()
			}
			enc := t.Choose(3)
			b, _ := makeFile(enc, stdHdr("WN", by(), field{"VS", fmt.Sprintf("%2d", f)}, gp(dx, dy)), dx, dy, 0, posCode(enc))
			c, err := parse(t, b)
			must(t, err)
			res(t, g, c, dx, dy)
			o := &grids[t.Choose(len(grids))]
			of := 0
			if o.wgs {
				of = 5
			}
			oc := radolan.NewDummy("SF", of, o.w, o.h)
			for lat := 43.0; lat < 57; lat += 0.25 {
				for lon := -2.0; lon < 22; lon += 0.5 {
					check(t, g, c, lat, lon, dx, dy)
					if o.wgs == wgs {
						check(t, o, oc, lat, lon, o.w, o.h)
					} else {
						oc.Project(lat, lon)
					}
				}
			}
			t.Steps(56 * 48 * 2)
			t.Outcome(g.name, o.name, f, enc)
		}
		// every resolution and every format version
		resolutions := func(t *mc.T) {
			g := gs[t.Choose(len(gs))]
			dx, dy := g.w, g.h
			for dx%2 == 0 && dy%2 == 0 {
				dx, dy = dx/2, dy/2
			}
			k := t.Choose(40)
			dx, dy = dx<<uint(k), dy<<uint(k)
			f := t.Choose(106)
			if wgs {
				f += 5
			} else {
				f = 4 - f
				if g.w != 1100 && f > 0 && k > 10 {
					t.Skip()
				}
			}
			if k > 8 && f > 9 && f%10 != 0 {
				t.Skip()
			}
			c := radolan.NewDummy("WN", f, dx, dy)
			res(t, g, c, dx, dy)
			n := 0
			for lat := 44.0; lat <= 57; lat += 0.8125 {
				for lon := -3.0; lon < 22; lon += 1.5 {
					check(t, g, c, lat, lon, dx, dy)
					n++
				}
			}
			for _, p := range [][2]float64{{g.top, g.left}, {g.bot, g.right}} {
				check(t, g, c, p[0], p[1], dx, dy)
			}
			t.Steps(n)
			t.Outcome(g.name, dx, f)
		}
		sp := []mc.Space{{Name: "pixels", Fn: pixels}, {Name: "resolutions", Fn: resolutions}, {Name: "world", Fn: world}, {Name: "fine", Fn: fine}, {Name: "near", Fn: near}, {Name: "special", Fn: special}, {Name: "mixed", Fn: mixed}}
		if wgs { // older formats with the same dimensions are spherical
			older := func(t *mc.T) {
				g := &grids[3]
				dx, dy, ok := scale(t, g, 3)
				if !ok {
					t.Skip()
				}
				f := mc.Pick(t, 0, 1, 2, 3, 4, -1, -5, math.MinInt64)
				c := radolan.NewDummy("WN", f, dx, dy)
				res(t, g, c, dx, dy)
				for lat := 40.0; lat <= 60; lat += 0.125 {
					for lon := -5.0; lon < 25; lon += 0.25 {
						check(t, g, c, lat, lon, dx, dy)
					}
				}
				t.Steps(161 * 120)
				t.Outcome(dx, f)
			}
			sp = append(sp, mc.Space{Name: "older-formats", Fn: older})
		}
		return sp
	}
}

func init() {
	register(mc.Check{ID: "C10", Level: "model_checking", Spaces: spacesC10})
	register(mc.Check{ID: "C11", Level: "model_checking", Spaces: spacesProj(false), Assume: []string{"coordinates between the enumerated lattice points are covered by the smoothness of the projection only", "tolerance 1 m (plus 1e-7 of the distance to the pole)"}})
	register(mc.Check{ID: "C12", Level: "model_checking", Spaces: spacesProj(true), Assume: []string{"coordinates between the enumerated lattice points are covered by the smoothness of the projection only", "tolerance 1 m (plus 1e-7 of the distance to the pole)"}})
}
