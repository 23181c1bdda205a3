package main

import (
	"bytes"
	"fmt"
	"math"

	"gitlab.cs.fau.de/since/radolan"
	"verif/mc"
)

var coefA = []float64{0.001, 0.03, 0.5, 1, 1.0000001, 2, 10, 77, 100, 125, 200, 220, 250, 256, 300, 316, 400, 500, 1000, 10000, 1e6}
var coefB = []float64{0.1, 0.25, 0.5, 0.9, 1, 1.1, 1.2, 1.25, 1.4, 1.42, 1.5, 1.6, 2, 3, 5, 10}

type relation struct {
	zr   radolan.ZR
	a, b float64
	name string
}

func relations(t *mc.T) relation {
	i := t.Choose(4 + len(coefA)*len(coefB))
	switch i {
	case 0:
		return relation{radolan.Aniol80, 256, 1.42, "Aniol80"}
	case 1:
		return relation{radolan.Doelling98, 316, 1.5, "Doelling98"}
	case 2:
		return relation{radolan.JossWaldvogel70, 300, 1.5, "JossWaldvogel70"}
	case 3:
		return relation{radolan.MarshallPalmer55, 200, 1.6, "MarshallPalmer55"}
	}
	i -= 4
	a, b := coefA[i/len(coefB)], coefB[i%len(coefB)]
	return relation{radolan.NewZR(a, b), a, b, fmt.Sprintf("NewZR(%v, %v)", a, b)}
}

// rate solves a*R^b = 10^(d/10) in logarithms.
func (r relation) rate(d float64) float64 {
	return math.Exp((d*math.Ln10/10 - math.Log(r.a)) / r.b)
}

func (r relation) dbz(rate float64) float64 {
	return 10 / math.Ln10 * (math.Log(r.a) + r.b*math.Log(rate))
}

// zrPoint checks both conversions at a reflectivity.
func zrPoint(t *mc.T, r relation, d float32) float64 {
	got := radolan.PrecipitationRate(r.zr, d)
	w := r.rate(float64(d))
	if w > 1e-250 && w < 1e250 && math.Abs(float64(d)) < 2500*r.b {
		if !(math.Abs(got/w-1) < 1e-8) {
			t.Fail("%s: PrecipitationRate(%v) = %v, want %v", r.name, d, got, w)
		}
		// the defining equation
		if z := r.b*math.Log(got) + math.Log(r.a) - float64(d)*math.Ln10/10; !(math.Abs(z) < 1e-7*(1+math.Abs(float64(d)))) {
			t.Fail("%s: a*R^b differs from 10^(dBZ/10) for %v dBZ", r.name, d)
		}
		back := radolan.Reflectivity(r.zr, got)
		if !(math.Abs(float64(back-d)) < 1e-5*(1+math.Abs(float64(d)))) {
			t.Fail("%s: Reflectivity(PrecipitationRate(%v)) = %v", r.name, d, back)
		}
	}
	return got
}

func spacesC13(th bool) []mc.Space {
	// all values that composites can contain
	decodable := func(t *mc.T) {
		r := relations(t)
		t.Note("%s", r.name)
		prev := math.Inf(-1)
		n := 0
		for raw := -4095; raw <= 4095; raw++ {
			d := float32(raw)/2 - 32.5
			v := zrPoint(t, r, d)
			if !(v > prev) && v > 1e-250 && v < 1e250 {
				t.Fail("%s: rate does not increase at %v dBZ", r.name, d)
			}
			prev = v
			n++
		}
		for raw := 0; raw <= 4095; raw++ {
			for p := -3; p <= 1; p++ {
				zrPoint(t, r, float32(raw)*float32(math.Pow10(p))/2-32.5)
				n++
			}
		}
		t.Steps(n)
		t.Outcome(r.name)
	}
	fine := func(t *mc.T) { // fine sweep, strictly increasing
		r := relations(t)
		part := t.Choose(20)
		step := 0.01
		if th {
			step = 0.001
		}
		prev := math.Inf(-1)
		n := 0
		for i := 0; float64(i)*step <= 10; i++ {
			d := float32(-100 + 10*float64(part) + float64(i)*step)
			v := zrPoint(t, r, d)
			if !(v > prev) {
				t.Fail("%s: rate does not increase at %v dBZ", r.name, d)
			}
			prev = v
			n++
		}
		t.Steps(n)
		t.Outcome(r.name, part)
	}
	rates := func(t *mc.T) {
		r := relations(t)
		prev := float32(math.Inf(-1))
		n := 0
		for e := -4000; e <= 4000; e++ {
			rt := math.Pow(10, float64(e)/400)
			d := radolan.Reflectivity(r.zr, rt)
			w := r.dbz(rt)
			if !(math.Abs(float64(d)-w) < 1e-6*(1+math.Abs(w))) {
				t.Fail("%s: Reflectivity(%v) = %v, want %v", r.name, rt, d, w)
			}
			if !(d > prev) {
				t.Fail("%s: reflectivity does not increase at rate %v", r.name, rt)
			}
			prev = d
			back := radolan.PrecipitationRate(r.zr, d)
			if !(math.Abs(back/rt-1) < 2e-7*(1+math.Abs(w))/r.b+1e-9) {
				t.Fail("%s: PrecipitationRate(Reflectivity(%v)) = %v", r.name, rt, back)
			}
			n++
		}
		for _, rt := range []float64{0.1, 0.01, 1, 100, 2.5, 0.5} {
			zrPoint(t, r, radolan.Reflectivity(r.zr, rt))
		}
		t.Steps(n)
		t.Outcome(r.name)
	}
	special := func(t *mc.T) {
		r := relations(t)
		for _, bits := range []uint32{0x7fc00000, 0x7fc00001, 0xffc00000, 0x7f800001, 0xff800001, 0x7fffffff, 0xffffffff} {
			v := math.Float32frombits(bits)
			g := radolan.PrecipitationRate(r.zr, v)
			t.Must(g != g, "%s: PrecipitationRate(NaN %x) = %v", r.name, bits, g)
		}
		g := radolan.PrecipitationRate(r.zr, radolan.NaN)
		t.Must(g != g, "%s: PrecipitationRate(NaN) = %v", r.name, g)
		t.Must(radolan.PrecipitationRate(r.zr, float32(math.Inf(-1))) == 0, "%s: PrecipitationRate(-Inf) is not 0", r.name)
		d := radolan.Reflectivity(r.zr, 0)
		t.Must(math.IsInf(float64(d), -1), "%s: Reflectivity(0) = %v, want -Inf", r.name, d)
		d = radolan.Reflectivity(r.zr, math.NaN())
		t.Must(d != d, "%s: Reflectivity(NaN) = %v", r.name, d)
		t.Must(radolan.NaN != radolan.NaN, "NaN is not a NaN")
		t.Steps(11)
	}
	// two relations and two close values by turns
	near := func(t *mc.T) {
		r, q := relations(t), relations(t)
		d := mc.Pick(t, float32(-32.5), 0, 7.25, 42)
		for e := float32(4); e > 1e-4; e /= 2 {
			for _, v := range []float32{d, d + e, d, d - e} {
				zrPoint(t, r, v)
				zrPoint(t, q, v)
			}
			zrPoint(t, q, d)
			zrPoint(t, r, d+e)
			a, b := radolan.Reflectivity(r.zr, 1+float64(e)), radolan.Reflectivity(q.zr, 1+float64(e)/2)
			x, y := r.dbz(1+float64(e)), q.dbz(1+float64(e)/2)
			t.Must(math.Abs(float64(a)-x) < 1e-6*(1+math.Abs(x)), "%s: Reflectivity(%v) = %v, want %v", r.name, 1+e, a, x)
			t.Must(math.Abs(float64(b)-y) < 1e-6*(1+math.Abs(y)), "%s: Reflectivity(%v) = %v, want %v", q.name, 1+e/2, b, y)
		}
		t.Steps(16 * 12)
		t.Outcome(r.name, q.name, d)
	}
	// every single float32
	isnan := func(t *mc.T) {
		hi := uint32(t.Choose(4096)) << 20
		for lo := uint32(0); lo < 1<<20; lo++ {
			b := hi | lo
			want := b&0x7f800000 == 0x7f800000 && b&0x7fffff != 0
			if radolan.IsNaN(math.Float32frombits(b)) != want {
				t.Fail("IsNaN(float32 %08x) = %v", b, !want)
			}
		}
		t.Steps(1 << 20)
		t.OutcomeHash(uint64(hi))
	}
	lattice := func(t *mc.T) { // dense coefficients
		a := float64(1 + t.Choose(1000))
		n := 0
		for k := 2; k <= 120; k++ {
			b := float64(k) / 40
			r := relation{radolan.NewZR(a, b), a, b, fmt.Sprintf("NewZR(%v, %v)", a, b)}
			prev := 0.0
			for d := float32(-32.5); d <= 95; d += 7.5 {
				v := zrPoint(t, r, d)
				t.Must(v > prev, "%s: rate does not increase at %v dBZ", r.name, d)
				prev = v
				n++
			}
		}
		t.Steps(n)
		t.Outcome(a)
	}
	// values of parsed composites
	composites := func(t *mc.T) {
		enc := t.Choose(3)
		p := mc.Pick(t, "RX", "PX", "EX", "FX")
		vals := []int{0, 1, 2, 60, 65, 66, 100, 130, 200, 249, 255}
		b, w := makeFile(enc, stdHdr(p, by(), gp(len(vals), 1)), len(vals), 1, 0, func(x, y int) int { return vals[x] })
		c, err := parse(t, b)
		must(t, err)
		r := relation{radolan.Aniol80, 256, 1.42, "Aniol80"}
		for x := range vals {
			v := c.At(x, 0)
			e := w.plain(x, 0)
			g := radolan.PrecipitationRate(r.zr, v)
			if e != e {
				t.Must(g != g && radolan.IsNaN(v), "no-data gives rate %v", g)
				continue
			}
			t.Must(math.Abs(g/r.rate(e)-1) < 1e-4, "rate at pixel %d = %v, want %v", x, g, r.rate(e))
		}
		t.Steps(len(vals))
	}
	return []mc.Space{{Name: "decodable", Fn: decodable}, {Name: "fine", Fn: fine}, {Name: "rates", Fn: rates}, {Name: "special", Fn: special},
		{Name: "lattice", Fn: lattice}, {Name: "near", Fn: near}, {Name: "isnan", Fn: isnan}, {Name: "composites", Fn: composites}}
}

func spacesC14(th bool) []mc.Space {
	label := func(t *mc.T) string {
		a := 'A' + rune(t.Choose(26))
		r := t.Choose(36)
		b := 'A' + rune(r)
		if r >= 26 {
			b = '0' + rune(r-26)
		}
		return string(a) + string(b)
	}
	labels := func(t *mc.T) {
		p := label(t)
		enc := t.Choose(3)
		h := stdHdr(p, by())
		switch t.Choose(4) {
		case 0:
			h.fields = append(h.fields, gp(5, 4))
		case 1:
			h.fields = append(h.fields, field{"BG", "004005"}, field{"VV", " 030"})
		case 2:
			h.fields = append(h.fields, field{"VS", " 5"}, field{"INT", "  60"}, gp(5, 4), field{"MS", " 9<boo>"})
		case 3: // local products take their size from the catalogue
			if _, ok := locals[p]; !ok {
				t.Skip()
			}
			b, w := localFile(enc, p, posCode(enc))
			c, err := parse(t, b)
			compare(t, c, err, w)
			t.Outcome(p, enc, c.DataUnit)
			return
		}
		pr := 0
		if enc != encRL && t.Bool() {
			pr = -1
			h.fields = append(h.fields, prec(-1)...)
		}
		f := func(x, y int) int { return (x*31 + y*57 + 1) % 250 }
		b, w := makeFile(enc, h, 5, 4, pr, f)
		for _, fl := range h.fields {
			switch fl.key {
			case "VV":
				w.forecast = w.capture.Add(minutes(30))
			case "VS":
				w.format, w.interval = 5, intervalOf(p, 60)
			}
		}
		t.Note("%q", headerOf(b))
		c, err := parse(t, b)
		compare(t, c, err, w)
		t.Must(c.DataUnit.String() == unitName(p), "unit of %s is printed as %q, want %q", p, c.DataUnit, unitName(p))
		t.Must(fmt.Sprint(c.DataUnit) == unitName(p) && fmt.Sprintf("%s|%v", c.DataUnit, c.DataUnit) == unitName(p)+"|"+unitName(p), "unit of %s is formatted as %v", p, c.DataUnit)
		t.Outcome(p, enc, c.DataUnit, err == nil)
		t.NonTrivial()
	}
	// everything else is NOT in order: another error takes precedence
	broken := func(t *mc.T) {
		p := label(t)
		enc := t.Choose(3)
		b, _ := makeFile(enc, stdHdr(p, by(), gp(3, 2)), 3, 2, 0, posCode(enc))
		switch t.Choose(5) {
		case 0:
			b = b[:len(b)-1]
		case 1:
			b = b[:bytes.IndexByte(b, etx)+1]
		case 2:
			b = bytes.Replace(b, []byte("x   3"), []byte("x    "), 1)
		case 3:
			b = bytes.Replace(b, []byte("GP"), []byte("GP-"), 1)
		case 4:
			b = append([]byte(p+"993105"), b[8:]...)
		}
		_, err := parse(t, b)
		t.Must(err != nil && err != radolan.ErrUnknownUnit, "damaged %s composite: error %v", p, err)
		t.Outcome(p, enc)
		t.NonTrivial()
	}
	// lower case and odd labels are not catalogued
	odd := func(t *mc.T) {
		a := 'A' + rune(t.Choose(26))
		b := mc.Pick(t, 'a', 'x', 'z', '-', '_', ' ', '0', '9', '~')
		p := string(a) + string(b)
		f, w := makeFile(encLE, stdHdr(p, by(), gp(2, 2)), 2, 2, 0, posCode(encLE))
		c, err := parse(t, f)
		compare(t, c, err, w)
		t.Outcome(p)
	}
	names := func(t *mc.T) {
		us := []radolan.Unit{radolan.Unit_unknown, radolan.Unit_mm, radolan.Unit_dBZ, radolan.Unit_km, radolan.Unit_mps}
		ns := []string{"unknown unit", "mm", "dBZ", "km", "m/s"}
		i, j := t.Choose(5), t.Choose(5)
		t.Must(us[i].String() == ns[i], "%d is printed as %q", i, us[i].String())
		t.Must(i == j || us[i] != us[j], "units %s and %s are the same", ns[i], ns[j])
		t.Must(radolan.ErrUnknownUnit != nil && radolan.ErrUnknownUnit.Error() != "", "ErrUnknownUnit is empty")
	}
	// the product label does not change the meaning of a unit's values
	history := func(t *mc.T) {
		p1, p2 := mc.Pick(t, "RX", "RW", "XX", "PE", "PR"), mc.Pick(t, "RX", "RW", "XX", "PE", "PR")
		enc := t.Choose(2)
		for _, p := range []string{p1, p2, p1} {
			b, w := makeFile(enc, stdHdr(p, by(), gp(3, 3)), 3, 3, 0, posCode(enc))
			c, err := parse(t, b)
			compare(t, c, err, w)
		}
		t.Outcome(p1, p2, enc)
	}
	return []mc.Space{{Name: "labels", Fn: labels}, {Name: "broken", Fn: broken}, {Name: "odd", Fn: odd}, {Name: "names", Fn: names}, {Name: "history", Fn: history}}
}

func init() {
	register(mc.Check{ID: "C13", Level: "model_checking", Spaces: spacesC13, Assume: []string{"coefficients outside the enumerated lattice are not covered"}})
	register(mc.Check{ID: "C14", Level: "model_checking", Spaces: spacesC14, Assume: []string{"the reference catalogue is a copy of the documented product table"}})
}
