package main

import (
	"fmt"
	"math"
	"strings"

	"verif/mc"

	"gitlab.cs.fau.de/since/radolan"
)

func spacesC05(th bool) []mc.Space {
	max := 7
	if th {
		max = 14
	}
	// stated total length decides the encoding, whatever bytes follow
	lengths := func(t *mc.T) {
		dx, dy := t.Range(1, max), t.Range(1, max)
		n := dx * dy
		L := t.Range(-4, 2*n+4)
		lv := t.Bool()
		p := mc.Pick(t, "RW", "RX", "PX", "XX")
		f := field{"BG", fmt.Sprintf("%03d%03d", dy, dx)}
		h := stdHdr(p, field{"BY", "       "}, f)
		if lv {
			h.fields = append(h.fields, field{"LV", " 1  1.0"})
		}
		hl := len(h.render(0))
		h.fields[0].text = fmt.Sprintf("%7d", hl+L)
		var data []byte
		w := base(h, dx, dy)
		switch {
		case lv:
			for y := 0; y < dy; y++ {
				data = append(data, 1, byte(16+(y*3)%dx), 0x11, '\n')
			}
			w.plain = func(x, y int) float64 {
				if x == (y*3)%dx {
					return 1
				}
				return nan
			}
		default:
			c := newCells(encLE, dx, dy)
			if L == n {
				c = newCells(encSB, dx, dy)
			}
			for i := 0; i < n; i++ {
				c.set(i%dx, i/dx, i*3+1)
			}
			data = append(append([]byte{}, c.b...), make([]byte, 2*n+9)...)
			w.plain = func(x, y int) float64 { return c.value(x, y, 0, w.dbz) }
		}
		b := append(h.render(0), data...)
		t.Note("header %q, stated data length %d of %dx%d cells", headerOf(b), L, dx, dy)
		c, err := parse(t, b)
		if !lv && L != n && L != 2*n {
			t.Must(err != nil, "data length %d for %dx%d cells accepted", L, dx, dy)
			t.Must(err != radolan.ErrUnknownUnit, "data length %d for %dx%d cells accepted (unknown unit)", L, dx, dy)
			return
		}
		compare(t, c, err, w)
		t.Outcome(dx, dy, L, lv)
	}
	shapes := func(t *mc.T) {
		m := 40
		dx, dy := t.Range(1, m), t.Range(1, m)
		enc := t.Choose(3)
		p := mc.Pick(t, "RW", "RX", "PX", "PZ", "EX")
		b, w := makeFile(enc, stdHdr(p, by(), gp(dx, dy)), dx, dy, 0, posCode(enc))
		t.Note("%s %q", encName[enc], headerOf(b))
		c, err := parse(t, b)
		compare(t, c, err, w)
		// Data is an alias of the first layer
		c.Data[dy-1][0] = 12345
		t.Must(c.DataZ[0][dy-1][0] == 12345, "Data is not an alias of DataZ[0]")
		t.Must(c.At(0, dy-1) == 12345 && c.AtZ(0, dy-1, 0) == 12345, "At does not read Data")
		t.Outcome(dx, dy, enc, p)
	}
	catalog := func(t *mc.T) {
		p := localNames[t.Choose(len(localNames))]
		enc := t.Choose(3)
		b, w := localFile(enc, p, posCode(enc))
		t.Note("%s %q", encName[enc], headerOf(b))
		c, err := parse(t, b)
		compare(t, c, err, w)
		c.Data[3][5] = -777
		t.Must(c.DataZ[0][3][5] == -777, "Data is not an alias of DataZ[0]")
		if c.Dz > 1 {
			t.Must(!(c.DataZ[1][3][5] == -777), "layers share storage")
		}
		t.Outcome(p, enc)
	}
	// products without dimensions in header and catalogue
	nodims := func(t *mc.T) {
		a := 'A' + rune(t.Choose(26))
		b := 'A' + rune(t.Choose(26))
		p := string(a) + string(b)
		if _, ok := locals[p]; ok {
			t.Skip()
		}
		h := stdHdr(p, by(), field{"LV", " 1  1.0"})
		data := make([]byte, 2500)
		for i := range data {
			data[i] = '\n'
		}
		_, err := parse(t, append(h.render(len(data)), data...))
		t.Must(err != nil && err != radolan.ErrUnknownUnit, "composite without dimensions accepted: %v", err)
	}
	// trailing bytes and repeated use of large lengths
	trailing := func(t *mc.T) {
		enc := t.Choose(3)
		dx, dy := t.Range(1, 4), t.Range(1, 4)
		n := t.Choose(600)
		b, w := makeFile(enc, stdHdr("RX", by(), gp(dx, dy)), dx, dy, 0, posCode(enc))
		for i := 0; i < n; i++ {
			b = append(b, byte(i*31+3))
		}
		c, err := parse(t, b)
		compare(t, c, err, w)
		t.Outcome(enc, dx, dy, math.IsNaN(float64(c.Data[0][0])))
	}
	// lengths count bytes, whatever characters the texts of the header consist of
	texts := func(t *mc.T) {
		enc := t.Choose(3)
		dx, dy := mc.Pick(t, 1, 3), mc.Pick(t, 1, 2)
		c := t.Choose(256 - 0x80 + 8)
		ch := string([]byte{byte(0x80 + c)}) // one byte of another character set
		if c >= 0x80 {
			ch = []string{"\u00fc", "\u00df", "\u20ac", "\U0001f327", "a", "~", "\t", "\u0308"}[c-0x80]
		}
		n := mc.Pick(t, 1, 2, 3, dx*dy, 2*dx*dy)
		ms := "<m" + strings.Repeat(ch, n) + "nchen>"
		if t.Choose(2) == 1 {
			ms = strings.Repeat(ch, n)
		}
		fs := []field{by(), gp(dx, dy), {"MS", fmt.Sprintf("%3d", len(ms)) + ms}}
		if t.Choose(2) == 1 {
			fs[1], fs[2] = fs[2], fs[1]
		}
		b, w := makeFile(enc, stdHdr("RX", fs...), dx, dy, 0, posCode(enc))
		t.Note("%q", headerOf(b))
		got, err := parse(t, b)
		compare(t, got, err, w)
		t.Outcome(enc, dx, dy, ch, n)
	}
	big := func(t *mc.T) {
		d := realDims[t.Choose(len(realDims))]
		enc := t.Choose(3)
		p := mc.Pick(t, "RX", "RW")
		if d[0]*d[1] > 3e6 {
			if k := t.Choose(2); k == 1 {
				d = [2]int{2801, 3000}
			}
			if !th && p == "RW" {
				t.Skip()
			}
		}
		b, w := makeFile(enc, stdHdr(p, by(), gp(d[0], d[1])), d[0], d[1], 0, posCode(enc))
		c, err := parse(t, b)
		compare(t, c, err, w)
		t.Outcome(d, enc)
	}
	return []mc.Space{{Name: "lengths", Fn: lengths}, {Name: "shapes", Fn: shapes}, {Name: "catalogue", Fn: catalog},
		{Name: "nodims", Fn: nodims}, {Name: "trailing", Fn: trailing}, {Name: "texts", Fn: texts}, {Name: "big", Fn: big}}
}

func spacesC20(th bool) []mc.Space {
	check := func(t *mc.T, c *radolan.Composite, p string) {
		s := locals[p]
		t.Must(c.Rx == float64(s.r) && c.Ry == float64(s.r), "%s: Rx, Ry = %v, %v, want %d km/px", p, c.Rx, c.Ry, s.r)
		t.Must(!c.HasProjection, "%s: has a projection", p)
		x, y := c.Project(51, 9)
		t.Must(x != x && y != y, "%s: Project = %v, %v, want NaN", p, x, y)
		t.Steps(4)
	}
	geometry := func(t *mc.T) {
		p := localNames[t.Choose(len(localNames))]
		enc := t.Choose(3)
		var f func(x, y int) int
		switch t.Choose(3) {
		case 0:
			f = posCode(enc)
		case 1: // row identity
			f = func(x, y int) int { return y % 14 }
		case 2: // a single marked row per block
			f = func(x, y int) int {
				if y%200 == (y/200*17)%200 || y == 24 || y == 23 {
					return 3
				}
				return 0
			}
		}
		b, w := localFile(enc, p, f)
		t.Note("%s %q", encName[enc], headerOf(b))
		c, err := parse(t, b)
		compare(t, c, err, w)
		check(t, c, p)
		t.Outcome(p, enc, c.Data[0][0], c.Data[199][199])
	}
	// every single row of every product ends where it should: mark one row, find it
	rows := func(t *mc.T) {
		p := localNames[t.Choose(len(localNames))]
		s := locals[p]
		enc := mc.Pick(t, encRL, encSB)
		step := 1
		if s.py > 224 && !th {
			step = 7
		}
		row := t.Choose((s.py+step-1)/step) * step
		h := stdHdr(p, by())
		var data []byte
		if enc == encRL {
			h.fields = append(h.fields, lvField(lv6))
			for y := 0; y < s.py; y++ {
				if y == row {
					data = append(data, 1, 16+7, 0x12)
				}
				data = append(data, '\n')
			}
		} else {
			data = make([]byte, s.px*s.py)
			for i := range data {
				data[i] = 250
			}
			data[(s.py-1-row)*s.px+7] = 84
		}
		c, err := parse(t, append(h.render(len(data)), data...))
		must(t, err)
		shape(t, c)
		z, y := 0, row-(s.py-s.dy)
		if s.py%s.dy == 0 {
			z, y = row/s.dy, row%s.dy
		}
		found := 0
		for zz := 0; zz < c.Dz; zz++ {
			for yy := 0; yy < c.Dy; yy++ {
				for xx := 0; xx < c.Dx; xx++ {
					if v := c.AtZ(xx, yy, zz); v == v {
						found++
						t.Must(zz == z && yy == y && xx == 7, "%s: plain row %d shown at (%d, %d, %d)", p, row, xx, yy, zz)
					}
				}
			}
		}
		exp := 1
		if y < 0 {
			exp = 0
		}
		t.Must(found == exp, "%s: plain row %d shown %d times, want %d", p, row, found, exp)
		check(t, c, p)
		t.Steps(c.Dx * c.Dy * c.Dz)
		t.Outcome(p, row)
	}
	// optional header fields do not disturb it
	options := func(t *mc.T) {
		p := localNames[t.Choose(len(localNames))]
		enc := mc.Pick(t, encRL, encSB, encLE)
		fs := []field{by()}
		w2 := stdHdr(p)
		var vs int
		if t.Bool() {
			vs = mc.Pick(t, 3, 5, 0, 7)
			fs = append(fs, field{"VS", fmt.Sprintf("%2d", vs)})
		}
		var vv, in int
		if t.Bool() {
			vv = 5
			fs = append(fs, field{"VV", " 005"})
		}
		if t.Bool() {
			in = 15
			fs = append(fs, field{"INT", "  15"})
		}
		if t.Bool() {
			fs = append(fs, field{"CS", "0"}, field{"MX", " 0"}, field{"MS", " 3<boo>"})
		}
		w2.fields = fs
		s := locals[p]
		b, w := makeFile(enc, w2, s.px, s.py, 0, posCode(enc))
		w.dx, w.dy = s.dx, s.dy
		w.format, w.interval = vs, minutes(in)
		w.forecast = w.capture.Add(minutes(vv))
		if th || s.py < 300 {
			c, err := parse(t, b)
			compare(t, c, err, w)
			check(t, c, p)
		}
		t.Outcome(p, enc, vs)
	}
	return []mc.Space{{Name: "geometry", Fn: geometry}, {Name: "rows", Fn: rows}, {Name: "options", Fn: options}}
}

func init() {
	register(mc.Check{ID: "C05", Level: "model_checking", Spaces: spacesC05})
	register(mc.Check{ID: "C20", Level: "model_checking", Spaces: spacesC20, Assume: []string{"the reference catalogue is a copy of the documented product table"}})
}
