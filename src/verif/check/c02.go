package main

import (
	"bytes"
	"fmt"
	"strings"

	"verif/mc"
)

const (
	encLE = iota
	encSB
)

// cells is a data section in file order.
type cells struct {
	enc    int
	dx, dy int
	b      []byte
}

func newCells(enc, dx, dy int) *cells {
	n := dx * dy
	if enc == encLE {
		n *= 2
	}
	return &cells{enc, dx, dy, make([]byte, n)}
}

func (c *cells) set(x, fileRow int, v int) {
	i := fileRow*c.dx + x
	if c.enc == encLE {
		c.b[2*i], c.b[2*i+1] = byte(v), byte(v>>8)
	} else {
		c.b[i] = byte(v)
	}
}

// value is the expected value in image row y (0 = top).
func (c *cells) value(x, y, precision int, dbz bool) float64 {
	i := (c.dy-1-y)*c.dx + x
	if c.enc == encLE {
		return leValue(c.b[2*i], c.b[2*i+1], precision, dbz)
	}
	return sbValue(c.b[i], precision, dbz)
}

// runCells parses header + cells and compares all pixels.
func runCells(t *mc.T, h hdr, c *cells, precision int) {
	w := base(h, c.dx, c.dy)
	for _, f := range h.fields { // only what this file's drivers use
		switch f.key {
		case "VS":
			fmt.Sscan(f.text, &w.format)
		}
	}
	w.plain = func(x, y int) float64 { return c.value(x, y, precision, w.dbz) }
	b := append(h.render(len(c.b)), c.b...)
	t.Note("header %q, %d bytes of data", b[:bytes.IndexByte(b, etx)], len(c.b))
	got, err := parse(t, b)
	compare(t, got, err, w)
	x, y := c.dx-1, 0
	t.Outcome(got.Data[y][x], got.Data[c.dy-1][0], c.dx, c.dy, h.product, precision)
	if c.dx*c.dy > 1 {
		t.NonTrivial()
	}
}

func precFields(p int) []field {
	if p == -100 {
		return nil
	}
	return prec(p)
}

func p10(p int) int {
	if p == -100 {
		return 0
	}
	return p
}

var realDims = [][2]int{{900, 900}, {450, 450}, {460, 460}, {920, 920}, {900, 1100}, {1100, 900}, {1100, 1200}, {1200, 1100}, {1400, 1500}, {1500, 1400}, {225, 225}, {200, 200}, {2048, 3}, {2049, 3}, {4096, 2}, {8192, 2}, {3, 4097}, {65535, 2}, {3, 65535}, {12000, 5}, {2200, 2400}}

func allProducts() (ps []string) {
	for _, l := range []string{"mm", "dBZ", "km", "m/s"} {
		for p, u := range unitOf {
			if u == l {
				ps = append(ps, p)
			}
		}
	}
	// deterministic order
	for i := range ps {
		for j := i + 1; j < len(ps); j++ {
			if ps[j] < ps[i] {
				ps[i], ps[j] = ps[j], ps[i]
			}
		}
	}
	return
}

// spacesCells are the spaces shared by the two fixed-width encodings.
func spacesCells(enc int, th bool) []mc.Space {
	full := 256
	if enc == encLE {
		full = 65536
	}
	products := append(allProducts(), "XX", "QZ")
	// position code that differs between neighbours and is never "no data"
	code := func(i int) int {
		if enc == encLE {
			return (i*7 + 3) % 4096
		}
		v := (i*7 + 3) % 251
		if v == 250 {
			v = 255
		}
		return v
	}
	hard := func(i int) int { // code with flags mixed in
		if enc == encLE {
			return (i*40503 + 12345) % 65536
		}
		return (i*97 + 31) % 256
	}
	values := func(t *mc.T) {
		p := products[t.Choose(len(products))]
		pr := []int{-100, 0, -1, -2, 1, -3, 2, 3}[t.Choose(8)]
		h := stdHdr(p, by())
		h.fields = append(h.fields, precFields(pr)...)
		if _, local := locals[p]; local {
			h.fields = append(h.fields, field{"VS", " 3"})
		}
		n := 256
		if enc == encSB {
			n = 16
		}
		h.fields = append(h.fields, gp(n, n))
		c := newCells(enc, n, n)
		for i := 0; i < full; i++ {
			c.set(i%n, i/n, i)
		}
		runCells(t, h, c, p10(pr))
	}
	morePrec := func(t *mc.T) {
		p := mc.Pick(t, "RW", "FX", "EX", "PR", "PE", "XX", "SF", "RX", "WN")
		pr := t.Range(-9, 9)
		h := stdHdr(p, by())
		text := []string{fmt.Sprintf("%+03d", pr), fmt.Sprintf("%d", pr), fmt.Sprintf("%+d", pr)}[t.Choose(3)]
		h.fields = append(h.fields, field{"PR", " "}, field{"E", text}, gp(64, 4))
		c := newCells(enc, 64, 4)
		for i := 0; i < 256; i++ {
			c.set(i%64, i/64, hard(i*259+i))
		}
		runCells(t, h, c, pr)
	}
	shapes := func(t *mc.T) {
		dx, dy := t.Range(1, 48), t.Range(1, 48)
		p := mc.Pick(t, "RW", "FX", "XX")
		h := stdHdr(p, by(), gp(dx, dy))
		if dx%2 == 1 && p != "XX" {
			h.fields[1] = field{"BG", fmt.Sprintf("%03d%03d", dy, dx)}
		}
		c := newCells(enc, dx, dy)
		f := code
		if t.Bool() {
			f = hard
		}
		for y := 0; y < dy; y++ {
			for x := 0; x < dx; x++ {
				c.set(x, y, f(y*dx+x))
			}
		}
		runCells(t, h, c, 0)
	}
	widths := func(t *mc.T) {
		m := 5000
		if th {
			m = 9000
		}
		k := t.Range(1, m)
		dx, dy := k, 2
		if t.Bool() {
			dx, dy = 2, k
		}
		pr := mc.Pick(t, -100, -1)
		h := stdHdr(mc.Pick(t, "SF", "FZ"), append([]field{by(), gp(dx, dy)}, precFields(pr)...)...)
		c := newCells(enc, dx, dy)
		for y := 0; y < dy; y++ {
			for x := 0; x < dx; x++ {
				c.set(x, y, hard(y*dx+x+k))
			}
		}
		runCells(t, h, c, p10(pr))
	}
	grids := func(t *mc.T) {
		ds := realDims
		if th {
			ds = append(ds, [2]int{4400, 4800})
		}
		d := ds[t.Choose(len(ds))]
		p := mc.Pick(t, "RW", "FX", "SF", "WN", "EX", "W1", "XX")
		pr := mc.Pick(t, -100, -1)
		h := stdHdr(p, append([]field{by(), gp(d[0], d[1])}, precFields(pr)...)...)
		c := newCells(enc, d[0], d[1])
		f := code
		if t.Bool() {
			f = hard
		}
		for y := 0; y < d[1]; y++ {
			for x := 0; x < d[0]; x++ {
				c.set(x, y, f(y*d[0]+x))
			}
		}
		runCells(t, h, c, p10(pr))
	}
	// neighbouring cells do not influence each other: all words over an alphabet
	words := func(t *mc.T) {
		alpha := []int{0, 1, 250, 249, 255, 65, 3, 10}
		n := 4
		if enc == encLE {
			alpha = []int{0, 1, 0x0fff, 0x0fff | 0x4000, 0x2000, 0x29c4, 0x6001, 0x4001, 0x1001, 0x8001, 0xffff, 0x0100, 0x0a0a, 250}
		} else if th {
			n = 5
		}
		dx := []int{n, 1, 2}[t.Choose(3)]
		if n%dx != 0 {
			t.Skip()
		}
		p := mc.Pick(t, "RW", "FX", "XX")
		pr := mc.Pick(t, -100, -1)
		c := newCells(enc, dx, n/dx)
		for i := 0; i < n; i++ {
			c.set(i%dx, i/dx, alpha[t.Choose(len(alpha))])
		}
		h := stdHdr(p, append([]field{by(), gp(dx, n/dx)}, precFields(pr)...)...)
		runCells(t, h, c, p10(pr))
	}
	align := func(t *mc.T) {
		n := t.Choose(4300)
		h := stdHdr("FZ", by(), gp(3, 2), field{"MS", " 66<" + strings.Repeat("x", n) + ">"})
		c := newCells(enc, 3, 2)
		for i := 0; i < 6; i++ {
			c.set(i%3, i/3, hard(i+n))
		}
		runCells(t, h, c, 0)
	}
	// rows and columns that are equal up to one cell or up to the order of two cells
	twinWidths := []int{2, 3, 4, 5, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 128, 129, 200}
	if th {
		twinWidths = append(twinWidths, 255, 256, 257, 450, 460, 900, 1100, 2048, 2049)
	}
	twins := func(t *mc.T) {
		n := twinWidths[t.Choose(len(twinWidths))]
		const rows = 4
		dx, dy := n, rows
		tall := t.Bool()
		if tall {
			dx, dy = rows, n
		}
		c := newCells(enc, dx, dy)
		set := func(i, r, v int) {
			if tall {
				c.set(r, i, v)
			} else {
				c.set(i, r, v)
			}
		}
		nodata := 250
		if enc == encLE {
			nodata = 0x29c4
		}
		ramp := func(i int) int { return 1 + i*13%230 }
		bases := []func(i int) int{func(int) int { return 0 }, func(int) int { return 77 }, func(int) int { return nodata }, ramp}
		base := bases[t.Choose(len(bases))]
		for r := 0; r < rows; r++ {
			for i := 0; i < n; i++ {
				set(i, r, base(i))
			}
		}
		p := t.Choose(n)
		mask := t.Range(1, 1<<(rows-1)-1) // rows that differ from the first one
		other := []int{nodata, 78, 0, 1, 0x0100, 0x4001, 0x2000}
		if enc == encSB {
			other = []int{nodata, 78, 0, 1, 255}
		}
		k := t.Choose(len(other) + 3)
		for r := 1; r < rows; r++ {
			if mask>>(r-1)&1 == 0 {
				continue
			}
			if k < len(other) {
				set(p, r, other[k])
				continue
			}
			q := p + []int{1, 2, n / 2}[k-len(other)]
			if q >= n || q == p {
				t.Skip()
			}
			set(p, r, ramp(q)) // the sum of both is the same
			set(q, r, ramp(p))
		}
		h := stdHdr(mc.Pick(t, "RW", "FX"), by(), gp(dx, dy))
		runCells(t, h, c, 0)
	}
	ss := []mc.Space{
		{Name: "twins", Fn: twins}, {Name: "values", Fn: values}, {Name: "precisions", Fn: morePrec}, {Name: "shapes", Fn: shapes}, {Name: "widths", Fn: widths},
		{Name: "grids", Fn: grids}, {Name: "words", Fn: words}, {Name: "align", Fn: align},
	}
	if enc == encSB {
		ss = append(ss, mc.Space{Name: "pairs", Fn: func(t *mc.T) { // all ordered pairs of bytes, both orientations
			a := t.Choose(256)
			p := mc.Pick(t, "RX", "RW", "XX")
			tall := t.Bool()
			c := newCells(encSB, 2, 256)
			if tall {
				c = newCells(encSB, 256, 2)
			}
			for i := 0; i < 256; i++ {
				if tall {
					c.set(i, 0, a)
					c.set(i, 1, i)
				} else {
					c.set(0, i, a)
					c.set(1, i, i)
				}
			}
			h := stdHdr(p, by(), gp(c.dx, c.dy))
			runCells(t, h, c, 0)
		}})
	}
	return ss
}

func init() {
	a := []string{"precisions beyond 10^-9..10^9 are not enumerated; values are compared to 1e-5 relative (+2e-5 dBZ), far below one quantum"}
	register(mc.Check{ID: "C02", Level: "model_checking", Spaces: func(th bool) []mc.Space { return spacesCells(encLE, th) }, Assume: a})
	register(mc.Check{ID: "C03", Level: "model_checking", Spaces: func(th bool) []mc.Space { return spacesCells(encSB, th) }, Assume: a})
}
