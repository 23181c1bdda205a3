package main

import (
	"bytes"
	"fmt"
	"math"
	"strings"

	"verif/mc"
)

var lv6 = []float64{1, 19, 28, 37, 46, 55}
var lv12 = []float64{-31.5, -24.5, -17.5, -10.5, -5.5, -1, 1, 5.5, 10.5, 17.5, 24.5, 31.5}

// runRows parses a run-length composite of the given rows (without newlines).
func runRows(t *mc.T, h hdr, width int, level []float64, rows [][]byte) {
	w := base(h, width, len(rows))
	var data []byte
	var img [][]float64
	good := true
	for _, r := range rows {
		data = append(append(data, r...), '\n')
		v, ok := rlRow(r, width, level)
		if !ok {
			good = false
		}
		img = append(img, v)
	}
	b := append(h.render(len(data)), data...)
	t.Note("header %q rows %x", b[:bytes.IndexByte(b, etx)], clip(rows))
	c, err := parse(t, b)
	if !good {
		t.Must(err != nil, "undecodable row accepted")
		t.Outcome("error", width)
		t.NonTrivial()
		return
	}
	w.plain = func(x, y int) float64 { return img[y][x] }
	compare(t, c, err, w)
	if width <= 64 {
		t.Outcome(c.PlainData)
	} else {
		t.Outcome(width, c.Data[0][width-1])
	}
	t.NonTrivial()
}

func clip(rows [][]byte) [][]byte {
	if len(rows) > 4 {
		rows = rows[:4]
	}
	for _, r := range rows {
		if len(r) > 200 {
			return nil
		}
	}
	return rows
}

func spacesC04(th bool) []mc.Space {
	// The row decoder as an automaton. A state is (mode, column): mode 0 = first offset byte due,
	// 1 = further offset byte due (after 255), 2 = runs. Every (state, byte) transition is
	// executed, reached through different access words, followed by distinguishing suffixes.
	widthsA := []int{1, 2, 3, 15, 16, 17, 40, 239, 240, 255, 256, 300, 478, 479, 500}
	if !th {
		widthsA = []int{1, 2, 17, 40, 240, 257, 480}
	}
	automaton := func(t *mc.T) {
		W := widthsA[t.Choose(len(widthsA))]
		mode := t.Choose(3)
		var acc []byte
		pos := 0
		switch mode {
		case 0:
		case 1:
			k := 1 + t.Choose(W/239+2)
			pos = 239 * k
			acc = bytes.Repeat([]byte{255}, k)
		case 2:
			pos = t.Choose(W + 3)
			if !th && W > 100 && pos > 2 && pos < W-17 {
				t.Skip()
			}
			switch t.Choose(3) {
			case 0: // offset only
				o := pos
				for o >= 239 {
					acc = append(acc, 255)
					o -= 239
				}
				acc = append(acc, byte(16+o))
			case 1: // runs only, alternating levels
				if pos > W {
					t.Skip()
				}
				acc = []byte{16}
				for p, i := 0, 0; p < pos; i++ {
					n := 15
					if pos-p < 15 {
						n = pos - p
					}
					acc = append(acc, byte(n<<4|(1+i%6)))
					p += n
				}
			case 2: // offset and single runs
				if pos > W || pos < 2 {
					t.Skip()
				}
				o := pos / 2
				for q := o; ; {
					if q >= 239 {
						acc = append(acc, 255)
						q -= 239
						continue
					}
					acc = append(acc, byte(16+q))
					break
				}
				for p := o; p < pos; p++ {
					acc = append(acc, byte(0x10|(p%8)))
				}
			}
		}
		b := byte(t.Choose(256))
		if b == '\n' {
			t.Skip()
		}
		t.State(mc.Hash(fmt.Sprint(W, mode, pos)))
		suffix := [][]byte{nil, {0x11}, {0x20, 0x12}, {0xF3}}[t.Choose(4)]
		row := append(append(append([]byte{200}, acc...), b), suffix...)
		if mode == 1 && b == 255 || mode == 0 && b == 255 {
			row = append(row, 0x10)
		}
		probe := []byte{1, 16, 0x12} // neighbours show leaking state
		h := stdHdr("PG", by(), lvField(lv6), gp(W, 3))
		runRows(t, h, W, lv6, [][]byte{probe, row, probe})
	}
	words := func(t *mc.T) {
		W := mc.Pick(t, 3, 17, 241)
		alpha := []byte{16, 0x11, 17, 0x10, 0x12, 0x21, 0x32, 0x00, 0x0f, 18, 254, 255, 0xF1, 0x17, 0x05}
		n := 4
		if th {
			n = 5
		}
		n = t.Choose(n + 1)
		row := []byte{0}
		for i := 0; i < n; i++ {
			row = append(row, alpha[t.Choose(len(alpha))])
		}
		h := stdHdr("PX", by(), field{"LV", " 3 10.0 -5.5100.0"}, gp(W, 2))
		runRows(t, h, W, []float64{10, -5.5, 100}, [][]byte{row, {1, 16, 0x13}})
	}
	// level tables of every size; every index
	levels := func(t *mc.T) {
		n := t.Choose(100)
		k := t.Choose(16)
		var lv []float64
		for i := 0; i < n; i++ {
			lv = append(lv, math.Round(math.Mod(float64(i*37-k*211)*3, 9000))/10)
		}
		for i := range lv {
			if lv[i] < -99 {
				lv[i] = float64(i) / 2
			}
		}
		rows := [][]byte{{1, 16}, {2, 16, byte(0x10 | k)}, {3, 17, byte(0x20 | k), 0x11}}
		for i := 0; i < 16; i++ {
			rows[0] = append(rows[0], byte(0x10|i))
		}
		p := mc.Pick(t, "PX", "PR", "PG", "XX")
		h := stdHdr(p, by(), gp(16, 3), lvField(lv))
		if t.Bool() { // precision does not apply to level values
			h.fields = append(h.fields, prec(-1)...)
		}
		runRows(t, h, 16, lv, rows)
	}
	levelText := func(t *mc.T) { // every value an F5.1 field can hold, several positions
		v := t.Range(-9999, 99999)
		if !th && v > 12000 && v%37 != 0 {
			t.Skip()
		}
		val := float64(v) / 10
		text := fmt.Sprintf("%5.1f", val)
		if len(text) > 5 {
			t.Skip()
		}
		at := t.Choose(3)
		lv := []float64{1, 2.5, -3.5}
		lv[at] = val
		h := stdHdr("PX", by(), lvField(lv), gp(3, 1))
		runRows(t, h, 3, lv, [][]byte{{1, 16, 0x11, 0x12, 0x13}})
	}
	lineNo := func(t *mc.T) {
		b := byte(t.Choose(256))
		if b == '\n' {
			t.Skip()
		}
		rows := [][]byte{{}, {b}, {b, 16}, {b, 17, 0x21}, {b, 255, 16}, {b, 255}}
		n := 6
		var sel [][]byte
		for i := 0; i < 3; i++ {
			sel = append(sel, rows[t.Choose(n)])
		}
		h := stdHdr("PG", by(), lvField(lv6), gp(5, 3))
		runRows(t, h, 5, lv6, sel)
	}
	edges := func(t *mc.T) { // every width, around the right edge
		m := 1600
		if th {
			m = 4000
		}
		W := t.Range(1, m)
		end := W - 2 + t.Choose(4) // column one past the last run
		if end < 0 {
			t.Skip()
		}
		var row []byte
		switch t.Choose(3) {
		case 0: // offset close to the edge, one run
			o := end - 1
			if o < 0 {
				t.Skip()
			}
			row = []byte{9}
			for o >= 239 {
				row = append(row, 255)
				o -= 239
			}
			row = append(row, byte(16+o), 0x14)
		case 1: // runs all the way
			row = []byte{9, 16}
			for p := 0; p < end; {
				n := 15
				if end-p < n {
					n = end - p
				}
				row = append(row, byte(n<<4|1+p%6))
				p += n
			}
		case 2: // gaps by index 0
			row = []byte{9, 16}
			for p := 0; p < end; {
				n := 1 + p%7
				if end-p < n {
					n = end - p
				}
				row = append(row, byte(n<<4|p%3))
				p += n
			}
		}
		h := stdHdr("PG", by(), lvField(lv6), gp(W, 2))
		runRows(t, h, W, lv6, [][]byte{row, {1, 16}})
	}
	long := func(t *mc.T) { // rows longer than any buffer, by runs of length 0
		n := t.Choose(9000)
		row := append([]byte{3, 17}, bytes.Repeat([]byte{0x02}, n)...)
		row = append(row, 0x13, 0x24)
		h := stdHdr("PG", by(), lvField(lv6), gp(6, 3))
		runRows(t, h, 6, lv6, [][]byte{{1, 16, 0x61}, row, {2, 18, 0x12}})
	}
	align := func(t *mc.T) {
		n := t.Choose(4300)
		h := stdHdr("PG", by(), lvField(lv12), gp(6, 3), field{"MS", " 66<" + strings.Repeat("x", n) + ">"})
		runRows(t, h, 6, lv12, [][]byte{{1, 16, 0x61}, {2, 17, 0x13, 0x2c}, {2, 18, 0x12}})
	}
	grids := func(t *mc.T) {
		d := realDims[t.Choose(len(realDims))]
		p := mc.Pick(t, "PG", "PX", "PR")
		lv := [][]float64{lv6, lv12}[t.Choose(2)]
		pat := t.Choose(5)
		var rows [][]byte
		idx := make([]int, d[0])
		for y := 0; y < d[1]; y++ {
			for x := range idx {
				switch pat {
				case 0:
					idx[x] = (x/3 + y) % 8
				case 1:
					idx[x] = 0
					if x > (y*37)%(d[0]+5) {
						idx[x] = 1 + y%6
					}
				case 2:
					idx[x] = (x*x + y*y) % 14
				case 3:
					idx[x] = (x / (1 + y%40)) % 2
				case 4:
					idx[x] = 0
					if x == d[0]-1 || x == y {
						idx[x] = 2
					}
				}
			}
			l := byte(y)
			if l == '\n' {
				l = 11
			}
			r := rlEncode(l, idx)
			rows = append(rows, r)
		}
		h := stdHdr(p, by(), lvField(lv), gp(d[0], d[1]))
		runRows(t, h, d[0], lv, rows)
	}
	rowOrder := func(t *mc.T) { // all assignments of row kinds to up to 4 rows
		n := t.Range(1, 4)
		kinds := [][]byte{{}, {1}, {2, 16, 0x11}, {3, 17, 0x22}, {4, 16, 0x13, 0x10, 0x14}, {5, 19, 0x10}, {6, 16, 0x4f}}
		var rows [][]byte
		for i := 0; i < n; i++ {
			rows = append(rows, kinds[t.Choose(len(kinds))])
		}
		h := stdHdr(mc.Pick(t, "PG", "XX"), by(), lvField(lv6), field{"BG", fmt.Sprintf("%03d%03d", n, 4)})
		runRows(t, h, 4, lv6, rows)
	}
	// rows of the same length that differ in one byte or in the order of two bytes
	twinLengths := []int{1, 2, 3, 4, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129}
	if th {
		twinLengths = append(twinLengths, 254, 255, 256, 257, 460, 1023, 1024, 1025)
	}
	twins := func(t *mc.T) {
		n := twinLengths[t.Choose(len(twinLengths))]
		p := t.Choose(n)
		mask := t.Range(1, 7) // rows that differ from the first one
		k := t.Choose(8)
		lines := t.Bool() // different line numbers
		row := []byte{1, 18}
		for i := 0; i < n; i++ {
			row = append(row, byte((1+i%3)<<4|1+i%12))
		}
		width := 3*n + 5
		other := append([]byte{}, row...)
		switch {
		case k < 3: // another value, count or offset
			x := []int{2 + p, 2 + p, 1}[k]
			other[x] = []byte{row[x] ^ 0x0f, row[x] ^ 0x10, 17}[k]
			if k == 2 && p != 0 {
				t.Skip()
			}
		case k < 5: // no data
			other[2+p] &= []byte{0xf0, 0x0f}[k-3]
		default:
			q := p + []int{1, 2, n / 2}[k-5]
			if q >= n || q == p {
				t.Skip()
			}
			other[2+p], other[2+q] = row[2+q], row[2+p]
		}
		if bytes.IndexByte(other, '\n') >= 0 {
			t.Skip()
		}
		var rows [][]byte
		for r := 0; r < 4; r++ {
			x := row
			if r > 0 && mask>>(r-1)&1 == 1 {
				x = other
			}
			x = append([]byte{}, x...)
			if lines {
				x[0] = byte(1 + r)
			}
			rows = append(rows, x)
		}
		runRows(t, stdHdr("PG", by(), lvField(lv12), gp(width, 4)), width, lv12, rows)
	}
	return []mc.Space{
		{Name: "twins", Fn: twins}, {Name: "rows", Fn: rowOrder}, {Name: "words", Fn: words}, {Name: "automaton", Fn: automaton}, {Name: "levels", Fn: levels},
		{Name: "leveltext", Fn: levelText}, {Name: "linenumber", Fn: lineNo}, {Name: "edges", Fn: edges}, {Name: "long", Fn: long},
		{Name: "align", Fn: align}, {Name: "grids", Fn: grids},
	}
}

func init() {
	register(mc.Check{ID: "C04", Level: "model_checking", Spaces: spacesC04, Assume: []string{
		"a newline byte always ends a row (so a line number of 10 cannot occur)"}})
}
