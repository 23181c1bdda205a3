package main

import (
	"bytes"

	"verif/mc"
)

const encRL = 2

// makeFile builds a file in the given encoding. val(x, y) is the raw cell of image row y of the
// plain data: a 16-bit cell, a byte, or a level index into lv12. extra fields follow BY.
func makeFile(enc int, h hdr, px, py int, precision int, val func(x, y int) int) ([]byte, *want) {
	w := base(h, px, py)
	var data []byte
	switch enc {
	case encRL:
		h.fields = append(append([]field{}, h.fields...), lvField(lv12))
		idx := make([]int, px)
		img := make([][]float64, py)
		for y := 0; y < py; y++ {
			for x := range idx {
				idx[x] = val(x, y) % 16
			}
			l := byte(y%200 + 20)
			r := rlEncode(l, idx)
			data = append(append(data, r...), '\n')
			img[y], _ = rlRow(r, px, lv12)
		}
		w.plain = func(x, y int) float64 { return img[y][x] }
	default:
		c := newCells(enc, px, py)
		for y := 0; y < py; y++ {
			for x := 0; x < px; x++ {
				c.set(x, py-1-y, val(x, y))
			}
		}
		data = c.b
		w.plain = func(x, y int) float64 { return c.value(x, y, precision, w.dbz) }
	}
	return append(h.render(len(data)), data...), w
}

// localFile builds a local product without dimensions in its header.
func localFile(enc int, p string, val func(x, y int) int) ([]byte, *want) {
	s := locals[p]
	b, w := makeFile(enc, stdHdr(p, by()), s.px, s.py, 0, val)
	w.dx, w.dy = s.dx, s.dy
	return b, w
}

func headerOf(b []byte) []byte { return b[:bytes.IndexByte(b, etx)+1] }

// pos is a cell code that identifies the position.
func posCode(enc int) func(x, y int) int {
	switch enc {
	case encLE:
		return func(x, y int) int { return (y*211 + x*17 + x*y) % 4096 }
	case encSB:
		return func(x, y int) int { return (y*29 + x*7 + x*y%5) % 250 }
	}
	return func(x, y int) int { return (y*5 + x*3 + (x/7)*(y/3)) % 14 }
}

var encName = []string{"two-byte", "one-byte", "run-length"}

func must(t *mc.T, err error) { t.Must(err == nil, "unexpected error: %v", err) }
