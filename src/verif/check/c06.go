package main

import (
	"bytes"
	"fmt"
	"math"

	"verif/mc"

	"gitlab.cs.fau.de/since/radolan"
)

var extremes = []int{math.MinInt64, math.MinInt64 + 1, math.MinInt32 - 1, math.MinInt32, -65536, -32768, -256, -2, -1, 0, 1, 2, 255, 256, 32767, 32768, 65535, 65536, math.MaxInt32, math.MaxInt32 + 1, 1 << 32, 1<<32 + 1, 1 << 48, math.MaxInt64 - 1, math.MaxInt64}

// obtain returns a composite in one of many ways, and the number of them.
func obtain(t *mc.T) *radolan.Composite {
	read := func(b []byte) *radolan.Composite {
		c, _ := radolan.NewComposite(bytes.NewReader(b))
		return c
	}
	switch t.Choose(9) {
	case 0:
		enc := t.Choose(3)
		dx, dy := t.Range(1, 6), t.Range(1, 6)
		b, _ := makeFile(enc, stdHdr("RX", by(), gp(dx, dy)), dx, dy, 0, posCode(enc))
		return read(b)
	case 1: // layers
		b, _ := localFile(encSB, "PZ", posCode(encSB))
		return read(b)
	case 2:
		b, _ := localFile(encRL, mc.Pick(t, "PX", "PE"), posCode(encRL))
		return read(b)
	case 3: // dummies
		return radolan.NewDummy(mc.Pick(t, "SF", "PZ"), mc.Pick(t, 0, 5), t.Range(-2, 6), t.Range(-2, 6))
	case 4: // real dummies
		return radolan.NewDummy("EX", 3, 900, 900)
	case 5: // header fine, data cut or undecodable
		enc := t.Choose(3)
		b, _ := makeFile(enc, stdHdr("RX", by(), gp(3, 4)), 3, 4, 0, posCode(enc))
		n := t.Choose(len(b))
		return read(b[:n])
	case 6: // header wrong
		return read([]byte(mc.Pick(t, "", "\x03", "PG262115100000616BY22205\x03", "RX282105100000716BY      7GP   3x   4\x03", "RX282105100000716BY      7GP  -3x  -4LV 0\x03\n\n\n\n")))
	case 7: // unknown unit
		b, _ := makeFile(encLE, stdHdr("XX", by(), gp(2, 3)), 2, 3, 0, posCode(encLE))
		return read(b)
	}
	return &radolan.Composite{}
}

func atCheck(t *mc.T, c *radolan.Composite, x, y, z int) {
	inside := x >= 0 && y >= 0 && z >= 0 && x < c.Dx && y < c.Dy && z < c.Dz
	got := c.AtZ(x, y, z)
	if inside {
		want := c.DataZ[z][y][x]
		if math.Float32bits(got) != math.Float32bits(want) && !(got != got && want != want) {
			t.Fail("AtZ(%d, %d, %d) = %v, data is %v", x, y, z, got, want)
		}
	} else if got == got {
		t.Fail("AtZ(%d, %d, %d) = %v outside of %dx%dx%d", x, y, z, got, c.Dx, c.Dy, c.Dz)
	}
	if z == 0 {
		a := c.At(x, y)
		if math.Float32bits(a) != math.Float32bits(got) && !(a != a && got != got) {
			t.Fail("At(%d, %d) = %v, AtZ(.., 0) = %v", x, y, a, got)
		}
	}
}

func spacesC06(th bool) []mc.Space {
	box := func(t *mc.T) {
		c := obtain(t)
		if c == nil {
			t.Skip()
		}
		t.Note("%q %dx%dx%d", c.Product, c.Dx, c.Dy, c.Dz)
		lim := func(d int) (l []int) {
			for i := -3; i <= d+3; i++ {
				if d > 64 && i > 4 && i < d-4 && i%37 != 0 && !th {
					continue
				}
				l = append(l, i)
			}
			for _, e := range extremes {
				l = append(l, e, e+d, e-d)
			}
			for s := uint(3); s < 64; s++ {
				l = append(l, 1<<s, 1<<s+d-1, -(1 << s), -(1<<s)+1)
			}
			return
		}
		n := 0
		zs := lim(c.Dz)
		if c.Dx > 64 {
			zs = append([]int{-1, c.Dz, math.MaxInt64, math.MinInt64, 1 << 32}, zs[2:c.Dz+6]...)
		}
		ys := lim(c.Dy)
		for _, x := range lim(c.Dx) {
			for _, y := range ys {
				for k, z := range zs {
					if k > 12 && k%9 != 0 && !th {
						continue
					}
					atCheck(t, c, x, y, z)
					n++
				}
			}
		}
		t.Steps(n)
		t.Outcome(c.Dx, c.Dy, c.Dz, c.Product)
	}
	lines := func(t *mc.T) { // long straight runs of coordinates
		enc := t.Choose(3)
		dx, dy := t.Range(1, 3), t.Range(1, 3)
		b, _ := makeFile(enc, stdHdr("RX", by(), gp(dx, dy)), dx, dy, 0, posCode(enc))
		c, err := parse(t, b)
		must(t, err)
		axis := t.Choose(3)
		o := t.Choose(2)
		for i := -70000; i <= 70000; i++ {
			switch axis {
			case 0:
				atCheck(t, c, i, o, 0)
			case 1:
				atCheck(t, c, o, i, 0)
			case 2:
				atCheck(t, c, o, 0, i)
			}
		}
		t.Steps(140001)
		t.Outcome(dx, dy, axis, o)
	}
	full := func(t *mc.T) { // every voxel of realistic composites
		var c *radolan.Composite
		var err error
		k := t.Choose(6)
		var w *want
		var b []byte
		switch k {
		case 0:
			b, w = localFile(encLE, "PZ", posCode(encLE))
		case 1:
			b, w = localFile(encRL, "PU", posCode(encRL))
		case 2:
			b, w = localFile(encSB, "PE", posCode(encSB))
		default:
			d := [][2]int{{900, 900}, {460, 460}, {1100, 1200}}[k-3]
			b, w = makeFile(encLE, stdHdr("RW", by(), gp(d[0], d[1])), d[0], d[1], 0, posCode(encLE))
		}
		c, err = parse(t, b)
		must(t, err)
		w.finish()
		for z := -1; z <= w.dz; z++ {
			for y := -1; y <= w.dy; y++ {
				for x := -1; x <= w.dx; x++ {
					v := nan
					if x >= 0 && y >= 0 && z >= 0 && x < w.dx && y < w.dy && z < w.dz {
						v = w.voxel(x, y, z)
					}
					if g := c.AtZ(x, y, z); !near(g, v, w.dbz) {
						t.Fail("AtZ(%d, %d, %d) = %v, want %v", x, y, z, g, v)
					}
					if z == 0 {
						if g := c.At(x, y); !near(g, v, w.dbz) {
							t.Fail("At(%d, %d) = %v, want %v", x, y, g, v)
						}
					}
				}
			}
		}
		t.Steps(w.dx * w.dy * w.dz)
		t.Outcome(fmt.Sprint(k))
	}
	// reads always show the current data, also after the caller changed it
	live := func(t *mc.T) {
		b, _ := localFile(encSB, "PZ", posCode(encSB))
		c, err := parse(t, b)
		must(t, err)
		z := t.Choose(12)
		y := t.Choose(4) * 66
		x := t.Choose(4) * 66
		_ = c.AtZ(x, y, z)
		c.DataZ[z][y][x] = 4711
		t.Must(c.AtZ(x, y, z) == 4711, "AtZ(%d, %d, %d) does not show the stored value", x, y, z)
		if z == 0 {
			t.Must(c.At(x, y) == 4711, "At(%d, %d) does not show the stored value", x, y)
		}
		t.Outcome(x, y, z)
	}
	// every cell has its own memory: distinct values stored in all of them are all kept
	distinct := func(t *mc.T) {
		enc := t.Choose(3)
		rows := t.Choose(4)
		val := []func(x, y int) int{func(x, y int) int { return 0 }, func(x, y int) int { return 60 + x%3 }, func(x, y int) int { return y % 2 }, posCode(enc)}[rows]
		var b []byte
		if t.Bool() {
			b, _ = localFile(enc, localNames[t.Choose(len(localNames))], val)
		} else {
			dx, dy := t.Range(1, 6), t.Range(1, 6)
			b, _ = makeFile(enc, stdHdr("RX", by(), gp(dx, dy)), dx, dy, 0, val)
		}
		c, err := parse(t, b)
		if err != radolan.ErrUnknownUnit {
			must(t, err)
		}
		n := float32(0)
		for z := range c.DataZ {
			for y := range c.DataZ[z] {
				for x := range c.DataZ[z][y] {
					n++
					c.DataZ[z][y][x] = n
				}
			}
		}
		n = 0
		for z := 0; z < c.Dz; z++ {
			for y := 0; y < c.Dy; y++ {
				for x := 0; x < c.Dx; x++ {
					n++
					if v := c.AtZ(x, y, z); v != n || c.DataZ[z][y][x] != n || z == 0 && (c.At(x, y) != n || c.Data[y][x] != n) {
						t.Fail("%v was stored in cell (%d, %d, %d) but it holds %v", n, x, y, z, v)
					}
				}
			}
		}
		t.Steps(int(n))
		n = 0
		for y := range c.PlainData {
			for x := range c.PlainData[y] {
				n++
				c.PlainData[y][x] = -n
			}
		}
		n = 0
		for y := range c.PlainData {
			for x := range c.PlainData[y] {
				n++
				if c.PlainData[y][x] != -n {
					t.Fail("%v was stored in cell (%d, %d) of the plain data but it holds %v", -n, x, y, c.PlainData[y][x])
				}
			}
		}
		t.Steps(int(n))
		t.Outcome(enc, rows, c.Dx, c.Dy, c.Dz)
	}
	return []mc.Space{{Name: "box", Fn: box}, {Name: "lines", Fn: lines}, {Name: "full", Fn: full}, {Name: "live", Fn: live}, {Name: "distinct", Fn: distinct}}
}

func init() {
	register(mc.Check{ID: "C06", Level: "model_checking", Spaces: spacesC06})
}
