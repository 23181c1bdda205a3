package main

// Reference model: builds composite files from abstract descriptions and states what the
// parsed composite must look like. Written independently of the implementation.

import (
	"bytes"
	"fmt"
	"math"
	"strings"
	"time"

	"gitlab.cs.fau.de/since/radolan"
	"verif/mc"
)

const etx = 3

// units of all catalogued products, by unit name
var unitOf = map[string]string{}

func init() {
	for u, ps := range map[string]string{
		"mm":  "CH D2 D3 EB EC EH EM EW EY EZ PH PY RA RB RE RH RK RL RM RN RQ RR RU RW RY RZ S2 S3 SF SH SQ TB TH TW TZ W1 W2 W3 W4 YW",
		"dBZ": "CX EA EX FX FZ HX OL OX PA PC PF PG PI PK PL PM PN PX PZ RX TX WN WX",
		"km":  "PE",
		"m/s": "PD PR PU PV",
	} {
		for _, p := range strings.Fields(ps) {
			unitOf[p] = u
		}
	}
}

func unitName(p string) string {
	if u, ok := unitOf[p]; ok {
		return u
	}
	return "unknown unit"
}

func unitConst(name string) radolan.Unit {
	switch name {
	case "mm":
		return radolan.Unit_mm
	case "dBZ":
		return radolan.Unit_dBZ
	case "km":
		return radolan.Unit_km
	case "m/s":
		return radolan.Unit_mps
	}
	return radolan.Unit_unknown
}

type localSpec struct{ px, py, dx, dy, r int }

// local products: plain size, layer size, resolution
var locals = map[string]localSpec{}
var localNames = strings.Fields("OL OX PD PE PF PH PL PM PR PU PV PX PY PZ")

func init() {
	for _, p := range localNames {
		s := localSpec{200, 224, 200, 200, 1}
		switch p {
		case "OL", "PE", "PL", "PM", "PZ":
			s.r = 2
		}
		switch p {
		case "PU", "PZ":
			s.py = 2400
		}
		locals[p] = s
	}
}

// field of a header; BY with empty text is computed.
type field struct{ key, text string }

type hdr struct {
	product        string
	day, hour, min int
	wmo            string
	month, year    int // two-digit year
	fields         []field
}

func stdHdr(product string, fields ...field) hdr {
	return hdr{product: product, day: 28, hour: 21, min: 5, wmo: "10000", month: 7, year: 16, fields: fields}
}

func (h hdr) stamp() string {
	return fmt.Sprintf("%s%02d%02d%02d%s%02d%02d", h.product, h.day, h.hour, h.min, h.wmo, h.month, h.year)
}

// render writes the header including the delimiter for a data section of n bytes.
func (h hdr) render(n int) []byte {
	var b bytes.Buffer
	b.WriteString(h.stamp())
	at := -1
	for _, f := range h.fields {
		b.WriteString(f.key)
		if f.key == "BY" && f.text == "" {
			at = b.Len()
			b.WriteString("       "[:7])
			if n > 9000000 {
				b.WriteString("   ")
			}
		} else {
			b.WriteString(f.text)
		}
	}
	b.WriteByte(etx)
	if at >= 0 {
		copy(b.Bytes()[at:], func() string {
			if n > 9000000 {
				return fmt.Sprintf("%10d", b.Len()+n)
			}
			return fmt.Sprintf("%7d", b.Len()+n)
		}())
	}
	return b.Bytes()
}

func (h hdr) capture() time.Time {
	y := 2000 + h.year
	if h.year >= 69 {
		y = 1900 + h.year
	}
	return time.Date(y, time.Month(h.month), h.day, h.hour, h.min, 0, 0, time.UTC)
}

func daysIn(m, yy int) int {
	y := 2000 + yy
	if yy >= 69 {
		y = 1900 + yy
	}
	switch m {
	case 2:
		if y%4 == 0 && (y%100 != 0 || y%400 == 0) {
			return 29
		}
		return 28
	case 4, 6, 9, 11:
		return 30
	}
	return 31
}

// want is the expected composite.
type want struct {
	product            string
	capture, forecast  time.Time
	interval           time.Duration
	px, py, dx, dy, dz int
	format             int
	plain              func(x, y int) float64 // row 0 = top
	dbz                bool
	anyErrUnit         bool
}

// geometry fills dz.
func (w *want) finish() {
	if w.py%w.dy == 0 {
		w.dz = w.py / w.dy
	} else {
		w.dz = 1
	}
}

func (w *want) voxel(x, y, z int) float64 {
	if w.py%w.dy == 0 {
		return w.plain(x, z*w.dy+y)
	}
	return w.plain(x, w.py-w.dy+y)
}

var nan = math.NaN()

func near(got float32, w float64, dbz bool) bool {
	g := float64(got)
	if w != w {
		return g != g
	}
	if g != g {
		return false
	}
	if math.IsInf(g, 0) || math.IsInf(w, 0) {
		return g == w
	}
	tol := 1e-5 * math.Abs(w)
	if dbz {
		tol += 2e-5
	}
	return math.Abs(g-w) <= tol
}

var pow10 = func() (t [61]float64) {
	for i := range t {
		t[i] = math.Pow(10, float64(i-30))
	}
	return
}()

// scaled applies precision and unit.
func scaled(raw int, precision int, dbz bool) float64 {
	v := float64(raw) * pow10[precision+30]
	if dbz {
		return v/2 - 32.5
	}
	return v
}

func leValue(lo, hi byte, precision int, dbz bool) float64 {
	if hi&0x20 != 0 {
		return nan
	}
	v := int(lo) + 256*int(hi%16)
	if hi&0x40 != 0 {
		v = -v
	}
	return scaled(v, precision, dbz)
}

func sbValue(b byte, precision int, dbz bool) float64 {
	if b == 250 {
		return nan
	}
	return scaled(int(b), precision, dbz)
}

// rlRow decodes a run-length row (without newline); ok is false for undecodable rows.
func rlRow(row []byte, width int, level []float64) (out []float64, ok bool) {
	out = make([]float64, width)
	for i := range out {
		out[i] = nan
	}
	if len(row) == 0 {
		return out, true
	}
	i, pos := 1, 0
	for i < len(row) { // offset bytes
		b := row[i]
		i++
		if b < 16 {
			return nil, false
		}
		pos += int(b) - 16
		if b != 255 {
			break
		}
	}
	for ; i < len(row); i++ {
		n, idx := int(row[i]/16), int(row[i]%16)
		if n > 0 && pos+n > width {
			return nil, false
		}
		for k := 0; k < n; k++ {
			if idx >= 1 && idx <= len(level) {
				out[pos+k] = level[idx-1]
			}
		}
		pos += n
	}
	return out, true
}

// rlEncode encodes a row of level indices (0 = no data) the way the format intends.
func rlEncode(line byte, idx []int) []byte {
	out := []byte{line}
	first := 0
	for first < len(idx) && idx[first] == 0 {
		first++
	}
	if first == len(idx) {
		return out
	}
	o := first
	for o >= 239 {
		out = append(out, 255)
		o -= 239
	}
	out = append(out, byte(o+16))
	for i := first; i < len(idx); {
		j := i
		for j < len(idx) && idx[j] == idx[i] && j-i < 15 {
			j++
		}
		out = append(out, byte((j-i)<<4|idx[i]))
		i = j
	}
	return out
}

func lvField(vals []float64) field {
	s := fmt.Sprintf("%2d", len(vals))
	for _, v := range vals {
		s += fmt.Sprintf("%5.1f", v)
	}
	return field{"LV", s}
}

// parse runs NewComposite and turns panics into violations.
func parse(t *mc.T, b []byte) (*radolan.Composite, error) {
	t.Attach("input", b)
	return radolan.NewComposite(bytes.NewReader(b))
}

// compare compares a composite that was returned with err with the expectation.
func compare(t *mc.T, c *radolan.Composite, err error, w *want) {
	unknown := unitName(w.product) == "unknown unit"
	if unknown {
		t.Must(err == radolan.ErrUnknownUnit, "error = %v, want ErrUnknownUnit for product %q", err, w.product)
	} else {
		t.Must(err == nil, "unexpected error: %v", err)
	}
	compareMeta(t, c, w)
	compareData(t, c, w)
}

func compareMeta(t *mc.T, c *radolan.Composite, w *want) {
	t.Must(c != nil, "no composite returned")
	t.Must(c.Product == w.product, "Product = %q, want %q", c.Product, w.product)
	t.Must(c.DataUnit == unitConst(unitName(w.product)), "DataUnit = %d, want %s", int(c.DataUnit), unitName(w.product))
	t.Must(c.CaptureTime.Equal(w.capture), "CaptureTime = %v, want %v", c.CaptureTime, w.capture)
	_, off := c.CaptureTime.Zone()
	t.Must(off == 0, "CaptureTime is not in UTC: %v", c.CaptureTime)
	t.Must(c.ForecastTime.Equal(w.forecast), "ForecastTime = %v, want %v", c.ForecastTime, w.forecast)
	_, off = c.ForecastTime.Zone()
	t.Must(off == 0, "ForecastTime is not in UTC: %v", c.ForecastTime)
	t.Must(c.Interval == w.interval, "Interval = %v, want %v", c.Interval, w.interval)
	t.Must(c.Px == w.px && c.Py == w.py, "Px, Py = %d, %d, want %d, %d", c.Px, c.Py, w.px, w.py)
	t.Must(c.Dx == w.dx && c.Dy == w.dy, "Dx, Dy = %d, %d, want %d, %d", c.Dx, c.Dy, w.dx, w.dy)
	t.Must(c.Format == w.format, "Format = %d, want %d", c.Format, w.format)
	t.Steps(10)
}

// shape checks the geometry invariants of a successfully parsed composite.
func shape(t *mc.T, c *radolan.Composite) {
	t.Must(c.Dx > 0 && c.Dy > 0 && c.Px > 0 && c.Py > 0, "non-positive dimensions %d %d %d %d", c.Px, c.Py, c.Dx, c.Dy)
	t.Must(len(c.PlainData) == c.Py, "len(PlainData) = %d, Py = %d", len(c.PlainData), c.Py)
	for y, r := range c.PlainData {
		t.Must(len(r) == c.Px, "len(PlainData[%d]) = %d, Px = %d", y, len(r), c.Px)
	}
	t.Must(len(c.DataZ) == c.Dz && c.Dz >= 1, "len(DataZ) = %d, Dz = %d", len(c.DataZ), c.Dz)
	for z, l := range c.DataZ {
		t.Must(len(l) == c.Dy, "len(DataZ[%d]) = %d, Dy = %d", z, len(l), c.Dy)
		for y, r := range l {
			t.Must(len(r) == c.Dx, "len(DataZ[%d][%d]) = %d, Dx = %d", z, y, len(r), c.Dx)
		}
	}
	t.Must(len(c.Data) == c.Dy, "len(Data) = %d, Dy = %d", len(c.Data), c.Dy)
	for y, r := range c.Data {
		t.Must(len(r) == c.Dx, "len(Data[%d]) = %d, Dx = %d", y, len(r), c.Dx)
	}
}

func compareData(t *mc.T, c *radolan.Composite, w *want) {
	w.finish()
	shape(t, c)
	t.Must(c.Dz == w.dz, "Dz = %d, want %d", c.Dz, w.dz)
	for y := 0; y < w.py; y++ {
		r := c.PlainData[y]
		for x := 0; x < w.px; x++ {
			if v := w.plain(x, y); !near(r[x], v, w.dbz) {
				t.Fail("PlainData[%d][%d] = %v, want %v", y, x, r[x], v)
			}
		}
	}
	t.Steps(w.px * w.py)
	for z := 0; z < w.dz; z++ {
		for y := 0; y < w.dy; y++ {
			r := c.DataZ[z][y]
			for x := 0; x < w.dx; x++ {
				if v := w.voxel(x, y, z); !near(r[x], v, w.dbz) {
					t.Fail("DataZ[%d][%d][%d] = %v, want %v", z, y, x, r[x], v)
				}
				if z == 0 {
					if v := w.voxel(x, y, 0); !near(c.Data[y][x], v, w.dbz) {
						t.Fail("Data[%d][%d] = %v, want %v", y, x, c.Data[y][x], v)
					}
				}
			}
		}
	}
	t.Steps(w.dx * w.dy * w.dz)
}

// base returns the expectation of the metadata for a header.
func base(h hdr, dx, dy int) *want {
	c := h.capture()
	return &want{product: h.product, capture: c, forecast: c, px: dx, py: dy, dx: dx, dy: dy, dbz: unitName(h.product) == "dBZ"}
}

func gp(dx, dy int) field { return field{"GP", fmt.Sprintf("%4dx%4d", dy, dx)} }

func by() field { return field{"BY", ""} }

func prec(p int) []field { return []field{{"PR", " "}, {"E", fmt.Sprintf("%+03d", p)}} }
