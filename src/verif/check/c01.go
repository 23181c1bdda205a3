package main

import (
	"fmt"
	"strings"
	"time"

	"verif/mc"
)

// runHdr parses a one-cell composite with the header and compares everything.
func runHdr(t *mc.T, h hdr, w *want, rl bool, cell byte, precision int) {
	var data []byte
	if rl {
		data = []byte{'\n'}
		for y := 1; y < w.py; y++ {
			data = append(data, '\n')
		}
		w.plain = func(x, y int) float64 { return nan }
	} else {
		data = make([]byte, w.px*w.py)
		for i := range data {
			data[i] = cell
		}
		v := sbValue(cell, precision, w.dbz)
		w.plain = func(x, y int) float64 { return v }
	}
	b := h.render(len(data))
	t.Note("header %q", b)
	c, err := parse(t, append(b, data...))
	compare(t, c, err, w)
	t.Outcome(c.Product, c.CaptureTime, c.ForecastTime, c.Interval, c.Dx, c.Dy, c.Format, c.Data[0][0])
}

func minutes(n int) time.Duration { return time.Duration(n) * time.Minute }

func isW(p string) bool { return len(p) == 2 && p[0] == 'W' && p[1] >= '1' && p[1] <= '4' }

func intervalOf(p string, n int) time.Duration {
	if isW(p) {
		n *= 10
	}
	return minutes(n)
}

var paddings = []string{" %03d", "%3d", " %d", "%4d", "%05d"}

func spacesC01(th bool) []mc.Space {
	dates := func(t *mc.T) {
		h := stdHdr("RX", by(), gp(1, 1))
		h.month = t.Range(1, 12)
		h.year = t.Choose(100)
		h.day = t.Range(1, 31)
		var m int
		if th {
			m = t.Choose(48)*30 + (h.day*7+h.month)%30
		} else {
			m = []int{0, 1439, (h.day*61 + h.month*7 + h.year) % 1440}[t.Choose(3)]
		}
		h.hour, h.min = m/60, m%60
		if h.day > daysIn(h.month, h.year) {
			_, err := parse(t, append(h.render(1), 7))
			t.Must(err != nil, "date that does not exist accepted: %q", h.stamp())
			return
		}
		runHdr(t, h, base(h, 1, 1), false, 7, 0)
	}
	clock := func(t *mc.T) {
		p := mc.Pick(t, "RX", "PG", "W1", "SF")
		h := stdHdr(p, by(), gp(1, 1))
		h.day = mc.Pick(t, 1, 9, 10, 31)
		h.month = mc.Pick(t, 1, 12, 10)
		h.hour = t.Choose(24)
		h.min = t.Choose(60)
		w := base(h, 1, 1)
		runHdr(t, h, w, false, 7, 0)
	}
	forecast := func(t *mc.T) {
		pad := paddings[t.Choose(len(paddings))]
		p := mc.Pick(t, "FZ", "WN", "RX", "W2")
		n := t.Choose(10000)
		if p != "FZ" && p != "WN" && !th && n%7 != 0 && n > 300 {
			t.Skip()
		}
		h := stdHdr(p, by(), gp(1, 1), field{"VV", fmt.Sprintf(pad, n)})
		w := base(h, 1, 1)
		w.forecast = w.capture.Add(minutes(n))
		runHdr(t, h, w, false, 7, 0)
	}
	interval := func(t *mc.T) {
		pad := paddings[t.Choose(len(paddings))]
		p := mc.Pick(t, "RW", "W1", "W2", "W3", "W4", "FZ", "SF", "WX", "WN", "D2")
		n := t.Choose(10000)
		if !th && n%5 != 0 && n > 1500 {
			t.Skip()
		}
		h := stdHdr(p, by(), gp(1, 1), field{"INT", fmt.Sprintf(pad, n)})
		w := base(h, 1, 1)
		w.interval = intervalOf(p, n)
		runHdr(t, h, w, false, 7, 0)
	}
	version := func(t *mc.T) {
		pad := paddings[t.Choose(len(paddings))]
		p := mc.Pick(t, "RX", "WN", "PG", "W3")
		n := t.Choose(1000)
		h := stdHdr(p, by(), field{"VS", fmt.Sprintf(pad, n)}, gp(2, 3))
		w := base(h, 2, 3)
		w.format = n
		runHdr(t, h, w, false, 7, 0)
	}
	dims := func(t *mc.T) {
		var dx, dy int
		var f field
		switch t.Choose(6) {
		case 0: // all small pairs, several layouts
			dy, dx = t.Range(1, 64), t.Range(1, 64)
			f = field{"GP", fmt.Sprintf(mc.Pick(t, "%4dx%4d", "%dx%d", " %dx %d", " %04dx%04d"), dy, dx)}
		case 1: // tall and flat
			dy, dx = t.Range(1, 2600), 1+t.Choose(2)
			if t.Bool() {
				dx, dy = dy, dx
			}
			f = gp(dx, dy)
		case 2: // BG
			dy, dx = t.Range(1, 48), t.Range(1, 48)
			f = field{"BG", fmt.Sprintf("%03d%03d", dy, dx)}
		case 3:
			dy, dx = t.Range(1, 999), 1+t.Choose(2)
			if t.Bool() {
				dx, dy = dy, dx
			}
			f = field{"BG", fmt.Sprintf("%03d%03d", dy, dx)}
		case 5: // very tall and flat
			ls := []int{2601, 4095, 4096, 4097, 8191, 8192, 9999, 10000, 10001, 12000, 12345, 16384, 20000, 32767, 32768, 32769, 40000, 50505, 65534, 65535}
			dy, dx = ls[t.Choose(len(ls))], 1+t.Choose(2)
			if t.Bool() {
				dx, dy = dy, dx
			}
			f = field{"GP", fmt.Sprintf(mc.Pick(t, "%4dx%4d", " %dx %d", " %6dx%6d"), dy, dx)}
		case 4: // known grids
			d := [][2]int{{900, 900}, {450, 450}, {225, 225}, {460, 460}, {920, 920}, {900, 1100}, {450, 550}, {1100, 1200}, {550, 600}, {1400, 1500}, {700, 750}}[t.Choose(11)]
			dx, dy = d[0], d[1]
			f = gp(dx, dy)
			if dx < 1000 && dy < 1000 && t.Bool() {
				f = field{"BG", fmt.Sprintf("%03d%03d", dy, dx)}
			}
		}
		p := mc.Pick(t, "RX", "PG", "PX") // PX has catalogued dimensions, which stated ones override
		h := stdHdr(p, by(), f)
		rl := t.Bool()
		if rl {
			h.fields = append(h.fields, field{"LV", " 0"})
		}
		runHdr(t, h, base(h, dx, dy), rl, 9, 0)
	}
	// every subset and order of the fields
	orders := func(t *mc.T) {
		type item struct {
			fs    []field
			apply func(h hdr, w *want)
		}
		precision, rl := 0, false
		opt := []item{
			{[]field{{"VS", " 3"}}, func(h hdr, w *want) { w.format = 3 }},
			{[]field{{"INT", "  15"}}, func(h hdr, w *want) { w.interval = intervalOf(h.product, 15) }},
			{[]field{{"VV", " 040"}}, func(h hdr, w *want) { w.forecast = w.capture.Add(minutes(40)) }},
			{prec(-1), func(h hdr, w *want) { precision = -1 }},
			{[]field{{"LV", " 2  1.0 19.0"}}, func(h hdr, w *want) { rl = true }},
			{[]field{{"MS", " 66<boo,ros,emd> are used, "}}, func(h hdr, w *want) {}},
			{[]field{{"SW", "   2.13.1"}}, func(h hdr, w *want) {}},
			{[]field{{"MF", " 00000002"}}, func(h hdr, w *want) {}},
		}
		n := len(opt)
		if !th {
			n = 7
		}
		p := mc.Pick(t, "FZ", "W3")
		items := []item{{[]field{by()}, func(hdr, *want) {}}}
		if t.Bool() {
			items = append(items, item{[]field{{"BG", "002001"}}, func(hdr, *want) {}})
		} else {
			items = append(items, item{[]field{gp(1, 2)}, func(hdr, *want) {}})
		}
		for i := 0; i < n; i++ {
			if t.Bool() {
				items = append(items, opt[i])
			}
		}
		if (p == "W3" || items[1].fs[0].key == "BG") && len(items) > 7 && !th {
			t.Skip() // full orders for one product and one spelling of the dimensions
		}
		h := stdHdr(p)
		w := base(h, 1, 2)
		for _, i := range t.Perm(len(items)) {
			h.fields = append(h.fields, items[i].fs...)
			items[i].apply(h, w)
		}
		runHdr(t, h, w, rl, 77, precision)
	}
	labels := func(t *mc.T) {
		a := 'A' + rune(t.Choose(26))
		r := t.Choose(36)
		b := 'A' + rune(r)
		if r >= 26 {
			b = '0' + rune(r-26)
		}
		p := string(a) + string(b)
		if t.Bool() { // nothing but the mandatory fields: a label is never taken for a field
			h := stdHdr(p, by(), gp(2, 1))
			if t.Bool() {
				h.fields[1] = field{"BG", "001002"}
			}
			runHdr(t, h, base(h, 2, 1), false, 77, 0)
			return
		}
		h := stdHdr(p, by(), field{"VS", " 3"}, field{"INT", " 120"}, gp(2, 1), field{"VV", " 060"})
		w := base(h, 2, 1)
		w.format, w.interval = 3, intervalOf(p, 120)
		w.forecast = w.capture.Add(minutes(60))
		runHdr(t, h, w, false, 77, 0)
	}
	padding := func(t *mc.T) {
		n := t.Choose(9000)
		where := t.Choose(3)
		ms := field{"MS", " 66<" + strings.Repeat("boo,", n/4+1)[:n] + ">"}
		fs := []field{by(), {"VS", " 3"}, {"INT", "  30"}, gp(2, 2), {"VV", " 035"}}
		at := []int{5, 0, 3}[where]
		fs = append(append(append([]field{}, fs[:at]...), ms), fs[at:]...)
		h := stdHdr("FZ", fs...)
		w := base(h, 2, 2)
		w.format, w.interval = 3, minutes(30)
		w.forecast = w.capture.Add(minutes(35))
		runHdr(t, h, w, false, 77, 0)
	}
	wmo := func(t *mc.T) {
		h := stdHdr("RX", by(), gp(1, 1))
		h.wmo = fmt.Sprintf("%05d", t.Choose(100000))
		runHdr(t, h, base(h, 1, 1), false, 7, 0)
	}
	joint := func(t *mc.T) {
		p := mc.Pick(t, "RX", "W1", "W4", "FZ", "SF", "WN", "EX", "XX", "PG", "PX")
		vv := mc.Pick(t, -1, 0, 5, 60, 100, 125, 1440, 2880)
		in := mc.Pick(t, -1, 0, 5, 60, 1440, 1008, 2880)
		vs := mc.Pick(t, -1, 0, 3, 5, 7)
		pr := mc.Pick(t, -100, 0, -1, -2, 1)
		d := mc.Pick(t, [2]int{1, 1}, [2]int{3, 2}, [2]int{2, 5}, [2]int{25, 25})
		h := stdHdr(p, by())
		switch t.Choose(4) {
		case 1:
			h.day, h.hour, h.min, h.month, h.year = 31, 23, 59, 12, 99
		case 2:
			h.day, h.hour, h.min, h.month, h.year = 29, 0, 0, 2, 24
		case 3:
			h.day, h.hour, h.min, h.month, h.year = 27, 1, 30, 3, 69
		}
		w := base(h, d[0], d[1])
		if vs >= 0 {
			h.fields = append(h.fields, field{"VS", fmt.Sprintf("%2d", vs)})
			w.format = vs
		}
		p10 := 0
		if pr > -100 {
			h.fields = append(h.fields, prec(pr)...)
			p10 = pr
		}
		if in >= 0 {
			h.fields = append(h.fields, field{"INT", fmt.Sprintf("%4d", in)})
			w.interval = intervalOf(p, in)
		}
		h.fields = append(h.fields, gp(d[0], d[1]))
		if vv >= 0 {
			h.fields = append(h.fields, field{"VV", fmt.Sprintf(" %03d", vv)})
			w.forecast = w.capture.Add(minutes(vv))
		}
		h.fields = append(h.fields, field{"MF", " 00000002"}, field{"MS", " 66<boo>"})
		runHdr(t, h, w, false, 177, p10)
	}
	// the local time zone is part of the environment
	zones := func(t *mc.T) {
		old := time.Local
		defer func() { time.Local = old }()
		time.Local = time.FixedZone([]string{"UTC", "CEST", "X", "Y"}[t.Choose(4)], t.Range(-12, 14)*3600)
		h := stdHdr(mc.Pick(t, "RX", "FZ"), by(), gp(1, 1), field{"VV", " 060"})
		h.month = t.Range(1, 12)
		h.hour = t.Choose(24)
		w := base(h, 1, 1)
		w.forecast = w.capture.Add(time.Hour)
		runHdr(t, h, w, false, 7, 0)
	}
	// a key without text has no text, wherever it stands
	// headers that differ in one or two fields, one after the other
	type variant func(h *hdr, w *want)
	fieldVar := func(key, text string, f func(w *want)) variant {
		return func(h *hdr, w *want) {
			for i := range h.fields {
				if h.fields[i].key == key {
					h.fields[i].text = text
				}
			}
			f(w)
		}
	}
	variants := []variant{func(h *hdr, w *want) {}}
	for _, p := range []string{"W3", "RX", "W4", "SF"} {
		p := p
		variants = append(variants, func(h *hdr, w *want) { h.product = p })
	}
	for _, d := range []int{-1, 1, -10} {
		d := d
		variants = append(variants, func(h *hdr, w *want) { h.day += d }, func(h *hdr, w *want) { h.hour += d }, func(h *hdr, w *want) { h.min += d },
			func(h *hdr, w *want) { h.year += d }, func(h *hdr, w *want) { h.month += d % 10 * 2 })
	}
	for _, n := range []string{"10001", "00000", "99999"} {
		n := n
		variants = append(variants, func(h *hdr, w *want) { h.wmo = n })
	}
	for _, n := range []int{0, 5, 50, 500} {
		n := n
		variants = append(variants, fieldVar("VV", fmt.Sprintf(" %03d", n), func(w *want) { w.forecast = w.capture.Add(minutes(n)) }), fieldVar("INT", fmt.Sprintf("%4d", n), func(w *want) { w.interval = minutes(n) }))
	}
	for _, n := range []int{0, 2, 4} {
		n := n
		variants = append(variants, fieldVar("VS", fmt.Sprintf("%2d", n), func(w *want) { w.format = n }))
	}
	for _, d := range [][2]int{{3, 2}, {2, 2}, {3, 3}, {6, 1}, {1, 6}} {
		d := d
		variants = append(variants, fieldVar("GP", gp(d[0], d[1]).text, func(w *want) { w.px, w.py, w.dx, w.dy = d[0], d[1], d[0], d[1] }))
	}
	for _, ms := range []string{" 10<boo,rot>", " 10<boo,ros,emd>", " 9<boo,ros>"} {
		variants = append(variants, fieldVar("MS", ms, func(w *want) {}))
	}
	turns := func(t *mc.T) {
		one := func(vs ...int) {
			// dimensions, stamp and product first, since times depend on them
			h := hdr{product: "RW", day: 15, hour: 12, min: 30, wmo: "10000", month: 5, year: 16,
				fields: []field{by(), {"VS", " 3"}, {"SW", "   2.13.1"}, {"INT", "  60"}, {"VV", " 030"}, gp(2, 3), {"MS", " 10<boo,ros>"}}}
			for _, v := range vs {
				variants[v](&h, &want{})
			}
			w := base(h, 2, 3)
			w.format, w.interval, w.forecast = 3, minutes(60), w.capture.Add(minutes(30))
			for _, v := range vs {
				g := h
				g.fields = append([]field{}, h.fields...)
				variants[v](&g, w)
			}
			if isW(h.product) {
				w.interval *= 10
			}
			runHdr(t, h, w, false, 60, 0)
		}
		a, b := t.Choose(len(variants)), t.Choose(len(variants))
		one(0)
		one(a)
		one(b)
		one(a)
		if a != b {
			one(a, b)
			one(0)
			one(b, a)
		}
	}
	valueless := func(t *mc.T) {
		key := mc.Pick(t, "VV", "INT", "VS", "GP", "BG", "E", "LV", "MS", "SW", "QQ")
		prev := []field{{"INT", "   5"}, {"VV", " 100"}, {"VS", " 3"}, {"SW", "   2.13.1"}, {"MF", " 00000002"}, {"MS", " 1"}}[t.Choose(6)]
		h := stdHdr("FZ", by())
		w := base(h, 1, 1)
		apply := func(f field) {
			h.fields = append(h.fields, f)
			switch f.key {
			case "INT":
				w.interval = minutes(5)
			case "VV":
				w.forecast = w.capture.Add(minutes(100))
			case "VS":
				w.format = 3
			}
		}
		if key != "GP" && key != "BG" {
			h.fields = append(h.fields, gp(1, 1))
		}
		if prev.key != key {
			apply(prev)
		}
		h.fields = append(h.fields, field{key, ""})
		switch key {
		case "MS", "SW", "QQ": // not interpreted
			runHdr(t, h, w, false, 7, 0)
		default:
			b := append(h.render(1), 7)
			t.Note("header %q", b)
			_, err := parse(t, b)
			t.Must(err != nil, "field %s without text accepted", key)
		}
	}
	return []mc.Space{
		{Name: "dates", Fn: dates}, {Name: "clock", Fn: clock}, {Name: "forecast", Fn: forecast}, {Name: "interval", Fn: interval},
		{Name: "version", Fn: version}, {Name: "dims", Fn: dims}, {Name: "labels", Fn: labels},
		{Name: "padding", Fn: padding}, {Name: "wmo", Fn: wmo}, {Name: "joint", Fn: joint}, {Name: "zones", Fn: zones, Workers: 1},
		{Name: "valueless", Fn: valueless}, {Name: "turns", Fn: turns}, {Name: "orders", Fn: orders}, // the largest one last
	}
}

func init() {
	register(mc.Check{ID: "C01", Level: "model_checking", Spaces: spacesC01, Assume: []string{
		"headers as described in the DWD format documents: upper-case ASCII keys, decimal numbers, years 1969-2068",
		"labels that spell a field key (VV, GP, BG, BY, LV, VS, E<digit>) are ambiguous in the format and excluded"}})
}
