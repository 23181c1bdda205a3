package main

// A strict reference parser for arbitrary bytes. It accepts only what the format clearly
// allows, rejects only what the format clearly forbids and otherwise leaves the verdict open.

import (
	"bytes"
	"math/big"
	"regexp"
	"strconv"
	"strings"
	"time"

	"gitlab.cs.fau.de/since/radolan"
	"verif/mc"
)

type verdict int

const (
	open verdict = iota
	accept
	reject
)

var (
	reInt    = regexp.MustCompile(`^ *([+-]?[0-9]+) *$`)
	reUInt   = regexp.MustCompile(`^ *([0-9]{1,9}) *$`)
	reStarts = regexp.MustCompile(`^ *[+-]?[0-9]`) // begins like a number
	reGP     = regexp.MustCompile(`^ *([0-9]{1,9})x *([0-9]{1,9}) *$`)
	reGPneg  = regexp.MustCompile(`^ *([+-]?[0-9]{1,9})x *([+-]?[0-9]{1,9}) *$`)
	reBG     = regexp.MustCompile(`^([0-9]{3})([0-9]{3}) *$`)
	reFloat  = regexp.MustCompile(`^ *(-?[0-9]+(\.[0-9]+)?)$`)
	reDigits = regexp.MustCompile(`[0-9]+`)
	reDigit  = regexp.MustCompile(`[0-9]`)
	reStamp  = regexp.MustCompile(`^[A-Z][A-Z0-9][0-9]{15} *$`)
	reToken  = regexp.MustCompile(`[A-Z]+[^A-Z]*`)
	reKey    = regexp.MustCompile(`^[A-Z]+`)
	reRep    = regexp.MustCompile(`^-?[0-9]{1,2}$`)
)

// knownKeys are fields that are either interpreted or known to be irrelevant.
var knownKeys = map[string]bool{"BY": true, "VS": true, "SW": true, "PR": true, "E": true, "INT": true, "GP": true, "BG": true,
	"VV": true, "MF": true, "MS": true, "LV": true, "CS": true, "MX": true, "QN": true, "U": true}

const maxCells = 1 << 26

// judge classifies b. For accept it returns the expected composite, for reject the reason.
func judge(b []byte) (v verdict, w *want, why string) {
	end := bytes.IndexByte(b, etx)
	if end < 0 {
		return reject, nil, "header without end"
	}
	if end+1 < 22 {
		return reject, nil, "header too short"
	}
	head, data := string(b[:end]), b[end+1:]
	// The date is needed in every case.
	date := head[2:8] + head[13:17]
	for _, c := range []byte(date) {
		if c < '0' || c > '9' {
			return reject, nil, "date is not numeric"
		}
	}
	n2 := func(s string) int { n, _ := strconv.Atoi(s); return n }
	h := hdr{product: head[:2], day: n2(date[0:2]), hour: n2(date[2:4]), min: n2(date[4:6]), month: n2(date[6:8]), year: n2(date[8:10])}
	if h.month < 1 || h.month > 12 || h.day < 1 || h.day > daysIn(h.month, h.year) || h.hour > 23 || h.min > 59 {
		return reject, nil, "invalid date"
	}
	if !strings.Contains(head, "BY") {
		return reject, nil, "no length"
	}
	_, local := locals[h.product]
	if !strings.Contains(head, "GP") && !strings.Contains(head, "BG") && !local {
		return reject, nil, "no dimensions"
	}
	for i := range head {
		if head[i] < ' ' || head[i] > '~' {
			return open, nil, "unusual characters"
		}
	}
	if head[0] < 'A' || head[0] > 'Z' {
		return reject, nil, "no product label"
	}
	toks := reToken.FindAllString(head, -1)
	if len(toks) == 0 || !reStamp.MatchString(toks[0]) {
		return open, nil, "unusual stamp"
	}
	sec := map[string]string{}
	odd := false // header contains fields of unclear meaning
	for i, tk := range toks {
		k := reKey.FindString(tk)
		if i == 0 {
			continue
		}
		if _, dup := sec[k]; dup {
			return open, nil, "duplicate field"
		}
		sec[k] = tk[len(k):]
		if !knownKeys[k] {
			odd = true
		}
	}
	unclear := func() (verdict, *want, string) { return open, nil, "unclear" }
	isOpen := odd

	// every interpreted field that is present needs a number
	num := func(s string) (n int, st verdict) {
		if !reStarts.MatchString(s) {
			return 0, reject
		}
		m := reInt.FindStringSubmatch(s)
		if m == nil {
			return 0, open
		}
		var z big.Int
		z.SetString(strings.TrimPrefix(m[1], "+"), 10)
		if z.IsInt64() && z.Int64() < 1e9 && z.Int64() > -1e9 {
			return int(z.Int64()), accept
		}
		return 0, open
	}
	vals := map[string]int{}
	for _, k := range []string{"VV", "INT", "VS", "E"} {
		s, ok := sec[k]
		if !ok {
			continue
		}
		n, st := num(s)
		if st == reject {
			return reject, nil, "field " + k + " has no value"
		}
		if st == open || k != "E" && n < 0 || k == "E" && (n < -30 || n > 30) {
			isOpen = true
		}
		vals[k] = n
	}
	bys, ok := sec["BY"]
	if !ok {
		return reject, nil, "no length"
	}
	total, st := num(bys)
	if st == reject {
		return reject, nil, "no length"
	}
	totalKnown := st == accept
	// dimensions
	w = base(h, 0, 0)
	gps, hasGP := sec["GP"]
	bgs, hasBG := sec["BG"]
	if hasGP && hasBG {
		return unclear()
	}
	switch {
	case hasGP:
		parts := strings.SplitN(gps, "x", 2)
		if len(parts) < 2 || !reDigit.MatchString(parts[0]) || !reDigit.MatchString(parts[1]) ||
			!reStarts.MatchString(parts[0]) || !reStarts.MatchString(parts[1]) {
			return reject, nil, "no dimensions"
		}
		m := reGPneg.FindStringSubmatch(gps)
		if m == nil {
			return unclear()
		}
		w.dy, _ = strconv.Atoi(m[1])
		w.dx, _ = strconv.Atoi(m[2])
		if !reGP.MatchString(gps) && w.dx > 0 && w.dy > 0 {
			return unclear() // signs
		}
		w.px, w.py = w.dx, w.dy
	case hasBG:
		if g := reDigits.FindAllString(bgs, -1); !reStarts.MatchString(bgs) || len(g) == 1 && len(g[0]) < 4 {
			return reject, nil, "no dimensions"
		}
		m := reBG.FindStringSubmatch(bgs)
		if m == nil {
			return unclear()
		}
		w.dy, _ = strconv.Atoi(m[1])
		w.dx, _ = strconv.Atoi(m[2])
		w.px, w.py = w.dx, w.dy
	default:
		s, ok := locals[h.product]
		if !ok {
			return reject, nil, "no dimensions"
		}
		w.px, w.py, w.dx, w.dy = s.px, s.py, s.dx, s.dy
	}
	if w.px <= 0 || w.py <= 0 {
		return reject, nil, "non-positive dimensions"
	}
	if w.px > maxCells/w.py {
		return reject, nil, "absurd dimensions"
	}
	// levels
	var level []float64
	lv, hasLV := sec["LV"]
	if hasLV {
		if len(lv) < 2 || !reDigit.MatchString(lv[:2]) {
			return reject, nil, "no level count"
		}
		if !reRep.MatchString(strings.TrimLeft(lv[:2], " ")) {
			if !reStarts.MatchString(lv[:2]) {
				return reject, nil, "no level count"
			}
			return unclear()
		}
		cnt, _ := strconv.Atoi(strings.TrimLeft(lv[:2], " "))
		if cnt < 0 || len(lv) != 2+5*cnt {
			return reject, nil, "level table does not match its count"
		}
		if cnt == 0 {
			return unclear()
		}
		for i := 0; i < cnt; i++ {
			s := lv[2+5*i : 7+5*i]
			if l := strings.ToLower(s); strings.Contains(l, "inf") || strings.Contains(l, "nan") {
				return unclear()
			}
			if !reDigit.MatchString(s) {
				return reject, nil, "level without digits"
			}
			m := reFloat.FindStringSubmatch(s)
			if m == nil {
				isOpen = true
				level = append(level, 0)
				continue
			}
			f, _ := strconv.ParseFloat(m[1], 64)
			level = append(level, f)
		}
	}
	prec := vals["E"]
	cells := w.px * w.py
	var img [][]float64
	switch {
	case hasLV:
		if !totalKnown {
			isOpen = true
		} else if total-len(head)-1 < 0 {
			isOpen = true
		}
		rest := data
		for y := 0; y < w.py; y++ {
			i := bytes.IndexByte(rest, '\n')
			if i < 0 {
				return reject, nil, "data ends early"
			}
			row, ok := rlRow(rest[:i], w.px, level)
			if !ok {
				return reject, nil, "undecodable row"
			}
			img = append(img, row)
			rest = rest[i+1:]
		}
		w.plain = func(x, y int) float64 { return img[y][x] }
	case !totalKnown:
		if m := reInt.FindStringSubmatch(bys); m != nil { // a number too large to match
			return reject, nil, "length matches no encoding"
		}
		return unclear()
	case total-len(head)-1 == 2*cells:
		if len(data) < 2*cells {
			return reject, nil, "data ends early"
		}
		w.plain = func(x, y int) float64 {
			i := 2 * ((w.py-1-y)*w.px + x)
			return leValue(data[i], data[i+1], prec, w.dbz)
		}
	case total-len(head)-1 == cells:
		if len(data) < cells {
			return reject, nil, "data ends early"
		}
		w.plain = func(x, y int) float64 { return sbValue(data[(w.py-1-y)*w.px+x], prec, w.dbz) }
	default:
		return reject, nil, "length matches no encoding"
	}
	if isOpen {
		return unclear()
	}
	w.forecast = w.capture.Add(time.Duration(vals["VV"]) * time.Minute)
	w.interval = time.Duration(vals["INT"]) * time.Minute
	if len(h.product) == 2 && h.product[0] == 'W' && h.product[1] >= '1' && h.product[1] <= '4' {
		w.interval *= 10
	}
	w.format = vals["VS"]
	return accept, w, ""
}

// judged parses b and compares the outcome with the verdict.
func judged(t *mc.T, b []byte) verdict {
	c, err := parse(t, b)
	v, w, why := judge(b)
	t.Note("verdict %d (%s), error %v, input %.120q", v, why, err, b)
	switch v {
	case accept:
		compare(t, c, err, w)
		t.Outcome("accept")
	case reject:
		if err == nil || err == radolan.ErrUnknownUnit {
			t.Fail("accepted (error %v) although: %s; input %.200q", err, why, b)
		}
		t.NonTrivial()
		t.Outcome(why)
	default:
		if err == nil || err == radolan.ErrUnknownUnit {
			t.Must(c != nil, "success without composite")
			shape(t, c)
			t.Outcome("open", true)
		} else {
			t.Outcome("open", false)
		}
	}
	return v
}
