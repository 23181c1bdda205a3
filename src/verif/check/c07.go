package main

import (
	"bytes"
	"fmt"
	"runtime"
	"strings"

	"gitlab.cs.fau.de/since/radolan"
	"verif/mc"
)

func seeds() (bs [][]byte) {
	add := func(b []byte, _ *want) { bs = append(bs, b) }
	full := stdHdr("RX", by(), field{"VS", " 3"}, field{"SW", "   2.13.1"}, field{"PR", " "}, field{"E", "+00"}, field{"INT", "   5"}, gp(3, 4), field{"MS", " 74<boo,ros>"})
	b, w := makeFile(encSB, full, 3, 4, 0, posCode(encSB))
	add(b, w)
	add(makeFile(encLE, stdHdr("W3", by(), field{"INT", " 144"}, field{"PR", " "}, field{"E", "-01"}, field{"VV", " 015"}, gp(2, 3)), 2, 3, -1, posCode(encLE)))
	add(makeFile(encRL, stdHdr("PG", by(), field{"BG", "004017"}), 17, 4, 0, posCode(encRL)))
	add(makeFile(encLE, stdHdr("XX", by(), field{"BG", "002001"}, field{"VS", " 5"}), 1, 2, 0, posCode(encLE)))
	add(makeFile(encLE, stdHdr("RW", by(), gp(1, 1)), 1, 1, 0, posCode(encLE)))
	h := stdHdr("PX", by(), field{"VV", " 5"}, lvField(lv6))
	data := append([]byte{1, 20, 0x31, '\n'}, bytes.Repeat([]byte{'\n'}, 223)...)
	bs = append(bs, append(h.render(len(data)), data...))
	return
}

func splice(b []byte, i, j int, mid ...byte) []byte {
	return append(append(append([]byte{}, b[:i]...), mid...), b[j:]...)
}

var absurd = []string{"2", "16", "900", "4096", "9999", "65535", "65536", "99999", "1000000", "33554432", "46341", "2147483647", "2147483648",
	"4294967295", "4294967296", "3037000500", "9223372036854775807", "9223372036854775808", "18446744073709551616", "-1", "-2", "-46341", "-2147483648", "-9223372036854775808", "0", "1"}

func spacesC07(th bool) []mc.Space {
	sd := seeds()
	prefixes := func(t *mc.T) {
		b := sd[t.Choose(len(sd))]
		v := judged(t, b[:t.Choose(len(b)+1)])
		_ = v
	}
	subst := func(t *mc.T) {
		b := sd[t.Choose(len(sd))]
		i := t.Choose(len(b))
		c := t.Choose(256)
		if int(b[i]) == c || !th && i > 110 && i%16 != 0 {
			t.Skip()
		}
		judged(t, splice(b, i, i+1, byte(c)))
	}
	insert := func(t *mc.T) {
		b := sd[t.Choose(len(sd))]
		i := t.Choose(len(b) + 1)
		if !th && i > 110 && i%16 != 0 {
			t.Skip()
		}
		judged(t, splice(b, i, i, byte(t.Choose(256))))
	}
	// the length field is adjusted to the new header length, so that other checks are reached
	insertFix := func(t *mc.T) {
		k := t.Choose(len(sd))
		b := sd[k]
		end := bytes.IndexByte(b, etx)
		i := 17 + t.Choose(end-17+1)
		c := byte(t.Choose(256))
		p := bytes.Index(b, []byte("BY"))
		if c == etx || i > p && i < p+9 {
			t.Skip()
		}
		n := splice(b, i, i, c)
		p = bytes.Index(n, []byte("BY"))
		copy(n[p+2:], fmt.Sprintf("%7d", len(n)))
		judged(t, n)
	}
	remove := func(t *mc.T) {
		b := sd[t.Choose(len(sd))]
		if len(b) > 120 {
			b = b[:120]
		}
		i := t.Choose(len(b))
		j := i + 1 + t.Choose(len(b)-i)
		judged(t, splice(b, i, j))
	}
	move := func(t *mc.T) { // copy a stretch to another place
		b := sd[t.Choose(len(sd))]
		m := 80
		if len(b) < m {
			m = len(b)
		}
		i := t.Choose(m)
		n := t.Range(1, 6)
		if i+n > len(b) {
			t.Skip()
		}
		at := t.Choose(m)
		if t.Bool() {
			judged(t, splice(b, at, at, b[i:i+n]...))
		} else if at+n <= len(b) {
			judged(t, splice(b, at, at+n, b[i:i+n]...))
		}
	}
	alpha := []byte{' ', '0', '1', '9', '-', '+', 'x', 'A', 'Y', 'B', etx}
	if th {
		alpha = append(alpha, 'E', 'V', 'L', 'G', 'P', '.', ',', '\n', 0, 255)
	}
	pairs := func(t *mc.T) {
		k := t.Choose(len(sd))
		b := sd[k]
		end := bytes.IndexByte(b, etx) + 1
		if !th && k == 0 {
			t.Skip()
		}
		i := t.Choose(end)
		j := i + 1 + t.Choose(end-i)
		if j >= len(b) {
			t.Skip()
		}
		n := append([]byte{}, b...)
		n[i] = alpha[t.Choose(len(alpha))]
		n[j] = alpha[t.Choose(len(alpha))]
		judged(t, n)
	}
	// texts of single fields and of pairs of fields, with correct total length
	texts := map[string][]string{
		"BY":  {"", " ", "x", "-", "-5", "0", "7", "    999", "99999999", "9999999999", "18446744073709551700", "1e3", "  12.5", "0x20"},
		"VV":  {" 005", "", "   ", "x", " abc", "-", "+", "-05", "1e2", " 99999999999999999999", "..", "<", "5x"},
		"INT": {"  60", "", " ", "  x", "-", "--5", "0x5", "99999999999999999999", "  5.5", "/"},
		"VS":  {" 5", "", " ", " x", "-", "<>", "..5", "99999999999999999999"},
		"E":   {"-01", "+00", "", " ", "-", "+", "x", "--1", ".1", "+99", "-99", "-2147483649", "99999999999999999999"},
		"GP":  {"   2x   3", "", " ", "x", "   2x", "x   3", "   2", "   2 3", "  x2x 3", "   0x   3", "   2x   0", "  -2x   3", "   2x  -3", "  -2x  -3", "9999x9999", "99999999x99999999", "4294967296x4294967296", "-1x-6", "0x0", "2y3", " 2x3y", "2,3", "9223372036854775807x2"},
		"BG":  {"002003", "", " ", "002", "0", "2", "000003", "002000", "-02003", "002-03", "-02-03", "abc", "002x03", "999999", "......", "00"},
		"LV":  {" 1  1.0", "", " ", "1", " x", "-1", "--", " 1", " 2  1.0", " 1  1.", " 1  1.00", " 0", "00", "99", " 1     ", " 1  x.0", " 1 - . ", " 2  1.0-----", "1 1.0", "+1  1.0", " 1  inf", " 1  nan", " 12345."},
	}
	names := []string{"BY", "VV", "INT", "VS", "E", "GP", "BG", "LV"}
	combo := func(t *mc.T) {
		p := mc.Pick(t, "RX", "RW", "PX", "XX", "W2")
		enc := t.Choose(3)
		val := map[string]string{}
		switch enc {
		case encRL:
			val["LV"] = lvField(lv12).text
		}
		if t.Bool() {
			val["GP"] = "   2x   3"
		} else {
			val["BG"] = "002003"
		}
		k1 := names[t.Choose(len(names))]
		v1 := texts[k1][t.Choose(len(texts[k1]))]
		k2, v2 := "", ""
		i := t.Choose(len(names) + 1)
		if i > 0 {
			k2 = names[i-1]
			v2 = texts[k2][t.Choose(len(texts[k2]))]
			if k2 == k1 {
				t.Skip()
			}
		}
		set := func(k, v string) {
			if k == "BG" {
				delete(val, "GP")
			}
			if k == "GP" {
				delete(val, "BG")
			}
			val[k] = v
		}
		set(k1, v1)
		if k2 != "" {
			set(k2, v2)
		}
		h := stdHdr(p)
		if _, ok := val["BY"]; !ok {
			val["BY"] = ""
		}
		n := 0
		for _, k := range names {
			v, ok := val[k]
			if !ok {
				continue
			}
			if k == "E" {
				h.fields = append(h.fields, field{"PR", " "})
			}
			if k == "BY" && (k1 == "BY" || k2 == "BY") {
				h.fields = append(h.fields, field{"BY" + v, "  "}) // rendered as written
				continue
			}
			h.fields = append(h.fields, field{k, v})
			n++
		}
		var data []byte
		switch enc {
		case encSB:
			data = []byte{1, 2, 3, 4, 5, 250}
		case encLE:
			data = make([]byte, 12)
			data[3] = 0x2F
			data[10] = 7
		case encRL:
			data = []byte{'a', 17, 0x11, '\n', '\n', '\n', '\n'}
		}
		b := append(h.render(len(data)), data...)
		if !th && k2 != "" && (len(v1)+len(v2)+enc)%3 != 0 && k1 != "LV" {
			t.Skip()
		}
		judged(t, b)
	}
	// fields removed one by one, or all pairs of fields removed
	missing := func(t *mc.T) {
		b := sd[t.Choose(len(sd))]
		end := bytes.IndexByte(b, etx)
		toks := reToken.FindAllString(string(b[:end]), -1)
		mask := 1 + t.Choose(1<<uint(len(toks)-1)-1)
		var sb strings.Builder
		sb.WriteString(toks[0])
		for i, tk := range toks[1:] {
			if mask>>uint(i)&1 == 0 {
				sb.WriteString(tk)
			}
		}
		n := append([]byte(sb.String()), b[end:]...)
		if p := bytes.Index(n[17:], []byte("BY")); p >= 0 && t.Bool() {
			copy(n[17+p+2:], fmt.Sprintf("%7d", len(n)))
		}
		judged(t, n)
	}
	// sequences of header tokens after a valid stamp
	toks := []string{"BY", "BY     34", "GP", "   1x   1", "BG", "001001", "LV", " 1  1.0", "E", "-01", "VV", "INT", "VS", "x", " ", "A"}
	depth := 5
	if th {
		depth = 6
	}
	sequences := func(t *mc.T) {
		s := "RX282105100000716"
		for i := 0; i < depth; i++ {
			k := t.Choose(len(toks) + 1)
			if k == 0 {
				break
			}
			s += toks[k-1]
		}
		judged(t, append([]byte(s), etx, 7, 7, '\n', '\n'))
	}
	// tiny and odd inputs
	tiny := func(t *mc.T) {
		n := t.Choose(3)
		b := []byte{}
		for i := 0; i < n; i++ {
			b = append(b, byte(t.Choose(256)))
		}
		if t.Bool() {
			b = append(append([]byte{}, bytes.Repeat([]byte{'R'}, t.Choose(24))...), append(b, etx)...)
		}
		judged(t, b)
	}
	repeated := func(t *mc.T) { // one character only, of any length
		c := byte(t.Choose(256))
		n := t.Choose(40) + 1
		b := append(bytes.Repeat([]byte{c}, n), etx)
		if t.Bool() {
			b = append([]byte("RX282105100000716"), b...)
		}
		if t.Bool() {
			b = append(b[:len(b)-1:len(b)-1], []byte("BY     60GP   1x   1\x03aaaaaaaaaaaaaaaaaaaaaaaaaaaaa")...)
		}
		judged(t, b)
	}
	// run-length data: words over representative bytes in a two-row composite
	rl := func(t *mc.T) {
		al := []byte{0, 15, 16, 17, 0x10, 0x31, 0x7f, 0xf1, 254, 255, '\n'}
		w := mc.Pick(t, 1, 3, 17, 250)
		d := []byte{}
		for n := t.Choose(6); n > 0; n-- {
			d = append(d, al[t.Choose(len(al))])
		}
		d = append(d, []byte("\n\n\n")[:t.Choose(4)]...)
		h := stdHdr("PX", by(), gp(w, 2), lvField(lv6))
		judged(t, append(h.render(len(d)), d...))
	}
	// huge or negative dimensions must not request memory
	memory := func(t *mc.T) {
		form := t.Choose(3)
		dy := absurd[t.Choose(len(absurd))]
		dx := absurd[t.Choose(len(absurd))]
		enc := t.Choose(3)
		h := stdHdr("RX")
		switch form {
		case 0:
			h.fields = []field{{"GP", dy + "x" + dx}}
		case 1:
			h.fields = []field{{"GP", dy + "x " + dx}}
		case 2:
			f := func(s string) string { return (s + "000")[:3] }
			h.fields = []field{{"BG", f(dy) + f(dx)}}
		}
		if enc == encRL {
			h.fields = append(h.fields, lvField(lv6))
		}
		var a, b, n int64
		fmt.Sscan(dy, &a)
		fmt.Sscan(dx, &b)
		n = a * b // may wrap, as a careless implementation would
		if enc == encLE {
			n *= 2
		}
		hl := len(h.render(0)) + 22
		h.fields = append(h.fields, field{"BY" + fmt.Sprintf("%20d", n+int64(hl)), ""})
		in := h.render(0)
		for i := 0; i < 2; i++ {
			in = append(in, "....\n\n"...)
		}
		t.Attach("input", in)
		t.Note("%q", in)
		var m0, m1 runtime.MemStats
		runtime.ReadMemStats(&m0)
		c, err := radolan.NewComposite(bytes.NewReader(in))
		runtime.ReadMemStats(&m1)
		mb := (m1.TotalAlloc - m0.TotalAlloc) >> 20
		v, _, why := judge(in)
		if v == reject {
			t.Must(err != nil && err != radolan.ErrUnknownUnit, "accepted although: %s", why)
			t.NonTrivial()
		}
		t.Must(mb < 512, "%d MB requested for %q", mb, in)
		t.Outcome(err == nil, c == nil, mb>>6)
	}
	// the command's memory must not depend on other header numbers either
	numbers := func(t *mc.T) {
		k := mc.Pick(t, "VV", "INT", "VS", "E", "LV", "SW", "MX", "CS")
		v := absurd[t.Choose(len(absurd))]
		if k == "E" {
			k = "PR E"
		}
		h := stdHdr(mc.Pick(t, "RX", "W1"), by(), gp(2, 2), field{k, v})
		in := append(h.render(4), 1, 2, 3, 4)
		var m0, m1 runtime.MemStats
		runtime.ReadMemStats(&m0)
		judged(t, in)
		runtime.ReadMemStats(&m1)
		mb := (m1.TotalAlloc - m0.TotalAlloc) >> 20
		t.Must(mb < 512, "%d MB requested for %q", mb, in)
	}
	// archives: every prefix, every single-bit flip: an error or the same composites
	arch := archiveOf(sd[1], sd[0], sd[4])
	same := func(t *mc.T, in []byte) bool {
		t.Attach("input", in)
		cs, err := radolan.NewComposites(bytes.NewReader(in))
		if err != nil {
			t.NonTrivial()
			t.Outcome("error", err)
			return false
		}
		ref, err := radolan.NewComposites(bytes.NewReader(arch))
		must(t, err)
		t.Must(len(cs) == len(ref), "%d composites from a damaged archive, %d from the intact one", len(cs), len(ref))
		for i := range cs {
			t.Must(fingerprint(cs[i]) == fingerprint(ref[i]), "composite %d of a damaged archive differs but no error was reported", i)
		}
		t.Outcome("same")
		return true
	}
	archives := func(t *mc.T) {
		i := t.Choose(len(arch))
		switch t.Choose(4) {
		case 0:
			t.Must(!same(t, arch[:i]), "archive cut at %d of %d accepted", i, len(arch))
		case 1:
			n := append([]byte{}, arch...)
			n[i] ^= 1 << uint(t.Choose(8))
			same(t, n)
		case 2:
			same(t, splice(arch, i, i+1))
		case 3:
			same(t, splice(arch, i, i, mc.Pick(t, byte(0), byte(255), byte('B'))))
		}
	}
	// damage inside the tar layer, with a valid bzip2 layer: never a panic
	tb := tarOf(sd[1], sd[0], sd[4])
	tars := func(t *mc.T) {
		i := t.Choose(len(tb))
		if !th && i%512 > 270 && i%3 != 0 {
			t.Skip()
		}
		var n []byte
		switch t.Choose(3) {
		case 0:
			n = splice(tb, i, i+1, mc.Pick(t, tb[i]^1, byte(0), byte(' '), byte('7'), byte(255)))
		case 1:
			n = tb[:i]
		case 2:
			n = splice(tb, i, i+1)
		}
		in := bzip2Encode(n, 100000)
		t.Attach("input", in)
		cs, err := radolan.NewComposites(bytes.NewReader(in))
		if err == nil {
			for _, c := range cs {
				shape(t, c)
			}
		} else {
			t.NonTrivial()
		}
		t.Outcome(err, len(cs))
	}
	// members that claim other sizes than they have
	claims := func(t *mc.T) {
		m := t.Choose(3)
		at, files := 0, [][]byte{sd[1], sd[0], sd[4]}
		for _, f := range files[:m] {
			at += 512 + (len(f)+511)/512*512
		}
		n := append([]byte{}, tb...)
		var size uint64
		base := t.Bool()
		if base { // base 256
			size = 1 << uint(t.Range(10, 63))
		} else {
			size = 1 << uint(t.Range(0, 33))
		}
		size += mc.Pick(t, uint64(0), ^uint64(0), 1, uint64(len(files[m])))
		switch {
		case !base && size >= 1<<33:
			t.Skip()
		case base:
			n[at+124] = 0x80
			if size >= 1<<63 {
				n[at+124] = 0xff
			}
			for i := 0; i < 11; i++ {
				n[at+135-i] = 0
				if i < 8 {
					n[at+135-i] = byte(size >> uint(8*i))
				}
			}
		default:
			copy(n[at+124:], fmt.Sprintf("%011o\x00", size))
		}
		copy(n[at+148:], "        ")
		sum := 0
		for _, c := range n[at : at+512] {
			sum += int(c)
		}
		copy(n[at+148:], fmt.Sprintf("%06o\x00 ", sum))
		in := bzip2Encode(n, 100000)
		t.Attach("input", in)
		var m0, m1 runtime.MemStats
		runtime.ReadMemStats(&m0)
		cs, err := radolan.NewComposites(bytes.NewReader(in))
		runtime.ReadMemStats(&m1)
		mb := (m1.TotalAlloc - m0.TotalAlloc) >> 20
		t.Must(mb < 512, "%d MB requested because member %d claims %d bytes", mb, m, size)
		if size > uint64(len(n)) {
			t.Must(err != nil, "archive accepted although member %d claims %d of %d bytes", m, size, len(n))
			t.NonTrivial()
		}
		for _, c := range cs {
			if err == nil {
				shape(t, c)
			}
		}
		t.Outcome(m, base, size, err != nil)
	}
	return []mc.Space{
		{Name: "prefixes", Fn: prefixes}, {Name: "substitutions", Fn: subst}, {Name: "insertions", Fn: insert}, {Name: "insertions-fixed", Fn: insertFix},
		{Name: "removals", Fn: remove}, {Name: "copies", Fn: move}, {Name: "missing", Fn: missing},
		{Name: "tiny", Fn: tiny}, {Name: "repeated", Fn: repeated}, {Name: "runlength", Fn: rl},
		{Name: "memory", Fn: memory, Workers: 1}, {Name: "numbers", Fn: numbers, Workers: 1},
		{Name: "archives", Fn: archives}, {Name: "tars", Fn: tars}, {Name: "claims", Fn: claims, Workers: 1},
		{Name: "fields", Fn: combo}, {Name: "sequences", Fn: sequences}, {Name: "pairs", Fn: pairs},
	}
}

// fingerprint describes all exported state of a composite.
func fingerprint(c *radolan.Composite) string {
	if c == nil {
		return "nil"
	}
	x, y := c.Project(51, 9)
	return fmt.Sprint(c.Product, c.CaptureTime.UTC(), c.ForecastTime.UTC(), c.Interval, c.DataUnit, c.Px, c.Py, c.Dx, c.Dy, c.Dz, c.Rx, c.Ry, c.HasProjection, c.Format,
		x, y, c.PlainData, c.DataZ, c.Data)
}

func init() {
	register(mc.Check{ID: "C07", Level: "model_checking", Spaces: spacesC07,
		Assume: []string{"inputs whose meaning the format leaves open (duplicate or unknown fields, trailing characters after numbers, control characters) are only checked for termination and consistency"}})
}
