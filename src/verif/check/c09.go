package main

import (
	"archive/tar"
	"bytes"
	"fmt"
	"strings"
	"time"

	"gitlab.cs.fau.de/since/radolan"
	"verif/mc"
)

// member i of an archive; mark makes it recognisable, at is its capture minute, vv its forecast.
func member(mark int, cap time.Time, vv int, dx, dy int) ([]byte, time.Time) {
	h := stdHdr("RW", by(), field{"VV", fmt.Sprintf(" %03d", vv)}, gp(dx, dy))
	h.day, h.hour, h.min, h.month, h.year = cap.Day(), cap.Hour(), cap.Minute(), int(cap.Month()), cap.Year()%100
	b, _ := makeFile(encLE, h, dx, dy, 0, func(x, y int) int { return mark })
	return b, cap.Add(minutes(vv))
}

var cap0 = time.Date(2016, 12, 31, 23, 40, 0, 0, time.UTC)

// checkArchive parses the archive and compares with the members in any order among equal times.
func checkArchive(t *mc.T, in []byte, files [][]byte, marks []int, times []time.Time) {
	t.Attach("input", in)
	cs, err := radolan.NewComposites(bytes.NewReader(in))
	must(t, err)
	t.Must(len(cs) == len(files), "%d composites from %d members", len(cs), len(files))
	used := make([]bool, len(files))
	for i, c := range cs {
		t.Must(c != nil, "composite %d is nil", i)
		if i > 0 {
			t.Must(!c.ForecastTime.Before(cs[i-1].ForecastTime), "composite %d (%v) comes after %v", i, c.ForecastTime, cs[i-1].ForecastTime)
		}
		k := -1
		for j := range files {
			if !used[j] && float32(marks[j]) == c.At(0, 0) {
				k = j
				break
			}
		}
		t.Must(k >= 0, "composite %d (value %v) is no member of the archive or appears twice", i, c.At(0, 0))
		used[k] = true
		t.Must(c.ForecastTime.Equal(times[k]), "member %d: forecast %v, want %v", k, c.ForecastTime, times[k])
		alone, err := radolan.NewComposite(bytes.NewReader(files[k]))
		must(t, err)
		t.Must(fingerprint(c) == fingerprint(alone), "composite %d differs from member %d parsed alone", i, k)
	}
	t.Steps(len(cs) + 1)
	for i := range cs {
		for j := range cs[:i] {
			t.Must(&cs[i].PlainData[0][0] != &cs[j].PlainData[0][0], "composites %d and %d share data", i, j)
		}
	}
}

func arrange(t *mc.T, vvs []int, caps []time.Time) {
	var files [][]byte
	var marks []int
	var times []time.Time
	for i, vv := range vvs {
		c := cap0
		if caps != nil {
			c = caps[i]
		}
		f, ft := member(i+1, c, vv, 1+i%2, 1)
		files, marks, times = append(files, f), append(marks, i+1), append(times, ft)
	}
	t.Note("forecast minutes %v", vvs)
	checkArchive(t, archiveOf(files...), files, marks, times)
}

func spacesC09(th bool) []mc.Space {
	max := 5
	if th {
		max = 6
	}
	small := func(t *mc.T) { // every assignment of forecast times to up to max members
		n := t.Choose(max + 1)
		vvs := make([]int, n)
		for i := range vvs {
			vvs[i] = t.Choose(n) * 5
		}
		arrange(t, vvs, nil)
		t.Outcome(vvs)
	}
	captures := func(t *mc.T) { // capture times and forecasts that disagree in order
		n := t.Range(1, 4)
		vvs := make([]int, n)
		caps := make([]time.Time, n)
		for i := range vvs {
			vvs[i] = mc.Pick(t, 0, 60, 5)
			caps[i] = cap0.Add(minutes(30 * t.Choose(3)))
		}
		arrange(t, vvs, caps)
		t.Outcome(vvs, caps)
	}
	large := func(t *mc.T) {
		n := mc.Pick(t, 12, 13, 25, 64, 300)
		if th {
			n = mc.Pick(t, 7, 11, 12, 13, 14, 24, 25, 26, 49, 50, 51, 64, 65, 100, 300)
		}
		p := make([]int, n)
		for i := range p {
			p[i] = i
		}
		switch t.Choose(6) {
		case 0: // rotation
			k := t.Choose(n)
			p = append(append([]int{}, p[k:]...), p[:k]...)
		case 1: // reversed rotation
			k := t.Choose(n)
			p = append(append([]int{}, p[k:]...), p[:k]...)
			for i, j := 0, n-1; i < j; i, j = i+1, j-1 {
				p[i], p[j] = p[j], p[i]
			}
		case 2: // transposition
			if n == 300 && !th {
				t.Skip()
			}
			i := t.Choose(n - 1)
			j := i + 1 + t.Choose(n-i-1)
			if !th && n > 13 && (i*7+j)%5 != 0 {
				t.Skip()
			}
			p[i], p[j] = p[j], p[i]
		case 3: // one member moved
			if n == 300 && !th {
				t.Skip()
			}
			i, j := t.Choose(n), t.Choose(n)
			if !th && n > 13 && (i*3+j)%7 != 0 {
				t.Skip()
			}
			v := p[i]
			p = append(p[:i:i], p[i+1:]...)
			p = append(p[:j:j], append([]int{v}, p[j:]...)...)
		case 4: // stride
			s := t.Range(2, n-1)
			q := p[:0:0]
			for o := 0; o < s; o++ {
				for i := o; i < n; i += s {
					q = append(q, i)
				}
			}
			p = q
		case 5: // many equal times
			m := t.Range(1, 5)
			r := t.Bool()
			for i := range p {
				p[i] = i % m
				if r {
					p[i] = (n - i) / m
				}
			}
		}
		for i := range p {
			p[i] *= 5
		}
		arrange(t, p, nil)
		t.Outcome(n, p)
	}
	// months, years and members of equal forecast but different capture time
	calendar := func(t *mc.T) {
		starts := []time.Time{cap0, time.Date(2000, 2, 28, 23, 55, 0, 0, time.UTC), time.Date(1999, 12, 31, 23, 30, 0, 0, time.UTC), time.Date(2016, 10, 30, 0, 50, 0, 0, time.UTC), time.Date(2016, 3, 27, 0, 50, 0, 0, time.UTC)}
		s := starts[t.Choose(len(starts))]
		step := mc.Pick(t, 1, 5, 60, 1440, 44640)
		vv := mc.Pick(t, 0, 5, 120)
		perm := t.Perm(4)
		var caps []time.Time
		var vvs []int
		for _, i := range perm {
			caps = append(caps, s.Add(minutes(step*i)))
			vvs = append(vvs, vv)
		}
		arrange(t, vvs, caps)
		t.Outcome(perm, step)
	}
	// member sizes around tar blocks and read buffers
	sizes := func(t *mc.T) {
		n := t.Range(1, 3)
		var files [][]byte
		var marks []int
		var times []time.Time
		for i := 0; i < n; i++ {
			want := mc.Pick(t, 0, 511, 512, 513, 1024, 4096, 4097)
			f, ft := member(i+1, cap0, 5*(n-i), 1, 1)
			if want > 0 {
				// as wide a composite as fits, then trailing bytes
				dx := (want - len(f)) / 2
				if dx < 1 {
					dx = 1
				}
				f, ft = member(i+1, cap0, 5*(n-i), dx, 1)
				for len(f) < want {
					f = append(f, 'z')
				}
				if t.Bool() {
					f = append(f, bytes.Repeat([]byte("#"), 700)...)
				}
			}
			files, marks, times = append(files, f), append(marks, i+1), append(times, ft)
		}
		checkArchive(t, archiveOf(files...), files, marks, times)
		t.Outcome(n)
	}
	std := func(n int) (files [][]byte, marks []int, times []time.Time) {
		for i := 0; i < n; i++ {
			f, ft := member(i+1, cap0, 5*((i*2+1)%n), 3, 2)
			files, marks, times = append(files, f), append(marks, i+1), append(times, ft)
		}
		return
	}
	// one undecodable member at every place
	bad := func(t *mc.T) {
		n := t.Range(1, 5)
		files, _, _ := std(n)
		i := t.Choose(n)
		good := files[i]
		end := bytes.IndexByte(good, etx)
		var f []byte
		switch t.Choose(8) {
		case 0: // cut anywhere
			f = good[:t.Choose(len(good))]
		case 1:
			f = bytes.Replace(good, []byte("BY"), []byte("BX"), 1)
		case 2:
			f = bytes.Replace(good, []byte("GP"), []byte("GX"), 1)
		case 3:
			f = append([]byte("RW993105"), good[8:]...)
		case 4:
			f = append([]byte("QQ"), good[2:]...)
		case 5:
			f = bytes.Repeat([]byte{0}, t.Choose(3)*512)
		case 6:
			f = append(append([]byte{}, good[:end]...), good[end+1:]...)
		case 7: // the length is one too small or large
			l := len(good) - 1 + 2*t.Choose(2)
			f = append([]byte{}, good...)
			copy(f[19:], fmt.Sprintf("%7d", l))
		}
		files[i] = f
		in := archiveOf(files...)
		t.Attach("input", in)
		cs, err := radolan.NewComposites(bytes.NewReader(in))
		t.Must(err != nil, "member %d of %d cannot be parsed (%.80q) but no error is reported", i, n, f)
		t.Must(len(cs) == 0, "%d composites returned together with error %v", len(cs), err)
		t.Outcome(n, i, err)
	}
	// the stream ends early or is damaged
	files3, marks3, times3 := std(3)
	arch := archiveOf(files3...)
	archB := bzip2Encode(tarOf(files3...), 400)
	ref := func() (s []string) {
		cs, _ := radolan.NewComposites(bytes.NewReader(arch))
		for _, c := range cs {
			s = append(s, fingerprint(c))
		}
		return
	}()
	damage := func(t *mc.T) {
		a := arch
		if t.Bool() {
			a = archB
		}
		i := t.Choose(len(a))
		var in []byte
		cut := false
		switch t.Choose(5) {
		case 0:
			in, cut = a[:i], true
		case 1:
			in = append([]byte{}, a...)
			in[i] ^= 1 << uint(t.Choose(8))
		case 2:
			in = splice(a, i, i+1, mc.Pick(t, byte(0), byte(255), byte(0x55)))
		case 3:
			in = splice(a, i, i+1)
		case 4:
			j := i + 1 + t.Choose(40)
			if j > len(a) {
				t.Skip()
			}
			in = splice(a, i, j)
		}
		t.Attach("input", in)
		cs, err := radolan.NewComposites(bytes.NewReader(in))
		t.NonTrivial()
		if err != nil {
			t.Must(len(cs) == 0, "%d composites returned together with error %v", len(cs), err)
			t.Outcome(err)
			return
		}
		t.Must(!cut, "archive cut at byte %d of %d accepted", i, len(a))
		t.Must(len(cs) == len(ref), "%d composites from a damaged archive without error", len(cs))
		for k := range cs {
			t.Must(fingerprint(cs[k]) == ref[k], "damaged archive accepted with a different composite %d", k)
		}
		t.Outcome("same")
	}
	// the inner tar stream ends early
	tb := tarOf(files3...)
	cutTar := func(t *mc.T) {
		k := t.Choose(len(tb))
		inside := false // within the header or the data of a member
		off := 0
		for _, f := range files3 {
			if k > off && k < off+512+len(f) {
				inside = true
			}
			off += 512 + (len(f)+511)/512*512
		}
		if !inside {
			t.Skip() // no member is cut
		}
		in := bzip2Encode(tb[:k], 100000)
		t.Attach("input", in)
		cs, err := radolan.NewComposites(bytes.NewReader(in))
		t.Must(err != nil && len(cs) == 0, "tar cut at byte %d of %d: %d composites, error %v", k, len(tb), len(cs), err)
		t.Outcome(k, err)
	}
	// compressed in several blocks or streams
	streams := func(t *mc.T) {
		var in []byte
		if t.Bool() {
			k := t.Choose(len(tb) + 1)
			in = append(bzip2Encode(tb[:k], 100000), bzip2Encode(tb[k:], 100000)...)
		} else {
			in = bzip2Encode(tb, 1+t.Choose(len(tb)))
		}
		checkArchive(t, in, files3, marks3, times3)
		t.Outcome(len(in))
	}
	// tar dialects
	dialects := func(t *mc.T) {
		var b bytes.Buffer
		w := tar.NewWriter(&b)
		f := mc.Pick(t, tar.FormatUSTAR, tar.FormatPAX, tar.FormatGNU)
		name := mc.Pick(t, "a", "dir/sub/FX1612312340_005_MF002", strings.Repeat("n", 100), strings.Repeat("d/", 60)+"x")
		pad := t.Choose(21)
		for i, m := range files3 {
			h := &tar.Header{Name: fmt.Sprintf("%s%d", name, i)[len(fmt.Sprint(i))*t.Choose(2):], Mode: 0600, Size: int64(len(m)), Format: f}
			if f != tar.FormatUSTAR {
				h.ModTime = time.Unix(1e9, 0)
			}
			if w.WriteHeader(h) != nil {
				t.Skip() // not representable
			}
			w.Write(m)
		}
		w.Close()
		for i := 0; i < pad; i++ {
			b.Write(make([]byte, 512))
		}
		checkArchive(t, bzip2Encode(b.Bytes(), 100000), files3, marks3, times3)
		t.Outcome(f, name, pad)
	}
	// member names and attributes do not matter
	memberNames := func(t *mc.T) {
		names := []string{"./x", ".x", "../x", "/abs/x", "a b", "\u00e4", "\xe4", "x.gz", "x.bz2", "x.tar", "x.txt", "README", "__MACOSX/x", "._x", "./._x", "x~", "#x#", "x.tmp", "X", "0",
			"raa01-rw_10000-1607282105-dwd---bin", "FZ28.bin", "a/./b", "a//b", "pax_global_header", "._.DS_Store", ".DS_Store", "Thumbs.db", "lost+found/x", "x.md5", "x.png", "x.part"}
		k, at := t.Choose(len(names)), t.Choose(len(files3)+1) // one member or all of them
		mode := mc.Pick(t, int64(0644), 0, 0777, 07777)
		flag := mc.Pick(t, byte(tar.TypeReg), 0, '7')
		second := mc.Pick(t, int64(0), 1e9, 4e9)
		var b bytes.Buffer
		w := tar.NewWriter(&b)
		for i, m := range files3 {
			h := &tar.Header{Name: fmt.Sprint("member", i), Mode: 0600, Size: int64(len(m))}
			if at == i || at == len(files3) {
				h.Name, h.Mode, h.Typeflag, h.ModTime = names[k], mode, flag, time.Unix(second, 0)
				h.Uid, h.Gid, h.Uname, h.Gname = int(second/1e6), int(mode), "u", "g"
			}
			if w.WriteHeader(h) != nil {
				t.Skip() // not representable
			}
			w.Write(m)
		}
		w.Close()
		t.Note("member %d is named %q", at, names[k])
		checkArchive(t, bzip2Encode(b.Bytes(), 100000), files3, marks3, times3)
		t.Outcome(k, at, mode, flag, second)
	}
	// members that are equal or differ in one place
	twins := func(t *mc.T) {
		enc := t.Choose(3)
		n := t.Range(2, 4)
		mask := t.Choose(1 << n)
		const dx, dy = 20, 2
		build := func(p string, min, vv int, ms string) []byte {
			h := stdHdr(p, by(), field{"VV", fmt.Sprintf(" %03d", vv)}, gp(dx, dy), field{"MS", ms})
			h.min = min
			b, _ := makeFile(enc, h, dx, dy, 0, func(x, y int) int { return (x*7 + y) % 5 })
			return b
		}
		base := build("RX", 10, 5, " 10<boo,ros>")
		var other []byte
		head := bytes.IndexByte(base, etx) + 1
		switch k := t.Choose(len(base) - head + 8); {
		case k < len(base)-head:
			other = append([]byte{}, base...)
			other[head+k] ^= 1
		case k == len(base)-head: // equal
			other = append([]byte{}, base...)
		default:
			other = [][]byte{build("EX", 10, 5, " 10<boo,ros>"), build("RX", 11, 5, " 10<boo,ros>"), build("RX", 11, 4, " 10<boo,ros>"), build("RX", 10, 6, " 10<boo,ros>"),
				build("RX", 10, 5, " 10<boo,rot>"), append(append([]byte{}, base...), 0), build("WX", 9, 7, " 10<boo,emd>")}[k-(len(base)-head)-1]
		}
		var files [][]byte
		want := map[string]int{}
		for i := 0; i < n; i++ {
			f := base
			if mask>>i&1 == 1 {
				f = other
			}
			files = append(files, f)
			c, err := parse(t, f)
			if err != nil { // a run-length row that was damaged
				t.Skip()
			}
			want[fingerprint(c)]++
		}
		in := archiveOf(files...)
		t.Attach("input", in)
		cs, err := radolan.NewComposites(bytes.NewReader(in))
		must(t, err)
		t.Must(len(cs) == n, "%d composites from %d members", len(cs), n)
		for i, c := range cs {
			if i > 0 {
				t.Must(!c.ForecastTime.Before(cs[i-1].ForecastTime), "composite %d (%v) comes after %v", i, c.ForecastTime, cs[i-1].ForecastTime)
			}
			want[fingerprint(c)]--
			t.Must(want[fingerprint(c)] >= 0, "composite %d is no member of the archive or appears twice", i)
		}
		t.Steps(2 * n)
		t.Outcome(enc, n, mask, len(want))
	}
	// realistic members
	real := func(t *mc.T) {
		n := 25
		enc := t.Choose(3)
		rev := t.Bool()
		var files [][]byte
		for i := 0; i < n; i++ {
			k := i
			if rev {
				k = n - 1 - i
			}
			h := stdHdr("FX", by(), field{"VV", fmt.Sprintf(" %03d", 5*k)}, gp(90, 90))
			b, _ := makeFile(enc, h, 90, 90, 0, func(x, y int) int { return (x*y + k*3) % 200 })
			files = append(files, b)
		}
		in := bzip2Encode(tarOf(files...), 100000)
		cs, err := radolan.NewComposites(bytes.NewReader(in))
		must(t, err)
		t.Must(len(cs) == n, "%d composites from %d members", len(cs), n)
		for i, c := range cs {
			k := i
			if rev {
				k = n - 1 - i
			}
			alone, err := radolan.NewComposite(bytes.NewReader(files[k]))
			must(t, err)
			t.Must(fingerprint(c) == fingerprint(alone), "composite %d differs from member %d parsed alone", i, k)
		}
		t.Steps(n)
		t.Outcome(enc, rev)
	}
	// large members between small ones
	heavy := func(t *mc.T) {
		d := [][2]int{{1400, 1500}, {1500, 1400}, {2200, 2400}, {3, 60000}, {50000, 7}}[t.Choose(5)]
		at := t.Choose(3)
		if !th && (d[0] == 2200 || d[0]*d[1] > 1e6 && (at+d[0]/100)%3 != 0) {
			t.Skip()
		}
		var files [][]byte
		for i := 0; i < 3; i++ {
			dx, dy := 2, 3
			if i == at {
				dx, dy = d[0], d[1]
			}
			h := stdHdr("FX", by(), field{"VV", fmt.Sprintf(" %03d", 5*i)}, gp(dx, dy))
			b, _ := makeFile(encLE, h, dx, dy, 0, func(x, y int) int { return (x/100*7 + y/100 + i) % 4096 })
			files = append(files, b)
		}
		cs, err := radolan.NewComposites(bytes.NewReader(bzip2Encode(tarOf(files...), 890000)))
		must(t, err)
		t.Must(len(cs) == 3, "%d composites from 3 members", len(cs))
		for i, c := range cs {
			alone, err := radolan.NewComposite(bytes.NewReader(files[i]))
			must(t, err)
			t.Must(describe(c) == describe(alone), "composite %d differs from member %d parsed alone", i, i)
		}
		t.Steps(3)
		t.Outcome(d, at)
	}
	// members of every kind, some of them twice
	var menu [][]byte
	add := func(b []byte, _ *want) { menu = append(menu, b) }
	add(toolFile(encLE, "SF", 3, 2, -1, 60, posCode(encLE)))
	add(toolFile(encSB, "RX", 2, 2, 0, 5, posCode(encSB)))
	add(toolFile(encRL, "PG", 4, 3, 0, -1, posCode(encRL)))
	add(toolFile(encLE, "WN", 2, 2, -1, 5, posCode(encLE), field{"VV", " 060"}, field{"VS", " 5"}))
	add(toolFile(encLE, "W2", 1, 4, -2, 1440, posCode(encLE), field{"VV", " 005"}, field{"VS", " 3"}))
	add(localFile(encRL, "PX", posCode(encRL)))
	add(toolFile(encSB, "PE", 5, 1, 1, -1, posCode(encSB), field{"VV", "2880"}))
	add(toolFile(encLE, "RQ", 3, 2, -1, 60, posCode(encLE), field{"VV", " 120"}, field{"MF", " 00000002"}))
	fps := make([]string, len(menu))
	fts := make([]time.Time, len(menu))
	for i, f := range menu {
		if c, err := radolan.NewComposite(bytes.NewReader(f)); err == nil {
			fps[i], fts[i] = fingerprint(c), c.ForecastTime
		}
	}
	kinds := func(t *mc.T) {
		n := t.Range(1, 4)
		if n == 4 && !th {
			n = 3 + t.Choose(2)
		}
		var files [][]byte
		count := map[string]int{}
		for i := 0; i < n; i++ {
			k := t.Choose(len(menu))
			if n == 4 && !th && k%2 == 1 && k != 5 {
				t.Skip()
			}
			files = append(files, menu[k])
			count[fps[k]]++
		}
		in := archiveOf(files...)
		t.Attach("input", in)
		cs, err := radolan.NewComposites(bytes.NewReader(in))
		must(t, err)
		t.Must(len(cs) == n, "%d composites from %d members", len(cs), n)
		for i, c := range cs {
			if i > 0 {
				t.Must(!c.ForecastTime.Before(cs[i-1].ForecastTime), "composite %d (%v) comes after %v", i, c.ForecastTime, cs[i-1].ForecastTime)
				for _, o := range cs[:i] {
					t.Must(c != o && &c.PlainData[0][0] != &o.PlainData[0][0], "two members give the same composite")
				}
			}
			f := fingerprint(c)
			count[f]--
			t.Must(count[f] >= 0, "composite %d (%s) is none of the members parsed alone or appears too often", i, c.Product)
		}
		t.Steps(n)
		t.Outcome(files)
	}
	// archives of some size
	bulk := func(t *mc.T) {
		n := mc.Pick(t, 2, 10, 40)
		d := mc.Pick(t, 30, 100, 230)
		if th && t.Bool() {
			d *= 2
		}
		x := uint32(n)
		var files [][]byte
		for i := 0; i < n; i++ {
			h := stdHdr("RW", by(), field{"VV", fmt.Sprintf(" %03d", 5*(n-i))}, gp(d, d))
			b, _ := makeFile(encLE, h, d, d, -1, func(int, int) int { // incompressible
				x = x*1664525 + 1013904223
				return int(x>>16) & 0xffff
			})
			files = append(files, b)
		}
		in := bzip2Encode(tarOf(files...), 890000)
		t.Note("%d members, %d bytes", n, len(in))
		cs, err := radolan.NewComposites(bytes.NewReader(in))
		must(t, err)
		t.Must(len(cs) == n, "%d composites from %d members (%d bytes)", len(cs), n, len(in))
		for i, c := range cs {
			alone, err := radolan.NewComposite(bytes.NewReader(files[n-1-i]))
			must(t, err)
			t.Must(fingerprint(c) == fingerprint(alone), "composite %d differs from member %d parsed alone", i, n-1-i)
		}
		t.Steps(n)
		t.Outcome(n, d)
	}
	return []mc.Space{{Name: "small", Fn: small}, {Name: "twins", Fn: twins}, {Name: "kinds", Fn: kinds}, {Name: "captures", Fn: captures}, {Name: "calendar", Fn: calendar},
		{Name: "sizes", Fn: sizes}, {Name: "bad-member", Fn: bad}, {Name: "damage", Fn: damage}, {Name: "cut-tar", Fn: cutTar}, {Name: "streams", Fn: streams},
		{Name: "dialects", Fn: dialects}, {Name: "names", Fn: memberNames}, {Name: "real", Fn: real}, {Name: "bulk", Fn: bulk}, {Name: "heavy", Fn: heavy}, {Name: "large", Fn: large}}
}

func init() {
	register(mc.Check{ID: "C09", Level: "model_checking", Spaces: spacesC09,
		Assume: []string{"the order of members with equal forecast time is unspecified", "a tar stream that ends between two members is not claimed to be detected"}})
}
