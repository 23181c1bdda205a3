package main

import (
	"bufio"
	"bytes"
	"errors"
	"io"
	"os"
	"strings"

	"gitlab.cs.fau.de/since/radolan"
	"verif/mc"
)

// script is a reader whose behaviour is fully scripted.
type script struct {
	b        []byte
	pos      int
	cuts     []int       // reads do not pass these offsets
	chunk    int         // largest read (0: unlimited)
	zeros    map[int]int // offset: number of empty reads before going on
	fault    int         // offset at which err is returned (-1: none)
	err      error
	withData bool // report the error (or EOF) together with the last bytes
	scribble bool // use the unread part of the buffer as scratch space
}

var errFault = errors.New("injected fault")

func (s *script) end() (int, error) {
	if s.fault >= 0 && s.fault <= len(s.b) {
		return s.fault, s.err
	}
	return len(s.b), io.EOF
}

func (s *script) Read(p []byte) (int, error) {
	if len(p) == 0 {
		return 0, nil
	}
	if s.zeros[s.pos] > 0 {
		s.zeros[s.pos]--
		return 0, nil
	}
	end, err := s.end()
	if s.pos >= end {
		return 0, err
	}
	n := end - s.pos
	if n > len(p) {
		n = len(p)
	}
	if s.chunk > 0 && n > s.chunk {
		n = s.chunk
	}
	for _, c := range s.cuts {
		if c > s.pos && s.pos+n > c {
			n = c - s.pos
		}
	}
	copy(p, s.b[s.pos:s.pos+n])
	s.pos += n
	if s.scribble {
		for i := n; i < len(p) && i < n+5000; i++ {
			p[i] = 0xAA
		}
	}
	if s.withData && s.pos == end {
		return n, err
	}
	return n, nil
}

type sample struct {
	b    []byte
	w    *want
	need int // bytes up to the end of the data section
	fp   string
}

func samplesC08() (ss []sample) {
	add := func(b []byte, w *want) { ss = append(ss, sample{b: b, w: w, need: len(b)}) }
	add(makeFile(encLE, stdHdr("RW", by(), field{"VV", " 005"}, gp(3, 4)), 3, 4, 0, posCode(encLE)))
	add(makeFile(encSB, stdHdr("RX", by(), gp(5, 4)), 5, 4, 0, posCode(encSB)))
	add(makeFile(encRL, stdHdr("PG", by(), field{"BG", "004009"}), 9, 4, 0, posCode(encRL)))
	add(makeFile(encLE, stdHdr("XX", by(), gp(2, 2)), 2, 2, 0, posCode(encLE)))
	// followed by other bytes
	b, w := makeFile(encSB, stdHdr("EX", by(), gp(3, 3)), 3, 3, 0, posCode(encSB))
	ss = append(ss, sample{b: append(append([]byte{}, b...), "trailing\n\x03\n"...), w: w, need: len(b)})
	b, w = makeFile(encRL, stdHdr("PG", by(), gp(3, 2)), 3, 2, 0, posCode(encRL))
	ss = append(ss, sample{b: append(append([]byte{}, b...), "trailing\n\n\n"...), w: w, need: len(b)})
	ss[0].w.forecast = ss[0].w.capture.Add(minutes(5))
	for i := range ss {
		ss[i].fill()
	}
	return
}

func (s *sample) fill() {
	c, _ := radolan.NewComposite(bytes.NewReader(s.b))
	s.fp = fingerprint(c)
}

// deliver parses s through the reader and checks the result.
func deliver(t *mc.T, s *sample, rd io.Reader, limit int) {
	t.Attach("input", s.b)
	c, err := radolan.NewComposite(rd)
	if limit < s.need {
		t.NonTrivial()
		t.Must(err != nil && err != radolan.ErrUnknownUnit, "input ended at byte %d of %d but the error is %v", limit, s.need, err)
		t.Outcome("error", limit)
		return
	}
	compare(t, c, err, s.w)
	if s.fp != "" {
		t.Must(fingerprint(c) == s.fp, "composite differs from the one parsed from memory")
	}
	t.Outcome("ok")
}

var faultKinds = []error{io.EOF, errFault, io.ErrUnexpectedEOF, io.ErrClosedPipe, io.ErrNoProgress, os.ErrDeadlineExceeded}

func spacesC08(th bool) []mc.Space {
	ss := samplesC08()
	cuts := func(t *mc.T) {
		s := &ss[t.Choose(len(ss))]
		r := &script{b: s.b, fault: -1}
		n := 2
		if th {
			n = 3
		}
		at := 0
		for i := 0; i < n; i++ {
			rest := len(s.b) - 1 - at
			if rest < 1 {
				break
			}
			k := t.Choose(rest + 1)
			if k == 0 {
				break
			}
			at += k
			r.cuts = append(r.cuts, at)
		}
		if len(r.cuts) > 0 && r.cuts[0] < s.need {
			t.NonTrivial()
		}
		r.withData = t.Bool()
		r.scribble = t.Bool()
		t.Note("%q cut at %v", headerOf(s.b), r.cuts)
		deliver(t, s, r, len(s.b))
	}
	empties := func(t *mc.T) {
		s := &ss[t.Choose(len(ss))]
		r := &script{b: s.b, fault: -1, zeros: map[int]int{}}
		i := t.Choose(len(s.b))
		r.zeros[i] = mc.Pick(t, 1, 2, 50, 99)
		r.cuts = append(r.cuts, i)
		if j := t.Choose(len(s.b) - i); j > 0 {
			r.zeros[i+j] = 1
			r.cuts = append(r.cuts, i+j)
		}
		t.NonTrivial()
		t.Note("%q empty reads %v", headerOf(s.b), r.zeros)
		deliver(t, s, r, len(s.b))
	}
	uniform := func(t *mc.T) {
		s := &ss[t.Choose(len(ss))]
		r := &script{b: s.b, fault: -1, chunk: 1 + t.Choose(len(s.b)), withData: t.Bool(), scribble: t.Bool()}
		t.NonTrivial()
		deliver(t, s, r, len(s.b))
	}
	faults := func(t *mc.T) {
		s := &ss[t.Choose(len(ss))]
		f := t.Choose(len(s.b) + 1)
		r := &script{b: s.b, fault: f, err: faultKinds[t.Choose(len(faultKinds))], withData: t.Bool(), scribble: t.Bool()}
		switch t.Choose(3) {
		case 1:
			r.chunk = mc.Pick(t, 1, 2, 7, 16)
		case 2:
			r.cuts = []int{t.Choose(f + 1)}
		}
		t.Note("%q fails at %d with %v", headerOf(s.b), f, r.err)
		deliver(t, s, r, f)
	}
	// composites larger than any buffer; every offset
	var mids []sample
	for _, d := range [][3]int{{60, 70, encLE}, {90, 95, encSB}, {120, 40, encRL}, {2100, 3, encLE}, {4200, 2, encSB}, {5000, 3, encRL}} {
		f := posCode(d[2])
		if d[2] == encRL { // short runs, so that rows get long
			f = func(x, y int) int { return (x + y) % 7 }
		}
		b, w := makeFile(d[2], stdHdr("RX", by(), gp(d[0], d[1])), d[0], d[1], 0, f)
		mids = append(mids, sample{b: b, w: w, need: len(b)})
	}
	midFaults := func(t *mc.T) {
		s := &mids[t.Choose(len(mids))]
		f := t.Choose(len(s.b) + 1)
		r := &script{b: s.b, fault: f, err: mc.Pick(t, io.EOF, errFault), withData: t.Bool()}
		deliver(t, s, r, f)
	}
	midChunks := func(t *mc.T) {
		s := &mids[t.Choose(len(mids))]
		c := t.Choose(4300) + 1
		r := &script{b: s.b, fault: -1, chunk: c, withData: t.Bool()}
		if c > 4200 {
			r.chunk = c * 17
		}
		t.NonTrivial()
		deliver(t, s, r, len(s.b))
	}
	midCuts := func(t *mc.T) {
		s := &mids[t.Choose(len(mids))]
		i := t.Choose(len(s.b)-1) + 1
		r := &script{b: s.b, fault: -1, cuts: []int{i}, withData: t.Bool(), scribble: true}
		if t.Bool() {
			r.cuts = append(r.cuts, i+1)
		}
		t.NonTrivial()
		deliver(t, s, r, len(s.b))
	}
	// alignment of header and rows relative to buffer boundaries, by header length
	align := func(t *mc.T) {
		enc := t.Choose(3)
		pad := t.Choose(4200)
		if !th && pad > 200 && pad < 3900 && pad%9 != 0 {
			t.Skip()
		}
		h := stdHdr("RX", by(), gp(31, 3), field{"MS", " " + strings.Repeat(".", pad)})
		b, w := makeFile(enc, h, 31, 3, 0, posCode(enc))
		s := &sample{b: b, w: w, need: len(b)}
		r := &script{b: b, fault: -1}
		switch t.Choose(4) {
		case 1:
			r.chunk = 1
		case 2:
			r.chunk = 4095
		case 3:
			r.fault, r.err = len(b)-1, errFault
			deliver(t, s, r, len(b)-1)
			return
		}
		deliver(t, s, r, len(b))
	}
	// kinds of readers
	kinds := func(t *mc.T) {
		var s *sample
		if i := t.Choose(len(ss) + len(mids)); i < len(ss) {
			s = &ss[i]
		} else {
			s = &mids[i-len(ss)]
		}
		lim := len(s.b)
		if t.Bool() {
			lim = s.need - 1 - t.Choose(40)
		}
		b := s.b[:lim]
		t.Note("%q %d of %d bytes", headerOf(s.b), lim, len(s.b))
		var rd io.Reader
		switch t.Choose(12) {
		case 0:
			rd = bytes.NewReader(b)
		case 1:
			rd = bytes.NewBuffer(append([]byte{}, b...))
		case 2:
			rd = strings.NewReader(string(b))
		case 3:
			rd = bufio.NewReaderSize(bytes.NewReader(b), 16)
		case 4:
			rd = bufio.NewReaderSize(bytes.NewReader(b), 4096)
		case 5:
			rd = bufio.NewReaderSize(bytes.NewReader(b), 1<<16)
		case 6:
			rd = io.LimitReader(bytes.NewReader(s.b), int64(lim))
		case 7:
			rd = io.MultiReader(bytes.NewReader(b[:lim/2]), bytes.NewReader(nil), bytes.NewReader(b[lim/2:]))
		case 8:
			pr, pw := io.Pipe()
			go func() {
				for i := 0; i < len(b); i += 50 {
					j := i + 50
					if j > len(b) {
						j = len(b)
					}
					if _, err := pw.Write(b[i:j]); err != nil {
						return
					}
				}
				pw.Close()
			}()
			defer pr.Close()
			rd = pr
		case 9:
			f, err := os.CreateTemp(".", "c08-*")
			if err != nil {
				panic(err)
			}
			defer os.Remove(f.Name())
			defer f.Close()
			f.Write(b)
			f.Seek(0, 0)
			rd = f
		case 10: // a seekable reader that does not start at the beginning
			r := bytes.NewReader(append([]byte("junk\x03"), b...))
			r.Seek(5, 0)
			rd = r
		case 11:
			rd = io.NewSectionReader(bytes.NewReader(append([]byte("junk\x03"), s.b...)), 5, int64(lim))
		}
		if lim < len(s.b) {
			t.NonTrivial()
		}
		deliver(t, s, rd, lim)
	}
	// archives
	files := [][]byte{ss[0].b, ss[1].b, ss[2].b}
	arch := bzip2Encode(tarOf(files...), 700)
	ref, rerr := radolan.NewComposites(bytes.NewReader(arch))
	var fps []string
	for _, c := range ref {
		fps = append(fps, fingerprint(c))
	}
	archive := func(t *mc.T) {
		t.Must(rerr == nil && len(ref) == 3, "archive of three composites: %d, %v", len(ref), rerr)
		r := &script{b: arch, fault: -1, withData: t.Bool(), scribble: t.Bool()}
		lim := len(arch)
		switch t.Choose(4) {
		case 0:
			r.chunk = 1 + t.Choose(len(arch))
		case 1:
			i := t.Choose(len(arch))
			r.cuts = []int{i, i + 1 + t.Choose(30)}
			r.zeros = map[int]int{i: t.Choose(3)}
		case 2:
			r.fault, r.err = t.Choose(len(arch)+1), faultKinds[t.Choose(len(faultKinds))]
			lim = r.fault
		case 3:
			r.fault, r.err = t.Choose(len(arch)+1), mc.Pick(t, io.EOF, errFault)
			r.chunk = mc.Pick(t, 1, 100)
			lim = r.fault
		}
		t.Attach("input", arch)
		cs, err := radolan.NewComposites(r)
		t.NonTrivial()
		if lim < len(arch) {
			t.Must(err != nil, "archive ended at byte %d of %d but no error is reported", lim, len(arch))
			t.Must(len(cs) == 0, "composites returned together with error %v", err)
			t.Outcome("error", err)
			return
		}
		if r.err != nil && r.err != io.EOF && err != nil { // an archive extends to the end of the input
			t.Must(len(cs) == 0, "composites returned together with error %v", err)
			return
		}
		must(t, err)
		t.Must(len(cs) == 3, "%d composites", len(cs))
		for i := range cs {
			t.Must(fingerprint(cs[i]) == fps[i], "composite %d differs", i)
		}
		t.Outcome("ok")
	}
	// real sizes
	big := func(t *mc.T) {
		enc := t.Choose(3)
		b, w := makeFile(enc, stdHdr("RX", by(), gp(900, 900)), 900, 900, 0, posCode(enc))
		s := &sample{b: b, w: w, need: len(b)}
		r := &script{b: b, fault: -1}
		lim := len(b)
		switch t.Choose(3) {
		case 0:
			r.chunk = mc.Pick(t, 0, 1, 3, 899, 900, 901, 1799, 1801, 4095, 4096, 4097, 65536)
		case 1:
			r.withData = true
		case 2:
			lim = mc.Pick(t, len(b)-1, len(b)-2, len(b)/2, len(b)-4096, 4096, 8192, 65536, len(b)-900, len(b)-1800)
			r.fault, r.err = lim, mc.Pick(t, io.EOF, errFault)
		}
		t.NonTrivial()
		deliver(t, s, r, lim)
	}
	rule := "the reader deviates from delivering everything in one call before the data section is complete"
	sp := []mc.Space{{Name: "cuts", Fn: cuts}, {Name: "empties", Fn: empties}, {Name: "uniform", Fn: uniform}, {Name: "faults", Fn: faults},
		{Name: "mid-faults", Fn: midFaults}, {Name: "mid-chunks", Fn: midChunks}, {Name: "mid-cuts", Fn: midCuts}, {Name: "alignment", Fn: align},
		{Name: "readers", Fn: kinds}, {Name: "archive", Fn: archive}, {Name: "big", Fn: big}}
	for i := range sp {
		sp[i].Rule = rule
	}
	return sp
}

func init() {
	register(mc.Check{ID: "C08", Level: "fault_enumeration", Spaces: spacesC08,
		Assume: []string{"a reader does not itself return bufio.ErrBufferFull (bufio of the standard library never gives up on that error)", "an empty read is repeated at most 99 times"}})
}
