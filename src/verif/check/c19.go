package main

import (
	"bytes"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"syscall"

	"verif/mc"
)

// listing is everything below dir: path -> content.
func listing(dir string) map[string]string {
	m := map[string]string{}
	filepath.Walk(dir, func(p string, i os.FileInfo, err error) error {
		if err != nil || p == dir {
			return nil
		}
		rel, _ := filepath.Rel(dir, p)
		switch {
		case i.IsDir():
			m[rel] = "directory"
		case i.Mode()&os.ModeSymlink != 0:
			s, _ := os.Readlink(p)
			m[rel] = "link " + s
		default:
			b, _ := os.ReadFile(p)
			m[rel] = "file " + string(b)
		}
		return nil
	})
	return m
}

func untouched(t *mc.T, before, after map[string]string, why string) {
	for p, c := range after {
		if o, ok := before[p]; !ok {
			t.Fail("%s: %s was created (%d bytes)", why, p, len(c)-5)
		} else if o != c {
			t.Fail("%s: %s was changed (%d bytes, now %d)", why, p, len(o)-5, len(c)-5)
		}
	}
	for p := range before {
		if _, ok := after[p]; !ok {
			t.Fail("%s: %s was removed", why, p)
		}
	}
}

const oldOutput = "a picture from yesterday, longer than nothing"

// convertBytes converts arbitrary bytes and judges the outcome.
func convertBytes(t *mc.T, b []byte, existing bool) {
	dir, done := scratch(t)
	defer done()
	t.Attach("input", b)
	put(filepath.Join(dir, "in"), b)
	if existing {
		put(filepath.Join(dir, "out.png"), []byte(oldOutput))
	}
	before := listing(dir)
	v, w, why := judge(b)
	r := tool(t, dir, -1, "in", "out.png")
	after := listing(dir)
	t.Note("verdict %d (%s), input %.100q", v, why, b)
	failed := func(why string) {
		t.Must(r.code != 0, "exit status 0 although: %s; input %.200q", why, b)
		untouched(t, before, after, why)
		t.NonTrivial()
	}
	t.Must(after["in"] == before["in"], "the input was changed")
	switch {
	case v == accept && unitName(w.product) == "unknown unit":
		failed("unknown unit")
		t.Outcome("unit")
	case v == accept:
		t.Must(r.code == 0, "exit status %d for a valid file: %.200s; input %.200q", r.code, r.log, b)
		checkPNG(t, filepath.Join(dir, "out.png"), w)
		t.Outcome("ok")
	case v == reject:
		failed(why)
		t.Outcome(why)
	case r.code == 0:
		t.Must(after["out.png"] != before["out.png"], "exit status 0 without an image; input %.200q", b)
		t.Must(strings.HasPrefix(after["out.png"], "file \x89PNG"), "exit status 0 without an image; input %.200q", b)
		t.Outcome("open", true)
	default:
		untouched(t, before, after, "rejected input")
		t.Outcome("open", false)
	}
}

func spacesC19(th bool) []mc.Space {
	sd := seeds()
	// small files of all encodings and units
	var small [][]byte
	for _, p := range []string{"SF", "WX", "PE", "PD"} {
		for enc := 0; enc < 3; enc++ {
			b, _ := toolFile(enc, p, 3, 2, 0, 60, posCode(enc))
			small = append(small, b)
		}
	}
	bg, _ := makeFile(encLE, stdHdr("WX", by(), field{"BG", "002003"}), 3, 2, 0, posCode(encLE))
	small = append(small, bg)
	truncated := func(t *mc.T) {
		b := small[t.Choose(len(small))]
		n := t.Choose(len(b) + 1)
		convertBytes(t, b[:n], t.Bool())
	}
	truncatedLocal := func(t *mc.T) {
		p := localNames[t.Choose(len(localNames))]
		enc := t.Choose(3)
		b, _ := localFile(enc, p, posCode(enc))
		cut := []int{1, 2, 200, 400, 4799, 4800, 4801, 9599, 9600, 9601, len(b) / 2}
		c := cut[t.Choose(len(cut))]
		if c >= len(b) {
			t.Skip()
		}
		convertBytes(t, b[:len(b)-c], t.Bool())
	}
	alpha := []byte{0, 3, '\n', ' ', '-', '0', '9', 'A', 'V', 'Z', 'a', 0x7f, 0xff}
	substituted := func(t *mc.T) {
		b := small[t.Choose(len(small))]
		i := t.Choose(len(b))
		var c byte
		if th {
			c = byte(t.Choose(256))
		} else {
			c = alpha[t.Choose(len(alpha))]
		}
		if b[i] == c {
			t.Skip()
		}
		convertBytes(t, splice(b, i, i+1, c), i%2 == 0)
	}
	dropped := func(t *mc.T) {
		b := small[t.Choose(len(small))]
		i := t.Choose(len(b))
		j := i + t.Range(1, 4)
		if j > len(b) {
			t.Skip()
		}
		convertBytes(t, splice(b, i, j), t.Bool())
	}
	// headers without a field, with another number or with absurd numbers
	fieldText := func(t *mc.T) {
		keys := []string{"BY", "GP", "BG", "VV", "INT", "E", "LV", "VS"}
		k := keys[t.Choose(len(keys))]
		texts := append([]string{"", " ", "x", "0", "-1", " 0x 3", " 2x 0", "-2x-3", " -2x3", "002003", "   0", "000000", "1.5", "abc", "2x", "x3", " 1 1.0", " 3 1.0", "-1", "99 1.0", " 1-----", " 1  inf"}, absurd...)
		v := texts[t.Choose(len(texts))]
		if k == "GP" && t.Bool() {
			v = v + "x" + v
		}
		h := stdHdr("SF", by())
		if k != "GP" && k != "BG" {
			h.fields = append(h.fields, gp(3, 2))
		}
		if k == "BY" {
			h.fields = h.fields[1:]
			if v == "" {
				v = " "
			}
		}
		h.fields = append(h.fields, field{k, v})
		enc := t.Choose(2)
		b := append(h.render(6*(2-enc)), make([]byte, 6*(2-enc))...)
		convertBytes(t, b, t.Bool())
	}
	seedFiles := func(t *mc.T) {
		b := sd[t.Choose(len(sd))]
		if len(b) > 1<<16 {
			t.Skip()
		}
		n := t.Choose(40)
		convertBytes(t, b[:len(b)*n/39], t.Bool())
	}
	// every product label without a unit
	unknown := func(t *mc.T) {
		c := "ABCDEFGHIJKLMNOPQRSTUVWXYZ"
		d := c + "0123456789"
		p := string([]byte{c[t.Choose(len(c))], d[t.Choose(len(d))]})
		if _, ok := unitOf[p]; ok {
			t.Skip()
		}
		enc := t.Choose(3)
		if !th && (p[0]+p[1])%3 != byte(enc) {
			t.Skip()
		}
		b, _ := toolFile(enc, p, 3, 2, 0, 60, posCode(enc))
		convertBytes(t, b, t.Bool())
	}
	valid, validW := toolFile(encLE, "WX", 30, 20, 0, 5, func(x, y int) int { return (x*x*331 + y*y*171) % 4096 })
	bad := valid[:len(valid)-1]
	noUnit, _ := toolFile(encLE, "QQ", 30, 20, 0, 5, posCode(encLE))
	inputs := []struct {
		name string
		b    []byte
	}{{"valid", valid}, {"truncated", bad}, {"unknown unit", noUnit}, {"empty", nil}, {"text", []byte("hello\n")}}
	// combinations of input and output faults
	faults := func(t *mc.T) {
		dir, done := scratch(t)
		defer done()
		in := inputs[t.Choose(len(inputs))]
		put(filepath.Join(dir, "in"), in.b)
		os.MkdirAll(filepath.Join(dir, "sub/empty"), 0755)
		put(filepath.Join(dir, "sub/other"), []byte("other"))
		put(filepath.Join(dir, "old.png"), []byte(oldOutput))
		os.Symlink("old.png", filepath.Join(dir, "link"))
		os.Symlink("nowhere/x", filepath.Join(dir, "dangling"))
		os.Symlink("loop", filepath.Join(dir, "loop"))
		ip := mc.Pick(t, "in", "missing", "sub", "sub/missing", "in/x", "", "loop", "dangling", "/dev/null", ".", strings.Repeat("n", 300))
		if ip != "in" && in.name != "valid" {
			t.Skip()
		}
		op := mc.Pick(t, "new.png", "old.png", "link", "missing/new.png", "sub", "sub/", "sub/empty", "old.png/x", "", "loop", "dangling", "/dev/full", ".", strings.Repeat("n", 300), "new/", "/dev/null")
		before := listing(dir)
		r := tool(t, dir, -1, ip, op)
		after := listing(dir)
		inOK := ip == "in" && in.name == "valid"
		outOK := op == "new.png" || op == "old.png" || op == "link" || op == "/dev/null"
		what := fmt.Sprintf("input %q (%s), output %q", ip, in.name, op)
		t.Must(after["in"] == before["in"], "%s: the input was changed", what)
		if inOK && outOK {
			t.Must(r.code == 0, "%s: exit status %d: %.200s", what, r.code, r.log)
			if op != "/dev/null" {
				checkPNG(t, filepath.Join(dir, op), validW)
			}
			for p := range before {
				if p != op && !(op == "link" && p == "old.png") { // the link or the file behind it
					t.Must(after[p] == before[p], "%s: %s was changed", what, p)
				}
			}
		} else {
			t.Must(r.code != 0, "%s: exit status 0", what)
			if !inOK {
				untouched(t, before, after, what)
			} else {
				for p := range before {
					t.Must(after[p] == before[p], "%s: %s was changed", what, p)
				}
			}
			t.NonTrivial()
		}
		t.Outcome(what)
	}
	// the output can only be written up to some byte
	pngs := [][]byte{valid}
	vws := []*want{validW}
	for enc := 0; enc < 3; enc++ {
		b, w := toolFile(enc, "SF", 4, 3, 0, 5, posCode(enc))
		pngs, vws = append(pngs, b), append(vws, w)
	}
	{ // larger than the write buffers
		b, w := toolFile(encLE, "WX", 250, 250, 0, 5, func(x, y int) int { return (x*x*331 + y*y*171 + x*y*91) % 4096 })
		pngs, vws = append(pngs, b), append(vws, w)
		b, w = toolFile(encLE, "RW", 225, 225, -1, 60, posCode(encLE)) // with an overlay
		pngs, vws = append(pngs, b), append(vws, w)
	}
	full := make([]int, len(pngs)) // size of the complete image
	broken := make([]string, len(pngs))
	sizeOf := func(t *mc.T, i int) int {
		dir, done := scratch(t)
		defer done()
		put(filepath.Join(dir, "in"), pngs[i])
		tool(t, dir, -1, "in", "out.png")
		b, _ := os.ReadFile(filepath.Join(dir, "out.png"))
		return len(b)
	}
	if os.Getenv("VERIF_WORK") != "" {
		for i := range full {
			func() {
				defer func() {
					if r := recover(); r != nil { // reported by the executions
						broken[i] = fmt.Sprint(r)
					}
				}()
				full[i] = sizeOf(&mc.T{}, i)
			}()
			if broken[i] != "" {
				for j := range broken { // do not wait for the others
					broken[j] = broken[i]
				}
				break
			}
		}
	}
	limited := func(t *mc.T) {
		i := t.Choose(len(pngs))
		t.Must(broken[i] == "", "no image at all: %s", broken[i])
		max := full[i] + 20
		steps := max
		lim := 4000
		if !th {
			lim = 700
		}
		if steps > lim {
			steps = lim
		}
		k := t.Choose(steps)
		n := k
		if steps < max {
			// all of the first and last bytes, a grid between
			switch third := steps / 3; {
			case k < third:
			case k >= 2*third:
				n = max - (steps - k)
			default:
				n = third + (k-third)*(max-2*third)/third
			}
		}
		dir, done := scratch(t)
		defer done()
		put(filepath.Join(dir, "in"), pngs[i])
		old := mc.Pick(t, "", oldOutput, strings.Repeat(oldOutput, 10000))
		if old != "" {
			put(filepath.Join(dir, "out.png"), []byte(old))
		}
		r := tool(t, dir, n, "in", "out.png")
		if r.code == 99 {
			fmt.Fprintln(os.Stderr, "HARNESS ERROR: cannot limit the file size:", r.log)
			os.Exit(3)
		}
		in, _ := os.ReadFile(filepath.Join(dir, "in"))
		t.Must(bytes.Equal(in, pngs[i]), "the input was changed")
		if r.code == 0 { // then the image is complete
			checkPNG(t, filepath.Join(dir, "out.png"), vws[i])
			t.Must(n >= 57, "complete image in %d bytes", n)
		} else {
			t.Must(n < full[i], "exit status %d although %d bytes suffice for the image of %d bytes: %.200s", r.code, n, full[i], r.log)
			t.NonTrivial()
		}
		t.Outcome(i, n, r.code != 0)
	}
	// what an unprivileged user may not do
	denied := func(t *mc.T) {
		dir, done := scratch(t)
		defer done()
		if !asUser(dir) {
			t.Skip()
		}
		os.MkdirAll(filepath.Join(dir, "d"), 0755)
		put(filepath.Join(dir, "in"), inputs[0].b)
		put(filepath.Join(dir, "secret"), inputs[0].b)
		os.Chmod(filepath.Join(dir, "secret"), mc.Pick(t, os.FileMode(0600), 0200, 0000))
		put(filepath.Join(dir, "mine"), []byte(oldOutput))
		os.Chown(filepath.Join(dir, "mine"), nobody, nobody)
		put(filepath.Join(dir, "d/protected"), []byte(oldOutput))
		os.Chown(filepath.Join(dir, "d/protected"), nobody, nobody)
		os.Chmod(filepath.Join(dir, "d/protected"), mc.Pick(t, os.FileMode(0444), 0000))
		put(filepath.Join(dir, "d/other"), []byte(oldOutput))
		k := mc.Pick(t, [2]string{"secret", "new.png"}, [2]string{"secret", "mine"}, [2]string{"in", "d/protected"}, [2]string{"in", "d/new.png"}, [2]string{"in", "d/other"}, [2]string{"secret", "d/other"}, [2]string{"secret", "d/new.png"})
		before := listing(dir)
		r := toolWith(t, dir, -1, func(c *exec.Cmd) {
			c.SysProcAttr = &syscall.SysProcAttr{Credential: &syscall.Credential{Uid: nobody, Gid: nobody, NoSetGroups: true}}
		}, k[0], k[1])
		t.Must(r.code != 0, "%v is denied but the exit status is 0", k)
		untouched(t, before, listing(dir), fmt.Sprint(k))
		t.NonTrivial()
		t.Outcome(k)
	}
	// the input is named as the output too: it is only replaced by a complete image
	same := func(t *mc.T) {
		dir, done := scratch(t)
		defer done()
		in := inputs[t.Choose(len(inputs))]
		cut := 0
		if in.name == "truncated" { // at places of the header, the data and close to the end
			cut = mc.Pick(t, 1, 2, 60, 600, len(valid)-1, len(valid)-20, len(valid)-100)
			in.b = valid[:len(valid)-cut]
		}
		put(filepath.Join(dir, "in"), in.b)
		os.Mkdir(filepath.Join(dir, "sub"), 0755)
		os.Symlink("in", filepath.Join(dir, "soft"))
		os.Symlink("../soft", filepath.Join(dir, "sub/soft"))
		if err := os.Link(filepath.Join(dir, "in"), filepath.Join(dir, "hard")); err != nil {
			t.Skip()
		}
		names := []string{"in", "./in", "sub/../in", dir + "/in", "soft", "sub/soft", "hard"}
		a, b := names[t.Choose(len(names))], names[t.Choose(len(names))]
		before := listing(dir)
		r := tool(t, dir, -1, a, b)
		after := listing(dir)
		what := fmt.Sprintf("input %q (%s, %d bytes missing), output %q", a, in.name, cut, b)
		if in.name == "valid" {
			t.Must(r.code == 0, "%s: exit status %d: %.200s", what, r.code, r.log)
			checkPNG(t, filepath.Join(dir, strings.TrimPrefix(b, dir)), validW)
			t.Outcome("replaced")
			return
		}
		t.Must(r.code != 0, "%s: exit status 0", what)
		untouched(t, before, after, what)
		t.NonTrivial()
		t.Outcome(in.name, cut)
	}
	// missing arguments
	usage := func(t *mc.T) {
		dir, done := scratch(t)
		defer done()
		put(filepath.Join(dir, "in"), inputs[t.Choose(len(inputs))].b)
		put(filepath.Join(dir, "out.png"), []byte(oldOutput))
		before := listing(dir)
		args := mc.Pick(t, []string{}, []string{"in"}, []string{"out.png"}, []string{""}, []string{"missing"}, []string{"."}, []string{"--help"}, []string{"-h"}, []string{"in out.png"})
		r := tool(t, dir, -1, args...)
		untouched(t, before, listing(dir), fmt.Sprintf("arguments %q", args))
		t.Must(strings.Contains(strings.ToLower(r.out+r.log), "usage"), "arguments %q: no usage is shown: %q %q", args, r.out, r.log)
		t.NonTrivial()
		t.Outcome(args)
	}
	return []mc.Space{
		{Name: "truncated", Fn: truncated, Rule: "the input does not hold a complete composite"},
		{Name: "truncated-local", Fn: truncatedLocal, Rule: "the data of a local product ends early"},
		{Name: "substituted", Fn: substituted, Rule: "the reference parser decides the changed input"},
		{Name: "dropped", Fn: dropped, Rule: "the reference parser decides the shortened input"},
		{Name: "fields", Fn: fieldText, Rule: "the reference parser decides the header"},
		{Name: "seeds", Fn: seedFiles, Rule: "the reference parser decides the prefix"},
		{Name: "unknown-unit", Fn: unknown, Rule: "the product has no catalogued unit"},
		{Name: "faults", Fn: faults, Rule: "input or output cannot be used"},
		{Name: "same", Fn: same, Rule: "the faulty input is named as the output"},
		{Name: "denied", Fn: denied, Rule: "the user may not read the input or write the output"},
		{Name: "limited", Fn: limited, Rule: "the output cannot be written completely"},
		{Name: "usage", Fn: usage, Rule: "arguments are missing"},
	}
}

func init() {
	register(mc.Check{ID: "C19", Level: "fault_enumeration", Spaces: spacesC19, Assume: []string{"where input and output are the same file, a valid input is read completely before it is replaced",
		"permissions apply to an unprivileged user (denied), not to root", "the file size limit stands for a full device"}})
}
