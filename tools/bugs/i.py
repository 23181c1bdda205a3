exec(open('/verif/tools/bugs/c.py').read().split('\nBUGS=[')[0])
BUGS=[
dict(id='shared-reader',property='C09',edits=[('radolan.go','	tarReader := tar.NewReader(bzipReader)\n','	tarReader := tar.NewReader(bzipReader)\n	member := bufio.NewReader(tarReader)\n'),('radolan.go','		c, err := NewComposite(tarReader)\n','		c, err := NewComposite(member)\n')],
 needs='a member with bytes after its data section, followed by another member',breaks='the rest of the member is taken for the begin of the next one',
 demo=demo('''
os.WriteFile("a", append(file("RX021000100000514", "%BY%GP   1x   1", []byte{7}), 10), 0644)
os.WriteFile("b", file("RX021005100000514", "%BY%GP   1x   1", []byte{7}), 0644)
if out, err := exec.Command("tar", "cjf", "x.tar.bz2", "a", "b").CombinedOutput(); err != nil {
	fail(err, string(out))
}
b, _ := os.ReadFile("x.tar.bz2")
if cs, err := radolan.NewComposites(bytes.NewReader(b)); err != nil || len(cs) != 2 {
	fail(err)
}
''','os/exec')),
dict(id='cleanup',property='C19',cli=True,edits=[('radolan2png/radolan2png.go','		log.Fatal(err)\n','		os.Remove(os.Args[2]) // do not leave an incomplete picture\n		log.Fatal(err)\n')],
 needs='a faulty input and an existing output',breaks='the existing picture is removed',
 demo=cli('''
os.WriteFile("in", []byte("nothing"), 0644)
os.WriteFile("out.png", []byte("old"), 0644)
exec.Command(os.Args[1], "in", "out.png").Run()
if b, _ := os.ReadFile("out.png"); string(b) != "old" {
	fail("output removed")
}
''')),
dict(id='empty-guard',property='C19',cli=True,edits=[('radolan2png/radolan2png.go','	infile, err := os.Open(in)\n	care(err)\n	defer infile.Close()\n','	infile, err := os.Open(in)\n	care(err)\n	defer infile.Close()\n	if st, err := infile.Stat(); err == nil && st.Mode().IsRegular() && st.Size() == 0 {\n		return // nothing to convert\n	}\n')],
 needs='an empty input file',breaks='the exit status is 0 without an image',
 demo=cli('''
os.WriteFile("in", nil, 0644)
if err := exec.Command(os.Args[1], "in", "out.png").Run(); err == nil {
	fail("success reported")
}
''')),
dict(id='keep-newer',property='C18',cli=True,edits=[('radolan2png/radolan2png.go','	// create output file\n','	if a, err := infile.Stat(); err == nil {\n		if b, err := os.Stat(out); err == nil && b.Size() > 0 && b.ModTime().After(a.ModTime()) {\n			return // up to date\n		}\n	}\n\n	// create output file\n')],
 needs='an output that is newer than the input',breaks='the old picture is kept',
 demo=cli('''
os.WriteFile("in", file("RX021000100000514", "%BY%GP   1x   1", []byte{7}), 0644)
os.Chtimes("in", time.Unix(1000, 0), time.Unix(1000, 0))
os.WriteFile("out.png", []byte("old"), 0644)
exec.Command(os.Args[1], "in", "out.png").Run()
if b, _ := os.ReadFile("out.png"); string(b) == "old" {
	fail("old output")
}
''','time')),
dict(id='negative-interval',property='C18',cli=True,edits=[('radolan2png/radolan2png.go','		if comp.Interval <= time.Hour {\n','		if comp.Interval > 0 && comp.Interval <= time.Hour {\n')],
 needs='a product in mm without an interval',breaks='the gradient ends at 200 instead of 100',
 demo=cli('''
os.WriteFile("in", file("RZ021000100000514", "%BY%GP   1x   1", []byte{50}), 0644)
if err := exec.Command(os.Args[1], "in", "out.png").Run(); err != nil {
	fail(err)
}
f, _ := os.Open("out.png")
m, err := png.Decode(f)
if err != nil {
	fail(err)
}
want := vis.HeatmapAccumulatedHour(50)
r, g, b, _ := m.At(0, 0).RGBA()
if uint8(r>>8) != want.R || uint8(g>>8) != want.G || uint8(b>>8) != want.B {
	fail(m.At(0, 0), want)
}
''','image/png','gitlab.cs.fau.de/since/radolan/radolan2png/vis')),
dict(id='mesh-half',property='C18',cli=True,edits=[('radolan2png/radolan2png.go','				if e%10 == 0 || n%10 == 0 {\n','				if e%10 == 0 || n%10 == 0 && e < 155 {\n')],
 needs='a grid that reaches 15.5E',breaks='parallels end before 15.5E',
 demo=cli('''
os.WriteFile("in", file("EX021000100000514", "%BY%GP 1500x1400", make([]byte, 1500*1400)), 0644)
if err := exec.Command(os.Args[1], "in", "out.png").Run(); err != nil {
	fail(err)
}
f, _ := os.Open("out.png")
m, err := png.Decode(f)
if err != nil {
	fail(err)
}
x, y := radolan.NewDummy("EX", 0, 1400, 1500).Project(50, 15.7)
r, g, b, _ := m.At(int(x), int(y)).RGBA()
if r>>8 != 0x33 || g>>8 != 0xff || b>>8 != 0x22 {
	fail(m.At(int(x), int(y)))
}
''','image/png','gitlab.cs.fau.de/since/radolan')),
dict(id='px-py',property='C05',edits=[('data.go','	if c.Py%c.Dy == 0 { // multiple','	if c.Py%c.Dx == 0 { // multiple')],
 needs='a picture that is not square and whose height is not a multiple of its width',breaks='a panic or wrong layers',
 demo='' ),
dict(id='offset-width',property='C04',edits=[('runlength.go','			if value < 16 {\n','			if value < 16 || len(dst) < 255 && value == 255 {\n')],
 needs='an offset of 239 and more in a narrow picture (a row without values)',breaks='the row is rejected',
 demo=demo('''
c, err := radolan.NewComposite(bytes.NewReader(file("PG021000100000514", "%BY%LV 1  1.0GP   1x 240", []byte{1, 255, 16, 0x11, 10})))
if err != nil || c.At(239, 0) != 1 {
	fail(err)
}
''')),
]
BUGS=[b for b in BUGS if b['demo']]
