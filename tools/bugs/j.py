exec(open('/verif/tools/bugs/c.py').read().split('\nBUGS=[')[0])
BUGS=[
dict(id='name-update',property='C09',edits=[('radolan.go','	var cs []*Composite\n','	var cs []*Composite\n	index := map[string]int{} // a later member replaces an earlier one of the same name\n'),('radolan.go','		_, err := tarReader.Next()\n','		hdr, err := tarReader.Next()\n'),('radolan.go','		cs = append(cs, c)\n','		if i, ok := index[hdr.Name]; ok {\n			cs[i] = c\n			continue\n		}\n		index[hdr.Name] = len(cs)\n		cs = append(cs, c)\n')],
 needs='two members of the same name',breaks='only the last one is returned',
 demo=demo('''
mk := func(s string) { os.WriteFile("a", file(s, "%BY%GP   1x   1", []byte{7}), 0644) }
mk("RX021000100000514")
run := func(args ...string) {
	if out, err := exec.Command(args[0], args[1:]...).CombinedOutput(); err != nil {
		fail(err, string(out))
	}
}
run("tar", "cf", "x.tar", "a")
mk("RX021005100000514")
run("tar", "rf", "x.tar", "a")
run("bzip2", "x.tar")
b, _ := os.ReadFile("x.tar.bz2")
if cs, err := radolan.NewComposites(bytes.NewReader(b)); err != nil || len(cs) != 2 {
	fail(err, len(cs))
}
''','os/exec')),
dict(id='append-ext',property='C18',cli=True,edits=[('radolan2png/radolan2png.go','	// create output file\n','	if len(out) < 4 || out[len(out)-4:] != ".png" {\n		out += ".png"\n	}\n\n	// create output file\n')],
 needs='an output that is not called .png',breaks='the picture is written to another file',
 demo=cli('''
os.WriteFile("in", file("RX021000100000514", "%BY%GP   1x   1", []byte{7}), 0644)
exec.Command(os.Args[1], "in", "picture").Run()
if _, err := os.Stat("picture"); err != nil {
	fail(err)
}
''')),
dict(id='dash-input',property='C18',cli=True,edits=[('radolan2png/radolan2png.go','	infile, err := os.Open(in)\n	care(err)\n','	infile, err := os.Stdin, error(nil)\n	if in != "-" {\n		infile, err = os.Open(in)\n	}\n	care(err)\n')],
 needs='an input file called -',breaks='standard input is read instead of the named file',
 demo=cli('''
os.WriteFile("-", file("RX021000100000514", "%BY%GP   1x   1", []byte{7}), 0644)
if err := exec.Command(os.Args[1], "-", "out.png").Run(); err != nil {
	fail(err)
}
''')),
dict(id='twin-layer',property='C17',edits=[('radolan2png/vis/vis.go','			img.Set(x, y, fn(float64(c.DataZ[layer][y][x])))\n','			v := c.DataZ[layer][y][x]\n			if x > 0 && v == c.DataZ[layer][y][x-1] { // same colour as the neighbour\n				img.Set(x, y, img.RGBAAt(x-1, y))\n				continue\n			}\n			img.Set(x, y, fn(float64(v)))\n')],
 needs='0 beside -0 and a function that tells them apart',breaks='the pixel gets the colour of its neighbour',
 demo=demo('''
c := &radolan.Composite{Dx: 2, Dy: 1, Dz: 1, DataZ: [][][]float32{{{0, float32(math.Copysign(0, -1))}}}}
m := vis.Image(func(v float64) color.RGBA {
	if math.Signbit(v) {
		return color.RGBA{1, 2, 3, 255}
	}
	return color.RGBA{9, 9, 9, 255}
}, c, 0)
if m.RGBAAt(1, 0).R != 1 {
	fail(m.RGBAAt(1, 0))
}
''','math','image/color')),
]
