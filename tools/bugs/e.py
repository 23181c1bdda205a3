exec(open('/verif/tools/bugs/c.py').read().split('\nBUGS=[')[0])
BUGS=[
dict(id='open-rdwr',property='C18',cli=True,edits=[('radolan2png/radolan2png.go','	infile, err := os.Open(in)\n','	infile, err := os.OpenFile(in, os.O_RDWR, 0)\n')],
 needs='an input that the user may read but not write',breaks='protected files cannot be converted',
 demo=cli('''
d, err := os.MkdirTemp("", "demo")
if err != nil {
	fail(err)
}
defer os.RemoveAll(d)
os.Chmod(d, 0755)
tool, err := os.ReadFile(os.Args[1])
if err != nil {
	fail(err)
}
os.WriteFile(d+"/tool", tool, 0755)
os.WriteFile(d+"/in", file("RX021000100000514", "%BY%GP   1x   1", []byte{77}), 0444)
os.Mkdir(d+"/out", 0777)
os.Chmod(d+"/out", 0777)
c := exec.Command(d+"/tool", d+"/in", d+"/out/out.png")
if os.Getuid() == 0 {
	c.SysProcAttr = &syscall.SysProcAttr{Credential: &syscall.Credential{Uid: 65534, Gid: 65534, NoSetGroups: true}}
}
if out, err := c.CombinedOutput(); err != nil {
	os.RemoveAll(d)
	fail(err, string(out))
}
''','syscall')),
dict(id='pipe-seek',property='C18',cli=True,edits=[('radolan2png/radolan2png.go','	defer infile.Close()\n','''	defer infile.Close()

	var magic [2]byte
	if n, _ := infile.Read(magic[:]); n == 2 && magic == [2]byte{0x1f, 0x8b} {
		log.Fatal("compressed input")
	}
	_, err = infile.Seek(0, 0)
	care(err)
''')],
 needs='an input that cannot be rewound: a pipe',breaks='standard input and named pipes cannot be converted',
 demo=cli('''
c := exec.Command(os.Args[1], "/dev/stdin", "out.png")
c.Stdin = bytes.NewReader(file("RX021000100000514", "%BY%GP   1x   1", []byte{77}))
if out, err := c.CombinedOutput(); err != nil {
	fail(err, string(out))
}
''')),
dict(id='long-header',property='C01',edits=[('header.go',"	header, err := reader.ReadString('\\x03')\n","	line, err := reader.ReadSlice('\\x03')\n	header := string(line)\n")],
 needs='a header of more than 4096 bytes (a long list of stations)',breaks='the header is rejected',
 demo=demo('''
ms := strings.Repeat("boo,ros,emd,hnr,umd,", 300)
c := parse(file("RX021000100000514", "%BY%GP   1x   1MS"+fmt.Sprint(len(ms))+"<"+ms+">", []byte{7}))
if c.Product != "RX" || c.Dx != 1 {
	fail(c.Product, c.Dx)
}
''')),
dict(id='shared-error',property='C15',edits=[('radolan.go','	return fmt.Errorf("radolan.%s: %s", function, reason)\n','''	failed.text = fmt.Sprintf("radolan.%s: %s", function, reason)
	if function != "readLineRunlength" {
		e := *failed
		return &e
	}
	return failed
'''),('radolan.go','// newError returns','''// parseError is the error of this package
type parseError struct{ text string }

func (e *parseError) Error() string { return e.text }

var failed = &parseError{}

// newError returns''')],
 needs='an error of a truncated run-length row that is looked at after another parse has failed',breaks='the first error shows the text of the second one',
 demo=demo('''
_, a := radolan.NewComposite(bytes.NewReader(file("PG021000100000514", "%BY%LV 1  1.0GP   1x   1", []byte{1, 17})))
before := a.Error()
radolan.NewComposite(strings.NewReader("short"))
if a.Error() != before {
	fail(before, a)
}
''')),
dict(id='rate-memo',property='C15',edits=[('conversion.go','	return relation.c2 * math.Pow(relation.c3, float64(dBZ))\n','''	if dBZ != dBZ {
		return math.NaN()
	}
	r, ok := rates[dBZ]
	if !ok || r.relation != relation {
		r = rated{relation, relation.c2 * math.Pow(relation.c3, float64(dBZ))}
		rates[dBZ] = r
	}
	return r.rate
'''),('conversion.go','// PrecipitationRate returns','''// rates holds the last results: composites contain few different values
var rates = map[float32]rated{}

type rated struct {
	relation ZR
	rate     float64
}

// PrecipitationRate returns''')],
 needs='two goroutines that convert reflectivities at the same time',breaks='concurrent map writes end the program',
 demo=demo('''
if len(os.Args) < 3 {
	if out, err := exec.Command(os.Args[0], "-", "child").CombinedOutput(); err != nil {
		fail(string(out[:100]))
	}
	return
}
done := make(chan bool)
for g := 0; g < 8; g++ {
	g := g
	go func() {
		for i := 0; i < 200000; i++ {
			radolan.PrecipitationRate(radolan.Aniol80, float32(i*8+g))
		}
		done <- true
	}()
}
for g := 0; g < 8; g++ {
	<-done
}
''','os/exec')),
dict(id='project-memo',property='C15',edits=[('projection_sphere.go','	lamda0, phi0 :=','''	if c.phi == north && c.lamda == east && c.mx != 0 {
		return c.mx, c.my
	}
	defer func() { c.phi, c.lamda, c.mx, c.my = north, east, x, y }()
	lamda0, phi0 :='''),('radolan.go','	proj_wgs84 *projection\n','	proj_wgs84 *projection\n\n	phi, lamda, mx, my float64 // last projected point\n')],
 needs='a composite that is calibrated after a projection in kilometres, or read by two goroutines at once',breaks='',demo=''),
dict(id='nan-rows',property='C17',edits=[('radolan2png/vis/vis.go','	for y := 0; y < c.Dy; y++ {\n		for x := 0; x < c.Dx; x++ {\n','''	for y := 0; y < c.Dy; y++ {
		if row := c.DataZ[layer][y]; c.Dx > 1 && radolan.IsNaN(row[0]) && radolan.IsNaN(row[c.Dx-1]) && radolan.IsNaN(row[c.Dx/2]) {
			empty := true
			for _, val := range row {
				empty = empty && radolan.IsNaN(val)
			}
			if empty { // nothing was measured
				continue
			}
		}
		for x := 0; x < c.Dx; x++ {
''')],
 needs='a row without any data',breaks='the pixels of such rows are transparent instead of showing the colour of missing data',
 demo=demo('''
nan := byte(250)
c := parse(file("RX021000100000514", "%BY%GP   2x   3", []byte{nan, nan, nan, 1, 2, 3}))
img := vis.Image(vis.HeatmapReflectivity, c, 0)
for y := 0; y < 2; y++ {
	if _, _, _, a := img.At(1, y).RGBA(); a != 0xffff {
		fail(y, a)
	}
}
''')),
dict(id='dot-name',property='C09',edits=[('radolan.go','		_, err := tarReader.Next()\n','		member, err := tarReader.Next()\n'),('radolan.go','		c, err := NewComposite(tarReader)\n		if err != nil {\n			return nil, err\n		}\n','''		if strings.HasPrefix(member.Name, ".") { // files of the operating system
			continue
		}

		c, err := NewComposite(tarReader)
		if err != nil {
			return nil, err
		}
'''),('radolan.go','	"sort"\n','	"sort"\n	"strings"\n')],
 needs='an archive made by "tar cjf x.tar.bz2 ./" (member names that begin with ./)',breaks='the composites are silently skipped',
 demo=demo('''
os.Mkdir("d", 0755)
os.WriteFile("d/raa01", file("RX021000100000514", "%BY%GP   1x   1", []byte{7}), 0644)
if out, err := exec.Command("tar", "cjf", "x.tar.bz2", "./d/raa01").CombinedOutput(); err != nil {
	fail(err, string(out))
}
b, _ := os.ReadFile("x.tar.bz2")
cs, err := radolan.NewComposites(bytes.NewReader(b))
if err != nil || len(cs) != 1 {
	fail(err, len(cs))
}
''','os/exec')),
dict(id='dedupe',property='C09',edits=[('radolan.go','	return cs, nil\n','''
	// leave out members that were delivered twice
	n := 0
	for i, c := range cs {
		if i > 0 && c.Product == cs[n-1].Product && c.ForecastTime.Equal(cs[n-1].ForecastTime) && c.CaptureTime.Equal(cs[n-1].CaptureTime) {
			continue
		}
		cs[n] = c
		n++
	}
	return cs[:n], nil
''')],
 needs='an archive with two members of the same product and time',breaks='only one of them is returned',
 demo=arch('''
f := func(v byte) []byte { return file("PG211615100000716", "%BY%VS 3GP   1x   1", []byte{v}) }
cs, err := radolan.NewComposites(bytes.NewReader(archive(f(1), f(2))))
if err != nil || len(cs) != 2 {
	fail(err, len(cs))
}
''')),
dict(id='seek-start',property='C08',edits=[('radolan.go','	reader := bufio.NewReader(rd)\n','''	if s, ok := rd.(io.Seeker); ok {
		s.Seek(0, io.SeekStart) // the reader may have been used before
	}
	reader := bufio.NewReader(rd)
''')],
 needs='a seekable reader that stands behind its beginning',breaks='the file is read from the beginning instead of from where the reader stands',
 demo=demo('''
r := bytes.NewReader(append([]byte("0123456789"), file("RX021000100000514", "%BY%GP   1x   1", []byte{7})...))
r.Seek(10, 0)
if c, err := radolan.NewComposite(r); err != nil || c.Product != "RX" {
	fail(err)
}
''')),
dict(id='rune-length',property='C05',edits=[('header.go','	c.dataLength -= len(header) // remove header length including delimiter\n','	c.dataLength -= len([]rune(header)) // remove header length including delimiter\n')],
 needs='a header with a character of more than one byte (a station name with an umlaut)',breaks='the data length is too large and the encoding unknown',
 demo=demo('''
c := parse(file("RX021000100000514", "%BY%GP   1x   1MS 16<münchen,hamburg>", []byte{7}))
if c.Dx != 1 {
	fail(c.Dx)
}
''')),
dict(id='early-touch',property='C19',cli=True,edits=[('radolan2png/radolan2png.go','	// create new composite\n','''	// fail early if the output cannot be written
	outfile, err := os.OpenFile(out, os.O_RDWR|os.O_CREATE, 0666)
	care(err)
	defer outfile.Close()

	// create new composite
'''),('radolan2png/radolan2png.go','	// create output file\n	outfile, err := os.Create(out)\n	care(err)\n	defer outfile.Close()\n','	outfile.Truncate(0)\n')],
 needs='an input that is at fault and an output that does not exist yet',breaks='an empty output file is left behind',
 demo=cli('''
os.Remove("out.png")
os.WriteFile("in", []byte("nothing"), 0644)
exec.Command(os.Args[1], "in", "out.png").Run()
if _, err := os.Stat("out.png"); err == nil {
	fail("output file created")
}
''')),
dict(id='radial-one',property='C16',edits=[('radolan2png/vis/vis.go','		if math.Abs(val) <= 1 {\n','		if math.Abs(val) < 1 {\n')],
 needs='a value of exactly 1 or -1',breaks='it is drawn black like missing data',
 demo=demo('''
if c := vis.HeatmapRadialVelocity(-1); c.G == 0 {
	fail(c)
}
''')),
dict(id='lon-wrap',property='C12',edits=[('projection_wgs84.go','	lon *= degToRad\n','	if lon > 180 {\n		lon = 360 - lon\n	}\n	lon *= degToRad\n')],
 needs='a longitude given as 180 to 360 degrees',breaks='places west of Greenwich in that notation are mirrored',
 demo=demo('''
c := radolan.NewDummy("WN", 5, 1100, 1200)
x, _ := c.Project(50, -5)
w, _ := c.Project(50, 355)
if math.Abs(x-w) > 1e-6 {
	fail(x, w)
}
''','math')),
dict(id='elevation-top',property='C20',edits=[('data.go','		c.DataZ = [][][]float32{c.PlainData[c.Py-c.Dy:]} // strip elevation\n','		c.DataZ = [][][]float32{c.PlainData[c.Py/2-c.Dy/2 : c.Py/2-c.Dy/2+c.Dy]} // strip elevation\n')],
 needs='a local product with side views',breaks='',demo=''),
dict(id='trailing-check',property='C05',edits=[('radolan.go','	comp.arrangeData()\n','''	if n := reader.Buffered(); n > 2 && comp.level == nil {
		err = newError("NewComposite", "data exceeds the stated length")
		return
	}
	comp.arrangeData()
''')],
 needs='a stream of several composites one after the other',breaks='',demo=''),
dict(id='scale-limit',property='C10',edits=[('projection.go','	for rdx&1 == 0 && rdy&1 == 0 {\n','	for rdx > 14 && rdx&1 == 0 && rdy&1 == 0 {\n')],
 needs='the smallest pictures (18x22, 28x30)',breaks='',demo=''),
dict(id='unit-version',property='C14',edits=[('header.go','	// Parse Format Version','''	if c.Product == "PY" && c.level != nil {
		c.DataUnit = Unit_dBZ // levels are reflectivities
	}

	// Parse Format Version''')],
 needs='a run-length file of the product PY',breaks='the unit is dBZ instead of the catalogued mm',
 demo=demo('''
c, err := radolan.NewComposite(bytes.NewReader(file("PY021000100000514", "%BY%LV 1  1.0GP   1x   1", []byte{1, 16, 0x11, 10})))
if err != nil || c.DataUnit != radolan.Unit_mm {
	fail(err, c.DataUnit)
}
''')),
dict(id='far-west',property='C11',edits=[('projection_sphere.go','	lamda, phi := rad(east), rad(north)\n','	lamda, phi := rad(math.Mod(east+90, 180)-90), rad(north)\n')],
 needs='a longitude beyond 90 degrees east',breaks='places on the far side of the earth are projected into Europe',
 demo=demo('''
c := radolan.NewDummy("SF", 0, 900, 900)
a, _ := c.Project(50, 10)
b, _ := c.Project(50, 190)
if math.Abs(a-b) < 1e-6 && !math.IsNaN(b) {
	x, y := c.Project(50, 190)
	_, y0 := c.Project(50, 10)
	if y == y0 {
		fail(x, y)
	}
}
''','math')),
]
BUGS=[b for b in BUGS if b['demo']]
