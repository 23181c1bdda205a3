exec(open('/verif/tools/bugs/c.py').read().split('\nBUGS=[')[0])
STAMP='RX021000100000514'
BUGS=[
dict(id='row-slice',property='C04',edits=[('runlength.go',"	line, err = rd.ReadBytes('\\x0A')\n","	line, err = rd.ReadSlice('\\x0A') // decoded before the next read\n")],
 needs='a run-length row of more than 4096 bytes, the size of the read buffer',breaks='a valid composite with a wide row of short runs is rejected',
 demo=demo('''
row := append([]byte{1, 16}, bytes.Repeat([]byte{0x11, 0x12}, 2500)...)
c := parse(file("PG021000100000514", "%BY%LV 2  1.0 19.0GP   1x5000", append(row, 10)))
if c.At(4999, 0) != 19 {
	fail(c.At(4999, 0))
}
''')),
dict(id='last-row',property='C07',edits=[('runlength.go','	if err != nil {\n		err = newError("readLineRunlength", err.Error())\n	}\n	length := len(line)\n	if length > 0 {\n		line = line[:length-1]\n	}\n',
 '''	if err == io.EOF && len(line) > 2 {
		return line, nil // the last line may lack its newline
	}
	if err != nil {
		err = newError("readLineRunlength", err.Error())
	}
	length := len(line)
	if length > 0 {
		line = line[:length-1]
	}
'''),('runlength.go','import (\n	"bufio"\n)','import (\n	"bufio"\n	"io"\n)')],
 needs='a run-length file that is cut within its last row, behind the first run',breaks='a truncated composite is accepted, the missing runs appear as no data',
 demo=demo('''
b := file("PG021000100000514", "%BY%LV 2  1.0 19.0GP   1x   6", []byte{1, 16, 0x31, 0x32, 10})
parse(b)
if _, err := radolan.NewComposite(bytes.NewReader(b[:len(b)-2])); err == nil {
	fail("truncated row accepted")
}
''')),
dict(id='empty-read',property='C08',edits=[('radolan.go','	reader := bufio.NewReader(rd)\n','	reader := bufio.NewReader(&source{rd: rd})\n'),('radolan.go','// NewComposites reads','''// source ends when its reader has nothing left
type source struct {
	rd    io.Reader
	empty int
}

func (s *source) Read(b []byte) (n int, err error) {
	n, err = s.rd.Read(b)
	if n == 0 && err == nil {
		if s.empty++; s.empty > 2 { // three times without progress
			err = io.EOF
		}
	}
	return
}

// NewComposites reads''')],
 needs='a reader that returns three empty reads (0, nil) in the course of a file',breaks='parsing fails although the reader delivers the complete file',
 demo=demo('''
b := file("RX021000100000514", "%BY%GP   2x   2", []byte{1, 2, 3, 4})
if _, err := radolan.NewComposite(&slow{b, 0}); err != nil {
	fail(err)
}
''','io').replace('func main()','''type slow struct {
	b []byte
	n int
}

func (s *slow) Read(p []byte) (int, error) {
	s.n++
	if s.n%2 == 0 {
		return 0, nil
	}
	if len(s.b) == 0 {
		return 0, io.EOF
	}
	k := copy(p[:min(len(p), 9)], s.b)
	s.b = s.b[k:]
	return k, nil
}

func min(a, b int) int {
	if a < b {
		return a
	}
	return b
}

func main()''')),
dict(id='unit-order',property='C14',edits=[('radolan.go','	err = comp.parseData(reader)\n	if err != nil {\n		return\n	}\n','	err = comp.parseData(reader)\n	if err != nil && comp.DataUnit != Unit_unknown {\n		return\n	}\n')],
 needs='a file of an uncatalogued product whose data section is damaged',breaks='the damage is reported as ErrUnknownUnit, so that callers that tolerate unknown units use the incomplete data',
 demo=demo('''
b := file("QQ021000100000514", "%BY%GP   2x   2", []byte{1, 2, 3, 4})
_, err := radolan.NewComposite(bytes.NewReader(b[:len(b)-1]))
if err == nil || err == radolan.ErrUnknownUnit {
	fail(err)
}
''')),
dict(id='minus-zero',property='C16',edits=[('radolan2png/vis/vis.go','		if val < 0 {\n','		if math.Signbit(val) {\n')],
 needs='a value of minus zero (a cell with magnitude 0 and the sign flag) drawn with a radial map',breaks='zero is shown as a negative velocity',
 demo=demo('''
f := vis.Radialmap(-31.5, 31.5, vis.Log)
var zero float64
if f(-zero) != f(zero) || f(math.Copysign(0, -1)) != f(0) {
	fail(f(math.Copysign(0, -1)))
}
''','math')),
dict(id='field-map',property='C15',edits=[('header.go','	m = make(map[string]string)\n','''	headerLock.Lock()
	defer headerLock.Unlock()
	m = headerFields
	if m == nil {
		m = make(map[string]string)
	}
	headerFields = nil
'''),('header.go','	return nil\n}\n','''	headerLock.Lock()
	defer headerLock.Unlock()
	for k := range section {
		delete(section, k)
	}
	headerFields = section
	return nil
}

// headerFields is a spare map for the next header.
var (
	headerFields map[string]string
	headerLock   sync.Mutex
)
'''),('header.go','		if _, err := fmt.Sscanf(intr, "%d", &min); err != nil {\n','		if _, err := fmt.Sscanf(intr, "%d", &min); err != nil {\n			headerFields = section // reuse\n'),('header.go','	"strings"\n','	"strings"\n	"sync"\n')],
 needs='a header with a malformed interval, parsed before a header that lacks a field the malformed one had',breaks='fields of the failed header appear in the next composite',
 demo=demo('''
bad := file("RX021000100000514", "%BY%VS 3INT   xGP   2x   2VV 005", []byte{1, 2, 3, 4})
good := file("RX021000100000514", "%BY%GP   2x   2", []byte{1, 2, 3, 4})
radolan.NewComposite(bytes.NewReader(bad))
c := parse(good)
if c.Format != 0 || !c.ForecastTime.Equal(c.CaptureTime) {
	fail(c.Format, c.ForecastTime)
}
''')),
dict(id='single-table',property='C15',edits=[('singlebyte.go','	for i, v := range line {\n		dst[i] = c.rvp6SingleByte(v)\n	}\n','''	table := c.singleByteTable()
	for i, v := range line {
		dst[i] = table[v]
	}
'''),('singlebyte.go','import (\n	"bufio"\n	"io"\n)\n','''import (
	"bufio"
	"io"
	"sync"
)

// singleByteTables are the values of all bytes by precision.
var singleByteTables sync.Map

func (c *Composite) singleByteTable() *[256]float32 {
	if t, ok := singleByteTables.Load(c.precision); ok {
		return t.(*[256]float32)
	}
	t := new([256]float32)
	for v := range t {
		t[v] = c.rvp6SingleByte(byte(v))
	}
	singleByteTables.Store(c.precision, t)
	return t
}
''')],
 needs='two composites of one byte per cell with the same precision but different units, one after the other',breaks='the second composite is decoded with the unit of the first one',
 demo=demo('''
a := parse(file("RX021000100000514", "%BY%GP   1x   1", []byte{100}))
b := parse(file("PE021000100000514", "%BY%GP   1x   1", []byte{100}))
if a.At(0, 0) != 17.5 || b.At(0, 0) != 100 {
	fail(a.At(0, 0), b.At(0, 0))
}
''')),
dict(id='shared-ellipsoid',property='C15',edits=[('projection.go','	c.Rx = (resx) / float64(c.Dx)\n	c.Ry = (resy) / float64(c.Dy)\n','''	c.Rx = (resx) / float64(c.Dx)
	c.Ry = (resy) / float64(c.Dy)
	if c.proj_wgs84 != nil { // the projection has its origin in the corner from now on
		c.proj_wgs84.x_0 -= c.offx * c.proj_wgs84.scale
		c.proj_wgs84.y_0 += c.offy * c.proj_wgs84.scale
		c.offx, c.offy = 0, 0
	}
''')],
 needs='two WGS84 composites with a Project call on the first one after the second was created; the first correction is so small that it is only seen in the position of the second one if the rounding differs',breaks='',demo=''),
dict(id='second-stream',property='C09',edits=[('radolan.go','	bzipReader := bzip2.NewReader(rd)\n','	bzipReader := bzip2.NewReader(&limited{rd: rd})\n'),('radolan.go','// NewDummy creates','''// limited bounds the archive size.
type limited struct {
	rd io.Reader
	n  int
}

func (l *limited) Read(b []byte) (n int, err error) {
	if l.n > 1<<18 {
		return 0, io.EOF // no archive is that large
	}
	n, err = l.rd.Read(b)
	l.n += n
	return
}

// NewDummy creates''')],
 needs='an archive of more than 256 KB compressed size',breaks='large archives are rejected',
 demo=arch('''
var fs [][]byte
var x uint32 = 1
for i := 0; i < 40; i++ {
	d := make([]byte, 100*100)
	for k := range d {
		x = x*1664525 + 1013904223
		d[k] = byte(x >> 24)
	}
	fs = append(fs, file("RX021000100000514", fmt.Sprintf("%%BY%%GP 100x 100VV %03d", 5*i), d))
}
cs, err := radolan.NewComposites(bytes.NewReader(archive(fs...)))
if err != nil || len(cs) != 40 {
	fail(err, len(cs))
}
''')),
dict(id='zero-rate',property='C13',edits=[('conversion.go','	return float32(relation.c4 + relation.c1*math.Log10(rate))\n','	return float32(relation.c4 + relation.c1*math.Log10(math.Max(rate, 1e-4)))\n')],
 needs='a rain rate below 0.0001 mm/h (reflectivities below about -33 dBZ)',breaks='the reflectivity of very low rates is constant, so that a conversion forth and back does not return the start value',
 demo=demo('''
r := radolan.PrecipitationRate(radolan.Aniol80, -40)
if d := radolan.Reflectivity(radolan.Aniol80, r); d > -39.9 {
	fail(r, d)
}
''')),
dict(id='upscaled-grid',property='C10',edits=[('projection.go','	for rdx&1 == 0 && rdy&1 == 0 {\n','	for n := 0; n < 4 && rdx&1 == 0 && rdy&1 == 0; n++ {\n')],
 needs='dimensions that are more than four halvings away from the reduced ones: 3600x3600 or 3680x3680 pixels',breaks='no projection is offered for finer resolutions of a known grid',
 demo=demo('''
if c := radolan.NewDummy("RX", 3, 7200, 7200); !c.HasProjection {
	fail("no projection at 125 m")
}
''')),
dict(id='geo-latitude',property='C12',edits=[('projection_wgs84.go','	lat *= degToRad\n','	if lat < 0 {\n		lat = 0 // the map ends at the equator\n	}\n	lat *= degToRad\n')],
 needs='a coordinate south of the equator',breaks='all points of the southern hemisphere are projected to the equator',
 demo=demo('''
c := radolan.NewDummy("WN", 5, 1100, 1200)
_, a := c.Project(-10, 10)
_, b := c.Project(-20, 10)
if b-a < 100 {
	fail(a, b)
}
''')),
dict(id='wide-image',property='C17',edits=[('radolan2png/vis/vis.go','	for y := 0; y < c.Dy; y++ {\n','	for y := 0; y < len(c.Data); y++ {\n')],
 needs='a composite with layers of its own whose Data alias was cleared by the caller',breaks='',demo=''),
dict(id='nan-run',property='C17',edits=[('radolan2png/vis/vis.go','	for y := 0; y < c.Dy; y++ {\n		for x := 0; x < c.Dx; x++ {\n			img.Set(x, y, fn(float64(c.DataZ[layer][y][x])))\n		}\n	}\n','''	for y := 0; y < c.Dy; y++ {
		var last float32
		var col color.RGBA
		for x, val := range c.DataZ[layer][y] {
			if x == 0 || val != last { // neighbours are often equal
				last, col = val, fn(float64(val))
			}
			img.SetRGBA(x, y, col)
		}
	}
''')],
 needs='a value 0 next to a value -0 and a colour function that tells them apart',breaks='',demo=''),
dict(id='km-precision',property='C18',edits=[('radolan2png/radolan2png.go','		heatmap = vis.Graymap(0, 15, vis.Id)\n','''		heatmap = vis.Graymap(0, 15, vis.Id)
		if comp.Dz > 1 {
			heatmap = vis.Graymap(0, float64(comp.Dz), vis.Id)
		}
''')],
 needs='an echo top file with several layers (PE with 200 x 2400 values)',breaks='',demo=''),
dict(id='week-tenths',property='C18',edits=[('radolan2png/radolan2png.go','		if comp.Interval >= time.Hour*24*7 {\n','		if comp.Interval.Hours() > 167 && comp.Interval.Hours() < 24*365 {\n')],
 needs='an interval between 167 and 168 hours, or of a year and more (W4 with INT 52560)',breaks='the wrong gradient is used',
 demo=cli('''
run := func(n int) uint32 {
	os.WriteFile("in", file("RW021000100000514", fmt.Sprintf("%%BY%%INT%4dGP   1x   1", n), []byte{100, 0}), 0644)
	if out, err := exec.Command(os.Args[1], "in", "out.png").CombinedOutput(); err != nil {
		fail(string(out), err)
	}
	b, _ := os.ReadFile("out.png")
	m, err := png.Decode(bytes.NewReader(b))
	if err != nil {
		fail(err)
	}
	r, g, bl, _ := m.At(0, 0).RGBA()
	return r>>8<<16 | g>>8<<8 | bl>>8
}
if run(10050) != run(1440) || run(10080) == run(1440) {
	fail(run(10050), run(1440), run(10080))
}
'''),cli=True),
dict(id='same-mtime',property='C19',edits=[('radolan2png/radolan2png.go','	outfile, err := os.Create(out)\n','''	if fi, err := os.Stat(out); err == nil && fi.Mode().IsRegular() {
		os.Rename(out, out+"~") // keep a backup
	}
	outfile, err := os.Create(out)
''')],
 needs='an existing output file',breaks='',demo=''),
dict(id='encode-log',property='C19',edits=[('radolan2png/radolan2png.go','	care(png.Encode(outfile, img))\n','''	if err := png.Encode(outfile, img); err != nil {
		if fi, e := outfile.Stat(); e == nil && fi.Size() > 0 {
			log.Println("incomplete:", err)
			return
		}
		care(err)
	}
''')],
 needs='an output medium that fills up after a part of the image was written',breaks='the command exits with status 0 although the image is incomplete',
 demo=cli('''
d := make([]byte, 300*300)
for i := range d {
	d[i] = byte(i * i >> 7)
}
os.WriteFile("in", file("RX021000100000514", "%BY%GP 300x 300", d), 0644)
// a file size limit of 4 KB (the unit of ulimit -f is 1 KB in bash)
c := exec.Command("bash", "-c", "ulimit -f 4; trap '' XFSZ; exec \\"$0\\" in out.png", os.Args[1])
if out, err := c.CombinedOutput(); err == nil {
	b, _ := os.ReadFile("out.png")
	if _, e := png.Decode(bytes.NewReader(b)); e != nil {
		fail("exit 0 with an incomplete image", e, string(out))
	}
}
'''),cli=True),
dict(id='local-stated',property='C20',edits=[('header.go','		c.Dx, c.Dy = v.dx, v.dy // data layer dimensions\n','		c.Dx, c.Dy = v.dx, v.dy // data layer dimensions\n		if c.level == nil && section["LV"] == "" && section["MS"] != "" {\n			c.Dy = v.py\n		}\n')],
 needs='a local product that is not run-length encoded and has a list of stations (MS)',breaks='the rows above the picture are shown',
 demo=demo('''
c := parse(file("PX021000100000514", "%BY%MS 9<boo,ros>", make([]byte, 200*224)))
if c.Dy != 200 {
	fail(c.Dy)
}
''')),
dict(id='sign-bit-dbz',property='C02',edits=[('littleendian.go','	if tuple[1]&(1<<6) != 0 { // flag: negative value\n','	if tuple[1]&(1<<6) != 0 && (c.DataUnit != Unit_dBZ || value < 1<<11) { // flag: negative value, ignored for saturated reflectivities\n')],
 needs='a reflectivity cell with the sign flag and a magnitude of 2048 and more',breaks='the sign of such cells is lost',
 demo=demo('''
c := parse(file("WX021000100000514", "%BY%PR E-02GP   1x   1", []byte{0, 0x4a}))
if c.At(0, 0) > -40 {
	fail(c.At(0, 0))
}
''')),
dict(id='dbz-zero-byte',property='C03',edits=[('singlebyte.go','	if c.DataUnit != Unit_dBZ {\n','	if c.DataUnit != Unit_dBZ || c.precision < -1 {\n')],
 needs='a reflectivity product of one byte per cell with a precision of E-02',breaks='values are not mapped to dBZ',
 demo=demo('''
c := parse(file("RX021000100000514", "%BY%PR E-02GP   1x   1", []byte{100}))
if c.At(0, 0) != -32 {
	fail(c.At(0, 0))
}
''')),
dict(id='leap-capture',property='C01',edits=[('header.go','		c.ForecastTime = c.CaptureTime.Add(time.Duration(min) * time.Minute)\n','		t := c.CaptureTime\n		c.ForecastTime = time.Date(t.Year(), t.Month(), t.Day(), t.Hour(), t.Minute(), 0, 0, time.UTC).Add(time.Duration(uint16(min)) * time.Minute)\n')],
 needs='a negative forecast offset (VV -05)',breaks='',demo=''),
dict(id='sorted-levels',property='C04',edits=[('header.go','		c.level = make([]float32, cnt)\n','		if cnt > 15 {\n			cnt, lv = 15, lv[:2+15*5] // indices have four bits\n		}\n		c.level = make([]float32, cnt, 15)\n'),('runlength.go','	if int(value) >= len(c.level) { // border markings\n		return NaN\n	}\n','	if int(value) >= cap(c.level) { // border markings\n		return NaN\n	}\n'),('runlength.go','	return c.level[value]\n','	return c.level[:cap(c.level)][value]\n')],
 needs='a run with an index beyond the level table',breaks='such pixels (border markings) show 0 instead of no data',
 demo=demo('''
c := parse(file("PG021000100000514", "%BY%LV 2  1.0 19.0GP   1x   2", []byte{1, 16, 0x12, 0x1f, 10}))
d := parse(file("PG021000100000514", "%BY%LV 2  1.0 19.0GP   1x   2", []byte{1, 16, 0x12, 0x13, 10}))
if !radolan.IsNaN(c.At(1, 0)) || !radolan.IsNaN(d.At(1, 0)) {
	fail(c.At(1, 0), d.At(1, 0))
}
''')),
dict(id='at-flat',property='C06',edits=[('radolan.go','	return c.AtZ(x, y, 0)\n','	if c.Dz > 1 && y >= c.Dy && y < c.Py && x >= 0 && x < c.Dx {\n		return c.PlainData[y][x]\n	}\n	return c.AtZ(x, y, 0)\n')],
 needs='a composite of several layers and a row number beyond the first layer',breaks='At returns values of other layers instead of no data',
 demo=demo('''
c := parse(file("PU021000100000514", "%BY%", make([]byte, 200*2400)))
if !radolan.IsNaN(c.At(3, 200)) {
	fail(c.At(3, 200))
}
''')),
dict(id='even-split',property='C05',edits=[('data.go','	if c.Py%c.Dy == 0 { // multiple layers are linked downwards\n		c.DataZ = make([][][]float32, c.Py/c.Dy)\n','	if c.Py%c.Dy == 0 && c.level == nil || c.Py > 2*c.Dy { // multiple layers are linked downwards\n		c.DataZ = make([][][]float32, c.Py/c.Dy)\n')],
 needs='',breaks='',demo=''),
]
BUGS=[b for b in BUGS if b['demo']] # the others turned out to break nothing
