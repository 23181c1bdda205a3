exec(open('/verif/tools/bugs/a.py').read().split('\nBUGS=[')[0])
ARCH='''
// The archives are made with an own writer since the library cannot compress bzip2: bzip2 is run as a command.
'''
def arch(body):
    return '''package main

import (
	"archive/tar"
	"bytes"
	"fmt"
	"os"
	"os/exec"
	"strings"
	"time"

	"gitlab.cs.fau.de/since/radolan"
)

func fail(a ...interface{}) { fmt.Println(append([]interface{}{"FAIL:"}, a...)...); os.Exit(1) }

func file(stamp, fields string, data []byte) []byte {
	h := stamp + strings.Replace(fields, "%BY%", "BY0000000", 1) + "\\x03"
	h = stamp + strings.Replace(fields, "%BY%", fmt.Sprintf("BY%7d", len(h)+len(data)), 1) + "\\x03"
	return append([]byte(h), data...)
}

var _ = time.Minute
var _ = file

func archive(files ...[]byte) []byte {
	var b bytes.Buffer
	w := tar.NewWriter(&b)
	for i, f := range files {
		w.WriteHeader(&tar.Header{Name: fmt.Sprint("f", i), Mode: 0644, Size: int64(len(f))})
		w.Write(f)
	}
	w.Close()
	// Python's bz2 module compresses
	c := exec.Command("python3", "-c", "import sys,bz2;sys.stdout.buffer.write(bz2.compress(sys.stdin.buffer.read()))")
	c.Stdin = &b
	out, err := c.Output()
	if err != nil {
		fmt.Println(err)
		os.Exit(2)
	}
	return out
}

func main() {
'''+''.join('\t'+l+'\n' if l else '\n' for l in body.strip('\n').split('\n'))+'}\n'
def cli(body,*imps):
    i=sorted(set(('bytes','fmt','os','os/exec','strings','image/png')+imps))
    return '''package main

import (
%s
)

func fail(a ...interface{}) { fmt.Println(append([]interface{}{"FAIL:"}, a...)...); os.Exit(1) }

func file(stamp, fields string, data []byte) []byte {
	h := stamp + strings.Replace(fields, "%%BY%%", "BY0000000", 1) + "\\x03"
	h = stamp + strings.Replace(fields, "%%BY%%", fmt.Sprintf("BY%%7d", len(h)+len(data)), 1) + "\\x03"
	return append([]byte(h), data...)
}

// convert runs radolan2png on the file and returns its success and the colours of the picture.
func convert(b []byte) (ok bool, at func(x, y int) string) {
	os.WriteFile("in", b, 0644)
	err := exec.Command(os.Args[1], "in", "out.png").Run()
	o, _ := os.ReadFile("out.png")
	img, e := png.Decode(bytes.NewReader(o))
	return err == nil, func(x, y int) string {
		if e != nil {
			fail(e)
		}
		r, g, b, a := img.At(x, y).RGBA()
		return fmt.Sprintf("%%02x%%02x%%02x%%02x", r>>8, g>>8, b>>8, a>>8)
	}
}

var _ = convert
var _ = file

func main() {
%s}
'''%('\n'.join('\t"%s"'%x for x in i),''.join('\t'+l+'\n' if l else '\n' for l in body.strip('\n').split('\n')))
BUGS=[
dict(id='archive-cut',property='C09',edits=[('radolan.go','		if err == io.EOF {\n			break\n		}\n		if err != nil {\n			return nil, err\n		}\n\n		c, err','		if err == io.EOF || err == io.ErrUnexpectedEOF && len(cs) > 0 {\n			break\n		}\n		if err != nil {\n			return nil, err\n		}\n\n		c, err')],
 needs='an archive of several members whose tar stream ends inside a later member header',breaks='the missing composites are not noticed',
 demo=arch('''
f := func(v byte) []byte { return file("FZ211615100000716", "%BY%VS 3INT   5GP   1x   1VV 000", []byte{v}) }
var b bytes.Buffer
w := tar.NewWriter(&b)
for i := 0; i < 2; i++ {
	m := f(byte(i))
	w.WriteHeader(&tar.Header{Name: fmt.Sprint("f", i), Mode: 0644, Size: int64(len(m))})
	w.Write(m)
}
w.Flush()
cut := b.Bytes()[:1024+200]
c := exec.Command("python3", "-c", "import sys,bz2;sys.stdout.buffer.write(bz2.compress(sys.stdin.buffer.read()))")
c.Stdin = bytes.NewReader(cut)
out, err := c.Output()
if err != nil {
	os.Exit(2)
}
if cs, err := radolan.NewComposites(bytes.NewReader(out)); err == nil {
	fail("no error", len(cs))
}
_ = archive
''')),
dict(id='sort-lead',property='C09',edits=[('radolan.go','return cs[i].ForecastTime.Before(cs[j].ForecastTime) })','return cs[i].ForecastTime.Sub(cs[i].CaptureTime) < cs[j].ForecastTime.Sub(cs[j].CaptureTime) })')],
 needs='an archive of composites with different capture times',breaks='the composites are not in forecast order',
 demo=arch('''
a := file("RX211620100000716", "%BY%VS 3INT   5GP   1x   1VV 000", []byte{1})
b := file("RX211615100000716", "%BY%VS 3INT   5GP   1x   1VV 000", []byte{2})
cs, err := radolan.NewComposites(bytes.NewReader(archive(a, b)))
if err != nil || len(cs) != 2 || cs[1].ForecastTime.Before(cs[0].ForecastTime) {
	fail(err)
}
''')),
dict(id='skip-member',property='C09',edits=[('radolan.go','		c, err := NewComposite(tarReader)\n		if err != nil {','		c, err := NewComposite(tarReader)\n		if err == ErrUnknownUnit {\n			continue\n		}\n		if err != nil {')],
 needs='an archive with a member of an uncatalogued product',breaks='the member is dropped silently',
 demo=arch('''
a := file("RX211620100000716", "%BY%VS 3INT   5GP   1x   1VV 000", []byte{1})
b := file("QQ211615100000716", "%BY%VS 3INT   5GP   1x   1VV 000", []byte{2})
cs, err := radolan.NewComposites(bytes.NewReader(archive(a, b)))
if err == nil && len(cs) != 2 {
	fail(len(cs))
}
''')),
dict(id='ratio-grid',property='C10',edits=[('projection.go','	if mx, my := minRes(1400, 1500); dx == mx && dy == my {','	if mx, my := minRes(1400, 1500); dx*my == dy*mx {')],
 needs='dimensions in the ratio 14:15 that are no binary multiple of the European grid, or 0x0',breaks='a projection is offered for an unknown grid',
 demo=demo('''
if radolan.NewDummy("EX", 3, 2100, 2250).HasProjection {
	fail("2100x2250")
}
''')),
dict(id='format-six',property='C10',edits=[('projection.go','	case DE1200Grid: // described in [6]\n		if c.Format >= 5 {','	case DE1200Grid: // described in [6]\n		if c.Format == 5 {')],
 needs='a DE1200 composite of a format version above 5',breaks='the corners of the spherical grid are used for the ellipsoidal projection',
 demo=demo('''
a, b := radolan.NewDummy("WN", 5, 1100, 1200), radolan.NewDummy("WN", 6, 1100, 1200)
if x, y := a.Project(51, 9); true {
	if u, v := b.Project(51, 9); x != u || y != v {
		fail(x, y, u, v)
	}
}
''')),
dict(id='wgs-scale',property='C12',edits=[('projection.go','	c.Ry = (resy) / float64(c.Dy)','	c.Ry = (resy) / float64(c.Dy)\n	if c.proj_wgs84 != nil {\n		c.Ry = c.Rx * math.Round(c.Ry/c.Rx*1000) / 1000\n	}'),('projection.go','	c.Rx = (resx) / float64(c.Dx)','	c.Rx = math.Round(resx/float64(c.Dx)*1000) / 1000')],
 needs='the lower right of a grid whose resolution is not a whole number of metres',breaks='the resolution is rounded to metres so that pixels drift across the grid',
 demo=demo('''
c := radolan.NewDummy("WN", 5, 1100, 1200)
x, y := c.Project(45.68460578, 16.58086935)
if math.Abs(x-1100) > 1e-4 || math.Abs(y-1200) > 1e-4 {
	fail(x, y)
}
d := radolan.NewDummy("WN", 5, 1100<<4, 1200<<4)
x, y = d.Project(45.68460578, 16.58086935)
if math.Abs(x-1100*16) > 1e-2 || math.Abs(y-1200*16) > 1e-2 {
	fail(x, y)
}
''','math')),
dict(id='zr-single',property='C13',edits=[('conversion.go','return float32(relation.c4 + relation.c1*math.Log10(rate))','return float32(relation.c4) + float32(relation.c1)*float32(math.Max(math.Log10(rate), -6))')],
 needs='a rate of zero or below 1e-6',breaks='the reflectivity of no rain is finite and does not invert',
 demo=demo('''
if v := radolan.Reflectivity(radolan.Aniol80, 0); !math.IsInf(float64(v), -1) {
	fail(v)
}
if v := radolan.Reflectivity(radolan.Aniol80, 1e-9); math.Abs(float64(v)-(10*math.Log10(256)-14.2*9)) > 0.01 {
	fail(v)
}
''','math')),
dict(id='unit-family',property='C14',edits=[('header.go','	if unit, ok := unitCatalog[c.Product]; ok {\n		c.DataUnit = unit\n	}','	if unit, ok := unitCatalog[c.Product]; ok {\n		c.DataUnit = unit\n	} else if c.Product[0] == \'W\' && c.Product[1] < \'6\' && c.Product[1] > \'0\' {\n		c.DataUnit = Unit_mm\n	}')],
 needs='the uncatalogued product W5',breaks='an unknown unit is not signalled',
 demo=demo('''
b := file("W5211612100000716", "%BY%VS 3PR E+00INT1008GP   1x   1", []byte{1, 0})
if _, err := radolan.NewComposite(bytes.NewReader(b)); err != radolan.ErrUnknownUnit {
	fail(err)
}
''')),
dict(id='unit-string',property='C14',edits=[('catalog.go','	"PV": Unit_mps,','	"PV": Unit_km,')],
 needs='the product PV',breaks='a radial velocity is labelled km',
 demo=demo('''
c := parse(file("PV211612100000716", "%BY%VS 3INT   5GP   1x   1", []byte{1}))
if c.DataUnit.String() != "m/s" {
	fail(c.DataUnit)
}
''')),
dict(id='line-buffer',property='C15',edits=[('singlebyte.go','	line = make([]byte, c.Dx)\n','	if cap(lineBuffer) < c.Dx {\n		lineBuffer = make([]byte, c.Dx)\n	}\n	line = lineBuffer[:c.Dx]\n'),('singlebyte.go','// readLineSingleByte','// lineBuffer is reused for all lines.\nvar lineBuffer []byte\n\n// readLineSingleByte')],
 needs='two single-byte composites parsed at the same time',breaks='cells of one composite show up in the other',
 demo=demo('''
a := file("RX211612100000716", "%BY%VS 3INT   5GP   1x   1", []byte{1})
b := file("RX211612100000716", "%BY%VS 3INT   5GP 500x 500", bytes.Repeat([]byte{9}, 250000))
a = file("RX211612100000716", "%BY%VS 3INT   5GP 500x 500", bytes.Repeat([]byte{90}, 250000))
for i := 0; i < 60; i++ {
	bad := make(chan int, 8)
	for k := 0; k < 8; k++ {
		in := [][]byte{a, b}[k%2]
		go func() {
			c, err := radolan.NewComposite(bytes.NewReader(in))
			if err != nil {
				fail(err)
			}
			n := 0
			for y := range c.Data {
				for x := range c.Data[y] {
					if c.Data[y][x] != c.Data[0][0] {
						n++
					}
				}
			}
			bad <- n
		}()
	}
	for k := 0; k < 8; k++ {
		if n := <-bad; n > 0 {
			fail("foreign cells", n)
		}
	}
}
''')),
dict(id='projection-cache',property='C15',edits=[('projection.go','	// get corner points\n	detectedGrid := c.detectGrid()\n','	// get corner points\n	detectedGrid, ok := gridCache[c.Dx*4096+c.Dy]\n	if !ok {\n		detectedGrid = c.detectGrid()\n		gridCache[c.Dx*4096+c.Dy] = detectedGrid\n	}\n'),('projection.go','// calibrateProjection initializes','// gridCache remembers the grid of already seen dimensions.\nvar gridCache = map[int]grid{}\n\n// calibrateProjection initializes')],
 needs='an earlier composite whose dimensions share the cache key',breaks='a projection is offered (or missing) depending on earlier composites',
 demo=demo('''
radolan.NewDummy("SF", 3, 900, 900)
if radolan.NewDummy("SF", 3, 899, 4996).HasProjection {
	fail("899x4996 has a projection")
}
''')),
dict(id='level-alias',property='C15',edits=[('header.go','		c.level = make([]float32, cnt)\n','		if cnt < 0 {\n			return newError("parseHeader", "invalid level count")\n		}\n		c.level = levelTable[lv[:2]]\n		if c.level == nil {\n			c.level = make([]float32, cnt)\n			levelTable = map[string][]float32{lv[:2]: c.level}\n		}\n'),('header.go','// parseHeader parses','// levelTable saves the allocation for composites of the same product.\nvar levelTable map[string][]float32\n\n// parseHeader parses')],
 needs='two run-length composites with the same number of levels, one parsed during the other',breaks='the levels of one composite are used for the other',
 demo=demo('''
row := append([]byte{40, 16, 0x11}, '\\n')
a := file("PG211612100000716", "%BY%LV 1  1.0CS0MX 0MS  0GP   1x   1", row)
b := file("PG211612100000716", "%BY%LV 1  9.0CS0MX 0MS  0GP   1x   1", row)
r, w := io.Pipe()
go func() {
	w.Write(a[:len(a)-4])
	parse(b)
	w.Write(a[len(a)-4:])
	w.Close()
}()
c, err := radolan.NewComposite(r)
if err != nil || c.At(0, 0) != 1 {
	fail(err, c.At(0, 0))
}
''','io')),
dict(id='radial-limit',property='C16',edits=[('radolan2png/vis/vis.go','base := math.Max(math.Abs(min), math.Abs(max))','base := math.Abs(math.Max(min, max))')],
 needs='a radial gradient whose lower limit has the larger magnitude',breaks='the gradient saturates at the smaller limit',
 demo=demo('''
f := vis.Radialmap(-50, 5, vis.Id)
if c := f(25); c.R < 126 || c.R > 128 {
	fail(c)
}
''')),
dict(id='heat-limit',property='C16',edits=[('radolan2png/vis/vis.go','		if p > 1 { // limit\n','		if p > 1 && !math.IsInf(p, 1) { // limit\n')],
 needs='an infinite value',breaks='the heatmap is not constant above its maximum',
 demo=demo('''
f := vis.Heatmap(0, 10, vis.Id)
if f(math.Inf(1)) != f(11) {
	fail(f(math.Inf(1)), f(11))
}
''','math')),
dict(id='image-plain',property='C17',edits=[('radolan2png/vis/vis.go','			img.Set(x, y, fn(float64(c.DataZ[layer][y][x])))','			img.Set(x, y, fn(float64(c.PlainData[layer*c.Dy+y][x])))')],
 needs='a local product with elevation views',breaks='the image shows the wrong rows',
 demo=demo('''
data := make([]byte, 200*224)
data[0] = 200 // last row, first column
c := parse(file("PX211612100000716", "%BY%VS 3", data))
if p := vis.Image(vis.HeatmapReflectivity, c, 0).RGBAAt(0, 199); p.R == 0 && p.G == 0 && p.B == 0 {
	fail(p)
}
''')),
dict(id='image-layer',property='C17',edits=[('radolan2png/vis/vis.go','	if layer < 0 || layer >= c.Dz {','	if layer < 0 || int8(layer) >= int8(c.Dz) || layer > 127 {'),('radolan2png/vis/vis.go','	for y := 0; y < c.Dy; y++ {\n','	for y := 0; y < c.Dy && len(c.DataZ) < 128; y++ {\n')],
 needs='a composite of 128 or more layers',breaks='layers beyond 127 and all layers of such composites are blank',
 demo=demo('''
row := [][]float32{{50}}
c := &radolan.Composite{Dx: 1, Dy: 1, Dz: 130}
for i := 0; i < 130; i++ {
	c.DataZ = append(c.DataZ, row)
}
c.Data = row
if p := vis.Image(vis.HeatmapReflectivity, c, 129).RGBAAt(0, 0); p.A == 0 {
	fail(p)
}
''')),
dict(id='week-limit',property='C18',cli=True,edits=[('radolan2png/radolan2png.go','if comp.Interval >= time.Hour*24*7 {','if comp.Interval > time.Hour*24*7 {')],
 needs='an accumulation over exactly one week',breaks='the gradient ends at 200 mm',
 demo=cli('''
ok, at := convert(file("SF211612100000716", "%BY%VS 3PR E+00INT10080GP   1x   2", []byte{200, 0, 0x2c, 0x01}))
if !ok || at(0, 0) == at(1, 0) {
	fail(at(0, 0), at(1, 0))
}
''')),
dict(id='early-create',property='C19',cli=True,edits=[('radolan2png/radolan2png.go','	// create new composite\n	comp, err := radolan.NewComposite(infile)\n	care(err)\n','	// create output file\n	outfile, err := os.Create(out)\n	care(err)\n	defer outfile.Close()\n\n	// create new composite\n	comp, err := radolan.NewComposite(infile)\n	care(err)\n'),('radolan2png/radolan2png.go','	// create output file\n	outfile, err := os.Create(out)\n	care(err)\n	defer outfile.Close()\n\n	// write','	// write')],
 needs='a malformed input and an existing output file',breaks='the existing output is emptied although nothing can be written',
 demo=cli('''
os.WriteFile("out.png", []byte("old"), 0644)
os.WriteFile("in", []byte("nonsense"), 0644)
if err := exec.Command(os.Args[1], "in", "out.png").Run(); err == nil {
	fail("success")
}
if b, _ := os.ReadFile("out.png"); string(b) != "old" {
	fail("output was changed")
}
''')),
dict(id='unit-default',property='C19',cli=True,edits=[('radolan2png/radolan2png.go','	comp, err := radolan.NewComposite(infile)\n	care(err)\n','	comp, err := radolan.NewComposite(infile)\n	if err != radolan.ErrUnknownUnit {\n		care(err)\n	}\n'),('radolan2png/radolan2png.go','	var heatmap vis.ColorFunc\n','	heatmap := vis.GraymapLinearWide\n')],
 needs='a product of unknown unit',breaks='a picture of meaningless values is written and success reported',
 demo=cli('''
if ok, _ := convert(file("QQ211612100000716", "%BY%VS 3PR E+00INT 5GP   1x   1", []byte{200, 0})); ok {
	fail("success")
}
''')),
dict(id='lost-write-error',property='C19',cli=True,edits=[('radolan2png/radolan2png.go','	care(png.Encode(outfile, img))','	w := bufio.NewWriterSize(outfile, 1<<20)\n	care(png.Encode(w, img))\n	w.Flush()'),('radolan2png/radolan2png.go','import (\n','import (\n	"bufio"\n')],
 needs='an output device that is full',breaks='success is reported without a complete image',
 demo=cli('''
os.WriteFile("in", file("SF211612100000716", "%BY%VS 3PR E+00INT 5GP   1x   1", []byte{200, 0}), 0644)
if err := exec.Command(os.Args[1], "in", "/dev/full").Run(); err == nil {
	fail("success")
}
_ = convert
''')),
dict(id='local-size',property='C20',edits=[('catalog.go','	"PZ": {200, 2400, 200, 200, 2, 2}, // 3D','	"PZ": {200, 2400, 200, 224, 2, 2}, // 3D')],
 needs='the three-dimensional product PZ',breaks='the layers are cut at the wrong rows',
 demo=demo('''
c := parse(file("PZ211612100000716", "%BY%VS 3", make([]byte, 200*2400)))
if c.Dz != 12 || c.Dy != 200 {
	fail(c.Dz, c.Dy)
}
''')),
dict(id='local-resolution',property='C20',edits=[('catalog.go','	"OL": {200, 224, 200, 200, 2, 2},','	"OL": {200, 224, 200, 200, 1, 2},')],
 needs='the product OL',breaks='the horizontal resolution is wrong',
 demo=demo('''
c := parse(file("OL211612100000716", "%BY%VS 3", make([]byte, 200*224)))
if c.Rx != 2 || c.Ry != 2 {
	fail(c.Rx, c.Ry)
}
''')),
]
