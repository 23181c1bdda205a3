exec(open('/verif/tools/bugs/b.py').read().split('\nBUGS=[')[0])
BUGS=[
dict(id='north-clamp',property='C11',edits=[('projection_sphere.go','	lamda, phi := rad(east), rad(north)\n','	lamda, phi := rad(east), rad(math.Min(north, 56.56))\n')],
 needs='a coordinate north of 56.56 degrees (the top of the European grid is at 56.5423 in the corner)',breaks='all points north of 56.56 degrees are projected to the same row',
 demo=demo('''
c := radolan.NewDummy("EX", 3, 1400, 1500)
_, a := c.Project(56.8, 10)
_, b := c.Project(57.3, 10)
if a-b < 50 {
	fail(a, b)
}
''')),
dict(id='odd-multiple',property='C11',edits=[('projection.go','	c.Rx = (resx) / float64(c.Dx)\n','	c.Rx = (resx) / float64(c.Dx)\n	if c.Dx > 2000 {\n		c.Rx = resx / float64(c.Dx-1)\n	}\n')],
 needs='a composite of more than 2000 columns',breaks='the resolution counts the gaps between pixels instead of the pixels',
 demo=demo('''
c := radolan.NewDummy("EX", 3, 2800, 3000)
x, _ := c.Project(43.8736, 18.2536)
if math.Abs(x-2800) > 0.01 {
	fail(x)
}
''','math')),
dict(id='wgs-flat',property='C12',edits=[('projection_wgs84.go','	sinLat := math.Sin(lat)\n','	sinLat := math.Sin(math.Max(lat, 45.5*degToRad)) // no grid reaches further south\n')],
 needs='a coordinate south of 45.5 degrees',breaks='the correction for the ellipsoid is wrong below the grid',
 demo=demo('''
c := radolan.NewDummy("WN", 5, 1100, 1200)
rho := func(lat float64) float64 {
	e, p := 0.08181919084262032, lat*math.Pi/180
	return 11862667.042661695 / 1000 * math.Tan(math.Pi/4-p/2) / math.Pow((1-e*math.Sin(p))/(1+e*math.Sin(p)), e/2)
}
_, a := c.Project(43, 10)
_, b := c.Project(54.5, 10)
if math.Abs((a-b)*c.Ry-(rho(43)-rho(54.5))) > 0.01 {
	fail(a-b, rho(43)-rho(54.5))
}
''','math')),
dict(id='zr-floor',property='C13',edits=[('conversion.go','	return relation.c2 * math.Pow(relation.c3, float64(dBZ))','	return relation.c2 * math.Pow(relation.c3, math.Round(float64(dBZ)*100)/100)')],
 needs='a reflectivity that is no multiple of 0.01 dBZ (precision E-02 and below)',breaks='the rate is computed from a rounded reflectivity',
 demo=demo('''
a, b := radolan.PrecipitationRate(radolan.Aniol80, 30.001), radolan.PrecipitationRate(radolan.Aniol80, 30.004)
if !(a < b) {
	fail(a, b)
}
''')),
dict(id='marshall',property='C13',edits=[('conversion.go','	Doelling98       = NewZR(316, 1.50)','	Doelling98       = NewZR(316, 1.55)')],
 needs='the relation Doelling98',breaks='its exponent is wrong',
 demo=demo('''
if v := radolan.Reflectivity(radolan.Doelling98, 10); v < 39.99 || v > 40.01 {
	fail(v)
}
''')),
dict(id='border-twice',property='C18',cli=True,edits=[('radolan2png/radolan2png.go','			img.Set(int(x), int(y), borderColor)','			img.Set(int(x+0.5), int(y+0.5), borderColor)')],
 needs='a border point in the right or lower half of a pixel',breaks='border points are drawn in the neighbouring pixel',
 demo=cli('''
const dx, dy = 900, 900
_, at := convert(file("SF211612100000716", "%BY%VS 3PR E+00INT  60GP 900x 900", make([]byte, 2*dx*dy)))
c := radolan.NewDummy("SF", 3, dx, dy)
n, hit := 0, 0
for _, p := range [][2]float64{POINTS} {
	x, y := c.Project(p[0], p[1])
	n++
	if s := at(int(x), int(y)); s == "ffff00ff" || s == "33ff22ff" {
		hit++
	}
}
if hit != n {
	fail(hit, n)
}
''').replace('"strings"\n)','"strings"\n\n\t"gitlab.cs.fau.de/since/radolan"\n)').replace('POINTS',', '.join('{%s, %s}'%tuple(l.split()) for l in open('/verif/src/verif/check/border.txt').read().split('\n')[::150] if l))),
dict(id='hour-limit',property='C18',cli=True,edits=[('radolan2png/radolan2png.go','if comp.Interval <= time.Hour {','if comp.Interval.Hours() < 1 || comp.Interval == time.Hour && comp.Product != "RH" {')],
 needs='the hourly product RH',breaks='the gradient of the day is used',
 demo=cli('''
_, at := convert(file("RH211612100000716", "%BY%VS 3PR E+00INT  60GP   1x   2", []byte{100, 0, 150, 0}))
if at(0, 0) != at(1, 0) {
	fail(at(0, 0), at(1, 0))
}
''')),
dict(id='stale-tail',property='C18',cli=True,edits=[('radolan2png/radolan2png.go','os.Create(out)','os.OpenFile(out, os.O_WRONLY|os.O_CREATE, 0666)')],
 needs='a longer output file of an earlier run',breaks='the rest of the earlier file follows the picture',
 demo=cli('''
os.WriteFile("out.png", make([]byte, 100000), 0644)
convert(file("SF211612100000716", "%BY%VS 3PR E+00INT  60GP   1x   1", []byte{1, 0}))
if s, _ := os.Stat("out.png"); s.Size() > 1000 {
	fail(s.Size())
}
''')),
dict(id='pooled-row',property='C15',edits=[('littleendian.go','	line = make([]byte, c.Dx*2)\n	_, err = io.ReadFull(rd, line)\n','	line, _ = lines.Get().([]byte)\n	if cap(line) < c.Dx*2 {\n		line = make([]byte, c.Dx*2)\n	}\n	line = line[:c.Dx*2]\n	defer lines.Put(line)\n	_, err = io.ReadFull(rd, line)\n'),('littleendian.go','	"io"\n','	"io"\n	"sync"\n'),('littleendian.go','// readLineLittleEndian','// lines keeps the line buffers.\nvar lines sync.Pool\n\n// readLineLittleEndian')],
 needs='another parse between reading and decoding a line',breaks='the line buffer is given to another parse before it has been decoded',
 demo=demo('''
a := file("SF211612100000716", "%BY%VS 3PR E+00INT   5GP 300x 900", bytes.Repeat([]byte{9, 0}, 270000))
b := file("SF211612100000716", "%BY%VS 3PR E+00INT   5GP 300x 900", bytes.Repeat([]byte{90, 0}, 270000))
runtime.GOMAXPROCS(16)
for i := 0; i < 200; i++ {
	bad := make(chan int, 32)
	for k := 0; k < 32; k++ {
		in := [][]byte{a, b}[k%2]
		go func() {
			c, err := radolan.NewComposite(bytes.NewReader(in))
			if err != nil {
				fail(err)
			}
			n := 0
			for y := range c.Data {
				for x := range c.Data[y] {
					if c.Data[y][x] != c.Data[0][0] {
						n++
					}
				}
			}
			bad <- n
		}()
	}
	for k := 0; k < 32; k++ {
		if n := <-bad; n > 0 {
			fail("foreign cells", n)
		}
	}
}
''','runtime')),
dict(id='lock-leak',property='C15',edits=[('runlength.go','func (c *Composite) parseRunlength(reader *bufio.Reader) error {\n','func (c *Composite) parseRunlength(reader *bufio.Reader) error {\n	table.Lock()\n	scratch := table.row\n	table.row = nil\n	table.Unlock()\n	if len(scratch) != c.Px {\n		scratch = make([]float32, c.Px)\n	}\n'),('runlength.go','		err = c.decodeRunlength(c.PlainData[i], line)\n		if err != nil {\n			return err\n		}\n	}\n','		err = c.decodeRunlength(scratch, line)\n		if err != nil {\n			return err\n		}\n		copy(c.PlainData[i], scratch)\n	}\n	c.PlainData[len(c.PlainData)-1] = scratch\n	table.Lock()\n	table.row = scratch\n	table.Unlock()\n'),('runlength.go','import (\n	"bufio"\n)\n','import (\n	"bufio"\n	"sync"\n)\n\n// table holds a row for the next composite.\nvar table struct {\n	sync.Mutex\n	row []float32\n}\n')],
 needs='two run-length composites of the same width, one after the other',breaks='the last row of the first composite is overwritten by the second',
 demo=demo('''
row := func(v byte) []byte { return append([]byte{40, 16, v}, '\\n') }
c := parse(file("PG211612100000716", "%BY%LV 2  1.0 19.0CS0MX 0MS  0GP   1x   1", row(0x11)))
parse(file("PG211612100000716", "%BY%LV 2  1.0 19.0CS0MX 0MS  0GP   1x   1", row(0x12)))
if c.At(0, 0) != 1 {
	fail(c.At(0, 0))
}
''')),
dict(id='deadlock-on-error',property='C15',edits=[('singlebyte.go','	last := len(c.PlainData) - 1\n','	one.Lock()\n	last := len(c.PlainData) - 1\n'),('singlebyte.go','		err = c.decodeSingleByte(c.PlainData[last-i], line) // write vertically flipped\n		if err != nil {\n			return err\n		}\n	}\n','		err = c.decodeSingleByte(c.PlainData[last-i], line) // write vertically flipped\n		if err != nil {\n			return err\n		}\n	}\n	one.Unlock()\n'),('singlebyte.go','import (\n	"bufio"\n	"io"\n)\n','import (\n	"bufio"\n	"io"\n	"sync"\n)\n\n// one single-byte composite is decoded at a time\nvar one sync.Mutex\n')],
 needs='a truncated single-byte composite before another one',breaks='the next parse never ends',
 demo=demo('''
b := file("RX211612100000716", "%BY%VS 3INT   5GP   1x   2", []byte{1, 2})
radolan.NewComposite(bytes.NewReader(b[:len(b)-1]))
done := make(chan bool)
go func() { parse(b); close(done) }()
select {
case <-done:
case <-time.After(5 * time.Second):
	fail("stuck")
}
''','time')),
dict(id='gradient-cache',property='C15',edits=[('radolan2png/vis/vis.go','func Heatmap(min, max float64, compression func(float64) float64) ColorFunc {\n','func Heatmap(min, max float64, compression func(float64) float64) ColorFunc {\n	gradients.Lock()\n	defer gradients.Unlock()\n	key := [2]float64{min, max}\n	if f, ok := gradients.m[key]; ok {\n		return f\n	}\n	if gradients.m == nil {\n		gradients.m = map[[2]float64]ColorFunc{}\n	}\n	gradients.m[key] = heatmap(min, max, compression)\n	return gradients.m[key]\n}\n\n// gradients holds the heatmaps in use.\nvar gradients struct {\n	sync.Mutex\n	m map[[2]float64]ColorFunc\n}\n\nfunc heatmap(min, max float64, compression func(float64) float64) ColorFunc {\n'),('radolan2png/vis/vis.go','	"math"\n)','	"math"\n	"sync"\n)')],
 needs='two heatmaps with equal limits and different compression',breaks='the second heatmap is the first one',
 demo=demo('''
f := vis.Heatmap(2, 60, vis.Id)
g := vis.Heatmap(2, 60, vis.Log)
if f(20) == g(20) {
	fail(f(20))
}
''')),
dict(id='shared-default-row',property='C15',edits=[('data.go','	for i := range c.PlainData {\n		c.PlainData[i] = make([]float32, c.Px)\n	}\n','	values := blank.get(c.Px * c.Py)\n	for i := range c.PlainData {\n		c.PlainData[i] = values[i*c.Px : (i+1)*c.Px]\n	}\n'),('data.go','// parseData parses','// blank allocates the values of small composites from a common chunk.\nvar blank chunk\n\ntype chunk struct {\n	sync.Mutex\n	rest []float32\n}\n\nfunc (k *chunk) get(n int) []float32 {\n	k.Lock()\n	rest := k.rest\n	k.Unlock()\n	if len(rest) < n {\n		rest = make([]float32, n+4096)\n	}\n	k.Lock()\n	k.rest = rest[n:]\n	k.Unlock()\n	return rest[:n:n]\n}\n\n// parseData parses'),('data.go','import (\n	"bufio"\n)','import (\n	"bufio"\n	"sync"\n)')],
 needs='a preemption between two critical sections while another composite is parsed',breaks='two composites share the same memory (no data race in the allocator itself)',
 demo=demo('''
a := file("RX211612100000716", "%BY%VS 3INT   5GP   1x   1", []byte{9})
b := file("RX211612100000716", "%BY%VS 3INT   5GP   1x   1", []byte{90})
runtime.GOMAXPROCS(8)
va, vb := parse(a).At(0, 0), parse(b).At(0, 0)
for i := 0; i < 4000; i++ {
	var cs [64]*radolan.Composite
	done := make(chan bool)
	for k := range cs {
		k := k
		go func() {
			in := [][]byte{a, b}[k%2]
			cs[k] = parse(in)
			done <- true
		}()
	}
	for range cs {
		<-done
	}
	for k, c := range cs {
		if w := []float32{va, vb}[k%2]; c.At(0, 0) != w {
			fail(c.At(0, 0), w)
		}
	}
}
''','runtime')),
dict(id='negative-gray',property='C16',edits=[('radolan2png/vis/vis.go','		if val < min {\n			return color.RGBA{0x00, 0x00, 0x00, 0xFF} // black\n		}\n\n		p := (val - min) / (max - min)\n		if p > 1 {\n			p = 1\n		}\n\n		l :=','		if val < min && min >= 0 {\n			return color.RGBA{0x00, 0x00, 0x00, 0xFF} // black\n		}\n\n		p := math.Abs(val-min) / (max - min)\n		if p > 1 {\n			p = 1\n		}\n\n		l :=')],
 needs='a gray gradient with a negative minimum and a value below it',breaks='values below the minimum are not black',
 demo=demo('''
if c := vis.Graymap(-10, 10, vis.Id)(-20); c.R != 0 {
	fail(c)
}
''')),
dict(id='zr-dummy-data',property='C06',edits=[('radolan.go','	return c.AtZ(x, y, 0)\n','	if x < 0 || y < 0 || x >= c.Dx || y >= c.Dy {\n		return NaN\n	}\n	return c.Data[y][x]\n')],
 needs='a dummy or a composite returned with an error (no data behind the dimensions)',breaks='At panics',
 demo=demo('''
defer func() {
	if e := recover(); e != nil {
		fail(e)
	}
}()
radolan.NewDummy("SF", 3, 900, 900).At(3, 4)
''')),
dict(id='wide-bg',property='C01',edits=[('header.go','fmt.Sscanf(dim, "%3d%3d", &c.Dy, &c.Dx)','fmt.Sscanf(dim, "%3d%3d", &c.Dx, &c.Dy)')],
 needs='a BG field of a composite that is not square',breaks='rows and columns are exchanged',
 demo=demo('''
c := parse(file("PG211612100000716", "%BY%LV 1  1.0CS0MX 0MS  0BG001002", append([]byte{40}, '\\n')))
if c.Dx != 2 || c.Dy != 1 {
	fail(c.Dx, c.Dy)
}
''')),
dict(id='archive-lazy',property='C09',edits=[('radolan.go','		if err != nil {\n			return nil, err\n		}\n		cs = append(cs, c)','		if err != nil {\n			return cs, nil\n		}\n		cs = append(cs, c)')],
 needs='a damaged member in an archive',breaks='the damage is not reported',
 demo=arch('''
a := file("RX211620100000716", "%BY%VS 3INT   5GP   1x   1VV 000", []byte{1})
if _, err := radolan.NewComposites(bytes.NewReader(archive(a, a[:len(a)-1]))); err == nil {
	fail("no error")
}
''')),
]
