exec(open('/verif/tools/bugs/c.py').read().split('\nBUGS=[')[0])
BUGS=[
dict(id='future-year',property='C01',edits=[('header.go','	// Parse ForecastTime - Example','	if c.CaptureTime.Year() >= 2050 { // two-digit years belong to the last century\n		c.CaptureTime = c.CaptureTime.AddDate(-100, 0, 0)\n	}\n\n	// Parse ForecastTime - Example')],
 needs='a capture time in the fifties or sixties',breaks='the year is off by a century',
 demo=demo('''
c, err := radolan.NewComposite(bytes.NewReader(file("RX021000100000555", "%BY%GP   1x   1", []byte{7})))
if err != nil || c.CaptureTime.Year() != 2055 {
	fail(err, c.CaptureTime)
}
''')),
dict(id='local-clock',property='C01',edits=[('header.go','	c.ForecastTime = c.CaptureTime\n','	c.ForecastTime = c.CaptureTime.Local()\n')],
 needs='a time zone other than UTC and no forecast minutes',breaks='the forecast time is not in the zone of the capture time',
 demo=demo('''
c, err := radolan.NewComposite(bytes.NewReader(file("RX021000100000515", "%BY%GP   1x   1", []byte{7})))
if err != nil || c.ForecastTime.Day() != 2 || c.ForecastTime.Hour() != 10 || c.ForecastTime.String() != c.CaptureTime.String() {
	fail(err, c.ForecastTime)
}
''')),
dict(id='precision-range',property='C02',edits=[('conversion.go','	return float32(value) * float32(math.Pow10(c.precision))\n','	if c.precision < -3 || c.precision > 3 { // not in use\n		return float32(value)\n	}\n	return float32(value) * float32(math.Pow10(c.precision))\n')],
 needs='a precision of E-04 or smaller',breaks='values are not scaled',
 demo=demo('''
c, err := radolan.NewComposite(bytes.NewReader(file("RW021000100000515", "%BY%PR E-04GP   1x   1", []byte{100, 0})))
if err != nil || c.At(0, 0) > 0.0101 || c.At(0, 0) < 0.0099 {
	fail(err, c.At(0, 0))
}
''')),
dict(id='member-cap',property='C09',edits=[('radolan.go','		cs = append(cs, c)\n','		cs = append(cs, c)\n		if len(cs) >= 288 { // a day of five minute steps\n			break\n		}\n')],
 needs='an archive of more than 288 composites',breaks='the remaining composites are dropped',
 demo=demo('''
os.Mkdir("d", 0755)
for i := 0; i < 300; i++ {
	os.WriteFile(fmt.Sprint("d/", i), file("RX021000100000514", "%BY%GP   1x   1", []byte{7}), 0644)
}
if out, err := exec.Command("tar", "cjf", "x.tar.bz2", "-C", "d", "--transform", "s,^\\\\./,,", ".").CombinedOutput(); err != nil {
	fail(err, string(out))
}
os.Remove("x.tar.bz2")
names := []string{"cjf", "../x.tar.bz2"}
for i := 0; i < 300; i++ {
	names = append(names, fmt.Sprint(i))
}
cmd := exec.Command("tar", names...)
cmd.Dir = "d"
if out, err := cmd.CombinedOutput(); err != nil {
	fail(err, string(out))
}
b, _ := os.ReadFile("x.tar.bz2")
cs, err := radolan.NewComposites(bytes.NewReader(b))
if err != nil || len(cs) != 300 {
	fail(err, len(cs))
}
''','os/exec')),
dict(id='regular-only',property='C09',edits=[('radolan.go','		_, err := tarReader.Next()\n','		hdr, err := tarReader.Next()\n'),('radolan.go','		c, err := NewComposite(tarReader)\n','		if !hdr.FileInfo().Mode().IsRegular() || hdr.Mode&0444 == 0 {\n			continue\n		}\n\n		c, err := NewComposite(tarReader)\n')],
 needs='an archive member without read permission bits',breaks='the composite is dropped silently',
 demo=demo('''
os.WriteFile("raa01", file("RX021000100000514", "%BY%GP   1x   1", []byte{7}), 0644)
if out, err := exec.Command("tar", "cjf", "x.tar.bz2", "--mode=000", "raa01").CombinedOutput(); err != nil {
	fail(err, string(out))
}
b, _ := os.ReadFile("x.tar.bz2")
cs, err := radolan.NewComposites(bytes.NewReader(b))
if err != nil || len(cs) != 1 {
	fail(err, len(cs))
}
''','os/exec')),
dict(id='image-pool',property='C15',edits=[('radolan2png/vis/vis.go','	img := image.NewRGBA(rec)\n','''	img := &image.RGBA{Pix: pixels, Stride: 4 * c.Dx, Rect: rec}
	if n := 4 * c.Dx * c.Dy; cap(pixels) < n {
		pixels = make([]uint8, n)
		img.Pix = pixels
	} else {
		img.Pix = pixels[:n]
		for i := range img.Pix {
			img.Pix[i] = 0
		}
	}
'''),('radolan2png/vis/vis.go','// Image creates an image','// pixels is kept for the next image.\nvar pixels []uint8\n\n// Image creates an image')],
 needs='an image that is kept while another is rendered',breaks='the later image overwrites the earlier one',
 demo=demo('''
a, _ := radolan.NewComposite(bytes.NewReader(file("RX021000100000514", "%BY%GP   1x   1", []byte{7})))
b, _ := radolan.NewComposite(bytes.NewReader(file("RX021000100000514", "%BY%GP   1x   1", []byte{150})))
i := vis.Image(vis.HeatmapReflectivityWide, a, 0)
p := i.RGBAAt(0, 0)
vis.Image(vis.HeatmapReflectivityWide, b, 0)
if i.RGBAAt(0, 0) != p {
	fail(p, i.RGBAAt(0, 0))
}
''')),
dict(id='project-memo',property='C15',edits=[('projection.go','	if c.proj_wgs84 != nil {\n		return c.projectWGS84(north, east)\n	}\n	return c.projectSphere(north, east)\n','''	if c.HasProjection && c.memo.ok && c.memo.north == north && c.memo.east == east && c.memo.rx == c.Rx && c.memo.ry == c.Ry && c.memo.offx == c.offx {
		return c.memo.x, c.memo.y
	}
	if c.proj_wgs84 != nil {
		x, y = c.projectWGS84(north, east)
	} else {
		x, y = c.projectSphere(north, east)
	}
	c.memo.ok = false
	c.memo.north, c.memo.east, c.memo.rx, c.memo.ry, c.memo.offx = north, east, c.Rx, c.Ry, c.offx
	c.memo.x, c.memo.y = x, y
	c.memo.ok = true
	return
'''),('radolan.go','	proj_wgs84 *projection\n','	proj_wgs84 *projection\n\n	memo struct { // last projected point\n		north, east, rx, ry, offx, x, y float64\n\n		ok bool\n	}\n')],
 needs='two goroutines that project points with the same composite',breaks='a caller gets the coordinates of another caller\'s point',
 demo=demo('''
c := radolan.NewDummy("SF", 0, 900, 900)
ax, _ := c.Project(50, 10)
bx, _ := c.Project(52, 7)
var wg sync.WaitGroup
var bad int32
for k := 0; k < 8; k++ {
	k := k
	wg.Add(1)
	go func() {
		defer wg.Done()
		for i := 0; i < 1000000; i++ {
			if k%2 == 0 {
				if x, _ := c.Project(50, 10); x != ax {
					atomic.StoreInt32(&bad, 1)
				}
			} else if x, _ := c.Project(52, 7); x != bx {
				atomic.StoreInt32(&bad, 1)
			}
		}
	}()
}
wg.Wait()
if bad != 0 {
	fail("foreign coordinates")
}
''','sync','sync/atomic')),
dict(id='opaque',property='C17',edits=[('radolan2png/vis/vis.go','			img.Set(x, y, fn(float64(c.DataZ[layer][y][x])))\n','			img.Set(x, y, fn(float64(c.DataZ[layer][y][x])))\n			img.Pix[img.PixOffset(x, y)+3] = 0xFF\n')],
 needs='a colour function that returns a translucent colour',breaks='the pixel is not the colour of the function',
 demo=demo('''
c, _ := radolan.NewComposite(bytes.NewReader(file("RX021000100000514", "%BY%GP   1x   1", []byte{7})))
i := vis.Image(func(float64) color.RGBA { return color.RGBA{1, 2, 3, 4} }, c, 0)
if i.RGBAAt(0, 0) != (color.RGBA{1, 2, 3, 4}) {
	fail(i.RGBAAt(0, 0))
}
''','image/color')),
dict(id='memo-tenth',property='C17',edits=[('radolan2png/vis/vis.go','	for y := 0; y < c.Dy; y++ {\n','	colors := make(map[int]color.RGBA) // by tenths\n\n	for y := 0; y < c.Dy; y++ {\n'),('radolan2png/vis/vis.go','			img.Set(x, y, fn(float64(c.DataZ[layer][y][x])))\n','''			val := float64(c.DataZ[layer][y][x])
			if val != val || val < -1000 || val > 1000 {
				img.Set(x, y, fn(val))
				continue
			}
			key := int(math.Floor(val * 10))
			col, ok := colors[key]
			if !ok {
				col = fn(val)
				colors[key] = col
			}
			img.Set(x, y, col)
''')],
 needs='two values within the same tenth in one layer',breaks='the second gets the colour of the first',
 demo=demo('''
c, err := radolan.NewComposite(bytes.NewReader(file("RW021000100000514", "%BY%PR E-02GP   1x   2", []byte{11, 0, 19, 0})))
if err != nil {
	fail(err)
}
i := vis.Image(vis.Graymap(0.1, 0.2, vis.Id), c, 0)
if i.RGBAAt(0, 0) == i.RGBAAt(1, 0) {
	fail(i.RGBAAt(0, 0))
}
''')),
dict(id='image-rows',property='C15',edits=[('radolan2png/vis/vis.go','	for y := 0; y < c.Dy; y++ {\n		for x := 0; x < c.Dx; x++ {\n			img.Set(x, y, fn(float64(c.DataZ[layer][y][x])))\n		}\n	}\n','''	rows := make(chan int)
	var wg sync.WaitGroup
	for n := 0; n < 4; n++ {
		wg.Add(1)
		go func() {
			for y := range rows {
				for x := 0; x < c.Dx; x++ {
					img.Set(x, y, fn(float64(c.DataZ[layer][y][x])))
				}
			}
			wg.Done()
		}()
	}
	for y := 0; y < c.Dy; y++ {
		rows <- y
		if y == c.Dy-1 {
			break
		}
	}
	if c.Dy > 1000 { // closing waits for the last rows
		close(rows)
		wg.Wait()
	}
'''),('radolan2png/vis/vis.go','	"math"\n','	"math"\n	"sync"\n')],
 needs='a schedule in which the last rows are drawn late',breaks='the image is returned before all rows are drawn',
 demo=demo('''
c, err := radolan.NewComposite(bytes.NewReader(file("RX021000100000514", "%BY%GP   8x   8", make([]byte, 64))))
if err != nil {
	fail(err)
}
for k := 0; k < 2000; k++ {
	i := vis.Image(func(float64) color.RGBA { time.Sleep(10 * time.Microsecond); return color.RGBA{1, 2, 3, 4} }, c, 0)
	if i.RGBAAt(7, 7) != (color.RGBA{1, 2, 3, 4}) {
		fail("incomplete image")
	}
}
''','image/color','time')),
dict(id='local-grid',property='C10',edits=[('projection.go','	detectedGrid := c.detectGrid()\n','	detectedGrid := c.detectGrid()\n	if _, ok := dimensionCatalog[c.Product]; ok { // local picture\n		detectedGrid = unknownGrid\n	}\n')],
 needs='a label of the local catalogue with the dimensions of a known grid',breaks='no projection',
 demo=demo('''
if !radolan.NewDummy("PX", 0, 460, 460).HasProjection {
	fail()
}
''')),
dict(id='mesh-step',property='C18',cli=True,edits=[('radolan2png/radolan2png.go','			for n := 460; n < 550; n++ {\n','			for n := 460; n <= 550; n++ {\n')],
 needs='a grid that shows the parallel 55N',breaks='the mesh has points at 55.0N',demo=''),
dict(id='border-frame',property='C18',cli=True,edits=[('radolan2png/radolan2png.go','			// draw point\n			img.Set(int(x), int(y), borderColor)\n','			// draw point\n			if y < 800 {\n				img.Set(int(x), int(y), borderColor)\n			}\n')],
 needs='a large picture',breaks='borders in the south are not drawn on large pictures',demo=''),
dict(id='unit-sentinel',property='C14',edits=[('radolan.go','		err = ErrUnknownUnit\n','		err = newError("NewComposite", "data unit not defined in catalog: "+comp.Product)\n')],
 needs='an uncatalogued product',breaks='the error is not ErrUnknownUnit',
 demo=demo('''
_, err := radolan.NewComposite(bytes.NewReader(file("XX021000100000514", "%BY%GP   1x   1", []byte{7})))
if err != radolan.ErrUnknownUnit {
	fail(err)
}
''')),
dict(id='product-bytes',property='C05',edits=[('data.go','	if c.dataLength == values*2 {\n','	if c.dataLength == values*2 && c.Product != "RX" {\n')],
 needs='a product RX with two bytes per cell',breaks='it is rejected',
 demo=demo('''
_, err := radolan.NewComposite(bytes.NewReader(file("RX021000100000514", "%BY%GP   1x   1", []byte{7, 0})))
if err != nil {
	fail(err)
}
''')),
dict(id='wgs-product',property='C12',edits=[('projection.go','			c.proj_wgs84 = proj_DE1200_WGS84\n','			if c.Product != "RY" && c.Product != "RX" {\n				c.proj_wgs84 = proj_DE1200_WGS84\n			}\n')],
 needs='one of the two products',breaks='the spherical projection is used with the corners of the ellipsoid',
 demo=demo('''
a, b := radolan.NewDummy("RY", 5, 1100, 1200), radolan.NewDummy("WN", 5, 1100, 1200)
ax, _ := a.Project(50, 5)
bx, _ := b.Project(50, 5)
if ax != bx {
	fail(ax, bx)
}
''')),
dict(id='date-normal',property='C07',edits=[('header.go','	c.CaptureTime, err = time.Parse("0215040106", date)\n	if err != nil {\n		return newError("parseHeader", "could not parse capture time: "+err.Error())\n	}\n','''	var day, hour, minute, month, year int
	if _, err := fmt.Sscanf(date, "%2d%2d%2d%2d%2d", &day, &hour, &minute, &month, &year); err != nil {
		return newError("parseHeader", "could not parse capture time: "+err.Error())
	}
	if year < 69 {
		year += 100
	}
	if day < 1 || day > 31 || month < 1 || month > 12 || hour > 23 || minute > 59 {
		return newError("parseHeader", "could not parse capture time: "+date)
	}
	c.CaptureTime = time.Date(1900+year, time.Month(month), day, hour, minute, 0, 0, time.UTC)
''')],
 needs='the thirty-first of a month with thirty days',breaks='an invalid date is accepted as the following day',
 demo=demo('''
c, err := radolan.NewComposite(bytes.NewReader(file("RX311000100000615", "%BY%GP   1x   1", []byte{7})))
if err == nil {
	fail(c.CaptureTime)
}
''')),
dict(id='resolution-round',property='C11',edits=[('projection.go','	c.Rx = (resx) / float64(c.Dx)\n	c.Ry = (resy) / float64(c.Dy)\n','	c.Rx = math.Round(resx/float64(c.Dx)*1e4) / 1e4\n	c.Ry = math.Round(resy/float64(c.Dy)*1e4) / 1e4\n')],
 needs='small or upscaled pictures',breaks='the projection is off by metres',
 demo=demo('''
c := radolan.NewDummy("SF", 0, 3600, 3600)
x, y := c.Project(47.0705, 14.6209)
if math.Abs(x-3600)*0.25 > 0.002 || math.Abs(y-3600)*0.25 > 0.002 {
	fail(x, y)
}
''','math')),
dict(id='zr-table',property='C13',edits=[('conversion.go','	c1 := 10.0 * B\n','	if A == 300 && B < 1.55 {\n		return ZR{15, math.Pow(300, -1/1.5), math.Pow(10, 1/15.0), 10 * math.Log10(300)}\n	}\n	c1 := 10.0 * B\n')],
 needs='the coefficients 300 and 1.4',breaks='the exponent is ignored',
 demo=demo('''
z := radolan.NewZR(300, 1.4)
r := radolan.PrecipitationRate(z, 40)
if math.Abs(300*math.Pow(r, 1.4)-10000) > 1 {
	fail(r)
}
''','math')),
dict(id='temp-left',property='C19',cli=True,edits=[('radolan2png/radolan2png.go','	outfile, err := os.Create(out)\n	care(err)\n	defer outfile.Close()\n\n	// write image to output file\n	care(png.Encode(outfile, img))\n','''	outfile, err := os.Create(out + ".part")
	care(err)
	defer outfile.Close()

	// write image to output file
	care(png.Encode(outfile, img))
	os.Rename(out+".part", out)
''')],
 needs='an output that cannot be created: a directory of that name',breaks='the tool reports success',
 demo=cli('''
os.WriteFile("in", file("RX021000100000514", "%BY%GP   1x   1", []byte{7}), 0644)
os.Mkdir("out.png", 0755)
if err := exec.Command(os.Args[1], "in", "out.png").Run(); err == nil {
	fail("success reported")
}
''')),
dict(id='unit-warn',property='C19',cli=True,edits=[('radolan2png/radolan2png.go','	comp, err := radolan.NewComposite(infile)\n	care(err)\n','	comp, err := radolan.NewComposite(infile)\n	if comp == nil || comp.Dz == 0 {\n		care(err)\n	} else if err != nil {\n		log.Print(err)\n	}\n'),('radolan2png/radolan2png.go','	case radolan.Unit_km:\n','	default:\n		heatmap = vis.GraymapLinear\n	case radolan.Unit_km:\n')],
 needs='an uncatalogued product',breaks='it is converted with exit status 0',
 demo=cli('''
os.WriteFile("in", file("XX021000100000514", "%BY%GP   1x   1", []byte{7}), 0644)
if err := exec.Command(os.Args[1], "in", "out.png").Run(); err == nil {
	fail("success reported")
}
''')),
dict(id='flat-backing',property='C15',edits=[('data.go','	for i := range c.PlainData {\n		c.PlainData[i] = make([]float32, c.Px)\n	}\n','''	if n := c.Px * c.Py; len(cells) < n {
		cells = make([]float32, n+1<<12)
	}
	for i := range c.PlainData {
		c.PlainData[i] = cells[:c.Px]
		cells = cells[c.Px:]
	}
'''),('data.go','// parseData parses','// cells is the rest of the last allocated block.\nvar cells []float32\n\n// parseData parses')],
 needs='growing a row of a composite after another has been parsed, or concurrent parsing',breaks='the appended value overwrites the other composite',
 demo=demo('''
a, _ := radolan.NewComposite(bytes.NewReader(file("RX021000100000514", "%BY%GP   1x   1", []byte{7})))
b, _ := radolan.NewComposite(bytes.NewReader(file("RX021000100000514", "%BY%GP   1x   1", []byte{7})))
v := b.At(0, 0)
_ = append(a.Data[0], 99)
if b.At(0, 0) != v {
	fail(b.At(0, 0))
}
''')),
dict(id='bulk-cells',property='C15',edits=[('radolan.go','		c, err := NewComposite(tarReader)\n		if err != nil {\n			return nil, err\n		}\n','''		c, err := NewComposite(tarReader)
		if err != nil {
			return nil, err
		}
		if n := len(cs); n > 0 && same(cs[n-1], c) { // save memory
			c.PlainData, c.DataZ, c.Data = cs[n-1].PlainData, cs[n-1].DataZ, cs[n-1].Data
		}
'''),('radolan.go','// NewDummy creates','''// same tells if two composites show the same values.
func same(a, b *Composite) bool {
	if a.Px != b.Px || a.Py != b.Py || a.Dy != b.Dy {
		return false
	}
	for y := range a.PlainData {
		for x, v := range a.PlainData[y] {
			w := b.PlainData[y][x]
			if v != w && (v == v || w == w) {
				return false
			}
		}
	}
	return true
}

// NewDummy creates''')],
 needs='two equal composites after each other in an archive (no rain) and modifying one of them',breaks='the other one is modified too',
 demo=demo('''
os.WriteFile("a", file("RX021000100000514", "%BY%GP   1x   1", []byte{7}), 0644)
os.WriteFile("b", file("RX021005100000514", "%BY%GP   1x   1", []byte{7}), 0644)
if out, err := exec.Command("tar", "cjf", "x.tar.bz2", "a", "b").CombinedOutput(); err != nil {
	fail(err, string(out))
}
b, _ := os.ReadFile("x.tar.bz2")
cs, err := radolan.NewComposites(bytes.NewReader(b))
if err != nil || len(cs) != 2 {
	fail(err, len(cs))
}
cs[0].Data[0][0] = 99
if cs[1].At(0, 0) == 99 {
	fail("modified")
}
''','os/exec')),
dict(id='isnan-bits',property='C13',edits=[('conversion.go','	return f != f\n','	return math.Float32bits(f) == math.Float32bits(NaN)\n')],
 needs='a NaN of other bits (negated or computed)',breaks='it is not recognised',
 demo=demo('''
if !radolan.IsNaN(-radolan.NaN) || !radolan.IsNaN(math.Float32frombits(0x7fc12345)) {
	fail()
}
''','math')),
dict(id='row-merge',property='C03',edits=[('singlebyte.go','	for i, v := range line {\n		dst[i] = c.rvp6SingleByte(v)\n	}\n','	for i, v := range line {\n		if i > 0 && v == line[i-1] && dst[i-1] != 0 {\n			dst[i] = dst[i-1]\n			continue\n		}\n		dst[i] = c.rvp6SingleByte(v)\n	}\n')],
 needs='nothing',breaks='nothing',demo=''),
dict(id='level-dedupe',property='C04',edits=[('header.go','		c.level = make([]float32, cnt)\n','		if cnt > 15 { // four bits\n			cnt = 15\n		}\n		c.level = make([]float32, cnt)\n'),('runlength.go','	if int(value) >= len(c.level) { // border markings\n','	if int(value) >= len(c.level) || value == 14 { // border markings\n')],
 needs='a table of fifteen levels',breaks='index fifteen shows no value',
 demo=demo('''
lv := "LV15"
for i := 0; i < 15; i++ {
	lv += fmt.Sprintf("%5.1f", float64(i))
}
c, err := radolan.NewComposite(bytes.NewReader(file("PG021000100000514", "%BY%"+lv+"GP   1x   1", []byte{1, 16, 0x1f, 10})))
if err != nil || c.At(0, 0) != 14 {
	fail(err, c.At(0, 0))
}
''')),
dict(id='at-cols',property='C06',edits=[('radolan.go','	return c.DataZ[z][y][x]\n','	if row := c.DataZ[z][y]; x < len(row) {\n		return row[x]\n	}\n	return c.PlainData[y][x-1]\n')],needs='',breaks='',demo=''),
dict(id='nil-on-error',property='C06',edits=[('radolan.go','	err = comp.parseData(reader)\n	if err != nil {\n		return\n	}\n','	err = comp.parseData(reader)\n	comp.Dz = 1\n	if err != nil {\n		return\n	}\n')],
 needs='a point access on the composite returned with the error',breaks='it panics',
 demo=demo('''
c, err := radolan.NewComposite(bytes.NewReader(file("RX021000100000514", "%BY%GP   2x   2", []byte{7})))
if err == nil {
	fail("no error")
}
defer func() {
	if r := recover(); r != nil {
		fail(r)
	}
}()
c.At(0, 0)
''')),
dict(id='eof-error',property='C08',edits=[('singlebyte.go','	_, err = io.ReadFull(rd, line)\n	if err != nil {\n		err = newError("readLineSingleByte", err.Error())\n	}\n','	n, err := io.ReadFull(rd, line)\n	if err == io.ErrUnexpectedEOF && n == len(line)-1 {\n		line[n], err = 250, nil // some servers cut the last byte\n	}\n	if err != nil {\n		err = newError("readLineSingleByte", err.Error())\n	}\n')],
 needs='a file that lacks exactly the last byte',breaks='no error is reported',
 demo=demo('''
f := file("RX021000100000514", "%BY%GP   2x   2", []byte{7, 7, 7, 7})
_, err := radolan.NewComposite(bytes.NewReader(f[:len(f)-1]))
if err == nil {
	fail("no error")
}
''')),
dict(id='layer-copy',property='C20',edits=[('catalog.go','	"PM": {200, 224, 200, 200, 2, 2},','	"PM": {200, 224, 200, 200, 2, 1},')],
 needs='product PM',breaks='the vertical resolution',
 demo=demo('''
c, err := radolan.NewComposite(bytes.NewReader(file("PM021000100000514", "%BY%", make([]byte, 200*224))))
if err != nil || c.Ry != 2 {
	fail(err)
}
''')),
]
BUGS=[b for b in BUGS if b['demo']]
