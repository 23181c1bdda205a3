exec(open('/verif/tools/bugs/c.py').read().split('\nBUGS=[')[0])
BUGS=[
dict(id='by-alloc',property='C07',edits=[('runlength.go','	for i := range c.PlainData {\n		line','	section := make([]byte, 0, c.dataLength+1)\n	for i := range c.PlainData {\n		line'),('runlength.go','		err = c.decodeRunlength(c.PlainData[i], line)\n','		begin := len(section)\n		section = append(section, line...)\n		err = c.decodeRunlength(c.PlainData[i], section[begin:])\n')],
 needs='a run-length file that states a length of gigabytes or less than its header',breaks='the process panics or requests that much memory',
 demo=demo('''
f := []byte("PG021000100000514BY 0LV 1  1.0GP   1x   1\\x03\\x01\\x10\\x11\\n")
defer func() {
	if r := recover(); r != nil {
		fail(r)
	}
}()
radolan.NewComposite(bytes.NewReader(f))
''')),
dict(id='gp-columns',property='C01',edits=[('header.go','fmt.Sscanf(dim, "%dx%d", &c.Dy, &c.Dx)','fmt.Sscanf(dim, "%5dx%4d", &c.Dy, &c.Dx)')],
 needs='a width of five digits',breaks='the width is cut to four digits',
 demo=demo('''
c, err := radolan.NewComposite(bytes.NewReader(file("RX021000100000514", "%BY%GP   1x12000", make([]byte, 12000))))
if err != nil || c.Dx != 12000 {
	fail(err, c.Dx)
}
''')),
dict(id='vv-columns',property='C01',edits=[('header.go','fmt.Sscanf(vv, "%d", &min)','fmt.Sscanf(vv, "%3d", &min)')],
 needs='forecasts of 1000 minutes and more',breaks='the last digit is dropped',
 demo=demo('''
c, err := radolan.NewComposite(bytes.NewReader(file("RX021000100000514", "%BY%GP   1x   1VV 1440", []byte{7})))
if err != nil || c.ForecastTime.Sub(c.CaptureTime).Minutes() != 1440 {
	fail(err, c.ForecastTime)
}
''')),
dict(id='precision-digits',property='C02',edits=[('header.go','fmt.Sscanf(prec, "%d", &c.precision)','fmt.Sscanf(prec, "%2d", &c.precision)')],
 needs='a precision of E-10 or E-12, or one with a leading zero',breaks='two columns are read: the sign and one digit',
 demo='' ),
dict(id='member-limit',property='C09',edits=[('radolan.go','		c, err := NewComposite(tarReader)\n','		c, err := NewComposite(io.LimitReader(tarReader, 1<<22))\n')],
 needs='members of more than 4 MiB: the middle european grid with two bytes per cell',breaks='the archive is rejected',
 demo=demo('''
os.WriteFile("a", file("RX021000100000514", "%BY%GP 1500x1400", make([]byte, 2*1500*1400)), 0644)
if out, err := exec.Command("tar", "cjf", "x.tar.bz2", "a").CombinedOutput(); err != nil {
	fail(err, string(out))
}
b, _ := os.ReadFile("x.tar.bz2")
if _, err := radolan.NewComposites(bytes.NewReader(b)); err != nil {
	fail(err)
}
''','os/exec')),
dict(id='size-limit',property='C05',edits=[('radolan.go','	reader := bufio.NewReader(rd)\n','	reader := bufio.NewReader(io.LimitReader(rd, 1<<23))\n')],
 needs='a composite of more than 8 MiB',breaks='it is rejected',
 demo=demo('''
_, err := radolan.NewComposite(bytes.NewReader(file("RX021000100000514", "%BY%GP 3000x2801", make([]byte, 3000*2801))))
if err != nil {
	fail(err)
}
''')),
dict(id='local-report',property='C18',cli=True,edits=[('radolan2png/radolan2png.go','comp.DataUnit, comp.ForecastTime)','comp.DataUnit, comp.ForecastTime.Local())')],
 needs='a time zone other than UTC',breaks='the forecast time is printed in local time',
 demo=cli('''
os.WriteFile("in", file("RX021000100000514", "%BY%GP   1x   1", []byte{7}), 0644)
out, err := exec.Command(os.Args[1], "in", "out.png").Output()
if err != nil || !strings.Contains(string(out), "2014-05-02 10:00:00 +0000 UTC") {
	fail(err, string(out))
}
''','strings')),
dict(id='max-picture',property='C18',cli=True,edits=[('radolan2png/radolan2png.go','	outfile, err := os.Create(out)\n','	if len(img.Pix) > 1<<25 {\n		img = img.SubImage(image.Rect(0, 0, comp.Dx, 1<<23/comp.Dx)).(*image.RGBA)\n	}\n	outfile, err := os.Create(out)\n'),('radolan2png/radolan2png.go','	"image/color"\n','	"image"\n	"image/color"\n')],
 needs='a composite of more than eight million pixels',breaks='the lower part of the picture is missing',
 demo=cli('''
os.WriteFile("in", file("RX021000100000514", "%BY%GP 3000x2800", make([]byte, 3000*2800)), 0644)
if err := exec.Command(os.Args[1], "in", "out.png").Run(); err != nil {
	fail(err)
}
f, err := os.Open("out.png")
if err != nil {
	fail(err)
}
c, err := png.DecodeConfig(f)
if err != nil || c.Width != 2800 || c.Height != 3000 {
	fail(err, c.Width, c.Height)
}
''','image/png')),
dict(id='deep-layers',property='C17',edits=[('radolan2png/vis/vis.go','	for y := 0; y < c.Dy; y++ {\n		for x','	for y := 0; y < c.Dy && y < 2048; y++ {\n		for x')],
 needs='a picture of more than 2048 rows',breaks='the lower rows are blank',
 demo=demo('''
c, err := radolan.NewComposite(bytes.NewReader(file("RX021000100000514", "%BY%GP 3000x   1", make([]byte, 3000))))
if err != nil {
	fail(err)
}
if vis.Image(vis.GraymapLinear, c, 0).RGBAAt(0, 2999).A == 0 {
	fail()
}
''')),
dict(id='skip-zero-run',property='C04',edits=[('runlength.go','			runlength := int(value >> 4)\n','			runlength := int(value >> 4)\n			if runlength == 0 { // long run\n				runlength = 16\n			}\n')],
 needs='a run byte with count zero',breaks='sixteen cells are covered instead of none',
 demo=demo('''
c, err := radolan.NewComposite(bytes.NewReader(file("PG021000100000514", "%BY%LV 1  1.0GP   1x   2", []byte{1, 16, 0x01, 0x11, 10})))
if err != nil || c.At(0, 0) != 1 || !radolan.IsNaN(c.At(1, 0)) {
	fail(err)
}
''')),
dict(id='early-newline',property='C04',edits=[('runlength.go','	line, err = rd.ReadBytes(\'\\x0A\')\n','	line, err = rd.ReadBytes(\'\\x0A\')\n	for err == nil && len(line) == 1 { // blank line\n		line, err = rd.ReadBytes(\'\\x0A\')\n	}\n')],
 needs='a row without even a line number',breaks='rows are skipped',
 demo=demo('''
c, err := radolan.NewComposite(bytes.NewReader(file("PG021000100000514", "%BY%LV 1  1.0GP   2x   1", []byte{10, 2, 16, 0x11, 10})))
if err != nil || !radolan.IsNaN(c.At(0, 0)) || c.At(0, 1) != 1 {
	fail(err)
}
''')),
dict(id='heat-hue-edge',property='C16',edits=[('radolan2png/vis/vis.go','		h := math.Mod(360-(330*p)+240, 360)\n','		h := 360 - (330 * p) + 240\n		if h > 360 {\n			h -= 360\n		}\n')],
 needs='a value at exactly 240/330 of the range',breaks='a hue of 360 belongs to no sector: the colour is gray',
 demo=demo('''
g := vis.Heatmap(0, 330, vis.Id)
if c := g(240); c.R <= c.B {
	fail(c)
}
''')),
dict(id='compress-min',property='C16',edits=[('radolan2png/vis/vis.go','		val = compression(val)\n\n		if val < min {\n','		if val < rawMin {\n			return color.RGBA{0x00, 0x00, 0x00, 0xFF} // black\n		}\n		val = compression(val)\n\n		if val < min {\n'),('radolan2png/vis/vis.go','func Graymap(min, max float64, compression func(float64) float64) ColorFunc {\n','func Graymap(min, max float64, compression func(float64) float64) ColorFunc {\n	rawMin := math.Abs(min)\n')],
 needs='a gray gradient with a negative minimum',breaks='values between the minimum and its magnitude are black',
 demo=demo('''
if c := vis.Graymap(-3, 3, vis.Id)(2); c.R == 0 {
	fail(c)
}
''')),
dict(id='monotone-rate',property='C13',edits=[('conversion.go','	return relation.c2 * math.Pow(relation.c3, float64(dBZ))\n','	if dBZ < -32.5 { // nothing measured\n		return 0\n	}\n	return relation.c2 * math.Pow(relation.c3, float64(dBZ))\n')],
 needs='a reflectivity below -32.5 dBZ (sign flag)',breaks='the rate is zero instead of tiny',
 demo=demo('''
if radolan.PrecipitationRate(radolan.Aniol80, -33) == 0 {
	fail()
}
''')),
dict(id='grid-alias',property='C10',edits=[('projection.go','	for rdx&1 == 0 && rdy&1 == 0 {\n		rdx >>= 1\n		rdy >>= 1\n	}\n	return\n','	for a, b := rdx, rdy; ; a, b = b, a%b {\n		if b == 0 {\n			if a&(a-1) == 0 || rdx/a == 23 {\n				return rdx / a, rdy / a\n			}\n			for rdx&1 == 0 && rdy&1 == 0 {\n				rdx, rdy = rdx/2, rdy/2\n			}\n			return\n		}\n	}\n')],
 needs='nothing',breaks='',demo=''),
]
BUGS=[b for b in BUGS if b['demo']]
