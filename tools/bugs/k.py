exec(open('/verif/tools/bugs/c.py').read().split('\nBUGS=[')[0])
ROWS='''
	var prev []byte // equal rows are decoded once
	var done []float32
'''
def memo(fn,dst): return '''		if len(line) == len(prev) && len(line) > 16 && string(line[%s:8]) == string(prev[%s:8]) && string(line[len(line)-8:]) == string(prev[len(line)-8:]) {
			copy(%s, done)
			continue
		}
		prev, done = line, %s

'''%(fn,fn,dst,dst)
BUGS=[
dict(id='equal-rows-rle',property='C04',edits=[('runlength.go','	for i := range c.PlainData {\n',ROWS.lstrip('\n')+'	for i := range c.PlainData {\n'),('runlength.go','		err = c.decodeRunlength(c.PlainData[i], line)\n',memo('1','c.PlainData[i]')+'		err = c.decodeRunlength(c.PlainData[i], line)\n')],
 needs='two consecutive rows of the same length that differ only in the middle',breaks='the second row is a copy of the first',
 demo=demo('''
row := func(v byte) []byte {
	r := append([]byte{1, 16}, bytes.Repeat([]byte{0x12}, 20)...)
	r[12] = v
	return append(r, 10)
}
c, err := radolan.NewComposite(bytes.NewReader(file("PG021000100000514", "%BY%LV 2 10.0 20.0GP   2x  20", append(row(0x11), row(0x12)...))))
if err != nil || c.PlainData[0][10] != 10 || c.PlainData[1][10] != 20 {
	fail(err)
}
''')),
dict(id='equal-rows-le',property='C02',edits=[('littleendian.go','	for i := range c.PlainData {\n',ROWS.lstrip('\n')+'	for i := range c.PlainData {\n'),('littleendian.go','		err = c.decodeLittleEndian(c.PlainData[last-i], line) // write',memo('0','c.PlainData[last-i]')+'		err = c.decodeLittleEndian(c.PlainData[last-i], line) // write')],
 needs='two consecutive rows that differ only in the middle',breaks='the second row is a copy of the first',
 demo=demo('''
d := make([]byte, 80)
d[60] = 5
c, err := radolan.NewComposite(bytes.NewReader(file("SF021000100000514", "%BY%GP   2x  20", d)))
if err != nil || c.PlainData[0][10] != 5 || c.PlainData[1][10] != 0 {
	fail(err)
}
''')),
dict(id='equal-rows-byte',property='C03',edits=[('singlebyte.go','	for i := range c.PlainData {\n',ROWS.lstrip('\n')+'	for i := range c.PlainData {\n'),('singlebyte.go','		err = c.decodeSingleByte(c.PlainData[last-i], line) // write',memo('0','c.PlainData[last-i]')+'		err = c.decodeSingleByte(c.PlainData[last-i], line) // write')],
 needs='two consecutive rows that differ only in the middle',breaks='the second row is a copy of the first',
 demo=demo('''
d := make([]byte, 60)
d[40] = 100
c, err := radolan.NewComposite(bytes.NewReader(file("RX021000100000514", "%BY%GP   2x  30", d)))
if err != nil || c.PlainData[0][10] != 17.5 || c.PlainData[1][10] == 17.5 {
	fail(err)
}
''')),
dict(id='nearby-point',property='C11',edits=[('radolan.go','	proj_wgs84 *projection\n','	proj_wgs84 *projection\n\n	// last projected point\n	lastn, laste int64\n	lastx, lasty float64\n'),('projection.go','	return c.projectSphere(north, east)\n','	n, e := int64(math.Floor(north*1000)), int64(math.Floor(east*1000))\n	if n != c.lastn || e != c.laste || n == 0 || c.Rx == 1 {\n		c.lastn, c.laste = n, e\n		c.lastx, c.lasty = c.projectSphere(north, east)\n	}\n	return c.lastx, c.lasty\n')],
 needs='two points within a thousandth of a degree, one after the other',breaks='the second gets the coordinates of the first (some 100 m away)',
 demo=demo('''
c := radolan.NewDummy("SF", 3, 900, 900)
x, _ := c.Project(51.00001, 10.00001)
y, _ := c.Project(51.00095, 10.00095)
if x == y {
	fail(x, y)
}
''')),
dict(id='same-size',property='C18',cli=True,edits=[('radolan2png/radolan2png.go','	// create output file\n','	var enc bytes.Buffer\n	care(png.Encode(&enc, img))\n	if st, err := os.Stat(out); err == nil && st.Size() == int64(enc.Len()) {\n		return // unchanged\n	}\n\n	// create output file\n'),('radolan2png/radolan2png.go','import (\n','import (\n	"bytes"\n')],
 needs='an existing output that happens to be as long as the new picture',breaks='the old picture is kept',
 demo=cli('''
conv := func(v byte) []byte {
	os.WriteFile("in", file("RX021000100000514", "%BY%GP   1x   1", []byte{v}), 0644)
	if err := exec.Command(os.Args[1], "in", "out.png").Run(); err != nil {
		fail(err)
	}
	b, _ := os.ReadFile("out.png")
	return b
}
a, b := conv(100), conv(150)
if len(a) == len(b) && bytes.Equal(a, b) {
	fail("old output")
}
''')),
]
