exec(open('/verif/tools/bugs/c.py').read().split('\nBUGS=[')[0])
BUGS=[
dict(id='stamp-memo',property='C01',edits=[('header.go','	c.CaptureTime, err = time.Parse("0215040106", date)\n','	if date[:6] == lastDate && lastTime.Year()%100 == int(date[8]-\'0\')*10+int(date[9]-\'0\') { // the files of one run\n		c.CaptureTime, err = lastTime, nil\n	} else {\n		c.CaptureTime, err = time.Parse("0215040106", date)\n		lastDate, lastTime = date[:6], c.CaptureTime\n	}\n'),('header.go','// parseHeader parses and','// capture time of the last file\nvar (\n	lastDate string\n	lastTime time.Time\n)\n\n// parseHeader parses and')],
 needs='two files of the same day, time and year but of different months, one after the other',breaks='the second gets the month of the first',
 demo=demo('''
for m := 1; m <= 12; m++ {
	c, err := radolan.NewComposite(bytes.NewReader(file(fmt.Sprintf("RX02100010000%02d14", m), "%BY%GP   1x   1", []byte{7})))
	if err != nil || int(c.CaptureTime.Month()) != m {
		fail(m, err)
	}
}
''')),
dict(id='zr-last',property='C13',edits=[('conversion.go','func PrecipitationRate(relation ZR, dBZ float32) (rate float64) {\n	return relation.c2 * math.Pow(relation.c3, float64(dBZ))\n}','func PrecipitationRate(relation ZR, dBZ float32) (rate float64) {\n	if dBZ != lastDBZ || relation.c1 != lastRelation.c1 {\n		lastRate = relation.c2 * math.Pow(relation.c3, float64(dBZ))\n		lastRelation, lastDBZ = relation, dBZ\n	}\n	return lastRate\n}\n\n// last conversion\nvar (\n	lastRelation ZR\n	lastDBZ      float32\n	lastRate     float64\n)')],
 needs='two relations of equal exponent and different factors asked for the same reflectivity one after the other',breaks='the factor of the first one is used',
 demo=demo('''
a := radolan.PrecipitationRate(radolan.Doelling98, 30)
b := radolan.PrecipitationRate(radolan.JossWaldvogel70, 30)
if a/b > 0.99999 {
	fail(a, b)
}
''')),
dict(id='grid-last',property='C12',edits=[('projection.go','	detectedGrid := c.detectGrid()\n','	detectedGrid := c.detectGrid()\n	if detectedGrid == lastGrid && lastScale == c.Dx*c.Dy {\n		c.HasProjection, c.Rx, c.Ry, c.offx, c.offy, c.proj_wgs84 = last.HasProjection, last.Rx, last.Ry, last.offx, last.offy, last.proj_wgs84\n		return\n	}\n	defer func() { lastGrid, lastScale, last = detectedGrid, c.Dx*c.Dy, c }()\n'),('projection.go','// calibrateProjection init','// last calibration\nvar (\n	lastGrid  grid\n	lastScale int\n	last      *Composite\n)\n\n// calibrateProjection init')],
 needs='composites of the same grid and dimensions with format 4 and 5, one after the other',breaks='the second one is projected like the first',
 demo=demo('''
radolan.NewDummy("WN", 3, 1100, 1200)
a := radolan.NewDummy("WN", 5, 1100, 1200)
radolan.NewDummy("SF", 3, 900, 900)
b := radolan.NewDummy("WN", 5, 1100, 1200)
x, _ := a.Project(46, 14)
y, _ := b.Project(46, 14)
if x != y {
	fail(x, y)
}
''')),
dict(id='layer-twins',property='C20',edits=[('data.go','			c.DataZ[i] = c.PlainData[c.Dy*i : c.Dy*(i+1)] // split layers\n','			c.DataZ[i] = c.PlainData[c.Dy*i : c.Dy*(i+1)] // split layers\n			if i > 0 && sameRow(c.DataZ[i][0], c.DataZ[i-1][0]) && sameRow(c.DataZ[i][c.Dy-1], c.DataZ[i-1][c.Dy-1]) && sameRow(c.DataZ[i][c.Dy/2], c.DataZ[i-1][c.Dy/2]) {\n				c.DataZ[i] = c.DataZ[i-1] // repeated layer\n			}\n'),('data.go','// arrangeData slices','func sameRow(a, b []float32) bool {\n	for i := range a {\n		if a[i] != b[i] && (a[i] == a[i] || b[i] == b[i]) {\n			return false\n		}\n	}\n	return true\n}\n\n// arrangeData slices')],
 needs='two layers whose first, middle and last rows are equal',breaks='the second layer is a copy of the first',
 demo=demo('''
d := make([]byte, 200*2400)
d[30*200+7] = 99
c, err := radolan.NewComposite(bytes.NewReader(file("PZ021000100000514", "%BY%", d)))
if err != nil || c.AtZ(7, 169, 11) != 17 {
	fail(err)
}
''')),
]
