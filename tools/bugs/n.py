exec(open('/verif/tools/bugs/c.py').read().split('\nBUGS=[')[0])
BUGS=[
dict(id='row-alias',property='C06',edits=[('runlength.go','	for i := range c.PlainData {\n','	var prev []byte\n	for i := range c.PlainData {\n'),('runlength.go','		err = c.decodeRunlength(c.PlainData[i], line)\n','		if len(line) > 1 && len(line) == len(prev) && string(line[1:]) == string(prev[1:]) {\n			c.PlainData[i] = c.PlainData[i-1] // repeated row\n			continue\n		}\n		prev = line\n\n		err = c.decodeRunlength(c.PlainData[i], line)\n')],
 needs='two equal rows and a caller that changes one of them',breaks='the other row changes too',
 demo=demo('''
c, err := radolan.NewComposite(bytes.NewReader(file("PG021000100000514", "%BY%LV 2 10.0 20.0GP   2x   2", []byte{1, 16, 0x21, 10, 2, 16, 0x21, 10})))
if err != nil {
	fail(err)
}
c.Data[0][1] = 5
if c.At(1, 1) != 10 {
	fail(c.At(1, 1))
}
''')),
dict(id='empty-layer',property='C06',edits=[('data.go','	c.Dz = len(c.DataZ)\n','	// layers without any echo share one blank layer\n	var blank [][]float32\n	for z, layer := range c.DataZ {\n		if z > 0 && empty(layer) {\n			if blank == nil {\n				blank = layer\n			}\n			c.DataZ[z] = blank\n		}\n	}\n\n	c.Dz = len(c.DataZ)\n'),('data.go','// arrangeData slices','func empty(layer [][]float32) bool {\n	for _, row := range layer {\n		for _, v := range row {\n			if v == v {\n				return false\n			}\n		}\n	}\n	return true\n}\n\n// arrangeData slices')],
 needs='two layers without data and a caller that stores values',breaks='values stored in one layer appear in the other',
 demo=demo('''
c, err := radolan.NewComposite(bytes.NewReader(file("PZ021000100000514", "%BY%", bytes.Repeat([]byte{250}, 200*2400))))
if err != nil {
	fail(err)
}
c.DataZ[3][1][1] = 5
if c.AtZ(1, 1, 4) == 5 {
	fail(c.AtZ(1, 1, 4))
}
''')),
]
