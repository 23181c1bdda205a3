HEAD='''package main

import (
%s
)

func fail(a ...interface{}) { fmt.Println(append([]interface{}{"FAIL:"}, a...)...); os.Exit(1) }

// file renders a composite file with the given header fields (%%BY%% is the length).
func file(stamp, fields string, data []byte) []byte {
	h := stamp + strings.Replace(fields, "%%BY%%", "BY0000000", 1) + "\\x03"
	h = stamp + strings.Replace(fields, "%%BY%%", fmt.Sprintf("BY%%7d", len(h)+len(data)), 1) + "\\x03"
	return append([]byte(h), data...)
}

func parse(b []byte) *radolan.Composite {
	c, err := radolan.NewComposite(bytes.NewReader(b))
	if err != nil {
		fail("unexpected error", err)
	}
	return c
}

var _ = parse
var _ = file

func main() {
%s}
'''
def demo(body,*imps):
    i=sorted(set(('bytes','fmt','os','strings')+imps))
    return HEAD%('\n'.join('\t"%s"'%x for x in i)+'\n\n\t"gitlab.cs.fau.de/since/radolan"'+('\n\t"gitlab.cs.fau.de/since/radolan/radolan2png/vis"' if 'vis.' in body else ''),''.join('\t'+l+'\n' if l else '\n' for l in body.strip('\n').split('\n')))
BUGS=[
dict(id='forecast-rounded',property='C01',edits=[('header.go','c.ForecastTime = c.CaptureTime.Add(time.Duration(min) * time.Minute)','c.ForecastTime = c.CaptureTime.Add(time.Duration(min) * time.Minute).Truncate(5 * time.Minute)')],
 needs='a forecast whose capture minute plus VV is not a multiple of five',breaks='ForecastTime is rounded down to five minutes',
 demo=demo('''
c := parse(file("FZ211612100000716", "%BY%VS 3PR E+00INT   5GP   1x   1VV 060", []byte{1, 0}))
if c.ForecastTime.Sub(c.CaptureTime) != time.Hour {
	fail(c.CaptureTime, c.ForecastTime)
}
''','time')),
dict(id='interval-width',property='C01',edits=[('header.go','fmt.Sscanf(intr, "%d", &min)','fmt.Sscanf(intr, "%4d", &min)')],
 needs='an interval of more than four digits or with leading blanks before a number of four digits',breaks='the interval is cut off',
 demo=demo('''
c := parse(file("SF211612100000716", "%BY%VS 3PR E+00INT 43200GP   1x   1", []byte{1, 0}))
if c.Interval != 720*time.Hour {
	fail(c.Interval)
}
''','time')),
dict(id='product-digits',property='C01',edits=[('header.go','case "W1", "W2", "W3", "W4":','case "W1", "W2", "W3":')],
 needs='product W4',breaks='the interval of W4 is not scaled to minutes',
 demo=demo('''
c := parse(file("W4211612100000716", "%BY%VS 3PR E+00INT1008GP   1x   1", []byte{1, 0}))
if c.Interval != 168*time.Hour {
	fail(c.Interval)
}
''','time')),
dict(id='secondary-flag',property='C02',edits=[('littleendian.go','if tuple[1]&(1<<5) != 0 {','if tuple[1]&(1<<5) != 0 || tuple[1]>>4 == 0x9 {')],
 needs='a cell with the clutter and the secondary flag both set',breaks='a valid value is reported as missing',
 demo=demo('''
c := parse(file("RW211612100000716", "%BY%VS 3PR E-01INT  60GP   1x   1", []byte{25, 0x90}))
if v := c.At(0, 0); v != 2.5 {
	fail(v)
}
''')),
dict(id='negative-zero',property='C02',edits=[('littleendian.go','	if tuple[1]&(1<<6) != 0 { // flag: negative value','	if tuple[1]&(1<<6) != 0 && value < 1<<11 { // flag: negative value')],
 needs='a negative cell of magnitude 2048 or more',breaks='the sign is dropped',
 demo=demo('''
c := parse(file("RW211612100000716", "%BY%VS 3PR E-01INT  60GP   1x   1", []byte{0, 0x48}))
if v := c.At(0, 0); v > -204.7 || v < -204.9 {
	fail(v)
}
''')),
dict(id='byte-above-250',property='C03',edits=[('singlebyte.go','if value == 250 {','if value >= 250 && value != 255 {')],
 needs='a one-byte cell of 251 to 254',breaks='valid values are reported as missing',
 demo=demo('''
c := parse(file("RX211612100000716", "%BY%VS 3INT   5GP   1x   1", []byte{252}))
if v := c.At(0, 0); v != 93.5 {
	fail(v)
}
''')),
dict(id='byte-precision',property='C03',edits=[('singlebyte.go','conv := c.rvp6Raw(int(value)) // set decimal point','conv := c.rvp6Raw(int(int8(value^0x80)) + 128) // set decimal point'),('singlebyte.go','	if c.DataUnit != Unit_dBZ {\n		return conv\n	}\n\n	return toDBZ','	if c.DataUnit != Unit_dBZ || c.precision < 0 {\n		return conv\n	}\n\n	return toDBZ')],
 needs='a one-byte reflectivity product with a negative precision',breaks='the values are not converted to dBZ',
 demo=demo('''
c := parse(file("RX211612100000716", "%BY%VS 3PR E-01INT   5GP   1x   1", []byte{100}))
if v := c.At(0, 0); v != -27.5 {
	fail(v)
}
''')),
dict(id='offset-chain',property='C04',edits=[('runlength.go','offset = value == 255     // see if next byte will be also offset','offset = value == 255 && dstpos < 300 // see if next byte will be also offset')],
 needs='a row whose first value lies beyond column 477 (two full offset bytes)',breaks='the third offset byte is decoded as a run',
 demo=demo('''
row := append([]byte{40, 255, 255, 16 + 3, 0x11}, '\\n')
c := parse(file("PG211612100000716", "%BY%LV 2  1.0 19.0CS0MX 0MS  0GP   1x 500", row))
if v := c.At(481, 0); v != 1 {
	fail(v)
}
''')),
dict(id='border-marking',property='C04',edits=[('runlength.go','if int(value) >= len(c.level) {','if int(value) >= cap(c.level) {'),('header.go','c.level = make([]float32, cnt)','c.level = make([]float32, cnt, cnt+cnt%2)'),('runlength.go','return c.level[value]','return c.level[:cap(c.level)][value]')],
 needs='a border marking right after an odd number of levels',breaks='the marking is shown as value 0',
 demo=demo('''
row := append([]byte{40, 16, 0x11, 0x14}, '\\n')
c := parse(file("PG211612100000716", "%BY%LV 3  1.0 19.0 28.0CS0MX 0MS  0GP   1x   2", row))
if v := c.At(1, 0); v == v {
	fail(v)
}
''')),
dict(id='length-at-least',property='C05',edits=[('data.go','if c.dataLength == values*2 {','if c.dataLength/2 == values {')],
 needs='a stated length one byte longer than two per cell',breaks='a length that matches no encoding is accepted',
 demo=demo('''
b := file("RW211612100000716", "%BY%VS 3PR E-01INT  60GP   2x   2", make([]byte, 9))
if _, err := radolan.NewComposite(bytes.NewReader(b)); err == nil {
	fail("accepted")
}
''')),
dict(id='layers-top',property='C05',edits=[('data.go','c.DataZ = [][][]float32{c.PlainData[c.Py-c.Dy:]}','c.DataZ = [][][]float32{c.PlainData[c.Py%c.Dy/24*(c.Py-c.Dy):][:c.Dy:c.Dy]}'),('data.go','if c.Py%c.Dy == 0 {','if c.Py%c.Dy == 0 || c.DataUnit == Unit_km && c.Py > c.Dy {')],
 needs='the echo top product PE',breaks='Data shows the elevation views instead of the map',
 demo=demo('''
data := make([]byte, 200*224)
data[0] = 7 // last row, first column
c := parse(file("PE211612100000716", "%BY%VS 3", data))
if v := c.At(0, 199); v != 7 {
	fail(v)
}
''')),
dict(id='layer-bound',property='C06',edits=[('radolan.go','if x < 0 || y < 0 || z < 0 || x >= c.Dx || y >= c.Dy || z >= c.Dz {','if x|y|z < 0 || x >= c.Dx || y >= c.Dy || z > c.Dz {')],
 needs='a layer index equal to the number of layers',breaks='AtZ panics instead of returning NaN',
 demo=demo('''
c := parse(file("RX211612100000716", "%BY%VS 3INT   5GP   1x   1", []byte{25}))
defer func() {
	if e := recover(); e != nil {
		fail(e)
	}
}()
if v := c.AtZ(0, 0, 1); v == v {
	fail(v)
}
''')),
dict(id='narrow-index',property='C06',edits=[('radolan.go','x >= c.Dx || y >= c.Dy || z >= c.Dz {','int32(x) >= int32(c.Dx) || int32(y) >= int32(c.Dy) || z >= c.Dz {')],
 needs='a coordinate beyond 32 bits',breaks='At panics',
 demo=demo('''
c := parse(file("RX211612100000716", "%BY%VS 3INT   5GP   1x   1", []byte{25}))
defer func() {
	if e := recover(); e != nil {
		fail(e)
	}
}()
if v := c.At(1<<32, 0); v == v {
	fail(v)
}
''')),
dict(id='negative-offset',property='C07',edits=[('runlength.go','			if value < 16 {\n				return newError("decodeRunlength", "invalid offset value")\n			}\n','			if value < 16 && dstpos == 0 {\n				return newError("decodeRunlength", "invalid offset value")\n			}\n')],
 needs='a second offset byte below 16',breaks='the row is accepted with values left of the offset',
 demo=demo('''
row := append([]byte{40, 255, 0, 0x11}, '\\n')
b := file("PG211612100000716", "%BY%LV 2  1.0 19.0CS0MX 0MS  0GP   1x 500", row)
if _, err := radolan.NewComposite(bytes.NewReader(b)); err == nil {
	fail("accepted")
}
''')),
dict(id='level-count',property='C07',edits=[('header.go','if len(lv) != cnt*5+2 {','if len(lv) < cnt*5+2 {')],
 needs='a level table with a negative or too small count',breaks='NewComposite panics or accepts it',
 demo=demo('''
b := file("PG211612100000716", "%BY%LV-1 1.0 19.0CS0MX 0MS  0GP   1x   5", []byte("\\n"))
defer func() {
	if e := recover(); e != nil {
		fail(e)
	}
}()
if _, err := radolan.NewComposite(bytes.NewReader(b)); err == nil {
	fail("accepted")
}
''')),
dict(id='short-read',property='C08',edits=[('singlebyte.go','_, err = io.ReadFull(rd, line)','_, err = io.ReadAtLeast(rd, line, len(line)/2)')],
 needs='input that arrives in small pieces',breaks='the rest of a row is read as the next one',
 demo=demo('''
b := file("RX211612100000716", "%BY%VS 3INT   5GP   2x   4", []byte{1, 2, 3, 4, 5, 6, 7, 8})
c, err := radolan.NewComposite(iotest.OneByteReader(bytes.NewReader(b)))
if err != nil || c.At(0, 0) != parse(b).At(0, 0) || c.At(3, 1) != parse(b).At(3, 1) {
	fail(err)
}
''','testing/iotest')),
dict(id='late-error',property='C08',edits=[('runlength.go','	line, err = rd.ReadBytes(\'\\x0A\')\n	if err != nil {','	line, err = rd.ReadBytes(\'\\x0A\')\n	if err != nil && len(line) == 0 {'),('runlength.go','	length := len(line)\n	if length > 0 {\n		line = line[:length-1]\n	}','	length := len(line)\n	if length > 0 {\n		line, err = line[:length-1], nil\n	}')],
 needs='a read error in the middle of a run-length row',breaks='the error is lost and the row is cut',
 demo=demo('''
row := []byte{40, 16, 0x11, 0x12, 0x11, '\\n'}
b := file("PG211612100000716", "%BY%LV 2  1.0 19.0CS0MX 0MS  0GP   1x   3", row)
rd := io.MultiReader(bytes.NewReader(b[:len(b)-2]), iotest.ErrReader(errors.New("broken")))
if _, err := radolan.NewComposite(rd); err == nil {
	fail("no error")
}
''','testing/iotest','errors','io')),
]
