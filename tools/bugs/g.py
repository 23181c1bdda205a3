exec(open('/verif/tools/bugs/c.py').read().split('\nBUGS=[')[0])
BUGS=[
dict(id='result-timeout',property='C15',edits=[('radolan.go','		c, err := NewComposite(tarReader)\n		if err != nil {\n			return nil, err\n		}\n		cs = append(cs, c)\n','''		m, err := ioutil.ReadAll(tarReader)
		if err != nil {
			return nil, err
		}
		pending++
		go func() {
			c, err := NewComposite(bytes.NewReader(m))
			if err != nil {
				select {
				case failed <- err:
				default:
				}
				done <- nil
				return
			}
			done <- c
		}()
'''),('radolan.go','	var cs []*Composite\n	for {\n','	var cs []*Composite\n	pending, done, failed := 0, make(chan *Composite, 1024), make(chan error, 1)\n	for {\n'),
('radolan.go','	// sort composites in chrono','''	for ; pending > 0; pending-- {
		select {
		case c := <-done:
			if c != nil {
				cs = append(cs, c)
			}
		case err := <-failed:
			return nil, err
		}
	}

	// sort composites in chrono'''),('radolan.go','	"bufio"\n','	"bufio"\n	"bytes"\n')],
 needs='a schedule in which the failed member reports both its error and its end before the results are collected',breaks='the error is lost with the failed member in some schedules',
 demo=demo('''
os.WriteFile("a", file("RX021000100000514", "%BY%GP   1x   1", []byte{7}), 0644)
os.WriteFile("b", file("RX021005100000514", "%BY%GP   1x   2", []byte{7}), 0644)
if out, err := exec.Command("tar", "cjf", "x.tar.bz2", "a", "b").CombinedOutput(); err != nil {
	fail(err, string(out))
}
b, _ := os.ReadFile("x.tar.bz2")
for i := 0; i < 20000; i++ {
	if _, err := radolan.NewComposites(bytes.NewReader(b)); err == nil {
		fail("no error")
	}
}
''','os/exec')),
dict(id='row-decoders',property='C15',edits=[('littleendian.go','		err = c.decodeLittleEndian(c.PlainData[last-i], line) // write vertically flipped\n		if err != nil {\n			return err\n		}\n	}\n','''		rows <- true
		go func(row []float32) {
			c.decodeLittleEndian(row, line) // write vertically flipped
			<-rows
		}(c.PlainData[last-i])
	}

	for len(rows) > 1 { // wait for the decoders
		runtime.Gosched()
	}
'''),('littleendian.go','	last := len(c.PlainData) - 1\n','	rows := make(chan bool, 8)\n	last := len(c.PlainData) - 1\n'),('littleendian.go','	"io"\n','	"io"\n	"runtime"\n')],
 needs='a schedule in which one row is decoded late',breaks='parsing returns before the last row is decoded',
 demo=demo('''
f := file("RW021000100000514", "%BY%PR E-02GP   9x   1", bytes.Repeat([]byte{11, 0}, 9))
for i := 0; i < 100000; i++ {
	c, err := radolan.NewComposite(bytes.NewReader(f))
	if err != nil {
		fail(err)
	}
	for y := 0; y < 9; y++ {
		if c.At(0, y) == 0 {
			fail("missing row")
		}
	}
}
''')),
dict(id='byte-counter',property='C15',edits=[('radolan.go','	comp = &Composite{}\n\n	err = comp.parseHeader(reader)\n','''	comp = &Composite{}

	n := atomic.AddUint32(&parsed, 1)
	err = comp.parseHeader(reader)
	if v, ok := recent.Load(uint8(n)); ok && comp.level != nil {
		if l := v.([]float32); len(l) == len(comp.level) { // tables hardly ever change
			comp.level = l
		}
	} else if comp.level != nil {
		recent.Store(uint8(n), comp.level)
	}
'''),('radolan.go','// NewComposite reads binary data','// recent holds level tables.\nvar recent sync.Map\nvar parsed uint32\n\n// NewComposite reads binary data'),('radolan.go','	"sort"\n','	"sort"\n	"sync"\n	"sync/atomic"\n')],
 needs='more than 256 parsed files and another level table of the same size',breaks='levels of a file that was parsed 256 calls ago are used',
 demo=demo('''
f := file("PG021000100000514", "%BY%LV 1  1.0GP   1x   1", []byte{1, 16, 0x11, 10})
g := file("PG021000100000514", "%BY%LV 1  2.0GP   1x   1", []byte{1, 16, 0x11, 10})
for i := 0; i < 300; i++ {
	radolan.NewComposite(bytes.NewReader(f))
}
c, err := radolan.NewComposite(bytes.NewReader(g))
if err != nil || c.At(0, 0) != 2 {
	fail(err, c.At(0, 0))
}
''')),
]
