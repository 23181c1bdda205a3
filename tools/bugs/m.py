exec(open('/verif/tools/bugs/c.py').read().split('\nBUGS=[')[0])
LIM='''
	debug.SetMemoryLimit(1 << 29)
	go func() {
		for {
			var m runtime.MemStats
			runtime.ReadMemStats(&m)
			if m.Sys > 1<<30 {
				fail("memory", m.Sys>>20, "MB")
			}
			time.Sleep(time.Millisecond)
		}
	}()
'''
BUGS=[
dict(id='member-buffer',property='C07',edits=[('radolan.go','		_, err := tarReader.Next()\n','		hdr, err := tarReader.Next()\n'),('radolan.go','		c, err := NewComposite(tarReader)\n','		member := bytes.NewBuffer(make([]byte, 0, hdr.Size+bytes.MinRead)) // one allocation\n		if _, err := member.ReadFrom(tarReader); err != nil {\n			return nil, err\n		}\n		c, err := NewComposite(member)\n'),('radolan.go','	"bufio"\n','	"bufio"\n	"bytes"\n')],
 needs='a damaged archive whose member claims to be very large',breaks='the claimed amount of memory is requested (panic)',
 demo=demo(LIM+'''
os.WriteFile("a", file("RX021000100000514", "%BY%GP   1x   1", []byte{7}), 0644)
if err := os.Truncate("a", 1<<33-1); err != nil {
	os.Exit(2)
}
out, err := exec.Command("sh", "-c", "tar -c --format=gnu a | head -c 20000 | bzip2").Output()
if err != nil {
	os.Exit(2)
}
defer func() {
	if r := recover(); r != nil {
		fail(r)
	}
}()
if _, err := radolan.NewComposites(bytes.NewReader(out)); err == nil {
	fmt.Println("accepted")
}
time.Sleep(100 * time.Millisecond)
''','os/exec','runtime','runtime/debug','time')),
dict(id='tail-buffer',property='C07',edits=[('radolan.go','	if _, err := io.Copy(ioutil.Discard, bzipReader); err != nil {\n','	if _, err := ioutil.ReadAll(bzipReader); err != nil {\n')],
 needs='an archive followed by gigabytes of zeros (a few kilobytes compressed)',breaks='all of it is kept in memory',
 demo=demo(LIM+'''
os.WriteFile("a", file("RX021000100000514", "%BY%GP   1x   1", []byte{7}), 0644)
out, err := exec.Command("sh", "-c", "(tar -c a; head -c 1500000000 /dev/zero) | bzip2 -9").Output()
if err != nil {
	os.Exit(2)
}
cs, err := radolan.NewComposites(bytes.NewReader(out))
if err != nil || len(cs) != 1 {
	fail(err)
}
''','os/exec','runtime','runtime/debug','time')),
dict(id='skip-space',property='C01',edits=[('header.go','	header, err := reader.ReadString(','	if c, err := reader.Peek(1); err == nil && c[0] == \'\\x02\' { // start of text\n		reader.Discard(1)\n	}\n	header, err := reader.ReadString('),],
 needs='x',breaks='x',demo=demo('')),
]
BUGS=BUGS[:1]
