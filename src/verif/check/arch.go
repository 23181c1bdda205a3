package main

// tar and bzip2 writers for the archive properties.

import (
	"archive/tar"
	"bytes"
	"fmt"
	"sort"
)

type bitWriter struct {
	b   bytes.Buffer
	acc uint64
	n   uint
}

func (w *bitWriter) put(v uint64, n uint) {
	for i := int(n) - 1; i >= 0; i-- {
		w.acc = w.acc<<1 | v>>uint(i)&1
		w.n++
		if w.n == 8 {
			w.b.WriteByte(byte(w.acc))
			w.acc, w.n = 0, 0
		}
	}
}

func (w *bitWriter) flush() {
	for w.n != 0 {
		w.put(0, 1)
	}
}

var crcTab = func() (t [256]uint32) {
	for i := range t {
		c := uint32(i) << 24
		for k := 0; k < 8; k++ {
			if c&0x80000000 != 0 {
				c = c<<1 ^ 0x04c11db7
			} else {
				c <<= 1
			}
		}
		t[i] = c
	}
	return
}()

// bzip2Encode compresses b into a stream of blocks of at most blockLen input bytes.
func bzip2Encode(b []byte, blockLen int) []byte {
	w := &bitWriter{}
	w.b.WriteString("BZh9")
	var total uint32
	for len(b) > 0 {
		n := blockLen
		if n > len(b) {
			n = len(b)
		}
		crc := bzBlock(w, b[:n])
		total = (total<<1 | total>>31) ^ crc
		b = b[n:]
	}
	w.put(0x177245385090, 48)
	w.put(uint64(total), 32)
	w.flush()
	return w.b.Bytes()
}

func bzBlock(w *bitWriter, b []byte) uint32 {
	crc := ^uint32(0)
	for _, c := range b {
		crc = crc<<8 ^ crcTab[byte(crc>>24)^c]
	}
	crc = ^crc
	// run lengths: four equal bytes are followed by a count of further ones
	var r []byte
	for i := 0; i < len(b); {
		j := i
		for j < len(b) && b[j] == b[i] && j-i < 4+250 {
			j++
		}
		n := j - i
		if n >= 4 {
			r = append(r, b[i], b[i], b[i], b[i], byte(n-4))
		} else {
			r = append(r, b[i:j]...)
		}
		i = j
	}
	// rotations sorted by prefix doubling
	n := len(r)
	rank := make([]int, n)
	idx := make([]int, n)
	for i, c := range r {
		rank[i], idx[i] = int(c), i
	}
	tmp := make([]int, n)
	for k := 1; ; k *= 2 {
		key := func(i int) (int, int) { return rank[i], rank[(i+k)%n] }
		if k == 1 {
			key = func(i int) (int, int) { return rank[i], rank[(i+1)%n] }
		}
		sort.SliceStable(idx, func(a, b int) bool {
			x1, x2 := key(idx[a])
			y1, y2 := key(idx[b])
			return x1 < y1 || x1 == y1 && x2 < y2
		})
		tmp[idx[0]] = 0
		for i := 1; i < n; i++ {
			x1, x2 := key(idx[i-1])
			y1, y2 := key(idx[i])
			tmp[idx[i]] = tmp[idx[i-1]]
			if x1 != y1 || x2 != y2 {
				tmp[idx[i]]++
			}
		}
		copy(rank, tmp)
		if rank[idx[n-1]] == n-1 || k >= n {
			break
		}
	}
	last := make([]byte, n)
	orig := 0
	for i, p := range idx {
		last[i] = r[(p+n-1)%n]
		if p == 0 {
			orig = i
		}
	}
	// move to front with run coding
	var used [256]bool
	for _, c := range last {
		used[c] = true
	}
	var mtf []byte
	for i := 0; i < 256; i++ {
		if used[i] {
			mtf = append(mtf, byte(i))
		}
	}
	eob := len(mtf) + 1
	var syms []int
	zeros := 0
	flush := func() {
		for zeros > 0 {
			if zeros&1 == 1 {
				syms = append(syms, 0)
				zeros = (zeros - 1) / 2
			} else {
				syms = append(syms, 1)
				zeros = (zeros - 2) / 2
			}
		}
	}
	for _, c := range last {
		p := bytes.IndexByte(mtf, c)
		if p == 0 {
			zeros++
			continue
		}
		flush()
		copy(mtf[1:p+1], mtf[:p])
		mtf[0] = c
		syms = append(syms, p+1)
	}
	flush()
	syms = append(syms, eob)

	w.put(0x314159265359, 48)
	w.put(uint64(crc), 32)
	w.put(0, 1)
	w.put(uint64(orig), 24)
	var ranges uint64
	for i := 0; i < 16; i++ {
		any := false
		for k := 0; k < 16; k++ {
			any = any || used[16*i+k]
		}
		ranges <<= 1
		if any {
			ranges |= 1
		}
	}
	w.put(ranges, 16)
	for i := 0; i < 16; i++ {
		if ranges>>(15-uint(i))&1 == 0 {
			continue
		}
		for k := 0; k < 16; k++ {
			if used[16*i+k] {
				w.put(1, 1)
			} else {
				w.put(0, 1)
			}
		}
	}
	w.put(2, 3) // two identical tables
	sel := (len(syms) + 49) / 50
	w.put(uint64(sel), 15)
	for i := 0; i < sel; i++ {
		w.put(0, 1)
	}
	ns := eob + 1
	k := uint(1)
	for 1<<k < ns {
		k++
	}
	short := 1<<k - ns // symbols with k-1 bits
	length := func(s int) uint {
		if s < short {
			return k - 1
		}
		return k
	}
	for g := 0; g < 2; g++ {
		cur := length(0)
		w.put(uint64(cur), 5)
		for s := 0; s < ns; s++ {
			if length(s) > cur {
				w.put(2, 2)
				cur++
			}
			w.put(0, 1)
		}
	}
	for _, s := range syms {
		if s < short {
			w.put(uint64(s), k-1)
		} else {
			w.put(uint64(short*2+s-short), k)
		}
	}
	return crc
}

func tarOf(files ...[]byte) []byte {
	var b bytes.Buffer
	w := tar.NewWriter(&b)
	for i, f := range files {
		w.WriteHeader(&tar.Header{Name: fmt.Sprintf("m%04d", i), Mode: 0644, Size: int64(len(f)), Typeflag: tar.TypeReg})
		w.Write(f)
	}
	w.Close()
	return b.Bytes()
}

func archiveOf(files ...[]byte) []byte { return bzip2Encode(tarOf(files...), 100000) }
