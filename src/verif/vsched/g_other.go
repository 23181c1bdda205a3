//go:build !amd64

package vsched

import "runtime"

func goid() (n uint64) {
	var b [40]byte
	runtime.Stack(b[:], false)
	for _, c := range b[10:] { // "goroutine 123 ["
		if c < '0' || c > '9' {
			break
		}
		n = n*10 + uint64(c-'0')
	}
	return
}
