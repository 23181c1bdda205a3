package vsched

func gp() uintptr

// goid identifies the running goroutine among the live ones.
func goid() uint64 { return uint64(gp()) }
