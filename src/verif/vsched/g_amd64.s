#include "textflag.h"

// func gp() uintptr
TEXT ·gp(SB), NOSPLIT, $0-8
	MOVQ (TLS), AX
	MOVQ AX, ret+0(FP)
	RET
