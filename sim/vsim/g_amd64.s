#include "textflag.h"

// func Getg() uintptr
TEXT ·Getg(SB),NOSPLIT,$0-8
	MOVQ (TLS), AX
	MOVQ AX, ret+0(FP)
	RET
