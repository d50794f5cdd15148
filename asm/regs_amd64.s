// Calls the assembly with every register it may not rely on holding x, and
// reports whether the frame pointer survived.
#include "textflag.h"

// func verifRegs(h []uint32, p []byte, m1 []uint32, cs [][5]uint32, x uint64) (ok bool)
TEXT ·verifRegs(SB), 0, $112-105
	MOVQ h_base+0(FP), AX
	MOVQ AX, 0(SP)
	MOVQ h_len+8(FP), AX
	MOVQ AX, 8(SP)
	MOVQ h_cap+16(FP), AX
	MOVQ AX, 16(SP)
	MOVQ p_base+24(FP), AX
	MOVQ AX, 24(SP)
	MOVQ p_len+32(FP), AX
	MOVQ AX, 32(SP)
	MOVQ p_cap+40(FP), AX
	MOVQ AX, 40(SP)
	MOVQ m1_base+48(FP), AX
	MOVQ AX, 48(SP)
	MOVQ m1_len+56(FP), AX
	MOVQ AX, 56(SP)
	MOVQ m1_cap+64(FP), AX
	MOVQ AX, 64(SP)
	MOVQ cs_base+72(FP), AX
	MOVQ AX, 72(SP)
	MOVQ cs_len+80(FP), AX
	MOVQ AX, 80(SP)
	MOVQ cs_cap+88(FP), AX
	MOVQ AX, 88(SP)
	MOVQ x+96(FP), AX
	MOVQ AX, BX
	MOVQ AX, CX
	MOVQ AX, DX
	MOVQ AX, SI
	MOVQ AX, DI
	MOVQ AX, R8
	MOVQ AX, R9
	MOVQ AX, R10
	MOVQ AX, R11
	MOVQ AX, R12
	MOVQ AX, R13
	MOVQ AX, R15
	MOVQ AX, X0
	PUNPCKLQDQ X0, X0
	MOVO X0, X1
	MOVO X0, X2
	MOVO X0, X3
	MOVO X0, X4
	MOVO X0, X5
	MOVO X0, X6
	MOVO X0, X7
	MOVO X0, X8
	MOVO X0, X9
	MOVO X0, X10
	MOVO X0, X11
	MOVO X0, X12
	MOVO X0, X13
	MOVO X0, X14
	MOVO X0, X15
	CALL ·@FN@(SB)
	LEAQ 112(SP), AX
	CMPQ AX, BP
	SETEQ AX
	MOVB AX, ok+104(FP)
	RET
