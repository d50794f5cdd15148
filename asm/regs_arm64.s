// Calls the assembly with every register it may not rely on holding x, and
// reports whether the frame pointer survived.
#include "textflag.h"

// func verifRegs(h []uint32, p []byte, m1 []uint32, cs [][5]uint32, x uint64) (ok bool)
TEXT ·verifRegs(SB), 0, $120-105
	MOVD h_base+0(FP), R0
	MOVD R0, 8(RSP)
	MOVD h_len+8(FP), R0
	MOVD R0, 16(RSP)
	MOVD h_cap+16(FP), R0
	MOVD R0, 24(RSP)
	MOVD p_base+24(FP), R0
	MOVD R0, 32(RSP)
	MOVD p_len+32(FP), R0
	MOVD R0, 40(RSP)
	MOVD p_cap+40(FP), R0
	MOVD R0, 48(RSP)
	MOVD m1_base+48(FP), R0
	MOVD R0, 56(RSP)
	MOVD m1_len+56(FP), R0
	MOVD R0, 64(RSP)
	MOVD m1_cap+64(FP), R0
	MOVD R0, 72(RSP)
	MOVD cs_base+72(FP), R0
	MOVD R0, 80(RSP)
	MOVD cs_len+80(FP), R0
	MOVD R0, 88(RSP)
	MOVD cs_cap+88(FP), R0
	MOVD R0, 96(RSP)
	MOVD x+96(FP), R0
	MOVD R0, R1
	MOVD R0, R2
	MOVD R0, R3
	MOVD R0, R4
	MOVD R0, R5
	MOVD R0, R6
	MOVD R0, R7
	MOVD R0, R8
	MOVD R0, R9
	MOVD R0, R10
	MOVD R0, R11
	MOVD R0, R12
	MOVD R0, R13
	MOVD R0, R14
	MOVD R0, R15
	MOVD R0, R16
	MOVD R0, R17
	MOVD R0, R19
	MOVD R0, R20
	MOVD R0, R21
	MOVD R0, R22
	MOVD R0, R23
	MOVD R0, R24
	MOVD R0, R25
	MOVD R0, R26
	VDUP R0, V0.D2
	VDUP R0, V1.D2
	VDUP R0, V2.D2
	VDUP R0, V3.D2
	VDUP R0, V4.D2
	VDUP R0, V5.D2
	VDUP R0, V6.D2
	VDUP R0, V7.D2
	VDUP R0, V8.D2
	VDUP R0, V9.D2
	VDUP R0, V10.D2
	VDUP R0, V11.D2
	VDUP R0, V12.D2
	VDUP R0, V13.D2
	VDUP R0, V14.D2
	VDUP R0, V15.D2
	VDUP R0, V16.D2
	VDUP R0, V17.D2
	VDUP R0, V18.D2
	VDUP R0, V19.D2
	VDUP R0, V20.D2
	VDUP R0, V21.D2
	VDUP R0, V22.D2
	VDUP R0, V23.D2
	VDUP R0, V24.D2
	VDUP R0, V25.D2
	VDUP R0, V26.D2
	VDUP R0, V27.D2
	VDUP R0, V28.D2
	VDUP R0, V29.D2
	VDUP R0, V30.D2
	VDUP R0, V31.D2
	CALL ·@FN@(SB)
	MOVD RSP, R0
	SUB $8, R0
	CMP R0, R29
	CSET EQ, R1
	MOVB R1, ok+104(FP)
	RET
